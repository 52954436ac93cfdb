#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: turn bug specifications into /verif/seeded/<id>/.

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
For each bug: the patch is made in a scratch copy of /repo, the original lines it
changes are blamed, the stable tests and the demonstration are run with and without it,
and what is left is written to seeded/<id>.  With --check, the property's check is run
against it as well (by PYTHONPATH of the scratch copy).
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "1dd7c2b"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def env_for(repo):
    e = dict(os.environ)
    e.update(PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="2", MKL_NUM_THREADS="2")
    return e


def tests(repo, tmp):
    out = os.path.join(tmp, "o.json")
    txt = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {repo}")
    p = os.path.join(tmp, "test.sh")
    open(p, "w").write(txt)
    r = sh(["bash", p, out])
    d = json.load(open(out))
    passed = set(d.get("passed") or [k for k, v in d.items() if v == "passed"])
    return sorted(STABLE - passed), r.stdout[-300:]


def one(bug, check):
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    res = {"id": bug["id"], "prop": bug["prop"]}
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in bug["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = bug.get("nth", {}).get(f)
            if n is None:
                if s.count(old) != 1:
                    res["error"] = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                    return res
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[: n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(s)
        diff = sh(["git", "diff"], cwd=repo).stdout
        if not diff.strip():
            res["error"] = "empty diff"
            return res
        # blame the removed lines
        orig = 0
        cur, line = None, 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                line = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-"):
                b = sh(["git", "blame", "-l", "-L", f"{line},{line}", "HEAD", "--", cur], cwd=repo).stdout
                h = b.split()[0].lstrip("^")
                if sh(["git", "merge-base", "--is-ancestor", h, BASE], cwd=repo).returncode == 0:
                    orig += 1
                line += 1
            elif not l.startswith("+"):
                line += 1
        res["original_lines"] = orig
        demo = os.path.join(tmp, "demo.py")
        open(demo, "w").write(bug["demo"])
        d1 = sh([PY, "-W", "ignore", demo], cwd=repo, env=env_for(repo))
        d0 = sh([PY, "-W", "ignore", demo], cwd="/repo", env=env_for("/repo"))
        res["demo"] = (d0.returncode, d1.returncode)
        if d0.returncode:
            res["d0"] = d0.stdout[-400:]
        res["d1"] = d1.stdout.strip().splitlines()[-1:] if d1.stdout.strip() else ""
        missing, tail = tests(repo, tmp)
        res["tests_lost"] = missing[:4]
        ok = orig > 0 and d0.returncode == 0 and d1.returncode != 0 and not missing
        res["ok"] = ok
        if ok:
            dst = os.path.join(VERIF, "seeded", bug["id"])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            open(os.path.join(dst, "demo.py"), "w").write(bug["demo"])
            open(os.path.join(dst, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(dst, "demo.sh"), 0o755)
            json.dump({"property": bug["prop"], "needs": bug["needs"],
                       "what_it_breaks": bug["breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
        if check:
            v = os.path.join(tmp, "verif")
            shutil.copytree(VERIF, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded"))
            p = os.path.join(v, "check.sh")
            s = open(p).read().replace("/repo:", repo + ":")
            open(p, "w").write(s)
            p = os.path.join(v, "vm", "core.py")
            s = open(p).read().replace('REPO = "/repo"', f'REPO = "{repo}"')
            open(p, "w").write(s)
            p = os.path.join(v, "check.sh")
            e = dict(os.environ, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"),
                     VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_REPO=repo)
            props = [bug["prop"]] if check == "own" else check.split(",")
            res["check"] = {}
            for pr in props:
                r = sh([p, pr], cwd=v, env=e, timeout=1000)
                lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                res["check"][pr] = (r.returncode, len(lines), r.stdout[-300:] if r.returncode == 2 else "")
        return res
    except Exception as e:  # noqa
        res["error"] = repr(e)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    args = sys.argv[2:]
    check = None
    if "--check" in args:
        i = args.index("--check")
        check = args[i + 1]
        del args[i:i + 2]
    if args:
        spec = [b for b in spec if b["id"] in args]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for r in ex.map(lambda b: one(b, check), spec):
            print(json.dumps(r), flush=True)


if __name__ == "__main__":
    main()
