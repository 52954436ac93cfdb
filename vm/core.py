"""Runner: generates cases, runs them in forked workers under monitors, writes evidence.

Verdicts are three-valued: violated (exit 1, VIOLATION line and replay file), held on
what was observed (exit 0), inconclusive (exit 2: deciding monitor not reached, case
timed out too often, or the harness itself failed).
"""
import functools
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """The monitor observed an execution which contradicts the property."""


class Inconclusive(Exception):
    """The case turned out not to decide anything."""


class CaseTimeout(Exception):
    pass


class Ctx:
    """What a worker observed."""

    def __init__(self, prop):
        self.prop = prop
        self.n = Counter()
        self.findings = {}
        self.listed = known_findings(prop)

    def count(self, key, n=1):
        self.n[key] += n

    def finding(self, key, what):
        """A failure of a listed kind; an unlisted one is a violation."""
        if key not in self.listed:
            raise Violation(f"[{key}] {what}")
        self.findings.setdefault(key, what)
        self.n["known_finding:" + key] += 1


def known_findings(prop=None):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        d = json.load(f)
    return {
        e["key"]: e["what"]
        for e in d["known"]
        if prop is None or e["property"] == prop
    }


def case_hash(case):
    c = {k: v for k, v in case.items() if k not in ("seed",)}
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()


def from_repo(tb):
    """Whether an exception passed through the code under test: its files or, for methods which
    its classes inherit from torch, one of its objects."""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "/"):
            return True
        if not fn.startswith(ROOT + "/"):
            obj = tb.tb_frame.f_locals.get("self")
            if type(obj).__module__.split(".")[0] == "continual":
                return True
        tb = tb.tb_next
    return False


AMBIENT = ["no_grad"] * 3 + ["grad", "inference"]


def ambient(run):
    """Run each case without gradients, as users do who do not think of it, or in inference mode."""
    @functools.wraps(run)
    def go(case, ctx):
        import torch

        modes = run.__globals__.get("AMBIENT", AMBIENT)
        mode = modes[zlib.crc32(f"ambient {case.get('seed')}".encode()) % len(modes)]
        ctx.count("in_" + mode)
        with {"no_grad": torch.no_grad, "grad": torch.enable_grad, "inference": torch.inference_mode}[mode]():
            return run(case, ctx)
    return go


def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """Run a case; returns (status, message, nontrivial)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(mod.CASE_TIMEOUT if hasattr(mod, "CASE_TIMEOUT") else 60)
    try:
        nontrivial = mod.run(case, ctx)
        return "held", "", bool(nontrivial)
    except Violation as e:
        return "violated", str(e), True
    except Inconclusive as e:
        ctx.count("inconclusive")
        return "inconclusive", str(e), False
    except CaseTimeout:
        ctx.count("timeout")
        return "inconclusive", "timeout", False
    except Exception as e:  # unexpected exception
        tb = traceback.format_exc()
        if from_repo(e.__traceback__):
            return "violated", "unexpected exception: " + tb[-3000:], True
        return "error", tb, False
    finally:
        signal.alarm(0)
        reset_globals()


def reset_globals():
    """A case must not leak an active context into the next one."""
    import continual as co

    ctx = co.call_mode
    outer = getattr(ctx, "_outer", None)
    if outer:
        ctx.cur, ctx.prev = outer[0]
        outer.clear()


def quiet_torch():
    """One thread, and no oneDNN: its float32 convolutions read uninitialised memory for
    some strides (size-1 frames with large padding), which is no matter of /repo."""
    import torch

    torch.set_num_threads(1)
    torch.backends.mkldnn.enabled = False


def make_case(mod, prop, seed, tier, idx):
    rng = random.Random(f"{prop}/{seed}/{idx}")
    case = mod.generate(rng, tier, idx)
    if case is not None:
        case.setdefault("seed", rng.getrandbits(31))
    return case


def worker(modname, prop, seed, tier, wid, nw, total, deadline, q, stop):
    quiet_torch()
    mod = importlib.import_module(modname)
    ctx = Ctx(prop)
    res = dict(evals=0, hashes=set(), samples=[], violations=[], errors=[], done=0)
    idx = wid
    try:
        while idx < total and not stop.is_set():
            if time.time() > deadline:
                ctx.count("stopped_at_deadline")
                break
            case = make_case(mod, prop, seed, tier, idx)
            idx += nw
            if case is None:
                continue
            case = json.loads(json.dumps(case))
            status, msg, nontrivial = run_case(mod, case, ctx)
            res["evals"] += 1
            if nontrivial:
                res["hashes"].add(case_hash(case))
                if len(res["samples"]) < 2:
                    res["samples"].append(case)
            if status == "violated":
                res["violations"].append((case, msg))
                stop.set()
            elif status == "error":
                # No verdict by itself; a later case may still show a violation
                res["errors"].append((case, msg))
                if len(res["errors"]) >= 50:
                    break
    except BaseException:
        res["errors"].append((None, traceback.format_exc()))
        stop.set()
    res["counters"] = dict(ctx.n)
    res["findings"] = ctx.findings
    q.put((wid, res))


def write_replay(prop, case, msg):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{case_hash(case)[:12]}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, case=case, message=msg), f, indent=1)
    return path


def main(argv):
    prop = argv[0]
    modname = "vm." + prop.lower()
    mod = importlib.import_module(modname)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            case = json.load(f)["case"]
        quiet_torch()
        ctx = Ctx(prop)
        status, msg, _ = run_case(mod, case, ctx)
        print(status, msg)
        return {"held": 0, "violated": 1}.get(status, 2)

    nw = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    total = mod.CASES[tier]
    cap = getattr(mod, "CAP", {"quick": 200, "thorough": 780})[tier]
    deadline = t0 + cap
    mpc = mp.get_context("fork")
    q, stop = mpc.Queue(), mpc.Event()
    procs = [
        mpc.Process(
            target=worker,
            args=(modname, prop, seed, tier, w, nw, total, deadline, q, stop),
        )
        for w in range(nw)
    ]
    for p in procs:
        p.start()
    results, lost = {}, []
    hard = deadline + 90
    while len(results) + len(lost) < nw:
        try:
            wid, res = q.get(timeout=1)
            results[wid] = res
        except Exception:
            for w, p in enumerate(procs):
                if w not in results and w not in lost and not p.is_alive():
                    try:
                        wid, res = q.get(timeout=2)
                        results[wid] = res
                    except Exception:
                        lost.append(w)
            if time.time() > hard:
                for p in procs:
                    if p.is_alive():
                        p.kill()
                lost += [w for w in range(nw) if w not in results and w not in lost]
    for p in procs:
        p.join(5)

    counters, findings, hashes = Counter(), {}, set()
    evals, samples, violations, errors = 0, [], [], []
    for w in sorted(results):
        r = results[w]
        counters.update(r["counters"])
        findings.update(r["findings"])
        hashes |= r["hashes"]
        evals += r["evals"]
        samples += r["samples"][:1] if len(samples) < 4 else []
        violations += r["violations"]
        errors += r["errors"]
    if lost:
        errors.append((None, f"workers {lost} ended without a report"))

    need = getattr(mod, "REACH", {})
    unreached = {k: v for k, v in need.items() if counters[k] < v}
    if not hashes:
        unreached["distinct_nontrivial"] = 1
    timeouts = counters["timeout"]

    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(hashes),
            rule=mod.RULE,
            samples=samples[:4] or ["none"],
            observed=dict(sorted(counters.items())),
            exhaustive=False,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", [])
        + [
            "observes executions on CPU with the installed torch as reference semantics",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key, what in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} [{key}] {what}".replace("\n", " "))
    print(
        f"{prop} {tier} seed={seed}: {evals} cases, {len(hashes)} distinct non-trivial, "
        f"{evidence['wall_s']} s; observed "
        + ", ".join(f"{k}={v}" for k, v in sorted(counters.items()))
    )
    if violations:
        case, msg = violations[0]
        path = write_replay(prop, case, msg)
        print(msg[-3000:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR", errors[0][1], json.dumps(errors[0][0])[:2000])
        return 2
    if unreached:
        print("INCONCLUSIVE: monitors not reached often enough:", unreached)
        return 2
    if timeouts > max(3, evals // 20):
        print("INCONCLUSIVE: too many timeouts", timeouts)
        return 2
    return 0
