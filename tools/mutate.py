"""Mutation campaign: which small changes of /repo does no monitor notice?

  mutate.py list                          number of mutants by file
  mutate.py run OUT.jsonl [n] [seed] [files]  a random sample, JOBS at a time

Every mutant is a copy of continual/ on a scratch PYTHONPATH; a single process runs cases of all checks
round robin until the first violation (or CASES cases of each). Mutants which survive are listed for inspection;
`tests` says whether the test suite notices them. A development tool, not a check.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUTSRC", "/repo/continual")
SKIPF = {"__repr__", "extra_repr", "function_repr", "_get_name"}
FILES = ["closure.py", "container.py", "conv.py", "convert.py", "delay.py", "linear.py", "module.py", "onnx.py",
         "pooling.py", "positional_encoding.py", "ptflops.py", "rnn.py", "shape.py", "skip.py", "transformer.py",
         "utils.py", "multihead_attention/mha_base.py", "multihead_attention/retroactive_mha.py",
         "multihead_attention/single_output_mha.py"]
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "+"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.func = src, [], []
        self.offs = [0]
        for line in src.splitlines(True):
            self.offs.append(self.offs[-1] + len(line.encode()))
        self.b = src.encode()

    def span(self, n):
        return (self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.out.append(dict(a=a, b=b, new=new, old=self.b[a:b].decode(), kind=kind, line=n.lineno,
                                 func=".".join(self.func)))

    def visit_FunctionDef(self, n):
        if n.name in SKIPF or any("overload" in ast.dump(d) for d in n.decorator_list):
            return
        self.func.append(n.name)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            self.visit(s)
        self.func.pop()

    def visit_Assert(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def stmt(self, n):
        if self.func:
            self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.stmt(n)

    def visit_AugAssign(self, n):
        self.stmt(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if "logger" in self.text(n):
            return
        self.stmt(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.add(n, "return None", "return")
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, "True", "if")
        self.add(n.test, "False", "if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.text(n.body), "ifexp")
        self.add(n, self.text(n.orelse), "ifexp")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, f"{self.text(n.left)} {o} {self.text(n.comparators[0])}", "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            self.add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(self.text(v) for v in n.values) + ")", "bool")
            rest = [self.text(x) for x in n.values if x is not v]
            self.add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, "(" + self.text(n.operand) + ")", "unary")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        o = BIN.get(type(n.op))
        if o and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or o and not isinstance(getattr(n.left, "value", None), str):
            self.add(n, f"({self.text(n.left)}) {o} ({self.text(n.right)})", "bin")
            self.add(n, self.text(n.left), "bin")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            if v > 0:
                self.add(n, str(v - 1), "const")
        elif v is None:
            pass

    def visit_Call(self, n):
        if "logger" in self.text(n.func):
            return
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            self.add(n, self.text(n.func.value), "unwrap")
        if isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords:
            self.add(n, self.text(n.args[0]), "unwrap")
        args = [self.text(a) for a in n.args]
        kws = [self.text(k) for k in n.keywords]
        f = self.text(n.func)
        for i in range(len(kws)):
            self.add(n, f + "(" + ", ".join(args + kws[:i] + kws[i + 1:]) + ")", "dropkw")
        for i in range(len(args) - 1):
            sw = args[:i] + [args[i + 1], args[i]] + args[i + 2:]
            if not any(a.startswith("*") for a in args):
                self.add(n, f + "(" + ", ".join(sw + kws) + ")", "swap")
        self.generic_visit(n)

    def visit_For(self, n):
        self.add(n.iter, f"list({self.text(n.iter)})[1:]", "loop")
        self.add(n.iter, f"list({self.text(n.iter)})[:-1]", "loop")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and not isinstance(n.value, ast.Name) or isinstance(n.ctx, ast.Load) and n.value.id not in (
                "Tuple", "List", "Union", "Optional", "Callable", "Sequence", "Dict"):
            self.generic_visit(n)


def mutants():
    out = []
    for f in FILES:
        src = open(f"{SRC}/{f}").read()
        fd = Finder(src)
        fd.visit(ast.parse(src))
        seen = set()
        for m in fd.out:
            key = (m["a"], m["b"], m["new"])
            if key in seen:
                continue
            seen.add(key)
            b = src.encode()
            new = b[: m["a"]] + m["new"].encode() + b[m["b"]:]
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            out.append(dict(m, file=f))
    return out


def apply(m, d):
    shutil.copytree(SRC, f"{d}/continual", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/continual/{m['file']}"
    b = open(p, "rb").read()
    open(p, "wb").write(b[: m["a"]] + m["new"].encode() + b[m["b"]:])


def one(m, cases, checks=None):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        apply(m, d)
        env = dict(os.environ, PYTHONPATH=f"{d}:{ROOT}", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONHASHSEED="0", TMPDIR=d)
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.join(ROOT, "tools", "mutate.py"), "_probe", d,
                                str(cases), ",".join(checks or [])], env=env, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=2400)
            out = p.stdout.decode().strip().splitlines()
            res = json.loads(out[-1]) if out else dict(verdict="died")
        except subprocess.TimeoutExpired:
            res = dict(verdict="timeout")
        except ValueError:
            res = dict(verdict="died")
        return dict(m, **res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def probe(d, n, checks):
    """In the mutant's process: cases of all checks, round robin, until one is violated."""
    import importlib
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.WARNING)
    sys.path.insert(0, ROOT)
    try:
        from vm import core
        core.REPO = d
        core.quiet_torch()
        names = checks or [f"C{i:02d}" for i in range(1, 34)]
        mods = {}
        for c in names:
            mods[c] = importlib.import_module("vm." + c.lower())
            if hasattr(mods[c], "start"):
                mods[c].start()
    except BaseException as e:
        print(json.dumps(dict(verdict="import", msg=repr(e)[-200:])))
        sys.stdout.flush()
        os._exit(0)
    ctxs = {c: core.Ctx(c) for c in names}
    errs = []
    idx, step = 0, 4
    while idx < n:
        for c in names:
            for i in range(idx, idx + step):
                try:
                    case = core.make_case(mods[c], c, 7, "quick", i)
                except Exception as e:
                    errs.append((c, repr(e)[-150:]))
                    continue
                if case is None:
                    continue
                status, msg, _ = core.run_case(mods[c], json.loads(json.dumps(case)), ctxs[c])
                if status == "violated":
                    print(json.dumps(dict(verdict="killed", by=c, at=i, msg=msg.strip()[-150:])))
                    sys.stdout.flush()
                    os._exit(0)
                if status == "error":
                    errs.append((c, msg.strip()[-150:]))
                if msg == "timeout":
                    errs.append((c, "timeout"))
        idx += step
        step = min(step * 2, 32)
    print(json.dumps(dict(verdict="survived", errs=errs[:3])))
    sys.stdout.flush()
    os._exit(0)


def main():
    if sys.argv[1] == "_probe":
        checks = [c for c in sys.argv[4].split(",") if c] if len(sys.argv) > 4 else []
        return probe(sys.argv[2], int(sys.argv[3]), checks)
    ms = mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms), Counter(m["kind"] for m in ms))
        return
    out = sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    if len(sys.argv) > 5:
        ms = [m for m in ms if m["file"] in sys.argv[5].split(",")]
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for line in open(out):
            r = json.loads(line)
            done.add((r["file"], r["a"], r["b"], r["new"]))
    todo = [m for m in ms[:n] if (m["file"], m["a"], m["b"], m["new"]) not in done]
    from concurrent.futures import ThreadPoolExecutor, as_completed
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex, open(out, "a") as f:
        fs = [ex.submit(one, m, int(os.environ.get("CASES", "130"))) for m in todo]
        for x in as_completed(fs):
            f.write(json.dumps(x.result()) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
