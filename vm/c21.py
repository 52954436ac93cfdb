"""Parallel routing: every stream arrives exactly where it was sent."""
import random
from collections import OrderedDict

import torch

import continual as co

from . import nets, ref, util, zoo
from .core import Violation, ambient

CASES = {"quick": 3000, "thorough": 150000}
RULE = ("chains of Broadcast, Parallel, ParallelDispatch (reordered, copied, dropped, grouped, groups in groups), groups reduced by "
        "every operation or by nested parallel chains and Reduce, fed one input or a list of streams, in forward "
        "and random call schedules with peeks and clean_state, judged per stream and call against a routing "
        "reference; with automatic delays and, as lists, with unequal ones; non-trivial: outputs emitted after "
        "at least one parallel stage")
REACH = {"streams_out": 15000, "none_streams": 1500, "calls": 12000, "forwards": 1500, "dispatches": 1500,
         "groups": 600, "copies": 400, "drops": 200, "uneven": 300, "list_in": 600, "list_out": 600, "peeks": 500,
         "inferred": 300, "custom": 300, "nested": 200, "strided": 200, "k:br": 20, "restarts": 300, "solo": 50,
         "deep": 50, "tuples": 300}

RED = ["sum", "mul", "max", "concat", "weighted"]


def weighted(xs):  # depends on the order and number of streams
    return sum((i + 1) * x for i, x in enumerate(xs))


REDUCE = dict(ref.REDUCE, weighted=weighted)


# ---------------------------------------------------------------- generation
def rand_par(r, nd, c, S, width, depth, auto, stride=None):
    """One child for each entry of width (1 for a stream, n for a group of n)."""
    shrink = 0 if any(w != 1 for w in width) else r.choice([0, 0, 0, 1, 2])
    stride = 1 if any(w != 1 for w in width) else (stride or r.choice([1, 1, 1, 2, 3]))
    out = []
    for w in width:
        if w == 1:
            out.append(dict(b=nets.rand_branch(r, nd, nets.Shape(c, S), shrink, stride, c, 1)))
        elif depth > 0 and r.random() < 0.5:
            out.append(dict(nest=[rand_par(r, nd, c, S, [1] * w, depth - 1, True, 1),
                                  dict(red=r.choice(["sum", "mul", "max", "weighted"]))]))
        else:
            out.append(dict(nest=[dict(red=r.choice(["sum", "mul", "max", "weighted"]))]))
    st = dict(par=out)
    if r.random() < 0.25:
        st["named"] = True
    if not auto:
        st["auto"] = False
    return st


def rand_map(r, n):
    m = []
    for _ in range(r.randint(1, 4)):
        if r.random() < 0.3:
            m.append([r.randrange(n) for _ in range(r.choice([2, 2, 3]))])
        else:
            m.append(r.randrange(n))
    if r.random() < 0.4:  # a permutation
        m = list(range(n))
        r.shuffle(m)
    if r.random() < 0.15:  # counted from the end
        m = [i - n if isinstance(i, int) else i for i in m]
    return m


def deep_map(r, n, depth):
    """Groups inside of groups."""
    return [deep_map(r, n, depth - 1) if depth and r.random() < 0.5 else r.randrange(n)
            for _ in range(r.randint(1, 3))]


def generate(r, tier, idx):
    nd = r.choice([1, 1, 1, 2])
    c, S = r.choice([1, 2, 4]), [3] * (nd - 1)
    n = r.choice([2, 2, 3, 4])
    auto = r.random() < 0.75
    entry = r.choice(["bc", "bc", "infer", "list"])
    stages, width = [], [1] * n
    prev = n
    for i in range(r.randint(1, 4)):
        prev = len(width)
        grouped = any(w != 1 for w in width)
        if grouped or (i == 0 and entry == "infer") or r.random() < 0.55:
            stages.append(rand_par(r, nd, c, S, width, 1, auto))
            width = [1] * len(width)
        else:
            m = rand_map(r, len(width))
            stages.append(dict(disp=m))
            width = [1 if isinstance(x, int) else len(x) for x in m]
    end = r.random() < (0.75 if auto else 0.0)
    if end:
        if any(w != 1 for w in width):
            stages.append(rand_par(r, nd, c, S, width, 1, auto))
            width = [1] * len(width)
        stages.append(dict(red=r.choice(RED) if len(width) > 1 else "weighted"))
    if not end and "disp" in stages[-1] and r.random() < 0.5:
        stages[-1]["disp"] = deep_map(r, prev, 3)
    if entry == "bc":
        stages.insert(0, dict(bc=n))
    elif entry == "infer":
        stages.insert(0, dict(bc=None))
    k = 1 + sum(max([kspan(b) for b in st["par"]]) for st in stages if "par" in st)
    T = min(60, k + r.randint(0, 12))
    return dict(nd=nd, c=c, S=S, n=n, entry=entry, stages=stages, B=r.choice([1, 2]), T=T, auto=auto,
                cut=zoo.rand_cut(r, T), named=r.random() < 0.3, kind=r.choice(["randn", "neg", "ints", "randn"]),
                dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), peek=r.random() < 0.3,
                again=r.random() < 0.2, seqs=r.choice([0, 0, 1, 2, 3]), solo=len(stages) == 1)


def kspan(b):
    if "b" in b:
        return nets.kspec(b["b"])[0]
    return 1 + sum(max(kspan(x) for x in st["par"]) for st in b["nest"] if "par" in st)


# ---------------------------------------------------------------- reference
class Stage:
    """step: streams (nested lists, None: nothing yet) to streams; forward alike."""


class Bc(Stage):
    k, s, p = 1, 1, 0

    def __init__(self, n):
        self.n = n

    def step(self, x):
        return [x] * self.n

    forward = step

    def reset(self):
        pass


class Disp(Stage):
    k, s, p = 1, 1, 0

    def __init__(self, m):
        self.m = m

    def step(self, x):
        def pick(i):
            return [pick(j) for j in i] if isinstance(i, list) else x[i]

        return pick(self.m)

    forward = step

    def reset(self):
        pass


class Red(Stage):
    k, s, p = 1, 1, 0

    def __init__(self, f):
        self.f = f

    def step(self, x):
        return None if any(i is None for i in x) else self.f(x)

    forward = step

    def reset(self):
        pass


class Chain(Stage):
    def __init__(self, stages):
        self.stages = stages
        k, s, p = 1, 1, 0
        for c in stages:
            k, p, s = k + (c.k - 1) * s, p + c.p * s, s * c.s
        self.k, self.s, self.p = k, s, p

    def step(self, x):
        for st in self.stages:
            if x is None:
                return None
            x = st.step(x)
        return x

    def forward(self, x):
        for st in self.stages:
            x = st.forward(x)
        return x

    def reset(self):
        for st in self.stages:
            st.reset()


class Lag(Stage):
    """A child which the container delays to match its siblings."""

    def __init__(self, f, lag):
        self.f, self.lag, self.q = f, lag, []
        self.first = f.s > 1

    def step(self, x):
        if self.first:
            self.q.append(x)
            return self.f.step(self.q.pop(0)) if len(self.q) > self.lag else None
        o = self.f.step(x)
        if o is None:
            return None
        self.q.append(o)
        return self.q.pop(0) if len(self.q) > self.lag else None

    def forward(self, x):
        return self.f.forward(x)

    def reset(self):
        self.q = []
        self.f.reset()


class Par(Stage):
    def __init__(self, fs, auto):
        d = [f.k - 1 - f.p for f in fs]
        self.fs = [Lag(f, max(d) - i) if auto and i < max(d) else f for f, i in zip(fs, d)]
        self.s = fs[0].s
        self.p = max(f.p for f in fs)
        self.k = max(d) + 1 + self.p

    def step(self, x):
        return [None if i is None else f.step(i) for f, i in zip(self.fs, x)]

    def forward(self, x):
        return [f.forward(i) for f, i in zip(self.fs, x)]

    def reset(self):
        for f in self.fs:
            f.reset()


def sequences(m, how):
    """Lists, tuples inside of a list, tuples, or lists inside of a tuple."""
    def deep(i, kind):
        return kind(deep(j, kind) for j in i) if isinstance(i, list) else i

    return (list, list, tuple, tuple)[how](deep(i, (list, tuple, tuple, list)[how]) for i in m)


def make(case):
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    b = nets.Builder(case["seed"], dtype, style=case["style"])

    def chain(stages, named=False, wrap=True):
        pairs = [stage(st) for st in stages]
        if len(pairs) == 1 and not wrap:
            return pairs[0]
        ms = [m for m, _ in pairs]
        if named:
            m = co.Sequential(OrderedDict((f"s{i}", m) for i, m in enumerate(ms)))
        else:
            m = co.Sequential(*ms)
        return m, Chain([f for _, f in pairs])

    def stage(st):
        if "bc" in st:
            return co.Broadcast(*([st["bc"]] if st["bc"] else [])), Bc(st["bc"] or case["n"])
        if "disp" in st:
            how = case.get("seqs", 0)  # sequences of any kind are groups
            return co.ParallelDispatch(sequences(st["disp"], how)), Disp(st["disp"])
        if "red" in st:
            return co.Reduce(weighted if st["red"] == "weighted" else st["red"]), Red(REDUCE[st["red"]])
        pairs = [b.build(x["b"], True) if "b" in x else chain(x["nest"], wrap=len(x["nest"]) > 1) for x in st["par"]]
        ms = [m for m, _ in pairs]
        auto = st.get("auto", True)
        if st.get("named"):
            m = co.Parallel(OrderedDict((f"p{i}", m) for i, m in enumerate(ms)), auto_delay=auto)
        else:
            m = co.Parallel(*ms, auto_delay=auto)
        return m, Par([f for _, f in pairs], auto)

    with torch.no_grad():
        m, f = chain(case["stages"], case["named"], not case["solo"])
    return m.eval(), f


# ---------------------------------------------------------------- monitor
def tree(f, x):
    return [tree(f, i) for i in x] if isinstance(x, (list, tuple)) else f(x)


def join(steps):
    """Outputs of a number of steps, joined per stream."""
    first = steps[0]
    if isinstance(first, list):
        return [join([s[i] for s in steps]) for i in range(len(first))]
    return util.stack(steps)


def canon(x):
    """No output at all, of a stream: None; streams as a list."""
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    return x


def count(x):
    if isinstance(x, list):
        return sum(count(i) for i in x)
    return 0 if x is None else 1


def leaves(x):
    return sum(leaves(i) for i in x) if isinstance(x, list) else 1


def blank(x):
    return x is None or isinstance(x, list) and all(blank(i) for i in x)


def expect(got, exp, what, rtol, top=True):
    """Streams which all are silent may also come as one None."""
    if blank(exp):
        if not blank(got):
            raise Violation(f"{what}: got {util.describe(got)}, expected no output of any stream")
        return
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(exp):
            raise Violation(f"{what}: got {util.describe(got)}, expected {len(exp)} streams {util.describe(exp)}")
        for i, (a, b) in enumerate(zip(got, exp)):
            expect(a, b, f"{what}, stream {i}", rtol, False)
        return
    util.expect(got, exp, what, rtol)


@ambient
def run(case, ctx):
    m, f = make(case)
    rtol = {"f64": 1e-8, "f32": 2e-3}[case["dt"]]
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    stages = case["stages"]
    T = case["T"]

    def data(seed):
        def one(i):
            return util.data((case["B"], case["c"], T, *case["S"]), seed + i, case["kind"], dtype)

        if stages[0].get("bc", 0) != 0:
            return one(0)
        return [one(i) for i in range(case["n"])]

    listed = stages[0].get("bc", 0) == 0
    final = "red" in stages[-1]
    good = False
    rounds = 2 if case["again"] else 1
    r = random.Random(case["seed"])
    for rd in range(rounds):
        x = data(case["seed"] + 10 * rd)
        try:  # sequences too short for the windows are refused
            exp = f.forward(x)
        except RuntimeError:
            exp = None
        if exp is not None:
            expect(canon(m.forward(x)), exp, f"forward, round {rd}", rtol)
            ctx.count("forwards")
        t = 0
        for op, n in case["cut"]:
            if op == "m" and not case["auto"] and reduces(stages):
                op = "s"  # streams of unequal length cannot be reduced at once
            for _ in range(n if op == "s" else 1):
                w = 1 if op == "s" else n
                xs = tree(lambda v: v[:, :, t : t + w], x)
                outs = [f.step(tree(lambda v: v[:, :, j], xs)) for j in range(w)]
                outs = [o for o in outs if o is not None]
                what = f"call {op}{w} at step {t}, round {rd}"
                call = (lambda **kw: m.forward_step(tree(lambda v: v[:, :, 0], xs), **kw)) if op == "s" else (
                    lambda **kw: m.forward_steps(xs, **kw))
                exp = (outs[0] if outs else None) if op == "s" else (join(outs) if outs else None)
                if case["peek"] and r.random() < 0.4:
                    expect(canon(call(update_state=False)), exp, "peek, " + what, rtol)
                    ctx.count("peeks")
                expect(canon(call()), exp, what, rtol)
                ctx.count("calls")
                ctx.count("streams_out", count(exp))
                if isinstance(exp, list):
                    ctx.count("none_streams", leaves(exp) - count(exp))
                good = good or count(exp) > 0
                t += w
        m.clean_state()
        f.reset()
        ctx.count("restarts", rd > 0)
    tally(stages, ctx)
    ctx.count("list_in", listed)
    ctx.count("list_out", not final)
    ctx.count("uneven", not case["auto"])
    ctx.count("solo", case["solo"])
    ctx.count("tuples", case["seqs"] > 0)
    return good and any("par" in st or "disp" in st for st in stages)


def reduces(stages):
    return any("red" in st or any("nest" in b and reduces(b["nest"]) for b in st.get("par", [])) for st in stages)


def flatten(m):
    return [j for i in m for j in flatten(i)] if isinstance(m, list) else [m]


def tally(stages, ctx):
    width = None
    for st in stages:
        if "disp" in st:
            flat = flatten(st["disp"])
            ctx.count("deep", any(isinstance(j, list) for i in st["disp"] if isinstance(i, list) for j in i))
            ctx.count("dispatches")
            ctx.count("groups", any(isinstance(i, list) for i in st["disp"]))
            ctx.count("copies", len(set(flat)) < len(flat))
            ctx.count("drops", width is not None and len({j % width for j in flat}) < width)
            width = len(st["disp"])
        elif "bc" in st:
            ctx.count("inferred", st["bc"] is None)
            width = st["bc"]
        elif "red" in st:
            ctx.count("custom", st["red"] == "weighted")
        else:
            width = len(st["par"])
            for b in st["par"]:
                if "b" in b:
                    for k in nets.kinds(b["b"]):
                        ctx.count("k:" + k)
                    ctx.count("strided", nets.kspec(b["b"])[1] > 1)
                else:
                    ctx.count("nested", len(b["nest"]) > 1)
                    tally(b["nest"], ctx)
