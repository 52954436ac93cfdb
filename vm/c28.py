"""What cannot be streamed is refused; the nearest thing that can is accepted and streams correctly."""
import copy
import random
from collections import OrderedDict

import torch
from torch import nn

import continual as co

from . import nets, ref, util, zoo
from .core import Violation, ambient

CASES = {"quick": 4000, "thorough": 150000}
RULE = ("random configurations on both sides of the limits of what can be streamed: parallel branches of equal and unequal "
        "(effective) stride nested up to two deep, residuals around strided modules and of odd delay, dilations, pooling windows, "
        "adaptive sizes, delays, skips, names of options, query indices, dispatch mappings, predicates, closures, streams, layers without "
        "conversion inside containers, user classes and registrations lacking methods, frames of the wrong shape; invalid ones must raise before "
        "giving any output and leave what they were given as it was; valid ones must be built and equal the reference; "
        "non-trivial: refused, or accepted with outputs compared")
REACH = {"refused": 1200, "accepted": 900, "out_frames": 3000, "strides_refused": 120, "strides_ok": 80, "untouched": 150}
FAMILIES = {}


def family(weight=1):
    def deco(f):
        FAMILIES[f.__name__[2:]] = (f, weight)
        return f
    return deco


def generate(r, tier, idx):
    names = sorted(FAMILIES)
    name = r.choices(names, [FAMILIES[n][1] for n in names])[0]
    case = FAMILIES[name][0](r)
    if case is None:
        return None
    return dict(case, fam=name, style=r.randint(0, 99), B=r.choice([1, 2]), T=r.randint(0, 8))


# ------------------------------------------------------------- compositions
def stride_of(spec):
    return nets.kspec(spec)[1]


def consistent(spec):
    """All parallel branches anywhere have one stride."""
    return all(len({stride_of(c) for c in s["c"]}) == 1 for s in nets.walk(spec) if s["k"] == "br") and all(
        stride_of(s["c"]) == 1 for s in nets.walk(spec) if s["k"] == "res")


def odd_shrink(spec):
    for s in nets.walk(spec):
        if s["k"] == "res" and s["mode"] == "centered":
            k, _, p = nets.kspec(s["c"])
            if k - 2 * p != 1 and (k - 1 - p) % 2:
                return True
    return False


def composed(r, spec, nd, c):
    """Wrap the spec in further layers."""
    cs = [spec]
    if r.random() < 0.4:
        cs.append(nets.rand_point(r, nd, nets.out_channels(spec, c)))
    if r.random() < 0.4:
        cs.insert(0, nets.rand_point(r, nd, c))
    if len(cs) == 1 and r.random() < 0.7:
        return spec
    return dict(k="seq", c=cs)


@family(10)
def g_branches(r):
    nd, c = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3])
    S = [r.choice([3, 4]) for _ in range(nd - 1)]
    sh = nets.Shape(c, S)
    stride = r.choice([1, 2, 2, 3, 4])
    shrink = r.choice([0, 0, 1, 2])
    n = r.choice([2, 2, 3, 4, 5])
    cs = [nets.rand_branch(r, nd, sh, shrink, stride, c, r.choice([0, 0, 1])) for _ in range(n)]
    spec = dict(k="br", red=r.choice(["sum", "mul", "max", "concat"]), c=cs)
    spec[r.choice(["named", "long", "plain"])] = True
    if r.random() < 0.6:
        # Another stride somewhere below
        convs = [s for s in nets.walk(spec) if s["k"] in ("conv", "avg", "max")]
        if not convs:
            return None
        s = r.choice(convs)
        s["ss"] = [r.choice([q for q in (1, 2, 3, 4) if q != s["ss"][0]]), *s["ss"][1:]]
        s["brief"] = False
    ok = consistent(spec)
    return dict(spec=composed(r, spec, nd, c), nd=nd, c=c, S=S, ok=ok, strides=True)


@family(4)
def g_residual(r):
    nd, c = r.choice([1, 1, 2]), r.choice([1, 2])
    S = [r.choice([3, 4]) for _ in range(nd - 1)]
    mode = r.choice([False, False, "centered", "centered", "lagging", "leading"])
    stride = r.choice([1, 1, 1, 2, 3])
    k = r.choice([2, 3, 4, 5])
    if r.random() < 0.3:
        first = nets.rand_conv(r, nd, c, c, k=k, s=1, p=0, same=True, replicate=False)
        last = nets.rand_conv(r, nd, c, c, k=r.choice([1, 2, 3]), s=stride, p=0, same=True, replicate=False)
        inner = dict(k="seq", c=[first, last] if r.random() < 0.5 else [last, first])
    else:
        p = (k - 1) // 2 if mode is False and k % 2 else 0
        inner = nets.rand_conv(r, nd, c, c, k=k, s=stride, p=p, same=True, replicate=False)
    spec = dict(k="res", red=r.choice(["sum", "mul", "max"]), mode=mode, c=inner)
    ok = consistent(spec) and not odd_shrink(spec)
    kk, _, pp = nets.kspec(inner)
    return dict(spec=composed(r, spec, nd, c), nd=nd, c=c, S=S, ok=ok, strides=stride > 1,
                fwd=not (mode is False and kk - 2 * pp != 1))


def leaves(m):
    return [x for x in m.modules() if not list(x.children()) and isinstance(x, co.CoModule)]


def run_spec(case, ctx):
    spec = case["spec"]
    z = dict(spec=spec, c=case["c"], S=case["S"])
    if not case["ok"]:
        # Look over the shoulder of the builder: what it made before the refusal
        b = nets.Builder(case["seed"], dtype=util.F64, style=case["style"])
        made = []
        orig = b.build

        def build(s, wrap=False):
            m, f = orig(s, wrap)
            if s["k"] in ("conv", "avg", "max"):
                made.append((s, m, f))
            return m, f

        b.build = build
        with torch.no_grad():
            refused(lambda: b.build(spec, True), f"{spec}")
        ctx.count("strides_refused", case["strides"])
        # The modules which were to be composed are as good as new
        for s, m, f in made[:3]:
            if not isinstance(m, co.CoModule):
                continue
            m.eval()
            k = nets.kspec(s)[0]
            cin = s.get("cin", case["c"])
            x = util.data((case["B"], cin, k + 3, *case["S"]), case["seed"], "randn", util.F64)
            f.reset()
            zoo.drive_expect(m, f, x, [("step", 1)] * (k + 3), "module given to a refused container", ctx)
            ctx.count("untouched")
        return True
    m, f = zoo.make(z, case["seed"], style=case["style"])
    k, s, _ = nets.kspec(spec)
    T = k + case["T"] + s
    x = zoo.stream(z, T, case["seed"], B=case["B"])
    if case.get("fwd", True):
        util.expect(zoo.fwd(m, x), f.forward(x), "forward")
    n = zoo.drive_expect(m, f, x, [("step", 1)] * T, "stream", ctx)
    ctx.count("accepted")
    ctx.count("strides_ok", case["strides"])
    return n > 0


# ------------------------------------------------------------------ helpers
def refused(fn, what):
    """The call raises an ordinary exception."""
    try:
        out = fn()
    except Exception:
        return
    raise Violation(f"accepted: {what} (gave {util.describe(out) if torch.is_tensor(out) else type(out).__name__})")


def matches(m, x, full, ctx, what, first=None):
    """Step outputs are the frames of `full`, the first one at step `first`."""
    m.eval()
    got = []
    for t in range(x.shape[2]):
        o = m.forward_step(x[:, :, t])
        if o is not None:
            if first is not None and not got and t != first:
                raise Violation(f"{what}: first output at step {t}, expected {first}")
            got.append(o)
    zoo.expect_frames(got, [full[:, :, i] for i in range(full.shape[2])][: len(got)], what)
    if not got:
        raise Violation(f"{what}: no output")
    ctx.count("out_frames", len(got))


def X(case, *shape):
    return util.data((case["B"], *shape), case["seed"], "randn", util.F64)


# --------------------------------------------------------------- the layers
@family(3)
def g_dilation(r):
    nd = r.choice([1, 2, 3])
    d = [r.choice([1, 1, 2, 3]) for _ in range(nd)]
    what = r.choice(["conv", "conv", "convert", "build_from", "avg"])
    if what == "avg" and nd == 1:
        return None
    if r.random() < 0.3:
        d = [d[0]] * nd
    ok = d[0] == 1 if what != "avg" else all(q == 1 for q in d[1:])
    return dict(nd=nd, d=d, what=what, ok=ok, scalar=len(set(d)) == 1 and r.random() < 0.5)


def r_dilation(case, ctx):
    nd, d, k = case["nd"], tuple(case["d"]), (2, *[2] * (case["nd"] - 1))
    given = d[0] if case["scalar"] else d
    what = case["what"]

    def build():
        if what == "conv":
            return nets.CONV[nd][0](2, 2, k, dilation=given)
        if what == "avg":
            return nets.AVG[nd](k, 1, 0, dilation=given)
        n = nets.NNCONV[nd](2, 2, k, dilation=given)
        return co.continual(n) if what == "convert" else nets.CONV[nd][0].build_from(n)

    if not case["ok"]:
        return refused(build, f"{what} of dilation {given}")
    m = build().double()
    x = X(case, 2, 5 + 2 * d[0], *[5] * (nd - 1))
    if what == "avg":
        full = nets.FAVG[nd](x[:, :, :: 1], (1, *k[1:]), 1)
        full = (full[:, :, : full.shape[2] - d[0]] + full[:, :, d[0]:]) / 2
        return matches(m, x, full, ctx, "dilated average", d[0])
    full = nets.CONV[nd][1](x, m.weight, m.bias, dilation=d)
    util.expect(m.forward(x), full, "forward")
    matches(m, x, full, ctx, "dilated convolution", 1)


@family(2)
def g_pool(r):
    nd = r.choice([1, 2, 3])
    return dict(nd=nd, kt=r.choice([-1, 0, 0, 1, 2, 3]), kind=r.choice(["avg", "max"]),
                fill=r.choice(["zeros", "replicate", "neg_inf", None, None, None, "reflect", "none", ""]),
                ok=None)


def r_pool(case, ctx):
    nd, kt, fill = case["nd"], case["kt"], case["fill"]
    ok = kt > 0 and fill in ("zeros", "replicate", "neg_inf", None)
    cls = (nets.AVG if case["kind"] == "avg" else nets.MAX)[nd]
    k = (kt, *[2] * (nd - 1))

    def build():
        return cls(k, 1, 0, **({} if fill is None else dict(temporal_fill=fill)))

    if not ok:
        return refused(build, f"pooling over {k} with fill {fill!r}")
    x = X(case, 2, kt + 4, *[4] * (nd - 1))
    f = (nets.FAVG if case["kind"] == "avg" else nets.FMAX)[nd]
    matches(build(), x, f(x, k, 1), ctx, "pooling", kt - 1)


@family(2)
def g_adaptive(r):
    nd = r.choice([2, 3])
    out = [r.choice([1, 1, 1, 2, 3, None]), *[r.choice([1, 2]) for _ in range(nd - 1)]]
    return dict(nd=nd, out=out, kind=r.choice(["avg", "max"]), how=r.choice(["direct", "from", "scalar"]), kt=r.choice([2, 3]))


def r_adaptive(case, ctx):
    nd, out, kt = case["nd"], tuple(case["out"]), case["kt"]
    if case["how"] == "scalar":
        out = (out[0] or 2,) * nd
    ok = out[0] == 1
    avg = case["kind"] == "avg"
    cls = {2: (co.AdaptiveAvgPool2d, co.AdaptiveMaxPool2d), 3: (co.AdaptiveAvgPool3d, co.AdaptiveMaxPool3d)}[nd][not avg]
    ncls = {2: (nn.AdaptiveAvgPool2d, nn.AdaptiveMaxPool2d), 3: (nn.AdaptiveAvgPool3d, nn.AdaptiveMaxPool3d)}[nd][not avg]
    given = out[0] if case["how"] == "scalar" else out

    def build():
        if case["how"] == "from":
            return cls.build_from(ncls(given), kernel_size=kt)
        return cls(given, kernel_size=kt)

    if not ok:
        return refused(build, f"adaptive pooling to {given}")
    x = X(case, 2, kt + 3, *[4] * (nd - 1))
    full = torch.cat([ncls(out)(x[:, :, t:t + kt]) for t in range(4)], 2)
    matches(build(), x, full, ctx, "adaptive pooling", kt - 1)


@family(2)
def g_delay(r):
    return dict(d=r.choice([-2, -1, 0, 1, 2, 3]), what=r.choice(["delay", "delay", "skip", "retro"]),
                shrink=r.choice([True, False, False, "centered", "lagging", "leading", "both", None, ""]),
                fill=r.choice(["zeros", "replicate", "zeros", "reflect", "none"]))


def r_delay(case, ctx):
    d, shrink, fill = case["d"], case["shrink"], case["fill"]
    if case["what"] == "skip":
        if d < 1:
            return refused(lambda: co.Skip(d), f"Skip({d})")
        m, x = co.Skip(d), X(case, 2, d + 4)
        got = [m.forward_step(x[:, :, t]) for t in range(d + 4)]
        zoo.expect_frames([g for g in got[d:]], [x[:, :, t] for t in range(d, d + 4)], "skip")
        if any(g is not None for g in got[:d]):
            raise Violation("output of Skip before its number of steps")
        return ctx.count("out_frames", 4)
    ok = d >= 0 and shrink in (True, False, "centered", "lagging") and fill in ("zeros", "replicate")

    def build():
        return co.Delay(d, fill, shrink)

    if not ok:
        return refused(build, f"Delay({d}, {fill!r}, {shrink!r})")
    m, x = build(), X(case, 2, 2 * d + 5)
    first = {True: 2 * d, "centered": 2 * d}.get(shrink, d)
    got = [m.forward_step(x[:, :, t]) for t in range(2 * d + 5)]
    exp = [x[:, :, t - d] if t >= first else None for t in range(2 * d + 5)]
    for t, (a, b) in enumerate(zip(got, exp)):
        if (a is None) != (b is None):
            raise Violation(f"Delay({d}, auto_shrink={shrink!r}): step {t} gave {util.describe(a) if a is not None else None}")
        if a is not None:
            util.expect(a, b, f"delayed frame {t}", exact=True)
    ctx.count("out_frames", 5)


@family(2)
def g_names(r):
    return dict(pm=r.choice(["zeros", "replicate", "reflect", "circular", "constant", "neg_inf"]),
                fill=r.choice(["zeros", "replicate", "same", "reflect", "circular", "bogus"]),
                how=r.choice(["direct", "direct", "continual", "residual"]), nd=r.choice([1, 2]))


def r_names(case, ctx):
    nd, pm, fill, how = case["nd"], case["pm"], case["fill"], case["how"]
    good = ("zeros", "replicate")
    if how == "residual":
        inner = co.Conv1d(2, 2, 3)
        if fill not in good:
            return refused(lambda: co.Residual(inner, temporal_fill=fill), f"Residual with fill {fill!r}")
        m = co.Residual(inner.double(), temporal_fill=fill, residual_shrink="lagging")
        x = X(case, 2, 7)
        full = nn.functional.conv1d(x, inner.weight, inner.bias) + x[:, :, :-2]
        return matches(m, x, full, ctx, "residual", 2)
    if how == "continual":
        ok = pm in good

        def build():
            return co.continual((nn.Conv1d if nd == 1 else nn.Conv2d)(2, 2, 3, padding=1, padding_mode=pm))
    else:
        if pm == "neg_inf":
            return None
        ok = pm in good and fill in good

        def build():
            return nets.CONV[nd][0](2, 2, 3, padding=1, padding_mode=pm, temporal_fill=fill)
    if not ok:
        return refused(build, f"convolution with {pm!r}, {fill!r}")
    m = build().double()
    x = X(case, 2, 6, *[4] * (nd - 1))
    n = (nn.Conv1d if nd == 1 else nn.Conv2d)(2, 2, 3, padding=1, padding_mode=pm).double()
    n.load_state_dict(m.state_dict())
    util.expect(m.forward(x), n(x), "forward")
    ctx.count("out_frames", 6)


@family(2)
def g_reduce(r):
    return dict(red=r.choice(["sum", "concat", "mul", "max", "channel", "mean", "add", None, 3, "fn"]),
                how=r.choice(["reduce", "br", "residual"]), n=r.choice([0, 1, 2, 3]), named=r.random() < 0.4)


def r_reduce(case, ctx):
    red, how, n = case["red"], case["how"], case["n"]
    known = ("sum", "concat", "mul", "max", "fn")
    given = ref.REDUCE["sum"] if red == "fn" else red
    if how == "residual":
        n = 2
    ok = red in known and (n >= 2 or how == "reduce")
    if how == "reduce" and red in ("sum", "mul", "max") and n == 1:
        # One stream cannot be reduced
        x = [X(case, 2, 3)]
        return refused(lambda: co.Reduce(red)(x), f"{red} of one stream")
    ms = [co.Conv1d(2, 2, 2).double() for _ in range(max(n, 1))]

    def build():
        if how == "reduce":
            return co.Reduce(given)
        if how == "residual":
            return co.Residual(ms[0], reduce=given, residual_shrink="lagging")
        if case["named"]:
            return co.BroadcastReduce(OrderedDict((f"b{i}", ms[i]) for i in range(n)), reduce=given)
        return co.BroadcastReduce(*ms[:n], reduce=given)

    if not ok:
        return refused(build, f"{how} of {n} streams by {given!r}")
    m = build()
    f = ref.REDUCE["sum" if red == "fn" else red]
    if how == "reduce":
        n = max(n, 2)
        xs = [util.data((case["B"], 2, 4), case["seed"] + i, "randn", util.F64) for i in range(n)]
        util.expect(m(xs), f(xs), "Reduce")
        return ctx.count("out_frames")
    x = X(case, 2, 6)
    outs = [nn.functional.conv1d(x, q.weight, q.bias) for q in ms[:n]]
    if how == "residual":
        outs = [x[:, :, :-1], outs[0]]
    matches(m, x, f(outs), ctx, how, 1)


JUNK = [1.5, "a", None, {"0": 1}]


def mapping(r, depth, bad):
    out = [mapping(r, depth - 1, bad) if depth and r.random() < 0.4 else r.randint(0, 2) for _ in range(r.randint(1, 3))]
    return out


def spoil(r, mp):
    lists = [mp]
    while True:
        subs = [q for q in lists[-1] if isinstance(q, list)]
        if not subs or r.random() < 0.4:
            break
        lists.append(r.choice(subs))
    q = lists[-1]
    q[r.randrange(len(q))] = r.choice([1.5, None, {"0": 1}])


@family(2)
def g_dispatch(r):
    mp = mapping(r, 2, False)
    bad = r.random() < 0.5
    if bad:
        if r.random() < 0.25:
            mp = r.choice([0, 1.5, None, {"0": 1}])
        else:
            spoil(r, mp)
    return dict(mp=mp, ok=not bad, tup=r.random() < 0.3)


def tup(mp):
    return tuple(tup(q) for q in mp) if isinstance(mp, list) else mp


def r_dispatch(case, ctx):
    mp = tup(case["mp"]) if case["tup"] else case["mp"]
    if not case["ok"]:
        return refused(lambda: co.ParallelDispatch(mp), f"ParallelDispatch({mp!r})")
    m = co.ParallelDispatch(mp)
    xs = [util.data((case["B"], 2), case["seed"] + i, "randn", util.F64) for i in range(3)]

    def same(o, q):
        if isinstance(q, (list, tuple)):
            if len(o) != len(q):
                raise Violation(f"{len(o)} streams for {q}")
            for a, b in zip(o, q):
                same(a, b)
        else:
            util.expect(o, xs[q], "dispatched stream", exact=True)

    same(m.forward_step(xs), mp)
    ctx.count("out_frames")


@family()
def g_broadcast(r):
    return dict(n=r.choice([None, 1, 2, 3, 2.0, "2"]), how=r.choice(["forward", "forward_step", "forward_steps"]),
                par=r.choice([0, 0, 2, 3]))


def r_broadcast(case, ctx):
    n, par = case["n"], case["par"]
    x = X(case, 2, 5)
    if par:
        if n is not None and (not isinstance(n, int) or n != par):
            return None
        # The parallel stage tells how many streams there are
        m = co.Sequential(co.Broadcast(n) if n else co.Broadcast(), co.Parallel(*[co.Conv1d(2, 2, 2).double() for _ in range(par)]),
                          co.Reduce("sum"))
        full = sum(nn.functional.conv1d(x, q.weight, q.bias) for q in m[1])
        return matches(m, x, full, ctx, "broadcast", 1)
    xx = x[:, :, 0] if case["how"] == "forward_step" else x

    def build():
        return getattr(co.Broadcast(n), case["how"])(xx)

    if not isinstance(n, int):
        return refused(build, f"Broadcast({n!r}) alone")
    out = build()
    if len(out) != n:
        raise Violation(f"Broadcast({n}) gave {len(out)} streams")
    for o in out:
        util.expect(o, xx, "stream", exact=True)
    ctx.count("out_frames", n)


@family(2)
def g_closure(r):
    parts = [r.choice([None, "f", "f", 5]) for _ in range(3)]
    return dict(fn=r.choice([None, None, None, "f", 5, "x"]), parts=parts, what=r.choice(["lambda", "lambda", "cond", "add"]))


def r_closure(case, ctx):
    val = {"f": torch.tanh, None: None, 5: 5, "x": "x"}
    x = X(case, 2, 4)
    if case["what"] == "cond":
        bad = case["fn"] != "f"
        pred = val[case["fn"]] if bad else (lambda module, q: True)
        inner = co.Conv1d(2, 2, 2).double()
        if bad:
            return refused(lambda: co.Conditional(pred, inner), f"Conditional({pred!r}, ...)")
        return matches(co.Conditional(pred, inner), x, nn.functional.conv1d(x, inner.weight, inner.bias), ctx, "Conditional", 1)
    if case["what"] == "add":
        return matches(co.Add(2.0), x, x + 2.0, ctx, "Add", 0)
    parts = [val[q] for q in case["parts"]]
    kw = {k: v for k, v in zip(("forward_only_fn", "forward_step_only_fn", "forward_steps_only_fn"), parts) if v is not None}
    ok = case["fn"] == "f" or (case["fn"] is None and all(q == "f" for q in case["parts"]))
    if case["fn"] == "f":
        if 5 in case["parts"]:
            return None
        kw = {}

    def build():
        return co.Lambda(val[case["fn"]], **kw) if case["fn"] is not None else co.Lambda(**kw)

    if not ok:
        if case["fn"] is not None and all(q == "f" for q in case["parts"]):
            return None
        return refused(build, f"Lambda({case['fn']}, {case['parts']})")
    matches(build(), x, torch.tanh(x), ctx, "Lambda", 0)


UNKNOWN = {
    "fold": lambda: nn.Fold((2, 2), 2), "lstmcell": lambda: nn.LSTMCell(2, 2), "bilinear": lambda: nn.Bilinear(2, 2, 2),
    "convt": lambda: nn.ConvTranspose1d(2, 2, 2), "upsample": lambda: nn.Upsample(scale_factor=2),
    "embedding": lambda: nn.Embedding(3, 2), "lppool": lambda: nn.LPPool1d(2, 2), "flatten": lambda: nn.Flatten(),
    "modulelist": lambda: nn.ModuleList([nn.ReLU()]), "pad": lambda: nn.ConstantPad1d(1, 0.0), "cos": lambda: nn.CosineSimilarity(),
    "user": lambda: User(), "usersub": lambda: UserConv(2, 2, 2), "five": lambda: 5, "none": lambda: None, "unfold": lambda: nn.Unfold(2),
}
KNOWN = {
    "relu": (lambda: nn.ReLU(), lambda m, x: torch.relu(x)), "conv": (lambda: nn.Conv1d(2, 2, 1), lambda m, x: nn.functional.conv1d(x, m.weight, m.bias)),
    "sigmoid": (lambda: nn.Sigmoid(), lambda m, x: torch.sigmoid(x)), "elu": (lambda: nn.ELU(), lambda m, x: nn.functional.elu(x)),
    "fn": (lambda: (lambda x: x * 3.0), lambda m, x: x * 3.0),
}


class User(nn.Module):
    def forward(self, x):
        return x


class UserConv(nn.Conv1d):
    """A subclass may compute anything: not registered."""

    def forward(self, x):
        return super().forward(x).flip(2)


@family(3)
def g_unknown(r):
    known = r.random() < 0.35
    return dict(name=r.choice(sorted(KNOWN if known else UNKNOWN)), known=known,
                how=r.choice(["continual", "seq", "seq", "nnseq", "nested", "named", "append", "cond", "cond2", "br"]))


def r_unknown(case, ctx):
    name, how = case["name"], case["how"]
    layer = KNOWN[name][0]() if case["known"] else UNKNOWN[name]()
    if isinstance(layer, nn.Module):
        layer.double()
    nnm = isinstance(layer, nn.Module)
    if how in ("nnseq", "nested") and not nnm:
        how = "seq"
    if how == "br" and not case["known"]:
        how = "seq"
    orig = copy.deepcopy(layer) if nnm else layer
    conv = co.Conv1d(2, 2, 2).double()

    def yes(module, x):
        return True

    def build():
        if how == "continual":
            return co.continual(layer)
        if how == "seq":
            return co.Sequential(conv, layer)
        if how == "named":
            return co.Sequential(OrderedDict(a=conv, b=layer))
        if how == "append":
            s = co.Sequential(conv)
            s.append(layer)
            return s
        if how == "nnseq":
            return co.continual(nn.Sequential(nn.ReLU(), layer))
        if how == "nested":
            return co.continual(nn.Sequential(nn.ReLU(), nn.Sequential(nn.ReLU(), layer)))
        if how == "cond":
            return co.Conditional(yes, layer)
        if how == "cond2":
            return co.Conditional(lambda module, x: False, co.Conv1d(2, 2, 1).double(), layer)
        return co.BroadcastReduce(co.continual(layer), co.Add(0.0))

    if how == "cond2" and layer is None:
        return None
    if not case["known"]:
        refused(build, f"{name} in {how}")
        if nnm:
            # What was refused is still the plain module
            if type(layer) is not type(orig) or "forward_step" in vars(layer) or hasattr(layer, "forward_step"):
                raise Violation(f"the refused {name} was converted all the same")
            for (a, p), (b, q) in zip(orig.state_dict().items(), layer.state_dict().items()):
                util.expect(q, p, f"parameter {b} of a refused module", exact=True)
            ctx.count("untouched")
        return
    m = build()
    x = X(case, 2, 5)
    y = x
    lead = 0
    if how in ("seq", "named", "append"):
        y, lead = nn.functional.conv1d(x, conv.weight, conv.bias), 1
    elif how in ("nnseq", "nested"):
        y = torch.relu(x)
    y = KNOWN[name][1](orig, y)
    if how == "br":
        y = y + x
    matches(m, x, y, ctx, f"{name} in {how}", lead)


# ------------------------------------------------------------------ attention
@family(3)
def g_attention(r):
    n = r.choice([1, 2, 3, 4])
    return dict(n=n, q=r.randint(-n - 2, n + 1), e=r.choice([2, 4, 6]), h=r.choice([1, 2, 3, 4]), what=r.choice(["mha", "mha", "enc", "retro", "stack"]),
                act=r.choice(["relu", "gelu", "relu", "tanh", "swish", ""]), n0=r.choice([None, None, None, 0, -1]))


def r_attention(case, ctx):
    n, q, e, h = case["n"], case["q"], case["e"], case["h"]
    kind = case["what"]
    if n < 2:
        n = 2
    seq = n if case["n0"] is None or kind == "mha" else case["n0"]
    ok = e % h == 0 and seq > 0
    if kind in ("mha", "enc"):
        ok = ok and -n <= q < n
    if kind == "stack":
        ok = ok and case["act"] in ("relu", "gelu") and q < 3

    def build():
        if kind == "mha":
            return co.SingleOutputMultiheadAttention(e, h, sequence_len=n, query_index=q, batch_first=True, embed_dim_second=True,
                                                     forward_returns_attn_mask=False)
        if kind == "stack":
            f = co.TransformerEncoderLayerFactory(e, h, dim_feedforward=3, dropout=0.0, activation=case["act"], sequence_len=seq)
            return co.TransformerEncoder(f, num_layers=max(q, 1))
        kw = dict(dim_feedforward=3, dropout=0.0, activation=getattr(nn.functional, case["act"] or "relu", torch.relu), sequence_len=seq)
        if kind == "enc":
            return co.SingleOutputTransformerEncoderLayer(e, h, query_index=q, **kw)
        return co.RetroactiveTransformerEncoderLayer(e, h, **kw)

    if not ok:
        def use():
            # Refused when built or before the first output
            m = build().double().eval()
            x = X(case, e, 3 * n)
            for t in range(3 * n):
                o = m.forward_step(x[:, :, t])
                if o is not None:
                    break
            return o

        return refused(use, f"{kind}: n {seq}, query {q}, width {e}, heads {h}, activation {case['act']!r}")
    m = build().double().eval()
    x = X(case, e, n + 2)
    if kind == "mha":
        t = nn.MultiheadAttention(e, h, batch_first=True).double().eval()
        t.load_state_dict(m.state_dict())
    else:  # C04 compares values; here the outputs start in time
        outs = [m.forward_step(x[:, :, t]) is not None for t in range(n + 2)]
        lead = n - 1
        if outs != [t >= lead for t in range(n + 2)]:
            raise Violation(f"outputs at {[t for t, o in enumerate(outs) if o]}, expected from {lead}")
        return ctx.count("out_frames", sum(outs) or 1)
    for s in range(n + 2):
        o = m.forward_step(x[:, :, s])
        if s < n - 1:
            if o is not None:
                raise Violation("output before the window is full")
            continue
        w = x[:, :, s - n + 1: s + 1].transpose(1, 2)
        full = t(w, w, w, need_weights=False)[0][:, q]
        o = o[0] if isinstance(o, tuple) else o
        util.expect(o.reshape(full.shape), full, f"attention of query {q}")
        ctx.count("out_frames")


@family()
def g_positions(r):
    n = r.choice([1, 2, 3, 5])
    return dict(n=n, t=n + r.choice([-1, 0, 0, 1, 1, 2]), learned=r.random() < 0.5, adv=r.choice([0, 0, 1, 2, n, n + 1]))


def r_positions(case, ctx):
    n, T = case["n"], case["t"]
    if T < 1:
        return None
    m = co.RecyclingPositionalEncoding(4, n, forward_update_index_steps=case["adv"], learned=case["learned"]).double().eval()
    x = X(case, 4, T)
    if T > n:
        refused(lambda: m.forward(x), f"forward of {T} steps with {n} positions")
        T, x = n, x[:, :, :n]  # and goes on at position zero
    full = m.forward(x)
    again = m.forward(x)  # starts as many positions later as the module was told
    m.clean_state()
    outs = torch.stack([m.forward_step(x[:, :, t]) for t in range(T)], 2)
    util.expect(outs, full, "positions")
    m.clean_state()
    for _ in range(case["adv"]):
        m.forward_step(x[:, :, 0])
    util.expect(torch.stack([m.forward_step(x[:, :, t]) for t in range(T)], 2), again, "positions of the second forward")
    ctx.count("out_frames", T)


# ----------------------------------------------------------------- call modes
@family()
def g_mode(r):
    return dict(mode=r.choice(["forward", "forward_step", "forward_steps", "step", "backward", "", "forwardstep", 7, -9, 1, 2, 3]),
                how=r.choice(["context", "attribute", "child"]))


def r_mode(case, ctx):
    mode, how = case["mode"], case["how"]
    ok = mode in ("forward", "forward_step", "forward_steps", 1, 2, 3)
    conv = co.Conv1d(2, 2, 2).double().eval()
    m = co.Sequential(conv, nn.ReLU()).eval()
    x = X(case, 2, 5)
    if ok or isinstance(mode, int):
        if isinstance(mode, int):
            return None  # numbers: C13
        if how == "context":
            with co.call_mode(mode):
                o = m(x[:, :, 0] if mode == "forward_step" else x)
        else:
            m.call_mode = mode
            o = m(x[:, :, 0] if mode == "forward_step" else x)
        if mode == "forward_step":
            if o is not None:
                raise Violation("first step gave an output")
        else:
            util.expect(o, torch.relu(nn.functional.conv1d(x, conv.weight, conv.bias)), mode)
        return ctx.count("out_frames")

    def use():
        if how == "context":
            with co.call_mode(mode):
                return m(x)
        (m if how == "attribute" else conv).call_mode = mode

    refused(use, f"call mode {mode!r} by {how}")
    # and nothing of it remains
    util.expect(m(x), torch.relu(nn.functional.conv1d(x, conv.weight, conv.bias)), "call after a refused mode")
    ctx.count("untouched")


# ------------------------------------------------------------------- classes
NEEDED = ["forward", "forward_step", "forward_steps", "get_state", "set_state", "clean_state"]


@family(2)
def g_class(r):
    return dict(drop=r.choice(NEEDED + [None, None]), prop=r.choice([None, None, None, "delay", "receptive_field", "stride", "padding"]),
                bad=r.choice(["three", 1.5, None]), how=r.choice(["subclass", "subclass", "register", "foreign"]),
                bf=r.random() < 0.6)


def r_class(case, ctx):
    drop, prop, how = case["drop"], case["prop"], case["how"]
    ns = {}
    if how != "foreign":
        ns.update(forward=lambda self, x: x * 2.0, _forward_step=lambda self, x, prev_state=None: (x * 2.0, prev_state))
        if drop:
            ns[drop] = None
        if prop:
            ns[prop] = case["bad"]

        def cls():
            return type("Mine", (co.CoModule, nn.Module), dict(ns))
    else:
        # A class of another family with all that is needed, or not
        for name in NEEDED:
            ns[name] = lambda self, x=None, *a, **k: None if x is None else x * 2.0
        ns.update(delay=0, receptive_field=1, stride=(1,), padding=(0,), _state_shape=0, _dynamic_state_inds=[])
        if drop:
            del ns[drop]
        if prop:
            ns[prop] = case["bad"]
        if drop == "forward":
            ns["forward"] = None

        def cls():
            return type("Foreign", (nn.Module,), dict(ns))
    good = drop is None and prop is None
    source = type("Source", (nn.Module,), dict(forward=lambda self, x: x * 2.0))
    x = X(case, 2, 4)
    if how == "subclass":
        if not good:
            return refused(cls, f"CoModule subclass without {drop or prop}")
        m = cls()()
        matches(m, x, x * 2.0, ctx, "user module", 0)
        n = co.Sequential(co.Delay(1), cls()())
        return matches(n, x, x[:, :, :-1] * 2.0, ctx, "user module in Sequential", 1)
    if how == "register" and not good:
        return refused(cls, "class")
    C = cls()
    if case["bf"]:
        C.build_from = staticmethod(lambda module: C())
    elif how == "register":
        return None  # CoModule has a default
    ok = good and case["bf"]
    if not ok:
        refused(lambda: co.convert.register(source, C), f"registration of a class without {drop or prop or 'build_from'}")
        # and it is not registered
        return refused(lambda: co.Sequential(co.Delay(1), source()), "a layer whose registration was refused")
    co.convert.register(source, C)
    try:
        m = co.Sequential(co.Delay(1), source())
        if type(m[1]) is not C:
            raise Violation(f"registered conversion gave {type(m[1]).__name__}")
        matches(m, x, x[:, :, :-1] * 2.0, ctx, "registered conversion", 1)
    finally:
        getattr(co.convert, "MODULE_MAPPING", {}).pop(source, None)


# -------------------------------------------------------------------- frames
@family(2)
def g_frames(r):
    nd = r.choice([1, 2, 3])
    return dict(nd=nd, kind=r.choice(["avg", "max", "conv"]), op=r.choice(["forward_step", "forward_steps"]),
                off=r.choice([-1, 1, 1]), n=r.randint(0, 3))


def r_frames(case, ctx):
    """A frame with the wrong number of dimensions is refused, and the stream goes on."""
    nd, op, n = case["nd"], case["op"], case["n"]
    if case["kind"] == "conv":
        if op == "forward_step" and case["off"] == -1 or op == "forward_steps" and case["off"] == 1:
            return None  # left to torch, which knows unbatched inputs
        m = nets.CONV[nd][0](2, 2, 2).double().eval()
        full = lambda x: nets.CONV[nd][1](x, m.weight, m.bias)
    else:
        m = (nets.AVG if case["kind"] == "avg" else nets.MAX)[nd](2, 1).eval()
        full = lambda x: (nets.FAVG if case["kind"] == "avg" else nets.FMAX)[nd](x, 2, 1)
    x = X(case, 2, 6, *[4] * (nd - 1))
    for t in range(n):
        m.forward_step(x[:, :, t])
    good = x[:, :, 0] if op == "forward_step" else x[:, :, :2]
    bad = good.unsqueeze(-1) if case["off"] == 1 else good[0, ..., 0] if good.dim() > 3 else good[..., 0]
    if case["kind"] == "conv" and op == "forward_step" and bad.dim() == nd + 2 and nd < 3:
        bad = bad.expand(*bad.shape[:-1], 3)
    refused(lambda: getattr(m, op)(bad), f"{case['kind']} {op} of {tuple(bad.shape)}")
    y = full(x)
    for t in range(n, 6):
        o = m.forward_step(x[:, :, t])
        if t >= 1:
            util.expect(o, y[:, :, t - 1], f"step {t} after a refused frame")
            ctx.count("out_frames")
    ctx.count("untouched")


@ambient
def run(case, ctx):
    torch.manual_seed(case["seed"])
    if "spec" in case:
        ok = run_spec(case, ctx)
        ctx.count("refused" if not case["ok"] else "accepted_spec")
        ctx.count("fam_" + case["fam"])
        return ok
    before = ctx.n["out_frames"]
    globals()["r_" + case["fam"]](case, ctx)
    ctx.count("fam_" + case["fam"])
    ctx.count("accepted" if ctx.n["out_frames"] > before else "refused")
    return True
