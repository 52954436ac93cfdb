"""Every kind of module, and the ways to drive a stream through it."""
import torch

from . import nets, util
from .core import Violation
from .nets import Shape


def rand_stateful(r):
    """A single module with state, or a special one."""
    kind = r.choice(["conv", "conv", "pool", "pool", "adaptive", "rnn", "mha", "mha",
                     "enc", "rpe", "skip", "delay", "cond", "point", "mix"])
    if kind == "conv":
        nd = r.choice([1, 1, 2, 3])
        c, S = r.choice([1, 2, 4]), [r.choice([3, 4, 5]) for _ in range(nd - 1)]
        while True:
            spec = nets.rand_conv(r, nd, c)
            if nets.out_space(spec, S) is not None:
                return dict(spec=spec, c=c, S=S)
    if kind == "pool":
        nd = r.choice([1, 1, 2, 3])
        c, S = r.choice([1, 2, 3]), [r.choice([3, 4, 5]) for _ in range(nd - 1)]
        while True:
            spec = nets.rand_pool(r, nd)
            if nets.out_space(spec, S) is not None:
                return dict(spec=spec, c=c, S=S)
    if kind == "adaptive":
        nd = r.choice([2, 3])
        k = r.choice([1, 2, 3, 4])
        spec = dict(k=r.choice(["aavg", "amax"]), nd=nd, kt=k, st=r.choice([1, 1, 2]),
                    pt=0, out=[r.choice([1, 2]) for _ in range(nd - 1)])
        return dict(spec=spec, c=r.choice([1, 2]),
                    S=[r.choice([2, 3, 4]) for _ in range(nd - 1)])
    if kind == "rnn":
        c = r.choice([1, 2, 3])
        return dict(spec=rand_rnn(r, c), c=c, S=[])
    if kind == "mha":
        spec = rand_mha(r)
        return dict(spec=spec, c=spec["e"], S=[])
    if kind == "enc":
        spec = rand_enc(r)
        return dict(spec=spec, c=spec["e"], S=[])
    if kind == "rpe":
        e = r.choice([2, 4])
        return dict(spec=dict(k="rpe", e=e, n=r.choice([1, 2, 3, 5]),
                              learned=r.random() < 0.5), c=e, S=[])
    if kind == "skip":
        return dict(spec=dict(k="skip", n=r.choice([1, 1, 2, 4])), c=2,
                    S=[3] * r.choice([0, 1, 2]))
    if kind == "delay":
        return dict(spec=dict(k="delay", d=r.choice([0, 1, 2, 3, 5]),
                              shrink=r.choice([False, False, "centered", "lagging"])),
                    c=2, S=[3] * r.choice([0, 1, 2]))
    if kind == "cond":
        nd = r.choice([1, 2])
        sh = Shape(r.choice([1, 2]), [4] * (nd - 1))
        return dict(spec=nets.rand_cond(r, nd, sh, 1), c=sh.c, S=sh.S)
    if kind == "point":
        nd = r.choice([1, 2, 3])
        c = r.choice([1, 2, 3])
        return dict(spec=nets.rand_point(r, nd, c, [3] * (nd - 1)), c=c, S=[3] * (nd - 1))
    # Attention or recurrence between other layers
    e = r.choice([2, 4])
    mid = r.choice([lambda: rand_mha(r, e, "single"), lambda: rand_enc(r, e),
                    lambda: rand_rnn(r, e), lambda: dict(k="rpe", e=e, n=3, learned=True)])()
    pre = [dict(k="linear", cin=3, cout=e, bias=True),
           dict(k="conv", nd=1, cin=3, cout=e, ks=[3], ss=[r.choice([1, 1, 2])],
                ps=[0], ds=[1], g=1, bias=True, pm="zeros", fill="zeros")][r.random() < 0.5]
    c = nets.out_channels(mid, e)
    cs = [pre, mid]
    if r.random() < 0.6:
        cs.append(nets.rand_point(r, 1, c))
    z = dict(spec=dict(k="seq", c=cs), c=3, S=[])
    if r.random() < 0.4:
        cs.append(nets.rand_conv(r, 1, c))
        # forward of single-output attention has a single step
        z["nofwd"] = mid["k"] in ("mha", "enc")
    return z


def rand_rnn(r, c):
    spec = dict(k="rnn", t=r.choice(["RNN", "GRU", "LSTM"]), i=c, h=r.choice([1, 2, 4]),
                l=r.choice([1, 1, 2, 3]), bias=r.random() < 0.7)
    if r.random() < 0.3:
        spec["nl"] = "relu" if r.random() < 0.5 else "tanh"
    if spec["t"] == "LSTM" and spec["h"] > 1 and r.random() < 0.4:
        spec["proj"] = r.randint(1, spec["h"] - 1)
    return spec


def rand_mha(r, e=None, t=None):
    h = r.choice([1, 2]) if e else r.choice([1, 2, 3])
    e = e or h * r.choice([1, 2, 3])
    n = r.choice([2, 3, 4, 6])
    spec = dict(k="mha", t=t or r.choice(["retro", "single"]), e=e, h=h, n=n,
                bias=r.random() < 0.7)
    if spec["t"] == "single":
        spec["q"] = r.choice([-1, -1, -2, 0, n - 1])
    return spec


def rand_enc(r, e=None):
    h = r.choice([1, 2])
    return dict(k="enc", e=e or h * r.choice([1, 2]), h=h, ff=r.choice([2, 5]),
                n=r.choice([2, 3, 4, 5]), l=r.choice([1, 2]),
                act=r.choice(["relu", "gelu"]), norm=r.random() < 0.3)


def rand_any(r, single=0.5, ok=None, gates=False):
    """Any module or network: {"spec", "c", "S"}. Padded calls are not defined with gates, which shorten some branches only."""
    while True:
        z = rand_stateful(r) if r.random() < single else nets.rand_gated(r, 0) if gates and r.random() < 0.1 else nets.rand_net(r)
        if ok is None or ok(z["spec"]):
            return z


def has(spec, *kinds):
    return any(k in kinds for k in nets.kinds(spec))


# ---------------------------------------------------------------- schedules
def max_T(spec):
    """Longest sequence a call accepts (RecyclingPositionalEncoding is limited)."""
    return min([s["n"] for s in nets.walk(spec) if s["k"] == "rpe"] + [10**6])


def fwd(m, x):
    """forward; only the output of recurrent modules, which also return their state."""
    o = m.forward(x)
    return o[0] if isinstance(o, tuple) else o


def rand_cut(r, T, mx=10**6):
    """A way of cutting T steps into calls: [["s", 1] | ["m", n], ...]."""
    style = r.choice(["steps", "whole", "mixed", "mixed", "ones", "small"])
    cut = []
    while T > 0:
        if style == "steps":
            n, op = 1, "s"
        elif style == "whole":
            n, op = T, "m"
        elif style == "ones":
            n, op = 1, "m"
        elif style == "small":
            n, op = r.randint(1, 3), "m"
        else:
            n = r.choice([1, 1, 2, 3, 5, 8])
            op = "s" if n == 1 and r.random() < 0.6 else "m"
        n = min(n, T, mx)
        cut.append([op, n])
        T -= n
    return cut


def n_frames(o):
    """Number of time steps in an output of forward_steps (time is dim 2)."""
    if o is None:
        return 0
    if isinstance(o, (list, tuple)):
        return max(n_frames(i) for i in o)
    return o.shape[2]


def call(m, op, x):
    """Make one call; returns the list of output frames, privately copied."""
    if op == "s":
        o = m.forward_step(x[:, :, 0])
        return [] if o is None else [util.copy_out(o)]
    o = m.forward_steps(x)
    if o is None:
        return []
    o = util.copy_out(o)
    return [o[:, :, i] for i in range(o.shape[2])]


def drive(m, x, cut, ctx=None):
    """Drive a stream; returns the output frames of every call."""
    outs, t = [], 0
    for op, n in cut:
        outs.append(call(m, op, x[:, :, t : t + n]))
        if ctx is not None:
            ctx.count("calls")
            ctx.count("out_frames", len(outs[-1]))
        t += n
    return outs


def flat(outs):
    return [f for o in outs for f in o]


def expect_frames(got, exp, what, rtol=None):
    if len(got) != len(exp):
        raise Violation(f"{what}: {len(got)} outputs, expected {len(exp)}")
    for i, (a, b) in enumerate(zip(got, exp)):
        util.expect(a, b, f"{what}, output {i}", rtol)


def drive_expect(m, ref, x, cut, what, ctx=None, rtol=None):
    """Drive a stream and compare each call with the reference semantics."""
    t = n_none = n_out = 0
    for op, n in cut:
        xs = x[:, :, t : t + n]
        exp = [o for o in (ref.step(f) for f in util.frames(xs)) if o is not None]
        got = call(m, op, xs)
        expect_frames(got, exp, f"{what}, call {op}{n} at step {t}", rtol)
        t += n
        n_none += not exp
        n_out += len(exp)
    if ctx is not None:
        ctx.count("calls", len(cut))
        ctx.count("none_calls", n_none)
        ctx.count("out_frames", n_out)
    return n_out


def make(z, seed, dt="f64", **kw):
    """(module in evaluation mode, reference)."""
    dtype = {"f64": torch.float64, "f32": torch.float32}[dt]
    m, f = nets.build(z["spec"], seed, dtype=dtype, **kw)
    m.eval()
    return m, f


def stream(z, T, seed, kind="randn", B=1, dt="f64", S=None):
    dtype = {"f64": torch.float64, "f32": torch.float32}[dt]
    return util.data((B, z["c"], T, *(z["S"] if S is None else S)), seed, kind, dtype)


def span(z):
    """Steps needed until outputs flow, and the temporal stride."""
    k, s, p = nets.kspec(z["spec"])
    return k, s


def rand_kind(r, spec):
    """Kind of input data; attention in retroactive form sums plain exponentials."""
    if has(spec, "mha", "enc"):
        return r.choice(["randn", "randn", "neg", "small", "const"])
    return r.choice(util.KINDS)


def rtol(spec, dt):
    if has(spec, "mha", "enc"):
        return {"f64": 1e-6, "f32": 5e-3}[dt]
    return {"f64": 1e-8, "f32": 5e-4}[dt]
