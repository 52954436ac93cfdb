"""Random network specifications and their construction.

A specification is JSON: {"k": kind, ...}. `build` makes the real network and its
reference semantics side by side; the reference keeps its own copies of the weights.
Layouts: sequences (B, C, T, *S), frames (B, C, *S).
"""
import random
from collections import OrderedDict
from functools import partial

import torch
import torch.nn.functional as F
from torch import nn

import continual as co

from . import probes, ref, users
from .util import F64, gen

CONV = {1: (co.Conv1d, F.conv1d), 2: (co.Conv2d, F.conv2d), 3: (co.Conv3d, F.conv3d)}
NNCONV = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}
AVG = {1: co.AvgPool1d, 2: co.AvgPool2d, 3: co.AvgPool3d}
MAX = {1: co.MaxPool1d, 2: co.MaxPool2d, 3: co.MaxPool3d}
FAVG = {1: F.avg_pool1d, 2: F.avg_pool2d, 3: F.avg_pool3d}
FMAX = {1: F.max_pool1d, 2: F.max_pool2d, 3: F.max_pool3d}

# Time-local functions of a sequence, also used inside co.Lambda
FUNCS = {
    "double": lambda x: x * 2.0,
    "square": lambda x: x * x,
    "tanh": torch.tanh,
    "negabs": lambda x: -x.abs(),
    "shift": lambda x: x + 0.25,
}
ACTS = {
    "relu": (nn.ReLU, F.relu),
    "sigmoid": (nn.Sigmoid, torch.sigmoid),
    "tanh": (nn.Tanh, torch.tanh),
    "leaky": (nn.LeakyReLU, F.leaky_relu),
    "elu": (nn.ELU, F.elu),
    "gelu": (nn.GELU, F.gelu),
    "hardswish": (nn.Hardswish, F.hardswish),
    "softplus": (nn.Softplus, F.softplus),
    "softmax1": (lambda: nn.Softmax(dim=1), lambda x: F.softmax(x, 1)),
    "dropout": (lambda: nn.Dropout(0.5), lambda x: x),  # evaluation mode
    "silu": (nn.SiLU, F.silu),
    "hardtanh": (nn.Hardtanh, F.hardtanh),
    "relu6": (nn.ReLU6, F.relu6),
    "celu": (nn.CELU, F.celu),
    "selu": (nn.SELU, F.selu),
    "logsigmoid": (nn.LogSigmoid, F.logsigmoid),
    "softshrink": (nn.Softshrink, F.softshrink),
    "softsign": (nn.Softsign, F.softsign),
    "tanhshrink": (nn.Tanhshrink, F.tanhshrink),
    "softmin1": (lambda: nn.Softmin(dim=1), lambda x: F.softmin(x, 1)),
    "logsoftmax1": (lambda: nn.LogSoftmax(dim=1), lambda x: F.log_softmax(x, 1)),
    "rrelu": (nn.RReLU, lambda x: F.leaky_relu(x, (1 / 8 + 1 / 3) / 2)),  # evaluation mode
}
CONST = {True: lambda module, x: True, False: lambda module, x: False}
for _n, _f in [*FUNCS.items(), *((f"const{b}", f) for b, f in CONST.items())]:  # as users name theirs
    if _f.__name__ == "<lambda>":
        _f.__qualname__ = "fn_" + _n
        globals()["fn_" + _n] = _f


def _checked(f, letter, nd, x):
    dim = nd + 1 if letter == "s" else nd + 2
    assert x.dim() == dim, f"function {letter} of a Lambda called with {x.dim()} dimensions"
    return f(x)


BN = {1: nn.BatchNorm1d, 2: nn.BatchNorm2d, 3: nn.BatchNorm3d}


# ---------------------------------------------------------------- generation
def rand_conv(r, nd, cin, cout=None, k=None, s=None, p=None, same=False, groups=True,
              replicate=True, rich=True):
    k = k or r.choice([1, 2, 2, 3, 3, 4, 5])
    s = s or r.choice([1, 1, 1, 2, 3])
    if p is None:
        p = r.choice([0, 0, (k - 1) // 2, r.randint(0, k - 1)])
    g = 1
    if groups and cin % 2 == 0 and r.random() < 0.3:
        g = 2
    cout = cout or g * r.choice([1, 2, 3] if g == 1 else [1, 2])
    if cout % g:
        g = 1
    ks, ss, ps, ds = [k], [s], [p], [1]
    for _ in range(nd - 1):
        sk = r.choice([1, 2, 3, 3])
        sd = r.choice([1, 1, 2]) if rich else 1
        st = r.choice([1, 1, 2]) if rich else 1
        if same:
            sk = r.choice([1, 3])
            sd = sd if sk > 1 else 1
            st, pad = 1, sd * (sk - 1) // 2
        else:
            pad = r.randint(0, sk // 2 + 1) if rich else r.randint(0, sk // 2)
        ks.append(sk), ss.append(st), ps.append(pad), ds.append(sd)
    pm = "replicate" if replicate and r.random() < 0.2 else "zeros"
    return dict(k="conv", nd=nd, cin=cin, cout=cout, ks=ks, ss=ss, ps=ps, ds=ds, g=g,
                bias=r.random() < 0.7, pm=pm, fill=pm, brief=r.random() < 0.3)


def rand_pool(r, nd, k=None, s=None, p=None, same=False, kind=None, S=None):
    kind = kind or r.choice(["avg", "max"])
    free = s is None
    k = k or r.choice([1, 2, 2, 3, 3, 4, 5])
    s = s or r.choice([1, 1, 1, 2, 3])
    d = 1
    if kind == "max" and k > 1 and p is None and r.random() < 0.3:
        d = r.choice([2, 2, 3])
    if p is None:
        p = r.choice([0, 0, r.randint(0, k // 2)])
    ks, ss, ps, ds = [k], [s], [p], [d]
    for _ in range(nd - 1):
        sk, st, sd = r.choice([1, 2, 3]), r.choice([1, 1, 2]), 1
        pad = r.randint(0, sk // 2)
        if same:
            sk = r.choice([1, 3]) if S is None or min(S) >= 3 else 1
            st, pad = 1, sk // 2
        elif kind == "max" and r.random() < 0.2:
            sd = 2
        ks.append(sk), ss.append(st), ps.append(pad), ds.append(sd)
    spec = dict(k=kind, nd=nd, ks=ks, ss=ss, ps=ps, ds=ds, brief=r.random() < 0.4)
    if spec["brief"] and not same and free and r.random() < 0.5:
        spec["ss"] = list(ks)  # as without the argument
    if kind == "avg" and nd > 1 and p == 0:
        spec["cip"] = r.random() < 0.7
    return spec


def out_space(spec, S):
    """Spatial size after a windowed layer; None if it does not fit."""
    out = []
    for i, n in enumerate(S):
        k = spec["ds"][i + 1] * (spec["ks"][i + 1] - 1) + 1
        m = (n + 2 * spec["ps"][i + 1] - k) // spec["ss"][i + 1] + 1
        if n + 2 * spec["ps"][i + 1] < k or m < 1:
            return None
        if spec["k"] in ("avg", "max") and n < k:
            return None  # refused by torch for 3d pooling
        out.append(m)
    return out


def rand_point(r, nd, c, S=None):
    t = r.choice(["act", "act", "bn", "lambda", "linear", "add", "mul", "conv1", "ident", "prelu"])
    if r.random() < 0.02:
        return dict(k="const", v=r.choice([0, 1, 0.75, -2]))
    if t == "prelu":
        return dict(k="prelu", c=r.choice([1, c]))
    if t == "act":
        return dict(k="act", f=r.choice(sorted(ACTS)))
    if t == "bn":
        return dict(k="bn", nd=nd, c=c)
    if t == "lambda":
        spec = dict(k="lambda", f=r.choice(sorted(FUNCS)), tt=r.random() < 0.5)
        if r.random() < 0.4:  # functions for some of the modes
            spec["only"] = r.choice(["f", "s", "m", "fs", "fm", "sm", "fsm", "fsm"])
            spec["nd"] = nd
        return spec
    if t == "linear" and S and r.random() < 0.4:  # over a dimension of space
        j = r.randrange(len(S))
        return dict(k="lins", n=S[j], dim=r.choice([3 + j, j - len(S)]), bias=r.random() < 0.7)
    if t == "linear":
        return dict(k="linear", cin=c, cout=c, bias=r.random() < 0.7)
    if t == "add":
        return dict(k="add", v=round(r.uniform(-1, 1), 3))
    if t == "mul":
        return dict(k="mul", v=round(r.uniform(-2, 2), 3))
    if t == "conv1":
        return dict(k="conv", nd=nd, cin=c, cout=c, ks=[1] * nd, ss=[1] * nd,
                    ps=[0] * nd, ds=[1] * nd, g=1, bias=True, pm="zeros", fill="zeros",
                    nn=True)
    return dict(k="ident")


class Shape:
    def __init__(self, c, S):
        self.c, self.S = c, list(S)

    def copy(self):
        return Shape(self.c, self.S)


def kspec(spec):
    """(extent, stride, padding) of a spec, from the layer definitions."""
    t = spec["k"]
    if t in ("conv", "avg", "max"):
        return (spec["ds"][0] * (spec["ks"][0] - 1) + 1, spec["ss"][0], spec["ps"][0])
    if t == "aavg" or t == "amax":
        return (spec.get("dt", 1) * (spec["kt"] - 1) + 1, spec["st"], spec["pt"])
    if t == "delay":
        return (spec["d"] + 1, 1, 0)
    if t == "skip":
        return (spec["n"] + 1, 1, 0)
    if t == "seq":
        k, s, p = 1, 1, 0
        for c in spec["c"]:
            ck, cs, cp = kspec(c)
            k, p, s = k + (ck - 1) * s, p + cp * s, s * cs
        return k, s, p
    if t in ("br", "par"):
        ks = [kspec(c) for c in spec["c"]]
        p = max(i[2] for i in ks)
        return (max(i[0] - i[2] for i in ks) + p, ks[0][1], p)
    if t == "res":
        return kspec(spec["c"])
    if t == "cond":
        ks = [kspec(c) for c in spec["c"]]
        p = max(i[2] for i in ks)
        return (max(i[0] - i[2] for i in ks) + p, ks[0][1], p)
    if t in ("mha", "enc"):
        return (spec["n"], 1, 0)
    return (1, 1, 0)


def rand_branch(r, nd, sh, shrink, stride, cout, depth, fills=True):
    """A spatially size-preserving branch with k - 1 - 2p == shrink."""
    opts = ["conv", "conv", "two"]
    if shrink == 0 and stride == 1 and cout == sh.c:
        opts += ["point", "delayless"]
    if depth > 0:
        opts += ["nest"]
    if stride == 1 and cout == sh.c:
        opts += ["pool"]
    if stride > 1 and shrink % stride == 0:
        opts += ["early"]
    o = r.choice(opts)
    rep = fills and r.random() < 0.15
    kw = dict(same=True, groups=True, replicate=False)

    def conv(k, s, p, cin, co_):
        c = rand_conv(r, nd, cin, co_, k=k, s=s, p=p, **kw)
        if rep:
            c["pm"] = c["fill"] = "replicate"
        return c

    if o == "point":
        return rand_point(r, nd, sh.c, sh.S)
    if o == "delayless":
        return dict(k="seq", c=[rand_point(r, nd, sh.c, sh.S), rand_point(r, nd, sh.c, sh.S)])
    if o == "pool":
        for _ in range(5):
            p = r.randint(0, 2)
            k = shrink + 1 + 2 * p
            if p <= k // 2:
                return rand_pool(r, nd, k=k, s=1, p=p, same=True, S=sh.S)
        o = "conv"
    if o == "conv":
        p = r.randint(0, 2)
        c = conv(shrink + 1 + 2 * p, stride, p, sh.c, cout)
        if r.random() < 0.4:
            return dict(k="seq", c=[c, rand_point(r, nd, cout, sh.S)])
        return c
    if o == "early":  # The frames are thinned out first
        mid = r.choice([1, 2, 3])
        p2 = r.randint(0, 2)
        c1 = conv(1, stride, 0, sh.c, mid)
        c2 = conv(shrink // stride + 1 + 2 * p2, 1, p2, mid, cout)
        return dict(k="seq", c=[c1, c2])
    if o == "two":
        d1 = r.randint(0, shrink)
        p1, p2 = r.randint(0, 1), r.randint(0, 2)
        mid = r.choice([1, 2, 3])
        c1 = conv(d1 + 1 + 2 * p1, 1, p1, sh.c, mid)
        c2 = conv(shrink - d1 + 1 + 2 * p2, stride, p2, mid, cout)
        cs = [c1, c2]
        if r.random() < 0.4:
            cs.insert(1, rand_point(r, nd, mid, sh.S))
        return dict(k="seq", c=cs)
    # nest
    if shrink == 0 and stride == 1 and cout == sh.c:
        return rand_res(r, nd, sh, depth - 1, [False])
    return rand_br(r, nd, sh, depth - 1, shrink, stride, cout)


def rand_br(r, nd, sh, depth, shrink=None, stride=None, cout=None):
    shrink = r.choice([0, 0, 0, 1, 2, 3]) if shrink is None else shrink
    stride = r.choice([1, 1, 1, 2, 3]) if stride is None else stride
    n = r.choice([2, 2, 3])
    red = r.choice(["sum", "sum", "mul", "max", "concat"])
    if cout is not None and red == "concat" and cout < n:
        red = "sum"
    if red == "concat":
        if cout is None:
            cs = [r.choice([1, 2, sh.c]) for _ in range(n)]
        else:
            cs = [1] * (n - 1) + [cout - n + 1]
    else:
        c = cout or r.choice([sh.c, sh.c, 1, 2])
        cs = [c] * n
    spec = dict(
        k="br",
        red=red,
        c=[rand_branch(r, nd, sh, shrink, stride, c, depth) for c in cs],
    )
    if r.random() < 0.2:
        spec["long"] = True  # Broadcast, Parallel, Reduce
    return spec


def rand_res(r, nd, sh, depth, modes=(False, False, False, "centered", "lagging", "leading")):
    mode = r.choice(modes)
    red = r.choice(["sum", "sum", "mul", "max"])
    if mode is False:
        return dict(k="res", red=red, mode=False,
                    c=rand_branch(r, nd, sh, 0, 1, sh.c, depth, fills=False))
    # A shrinking residual needs a module without temporal padding
    k = r.choice([3, 5]) if mode == "centered" else r.choice([2, 3, 4])
    c = rand_conv(r, nd, sh.c, sh.c, k=k, s=1, p=0, same=True, replicate=False)
    return dict(k="res", red=red, mode=mode, c=c)


def out_channels(spec, c):
    t = spec["k"]
    if t in ("conv", "linear"):
        return spec["cout"]
    if t == "rnn":
        return spec.get("proj") or spec["h"]
    if t == "reshape":
        return spec["to"][0]
    if t == "seq":
        for ch in spec["c"]:
            c = out_channels(ch, c)
        return c
    if t == "br":
        cs = [out_channels(ch, c) for ch in spec["c"]]
        return sum(cs) if spec["red"] == "concat" else max(cs)
    if t == "res":
        return max(c, out_channels(spec["c"], c))
    if t == "cond":
        return out_channels(spec["c"][0], c)
    return c


def rand_cond(r, nd, sh, depth):
    """Constant predicates; branches of equal stride, size and shrink."""
    shrink, stride = r.choice([0, 0, 1, 2]), r.choice([1, 1, 2])
    cout = sh.c if r.random() < 0.6 else r.choice([1, 2, 3])
    c = [rand_branch(r, nd, sh, shrink, stride, cout, depth)]
    v = r.random() < 0.5
    if v and r.random() < 0.3:
        pass  # no false branch
    else:
        c.append(rand_branch(r, nd, sh, shrink, stride, cout, depth))
    return dict(k="cond", v=v, c=c)


def rand_layer(r, nd, sh, depth, opts=None):
    """A random layer which accepts frames of the given shape; updates the shape."""
    opts = opts or (
        ["conv"] * 4 + ["pool"] * 2 + ["point"] * 3 + ["br"] * 2 + ["res"] * 2
        + ["delay", "seq", "cond"] + (["rnn"] if nd == 1 else [])
    )
    for _ in range(20):
        o = r.choice(opts)
        if o in ("br", "res", "seq", "cond") and depth <= 0:
            continue
        if o == "conv":
            spec = rand_conv(r, nd, sh.c)
        elif o == "pool":
            spec = rand_pool(r, nd)
        elif o == "point":
            spec = rand_point(r, nd, sh.c, sh.S)
        elif o == "br":
            spec = rand_br(r, nd, sh, depth - 1)
        elif o == "res":
            spec = rand_res(r, nd, sh, depth - 1)
        elif o == "cond":
            spec = rand_cond(r, nd, sh, depth - 1)
        elif o == "delay":
            spec = dict(k="delay", d=r.randint(1, 3))
        elif o == "rnn":
            spec = dict(k="rnn", t=r.choice(["RNN", "GRU", "LSTM"]), i=sh.c,
                        h=r.choice([1, 2, 3]), l=r.choice([1, 2]))
        elif o == "seq":
            s2 = sh.copy()
            spec = dict(k="seq", c=[rand_layer(r, nd, s2, depth - 1) for _ in range(2)])
            sh.c, sh.S = s2.c, s2.S
            return spec
        if spec["k"] in ("conv", "avg", "max"):
            S = out_space(spec, sh.S)
            if S is None:
                continue
            sh.S = S
        sh.c = out_channels(spec, sh.c)
        return spec
    return dict(k="ident")


def rand_reshape(r, sh):
    """Frames in another shape with as many values."""
    n = sh.c
    for i in sh.S:
        n *= i
    to = [n]
    if r.random() < 0.4:
        c = r.choice([i for i in range(1, n + 1) if n % i == 0])
        to = [c, n // c]
    sh.c, sh.S = to[0], to[1:]
    return dict(k="reshape", to=to, contig=r.random() < 0.3, seq=r.random() < 0.5), len(to)


def rand_net(r, nd=None, depth=2, n=None, opts=None, max_k=40):
    """A random composition: {"spec", "c", "S"}."""
    for _ in range(50):
        nd_ = nd or r.choice([1, 1, 2, 3])
        c = r.choice([1, 2, 3, 4])
        S = [r.choice([3, 4, 5]) for _ in range(nd_ - 1)]
        sh = Shape(c, S)
        m = n or r.choice([1, 2, 2, 3, 4])
        layers, ndl = [], nd_
        for _ in range(m):
            if opts is None and r.random() < (0.1 if sh.S else 0.03):
                layer, ndl = rand_reshape(r, sh)
                layers.append(layer)
            layers.append(rand_layer(r, ndl, sh, depth, opts))
        spec = dict(k="seq", c=layers)
        if r.random() < 0.3:
            spec["named"] = True
        k, s, p = kspec(spec)
        if k > max_k or s > 12 or sh.c > 12:
            continue
        return dict(spec=spec, c=c, S=S)
    return dict(spec=dict(k="seq", c=[dict(k="ident")]), c=1, S=[])


def point_conv(nd, cin, cout, r):
    return dict(k="conv", nd=nd, cin=cin, cout=cout, ks=[1] * nd, ss=[1] * nd, ps=[0] * nd, ds=[1] * nd, g=1,
                bias=r.random() < 0.7, pm="zeros", fill="zeros")


def rand_gated(r, depth=1, sized=False):
    """Networks with adaptive pooling inside: squeeze-and-excitation blocks and pooled heads."""
    for _ in range(50):
        nd = r.choice([2, 3])
        c, S = r.choice([1, 2, 3]), [r.choice([2, 3, 4]) for _ in range(nd - 1)]
        sh = Shape(c, S)

        def pool(out=None, st=1):
            return dict(k=r.choice(["aavg", "aavg", "amax"]), nd=nd, kt=r.choice([1, 2, 3, 4, 7]), st=st, pt=0, out=out or [1] * (nd - 1))

        def some(lo, hi):
            return [rand_layer(r, nd, sh, depth, ["conv", "pool", "point", "res", "br", "delay"]) for _ in range(r.randint(lo, hi))]

        layers, k = [], 0
        for _ in range(r.choice([1, 1, 2])):
            layers += some(0, 1)
            mid = r.choice([1, 2])
            way = [pool(out=list(sh.S) if sized and r.random() < 0.2 else None), point_conv(nd, sh.c, mid, r), dict(k="act", f="relu"), point_conv(nd, mid, sh.c, r)]
            if r.random() < 0.3:
                way.insert(1, dict(k="delay", d=1))
            if r.random() < 0.5:
                way.append(dict(k="act", f="sigmoid"))
            se = dict(k="seq", c=way)
            if r.random() < 0.3:
                se["named"] = True
            red = r.choice(["mul", "mul", "mul", "sum", "max"])
            if r.random() < 0.6:
                layers.append(dict(k="res", red=red, mode=False, c=se))
            else:
                side = [dict(k="ident"), rand_branch(r, nd, sh, 0, 1, sh.c, 0, fills=False)][r.random() < 0.5]
                layers.append(dict(k="br", red=red, c=[side, se] if r.random() < 0.5 else [se, side]))
        layers += some(0, 1)
        if r.random() < 0.4:
            layers += [pool(st=r.choice([1, 1, 2])), point_conv(nd, sh.c, r.choice([1, 3]), r)]
            if r.random() < 0.3:
                layers.append(dict(k="delay", d=2))
        spec = dict(k="seq", c=layers)
        k, s, p = kspec(spec)
        if k <= 40 and s <= 12 and sh.c <= 12:
            return dict(spec=spec, c=c, S=S)
    return dict(spec=dict(k="seq", c=[dict(k="ident")]), c=1, S=[])


# ---------------------------------------------------------------- construction
def brief(kw, defaults, names):
    """The same arguments as one would write them: defaults left out, equal entries as one number."""
    out = {}
    for n, v in kw.items():
        if n in defaults and (defaults[n] if not isinstance(v, tuple) else (defaults[n],) * len(v)) == v:
            continue
        if n == "stride" and "kernel_size" in kw and defaults.get(n, 1) is None and v == kw["kernel_size"]:
            continue
        out[n] = v[0] if n in names and isinstance(v, tuple) and len(set(v)) == 1 else v
    return out


CONV_DEFAULTS = dict(stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", temporal_fill="zeros")
AVG_DEFAULTS = dict(stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None, dilation=1)
MAX_DEFAULTS = dict(stride=None, padding=0, dilation=1, return_indices=False, ceil_mode=False)
SIZES = ("kernel_size", "stride", "padding", "dilation")


def _w(t):
    return None if t is None else t.detach().clone()


def calm(m, *xs):
    """Retroactive attention keeps sums of exponentials, which lose digits where these differ much.

    xs: the inputs (B, E, T) of the attention, for which the logits are kept in range."""
    with torch.no_grad():
        for a in m.modules():
            if not isinstance(a, nn.MultiheadAttention) or a.in_proj_weight is None:
                continue
            w, b, E = a.in_proj_weight, a.in_proj_bias, a.embed_dim
            by = 0.4 if w.dtype == F64 else 0.2
            if w.dtype == F64 and xs:
                q, k = xs[0].transpose(1, 2), xs[min(1, len(xs) - 1)].transpose(1, 2)
                q, k = [F.linear(y.to(F64), w[i * E : i * E + E], None if b is None else b[i * E : i * E + E])
                        .unflatten(2, (a.num_heads, -1)).transpose(1, 2) for i, y in enumerate((q, k))]
                top = (q @ k.transpose(2, 3)).abs().max().item() / (E / a.num_heads) ** 0.5 if q.numel() else 0
                by = min(1.0, 12 / max(top, 1e-9))
            w[:E] *= by
            if b is not None:
                b[:E] *= by


class Builder:
    """live: the reference reads the parameters themselves (for gradients)."""

    def __init__(self, seed, dtype=F64, live=False, timed=False, style=0, train=False):
        self.g = gen(seed)
        self.seed = seed
        self.dtype, self.live, self.timed = dtype, live, timed
        self.r = random.Random(style)
        self.train = train

    def keep(self, t):
        if t is None:
            return None
        return t if self.live else t.detach().clone()

    def init(self, m):
        m.to(self.dtype)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn(p.shape, generator=self.g, dtype=F64).to(p.dtype)
                        * (0.5 if p.dim() > 1 else 0.3))
        return m.train(self.train)

    def build(self, spec, wrap=False):
        """(module, reference); wrap: must be a CoModule already."""
        return getattr(self, "_" + spec["k"])(spec, wrap)

    def as_co(self, m, wrap):
        """A torch.nn module, converted in one of the possible ways."""
        how = self.r.random()
        if wrap or how < 0.3:
            return co.continual(m)
        return m  # the container converts it

    def _conv(self, s, wrap):
        nd = s["nd"]
        if s.get("user"):
            return self.user(s, wrap)
        cls, f = CONV[nd]
        kw = dict(kernel_size=tuple(s["ks"]), stride=tuple(s["ss"]),
                  padding=tuple(s["ps"]), dilation=tuple(s["ds"]), groups=s["g"],
                  bias=s["bias"], padding_mode=s["pm"])
        if s.get("brief"):
            kw = brief(kw, CONV_DEFAULTS, SIZES)
        fill = {} if s.get("brief") and s["fill"] == "zeros" else dict(temporal_fill=s["fill"])
        if s.get("nn"):
            m = NNCONV[nd](s["cin"], s["cout"], **kw)
            self.init(m)
            orig = m
            m = self.as_co(m, wrap)
        else:
            m = orig = self.init(cls(s["cin"], s["cout"], **fill, **kw))
        w, b = self.keep(orig.weight), self.keep(orig.bias)
        if s.get("nn") and m is not orig and self.live:
            w, b = m.weight, m.bias
        pads = s["ps"]

        def run(x, tpad, tstride):
            st = (tstride, *s["ss"][1:])
            if s["pm"] == "zeros":
                return f(x, w, b, st, (tpad, *pads[1:]), tuple(s["ds"]), s["g"])
            rev = []
            for p in reversed([tpad, *pads[1:]]):
                rev += [p, p]
            x = F.pad(x, rev, mode="replicate")
            return f(x, w, b, st, (0,) * nd, tuple(s["ds"]), s["g"])

        return m, ref.Win(
            lambda x: run(x, 0, 1), lambda x: run(x, pads[0], s["ss"][0]),
            s["ks"][0], s["ss"][0], pads[0], s["fill"],
        )

    def user(self, s, wrap):
        """A user's own module which does the same."""
        seq = list if s.get("lists") else tuple
        args = (s["cin"], s["cout"], s["ks"][0], s["ss"][0], s["ps"][0], s["bias"])
        if s["user"][1] == "registered":
            m = self.as_co(self.init(users.Source(*args, s["user"][0], seq, bare=s.get("bare", False))), wrap)
        else:
            m = self.init(users.make(*args, *s["user"], seq=seq, bare=s.get("bare", False)))
        w = self.keep(m.weight).reshape(s["cout"], s["cin"], s["ks"][0], *[1] * (s["nd"] - 1))
        b = self.keep(m.bias)
        f = CONV[s["nd"]][1]

        def run(x, tp, ts):
            one = [1] * (s["nd"] - 1)
            return f(x, w, b, (ts, *one), (tp, *[0] * (s["nd"] - 1)))

        return m, ref.Win(lambda x: run(x, 0, 1), lambda x: run(x, s["ps"][0], s["ss"][0]), s["ks"][0], s["ss"][0], s["ps"][0], "zeros")

    def _avg(self, s, wrap):
        nd, d = s["nd"], s["ds"][0]
        cip = s.get("cip", True)
        ceil = s.get("ceil", False)
        one = (lambda v: v[0]) if nd == 1 and s.get("scalar") else tuple
        kw = dict(dilation=one(s["ds"])) if d > 1 else {}
        div = (s["div"],) if s.get("div") else ()
        if div:
            kw["divisor_override"] = div[0]
        if s.get("fill"):
            kw["temporal_fill"] = s["fill"]
        if s.get("brief"):
            kw = brief(dict(kernel_size=tuple(s["ks"]), stride=tuple(s["ss"]), padding=tuple(s["ps"]), ceil_mode=ceil,
                            count_include_pad=cip, **kw), AVG_DEFAULTS, SIZES)
            m = AVG[nd](**kw).to(self.dtype).train(self.train)
        else:
            m = AVG[nd](one(s["ks"]), one(s["ss"]), one(s["ps"]), ceil_mode=ceil,
                        count_include_pad=cip, **kw).to(self.dtype).train(self.train)

        def run(x, tp, ts):
            return FAVG[nd](x, tuple(s["ks"]), (ts, *s["ss"][1:]), (tp, *s["ps"][1:]),
                            ceil, cip, *div)

        return m, ref.Win(lambda x: run(x[:, :, ::d], 0, 1),  # zero padding counts
                          lambda x: run(x, s["ps"][0], s["ss"][0]),
                          d * (s["ks"][0] - 1) + 1, s["ss"][0], s["ps"][0], s.get("fill", "zeros"))

    def _max(self, s, wrap):
        nd = s["nd"]
        ceil = s.get("ceil", False)
        one = (lambda v: v[0]) if nd == 1 and s.get("scalar") else tuple
        fill = dict(temporal_fill=s["fill"]) if s.get("fill") else {}
        if s.get("brief"):
            kw = brief(dict(kernel_size=tuple(s["ks"]), stride=tuple(s["ss"]), padding=tuple(s["ps"]),
                            dilation=tuple(s["ds"]), ceil_mode=ceil, **fill), MAX_DEFAULTS, SIZES)
            m = MAX[nd](**kw).to(self.dtype).train(self.train)
        else:
            m = MAX[nd](one(s["ks"]), one(s["ss"]), one(s["ps"]), dilation=one(s["ds"]),
                        ceil_mode=ceil, **fill).to(self.dtype).train(self.train)

        def run(x, tp, ts):
            return FMAX[nd](x, tuple(s["ks"]), (ts, *s["ss"][1:]), (tp, *s["ps"][1:]),
                            tuple(s["ds"]), ceil)

        k = s["ds"][0] * (s["ks"][0] - 1) + 1
        return m, ref.Win(lambda x: run(x, 0, 1), lambda x: run(x, s["ps"][0], s["ss"][0]),
                          k, s["ss"][0], s["ps"][0], s.get("fill", "neg_inf"))

    def _aavg(self, s, wrap):
        nd, avg = s["nd"], s["k"] == "aavg"
        cls = {(2, True): co.AdaptiveAvgPool2d, (3, True): co.AdaptiveAvgPool3d,
               (2, False): co.AdaptiveMaxPool2d, (3, False): co.AdaptiveMaxPool3d}[nd, avg]
        f = {(2, True): F.adaptive_avg_pool2d, (3, True): F.adaptive_avg_pool3d,
             (2, False): F.adaptive_max_pool2d, (3, False): F.adaptive_max_pool3d}[nd, avg]
        size = (1, *s["out"])
        kw = dict(stride=s["st"], padding=s["pt"])
        d = s.get("dt", 1)
        if d > 1:
            kw["dilation"] = d
        if s.get("fill"):
            kw["temporal_fill"] = s["fill"]
        if s.get("brief"):
            kw = {n: v for n, v in kw.items() if v != dict(stride=1, padding=0).get(n)}
        m = cls(size, s["kt"], **kw).to(self.dtype).train(self.train)
        return m, ref.Win(lambda x: f(x[:, :, ::d], size), lambda x: f(x, size),
                          d * (s["kt"] - 1) + 1, s["st"], s["pt"],
                          s.get("fill", "zeros" if avg else "neg_inf"))

    _amax = _aavg

    def _act(self, s, wrap):
        mk, f = ACTS[s["f"]]
        return self.as_co(mk().train(self.train), wrap), ref.Point(f)

    def _bn(self, s, wrap):
        m = self.init(BN[s["nd"]](s["c"]))
        with torch.no_grad():
            m.running_mean.copy_(torch.randn(s["c"], generator=self.g, dtype=F64))
            m.running_var.copy_(torch.rand(s["c"], generator=self.g, dtype=F64) + 0.5)
        mean, var = m.running_mean.clone(), m.running_var.clone()
        w, b, eps = self.keep(m.weight), self.keep(m.bias), m.eps

        def f(x):
            sh = (1, -1) + (1,) * (x.dim() - 2)
            return ((x - mean.view(sh)) / torch.sqrt(var.view(sh) + eps) * w.view(sh)
                    + b.view(sh))

        return self.as_co(m.eval(), wrap), ref.Point(f)

    def _prelu(self, s, wrap):
        m = self.init(nn.PReLU(s["c"]))
        m = self.as_co(m, wrap)
        w = self.keep(m.weight)
        return m, ref.Point(lambda x: F.prelu(x, w))

    def _const(self, s, wrap):
        v = s["v"]
        m = {0: co.Zero, 1: co.One}[v]() if v in (0, 1) else co.Constant(v)
        return m, ref.Point(lambda x: torch.full_like(x, v))

    def _lambda(self, s, wrap):
        f = FUNCS[s["f"]]
        if s.get("only"):
            nd = s["nd"]

            def only(letter):
                return partial(_checked, f, letter, nd) if letter in s["only"] else None

            kw = dict(forward_only_fn=only("f"), forward_step_only_fn=only("s"), forward_steps_only_fn=only("m"))
            if len(s["only"]) == 3:
                return co.Lambda(**kw), ref.Point(f)
            return co.Lambda(f, takes_time=s["tt"], **kw), ref.Point(f)
        return co.Lambda(f, takes_time=s["tt"]), ref.Point(f)

    def _add(self, s, wrap):
        return co.Add(s["v"]), ref.Point(lambda x: x + s["v"])

    def _mul(self, s, wrap):
        return co.Multiply(s["v"]), ref.Point(lambda x: x * s["v"])

    def _ident(self, s, wrap):
        return co.Identity(), ref.Point(lambda x: x)

    def _probe(self, s, wrap):
        return probes.Probe(s.get("name")), ref.Point(lambda x: x)

    def _local(self, s, wrap):
        m = co.forward_stepping(probes.Local(s.get("name"), s.get("nd")))
        return m, ref.Point(lambda x: x * 2.0)

    def _linear(self, s, wrap):
        m = self.init(co.Linear(s["cin"], s["cout"], bias=s["bias"], channel_dim=1))
        w, b = self.keep(m.weight), self.keep(m.bias)
        return m, ref.Point(lambda x: F.linear(x.transpose(1, -1), w, b).transpose(1, -1))

    def _lins(self, s, wrap):
        m = self.init(co.Linear(s["n"], s["n"], bias=s["bias"], channel_dim=s["dim"]))
        w, b = self.keep(m.weight), self.keep(m.bias)
        return m, ref.Point(lambda x: F.linear(x.transpose(s["dim"], -1), w, b).transpose(s["dim"], -1))

    def centred(self, mode):
        """True means "centered"."""
        return True if mode == "centered" and self.r.random() < 0.5 else mode

    def _delay(self, s, wrap):
        return co.Delay(s["d"], auto_shrink=self.centred(s.get("shrink", False))), ref.Delay(
            s["d"], s.get("shrink", False))

    def _skip(self, s, wrap):
        return co.Skip(s["n"]), ref.Skip(s["n"])

    def _rnn(self, s, wrap):
        kw = dict(num_layers=s.get("l", 1), bias=s.get("bias", True))
        if s["t"] == "RNN" and s.get("nl"):
            kw["nonlinearity"] = s["nl"]
        if s.get("proj"):
            kw["proj_size"] = s["proj"]
        m = self.init(getattr(co, s["t"])(s["i"], s["h"], **kw))
        net = getattr(nn, s["t"])(s["i"], s["h"], batch_first=True, **kw).to(self.dtype)
        net.load_state_dict({k: v.clone() for k, v in m.state_dict().items()})
        if self.live:
            for n, p in m.named_parameters():
                delattr(net, n)
                net.register_parameter(n, p)
        return m, ref.Recurrent(net)

    def _mha(self, s, wrap):
        E, N = s["e"], s["n"]
        retro = s["t"] == "retro"
        kw = dict(sequence_len=N, batch_first=True, embed_dim_second=True,
                  bias=s.get("bias", True), forward_returns_attn_mask=False)
        if not retro:
            kw["query_index"] = s.get("q", -1)
        cls = co.RetroactiveMultiheadAttention if retro else co.SingleOutputMultiheadAttention
        m = self.init(cls(E, s["h"], **kw))
        if retro:
            calm(m)
        net = nn.MultiheadAttention(E, s["h"], bias=s.get("bias", True), batch_first=True)
        net.to(self.dtype)
        net.load_state_dict({k: v.clone() for k, v in m.state_dict().items()})
        net.eval()

        def full(x):  # B E T
            y = x.transpose(1, 2)
            return net(y, y, y, need_weights=False)[0].transpose(1, 2)

        q = s.get("q", -1)
        if retro:
            return m, ref.Window(full, N, full)
        return m, ref.Window(lambda x: full(x)[:, :, q], N,
                             lambda x: full(x)[:, :, q].unsqueeze(2))

    def _enc(self, s, wrap):
        E, N, L = s["e"], s["n"], s["l"]
        act = s.get("act", "relu")

        def regular(act):
            tl = nn.TransformerEncoderLayer(E, s["h"], s["ff"], 0.0, act, batch_first=True)
            return nn.TransformerEncoder(tl, L, nn.LayerNorm(E) if s.get("norm") else None,
                                         enable_nested_tensor=False)

        tnet = self.init(regular(act))
        calm(tnet)
        m = co.TransformerEncoder.build_from(tnet, N)
        m = m.to(self.dtype).train(self.train)
        # The reference has its own copy
        net = regular(act).to(self.dtype)
        net.load_state_dict({k: v.clone() for k, v in tnet.state_dict().items()})
        net.eval()

        def full(x):
            return net(x.transpose(1, 2)).transpose(1, 2)

        fwd = full if L == 1 else (lambda x: full(x)[:, :, -1:])
        return m, ref.Window(lambda x: full(x)[:, :, -1], N, fwd)

    def _rpe(self, s, wrap):
        m = co.RecyclingPositionalEncoding(
            s["e"], s["n"], learned=s.get("learned", True),
            forward_update_index_steps=s.get("adv", 0))
        if s.get("learned", True):
            self.init(m)
            table = self.keep(m.pe.weight)
        else:
            m.to(self.dtype)
            table = m.pe.pattern.clone()
        return m.train(self.train), ref.Positional(table)

    def _reshape(self, s, wrap):
        to = tuple(s["to"])
        m = co.Reshape((-1, *to), contiguous=s["contig"]) if s["seq"] else co.Reshape(
            -1, *to, contiguous=s["contig"])

        def f(x):  # one frame at a time
            return torch.stack([x[:, :, t].reshape(x.shape[0], *to) for t in range(x.shape[2])], 2)

        return m, ref.Point(f)

    def _seq(self, s, wrap):
        pairs = [self.build(c) for c in s["c"]]
        ms = [m for m, _ in pairs]
        if s.get("named"):
            m = co.Sequential(OrderedDict((f"m{i}", m) for i, m in enumerate(ms)))
        elif self.r.random() < 0.15:
            m = co.Sequential(*ms[:1])
            for i in ms[1:]:
                m.append(i)
        else:
            m = co.Sequential(*ms)
        return m, ref.Seq([f for _, f in pairs])

    def _br(self, s, wrap):
        pairs = [self.build(c, True) for c in s["c"]]
        ms = [m for m, _ in pairs]
        red = ref.REDUCE[s["red"]]
        if s.get("named"):
            m = co.BroadcastReduce(
                OrderedDict((f"b{i}", m) for i, m in enumerate(ms)), reduce=s["red"])
        elif s.get("long"):
            m = co.Sequential(co.Broadcast(), co.Parallel(*ms), co.Reduce(s["red"]))
        else:
            m = co.BroadcastReduce(*ms, reduce=s["red"])
        cls = ref.TimedBranches if self.timed else ref.Branches
        return m, cls([f for _, f in pairs], red)

    def _res(self, s, wrap):
        m, f = self.build(s["c"], True)
        mode, red = s["mode"], ref.REDUCE[s["red"]]
        d = f.k - 1 - f.p
        net = co.Residual(m, reduce=s["red"], residual_shrink=self.centred(mode))
        if mode is False or f.k - 1 - 2 * f.p == 0:
            side = ref.Delay(d) if self.timed else ref.Point(lambda x: x)
        elif mode == "leading":
            side = ref.Skip(d)
        elif mode == "lagging":
            side = ref.Delay(d, "lagging")
        else:
            side = ref.Delay(d // 2, "centered")
        if self.timed:
            b = ref.TimedBranches([f, f], red)
            b.branches = [side, f]
            return net, b
        b = ref.Branches([f, f], red)
        b.branches = [side, f]
        return net, b

    def _cond(self, s, wrap):
        pairs = [self.build(c, True) for c in s["c"]]
        v = s["v"]
        m = co.Conditional(CONST[v], *[m for m, _ in pairs])
        if not v and len(pairs) == 1:
            return m, ref.Point(lambda x: x)
        d = [f.k - 1 - f.p for _, f in pairs]
        i = 0 if v else 1
        f = pairs[i][1]
        lag = max(d) - d[i]
        return m, (ref.Seq([ref.Delay(lag), f]) if lag else f)


def build(spec, seed, **kw):
    with torch.no_grad():
        return Builder(seed, **kw).build(spec, True)


def kinds(spec, acc=None):
    """Kinds of nodes in a specification."""
    acc = [] if acc is None else acc
    acc.append(spec["k"])
    c = spec.get("c")
    if isinstance(c, list):
        for x in c:
            kinds(x, acc)
    elif isinstance(c, dict):
        kinds(c, acc)
    return acc


def walk(spec):
    yield spec
    c = spec.get("c")
    if isinstance(c, list):
        for x in c:
            yield from walk(x)
    elif isinstance(c, dict):
        yield from walk(c)
