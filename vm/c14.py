"""Conversion: the converted module computes what the original does, or is refused."""
import copy

import torch
from torch import nn

import continual as co

from . import nets, probes, util
from .core import Inconclusive, Violation, ambient
from .util import F64, gen

CASES = {"quick": 8000, "thorough": 240000}
RULE = ("random torch.nn modules with random options (supported and unsupported) alone and inside nested "
        "nn.Sequential with names, shared submodules and already continual parts, converted by co.continual, "
        "build_from (with overrides) and co.forward_stepping; forward against an untouched copy of the original, "
        "step outputs of random call schedules against the front-aligned part of its output, parameter names, "
        "values, dtypes and training mode; unsupported modules must raise; non-trivial: accepted and stepped, "
        "or refused as it has to be")
REACH = {"placed": 60, "other_size": 5, "accepted": 1500, "refused": 300, "step_frames": 6000, "forwards": 2500, "sequentials": 400,
         "shared": 80, "stepping": 100, "mha": 80, "encoder": 40, "k_t>1": 500, "strided": 250,
         "dtype_f32": 300, "training_kept": 100, "custom": 30, "uncounted_padding": 10}

PW = {  # pointwise or channel-wise modules: options by random choice
    "ReLU": [{}], "Threshold": [dict(threshold=0.1, value=-2.0)], "RReLU": [{}], "Hardtanh": [{}, dict(min_val=-0.3)],
    "ReLU6": [{}], "Sigmoid": [{}], "Hardsigmoid": [{}], "Tanh": [{}], "SiLU": [{}], "Hardswish": [{}],
    "ELU": [{}, dict(alpha=0.4)], "CELU": [dict(alpha=0.7)], "SELU": [{}], "GLU": [dict(dim=1)],
    "GELU": [{}, dict(approximate="tanh")], "Hardshrink": [{}], "LeakyReLU": [{}, dict(negative_slope=0.4)],
    "LogSigmoid": [{}], "Softplus": [{}, dict(beta=2.0)], "Softshrink": [{}], "PReLU": [{}, "C"],
    "Softsign": [{}], "Tanhshrink": [{}], "Softmin": [dict(dim=1)], "Softmax": [dict(dim=1)],
    "LogSoftmax": [dict(dim=1)], "Dropout": [{}], "AlphaDropout": [{}], "FeatureAlphaDropout": [{}],
}
UNKNOWN = [["Upsample", [], dict(scale_factor=2.0)], ["Embedding", [3, 3], {}], ["Flatten", [], {}],
           ["ConvTranspose1d", [2, 2, 2], {}], ["ConvTranspose2d", [2, 2, 3], {}], ["LPPool1d", [2, 2], {}],
           ["ConstantPad1d", [1, 0.5], {}], ["ZeroPad2d", [1], {}], ["ReflectionPad1d", [1], {}],
           ["FractionalMaxPool2d", [2], dict(output_ratio=0.5)], ["AdaptiveAvgPool1d", [2], {}],
           ["RNNCell", [2, 2], {}], ["LSTMCell", [2, 2], {}], ["Bilinear", [2, 2, 2], {}],
           ["TransformerEncoderLayer", [2, 1], {}], ["Unfold", [2], {}], ["PixelShuffle", [1], {}],
           ["LocalResponseNorm", [2], {}], ["CosineSimilarity", [], {}], ["ModuleList", [], {}]]


# ---------------------------------------------------------------- generation
def windowed(r, nd, c, kind, loose=False):
    k = r.choice([1, 2, 3, 3, 4])
    s = r.choice([1, 1, 1, 2, 3])
    if kind == "conv":
        p = r.choice([0, 0, r.randint(0, k - 1)])
        g = 2 if c % 2 == 0 and r.random() < 0.3 else 1
        cout = g * r.choice([1, 2])
        kw = dict(kernel_size=[k], stride=[s], padding=[p], dilation=[1])
        for _ in range(nd - 1):
            kw["kernel_size"].append(r.choice([1, 2, 3]))
            kw["stride"].append(r.choice([1, 1, 2]))
            kw["padding"].append(r.choice([0, 1]))
            kw["dilation"].append(r.choice([1, 1, 2]) if kw["kernel_size"][-1] == 2 else 1)
        if r.random() < 0.2:  # the same number for every dimension
            v = r.choice([2, 3])
            kw = dict(kernel_size=v, stride=r.choice([1, 2]), padding=r.choice([0, 1]))
            k, s, p = v, kw["stride"], kw["padding"]
        kw.update(groups=g, bias=r.random() < 0.7)
        if r.random() < 0.15:
            kw["padding_mode"] = "replicate"
        return dict(t=f"Conv{nd}d", a=[c, cout], kw=kw, win=[k, s, p], cout=cout)
    p = r.choice([0, 0, r.randint(0, k // 2)])
    kw = dict(kernel_size=[k], stride=[s], padding=[p])
    for _ in range(nd - 1):
        kw["kernel_size"].append(r.choice([1, 2, 3]))
        kw["stride"].append(r.choice([1, 1, 2]))
        kw["padding"].append(r.randint(0, kw["kernel_size"][-1] // 2))
    d = 1
    if kind == "max" and r.random() < 0.3:
        d = 2
        kw["dilation"] = [2] + [1] * (nd - 1)
    o = r.random()
    if o < 0.2:
        v = r.choice([2, 3])
        kw = dict(kernel_size=v, stride=r.choice([1, 2]), padding=r.choice([0, 1]))
        k, s, p, d = v, kw["stride"], kw["padding"], 1
    elif o < 0.4:  # torch.nn takes the kernel size as the stride then
        kw.pop("stride")
        kw["padding"] = p = 0
        s = k
    if kind == "avg":
        sp = dict(t=f"AvgPool{nd}d", a=[], kw=kw, win=[k, s, p])
        if nd > 1 and r.random() < 0.25:
            kw["divisor_override"] = r.choice([1, 3, 5])
        if (p == 0 or loose) and r.random() < (0.7 if p else 0.4):
            kw["count_include_pad"] = False
            if "divisor_override" not in kw:  # see C02: avg-count-include-pad-time
                sp["skip"] = -(-p // s)
        return sp
    return dict(t=f"MaxPool{nd}d", a=[], kw=kw, win=[d * (k - 1) + 1, s, p])


def layer(r, nd, c, S, loose=False):
    """A supported module."""
    o = r.choice(["conv", "conv", "conv", "avg", "max", "pw", "pw", "pw", "bn", "inorm", "ln", "linear"]
                 + (["rnn"] if nd == 1 else []))
    if o in ("conv", "avg", "max"):
        return windowed(r, nd, c, o, loose)
    if o == "pw":
        t = r.choice(sorted(PW))
        if t == "GLU" and c % 2:
            t = "ReLU"
        kw = r.choice(PW[t])
        if kw == "C":
            kw = dict(num_parameters=c)
        sp = dict(t=t, a=[], kw=kw)
        if t == "GLU":
            sp["cout"] = c // 2
        return sp
    if o == "bn":
        return dict(t=f"BatchNorm{nd}d", a=[c], kw=dict(affine=r.random() < 0.8))
    if o == "inorm":
        return dict(t=f"InstanceNorm{nd}d", a=[c], kw=dict(affine=True, track_running_stats=True))
    if o == "ln" and nd > 1:
        return dict(t="LayerNorm", a=[list(S)], kw=dict(elementwise_affine=r.random() < 0.7), fixS=True)
    if o == "linear" and nd > 1:
        return dict(t="Linear", a=[S[-1], S[-1]], kw=dict(bias=r.random() < 0.6), fixS=True)
    if o == "rnn":
        t = r.choice(["RNN", "GRU", "LSTM"])
        h = r.choice([1, 2, 3])
        kw = dict(num_layers=r.choice([1, 2]), bias=r.random() < 0.7, batch_first=r.random() < 0.7)
        if t == "RNN":
            kw["nonlinearity"] = r.choice(["tanh", "relu"])
        if t == "LSTM" and h > 1 and r.random() < 0.3:
            kw["proj_size"] = h - 1
        if kw["num_layers"] > 1 and r.random() < 0.5:
            kw["dropout"] = 0.3
        return dict(t=t, a=[c, h], kw=kw, cout=kw.get("proj_size", h))
    return dict(t="ReLU", a=[], kw={})


def refused(r, nd, c):
    o = r.choice(["bi", "dil", "pm", "inorm", "soft", "ind", "unknown", "unknown", "adaptive", "norm_first",
                  "sub", "builtin", "param"])
    if o == "bi":
        return dict(t=r.choice(["RNN", "GRU", "LSTM"]), a=[c, 2], kw=dict(bidirectional=True), nd=1)
    if o == "dil":
        return dict(t=f"Conv{nd}d", a=[c, 1, 2], kw=dict(dilation=r.choice([2, 3])))
    if o == "pm":
        return dict(t=f"Conv{nd}d", a=[c, 1, 3], kw=dict(padding=1, padding_mode=r.choice(["reflect", "circular"])))
    if o == "inorm":
        return dict(t=f"InstanceNorm{nd}d", a=[c], kw=r.choice([{}, dict(affine=True), dict(track_running_stats=True)]))
    if o == "soft":
        return dict(t=r.choice(["Softmax", "Softmin", "LogSoftmax", "GLU"]), a=[], kw=dict(dim=2))
    if o == "ind":
        return dict(t=f"MaxPool{nd}d", a=[2], kw=dict(return_indices=True))
    if o == "adaptive":  # the temporal extent is unknown
        nd = max(nd, 2)
        return dict(t=r.choice(["AdaptiveAvgPool", "AdaptiveMaxPool"]) + f"{nd}d", a=[[1] * nd], kw={})
    if o in ("norm_first", "sub", "builtin", "param"):
        return dict(special=o)
    t, a, kw = r.choice(UNKNOWN)
    return dict(t=t, a=a, kw=kw)


def generate(r, tier, idx):
    nd = r.choice([1, 1, 2, 3])
    c = r.choice([1, 2, 4])
    S = [r.choice([3, 4]) for _ in range(nd - 1)]
    base = dict(nd=nd, c=c, S=S, B=r.choice([1, 2]), dt=r.choice(["f64", "f64", "f32"]),
                T=r.randint(1, 14), train=r.random() < 0.3)
    o = r.choice(["single"] * 5 + ["seq"] * 4 + ["refuse"] * 3 + ["stepping", "mha", "enc", "adaptive",
                                                                  "override", "group", "custom", "fn"])
    case = dict(mode=o, **base, meta=r.random() < 0.25)
    if o == "single":
        case["layer"] = layer(r, nd, c, S, True)
    elif o == "seq":
        case["layers"] = []
        cc = c
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.2:
                inner = []
                for _ in range(r.randint(1, 3)):
                    sp = layer(r, nd, cc, S)
                    if sp["t"] in ("RNN", "GRU", "LSTM") or sp.get("fixS"):
                        sp = dict(t="Tanh", a=[], kw={})
                    cc = sp.get("cout", cc)
                    inner.append(sp)
                case["layers"].append(dict(seq=inner, named=r.random() < 0.4))
                continue
            if case["layers"] and r.random() < 0.2:
                sp = dict(again=r.randrange(len(case["layers"])))
            else:
                sp = layer(r, nd, cc, S)
                if sp["t"] in ("RNN", "GRU", "LSTM") or sp.get("fixS") and case["layers"]:
                    sp = dict(t="Sigmoid", a=[], kw={})
                if sp["t"].startswith("Conv") and r.random() < 0.2:
                    sp["co"] = True  # is continual already
            cc = sp.get("cout", cc)
            case["layers"].append(sp)
        case["named"] = r.random() < 0.3
        case["how"] = r.choice(["continual", "build_from", "list", "dict"])
    elif o == "refuse":
        case["layer"] = refused(r, nd, c)
        case["inside"] = r.random() < 0.4
    elif o == "mha":
        h = r.choice([1, 2])
        case.update(e=h * r.choice([1, 2, 3]), h=h, n=r.choice([2, 3, 5]), cls=r.choice(["retro", "single"]),
                    kw=r.choice([{}, dict(bias=False), dict(dropout=0.4), dict(kdim=3, vdim=3), dict(add_bias_kv=True),
                                 dict(add_zero_attn=True), dict(batch_first=False)]))
    elif o == "enc":
        h = r.choice([1, 2])
        case.update(e=h * r.choice([1, 2]), h=h, n=r.choice([2, 3, 4]), l=r.choice([1, 2]), ff=r.choice([2, 5]),
                    act=r.choice(["relu", "gelu", "mod", "fn"]), eps=r.choice([1e-5, 0.1]), norm=r.random() < 0.4,
                    drop=r.choice([0.0, 0.3]), how=r.choice(["continual", "build"]))
    elif o == "adaptive":
        nd = case["nd"] = max(nd, 2)
        case["S"] = [r.choice([2, 3, 4]) for _ in range(nd - 1)]
        case.update(t=r.choice(["Avg", "Max"]), out=[1] + [r.choice([1, 2, None]) for _ in range(nd - 1)],
                    k=r.choice([1, 2, 4]))
    elif o == "override":
        case["layer"] = windowed(r, nd, c, r.choice(["conv", "max", "avg"]), True)
    elif o == "stepping":
        case["dim"] = 2
        case["sub"] = r.choice(["local", "conv1", "seq", "shape"])
    return case


# ---------------------------------------------------------------- construction
def tup(v):
    return tuple(v) if isinstance(v, list) else v


def construct(sp, made=None):
    if "again" in sp:
        return made[sp["again"]]
    if "seq" in sp:
        ms = [construct(x) for x in sp["seq"]]
        if sp["named"]:
            from collections import OrderedDict
            return nn.Sequential(OrderedDict((f"sub{i}", m) for i, m in enumerate(ms)))
        return nn.Sequential(*ms)
    cls = getattr(nn, sp["t"])
    m = cls(*[tup(a) for a in sp["a"]], **{k: tup(v) for k, v in sp["kw"].items()})
    return m


def init(m, seed, dtype):
    g = gen(seed)
    m.to(dtype)
    with torch.no_grad():
        for n, p in list(m.named_parameters()):
            p.copy_(torch.randn(p.shape, generator=g, dtype=F64).to(p.dtype) * 0.5)
        for n, b in list(m.named_buffers()):
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g, dtype=F64))
            elif n.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g, dtype=F64) + 0.5)
    return m


def wins(case):
    """Temporal windows the input passes, in order; 'again' repeats one."""
    def of(sp, done):
        if "again" in sp:
            return of(done[sp["again"]], done)
        if "seq" in sp:
            return [w for x in sp["seq"] for w in of(x, done)]
        return [sp["win"]] if "win" in sp else []

    if "layers" in case:
        return [w for sp in case["layers"] for w in of(sp, case["layers"])]
    return of(case["layer"], None) if "layer" in case else []


def front(T, ws):
    """Number of outputs which need no padding at the end."""
    for k, s, p in ws:
        T = (T + p - k) // s + 1 if T + p >= k else 0
    return T


# ---------------------------------------------------------------- monitors
def steps_agree(m, x, full, n, what, ctx, seed, rtol, skip=0):
    """Outputs of a random schedule are the first n frames of the whole-sequence output."""
    import random

    r = random.Random(seed)
    outs, t, T = [], 0, x.shape[2]
    while t < T:
        k = min(r.choice([1, 1, 2, 3]), T - t)
        if k == 1 and r.random() < 0.7:
            o = m.forward_step(x[:, :, t])
            outs += [] if o is None else [o.clone()]
        else:
            o = m.forward_steps(x[:, :, t : t + k])
            outs += [] if o is None else [f.clone() for f in o.unbind(2)]
        t += k
    if len(outs) != n:
        raise Violation(f"{what}: {len(outs)} step outputs, expected {n}")
    for i, o in enumerate(outs):
        if i >= skip:
            util.expect(o, full[:, :, i], f"{what}: step output {i} against the original", rtol)
    ctx.count("step_frames", n)


def placed(case, m0, convert, what, ctx):
    """A conversion keeps everything where it is: device and dtype of every parameter and buffer of its state."""
    if not case["meta"] or not list(m0.parameters()):
        return
    there = copy.deepcopy(m0).to("meta").half()
    m = convert(there)
    for n, p in m.state_dict().items():
        if p.is_floating_point() and (p.device.type != "meta" or p.dtype != torch.float16):
            raise Violation(f"{what} of a module on the meta device in float16: {n} is {p.dtype} on {p.device}")
    ctx.count("placed")


def same_params(m, orig, what, names=True):
    a, b = m.state_dict(), orig.state_dict()
    if names and list(a) != list(b):
        raise Violation(f"{what}: state_dict keys {list(a)}, original {list(b)}")
    for (n, u), (_, v) in zip(a.items(), b.items()):
        if u.dtype != v.dtype or u.shape != v.shape or not torch.equal(u, v):
            raise Violation(f"{what}: {n} is {util.describe(u)}, original {util.describe(v)}")


def first(o):
    return o[0] if isinstance(o, tuple) else o


def refuse(case, ctx, what, f, use):
    """f must raise, or the thing it gives must raise when it is used."""
    try:
        m = f()
    except Exception:
        ctx.count("refused")
        return True
    try:
        use(m)
    except Exception:
        ctx.count("refused_at_use")
        return True
    raise Violation(f"{what} was converted to {type(m).__name__} instead of being refused")


class SubConv(nn.Conv1d):
    def forward(self, x):
        return super().forward(x) * x.shape[-1]


@ambient
def run(case, ctx):
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    rtol = {"f64": 1e-8, "f32": 1e-3}[case["dt"]]
    ctx.count("dtype_f32", case["dt"] == "f32")
    seed, mode = case["seed"], case["mode"]

    def data(T, c=None, S=None):
        return util.data((case["B"], c or case["c"], T, *(case["S"] if S is None else S)), seed, "randn", dtype)

    return globals()["do_" + mode](case, ctx, data, dtype, rtol, seed)


def expect_accept(f, what):
    try:
        return f()
    except Exception as e:
        raise Violation(f"{what}: conversion raised {type(e).__name__}: {e}")


def compare(m, orig, case, ctx, data, rtol, what, ws, rnn=False):
    """forward and steps of a converted module against the original."""
    T, skip = case["T"], case.get("layer", {}).get("skip", 0)
    ctx.count("uncounted_padding", skip > 0)
    for extra in (0, 3):
        x = data(T + extra)
        y = x.transpose(1, 2) if rnn else x
        if rnn and not orig.batch_first:
            y = y.transpose(0, 1)
        try:
            exp = first(orig(y))
        except RuntimeError:
            ctx.count("too_short")  # the original does not take such an input either
            continue
        if rnn:
            exp = (exp if orig.batch_first else exp.transpose(0, 1)).transpose(1, 2)
        util.expect(first(m.forward(x)), exp, f"{what}: forward on {T + extra} steps", rtol)
        util.expect(first(m(x)), exp, f"{what}: call on {T + extra} steps", rtol)
        ctx.count("forwards")
        if extra:
            steps_agree(m, x, exp, front(T + extra, ws), what, ctx, case["seed"], rtol, skip)
            m.clean_state()
            steps_agree(m, x, exp, front(T + extra, ws), what + ", second stream", ctx, case["seed"] + 1, rtol,
                        skip)
    ctx.count("accepted")
    ctx.count("k_t>1", any(w[0] > 1 for w in ws))
    ctx.count("strided", any(w[1] > 1 for w in ws))
    return True


def fits(orig, x):
    """Whether the original takes an input of this size at all."""
    try:
        orig(x)
        return True
    except RuntimeError:
        return False


def do_single(case, ctx, data, dtype, rtol, seed):
    sp = case["layer"]
    m0 = init(construct(sp), seed, dtype).train(case["train"])
    orig = copy.deepcopy(m0).eval()
    rnn = sp["t"] in ("RNN", "GRU", "LSTM")
    what = f"co.continual({sp['t']}({sp['a']}, {sp['kw']}))"
    if not rnn and not fits(orig, data(case["T"] + 30)):
        raise Inconclusive("spatial size too small")
    m = expect_accept(lambda: co.continual(m0), what)
    if sp["kw"].get("dropout") or sp["t"].endswith("Dropout"):
        if m.training != case["train"]:
            raise Violation(f"{what}: training is {m.training}, original {case['train']}")
        ctx.count("training_kept")
    same_params(m, orig, what)
    placed(case, orig, co.continual, what, ctx)
    if co.continual(m) is not m:
        raise Violation(f"{what}: converting a continual module again gave another one")
    m.eval()
    return compare(m, orig, case, ctx, data, rtol, what, wins(case), rnn)


def do_seq(case, ctx, data, dtype, rtol, seed):
    from collections import OrderedDict

    made, plain = [], []
    for i, sp in enumerate(case["layers"]):
        if "again" in sp:
            made.append(made[sp["again"]])
            plain.append(plain[sp["again"]])
            ctx.count("shared")
        else:
            m = init(construct(sp), seed + i, dtype)
            plain.append(copy.deepcopy(m))
            made.append(co.continual(m) if sp.get("co") else m)
    names = [f"n{i}" if case["named"] else str(i) for i in range(len(made))]
    net = nn.Sequential(OrderedDict(zip(names, made))).eval()
    orig = nn.Sequential(OrderedDict(zip(names, plain))).eval()
    try:
        ok = fits(orig, data(case["T"] + 200))
    except Exception:
        ok = False
    if not ok:
        raise Inconclusive("shapes do not fit")
    if any("again" in sp and case["layers"][sp["again"]].get("co") for sp in case["layers"]):
        raise Inconclusive("one continual module at two places shares its state")
    how = case["how"]
    if how == "list":
        f, names = (lambda: co.Sequential(*made)), [str(i) for i in range(len(made))]
        orig = nn.Sequential(*plain).eval()
    elif how == "dict":
        f = lambda: co.Sequential(OrderedDict(zip(names, made)))  # noqa: E731
    elif how == "build_from":
        f = lambda: co.Sequential.build_from(net)  # noqa: E731
    else:
        f = lambda: co.continual(net)  # noqa: E731
    what = f"{how} of {[sp.get('t', 'again' if 'again' in sp else 'Sequential') for sp in case['layers']]}"
    m = expect_accept(f, what).eval()
    same_params(m, orig, what)
    ctx.count("sequentials")
    return compare(m, orig, case, ctx, data, rtol, what, wins(case))


def do_refuse(case, ctx, data, dtype, rtol, seed):
    sp = case["layer"]
    special = sp.get("special")
    if special == "norm_first":
        m = nn.TransformerEncoder(nn.TransformerEncoderLayer(2, 1, 2, norm_first=True, batch_first=True), 1,
                                  enable_nested_tensor=False).train(case["train"])
        return refuse(case, ctx, "TransformerEncoder(norm_first)", lambda: co.TransformerEncoder.build_from(m, 3),
                      lambda c: c.forward(torch.randn(1, 2, 3)))
    if special == "sub":
        m = SubConv(case["c"], 1, 1).train(case["train"])
        return refuse(case, ctx, "a subclass of Conv1d with another forward", lambda: co.continual(m), lambda c: None)
    if special == "builtin":
        for f in (len, max, torch.relu):
            refuse(case, ctx, f"built-in {f}", lambda: co.continual(f), lambda c: None)
        return True
    if special == "param":
        from torch.nn.utils import parametrize

        class Double(nn.Module):
            def forward(self, w):
                return w * 2

        m = init(nn.Conv1d(case["c"], 2, 2), seed, dtype)
        parametrize.register_parametrization(m, "weight", Double())
        x = data(5, S=[])
        try:
            c = co.continual(m)
        except Exception:
            ctx.count("refused")
            return True
        util.expect(c.forward(x), m(x), "parametrized Conv1d", rtol)
        return True
    m = construct(sp).train(case["train"])
    what = f"{sp['t']}({sp['a']}, {sp['kw']})"
    nd = sp.get("nd", case["nd"])
    x = torch.randn(1, case["c"], 8, *([4] * (nd - 1)))

    def use(c):
        if hasattr(c, "forward"):
            c.forward(x)
            c.forward_steps(x)

    if case["inside"]:
        refuse(case, ctx, what + " inside Sequential", lambda: co.continual(nn.Sequential(nn.ReLU(), m)), lambda c: None)
        refuse(case, ctx, what + " in co.Sequential", lambda: co.Sequential(m), lambda c: None)
        return True
    return refuse(case, ctx, what, lambda: co.continual(m), lambda c: None)


def do_override(case, ctx, data, dtype, rtol, seed):
    """build_from of the class, with keyword overrides where they keep the function."""
    sp = case["layer"]
    m0 = init(construct(sp), seed, dtype)
    orig = copy.deepcopy(m0).eval()
    if not fits(orig, data(case["T"] + 30)):
        raise Inconclusive("spatial size too small")
    cls = getattr(co, sp["t"])
    conv = sp["t"].startswith("Conv")
    fill = sp["kw"].get("padding_mode", "zeros") if conv else None
    m = expect_accept(lambda: cls.build_from(m0, **({"temporal_fill": fill} if conv else {})), f"{cls.__name__}.build_from").eval()
    if type(m) is not cls:
        raise Violation(f"{cls.__name__}.build_from gave {type(m)}")
    same_params(m, orig, f"{cls.__name__}.build_from")
    placed(case, orig, lambda q: cls.build_from(q, **({"temporal_fill": fill} if conv else {})), f"{cls.__name__}.build_from", ctx)
    # The converted module has parameters of its own
    for p, q in zip(m.parameters(), m0.parameters()):
        if p.data_ptr() == q.data_ptr():
            ctx.count("shared_parameters")
    ctx.count("overrides")
    return compare(m, orig, case, ctx, data, rtol, f"{cls.__name__}.build_from({sp['kw']})", wins(case))


def do_adaptive(case, ctx, data, dtype, rtol, seed):
    nd, k = case["nd"], case["k"]
    name = f"Adaptive{case['t']}Pool{nd}d"
    m0 = getattr(nn, name)(tuple(case["out"]))
    orig = copy.deepcopy(m0)
    other = {}
    if case["meta"]:  # with another size than the original
        m0 = getattr(nn, name)(3)
        other = dict(output_size=tuple(case["out"]))
        ctx.count("other_size")
    m = expect_accept(lambda: getattr(co, name).build_from(m0, k, **other), f"{name}.build_from").eval()
    x = data(case["T"] + 3)
    util.expect(m.forward(x), orig(x), f"{name}.build_from: forward", rtol)
    exp = [orig(x[:, :, i : i + k]) for i in range(x.shape[2] - k + 1)]
    exp = torch.cat(exp, 2) if exp else x[:, :, :0]
    steps_agree(m, x, exp, exp.shape[2], f"{name}.build_from(kernel_size={k})", ctx, seed, rtol)
    ctx.count("accepted")
    return True


def do_stepping(case, ctx, data, dtype, rtol, seed):
    nd, c = case["nd"], case["c"]

    class Norm(nn.Module):  # depends on the number of dimensions
        def forward(self, x):
            return x / (1 + x.abs().sum(1, keepdim=True)) * x.dim()

    if case["sub"] == "local":
        m0 = probes.Local("s", nd + 2)
    elif case["sub"] == "shape":
        m0 = Norm()
    elif case["sub"] == "conv1":
        m0 = init(getattr(nn, f"Conv{nd}d")(c, 3, (1,) + (2,) * (nd - 1), padding=(0,) + (1,) * (nd - 1)), seed, dtype)
    else:
        m0 = init(nn.Sequential(getattr(nn, f"Conv{nd}d")(c, 2, 1), nn.ReLU(), Norm()), seed, dtype)
    m0.eval()
    orig = copy.deepcopy(m0)
    m = co.forward_stepping(m0)
    same_params(m, orig, "forward_stepping")
    if m.delay != 0 or m.receptive_field != 1:
        raise Violation(f"forward_stepping: delay {m.delay}, receptive field {m.receptive_field}")
    ctx.count("stepping")
    compare(m, orig, case, ctx, data, rtol, f"forward_stepping({case['sub']})", [])
    # and inside a container, after a layer with delay
    front_conv = init(getattr(co, f"Conv{nd}d")(c, c, (2,) + (1,) * (nd - 1)), seed + 1, dtype)
    net = co.Sequential(front_conv, m).eval()
    x = data(case["T"] + 2)
    other_dim(seed, ctx)
    exp = orig(front_conv.forward(x))
    util.expect(net.forward(x), exp, "forward_stepping in a Sequential: forward", rtol)
    steps_agree(net, x, exp, x.shape[2] - 1, "forward_stepping in a Sequential", ctx, seed, rtol)
    return True


def other_dim(seed, ctx):
    """forward_stepping with time in another dimension."""
    dim = [1, 1, 3, -1, -2][seed % 5]
    # Softmax and norms over the last dimension see the difference between the dimensions
    mk = [lambda: nn.Linear(4, 3), lambda: nn.LayerNorm(4), lambda: nn.Softmax(dim=-1), nn.Tanh][seed % 4]
    m0 = init(mk() if dim in (1, -2) else nn.Softmax(dim=1), seed, F64).eval()
    orig = copy.deepcopy(m0)
    m = co.forward_stepping(m0, dim=dim)
    x = torch.randn(2, 3, 4, 4, generator=util.gen(seed), dtype=F64)
    what = f"forward_stepping({type(orig).__name__}, dim={dim})"
    exp = orig(x)
    for got in (m.forward(x), m.forward_steps(x), m(x)):
        util.expect(got, exp, what, exact=True)
    for t in range(x.shape[dim]):
        util.expect(m.forward_step(x.select(dim, t)), exp.select(dim, t), f"{what}, step {t}", 1e-12)
        with co.call_mode("forward_step"):
            util.expect(m(x.select(dim, t)), exp.select(dim, t), f"{what}, call of step {t}", 1e-12)
        util.expect(m._forward_step(x.select(dim, t), None)[0], exp.select(dim, t), f"{what}, threaded step {t}", 1e-12)
    ctx.count("other_dim")


def do_fn(case, ctx, data, dtype, rtol, seed):
    """Functions become Lambda modules which see single steps."""
    f = [lambda x: x * 2 + 1, lambda x: x / (1 + x.abs().amax(1, keepdim=True))][seed % 2]
    m = co.continual(f)
    x = data(case["T"])
    exp = f(x)
    util.expect(m.forward(x), exp, "continual(function): forward", rtol)
    steps_agree(m, x, exp, x.shape[2], "continual(function)", ctx, seed, rtol)
    net = co.Sequential(f, nn.ReLU(), f)
    exp = f(f(x).relu())
    util.expect(net.forward(x), exp, "Sequential(function): forward", rtol)
    steps_agree(net, x, exp, x.shape[2], "Sequential(function)", ctx, seed, rtol)
    return True


class Gain(nn.Module):
    def __init__(self, v):
        super().__init__()
        self.v = nn.Parameter(torch.tensor(v, dtype=F64))

    def forward(self, x):
        return x * self.v


class CoGain(co.CoModule, Gain):
    def forward(self, input):
        return Gain.forward(self, input)

    def forward_step(self, input, update_state=True):
        return self.forward(input)

    def forward_steps(self, input, pad_end=False, update_state=True):
        return self.forward(input)

    def _forward_step(self, input, prev_state=None):
        return self.forward(input), prev_state

    @staticmethod
    def build_from(module):
        m = CoGain(0.0)
        m.load_state_dict(module.state_dict())
        return m


def do_custom(case, ctx, data, dtype, rtol, seed):
    """Registered conversions apply, also inside containers; unregistered ones raise."""
    from continual import convert

    x = data(case["T"]).to(F64)
    v = 0.5 + seed % 7
    refuse(case, ctx, "unregistered module", lambda: co.continual(Gain(v)), lambda c: None)
    convert.register(Gain, CoGain)
    try:
        for m in (co.continual(Gain(v)), co.continual(nn.Sequential(nn.ReLU(), Gain(v))),
                  co.Sequential(Gain(v), nn.Tanh())):
            orig = {CoGain: lambda x: x * v}.get(type(m)) or (
                (lambda x: x.relu() * v) if isinstance(m[0], nn.ReLU) else (lambda x: torch.tanh(x * v)))
            util.expect(m.forward(x), orig(x), "registered conversion: forward", rtol)
            steps_agree(m, x, orig(x), x.shape[2], "registered conversion", ctx, seed, rtol)
    finally:
        convert.MODULE_MAPPING.pop(Gain, None)
    ctx.count("custom")
    return True


def do_group(case, ctx, data, dtype, rtol, seed):
    """Known finding: GroupNorm (and such) normalises over time in forward, per step in steps."""
    c = case["c"] = max(2, case["c"])
    g = 2 if c == 4 else 1
    m0 = init(nn.GroupNorm(g, c), seed, dtype)
    orig = copy.deepcopy(m0)
    try:
        m = co.continual(m0)
    except Exception:
        ctx.count("refused")
        return True
    x = data(case["T"] + 3)
    util.expect(m.forward(x), orig(x), "GroupNorm: forward", rtol)
    exp = torch.stack([orig(f.unsqueeze(2)).squeeze(2) for f in x.unbind(2)], 2)
    steps = torch.stack([m.forward_step(f) for f in x.unbind(2)], 2)
    if util.same(steps, orig(x), rtol):
        return True
    if not util.same(steps, exp, rtol):
        raise Violation("GroupNorm: steps are neither those of forward nor normalised per step")
    ctx.finding("groupnorm-normalises-over-time",
                "nn.GroupNorm is converted although forward normalises over time and steps normalise each step alone")
    return True


def do_mha(case, ctx, data, dtype, rtol, seed):
    e, h, n = case["e"], case["h"], case["n"]
    kw = dict(case["kw"])
    bf = kw.pop("batch_first", True)
    m0 = init(nn.MultiheadAttention(e, h, batch_first=bf, **kw), seed, dtype).train(case["train"])
    if case["cls"] == "retro":
        nets.calm(m0)
    orig = copy.deepcopy(m0).eval()
    cls = co.RetroactiveMultiheadAttention if case["cls"] == "retro" else co.SingleOutputMultiheadAttention
    what = f"{cls.__name__}.build_from({kw}, batch_first={bf})"
    x = data(n + 3, e, [])
    seq = x.transpose(1, 2)
    opt = dict(embed_dim_second=True) if bf else {}

    def frames_in(t):  # a step in the layout of the module
        return x[:, :, t] if bf else x[:, :, t]

    supported = not ({"kdim", "add_bias_kv", "add_zero_attn"} & set(kw))

    def use(m):
        for t in range(n):
            o = m.forward_step(frames_in(t))
        return o

    try:
        m = cls.build_from(m0, sequence_len=n, **opt)
    except Exception:
        if supported:
            raise
        ctx.count("refused")
        return True
    if m.training != case["train"]:
        raise Violation(f"{what}: training is {m.training}, original {case['train']}")
    ctx.count("training_kept")
    m.eval()
    same_params(m, orig, what)
    if supported:
        placed(case, orig, lambda a: cls.build_from(a, sequence_len=n, **opt), what, ctx)
    q = seq if bf else seq.transpose(0, 1)  # layout of the original
    inp = x if bf else q
    try:
        outs = [m.forward_step(frames_in(t)) for t in range(n + 3)]
        got = m.forward(inp[:, :, :n] if bf else inp[:n])
    except Exception:
        if supported:
            raise
        ctx.count("refused_at_use")
        return True
    tol = max(rtol, 1e-6)

    def torch_out(lo):
        w = seq[:, lo : lo + n]
        w = w if bf else w.transpose(0, 1)
        o = orig(w, w, w, need_weights=False)[0]
        return o if bf else o.transpose(0, 1)  # B, T, E

    exp = torch_out(0)
    got = first(got)
    got = got.transpose(1, 2) if bf else got.transpose(0, 1)
    util.expect(got, exp if case["cls"] == "retro" else exp[:, -1:], f"{what}: forward", tol)
    for t in range(n + 3):
        o = first(outs[t])
        if t < n - 1:
            if o is not None:
                raise Violation(f"{what}: output at step {t}")
            continue
        exp = torch_out(t - n + 1)
        if case["cls"] == "retro":
            o = o.transpose(1, 2) if bf else o.transpose(0, 1)
            util.expect(o, exp, f"{what}: step {t}", tol)
        else:
            util.expect(o, exp[:, -1], f"{what}: step {t}", tol)
        ctx.count("step_frames")
    ctx.count("mha")
    ctx.count("accepted")
    return True


def do_enc(case, ctx, data, dtype, rtol, seed):
    e, n, l = case["e"], case["n"], case["l"]
    act = {"relu": "relu", "gelu": "gelu", "mod": nn.SiLU(), "fn": torch.tanh}[case["act"]]
    tl = nn.TransformerEncoderLayer(e, case["h"], case["ff"], case["drop"], act, batch_first=True,
                                    layer_norm_eps=case["eps"])
    m0 = nn.TransformerEncoder(tl, l, nn.LayerNorm(e) if case["norm"] else None, enable_nested_tensor=False)
    init(m0, seed, dtype).train(case["train"])
    nets.calm(m0)
    orig = copy.deepcopy(m0).eval()
    what = f"TransformerEncoder.build_from({ {k: case[k] for k in ('e', 'h', 'ff', 'act', 'eps', 'norm', 'l')} })"
    if case["how"] == "continual" and seed % 2:
        # co.continual does not know the sequence length
        refuse(case, ctx, "TransformerEncoder without sequence_len", lambda: co.continual(m0), lambda c: None)
    m = expect_accept(lambda: co.TransformerEncoder.build_from(m0, n), what)
    if case["drop"] and any(d.training != case["train"] for d in m.modules() if isinstance(d, nn.Dropout)):
        raise Violation(f"{what}: dropout is not in the training mode of the original")
    ctx.count("training_kept", bool(case["drop"]))
    m.eval()
    a = sorted((tuple(v.shape), v.dtype, float(v.double().sum())) for v in m.state_dict().values())
    b = sorted((tuple(v.shape), v.dtype, float(v.double().sum())) for v in orig.state_dict().values())
    if str(a) != str(b):
        raise Violation(f"{what}: parameters differ from those of the original")
    x = data(n + 4, e, [])
    tol = {"f64": 1e-6, "f32": 5e-3}[case["dt"]]

    def whole(lo, hi):
        return orig(x[:, :, lo:hi].transpose(1, 2)).transpose(1, 2)

    exp = whole(0, n)
    got = m.forward(x[:, :, :n])
    util.expect(got, exp if l == 1 else exp[:, :, -1:], f"{what}: forward", tol)
    for t in range(n + 4):
        o = m.forward_step(x[:, :, t])
        if t < n - 1:
            if o is not None:
                raise Violation(f"{what}: output at step {t}")
        else:
            util.expect(o, whole(t - n + 1, t + 1)[:, :, -1], f"{what}: step {t}", tol)
            ctx.count("step_frames")
    ctx.count("encoder")
    ctx.count("accepted")
    return True
