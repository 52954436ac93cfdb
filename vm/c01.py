"""Continual convolutions against torch.nn on the whole sequence."""
import copy

import torch
from torch import nn

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 3000, "thorough": 60000}
RULE = ("random convolution (1d-3d; kernel, stride, padding, spatial dilation, groups, bias, "
        "zero/replicate padding), batch, length, dtype, data, call schedule; every call of one "
        "or two streams is compared with torch.nn; non-trivial: at least one output compared")
REACH = {"own_fill": 30, "out_frames": 500, "none_calls": 100, "forward": 100}


def generate(r, tier, idx):
    nd = r.choice([1, 1, 2, 3])
    big = r.random() < 0.15
    while True:
        c = r.choice([1, 2, 3, 4, 6])
        S = [r.choice([1, 2, 3, 4, 5, 7]) for _ in range(nd - 1)]
        spec = nets.rand_conv(r, nd, c)
        if r.random() < 0.1:
            spec["ss"][0] = r.choice([4, 5])
        if r.random() < 0.15:  # depthwise
            spec["g"], spec["cout"] = c, c * r.choice([1, 2])
        if r.random() < 0.15:
            k = r.choice([6, 7, 9])
            spec["ks"][0], spec["ps"][0] = k, r.randint(0, k - 1)
        if nets.out_space(spec, S) is not None:
            break
    build = r.choice(["ctor", "ctor", "from", "over", "continual"])
    if build != "continual" and r.random() < 0.25:
        spec["fill"] = {"zeros": "replicate", "replicate": "zeros"}[spec["pm"]]
    k, s = spec["ks"][0], spec["ss"][0]
    T = r.choice([1, k - 1, k, k + s, 2 * k + r.randint(0, 8), r.randint(1, 25)])
    if big:
        T = r.randint(60, 200)
    T = max(1, T)
    T2 = r.choice([0, 0, r.randint(1, 2 * k + 4)])
    return dict(spec=spec, c=c, S=S, B=r.choice([1, 1, 2, 3]), T=T, dt=r.choice(["f64", "f64", "f32"]),
                kind=r.choice(util.KINDS), lay=r.choice(["", "", "noncontig", "strided"]),
                cut=zoo.rand_cut(r, T), T2=T2, cut2=zoo.rand_cut(r, T2), ints=r.random() < 0.2,
                train=r.random() < 0.3, build=build,
                over=[n for n in ("stride", "padding", "padding_mode") if r.random() < 0.5])


def module(case, dt):
    """(continual convolution, torch.nn convolution)."""
    s = case["spec"]
    one = (lambda v: v[0]) if case["ints"] and all(
        len(set(s[k])) == 1 for k in ("ks", "ss", "ps", "ds")) else tuple
    kw = dict(kernel_size=one(s["ks"]), stride=one(s["ss"]), padding=one(s["ps"]),
              dilation=one(s["ds"]), groups=s["g"], bias=s["bias"], padding_mode=s["pm"])
    if s["brief"]:
        kw = nets.brief(kw, nets.CONV_DEFAULTS, nets.SIZES)
    net = nets.NNCONV[s["nd"]](s["cin"], s["cout"], **kw)
    nets.Builder(case["seed"], dt).init(net)
    cls = nets.CONV[s["nd"]][0]
    if case["build"] == "from":
        m = cls.build_from(net, temporal_fill=s["fill"])
    elif case["build"] == "over":  # from one with other options
        given = dict(stride=tuple(s["ss"]), padding=tuple(s["ps"]), padding_mode=s["pm"])
        others = dict(stride=3, padding=2, padding_mode="zeros")
        source = nets.NNCONV[s["nd"]](s["cin"], s["cout"], **{**kw, **{n: others[n] for n in case["over"]}}).to(dt)
        source.load_state_dict(net.state_dict())
        m = cls.build_from(source, temporal_fill=s["fill"], **{n: given[n] for n in case["over"]})
    elif case["build"] == "continual":
        m = co.continual(net)  # the temporal fill follows the padding mode
    else:
        m = cls(s["cin"], s["cout"], temporal_fill=s["fill"], **kw).to(dt)
        m.load_state_dict(net.state_dict())
    return m.train(case["train"]), net


def whole(net, spec, x):
    """Convolution of the sequence; in time it continues as the temporal fill says."""
    if spec["fill"] == spec["pm"] or not spec["ps"][0]:
        return net(x)
    def beyond(f):
        return [f if spec["fill"] == "replicate" else torch.zeros_like(f)] * spec["ps"][0]
    x = torch.cat([*beyond(x[:, :, :1]), x, *beyond(x[:, :, -1:])], 2)
    other = copy.deepcopy(net)
    other.padding = (0, *spec["ps"][1:])
    other._reversed_padding_repeated_twice = [i for p in reversed(other.padding) for i in (p, p)]
    return other(x)


def monitor(m, net, spec, x, cut, ctx, rtol, what):
    """Checks every call of a stream on a clean module against the whole sequence."""
    k, s, p = spec["ks"][0], spec["ss"][0], spec["ps"][0]
    T = x.shape[2]
    full = whole(net, spec, x) if T + 2 * p >= k else None
    t = 0
    for op, n in cut:
        # Output j needs the inputs up to step j * s + k - 1 - p
        js = [j for j in range(T) if t <= j * s + k - 1 - p < t + n]
        got = zoo.call(m, op, x[:, :, t : t + n])
        zoo.expect_frames(got, [full[:, :, j] for j in js],
                          f"{what} call {op}{n} at step {t} of {T}", rtol)
        ctx.count("calls")
        ctx.count("out_frames", len(js))
        ctx.count("none_calls", not js)
        t += n


@ambient
def run(case, ctx):
    dt = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    spec, seed = case["spec"], case["seed"]
    rtol = zoo.rtol(spec, case["dt"])
    m, net = module(case, dt)
    x = util.data((case["B"], spec["cin"], case["T"], *case["S"]), seed, case["kind"], dt)
    x = util.layout(x, case["lay"])
    before = ctx.n["out_frames"]
    monitor(m, net, spec, x, case["cut"], ctx, rtol, "first stream")
    if case["T"] + 2 * spec["ps"][0] >= spec["ks"][0]:
        util.expect(m.forward(x), net(x), "forward", rtol)
        ctx.count("forward")
        if spec["fill"] != spec["pm"] and spec["ps"][0]:
            m.clean_state()
            util.expect(m.forward_steps(x, pad_end=True), whole(net, spec, x), "padded steps", rtol)
            ctx.count("own_fill")
    if case["T2"]:
        m.clean_state()
        x = util.data((case["B"] + 1, spec["cin"], case["T2"], *case["S"]), seed + 1,
                      "randn", dt)
        monitor(m, net, spec, x, case["cut2"], ctx, rtol, "second stream")
        ctx.count("second_streams")
    return ctx.n["out_frames"] > before
