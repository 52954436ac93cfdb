"""Continual pooling against torch.nn pooling."""
import torch
from torch import nn

import continual as co

from . import nets, ref, util, zoo
from .core import ambient

CASES = {"quick": 3200, "thorough": 60000}
RULE = ("random average/max/adaptive pooling (1d-3d; kernel, stride, padding, dilation, spatial "
        "ceil mode, count_include_pad), built directly or by conversion, call schedule on one or "
        "two streams; every call is compared with pooling of the whole window and forward with "
        "torch.nn; non-trivial: at least one output compared")
REACH = {"own_fill": 30, "out_frames": 500, "none_calls": 100, "forward": 100, "whole_sequence": 100}

NN = {("avg", 1): nn.AvgPool1d, ("avg", 2): nn.AvgPool2d, ("avg", 3): nn.AvgPool3d,
      ("max", 1): nn.MaxPool1d, ("max", 2): nn.MaxPool2d, ("max", 3): nn.MaxPool3d,
      ("aavg", 2): nn.AdaptiveAvgPool2d, ("aavg", 3): nn.AdaptiveAvgPool3d,
      ("amax", 2): nn.AdaptiveMaxPool2d, ("amax", 3): nn.AdaptiveMaxPool3d}


def generate(r, tier, idx):
    if idx < len(PROBES):
        return dict(probe=idx)
    kind = r.choice(["avg", "max", "avg", "max", "adaptive"])
    c, B = r.choice([1, 2, 3]), r.choice([1, 1, 2, 3])
    nd = r.choice([1, 1, 2, 3]) if kind != "adaptive" else r.choice([2, 3])
    while True:
        S = [r.choice([1, 2, 3, 4, 5, 7]) for _ in range(nd - 1)]
        if kind == "adaptive":
            k = r.choice([1, 2, 3, 5, 8])
            spec = dict(k=r.choice(["aavg", "amax"]), nd=nd, kt=k, st=r.choice([1, 1, 2, 3]),
                        pt=r.choice([0, 0, r.randint(0, k - 1)]),
                        dt=r.choice([1, 1, 1, 2, 3]) if k > 1 else 1,
                        out=[r.choice([1, 2, 3]) for _ in range(nd - 1)])
            break
        spec = nets.rand_pool(r, nd, kind=kind)
        if kind == "avg" and spec["ks"][0] > 1 and r.random() < 0.2:
            spec["ds"][0] = r.choice([2, 3])
            spec.pop("cip", None)
        if nd > 1 and r.random() < 0.3:
            spec["ceil"] = True
        if kind == "avg" and nd > 1 and r.random() < 0.25:
            spec["div"] = r.choice([1, 2, 3, 7])
        if nd == 1 and r.random() < 0.5:
            spec["scalar"] = True
        if r.random() < 0.15:
            k = r.choice([6, 7, 9])
            spec["ks"][0], spec["ps"][0] = k, r.randint(0, k // 2)
            if spec["ps"][0]:
                spec.pop("cip", None)
        if nets.out_space(spec, S) is not None:
            break
    conv = r.random() < 0.4
    if r.random() < 0.2 and (spec["k"] not in ("avg", "max") or not conv):
        spec["fill"] = r.choice(["replicate", "zeros"] + ["neg_inf"] * (spec["k"] in ("max", "amax")))
    if spec["k"] in ("aavg", "amax"):
        spec["brief"] = r.random() < 0.3
    k, s, p = nets.kspec(spec)
    T = max(1, r.choice([1, k - 1, k, k + s, 2 * k + r.randint(0, 8), r.randint(1, 25)]))
    if r.random() < 0.12:
        T = r.randint(60, 200)
    T2 = r.choice([0, 0, r.randint(1, 2 * k + 4)])
    return dict(spec=spec, c=c, S=S, B=B, T=T, dt=r.choice(["f64", "f64", "f32"]),
                kind=r.choice(util.KINDS + ["low", "low"] + ["holes"] * (spec["k"] in ("max", "amax"))), lay=r.choice(["", "", "noncontig", "strided"]),
                cut=zoo.rand_cut(r, T), T2=T2, cut2=zoo.rand_cut(r, T2),
                train=r.random() < 0.3, conv=conv,
                over=[n for n in ("kernel_size", "stride", "padding", "ceil_mode", "count_include_pad", "divisor_override") if r.random() < 0.5]
                if conv and r.random() < 0.6 else None)


def regular(s):
    cls = NN[s["k"], s["nd"]]
    if s["k"] in ("aavg", "amax"):
        return cls((1, *s["out"]))
    kw = dict(ceil_mode=s.get("ceil", False))
    if s["k"] == "avg":
        kw["count_include_pad"] = s.get("cip", True)
        if s.get("div"):
            kw["divisor_override"] = s["div"]
    else:
        kw["dilation"] = tuple(s["ds"])
    return cls(tuple(s["ks"]), tuple(s["ss"]), tuple(s["ps"]), **kw)


# Known deviations, probed with the exact value they give
def probe_cip():
    x = util.data((1, 2, 4), 1)
    m = co.AvgPool1d(3, 1, 1, count_include_pad=False)
    got = m.forward_step(x[:, :, 0]), m.forward_step(x[:, :, 1])
    full = nn.AvgPool1d(3, 1, 1, count_include_pad=False)(x)
    util.expect(m.forward(x), full, "forward")
    wrong = (x[:, :, 0] + x[:, :, 1]) / 3
    return got[0] is None, got[1], full[:, :, 0], wrong


PROBES = [
    ("avg-count-include-pad-time", probe_cip,
     "AvgPool with count_include_pad=False and temporal padding divides by the whole window in steps"),
]


@ambient
def run(case, ctx):
    if "probe" in case:
        key, fn, what = PROBES[case["probe"]]
        silent, got, right, wrong = fn()
        ctx.count("probes")
        if silent and util.same(got, right):
            return True
        if silent and util.same(got, wrong):
            ctx.finding(key, what)
            return True
        util.expect(got, right, f"probe {key} (and not the known deviation either)")
        return True
    spec, seed, dtn = case["spec"], case["seed"], case["dt"]
    dt = {"f64": torch.float64, "f32": torch.float32}[dtn]
    rtol = zoo.rtol(spec, dtn)
    m, f = nets.build(spec, seed, dtype=dt, train=case["train"])
    reg = regular(spec)
    dilated_avg = spec["k"] == "avg" and spec["ds"][0] > 1
    if case["over"] is not None and spec["k"] in ("avg", "max"):  # from one with other options
        given = dict(kernel_size=tuple(spec["ks"]), stride=tuple(spec["ss"]), padding=tuple(spec["ps"]), ceil_mode=spec.get("ceil", False))
        others = dict(kernel_size=2, stride=3, padding=0, ceil_mode=not given["ceil_mode"])
        fixed = dict(dilation=tuple(spec["ds"]))
        if spec["k"] == "avg":
            given["count_include_pad"] = spec.get("cip", True)
            others["count_include_pad"] = not given["count_include_pad"]
            if spec["nd"] > 1 and spec.get("div"):
                given["divisor_override"], others["divisor_override"] = spec["div"], 5
        if spec.get("fill"):
            fixed["temporal_fill"] = spec["fill"]
        over = {n: v for n, v in given.items() if n in case["over"]}
        source = NN[spec["k"], spec["nd"]](**{**given, **{n: others[n] for n in over}})
        m = type(m).build_from(source, **over, **fixed)
        m.train(case["train"])
        ctx.count("overridden", bool(over))
    elif case["conv"] and not dilated_avg:
        if spec["k"] in ("aavg", "amax"):
            m = type(m).build_from(reg, spec["kt"], stride=spec["st"], padding=spec["pt"],
                                   dilation=spec.get("dt", 1),
                                   **(dict(temporal_fill=spec["fill"]) if spec.get("fill") else {}))
        else:
            m = co.continual(reg)
        m.train(case["train"])
    k, s, p = nets.kspec(spec)
    T = case["T"]
    x = util.data((case["B"], case["c"], T, *case["S"]), seed, case["kind"], dt)
    x = util.layout(x, case["lay"])
    n = zoo.drive_expect(m, f, x, case["cut"], "first stream", ctx, rtol)
    if not dilated_avg and T + 2 * p >= k and (spec["nd"] < 3 or T >= k):
        full = reg(x)
        util.expect(m.forward(x), full, "forward", rtol)
        ctx.count("forward")
        if spec["k"] in ("avg", "max") and not spec.get("fill"):
            # The reference itself against the whole sequence
            f.reset()
            js = [j for j in range(full.shape[2]) if j * s + k - 1 - p < T]
            outs = [o for o in map(f.step, util.frames(x)) if o is not None]
            zoo.expect_frames(outs, [full[:, :, j] for j in js], "reference", rtol)
            ctx.count("whole_sequence")
    if spec.get("fill") and p and not spec.get("ceil"):
        m.clean_state()
        f.reset()
        exp = [o for o in map(f.step, util.frames(x)) if o is not None] + f.tail()
        got = m.forward_steps(x, pad_end=True)
        zoo.expect_frames([] if got is None else list(got.unbind(2)), exp, "padded steps", rtol)
        ctx.count("own_fill")
    if case["T2"]:
        m.clean_state()
        f.reset()
        x = util.data((case["B"] + 1, case["c"], case["T2"], *case["S"]), seed + 1, "randn", dt)
        n += zoo.drive_expect(m, f, x, case["cut2"], "second stream", ctx, rtol)
        ctx.count("second_streams")
    return n > 0
