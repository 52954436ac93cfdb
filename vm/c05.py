"""Random compositions against whole-window reference semantics."""
import torch

from . import nets, util, zoo
from .core import ambient

CASES = {"quick": 1100, "thorough": 40000}
RULE = ("random composition of Sequential, BroadcastReduce (also as Broadcast/Parallel/Reduce), "
        "Residual (also shrinking), Conditional, convolutions, pooling, recurrent and time-local "
        "modules, squeeze-and-excitation blocks and pooled heads, nested up to 3 deep; built with positional or named children, functionally "
        "converted torch.nn children; call schedule; every call and forward compared with the "
        "reference; non-trivial: at least one output and a container beyond a plain chain or "
        "two layers")
REACH = {"out_frames": 1000, "none_calls": 300, "forward": 300, "has_br": 100, "gated": 40, "has_res": 100,
         "strided_br": 20, "shrink_res": 20, "uneven_delay": 50}


def decorate(r, spec):
    """Choose between equivalent ways of building containers."""
    for s in nets.walk(spec):
        if s["k"] == "br":
            s[r.choice(["named", "long", "plain", "plain"])] = True
        elif s["k"] == "seq" and r.random() < 0.3:
            s["named"] = True


def generate(r, tier, idx):
    z = nets.rand_gated(r, sized=True) if r.random() < 0.15 else nets.rand_net(r, depth=r.choice([1, 2, 2, 3]))
    decorate(r, z["spec"])
    k, s, p = nets.kspec(z["spec"])
    T = r.choice([k + r.randint(0, 3 * s + 4), 2 * k + 2 * s, r.randint(1, 30)])
    return dict(z=z, B=r.choice([1, 2, 3]), T=T, cut=zoo.rand_cut(r, T), kind=r.choice(util.KINDS),
                dt=r.choice(["f64", "f64", "f64", "f32"]), style=r.randint(0, 99),
                lay=r.choice(["", "", "", "noncontig", "strided"]), T2=r.choice([0, 0, T]),
                fwd_first=r.random() < 0.3)


def delays(spec):
    return {k - 1 - p for k, s, p in map(nets.kspec, spec["c"])}


@ambient
def run(case, ctx):
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    m, f = zoo.make(z, case["seed"], dt, style=case["style"])
    rtol = zoo.rtol(spec, dt) * (10 if case["kind"] in ("mixed", "big") else 1)
    k, s, p = nets.kspec(spec)
    T = case["T"]
    x = zoo.stream(z, T, case["seed"], case["kind"], case["B"], dt)
    x = util.layout(x, case["lay"])

    def forward():
        if T >= k:
            util.expect(zoo.fwd(m, x), f.forward(x), "forward", rtol)
            ctx.count("forward")

    if case["fwd_first"]:
        forward()
    n = zoo.drive_expect(m, f, x, case["cut"], "stream", ctx, rtol)
    if not case["fwd_first"]:
        forward()
    if n and T >= k:
        # The reference agrees with its own forward on the whole sequence
        f.reset()
        full = f.forward(x)
        outs = [o for o in map(f.step, util.frames(x)) if o is not None]
        if not zoo.has(spec, "skip", "aavg", "amax"):
            zoo.expect_frames(outs, [full[:, :, j] for j in range(len(outs))], "reference", rtol)
    if case["T2"]:
        m.clean_state()
        f.reset()
        y = zoo.stream(z, case["T2"], case["seed"] + 1, "randn", case["B"], dt)
        n += zoo.drive_expect(m, f, y, zoo.rand_cut(__import__("random").Random(case["seed"]), case["T2"]),
                              "second stream", ctx, rtol)
    ks = nets.kinds(spec)
    ctx.count("has_br", "br" in ks)
    ctx.count("has_res", "res" in ks)
    ctx.count("gated", "aavg" in ks or "amax" in ks)
    ctx.count("has_cond", "cond" in ks)
    for q in nets.walk(spec):
        if q["k"] == "br":
            ctx.count("strided_br", nets.kspec(q)[1] > 1)
            ctx.count("uneven_delay", len(delays(q)) > 1)
        if q["k"] == "res" and q["mode"]:
            ctx.count("shrink_res")
    return n > 0 and len(ks) > 2
