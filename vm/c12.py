"""forward between steps: no effect on the stream, no dependence on it."""
import torch

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1300, "thorough": 45000}
RULE = ("any module or network except positional encodings; a stream with regular forward passes of "
        "other lengths, batch and spatial sizes at random points (by method, by calling the module, "
        "through a module call while a co.call_mode context for steps is left and entered); forward "
        "results against a module that never streamed, step outputs against one that never ran "
        "forward; non-trivial: forward ran after steps and outputs followed")
REACH = {"forwards": 2000, "running_forwards": 500, "warming_forwards": 200, "out_frames": 5000,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6, lambda s: not zoo.has(s, "rpe"), gates=True)
    spec = z["spec"]
    if z.get("nofwd"):
        return None
    k, s = zoo.span(z)
    T = k + 2 * s + r.randint(0, 6)
    cut = zoo.rand_cut(r, T)
    fw = []
    for _ in range(r.randint(1, 4)):
        n = r.choice([k, k, k + s, k + r.randint(0, 6)])
        if zoo.has(spec, "mha", "enc"):
            n = max(2, n)
        fw.append(dict(at=r.choice([0, 1, 2, len(cut), r.randint(0, len(cut)), r.randint(0, len(cut))]), n=n,
                       B=r.choice([1, 2, 3]), grow=bool(z["S"]) and not zoo.has(z["spec"], "reshape", "lins") and r.random() < 0.3,
                       how=r.choice(["method", "call", "ctx", "ctx_nested"]), grad=r.random() < 0.2))
    return dict(z=z, B=r.choice([1, 2]), T=T, cut=cut, fw=fw, kind=zoo.rand_kind(r, spec),
                dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), train=r.random() < 0.15)


def first(o):
    return o[0] if isinstance(o, tuple) else o


def forward(m, x, how):
    if how == "method":
        o = m.forward(x)
    elif how == "call":
        o = m(x)
    elif how == "ctx":
        with co.call_mode("forward"):
            o = m(x)
    else:
        with co.call_mode("forward_step"):
            with co.call_mode("forward"):
                o = m(x)
    return util.copy_out(first(o))


@ambient
def run(case, ctx):
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    rtol = zoo.rtol(spec, dt) * (10 if case["kind"] in ("mixed", "big") else 1)
    train = case["train"] and not zoo.has(spec, "bn", "act")

    def new():
        return zoo.make(z, case["seed"], dt, style=case["style"])[0].train(train)

    x = zoo.stream(z, case["T"], case["seed"], case["kind"], case["B"], dt)
    m, plain = new(), new()
    t, n_fw, n_out, good = 0, 0, 0, False
    for i, call in enumerate(case["cut"] + [None]):
        for j, p in enumerate(case["fw"]):
            if p["at"] != i:
                continue
            S = [n + 1 + j for n in z["S"]] if p["grow"] else z["S"]
            w = zoo.stream(z, p["n"], case["seed"] + 10 + j, case["kind"], p["B"], dt, S)
            exp = forward(new(), w, "method")
            if p["grad"]:
                with torch.enable_grad():
                    got = forward(m, w, p["how"])
            else:
                got = forward(m, w, p["how"])
            util.expect(got, exp, f"forward ({p['how']}) of {p['n']} steps at step {t} of a stream", rtol)
            n_fw += 1
            ctx.count("forwards")
            ctx.count("running_forwards", n_out > 0)
            ctx.count("warming_forwards", t > 0 and n_out == 0)
        if call is None:
            break
        op, n = call
        exp = zoo.call(plain, op, x[:, :, t : t + n])
        got = zoo.call(m, op, x[:, :, t : t + n])
        zoo.expect_frames(got, exp, f"call {op}{n} at step {t} after {n_fw} forward passes", rtol)
        n_out += len(exp)
        good = good or (t > 0 and n_fw > 0 and len(exp) > 0)
        t += n
    ctx.count("out_frames", n_out)
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return good
