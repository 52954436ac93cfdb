"""The same stream cut into calls in different ways."""
import random

import torch

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1300, "thorough": 45000}
RULE = ("any module or network; one stream driven through four instances, by single steps, by one "
        "call and by two random cuts; concatenated outputs, silence of calls and a continuation "
        "are compared; between the calls the module is looked at, flipped between training and evaluation, with and without gradients, frozen or given "
        "its own parameters; non-trivial: at least one output or a stateful module")
REACH = {"out_frames": 2000, "none_calls": 300, "cuts": 2000, "continued": 500, "between": 3000, "mode_flips": 200,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6, gates=True)
    k, s = zoo.span(z)
    mx = zoo.max_T(z["spec"])
    T = r.choice([k, 2 * k + s, k + 3 * s + r.randint(0, 5), r.randint(1, 25)])
    T3 = k + 2 * s
    return dict(z=z, B=r.choice([1, 2]), T=T, T3=T3, kind=zoo.rand_kind(r, z["spec"]),
                dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99),
                cuts=[[["s", 1]] * T, [["m", T]] if T <= mx else zoo.rand_cut(r, T, mx),
                      zoo.rand_cut(r, T, mx), zoo.rand_cut(r, T, mx)],
                cut3=[zoo.rand_cut(r, T3, mx) for _ in range(4)],
                between=[r.choice(BETWEEN) if r.random() < 0.3 else None for _ in range(60)])


BETWEEN = ["mode", "mode", "repr", "state", "dict", "get", "freeze", "call_mode", "grad", "grad"]


def between(m, what, spec, ctx):
    """Something in the middle of a stream which is no part of it."""
    if what is None:
        return
    if what == "mode" and not zoo.has(spec, "bn", "act"):
        m.train(not m.training)
        ctx.count("mode_flips")
    elif what == "repr":
        repr(m)
    elif what == "state":
        m.state_dict()
    elif what == "dict":
        m.load_state_dict({k: v.clone() for k, v in m.state_dict().items()})
    elif what == "get":
        m.get_state()
    elif what == "freeze":
        m.requires_grad_(False)
    elif what == "call_mode":
        m.call_mode = "forward_step"
    elif what == "grad":
        torch.set_grad_enabled(not torch.is_grad_enabled())
        ctx.count("grad_flips")
    ctx.count("between")


@ambient
def run(case, ctx):
    z, dt = case["z"], case["dt"]
    rtol = zoo.rtol(z["spec"], dt)
    x = zoo.stream(z, case["T"], case["seed"], case["kind"], case["B"], dt)
    y = zoo.stream(z, case["T3"], case["seed"] + 1, "randn", case["B"], dt)
    base = None
    for i, cut in enumerate(case["cuts"]):
        m, _ = zoo.make(z, case["seed"], dt, style=case["style"])
        outs, t = [], 0
        for j, (op, n) in enumerate(cut):
            if i > 0 and j < len(case["between"]):
                between(m, case["between"][j], z["spec"], ctx)
            outs += zoo.drive(m, x[:, :, t : t + n], [[op, n]], ctx)
            t += n
        rest = zoo.flat(zoo.drive(m, y, case["cut3"][i], ctx))
        ctx.count("cuts")
        ctx.count("none_calls", sum(not o for o in outs))
        if base is None:  # single steps: emission times are observed
            base, base_rest = zoo.flat(outs), rest
            at = [t for t, o in enumerate(outs) for _ in o]
            continue
        zoo.expect_frames(zoo.flat(outs), base, f"cut {cut} against single steps", rtol)
        zoo.expect_frames(rest, base_rest, f"continuation after cut {cut}", rtol)
        # Outputs come in the call that contains their step
        t = 0
        for (op, n), o in zip(cut, outs):
            e = sum(t <= a < t + n for a in at)
            if len(o) != e:
                raise Violation(f"call {op}{n} at step {t} of cut {cut} gave {len(o)} outputs, "
                                f"single steps {e}")
            t += n
        ctx.count("continued", bool(rest))
    for k in set(nets.kinds(z["spec"])):
        ctx.count("k:" + k)
    return bool(base)
