"""Modules compute with the parameters they have now."""
import copy
import io

import torch
from torch import nn

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1200, "thorough": 40000}
RULE = ("any module or network with parameters, after any amount of streaming and forward; all or some of its parameters and "
        "buffers are then changed (state dict loaded, copied in place, .data replaced, new Parameters assigned, an "
        "optimizer step, converted to another dtype and back, moved through pickle of the state dict, parametrized or tied); "
        "afterwards forward, steps and chunks are compared with a new instance which had these values from the beginning: "
        "at once after clean_state and in forward, and without it from the moment the receptive field has passed; "
        "non-trivial: the values made a difference")
REACH = {"changed": 900, "clean_streams": 400, "running_streams": 150, "forwards": 400, "made_a_difference": 600,
         "h:load": 50, "h:inplace": 50, "h:data": 50, "h:assign": 50, "h:step": 50, "h:dtype": 50, "h:some": 50,
         "h:parametrize": 20, "h:fill": 50,
         "k:conv": 100, "k:linear": 10, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 5, "k:bn": 10, "k:br": 30, "k:res": 20}
HOWS = ["load", "load", "inplace", "data", "assign", "step", "dtype", "some", "parametrize", "fill"]


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6, lambda s: zoo.has(s, "conv", "linear", "rnn", "mha", "enc", "rpe", "bn", "prelu"), gates=True)
    k, s = zoo.span(z)
    mx = zoo.max_T(z["spec"])
    T = r.choice([0, 1, k, 2 * k + s])
    n = 3 * k + 2 * s + 2
    return dict(z=z, B=r.choice([1, 2]), T=T, cut=zoo.rand_cut(r, T, mx), n=n, cut2=zoo.rand_cut(r, n, mx),
                style=r.randint(0, 99), how=r.choice(HOWS), clean=r.random() < 0.6, fwd=r.random() < 0.5,
                dt=r.choice(["f64", "f64", "f32"]), pick=r.randint(0, 10**6), train=r.random() < 0.2)


def change(m, other, how, pick, x):
    """Gives m values; returns those which it has to have now."""
    new = {n: v.clone() for n, v in other.state_dict().items()}
    params = dict(m.named_parameters())
    if how == "load":
        f = io.BytesIO()
        torch.save(new, f)
        f.seek(0)
        m.load_state_dict(torch.load(f))
    elif how == "inplace":
        for n, p in list(params.items()) + list(m.named_buffers()):
            if n in new:
                p.detach().copy_(new[n])
    elif how == "data":
        for n, p in params.items():
            p.data = new[n].clone()
        for n, b in m.named_buffers():
            if n in new:
                b.copy_(new[n])
    elif how == "assign":
        for n, p in params.items():
            mod, _, leaf = n.rpartition(".")
            setattr(m.get_submodule(mod), leaf, nn.Parameter(new[n].clone()))
        for n, b in m.named_buffers():
            if n in new:
                b.copy_(new[n])
    elif how == "step":  # what an optimizer does
        opt = torch.optim.SGD(list(params.values()), lr=0.5)
        g = util.gen(pick)
        for p in params.values():
            p.grad = torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype)
        opt.step()
        opt.zero_grad()
        new = {n: v.clone() for n, v in m.state_dict().items()}
    elif how == "dtype":
        was = next(m.parameters()).dtype
        m.to({torch.float64: torch.float32, torch.float32: torch.float64}[was])
        m.to(was)
        new = {n: v.clone() for n, v in m.state_dict().items()}
    elif how == "some":
        names = sorted(params)
        n = names[pick % len(names)]
        params[n].detach().copy_(new[n])
        new = {k: v.clone() for k, v in m.state_dict().items()}
    elif how == "fill":
        for p in params.values():
            p.detach().mul_(-0.5).add_(0.1)
        new = {n: v.clone() for n, v in m.state_dict().items()}
    return new


class Scale(nn.Module):
    def forward(self, w):
        return w * -1.5 + 0.25


def parametrize(m, pick):
    """Some weight becomes a function of its parameter; returns the values it has now."""
    from torch.nn.utils import parametrize as P

    ok = [(n, c) for n, c in m.named_modules() if isinstance(getattr(c, "weight", None), nn.Parameter)
          and hasattr(c, "forward_step")]
    if not ok:
        return None
    n, c = ok[pick % len(ok)]
    before = {k: v.clone() for k, v in m.state_dict().items()}
    P.register_parametrization(c, "weight", Scale())
    key = (n + "." if n else "") + "weight"
    before[key] = before[key] * -1.5 + 0.25
    return before


@ambient
def run(case, ctx):
    z, dt, how = case["z"], case["dt"], case["how"]
    spec = z["spec"]
    if zoo.has(spec, "mha", "enc"):
        dt = "f64"  # (any values in the weights of retroactive attention)
    rtol = 10 * zoo.rtol(spec, dt)
    train = case["train"] and not zoo.has(spec, "bn", "act")

    def new(seed):
        m = zoo.make(z, seed, dt, style=case["style"])[0]
        return m.train() if train else m

    m = new(case["seed"])
    if not list(m.parameters()):
        return False
    x = zoo.stream(z, case["T"], case["seed"], "randn", case["B"], dt) if case["T"] else None
    y = zoo.stream(z, case["n"], case["seed"] + 1, "randn", case["B"], dt)
    stays = new(case["seed"])
    fwd = not z.get("nofwd") and case["n"] <= zoo.max_T(spec)
    if x is not None:
        zoo.drive(m, x, case["cut"])
    if case["fwd"] and fwd:
        zoo.fwd(m, y)
    if how == "parametrize":
        if zoo.has(spec, "rnn", "mha", "enc"):
            how = "fill"  # torch refuses them or reads the weight elsewhere
        else:
            values = parametrize(m, case["pick"])
            if values is None:
                how = "fill"
    if how != "parametrize":
        values = change(m, new(case["seed"] + 7), how, case["pick"], y)
    ref = new(case["seed"])
    ref.load_state_dict(values)
    ctx.count("h:" + how)
    ctx.count("changed")
    differs = False
    if fwd:
        got = zoo.fwd(m, y)  # (first: nothing of the other instances may help it)
        exp = zoo.fwd(ref, y)
        util.expect(got, exp, f"forward after {how}", rtol)
        differs = not util.same(zoo.fwd(stays, y), exp, rtol)
        ctx.count("forwards")
    fresh = case["clean"] or how == "dtype" and x is not None
    if fresh:
        m.clean_state()
        got = zoo.drive(m, y, case["cut2"])
        exp = zoo.drive(ref, y, case["cut2"])
        for i, (a, b) in enumerate(zip(got, exp)):
            zoo.expect_frames(a, b, f"call {i} after {how} and clean_state", rtol)
        ctx.count("clean_streams")
        differs = differs or not util.same(zoo.flat(zoo.drive(stays, y, case["cut2"])), zoo.flat(exp), rtol)
    elif not zoo.has(spec, "rnn"):
        # In step with a stream which has had the same length
        if x is not None:
            zoo.drive(ref, x, case["cut"])
        got = zoo.drive(m, y, case["cut2"])
        exp = zoo.drive(ref, y, case["cut2"])
        rf = int(m.receptive_field)
        t = n = 0
        for i, (op, w) in enumerate(case["cut2"]):
            if len(got[i]) != len(exp[i]):
                raise Violation(f"call {i} after {how}: {len(got[i])} outputs, expected {len(exp[i])}")
            if t >= rf:
                zoo.expect_frames(got[i], exp[i], f"call {i} after {how}, {t} steps later (receptive_field={rf})", rtol)
                n += len(got[i])
            t += w
        ctx.count("running_streams", n > 0)
        if x is not None:
            zoo.drive(stays, x, case["cut"])
        differs = differs or not util.same(zoo.flat(zoo.drive(stays, y, case["cut2"])), zoo.flat(exp), rtol)
    ctx.count("made_a_difference", differs)
    for q in set(nets.kinds(spec)):
        ctx.count("k:" + q)
    return differs or how == "dtype"
