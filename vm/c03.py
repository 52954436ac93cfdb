"""Continual recurrent networks against torch.nn over the whole history."""
import torch
from torch import nn

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1200, "thorough": 40000}
RULE = ("random RNN/GRU/LSTM (sizes, layers, bias, nonlinearity, projection), built directly or "
        "by conversion, optional initial state, call schedule; outputs and state compared with "
        "torch.nn on the whole history after every call; non-trivial: always")
REACH = {"calls": 1000, "initial_state": 50, "state_checks": 500, "forward": 100, "special_states": 50}


def generate(r, tier, idx):
    T = r.choice([1, 2, 3, r.randint(1, 20), r.randint(20, 60)])
    t = r.choice(["RNN", "GRU", "LSTM"])
    h = r.choice([1, 2, 3, 5])
    return dict(t=t, i=r.choice([1, 2, 3, 4]), h=h, l=r.choice([1, 1, 2, 3]),
                bias=r.random() < 0.7, nl=r.choice(["tanh", "relu"]),
                proj=r.randint(1, h - 1) if t == "LSTM" and h > 1 and r.random() < 0.3 else 0,
                B=r.choice([1, 2, 3]), T=T, cut=zoo.rand_cut(r, T),
                dt=r.choice(["f64", "f64", "f32"]), kind=r.choice(["randn", "neg", "mixed", "const"]),
                init=r.random() < 0.4, inits=r.choice(["randn", "randn", "zeros", "zero_h", "zero_c", "row", "layer", "big"]),
                bf=r.random() < 0.5,
                build=r.choice(["ctor", "from", "continual", "seq"]),
                drop=r.choice([0.0, 0.0, 0.5]))


def state(m):
    s = m.get_state()
    if not isinstance(s, (tuple, list)):
        raise Violation(f"get_state of a module in use gives {util.describe(s)}")
    return tuple(s)


def special(a, kind, which):
    """Initial states with zeros in all, in one tensor, in a batch entry or in a layer."""
    if kind == "zeros" or kind == "zero_h" and which == 0 or kind == "zero_c" and which == 1:
        a.zero_()
    elif kind == "row":
        a[:, 0] = 0
    elif kind == "layer":
        a[-1] = 0
    elif kind == "big":
        a *= 50
    return a


@ambient
def run(case, ctx):
    dt = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    t, i, h, l = case["t"], case["i"], case["h"], case["l"]
    kw = dict(num_layers=l, bias=case["bias"], dropout=case["drop"] if l > 1 else 0.0)
    if t == "RNN":
        kw["nonlinearity"] = case["nl"]
    if case["proj"]:
        kw["proj_size"] = case["proj"]
    src = getattr(nn, t)(i, h, batch_first=case["bf"], **kw)
    nets.Builder(case["seed"], dt).init(src)
    net = getattr(nn, t)(i, h, batch_first=True, **kw).to(dt).eval()
    net.load_state_dict(src.state_dict())
    src.eval()
    if case["build"] == "ctor":
        m = getattr(co, t)(i, h, **kw).to(dt)
        m.load_state_dict(src.state_dict())
    elif case["build"] == "from":
        m = getattr(co, t).build_from(src)
    else:
        m = co.continual(src)
    m.eval()
    core = m
    if case["build"] == "seq":
        m = co.Sequential(m)
    rtol = 1e-8 if case["dt"] == "f64" else 5e-4
    B, T = case["B"], case["T"]
    x = util.data((B, i, T), case["seed"], case["kind"], dt)
    hx = None
    if case["init"]:
        hh = special(util.data((l, B, case["proj"] or h), case["seed"] + 1, "randn", dt), case["inits"], 0)
        cc = special(util.data((l, B, h), case["seed"] + 2, "randn", dt), case["inits"], 1)
        hx = (hh, cc) if t == "LSTM" else hh
        core.set_state(hx if t == "LSTM" else ((hh,) if case["seed"] % 2 else hh))
        if isinstance(hx, tuple):
            hx = tuple(a.clone() for a in hx)
        else:
            hx = hx.clone()
        ctx.count("initial_state")
        ctx.count("special_states", case["inits"] != "randn")
        # ... and back, before any step
        util.expect(state(core), hx if t == "LSTM" else (hx,), "state just set", rtol)
    done = 0
    for op, n in case["cut"]:
        got = zoo.call(m, op, x[:, :, done : done + n])
        # The entire history at once
        o, hn = net(x[:, :, : done + n].transpose(1, 2), hx)
        exp = [o[:, j] for j in range(done, done + n)]
        zoo.expect_frames(got, exp, f"call {op}{n} at step {done}", rtol)
        util.expect(state(core), tuple(hn) if t == "LSTM" else (hn,),
                    f"state after step {done + n}", rtol)
        ctx.count("state_checks")
        ctx.count("calls")
        done += n
    o, hn = net(x.transpose(1, 2), hx)
    if m is core:
        fo, fh = core.forward(x, hx) if hx is not None else core.forward(x)
        util.expect(fo, o.transpose(1, 2), "forward", rtol)
        util.expect(fh, hn, "forward state", rtol)
    else:
        util.expect(m.forward(x), net(x.transpose(1, 2))[0].transpose(1, 2), "forward", rtol)
    ctx.count("forward")
    return True
