"""Whole modules, copied or stored at any point of a stream."""
import copy
import re

import torch

import continual as co

from . import keeper, nets, util, zoo
from .core import Inconclusive, Violation

CASES = {"quick": 1200, "thorough": 40000}
RULE = ("any module or network, at points of a stream (fresh, warming up, running, cleaned): copied (deepcopy), pickled, saved with torch.save, "
        "or handed to another process, chains of these included; the copy continues the stream as the original would have, while the "
        "original is used for another stream and both have their parameters overwritten; non-trivial: a copy of a module gave outputs")
REACH = {"out_frames": 4000, "copies": 800, "h:deepcopy": 150, "h:pickle": 100, "h:save": 100, "h:process": 100, "fresh": 50, "running": 300,
         "warming": 100, "forwards": 200, "modes": 100, "overwritten": 150, "others": 500}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6, gates=True)
    k, s = zoo.span(z)
    T = min(r.choice([k, 2 * k + s, k + 3 * s + r.randint(0, 5), r.randint(1, 20)]), 40)
    cut = zoo.rand_cut(r, T, zoo.max_T(z["spec"]))
    n = len(cut)
    hows = ["deepcopy", "pickle2", "pickle4", "pickle5", "save"]
    points = sorted({r.choice([0, r.randint(0, n), r.randint(0, n)]) for _ in range(r.choice([1, 1, 2, 3]))})
    return dict(z=z, B=r.choice([1, 2]), T=T, dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), cut=cut,
                points=[[p, r.choice(hows)] for p in points], last=r.random() < 0.35, over=r.random() < 0.3,
                train=r.random() < 0.15, clean=r.choice([None, None, None, r.randint(0, n)]),
                mode=r.choice([None, None, "forward_step", "forward_steps", "forward"]))


def overwrite(m, value):
    for p in m.parameters():
        p.fill_(value)


def copied(m, how, at):
    try:
        c = copy.deepcopy(m) if how == "deepcopy" else keeper.load(keeper.store(m, how))
    except Exception as e:  # raised by the standard library or torch
        raise Violation(f"{how} at step {at}: {type(e).__name__}: {e}")
    for what, f in (("printed form", lambda m: re.sub("0x[0-9a-f]+", "", repr(m))), ("type", type), ("mode", lambda m: m.training), ("state dict", lambda m: [*m.state_dict()]),
                    ("delay", lambda m: m.delay), ("receptive field", lambda m: m.receptive_field)):
        if f(c) != f(m):
            raise Violation(f"{how} at step {at}: {what} of the copy is {f(c)!r}, that of the original {f(m)!r}")
    return c


def called(m, x, mode):
    """Outputs of the module itself, in the mode which was selected for it."""
    o = m(x[:, :, 0] if mode == "forward_step" else x)
    return [] if o is None else [util.copy_out(o)]


@torch.no_grad()
def run(case, ctx):
    z, dt, cut = case["z"], case["dt"], case["cut"]
    rtol = zoo.rtol(z["spec"], dt)
    train = case["train"] and not zoo.has(z["spec"], "bn", "act")

    def new(upto=0):
        """A module which was never copied, after the first calls."""
        m = zoo.make(z, case["seed"], dt, style=case["style"])[0].train(train)
        if case["mode"] and co.CoModule in type(m).__mro__:
            m.call_mode = case["mode"]
        t = 0
        for i, (op, n) in enumerate(cut[:upto]):
            if case["clean"] == i:
                m.clean_state()
            zoo.call(m, op, x[:, :, t : t + n])
            t += n
        if case["clean"] == upto:
            m.clean_state()
        return m

    x = zoo.stream(z, case["T"], case["seed"], "randn", case["B"], dt)
    y = zoo.stream(z, case["T"], case["seed"] + 1, "randn", case["B"], dt)
    a, b = new(), new()
    olds = []
    n_out = at = 0
    points = dict(case["points"])
    for i, (op, n) in enumerate([*cut, [None, 0]]):
        if case["clean"] == i and i:
            a.clean_state()
            b.clean_state()
        if i in points:
            how = points[i]
            ctx.count("h:" + how.rstrip("245"))
            ctx.count("copies")
            ctx.count("fresh", not i)
            ctx.count("running" if n_out else "warming", i > 0)
            c = copied(b, how, at)
            olds.append((b, new(i), f"original of the {how} at step {at}"))
            b = c
            if case["last"] and i == max(points):
                n_out += elsewhere(case, a, b, i, at, x, rtol, ctx)
                break
        if op is None:
            ends(case, a, b, olds, rtol, ctx)
            break
        # The originals are busy with something else
        for o, twin, what in olds:
            e = zoo.call(twin, op, y[:, :, at : at + n])
            zoo.expect_frames(zoo.call(o, op, y[:, :, at : at + n]), e, f"{what}, {op}{n} at step {at}", rtol)
            ctx.count("others")
        exp = zoo.call(a, op, x[:, :, at : at + n])
        got = zoo.call(b, op, x[:, :, at : at + n])
        zoo.expect_frames(got, exp, f"copies {case['points']}, {op}{n} at step {at}", rtol)
        ctx.count("out_frames", len(got) if olds else 0)
        n_out += len(got)
        at += n
    for k in set(nets.kinds(z["spec"])):
        ctx.count("k:" + k)
    return n_out > 0


def long_enough(case, a):
    """An input which forward takes, and what it gives."""
    n = min(int(a.receptive_field) + zoo.span(case["z"])[0] + 3, zoo.max_T(case["z"]["spec"]))
    xf = zoo.stream(case["z"], n, case["seed"] + 5, "randn", case["B"], case["dt"])
    try:
        return xf, zoo.fwd(a, xf)
    except RuntimeError:
        return None, None  # too short for this network


def elsewhere(case, a, b, i, at, x, rtol, ctx):
    """The rest is done by another process."""
    how = "save" if case["points"][-1][1] in ("deepcopy", "save") else case["points"][-1][1]
    jobs = []
    for op, n in case["cut"][i:]:
        jobs.append((op, x[:, :, at : at + n]))
        at += n
    xf, exp_f = long_enough(case, a)
    exp = keeper.work(a, jobs)
    if xf is not None:
        jobs.insert(0, ("f", xf))
        exp.insert(0, [exp_f])
    jobs.append(("c", None))
    a.clean_state()
    exp.append([])
    at = 0
    for op, n in case["cut"]:
        jobs.append((op, x[:, :, at : at + n]))
        exp.append(zoo.call(a, op, x[:, :, at : at + n]))
        at += n
    try:
        blob = keeper.store(b, how)
    except Exception as e:
        raise Violation(f"{how} at call {i}: {type(e).__name__}: {e}")
    r = keeper.elsewhere(blob, jobs)
    if r is None:
        raise Inconclusive("the other process is gone")
    if r[0] == "error":
        raise Violation(f"stored by {how} at call {i}, in another process:\n{r[1]}")
    for j, (g, e) in enumerate(zip(r[1], exp)):
        zoo.expect_frames(g, e, f"stored by {how} at call {i}, in another process, job {j} ({jobs[j][0]})", rtol)
        ctx.count("out_frames", len(g))
    ctx.count("h:process")
    return sum(map(len, exp))


def ends(case, a, b, olds, rtol, ctx):
    xf, exp = long_enough(case, a)
    if xf is not None:
        zoo.expect_frames([zoo.fwd(b, xf)], [exp], f"copies {case['points']}, forward", rtol)
        ctx.count("forwards")
    z, cut = case["z"], case["cut"]
    y = zoo.stream(z, case["T"], case["seed"] + 2, "randn", case["B"], case["dt"])
    if case["mode"] in ("forward_step", "forward_steps") and co.CoModule in type(a).__mro__ and case["T"] <= zoo.max_T(z["spec"]):
        zoo.expect_frames(called(b, y, case["mode"]), called(a, y, case["mode"]), f"copies {case['points']}, called in mode {case['mode']}", rtol)
        ctx.count("modes")
    if case["over"]:
        # All have parameters of their own
        for v, (o, twin, what) in enumerate(olds):
            overwrite(o, 0.25 + 0.125 * v)
            overwrite(twin, 0.25 + 0.125 * v)
        exp = zoo.drive(a, y, cut)
        for (op, n), g, e in zip(cut, zoo.drive(b, y, cut), exp):
            zoo.expect_frames(g, e, f"copies {case['points']}, {op}{n} with parameters of the original overwritten", rtol)
        overwrite(a, 0.5)
        overwrite(b, 0.5)
        exp = zoo.drive(a, y, cut)
        for (op, n), g, e in zip(cut, zoo.drive(b, y, cut), exp):
            zoo.expect_frames(g, e, f"copies {case['points']}, {op}{n} with parameters of the copy overwritten", rtol)
        for o, twin, what in olds:
            exp = zoo.drive(twin, y, cut)
            for (op, n), g, e in zip(cut, zoo.drive(o, y, cut), exp):
                zoo.expect_frames(g, e, f"{what}, {op}{n} with parameters overwritten", rtol)
        ctx.count("overwritten")
