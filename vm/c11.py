"""Saved states restore the stream."""
import torch

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1300, "thorough": 45000}
RULE = ("any module or network; the states of all stateful modules are copied at a random point (also "
        "before the first step and while warming up), the outputs of two different continuations are "
        "recorded, then the states are set again on the same instance and on another one with its own "
        "past (also other batch or spatial size), repeatedly; non-trivial: some module had a state "
        "and the continuation gave outputs")
REACH = {"restores": 1500, "out_frames": 5000, "states": 1000, "fresh_points": 100, "warming_points": 200,
         "running_points": 300, "other_instance": 500, "other_batch": 200,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6, gates=True)
    spec = z["spec"]
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    T0 = r.choice([0, 1, k - 1, k, k + s, r.randint(0, 2 * k + 2)])
    T = k + 2 * s + r.randint(0, 3)
    plan = []
    for _ in range(r.randint(1, 3)):
        plan.append(dict(other=r.random() < 0.5, past=r.choice([0, 1, k, r.randint(0, 2 * k)]),
                         B=r.choice([1, 2, 3]), grow=bool(z["S"]) and not zoo.has(z["spec"], "reshape", "lins") and r.random() < 0.3,
                         y=r.choice([0, 1]), clean=r.random() < 0.2, n=r.randint(1, T),
                         back=r.random() < 0.3))
    return dict(z=z, B=r.choice([1, 2]), T0=T0, T=T, cut0=zoo.rand_cut(r, T0, mx),
                cut=zoo.rand_cut(r, T, mx), plan=plan, kind=zoo.rand_kind(r, spec), mx=mx,
                dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99),
                train=r.random() < 0.15)


def snapshot(m):
    """States by module name; None where there is none."""
    snap = {}
    for name, mod in m.named_modules():
        get = getattr(mod, "get_state", None)
        if get is None:
            continue
        st = get()
        if isinstance(st, (tuple, list)) and any(isinstance(i, torch.Tensor) for i in flat(st)):
            snap[name] = util.copy_out(st)
        else:
            snap[name] = None
    return snap


def flat(st):
    for i in st:
        if isinstance(i, (tuple, list)):
            yield from flat(i)
        else:
            yield i


def restore(m, snap):
    mods = dict(m.named_modules())
    # A module without a state is in the condition clean_state leaves it in; containers first
    for name, st in snap.items():
        if st is None and name in mods:
            mods[name].clean_state()
    for name, st in snap.items():
        if st is not None:
            mods[name].set_state(util.copy_out(st))


@ambient
def run(case, ctx):
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    rtol = zoo.rtol(spec, dt) * (100 if case["kind"] in ("mixed", "big") else 1)
    train = case["train"] and not zoo.has(spec, "bn", "act")

    def new():
        return zoo.make(z, case["seed"], dt, style=case["style"])[0].train(train)

    x = zoo.stream(z, case["T0"], case["seed"], case["kind"], case["B"], dt)
    ys = [zoo.stream(z, case["T"], case["seed"] + 1 + i, "randn", case["B"], dt) for i in range(2)]
    m = new()
    before = zoo.flat(zoo.drive(m, x, case["cut0"]))
    snap = snapshot(m)
    n_states = sum(s is not None for s in snap.values())
    ctx.count("states", n_states)
    ctx.count("fresh_points", case["T0"] == 0)
    ctx.count("warming_points", case["T0"] > 0 and not before)
    ctx.count("running_points", bool(before))
    # What follows the save point, observed on m and on a twin
    twin = new()
    zoo.drive(twin, x, case["cut0"])
    exp = [zoo.drive(m, ys[0], case["cut"], ctx), zoo.drive(twin, ys[1], case["cut"])]
    for i, p in enumerate(case["plan"]):
        S = [n + 1 for n in z["S"]] if p["grow"] else z["S"]
        if p["other"]:
            t = new()
            B = p["B"]
            ctx.count("other_instance")
            ctx.count("other_batch", B != case["B"] and p["past"] > 0)
        else:
            t, B = m, case["B"]
            if p["clean"]:
                t.clean_state()
            S = z["S"]
        past = zoo.stream(z, p["past"], case["seed"] + 50 + i, case["kind"], B, dt, S)
        zoo.drive(t, past, [["s", 1]] * p["past"])
        restore(t, snap)
        got = zoo.drive(t, ys[p["y"]], case["cut"], ctx)
        for (op, n), a, b in zip(case["cut"], got, exp[p["y"]]):
            zoo.expect_frames(a, b, f"restore {i} ({p}), call {op}{n}", rtol)
        ctx.count("restores")
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return n_states > 0 and any(exp[0])
