"""clean_state: nothing of the past is visible afterwards."""
import torch

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1400, "thorough": 50000}
RULE = ("any module or network; a dirty history (steps, padded calls, peeks, forward, restored states, "
        "rejected inputs, other batch and spatial sizes), clean_state, then a stream compared call by "
        "call with a newly built module, in one to three rounds, also after a change of dtype; "
        "non-trivial: the history consumed steps and the clean stream gave outputs")
REACH = {"rounds": 1500, "out_frames": 3000, "none_calls": 300, "failed_calls": 50, "other_batch": 300,
         "other_space": 100, "other_dtype": 100, "peeks": 100, "padded": 100, "forwards": 100,
         "restored": 50,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6)
    spec = z["spec"]
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    rounds = []
    for i in range(r.choice([1, 1, 2, 3])):
        hist = []
        for _ in range(r.randint(1, 4)):
            op = r.choice(["s", "m", "m", "m", "peek", "pad", "fwd", "fail", "restore"])
            if op in ("pad", "fwd") and zoo.has(spec, "mha", "enc") or op == "fwd" and z.get("nofwd"):
                op = "m"
            n = r.choice([1, 2, k, k + s, r.randint(1, 2 * k + 2)])
            if op == "fwd":
                n = max(n, k)
            hist.append([op, 1 if op == "s" else min(n, mx)])
        if all(h[0] not in ("s", "m") for h in hist):
            hist.append(["m", min(mx, r.choice([1, k, k + 1]))])
        T = k + 2 * s + r.randint(0, 3)
        grow = bool(z["S"]) and not zoo.has(spec, "reshape", "lins") and r.random() < 0.4
        rounds.append(dict(hist=hist, B0=r.choice([1, 2, 3]), B=r.choice([1, 2, 3]), T=T,
                           cut=zoo.rand_cut(r, T, mx), grow=grow, to=r.random() < 0.25,
                           train=r.random() < 0.15))
    return dict(z=z, kind=zoo.rand_kind(r, spec), dt=r.choice(["f64", "f64", "f32"]),
                style=r.randint(0, 99), rounds=rounds)


def soil(m, z, r, seed, case, dt, ctx, spec):
    """Give the module a past, in whatever condition that leaves it."""
    saved = None
    used = 0
    for i, (op, n) in enumerate(r["hist"]):
        x = zoo.stream(z, n, seed + i, case["kind"], r["B0"], dt)
        try:
            if op in ("s", "m"):
                used += n
                zoo.call(m, op, x)
            elif op == "peek":
                ctx.count("peeks")
                m.forward_steps(x, update_state=False)
            elif op == "pad":
                ctx.count("padded")
                used += n
                m.forward_steps(x, pad_end=True)
            elif op == "fwd":
                ctx.count("forwards")
                zoo.fwd(m, x)
            elif op == "fail":  # wrong number of channels
                m.forward_steps(torch.cat([x, x], 1) if i % 2 else x[:, :0])
            elif op == "restore":
                if saved is not None:
                    for mod, st in saved:
                        mod.set_state(util.copy_out(st))
                    ctx.count("restored")
                saved = [(mod, util.copy_out(mod.get_state())) for mod in stateful(m)]
        except Exception:
            # Rejected input, or what it or end padding (known finding of C07) left behind
            ctx.count("failed_calls")
    return used


def stateful(m):
    for mod in m.modules():
        get = getattr(mod, "get_state", None)
        if get is not None and isinstance(get(), tuple):
            yield mod


@ambient
def run(case, ctx):
    z, dt = dict(case["z"]), case["dt"]
    spec = z["spec"]
    wide = 10 if case["kind"] in ("mixed", "big") else 1
    m, _ = zoo.make(z, case["seed"], dt, style=case["style"])
    good, casted = False, False
    for i, r in enumerate(case["rounds"]):
        train = r["train"] and not zoo.has(spec, "bn", "act")
        m.train(train)
        if i:  # the stream of the previous round goes on
            r = dict(r, B0=case["rounds"][i - 1]["B"])
        used = soil(m, z, r, case["seed"] + 100 * i, case, dt, ctx, spec)
        m.clean_state()
        if r["to"]:
            dt = "f32" if dt == "f64" else "f64"
            casted = True
            m.to({"f64": torch.float64, "f32": torch.float32}[dt])
            ctx.count("other_dtype")
        S = [n + 1 + i for n in z["S"]] if r["grow"] else z["S"]
        fresh, _ = zoo.make(z, case["seed"], case["dt"], style=case["style"])
        fresh.to({"f64": torch.float64, "f32": torch.float32}[dt]).train(train)
        if casted:  # parameters may have lost precision on the way
            fresh.load_state_dict(m.state_dict())
        x = zoo.stream(z, r["T"], case["seed"] + i, "randn", r["B"], dt, S)
        a = zoo.drive(m, x, r["cut"], ctx)
        b = zoo.drive(fresh, x, r["cut"])
        t = 0
        for (op, n), u, v in zip(r["cut"], a, b):
            zoo.expect_frames(u, v, f"round {i}, call {op}{n} at step {t} after clean_state following "
                                    f"{r['hist']}", wide * zoo.rtol(spec, dt))
            ctx.count("none_calls", not v)
            t += n
        ctx.count("rounds")
        ctx.count("other_batch", r["B"] != r["B0"])
        ctx.count("other_space", bool(r["grow"]))
        good = good or (used > 0 and any(b))
        z["S"] = S
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return good
