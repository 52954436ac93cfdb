"""Positional encoding: step n gets the embedding of position n modulo their number."""
import math
import random

import torch

import continual as co

from . import util
from .core import Violation, ambient

CASES = {"quick": 6000, "thorough": 250000}
RULE = ("RecyclingPositionalEncoding, learned and static, of random sizes, alone and behind a layer with delay, in "
        "random mixes of forward_step, forward_steps, forward (with its own and a given advance), peeks, padded "
        "calls, explicit-state steps, clean_state, snapshots, reloaded weights, other batch sizes and call modes; "
        "every output compared with a position counter and the table in the state_dict; non-trivial: positions "
        "wrapped around or were moved by forward")
REACH = {"static_tables": 800, "steps": 30000, "wraps": 2000, "forwards": 5000, "peeks": 5000, "restarts": 1500, "restored": 700,
         "learned": 1000, "static": 1000, "behind": 800, "explicit": 1000, "advance": 2000, "refused": 200,
         "reloaded": 500, "batch_changes": 5000}


def generate(r, tier, idx):
    N = r.choice([1, 2, 3, 4, 5, 7, 8, 13, 31])
    E = r.choice([2, 3, 4, 5, 6, 8, 10])
    ops = []
    for _ in range(r.randint(5, 40)):
        op = r.choice(["s"] * 6 + ["m"] * 5 + ["f", "f", "fu", "ps", "pm", "pad", "clean", "save", "load", "long",
                                               "fs", "weights"])
        n = r.randint(1, N) if r.random() < 0.8 else N
        ops.append([op, n, r.choice(["method", "method", "attr", "ctx"]), r.choice([1, 1, 2, 3]),
                    r.choice([0, 1, 2, N, N - 1, N + 3, 100])])
    return dict(N=N, E=E, learned=r.random() < 0.6, adv=r.choice([None, 0, 1, 2, 3, N, N + 1, 50]), ops=ops,
                dt=r.choice(["f64", "f32"]), behind=r.choice([0, 0, 0, 1, 2, 4]))


def cyclic(N, E):
    """The cyclic positional encoding of Ma et al. (2021), averaged over five neighbours and centred."""
    half = E // 2
    first = N ** (1 / half)
    skips = [int(first + i * (N - first) / (half - 1)) for i in range(half)] if half > 1 else [int(first)]
    skips[-1] = N if half > 1 else skips[-1]
    tab, tol = torch.zeros(N, E, dtype=torch.float64), torch.zeros(E, dtype=torch.float64)
    for d in range(E):
        j = d // 3 * 3 + 1
        skip = skips[j] if j < half else skips[-1]
        length = math.ceil(N / skip) * skip if N > skip else N
        skip = skip if N > skip else N
        w = 2 * math.pi / skip
        phase = 0 if d <= half else 2 * math.pi * (half - d) / half
        tol[d] = 1e-4 + 0.03 * w  # positions are rounded to a grid of hundredths
        for n in range(N):
            z = n * length / N
            a = w * abs(z % (2 * skip) - skip) + phase
            tab[n, d] = math.cos(a) if d % 2 else math.sin(a)
    near = sum(tab.roll(i, 0) for i in (-2, -1, 0, 1, 2)) / 5
    return near - tab.mean(0), tol


@ambient
def run(case, ctx):
    N, E = case["N"], case["E"]
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    kw = {} if case["adv"] is None else dict(forward_update_index_steps=case["adv"])
    adv = 1 if case["adv"] is None else case["adv"]
    m = co.RecyclingPositionalEncoding(E, N, learned=case["learned"], **kw).to(dtype)
    net, d = m, case["behind"]
    if d:
        net = co.Sequential(co.Delay(d), m)
    r = random.Random(case["seed"])

    def table():
        (t,) = [v for v in m.state_dict().values()]
        if t.shape != (N, E):
            raise Violation(f"the table of embeddings is {util.describe(t)}, expected {N} of {E}")
        return t.clone()

    tab = table()
    if not case["learned"]:
        exp, tol = cyclic(N, E)
        if ((tab - exp).abs() > tol).any():
            raise Violation(f"the static table of {N} embeddings of {E} is not the cyclic encoding: off by "
                            f"{(tab - exp).abs().max():.3g}")
        ctx.count("static_tables")
    pos, queue, saved, moved = 0, [], None, False
    total = 0

    def emb(p):
        return tab[p % N]

    for i, (op, n, how, B, u) in enumerate(case["ops"]):
        if d and op in ("load", "save", "pad"):
            continue
        if d:
            B = 1
        ctx.count("batch_changes", i > 0 and B != case["ops"][i - 1][3])
        what = f"op {i} ({op}{n} by {how}), position {pos} of {N}"
        x = util.data((B, E, n, ), case["seed"] + i, "randn", dtype)
        if op == "clean":
            net.clean_state()
            pos, queue = 0, []
            ctx.count("restarts")
        elif op == "save":
            saved = (util.copy_out(m.get_state()), pos)
        elif op == "load":
            if saved:
                m.set_state(util.copy_out(saved[0]))
                pos = saved[1]
                ctx.count("restored")
        elif op == "weights":
            if case["learned"]:
                k = next(iter(m.state_dict()))
                m.load_state_dict({k: torch.randn(N, E, generator=util.gen(i))})
                tab = table()
                ctx.count("reloaded")
        elif op == "long":
            # more steps than embeddings: refused, or right
            x = util.data((B, E, N + 1 + n), i, "randn", dtype)
            if d:
                continue
            try:
                out = m.forward_steps(x)
            except Exception:
                ctx.count("refused")
                continue
            for t in range(x.shape[2]):
                util.expect(out[:, :, t], x[:, :, t] + emb(pos + t), f"{what}: output {t}")
            pos += x.shape[2]
        elif op == "fs":
            # streams of their own with explicit state
            p, st = 0, None
            for t in range(n):
                if t == 0 and not d and saved and r.random() < 0.5:
                    st, p = util.copy_out(saved[0]), saved[1]
                o, st = m._forward_step(x[:, :, t], st)
                util.expect(o, x[:, :, t] + emb(p), f"{what}: explicit step {t} at position {p}")
                p += 1
                ctx.count("explicit")
        elif op in ("f", "fu"):
            if op == "fu" and not d:
                out = m.forward(x, update_index_steps=u)
            elif how == "method":
                out = net.forward(x)
            else:
                out = net(x)
            exp = torch.stack([x[:, :, t] + emb(pos + t) for t in range(n)], 2)
            util.expect(out, exp, f"{what}: forward")
            a = u if op == "fu" and not d else adv
            pos += a
            ctx.count("forwards")
            ctx.count("advance", a % N != 0)
            moved = moved or a > 0
        else:
            one = op in ("s", "ps")
            peek = op in ("ps", "pm")
            fs = util.frames(x)[:1] if one else util.frames(x)
            q = list(queue)
            outs, p = [], pos
            for f in fs:
                q.append(f)
                if len(q) > d:
                    outs.append(q.pop(0) + emb(p))
                    p += 1
            kw = dict(update_state=False) if peek else {}
            if op == "pad":
                kw["pad_end"] = True
            mode = "forward_step" if one else "forward_steps"
            y = x[:, :, 0] if one else x
            if how == "method":
                out = getattr(net, mode)(y, **kw)
            elif how == "ctx":
                with co.call_mode(mode):
                    out = net(y, **kw)
            else:
                old, net.call_mode = net.call_mode, mode
                out = net(y, **kw)
                net.call_mode = old
            exp = (outs[0] if outs else None) if one else (torch.stack(outs, 2) if outs else None)
            util.expect(out, exp, what)
            ctx.count("peeks", peek)
            if not peek:
                ctx.count("steps", len(outs))
                total += len(outs)
                pos, queue = p, q
    wraps = total // N
    ctx.count("wraps", wraps)
    ctx.count("learned" if case["learned"] else "static")
    ctx.count("behind", d > 0)
    return wraps > 0 or moved
