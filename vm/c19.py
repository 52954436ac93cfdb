"""Endless streams: bounded state, no history, no drift."""
import gc

import torch

from . import nets, util, zoo
from .core import Violation

CASES = {"quick": 420, "thorough": 9000}
CASE_TIMEOUT = 120
CAP = {"quick": 150, "thorough": 780}
RULE = ("any module or network (also RNNs) on streams of 150 to 6000 steps (thorough 60000) under a cyclic call "
        "schedule with bursts (large values, NaN, infinities) on the way, without gradients (no_grad, "
        "inference_mode, also in training mode); after each cycle the bytes of all tensors reachable from the module, "
        "their gradient history, and at checkpoints the tensors alive in the process are counted; outputs at "
        "random late times are compared with a fresh instance given only the most recent steps; non-trivial: "
        "late outputs were compared or a state was measured")
REACH = {"steps": 100000, "late_outputs": 1500, "sizes": 1500, "live_counts": 300, "bursts": 300, "nan_bursts": 50,
         "inference_mode": 50, "training": 20, "k:conv": 30, "k:max": 10, "k:avg": 10, "k:rnn": 10, "k:mha": 10,
         "k:enc": 10, "k:rpe": 5, "k:delay": 10, "k:skip": 5, "marathons": 8, "k:br": 20, "k:res": 20, "k:cond": 10}

MARATHON = ["skip", "delay", "rpe", "conv", "conv", "avg", "max", "rnn", "skip", "delay", "mha", "mha", "mha"]


def generate(r, tier, idx):
    # A stream long enough for counters of 16 bits, on each of the cheap modules
    marathon = MARATHON[idx] if idx < len(MARATHON) else None
    while True:
        z = zoo.rand_any(r, 0.7 if marathon is None else 1.0, gates=True)
        spec = z["spec"]
        if marathon is None or (spec["k"] == marathon and zoo.span(z)[0] <= 12):
            break
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    single = spec["k"] not in ("seq", "br", "res", "cond", "enc")
    T = r.choice([150, 300, 600]) if not single else r.choice([300, 1000, 2000])
    if single and r.random() < 0.1:
        T = r.choice([6000] if tier == "quick" else [6000, 20000, 60000])
    elif tier == "thorough" and r.random() < 0.1:
        T *= 5
    T = max(T, 12 * k + 60)
    if marathon:
        T = 33500 if tier == "quick" else 66500
    cycle = []
    while sum(n for _, n in cycle) < r.choice([1, 3, 8]):
        n = r.choice([1, 1, 1, 2, 3, 7])
        n = min(n, mx)
        cycle.append(["s" if n == 1 and r.random() < 0.7 else "m", n])
    bursts = []
    for _ in range(r.randint(0, 3)):
        how = r.choice(["nan", "inf", "big", "big"])
        if zoo.has(spec, "rnn") or zoo.has(spec, "mha", "enc"):
            how = "nan" if how in ("nan", "inf") and not zoo.has(spec, "rnn") else "loud"
        bursts.append(dict(at=r.random(), n=r.choice([1, 1, 2, 5]), how=how))
    return dict(z=z, T=T, B=r.choice([1, 2]), cycle=cycle, bursts=bursts, checks=r.choice([3, 5, 8]),
                kind=r.choice(["randn", "randn", "neg", "const", "ints"] if not zoo.has(spec, "mha", "enc") else
                              ["randn", "small", "const"]),
                dt=r.choice(["f32", "f32", "f64"]), style=r.randint(0, 99),
                mode=r.choice(["no_grad", "no_grad", "inference"]), train=r.random() < 0.2,
                peeks=r.random() < 0.2)


def reach(m):
    """All tensors the modules hold, parameters excepted."""
    seen, out = set(), []

    def visit(o):
        if isinstance(o, torch.nn.Parameter) or id(o) in seen:
            return
        if isinstance(o, torch.Tensor):
            seen.add(id(o))
            out.append(o)
        elif isinstance(o, dict):
            seen.add(id(o))
            for v in list(o.values()):
                visit(v)
        elif isinstance(o, (list, tuple, set)):
            seen.add(id(o))
            for v in o:
                visit(v)

    for mod in m.modules():
        for key, v in mod.__dict__.items():
            if key not in ("_modules", "_parameters"):
                visit(v)
    return out


def size(ts):
    """Bytes held, by storage."""
    st = {t.untyped_storage().data_ptr(): t.untyped_storage().nbytes() for t in ts if t.numel()}
    return sum(st.values())


def alive():
    gc.collect()
    n = 0
    for o in gc.get_objects():
        try:
            n += issubclass(type(o), torch.Tensor)
        except Exception:
            pass
    return n


def run(case, ctx):
    with torch.inference_mode() if case["mode"] == "inference" else torch.no_grad():
        return stream(case, ctx)


def stream(case, ctx):
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    train = case["train"] and not zoo.has(spec, "bn", "act")
    k, s = zoo.span(z)
    rpe = 1
    for sp in nets.walk(spec):
        if sp["k"] == "rpe":
            rpe *= sp["n"]
    period = sum(n for _, n in case["cycle"])
    cycles = case["T"] // period
    T = cycles * period
    x = zoo.stream(z, T, case["seed"], case["kind"], case["B"], dt)
    # Window needed to fill everything, with the phases of strides and positions kept
    mod = s * rpe
    need = 2 * k + 2 + max(n for _, n in case["cycle"])
    rnn = zoo.has(spec, "rnn")
    dirty = []
    for b in case["bursts"]:
        at = int(b["at"] * T * 0.7)
        f = {"nan": float("nan"), "inf": float("inf")}.get(b["how"])
        sl = x[:, :, at : at + b["n"]]
        if f is not None:
            sl.fill_(f)
        else:
            sl.mul_({"big": 1e6 if dt == "f32" else 1e9, "loud": 3.0}[b["how"]])
        dirty.append((at, at + b["n"]))
        ctx.count("bursts")
        ctx.count("nan_bursts", f is not None)

    m = zoo.make(z, case["seed"], dt, style=case["style"])[0].train(train)
    fill = (k + 2 * period) // period + 2
    sizes, at_cycle = [], {}
    checks = sorted({int(cycles * (i + 1) / (case["checks"] + 1)) for i in range(case["checks"])} | {cycles - 1})
    late, live = [], []
    t = 0
    for c in range(cycles):
        keep = c in checks
        for op, n in case["cycle"]:
            w = x[:, :, t : t + n]
            if case["peeks"] and c % 5 == 0:
                m.forward_steps(w, update_state=False)
            o = m.forward_step(w[:, :, 0]) if op == "s" else m.forward_steps(w)
            t += n
            if keep:
                none = util.empty(o)
                late.append((t, None if none else (o if op == "s" else o[:, :, -1]).clone(),
                             0 if none else 1 if op == "s" else o.shape[2], n))
            o = None
        if c >= fill and (c < fill + 12 or c % (7 if T < 20000 else 331) == 0 or c > cycles - 12):
            ts = reach(m)
            sizes.append((c, size(ts)))
            for h in ts:
                if h.requires_grad or h.grad_fn is not None:
                    raise Violation(f"a tensor of shape {tuple(h.shape)} held after cycle {c} has a gradient history")
            ts = h = None
            ctx.count("sizes")
        # Outside of the cycles whose outputs are kept, so that the harness holds as much
        if c in (cycles // 3, cycles - 2) and not any(i in checks for i in (c,)):
            late_n = sum(l[1] is not None for l in late)
            live.append(alive() - late_n)
            ctx.count("live_counts")
    ctx.count("steps", T)
    ctx.count("marathons", T > 32800)
    ctx.count("inference_mode", case["mode"] == "inference")
    ctx.count("training", train)
    if sizes:
        base = max(b for c, b in sizes[:12])
        worst = max(sizes, key=lambda e: e[1])
        if worst[1] > base:
            raise Violation(f"the state grew from {base} bytes (cycles up to {sizes[:12][-1][0]}) to {worst[1]} in "
                            f"cycle {worst[0]}")
    if len(live) == 2 and live[1] > live[0] + 3:
        raise Violation(f"{live[0]} tensors were alive after a third of the stream, {live[1]} at its end")

    n = 0
    rtol = {"f64": 1e-7, "f32": 2e-2 if zoo.has(spec, "mha", "enc") else 1e-3}[dt]
    for t, o, frames, steps in late:
        L = need + (t - need) % mod
        if rnn:
            L = t if t <= 400 else None
        if L is None or L > t:
            continue
        # A burst within the window is the same input for both; its rounding is not judged
        if any(a < t and b > t - L for a, b in dirty):
            continue
        fresh = zoo.make(z, case["seed"], dt, style=case["style"])[0].train(train)
        e, expected = None, 0
        for i in range(t - L, t):
            f = fresh.forward_step(x[:, :, i])
            e = e if util.empty(f) else f
            expected += i >= t - steps and not util.empty(f)
        if frames != expected:
            raise Violation(f"the {steps} steps up to {t - 1} give {frames} outputs, a fresh stream of the same phase "
                            f"gives {expected}")
        ctx.count("late_counts")
        if o is None:
            continue
        util.expect(o, util.copy_out(e), f"output after {t} steps against the most recent {L} only", rtol)
        n += 1
        ctx.count("late_outputs")
    for kk in set(nets.kinds(spec)):
        ctx.count("k:" + kk)
    return n > 0 or bool(sizes and sizes[0][1])
