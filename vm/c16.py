"""No call changes data it was not given to change."""
import copy
import sys
import threading

import torch

import continual as co

from . import nets, util, zoo
from .core import Violation

CASES = {"quick": 1500, "thorough": 50000}
RULE = ("any module or network. alias: every call gets a view into a larger guarded storage (random layout) "
        "which is checked bitwise after the call and then overwritten, every returned tensor is checked bitwise "
        "after every later call or overwritten too, results are compared with a twin left in peace; batch: "
        "elements of a batch are compared with streams of single elements and poisoned with NaN one at a time; "
        "copies: equal and deep-copied instances (copied at any point of the stream) are driven interleaved; "
        "threads: instances are driven from concurrent threads with their own call modes at a tiny switch "
        "interval; non-trivial: outputs were compared")
REACH = {"alias_calls": 3000, "inputs_checked": 3000, "outputs_watched": 1500, "overwritten_outputs": 1000,
         "batch_elements": 400, "poisoned": 200, "copies": 200, "copies_running": 50, "own_parameters": 50, "threads": 150,
         "thread_switches": 300, "out_frames": 5000,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20}


def generate(r, tier, idx):
    t = r.choices(["alias", "batch", "copies", "threads"], [5, 2, 2, 1])[0]
    z = zoo.rand_any(r, 0.6)
    spec = z["spec"]
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    T = k + 2 * s + r.randint(1, 6)
    c = dict(t=t, z=z, T=T, B=r.choice([1, 2, 3]), kind=zoo.rand_kind(r, spec),
             dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99),
             train=r.random() < 0.2, grad=r.random() < 0.3)
    if t == "alias":
        ops, n = [], 0
        while n < T:
            u = r.random()
            if u < 0.7:
                op, m = r.choice([["s", 1], ["s", 1], ["m", r.choice([1, 2, 3, k])]])
                m = min(m, mx)
                n += m
            elif u < 0.85:
                op, m = r.choice(["ps", "pm"]), min(mx, r.choice([1, 2, k]))
                m = 1 if op == "ps" else m
            elif zoo.has(spec, "rpe") or z.get("nofwd"):
                op, m = "ps", 1
            else:
                op, m = "f", k + s
            ops.append([op, m, r.choice(["plain", "plain", "noncontig", "strided", "expand", "same"])])
        c["ops"] = ops
        c["hostile"] = r.random() < 0.5
        if r.random() < 0.25 and not zoo.has(spec, "mha", "enc"):
            c["ops"].append(["p", min(k, mx), "plain"])
    elif t == "batch":
        c["B"] = r.choice([2, 3, 4])
        c["cut"] = zoo.rand_cut(r, T, mx)
        c["bad"] = r.randrange(c["B"])
        c["fwd"] = not z.get("nofwd")
    elif t == "copies":
        n = r.randint(3, 3 * T)
        c["ops"] = [["copy", r.randint(0, 9)] if r.random() < 0.08 else
                    ["clean", r.randint(0, 9)] if r.random() < 0.02 else
                    ["scale", r.randint(0, 9)] if r.random() < 0.03 else
                    ["call", r.randint(0, 9), *(["s", 1] if r.random() < 0.6 else ["m", min(mx, r.randint(1, 4))])]
                    for _ in range(min(n, 90))]
    else:
        c["n"] = r.choice([2, 3, 4])
        c["how"] = [r.choice(["copy", "new"]) for _ in range(c["n"])]
        c["cuts"] = [zoo.rand_cut(r, T, mx) for _ in range(c["n"])]
    return c


def run(case, ctx):
    spec = case["z"]["spec"]
    case["train"] = case["train"] and not zoo.has(spec, "bn", "act")
    with torch.set_grad_enabled(case["grad"] and case["t"] == "alias"):
        ok = {"alias": alias, "batch": batch, "copies": copies, "threads": threads}[case["t"]](case, ctx)
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return ok


def new(case):
    return zoo.make(case["z"], case["seed"], case["dt"], style=case["style"])[0].train(case["train"])


def tol(case):
    return zoo.rtol(case["z"]["spec"], case["dt"]) * (10 if case["kind"] in ("mixed", "big") else 1)


def act(m, op, x):
    if op == "s":
        return m.forward_step(x)
    if op == "ps":
        return m.forward_step(x, update_state=False)
    if op == "m":
        return m.forward_steps(x)
    if op == "pm":
        return m.forward_steps(x, update_state=False)
    if op == "p":
        return m.forward_steps(x, pad_end=True)
    return zoo.fwd(m, x)


def place(x, how):
    """The values in a view of a guarded storage; returns (view, storage)."""
    if how == "noncontig":
        base = x.transpose(0, -1).contiguous()
        return base.transpose(0, -1), base
    if how == "strided":
        base = torch.full((*x.shape, 2), 7.0, dtype=x.dtype)
        base[..., 0] = x
        return base[..., 0], base
    if how == "expand":  # one element of the batch seen several times
        base = x[:1].clone()
        return base.expand(x.shape), base
    base = torch.full((x.numel() + 16,), 7.0, dtype=x.dtype)
    base[8:-8] = x.flatten()
    return base[8:-8].view(x.shape), base


def tensors(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, (list, tuple)):
        return [t for i in o for t in tensors(i)]
    return []


def bits(a, b):
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


def alias(case, ctx):
    z = case["z"]
    n = sum(o[1] for o in case["ops"])
    x = zoo.stream(z, n, case["seed"], case["kind"], case["B"], case["dt"])
    m, twin = new(case), new(case)
    kept, t, outs, last = [], 0, 0, None
    for i, (op, k, how) in enumerate(case["ops"]):
        w = x[:, :, t : t + k]
        t += k
        w = w[:, :, 0] if op in ("s", "ps") else w
        if how == "same" and last is not None and last[0].shape == w.shape and not case["hostile"]:
            v, base = last  # the very same tensor again
        else:
            v, base = place(w.clone(), how)
        last = (v, base)
        before, values = base.clone(), v.clone()
        exp = util.copy_out(act(twin, op, values.clone()))
        got = act(m, op, v)
        what = f"call {i} ({op}{k}, {how})"
        if not bits(base, before):
            raise Violation(f"{what} modified its input")
        ctx.count("inputs_checked")
        util.expect(None if util.empty(got) else util.copy_out(got), None if util.empty(exp) else exp, what, tol(case))
        ctx.count("alias_calls")
        ctx.count("out_frames", not util.empty(got))
        outs += not util.empty(got)
        for j, (o, c) in enumerate(kept):
            if not bits(o.detach(), c):
                raise Violation(f"{what} changed an output returned before")
        if case["hostile"]:
            # The caller reuses its input buffer and what it was given
            with torch.no_grad():
                base.fill_(float("nan"))
                for o in tensors(got):
                    o = o.detach()
                    # Without an overwritable layout (expanded), a write is no legal operation
                    if not any(s == 0 and d > 1 for s, d in zip(o.stride(), o.shape)):
                        o.fill_(float("nan"))
                        ctx.count("overwritten_outputs")
        else:
            kept += [(o, o.detach().clone()) for o in tensors(got)]
            ctx.count("outputs_watched", len(tensors(got)))
    return outs > 0


def batch(case, ctx):
    z, B = case["z"], case["B"]
    x = zoo.stream(z, case["T"], case["seed"], case["kind"], B, case["dt"])
    m = new(case)
    got = zoo.drive(m, x, case["cut"], ctx)
    fw = util.copy_out(zoo.fwd(m, x)) if case["fwd"] and not zoo.has(z["spec"], "rpe") else None
    for b in range(B):
        one = new(case)
        exp = zoo.drive(one, x[b : b + 1], case["cut"])
        for (op, n), a, e in zip(case["cut"], got, exp):
            zoo.expect_frames([f[b : b + 1] for f in a], e, f"element {b} of a batch of {B}, call {op}{n}", tol(case))
        if fw is not None:
            util.expect(fw[b : b + 1], util.copy_out(zoo.fwd(one, x[b : b + 1])), f"element {b} of forward", tol(case))
        ctx.count("batch_elements")
    # One element is poisoned from some step on, the others do not notice
    y = x.clone()
    y[case["bad"], :, case["T"] // 2 :] = float("nan")
    m = new(case)
    keep = [b for b in range(B) if b != case["bad"]]
    for (op, n), a, e in zip(case["cut"], zoo.drive(m, y, case["cut"]), got):
        zoo.expect_frames([f[keep] for f in a], [f[keep] for f in e], f"other elements of a poisoned batch, {op}{n}",
                          tol(case))
    ctx.count("poisoned")
    return bool(zoo.flat(got))


def scale(m):
    """An update of the parameters of one instance."""
    for p in m.parameters():
        p.data.mul_(0.75)


def copies(case, ctx):
    z = case["z"]
    first = new(case)
    # Each instance has a twin which is built on its own and replays its history
    group = [dict(m=first, log=[]), dict(m=new(case), log=[])]
    total = sum(o[3] for o in case["ops"] if o[0] == "call") + 1
    x = zoo.stream(z, total, case["seed"], case["kind"], case["B"], case["dt"])
    t = 0
    for op in case["ops"]:
        g = group[op[1] % len(group)]
        if op[0] == "copy":
            if len(group) < 5:
                group.append(dict(m=copy.deepcopy(g["m"]), log=list(g["log"])))
                ctx.count("copies")
                ctx.count("copies_running", any(e[3] for e in g["log"] if e[0] == "s" or e[0] == "m"))
        elif op[0] == "clean":
            g["m"].clean_state()
            g["log"].append(("clean", None, None, []))
        elif op[0] == "scale":
            scale(g["m"])
            g["log"].append(("scale", None, None, []))
            ctx.count("own_parameters")
        else:
            w = x[:, :, t : t + op[3]]
            t += op[3]
            g["log"].append((op[2], op[3], w, zoo.call(g["m"], op[2], w)))
    n = 0
    for i, g in enumerate(group):
        twin = new(case)
        for j, (op, k, w, got) in enumerate(g["log"]):
            if op == "clean":
                twin.clean_state()
                continue
            if op == "scale":
                scale(twin)
                continue
            exp = zoo.call(twin, op, w)
            zoo.expect_frames(got, exp, f"instance {i} of {len(group)}, call {j} ({op}{k})", tol(case))
            n += len(exp)
    ctx.count("out_frames", n)
    return n > 0


def threads(case, ctx):
    z, n = case["z"], case["n"]
    base = new(case)
    ms = [copy.deepcopy(base) if h == "copy" else new(case) for h in case["how"]]
    xs = [zoo.stream(z, case["T"], case["seed"] + i, case["kind"], case["B"], case["dt"]) for i in range(n)]
    exp = [zoo.drive(new(case), x, cut) for x, cut in zip(xs, case["cuts"])]
    got, errors, order = [None] * n, [None] * n, []
    start = threading.Barrier(n)

    def work(i):
        outs, t = [], 0
        try:
            start.wait()
            with torch.no_grad():
                for op, k in case["cuts"][i]:
                    x = xs[i][:, :, t : t + k]
                    t += k
                    order.append(i)
                    with co.call_mode("forward_step" if op == "s" else "forward_steps"):
                        o = ms[i](x[:, :, 0] if op == "s" else x)
                    o = None if util.empty(o) else util.copy_out(o)
                    outs.append([] if o is None else [o] if op == "s" else [o[:, :, j] for j in range(o.shape[2])])
            got[i] = outs
        except Exception as e:
            errors[i] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for e in errors:
        if e is not None:
            raise e
    for i in range(n):
        for (op, k), a, e in zip(case["cuts"][i], got[i], exp[i]):
            zoo.expect_frames(a, e, f"thread {i} of {n}, call {op}{k}", tol(case))
    ctx.count("threads", n)
    ctx.count("thread_switches", sum(a != b for a, b in zip(order, order[1:])))
    return any(zoo.flat(e) for e in exp)
