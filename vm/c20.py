"""Gradients of training through steps against gradients of forward."""
import torch

from . import nets, util, zoo
from .core import Inconclusive, Violation

CASES = {"quick": 3000, "thorough": 220000}
RULE = ("any module or network in training mode (normalisation and dropout frozen) or evaluation mode, where a backward pass "
        "may only be right or fail; the stream is consumed in random "
        "calls with peeks between them, a random loss on all, some or one of the outputs is backpropagated at the "
        "end, piecewise while the stream runs (retain_graph), or in several streams separated by clean_state and a "
        "parameter update; gradients of every parameter and of the input are compared with those of the same loss "
        "on forward of a twin (on each window for attention); non-trivial: some gradient was not zero")
REACH = {"losses": 1200, "grads": 3000, "input_grads": 800, "piecewise": 100, "second_stream": 150, "peeks": 300,
         "padded": 30, "steps_only": 150, "evaluation": 300, "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20,
         "k:enc": 20, "k:rpe": 10, "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20, "k:bn": 20}
# torch's backward of batch_norm in eval mode is wrong for some strides of a single-sample channels-last input
# (seen in 2.x on CPU with nothing but torch involved); both sides get a contiguous input
_batch_norm = torch.nn.functional.batch_norm


def batch_norm(x, *a, **kw):
    y = _batch_norm(x.clone(memory_format=torch.contiguous_format), *a, **kw)
    if y.requires_grad:
        y.register_hook(lambda g: g.clone(memory_format=torch.contiguous_format))
    return y


torch.nn.functional.batch_norm = batch_norm

ASSUMPTIONS = ["gradients of torch.nn.functional are right"]


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6, gates=True)
    spec = z["spec"]
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    T = k + r.choice([0, 1, s, 2 * s, 3 * s + 2, k])
    steps = r.random() < 0.25
    streams = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        cut = [["s", 1]] * T if steps else zoo.rand_cut(r, T, mx)
        streams.append(dict(cut=cut, which=r.choice(["all", "all", "some", "first", "last"]),
                            piece=r.random() < 0.2, peek=r.random() < 0.3, mul=r.choice([1.0, 0.9]),
                            xgrad=r.random() < 0.8))
    pad = (spec["k"] in ("conv", "max", "avg") and r.random() < 0.3 and spec.get("cip", True)
           and not any(d > 1 for d in spec["ds"][:1]))
    return dict(z=z, B=r.choice([1, 2]), T=T, streams=streams, pad=pad, style=r.randint(0, 99),
                eval=r.random() < 0.25)


def train(m):
    m.train()
    for mod in m.modules():
        if isinstance(mod, (torch.nn.modules.batchnorm._BatchNorm, torch.nn.Dropout, torch.nn.RReLU)):
            mod.eval()
    return m


def expected(m, spec, x):
    """Frames the steps give for a sequence, computed with forward only."""
    k = spec["k"]
    if k in ("aavg", "amax"):
        # forward pools over all the frames it is given
        ys = [zoo.fwd(m, x[:, :, t - spec["kt"] : t]) for t in range(spec["kt"], x.shape[2] + 1, spec["st"])]
        return [y[:, :, 0] for y in ys]
    if not zoo.has(spec, "mha", "enc", "rpe", "aavg", "amax"):
        y = zoo.fwd(m, x)
        return [y[:, :, j] for j in range(y.shape[2])]
    if k == "rpe":
        n = spec["n"]
        return [f for t in range(0, x.shape[2], n) for f in zoo.fwd(m, x[:, :, t : t + n]).unbind(2)]
    if k in ("mha", "enc"):
        ys = [zoo.fwd(m, x[:, :, t - spec["n"] : t]) for t in range(spec["n"], x.shape[2] + 1)]
        return ys if k == "mha" and spec["t"] == "retro" else [y[:, :, -1] for y in ys]
    if k == "seq":
        for mod, sp in zip(m, spec["c"]):
            if x is None:
                return []
            fs = expected(mod, sp, x)
            x = torch.stack(fs, 2) if fs else None
        return fs
    raise Inconclusive("no reference")


def run(case, ctx):
    z = case["z"]
    spec = z["spec"]
    m = zoo.make(z, case["seed"], "f64", style=case["style"])[0]
    if not case["eval"]:
        m = train(m)
    twin = train(zoo.make(z, case["seed"], "f64", style=case["style"])[0])
    nonzero = False
    for i, st in enumerate(case["streams"]):
        if i:
            m.clean_state()
            with torch.no_grad():
                for p, q in zip(m.parameters(), twin.parameters()):
                    p.mul_(st["mul"]), q.mul_(st["mul"])
            ctx.count("second_stream")
        try:
            nonzero |= one(case, spec, z, m, twin, st, i, ctx)
        except Loud as e:
            if not case["eval"]:
                raise Violation(str(e))
            ctx.count("loud")
            break
        ctx.count("evaluation", case["eval"])
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return nonzero


class Loud(Exception):
    pass


def backward(loss, leaves, grads, what, **kw):
    """Adds the gradients of loss to grads. Not with loss.backward: torch 2.7 lets .grad of two parameters share
    memory if their gradients are views of one tensor, and a second backward then adds both to both."""
    try:
        gs = torch.autograd.grad(loss, leaves, allow_unused=True, **kw)
    except RuntimeError as e:
        if "modified by an inplace operation" in str(e):
            raise Loud(f"{what}: backward fails: {e}")
        raise Violation(f"{what}: backward fails: {e}")
    for a, g in zip(grads, gs):
        if g is not None:
            a += g


def one(case, spec, z, m, twin, st, i, ctx):
    x0 = zoo.stream(z, case["T"], case["seed"] + i, "randn", case["B"])
    x, y = x0.clone(), x0.clone()
    x.requires_grad_(st["xgrad"]), y.requires_grad_(st["xgrad"])
    names = [n for n, _ in m.named_parameters()]
    if names != [n for n, _ in twin.named_parameters()]:
        raise Violation("parameter names differ")
    leaves, leaves2 = list(m.parameters()), list(twin.parameters())
    if st["xgrad"]:
        names.append("the input")
        leaves.append(x)
        leaves2.append(y)
    if not leaves:
        return False
    grads, grads2 = [torch.zeros_like(p) for p in leaves], [torch.zeros_like(p) for p in leaves]
    what = f"stream {i} ({st['cut']})"
    g = util.gen(case["seed"] + 7 * i)
    outs, t = [], 0

    def weigh(frames, ws):
        return sum((f * w).sum() + 0.1 * (f * f * w.abs()).sum() for f, w in zip(frames, ws))

    ws, done, pending = [], 0, torch.zeros(())
    for j, (op, n) in enumerate(st["cut"]):
        if st["peek"] and j % 2 == 0:
            # Neither a peek nor its gradient have an effect on the rest
            o = m.forward_steps(x[:, :, t : t + n], update_state=False)
            ctx.count("peeks")
        if op == "s":
            o = m.forward_step(x[:, :, t])
            new = [] if util.empty(o) else [o]
        else:
            kw = dict(pad_end=True) if case["pad"] and j == len(st["cut"]) - 1 else {}
            o = m.forward_steps(x[:, :, t : t + n], **kw)
            new = [] if util.empty(o) else [o[:, :, q] for q in range(o.shape[2])]
            ctx.count("padded", bool(kw))
        t += n
        outs += new
        for f in new:
            w = torch.randn(f.shape, generator=g, dtype=torch.float64)
            if st["which"] == "some" and torch.rand((), generator=g) < 0.6 or st["which"] == "first" and ws:
                w = torch.zeros_like(w)
            ws.append(w)
        if st["piece"] and st["which"] != "last" and len(outs) > done:
            loss = weigh(outs[done:], ws[done:])
            if loss.requires_grad:
                backward(loss, leaves, grads, f"{what}, after {t} steps", retain_graph=True)
            done = len(outs)
            ctx.count("piecewise")
    if not outs:
        return False
    if st["which"] == "last":
        ws = [torch.zeros_like(w) for w in ws[:-1]] + ws[-1:]
    exp = expected(twin, spec, y)
    if len(exp) < len(outs):
        raise Violation(f"{what}: {len(outs)} outputs, forward gives {len(exp)}")
    rtol = 1e-6 if zoo.has(spec, "mha", "enc") else 1e-8
    zoo.expect_frames([util.copy_out(o) for o in outs], [util.copy_out(e) for e in exp[: len(outs)]], what, rtol)
    loss = weigh(exp, ws)
    if not loss.requires_grad:
        if any(o.requires_grad for o in outs):
            raise Violation(f"{what}: outputs of steps have gradients, those of forward none")
        return False
    backward(loss, leaves2, grads2, what + " (forward)")
    if len(outs) > done:
        got = weigh(outs[done:], ws[done:])
        if not got.requires_grad:
            raise Violation(f"{what}: outputs of steps have no gradients, those of forward have")
        backward(got, leaves, grads, what)
    ctx.count("losses")
    ctx.count("steps_only", all(op == "s" for op, _ in st["cut"]))
    nonzero = False
    for name, a, b in zip(names, grads, grads2):
        util.expect(a, b, f"{what}: gradient of {name}", 1e-6)
        nonzero |= bool((b != 0).any())
        ctx.count("grads")
    ctx.count("input_grads", st["xgrad"])
    return nonzero
