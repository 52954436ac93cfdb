"""A step costs one step: arithmetic actually executed, counted below the modules."""
import copy
import math

import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils.flop_counter import flop_registry

import continual as co

from . import nets, util, zoo
from .core import Violation

CASES = {"quick": 700, "thorough": 20000}
RULE = ("any module or network; every operation torch executes during each step of a long stream is counted (multiply-"
        "accumulates of convolutions and matrix products, elements produced by all operations): late steps against "
        "early steady ones, single layers against the arithmetic of one time step, networks against the sum of "
        "their layers stepped alone, chunks against the steps they stand for; non-trivial: arithmetic was counted "
        "and compared")
REACH = {"steps": 20000, "late_steps": 8000, "bounded_layers": 80, "networks": 150, "leaves": 400, "chunks": 300, "training": 80,
         "k:conv": 100, "k:linear": 10, "k:rnn": 20, "k:mha": 15, "k:enc": 8, "k:br": 30, "k:res": 20}
ASSUMPTIONS = ["counts are of operations dispatched by torch, not of time"]


class Cost(TorchDispatchMode):
    """What torch is asked to execute."""

    def __init__(self):
        super().__init__()
        self.flops = self.elements = self.ops = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        out = func(*args, **kwargs)
        f = flop_registry.get(func._overloadpacket)
        if f is not None:
            self.flops += f(*args, **kwargs, out_val=out)
        for o in out if isinstance(out, (tuple, list)) else [out]:
            if isinstance(o, torch.Tensor):
                self.elements += o.numel()
        self.ops += 1
        return out


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.5, gates=True)
    k, s = zoo.span(z)
    long = r.choice([40, 60, 100] + ([300] if tier == "thorough" else []))
    return dict(z=z, B=r.choice([1, 2]), T=3 * k + 2 * s + long, style=r.randint(0, 99),
                dt=r.choice(["f64", "f32"]), chunk=r.choice([2, 3, 5, k + 1]), at=r.randint(0, 2 * k),
                train=r.random() < 0.3)


def step_cost(m, x):
    with Cost() as c:
        o = m.forward_step(x)
    return c.flops, c.elements, o


def conv_out(spec, S):
    return math.prod(nets.out_space(spec, S) or [1])


def layer_bound(spec, B, S):
    """Multiply-accumulates (times two) of one time step of a single layer; None: no statement."""
    k = spec["k"]
    if k == "conv":
        # one frame meets every temporal position of the kernel; the zero padding which spreads it is
        # counted by torch as well
        kt = spec["ks"][0]
        return 2 * B * spec["cin"] // spec["g"] * spec["cout"] * math.prod(spec["ks"][1:]) * conv_out(spec, S) * kt * kt
    if k == "linear":
        return 2 * B * spec["cin"] * spec["cout"] * math.prod(S)
    if k == "rnn":
        gates = {"RNN": 1, "GRU": 3, "LSTM": 4}[spec["t"]]
        h, out, n, i = spec["h"], spec.get("proj") or spec["h"], 0, spec["i"]
        for _ in range(spec.get("l", 1)):
            n += gates * h * (i + out) + (h * out if spec.get("proj") else 0)
            i = out
        return 2 * B * n
    if k == "mha":
        E, N = spec["e"], spec["n"]
        if spec["t"] == "single":  # four projections of a token, one query
            return B * (8 * E * E + 4 * N * E)
        return B * (6 * E * E + 2 * N * E * E + 12 * N * E)  # N outputs are projected
    if k == "enc" and spec["l"] == 1:
        E, N = spec["e"], spec["n"]
        return B * (8 * E * E + 4 * N * E + 4 * E * spec["ff"])
    if k in ("avg", "max", "aavg", "amax", "delay", "skip", "rpe", "act", "bn", "add", "mul", "ident"):
        return 0
    return None


def leaves(m):
    """Innermost continual modules which are executed."""
    out, idle = [], set()
    for c in m.modules():
        if isinstance(c, co.Conditional):  # (the predicates are constant)
            chosen = 0 if c.predicate(c, None) else 1
            for i, b in enumerate(c.children()):
                if i != chosen:
                    idle.update(id(d) for d in b.modules())
    for n, c in m.named_modules():
        if id(c) in idle:
            continue
        inner = [d for d in c.modules() if d is not c and callable(getattr(d, "forward_step", None))]
        if callable(getattr(c, "forward_step", None)) and not inner:
            out.append((n, c))
    return out


def watch(m, x):
    """Frames which the layers of a network receive."""
    seen, handles = {}, []
    for n, c in leaves(m):
        def hook(mod, args, n=n):
            seen.setdefault(n, args[0])
        handles.append(c.register_forward_pre_hook(hook))
    for f in util.frames(x):
        m.forward_step(f)
    for h in handles:
        h.remove()
    return seen


@torch.no_grad()
def run(case, ctx):
    z, T = case["z"], case["T"]
    spec = z["spec"]
    k, s = zoo.span(z)

    def new():
        m = zoo.make(z, case["seed"], case["dt"], style=case["style"])[0]
        return m.train() if case["train"] and not zoo.has(spec, "bn") else m

    x = zoo.stream(z, T, case["seed"], "randn", case["B"], case["dt"])
    m = new()
    flops, elements = [], []
    for f in util.frames(x):
        a, b, _ = step_cost(m, f)
        flops.append(a)
        elements.append(b)
    ctx.count("steps", T)
    steady = min(2 * k + s, T // 2)
    # Nothing grows with the length of the stream
    early, late = flops[steady : (T + steady) // 2], flops[(T + steady) // 2 :]
    if max(late) > max(early):
        raise Violation(f"multiply-accumulates per step grow: at most {max(early)} in steps {steady}-{(T + steady) // 2}, "
                        f"{max(late)} later (delay {k - 1}, {T} steps)")
    ea, la = elements[steady : (T + steady) // 2], elements[(T + steady) // 2 :]
    if sum(la) / len(la) > 1.4 * sum(ea) / len(ea) + 64:
        raise Violation(f"elements computed per step grow: {sum(ea) / len(ea):.0f} in steps {steady}-{(T + steady) // 2}, "
                        f"{sum(la) / len(la):.0f} later")
    ctx.count("late_steps", len(late))
    top = max(flops)
    bound = layer_bound(spec, case["B"], z["S"])
    if bound is not None:
        if top > (1.3 if spec["k"] in ("mha", "enc") else 1) * bound:
            raise Violation(f"a step of {spec['k']} takes {top} multiply-accumulates (x2), one time step of it {bound}")
        ctx.count("bounded_layers")
    # (inside of encoders, layers hand on whole windows)
    if spec["k"] in ("seq", "br", "res", "cond") and not zoo.has(spec, "enc"):
        sum_of_layers(case, ctx, new(), x[:, :, : 3 * k + s + 4], top)
    # A chunk costs no more than its steps
    n, at = min(case["chunk"], zoo.max_T(spec)), case["at"]
    m, twin = new(), new()
    for f in util.frames(x[:, :, :at]):
        m.forward_step(f)
        twin.forward_step(f)
    with Cost() as c:
        m.forward_steps(x[:, :, at : at + n])
    one = sum(step_cost(twin, f)[0] for f in util.frames(x[:, :, at : at + n]))
    if c.flops > 1.1 * one:
        raise Violation(f"forward_steps on {n} frames at step {at} takes {c.flops} multiply-accumulates (x2), "
                        f"{n} forward_step calls {one}")
    ctx.count("chunks")
    ctx.count("training", m.training)
    for q in set(nets.kinds(spec)):
        ctx.count("k:" + q)
    return top > 0 or sum(elements) > 0


def sum_of_layers(case, ctx, m, x, top):
    seen = watch(m, x)
    total, names = 0, []
    for n, c in leaves(m):
        if not isinstance(seen.get(n), torch.Tensor):
            continue  # routing, or a branch which is not selected
        alone = copy.deepcopy(c)
        if hasattr(alone, "clean_state"):
            alone.clean_state()
        cost = 0
        for t in range(x.shape[2]):
            cost = max(cost, step_cost(alone, torch.randn_like(seen[n]))[0])
        total += cost
        names.append(f"{n}: {cost}")
        ctx.count("leaves")
    if top > total:
        raise Violation(f"a step of the network takes {top} multiply-accumulates (x2), its layers alone {total} "
                        f"({', '.join(names)})")
    ctx.count("networks")
