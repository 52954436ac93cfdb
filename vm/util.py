"""Comparison, data and stream helpers."""
import torch
from torch import Tensor

from .core import Violation

F64 = torch.float64


def gen(seed):
    return torch.Generator().manual_seed(int(seed) % (2**31))


def data(shape, seed, kind="randn", dtype=F64):
    """Input data of a kind; every element is drawn from a seeded generator."""
    g = gen(seed)
    if kind == "randn":
        x = torch.randn(shape, generator=g, dtype=F64)
    elif kind == "neg":
        x = -torch.rand(shape, generator=g, dtype=F64) - 0.1
    elif kind == "big":
        x = torch.randn(shape, generator=g, dtype=F64) * 1e3
    elif kind == "small":
        x = torch.randn(shape, generator=g, dtype=F64) * 1e-3
    elif kind == "mixed":  # magnitudes over several decades, some exact zeros
        x = torch.randn(shape, generator=g, dtype=F64)
        x = x * 10.0 ** torch.randint(-2, 3, shape, generator=g).to(F64)
        x = x * (torch.rand(shape, generator=g) > 0.2).to(F64)
    elif kind == "ints":
        x = torch.randint(-9, 10, shape, generator=g).to(F64)
    elif kind == "const":
        x = torch.ones(shape, dtype=F64) * float(torch.randn((), generator=g))
    elif kind == "low":  # far below zero
        x = -torch.rand(shape, generator=g, dtype=F64) * 1e6 - 1e5
    elif kind == "holes":  # some elements at minus infinity
        x = torch.randn(shape, generator=g, dtype=F64)
        x[torch.rand(shape, generator=g) < 0.3] = float("-inf")
    else:
        raise ValueError(kind)
    return x.to(dtype)


KINDS = ["randn", "randn", "randn", "neg", "mixed", "ints", "const", "small", "big"]


def layout(x, how, dim=2):
    """The same values in another memory layout."""
    if how == "noncontig":
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "strided":
        y = torch.zeros((*x.shape, 2), dtype=x.dtype)
        y[..., 0] = x
        return y[..., 0]
    return x


def tol(dtype):
    return {torch.float64: 1e-8, torch.float32: 3e-4}.get(dtype, 0.0)


def describe(x):
    if isinstance(x, Tensor):
        return f"tensor{tuple(x.shape)} {x.dtype} {x.flatten()[:4].tolist()}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(describe(i) for i in x) + "]"
    return repr(x)


def same(a, b, rtol=None, exact=False):
    """Equal outputs: same structure, shape, dtype and (nearly) the same values."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(same(i, j, rtol, exact) for i, j in zip(a, b))
        )
    if not (isinstance(a, Tensor) and isinstance(b, Tensor)):
        return False
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if exact or not a.is_floating_point():
        return torch.equal(a, b) or bool(((a == b) | ((a != a) & (b != b))).all())
    a, b = a.detach(), b.detach()
    finite = torch.isfinite(b)
    if not torch.equal(torch.isfinite(a), finite):
        return False
    if not finite.all():
        an, bn = a[~finite], b[~finite]
        if not bool(((an == bn) | ((an != an) & (bn != bn))).all()):
            return False
        a, b = a[finite], b[finite]
    if a.numel() == 0:
        return True
    r = tol(a.dtype) if rtol is None else rtol
    scale = max(1.0, float(b.abs().max()))
    return float((a - b).abs().max()) <= r * scale


def expect(a, b, what, rtol=None, exact=False):
    if not same(a, b, rtol, exact):
        raise Violation(f"{what}: got {describe(a)}, expected {describe(b)}")


def copy_out(o):
    """A private copy of an output (or state)."""
    if isinstance(o, Tensor):
        return o.detach().clone()
    if isinstance(o, (list, tuple)):
        return type(o)([copy_out(i) for i in o]) if not hasattr(o, "_fields") else o
    return o


def frames(x, dim=2):
    return list(x.unbind(dim))


def stack(outs, dim=2):
    """Join step outputs like forward_steps does; None if there are none."""
    outs = [o for o in outs if o is not None]
    if not outs:
        return None
    if isinstance(outs[0], list):
        return [stack([o[i] for o in outs], dim) for i in range(len(outs[0]))]
    return torch.stack(outs, dim)


def empty(o):
    """No output: None, or streams which all are None or have no time step."""
    if o is None:
        return True
    if isinstance(o, (list, tuple)):
        return all(empty(i) for i in o)
    return False
