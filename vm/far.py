"""A second device, for a machine which has only one.

Far tensors say that they are on the device "meta" and carry their values with them: every operation on them is
carried out on the values, so a module on this device can be run and compared. Between devices the rules of
PyTorch's accelerators hold, which the meta device itself does not enforce: tensors with dimensions must be on
one device, except where values are copied and for the indices of an indexing on the far device.
"""
import contextlib

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map

META = torch.device("meta")
BETWEEN = {"aten.copy_.default", "aten._to_copy.default"}
INDEXED = {"aten.index.Tensor", "aten.index_put_.default", "aten.index_put.default", "aten._index_put_impl_.default",
           "aten._unsafe_index.Tensor"}
SEEN = {"ops": 0, "far_ops": 0, "moves": 0}


class TwoDevices(RuntimeError):
    pass


class Far(torch.Tensor):
    @staticmethod
    def __new__(cls, inner):
        return torch.Tensor._make_wrapper_subclass(
            cls, inner.size(), strides=inner.stride(), storage_offset=inner.storage_offset(), dtype=inner.dtype,
            device=META, requires_grad=False)

    def __init__(self, inner):
        self.inner = inner

    def __repr__(self):
        return f"Far({self.inner})"

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, f, types, args=(), kwargs=None):
        return dispatch(f, args, kwargs or {})


def is_far(x):
    return isinstance(x, Far)


def near(x):
    """The values of a far tensor (or of a structure of them)."""
    return tree_map(lambda t: t.inner if is_far(t) else t, x)


def dispatch(f, args, kwargs):
    name = str(f)
    ts = [t for t in tree_flatten((args, kwargs))[0] if isinstance(t, torch.Tensor)]
    far = [t for t in ts if is_far(t)]
    close = [t for t in ts if not is_far(t) and t.dim() > 0]
    SEEN["ops"] += 1
    SEEN["far_ops"] += bool(far)
    if far and close and name not in BETWEEN and not (
        name in INDEXED and is_far(args[0]) and (len(args) < 3 or is_far(args[2]) or args[2].dim() == 0)
    ):
        raise TwoDevices(f"{name} of tensors on two devices: {[str(t.device) + str(tuple(t.shape)) for t in ts]}")
    device = kwargs.get("device")
    if device is not None:
        out_far = torch.device(device) == META
        kwargs = dict(kwargs, device=torch.device("cpu"))
        SEEN["moves"] += bool(ts)
    elif name == "aten.copy_.default" or name in INDEXED:
        out_far = is_far(args[0])
    else:
        out_far = bool(far)
    out = f(*near(args), **near(kwargs))
    same = {id(t.inner): t for t in far}
    return tree_map(lambda t: t if not isinstance(t, torch.Tensor) else same.get(id(t)) if id(t) in same else
                    Far(t) if out_far else t, out)


class Dispatch(TorchDispatchMode):
    def __torch_dispatch__(self, f, types, args=(), kwargs=None):
        return dispatch(f, args, kwargs or {})


class Functions(TorchFunctionMode):
    """torch.tensor makes its values outside of the dispatcher."""

    def __torch_function__(self, f, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if f in (torch.tensor, torch.as_tensor) and kwargs.get("device") is not None:
            device = kwargs["device"]
            return f(*args, **{k: v for k, v in kwargs.items() if k != "device"}).to(device)
        return f(*args, **kwargs)


@contextlib.contextmanager
def devices():
    """While active, tensors made on the device "meta" are far."""
    was = torch.__future__.get_overwrite_module_params_on_conversion()
    torch.__future__.set_overwrite_module_params_on_conversion(True)  # not into the old tensor, which would keep its values
    try:
        with Functions(), Dispatch():
            yield
    finally:
        torch.__future__.set_overwrite_module_params_on_conversion(was)
