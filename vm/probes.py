"""Modules written by a user of the library, which record how they are executed."""
import torch
from torch import nn

import continual as co

LOG = []  # (identity, mode)


class Probe(co.CoModule, nn.Module):
    """A continual module of its own; identity."""

    def __init__(self, name=None):
        nn.Module.__init__(self)
        self.name = name

    def forward(self, input):
        LOG.append((self.name, "forward", input.dim()))
        return input.clone()

    def forward_steps(self, input, pad_end=False, update_state=True):
        LOG.append((self.name, "forward_steps", input.dim()))
        return input.clone()

    def forward_step(self, input, update_state=True):
        LOG.append((self.name, "forward_step", input.dim()))
        return input.clone()

    def _forward_step(self, input, prev_state=None):
        LOG.append((self.name, "_forward_step", input.dim()))
        return input.clone(), prev_state


class Local(nn.Module):
    """A time-local torch.nn module, for co.forward_stepping; needs the time dimension."""

    def __init__(self, name=None, ndim=None):
        super().__init__()
        self.name, self.ndim = name, ndim

    def forward(self, x):
        LOG.append((self.name, "local", x.dim()))
        if self.ndim is not None and x.dim() != self.ndim:
            raise RuntimeError(f"expected {self.ndim} dimensions, got {x.dim()}")
        return x * 2.0


def take():
    out = list(LOG)
    LOG.clear()
    return out
