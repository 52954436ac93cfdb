"""Continual modules as users of the library write them: temporal convolutions over single pixels."""
import torch
from torch import nn

import continual as co

IMPLS = ["state", "state", "inplace", "rolling", "override"]
ATTRS = ["instance", "class", "property", "registered"]


class Base(nn.Module):
    def __init__(self, cin, cout, k, s, p, bias):
        nn.Module.__init__(self)
        self.k, self.s, self.p = k, s, p
        self.weight = nn.Parameter(torch.randn(cout, cin, k))
        self.bias = nn.Parameter(torch.randn(cout)) if bias else None
        self.past = None

    def mix(self, w, x):
        return torch.einsum("oc,bc...->bo...", w, x)

    def emit(self, window):
        """One output frame from k frames."""
        out = sum(self.mix(self.weight[:, :, i], window[i]) for i in range(self.k))
        if self.bias is not None:
            out = out + self.bias.view(1, -1, *[1] * (out.dim() - 2))
        return out

    def due(self, n):
        """Whether the n-th frame (from one) completes an output."""
        m = n - (self.k - self.p)
        return m >= 0 and m % self.s == 0

    def forward(self, input):
        z = torch.zeros_like(input[:, :, :1])
        x = torch.cat([z] * self.p + [input] + [z] * self.p, 2)
        return torch.stack([self.emit([x[:, :, t + i] for i in range(self.k)])
                            for t in range(0, x.shape[2] - self.k + 1, self.s)], 2)

    def get_state(self):
        return self.past

    def set_state(self, state):
        self.past = state

    def clean_state(self):
        self.past = None


class Functional(Base):
    """A new state from each step."""

    _state_shape = 2
    _dynamic_state_inds = [True, False]

    def _forward_step(self, input, prev_state=None):
        if prev_state is None:
            prev_state = (torch.zeros_like(input).unsqueeze(0).repeat(self.k - 1, *[1] * input.dim()), torch.tensor(0))
        buf, n = prev_state
        frames = torch.cat([buf, input.unsqueeze(0)])
        n = n + 1
        return self.emit(frames) if self.due(int(n)) else None, (frames[1:], n)


class Inplace(Base):
    """The first part of the state is updated in place, as in the library's own modules."""

    _state_shape = 2
    _dynamic_state_inds = [True, False]

    def _forward_step(self, input, prev_state=None):
        if prev_state is None:
            prev_state = (torch.zeros_like(input).unsqueeze(0).repeat(self.k, *[1] * input.dim()), torch.tensor(0))
        buf, n = prev_state
        if self.training or torch.is_grad_enabled():
            buf = buf.clone()
        buf[int(n) % self.k] = input
        n = n + 1
        out = self.emit([buf[(int(n) + i) % self.k] for i in range(self.k)]) if self.due(int(n)) else None
        return out, (buf, n)


class Rolling(Base):
    """All frames move by one place in place, so that a step which should not count would be seen."""

    _state_shape = 2
    _dynamic_state_inds = [True, False]

    def _forward_step(self, input, prev_state=None):
        if prev_state is None:
            prev_state = (torch.zeros_like(input).unsqueeze(0).repeat(self.k, *[1] * input.dim()), torch.tensor(0))
        buf, n = prev_state
        if self.training or torch.is_grad_enabled():
            buf = buf.clone()
        buf.copy_(torch.cat([buf[1:], input.unsqueeze(0)]))
        n = n + 1
        return self.emit(buf.unbind(0)) if self.due(int(n)) else None, (buf, n)


class Override(Base):
    """Methods of its own for all modes."""

    def forward_step(self, input, update_state=True):
        frames, n = self.past or ([torch.zeros_like(input)] * (self.k - 1), torch.tensor(0))
        frames = [*frames, input.clone()]
        out = self.emit(frames) if self.due(int(n) + 1) else None
        if update_state:
            self.past = (frames[1:], n + 1)
        return out

    def forward_steps(self, input, pad_end=False, update_state=True):
        before, outs = self.past, []
        for t in range(input.shape[2]):
            outs.append(self.forward_step(input[:, :, t]))
        after = self.past
        if pad_end:
            for _ in range(self.p):
                outs.append(self.forward_step(torch.zeros_like(input[:, :, -1])))
        self.past = after if update_state else before
        outs = [o for o in outs if o is not None]
        return torch.stack(outs, 2) if outs else None


BODY = dict(state=Functional, inplace=Inplace, rolling=Rolling, override=Override)


def make(cin, cout, k, s, p, bias, impl, attrs, seq=tuple, bare=False):
    body = type("Bare", (BODY[impl],), {}) if bare else BODY[impl]
    stride, padding = seq([s]), seq([p])
    # As documented: CoModule first
    if attrs == "class":
        cls = type("Mine", (co.CoModule, body), dict(receptive_field=k, stride=stride, padding=padding, **own(body)))
        return cls(cin, cout, k, s, p, bias)
    if attrs == "property":
        cls = type("Mine", (co.CoModule, body), dict(
            receptive_field=property(lambda self: self.k), stride=property(lambda self: seq([self.s])),
            padding=property(lambda self: seq([self.p])), delay=property(lambda self: self.k - 1 - self.p), **own(body)))
        return cls(cin, cout, k, s, p, bias)
    m = type("Mine", (co.CoModule, body), own(body))(cin, cout, k, s, p, bias)
    m.receptive_field, m.stride, m.padding = k, stride, padding
    return m


def own(body):
    """Methods of the body, which take precedence over those of CoModule; a bare one leaves what it need not declare."""
    names = {}
    for c in reversed([q for q in body.__mro__ if q not in nn.Module.__mro__]):
        names.update({k: v for k, v in vars(c).items() if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__init__")})
    if body.__name__ == "Bare":
        names.pop("_state_shape", None)
        names.pop("_dynamic_state_inds", None)
    names["__init__"] = lambda self, *a: body.__init__(self, *a)
    return names


class Source(nn.Module):
    """A user's torch module for which a conversion is registered."""

    def __init__(self, *args, bare=False):
        super().__init__()
        self.bare = bare
        self.args = args  # cin, cout, k, s, p, bias, impl, seq
        body = Base(*args[:6])
        self.weight, self.bias = body.weight, body.bias

    def forward(self, input):
        m = Base(*self.args[:6])
        m.weight, m.bias = self.weight, self.bias
        return m.forward(input)


class Converted(co.CoModule, nn.Module):
    """What the conversion is registered for; builds the module for each implementation."""

    @staticmethod
    def build_from(module):
        *args, impl, seq = module.args
        m = make(*args, impl, "class", seq, module.bare)
        m.weight, m.bias = module.weight, module.bias
        return m.train(module.training)


co.convert.register(Source, Converted)
