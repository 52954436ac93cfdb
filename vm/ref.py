"""Reference semantics of streams, independent of the code under test.

Every node remembers the raw input frames it still needs and computes each output
directly from the window of raw frames with torch.nn.functional on the whole window;
there are no ring buffers, partial sums or delays. `forward` computes on the whole
sequence, `step` consumes a frame, `tail` gives what end padding would yield.
"""
import torch
import torch.nn.functional as F
from torch import nn


class Node:
    """k: temporal extent, s: temporal stride, p: temporal padding."""

    k, s, p = 1, 1, 0

    def clone(self):
        raise NotImplementedError

    def reset(self):
        raise NotImplementedError

    def steps(self, xs, pad_end=False, polluted=False):
        outs = [o for o in (self.step(x) for x in xs) if o is not None]
        if pad_end:
            outs += self.clone().tail()
        return outs


class Win(Node):
    """Convolution or pooling: fn maps a window (B, C, k, *S) to (B, C', 1, *S')."""

    def __init__(self, fn, fwd, k, s, p, fill):
        self.fn, self.fwd, self.k, self.s, self.p, self.fill = fn, fwd, k, s, p, fill
        self.reset()

    def reset(self):
        self.n, self.first, self.hist = 0, None, []

    def clone(self):
        c = Win(self.fn, self.fwd, self.k, self.s, self.p, self.fill)
        c.n, c.first, c.hist = self.n, self.first, list(self.hist)
        return c

    def _fill_frame(self, like):
        if self.fill == "zeros":
            return torch.zeros_like(like)
        if self.fill == "neg_inf":
            return torch.full_like(like, float("-inf"))
        return like  # replicate

    def step(self, x):
        if self.n == 0:
            self.first = x
        self.hist = (self.hist + [x])[-self.k :]
        self.n += 1
        m = self.n - (self.k - self.p)
        if m < 0 or m % self.s != 0:
            return None
        win = [self._fill_frame(self.first)] * (self.k - len(self.hist)) + self.hist
        return self.fn(torch.stack(win, 2)).squeeze(2)

    def tail(self):
        if self.n == 0:
            return []
        f = self._fill_frame(self.hist[-1])
        return [o for o in (self.step(f) for _ in range(self.p)) if o is not None]

    def forward(self, x):
        return self.fwd(x)


class Point(Node):
    """Time-local function; fn maps (B, C, T, *S) to (B, C', T, *S')."""

    def __init__(self, fn):
        self.fn = fn

    def clone(self):
        return self

    def reset(self):
        pass

    def step(self, x):
        return self.fn(x.unsqueeze(2)).squeeze(2)

    def tail(self):
        return []

    def forward(self, x):
        return self.fn(x)


class Delay(Node):
    def __init__(self, d, shrink=False):
        self.d, self.shrink = d, shrink
        # Frames lost in forward
        lost = {False: 0, "lagging": d, "centered": 2 * d}[shrink]
        self.lag = d
        self.start = {False: d, "lagging": d, "centered": 2 * d}[shrink]
        self.k, self.p = d + 1, 0
        self.lost = lost
        self.reset()

    def reset(self):
        self.n, self.hist = 0, []

    def clone(self):
        c = Delay(self.d, self.shrink)
        c.n, c.hist = self.n, list(self.hist)
        return c

    def step(self, x):
        self.hist = (self.hist + [x])[-(self.d + 1) :]
        self.n += 1
        return self.hist[0] if self.n > self.start else None

    def tail(self):
        if self.shrink or self.d == 0:
            return []
        k = min(self.d, self.n)
        # Frames not emitted yet; if fewer than d steps were seen the flush is short
        return self.hist[-k:] if k else []

    def forward(self, x):
        if self.d == 0 or not self.shrink:
            return x
        if self.shrink == "lagging":
            return x[:, :, : -self.d]
        return x[:, :, self.d : -self.d]


class Skip(Node):
    def __init__(self, n):
        self.skip = n
        self.k = n + 1
        self.reset()

    def reset(self):
        self.n = 0

    def clone(self):
        c = Skip(self.skip)
        c.n = self.n
        return c

    def step(self, x):
        self.n += 1
        return x if self.n > self.skip else None

    def tail(self):
        return []

    def forward(self, x):
        return x[:, :, self.skip :]


class Recurrent(Node):
    """torch.nn RNN / GRU / LSTM run over the whole history (via its final state)."""

    def __init__(self, net, hx=None):
        self.net, self.hx = net, hx  # a torch.nn module with batch_first

    def reset(self):
        self.hx = None

    def clone(self):
        return Recurrent(self.net, self.hx)

    def step(self, x):
        o, self.hx = self.net(x.unsqueeze(1), self.hx)
        return o.squeeze(1)

    def tail(self):
        return []

    def forward(self, x):
        return self.net(x.transpose(1, 2))[0].transpose(1, 2)


class Window(Node):
    """Function of the last N frames, (B, C, N) -> step output; None before."""

    def __init__(self, fn, n, fwd):
        self.fn, self.k, self.fwd = fn, n, fwd
        self.reset()

    def reset(self):
        self.hist = []

    def clone(self):
        c = Window(self.fn, self.k, self.fwd)
        c.hist = list(self.hist)
        return c

    def step(self, x):
        self.hist = (self.hist + [x])[-self.k :]
        return self.fn(torch.stack(self.hist, 2)) if len(self.hist) == self.k else None

    def tail(self):
        return []

    def forward(self, x):
        return self.fwd(x)


class Positional(Node):
    """Adds embedding n mod N to the n-th frame."""

    def __init__(self, table, advance=0):
        self.table, self.pos = table, 0

    def reset(self):
        self.pos = 0

    def clone(self):
        c = Positional(self.table)
        c.pos = self.pos
        return c

    def step(self, x):
        o = x + self.table[self.pos % len(self.table)]
        self.pos += 1
        return o

    def tail(self):
        return []

    def forward(self, x):
        idx = torch.arange(x.shape[2]) % len(self.table)
        return x + self.table[idx].t().unsqueeze(0)


class Seq(Node):
    def __init__(self, children):
        self.children = children
        k, s, p = 1, 1, 0
        for c in children:
            k += (c.k - 1) * s
            p += c.p * s
            s *= c.s
        self.k, self.s, self.p = k, s, p

    def reset(self):
        for c in self.children:
            c.reset()

    def clone(self):
        return Seq([c.clone() for c in self.children])

    def step(self, x):
        for c in self.children:
            x = c.step(x)
            if x is None:
                return None
        return x

    def tail(self):
        xs = []
        for c in self.children:
            xs = [o for o in (c.step(x) for x in xs) if o is not None] + c.tail()
        return xs

    def steps(self, xs, pad_end=False, polluted=False):
        if not polluted:
            return Node.steps(self, xs, pad_end)
        # What happens if frames derived from padding enter the stream downstream
        for c in self.children:
            if not xs:
                return []
            xs = c.steps(xs, pad_end, True)
        return xs

    def forward(self, x):
        for c in self.children:
            x = c.forward(x)
        return x


REDUCE = {
    "sum": lambda xs: sum(xs[1:], xs[0]),
    "mul": lambda xs: torch.stack(list(torch.broadcast_tensors(*xs))).prod(0),
    "max": lambda xs: torch.stack(list(torch.broadcast_tensors(*xs))).max(0).values,
    "concat": lambda xs: torch.cat(xs, 1),
}


class Branches(Node):
    """The j-th outputs of all branches belong together."""

    def __init__(self, branches, reduce):
        self.branches, self.reduce = branches, reduce
        self.queues = [[] for _ in branches]
        # Longest extent behind and ahead of an output
        self.s = branches[0].s
        self.p = max(b.p for b in branches)
        self.k = max(b.k - b.p for b in branches) + self.p

    def reset(self):
        for b in self.branches:
            b.reset()
        self.queues = [[] for _ in self.branches]

    def clone(self):
        c = Branches([b.clone() for b in self.branches], self.reduce)
        c.queues = [list(q) for q in self.queues]
        return c

    def _pop(self):
        outs = []
        while all(self.queues):
            outs.append(self.reduce([q.pop(0) for q in self.queues]))
        return outs

    def step(self, x):
        for b, q in zip(self.branches, self.queues):
            o = b.step(x)
            if o is not None:
                q.append(o)
        outs = self._pop()
        assert len(outs) <= 1
        return outs[0] if outs else None

    def tail(self):
        for b, q in zip(self.branches, self.queues):
            q += b.tail()
        return self._pop()

    def forward(self, x):
        return self.reduce([b.forward(x) for b in self.branches])


class Mismatch(Exception):
    """Branches give different numbers of outputs, which the library cannot reduce."""


class TimedBranches(Node):
    """Like Branches, but aligned by explicit delays as the library does it.

    Only used to predict what the known finding on end padding does to a stream.
    """

    def __init__(self, branches, reduce):
        d = max(b.k - 1 - b.p for b in branches)
        self.branches = []
        for b in branches:
            lag = d - (b.k - 1 - b.p)
            if lag:
                b = Seq([b, Delay(lag)] if b.s == 1 else [Delay(lag), b])
            self.branches.append(b)
        self.reduce = reduce
        self.s = branches[0].s
        self.p = max(b.p for b in branches)
        self.k = d + 1 + self.p

    def reset(self):
        for b in self.branches:
            b.reset()

    def clone(self):
        c = TimedBranches.__new__(TimedBranches)
        c.branches = [b.clone() for b in self.branches]
        c.reduce, c.s, c.p, c.k = self.reduce, self.s, self.p, self.k
        return c

    def step(self, x):
        outs = [b.step(x) for b in self.branches]
        return None if any(o is None for o in outs) else self.reduce(outs)

    def tail(self):
        raise NotImplementedError

    def steps(self, xs, pad_end=False, polluted=False):
        if not polluted:
            assert not pad_end
            return Node.steps(self, xs)
        outs = [b.steps(xs, pad_end, True) for b in self.branches]
        if not all(outs):
            return []
        try:
            return list(self.reduce([torch.stack(o, 2) for o in outs]).unbind(2))
        except RuntimeError:
            raise Mismatch()

    def forward(self, x):
        return self.reduce([b.forward(x) for b in self.branches])
