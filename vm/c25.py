"""Delay and Skip: every frame once, unchanged, in order, at its time."""
import random
from collections import deque

import torch

import continual as co

from . import util, zoo
from .core import Violation, ambient

CASES = {"quick": 4000, "thorough": 150000}
RULE = ("Delay (with every shrink mode and fill) and Skip, alone and in chains, on numbered frames of random dtype, "
        "shape, layout and special values over random schedules with peeks, clean_state and end padding, compared "
        "bit by bit with a queue; Residuals around tap-selecting convolutions, whose pairs of frames are decoded "
        "from the outputs of forward and of steps; non-trivial: frames passed through")
REACH = {"frames_out": 50000, "none": 10000, "forwards": 2500, "peeks": 3000, "shrink": 600, "chains": 400,
         "residual": 400, "pairs": 4000, "flushed": 300, "restarts": 500, "ints": 300, "special": 300, "long": 200,
         "laps": 1000, "strided": 300}

DT = {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "i64": torch.int64,
      "i32": torch.int32, "u8": torch.uint8, "bool": torch.bool, "c64": torch.complex64}


def generate(r, tier, idx):
    o = r.choice(["line", "line", "line", "chain", "res"])
    if o == "res":
        mode = r.choice([False, "centered", "centered", "lagging", "leading", True])
        k = r.choice([3, 5, 7]) if mode in (False, "centered", True) else r.choice([2, 3, 4, 5, 6])
        T = k + r.randint(0, 3 * k)
        return dict(mode=o, shrink=mode, k=k, tap=r.randrange(k), T=T, cut=zoo.rand_cut(r, T), B=r.choice([1, 2]),
                    rounds=r.choice([1, 1, 2]), phantom=r.random() < 0.3)
    units = []
    for _ in range(1 if o == "line" else r.randint(2, 4)):
        if r.random() < 0.25:
            units.append(["skip", r.choice([1, 1, 2, 3, 5, 17])])
        else:
            units.append(["delay", r.choice([0, 1, 1, 2, 3, 4, 7, 16, 33]),
                          r.choice([False, False, "centered", "lagging", True]), r.choice(["zeros", "replicate"])])
    total = sum(u[1] * (2 if u[0] == "delay" and u[2] in ("centered", True) else 1) for u in units)
    T = r.choice([total + r.randint(0, 6), 3 * total + r.randint(0, 9), r.randint(1, 2 * total + 2)])
    T = max(1, min(T, 150))
    nS = r.choice([0, 0, 1, 2, 3])
    return dict(mode=o, units=units, T=T, B=r.choice([1, 1, 2, 3]), C=r.choice([1, 2, 3]),
                S=[r.choice([1, 2, 3]) for _ in range(nS)], dt=r.choice(sorted(DT)), cut=zoo.rand_cut(r, T),
                peek=r.random() < 0.3, rounds=r.choice([1, 1, 2, 3]), flush=r.random() < 0.3,
                special=r.random() < 0.2, lay=r.choice(["", "", "noncontig", "strided"]))


def frames(case, seed, T=None):
    """Numbered frames: no two equal, if the dtype allows it."""
    dt, T = DT[case["dt"]], T or case["T"]
    shape = (case["B"], case["C"], T, *case["S"])
    n = 1
    for d in shape:
        n *= d
    x = torch.randperm(n, generator=util.gen(seed)).reshape(shape)
    if dt == torch.bool:
        x = (x * 7 % 5) > 2
    elif dt.is_complex:
        x = torch.complex(x.float(), -x.float())
    else:
        x = (x % 251 if dt == torch.uint8 else x % 2000 if dt in (torch.float16, torch.bfloat16) else x).to(dt)
    if case["special"] and dt.is_floating_point:
        m = torch.rand(shape, generator=util.gen(seed + 1))
        x[m < 0.1] = float("nan")
        x[(m >= 0.1) & (m < 0.2)] = float("inf")
        x[(m >= 0.2) & (m < 0.3)] = -0.0
    return util.layout(x, case["lay"])


def bits(x):
    x = x.clone(memory_format=torch.contiguous_format).flatten()  # no odd strides left
    if x.is_complex():
        x = torch.view_as_real(x).contiguous()
    return x if x.dtype == torch.bool else x.view(torch.uint8)


def expect(got, exp, what):
    if got is None or exp is None:
        ok = got is None and exp is None
    else:
        ok = got.shape == exp.shape and got.dtype == exp.dtype and torch.equal(bits(got), bits(exp))
    if not ok:
        raise Violation(f"{what}: got {util.describe(got)}, expected {util.describe(exp)}")


class Line:
    """A queue: what has entered leaves lag steps later; the first outputs are dropped."""

    def __init__(self, u):
        self.u = u
        self.reset()

    def reset(self):
        self.q, self.n = deque(), 0

    def clone(self):
        c = Line(self.u)
        c.q, c.n = deque(self.q), self.n
        return c

    def step(self, x):
        kind, d = self.u[0], self.u[1]
        self.n += 1
        if kind == "skip":
            return x if self.n > d else None
        self.q.append(x)
        if len(self.q) <= d:
            return None
        y = self.q.popleft()
        # a centered shrink loses d frames at both ends
        return None if self.u[2] in ("centered", True) and self.n <= 2 * d else y

    def forward(self, x):
        kind, d = self.u[0], self.u[1]
        T = x.shape[2]
        lo, hi = 0, T
        if kind == "skip":
            lo = d
        elif self.u[2] == "lagging":
            hi = T - d
        elif self.u[2]:
            lo, hi = d, T - d
        return x[:, :, lo : max(lo, hi)]


def run_all(lines, x):
    for ln in lines:
        if x is None:
            return None
        x = ln.step(x)
    return x


@ambient
def run(case, ctx):
    return do_res(case, ctx) if case["mode"] == "res" else do_line(case, ctx)


def do_line(case, ctx):
    units = case["units"]
    ms = [co.Skip(u[1]) if u[0] == "skip" else co.Delay(u[1], auto_shrink=u[2], temporal_fill=u[3]) for u in units]
    m = ms[0] if len(ms) == 1 else co.Sequential(*ms)
    lines = [Line(u) for u in units]
    r = random.Random(case["seed"])
    n_out = 0
    for rd in range(case["rounds"]):
        x = frames(case, case["seed"] + 7 * rd)
        exp = x
        for ln in lines:
            exp = ln.forward(exp)
        full = exp
        if full.shape[2] or rd:
            if exp.shape[2]:
                expect(m.forward(x), exp, f"forward of {units}")
                ctx.count("forwards")
        t, stepped = 0, []
        for op, n in case["cut"]:
            xs = x[:, :, t : t + n]
            if case["peek"] and r.random() < 0.4:
                twin = [ln.clone() for ln in lines]
                judge(m, twin, op, xs, f"peek {op}{n} at step {t} of {units}", dict(update_state=False))
                ctx.count("peeks")
            out = judge(m, lines, op, xs, f"call {op}{n} at step {t} of {units}, round {rd}", {})
            stepped += out
            ctx.count("none", n - len(out))
            t += n
        for i, f in enumerate(stepped[: full.shape[2]]):
            expect(f, full[:, :, i], f"step output {i} against forward of {units}")
        # without a delay that stays behind, steps give all of forward
        if all(u[0] == "skip" or u[1] == 0 or u[2] for u in units) and len(units) == 1:
            if len(stepped) != full.shape[2]:
                raise Violation(f"{units}: {len(stepped)} step outputs, forward has {full.shape[2]}")
        n_out += len(stepped)
        ctx.count("frames_out", len(stepped))
        ctx.count("laps", sum(t > 2 * u[1] + 1 for u in units))
        if case["flush"] and len(units) == 1 and units[0][0] == "delay" and not units[0][2] and t >= units[0][1]:
            # end padding hands out what is left, each frame once
            y = frames(case, case["seed"] + 99, 3)
            rest = list(lines[0].q) + util.frames(y)
            got = m.forward_steps(y, pad_end=True)
            if got.shape[2] != len(rest):
                raise Violation(f"{units}: pad_end gave {got.shape[2]} frames, {len(rest)} were left")
            for i, f in enumerate(rest):
                expect(got[:, :, i], f, f"{units}: flushed frame {i}")
            ctx.count("flushed")
        m.clean_state()
        for ln in lines:
            ln.reset()
        ctx.count("restarts", rd > 0)
    ctx.count("shrink", any(u[0] == "delay" and bool(u[2]) for u in units))
    ctx.count("chains", len(units) > 1)
    ctx.count("ints", case["dt"] in ("i64", "i32", "u8", "bool"))
    ctx.count("special", case["special"])
    ctx.count("strided", case["lay"] != "")
    ctx.count("long", any(u[1] > 15 for u in units))
    return n_out > 0


def judge(m, lines, op, xs, what, kw):
    outs = [run_all(lines, f) for f in util.frames(xs)]
    outs = [o for o in outs if o is not None]
    if op == "s":
        got = m.forward_step(xs[:, :, 0], **kw)
        expect(got, outs[0] if outs else None, what)
        return [got.clone()] if got is not None else []
    got = m.forward_steps(xs, **kw)
    expect(got, torch.stack(outs, 2) if outs else None, what)
    return [f.clone() for f in got.unbind(2)] if got is not None else []


def do_res(case, ctx):
    """Frames carry their number; the convolution picks one tap, so outputs name both frames."""
    k, tap, shrink = case["k"], case["tap"], case["shrink"]
    pad = (k - 1) // 2 if shrink is False else 0
    conv = co.Conv1d(1, 1, k, padding=pad, bias=False).double()
    with torch.no_grad():
        conv.weight.zero_()
        conv.weight[0, 0, tap] = 1000.0

    def pair(xs):
        return xs[0] + xs[1] if case["phantom"] else co_sum(xs)

    def co_sum(xs):
        assert len(xs) == 2
        a, b = xs
        return a + b

    kw = {} if shrink is False else dict(residual_shrink=shrink)
    m = co.Residual(conv, reduce=pair, **kw)
    T, B = case["T"], case["B"]
    num = (torch.arange(T) + 1).double()
    x = num.reshape(1, 1, T).repeat(B, 1, 1) + torch.arange(B).reshape(B, 1, 1) * 0.5
    off = {False: 0, "centered": (k - 1) // 2, True: (k - 1) // 2, "lagging": 0, "leading": k - 1}[shrink]

    def code(t):  # output t: frame t + off of the residual, frame t + tap - pad of the convolution
        c = t + tap - pad
        b = torch.arange(B).double() * 0.5
        main = (c + 1 + b) * 1000 if 0 <= c < T else torch.zeros(B).double()
        return (main + t + off + 1 + b).reshape(B, 1)

    n = T if shrink is False else T - k + 1
    out = m.forward(x)
    if out.shape[2] != n:
        raise Violation(f"Residual({shrink}, k={k}): forward gave {out.shape[2]} outputs, expected {n}")
    for t in range(n):
        expect(out[:, :, t], code(t), f"Residual({shrink}, k={k}, tap={tap}): forward, output {t}")
    ctx.count("pairs", n)
    for rd in range(case["rounds"]):
        outs = zoo.flat(zoo.drive(m, x, case["cut"]))
        if len(outs) != T - k + 1 + pad:
            raise Violation(f"Residual({shrink}, k={k}): {len(outs)} step outputs, expected {T - k + 1 + pad}")
        for t, f in enumerate(outs):
            expect(f, code(t), f"Residual({shrink}, k={k}, tap={tap}): step output {t}, round {rd}")
        ctx.count("pairs", len(outs))
        m.clean_state()
    ctx.count("residual")
    return True
