"""Modules which are put on another device, or into another type, before and in the middle of a stream."""
import contextlib

import torch

import continual as co

from . import far, nets, util, zoo
from .core import Violation

CASES = {"quick": 800, "thorough": 50000}
RULE = ("any module or network, built here and moved, built in the context of the other device, or run within it, with calls of all "
        "kinds (steps, cuts, peeks, padded ends, forward), moves between devices and types, clean starts and states carried to a "
        "second module, in any order; a simulated device computes with the values and refuses operations which mix devices; outputs "
        "are those of a module which stays where it is, on the device and in the type of the input; also within autocast; non-trivial: outputs elsewhere")
REACH = {"out_frames": 2000, "far_frames": 1000, "none_calls": 200, "far_ops": 12000, "forwards": 120, "peeks": 80, "padded": 40,
         "running": 200, "m:far": 200, "m:near": 80, "m:type": 120, "m:warm": 80, "short_frames": 120, "m:clean": 80, "m:carry": 60, "context": 80, "within": 80,
         "types": 400, "mixed_frames": 120, "grad": 40}
DT = {"f64": torch.float64, "f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6)
    k, s = zoo.span(z)
    T = min(r.choice([k, 2 * k + s, k + 3 * s + r.randint(0, 5), r.randint(1, 25)]), 40)
    cut = zoo.rand_cut(r, T, zoo.max_T(z["spec"]))
    whole = z["spec"]["k"] in ("conv", "pool", "aavg", "amax", "delay", "rnn")
    calls = [["p" if op == "m" and whole and r.random() < 0.4 else op, n] for op, n in cut]
    start = r.choice(["here", "here", "here", "context", "within"])
    moves = ["far", "far", "near", "clean", "carry", "warm"]
    if start == "here" and not zoo.has(z["spec"], "cond"):  # rounding must not change a decision
        moves += ["f32", "f64"]
    if start == "within":
        moves = ["clean", "carry", "warm"]
    plan = [[r.choice(moves) for _ in range(r.choice([0, 0, 1, 1, 2]))] for _ in range(len(calls) + 1)]
    if start == "here" and r.random() < 0.6:
        plan[0].append("far")
    return dict(z=z, B=r.choice([1, 2]), T=T, dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), calls=calls, start=start, plan=plan,
                peek=[r.random() < 0.15 for _ in calls], grad=r.random() < 0.2,
                short=start == "here" and not zoo.has(z["spec"], "cond") and r.choice([False, False, "f16", "bf16"]),
                auto=r.random() < 0.25 and not zoo.has(z["spec"], "cond"),
                cut=zoo.rand_cut(r, min(k + s + 1, 30), zoo.max_T(z["spec"])))


class Twin:
    """The module which stays, and the one which moves."""

    def __init__(self, case, ctx):
        self.case, self.ctx, self.z = case, ctx, case["z"]
        self.where = "near" if case["start"] == "here" else "far"
        self.dt = case["dt"]
        self.rounded = False
        self.place = torch.device("meta") if case["start"] == "within" else contextlib.nullcontext()
        self.still, _ = self.make()
        self.m = self.build()

    def make(self):
        m, f = zoo.make(self.z, self.case["seed"], self.case["dt"], style=self.case["style"])
        return m.to(DT[self.case["dt"]]), f  # modules without parameters are told the type, too

    def build(self):
        """A module like the one which moves, where that is."""
        if self.case["start"] == "here":
            m, _ = self.make()
            return m.to(device=self.device(), dtype=DT[self.dt])
        source, _ = self.make()
        with torch.device("meta"):
            m, _ = self.make()
            m.load_state_dict(source.to("meta").state_dict())
        return m.to(self.device())

    def device(self):
        return "meta" if self.where == "far" else "cpu"

    def placed(self, what):
        """All of the module is where it was put."""
        for kind, ts in (("parameter", self.m.named_parameters()), ("buffer", self.m.named_buffers())):
            for n, t in ts:
                if t.is_floating_point() and t.numel():
                    if far.is_far(t) != (self.where == "far"):
                        raise Violation(f"{what}: {kind} {n} is on {t.device}")
                    if t.dtype != DT[self.dt]:
                        raise Violation(f"{what}: {kind} {n} is of type {t.dtype}")
        self.ctx.count("placed")

    def move(self, k, what):
        self.ctx.count("m:" + ("type" if k in DT else k))
        if k in ("far", "near"):
            self.where = k
            self.m.to(self.device())
            self.placed(what)
        elif k in DT:
            self.dt, self.rounded = k, self.rounded or k != self.dt
            self.m.to(DT[k])
            self.placed(what)
        elif k == "warm":
            shape = (self.case["B"], self.z["c"], *self.z["S"])
            if hasattr(self.m, "warm_up") and self.still.delay <= zoo.max_T(self.z["spec"]):
                with self.place:
                    self.m.warm_up(shape)
                self.still.warm_up(shape)
        elif k == "clean":
            with self.place:
                self.m.clean_state()
            self.still.clean_state()
        else:
            m = self.build()
            to = dict(m.named_modules())
            for n, mod in self.m.named_modules():
                get = getattr(mod, "get_state", None)
                if get is None or isinstance(mod, (co.Sequential, co.Parallel, co.Conditional)):
                    continue
                state = get()
                if state is not None:
                    to[n].set_state(state)
                    self.ctx.count("carried")
            self.m = m

    def input(self, x):
        return x.to(device=self.device(), dtype=DT[self.dt])

    def check(self, got, exp, what):
        """Outputs of the module which moves against those of the other."""
        if len(got) != len(exp):
            raise Violation(f"{what}: {len(got)} outputs, expected {len(exp)}")
        for a, b in zip(got, exp):
            for t in far.tree_flatten(a)[0]:
                if far.is_far(t) != (self.where == "far"):
                    raise Violation(f"{what}: an input on {self.device()} gives an output on {t.device}")
                if t.dtype != DT[self.dt]:
                    raise Violation(f"{what}: an input of type {self.dt} gives an output of type {t.dtype}")
                self.ctx.count("types", self.dt != self.case["dt"])
            a = far.tree_map(lambda t: t.to(DT[self.case["dt"]]), far.near(util.copy_out(a)))
            if self.dt in ("f16", "bf16"):
                if a.shape != b.shape:
                    raise Violation(f"{what}: output of shape {tuple(a.shape)}, expected {tuple(b.shape)}")
                self.ctx.count("short_frames")
                continue
            util.expect(a, b, what, zoo.rtol(self.z["spec"], "f32" if self.rounded else self.case["dt"]) * (3 if self.rounded else 1))
            self.ctx.count("out_frames")
            self.ctx.count("far_frames", self.where == "far")


def call(m, op, x, kw):
    if op == "s":
        o = m.forward_step(x[:, :, 0], **kw)
        return [] if o is None else [util.copy_out(o)]
    if op == "p":
        kw = dict(kw, pad_end=True)
    o = m.forward_steps(x, **kw)
    if o is None:
        return []
    o = util.copy_out(o)
    return [o[:, :, i] for i in range(o.shape[2])]


def run(case, ctx):
    z = case["z"]
    x = zoo.stream(z, case["T"], case["seed"], "randn", case["B"], case["dt"])
    before = dict(far.SEEN)
    ctx.count("grad", case["grad"])
    ctx.count("context", case["start"] == "context")
    ctx.count("within", case["start"] == "within")
    elsewhere = 0
    with torch.set_grad_enabled(case["grad"]), far.devices():
        t = Twin(case, ctx)
        t.placed("after building")
        place = t.place
        at = 0
        for i, (op, n) in enumerate([*case["calls"], (None, 0)]):
            for k in case["plan"][i]:
                t.move(k, f"{k} at step {at}")
                ctx.count("running", at > 0 and k in ("far", "near", "f32", "f64"))
            if not op:
                break
            what = f"{op}{n} at step {at}, on {t.device()} in {t.dt}"
            xs = x[:, :, at : at + n]
            for kw in [dict(update_state=False)] * case["peek"][i] + [{}]:
                exp = call(t.still, op, xs, kw)
                with place:
                    got = call(t.m, op, t.input(xs), kw)
                t.check(got, exp, what + (", peek" if kw else ""))
                ctx.count("peeks", bool(kw))
                ctx.count("none_calls", not got)
                elsewhere += len(got) if t.where == "far" or t.rounded else 0
            ctx.count("padded", op == "p")
            at += n
        n = min(int(t.still.receptive_field) + zoo.span(z)[0] + 3, zoo.max_T(z["spec"]))
        xf = zoo.stream(z, n, case["seed"] + 5, "randn", case["B"], case["dt"])
        try:
            exp = zoo.fwd(t.still, xf)
        except RuntimeError:
            exp = None  # too short for this network
        if exp is not None:
            with place:
                got = zoo.fwd(t.m, t.input(xf))
            t.check([got], [exp.detach()], f"forward, on {t.device()} in {t.dt}")
            ctx.count("forwards")
        if hasattr(t.still, "_forward_step") and hasattr(t.m, "_forward_step"):
            here, there = None, None  # with the state in the hands of the caller
            for i in range(min(case["T"], 12)):
                f = x[:, :, i]
                exp, here = t.still._forward_step(f, prev_state=here)
                with place:
                    got, there = t.m._forward_step(t.input(f), prev_state=there)
                t.check(*[[] if not isinstance(o, torch.Tensor) else [util.copy_out(o)] for o in (got, exp)],
                        f"threaded step {i}, on {t.device()} in {t.dt}")
                ctx.count("threaded")
        if case["short"]:
            t.move(case["short"], f"{case['short']} at step {at}")
            y = zoo.stream(z, sum(n for _, n in case["cut"]), case["seed"] + 6, "randn", case["B"], case["dt"])
            for op, n in case["cut"]:
                exp = call(t.still, op, y[:, :, :n], {})
                t.check(call(t.m, op, t.input(y[:, :, :n]), {}), exp, f"{op}{n} after step {at}, on {t.device()} in {t.dt}")
                y = y[:, :, n:]
    if case["auto"]:
        mixed(case, x, ctx)
    ctx.count("far_ops", far.SEEN["far_ops"] - before["far_ops"])
    return elsewhere > 0


@torch.no_grad()
def mixed(case, x, ctx):
    """The same stream with automatic mixed precision."""
    z = case["z"]
    x = x.float()
    plain, mixed = (zoo.make(z, case["seed"], "f32", style=case["style"])[0].float() for _ in range(2))
    at = 0
    for op, n in case["calls"]:
        what = f"{op}{n} at step {at} in autocast"
        exp = call(plain, op, x[:, :, at : at + n], {})
        with torch.autocast("cpu", dtype=torch.bfloat16):
            got = call(mixed, op, x[:, :, at : at + n], {})
        if [tuple(t.shape) for t in got] != [tuple(t.shape) for t in exp]:
            raise Violation(f"{what}: outputs {[tuple(t.shape) for t in got]}, without it {[tuple(t.shape) for t in exp]}")
        for g, e in zip(got, exp):
            if g.dtype not in (torch.float32, torch.bfloat16):
                raise Violation(f"{what}: output of type {g.dtype}")
            if z["spec"]["k"] != "seq" and "c" not in z["spec"]:  # a single module; rounding does not build up
                util.expect(g.float(), e, what, 0.1)
                ctx.count("mixed_values")
            ctx.count("mixed_frames")
        at += n
