"""Streams driven by several threads at once, under chosen interleavings."""
import copy

import torch

import continual as co

from . import nets, util, zoo
from .core import Violation
from .threads import Schedule

CASES = {"quick": 900, "thorough": 30000}
RULE = ("two to four threads, each with a module or network of its own (built alike, copies of one which runs, with tied parameters, or all "
        "different) or with states of their own for a shared one, run random programs: calls by name, by contexts (nested, left by exceptions) and by attribute, forward, peeks, "
        "clean starts, plain and flattened state dicts, conversion and construction; one thread runs at a time and hands over "
        "between random lines of the library, or after one to five lines each (lockstep); non-trivial: a switch happened within calls and outputs were given")
REACH = {"out_frames": 1500, "switches": 2500, "threads": 700, "o:context": 400, "o:attr": 150, "o:flat": 150, "o:convert": 80, "o:fail": 80,
         "o:forward": 150, "o:clean": 80, "held": 40}


def program(r, z):
    k, s = zoo.span(z)
    T = min(r.choice([k, 2 * k + s, k + 3 * s, r.randint(1, 15)]), 25)
    ops = []
    for op, n in zoo.rand_cut(r, T, zoo.max_T(z["spec"])):
        ops.append([r.choice(["name", "context", "context", "attr", "nested"]), op, n, r.random() < 0.15])
        while r.random() < 0.4:
            ops.append([r.choice(["forward", "forward", "flat", "flat", "plain", "convert", "build", "fail", "clean", "repr"])])
    return ops


def shared(r, z):
    """A program which leaves the state of the module alone."""
    k, s = zoo.span(z)
    ops = []
    for _ in range(min(r.choice([k, 2 * k + s, r.randint(1, 15)]), 25)):
        ops.append(["explicit", "s", 1, False])
        while r.random() < 0.3:
            ops.append([r.choice(["forward", "forward", "forward", "keys", "repr", "build"])])
    return ops


def some(r):
    if r.random() < 0.3:
        spec = r.choice([lambda: zoo.rand_mha(r, t="single"), lambda: zoo.rand_mha(r, t="retro"), lambda: zoo.rand_enc(r), lambda: zoo.rand_rnn(r, 2)])()
        return dict(spec=spec, c=spec.get("e", 2), S=[])
    return zoo.rand_any(r, 0.5, gates=True)


def generate(r, tier, idx):
    how = r.choice(["alike", "copies", "tied", "different", "shared"])
    n = r.choice([2, 2, 3, 4])
    z = some(r)
    zs = [some(r) if how == "different" else z for _ in range(n)]
    return dict(how=how, zs=zs, B=r.choice([1, 2]), style=r.randint(0, 99), programs=[(shared if how == "shared" else program)(r, i) for i in zs],
                past=r.choice([0, 1, r.randint(0, zoo.span(z)[0])]), p=r.choice([0.01, 0.03, 0.1, 0.3, 0.7]),
                quantum=r.choice([None, None, 1, 1, 2, 3, 5]),
                held=r.choice([None, None, None, "forward_step", "forward_steps", "flat"]), sched=r.randint(0, 10**9))


MODE = {"s": "forward_step", "m": "forward_steps"}


def frames(op, o):
    if o is None:
        return []
    o = util.copy_out(o)
    return [o] if op == "s" else [o[:, :, i] for i in range(o.shape[2])]


class Client:
    """One stream: a module and what is done with it."""

    def __init__(self, m, z, prog, x, tag):
        self.m, self.z, self.prog, self.x, self.tag = m, z, prog, x, tag

    @torch.no_grad()
    def __call__(self):
        """Returns what was observed, by step of the program."""
        seen, at = [], 0
        for st in self.prog:
            if len(st) > 1:
                _, op, n, peek = st
                x = self.x[:, :, at : at + n]
                seen.append([self.call(st[0], op, x, dict(update_state=False))] if peek else [])
                seen[-1].append(self.call(st[0], op, x, {}))
                at += n
            else:
                seen.append(getattr(self, "do_" + st[0])())
        return seen

    state = None

    def call(self, how, op, x, kw):
        a = x[:, :, 0] if op == "s" else x
        if how == "explicit":
            o, self.state = self.m._forward_step(a, prev_state=self.state)
            return frames(op, o)
        if how == "context" and not kw:
            with co.call_mode(MODE[op]):
                return frames(op, self.m(a))
        if how == "nested" and not kw:
            with co.call_mode("forward"):
                with co.call_mode(MODE[op]):
                    o = frames(op, self.m(a))
                return o
        if how == "attr" and not kw and co.CoModule in type(self.m).__mro__:
            self.m.call_mode = MODE[op]
            o = frames(op, self.m(a))
            self.m.call_mode = "forward"
            return o
        return frames(op, getattr(self.m, MODE[op])(a, **kw))

    def do_forward(self):
        n = min(int(self.m.receptive_field) + zoo.span(self.z)[0] + 3, zoo.max_T(self.z["spec"]))
        x = zoo.stream(self.z, n, self.tag, "randn", 1)
        try:
            return [[zoo.fwd(self.m, x)]]
        except RuntimeError:  # too short
            return [[]]

    def do_flat(self):
        with co.flat_state_dict:
            d = self.m.state_dict()
            self.m.load_state_dict({k: v.clone() for k, v in d.items()})
            with co.flat_state_dict:
                pass
            e = self.m.state_dict()
        return [list(d), list(e)]

    def do_plain(self):
        d = self.m.state_dict()
        self.m.load_state_dict({k: v.clone() for k, v in d.items()})
        return [list(d)]

    def do_keys(self):
        return [list(self.m.state_dict())]

    def do_repr(self):
        return [len(repr(self.m))]

    def do_clean(self):
        self.m.clean_state()
        return []

    def do_convert(self):
        m = co.continual(torch.nn.Sequential(torch.nn.Conv1d(2, 2, 3), torch.nn.ReLU(), torch.nn.Sequential(torch.nn.AvgPool1d(2, stride=1)))).double()
        return self.small(m)

    def do_build(self):
        m = co.Sequential(co.Residual(co.Conv1d(2, 2, 3, padding=1)), co.Delay(1)).double()
        return self.small(m)

    def small(self, m):
        for i, p in enumerate(m.parameters()):
            p.copy_(((torch.arange(p.numel(), dtype=p.dtype) * (i + 3)) % 5 - 2).view_as(p))
        x = util.data((1, 2, 6), self.tag)
        with co.call_mode("forward_steps"):
            a = m(x[:, :, :4])
        with co.call_mode("forward_step"):
            b = m(x[:, :, 4])
        return [frames("m", a), frames("s", b), [m.forward(x)], list(m.state_dict())]

    def do_fail(self):
        try:
            with co.call_mode("forward_step"):
                self.m(None)  # a module need not go on after a call which failed
        except Exception:
            pass
        try:
            with co.flat_state_dict:
                raise KeyError
        except KeyError:
            pass
        self.m.clean_state()
        return []


def clients(case):
    """The modules and programs, built anew."""
    zs = case["zs"]
    first = None
    for i, z in enumerate(zs):
        m, _ = zoo.make(z, case["seed"] + (i if case["how"] == "different" else 0), style=case["style"])
        if case["how"] == "shared":
            m = first = first or m
        if case["how"] in ("copies", "tied"):
            if first is None:
                first = m
                with torch.no_grad():
                    zoo.drive(m, zoo.stream(z, case["past"], case["seed"] + 7, "randn", case["B"]), [["s", 1]] * case["past"])
                origin = m
            m = copy.deepcopy(origin)
            if case["how"] == "tied":
                mods = dict(m.named_modules())
                for name, p in list(origin.named_parameters()):
                    path, _, leaf = name.rpartition(".")
                    setattr(mods[path], leaf, p)
        yield Client(m, z, case["programs"][i], zoo.stream(z, sum(s[2] for s in case["programs"][i] if len(s) > 1), case["seed"] + 20 + i, "randn", case["B"]),
                     case["seed"] + 40 + i)


def neutral(what):
    """Nothing is selected."""
    m = co.Sequential(co.Conv1d(1, 1, 2), co.Sequential(co.Conv1d(1, 1, 2)))
    with torch.no_grad():
        o = m(torch.zeros(1, 1, 5))
    if o is None or o.shape[2] != 3:
        raise Violation(f"{what}: a call without a selected mode does not run forward")
    if list(m.state_dict()) != ["0.weight", "0.bias", "1.0.weight", "1.0.bias"]:
        raise Violation(f"{what}: state dicts are {list(m.state_dict())}")


def agree(a, b, what, rtol):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            raise Violation(f"{what}: {len(a)} results, alone {len(b)}")
        for x, y in zip(a, b):
            agree(x, y, what, rtol)
    elif isinstance(a, torch.Tensor):
        util.expect(a, b, what, rtol)
    elif a != b:
        raise Violation(f"{what}: {a!r}, alone {b!r}")


def run(case, ctx):
    alone = [c() for c in clients(case)]
    cs = list(clients(case))
    sched = Schedule(case["sched"], case["p"], case["quantum"])

    def guarded(c):
        def work():
            try:
                return "ok", c()
            except BaseException as e:
                return "error", e
        return work

    held = case["held"]
    if held:
        with co.flat_state_dict if held == "flat" else co.call_mode(held):
            got = sched.run([guarded(c) for c in cs])
        ctx.count("held")
    else:
        got = sched.run([guarded(c) for c in cs])
    n_out = 0
    for i, (g, e) in enumerate(zip(got, alone)):
        if g[0] == "error":
            raise g[1]
        for j, (a, b) in enumerate(zip(g[1], e)):
            st = case["programs"][i][j]
            agree(a, b, f"thread {i} of {len(cs)} ({case['how']}), step {j} of its program ({st})", zoo.rtol(case["zs"][i]["spec"], "f64"))
            ctx.count("o:" + st[0])
            if len(st) > 1:
                ctx.count("out_frames", len(a[-1]))
                n_out += len(a[-1])
        ctx.count("threads")
    neutral("after all threads have ended")
    ctx.count("switches", sched.switches)
    ctx.count("points", sched.points)
    ctx.count("let_go", sched.free)
    ctx.count("schedules")
    ctx.count("lockstep" if case["quantum"] else "at_random")
    ctx.count("t:" + case["how"])
    for z in case["zs"]:
        for k in set(nets.kinds(z["spec"])):
            ctx.count("k:" + k)
    return n_out > 0 and sched.switches > 0
