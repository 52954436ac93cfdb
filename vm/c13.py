"""Calling a module runs the selected mode: random programs of contexts and attributes."""
import torch

import continual as co

from . import nets, probes, util, zoo
from .core import Violation, ambient

MODES = ["forward", "forward_steps", "forward_step"]
CASES = {"quick": 3000, "thorough": 90000}
RULE = ("random programs over one to three modules or networks (every kind, converted torch.nn modules "
        "and user modules which record their executed mode included): nested co.call_mode contexts "
        "left normally, by exceptions, returns, breaks and closed generators, rejected modes, call_mode "
        "attributes by name (any case), index or tensor, module calls, explicitly named methods and "
        "failing calls; the logged calls are replayed by explicit methods on twins without contexts; "
        "non-trivial: calls ran inside nested contexts or under attributes")
REACH = {"calls": 8000, "in_context": 3000, "nested_context": 800, "by_attribute": 800, "explicit_in_context": 800,
         "left_by_exception": 300, "failed_calls": 200, "rejected_modes": 200, "probe_executions": 3000,
         "mode_forward": 1500, "mode_forward_steps": 1500, "mode_forward_step": 1500, "attr_children": 100, "attr_converted": 20,
         "converted_calls": 500}


def selector(r, mode):
    """A way to name a mode."""
    how = r.choice(["name", "name", "upper", "title", "mixed", "int"])
    if how == "int":
        return MODES.index(mode)
    if how == "mixed":
        return "".join(c.upper() if r.random() < 0.5 else c for c in mode)
    return {"name": mode, "upper": mode.upper(), "title": mode.title()}[how]


def add_probes(r, spec, n=0):
    """Put recording modules into the sequences of a network."""
    for s in list(nets.walk(spec)):
        if s["k"] == "seq" and r.random() < 0.8:
            s["c"].insert(r.randint(0, len(s["c"])), dict(k="probe", name=f"p{n}"))
            n += 1
        if s["k"] == "br" and r.random() < 0.3 and s["red"] != "concat" and not s.get("named"):
            i = r.randrange(len(s["c"]))
            s["c"][i] = dict(k="seq", c=[dict(k="probe", name=f"p{n}"), s["c"][i]])
            n += 1
    return spec


def rand_module(r):
    o = r.random()
    if o < 0.2:
        nd = r.choice([1, 2, 3])
        c = r.choice([1, 2])
        spec = r.choice([dict(k="bn", nd=nd, c=c), dict(k="local", nd=nd + 2), dict(k="local", nd=nd + 2),
                         dict(k="probe", name="top"), dict(k="act", f=r.choice(sorted(nets.ACTS)))])
        return dict(spec=spec, c=c, S=[3] * (nd - 1))
    z = zoo.rand_any(r, 0.45)
    z["spec"] = add_probes(r, z["spec"])
    return z


def body(r, depth, n_mod, size):
    ops = []
    for _ in range(size):
        o = r.choice(["call"] * 4 + ["ctx"] * 3 + ["attr", "attr", "explicit", "fail", "bad", "nest_fn"])
        m = r.randrange(n_mod)
        if o == "ctx":
            if depth == 0:
                continue
            mode = r.choice(MODES)
            ops.append(dict(op="ctx", sel=selector(r, mode), mode=mode,
                            exit=r.choice(["normal", "normal", "raise", "raise", "return", "gen", "base"]),
                            body=body(r, depth - 1, n_mod, r.randint(1, 3))))
        elif o == "attr":
            mode = r.choice(MODES)
            ops.append(dict(op="attr", m=m, sel=selector(r, mode), mode=mode))
        elif o == "bad":
            ops.append(dict(op="bad", m=m, attr=r.random() < 0.5,
                            sel=r.choice(["forwards", "step", "", 3, 17])))
        elif o == "nest_fn":
            ops.append(dict(op="nest_fn", mode=r.choice(MODES), outer=r.choice(MODES)))
        else:
            ops.append(dict(op=o, m=m, mode=r.choice(MODES), n=r.randint(1, 6), up=r.random() < 0.85,
                            pad=r.random() < 0.1))
    return ops


def generate(r, tier, idx):
    zs = [rand_module(r) for _ in range(r.choice([1, 1, 2, 3]))]
    return dict(zs=zs, prog=body(r, 3, len(zs), r.randint(3, 8)), style=r.randint(0, 99),
                kind=r.choice(["randn", "randn", "small", "neg"]), B=r.choice([1, 2]))


class Leave(Exception):
    pass


class BaseLeave(BaseException):
    pass


class Machine:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.z = case["zs"]
        self.m = [zoo.make(z, case["seed"] + i, style=case["style"])[0] for i, z in enumerate(self.z)]
        self.attr = ["forward"] * len(self.m)
        self.stack = []  # what should be selected
        self.log = [[] for _ in self.m]
        self.n_in = 0
        self.t = 0

    # -- inputs
    def input(self, i, mode, n):
        z = self.z[i]
        k, s = zoo.span(z)
        if mode == "forward":
            n = k + n - 1
            if zoo.has(z["spec"], "mha", "enc"):
                n = max(n, 2)
        n = min(n, zoo.max_T(z["spec"]))
        self.t += 1
        x = zoo.stream(z, n, self.case["seed"] + self.t, self.case["kind"], self.case["B"])
        return x[:, :, 0] if mode == "forward_step" else x

    def kwargs(self, i, mode, o):
        if mode == "forward" or o["up"]:
            kw = {}
        else:
            kw = dict(update_state=False)
        if mode == "forward_steps" and o["pad"] and not zoo.has(self.z[i]["spec"], "mha", "enc"):
            kw["pad_end"] = True
        return kw

    # -- what should happen
    def selected(self, i):
        return self.stack[-1] if self.stack else self.attr[i]

    def where(self):
        return f"contexts {self.stack}, attributes {self.attr}"

    def record(self, i, mode, x, kw, f, what):
        probes.take()
        before = self.where()
        try:
            got = util.copy_out(f())
            err = None
        except (Leave, BaseLeave):
            raise
        except Exception as e:
            got, err = None, e
        self.log[i].append((mode, x, kw, got, err, f"{what} with {before}", probes.take()))

    # -- program
    def run(self, ops):
        for o in ops:
            getattr(self, "op_" + o["op"])(o)

    def op_call(self, o):
        i = o["m"]
        mode = self.selected(i)
        if mode == "forward" and self.z[i].get("nofwd"):
            return
        x, kw = self.input(i, mode, o["n"]), self.kwargs(i, mode, o)
        self.record(i, mode, x, kw, lambda: self.m[i](x, **kw), f"module call of mode {mode}")
        self.ctx.count("calls")
        self.ctx.count("mode_" + mode)
        self.ctx.count("in_context", bool(self.stack))
        self.ctx.count("nested_context", len(self.stack) > 1)
        self.ctx.count("by_attribute", not self.stack and mode != "forward")
        self.ctx.count("converted_calls", self.z[i]["spec"]["k"] in ("bn", "local", "act"))

    def op_explicit(self, o):
        i, mode = o["m"], o["mode"]
        if mode == "forward" and self.z[i].get("nofwd"):
            return
        sel = self.selected(i)
        if mode == "forward" and sel != "forward" and self.converted(i):
            return self.converted_forward(i, sel, o)
        x, kw = self.input(i, mode, o["n"]), self.kwargs(i, mode, o)
        self.record(i, mode, x, kw, lambda: getattr(self.m[i], mode)(x, **kw), f"explicit {mode}")
        self.ctx.count("explicit_in_context", bool(self.stack))

    def converted(self, i):
        return self.z[i]["spec"]["k"] in ("bn", "local", "act")

    def converted_forward(self, i, sel, o):
        """Known finding: forward of a converted torch.nn module follows the selected mode."""
        x = self.input(i, "forward", o["n"])
        m = self.m[i]
        with torch.no_grad():
            def attempt(f):
                try:
                    return util.copy_out(f())
                except Exception as e:
                    return type(e)

            got = attempt(lambda: m.forward(x))
            predicted = attempt(lambda: getattr(m, sel)(x))
        mode, m2 = "forward", zoo.make(self.z[i], self.case["seed"] + i, style=self.case["style"])[0]
        with co.call_mode("forward"):
            right = attempt(lambda: m2(x))
        if isinstance(got, torch.Tensor) and isinstance(right, torch.Tensor) and util.same(got, right):
            return
        same = got is predicted if isinstance(got, type) else (
            not isinstance(predicted, type) and util.same(got, predicted))
        what = f"explicit forward of a converted {self.z[i]['spec']} with {self.where()}"
        if not same:
            raise Violation(f"{what} gave neither forward nor the selected mode")
        self.ctx.finding("converted-forward-in-context", "forward() of a converted torch.nn module, called by "
                         "name while a step mode is selected, runs the selected mode")

    def op_attr(self, o):
        i = o["m"]
        self.m[i].call_mode = o["sel"]
        self.attr[i] = o["mode"]
        want = MODES.index(o["mode"])

        def check(m, what):
            if not co.CoModule.is_valid(m):
                return
            if not isinstance(m, co.CoModule):
                if what == "module":
                    return  # a plain attribute there
                self.ctx.count("attr_converted")
            if int(m.call_mode) != want:
                raise Violation(f"call_mode of {what} reads {m.call_mode} after being set to {o['sel']!r}")
            if isinstance(m, (co.Sequential, co.BroadcastReduce, co.Parallel)):
                for n, c in m.named_children():
                    self.ctx.count("attr_children")
                    check(c, f"{what}.{n}")

        check(self.m[i], "module")

    def op_bad(self, o):
        try:
            if o["attr"]:
                if not isinstance(self.m[o["m"]], co.CoModule):
                    return  # a plain attribute there
                self.m[o["m"]].call_mode = o["sel"]
            else:
                with co.call_mode(o["sel"]):
                    pass
        except Exception:
            self.ctx.count("rejected_modes")
            return
        raise Violation(f"call mode {o['sel']!r} was accepted")

    def op_fail(self, o):
        """A call which is rejected; nothing but the selection is looked at afterwards."""
        i = o["m"]
        self.ctx.count("failed_calls")
        try:
            self.m[i]([object()])
        except Exception:
            pass
        # What it consumed before failing is not judged here
        self.m[i].clean_state()
        self.log[i].append(None)

    def op_ctx(self, o):
        n = len(self.stack)

        def enter():
            self.stack.append(o["mode"])
            self.run(o["body"])

        try:
            if o["exit"] == "gen":
                def g():
                    with co.call_mode(o["sel"]):
                        enter()
                        yield 1
                it = g()
                next(it)
                it.close()
            elif o["exit"] == "return":
                def f():
                    for _ in range(2):
                        with co.call_mode(o["sel"]):
                            enter()
                            return 1
                f()
            else:
                with co.call_mode(o["sel"]):
                    enter()
                    if o["exit"] == "raise":
                        raise Leave
                    if o["exit"] == "base":
                        raise BaseLeave
        except (Leave, BaseLeave):
            self.ctx.count("left_by_exception")
        del self.stack[n:]

    def op_nest_fn(self, o):
        """A user function inside a network which itself selects a mode for another module."""
        inner = probes.Probe("inner")

        def fn(x):
            with co.call_mode(o["mode"]):
                inner(x)
            with co.call_mode("forward"):
                pass
            return x + 1.0

        net = co.Sequential(probes.Probe("a"), co.Lambda(fn, takes_time=True), probes.Probe("b"))
        x = torch.ones(1, 1, 3)
        probes.take()
        if o["outer"] == "forward_step":
            x = x[:, :, 0]
        getattr(net, o["outer"])(x)
        seen = [(n, m) for n, m, _ in probes.take()]
        exp = [("a", o["outer"]), ("inner", o["mode"]), ("b", o["outer"])]
        if seen != exp:
            raise Violation(f"explicit {o['outer']} with {self.where()}: executed {seen}, expected {exp}")


@ambient
def run(case, ctx):
    mc = Machine(case, ctx)
    mc.run(case["prog"])
    # nothing may be left selected
    for i, z in enumerate(mc.z):
        for n in (2, 1):
            for up in (True, False):
                mc.op_call(dict(m=i, n=n + 2, up=up, pad=False))
    # Offline: the same calls by explicit methods on twins
    for i, z in enumerate(mc.z):
        m = zoo.make(z, case["seed"] + i, style=case["style"])[0]
        rtol = zoo.rtol(z["spec"], "f64")
        for j, entry in enumerate(mc.log[i]):
            if entry is None:
                m.clean_state()
                continue
            mode, x, kw, got, err, what, seen = entry
            probes.take()
            f = getattr(m, mode)
            try:
                exp, eerr = util.copy_out(f(x, **kw)), None
            except Exception as e:
                exp, eerr = None, e
            if (err is None) != (eerr is None):
                raise Violation(f"call {j} of module {i}, {what}: raised {err!r}, the method raises {eerr!r}")
            util.expect(got, exp, f"call {j} of module {i}, {what}", rtol)
            ran = probes.take()
            if seen != ran:
                raise Violation(f"call {j} of module {i}, {what}: executed {seen}, expected {ran}")
            for name, md, nd in seen:
                if md != "local" and md != mode:
                    raise Violation(f"call {j} of module {i}, {what}: {name} executed {md}")
                ctx.count("probe_executions")
    return any(mc.log)
