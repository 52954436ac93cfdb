"""Hooks see every execution of a nested module once, with the values passed and returned."""
import contextlib
import copy
import io

import torch
from torch.nn.modules import module as tm

import continual as co

from . import c20, nets, util, zoo
from .core import Violation

MODES = {"f": "forward", "m": "forward_steps", "s": "forward_step"}
CASES = {"quick": 2000, "thorough": 60000}
RULE = ("random networks with hooks on all or some nested modules (forward and pre-hooks, with and without kwargs, "
        "global ones), called in all modes (context, attribute, explicit method, peeks, pad_end) while every execution "
        "of a nested module is recorded independently of hooks: pre-hook, execution and hook must alternate with the "
        "same values and values must flow as the containers promise; hooks which replace values are compared with "
        "networks that have the same function as a module; backward hooks with tensor hooks; ptflops with the sum over "
        "the executions recorded in a twin; non-trivial: nested executions were seen")
REACH = {"measured": 5, "only_gbackward": 15, "global_backward": 40, "executions": 20000, "pre": 15000, "post": 15000, "kwargs_hooks": 2000, "global_hooks": 2000, "only_gpre": 30, "only_gpost": 30, "replaced": 400,
         "flops": 150, "backward_events": 1500, "cut_short": 500, "seq_checked": 2000, "br_checked": 400,
         "cond_checked": 100, "mode_f": 500, "mode_s": 700, "mode_m": 1500, "removed": 80,
         "kind_trace": 400, "kind_replace": 200, "kind_flops": 100, "kind_backward": 150}
ASSUMPTIONS = ["ptflops' own counting functions are the specification of the cost of one execution"]


# ---------------------------------------------------------------- recording of executions
def same(a, b):
    if a is b:
        return True
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        return a.shape == b.shape and a.dtype == b.dtype and torch.equal(
            torch.nan_to_num(a, nan=7.25), torch.nan_to_num(b, nan=7.25))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and not isinstance(a, torch.Tensor) and a == b


class Frame:
    def __init__(self, mod, name, method, args, kwargs):
        self.mod, self.name, self.method, self.args, self.kwargs = mod, name, method, args, kwargs
        self.out = None
        self.kids = []      # finished executions of nested modules
        self.pending = {}   # observer -> (module, args, kwargs) whose pre-hook ran
        self.seen = set()   # observers whose hook saw this execution


class Recorder:
    """Wraps the methods of all nested modules and offers hooks that are checked against the executions."""

    def __init__(self, net, ctx=None):
        self.ctx = ctx
        self.names = {m: n or "net" for n, m in net.named_modules()}
        self.cover = {}     # observer -> (set of modules with pre-hook, set with hook)
        self.stack = [Frame(None, "caller", None, (), {})]
        self.handles = []
        for m in self.names:
            for method in ("forward", "forward_step", "forward_steps", "_forward_step"):
                f = getattr(m, method, None)
                if f is not None:
                    object.__setattr__(m, method, self.wrap(m, method, f))

    def wrap(self, mod, method, f):
        def run(*args, **kwargs):
            if any(fr.mod is mod for fr in self.stack):
                return f(*args, **kwargs)  # the module uses its own methods
            top = self.stack[-1]
            fr = Frame(mod, self.names[mod], method, args, kwargs)
            for o, (pre, _) in self.cover.items():
                if mod in pre and not (len(self.stack) == 1 and self.explicit):
                    got = top.pending.pop(o, None)
                    if got is None or got[0] is not mod:
                        raise Violation(f"{fr.name} runs without its pre-hook ({o})")
                    if not same(got[1], args):
                        raise Violation(f"the pre-hook ({o}) of {fr.name} saw other inputs than passed")
                    if got[2] is not None and not same(got[2], kwargs):
                        raise Violation(f"the pre-hook ({o}) of {fr.name} saw kwargs {got[2]}, passed {kwargs}")
            self.stack.append(fr)
            try:
                fr.out = f(*args, **kwargs)
            finally:
                self.stack.pop()
            self.closed(fr)
            top.kids.append(fr)
            if self.ctx:
                self.ctx.count("executions")
            return fr.out
        return run

    def closed(self, fr):
        for o, (mod, *_) in fr.pending.items():
            raise Violation(f"the pre-hook ({o}) of {self.names[mod]} ran, but not the module")
        for k in fr.kids:
            for o, (_, post) in self.cover.items():
                if k.mod in post and o not in k.seen and not (fr.mod is None and self.explicit):
                    raise Violation(f"{k.name} ran ({k.method}) without its hook ({o})")
        check_flow(fr, self.ctx)

    def pre(self, o, mod, args, kwargs=None):
        top = self.stack[-1]
        if o in top.pending:
            raise Violation(f"the pre-hook ({o}) of {self.names[mod]} ran twice or for a module that is not executed")
        top.pending[o] = (mod, args, kwargs)
        if self.ctx:
            self.ctx.count("pre")
            self.ctx.count("kwargs_hooks", kwargs is not None)

    def post(self, o, mod, args, out, kwargs=None):
        kids = self.stack[-1].kids
        k = kids[-1] if kids else None
        if k is None or k.mod is not mod:
            raise Violation(f"the hook ({o}) of {self.names[mod]} ran, but not the module")
        if o in k.seen:
            raise Violation(f"the hook ({o}) of {self.names[mod]} ran twice for one execution")
        if not same(args, k.args):
            raise Violation(f"the hook ({o}) of {self.names[mod]} saw other inputs than passed")
        if not same(out, k.out):
            raise Violation(f"the hook ({o}) of {self.names[mod]} saw another output than returned")
        if kwargs is not None and not same(kwargs, k.kwargs):
            raise Violation(f"the hook ({o}) of {self.names[mod]} saw kwargs {kwargs}, passed {k.kwargs}")
        k.seen.add(o)
        if self.ctx:
            self.ctx.count("post")

    def observe(self, o, mods, pre=True, post=True, kwargs=False):
        self.cover[o] = (set(mods) if pre else set(), set(mods) if post else set())
        kw = dict(with_kwargs=True) if kwargs else {}
        for m in mods:
            if pre:
                f = (lambda mod, i, k: self.pre(o, mod, i, k)) if kwargs else (lambda mod, i: self.pre(o, mod, i))
                self.handles.append(m.register_forward_pre_hook(f, **kw))
            if post:
                f = ((lambda mod, i, k, out: self.post(o, mod, i, out, k)) if kwargs
                     else (lambda mod, i, out: self.post(o, mod, i, out)))
                self.handles.append(m.register_forward_hook(f, **kw))

    def observe_global(self, o="global"):
        with_pre, with_post = o != "gpost", o != "gpre"
        self.cover[o] = (set(self.names) if with_pre else set(), set(self.names) if with_post else set())

        def pre(mod, i):
            if self.ctx:
                self.ctx.count("global_hooks")
            if mod in self.names:
                self.pre(o, mod, i)

        def post(mod, i, out):
            if mod in self.names:
                self.post(o, mod, i, out)

        if with_pre:
            self.handles.append(tm.register_module_forward_pre_hook(pre))
        if with_post:
            self.handles.append(tm.register_module_forward_hook(post))

    def remove(self):
        for h in self.handles:
            h.remove()
        self.handles = []
        self.cover = {}

    explicit = False

    def root(self, explicit, f):
        """Run a call; explicit: by name of a method, for which the module's own hooks do not run."""
        self.explicit = explicit
        self.stack = [Frame(None, "caller", None, (), {})]
        out = f()
        top = self.stack[0]
        self.closed(top)
        if len(top.kids) != 1:
            raise Violation(f"a call executed {len(top.kids)} modules")
        return out, top.kids[0]


def check_flow(fr, ctx):
    """Values flow between the executions nested in an execution of a container as it promises."""
    kids = fr.kids
    if type(fr.mod) is co.Sequential and len(fr.mod):
        mods = list(fr.mod)
        if [k.mod for k in kids] != mods[: len(kids)]:
            raise Violation(f"{fr.name} executed {[k.name for k in kids]}")
        if not kids:
            raise Violation(f"{fr.name} executed nothing")
        x = fr.args[0]
        for k in kids:
            if not same(k.args[0], x):
                raise Violation(f"{k.name} did not get the output of the module before it")
            x = k.out
            if fr.method == "forward" and isinstance(x, tuple):
                x = x[0]
        if len(kids) < len(mods):
            if not util.empty(x):
                raise Violation(f"{fr.name} executed only {len(kids)} of {len(mods)} modules")
            x = None
            if ctx:
                ctx.count("cut_short")
        if not (same(fr.out if not isinstance(fr.out, tuple) else fr.out[0], x) or util.empty(x) and util.empty(fr.out)):
            raise Violation(f"{fr.name} did not return the output of its last module")
        if ctx:
            ctx.count("seq_checked")
    elif type(fr.mod) is co.BroadcastReduce:
        if {k.mod for k in kids} != set(fr.mod) or len(kids) != len(fr.mod):
            raise Violation(f"{fr.name} executed {[k.name for k in kids]}")
        for k in kids:
            if not same(k.args[0], fr.args[0]):
                raise Violation(f"{k.name} did not get the input of {fr.name}")
        if any(util.empty(k.out) for k in kids) != util.empty(fr.out):
            raise Violation(f"{fr.name} returned {'nothing' if util.empty(fr.out) else 'an output'}")
        if ctx:
            ctx.count("br_checked")
    elif type(fr.mod) is co.Conditional:
        if len(kids) > 1:
            raise Violation(f"{fr.name} executed {[k.name for k in kids]}")
        if kids and not (same(kids[0].args[0], fr.args[0]) and same(kids[0].out, fr.out)):
            raise Violation(f"{fr.name} changed values")
        if ctx:
            ctx.count("cond_checked")


# ---------------------------------------------------------------- cases
def generate(r, tier, idx):
    kind = r.choice(["trace"] * 4 + ["replace"] * 3 + ["flops", "backward", "backward"])
    if kind == "flops":
        z = zoo.rand_any(r, 0.35, lambda s: not zoo.has(s, "rpe", "reshape", "lins"))
    else:
        z = nets.rand_net(r) if r.random() < 0.75 else zoo.rand_any(r, 1.0)
    spec = z["spec"]
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    for n in list(nets.walk(spec)):
        if n["k"] == "br" and not n.get("named") and kind != "flops" and r.random() < 0.25:
            n["long"] = True
    ops = []
    for op, n in zoo.rand_cut(r, k + 2 * s + r.randint(0, 3), mx):
        ops.append(dict(op=op, n=n, how=r.choice(["ctx", "ctx", "attr", "name"]), peek=r.random() < 0.2,
                        # branches may be padded to different lengths in the middle of a stream (C07)
                        pad=op == "m" and not zoo.has(spec, "br", "res", "cond", "mha", "enc") and r.random() < 0.25))
        if r.random() < 0.25 and not z.get("nofwd") and mx >= k:
            n = min(mx, k + r.randint(0, 3))
            if spec["k"] == "enc" or zoo.has(spec, "mha", "enc"):
                n = k
            ops.append(dict(op="f", n=n, how=r.choice(["ctx", "attr", "name"]), peek=False, pad=False))
    case = dict(kind=kind, z=z, B=r.choice([1, 2]), ops=ops, style=r.randint(0, 99), pick=r.randint(0, 10**6))
    if kind == "trace":
        case["obs"] = r.sample(["local", "kwargs", "global", "gpre", "gpost", "pre", "post"], r.choice([1, 1, 1, 2, 3]))
        case["part"] = r.random() < 0.3
        case["remove"] = r.randint(1, len(ops)) if r.random() < 0.35 else None
    if kind == "backward" and not zoo.has(spec, "rnn") and r.random() < 0.4:
        case["global"] = r.choice(["pre", "post", "both"])
    if kind == "replace":
        case["where"] = r.choice(["pre", "post", "both"])
        case["kw"] = r.random() < 0.3
    return case


def do(m, o, x, explicit=None):
    """A call as the operation says."""
    mode = MODES[o["op"]]
    kw = {} if o["op"] == "f" else dict(update_state=not o["peek"])
    if o["op"] == "m" and o["pad"]:
        kw["pad_end"] = True
    if o["op"] == "s":
        x = x[:, :, 0]
    if o["how"] == "name":
        return getattr(m, mode)(x, **kw)
    if o["how"] == "ctx":
        with co.call_mode(mode):
            return m(x, **kw)
    prev = m.call_mode
    m.call_mode = mode
    try:
        return m(x, **kw)
    finally:
        m.call_mode = prev


def inputs(case, n):
    return zoo.stream(case["z"], n, case["seed"], "randn", case["B"])


def run(case, ctx):
    ctx.count("kind_" + case["kind"])
    return {"trace": trace, "replace": replace, "flops": flops, "backward": backward}[case["kind"]](case, ctx)


def trace(case, ctx):
    z = case["z"]
    m = zoo.make(z, case["seed"], style=case["style"])[0]
    twin = zoo.make(z, case["seed"], style=case["style"])[0]
    rec = Recorder(m, ctx)
    g = util.gen(case["pick"])
    mods = list(rec.names)
    if case["part"]:
        mods = [q for q in mods if torch.rand((), generator=g) < 0.5] or mods[:1]
    for o in case["obs"]:
        if o[0] == "g":
            rec.observe_global(o)
            ctx.count("only_" + o, len(case["obs"]) == 1)
        else:
            rec.observe(o, mods, pre=o != "post", post=o != "pre", kwargs=o == "kwargs")
    x = inputs(case, sum(o["n"] for o in case["ops"]))
    n, t = 0, 0
    try:
        with torch.no_grad():
            for i, o in enumerate(case["ops"]):
                if case["remove"] == i:
                    rec.remove()
                    ctx.count("removed")
                xs = x[:, :, t : t + o["n"]]
                out, fr = rec.root(o["how"] == "name", lambda: do(m, o, xs))
                ctx.count("mode_" + o["op"])
                if fr.mod is not m:
                    raise Violation("another module than the called one was executed")
                exp = do(twin, o, xs)
                if util.empty(out) != util.empty(exp) or not util.empty(out) and not same(out, exp):
                    raise Violation(f"operation {i}: hooks changed the output")
                n += len(fr.kids)
                if o["op"] != "f" and not o["peek"]:
                    t += o["n"]
    finally:
        rec.remove()
    return n > 0 or not list(m.children())


class Marked(nets.Builder):
    """Remembers the module of every node."""

    def build(self, spec, wrap=False):
        m, f = super().build(spec, wrap)
        self.__dict__.setdefault("mods", {})[id(spec)] = m
        return m, f


SCALABLE = ("conv", "avg", "max", "aavg", "amax", "act", "bn", "lambda", "add", "mul", "ident", "linear", "delay",
            "skip", "rpe", "seq", "br", "res", "cond")


def replace(case, ctx):
    z = case["z"]
    spec = z["spec"]
    g = util.gen(case["pick"])
    ok = [s for s in nets.walk(spec) if s["k"] in SCALABLE]
    if not ok:
        return False
    b = Marked(case["seed"], style=case["style"])
    with torch.no_grad():
        m = b.build(spec, True)[0].eval()
    inside = set(m.modules())
    ok = [s for s in ok if b.mods[id(s)] in inside and sum(b.mods[id(s)] is b.mods[id(t)] for t in ok) == 1]
    if not ok:
        return False
    node = ok[int(torch.randint(len(ok), (), generator=g))]
    # The twin has modules in place of the hooks
    memo = {}
    spec2 = copy.deepcopy(spec, memo)
    node2 = memo[id(node)]
    inner = dict(node2)
    c = []
    if case["where"] != "post":
        c.append(dict(k="mul", v=2.0))
    c.append(inner)
    if case["where"] != "pre":
        c.append(dict(k="mul", v=-3.0))
    node2.clear()
    node2.update(k="seq", c=c)
    twin = zoo.make(dict(z, spec=spec2), case["seed"], style=case["style"])[0]
    target = b.mods[id(node)]
    ran = [0]

    def pre(mod, args, kwargs=None):
        ran[0] += 1
        args = (args[0] * 2.0,) + tuple(args[1:])
        if kwargs is not None:
            return args, kwargs
        return args if ran[0] % 2 or len(args) > 1 else args[0]

    def post(mod, args, *out):
        ran[0] += 1
        return None if util.empty(out[-1]) else out[-1] * -3.0

    kw = dict(with_kwargs=True) if case["kw"] else {}
    if case["where"] != "post":
        target.register_forward_pre_hook(pre, **kw)
    if case["where"] != "pre":
        target.register_forward_hook(post, **kw)
    x = inputs(case, sum(o["n"] for o in case["ops"]))
    t = 0
    with torch.no_grad():
        for i, o in enumerate(case["ops"]):
            o = dict(o, pad=False)  # the end is padded by the module or in front of it
            if target is m and o["how"] == "name":
                o["how"] = "ctx"
            xs = x[:, :, t : t + o["n"]]
            before = ran[0]
            out, exp = do(m, o, xs), do(twin, o, xs)
            if isinstance(out, tuple):
                out, exp = out[0], exp[0]
            if util.empty(out) != util.empty(exp):
                raise Violation(f"operation {i}: {'no ' if util.empty(out) else ''}output with hooks that replace values")
            if not util.empty(out):
                util.expect(out, exp, f"operation {i} ({o['op']}{o['n']}), {case['where']}-hook of {node['k']}",
                            zoo.rtol(spec, "f64"))
            ctx.count("replaced", ran[0] > before)
            if o["op"] != "f" and not o["peek"]:
                t += o["n"]
    return ran[0] > 0


ATTENTION = (co.SingleOutputMultiheadAttention, co.RetroactiveMultiheadAttention)
COUNTED = ["Conv1d", "Conv2d", "Conv3d", "Linear", "AvgPool1d", "AvgPool2d", "AvgPool3d", "MaxPool1d", "MaxPool2d",
           "MaxPool3d", "AdaptiveAvgPool2d", "AdaptiveAvgPool3d", "AdaptiveMaxPool2d", "AdaptiveMaxPool3d"]
REGULAR = {getattr(co, n): getattr(torch.nn, n) for n in COUNTED}


def attention(mod, args, out):
    mod.__flops__ += mod.flops()


def cost(fr, fc, hooked):
    """Cost of an execution: by ptflops' function for the regular module, else of the executions in it."""
    typ = REGULAR.get(type(fr.mod), type(fr.mod))
    f = attention if typ in ATTENTION else fc.MODULES_MAPPING.get(typ)
    if f is not None:
        holder = fr.mod
        holder.__flops__ = 0
        with hooked(fr):
            f(holder, fr.args, fr.out)
        n = holder.__flops__
        del holder.__flops__
        return n
    return sum(cost(k, fc, hooked) for k in fr.kids)


def flops(case, ctx):
    import ptflops
    from ptflops import pytorch_ops as fc

    z = case["z"]
    spec = z["spec"]
    m = zoo.make(z, case["seed"], style=case["style"])[0]
    twin = zoo.make(z, case["seed"], style=case["style"])[0]
    rec = Recorder(twin)
    k, s = zoo.span(z)

    @contextlib.contextmanager
    def hooked(fr):
        # attention computes its cost from the selected mode
        with co.call_mode("forward" if fr.method == "forward" else "forward_step"):
            yield

    def count(shape, how, mode):
        def measure():
            with contextlib.redirect_stdout(io.StringIO()):
                return ptflops.get_model_complexity_info(m, shape, as_strings=False, print_per_layer_stat=False,
                                                         backend="pytorch")[0]
        if how == "ctx":
            with co.call_mode(mode):
                return measure()
        m.call_mode = mode
        try:
            return measure()
        finally:
            m.call_mode = "forward"

    with torch.no_grad():
        how = "ctx" if case["pick"] % 2 else "attr"
        if not z.get("nofwd"):
            n = k if zoo.has(spec, "mha", "enc") else k + case["pick"] % 3
            _, fr = rec.root(True, lambda: twin.forward(inputs(dict(case, B=1), n)))
            exp = cost(fr, fc, hooked)
            got = count((z["c"], n, *z["S"]), how, "forward")
            if got != exp:
                raise Violation(f"ptflops of forward ({how}): {got}, executed modules {exp}")
            ctx.count("flops", exp > 0)
        if spec["k"] == "mha":
            measured(spec, zoo.make(z, case["seed"], style=case["style"])[0], inputs(dict(case, B=1), 2 * k), ctx)
        # A step for which every module has an output
        x = inputs(dict(case, B=1), k + 3 * s)
        for t in range(x.shape[2]):
            out, fr = rec.root(True, lambda: twin.forward_step(x[:, :, t]))
            if not util.empty(out) and t >= k - 1:
                exp = cost(fr, fc, hooked)
                got = count((z["c"], *z["S"]), how, "forward_step")
                if got != exp:
                    raise Violation(f"ptflops of step {t} ({how}): {got}, executed modules {exp}")
                ctx.count("flops", exp > 0)
                return exp > 0
            m.forward_step(x[:, :, t])
    return False


def measured(spec, m, x, ctx):
    """What attention says a step costs, against the multiply-accumulates which a step executes."""
    from torch.utils.flop_counter import FlopCounterMode

    for f in util.frames(x[:, :, :-1]):
        m.forward_step(f)
    with FlopCounterMode(display=False) as c:
        m.forward_step(x[:, :, -1])
    true = c.get_total_flops() / 2
    with co.call_mode("forward_step"):
        muls, adds, exps = m.flops(), m.flops(include_adds=True), m.flops(include_adds=True, include_exps=True)
    # (biases and scalings come on top of the matrix products)
    if not 0.9 * true <= muls <= 1.5 * true + 8 * (spec["e"] + spec["n"]):
        raise Violation(f"flops() of a step of attention is {muls}, a step executes {true} multiply-accumulates")
    if not muls < adds <= exps <= 3 * muls + 8 * (spec["e"] + spec["n"]):
        raise Violation(f"flops() of a step: {muls}, with additions {adds}, and exponentials {exps}")
    ctx.count("measured")


def backward(case, ctx):
    z = case["z"]
    m = c20.train(zoo.make(z, case["seed"], style=case["style"])[0])
    twin = c20.train(zoo.make(z, case["seed"], style=case["style"])[0])
    names = {q: n or "net" for n, q in m.named_modules()}
    true, pre, full = {}, {}, {}

    def post(mod, args, out):
        if isinstance(out, torch.Tensor) and out.requires_grad:
            out.register_hook(lambda g: true.setdefault(mod, []).append(g.detach().clone()))

    def on_pre(mod, go):
        if mod in names and len(go) == 1:
            pre.setdefault(mod, []).append(go[0])

    def on_full(mod, gi, go):
        if mod in names and len(go) == 1:
            full.setdefault(mod, []).append(go[0])

    handles = []
    where = case.get("global")
    if where:
        tm = torch.nn.modules.module
        if where in ("pre", "both"):
            handles.append(tm.register_module_full_backward_pre_hook(on_pre))
        if where in ("post", "both"):
            handles.append(tm.register_module_full_backward_hook(on_full))
    try:
        for q in names:
            if isinstance(q, torch.nn.RNNBase):
                continue
            if where == "post" and q is m:
                continue  # (the global hook alone must bring the call about)
            if not where:
                q.register_full_backward_pre_hook(on_pre)
                q.register_full_backward_hook(on_full)
            q.register_forward_hook(post) if where != "post" else None
        return backwards(case, ctx, m, twin, names, true, pre, full)
    finally:
        for h in handles:
            h.remove()


def backwards(case, ctx, m, twin, names, true, pre, full):
    where = case.get("global")
    res = []
    for net in (m, twin):
        x = inputs(case, sum(o["n"] for o in case["ops"])).requires_grad_()
        loss, t = 0, 0
        for i, o in enumerate(case["ops"]):
            if o["op"] == "f":
                continue
            o = dict(o, how="ctx", peek=False)
            out = do(net, o, x[:, :, t : t + o["n"]])
            t += o["n"]
            if not util.empty(out):
                w = torch.randn(out.shape, generator=util.gen(case["seed"] + i), dtype=out.dtype)
                loss = loss + (out * w).sum() + (out * out).mean()
        if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
            return False
        leaves = [x, *net.parameters()]
        res.append(torch.autograd.grad(loss, leaves, allow_unused=True))
    for a, b in zip(*res):
        if (a is None) != (b is None):
            raise Violation("backward hooks changed which gradients exist")
        if a is not None:
            util.expect(a, b, "gradient with backward hooks", 1e-9)
    if where == "post":  # no other hooks: every execution calls it, with gradients of the right shape
        if not full.get(m):
            raise Violation("a global backward hook was never called for the network")
        ctx.count("only_gbackward")
        return True
    n = 0
    ctx.count("global_backward", where is not None)
    for q, name in names.items():
        for what, seen in (("pre-hook", pre), ("hook", full)):
            if where == "pre" and what == "hook":
                continue
            left = list(true.get(q, []))
            for g in seen.get(q, []):
                if g is None:
                    continue
                j = next((j for j, e in enumerate(left) if same(e, g)), None)
                if j is None:
                    raise Violation(f"the backward {what} of {name} saw a gradient that none of its outputs got")
                left.pop(j)
                n += 1
            if left and what == "pre-hook":
                raise Violation(f"the backward pre-hook of {name} missed {len(left)} executions")
    ctx.count("backward_events", n)
    return n > 0
