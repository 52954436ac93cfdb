"""Networks which are looked at all the time against a twin nobody looks at."""
import copy
import functools
import linecache
import pickle

import torch
from torch import nn

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

AMBIENT = ["no_grad", "no_grad", "inference"]  # states with a gradient history cannot be copied
CASES = {"quick": 1300, "thorough": 40000}
RULE = ("any module or network with Lambdas and Conditionals around functions of all kinds (named, lambdas with and without source, "
        "functors, partials, methods, built-ins, modules); between the calls of a stream it or a module in it is looked at (printed, "
        "attributes, states, state dicts, parameters, structure, copies, contexts, hooks, conversions to what it is); each look must "
        "succeed, say the same as before, and leave outputs and states equal to those of a twin; texts must name functions, quote "
        "lambdas and contain their children; non-trivial: looks in the middle of a stream")
REACH = {"forwards": 500, "looks": 5000, "texts": 1500, "inner": 2000, "running": 2000, "quoted": 100, "out_frames": 4000, "none_calls": 500,
         "copies": 300, **{"l:" + k: 200 for k in ("text", "attrs", "state", "dict", "walk", "copy", "context", "hook", "same", "slice", "flags")}}
LOOKS = ["text", "text", "text", "attrs", "state", "dict", "walk", "copy", "context", "hook", "same", "slice", "flags"]
FUNCTIONS = ["named", "lambda", "lambda", "lambda", "nosource", "functor", "described", "partial", "partial_lambda", "partial_functor",
             "partial_module", "module", "nested", "builtin", "method", "descriptor", "static"]


def expression(r, d=0):
    x = "x" if d > 2 or r.random() < 0.3 else expression(r, d + 1)
    return r.choice(["{} * 2.0", "({} + 1)", "{}[..., :]", "[{}, None][0]", '{{"a": {}, "b": 0}}["a"]', "torch.where(x > 0, {}, x * 0.5)",
                     "({},)[0]", "torch.stack([{}, x], dim=0)[1]", "{}.reshape(*x.shape)",
                     "torch.cat((x, {}), 0)[: len(x)]", "{} if len(x) > 0 else x", "(lambda y: y + 1)({})"]).format(x if x == "x" else f"({x})")


AROUND = ["f = {}", "f = ({})", "f = id_({}, 1)", "f = id_(a=1, f={})", "f = [\n    {},\n    2,\n][0]", "f = id_(\n    {}\n)", "f = id_( {} )",
          "f = {{'a': {}, 'b': 1}}['a']", "f = [{}][0]"]


def function(r):
    k = r.choice(FUNCTIONS)
    f = dict(k=k)
    if k in ("lambda", "partial_lambda"):
        f.update(e=expression(r), a=r.choice(AROUND))
    return f


BEHIND = (", 1", ", f", ",\n    2", ",2", ", 2", ", 'b'", "}['a']", "][0]")  # code which follows the lambda


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.4, gates=True)
    k, s = zoo.span(z)
    T = min(r.choice([k, 2 * k + s, k + 3 * s + r.randint(0, 5), r.randint(1, 25)]), 40)
    cut = zoo.rand_cut(r, T, zoo.max_T(z["spec"]))
    return dict(z=z, B=r.choice([1, 2]), T=T, dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), cut=cut,
                front=[dict(f=function(r), time=r.random() < 0.5) for _ in range(r.choice([0, 1, 1, 2]))],
                back=[dict(f=function(r), time=r.random() < 0.5) for _ in range(r.choice([0, 1]))],
                cond=r.choice([None, None, function(r)]), wrap=r.random() < 0.7,
                looks=[[dict(l=r.choice(LOOKS), at=r.random() if r.random() < 0.6 else 0, q=r.randint(0, 99)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                       for _ in range(len(cut) + 1)])


def named(x, scale=2.0):
    return x * scale


class Functor:
    def __call__(self, x):
        return x + 1.0

    def method(self, x):
        return x - 1.0

    @staticmethod
    def static(x):
        return x * 3.0


class Described(Functor):
    def __repr__(self):
        return "Described(times=1)"


def make_function(f, seed):
    """(function, what its text must contain)."""
    k = f["k"]
    if k in ("lambda", "partial_lambda"):
        text = "lambda x: " + f["e"]
        source = f["a"].format(text) + "\n"
        name = f"<c31 {seed} {hash(source)}>"
        linecache.cache[name] = (len(source), None, source.splitlines(True), name)
        scope = dict(torch=torch, id_=lambda f, a=0: f)
        exec(compile(source, name, "exec"), scope)
        return (functools.partial(scope["f"]) if k == "partial_lambda" else scope["f"]), text
    if k == "nosource":
        return eval("lambda x: x * 2.0"), ""
    return dict(
        named=lambda: (named, "named"),
        functor=lambda: (Functor(), ""),
        described=lambda: (Described(), "Described("),
        partial=lambda: (functools.partial(named, scale=0.5), "named"),
        partial_functor=lambda: (functools.partial(Functor()), ""),
        partial_module=lambda: (functools.partial(nn.Tanh()), ""),
        module=lambda: (nn.Sigmoid(), "Sigmoid()"),
        nested=lambda: (nn.Sequential(nn.Tanh(), nn.Sequential(nn.ReLU(), nn.Identity())), "Tanh()"),
        builtin=lambda: (torch.tanh, "tanh"),
        method=lambda: (Functor().method, "method"),
        descriptor=lambda: (torch.Tensor.abs, "abs"),
        static=lambda: (Functor.static, "static"),
    )[k]()


def make_predicate(f, seed):
    g, text = make_function(f, seed)
    if f["k"] == "lambda":
        return (lambda m, x: True), ""
    if f["k"] in ("functor", "described"):
        class Yes(type(g)):
            def __call__(self, m, x):
                return True
        return Yes(), text
    if f["k"] == "nosource":
        return eval("lambda m, x: len(x) > 0"), ""
    return (lambda m, x: x.dim() > 0), "lambda m, x: x.dim() > 0"


def build(case):
    seed = case["seed"]
    core, _ = zoo.make(case["z"], seed, case["dt"], style=case["style"])
    texts = {}  # name of the module within the network: text it must contain

    def lam(p, i):
        f, text = make_function(p["f"], seed + i)
        m = co.Lambda(f, takes_time=p["time"]) if i % 2 else co.Lambda.build_from(f, takes_time=p["time"])
        texts[id(m)] = text
        return m

    if not case["wrap"]:
        return core, texts
    ms = [lam(p, i) for i, p in enumerate(case["front"])] + [core] + [lam(p, 10 + i) for i, p in enumerate(case["back"])]
    if case["cond"]:
        p, text = make_predicate(case["cond"], seed + 20)
        m = co.Conditional(p, co.Identity())
        texts[id(m)] = text
        ms.append(m)
    net = co.Sequential(*ms).eval()
    return net, texts


def plain(o):
    """A value as something to compare."""
    if isinstance(o, torch.Tensor):
        return o.detach().clone()
    if isinstance(o, (list, tuple)):
        return [plain(i) for i in o]
    return o


def equal(a, b):
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(equal, a, b))
    return type(a) is type(b) and a == b


class Eyes:
    def __init__(self, net, texts, ctx):
        self.net, self.texts, self.ctx, self.seen = net, texts, ctx, {}

    def steady(self, m, key, value, what):
        """Says the same as at the first look."""
        k = (id(m), key)
        old = self.seen.setdefault(k, (plain(value), m))[0]
        if not equal(old, plain(value)):
            raise Violation(f"{what}: {key} is now {str(value)[:300]}, was {str(old)[:300]}")

    def look(self, op, what):
        ctx = self.ctx
        inner = [m for m in self.net.modules() if co.CoModule.is_valid(m)]
        m = inner[min(int(op["at"] * len(inner)), len(inner) - 1)]
        what = f"{what}: {op['l']} of {type(m).__name__}"
        ctx.count("inner", m is not self.net)
        ctx.count("l:" + op["l"])
        ctx.count("looks")
        getattr(self, op["l"])(m, what, op["q"])

    def text(self, m, what, q):
        text = repr(m)
        if not isinstance(text, str) or not text or repr(m) != text or str(m) != text or f"{m}" != text:
            raise Violation(f"{what}: text {text!r} differs between two looks")
        self.steady(m, "text", text, what)
        lines = [t.strip() for t in text.splitlines()]
        for c in m.modules():
            want = self.texts.get(id(c))
            if want and want not in text:
                raise Violation(f"{what}: {text!r} lacks {want!r}")
            if want and want.startswith("lambda") and isinstance(c, co.Lambda) and repr(c).split(want)[1].startswith(BEHIND):
                raise Violation(f"{what}: {c!r} runs on behind {want!r}")
            self.ctx.count("quoted", bool(want) and want.startswith("lambda"))
        if not isinstance(m, co.Lambda):
            for n, c in m.named_children():
                first = repr(c).splitlines()[0]
                if not any(first in t for t in lines):
                    raise Violation(f"{what}: {text!r} lacks the child {n}: {first!r}")
        self.ctx.count("texts")

    def attrs(self, m, what, q):
        for a in ("receptive_field", "delay", "stride", "padding", "call_mode", "training"):
            v = getattr(m, a)
            if not equal(plain(v), plain(getattr(m, a))):
                raise Violation(f"{what}: {a} differs between two looks")
            self.steady(m, a, v, what)

    def state(self, m, what, q):
        a = plain(m.get_state())
        if not equal(a, plain(m.get_state())):
            raise Violation(f"{what}: get_state differs between two looks")

    def dict(self, m, what, q):
        d = m.state_dict() if q % 3 else m.state_dict(keep_vars=True)
        self.steady(m, "state dict", [x for k, v in d.items() for x in (k, v)], what)
        if q % 2:
            if q % 4 == 1 and isinstance(m, (co.Sequential, co.Parallel, co.Conditional)):
                d = m.state_dict(flatten=True)
            else:
                with co.flat_state_dict:
                    d = m.state_dict()
            self.steady(m, "flat state dict", [x for k, v in d.items() for x in (k, v)], what)

    def walk(self, m, what, q):
        self.steady(m, "modules", [n for n, _ in m.named_modules()], what)
        self.steady(m, "parameters", [x for k, v in m.named_parameters() for x in (k, v)], what)
        self.steady(m, "types", [type(c).__name__ for c in m.children()], what)
        list(m.buffers())
        if hasattr(m, "__len__"):
            if len(list(m)) != len(m):
                raise Violation(f"{what}: {len(m)} modules, {len(list(m))} listed")
            self.steady(m, "length", len(m), what)
        dir(m), vars(m), hash(m), m == m, m.apply(lambda _: None)

    def copy(self, m, what, q):
        if q % 3 == 0:
            c = copy.copy(m)
        else:
            c = copy.deepcopy(m)
            for a in ("receptive_field", "delay", "stride", "padding"):
                if getattr(c, a) != getattr(m, a):
                    raise Violation(f"{what}: {a} of a copy {getattr(c, a)}, of the original {getattr(m, a)}")
            t = repr(m)
            if "0x" not in t and repr(c) != t:
                raise Violation(f"{what}: the copy is {c!r}, the original {t}")
            for p, o in zip(c.parameters(), m.parameters()):
                if p is o or not torch.equal(p, o):
                    raise Violation(f"{what}: parameters of a deep copy")
            with torch.no_grad():  # what is done to the copy is no matter of the original
                c.clean_state()
                for p in c.parameters():
                    p.zero_()
        self.ctx.count("copies")

    def context(self, m, what, q):
        with co.call_mode(["forward", "forward_step", "forward_steps"][q % 3]):
            repr(m), m.state_dict(), m.get_state(), m.delay, m.call_mode
        with co.flat_state_dict:
            pass

    def hook(self, m, what, q):
        def never(*_):
            raise Violation(f"{what}: a removed hook was called")
        [m.register_forward_hook, m.register_forward_pre_hook][q % 2](never).remove()

    def same(self, m, what, q):
        if not co.CoModule.is_valid(m):
            raise Violation(f"{what}: not valid")
        if co.continual(m) is not m:
            raise Violation(f"{what}: conversion of a continual module gives another one")
        if q % 2:
            pickle.dumps(m.state_dict())

    def slice(self, m, what, q):
        if type(m) is co.Sequential:
            n = len(m)
            part = m[q % n :]
            if list(part) != list(m)[q % n :] or m[q % n - n] is not list(m)[q % n]:
                raise Violation(f"{what}: a slice has other modules")
            repr(part), part.delay, part.stride

    def flags(self, m, what, q):
        m.eval()
        m.zero_grad()
        m.cpu()
        m.call_mode = m.call_mode
        for p in m.parameters():
            m.to(p.dtype)
            break


@ambient
def run(case, ctx):
    z = case["z"]
    x = zoo.stream(z, case["T"], case["seed"], "randn", case["B"], case["dt"])
    (net, texts), (twin, _) = build(case), build(case)
    eyes, t, seen = Eyes(net, texts, ctx), 0, 0
    for i, (op, n) in enumerate([*case["cut"], (None, 0)]):
        for k in case["looks"][i]:
            eyes.look(k, f"before step {t}")
            ctx.count("running", t > 0)
            seen += t > 0
        if op:
            got, exp = zoo.call(net, op, x[:, :, t : t + n]), zoo.call(twin, op, x[:, :, t : t + n])
            if len(got) != len(exp) or not all(util.same(a, b, exact=True) for a, b in zip(got, exp)):
                raise Violation(f"call {op}{n} at step {t} after looking {[k['l'] for k in case['looks'][i]]}: {util.describe(got)}, "
                                f"expected {util.describe(exp)}")
            ctx.count("out_frames", len(got))
            ctx.count("none_calls", not got)
            t += n
    a = [plain(m.get_state()) for m in net.modules() if co.CoModule.is_valid(m)]
    b = [plain(m.get_state()) for m in twin.modules() if co.CoModule.is_valid(m)]
    if not equal(a, b):
        raise Violation("the states of the network looked at differ from those of its twin")
    if [k for k in net.state_dict()] != [k for k in twin.state_dict()]:
        raise Violation(f"state dict keys {list(net.state_dict())}, expected {list(twin.state_dict())}")
    n = min(int(net.receptive_field) + zoo.span(z)[0] + 3, zoo.max_T(z["spec"]))
    xf = zoo.stream(z, n, case["seed"] + 5, "randn", case["B"], case["dt"])
    try:
        exp = zoo.fwd(twin, xf)
    except RuntimeError:
        return seen > 0  # too short for this network
    ctx.count("forwards")
    if not util.same(zoo.fwd(net, xf), exp, exact=True):
        raise Violation("forward after looking differs from that of the twin")
    return seen > 0
