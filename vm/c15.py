"""State dicts: compatible with torch.nn, free of stream state, and flattened without loss."""
import copy
import io
import random
from collections import OrderedDict

import torch
from torch import nn

import continual as co

from . import c14, nets, util, zoo
from .core import Inconclusive, Violation, ambient

AMBIENT = ["no_grad", "no_grad", "inference"]  # states with a gradient history cannot be copied
CASES = {"quick": 2600, "thorough": 90000}
RULE = ("continual modules loading the state of their torch.nn counterpart and giving theirs, before, between "
        "and after random calls; random networks saved and loaded with and without flattening (argument, "
        "attribute, context, nested and left by exceptions, through torch.save) into networks of other weights "
        "or of other unnamed nesting, in the same or another order of keys, or with one key renamed, compared place by place and by later outputs; given names kept; "
        "non-trivial: values were restored in another module")
REACH = {"mirrored": 500, "midstream_loads": 300, "flat": 400, "unflattenable": 50, "named": 200, "places": 5000,
         "renested": 200, "contexts": 200, "exceptions": 100, "saved": 200, "out_frames": 3000, "buffers": 100, "reordered": 500, "strays": 200}

FLAT = ["arg", "ctx", "nested", "attr", "exc", "inner_exc"]


# ---------------------------------------------------------------- generation
def generate(r, tier, idx):
    o = r.choice(["mirror", "mirror", "net", "net", "net", "names", "renest"])
    case = dict(mode=o, B=r.choice([1, 2]), dt=r.choice(["f64", "f64", "f32"]), how=r.choice([None] + FLAT),
                save=r.random() < 0.3, order=r.choice([None, r.randint(0, 99)]))
    if o == "mirror":
        nd = r.choice([1, 1, 2, 3])
        c = r.choice([1, 2, 4])
        S = [r.choice([3, 4]) for _ in range(nd - 1)]
        case.update(nd=nd, c=c, S=S, T=r.randint(4, 12))
        if r.random() < 0.25:
            h = r.choice([1, 2])
            case["layer"] = dict(t="MHA", e=h * r.choice([1, 2, 3]), h=h, n=r.choice([2, 3, 5]),
                                 bias=r.random() < 0.7, cls=r.choice(["retro", "single"]))
        else:
            while True:
                sp = c14.layer(r, nd, c, S)
                if sp["t"].startswith(("Conv", "AvgPool", "MaxPool", "RNN", "LSTM", "GRU", "Linear")):
                    break
            sp["kw"].pop("batch_first", None)
            case["layer"] = sp
    elif o == "net":
        z = zoo.rand_any(r, 0.35)
        k, s = zoo.span(z)
        mx = zoo.max_T(z["spec"])
        T = k + 2 * s + r.randint(0, 3)
        case.update(z=z, style=r.randint(0, 99), T=T, cut=zoo.rand_cut(r, T, mx), soil=r.randint(0, k + 1))
        for n in nets.walk(z["spec"]):
            if n["k"] in ("seq", "br") and r.random() < 0.4:
                n["named"] = True
    elif o == "names":
        case["tree"] = rand_tree(r, 3)
    else:
        n = r.randint(2, 6)
        case.update(n=n, a=rand_nest(r, list(range(n))), b=rand_nest(r, list(range(n))))
        case["how"] = r.choice(FLAT)
    return case


NAMES = ["a", "b2", "conv", "weight1", "x_0", "net", "left", "module2", "q", "w", "0b", "second", "è", "head"]


def rand_tree(r, depth):
    """Containers with given names: {"k": kind, "c": [[name or None, child], ...]}."""
    if depth == 0 or r.random() < 0.25:
        return r.choice([dict(k="conv", kt=r.choice([1, 2, 3])), dict(k="conv", kt=1), dict(k="bn"), dict(k="relu")])
    kind = r.choice(["seq", "seq", "par", "br"])
    n = r.randint(1 if kind == "seq" else 2, 3)
    named = r.random() < 0.6
    names = r.sample(NAMES, n) if named else [None] * n
    return dict(k=kind, c=[[nm, rand_tree(r, depth - 1)] for nm in names])


def rand_nest(r, items):
    """The items in order, in random nested groups."""
    if len(items) == 1:
        return items[0] if r.random() < 0.7 else [items[0]]
    out, i = [], 0
    while i < len(items):
        n = r.randint(1, len(items) - i)
        if n == len(items):
            n -= 1
        g = items[i : i + n]
        out.append(g[0] if n == 1 and r.random() < 0.6 else rand_nest(r, g))
        i += n
    return out


# ---------------------------------------------------------------- saving and loading
class Stop(Exception):
    pass


def flat_call(how, f):
    """Call f(flatten argument) in one of the ways to ask for flattening."""
    if how in (None, "attr"):
        return f(None)
    if how == "arg":
        return f(True)
    if how == "ctx":
        with co.flat_state_dict:
            return f(None)
    if how == "nested":
        with co.flat_state_dict:
            with co.flat_state_dict:
                pass
            with co.flat_state_dict:
                with co.flat_state_dict:
                    pass
            return f(None)
    if how == "exc":
        try:
            with co.flat_state_dict:
                out = f(None)
                raise Stop
        except Stop:
            return out
    with co.flat_state_dict:  # inner_exc
        try:
            with co.flat_state_dict:
                raise Stop
        except Stop:
            pass
        return f(None)


ORDER = [None]  # seed for the order in which a state_dict is handed over


def save(m, how, through, ctx):
    def f(flatten):
        return m.state_dict() if flatten is None else m.state_dict(flatten=flatten)

    if how == "attr":
        m.flatten_state_dict = True
    sd = flat_call(how, f)
    if how == "attr":
        del m.flatten_state_dict
    ctx.count("contexts", how in ("ctx", "nested", "exc", "inner_exc"))
    ctx.count("exceptions", how in ("exc", "inner_exc"))
    # The options of torch.nn.Module.state_dict mean the same with flattening
    own = {**dict(m.named_parameters(remove_duplicate=False)), **dict(m.named_buffers(remove_duplicate=False))}
    if how in ("arg", "ctx"):
        kept = flat_call(how, lambda fl: m.state_dict(keep_vars=True) if fl is None else m.state_dict(keep_vars=True, flatten=True))
        if list(kept) != list(sd):
            raise Violation(f"keys with keep_vars {list(kept)}, without {list(sd)}, flattened by {how}")
        ids = {id(v) for v in own.values()}
        if any(isinstance(v, torch.Tensor) and id(v) not in ids for v in kept.values()):
            raise Violation(f"state_dict with keep_vars, flattened by {how}, does not hold the parameters and buffers themselves")
        pre = flat_call(how, lambda fl: m.state_dict(prefix="pre.") if fl is None else m.state_dict(prefix="pre.", flatten=True))
        if list(pre) != ["pre." + k for k in sd]:
            raise Violation(f"keys with a prefix {list(pre)}, without {list(sd)}, flattened by {how}")
        ctx.count("keep_vars")
    if any(isinstance(v, torch.Tensor) and v.requires_grad for v in sd.values()):
        raise Violation("state_dict without keep_vars holds tensors of the autograd graph")
    if list(m.state_dict()) != plain_keys(m):
        raise Violation(f"state_dict is still flattened after flattening by {how}: {list(m.state_dict())}")
    if through:
        b = io.BytesIO()
        torch.save(sd, b)
        b.seek(0)
        sd = torch.load(b)
        ctx.count("saved")
    return sd


def load(m, sd, how, strict=True):
    if ORDER[0] is not None and sd:
        keys = list(sd)
        random.Random(ORDER[0]).shuffle(keys)
        meta = getattr(sd, "_metadata", None)
        sd = OrderedDict((k, sd[k]) for k in keys)
        if meta is not None:
            sd._metadata = meta
    if how == "attr":
        m.flatten_state_dict = True
    def attempt(fl):
        try:
            return m.load_state_dict(sd, strict=bool(strict)) if fl is None else m.load_state_dict(sd, strict=bool(strict), flatten=fl)
        except (KeyError, RuntimeError) as e:
            if strict != "stray":
                raise
            return e

    res = flat_call(how, attempt)
    if how == "attr":
        del m.flatten_state_dict
    return res


def expect_stray(m, src, sd, how, what, seed, ctx):
    """One key is exchanged for a foreign one: loading strictly says so, loading otherwise restores the rest."""
    lost = list(sd)[seed % len(sd)]
    strange = OrderedDict(("stray" if k == lost else k, v) for k, v in sd.items())
    place = list(plain_keys(m))[list(sd).index(lost)]
    res = load(m, strange, how, strict="stray")
    if not isinstance(res, Exception):
        raise Violation(f"{what}: {lost} has been renamed to stray; loading strictly gave {res}")
    scramble(m, seed + 7)
    load(m, strange, how, strict=False)
    a, b = places(m), places(src)
    for k, v in a.items():
        if k != place and not torch.equal(v, b[k].to(v.dtype)):
            raise Violation(f"{what}: {lost} has been renamed to stray; {k} is not loaded with strict=False")
    ctx.count("strays")


def plain_keys(m):
    """Names of parameters and persistent buffers, from the module tree itself."""
    out = []

    def walk(mod, prefix):
        out.extend(prefix + n for n, p in mod._parameters.items() if p is not None)
        out.extend(prefix + n for n, b in mod._buffers.items()
                   if b is not None and n not in mod._non_persistent_buffers_set)
        for n, ch in mod._modules.items():
            if ch is not None:
                walk(ch, prefix + n + ".")

    walk(m, "")
    return out


def check_flat(m, sd, how, what, ctx):
    """Keys of the saved dict: flat if that is possible without a collision."""
    plain = plain_keys(m)
    flat = [".".join(p for p in k.split(".") if not p.isdigit()) for k in plain]
    container = isinstance(m, (co.Sequential, co.Parallel, co.Conditional)) or hasattr(m, "flatten_state_dict")
    if how is None or not container:
        exp = plain
    elif len(set(flat)) == len(flat):
        exp = flat
        ctx.count("flat", bool(plain))
    else:
        exp = plain
        ctx.count("unflattenable")
    if list(sd) != exp:
        raise Violation(f"{what}: keys {list(sd)}, expected {exp}")
    return container


def places(m):
    d = OrderedDict(m.named_parameters())
    d.update((k, v) for k, v in m.named_buffers() if k in set(plain_keys(m)))
    return d


def expect_places(m, src, what, ctx, tr=lambda k: k):
    """Every parameter and buffer of m has the value of its place in src."""
    a, b = places(m), {tr(k): v for k, v in places(src).items()}
    for k, v in a.items():
        w = b.get(tr(k))
        if w is None or v.shape != w.shape or not torch.equal(v, w.to(v.dtype)):
            raise Violation(f"{what}: {k} is {util.describe(v)}, saved value {util.describe(w)}")
        ctx.count("places")
        ctx.count("buffers", not isinstance(v, nn.Parameter))


def scramble(m, seed):
    """Other values everywhere."""
    g = util.gen(seed)
    with torch.no_grad():
        for v in places(m).values():
            if v.is_floating_point():
                v.copy_(torch.rand(v.shape, generator=g, dtype=torch.float64) + 0.3)
            else:
                v.fill_(17)


# ---------------------------------------------------------------- cases
@ambient
def run(case, ctx):
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    ORDER[0] = case["order"]
    ctx.count("reordered", case["order"] is not None)
    return globals()["do_" + case["mode"]](case, ctx, dtype, case["seed"])


def co_class(case):
    """(continual module, torch module) of equal structure with default parameters."""
    sp = case["layer"]
    if sp["t"] == "MHA":
        cls = co.RetroactiveMultiheadAttention if sp["cls"] == "retro" else co.SingleOutputMultiheadAttention
        return (cls(sp["e"], sp["h"], bias=sp["bias"], sequence_len=sp["n"], batch_first=True, embed_dim_second=True,
                    forward_returns_attn_mask=False),
                nn.MultiheadAttention(sp["e"], sp["h"], bias=sp["bias"], batch_first=True))
    orig = c14.construct(dict(sp, kw=dict(sp["kw"], batch_first=True)) if sp["t"] in ("RNN", "GRU", "LSTM") else sp)
    a, kw = [c14.tup(i) for i in sp["a"]], {k: c14.tup(v) for k, v in sp["kw"].items()}
    if sp["t"].startswith("Conv"):
        kw["temporal_fill"] = kw.get("padding_mode", "zeros")
    if sp["t"].startswith(("AvgPool", "MaxPool")):
        kw.setdefault("stride", kw["kernel_size"])
    if sp["t"] == "Linear":
        kw["channel_dim"] = -1
    return getattr(co, sp["t"])(*a, **kw), orig


def do_mirror(case, ctx, dtype, seed):
    sp = case["layer"]
    m, orig = co_class(case)
    m.to(dtype).eval()
    c14.init(orig, seed, dtype).eval()
    what = f"co.{type(m).__name__}({sp})"
    rtol = {"f64": 1e-6 if sp["t"] == "MHA" else 1e-8, "f32": 5e-3}[case["dt"]]
    c = sp.get("e", case["c"])
    S = [] if sp["t"] == "MHA" else case["S"]
    n = sp.get("n", case["T"])

    def data(s, T=n):
        return util.data((case["B"], c, T, *S), s, "randn", dtype)

    def fwd_orig(x):
        if sp["t"] == "MHA":
            y = x.transpose(1, 2)
            o = orig(y, y, y, need_weights=False)[0].transpose(1, 2)
            return o if sp["cls"] == "retro" else o[:, :, -1:]
        if sp["t"] in ("RNN", "GRU", "LSTM"):
            return orig(x.transpose(1, 2))[0].transpose(1, 2)
        return orig(x)

    try:
        fwd_orig(data(seed))
    except RuntimeError:
        raise Inconclusive("does not fit")

    def keys(when):
        a, b = m.state_dict(), orig.state_dict()
        if list(a) != list(b) or any(a[k].shape != b[k].shape for k in b):
            raise Violation(f"{what}: state_dict {when} has { {k: tuple(v.shape) for k, v in a.items()} }, "
                            f"torch.nn has { {k: tuple(v.shape) for k, v in b.items()} }")

    def agree(when):
        x = data(seed + 3)
        util.expect(c14.first(m.forward(x)), fwd_orig(x), f"{what}: forward {when}", rtol)

    keys("when new")
    m.load_state_dict(orig.state_dict())
    agree("after loading")
    # a stream, into which the same weights are loaded in between
    twin = copy.deepcopy(m)
    T = n + 3
    x = data(seed + 1, T)
    for t in range(T):
        a, b = m.forward_step(x[:, :, t]), twin.forward_step(x[:, :, t])
        if not util.same(c14.first(a), c14.first(b), exact=True):
            raise Violation(f"{what}: step {t} changed by loading the same state_dict in mid-stream")
        if t % 3 == 1:
            keys("while streaming")
            m.load_state_dict(orig.state_dict() if t % 2 else m.state_dict())
            ctx.count("midstream_loads")
        ctx.count("out_frames", a is not None)
    agree("after streaming")
    keys("after streaming")
    # other weights, saved from the streaming module, in the torch module
    scramble(m, seed + 2)
    orig.load_state_dict(m.state_dict(), strict=True)
    m.clean_state()
    agree("with weights given to torch.nn")
    ctx.count("mirrored")
    return bool(list(orig.parameters())) or sp["t"].startswith(("Avg", "Max"))


def do_net(case, ctx, dtype, seed):
    z = case["z"]
    a, _ = zoo.make(z, seed, case["dt"], style=case["style"])
    b, _ = zoo.make(z, seed + 1, case["dt"], style=case["style"])
    scramble(b, seed)
    how, what = case["how"], f"flattened by {case['how']}" if case["how"] else "not flattened"
    keys = plain_keys(a)
    if list(a.state_dict()) != keys:
        raise Violation(f"state_dict keys {list(a.state_dict())}, parameters and buffers {keys}")
    zoo.drive(b, zoo.stream(z, max(1, min(case["soil"], zoo.max_T(z["spec"]))), seed, "randn", case["B"], case["dt"]),
              [["m", max(1, min(case["soil"], zoo.max_T(z["spec"])))]])
    x = zoo.stream(z, case["T"], seed + 2, "randn", case["B"], case["dt"])
    first = zoo.drive(a, x, case["cut"])  # saved while streaming
    container = hasattr(a, "flatten_state_dict")
    if how == "arg" and not container:
        how = "ctx"
    sd = save(a, how, case["save"], ctx)
    check_flat(a, sd, how, what, ctx)
    for k, v in sd.items():
        if "state" in k.split(".")[-1] or "buffer" in k.split(".")[-1] or "index" in k.split(".")[-1]:
            raise Violation(f"{k} in the state_dict looks like stream state")
    if list(sd) != list(save(b, how, False, ctx)):
        raise Violation("state_dict keys depend on the stream or the weights")
    res = load(b, sd, how)
    if res.missing_keys or res.unexpected_keys:
        raise Violation(f"{what}: {res}")
    expect_places(b, a, what, ctx)
    b.clean_state()
    outs = zoo.drive(b, x, case["cut"], ctx)
    for (op, n), u, v in zip(case["cut"], outs, first):
        zoo.expect_frames(u, v, f"{what}: call {op}{n} of the network which loaded the state",
                          zoo.rtol(z["spec"], case["dt"]))
    # the stream of the one it was taken from goes on as if nothing happened
    c = copy.deepcopy(a)
    x2 = zoo.stream(z, min(3, zoo.max_T(z["spec"])), seed + 5, "randn", case["B"], case["dt"])
    load(a, sd, how)
    ctx.count("midstream_loads")
    zoo.expect_frames(zoo.flat(zoo.drive(a, x2, [["m", x2.shape[2]]])),
                      zoo.flat(zoo.drive(c, x2, [["m", x2.shape[2]]])), "loading the own state_dict in mid-stream")
    if sd and case["soil"] % 2:
        expect_stray(b, a, sd, how, what, seed, ctx)
    return bool(keys) and any(outs)


def build_tree(t, g):
    if t["k"] == "conv":
        return co.Conv1d(2, 2, t["kt"])
    if t["k"] == "bn":
        return co.continual(nn.BatchNorm1d(2))
    if t["k"] == "relu":
        return co.continual(nn.ReLU())
    ms = [(n, build_tree(ch, g)) for n, ch in t["c"]]
    cls = {"seq": co.Sequential, "par": co.Parallel, "br": co.BroadcastReduce}[t["k"]]
    if ms[0][0] is None:
        return cls(*[m for _, m in ms])
    return cls(OrderedDict(ms))


def leaves(t, names=()):
    """(names given on the way, kind) of every leaf, in order."""
    if "c" not in t:
        return [(names, t["k"])]
    return [x for n, ch in t["c"] for x in leaves(ch, names + ((n,) if n else ()))]


PARAMS = {"conv": ["weight", "bias"], "bn": ["weight", "bias", "running_mean", "running_var", "num_batches_tracked"],
          "relu": []}


def do_names(case, ctx, dtype, seed):
    t = case["tree"]
    if "c" not in t:
        raise Inconclusive("no container")
    a, b = build_tree(t, None), build_tree(t, None)
    scramble(a, seed), scramble(b, seed + 1)
    what = "OrderedDict names"

    def check(keys):
        exp = [(list(ns), p) for ns, k in leaves(t) for p in PARAMS[k]]
        if len(keys) != len(exp):
            raise Violation(f"{what}: {len(keys)} keys {keys}, expected {len(exp)}")
        for key in keys:
            parts = key.split(".")
            given = [p for p in parts[:-1] if p in NAMES]
            for i, (ns, p) in enumerate(exp):
                if ns == given and p == parts[-1]:
                    exp.pop(i)
                    break
            else:
                raise Violation(f"{what}: key {key} does not go by the given names; left are {exp}")

    check(list(a.state_dict()))
    how = case["how"]
    sd = save(a, how, case["save"], ctx)
    check_flat(a, sd, how, what, ctx)
    check(list(sd))
    load(b, sd, how)
    expect_places(b, a, what, ctx)
    ctx.count("named", any(ns for ns, _ in leaves(t)))
    return bool(sd)


def do_renest(case, ctx, dtype, seed):
    """Only unnamed nesting differs: flattened dicts are interchangeable."""
    def build(nest, s):
        if isinstance(nest, int):
            inner = [co.Conv1d(2, 2, 1 + nest % 3, bias=nest % 2 == 0), nn.BatchNorm1d(2)][nest % 4 == 3]
            return co.Sequential(OrderedDict([(f"leaf{nest}", inner)]))
        return co.Sequential(*[build(n, s) for n in nest])

    a, b = build([case["a"]], 0), build([case["b"]], 1)
    a.to(dtype).eval(), b.to(dtype).eval()
    scramble(a, seed), scramble(b, seed + 1)
    how = case["how"]
    sd = save(a, how, case["save"], ctx)
    check_flat(a, sd, how, "renested", ctx)
    load(b, sd, how)
    expect_places(b, a, "renested", ctx, lambda k: ".".join(p for p in k.split(".") if not p.isdigit()))
    x = util.data((case["B"], 2, 24), seed, "randn", dtype)
    oa = [a.forward_step(x[:, :, t]) for t in range(24)]
    ob = [b.forward_step(x[:, :, t]) for t in range(24)]
    for t, (u, v) in enumerate(zip(oa, ob)):
        util.expect(v, u, f"renested: step {t}", {"f64": 1e-8, "f32": 1e-3}[case["dt"]])
        ctx.count("out_frames", u is not None)
    ctx.count("renested")
    return True
