"""Continual attention and transformer encoders against torch.nn on the last N tokens."""
import torch
import torch.nn.functional as F
from torch import nn

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 900, "thorough": 30000}
RULE = ("random attention module (retroactive or single-output, heads, width, length, query index, "
        "layout, separate keys and values, masks of forward, dropout in evaluation, direct or converted), encoder layer (activation, query "
        "index) or encoder (1-2 layers, norm), call schedule on streams of up to 60 lengths; every "
        "output is compared with torch.nn on the last sequence_len tokens; non-trivial: at least "
        "one output")
REACH = {"defaults": 10, "out_frames": 1000, "none_calls": 100, "forward": 100, "mha": 50, "layer": 50, "encoder": 50, "keys_only": 15, "masked_forwards": 100, "dropouts": 100,
         "explicit": 300}


def generate(r, tier, idx):
    what = r.choice(["mha", "mha", "layer", "encoder"])
    h = r.choice([1, 2, 3])
    n = r.choice([2, 2, 3, 4, 5, 7])
    T = r.choice([n - 1, n, n + 1, 2 * n, 3 * n + 2, 5 * n])
    if r.random() < 0.1:
        T = n * r.choice([20, 40, 60])
    c = dict(what=what, e=h * r.choice([1, 2, 3]), h=h, n=n, B=r.choice([1, 2, 3]), T=T,
             cut=zoo.rand_cut(r, T), kind=r.choice(["randn", "neg", "small", "const"]),
             dt=r.choice(["f64", "f64", "f64", "f32"]), retro=r.random() < 0.5,
             q=r.choice([-1, -1, -2, 0, n - 1, r.randint(0, n - 1)]), T2=r.choice([0, 0, n + 2]),
             train=r.random() < 0.3)
    c["drop"] = 0.0 if c["train"] else r.choice([0.0, 0.0, 0.1, 0.5, 1.0])
    if what == "mha":
        c.update(lay=r.choice(["eds", "bf", "tf"]), kv=r.choice([1, 1, 1, 3, 3, 2]), bias=r.random() < 0.7,
                 explicit=r.random() < 0.3, build=r.choice(["ctor", "from"]), sof=r.random() < 0.3, mask=r.random() < 0.3,
                 given=r.choice([None, None, "attn", "float", "heads", "keys", "both", "no_weights"]))
    else:
        c.update(ff=r.choice([1, 2, 5]), sof=r.random() < 0.4,
                 act=r.choice(["relu", "gelu", "tanh", "module"]),
                 eps=r.choice([1e-5, 1e-3]))
        if what == "layer" and r.random() < 0.15:  # all options left out
            c.update(brief=True, train=False, drop=0.1, q=-1, sof=False, act="relu", eps=1e-5, ff=2048)
        if what == "encoder":
            c.update(l=r.choice([1, 2]), norm=r.random() < 0.4,
                     build=r.choice(["from", "from", "ctor"]))
    return c


# Canonical form: inputs (B, E, T); outputs (B, E) or (B, E, N) per step
def enter(x, lay):
    return {"eds": x, "bf": x.permute(0, 2, 1), "tf": x.permute(2, 0, 1)}[lay].contiguous()


def leave_step(o, lay, retro):
    if not retro:
        return o
    return {"eds": lambda: o, "bf": lambda: o.permute(0, 2, 1), "tf": lambda: o.permute(1, 2, 0)}[lay]()


def leave_steps(o, lay, retro):
    if retro:
        o = {"eds": lambda: o, "bf": lambda: o.permute(0, 3, 1, 2),
             "tf": lambda: o.permute(2, 3, 0, 1)}[lay]()
    else:
        o = {"eds": lambda: o, "bf": lambda: o.permute(0, 2, 1),
             "tf": lambda: o.permute(1, 2, 0)}[lay]()
    return [o[:, :, i] for i in range(o.shape[2])]


def drive(m, xs, cut, n, full, pick, ctx, rtol, lay="eds", retro=False, what=""):
    """xs: the streams given together (query, key, value); full(windows) -> (B, E, N)."""
    t = 0
    for op, k in cut:
        parts = [x[:, :, t : t + k] for x in xs]
        if op == "s":
            o = m.forward_step(*[p[:, :, 0] for p in parts])
            if o is not None and o.dim() != (3 if retro else 2):
                raise Violation(f"{what} step at {t}: output of shape {tuple(o.shape)}")
            got = [] if o is None else [leave_step(util.copy_out(o), lay, retro)]
        else:
            o = m.forward_steps(*[enter(p, lay) for p in parts])
            if o is not None and o.dim() != (4 if retro else 3):
                raise Violation(f"{what} call {op}{k} at step {t}: output of shape {tuple(o.shape)}")
            got = [] if o is None else leave_steps(util.copy_out(o), lay, retro)
        exp = []
        for j in range(t, t + k):
            if j >= n - 1:
                exp.append(pick(full(*[x[:, :, j - n + 1 : j + 1] for x in xs])))
        zoo.expect_frames(got, exp, f"{what} call {op}{k} at step {t}", rtol)
        ctx.count("calls")
        ctx.count("out_frames", len(exp))
        ctx.count("none_calls", not exp)
        t += k


def streams(case, dt, n, seed, T):
    kinds = [case["kind"], "randn", "randn"]
    return [util.data((case["B"], case["e"], T), seed + i, kinds[i], dt) for i in range(n)]


def calm(net, xs, more):
    nets.calm(net, *xs)
    if more[0].shape[2]:
        nets.calm(net, *more)


def run_mha(case, ctx, dt, rtol):
    E, N, lay, retro = case["e"], case["n"], case["lay"], case["retro"]
    net = nn.MultiheadAttention(E, case["h"], case["drop"], bias=case["bias"], batch_first=lay != "tf")
    nets.Builder(case["seed"], dt).init(net)
    n_in = case["kv"]
    xs = streams(case, dt, n_in, case["seed"], case["T"])
    more = streams(dict(case, B=case["B"] + 1), dt, n_in, case["seed"] + 11, case["T2"])
    if retro:
        calm(net, xs, more)
    net.eval()
    cls = co.RetroactiveMultiheadAttention if retro else co.SingleOutputMultiheadAttention
    kw = dict(sequence_len=N, embed_dim_second=lay == "eds",
              forward_returns_attn_mask=case["mask"])
    if not retro:
        kw.update(query_index=case["q"], single_output_forward=case["sof"])
    if case["build"] == "from":
        m = cls.build_from(net, **kw)
    else:
        m = cls(E, case["h"], case["drop"], bias=case["bias"], batch_first=lay != "tf", **kw).to(dt)
        m.load_state_dict(net.state_dict())
    m.train(case["train"])

    def full(q, k=None, v=None):
        k, v = q if k is None else k, q if v is None else v
        a = [i.permute(0, 2, 1) if lay != "tf" else i.permute(2, 0, 1) for i in (q, k, v)]
        o = net(*a, need_weights=False)[0]
        return o.permute(0, 2, 1) if lay != "tf" else o.permute(1, 2, 0)

    pick = (lambda o: o) if retro else (lambda o: o[:, :, case["q"]])
    drive(m, xs, case["cut"], N, full, pick, ctx, rtol, lay, retro, "mha")
    if case["explicit"]:
        state = None
        for t in range(case["T"]):
            o, state = m._forward_step(*[x[:, :, t] for x in xs], prev_state=state)
            exp = [pick(full(*[x[:, :, t - N + 1 : t + 1] for x in xs]))] if t >= N - 1 else []
            got = [] if o is None else [util.copy_out(o) if lay == "eds" else leave_step(util.copy_out(o), lay, retro)]
            zoo.expect_frames(got, exp, f"mha, explicit state, step {t}", rtol)
            ctx.count("explicit", t >= N - 1)
    # Regular forward
    ys = streams(case, dt, n_in, case["seed"] + 7, N)
    three = [*ys, *[ys[0]] * (3 - n_in)]  # left out, keys and values are the query
    ctx.count("keys_only", n_in == 2)
    o = m.forward(*[enter(y, lay) for y in ys])
    if case["mask"]:
        o, w = o
        if w is None:
            raise Violation("forward returned no attention weights")
    if not retro and case["sof"]:
        exp = full(*three)[:, :, case["q"]].unsqueeze(2)
    else:
        exp = full(*ys)
    util.expect(o, enter(exp, lay) if lay != "eds" else exp, "forward", rtol)
    ctx.count("forward")
    if case["given"]:
        run_masks(case, ctx, m, net, three, rtol)
    if case["T2"]:
        m.clean_state()
        drive(m, more, [["s", 1]] * case["T2"], N, full, pick, ctx, rtol, lay, retro, "second stream")


def run_masks(case, ctx, m, net, ys, rtol):
    """forward with masks passes them on, and gives the weights when it is to."""
    N, B, lay, what = case["n"], case["B"], case["lay"], case["given"]
    single = not case["retro"] and case["sof"]
    L = 1 if single else N
    g = util.gen(case["seed"] + 3)
    kw = {}
    if what in ("attn", "both"):
        kw["attn_mask"] = torch.rand(L, N, generator=g) < 0.4
    if what == "float":
        kw["attn_mask"] = torch.randn(L, N, generator=g, dtype=torch.float64).to(ys[0].dtype)
    if what == "heads":
        kw["attn_mask"] = torch.rand(B * case["h"], L, N, generator=g) < 0.4
    if what in ("keys", "both"):
        kw["key_padding_mask"] = torch.rand(B, N, generator=g) < 0.4
    for v in kw.values():
        if v.dtype == torch.bool:  # something is left to attend to
            v[..., case["seed"] % N] = False
    if what == "no_weights":
        kw["need_weights"] = False
    q, k, v = [y.permute(0, 2, 1) if lay != "tf" else y.permute(2, 0, 1) for y in ys]
    if single:
        q = q[:, case["q"]].unsqueeze(1) if lay != "tf" else q[case["q"]].unsqueeze(0)
    exp, w = net(q, k, v, **kw)
    o = m.forward(*[enter(y, lay) for y in ys], **kw)
    if case["mask"]:
        o, got = o
        if (got is None) != (w is None):
            raise Violation(f"forward({sorted(kw)}) gives weights {util.describe(got)}, torch.nn {util.describe(w)}")
        if w is not None:
            util.expect(got, w, f"attention weights of forward({sorted(kw)})", rtol)
    util.expect(o, exp.permute(0, 2, 1) if lay == "eds" else exp, f"forward({sorted(kw)})", rtol)
    ctx.count("masked_forwards")


ACTS = {"relu": F.relu, "gelu": F.gelu, "tanh": torch.tanh, "module": F.silu}
NAMES = {"self_attn", "out_proj", "linear1", "linear2", "norm1", "norm2", "in_proj_weight",
         "in_proj_bias", "weight", "bias"}


def load_from_regular(m, net):
    """Give a continual encoder layer the weights of a torch.nn encoder layer."""
    sd = net.state_dict()
    keys = {k: ".".join(p for p in k.split(".") if p in NAMES) for k in m.state_dict()}
    if sorted(keys.values()) != sorted(sd):
        raise Violation(f"parameters {sorted(keys)} do not mirror {sorted(sd)}")
    m.load_state_dict({k: sd[v] for k, v in keys.items()})


def activation(case, single):
    if case["act"] == "module":
        return nn.SiLU()
    return ACTS[case["act"]]


def run_layer(case, ctx, dt, rtol):
    E, N, retro = case["e"], case["n"], case["retro"]
    act = ACTS[case["act"]]
    net = nn.TransformerEncoderLayer(E, case["h"], case["ff"], case["drop"], act, case["eps"], batch_first=True)
    xs = streams(case, dt, 1, case["seed"], case["T"])
    more = streams(dict(case, B=case["B"] + 1), dt, 1, case["seed"] + 11, case["T2"])
    nets.Builder(case["seed"], dt).init(net)
    if retro:
        calm(net, xs, more)
    net.eval()
    args = (E, case["h"], case["ff"], case["drop"], activation(case, not retro), case["eps"])
    if retro:
        m = co.RetroactiveTransformerEncoderLayer(*args, sequence_len=N)
    else:
        m = co.SingleOutputTransformerEncoderLayer(
            *args, sequence_len=N, single_output_forward=case["sof"], query_index=case["q"])
    if case.get("brief"):
        net = nn.TransformerEncoderLayer(E, case["h"], batch_first=True)
        nets.Builder(case["seed"], dt).init(net)
        if retro:
            calm(net, xs, more)
        net.eval()
        cls = co.RetroactiveTransformerEncoderLayer if retro else co.SingleOutputTransformerEncoderLayer
        m = cls(E, case["h"], sequence_len=N)
        ctx.count("defaults")
    m.to(dt).train(case["train"])
    load_from_regular(m, net)

    def full(x):
        return net(x.permute(0, 2, 1)).permute(0, 2, 1)

    pick = (lambda o: o) if retro else (lambda o: o[:, :, case["q"]])
    drive(m, xs, case["cut"], N, full, pick, ctx, rtol, "eds", retro, "layer")
    y = streams(case, dt, 1, case["seed"] + 7, N)[0]
    exp = full(y)
    if not retro and case["sof"]:
        exp = exp[:, :, case["q"]].unsqueeze(2)
    util.expect(m.forward(y), exp, "forward", rtol)
    ctx.count("forward")
    if case["T2"]:
        m.clean_state()
        drive(m, more, [["s", 1]] * case["T2"], N, full, pick, ctx, rtol, "eds", retro, "second stream")


def run_encoder(case, ctx, dt, rtol):
    E, N, L = case["e"], case["n"], case["l"]
    act = ACTS[case["act"]]

    def regular():
        layer = nn.TransformerEncoderLayer(E, case["h"], case["ff"], case["drop"], act, case["eps"],
                                           batch_first=True)
        return nn.TransformerEncoder(layer, L, nn.LayerNorm(E) if case["norm"] else None,
                                     enable_nested_tensor=False)

    src, net = regular(), regular()
    nets.Builder(case["seed"], dt).init(src)
    xs = streams(case, dt, 1, case["seed"], case["T"])
    more = streams(dict(case, B=case["B"] + 1), dt, 1, case["seed"] + 11, case["T2"])
    calm(src, xs, more)  # (the first of two layers is retroactive)
    net.to(dt).eval()
    net.load_state_dict(src.state_dict())
    if case["build"] == "from":
        m = co.TransformerEncoder.build_from(src, N)
    else:
        fac = co.TransformerEncoderLayerFactory(
            E, case["h"], case["ff"], case["drop"], case["act"] if case["act"] in ("relu", "gelu") else act,
            case["eps"], sequence_len=N)
        m = co.TransformerEncoder(fac, L, nn.LayerNorm(E) if case["norm"] else None).to(dt)
        m.load_state_dict(co.TransformerEncoder.build_from(src, N).state_dict())
    m.train(case["train"])

    def full(x):
        return net(x.permute(0, 2, 1)).permute(0, 2, 1)

    drive(m, xs, case["cut"], N, full, lambda o: o[:, :, -1], ctx, rtol, "eds", False, "encoder")
    y = streams(case, dt, 1, case["seed"] + 7, N)[0]
    exp = full(y)
    o = m.forward(y)
    if L > 1 or (o is not None and o.shape[2:] == (1,)):
        exp = exp[:, :, -1:]
    util.expect(o, exp, "forward", rtol)
    ctx.count("forward")
    if case["T2"]:
        m.clean_state()
        drive(m, more, [["s", 1]] * case["T2"], N, full, lambda o: o[:, :, -1], ctx, rtol, "eds",
              False, "second stream")


@ambient
def run(case, ctx):
    dt = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    rtol = {"f64": 1e-6, "f32": 5e-3}[case["dt"]]
    before = ctx.n["out_frames"]
    {"mha": run_mha, "layer": run_layer, "encoder": run_encoder}[case["what"]](case, ctx, dt, rtol)
    ctx.count(case["what"])
    ctx.count("dropouts", case["drop"] > 0)
    return ctx.n["out_frames"] > before
