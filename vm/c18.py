"""Explicit-state stepping and exported models against stateful stepping."""
import io
import logging
import warnings

import torch

import continual as co

from . import nets, util, zoo
from .core import Inconclusive, Violation

CASES = {"quick": 1400, "thorough": 45000}
RULE = ("thread: any module or network; several streams of different batch (and spatial) size share one "
        "module by threading the state through _forward_step, interleaved at random with the module's own "
        "stream, peeks, forward passes, and streams forked from a copied state; each output is compared "
        "with forward_step of a separate instance. onnx: modules and networks with an output at every "
        "step are exported at a random point of the steady state and run in ONNX Runtime for up to a few "
        "receptive fields on streams of the same and of another batch size; non-trivial: outputs were compared")
REACH = {"steps": 10000, "out_frames": 5000, "none_steps": 1000, "own_steps": 1000, "forks": 100, "peeks": 100,
         "forwards": 50, "exports": 150, "onnx_steps": 2000, "onnx_other_batch": 500, "onnx_unnamed": 30,
         "x:conv": 20, "x:max": 5, "x:avg": 5, "x:rnn": 5, "x:mha": 5, "x:enc": 5, "x:rpe": 3, "x:br": 2,
         "x:res": 5, "x:delay": 3,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20}
ASSUMPTIONS = ["ONNX Runtime executes the exported graph faithfully",
               "export is observed for unconditional paths and temporal stride 1 (traced graphs have no None)"]


def generate(r, tier, idx):
    if idx % 5 == 0:
        return gen_onnx(r)
    z = zoo.rand_any(r, 0.6, gates=True)
    spec = z["spec"]
    k, s = zoo.span(z)
    n = r.choice([1, 2, 2, 3])
    streams = [dict(B=r.choice([1, 2, 3]), grow=bool(z["S"]) and not zoo.has(z["spec"], "reshape", "lins") and r.random() < 0.3) for _ in range(n)]
    total = n * (k + 2 * s + r.randint(0, 4))
    ops = []
    nofw = z.get("nofwd") or zoo.has(spec, "rpe")
    for _ in range(min(total, 150)):
        u = r.random()
        if u < 0.8:
            # Bursts and turns
            ops += [["t", r.randrange(n)]] * r.choice([1, 1, 1, 2, 5])
        elif u < 0.92:
            ops.append(["own", r.choice([1, 1, 2, 3])])
        elif u < 0.95:
            ops.append(["fork", r.randrange(n)])
        elif u < 0.98 or nofw:
            ops.append(["peek", r.choice([1, 2])])
        else:
            ops.append(["fwd", k + 1])
        if len(ops) >= 200:
            break
    return dict(t="thread", z=z, streams=streams, ops=ops, own=dict(B=r.choice([1, 2]), grow=False),
                kind=zoo.rand_kind(r, spec), dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99),
                train=r.random() < 0.15)


def exportable(spec):
    for s in nets.walk(spec):
        if s["k"] == "cond":
            return False
        if s["k"] == "aavg" or s["k"] == "amax":
            if any(o != 1 for o in s["out"]):
                return False
    return True


def gen_onnx(r):
    while True:
        z = zoo.rand_any(r, 0.75, gates=True)
        spec = z["spec"]
        k, s = zoo.span(z)
        if s == 1 and k <= 25 and exportable(spec) and spec["k"] not in ("act", "bn", "prelu"):
            break
    return dict(t="onnx", z=z, B=r.choice([1, 1, 2]), B2=r.choice([0, 1, 3]), warm=r.randint(0, 6),
                n=min(2 * k + 6, 40), style=r.randint(0, 99), named=r.random() < 0.7,
                fold=r.random() < 0.7, opset=r.choice([14, 16, 17]), train=r.random() < 0.2)


def run(case, ctx):
    with torch.no_grad():
        return thread(case, ctx) if case["t"] == "thread" else onnx(case, ctx)


def clone(st):
    if isinstance(st, torch.Tensor):
        return st.detach().clone()
    if isinstance(st, (tuple, list)):
        return type(st)([clone(i) for i in st])
    return st


def thread(case, ctx):
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    rtol = zoo.rtol(spec, dt) * (10 if case["kind"] in ("mixed", "big") else 1)
    train = case["train"] and not zoo.has(spec, "bn", "act")

    def new():
        return zoo.make(z, case["seed"], dt, style=case["style"])[0].train(train)

    T = len(case["ops"]) + 4

    def data(p, seed):
        S = [i + 1 for i in z["S"]] if p["grow"] else z["S"]
        return zoo.stream(z, T, seed, case["kind"], p["B"], dt, S)

    m = new()
    streams = [dict(p=p, st=None, t=0, twin=new(), x=data(p, case["seed"] + 10 + i), past=[])
               for i, p in enumerate(case["streams"])]
    own, xo, to = new(), zoo.stream(z, 3 * T, case["seed"] + 1, case["kind"], case["own"]["B"], dt), 0
    outs = 0
    for i, op in enumerate(case["ops"]):
        if op[0] == "t":
            s = streams[op[1] % len(streams)]
            f = s["x"][:, :, s["t"]]
            s["past"].append(f)
            s["t"] += 1
            exp = util.copy_out(s["twin"].forward_step(f.clone()))
            o, s["st"] = m._forward_step(f.clone(), prev_state=s["st"])
            o = None if util.empty(o) else o
            util.expect(o, exp, f"op {i}: threaded step {s['t'] - 1} of stream {op[1]}", rtol)
            ctx.count("steps")
            ctx.count("out_frames", exp is not None)
            ctx.count("none_steps", exp is None)
            outs += exp is not None
        elif op[0] == "own":
            x = xo[:, :, to : to + op[1]]
            to += op[1]
            kind = "s" if op[1] == 1 else "m"
            if kind == "m" and op[1] > zoo.max_T(spec):
                kind, x, to = "s", x[:, :, :1], to - op[1] + 1
            exp = zoo.call(own, kind, x)
            zoo.expect_frames(zoo.call(m, kind, x), exp, f"op {i}: own stream of the module", rtol)
            ctx.count("own_steps")
        elif op[0] == "fork" and len(streams) < 5:
            s = streams[op[1] % len(streams)]
            twin = new()
            for f in s["past"]:
                twin.forward_step(f.clone())
            streams.append(dict(p=s["p"], st=clone(s["st"]), t=s["t"], twin=twin,
                                x=data(s["p"], case["seed"] + 100 + i), past=list(s["past"])))
            ctx.count("forks")
        elif op[0] == "peek":
            x = xo[:, :, : min(op[1], zoo.max_T(spec))]
            m.forward_steps(x, update_state=False)
            ctx.count("peeks")
        elif op[0] == "fwd":
            zoo.fwd(m, xo[:, :, : op[1]].clone())
            ctx.count("forwards")
    # The module's own stream goes on
    rest = min(zoo.span(z)[0] + 1, 3 * T - to)
    x = xo[:, :, to : to + rest]
    exp = zoo.drive(own, x, [["s", 1]] * rest)
    zoo.expect_frames(zoo.flat(zoo.drive(m, x, [["s", 1]] * rest)), zoo.flat(exp), "own stream at the end", rtol)
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return outs > 0


def leaves(st):
    if isinstance(st, torch.Tensor):
        return [st]
    if isinstance(st, (tuple, list)):
        return [j for i in st for j in leaves(i)]
    return []


def onnx(case, ctx):
    import onnxruntime as ort

    z = case["z"]
    spec = z["spec"]
    # Convolutions and recurrences of ONNX Runtime are in single precision only
    dt = "f64" if set(nets.kinds(spec)) <= {"mha", "rpe", "delay", "skip"} else "f32"
    rtol = {"f64": 1e-6, "f32": 2e-2 if zoo.has(spec, "mha", "enc") else 2e-3}[dt]
    kind = "half" if zoo.has(spec, "mha", "enc") else "randn"

    def new():
        return zoo.make(z, case["seed"], dt, style=case["style"])[0].eval()

    def data(B, seed):
        x = zoo.stream(z, k + case["warm"] + case["n"] + 40, seed, "randn", B, dt)
        return x * 0.5 if kind == "half" else x

    def warm(B, x):
        """Thread states until outputs flow."""
        m, twin, st, t = new(), new(), None, 0
        while True:
            o, st = m._forward_step(x[:, :, t], prev_state=st)
            e = twin.forward_step(x[:, :, t])
            t += 1
            if e is not None and t >= k + case["warm"]:
                return m, twin, [i.clone() for i in leaves(st)], t
            if t > k + 39:
                raise Inconclusive("no output")

    k, _ = zoo.span(z)
    x = data(case["B"], case["seed"] + 1)
    m, twin, st, t = warm(case["B"], x)
    own = new()
    xo = data(1, case["seed"] + 2)
    zoo.drive(m, xo[:, :, :k], [["s", 1]] * k)
    zoo.drive(own, xo[:, :, :k], [["s", 1]] * k)
    m.train(case["train"])
    f = io.BytesIO()
    args = (x[:, :, t].clone(), *[i.clone() for i in st])
    names = dict(input_names=["in"], output_names=["out"]) if case["named"] else {}
    level = logging.root.manager.disable
    logging.disable(logging.WARNING)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            co.onnx.export(m, args, f, do_constant_folding=case["fold"], opset_version=case["opset"], **names)
    except torch.onnx.errors.UnsupportedOperatorError as e:
        raise Inconclusive(f"no ONNX operator: {e}")
    except torch.onnx.errors.SymbolicValueError as e:
        raise Inconclusive(f"no ONNX operator: {e}")
    finally:
        logging.disable(level)
    if m.training != case["train"]:
        raise Violation("export changed the training mode")
    m.eval()
    zoo.expect_frames(zoo.flat(zoo.drive(m, xo[:, :, k : k + 6], [["s", 1]] * 6)),
                      zoo.flat(zoo.drive(own, xo[:, :, k : k + 6], [["s", 1]] * 6)), "own stream after export", 1e-3)
    ctx.count("exports")
    ctx.count("onnx_unnamed", not case["named"])
    opts = ort.SessionOptions()
    opts.intra_op_num_threads = 1
    opts.log_severity_level = 4
    try:
        sess = ort.InferenceSession(f.getvalue(), opts, providers=["CPUExecutionProvider"])
    except ort.capi.onnxruntime_pybind11_state.NotImplemented as e:
        raise Inconclusive(f"ONNX Runtime lacks a kernel: {e}")
    ins, outs = [i.name for i in sess.get_inputs()], [o.name for o in sess.get_outputs()]
    xin, xout = ("in", "out") if case["named"] else (ins[0], outs[0])
    snames = [f"s{i}" for i in range(len(st))]
    if [xin, *snames] != ins and not set(ins) <= {xin, *snames}:
        raise Violation(f"inputs of the exported model are {ins}, expected {[xin, *snames]}")
    missing = [n for n in [xout] + ["n" + n for n in snames] if n not in outs]
    if missing:
        raise Violation(f"outputs of the exported model are {outs}, missing {missing}")

    def stream(x, twin, st, t, what):
        cur = {n: s.numpy() for n, s in zip(snames, st)}
        for j in range(t, t + case["n"]):
            feed = {n: a for n, a in {xin: x[:, :, j].numpy(), **cur}.items() if n in ins}
            try:
                got = dict(zip(outs, sess.run(None, feed)))
            except Exception as e:
                raise Violation(f"{what}: the exported model fails at step {j - t}: {e}")
            cur = {n: got["n" + n] for n in snames}
            exp = twin.forward_step(x[:, :, j])
            util.expect(torch.from_numpy(got[xout]), exp, f"{what}: exported model at step {j - t}", rtol)
            ctx.count("onnx_steps")
            ctx.count("onnx_other_batch", what != "same batch")

    stream(x, twin, st, t, "same batch")
    if case["B2"]:
        x = data(case["B2"], case["seed"] + 3)
        _, twin, st, t = warm(case["B2"], x)
        stream(x, twin, st, t, f"batch {case['B2']}")
    for kk in set(nets.kinds(spec)):
        ctx.count("x:" + kk)
    return True
