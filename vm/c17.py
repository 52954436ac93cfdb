"""A failing call leaves the module, its configuration and the contexts as they were."""
import random

import torch
from torch import nn

import continual as co

from . import nets, probes, util, zoo
from .core import Inconclusive, Violation, ambient

CASES = {"quick": 3500, "thorough": 120000}
RULE = ("any module or network with a past; calls made to fail by unsuitable inputs (channels, batch, space, dimensions, "
        "dtype, no tensor) or by exceptions injected in hooks and user modules at a random execution, in every call "
        "mode, as padded calls and peeks, by method, attribute, context and inside nested contexts; configuration of "
        "every nested module, mode actually run, continuation against a twin without the failure (if nothing was "
        "consumed) and behaviour after clean_state against a new one; non-trivial: an exception reached the caller")
REACH = {"raised": 4000, "injected": 2000, "unsuitable": 1000, "nothing_consumed": 800, "consumed": 500,
         "configs": 4000, "escaped": 500, "base_exception": 300, "continued_frames": 2000, "fresh_frames": 4000,
         "modes_run": 4000, "padded": 300, "peeks": 400, "k:conv": 300, "k:br": 200, "k:res": 150, "k:rnn": 60,
         "k:mha": 60, "k:enc": 50, "k:delay": 80, "k:cond": 80, "k:rpe": 30, "k:skip": 30}


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.5)
    spec = z["spec"]
    k, s = zoo.span(z)
    mx = zoo.max_T(spec)
    fails = []
    for _ in range(r.randint(1, 4)):
        op = r.choice(["s", "s", "m", "m", "ps", "pm", "pad", "fwd"])
        if op in ("pad", "fwd") and (zoo.has(spec, "mha", "enc") or z.get("nofwd")):
            op = "m"
        if op == "fwd" and mx < k:
            op = "m"
        fails.append(dict(
            op=op, n=min(mx, k + r.randint(0, 3)) if op not in ("s", "ps") else 1,
            how=r.choice(["method", "attr", "ctx", "ctx_out", "nested"]),
            what=r.choice(["pre", "pre", "post", "pre", "bad", "bad", "bad"]),
            bad=r.choice(["channels", "batch", "space", "dims", "dtype", "none", "more"]),
            at=r.random(), nth=r.choice([0, 0, 0, 1, 2, 3]), base=r.random() < 0.2,
            soil=r.choice([0, 1, r.randint(1, k + 2)])))
    T = min(40, k + s + r.randint(0, 3))
    return dict(z=z, B=r.choice([1, 2]), dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), fails=fails,
                T=T, cut=zoo.rand_cut(r, T, mx))


def config(m):
    """Everything a user may have configured or may rely on, of every nested module."""
    out = {}
    for name, mod in m.named_modules():
        for a in ("call_mode", "padding", "delay", "stride", "receptive_field", "training", "dilation", "kernel_size",
                  "flatten_state_dict"):
            try:
                v = getattr(mod, a)
            except Exception as e:
                v = type(e).__name__
            if callable(v):
                continue
            out[name, a] = str(v)
        out[name, "hooks"] = (len(mod._forward_hooks), len(mod._forward_pre_hooks))
    return out


def spoil(x, f, op):
    bad = f["bad"]
    if bad == "channels":
        return torch.cat([x, x[:, :1]], 1)
    if bad == "batch":
        return torch.cat([x, x, x], 0)
    if bad == "space":
        return torch.cat([x, x], -1) if x.dim() > 3 else x[..., None]
    if bad == "dims":
        return x[0, 0, 0].reshape(-1)[:1]
    if bad == "dtype":
        return (x * 10).to(torch.int64)
    if bad == "more":
        return x[..., None, None]
    return None


def mode_of(op):
    return {"s": "forward_step", "ps": "forward_step", "fwd": "forward"}.get(op, "forward_steps")


def kwargs(op):
    if op in ("ps", "pm"):
        return dict(update_state=False)
    return dict(pad_end=True) if op == "pad" else {}


def sentinel(ctx, exp, what):
    """Which mode a continual module outside runs now."""
    probes.take()
    p = probes.Probe("sentinel")
    p(torch.zeros(1, 1, 2))
    got = probes.take()[0][1]
    if got != exp:
        raise Violation(f"{what}: a module called now runs {got}, expected {exp}")
    ctx.count("modes_run")


def attempt(m, f, x, call, outer, ctx):
    """Make the call which is to fail; returns the exception or None."""
    mode = mode_of(f["op"])
    how = f["how"]
    try:
        if how == "ctx_out":  # escapes the context
            with co.call_mode(mode):
                call(x)
        elif how == "nested":
            other = {"forward": "forward_step", "forward_step": "forward_steps", "forward_steps": "forward"}[mode]
            with co.call_mode(other):
                try:
                    with co.call_mode(mode):
                        call(x)
                except (Exception, BaseBoom) as e:
                    sentinel(ctx, other, "after an exception left the inner context")
                    ctx.count("escaped")
                    return e
                sentinel(ctx, other, "after the inner context")
        elif how == "ctx":
            with co.call_mode(mode):
                try:
                    call(x)
                except (Exception, BaseBoom) as e:
                    sentinel(ctx, mode, "after an exception inside the context")
                    return e
        else:
            call(x)
    except (Exception, BaseBoom) as e:
        ctx.count("escaped", how == "ctx_out")
        return e
    return None


@ambient
def run(case, ctx):
    z, dt, B = case["z"], case["dt"], case["B"]
    spec, seed = z["spec"], case["seed"]
    mx = zoo.max_T(spec)
    tol = zoo.rtol(spec, dt)
    r = random.Random(seed)

    def fresh():
        return zoo.make(z, seed, dt, style=case["style"])[0]

    m, twin = fresh(), fresh()
    raised_any = False
    for i, f in enumerate(case["fails"]):
        what = f"failing call {i} ({f['op']}{f['n']} by {f['how']}, {f['what']}/{f['bad']})"
        n = min(f["soil"], mx)
        if n:
            xs = zoo.stream(z, n, seed + i, "randn", B, dt)
            cut = zoo.rand_cut(r, n)
            zoo.drive(m, xs, cut)
            zoo.drive(twin, xs, cut)
        x = zoo.stream(z, max(f["n"], 1), seed + 50 + i, "randn", B, dt)
        mode = mode_of(f["op"])
        if f["how"] == "attr":
            m.call_mode = mode
        conf = config(m)
        # watch which modules are executed
        ran, handles, boom = [], [], None
        kids = list(m.modules())
        for mod in kids:
            handles.append(mod.register_forward_pre_hook(lambda md, a: ran.append(md) and None))
        if f["what"] in ("pre", "post"):
            target = kids[int(f["at"] * len(kids))]
            left = [f["nth"]]
            boom = (BaseBoom if f["base"] else Boom)(what)

            def bomb(*a):
                left[0] -= 1
                if left[0] < 0:
                    raise boom

            reg = target.register_forward_pre_hook if f["what"] == "pre" else target.register_forward_hook
            if f["what"] == "pre":  # before the watcher says it ran
                handles.append(target.register_forward_pre_hook(bomb, prepend=True))
            else:
                handles.append(reg(bomb))
        kw = kwargs(f["op"])
        via = f["how"] in ("ctx", "ctx_out", "nested", "attr")

        def call(y):
            if f["op"] == "fwd" and f["how"] == "method":
                return m(y)
            return m(y, **kw) if via else getattr(m, mode)(y, **kw)

        y = x if boom is not None else spoil(x, f, f["op"])
        if mode == "forward_step" and y is not None and y.dim() > 2:
            y = y[:, :, 0]
        e = attempt(m, f, y, call, mode, ctx)
        for h in handles:
            h.remove()
        sentinel(ctx, "forward", f"{what}: outside of any context")
        if e is None:
            # the call was all right after all (or the hook was not reached): not judged
            if f["how"] == "attr":
                m.call_mode = "forward"
            m.clean_state()
            twin.clean_state()
            ctx.count("accepted")
            continue
        if boom is not None and e is not boom:
            raise Violation(f"{what}: the exception reached the caller as {type(e).__name__}: {e}")
        raised_any = True
        ctx.count("raised")
        ctx.count("injected" if boom is not None else "unsuitable")
        ctx.count("base_exception", isinstance(e, BaseBoom))
        ctx.count("padded", f["op"] == "pad")
        ctx.count("peeks", f["op"] in ("ps", "pm"))
        now = config(m)
        if now != conf:
            diff = {k: (conf.get(k), now.get(k)) for k in set(conf) | set(now) if conf.get(k) != now.get(k)}
            raise Violation(f"{what}: configuration changed (before, after): {diff}")
        ctx.count("configs")
        if f["how"] == "attr":  # still selected, and run
            probe_mode(m, x, mode, what, ctx, z, twin)
            m.call_mode = "forward"
            twin.clean_state(), m.clean_state()
            continue
        # What consumed input before the failure: modules which ran and do not only pass on
        workers = [md for md in ran if not isinstance(md, (co.Sequential, co.Parallel, co.Conditional))]
        touched = bool(workers) if boom is not None else len({id(w) for w in workers}) > 1
        touched = touched or f["what"] == "post"  # the target itself, at least
        if f["op"] == "fwd" and not zoo.has(spec, "rpe"):
            touched = False  # forward does not take part in the stream
        if f["op"] in ("ps", "pm"):
            touched = False  # nor does a peek
        single = not list(m.children()) or zoo.has(spec, "rnn", "mha", "rpe")
        if boom is not None and f["what"] == "pre" and target is m:
            touched = False
        if touched or (boom is None and not single and not clean_reject(spec, f)):
            ctx.count("consumed")
            m.clean_state(), twin.clean_state()
        else:
            ctx.count("nothing_consumed")
        T = min(case["T"], 3 + zoo.span(z)[0])
        xs = zoo.stream(z, T, seed + 90 + i, "randn", B, dt)
        cut = zoo.rand_cut(r, T, mx)
        a, b = zoo.drive(m, xs, cut), zoo.drive(twin, xs, cut)
        for (op, n), u, v in zip(cut, a, b):
            zoo.expect_frames(u, v, f"{what}: call {op}{n} afterwards, against a stream without it", tol)
            ctx.count("continued_frames", len(v))
    # clean_state after all of that
    m.clean_state()
    new = fresh()
    x = zoo.stream(z, case["T"], seed + 7, "randn", B, dt)
    for (op, n), u, v in zip(case["cut"], zoo.drive(m, x, case["cut"]), zoo.drive(new, x, case["cut"])):
        zoo.expect_frames(u, v, f"call {op}{n} after clean_state, against a new module", tol)
        ctx.count("fresh_frames", len(v))
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    return raised_any


def clean_reject(spec, f):
    """Networks whose first layer refuses such an input before anything else sees it."""
    while spec["k"] == "seq":
        spec = spec["c"][0]
    return spec["k"] in ("conv", "linear", "bn") and f["bad"] in ("channels", "none", "dims")


def probe_mode(m, x, mode, what, ctx, z, twin):
    """m(x) runs the mode selected by the attribute, as a new module of the same kind would."""
    m.clean_state(), twin.clean_state()
    if mode == "forward" and x.shape[2] < zoo.span(z)[0]:
        return
    y = x[:, :, 0] if mode == "forward_step" else x
    a = m(y)
    b = getattr(twin, mode)(y) if mode != "forward" else twin(y)
    util.expect(first(a), first(b), f"{what}: m(x) with call_mode = {mode}", 1e-3)
    ctx.count("modes_run")


def first(o):
    return o[0] if isinstance(o, tuple) else o
