"""End padding: equals forward on a fresh stream, and stays out of the stream."""
import torch

import continual as co

from . import nets, ref, util, zoo
from .core import Violation, ambient

KEY = "pad-end-pollutes-downstream"
WHAT = ("Sequential.forward_steps(pad_end=True): frames derived from the end padding of one module enter "
        "the state of the modules behind it, so later outputs differ from those without pad_end")

KEY2 = "pad-end-lost-without-frames"
WHAT2 = ("Sequential.forward_steps(pad_end=True): if no frame leaves one module during the call (behind "
         "a stride or while warming up), the end padding of the modules behind it is left out")

CASES = {"quick": 1800, "thorough": 70000}
RULE = ("random module or network without attention; either forward_steps(x, pad_end=True) on a clean "
        "module against forward, or a random program of plain, padded and padded peeking calls, each "
        "call judged by the reference; non-trivial: a padded call that gave outputs, on a module or "
        "network with temporal padding or delay")
REACH = {"fresh": 300, "padded_frames": 500, "p": 300, "q": 300, "after_padding": 200, "probes": 1,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:delay": 20, "k:br": 30, "k:res": 30}


def generate(r, tier, idx):
    if idx == 0:
        return dict(probe=1)
    z = zoo.rand_any(r, 0.4, lambda s: not zoo.has(s, "mha", "enc"))
    k, s = zoo.span(z)
    mx = zoo.max_T(z["spec"])
    c = dict(z=z, B=r.choice([1, 2, 3]), kind=zoo.rand_kind(r, z["spec"]), style=r.randint(0, 99),
             dt=r.choice(["f64", "f64", "f32"]))
    if idx % 3 == 0:
        c["fresh"] = min(mx, r.choice([k, k + s, k + r.randint(0, 8), r.randint(1, 2 * k + 5)]))
        c["dirty"] = r.random() < 0.4
        c["peek"] = r.random() < 0.4
    else:
        prog = []
        for _ in range(r.randint(2, 6)):
            op = r.choice(["s", "m", "m", "p", "q", "p"])
            n = 1 if op == "s" else r.choice([1, 2, 3, k, k + s, r.randint(1, 2 * k + 2)])
            prog.append([op, min(n, mx)])
        prog.append([r.choice(["m", "p"]), min(mx, k + 2 * s)])
        c["prog"] = prog
    return c


def padded(m, x, update):
    o = m.forward_steps(x, pad_end=True, update_state=update)
    return [] if o is None else list(util.copy_out(o).unbind(2))


def probe2(ctx):
    """The smallest case of the second known finding."""
    def net():
        a, b = co.Conv1d(1, 1, 1, stride=2, bias=False), co.Conv1d(1, 1, 3, padding=1, bias=False)
        with torch.no_grad():
            a.weight.fill_(1.0), b.weight.fill_(1.0)
        return co.Sequential(a, b).double()

    x = torch.ones(1, 1, 4, dtype=util.F64)
    m = net()
    m.forward_steps(x[:, :, :3])
    got = padded(m, x[:, :, 3:], True)
    right = [net().forward(x)[:, :, 1]]
    if got:
        zoo.expect_frames(got, right, "padded call in which the first module is silent")
    else:
        ctx.finding(KEY2, WHAT2)


def probe(ctx):
    """The smallest case of the known finding, with the exact wrong value."""
    def net():
        a, b = co.Conv1d(1, 1, 3, padding=1, bias=False), co.Conv1d(1, 1, 3, bias=False)
        with torch.no_grad():
            a.weight.fill_(1.0), b.weight.fill_(1.0)
        return co.Sequential(a, b).double()

    x, y = torch.ones(1, 1, 4, dtype=util.F64), torch.ones(1, 1, 2, dtype=util.F64)
    m = net()
    util.expect(m.forward_steps(x, pad_end=True), m.forward(x), "padded")
    got = m.forward_steps(y)
    right = net().forward_steps(torch.cat([x, y], 2))[:, :, -2:]
    ctx.count("probes")
    if util.same(got, right):
        return
    # One frame of padding output (2.0) too many in the second convolution
    wrong = torch.tensor([[[3 + 2 + 3, 2 + 3 + 3]]], dtype=util.F64)
    if not util.same(got, wrong):
        util.expect(got, right, "after padding (and not the known deviation either)")
    ctx.finding(KEY, WHAT)


@ambient
def run(case, ctx):
    if "probe" in case:
        probe(ctx)
        probe2(ctx)
        return True
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    rtol = zoo.rtol(spec, dt) * (10 if case["kind"] in ("mixed", "big") else 1)
    k, s, p = nets.kspec(spec)
    for q in set(nets.kinds(spec)):
        ctx.count("k:" + q)
    lively = k > 1
    if "fresh" in case:
        T = case["fresh"]
        m, f = zoo.make(z, case["seed"], dt, style=case["style"])
        twin, _ = zoo.make(z, case["seed"], dt, style=case["style"])
        x = zoo.stream(z, T, case["seed"], case["kind"], case["B"], dt)
        if T + 2 * p < k or T < 1:
            ctx.count("too_short")
            return False
        if zoo.has(spec, "aavg", "amax"):
            ctx.count("adaptive")  # forward covers the whole input with any length
            return False
        if T < k:  # not every layer inside may have enough steps
            try:
                f.forward(x)
            except Exception:
                ctx.count("too_short")
                return False
        full = zoo.fwd(twin, x)
        if full.shape[2] == 0:
            return False
        if case["dirty"]:
            zoo.drive(m, zoo.stream(z, min(k, zoo.max_T(spec)), 5, "randn", 2, dt), [["s", 1]] * min(k, zoo.max_T(spec)))
            m.clean_state()
        if case["peek"]:
            got = padded(m, x, False)
            zoo.expect_frames(got, list(full.unbind(2)), f"padded peek on clean state, T={T}", rtol)
        got = padded(m, x, True)
        zoo.expect_frames(got, list(full.unbind(2)), f"padded on clean state, T={T}", rtol)
        ctx.count("fresh")
        ctx.count("padded_frames", len(got))
        return lively
    m, f = zoo.make(z, case["seed"], dt, style=case["style"])
    # What the known findings make of a clean and of a polluted stream
    _, lib = zoo.make(z, case["seed"], dt, style=case["style"], timed=True)
    _, g = zoo.make(z, case["seed"], dt, style=case["style"], timed=True)

    def predict(h, op, xs):
        try:
            return h.steps(xs, pad_end=op in ("p", "q"), polluted=op != "s")
        except ref.Mismatch:
            ctx.count("mismatch")
            return None  # raises

    clean, dirty, after, n_out, lossy = True, False, False, 0, False
    for i, (op, n) in enumerate(case["prog"]):
        x = zoo.stream(z, n, case["seed"] + i, case["kind"], case["B"], dt)
        xs = util.frames(x)
        pad = op in ("p", "q")
        a = (f.clone() if op == "q" else f).steps(xs, pad_end=pad)
        la = predict(lib.clone(), op, xs) if pad else a
        b = predict(g.clone() if op == "q" else g, op, xs) if dirty or not after else None
        if op == "p":
            lib.steps(xs)
        elif not pad:
            lib.steps(xs)
        what = f"call {i} ({op}{n}) of {case['prog']}"
        ctx.count(op)
        try:
            got = zoo.call(m, op, x) if not pad else padded(m, x, op == "p")
        except Exception:
            if dirty and b is None:
                clean = False  # branches polluted to different lengths cannot be reduced
                break
            if clean and la is None:
                lossy = True
                break
            raise
        if pad:
            ctx.count("padded_frames", len(got))
            n_out += len(got)
        ctx.count("after_padding", after)

        def ok(exp):
            return (exp is not None and len(got) == len(exp)
                    and all(util.same(u, v, rtol) for u, v in zip(got, exp)))

        was = clean
        if clean and not ok(a):
            if pad and ok(la) and len(la) < len(a):
                lossy = True
            else:
                clean = False
        dirty = dirty and ok(b)
        if not clean and not dirty:
            if was:
                zoo.expect_frames(got, a, what + " (nor as predicted by the known findings)", rtol)
            raise Violation(what + ": differs from how the earlier calls behaved")
        if op == "p" and not after:
            after = dirty = True
    if not clean:
        ctx.finding(KEY, WHAT)
    if lossy:
        ctx.finding(KEY2, WHAT2)
    return lively and n_out > 0
