"""update_state=False: the output of a real call, and no effect."""
import torch

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1300, "thorough": 45000}
RULE = ("any module or network; a stream in random calls with peeks (single, multiple, padded; other "
        "data, also other batch sizes while fresh; by method or by calling the module) between them; "
        "each peek is compared with the real call on a twin with the same history, every later output "
        "with an unpeeked twin; non-trivial: a peek happened and an output followed")
REACH = {"peeks": 1500, "peek_outputs": 500, "peek_none": 300, "fresh_peeks": 300, "running_peeks": 200,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:rnn": 20, "k:mha": 20, "k:enc": 20, "k:rpe": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20, "parallel": 20, "rpe_adv": 5}


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.6)
    for q in nets.walk(z["spec"]):
        if q["k"] == "rpe":
            q["adv"] = r.choice([0, 0, 1, 2])  # steps which forward (but no peek) advances
    k, s = zoo.span(z)
    mx = zoo.max_T(z["spec"])
    T = r.choice([k + s, 2 * k + s, k + r.randint(0, 6)])
    cut = zoo.rand_cut(r, T, mx)
    n = len(cut)
    peeks = []
    for _ in range(r.randint(1, 4)):
        at = r.choice([0, n, r.randint(0, n)])
        op = r.choice(["s", "m", "m", "m" if zoo.has(z["spec"], "mha", "enc") else "p"])
        peeks.append(dict(at=at, op=op, n=1 if op == "s" else min(mx, r.choice([1, 2, k, k + s])),
                          call=r.random() < 0.3, twice=r.random() < 0.2,
                          B=r.choice([1, 3]) if at == 0 and r.random() < 0.5 else 0))
    return dict(z=z, B=r.choice([1, 2]), T=T, cut=cut, peeks=peeks, kind=zoo.rand_kind(r, z["spec"]),
                dt=r.choice(["f64", "f64", "f32"]), style=r.randint(0, 99), rest=k + s,
                cut2=zoo.rand_cut(r, k + s, mx), train=r.random() < 0.15)


def act(m, op, x, update, by_call=False):
    import continual as co

    kw = {} if update else dict(update_state=False)
    if op == "s":
        if by_call:
            with co.call_mode("forward_step"):
                o = m(x[:, :, 0], **kw)
        else:
            o = m.forward_step(x[:, :, 0], **kw)
        return [] if o is None else [util.copy_out(o)]
    if op == "p":
        kw["pad_end"] = True
    if by_call:
        with co.call_mode("forward_steps"):
            o = m(x, **kw)
    else:
        o = m.forward_steps(x, **kw)
    if o is None:
        return []
    o = util.copy_out(o)
    return [o[:, :, i] for i in range(o.shape[2])]


@ambient
def run(case, ctx):
    z, dt = case["z"], case["dt"]
    spec = z["spec"]
    rtol = zoo.rtol(spec, dt) * (10 if case["kind"] in ("mixed", "big") else 1)
    train = case["train"] and not zoo.has(spec, "bn", "act")

    def new():
        m, _ = zoo.make(z, case["seed"], dt, style=case["style"])
        return m.train() if train else m

    x = zoo.stream(z, case["T"], case["seed"], case["kind"], case["B"], dt)
    y = zoo.stream(z, case["rest"], case["seed"] + 1, "randn", case["B"], dt)
    m, plain = new(), new()
    t, n_out, n_peek = 0, 0, 0
    ops = [o for o in case["cut"]] + [None]
    for i, call in enumerate(ops):
        for j, p in enumerate(case["peeks"]):
            if p["at"] != i:
                continue
            w = zoo.stream(z, p["n"], case["seed"] + 10 + j, case["kind"] if j % 2 else "randn",
                           p["B"] or case["B"], dt)
            twin = new()
            zoo.drive(twin, x[:, :, :t], case["cut"][:i])
            try:
                exp = act(twin, p["op"], w, True, p["call"])
            except RuntimeError:
                # End padding of branches of which some have no frame yet (see C07)
                if p["op"] != "p" or not zoo.has(spec, "br", "res", "cond"):
                    raise
                try:
                    act(m, p["op"], w, False, p["call"])
                except RuntimeError:
                    ctx.count("both_raise")
                    continue
                raise Violation(f"padded peek at step {t} succeeds where the real call raises")
            for _ in range(2 if p["twice"] else 1):
                got = act(m, p["op"], w, False, p["call"])
                zoo.expect_frames(got, exp, f"peek {p['op']}{p['n']} at step {t} against the real call",
                                  rtol)
            ctx.count("peeks")
            ctx.count("peek_outputs", len(exp))
            ctx.count("peek_none", not exp)
            ctx.count("fresh_peeks", t == 0)
            ctx.count("running_peeks", n_out > 0)
            n_peek += 1
        if call is None:
            break
        op, n = call
        exp = zoo.call(plain, op, x[:, :, t : t + n])
        got = zoo.call(m, op, x[:, :, t : t + n])
        zoo.expect_frames(got, exp, f"call {op}{n} at step {t} after {n_peek} peeks", rtol)
        n_out += len(exp)
        t += n
    exp = zoo.flat(zoo.drive(plain, y, case["cut2"]))
    got = zoo.flat(zoo.drive(m, y, case["cut2"]))
    zoo.expect_frames(got, exp, f"continuation after {n_peek} peeks", rtol)
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    ctx.count("parallel", any(q.get("long") for q in nets.walk(spec)))
    ctx.count("rpe_adv", any(q.get("adv") for q in nets.walk(spec)))
    return n_peek > 0 and n_out + len(exp) > 0
