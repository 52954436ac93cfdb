"""delay, stride and receptive_field against the observed schedule and dependencies."""
import torch

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1500, "thorough": 60000}
RULE = ("any module or network; a fresh stream in single steps: the times of all outputs against delay "
        "and stride; a second stream which differs before some step: outputs more than receptive_field "
        "later must be equal; a third cut short: earlier outputs must be equal; warm_up: schedule "
        "afterwards and dummy steps counted; non-trivial: delay, stride or receptive field above one "
        "and an output")
REACH = {"schedules": 1000, "out_frames": 5000, "delay": 300, "strided": 150, "independent": 1000,
         "warm_up": 300, "warm_up_f64": 50, "warm_outputs": 300, "dummy_steps": 300,
         "k:conv": 50, "k:max": 20, "k:avg": 20, "k:mha": 20, "k:enc": 20,
         "k:delay": 20, "k:skip": 10, "k:br": 50, "k:res": 50, "k:cond": 20, "parallel": 20}
ASSUMPTIONS = [
    "the delay of single-output attention modules (an offset within the attention window) and the receptive_field "
    "of recurrent modules are outside the property",
]


def generate(r, tier, idx):
    z = zoo.rand_any(r, 0.5, lambda s: s.get("shrink") != "centered", gates=True)
    k, s = zoo.span(z)
    T = 2 * k + 3 * s + r.randint(0, 4)
    return dict(z=z, B=r.choice([1, 2]), T=T, kind=zoo.rand_kind(r, z["spec"]),
                style=r.randint(0, 99), cutoff=r.randint(1, T - 1), change=r.randint(1, T - 1),
                warm=r.random() < 0.5, wdt=r.choice(["f32", "f64"]))


@ambient
def run(case, ctx):
    z = case["z"]
    spec, T = z["spec"], case["T"]

    def new(dt="f64"):
        return zoo.make(z, case["seed"], dt, style=case["style"])[0]

    def steps(m, x):
        return [util.copy_out(m.forward_step(f)) for f in util.frames(x)]

    rtol = zoo.rtol(spec, "f64") * (100 if case["kind"] in ("mixed", "big") else 1)
    m = new()
    delay, rf = int(m.delay), int(m.receptive_field)
    stride = m.stride
    stride = int(stride[0] if isinstance(stride, (tuple, list)) else stride)
    x = zoo.stream(z, T, case["seed"], case["kind"], case["B"])
    outs = steps(m, x)
    at = [t for t, o in enumerate(outs) if o is not None]
    timed = not any(q["k"] == "enc" or q.get("t") == "single" for q in nets.walk(spec))
    if timed:
        exp = [t for t in range(T) if t >= delay and (t - delay) % stride == 0]
        if at != exp:
            raise Violation(f"delay={delay}, stride={stride}: outputs at steps {at} of {T}")
        if (int(m.delay), int(m.receptive_field)) != (delay, rf):
            raise Violation("delay or receptive_field changed while streaming")
        ctx.count("schedules")
    ctx.count("out_frames", len(at))
    # Only the receptive field counts
    if not zoo.has(spec, "rnn", "rpe"):
        a = case["change"]
        y = x.clone()
        y[:, :, :a] = zoo.stream(z, a, case["seed"] + 1, case["kind"], case["B"])
        new_outs = steps(new(), y)
        n = 0
        for t in at:
            if t - rf + 1 >= a:
                util.expect(new_outs[t], outs[t],
                            f"output at step {t}, receptive_field={rf}, inputs differ before step {a}", rtol)
                n += 1
        ctx.count("independent", n)
    # Nothing to come counts (nor how long the stream is)
    c = case["cutoff"]
    y = x[:, :, :c].clone()
    m2 = new()
    early = steps(m2, y)
    for t in range(c):
        util.expect(early[t], outs[t], f"output at step {t} of a shorter stream", rtol)
    if case["warm"] and timed:
        warm_up(case, new, z, delay, stride, rf, ctx)
        if not zoo.has(spec, "max", "amax"):
            count_dummies(new("f32"), z, case, ctx)
    for k in set(nets.kinds(spec)):
        ctx.count("k:" + k)
    ctx.count("parallel", any(q.get("long") for q in nets.walk(spec)))
    ctx.count("delay", delay > 0)
    ctx.count("strided", stride > 1)
    return bool(at) and (delay > 0 or stride > 1 or rf > 1)


def warm_up(case, new, z, delay, stride, rf, ctx):
    spec, dt = z["spec"], case["wdt"]
    m = new(dt)
    if delay > zoo.max_T(spec) or not hasattr(m, "warm_up"):
        return  # torch.nn modules converted in place have no state to warm up
    m.to(dict(f32=torch.float32, f64=torch.float64)[dt])  # Modules without parameters are told the type, too
    m.warm_up((case["B"], z["c"], *z["S"]))
    n = 2 * stride + 1 if zoo.has(spec, "rnn", "rpe") or delay + rf + stride > zoo.max_T(spec) else rf + 2 * stride
    x = zoo.stream(z, n, case["seed"], "randn", case["B"], dt)
    outs = [util.copy_out(m.forward_step(f)) for f in util.frames(x)]
    at = [t for t, o in enumerate(outs) if o is not None]
    if at != list(range(0, n, stride)):
        raise Violation(f"after warm_up of a module with delay {delay}, stride {stride}: outputs at {at}")
    ctx.count("warm_up")
    ctx.count("warm_up_f64", dt == "f64")
    if zoo.has(spec, "rnn", "rpe"):
        return
    # Behind the receptive field nothing is left of it
    twin = new(dt)
    for f in util.frames(zoo.stream(z, delay, case["seed"] + 5, "randn", case["B"], dt)) if delay else []:
        twin.forward_step(f)
    for t, f in enumerate(util.frames(x)):
        o = twin.forward_step(f)
        if t >= rf - 1 and o is not None:
            util.expect(outs[t], o, f"output {t} after warm_up of a module with delay {delay}, receptive field {rf}",
                        zoo.rtol(spec, dt))
            ctx.count("warm_outputs")


def count_dummies(m, z, case, ctx):
    """Put a counter in front."""
    seen = [0]

    def count(x):
        seen[0] += 1  # called per step
        return x

    class Counter(co.CoModule, torch.nn.Module):
        def forward(self, x):
            return x

        def _forward_step(self, x, prev_state=None):
            seen[0] += 1
            return x, prev_state

        def forward_step(self, x, update_state=True):
            seen[0] += 1
            return x

        def forward_steps(self, x, pad_end=False, update_state=True):
            seen[0] += x.shape[2]
            return x

    net = co.Sequential(Counter(), m)
    d = int(net.delay)
    if d > zoo.max_T(z["spec"]):
        return
    net.warm_up((case["B"], z["c"], *z["S"]))
    if seen[0] != d:
        raise Violation(f"warm_up of a network with delay {d} fed {seen[0]} steps")
    ctx.count("dummy_steps")
