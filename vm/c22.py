"""Conditional: precisely the selected branch runs, with the arguments of the call."""
import random

import torch
from torch import nn

import continual as co

from . import nets, ref, util, zoo
from .core import Inconclusive, Violation, ambient

CASES = {"quick": 6000, "thorough": 220000}
RULE = ("Conditionals over random branches (also none for false, nested, inside a Sequential, torch.nn modules) with "
        "predicates on the data, the length, the training mode, attributes and earlier calls; random schedules of all "
        "call modes, peeks, padded calls, clean_state and steps which thread a state, judged against one reference stream per branch; recording "
        "branches and predicates; non-trivial: both outcomes seen and outputs emitted")
REACH = {"calls": 20000, "true": 6000, "false": 6000, "passed": 1500, "out_frames": 8000, "peeks": 2000,
         "forwards": 1500, "recorded": 4000, "padded": 300, "restarts": 300, "nested": 150, "in_seq": 300,
         "lagged": 300, "by_call": 3000, "raised": 100, "threaded": 2000}

PREDS = ["mean", "mean", "long", "training", "attr", "alternate", "first", "true", "false", "truthy"]
LOG = []


class Rec(co.CoModule, nn.Module):
    """Branch which records its calls and multiplies."""

    def __init__(self, name, v):
        nn.Module.__init__(self)
        self.name, self.v = name, v

    def forward(self, input):
        LOG.append((self.name, "forward", None, None))
        return input * self.v

    def forward_step(self, input, update_state=True):
        LOG.append((self.name, "forward_step", None, update_state))
        return input * self.v

    def forward_steps(self, input, pad_end=False, update_state=True):
        LOG.append((self.name, "forward_steps", pad_end, update_state))
        return input * self.v

    def _forward_step(self, input, prev_state=None):
        LOG.append((self.name, "_forward_step", None, None))
        return input * self.v, prev_state


# ---------------------------------------------------------------- generation
def rand_branch(r, nd, sh, depth):
    o = r.choice(["branch", "branch", "branch", "rec", "rec", "cond", "nn", "rnn"])
    if o == "rec":
        return dict(k="rec", v=r.choice([-2.0, 0.5, 3.0]))
    if o == "cond" and depth > 0:
        return rand_cond(r, nd, sh, depth - 1)
    if o == "nn":
        return dict(k="act", f=r.choice(["tanh", "relu", "softplus", "softmax1"]))
    if o == "rnn" and nd == 1:
        return zoo.rand_rnn(r, sh.c)
    return nets.rand_branch(r, nd, sh, r.choice([0, 0, 1, 2, 3]), r.choice([1, 1, 1, 2]), sh.c, 1)


def rand_cond(r, nd, sh, depth):
    bs = [rand_branch(r, nd, sh, depth)]
    if r.random() < 0.75:
        bs.append(rand_branch(r, nd, sh, depth))
    return dict(k="dcond", pred=r.choice(PREDS), c=bs)


def generate(r, tier, idx):
    nd = r.choice([1, 1, 2])
    sh = nets.Shape(r.choice([1, 2, 4]), [3] * (nd - 1))
    cond = rand_cond(r, nd, sh, 1)
    front = None
    if r.random() < 0.25:
        front = nets.rand_branch(r, nd, sh, r.choice([0, 1, 2]), 1, sh.c, 0)
    ops = []
    for _ in range(r.randint(4, 24)):
        op = r.choice(["s"] * 5 + ["m"] * 3 + ["ps", "pm", "fwd", "clean", "train", "attr", "pad", "raise", "fs", "fs"])
        if op in ("clean", "pad") and r.random() < 0.6:
            op = "s"
        ops.append([op, r.randint(1, 6) if op in ("m", "pm", "pad") else 1, r.choice(["method", "attr", "ctx"])])
    return dict(nd=nd, c=sh.c, S=sh.S, cond=cond, front=front, ops=ops, B=r.choice([1, 2]),
                dt=r.choice(["f64", "f64", "f32"]))


# ---------------------------------------------------------------- construction
class Pred:
    """A predicate which records what it was asked."""

    def __init__(self, kind):
        self.kind, self.n, self.asked, self.fail = kind, 0, [], False

    def __call__(self, module, x):
        if self.fail:
            raise KeyError("predicate")
        self.asked.append((module, x.clone()))
        v = self.decide(module, x)
        self.n += 1
        return v

    def decide(self, module, x):
        k = self.kind
        if k == "mean":
            return bool(x.double().mean() > 0)
        if k == "long":
            return x.dim() > 2 and x.shape[2] > 2
        if k == "training":
            return not module.training
        if k == "attr":
            return getattr(module, "flag", False)
        if k == "alternate":
            return self.n % 3 != 1
        if k == "first":
            return bool(x.flatten()[0] > 0.2)
        if k == "truthy":  # neither True nor False
            return 3 if float(x.double().sum()) > 0 else None
        return k == "true"


def make(case):
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    b = nets.Builder(case["seed"], dtype)
    conds = []

    def build(spec, name):
        if spec["k"] == "rec":
            return Rec(name, spec["v"]), ref.Point(lambda x: x * spec["v"])
        if spec["k"] != "dcond":
            if spec["k"] == "act":
                mk, f = nets.ACTS[spec["f"]]
                return mk(), ref.Point(f)
            return b.build(spec, True)
        pairs = [build(s, name + str(i)) for i, s in enumerate(spec["c"])]
        p = Pred(spec["pred"])
        m = co.Conditional(p, *[m for m, _ in pairs])
        node = Node(p, m, [f for _, f in pairs], name)
        conds.append(node)
        return m, node

    with torch.no_grad():
        m, f = build(case["cond"], "c")
        if case["front"]:
            fm, ff = b.build(case["front"], True)
            m = co.Sequential(fm, m, co.Identity())
            return m.eval(), (ff, f), conds
    return m.eval(), (None, f), conds


class Node:
    """A Conditional and the streams of its branches."""

    s = 1

    def __init__(self, pred, m, refs, name):
        self.pred, self.m, self.name = pred, m, name
        d = [f.k - 1 - f.p for f in refs] + ([0] if len(refs) == 1 else [])
        self.delay = max(d)
        self.k, self.p = max(f.k for f in refs), max(f.p for f in refs)
        # the delay of a Conditional is that of its branches
        self.k = self.delay + 1 + self.p
        self.refs = refs
        self.lag = [self.delay - i for i in d]
        self.queue = [[] for _ in refs]
        self.lags = any(self.lag[: len(refs)])

    def reset(self):
        self.queue = [[] for _ in self.refs]
        for f in self.refs:
            f.reset()

    def clone(self):
        c = Node.__new__(Node)
        c.__dict__.update(self.__dict__)
        c.refs = [f.clone() for f in self.refs]
        c.queue = [list(q) for q in self.queue]
        c.pred = Pred(self.pred.kind)
        c.pred.n = self.pred.n
        return c

    def select(self, x, choices):
        v = bool(self.pred.decide(self.m, x))
        self.pred.n += 1
        i = 0 if v else 1
        choices.append((self.name, i if i < len(self.refs) else None))
        return i if i < len(self.refs) else None

    def feed(self, i, frames):
        """Frames after the delay of branch i."""
        q = self.queue[i]
        q += frames
        n = max(0, len(q) - self.lag[i])
        out, self.queue[i] = q[:n], q[n:]
        return out

    def step_one(self, x, choices):
        i = self.select(x, choices)
        if i is None:
            return x
        out = self.feed(i, [x])
        return step_one(self.refs[i], out[0], choices) if out else None

    def many(self, xs, choices, pad_end=False):
        """forward_steps on a list of frames; list of frames."""
        i = self.select(torch.stack(xs, 2), choices)
        if i is None:
            return xs
        out = self.feed(i, xs)
        if not out:
            return []
        f = self.refs[i]
        return f.many(out, choices, pad_end) if isinstance(f, Node) else f.steps(out, pad_end)

    def forward(self, x, choices):
        i = self.select(x, choices)
        if i is None:
            return x
        f = self.refs[i]
        return f.forward(x, choices) if isinstance(f, Node) else f.forward(x)


def step_one(f, x, choices):
    return f.step_one(x, choices) if isinstance(f, Node) else f.step(x)


# ---------------------------------------------------------------- monitor
@ambient
def run(case, ctx):
    m, (front, top), conds = make(case)
    dtype = {"f64": torch.float64, "f32": torch.float32}[case["dt"]]
    rtol = {"f64": 1e-8, "f32": 1e-3}[case["dt"]]
    r = random.Random(case["seed"])
    seen, n_out = set(), 0
    recs = {x.name for x in m.modules() if isinstance(x, Rec)}
    by_name = {n.name: n for n in conds}
    lagged = any(n.lags for n in conds)

    thread = dict(st=None, refs=(front.clone() if front is not None else None, top.clone()))

    for step, (op, n, how) in enumerate(case["ops"]):
        what = f"op {step} ({op}{n} by {how})"
        if op == "clean":
            m.clean_state()
            top.reset()
            if front is not None:
                front.reset()
            ctx.count("restarts")
            continue
        if op == "train":
            if any(isinstance(x, (nn.Dropout, nn.RReLU, nn.modules.batchnorm._BatchNorm)) for x in m.modules()):
                continue
            m.train(not m.training)
            continue
        if op == "attr":
            node = r.choice(conds)
            node.m.flag = not getattr(node.m, "flag", False)
            continue
        x = util.data((case["B"], case["c"], n, *case["S"]), case["seed"] + step, "randn", dtype)
        peek = op in ("ps", "pm")
        pad = op == "pad"
        one = op in ("s", "ps", "raise", "fs")
        if op == "fwd":
            x = util.data((case["B"], case["c"], 12, *case["S"]), case["seed"] + step, "randn", dtype)
        if pad and (front is not None or lagged or len(conds) > 1
                    or not all(c["k"] in ("conv", "avg", "max", "rec", "act") for c in case["cond"]["c"])):
            continue  # padding which passes several modules is judged by C07
        if op == "raise":
            node = conds[-1]
            if front is not None:
                continue
            node.pred.fail = True
            try:
                m.forward_step(x[:, :, 0])
            except KeyError:
                ctx.count("raised")
            else:
                raise Violation(f"{what}: an exception of the predicate did not reach the caller")
            finally:
                node.pred.fail = False
            continue

        if op == "fs":
            ff, tt = thread["refs"]
            for node in nodes(tt):
                node.pred.n = by_name[node.name].pred.n
            choices = []
            y = ff.step(x[:, :, 0]) if ff is not None else x[:, :, 0]
            exp = None if y is None else tt.step_one(y, choices)
            for v in by_name.values():
                v.pred.asked.clear()
            LOG.clear()
            got, thread["st"] = m._forward_step(x[:, :, 0], prev_state=thread["st"])
            LOG[:], log = [], list(LOG)
            util.expect(None if util.empty(got) else got, exp, f"{what}, branches {choices}", rtol)
            asked = [(k, a) for k, v in by_name.items() for a in v.pred.asked]
            judge_asked(asked, choices, by_name, conds, None if front is not None else x[:, :, 0], what)
            exp_log = expected_log(conds, choices, "s", False, False, recs, log)
            if exp_log is not None and [n for n, *_ in log] != [n for n, *_ in exp_log]:
                raise Violation(f"{what}: branches executed {log}, expected {exp_log}")
            ctx.count("threaded")
            continue

        # what has to happen
        snap = (front.clone() if front is not None else None, top.clone()) if peek else None
        counts = {k: v.pred.n for k, v in by_name.items()}
        choices = []
        if op == "fwd":
            y = front.forward(x) if front is not None else x
            exp = top.forward(y, choices) if y.shape[2] else None
        elif one:
            y = front.step(x[:, :, 0]) if front is not None else x[:, :, 0]
            exp = None if y is None else top.step_one(y, choices)
        else:
            ys = front.steps(util.frames(x)) if front is not None else util.frames(x)
            outs = top.many(ys, choices, pad) if ys else []
            exp = torch.stack(outs, 2) if outs else None
        for k, v in by_name.items():  # the real predicates count for themselves
            v.pred.n = counts[k]
            v.pred.asked.clear()
        LOG.clear()

        # what does happen
        got = call(m, op, x, how, peek, pad)
        LOG[:], log = [], list(LOG)
        if peek:
            front, top = snap[0], snap[1]
            rebind(top, by_name)
        if op != "fwd" or exp is not None:
            got = got[0] if isinstance(got, tuple) else got
            util.expect(got, exp, f"{what}, branches {choices}", rtol)
        asked = [(k, a) for k, v in by_name.items() for a in v.pred.asked]
        judge_asked(asked, choices, by_name, conds,
                    None if front is not None else x[:, :, 0] if one else x, what)
        # recording branches: which, how, with which arguments
        exp_log = expected_log(conds, choices, op, peek, pad, recs, log)
        if exp_log is not None and log != exp_log:
            raise Violation(f"{what}: branches executed {log}, expected {exp_log}")
        ctx.count("recorded", len(log))
        ctx.count("calls")
        ctx.count("by_call", how != "method")
        ctx.count("peeks", peek)
        ctx.count("padded", pad)
        ctx.count("forwards", op == "fwd")
        for c, i in choices:
            ctx.count("true", i == 0)
            ctx.count("false", i != 0)
            ctx.count("passed", i is None)
            seen.add((c, i))
        k = 0 if exp is None else 1 if one else exp.shape[2]
        ctx.count("out_frames", k)
        n_out += k
    ctx.count("nested", len(conds) > 1)
    ctx.count("in_seq", front is not None)
    ctx.count("lagged", lagged)
    return n_out > 0 and len({i for _, i in seen}) > 1


def judge_asked(asked, choices, by_name, conds, x, what):
    """Each predicate on the way was asked once, about its Conditional and the input."""
    want = sorted(c for c, _ in choices)
    if sorted(k for k, _ in asked) != want:
        raise Violation(f"{what}: predicates asked {sorted(k for k, _ in asked)}, expected {want}")
    for k, (mod, a) in asked:
        if mod is not by_name[k].m:
            raise Violation(f"{what}: the predicate was given {type(mod).__name__}, not its Conditional")
    if x is not None and asked:
        util.expect(dict(asked)[conds[-1].name][1], x, f"{what}: input of the predicate", exact=True)


def nodes(node):
    yield node
    for f in node.refs:
        if isinstance(f, Node):
            yield from nodes(f)


def rebind(node, by_name):
    """After a peek: the branch streams of before, the live predicates."""
    node.pred = by_name[node.name].pred
    by_name[node.name] = node
    for f in node.refs:
        if isinstance(f, Node):
            rebind(f, by_name)


def call(m, op, x, how, peek, pad):
    kw = {}
    if peek:
        kw["update_state"] = False
    if pad:
        kw["pad_end"] = True
    mode = {"s": "forward_step", "ps": "forward_step", "fwd": "forward"}.get(op, "forward_steps")
    x = x[:, :, 0] if mode == "forward_step" else x
    if how == "method" or mode == "forward":
        return getattr(m, mode)(x, **kw)
    if how == "ctx":
        with co.call_mode(mode):
            return m(x, **kw)
    old = m.call_mode
    m.call_mode = mode
    try:
        return m(x, **kw)
    finally:
        m.call_mode = old


def expected_log(conds, choices, op, peek, pad, recs, log):
    """Calls of recording branches which the choices imply; None if delays decide."""
    sel = []
    for c, i in choices:
        name = f"{c}{i}"
        if i is not None and name in recs:
            node = next(n for n in conds if n.name == c)
            if node.lag[i]:
                return None  # starts after the delay; the outputs tell
            sel.append(name)
    mode = {"s": "forward_step", "ps": "forward_step", "fwd": "forward"}.get(op, "forward_steps")
    return [(s, mode, None if mode != "forward_steps" else pad, None if mode == "forward" else not peek)
            for s in sel]
