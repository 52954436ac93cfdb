"""Edited Sequentials against the chain of their modules."""
import copy
from collections import OrderedDict

import torch
from torch import nn

import continual as co

from . import nets, util, zoo
from .core import Violation, ambient

CASES = {"quick": 1500, "thorough": 50000}
RULE = ("random Sequentials (named, numbered, empty at first) of size-preserving layers under a random program of edits (append, extend, "
        "+=, add_module, insert, replacement, deletion of one or a slice, pop, slicing, also of slices, moves from one to another, replacement by name; modules given may have run before) and streams in between; a "
        "mirror keeps the list of modules as a list would, and twins of these modules are chained by hand; compared are the modules, "
        "delay, stride, padding and receptive field, and every output; non-trivial: outputs after an edit")
REACH = {"edits": 4000, "out_frames": 3000, "none_calls": 300, "slices": 500, "converted": 100, "running_edits": 500, "past": 300,
         **{"e:" + k: 100 for k in ("append", "extend", "iadd", "add", "insert", "set", "del", "delslice", "pop", "slice", "readd", "move")}}
OPS = ["append", "append", "extend", "iadd", "add", "insert", "set", "set", "del", "delslice", "pop", "slice", "slice", "readd", "move"]


def layer(r, nd, c, S):
    sh = nets.Shape(c, S)
    o = r.choice(["branch"] * 4 + ["point"] * 3 + ["stride", "delay", "res", "br", "rnn", "seq"])
    if o == "point":
        return nets.rand_point(r, nd, c, S)
    if o == "stride":
        return nets.rand_conv(r, nd, c, c, k=r.choice([1, 2, 3]), s=2, p=r.choice([0, 0, 1]), same=True, replicate=False)
    if o == "delay":
        return dict(k="delay", d=r.choice([0, 1, 2]))
    if o == "res":
        return nets.rand_res(r, nd, sh, 0)
    if o == "br":
        return nets.rand_br(r, nd, sh, 0, r.choice([0, 1, 2]), 1, c)
    if o == "rnn" and nd == 1:
        return dict(k="rnn", t=r.choice(["RNN", "GRU", "LSTM"]), i=c, h=c)
    if o == "seq":
        return dict(k="seq", c=[nets.rand_point(r, nd, c, S), nets.rand_branch(r, nd, sh, r.choice([0, 1]), 1, c, 0)])
    return nets.rand_branch(r, nd, sh, r.choice([0, 1, 2]), 1, c, 0)


def generate(r, tier, idx):
    nd = r.choice([1, 1, 2, 3])
    c, S = r.choice([1, 2, 3]), [3] * (nd - 1)
    new = lambda n: [layer(r, nd, c, S) for _ in range(n)]  # noqa: E731
    ops = []
    for _ in range(r.randint(2, 9)):
        e = r.choice(OPS)
        op = dict(e=e, net=r.random(), i=r.random(), j=r.random(), step=r.choice([None, None, None, 2, -1]) if e == "delslice" else
                  r.choice([None, None, None, None, 2]), neg=r.random() < 0.4, conv=r.random() < 0.5, none=r.random() < 0.3, past=r.choice([0, 0, 1, 3, 6]))
        op["new"] = new(dict(append=1, add=1, insert=1, set=1, readd=1, extend=r.randint(0, 2), iadd=r.randint(0, 2)).get(e, 0))
        op["after"] = [dict(how=r.choice(["s", "s", "s", "m", "m", "f", "clean", "peek"]), n=r.randint(1, 6), net=r.random())
                       for _ in range(r.choice([0, 1, 1, 2, 3]))]
        ops.append(op)
    return dict(nd=nd, c=c, S=S, B=r.choice([1, 2]), init=new(r.choice([0, 1, 2, 3, 4])), named=r.random() < 0.3, ops=ops,
                last=[dict(how=h, n=8, net=1.0) for h in r.sample(["s", "m", "f"], 2)], style=r.randint(0, 99))


class Run:
    def __init__(self, case, ctx):
        self.case, self.ctx, self.n = case, ctx, 0
        self.b = nets.Builder(case["seed"], style=case["style"])
        self.nets = []  # (container, twins)
        self.mirror = {}  # id of the twin: (module given, converted)
        self.keep = []
        self.ran = set()

    def new(self, spec, convert):
        """A module to give and its twin; torch modules only where these are converted."""
        m = self.b.build(spec)[0].eval()
        if not convert and not co.CoModule.is_valid(m):
            m = co.continual(m)
        twin = copy.deepcopy(m)
        done = co.CoModule.is_valid(twin)
        twin = co.continual(twin)
        self.ctx.count("converted", not done)
        self.mirror[id(twin)] = m if done or type(twin) is type(m) else None
        self.keep.append(twin)
        return m, twin

    def check(self, net, twins, what):
        got = list(net)
        if len(net) != len(twins) or len(got) != len(twins):
            raise Violation(f"{what}: {len(net)} modules, expected {len(twins)}")
        for i, (g, t) in enumerate(zip(got, twins)):
            m = self.mirror[id(t)]
            if m is not None and g is not m or type(g) is not type(t) or net[i] is not g or net[i - len(got)] is not g:
                raise Violation(f"{what}: module {i} is a {type(g).__name__}, expected the {type(t).__name__}")
        if [m for _, m in net.named_children()] != got:
            raise Violation(f"{what}: children {list(net.named_children())}")
        if twins:
            same = co.Sequential(*twins)
            for a in ("delay", "receptive_field", "stride", "padding"):
                if getattr(net, a) != getattr(same, a):
                    raise Violation(f"{what}: {a} {getattr(net, a)}, of a Sequential of the same modules {getattr(same, a)}")
        n = sum(t.numel() for m in twins for t in m.parameters())
        if sum(p.numel() for p in net.parameters()) != n:
            raise Violation(f"{what}: {sum(p.numel() for p in net.parameters())} parameters, expected {n}")

    def edit(self, op):
        k = min(int(op["net"] * len(self.nets)), len(self.nets) - 1)
        net, twins = self.nets[k]
        e, n = op["e"], len(twins)
        i = min(int(op["i"] * n), n - 1)
        names = [q for q, _ in net.named_children()]
        if e == "insert" and names != [str(q) for q in range(n)]:
            e = "append"  # as in torch, by number only
        if e == "iadd" and names != [str(q) for q in range(n)]:
            e = "extend"
        if n == 0 and e in ("set", "del", "pop", "readd", "move"):
            return None
        made = [self.new(s, e in ("append", "extend", "iadd", "add") and op["conv"]) for s in op["new"]]
        if op["past"]:
            for m, t in made:
                if co.CoModule.is_valid(m):  # has run before
                    x = util.data((self.case["B"], self.case["c"], op["past"], *self.case["S"]), self.case["seed"] + 7 + len(self.keep))
                    m.forward_steps(x), t.forward_steps(x)
                    self.ctx.count("past")
        at = i - n if op["neg"] else i
        what = f"{e} on a Sequential of {n}"
        if e == "append":
            for m, t in made:
                net.append(m)
                twins.append(t)
        elif e == "extend":
            net.extend([m for m, _ in made])
            twins += [t for _, t in made]
        elif e == "iadd":
            other = nn.Sequential(*[m for m, _ in made])
            self.keep.append(other)
            before = net
            net += other
            if net is not before:
                raise Violation(f"{what} gives another container")
            twins += [t for _, t in made]
        elif e == "add":
            net.add_module(f"extra{len(self.keep)}", made[0][0])
            twins.append(made[0][1])
        elif e == "insert":
            i = min(int(op["i"] * (n + 1)), n)
            net.insert(i - n if op["neg"] and i < n else i, made[0][0])
            twins.insert(i, made[0][1])
        elif e == "set":
            net[at] = made[0][0]
            twins[i] = made[0][1]
        elif e == "del":
            del net[at]
            del twins[i]
        elif e == "readd":
            net.add_module(names[i], made[0][0])
            twins[i] = made[0][1]
        elif e == "move":
            net2, twins2 = self.nets[min(int(op["j"] * len(self.nets)), len(self.nets) - 1)]
            t = twins[i]
            if any(t is q for q in twins2) and net2 is not net:
                return None
            m = net.pop(at)
            del twins[i]
            net2.append(m)
            twins2.append(t)
        elif e == "pop":
            m = net.pop(at)
            if self.mirror[id(twins[i])] not in (None, m):
                raise Violation(f"{what} gives another module")
            del twins[i]
        elif e in ("delslice", "slice"):
            a, b = sorted((i, min(int(op["j"] * (n + 1)), n)))
            a, b = (None if op["none"] and op["neg"] else a), (None if op["none"] and not op["neg"] else b)
            if op["step"] == -1:
                a = b = None
            if e == "delslice":
                del net[a : b : op["step"]]
                del twins[a : b : op["step"]]
            else:
                part, t = net[a : b : op["step"]], twins[a : b : op["step"]]
                if type(part) is not co.Sequential or part is net:
                    raise Violation(f"{what} gives a {type(part).__name__}")
                self.nets.append((part.eval(), t))
                self.ctx.count("slices")
        self.ctx.count("e:" + e)
        self.ctx.count("edits")
        self.ctx.count("running_edits", k in self.ran)
        for c, t in self.nets:
            self.check(c, t, what)
        return what

    def run(self, op, what):
        self.n += 1
        k = min(int(op["net"] * len(self.nets)), len(self.nets) - 1)
        net, twins = self.nets[k]
        how, case, ctx = op["how"], self.case, self.ctx
        what = f"{what}, then {how}"
        if how == "clean":
            net.clean_state()
            for t in twins:
                if hasattr(t, "clean_state"):
                    t.clean_state()
            return 0
        n = op["n"]
        if how == "f":
            n += int(net.receptive_field) if twins else 0
        x = util.data((case["B"], case["c"], n, *case["S"]), case["seed"] + self.n)
        if how == "f":
            exp = x
            for t in twins:
                exp = zoo.fwd(t, exp)
            util.expect(net.forward(x), exp, what, 1e-8)
            self.ctx.count("out_frames", exp.shape[2])
            return exp.shape[2]
        self.ran.add(k)
        done = 0
        if how == "m":
            exp = x
            for t in twins:
                exp = t.forward_steps(exp)
                if util.empty(exp):
                    exp = None
                    break
            got = net.forward_steps(x)
            if exp is None:
                if not util.empty(got):
                    raise Violation(f"{what}: outputs, expected none")
            else:
                util.expect(got, exp, what, 1e-8)
                done = exp.shape[2]
            ctx.count("none_calls", exp is None)
        else:
            for f in util.frames(x):
                if how == "peek":  # counts for nothing
                    net.forward_step(f, update_state=False)
                exp = f
                for t in twins:
                    exp = t.forward_step(exp)
                    if exp is None:
                        break
                got = net.forward_step(f)
                if (exp is None) != (got is None):
                    raise Violation(f"{what}: step output {util.describe(got)}, expected {util.describe(exp)}")
                if exp is not None:
                    util.expect(got, exp, what, 1e-8)
                    done += 1
                ctx.count("none_calls", exp is None)
        ctx.count("out_frames", done)
        return done


@ambient
def run(case, ctx):
    q = Run(case, ctx)
    made = [q.new(s, True) for s in case["init"]]
    ms = [m for m, _ in made]
    net = co.Sequential(OrderedDict((f"name{i}", m) for i, m in enumerate(ms))) if case["named"] and ms else co.Sequential(*ms)
    q.nets.append((net.eval(), [t for _, t in made]))
    q.check(*q.nets[0], "construction")
    frames = 0
    for op in case["ops"]:
        what = q.edit(op)
        for o in op["after"]:
            frames += q.run(o, what or "no edit")
    for o in case["last"]:
        frames += q.run(o, "edits")
    return frames > 0
