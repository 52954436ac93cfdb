"""Users' own continual modules, alone and inside networks, under the programs of the other monitors."""
import importlib

from . import nets, users
from .core import known_findings

SUBS = {"c05": 4, "c06": 3, "c07": 3, "c08": 3, "c09": 3, "c10": 2, "c11": 3, "c12": 2, "c16": 2, "c17": 1, "c18": 2, "c20": 1, "c23": 1, "c13": 1, "c19": 1, "c21": 1, "c22": 1, "c26": 1, "c27": 1, "c15": 1}
CASES = {"quick": 1600, "thorough": 50000}
CASE_TIMEOUT = 60
RULE = ("the networks, streams and programs of the monitors C05-C13, C15-C23, C26 and C27 with convolutions replaced by modules which a user "
        "of the library might write (a CoModule with _forward_step and a functional or in-place state, or with all methods of its own; "
        "attributes of the class, of the instance or properties; tuples and lists; the state declared or not), judged by those monitors; non-trivial as there")
REACH = {"users": 1500, "out_frames": 5000, "impl_state": 400, "impl_inplace": 150, "impl_rolling": 150, "impl_override": 150, "strided": 200, "padded": 200,
         **{"sub_" + k: 10 for k in SUBS}, "attrs_registered": 100, "undeclared_state": 100}


def specs(case):
    """All specifications of convolutions in a case."""
    if isinstance(case, dict):
        if case.get("k") == "conv" and "ks" in case:
            yield case
        for v in case.values():
            yield from specs(v)
    elif isinstance(case, list):
        for v in case:
            yield from specs(v)


def generate(r, tier, idx):
    name = r.choices(sorted(SUBS), [SUBS[k] for k in sorted(SUBS)])[0]
    sub = importlib.import_module("vm." + name)
    impls = [i for i in users.IMPLS if not (name in ("c18", "c22") and i != "state")]
    share = r.choice([0.4, 0.8, 1.0])
    orig = nets.rand_conv

    def rand_conv(q, nd, cin, cout=None, **kw):
        s = orig(q, nd, cin, cout, **kw)
        if q.random() < share:
            one = [1] * (nd - 1)
            s.update(ks=[s["ks"][0], *one], ss=[s["ss"][0], *one], ps=[s["ps"][0], *[0] * (nd - 1)], ds=[1] * nd, g=1,
                     pm="zeros", fill="zeros", brief=False, user=[q.choice(impls), q.choice(users.ATTRS)], lists=q.random() < 0.3,
                     bare=name not in ("c18", "c22") and q.random() < 0.3)
            s.pop("nn", None)
        return s

    nets.rand_conv = rand_conv
    try:
        for _ in range(40):
            case = sub.generate(r, tier, idx)
            if case is not None and any(s.get("user") for s in specs(case)):
                return dict(sub=name, case=case)
    finally:
        nets.rand_conv = orig
    return None


def run(case, ctx):
    sub = importlib.import_module("vm." + case["sub"])
    ctx.count("sub_" + case["sub"])
    for s in specs(case["case"]):
        if s.get("user"):
            ctx.count("users")
            ctx.count("impl_" + s["user"][0])
            ctx.count("attrs_" + s["user"][1])
            ctx.count("undeclared_state", bool(s.get("bare")))
            ctx.count("strided", s["ss"][0] > 1)
            ctx.count("padded", s["ps"][0] > 0)
    # Known findings of the other property are reported there
    mine, found = ctx.listed, dict(ctx.findings)
    ctx.listed = known_findings(case["sub"].upper())
    try:
        return sub.run(dict(case["case"], seed=case["seed"]), ctx)
    finally:
        ctx.listed, ctx.findings = mine, found
