"""P04: cost codes denote the ground cost they spell, or are refused."""
import itertools

import torch as pt

from .. import util as U

TITLE = ("exhaustive enumeration of the sentences of the cost-code grammar and of its "
         "one-field corruptions through both decoders, against a reference parser and the "
         "values of the resulting cost")
ASSUMPTIONS = []
BOUNDS = {"quick": "engines 7 x identifiers 8 x powers 8 x types 9 x kappas 11 x field counts 0..7"}

ENG = ("t", "T", "", "n", "pt", "j", "tt")
IDS = ("NC", "NLC", "nc", "NCL", "", "N", "LC", "NLCX")
POW = ("1", "2", "2.0", "0.5", "3", "", "x", "1e1")
TYP = ("1", "2", "inf", "3", "1.5", "2.", "", "two", "1e0")
KAP = (None, "0", "0.5", "1", "10", "inf", "1e8", "1e2", "", "k", "nan")


def tasks(tier):
    for e, i in itertools.product(ENG, IDS):
        yield "full", dict(engine=e, id=i)
    for i in IDS:
        yield "short", dict(id=i)
    yield "fields", dict()
    for lab in (False, True):
        yield "default", dict(labels=lab)


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def ref_parse(fields, allow3):
    """-> None if malformed, else (id, power, type, kappa)"""
    f = list(fields)
    if len(f) == 3 and allow3:
        f = ["t"] + f
    if len(f) not in (4, 5):
        return None
    if f[0] != "t" or f[1] not in ("NC", "NLC"):
        return None
    q, p = num(f[2]), num(f[3])
    k = 1e8 if len(f) == 4 else num(f[4])
    if q is None or p is None or k is None:
        return None
    if f[1] == "NLC" and not k >= 0:
        return None
    return f[1], q, p, k


def decoders():
    from skwdro.base import cost_decoder as D
    return {
        "direct": (lambda code: D.cost_from_str(code), False),
        "parsed": (lambda code: D.cost_from_parse_torch(D.parse_code_torch(code, False)), True),
        "parsed-labels": (lambda code: D.cost_from_parse_torch(D.parse_code_torch(code, True)), True),
    }


X = U.grid(4, 2, k=1, dtype=pt.float64)
Z = U.grid(3, 4, 2, k=2, dtype=pt.float64)
Y = U.grid(4, 1, k=3, dtype=pt.float64)
T = U.grid(3, 4, 1, k=4, dtype=pt.float64)


def same_cost(ch, cost, want, what):
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    kind, q, p, k = want
    ch.check(isinstance(cost, NormCost), f"{what}: not a norm cost")
    ch.check(isinstance(cost, NormLabelCost) == (kind == "NLC"), f"{what}: wrong kind of cost")
    ch.check(float(cost.power) == q, f"{what}: power {cost.power} instead of {q}")
    ch.check(float(cost.p) == p, f"{what}: type {cost.p} instead of {p}")
    if kind == "NLC":
        ch.check(float(cost.kappa) == k, f"{what}: kappa {cost.kappa} instead of {k}")
    ch.close(cost(X.unsqueeze(0), Z, Y.unsqueeze(0), T),
             U.ref_cost(kind, p, q, k, X.unsqueeze(0), Z, Y.unsqueeze(0), T), f"{what}: value",
             rtol=1e-8, atol=1e-12)


def verdict(ch, fields, name):
    dec, allow3 = decoders()[name]
    code = "-".join(fields)
    want = ref_parse(code.split("-"), allow3)
    ch.op()
    if want is None:
        ch.raises((ValueError, AssertionError), lambda: dec(code), f"malformed code {code!r} ({name})")
        ch.outcome("refused")
    else:
        same_cost(ch, dec(code), want, f"code {code!r} ({name})")
        ch.outcome(want[0])
    ch.state(name, code)


def h_full(cfg, ch):
    name = ch.choose("decoder", ("direct", "parsed", "parsed-labels"))
    q = ch.choose("power", POW)
    p = ch.choose("type", TYP)
    k = ch.choose("kappa", KAP)
    verdict(ch, [cfg["engine"], cfg["id"], q, p] + ([] if k is None else [k]), name)


def h_short(cfg, ch):
    name = ch.choose("decoder", ("direct", "parsed", "parsed-labels"))
    verdict(ch, [cfg["id"], ch.choose("power", POW), ch.choose("type", TYP)], name)


def h_fields(cfg, ch):
    """Missing fields, trailing fields, reordered fields, signs."""
    name = ch.choose("decoder", ("direct", "parsed", "parsed-labels"))
    code = ch.choose("code", (
        "", "-", "t", "t-", "t-NC", "t-NC-2", "NC", "NC-2", "2-2", "t-2-2", "t-NC-2-2-", "t-NC-2-2-1-",
        "t-NC-2-2-1-1", "t-NLC-2-2-1-1", "t-NLC-2-2-1-1-1", "t-NLC-2-2--1", "t-NLC--2-2", "t-NLC-2--2-1",
        "t-NLC-2-2-1e-3", "t-NC-2-2-1e-3", "-t-NC-2-2", "t--NC-2-2", "NC-t-2-2", "t-2-2-NC", "2-2-NC",
        "t NC 2 2", "t_NC_2_2", "t-NC-2-2-1-t", "NC-2-2-1", "NLC-2-2-10", "t-NC-2,2", "t-NC-2-2 ",
        "t-NC-+2-2", "t-NC-2-infinity", "t-NLC-1-2-0.0", "t-NLC-1-2-007", "t-NLC-2-2-inf-inf",
        "t-NLC-2-2-10-x", "t-NLC-2-2-10-2-2-10"))
    verdict(ch, code.split("-"), name)


def h_default(cfg, ch):
    from skwdro.base import cost_decoder as D
    lab = cfg["labels"]
    code = ch.choose("code", (None, "t-NC-1-2", "NLC-2-2", "t-NLC-2-2-3", "t-NC-2-1", "t-NC-2-inf"))
    ch.op()
    parsed = D.parse_code_torch(code, lab) if lab or ch.choose("explicit", (True, False)) else D.parse_code_torch(code)
    want = ("NLC" if lab else "NC", 2., 2., 1e8) if code is None else ref_parse(code.split("-"), True)
    eng, i, q, p, k = parsed
    ch.check((eng, i, float(q), float(p), float(k)) == ("t",) + want,
             f"parsed code {code!r}: {(eng, i, q, p, k)} instead of {want}")
    ch.check(parsed.can_imp_samp() == (want[1] == 2 and want[2] == 2),
             f"parsed code {code!r}: importance sampling allowed for the wrong costs")
    same_cost(ch, D.cost_from_parse_torch(parsed), want, f"parsed code {code!r}")
    ch.state(code, lab)


HARNESSES = dict(full=h_full, short=h_short, fields=h_fields, default=h_default)
