"""P02: degenerate radii. rho=0 and the empirical mode give the empirical risk,
negative radii are refused, undefined radii are not silently replaced."""
import itertools
import math

import torch as pt

from .. import util as U
from .p01 import build, call, f64

TITLE = ("exhaustive product of losses, costs, batch shapes, reductions, radii in "
         "{0, NaN, negative, positive with the empirical mode} and evaluation/switch "
         "histories on the real dual losses, against the directly computed empirical risk")
ASSUMPTIONS = ["draws are dictated by a stub sampler; importance sampling on and off"]
BOUNDS = {"quick": "losses 5, costs 5, shapes 8, reductions 4, radii 7, histories of length 4"}

COSTS = [("NC", 2., 2., None), ("NC", 1., 1., None), ("NC", U.INF, 3., None),
         ("NLC", 2., 2., .7), ("NLC", 2., 2., 1e8)]
SHAPES = [(1, 1, 1), (1, 3, 2), (2, 1, 2), (2, 2, 1), (3, 2, 3), (4, 5, 2), (65, 2, 2), (3, 129, 1)]


def tasks(tier):
    for kind, lname, ci, shape, red in itertools.product(
            ("pre", "post"), ("quad", "mse", "logit", "fmse", "hub"), range(len(COSTS)), SHAPES,
            (None, "mean", "sum", "none")):
        if COSTS[ci][0] == "NLC" and lname in ("quad", "hub"):
            continue
        for dl in ((1, 2) if lname == "mse" else (1,)):
            yield "zero", dict(kind=kind, loss=lname, cost=ci, shape=shape, red=red, dl=dl)
    for kind, lname, ci in itertools.product(("pre", "post"), ("quad", "mse"), (0, 1, 3)):
        if COSTS[ci][0] == "NLC" and lname == "quad":
            continue
        yield "modes", dict(kind=kind, loss=lname, cost=ci, depth=4 if tier == "quick" else 6)


def emp(params, ref, data, red):
    x, y, _, _ = map(f64, data)
    P = {k: f64(v).requires_grad_(True) for k, v in params.items()}
    v = U.ref_reduce(ref(P, x, y).squeeze(-1), red)
    v.sum().backward()
    return v.detach(), {k: p.grad for k, p in P.items()}


def clear(dual):
    for p in dual.parameters():
        p.grad = None


def same_risk(ch, dual, val, params, want, shift, what):
    ch.close(val, want[0] + shift, f"{what} value", rtol=1e-8, atol=1e-9)
    if val.requires_grad:
        clear(dual)
        val.sum().backward()
        for k, v in params.items():
            ch.close(v.grad, want[1][k], f"{what} gradient", rtol=1e-8, atol=1e-8)


def evaluations(ch, dual, kind, data):
    """The ways to evaluate the loss: explicit draws, stored draws, resampling."""
    x, y, z, t = data
    if kind == "post":
        how = ch.choose("how", ("reset", "noreset"))
        return how, lambda: dual(x, y, reset_sampler=(how == "reset"))
    how = ch.choose("how", ("explicit", "stored"))
    if how == "stored":
        dual.zeta, dual.zeta_labels = z, t
        return how, lambda: dual(x, y)
    return how, lambda: dual(x, y, z, t)


def h_zero(cfg, ch):
    m, n, d = cfg["shape"]
    cost = COSTS[cfg["cost"]]
    what = ch.choose("radius", ("0", "-0.0", "erm", "neg", "tinyneg", "nan", "neginf"))
    rho = {"0": 0., "-0.0": -0., "erm": .3, "neg": .3, "tinyneg": .3, "nan": .3, "neginf": .3}[what]
    dual, prim, st, data, params, ref = build(
        cfg["kind"], cfg["loss"], cost, m, n, d, cfg["dl"], pt.float64, cfg["red"], rho, .1)
    lam = ch.choose("lam", (0., .6))
    U.set_lam(dual, lam)
    how, ev = evaluations(ch, dual, cfg["kind"], data)
    ch.state(what, lam, how)
    ch.op()
    if what in ("0", "-0.0"):
        want = emp(params, ref, data, cfg["red"])
        same_risk(ch, dual, ev(), params, want, 0., "rho=0")
    elif what == "erm":
        dual.erm_mode = True
        want = emp(params, ref, data, cfg["red"])
        v = ev()
        shift = (v.detach().double() - want[0]).reshape(-1)
        ch.check(bool((shift - shift[0]).abs().max() < 1e-9),
                 "empirical mode: not the empirical risk up to a constant")
        same_risk(ch, dual, v, params, want, float(shift[0]), "empirical mode")
        # the constant involves neither the model nor the data
        with pt.no_grad():
            for p in params.values():
                p.mul_(-1.3).add_(.2)
        x, y, z, t = data
        want2 = emp(params, ref, data, cfg["red"])
        same_risk(ch, dual, ev(), params, want2, float(shift[0]), "empirical mode, other model")
        if lam == 0.:
            ch.check(abs(float(shift[0])) < 1e-9, "empirical mode: constant at null multiplier")
    else:
        bad = {"neg": -.5, "tinyneg": -1e-12, "nan": math.nan, "neginf": -math.inf}[what]
        with pt.no_grad():
            dual.rho.fill_(bad)
        if what == "nan":
            try:
                v = ev()
            except (ValueError, RuntimeError):
                return
            ch.check(bool(pt.isnan(v).all()), f"undefined radius: got the number {v}")
        else:
            ch.raises(ValueError, ev, f"negative radius ({what}, {how})")
    ch.outcome(what)


def h_modes(cfg, ch):
    """All histories of mode/radius switches and evaluations."""
    cost = COSTS[cfg["cost"]]
    kind = cfg["kind"]
    dual, prim, st, data, params, ref = build(
        kind, cfg["loss"], cost, 3, 2, 2, 1, pt.float64, "mean", .3, .1)
    from .p01 import reference
    U.set_lam(dual, .6)
    erm, rho, stored = False, .3, False
    x, y, z, t = data
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("erm_on", "erm_off", "train", "eval", "rho0", "rho+", "theta"))
        if a in ("erm_on", "erm_off"):
            erm = a == "erm_on"
            dual.erm_mode = erm
        elif a == "train":
            dual.train()
        elif a == "eval":
            dual.eval()
        elif a == "theta":
            with pt.no_grad():
                for p in params.values():
                    p.add_(.25)
        else:
            rho = 0. if a == "rho0" else .3
            with pt.no_grad():
                dual.rho.fill_(rho)
        ch.op()
        if stored and kind == "pre" and k % 2:
            v = dual(x, y)
        else:
            v = call(dual, kind, x, y, z, t)
            stored = True
        if rho == 0.:
            same_risk(ch, dual, v, params, emp(params, ref, data, "mean"), 0., f"rho=0 after {a}")
        elif erm:
            w = emp(params, ref, data, "mean")
            same_risk(ch, dual, v, params, w, float(v) - float(w[0]), f"empirical mode after {a}")
        else:
            w = reference(cost, params, ref, data, .6, rho, .1, "mean")
            ch.close(v, w[0], f"robust loss after {a}", rtol=1e-8, atol=1e-9)
        ch.state(k, erm, rho, dual.training)


HARNESSES = dict(zero=h_zero, modes=h_modes)
