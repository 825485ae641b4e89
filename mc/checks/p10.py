"""P10: initialisation of the multiplier."""
import itertools

import torch as pt

from .. import util as U
from .p01 import build, f64

TITLE = ("exhaustive product of losses, costs, shapes, radii and previous states on the real initialisation of "
         "the multiplier, against the minimiser of the first-order expansion of the robust problem; all row "
         "permutations and duplications, and initialise/update/evaluate histories")
ASSUMPTIONS = ["closed form compared for powers above 1; for power 1 positivity, scale and independence of the past"]
BOUNDS = {"quick": "losses 4, costs 21, shapes 8, radii 6, previous multipliers 3; histories of depth 4 over 6 operations"}

COSTS = ([("NC", p, q, None) for p in (1., 2., U.INF, 3.) for q in (2., 3., 1.5)] + [("NC", 2., 1.25, None), ("NC", 1., 4., None)] + [("NC", 2., 1., None), ("NC", 1., 1., None)]
         + [("NLC", 2., 2., k) for k in (0., .7, 1e8)] + [("NLC", 1., 3., .7), ("NLC", 2., 1., .7)])
SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (5, 3), (33, 2), (129, 1), (700, 1)]


def tasks(tier):
    for kind, lname, ci, shape in itertools.product(("pre", "post"), ("quad", "mse", "hub", "two"), range(len(COSTS)), SHAPES):
        if COSTS[ci][0] == "NLC" and lname in ("quad", "hub"):
            continue
        yield "guess", dict(kind=kind, loss="mse" if lname == "two" else lname, cost=ci, shape=shape,
                            dl=2 if lname == "two" else 1)
    for kind, lname, q in itertools.product(("pre", "post"), ("quad", "mse"), (1., 2., 3.)):
        yield "history", dict(kind=kind, loss=lname, power=q, depth=4 if tier == "quick" else 6)


def formula(cost, params, ref, x, y, rho, lname):
    """(mean_i c(grad_i)^(q/p))^(1/q) / (p rho^(p-1)), 1/p + 1/q = 1."""
    P = {k: f64(v) for k, v in params.items()}
    x = f64(x).requires_grad_(True)
    y = None if y is None else f64(y).requires_grad_(True)
    ref(P, x, y).sum().backward()
    gx = x.grad
    gy = None if y is None else y.grad
    c = U.ref_cost(*cost, gx, pt.zeros_like(gx), gy, None if gy is None else pt.zeros_like(gy))
    p = cost[2]
    q = p / (p - 1.)
    return float((c ** (q / p)).mean() ** (1. / q) / (p * rho ** (p - 1.)))


def monitor(ch, dual, cost, params, ref, x, y, rho, lname, what):
    lam = float(dual.lam)
    ch.check(lam >= 0. and lam < U.INF, f"{what}: multiplier is {lam}")
    if rho <= 0:
        ch.check(lam == 0., f"{what}: multiplier {lam} at radius 0")
    elif cost[2] == 1.:
        ch.check(lam > 0., f"{what}: null multiplier")
    else:
        want = formula(cost, params, ref, x, y, rho, lname)
        ch.check(abs(lam - want) <= 1e-5 * max(1., abs(want)), f"{what}: multiplier {lam} instead of {want}")
    return lam


def h_guess(cfg, ch):
    m, d = cfg["shape"]
    cost = COSTS[cfg["cost"]]
    rho = ch.choose("rho", (0., 1e-6, 1e-3, .3, 1., 20.))
    prev = ch.choose("previous", (0., .7, 1e6))
    how = ch.choose("rows", ("as is", "reversed", "twice"))

    def run(sel, prev):
        dual, prim, st, (x, y, z, t), params, ref = build(
            cfg["kind"], cfg["loss"], cost, m, 2, d, cfg["dl"], pt.float64, "mean", rho, .1)
        U.set_lam(dual, prev)
        if sel == "reversed":
            x, y = x.flip(0), None if y is None else y.flip(0)
        elif sel == "twice":
            x, y = pt.cat([x, x]), None if y is None else pt.cat([y, y])
        ch.op()
        dual.get_initial_guess_at_dual(x, y)
        ch.check(not st.calls, "initialisation: samples were drawn")
        return monitor(ch, dual, cost, params, ref, x, y, rho, cfg["loss"], f"initialisation ({sel})")

    v = run(how, prev)
    if how == "as is" and prev == 0.:
        w = run("reversed", .7)
        ch.check(abs(v - w) <= 1e-5 * max(1., v), f"initialisation depends on the past or the order: {v} {w}")
        if cost[2] != 1.:
            w = run("twice", 0.)
            ch.check(abs(v - w) <= 1e-5 * max(1., v), f"initialisation depends on repetitions: {v} {w}")
    ch.state(rho, prev, how)


def h_history(cfg, ch):
    cost = ("NC", 2., cfg["power"], None)
    kind = cfg["kind"]
    rho = .3
    dual, prim, st, (x, y, z, t), params, ref = build(
        kind, cfg["loss"], cost, 3, 2, 2, 1, pt.float64, "mean", rho, .1)
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("theta", "lam", "rho", "batch", "evaluate", "erm"))
        with pt.no_grad():
            if a == "theta":
                for v in params.values():
                    v.add_(.3)
            elif a == "lam":
                U.set_lam(dual, 5.)
            elif a == "rho":
                rho = {.3: .9, .9: 0., 0.: .3}[rho]
                dual.rho.fill_(rho)
            elif a == "batch":
                x = x * 1.5 + .1
            elif a == "erm":
                dual.erm_mode = not dual.erm_mode
        if a == "evaluate":
            v = dual(x, y) if kind == "post" else dual(x, y, z, t)
            v.backward()
        dual.get_initial_guess_at_dual(x, y)
        ch.op()
        monitor(ch, dual, cost, params, ref, x, y, rho, cfg["loss"], f"after {a}")
        ch.check(U.lam_leaf(dual).requires_grad, "the multiplier is not trainable any more")
        ch.state(k, a, rho)


HARNESSES = dict(guess=h_guess, history=h_history)
