"""P01: the robust loss is the entropic dual objective, value and gradients."""
import itertools

import torch as pt

from .. import util as U

TITLE = ("exhaustive product of losses, ground costs, batch shapes, reductions and "
         "(radius, temperature, multiplier) on the real dual losses, compared with a "
         "double precision evaluation of the dual formula and its autograd gradients")
ASSUMPTIONS = ["draws are dictated by a stub sampler (post) or passed explicitly (pre)",
               "importance sampling is off (P07 covers it)"]
BOUNDS = {"quick": "losses 5, costs 23, shapes (m,n,d) 9 small + 3 large, reductions 4, "
                   "rho 3 x eps 3 x lambda 3, pre/post, float32/float64"}

COSTS = ([("NC", p, q, None) for p in (1., 2., U.INF, 3.) for q in (1., 2., 3.)]
         + [("NC", 2., .5, None)]
         + [("NLC", p, q, k) for (p, q) in ((2., 2.), (1., 1.), (U.INF, 2.))
            for k in (0., .7, U.INF)]
         + [("NLC", 2., 2., 1e8)])
SHAPES = [(1, 1, 1), (1, 3, 2), (2, 1, 2), (2, 2, 1), (3, 2, 3), (2, 3, 2), (3, 1, 1),
          (4, 5, 2), (1, 4, 3)]
LARGE = [(33, 17, 2), (130, 3, 2), (2, 257, 3)]


def tasks(tier):
    for kind, lname, cost, shape, red in itertools.product(
            ("pre", "post"), ("quad", "mse", "logit", "fmse", "hub"), COSTS, SHAPES,
            (None, "mean", "sum", "none")):
        if cost[0] == "NLC" and lname in ("quad", "hub"):
            continue
        if red is None and shape not in SHAPES[:3]:
            continue
        if lname in ("fmse", "hub") and shape in SHAPES[5:]:
            continue
        yield "dual", dict(kind=kind, loss=lname, cost=list(map(str, cost)), shape=shape,
                           red=red, dtype="f64", dl=1, tier=tier)
    # several targets, single precision, large batches, hypertuning
    for kind, cost, shape, red in itertools.product(
            ("pre", "post"), COSTS, SHAPES[3:6] + LARGE, ("mean", "sum", "none")):
        yield "dual", dict(kind=kind, loss="mse", cost=list(map(str, cost)), shape=shape,
                           red=red, dtype="f64", dl=2, tier="quick")
    for kind, lname, cost, shape, red in itertools.product(
            ("pre", "post"), ("quad", "mse"), COSTS[:13] + COSTS[-4:], SHAPES + LARGE,
            ("mean", "sum")):
        if cost[0] == "NLC" and lname == "quad":
            continue
        yield "dual", dict(kind=kind, loss=lname, cost=list(map(str, cost)), shape=shape,
                           red=red, dtype="f32", dl=1, tier="quick")
    for kind, lname, q, red in itertools.product(
            ("pre", "post"), ("quad", "mse"), (1., 2., 3.), ("mean", "sum", "none")):
        yield "extreme", dict(kind=kind, loss=lname, power=q, red=red)
    for kind, lname, red in itertools.product(("pre", "post"), ("quad", "mse"), ("mean", "sum", "none")):
        yield "undefined", dict(kind=kind, loss=lname, red=red)
    for kind, lname, hist in itertools.product(("pre", "post"), ("quad", "mse"), (True, False)):
        yield "history", dict(kind=kind, loss=lname, reset=hist)


def _cost(c):
    return c[0], float(c[1]), float(c[2]), (None if c[3] == "None" else float(c[3]))


def build(kind, lname, cost, m, n, d, dl, dtype, red, rho, eps, hyper=False, l2=None):
    from skwdro.base.losses_torch import WrappedPrimalLoss
    from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
    loss, tr, lab, params, ref = U.primal_setup(lname, d, dl, dtype)
    x = U.grid(m, d, k=5, dtype=dtype)
    y = None
    if lab:
        y = U.grid(m, dl, k=6, dtype=dtype)
        if lname == "logit":
            y = pt.where(y > 0, 1., -1.).to(dtype)
    z = x.unsqueeze(0) + U.grid(n, m, d, k=7, dtype=dtype) * .8
    t = None
    if lab:
        t = y.unsqueeze(0) + U.grid(n, m, dl, k=8, dtype=dtype) * .3
        if lname == "logit":
            t = pt.where(U.grid(n, m, dl, k=8) > -.9, 1., -1.).to(dtype) * y.unsqueeze(0)
    if n > 2:           # a sample on top of its data point
        z[1] = x
        if t is not None:
            t[1] = y
    st = U.stub_samplers()(z, t)
    prim = WrappedPrimalLoss(loss, tr, st, lab, l2reg=l2)
    cls = DualPostSampledLoss if kind == "post" else DualPreSampledLoss
    dual = cls(prim, U.make_cost(*cost), n_samples=n + 2,
               epsilon_0=pt.tensor(eps, dtype=dtype), rho_0=pt.tensor(rho, dtype=dtype),
               n_iter=10, reduction=red, imp_samp=False, gradient_hypertuning=hyper)
    return dual, prim, st, (x, y, z, t), params, ref


def call(dual, kind, x, y, z, t):
    return dual(x, y) if kind == "post" else dual(x, y, z, t)


def f64(v):
    return None if v is None else v.detach().double()


def reference(cost, params, ref, data, lam, rho, eps, red, l2=None):
    x, y, z, t = map(f64, data)
    P = {k: f64(v).requires_grad_(True) for k, v in params.items()}
    lamt, rhot, epst = (pt.tensor(v, dtype=pt.float64, requires_grad=True)
                        for v in (lam, rho, eps))
    L = ref(P, z, t)
    if l2:
        L = L + .5 * l2 * sum((v ** 2).sum() for v in P.values())
    c = U.ref_cost(*cost, x.unsqueeze(0), z,
                   None if y is None else y.unsqueeze(0), t)
    val = U.ref_dual(L, c, lamt, rhot, epst, cost[2], red)
    val.sum().backward()
    return val.detach(), {k: v.grad for k, v in P.items()}, lamt.grad, rhot.grad, epst.grad


def compare(ch, dual, val, params, want, tol, hyper, what):
    wv, wg, wl, wr, we = want
    ch.close(val, wv, f"{what} value", **tol)
    val.sum().backward()
    for k, v in params.items():
        ch.check(v.grad is not None, f"{what} gradient: no gradient for {k}")
        g = dict(tol)
        g["atol"] = max(g["atol"], g["rtol"] * float(wg[k].abs().max()))
        ch.close(v.grad, wg[k], f"{what} gradient w.r.t. parameters", **g)
    lg = U.lam_leaf(dual).grad
    ch.check(lg is not None, f"{what} gradient: no gradient for the multiplier")
    ch.close(lg, wl, f"{what} gradient w.r.t. multiplier", **tol)
    if hyper:
        ch.close(dual.rho.grad, wr, f"{what} gradient w.r.t. radius", **tol)
        ch.close(dual.epsilon.grad, we, f"{what} gradient w.r.t. temperature",
                 rtol=1e-4, atol=1e-5)


def h_dual(cfg, ch):
    m, n, d = cfg["shape"]
    cost = _cost(cfg["cost"])
    dtype = pt.float64 if cfg["dtype"] == "f64" else pt.float32
    big = max(m, n) > 10
    rho = ch.choose("rho", (.3,) if big else (.05, .3, 2.))
    eps = ch.choose("eps", (.1,) if big else (.02, .1, 5.))
    lam = ch.choose("lam", (.6,) if big else (0., .6, 12.))
    hyper = cfg["loss"] == "mse" and rho == .3 and cfg["dtype"] == "f64"
    l2 = .5 if (cfg["loss"] == "quad" and eps == .1) else None
    dual, prim, st, data, params, ref = build(
        cfg["kind"], cfg["loss"], cost, m, n, d, cfg["dl"], dtype, cfg["red"], rho, eps,
        hyper, l2)
    U.set_lam(dual, lam)
    ch.state(rho, eps, lam)
    ch.op()
    val = call(dual, cfg["kind"], *data)
    want = reference(cost, params, ref, data, lam, rho, eps, cfg["red"], l2)
    tol = dict(rtol=1e-6, atol=1e-7) if dtype == pt.float64 else dict(rtol=2e-4, atol=2e-4)
    compare(ch, dual, val, params, want, tol, hyper, "robust loss")
    ch.outcome(("vector" if val.dim() else "scalar", cfg["red"]))


def h_extreme(cfg, ch):
    """Exponents far beyond the range of exp() in the arithmetic used."""
    cost = ("NC", 2., cfg["power"], None)
    scale = ch.choose("scale", (1e-3, 30., 1000.))
    eps = ch.choose("eps", (1e-7, 1e-4, 1e4))
    lam = ch.choose("lam", (0., 1e-3, 1e4))
    rho = ch.choose("rho", (1e-9, 1e-6, 1e-4, 10.))
    dual, prim, st, data, params, ref = build(
        cfg["kind"], cfg["loss"], cost, 3, 4, 2, 1, pt.float64, cfg["red"], rho, eps)
    x, y, z, t = data
    z = z * scale
    st.z = z
    U.set_lam(dual, lam)
    ch.op()
    val = call(dual, cfg["kind"], x, y, z, t)
    want = reference(cost, params, ref, (x, y, z, t), lam, rho, eps, cfg["red"])
    ch.state(scale, eps, lam, rho)
    ch.check(bool(pt.isfinite(val).all()), f"robust loss overflows: {val}")
    compare(ch, dual, val, params, want, dict(rtol=1e-6, atol=1e-6), False,
            "robust loss (extreme)")


def h_undefined(cfg, ch):
    """An undefined sample makes its data point's term undefined, never dropped."""
    cost = ("NC", 2., ch.choose("power", (1., 2.)), None)
    dual, prim, st, data, params, ref = build(
        cfg["kind"], cfg["loss"], cost, 3, 4, 2, 1, pt.float64, cfg["red"], .3, .1)
    x, y, z, t = data
    i, j = ch.choose("row", range(3)), ch.choose("sample", (0, 2, 3))
    z = z.clone()
    z[j, i] = float("nan")
    st.z = z
    U.set_lam(dual, .6)
    ch.op()
    val = call(dual, cfg["kind"], x, y, z, t)
    want = reference(cost, params, ref, (x, y, z, t), .6, .3, .1, cfg["red"])
    ch.close(val, want[0], "robust loss (undefined sample)", rtol=1e-7, atol=1e-8)
    ch.state(i, j)


def h_history(cfg, ch):
    """Sequences of evaluations/updates: the value only depends on the present
    parameters, hyper-parameters, batch and draws."""
    cost = ("NC", 2., 2., None)
    kind = cfg["kind"]
    dual, prim, st, data, params, ref = build(
        kind, cfg["loss"], cost, 3, 2, 2, 1, pt.float64, "mean", .3, .1)
    U.set_lam(dual, .6)
    lam, rho, eps = .6, .3, .1
    x, y, z, t = data
    for k in range(4):
        a = ch.choose(f"op{k}", ("theta", "lam", "batch", "draws", "rho", "eps", "red"))
        with pt.no_grad():
            if a == "theta":
                for v in params.values():
                    v.add_(.25)
            elif a == "lam":
                lam = lam * 2 + .1
                U.set_lam(dual, lam)
            elif a == "rho":
                rho = rho * .7
                dual.rho.fill_(rho)
            elif a == "eps":
                eps = eps * 3
                dual.epsilon.fill_(eps)
            elif a == "red":
                dual.reduction = {"mean": "sum", "sum": "none", "none": "mean"}[dual.reduction]
            elif a == "batch":   # other data, other batch size
                m = 2 if x.shape[0] == 3 else 3
                x = U.grid(m, 2, k=11 + k, dtype=pt.float64)
                y = None if y is None else U.grid(m, 1, k=12 + k, dtype=pt.float64)
                z = x.unsqueeze(0) + U.grid(2, m, 2, k=13 + k, dtype=pt.float64)
                t = None if y is None else y.unsqueeze(0) + U.grid(2, m, 1, k=14, dtype=pt.float64)
                st.z, st.t = z, t
            else:               # other draws, other number of draws
                n = 3 if z.shape[0] == 2 else 2
                z = x.unsqueeze(0) + U.grid(n, x.shape[0], 2, k=15 + k, dtype=pt.float64)
                t = None if y is None else y.unsqueeze(0) + U.grid(n, x.shape[0], 1, k=16, dtype=pt.float64)
                st.z, st.t = z, t
        for v in params.values():
            v.grad = None
        U.lam_leaf(dual).grad = None
        ch.op()
        if kind == "post" and not cfg["reset"]:
            val = dual(x, y, reset_sampler=False)
        else:
            val = call(dual, kind, x, y, z, t)
        want = reference(cost, params, ref, (x, y, z, t), lam, rho, eps, dual.reduction)
        compare(ch, dual, val, params, want, dict(rtol=1e-6, atol=1e-7), False,
                f"robust loss after {a}")
        ch.state(k, lam, rho, eps, x.shape, z.shape, dual.reduction,
                 float(sum(v.sum() for v in params.values())))


HARNESSES = dict(undefined=h_undefined, dual=h_dual, extreme=h_extreme, history=h_history)
