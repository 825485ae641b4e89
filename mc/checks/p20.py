"""P20: the dedicated solvers of the linear models return optimal models."""
import itertools

import numpy as np

from .. import est as E, util as U

TITLE = ("all small designs, label arrangements, radii and intercept settings within bounds, the model returned by the real dedicated solvers "
         "compared, on the reference robust objective, with every neighbour on a lattice of directions and step sizes and with a reference optimum")
ASSUMPTIONS = ["the robust objectives are convex, so that a point that no direction and step of the lattice improves is optimal up to the tolerance",
               "tolerance 2e-4 (regression) and 2e-3 (classification) on the objective, that of the conic solvers"]
BOUNDS = {"quick": "d in 1..3, n in 1..7, 4 designs, 4 responses, 6 radii; all label arrangements of 4 points, 4 radii; directions {-1,0,1}^(d+1), 6 steps; up to 300 points or 12 features with pairwise directions"}

STEPS = (1e-3, 1e-2, .1, .5, 2., 10.)


def tasks(tier):
    ns = (1, 2, 4, 7) if tier == "quick" else (1, 2, 3, 4, 5, 7, 12)
    ks = (0, 1) if tier == "quick" else (0, 1, 2, 3)
    for d, n, k in itertools.product((1, 2, 3), ns, ks):
        yield "regression", dict(d=d, n=n, k=k)
    for d, n, k in ((2, 60, 0), (1, 300, 1), (7, 12, 0), (12, 40, 1), (5, 3, 0)):
        yield "regression", dict(d=d, n=n, k=k)
    for d, n in ((2, 40), (1, 120), (6, 20)):
        for rho in (.001, .05, .5):
            yield "classification", dict(d=d, k=0, rho=rho, n=n)
    for d, k in itertools.product((1, 2) if tier == "quick" else (1, 2, 3), ks):
        for rho in (.001, .05, .5, 5.):
            yield "classification", dict(d=d, k=k, rho=rho, n=4 if tier == "quick" else 5)


def neighbours(v):
    dirs = itertools.product((-1, 0, 1), repeat=len(v)) if len(v) <= 4 else itertools.chain(
        np.eye(len(v)), -np.eye(len(v)), *([(np.eye(len(v))[i] + s * np.eye(len(v))[j]) * r for s in (1, -1) for r in (1, -1)]
                                           for i, j in itertools.combinations(range(len(v)), 2)))
    for dire in dirs:
        if any(dire):
            for s in STEPS:
                yield v + s * np.array(dire)


def h_regression(cfg, ch):
    from scipy.optimize import minimize
    from skwdro.linear_models import LinearRegression
    d, n = cfg["d"], cfg["n"]
    fi = ch.choose("intercept", (True, False))
    rho = ch.choose("rho", (0., 1e-3, .1, 1., 3., 50.))
    resp = ch.choose("y", ("generic", "exact", "constant", "zero"))
    X = U.lattice(n, d, k=cfg["k"])
    y = {"generic": U.lattice(n, 2, k=cfg["k"] + 5)[:, 1] * 2. + .5, "exact": X @ np.arange(1., d + 1) + (1. if fi else 0.),
         "constant": np.full(n, 3.), "zero": np.zeros(n)}[resp]
    ch.op()

    def F(v):
        w, b = v[:d], (v[d] if fi else 0.)
        return np.sqrt(((X @ w + b - y) ** 2).mean()) + rho * np.sqrt((w ** 2).sum())

    e = LinearRegression(rho=rho, solver="dedicated", fit_intercept=fi)
    E.fit(e, X, y)
    w, b = np.ravel(e.coef_), np.ravel(e.intercept_)
    ch.check(w.shape == (d,) and b.shape == (1,), f"coefficients of shape {w.shape}, intercept {b.shape}")
    if not fi:
        ch.check(abs(b[0]) < 1e-6, f"intercept {b} though not fitted")
    v = np.r_[w, b] if fi else w
    f = F(v)
    ch.check(np.isfinite(f), f"robust loss {f}")
    tol = 2e-4 * (1. + np.abs(y).max())
    for u in neighbours(v):
        ch.check(F(u) >= f - tol, lambda: f"regression: {u.tolist()} has robust loss {F(u)}, the fit {v.tolist()} has {f}")
    for s in (np.zeros(len(v)), np.linalg.lstsq(np.c_[X, np.ones(n)] if fi else X, y, rcond=None)[0]):
        r = minimize(F, s, method="Nelder-Mead", options=dict(maxiter=200, xatol=1e-6, fatol=1e-8))
        for c in (s, r.x):
            ch.check(F(c) >= f - tol, lambda: f"regression: {c.tolist()} has robust loss {F(c)}, the fit {v.tolist()} has {f}")
    ch.state(fi, rho, resp)


def h_classification(cfg, ch):
    from skwdro.linear_models import LogisticRegression
    d, n, rho, kappa = cfg["d"], cfg["n"], cfg["rho"], 1000.
    fi = ch.choose("intercept", (True, False))
    lab = ch.choose("labels", [a for a in itertools.product((-1, 1), repeat=n) if len(set(a)) == 2] if n <= 5 else
                    [tuple(1 if (i * i + i // 3) % q < q // 2 else -1 for i in range(n)) for q in (2, 5, 7)])
    X = U.lattice(n, d, k=cfg["k"])
    y = np.array(lab)
    ch.op()

    def inner(v, lam):
        t = y * (X @ v[:d] + (v[d] if fi else 0.))
        return lam * rho + np.maximum(np.logaddexp(0., -t), np.logaddexp(0., t) - kappa * lam).mean()

    def F(v):
        nw = np.sqrt((v[:d] ** 2).sum())
        t = y * (X @ v[:d] + (v[d] if fi else 0.))
        return min(inner(v, lam) for lam in [nw] + [x for x in t / kappa if x > nw])

    e = LogisticRegression(rho=rho, solver="dedicated", fit_intercept=fi)
    E.fit(e, X, y)
    w = np.ravel(e.coef_)
    ch.check(w.shape == (d,), f"coefficients of shape {w.shape}")
    v = np.r_[w, np.ravel(e.intercept_)] if fi else w
    if not fi:
        ch.check(e.intercept_ is None or abs(float(np.ravel(e.intercept_)[0])) < 1e-6, f"intercept {e.intercept_} though not fitted")
    f = F(v)
    tol = 2e-3
    ch.close(e.result_, f, "classification: announced robust loss", rtol=tol, atol=tol)
    lam = float(np.ravel(e.dual_var_)[0])
    ch.check(lam >= np.sqrt((w ** 2).sum()) - tol * 5, f"classification: multiplier {lam} below the norm of {w.tolist()}")
    ch.close(inner(v, max(lam, 0.)), f, "classification: loss with the announced multiplier", rtol=5 * tol, atol=5 * tol)
    for u in itertools.chain(neighbours(v), [np.zeros(len(v))], neighbours(np.zeros(len(v)))):
        ch.check(F(u) >= f - tol, lambda: f"classification: {u.tolist()} has robust loss {F(u)}, the fit {v.tolist()} has {f}")
    ch.state(fi, lab)


HARNESSES = dict(regression=h_regression, classification=h_classification)
