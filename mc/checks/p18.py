"""P18: linear regression, predictions and the non-robust limit."""
import itertools

import numpy as np
import torch as pt

from .. import est as E, util as U

TITLE = ("all solvers, dimensions, sizes, intercept settings, label types and (re)fit histories of the real estimator, its predictions "
         "compared with the affine map of its attributes and its fits at radius zero with the closed form of (ridge) least squares")
ASSUMPTIONS = ["numpy's linear algebra is trusted", "the entropic solvers are given enough iterations to converge at radius zero (tolerance 2e-3)"]
BOUNDS = {"quick": "4 solvers, d in 1..3, n in 2..9, intercept on/off, 7 query sets, one array reused, refits of depth 2, 4 regularisations x 3 costs at radius 0; queries of 2100 rows; 6 types of data to fit; 12-1100 points, 1-130 features"}

SOLVERS = ("entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated")


def tasks(tier):
    dims = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for s, d, n in itertools.product(SOLVERS, dims, (2, 5, 9)):
        yield "predict", dict(solver=s, d=d, n=n)
    for s in SOLVERS:
        yield "refit", dict(solver=s)
        yield "unfitted", dict(solver=s)
        yield "wide", dict(solver=s)
        yield "types", dict(solver=s)
        for d, l2, cost in itertools.product(dims, (0., None, .5, 4.), ("t-NLC-2-2", "t-NC-2-2", "t-NLC-1-1-10")):
            if s == "dedicated" and (l2 or cost != "t-NLC-2-2"):
                continue
            yield "erm", dict(solver=s, d=d, l2=l2, cost=cost)


def lin(**kw):
    from skwdro.linear_models import LinearRegression
    return LinearRegression(**kw)


BUFFER = {d: np.zeros((5, d)) for d in range(1, 6)}


def queries(d):
    X = U.grid(33, d, k=11, dtype=pt.float64).numpy()
    yield "one row", X[:1]
    yield "two rows", X[:2]
    yield "many rows", X
    yield "zeros", np.zeros((3, d))
    yield "float32", X.astype("float32")
    yield "integers", np.arange(2 * d).reshape(2, d)
    yield "large", 1e6 * X[:4]


CROWD = {}


def crowd(d):
    if d not in CROWD:
        CROWD[d] = U.grid(2100, d, k=13, dtype=pt.float64).numpy()
    return CROWD[d]


def check_buffer(ch, e, d, what):
    """The same array again, after another fit or with other numbers in it."""
    B = BUFFER[d]
    for f in (e.predict,):
        for what2, at in (("unchanged", None), ("with a row changed", 3), ("refilled", slice(None))):
            if at is not None:
                f(B)
                B[at] = U.grid(*B[at].shape, k=17, dtype=pt.float64).numpy() - B[at]
            p, q = np.asarray(f(B)), np.asarray(f(B.copy()))
            ch.check(np.allclose(p, q, rtol=1e-6, atol=1e-9) if p.dtype.kind == "f" else np.array_equal(p, q),
                     f"{what}: predictions for an array {what2} since the last call")
        f(B)


def check_predict(ch, e, X, y, fi, what):
    d = X.shape[1]
    check_buffer(ch, e, d, what)
    w = np.asarray(e.coef_, dtype=float)
    b = np.asarray(e.intercept_, dtype=float)
    ch.check(w.shape == (d,), f"{what}: coefficients of shape {w.shape} for {d} features")
    ch.check(b.size == 1, f"{what}: {b.size} intercepts")
    if not fi:
        ch.check(abs(float(b.ravel()[0])) < 1e-9, f"{what}: intercept {b} though not fitted")
    ch.check(e.n_features_in_ == d, f"{what}: n_features_in_ is {e.n_features_in_}")
    for q, Q in queries(d):
        p = np.asarray(e.predict(Q))
        ref = np.array([sum(float(Q[i, j]) * w[j] for j in range(d)) + float(b.ravel()[0]) for i in range(len(Q))])
        ch.check(p.shape == (len(Q),), f"{what}: predictions of shape {p.shape} for {len(Q)} rows")
        sc = 1. + np.abs(np.asarray(Q, dtype=float)).max() * np.abs(w).sum()
        ch.close(p / sc, ref / sc, f"{what}: predictions for {q}", rtol=1e-6, atol=1e-6)
        one = np.array([float(np.asarray(e.predict(Q[i:i + 1]))[0]) for i in range(min(len(Q), 5))])
        ch.close(one / sc, p[:5] / sc, f"{what}: predictions row by row", rtol=1e-6, atol=1e-6)
    Q = crowd(d)
    p = np.asarray(e.predict(Q), dtype=float)
    ch.check(p.shape == (len(Q),), f"{what}: predictions of shape {p.shape} for {len(Q)} rows")
    ch.close(p, Q @ w + float(b.ravel()[0]), f"{what}: predictions for {len(Q)} rows", rtol=1e-5, atol=1e-5 * (1. + np.abs(w).sum()))
    p = np.asarray(e.predict(X), dtype=float)
    v = ((y - y.mean()) ** 2).sum()
    if v > 0:
        ch.close(e.score(X, y), 1. - ((y - p) ** 2).sum() / v, f"{what}: score", rtol=1e-6, atol=1e-6)
    e.predict(BUFFER[d])


def data(n, d, k=0):
    X = U.grid(n, d, k=k, dtype=pt.float64).numpy()
    y = U.grid(n, k=k + 4, dtype=pt.float64).numpy() + 1.
    return X, y


def h_predict(cfg, ch):
    for b in BUFFER.values():
        b[:] = 0.
    fi = ch.choose("intercept", (True, False))
    rho = ch.choose("rho", (0., .1, 5.))
    yk = ch.choose("y", ("float", "int", "constant"))
    X, y = data(cfg["n"], cfg["d"])
    if yk == "int":
        y = np.arange(cfg["n"]) * 3 - 4
    elif yk == "constant":
        y = np.full(cfg["n"], 2.5)
    lr = ch.choose("lr", (None, .1))
    if cfg["solver"] == "dedicated" and lr:
        return
    ch.op()
    e = lin(rho=rho, fit_intercept=fi, solver=cfg["solver"], n_iter=(1, 3), n_zeta_samples=2, learning_rate=lr)
    E.fit(e, X, y)
    check_predict(ch, e, X, y, fi, f"{cfg['solver']}")
    ch.state(fi, rho, yk, E.digest(e))


TYPES = ("int64", "int8", "uint8", "bool", "float32", "float16")


def h_types(cfg, ch):
    """Data of any type to fit; the predictions for other data still follow the coefficients."""
    for b in BUFFER.values():
        b[:] = 0.
    kind = ch.choose("type", TYPES)
    fi = ch.choose("intercept", (True, False))
    d = ch.choose("d", (1, 3))
    X = ((np.arange(6 * d).reshape(6, d) ** 2 + np.arange(d)) % (2 if kind == "bool" else 5)).astype(kind)
    y = np.arange(6) * 3. - 4.
    if ch.choose("targets", ("same type", "float")) == "same type":
        y = np.abs(y).astype(kind)
    ch.op()
    e = lin(rho=.1, fit_intercept=fi, solver=cfg["solver"], n_iter=(1, 3), n_zeta_samples=2)
    E.fit(e, X, y)
    check_predict(ch, e, X, y.astype(float), fi, f"{cfg['solver']} fitted on {kind}")
    ch.state(kind, fi, d, E.digest(e))


def h_refit(cfg, ch):
    """Predictions follow the last fit."""
    for b in BUFFER.values():
        b[:] = 0.
    e = lin(rho=.1, solver=cfg["solver"], n_iter=(1, 3), n_zeta_samples=2)
    for k in range(3):
        d = ch.choose(f"d{k}", (1, 3))
        fi = ch.choose(f"intercept{k}", (True, False))
        s = ch.choose(f"solver{k}", (cfg["solver"], "entropic_torch_pre" if cfg["solver"] != "entropic_torch_pre" else "dedicated"))
        X, y = data(6, d, k=k)
        e.set_params(fit_intercept=fi, solver=s)
        ch.op()
        E.fit(e, X, y)
        check_predict(ch, e, X, y, fi, f"{s}, fit {k + 1}")
        # settings changed for a later fit do not concern the present one
        e.set_params(fit_intercept=not fi, solver="entropic_torch" if s == "dedicated" else "dedicated", rho=3., l2_reg=2.)
        check_predict(ch, e, X, y, fi, f"{s}, fit {k + 1}, then other settings")
        e.set_params(rho=.1, l2_reg=None)
        ch.state(k, d, fi, s)


def h_unfitted(cfg, ch):
    from sklearn.exceptions import NotFittedError
    op = ch.choose("op", ("predict", "score"))
    e = lin(solver=cfg["solver"])
    X, y = data(4, 2)
    ch.op()
    ch.raises(NotFittedError, lambda: e.predict(X) if op == "predict" else e.score(X, y), f"{op} before fit")
    E.fit(e.set_params(n_iter=(1, 2)), X, y)
    bad = ch.choose("bad", ("nan", "inf", "1d", "columns"))
    Q = {"nan": np.array([[0., np.nan]]), "inf": np.array([[np.inf, 0.]]), "1d": np.zeros(2), "columns": np.zeros((2, 3))}[bad]
    ch.raises(ValueError, lambda: e.predict(Q), f"predict on {bad} data")
    if bad != "columns":
        ch.raises(ValueError, lambda: e.fit(Q, np.zeros(len(Q))), f"fit on {bad} data")
    ch.state(op, bad)


def h_erm(cfg, ch):
    """Radius 0: mean squared error + half the regularisation times the squared parameters."""
    from skwdro.solvers.optim_cond import OptCondTorch
    fi = ch.choose("intercept", (True, False))
    n = ch.choose("n", (6, 9))
    scale = ch.choose("seed", (0, 1))
    ch.op()
    X, y = U.lattice(n, cfg["d"], k=scale), data(n, 1, k=scale)[1]
    l2 = cfg["l2"]
    steps = (0, 60) if cfg["solver"].endswith("pre") else (20, 700)
    e = lin(rho=0., l2_reg=l2, fit_intercept=fi, solver=cfg["solver"], n_iter=steps, cost=cfg["cost"], n_zeta_samples=2,
            random_state=scale, opt_cond=OptCondTorch(2, 1e-9, 1e-9))
    E.fit(e, X, y)
    A = np.c_[X, np.ones(n)] if fi else X
    w = np.linalg.solve(A.T @ A * 2 / n + (l2 or 0.) * np.eye(A.shape[1]), A.T @ y * 2 / n)
    got = np.r_[np.ravel(e.coef_), np.ravel(e.intercept_)][:A.shape[1]]
    ch.close(got, w, f"{cfg['solver']}: least squares fit at radius 0, regularisation {l2}", rtol=2e-3, atol=2e-3)
    if cfg["solver"] != "dedicated":
        ch.close(np.ravel(e.dual_var_), np.zeros(1), "multiplier at radius 0")
        val = ((A @ w - y) ** 2).mean() + .5 * (l2 or 0.) * (w ** 2).sum()
        ch.close(np.ravel(e.robust_loss_)[0], val, f"{cfg['solver']}: robust loss at radius 0", rtol=2e-3, atol=2e-3)
    ch.state(fi, n)


def h_wide(cfg, ch):
    """Many points or many features."""
    n, d = ch.choose("shape", ((300, 2), (1100, 1), (12, 20), (40, 130)))
    fi = ch.choose("intercept", (True, False))
    X = U.grid(n, d, k=2, dtype=pt.float64).numpy()
    y = X @ (np.arange(d) % 3 - 1.) + .1 * U.grid(n, k=4, dtype=pt.float64).numpy() + 1.
    e = lin(rho=.01, fit_intercept=fi, solver=cfg["solver"], n_iter=(1, 3), n_zeta_samples=2)
    ch.op()
    E.fit(e, X, y)
    if d in BUFFER:
        BUFFER[d][:] = 0.
    else:
        BUFFER[d] = np.zeros((5, d))
    check_predict(ch, e, X, y, fi, f"{cfg['solver']} on {n} points in dimension {d}")
    ch.state(n, d, fi)


HARNESSES = dict(wide=h_wide, predict=h_predict, refit=h_refit, types=h_types, unfitted=h_unfitted, erm=h_erm)
