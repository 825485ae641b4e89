"""P26: operations-research estimators return feasible decisions and evaluate them by the documented loss."""
import itertools

import numpy as np

from .. import est as E
from .. import util as U

TITLE = ("real fits of the newsvendor, portfolio and facility-location estimators for all settings of a table, their decisions and "
         "every evaluation/score against the documented losses computed from the decisions, under all histories of fits and evaluations")
ASSUMPTIONS = ["the newsvendor is evaluated on one-column demands", "the hidden threshold of the portfolio's risk term is recovered from "
               "an evaluation far in the gains and used to predict all others"]
BOUNDS = {"quick": "3 estimators x 2-4 solvers x 4 radii x 3-4 parameter pairs x 2 dimensions, 6 evaluation sets each; "
                   "histories of depth 3 over 5 operations; evaluations on 1500 points; 6 containers of evaluation data"}


def tasks(tier):
    big = tier != "quick"
    for solver, d in itertools.product(("entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"), (1, 2, 3, 5) if big else (1, 3)):
        yield "portfolio", dict(solver=solver, d=d)
    for solver in ("entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"):
        yield "newsvendor", dict(solver=solver)
    for solver, d in itertools.product(("entropic_torch", "entropic_torch_post", "entropic_torch_pre"), (1, 2, 4) if big else (1, 3)):
        yield "weber", dict(solver=solver, d=d)
    for kind in ("port", "news", "weber"):
        for solver in ("entropic_torch_post", "entropic_torch_pre", "dedicated"):
            if not (kind == "weber" and solver == "dedicated"):
                yield "containers", dict(kind=kind, solver=solver)
                yield "history", dict(kind=kind, solver=solver, depth=3 if not big else 4)


def num(v):
    return float(np.asarray(E.as_np(v)).reshape(-1)[0]) if np.asarray(E.as_np(v)).size == 1 else None


def eval_sets(d, positive=False):
    out = []
    for k, n in enumerate((1, 2, 3, 7)):
        X = U.grid(n, d, k=k + 3).numpy().astype("float64")
        out.append(np.abs(X) if positive else X)
    out.append(np.repeat(out[1], 3, axis=0))
    out.append(np.concatenate([out[2], out[3]]))
    X = U.grid(1500, d, k=8).numpy().astype("float64")
    out.append(np.abs(X) if positive else X)
    return out


def scalar(ch, v, what):
    a = np.asarray(E.as_np(v))
    ch.check(a.size == 1, f"{what} is not a number: shape {a.shape}")
    return float(a.reshape(-1)[0])


def evaluations(ch, est, sets, ref, what, ys=None, rtol=1e-3, atol=1e-4):
    for k, X in enumerate(sets):
        y = None if ys is None else ys[k]
        X0 = X.copy()
        ev = scalar(ch, est.eval(X) if y is None else est.eval(X, y), "evaluation")
        sc = scalar(ch, est.score(X) if y is None else est.score(X, y), "score")
        ch.close(sc, -ev, f"{what}: score is not minus the evaluation", rtol=1e-5, atol=1e-6)
        ch.close(ev, ref(X, y), f"{what}: evaluation on {len(X)} points", rtol=rtol, atol=atol)
        ch.check(np.array_equal(X, X0), f"{what}: evaluation modified its data")


def h_portfolio(cfg, ch):
    d, solver = cfg["d"], cfg["solver"]
    rho = ch.choose("rho", (0., .01, .3, 2.))
    eta, alpha = ch.choose("risk", ((0., .95), (.5, .5), (2., .25), (1., 1.)))
    n_iter = ch.choose("n_iter", ((2, 3), (0, 40)))
    cost = ch.choose("cost", ("t-NC-1-1", "t-NC-1-2", "t-NC-2-2")) if solver != "dedicated" else ch.choose("cost", ("t-NC-1-1", "t-NC-1-2"))
    X = U.grid(6, d, k=1).numpy().astype("float64")
    X[:, 0] *= 8.                    # strong incentives
    est = E.classes()["Portfolio"](rho=rho, eta=eta, alpha=alpha, solver=solver, n_iter=n_iter, cost=cost, n_zeta_samples=3, random_state=1,
                                   **(dict(learning_rate=.5) if ch.choose("lr", (True, False)) and solver != "dedicated" else {}))
    ch.op()
    E.fit(est, X, None)
    w = E.as_np(est.coef_).astype(float)
    ch.check(w.shape == (d,), f"weights of shape {w.shape} for {d} assets")
    ch.check(bool(np.isfinite(w).all()) and bool((w >= -1e-6).all()) and abs(w.sum() - 1) < 1e-4,
             f"{solver}, radius {rho}: weights {w.tolist()} are not in the simplex")
    sets = eval_sets(d)
    if solver == "dedicated":
        evaluations(ch, est, sets, lambda X, y: -(X @ w).mean(), "portfolio")
    elif eta == 0.:
        evaluations(ch, est, sets, lambda X, y: -(X @ w).mean(), "portfolio without risk")
    else:
        T = 1e4
        far = np.full((1, d), T)
        # gains of T everywhere: no shortfall, the value is -T + eta*tau
        tau = (scalar(ch, est.eval(far), "evaluation") + T * w.sum()) / eta
        if abs(tau) > 1e3:
            ch.state("far")
            return

        def ref(X, y):
            r = X @ w
            return (-r + eta * (tau + np.maximum(-r - tau, 0.) / alpha)).mean()
        evaluations(ch, est, sets, ref, f"portfolio eta={eta} alpha={alpha}", rtol=1e-2, atol=2e-2)
    ch.state(rho, eta, alpha, n_iter, cost, [round(v, 6) for v in w])


def h_newsvendor(cfg, ch):
    solver = cfg["solver"]
    rho = ch.choose("rho", (0., .01, .3, 2.))
    k, u = ch.choose("prices", ((5, 7), (.5, 3.), (2, 2.5)))
    n_iter = ch.choose("n_iter", ((2, 3), (0, 40)))
    cost = ch.choose("cost", ("t-NC-1-1", "t-NC-2-2")) if solver != "dedicated" else "t-NC-1-1"
    X = np.abs(U.grid(6, 1, k=1).numpy().astype("float64")) * 2
    est = E.classes()["NewsVendor"](rho=rho, k=k, u=u, solver=solver, n_iter=n_iter, cost=cost, n_zeta_samples=3, random_state=1)
    ch.op()
    E.fit(est, X, None)
    th = scalar(ch, est.coef_, "decision")
    ch.check(np.isfinite(th), f"decision {th}")
    if solver == "dedicated":
        ch.check(th >= -1e-9, f"negative order {th}")
    evaluations(ch, est, eval_sets(1, True), lambda X, y: (k * th - u * np.minimum(th, X)).mean(), f"newsvendor k={k} u={u}",
                rtol=1e-3, atol=1e-3)
    ch.state(rho, k, u, n_iter, cost, round(th, 6))


def h_weber(cfg, ch):
    solver, d = cfg["solver"], cfg["d"]
    rho = ch.choose("rho", (0., .01, .3))
    n_iter = ch.choose("n_iter", ((2, 3), (0, 40)))
    lr = ch.choose("lr", (None, .1))
    X = U.grid(6, d, k=1).numpy().astype("float64")
    wgt = np.abs(U.grid(6, k=2).numpy().astype("float64"))
    est = E.classes()["Weber"](rho=rho, solver=solver, n_iter=n_iter, n_zeta_samples=3, random_state=1, learning_rate=lr)
    ch.op()
    E.fit(est, X, wgt)
    pos = E.as_np(est.coef_).astype(float)
    ch.check(pos.shape == (d,), f"position of shape {pos.shape} in dimension {d}")
    if not np.isfinite(pos).all():
        ch.state("diverged", rho, n_iter, lr)
        return
    sets = eval_sets(d)

    def ref(X, y):
        y = np.ones(len(X)) if y is None else np.asarray(y, dtype=float).reshape(-1)
        return (y * np.sqrt(((X - pos) ** 2).sum(1))).mean()
    scale = dict(rtol=1e-3, atol=1e-3)
    evaluations(ch, est, sets, ref, "facility location without weights", **scale)
    evaluations(ch, est, sets, ref, "facility location with weights", [np.abs(U.grid(len(s), k=9).numpy()) for s in sets], **scale)
    evaluations(ch, est, sets, ref, "facility location with listed weights", [list(range(1, len(s) + 1)) for s in sets], **scale)
    ch.state(rho, n_iter, lr, [round(v, 6) for v in pos])


def h_history(cfg, ch):
    """Evaluations concern the last fit and do not change it."""
    kind = cfg["kind"]
    name = f"{kind} {cfg['solver']}"
    est, _, _ = E.make(name)
    fitted, buf = None, {}
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("fit a", "fit b", "eval", "score", "eval elsewhere", "eval row changed"))
        ch.op()
        if a.startswith("fit"):
            X, y = E.data(name, k=0 if a == "fit a" else 6, n=6 if a == "fit a" else 9, d=2 if a == "fit a" else 3)
            E.fit(est, X, y)
            fitted = (a, X, y)
        else:
            if fitted is None:
                ch.raises((AttributeError, AssertionError, ValueError), lambda: est.eval(U.grid(3, 2).numpy()), f"{a} before any fit")
                continue
            _, X, y = fitted
            n = 4
            Z = buf.setdefault(X.shape[1], np.zeros((n, X.shape[1])))       # always the same array
            Z[:] = X[:n] if a != "eval elsewhere" else X[:n] + .5
            if a == "eval row changed":
                Z[2] += .75
            args = (Z,) if y is None else (Z, y[:n])
            before = E.outcome(est)
            v = scalar(ch, (est.score if a == "score" else est.eval)(*args), a)
            after = E.outcome(est)
            ch.check(all(E.same(before[q], after[q]) for q in before) and before.keys() == after.keys(), f"{a} changed the fitted estimator")
            fresh, _, _ = E.make(name)
            E.fit(fresh, X, y)
            w = scalar(ch, (fresh.score if a == "score" else fresh.eval)(*args), a)
            ch.close(v, w, f"{a} after {k} operations is not that of the last fit", rtol=1e-5, atol=1e-6)
    ch.state(fitted and fitted[0], k)


def h_containers(cfg, ch):
    """The evaluation depends on the values of its data only."""
    name = f"{cfg['kind']} {cfg['solver']}"
    est, _, _ = E.make(name)
    X, y = E.data(name, k=0, n=6, d=2)
    E.fit(est, X if ch.choose("fitted on", ("floats", "whole numbers")) == "floats" else np.round(X * 4.).astype(int), y)
    Z = np.round(X * 4.) if ch.choose("values", ("halves", "whole")) == "whole" else np.round(X * 4.) / 2
    Z = Z[:ch.choose("rows", (1, 4, 6))]
    w = None if y is None else np.arange(1., len(Z) + 1)
    whole = bool((Z == np.round(Z)).all())
    kind = ch.choose("container", ("list", "float32", "column-major", "strided", "whole", "read-only"))
    if kind == "whole" and not whole:
        return
    if kind == "read-only":
        A = Z.copy()
        A.setflags(write=False)
    else:
        A = {"list": lambda: Z.tolist(), "float32": lambda: Z.astype("float32"), "column-major": lambda: np.asfortranarray(Z),
             "strided": lambda: np.repeat(np.repeat(Z, 2, 0), 3, 1)[::2, ::3], "whole": lambda: Z.astype(int)}[kind]()
    ch.op()
    c = E.as_np(est.coef_).astype(float).reshape(-1)
    if cfg["kind"] == "news":
        want = (est.k * c[0] - est.u * np.minimum(c[0], Z)).mean()
    elif cfg["kind"] == "weber":
        want = (w * np.sqrt(((Z - c) ** 2).sum(1))).mean()
    else:
        want = -(Z @ c).mean() if cfg["solver"] == "dedicated" or est.eta == 0. else None
    if want is not None:
        ch.close(scalar(ch, est.eval(Z.copy(), *(() if w is None else (w,))), "evaluation"), want, f"{name}: evaluation", rtol=1e-3, atol=1e-3)
    for f in ("eval", "score"):
        args = () if w is None else (w,)
        a = scalar(ch, getattr(est, f)(A, *args), f)
        b = scalar(ch, getattr(est, f)(Z.copy(), *args), f)
        ch.close(a, b, f"{name}: {f} on a {kind} container", rtol=1e-4, atol=1e-5)
    ch.state(kind, len(Z), round(a, 6))


HARNESSES = dict(containers=h_containers, portfolio=h_portfolio, newsvendor=h_newsvendor, weber=h_weber, history=h_history)
