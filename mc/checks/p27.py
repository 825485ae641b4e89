"""P27: the radius tuner refits the estimator at the candidate radius of best cross-validated score."""
import contextlib
import io
import warnings

import numpy as np

from .. import est as E, util as U

TITLE = ("real fits of the radius tuner, with its scheduler replaced by a sequential one, for all estimators, candidate ranges and data sets of a "
         "table, against a cross-validation written by hand over every candidate; all histories of fits of one tuner")
ASSUMPTIONS = ["the exact choice is judged for estimators that do not depend on the order of the rows (dedicated solvers, a stub)",
               "the scheduler (dask, joblib) is replaced by a sequential one; scikit-learn's successive halving is trusted beyond one round",
               "scores within 1e-6 of each other are considered tied"]
BOUNDS = {"quick": "9 estimators, 8 candidate ranges, 5 data sets, one round (exact choice) and several rounds (refit only), histories of 3 fits; ranges of 12-18 powers"}

RANGES = ((-4, 4), (0, 3), (-2, 2), (1, 2), (-1, 0), (2, 4), (-3, -1), (None, None))
WIDE = ((-9, 7), (-6, 12), (3, 15))
ESTIMATORS = {
    "lin": ("LinearRegression", dict(solver="dedicated")),
    "lin nobias": ("LinearRegression", dict(solver="dedicated", fit_intercept=False)),
    "lin post": ("LinearRegression", dict(solver="entropic_torch_post", n_iter=(2, 2), n_zeta_samples=2, learning_rate=.1)),
    "lin pre": ("LinearRegression", dict(solver="entropic_torch_pre", n_iter=(2, 2), n_zeta_samples=2, learning_rate=.1, l2_reg=.1)),
    "log": ("LogisticRegression", dict(solver="dedicated")),
    "log post": ("LogisticRegression", dict(solver="entropic_torch_post", n_iter=(2, 2), n_zeta_samples=2, learning_rate=.1)),
    "news": ("NewsVendor", dict(solver="dedicated", k=2., u=9.)),
    "port": ("Portfolio", dict(solver="dedicated", eta=.5, alpha=.5)),
    "stub": (None, {}),
}


def tasks(tier):
    for e in ESTIMATORS:
        for r in range(len(RANGES)):
            for k in range(5 if tier == "thorough" or not entropic(e) else 2):
                yield "tune", dict(est=e, range=r, data=k, rounds=1)
        yield "tune", dict(est=e, range=0, data=0, rounds=2)
        if e in ("lin", "stub", "news"):
            for r in range(len(WIDE)):
                for k in (0, 1):
                    yield "tune", dict(est=e, range=-1 - r, data=k, rounds=1)
        for first in (0, 1):
            yield "history", dict(est=e, first=first)
    yield "refusals", dict()


def entropic(name):
    return ESTIMATORS[name][1].get("solver", "").startswith("entropic")


def setup():
    """The tuner with a sequential scheduler in place of dask's."""
    import dask.distributed
    import joblib
    from joblib._parallel_backends import SequentialBackend

    class Client:
        def __init__(self, *a, **kw):
            pass

        def close(self, *a, **kw):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    dask.distributed.Client = Client
    joblib.register_parallel_backend("dask", lambda *a, **kw: SequentialBackend())
    import skwdro.base.rho_tuners as T
    return T.RhoTunedEstimator


def stub():
    from sklearn.base import BaseEstimator, RegressorMixin

    class Bump(RegressorMixin, BaseEstimator):
        """Its score is a bump around a radius that the data choose."""

        def __init__(self, rho=1., solver_reg=None):
            self.rho, self.solver_reg = rho, solver_reg

        def fit(self, X, y):
            self.seen_ = np.array(X)
            self.coef_ = np.array([float(self.rho)])
            return self

        def score(self, X, y=None):
            return -abs(np.log10(self.rho) - np.median(y) * 2.) + 1e-3 * float(np.sum(X))
    return Bump


def build(name, **kw):
    cls, args = ESTIMATORS[name]
    return (stub() if cls is None else E.classes()[cls])(**dict(args, **kw))


def dataset(name, k, rounds):
    n = 10 if name.split()[0] != "log" else 20
    if rounds == 2:
        n *= 3
    X = U.grid(n, 2, k=k).numpy().astype("float64")
    y = U.grid(n, k=k + 3).numpy().astype("float64")
    if name.startswith("log"):
        return X, np.array([3, 5])[((X @ [1., -.5] + .7 * y) > np.median(X @ [1., -.5] + .7 * y)).astype(int)]
    if name.startswith("news"):
        return np.abs(X[:, :1]) * 3, y
    if name.startswith("lin"):
        return X, X @ [1.5, -1.] + .5 + y * (.1 + k)
    return X, y


def quiet(f, *a):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a)


def crossval(name, rho, X, y):
    """Mean score over five contiguous folds (stratification does not apply)."""
    folds = np.array_split(np.arange(len(X)), 5)
    scores = []
    for f in folds:
        rest = np.setdiff1d(np.arange(len(X)), f)
        e = quiet(build(name, rho=rho).fit, X[rest], y[rest])
        scores.append(float(quiet(e.score, X[f], y[f])))
    return float(np.mean(scores))


def judge(ch, cls, name, rg, X, y, rounds, tuner=None, est=None, known=None):
    lo, hi = rg
    est = est or build(name, rho=.3)
    before = {k: repr(v) for k, v in est.get_params().items()}
    had = sorted(vars(est))
    if tuner is None:
        tuner = cls(est) if lo is None else cls(est, min_power=lo, max_power=hi)
    X0, y0 = X.copy(), y.copy()
    np.random.seed(3)
    ch.op()
    out = quiet(tuner.fit, X, y)
    ch.check(out is tuner, f"{name}: fit returned {out!r} instead of the tuner")
    ch.check((X == X0).all() and (y == y0).all(), f"{name}: the data were modified")
    ch.check({k: repr(v) for k, v in est.get_params().items()} == before and sorted(vars(est)) == had,
             f"{name}: the estimator given was changed: {est.get_params()}")
    best = tuner.best_estimator_
    radii = [10. ** -i for i in range(-4 + 1 if lo is None else lo + 1, (4 if hi is None else hi) + 1)]
    near = [r for r in radii if abs(r - best.rho) <= 1e-9 * r]
    ch.check(len(near) == 1, f"{name}: tuned radius {best.rho} is not one of {radii}")
    ref = build(name, rho=best.rho)
    quiet(ref.fit, X, y)
    ch.check({k: repr(v) for k, v in best.get_params().items() if k not in ("opt_cond",)}
             == {k: repr(v) for k, v in ref.get_params().items() if k not in ("opt_cond",)},
             f"{name}: parameters of the tuned estimator {best.get_params()} instead of {ref.get_params()}")
    ch.close(np.ravel(best.coef_), np.ravel(ref.coef_), f"{name} at radius {best.rho}: coefficients of the tuned estimator, refitted on all the data",
             rtol=1e-6, atol=1e-8)
    if name == "stub":
        ch.check(best.seen_.shape == X.shape, "the tuned estimator was not refitted on all the data")
    # successive halving shuffles the rows it trains on, and entropic fits depend on their order
    if rounds == 1 and not entropic(name):
        scores = {} if known is None else known
        for r in radii:
            if r not in scores:
                scores[r] = crossval(name, r, X, y)
        top = max(scores.values())
        ch.check(scores[near[0]] >= top - 1e-6 * max(1., abs(top)),
                 f"{name}: radius {best.rho} has cross-validated score {scores[near[0]]}, but {scores} has better")
    return tuner, near[0]


def h_tune(cfg, ch):
    cls = setup()
    X, y = dataset(cfg["est"], cfg["data"], cfg["rounds"])
    _, r = judge(ch, cls, cfg["est"], RANGES[cfg["range"]] if cfg["range"] >= 0 else WIDE[-1 - cfg["range"]], X, y, cfg["rounds"])
    ch.state(cfg["est"], cfg["range"], r)


def h_history(cfg, ch):
    """A tuner fitted again is a fresh tuner."""
    cls = setup()
    est = build(cfg["est"], rho=.3)
    tuner = cls(est, min_power=-2, max_power=1)
    known = {}
    for n in range(3):
        k = ch.choose("data", (0, 1)) if n else cfg["first"]
        X, y = dataset(cfg["est"], k, 1)
        _, r = judge(ch, cls, cfg["est"], (-2, 1), X, y, 1, tuner, est, known.setdefault(k, {}))
        ch.state(k, r)


def h_refusals(cfg, ch):
    cls = setup()
    ch.op()
    ch.raises(ValueError, lambda: cls(None), "no estimator")

    class NoScore:
        def fit(self, X, y):
            return self
    X, y = dataset("stub", 0, 1)
    ch.raises((AssertionError, TypeError, ValueError, AttributeError), lambda: quiet(cls(NoScore()).fit, X, y), "an estimator without score")
    ch.state("refusals")


HARNESSES = dict(tune=h_tune, history=h_history, refusals=h_refusals)
