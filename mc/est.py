"""Estimators under test: settings, data, outcomes."""
import warnings

import numpy as np

from . import util as U

# name: (estimator, solver, extra parameters)
SETTINGS = {}


def setting(name, cls, solver, **kw):
    SETTINGS[name] = (cls, solver, kw)


for s in ("entropic_torch", "entropic_torch_post", "entropic_torch_pre"):
    setting(f"lin {s}", "LinearRegression", s)
    setting(f"log {s}", "LogisticRegression", s)
    setting(f"log3 {s}", "LogisticRegression", s)
    setting(f"weber {s}", "Weber", s)
for s in ("entropic_torch_post", "entropic_torch_pre"):
    setting(f"news {s}", "NewsVendor", s)
    setting(f"port {s}", "Portfolio", s, eta=.5, alpha=.5)
setting("lin l2 nobias adamw", "LinearRegression", "entropic_torch", l2_reg=.1, fit_intercept=False, learning_rate=.05)
setting("log 1-1 adamw", "LogisticRegression", "entropic_torch", cost="t-NLC-1-1-10", learning_rate=.05)
setting("lin dedicated", "LinearRegression", "dedicated")
setting("log dedicated", "LogisticRegression", "dedicated")
setting("news dedicated", "NewsVendor", "dedicated")
setting("port dedicated", "Portfolio", "dedicated", eta=.5, alpha=.5)


def classes():
    from skwdro.linear_models import LinearRegression, LogisticRegression
    from skwdro.operations_research import NewsVendor, Portfolio, Weber
    return dict(LinearRegression=LinearRegression, LogisticRegression=LogisticRegression, NewsVendor=NewsVendor,
                Portfolio=Portfolio, Weber=Weber)


def data(name, k=0, n=6, d=2):
    X = U.grid(n, d, k=k).numpy().astype("float64")
    kind = name.split()[0]
    if kind == "lin":
        return X, U.grid(n, k=k + 1).numpy().astype("float64")
    if kind == "log":
        return X, np.array([3, 5])[np.arange(n) % 2]
    if kind == "log3":
        return X, np.array(["a", "b", "c"])[np.arange(n) % 3]
    if kind == "weber":
        return X, np.abs(U.grid(n, k=k + 1).numpy().astype("float64"))
    if kind == "news":
        return np.abs(X), None
    return X, None


def make(name, **kw):
    cls, solver, extra = SETTINGS[name]
    args = dict(solver=solver, rho=.1, n_iter=(2, 4), n_zeta_samples=3, random_state=5)
    args.update(extra)
    args.update(kw)
    X, y = data(name)
    return classes()[cls](**args), X, y


def fit(est, X, y):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(X, y) if y is not None else est.fit(X)


ATTRS = ("coef_", "intercept_", "dual_var_", "robust_loss_", "tau_", "result_", "classes_", "n_features_in_")


def as_np(v):
    if v is None:
        return None
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    return np.array(v)


def outcome(est):
    return {a: as_np(getattr(est, a)) for a in ATTRS if hasattr(est, a)}


def outputs(est, X, y):
    out = {}
    if hasattr(est, "predict"):
        out["predict"] = as_np(est.predict(X))
    if hasattr(est, "predict_proba"):
        out["predict_proba"] = as_np(est.predict_proba(X))
    if hasattr(est, "score"):
        out["score"] = as_np(est.score(X, y) if y is not None else est.score(X))
    if hasattr(est, "eval"):
        out["eval"] = as_np(est.eval(X, y) if y is not None else est.eval(X))
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
    return bool((a == b).all())


def digest(est):
    return [None if v is None else v.tolist() for v in outcome(est).values()]
