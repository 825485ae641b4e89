"""P17: fitting is a function of the estimator's parameters and the data."""
import itertools
import random
import warnings

import numpy as np
import torch as pt

from .. import est as E

TITLE = ("all histories, up to a depth, of earlier fits, predictions, clonings and disturbances of the ambient random generators, followed "
         "by a fit of the real estimators, whose outcome is compared bit for bit with that of a fresh estimator in a fresh state")
ASSUMPTIONS = ["single-threaded floating point arithmetic is deterministic", "histories share one process; the reference fit runs after "
               "seeding the ambient generators with another value"]
BOUNDS = {"quick": "22 estimator/solver settings, 11 disturbances, depth 2; 7 representations and 8 numeric types of the data; depth 3 in the thorough tier"}


def tasks(tier):
    depth = 2 if tier == "quick" else 3
    for name in E.SETTINGS:
        for first in DISTURB:
            yield "history", dict(setting=name, first=first, depth=depth)
        yield "representation", dict(setting=name)
        yield "numeric", dict(setting=name)
        yield "frame", dict(setting=name)
        yield "seeds", dict(setting=name)
        yield "shared", dict(setting=name)


DISTURB = ("torch seed", "torch draw", "numpy", "fit", "fit same array", "fit similar data", "fit other data", "fit other shape", "fit sibling", "use", "clone")


def fresh(name, **kw):
    est, X, y = E.make(name, **kw)
    return est, X, y


_REF = {}


def reference(name):
    if name not in _REF:
        pt.manual_seed(98765)
        np.random.seed(4321)
        random.seed(99)
        est, X, y = fresh(name)
        E.fit(est, X, y)
        _REF[name] = (E.outcome(est), E.outputs(est, X, y))
    return _REF[name]


def compare(ch, name, est, X, y, what):
    ref, out = reference(name)
    got = E.outcome(est)
    for k in ref:
        ch.check(E.same(ref[k], got.get(k)), f"{name}, {what}: {k} is {got.get(k)} instead of {ref[k]}")
    o = E.outputs(est, X, y)
    for k in out:
        ch.check(E.same(out[k], o.get(k)), f"{name}, {what}: {k} differs")


def disturb(a, name, est, X, y):
    from sklearn.base import clone
    if a == "torch seed":
        pt.manual_seed(31337)
    elif a == "torch draw":
        pt.rand(7)
        pt.randn(3, 2)
    elif a == "numpy":
        np.random.seed(5)
        np.random.rand(3)
        random.seed(3)
    elif a == "fit":
        E.fit(est, X, y)
    elif a == "fit same array":     # other numbers in the same memory
        keep = X.copy()
        X[:] = E.data(name, k=9)[0]
        E.fit(est, X, y)
        E.outputs(est, X, y)
        X[:] = keep
    elif a == "fit similar data":   # same shape, same ends
        X2, y2 = X.copy(), None if y is None else y.copy()
        X2[2:-1] = X2[2:-1][::-1] + .75
        E.fit(est, X2, y2)
        E.outputs(est, X2, y2)
    elif a == "fit other data":
        E.fit(est, *E.data(name, k=7))
    elif a == "fit other shape":
        E.fit(est, *E.data(name, k=5, n=9, d=4))
    elif a == "fit sibling":
        other, X2, y2 = fresh(name, random_state=17)
        E.fit(other, *E.data(name, k=3))
    elif a == "use":
        if hasattr(est, "is_fitted_"):
            try:
                E.outputs(est, X, y)
            except Exception:       # last fitted on data of another shape
                pass
    elif a == "clone":
        return clone(est)
    return est


def h_history(cfg, ch):
    name = cfg["setting"]
    est, X, y = fresh(name)
    hist = [cfg["first"]]
    for k in range(1, cfg["depth"]):
        a = ch.choose(f"d{k}", DISTURB + ("nothing",))
        if a == "nothing":
            break
        hist.append(a)
    for a in hist:
        ch.op()
        est = disturb(a, name, est, X, y)
    E.fit(est, X, y)
    ch.op()
    compare(ch, name, est, X, y, "after " + ", ".join(hist))
    ch.state(hist, E.digest(est))


def h_representation(cfg, ch):
    """Same numbers, same fit: container, order and precision of the data."""
    name = cfg["setting"]
    how = ch.choose("as", ("list", "fortran", "strided", "float32", "read-only", "frame", "matrix labels type"))
    est, X, y = fresh(name)
    ch.op()
    X2, y2 = X, y
    if how == "list":
        X2, y2 = X.tolist(), None if y is None else y.tolist()
    elif how == "fortran":
        X2 = np.asfortranarray(X)
    elif how == "strided":
        b = np.full((2 * len(X), X.shape[1]), 77.)
        b[::2] = X
        X2 = b[::2]
    elif how == "float32":
        X2 = X.astype("float32")
        assert (X2 == X).all()
    elif how == "read-only":
        X2 = X.copy()
        X2.flags.writeable = False
        if y is not None:
            y2 = y.copy()
            y2.flags.writeable = False
    elif how == "frame":
        import pandas as pd
        X2 = pd.DataFrame(X)
    else:
        if y is None or y.dtype.kind not in "fi":
            return
        y2 = y.astype("float32")
    E.fit(est, X2, y2)
    ref, _ = reference(name)
    got = E.outcome(est)
    for k in ref:
        what = f"{name}, data given as {how}: {k}"
        if ref[k] is None or ref[k].dtype.kind not in "fiu":
            ch.check(E.same(ref[k], got.get(k)), what)
        else:
            t = 1e-3
            ch.close(got.get(k), ref[k], what, rtol=t, atol=t)
    ch.state(how)


def h_numeric(cfg, ch):
    """Data and targets that are exact in every numeric type."""
    name = cfg["setting"]
    what = ch.choose("what", ("data", "targets") if name.split()[0] in ("lin", "weber") else ("data",))
    kind = ch.choose("type", ("float32", "float16", "int64", "int8", "uint8", "bool") + (("object",) if what == "data" else ()))
    res = []
    for dt in ("float64", kind):
        kw = {} if "dedicated" in name else dict(learning_rate=.05)
        est, X, y = fresh(name, **kw)
        X = np.array([[0, 1], [1, 0], [1, 1], [0, 0], [1, 0], [1, 1]]).astype(dt if what == "data" else "float64")
        if what == "targets":
            y = np.array([1, 0, 1, 1, 0, 1]).astype(dt)
        ch.op()
        E.fit(est, X, y)
        res.append(dict(E.outcome(est), **E.outputs(est, X, y)))
    for k, v in res[0].items():
        if v is None or v.dtype.kind not in "fiu":
            ch.check(E.same(v, res[1].get(k)), f"{name}, {what} as {kind}: {k} is {res[1].get(k)} instead of {v}")
        else:
            ch.close(res[1].get(k), v, f"{name}, {what} as {kind}: {k}", rtol=1e-3, atol=1e-3)
    ch.state(what, kind)


def h_seeds(cfg, ch):
    """Whatever the seed, the ambient generators do not matter."""
    name = cfg["setting"]
    seed = ch.choose("seed", (0, 1, 42, 2 ** 31 - 1))
    amb = ch.choose("ambient", (0, 1, 7))
    res = []
    for a in (12345, amb):
        pt.manual_seed(a)
        np.random.seed(a)
        random.seed(a)
        est, X, y = fresh(name, random_state=seed)
        ch.op()
        E.fit(est, X, y)
        res.append((E.outcome(est), E.outputs(est, X, y)))
        pt.rand(3)
    for i in (0, 1):
        for k in res[0][i]:
            ch.check(E.same(res[0][i][k], res[1][i].get(k)), f"{name}, random_state={seed}: {k} depends on the ambient generators")
    ch.state(seed, amb)


def h_frame(cfg, ch):
    """Fitting and using the estimator modify neither the data nor the settings."""
    name = cfg["setting"]
    op = ch.choose("op", ("fit", "fit twice", "fit, use", "fit, use, fit"))
    est, X, y = fresh(name)
    if ch.choose("criterion", ("given", "none")) == "none":
        est.set_params(opt_cond=None)
    X0, y0 = X.copy(), None if y is None else y.copy()
    before = {k: v for k, v in est.get_params(deep=False).items()}
    ch.op()
    r = None
    for o in op.split(", "):
        if o == "fit" or o == "fit twice":
            r = E.fit(est, X, y)
            if o == "fit twice":
                r = E.fit(est, X, y)
        else:
            st = E.outcome(est)
            o1 = E.outputs(est, X, y)
            o2 = E.outputs(est, X, y)
            for k in o1:
                ch.check(E.same(o1[k], o2[k]), f"{name}: {k} differs from one call to the next")
            for k, v in E.outcome(est).items():
                ch.check(E.same(v, st[k]), f"{name}: using the estimator changed {k}")
    ch.check(r is est, f"{name}: fit does not return the estimator")
    ch.check(bool((X == X0).all()) and (y is None or bool((y == y0).all())), f"{name}: {op} modified the data")
    after = est.get_params(deep=False)
    ch.check(set(after) == set(before), f"{name}: parameters appeared or disappeared")
    for k, v in before.items():
        w = after[k]
        ok = w is v or w == v
        ch.check(ok, f"{name}: {op} changed the parameter {k} from {v} to {w}")
    ch.state(op)


def h_shared(cfg, ch):
    """Two estimators sharing one stopping criterion, fitted in any order, do not influence each other."""
    from skwdro.solvers.optim_cond import OptCondTorch
    name = cfg["setting"]
    if "dedicated" in name:
        return
    metric = ch.choose("metric", ("grad", "param"))
    order = ch.choose("order", ("aba", "ab", "ba", "bba"))

    def crit():
        return OptCondTorch(2, 1e-3, 1e-3, metric=metric, monitoring="theta", mode="rel")
    shared = crit()
    ests = {}
    datas = {}
    for t, seed in (("a", 3), ("b", 11)):
        e, X, y = fresh(name, random_state=seed, opt_cond=crit(), n_iter=(1, 25))
        D = E.data(name, k=0 if t == "a" else 7)
        ch.op()
        E.fit(e, *D)
        ests[t] = E.outcome(e)
        datas[t] = D
    objs = {t: fresh(name, random_state=s, opt_cond=shared, n_iter=(1, 25))[0] for t, s in (("a", 3), ("b", 11))}
    for t in order:
        ch.op()
        E.fit(objs[t], *datas[t])
        got = E.outcome(objs[t])
        for k, v in ests[t].items():
            ch.check(E.same(v, got[k]), f"{name}: sharing the stopping criterion changed {k}")
    ch.state(metric, order)


HARNESSES = dict(numeric=h_numeric, seeds=h_seeds, history=h_history, representation=h_representation, frame=h_frame, shared=h_shared)
