"""P19: robust classifiers, labels, probabilities and the non-robust limit."""
import itertools

import numpy as np
import torch as pt

from .. import est as E, util as U

TITLE = ("all label alphabets, class counts, label arrangements, solvers and (re)fit histories of the real classifier within bounds, "
         "judged by the laws of probabilistic classifiers, by equivariance under renaming of the labels and by the logistic optimum at radius zero")
ASSUMPTIONS = ["the entropic solvers are given enough iterations to converge at radius zero (tolerance 5e-3)"]
BOUNDS = {"quick": "4 solvers, 9 label alphabets, all label arrangements of 5 points on 2 classes / 4 points on 3, 5 query sets, one array reused, refits of depth 2; queries of 2100 rows; 6 types of data to fit; 12-1100 points, 1-130 features, up to 30 classes"}

ALPH = {
    "pm1": (-1, 1), "01": (0, 1), "str": ("no", "yes"), "bool": (False, True), "float": (1., 3.), "neg": (-7, -3),
    "int3": (2, 5, 9), "str3": ("a", "bb", "c"), "str4": ("w", "x", "y", "z"),
}


def tasks(tier):
    for s in ("entropic_torch", "entropic_torch_post", "entropic_torch_pre", "dedicated"):
        for a in ALPH:
            yield "laws", dict(solver=s, alphabet=a, tier=tier)
            yield "names", dict(solver=s, alphabet=a)
        for a in ("pm1", "str", "int3", "str4"):
            yield "refit", dict(solver=s, first=a, depth=2 if tier == "quick" else 3)
        yield "unfitted", dict(solver=s)
        yield "wide", dict(solver=s)
        yield "types", dict(solver=s)
        if s != "dedicated":
            for d, l2 in itertools.product((1, 2) if tier == "quick" else (1, 2, 3), (.25, 1.)):
                yield "erm", dict(solver=s, d=d, l2=l2)


def clf(**kw):
    from skwdro.linear_models import LogisticRegression
    kw.setdefault("n_iter", (1, 3))
    kw.setdefault("n_zeta_samples", 2)
    return LogisticRegression(**kw)


BUFFER = {d: np.zeros((5, d)) for d in range(1, 6)}


CROWD = {}


def crowd(d):
    if d not in CROWD:
        CROWD[d] = U.grid(2100, d, k=13, dtype=pt.float64).numpy()
    return CROWD[d]


def queries(d):
    X = U.grid(33, d, k=11, dtype=pt.float64).numpy()
    yield "one row", X[:1]
    yield "many rows", X
    yield "zeros", np.zeros((2, d))
    yield "integers", np.arange(2 * d).reshape(2, d) - 2
    yield "crowd", crowd(d)
    yield "extreme", np.vstack([1e4 * X[:3], -1e4 * X[:3]])


def check_buffer(ch, e, d, what):
    """The same array again, after another fit or with other numbers in it."""
    B = BUFFER[d]
    for f in (e.predict, e.predict_proba):
        for what2, at in (("unchanged", None), ("with a row changed", 3), ("refilled", slice(None))):
            if at is not None:
                f(B)
                B[at] = U.grid(*B[at].shape, k=17, dtype=pt.float64).numpy() - B[at]
            p, q = np.asarray(f(B)), np.asarray(f(B.copy()))
            ch.check(np.allclose(p, q, rtol=1e-6, atol=1e-9) if p.dtype.kind == "f" else np.array_equal(p, q),
                     f"{what}: predictions for an array {what2} since the last call")
        f(B)


def check_laws(ch, e, X, y, fi, what, solver):
    classes = np.unique(y)
    index = {c: i for i, c in enumerate(classes.tolist())}
    d = X.shape[1]
    check_buffer(ch, e, d, what)
    ch.check(np.asarray(e.classes_).tolist() == classes.tolist(), f"{what}: classes_ {e.classes_}")
    for q, Q in queries(d):
        p = np.asarray(e.predict_proba(Q), dtype=float)
        ch.check(p.shape == (len(Q), len(classes)), f"{what}: probabilities of shape {p.shape}")
        ch.check(bool(((p >= 0) & (p <= 1)).all()), f"{what}: probabilities outside [0, 1] for {q}")
        ch.close(p.sum(1), np.ones(len(Q)), f"{what}: total probability for {q}", rtol=1e-5)
        lab = np.asarray(e.predict(Q))
        ch.check(lab.shape == (len(Q),), f"{what}: labels of shape {lab.shape}")
        where = np.array([-1 if v not in index else index[v] for v in lab.tolist()])
        ch.check(bool((where >= 0).all()), f"{what}: predicted labels {sorted(set(lab.tolist()))} are not all classes")
        ch.check(bool((p[np.arange(len(Q)), where] >= p.max(1) - 1e-6).all()), f"{what}: a predicted label is not the most likely one for {q}")
        for i in range(min(len(Q), 40)):
            ch.check(lab[i] in classes, f"{what}: predicted label {lab[i]!r} is not a class")
            k = classes.tolist().index(lab[i])
            ch.check(p[i, k] >= p[i].max() - 1e-6,
                     f"{what}: label {lab[i]!r} has probability {p[i, k]}, the most likely one has {p[i].max()}")
        for i in range(min(4, len(Q))):
            ch.check(np.asarray(e.predict(Q[i:i + 1]))[0] == lab[i], f"{what}: label of a row depends on the others")
            ch.close(np.asarray(e.predict_proba(Q[i:i + 1]))[0], p[i], f"{what}: probabilities of a row depend on the others")
        # the attributes explain the predictions
        w = np.asarray(e.coef_, dtype=float)
        b = e.intercept_
        if len(classes) == 2:
            ch.check(w.shape == (d,), f"{what}: coefficients of shape {w.shape}")
            t = Q @ w + (0. if b is None else float(np.ravel(b)[0]))
            ch.close(p[:, 1], 1. / (1. + np.exp(-np.clip(t, -700, 700))), f"{what}: probability of the second class for {q}", rtol=1e-4, atol=1e-6)
        else:
            ch.check(w.shape == (len(classes), d), f"{what}: coefficients of shape {w.shape}")
            t = Q @ w.T + (0. if b is None else np.asarray(b, dtype=float))
            t = t - t.max(1, keepdims=True)
            r = np.exp(t) / np.exp(t).sum(1, keepdims=True)
            ch.close(p, r, f"{what}: softmax of the scores for {q}", rtol=2e-3 if q == "extreme" else 1e-4, atol=1e-5 if q != "extreme" else 1e-3)
        if not fi:
            ch.check(b is None or float(np.abs(b).max()) < 1e-9, f"{what}: intercept {b} though not fitted")
    ch.close(e.score(X, y), np.mean(np.asarray(e.predict(X)) == y), f"{what}: score is not the accuracy", rtol=1e-9)
    e.predict(BUFFER[d])
    e.predict_proba(BUFFER[d])


def labels(ch, alphabet, n):
    ab = ALPH[alphabet]
    # every arrangement using all the classes
    arr = [a for a in itertools.product(range(len(ab)), repeat=n) if len(set(a)) == len(ab)]
    a = ch.choose("labels", arr)
    return np.array([ab[i] for i in a])


def h_laws(cfg, ch):
    for b in BUFFER.values():
        b[:] = 0.
    k = len(ALPH[cfg["alphabet"]])
    n = {2: 5, 3: 4, 4: 4}[k]
    fi = ch.choose("intercept", (True, False))
    d = ch.choose("d", (1, 3))
    if cfg["solver"] == "dedicated":
        n = 4
        if k > 2:
            X = U.grid(6, d, dtype=pt.float64).numpy()
            y = np.array([ALPH[cfg["alphabet"]][i % k] for i in range(6)])
            ch.op()
            ch.raises(NotImplementedError, lambda: clf(solver="dedicated").fit(X, y), "dedicated solver on more than two classes")
            return
    y = labels(ch, cfg["alphabet"], n)
    X = U.grid(n, d, dtype=pt.float64).numpy()
    ch.op()
    e = clf(solver=cfg["solver"], fit_intercept=fi, rho=.1)
    E.fit(e, X, y)
    check_laws(ch, e, X, y, fi, f"{cfg['solver']} on {cfg['alphabet']}", cfg["solver"])
    ch.state(fi, d, y.tolist(), np.asarray(e.predict(X)).tolist())


TYPES = ("int64", "int8", "uint8", "bool", "float32", "float16")


def h_types(cfg, ch):
    """Data of any type to fit; the predictions for other data still follow the coefficients."""
    for b in BUFFER.values():
        b[:] = 0.
    kind = ch.choose("type", TYPES)
    fi = ch.choose("intercept", (True, False))
    d = ch.choose("d", (1, 3))
    ab = ALPH[ch.choose("alphabet", ("pm1", "str", "int3"))]
    if cfg["solver"] == "dedicated" and len(ab) > 2:
        return
    X = ((np.arange(6 * d).reshape(6, d) ** 2 + np.arange(d)) % (2 if kind == "bool" else 5)).astype(kind)
    y = np.array([ab[i * i % 5 % len(ab)] for i in range(6)])
    ch.op()
    e = clf(solver=cfg["solver"], fit_intercept=fi, rho=.1)
    E.fit(e, X, y)
    check_laws(ch, e, X, y, fi, f"{cfg['solver']} fitted on {kind}", cfg["solver"])
    ch.state(kind, fi, d, len(ab))


def h_names(cfg, ch):
    """Renaming the labels (in the same order) renames the predictions and changes nothing else."""
    ab = ALPH[cfg["alphabet"]]
    k = len(ab)
    if cfg["solver"] == "dedicated" and k > 2:
        return
    X = U.grid(7, 2, k=3, dtype=pt.float64).numpy()
    idx = np.arange(7) * 5 % k
    ref = clf(solver=cfg["solver"])
    E.fit(ref, X, np.array(["k0", "k1", "k2", "k3"])[idx])
    y = np.array(ab)[idx]
    e = clf(solver=cfg["solver"])
    ch.op()
    E.fit(e, X, y)
    ch.check(E.same(E.as_np(e.coef_), E.as_np(ref.coef_)), f"{cfg['solver']}: coefficients depend on the names of the labels")
    ch.check(E.same(E.as_np(e.intercept_), E.as_np(ref.intercept_)), f"{cfg['solver']}: intercept depends on the names of the labels")
    for q, Q in queries(2):
        r = np.array([int(s[1]) for s in ref.predict(Q)])
        ch.check(np.asarray(e.predict(Q)).tolist() == np.array(ab)[r].tolist(), f"{cfg['solver']}: labels {ab} predicted differently for {q}")
        ch.check(E.same(E.as_np(e.predict_proba(Q)), E.as_np(ref.predict_proba(Q))), f"{cfg['solver']}: probabilities depend on the names")
    # label container
    how = ch.choose("container", ("list", "column of objects"))
    e2 = clf(solver=cfg["solver"])
    E.fit(e2, X, y.tolist() if how == "list" else np.array(y.tolist(), dtype=object if isinstance(ab[0], str) else None))
    ch.check(E.same(E.as_np(e2.coef_), E.as_np(ref.coef_)), f"coefficients depend on the container of the labels")
    ch.state(cfg["alphabet"], how)


def h_refit(cfg, ch):
    """Predictions follow the last fit, whatever was fitted before."""
    for b in BUFFER.values():
        b[:] = 0.
    e = clf(solver=cfg["solver"])
    rho = e.rho
    for k in range(cfg["depth"]):
        a = ch.choose(f"alphabet{k}", ("pm1", "str", "int3", "str4")) if k else cfg["first"]
        fi = ch.choose(f"intercept{k}", (True, False))
        d = ch.choose(f"d{k}", (2, 3)) if k < 2 else 2
        ab = ALPH[a]
        s = cfg["solver"] if len(ab) == 2 or cfg["solver"] != "dedicated" else "entropic_torch_pre"
        X = U.grid(8, d, k=k, dtype=pt.float64).numpy()
        y = np.array(ab)[np.arange(8) % len(ab)]
        e.set_params(fit_intercept=fi, solver=s)
        ch.op()
        E.fit(e, X, y)
        if k == 0:
            continue        # a first fit alone is covered elsewhere
        check_laws(ch, e, X, y, fi, f"{s} on {a}, fit {k + 1}", s)
        # settings changed for a later fit do not concern the present one
        e.set_params(fit_intercept=not fi, solver="entropic_torch" if s == "dedicated" else "dedicated", rho=3.)
        check_laws(ch, e, X, y, fi, f"{s} on {a}, fit {k + 1}, then other settings", s)
        e.set_params(rho=rho)
        ch.state(k, a, fi, d)


def h_unfitted(cfg, ch):
    from sklearn.exceptions import NotFittedError
    op = ch.choose("op", ("predict", "predict_proba"))
    e = clf(solver=cfg["solver"])
    X = U.grid(4, 2, dtype=pt.float64).numpy()
    ch.op()
    ch.raises(NotFittedError, lambda: getattr(e, op)(X), f"{op} before fit")
    for y in (np.zeros(4), np.array(["a"] * 4)):
        ch.raises(ValueError, lambda: e.fit(X, y), "fit with a single class")
    E.fit(e, X, np.array([0, 1, 1, 0]))
    bad = ch.choose("bad", ("nan", "1d", "columns"))
    Q = {"nan": np.array([[0., np.nan]]), "1d": np.zeros(2), "columns": np.zeros((2, 3))}[bad]
    ch.raises(ValueError, lambda: getattr(e, op)(Q), f"{op} on {bad} data")
    ch.state(op, bad)


def h_erm(cfg, ch):
    """Radius 0: regularised logistic regression (bias included in the regularisation)."""
    from scipy.optimize import minimize
    from skwdro.solvers.optim_cond import OptCondTorch
    fi = ch.choose("intercept", (True, False))
    k = ch.choose("classes", (2, 3))
    seed = ch.choose("seed", (0, 1))
    ch.op()
    d, l2, n = cfg["d"], cfg["l2"], 9
    X = U.lattice(n, d, k=seed)
    idx = (np.arange(n) ** 2 + seed) % k if k == 3 else (X[:, 0] + .3 * np.arange(n) % 1.1 > .2).astype(int)
    if len(set(idx.tolist())) < k:
        idx[:k] = range(k)
    y = np.array(["u", "v", "w"])[idx]
    steps = (0, 80) if cfg["solver"].endswith("pre") else (20, 700)
    e = clf(rho=0., l2_reg=l2, fit_intercept=fi, solver=cfg["solver"], n_iter=steps, random_state=seed,
            opt_cond=OptCondTorch(2, 1e-9, 1e-9))
    E.fit(e, X, y)
    A = np.c_[X, np.ones(n)] if fi else X
    D = A.shape[1]
    if k == 2:
        s = 2. * idx - 1

        def f(w):
            return np.logaddexp(0., -s * (A @ w)).mean() + .5 * l2 * (w ** 2).sum()
        w = minimize(f, np.zeros(D), method="BFGS", options=dict(gtol=1e-9)).x
        got = np.r_[np.ravel(e.coef_), [] if e.intercept_ is None else np.ravel(e.intercept_)]
    else:
        def f(w):
            t = A @ w.reshape(k, D).T
            return (np.logaddexp.reduce(t, axis=1) - t[np.arange(n), idx]).mean() + .5 * l2 * (w ** 2).sum()
        w = minimize(f, np.zeros(D * k), method="BFGS", options=dict(gtol=1e-9)).x
        got = np.c_[e.coef_, e.intercept_].ravel() if fi else np.ravel(e.coef_)
    ch.close(got, w, f"{cfg['solver']}: logistic fit on {k} classes at radius 0", rtol=5e-3, atol=5e-3)
    ch.close(np.ravel(e.robust_loss_)[0], f(w), f"{cfg['solver']}: robust loss at radius 0", rtol=5e-3, atol=5e-3)
    ch.state(fi, k)


def h_wide(cfg, ch):
    """Many points, features or classes."""
    n, d, k = ch.choose("shape", ((300, 2, 2), (1100, 1, 2), (12, 20, 2), (40, 130, 2), (36, 3, 12), (60, 2, 30), (300, 2, 3)))
    if cfg["solver"] == "dedicated" and k > 2:
        return
    fi = ch.choose("intercept", (True, False))
    how = ch.choose("names", ("int", "str"))
    X = U.grid(n, d, k=2, dtype=pt.float64).numpy()
    y = np.arange(n) * 7 % k
    y = y * 3 - 10 if how == "int" else np.array([f"c{v}" for v in y])       # c10 sorts before c2
    BUFFER[d] = np.zeros((5, d))
    e = clf(rho=.01, fit_intercept=fi, solver=cfg["solver"])
    ch.op()
    E.fit(e, X, y)
    check_laws(ch, e, X, y, fi, f"{cfg['solver']} on {n} points in dimension {d}, {k} classes", cfg["solver"])
    ch.state(n, d, k, fi, how)


HARNESSES = dict(wide=h_wide, laws=h_laws, names=h_names, refit=h_refit, types=h_types, unfitted=h_unfitted, erm=h_erm)
