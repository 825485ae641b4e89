"""P22: estimators solve the announced robust problem with the announced solver, and refuse bad settings."""
import itertools
import warnings

import numpy as np
import torch as pt
import torch.nn as nn

from .. import est as E, util as U

TITLE = ("all settings of the real estimators that differ from a base setting in up to two parameters, their fits compared with a reference "
         "pipeline written with the public building blocks (robust loss, solver), and all invalid settings of a table")
ASSUMPTIONS = ["the building blocks themselves are the subject of the other properties",
               "initial models are drawn right after seeding the generator with random_state"]
BOUNDS = {"quick": "5 estimators x 4 solver names, 10 parameters with 2-4 values each, all pairs of deviations; every parameter omitted; 12 invalid settings per estimator; 1100 samples, 700 points, 1100-1500 steps"}

# estimator -> parameter -> values (first is the base)
COMMON = dict(
    rho=(.1, .7, 0., 1, np.float32(.25)),
    n_zeta_samples=(3, 1, 6),
    random_state=(5, 0),
    n_iter=((2, 3), (0, 2), 10, (4, 1)),
    learning_rate=(None, .05, .5),
    opt_cond=(None, "param", "grad"),
)
LABELLED = ("t-NLC-2-2", "t-NC-2-2", "t-NLC-2-2-5", "t-NLC-1-1-3", "t-NC-1-2")
SPACE = {
    "LinearRegression": dict(COMMON, l2_reg=(0., .5), fit_intercept=(True, False), cost=LABELLED, solver_reg=(None, .3), sampler_reg=(None, .2)),
    "LogisticRegression": dict(COMMON, l2_reg=(0., .5), fit_intercept=(True, False), cost=LABELLED, solver_reg=(None, .3), sampler_reg=(None, .2)),
    "NewsVendor": dict(COMMON, l2_reg=(0., .5), k=(5., 1.5), u=(7., 20.), cost=("t-NC-1-2", "t-NC-2-2", "t-NC-1-1"), solver_reg=(.01, .3)),
    "Portfolio": dict(COMMON, eta=(0., 1.5), alpha=(.95, .25), cost=("t-NC-1-1", "t-NC-2-2", "t-NC-1-2"), solver_reg=(.001, .3)),
    "Weber": dict(COMMON, l2_reg=(0., .5), cost=("t-NLC-2-2", "t-NLC-1-1-3", "t-NC-2-2"), solver_reg=(.01, .3), sampler_reg=(.01, .2)),
}
# documented defaults
LINEAR = dict(rho=1e-2, l2_reg=0., fit_intercept=True, cost="t-NLC-2-2", solver="entropic_torch", solver_reg=None, sampler_reg=None,
              learning_rate=None, n_zeta_samples=10, random_state=0, n_iter=None)
DEFAULTS = {
    "LinearRegression": LINEAR,
    "LogisticRegression": LINEAR,
    "NewsVendor": dict(rho=1e-2, k=5, u=7, cost="t-NC-1-2", l2_reg=0., solver_reg=.01, learning_rate=None, n_zeta_samples=10, random_state=0),
    "Portfolio": dict(rho=1e-2, eta=0., alpha=.95, cost="t-NC-1-1", solver_reg=1e-3, learning_rate=None, n_zeta_samples=10, random_state=0),
    "Weber": dict(rho=1e-1, l2_reg=0., cost="t-NLC-2-2", solver="entropic_torch", solver_reg=1e-2, sampler_reg=1e-2, learning_rate=None,
                  n_zeta_samples=10, random_state=0),
}
SOLVERS = ("entropic_torch_post", "entropic_torch_pre", "entropic_torch", "torch")


def tasks(tier):
    for name, space in SPACE.items():
        for s in SOLVERS:
            if tier == "quick":
                for p in space:
                    yield "pipeline", dict(name=name, solver=s, param=p, pairs=s in SOLVERS[:2])
            else:
                for p, q in itertools.combinations(space, 2):
                    yield "pipeline2", dict(name=name, solver=s, params=[p, q])
        for p in DEFAULTS[name]:
            yield "omitted", dict(name=name, param=p)
        for s in SOLVERS:
            yield "large", dict(name=name, solver=s)
        yield "guards", dict(name=name)
        yield "steps", dict(name=name)
        if name in INERT:
            yield "matters", dict(name=name)


def dataset(name, classes=2, m=6):
    X = U.grid(m, 2, k=1).numpy().astype("float64")
    if name == "LinearRegression":
        return X, U.grid(m, k=2).numpy().astype("float64")
    if name == "LogisticRegression":
        return X, np.array(["b", "a", "c"])[np.arange(m) % classes]
    if name == "Weber":
        return X, np.abs(U.grid(m, k=2).numpy().astype("float64"))
    if name == "NewsVendor":
        return np.abs(X), None
    return X, None


def criterion(spec):
    from skwdro.solvers.optim_cond import OptCondTorch
    if spec is None:
        return OptCondTorch(2)
    return OptCondTorch(2, .5, .5, metric=spec, monitoring="theta")


class News(nn.Module):
    reduction = "none"

    def __init__(self, k, u):
        super().__init__()
        self.k, self.u = k, u
        self.t = nn.Parameter(pt.rand(1))

    def forward(self, x):
        return (self.k * self.t - self.u * pt.minimum(self.t, x)).mean(-1, keepdim=True)


class Soft(nn.Module):
    reduction = "none"

    def forward(self, f, y):
        return -nn.functional.logsigmoid(f * y)


def pipeline(name, solver, par, classes, m=6):
    """The announced problem, assembled by hand."""
    from skwdro.base.losses_torch import SimpleWeber
    from skwdro.base.losses_torch.portfolio import SimplePortfolio
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.torch import robustify
    X, y = dataset(name, classes, m)
    if name in ("LinearRegression", "LogisticRegression", "Weber"):
        post = solver in ("entropic_torch", "entropic_torch_post")
    elif name == "NewsVendor":
        post = solver == "entropic_torch_post"
    else:
        post = "pre" not in solver
    pt.manual_seed(par["random_state"])
    kw = dict(n_samples=par["n_zeta_samples"], seed=par["random_state"], learning_rate=par["learning_rate"],
              epsilon=par["solver_reg"], n_iter=par["n_iter"], adapt="prodigy" if par["learning_rate"] is None else None)
    lab = None
    if name == "LinearRegression":
        lab = y[:, None]
        tr = nn.Linear(2, 1, bias=par["fit_intercept"])
        loss = nn.MSELoss(reduction="none")
    elif name == "LogisticRegression":
        if classes == 2:
            lab = np.where(y == "b", 1., -1.)[:, None]
            tr, loss = nn.Linear(2, 1, bias=par["fit_intercept"]), Soft()
        else:
            lab = (y[:, None] == np.array(["a", "b", "c"])[None]).astype(float)
            tr, loss = nn.Linear(2, 3, bias=par["fit_intercept"]), nn.CrossEntropyLoss(reduction="none")
            kw["loss_reduces_spatial_dims"] = True
    elif name == "Weber":
        lab = y[:, None]
        tr, loss = None, SimpleWeber(2)
    elif name == "NewsVendor":
        X = X.mean(1, keepdims=True)
        tr, loss = None, News(par["k"], par["u"])
    else:
        tr, loss = None, SimplePortfolio(2, float(par["eta"]), float(par["alpha"]))
    if name in ("LinearRegression", "LogisticRegression"):
        kw["imp_samp"] = post
    if "l2_reg" in par:
        kw["l2reg"] = par["l2_reg"]
    if "sampler_reg" in par:
        kw["sigma"] = par["sampler_reg"]
    dual = robustify(loss, tr, pt.tensor(float(par["rho"])), pt.Tensor(X), None if lab is None else pt.Tensor(lab), post, par["cost"], **kw)
    emp = (EmpiricalDistributionWithoutLabels(m=m, samples=X) if lab is None
           else EmpiricalDistributionWithLabels(m=m, samples_x=X, samples_y=lab))
    _, _, lam, val = solve_dual_wdro(dual, emp, criterion(par["opt_cond"]))
    out = {"dual_var_": np.ravel(lam), "robust_loss_": np.ravel(val)}
    if tr is not None:
        w = tr.weight.detach().numpy()
        out["coef_"] = w.ravel()
        if par["fit_intercept"]:
            out["intercept_"] = tr.bias.detach().numpy().ravel()
    elif name == "Portfolio":
        out["coef_"] = loss.assets.weight.detach().numpy().ravel()
    else:
        out["coef_"] = list(loss.parameters())[0].detach().numpy().ravel()
    return out


def compare(ch, name, solver, par, classes, m=6):
    X, y = dataset(name, classes, m)
    args = dict(par, solver=solver, opt_cond=None if par["opt_cond"] is None else criterion(par["opt_cond"]))
    ch.op()
    pt.manual_seed(123)
    e = E.classes()[name](**args)
    E.fit(e, X, y)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = pipeline(name, solver, par, classes, m)
    for k, v in want.items():
        ch.close(np.ravel(getattr(e, k)), v, f"{name} ({solver}) with {par}: {k}", rtol=1e-4, atol=1e-5 if k != "robust_loss_" else 1e-4)


def h_pipeline(cfg, ch):
    name, space = cfg["name"], SPACE[cfg["name"]]
    par = {k: v[0] for k, v in space.items()}
    p = cfg["param"]
    par[p] = ch.choose(p, space[p])
    if cfg["pairs"]:
        q = ch.choose("second", ["-"] + [k for k in space if k > p])
        if q != "-":
            par[q] = ch.choose(q, space[q][1:])
    # learning rates make a few steps visible
    if p != "learning_rate" and par["learning_rate"] is None and ch.choose("visible", (True, False)):
        par["learning_rate"] = .1
    classes = 3 if name == "LogisticRegression" and ch.choose("classes", (2, 3)) == 3 else 2
    compare(ch, name, cfg["solver"], par, classes)
    ch.state({k: str(v) for k, v in par.items()}, classes)


def h_pipeline2(cfg, ch):
    name, space = cfg["name"], SPACE[cfg["name"]]
    par = {k: v[0] for k, v in space.items()}
    for p in cfg["params"]:
        par[p] = ch.choose(p, space[p])
    if "learning_rate" not in cfg["params"] and ch.choose("visible", (True, False)):
        par["learning_rate"] = .1
    classes = 3 if name == "LogisticRegression" and ch.choose("classes", (2, 3)) == 3 else 2
    compare(ch, name, cfg["solver"], par, classes)
    ch.state({k: str(v) for k, v in par.items()}, classes)


def h_large(cfg, ch):
    """Many samples, many points, many steps."""
    name = cfg["name"]
    par = {k: v[0] for k, v in SPACE[name].items()}
    par["learning_rate"] = ch.choose("learning_rate", (None, .05))
    n, m, it = ch.choose("amounts", ((150, 6, None), (3, 700, None), (1100, 6, (1, 2)))
                         + {"entropic_torch_post": ((1, 6, (1, 1100)), (1, 6, (1100, 1)), (2, 6, 1500)),
                            "entropic_torch_pre": ((1, 6, (2, 130)), (1, 6, (130, 2)))}.get(cfg["solver"], ()))
    par["n_zeta_samples"] = n
    if it is not None:
        par["n_iter"] = it
    classes = 3 if name == "LogisticRegression" and ch.choose("classes", (2, 3)) == 3 else 2
    compare(ch, name, cfg["solver"], par, classes, m)
    ch.state(n, m, it, classes)


def h_omitted(cfg, ch):
    """A setting left out is the documented default, whatever the others."""
    name, p, full = cfg["name"], cfg["param"], DEFAULTS[cfg["name"]]
    solver = full.get("solver", "entropic_torch_post")
    ch.op()
    ch.check(E.classes()[name]().get_params()[p] == full[p], f"{name}() has {p}={E.classes()[name]().get_params()[p]}, documented {full[p]}")
    par = {k: v[0] for k, v in SPACE[name].items() if k != "opt_cond"}
    par.update(solver=solver, n_iter=(2, 3), random_state=7)
    if p != "learning_rate":
        par["learning_rate"] = .1
    given = dict(par, **{p: full[p]})
    par.pop(p, None)
    X, y = dataset(name)
    if p == "n_iter":
        ch.state(p)
        return
    got, want = (E.outcome(E.fit(E.classes()[name](**a), X, y)) for a in (par, given))
    for k in want:
        ch.check(E.same(got[k], want[k]), f"{name} without {p}: {k} differs from that with {p}={full[p]}: {got[k]} / {want[k]}")
    ch.state(p)


def h_steps(cfg, ch):
    """Without a number of steps: 200+2800 when resampling, 100+10 presampled (300 in all for the facility location)."""
    from skwdro.solvers.optim_cond import OptCondTorch
    name = cfg["name"]
    solver = ch.choose("solver", ("entropic_torch_post", "entropic_torch_pre"))
    X, y = dataset(name)
    seen = []

    class Crit(OptCondTorch):
        def __call__(self, loss, it):
            seen.append(loss.n_iter)
            return it == 2
    default = 300 if name == "Weber" else (200, 2800) if solver.endswith("post") else (100, 10)
    par = {k: v[0] for k, v in SPACE[name].items() if k != "opt_cond"}
    par.update(solver=solver, random_state=7, learning_rate=.01)
    ch.op()
    got, want = (E.outcome(E.fit(E.classes()[name](**dict(par, n_iter=n, opt_cond=Crit(2))), X, y)) for n in (None, default))

    def split(n):
        return (int(.3 * n), n) if isinstance(n, int) else tuple(n)
    ch.check({split(n) for n in seen} == {split(default)}, f"{name} ({solver}) without n_iter: steps {set(map(split, seen))} instead of {split(default)}")
    for k in want:
        ch.check(E.same(got[k], want[k]), f"{name} ({solver}) without n_iter: {k} differs from that with n_iter={default}")
    ch.state(solver)


def h_guards(cfg, ch):
    name = cfg["name"]
    cls = E.classes()[name]
    X, y = dataset(name)
    what = ch.choose("what", ("rho<0", "rho -1", "rho None", "rho text", "entropic", "typo", "empty solver", "nan data", "no rows",
                              "eta<0", "alpha 0", "alpha<0", "alpha>1", "solver_reg<0", "n_zeta<0", "C columns", "bad cost", "bad cost engine",
                              "dedicated"))

    def go(**kw):
        e = cls(**kw)
        return E.fit(e, X, y)
    ch.op()
    if what in ("rho<0", "rho -1"):
        ch.raises(ValueError, lambda: cls(rho=-1e-9 if what == "rho<0" else -1), what)
    elif what.startswith("rho"):
        e = cls(n_iter=2, solver="entropic_torch_post")
        e.rho = None if what == "rho None" else "much"
        ch.raises(TypeError, lambda: E.fit(e, X, y), what)
    elif what == "entropic":
        ch.raises(DeprecationWarning, lambda: go(solver="entropic", n_iter=2), what)
    elif what in ("typo", "empty solver"):
        for s in (("typos", "Dedicated", "entropic_jax", "dedicate") if what == "typo" else ("",)):
            ch.raises(NotImplementedError, lambda: go(solver=s, n_iter=2), f"solver {s!r}")
    elif what == "nan data":
        for bad in (np.nan, np.inf):
            Z = X.copy()
            Z[2, 1] = bad
            ch.raises(ValueError, lambda: E.fit(cls(n_iter=2, solver="entropic_torch_post"), Z, y), what)
    elif what == "no rows":
        ch.raises(ValueError, lambda: E.fit(cls(n_iter=2, solver="entropic_torch_post"), X[:0], None if y is None else y[:0]), what)
    elif what in ("bad cost", "bad cost engine"):
        for c in (("t-XX-2-2", "NLC-2", "t-NC-2-2-3-4") if what == "bad cost" else ("n-NC-2-2",)):
            ch.raises((ValueError, AssertionError), lambda: go(cost=c, n_iter=2, solver="entropic_torch_post"), f"cost {c}")
    elif what == "dedicated":
        if name == "Weber":
            ch.raises(NotImplementedError, lambda: go(solver="dedicated"), what)
        else:
            go(solver="dedicated")
            if name == "LogisticRegression":
                ch.raises(NotImplementedError, lambda: E.fit(cls(solver="dedicated"), *dataset(name, 3)), "dedicated, three classes")
    elif name == "Portfolio":
        bad = {"eta<0": dict(eta=-.1), "alpha 0": dict(alpha=0.), "alpha<0": dict(alpha=-.5), "alpha>1": dict(alpha=1.01),
               "solver_reg<0": dict(solver_reg=-1e-3), "n_zeta<0": dict(n_zeta_samples=-1)}.get(what)
        if bad:
            ch.raises(ValueError, lambda: cls(**bad), what)
            cls(alpha=1.)
        else:
            for s in ("dedicated", "entropic_torch_post"):
                ch.raises(ValueError, lambda: go(solver=s, C=np.zeros((1, 5)), d=np.zeros(1), n_iter=2), what)
    ch.state(what)


# parameters outside the reference pipeline: two values that have to give different fits
INERT = {"Weber": ("kappa", .01, 100.), "Portfolio": ("fit_intercept", True, False)}


def h_matters(cfg, ch):
    """A documented parameter has an effect under at least one of the settings."""
    name = cfg["name"]
    p, a, b = INERT[name]
    X, y = dataset(name)
    par = {k: v[0] for k, v in SPACE[name].items() if k != "opt_cond"}
    changed = False
    for cost, rho in itertools.product(SPACE[name]["cost"], (.1, .7)):
        ch.op()
        one, two = (E.outcome(E.fit(E.classes()[name](**dict(par, cost=cost, rho=rho, learning_rate=.1, n_iter=(4, 4), solver="entropic_torch_post",
                                                               **{p: v})), X, y)) for v in (a, b))
        changed |= set(one) != set(two) or any(not E.same(one[k], two[k]) for k in one)
    ch.check(changed, f"{name}: {p} has no effect on any fit ({a} and {b} give the same results for every cost and radius)",
             sig=f"{name} ignores {p}")
    ch.state(p)


HARNESSES = dict(large=h_large, steps=h_steps, matters=h_matters, pipeline=h_pipeline, pipeline2=h_pipeline2, omitted=h_omitted, guards=h_guards)
