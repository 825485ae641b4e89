"""P13: dual feasibility, the multiplier is never negative."""
import itertools
import math
import warnings

import numpy as np
import torch as pt

from .. import util as U

TITLE = ("exhaustive product of losses, costs, optimisers, step sizes, radii and temperatures solved with the real solvers and "
         "estimators, with a monitor on the multiplier at every consultation of the stopping criterion and at the end; "
         "all gradient sign sequences up to a depth on the composite optimiser")
ASSUMPTIONS = ["diverged solves (NaN objective, warning emitted) are not required to return a number"]
BOUNDS = {"quick": "2 losses x 4 costs x 6 optimisers x 4 radii x 3 temperatures x importance sampling, 4+8 steps; "
                   "6 estimators x solvers x radii; sign sequences of length 6"}

OPTS = (("pre", None, None), ("pre", None, 20.), ("post", "prodigy", None), ("post", "mechanic", None),
        ("post", None, None), ("post", None, 5.))


def tasks(tier):
    n = (4, 8) if tier == "quick" else (10, 60)
    for lname, cost, (kind, adapt, lr), imp in itertools.product(
            ("quad", "mse"), ("2-2", "1-1", "1-2", "1-inf"), OPTS, (False, True)):
        if imp and cost != "2-2":
            continue
        yield "solve", dict(loss=lname, cost=cost, kind=kind, adapt=adapt, lr=lr, imp=imp, n=n)
    for est, rho in itertools.product(("linreg", "logreg", "multi", "newsvendor", "portfolio", "weber"),
                                      (0., 1e-4, .1, 3.)):
        yield "estimator", dict(est=est, rho=rho, n=n)
    for opt in ("prodigy", "mechanic"):
        yield "signs", dict(opt=opt, depth=5 if tier == "quick" else 8)


def recorder(**kw):
    from skwdro.solvers.optim_cond import OptCondTorch

    class Rec(OptCondTorch):
        def __call__(self, loss, it):
            self.lams.append((float(loss.lam), float(loss.rho)))
            return super().__call__(loss, it)

    r = Rec(2, 1e-30, 1e-30, monitoring="theta", **kw)
    r.lams = []
    return r


def monitor(ch, lams, what):
    for k, (v, rho) in enumerate(lams):
        ch.check(v >= 0., f"{what}: multiplier {v} at iteration {k}")
        ch.check(rho > 0. or v == 0., f"{what}: multiplier {v} at radius 0, iteration {k}")


def h_solve(cfg, ch):
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.torch import robustify
    rho = ch.choose("rho", (0., 1e-3, .3, 5.))
    eps = ch.choose("eps", (None, 1e-3, 2.))
    metric = ch.choose("metric", ("grad", "param"))
    scale = ch.choose("scale", (1., 20.))
    pt.manual_seed(2)
    lab = cfg["loss"] == "mse"
    x = U.grid(4, 2, k=5) * scale
    y = U.grid(4, 1, k=6) if lab else None
    loss, tr = (pt.nn.MSELoss(reduction="none"), pt.nn.Linear(2, 1)) if lab else (U.QuadModule(2), None)
    dual = robustify(loss, tr, pt.tensor(rho), x, y, cfg["kind"] == "post", f"t-{'NLC' if lab else 'NC'}-{cfg['cost']}",
                     3, 1, imp_samp=cfg["imp"], n_iter=tuple(cfg["n"]), adapt=cfg["adapt"], learning_rate=cfg["lr"], epsilon=eps)
    if rho > 0. and ch.choose("radius", ("fixed", "zeroed")) == "zeroed":
        dual.rho.data.zero_()
        rho = 0.
    emp = EmpiricalDistributionWithLabels(m=4, samples_x=x.numpy(), samples_y=y.numpy()) if lab else \
        EmpiricalDistributionWithoutLabels(m=4, samples=x.numpy())
    rec = recorder(metric=metric)
    ch.op()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = solve_dual_wdro(dual, emp, rec)
    diverged = any("diverged" in str(v.message) for v in w) or not np.isfinite(res.coef).all()
    if not diverged:
        monitor(ch, rec.lams, "solve")
        ch.check(float(res.dual_var[0]) >= 0., f"solve: returned multiplier {res.dual_var}")
        ch.check(float(dual.lam) >= 0., f"solve: final multiplier {float(dual.lam)}")
        ch.check(rho > 0 or float(dual.lam) == 0., f"solve: final multiplier {float(dual.lam)} at radius 0")
        ch.check(rho > 0 or float(res.dual_var[0]) == 0., f"solve: multiplier {res.dual_var} at radius 0")
    ch.outcome(("diverged" if diverged else "zero" if float(res.dual_var[0]) == 0 else "positive"))
    ch.state(rho, eps, metric, scale)


def h_estimator(cfg, ch):
    from skwdro.linear_models import LinearRegression, LogisticRegression
    from skwdro.operations_research import NewsVendor, Portfolio, Weber
    est, rho = cfg["est"], cfg["rho"]
    solvers = ["entropic_torch", "entropic_torch_post", "entropic_torch_pre"]
    if est in ("logreg", "newsvendor", "portfolio"):
        solvers.append("dedicated")
    solver = ch.choose("solver", solvers)
    lr = ch.choose("lr", (None, .5)) if solver != "dedicated" else None
    x = U.grid(6, 2, k=5).numpy().astype(float)
    yr = U.grid(6, k=6).numpy().astype(float)
    cls = dict(linreg=LinearRegression, logreg=LogisticRegression, multi=LogisticRegression, newsvendor=NewsVendor,
               portfolio=Portfolio, weber=Weber)[est]
    y = dict(linreg=yr, logreg=np.array([0, 1, 0, 1, 1, 0]), multi=np.array([0, 1, 2, 0, 1, 2]), newsvendor=None,
             portfolio=None, weber=np.abs(yr) + .1)[est]
    if est == "newsvendor":
        x = np.abs(x[:, :1]) + .2
    rec = recorder()
    from sklearn.base import clone  # noqa
    e = cls(rho=rho, solver=solver, n_iter=tuple(cfg["n"]), n_zeta_samples=3, learning_rate=lr, opt_cond=rec)
    ch.op()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        e.fit(x, y)
    if not any("diverged" in str(v.message) for v in w):
        monitor(ch, rec.lams, est)
        dv = float(np.ravel(e.dual_var_)[0])
        # interior point solvers return their multiplier up to their tolerance
        ch.check(dv >= (-1e-6 if solver == "dedicated" else 0.), f"{est}: multiplier {dv}")
        ch.check(solver == "dedicated" or rho > 0 or dv == 0., f"{est}: multiplier {dv} at radius 0")
    ch.state(solver, lr)


def h_signs(cfg, ch):
    from skwdro.solvers.oracle_torch import CompositeOptimizer
    w = pt.nn.Parameter(pt.tensor([1., -2.]))
    lam = pt.nn.Parameter(pt.tensor(ch.choose("lam0", (0., 1e-6, .5))))
    opt = CompositeOptimizer([w], lam, (3, 30), cfg["opt"])
    for k in range(cfg["depth"]):
        g = ch.choose(f"g{k}", (1., -1., 1e4, 0.))
        opt.zero_grad()
        w.grad = pt.tensor([1., -.5])
        lam.grad = pt.tensor(g)
        ch.op()
        opt.step()
        ch.check(float(lam) >= 0., f"composite step {k}: multiplier {float(lam)}")
        ch.state(k, g, float(lam))


HARNESSES = dict(solve=h_solve, estimator=h_estimator, signs=h_signs)
