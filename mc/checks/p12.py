"""P12: the protocol of the entropic solvers."""
import itertools
import math
import warnings

import numpy as np
import torch as pt

from .. import util as U
from .p01 import f64
from .p09 import COSTS, owned_sampler
from .p10 import formula

TITLE = ("the real solve loops driven by an owned optimiser, sampler and stopping criterion; every stopping/divergence "
         "scenario within the step budget is executed and each step is compared with a reference descent (which objective, "
         "which samples, which multiplier, how many steps, what is returned)")
ASSUMPTIONS = ["owned optimiser: plain gradient steps recorded by the harness, with and without closure support",
               "loss evaluated without importance sampling in the reference comparison"]
BOUNDS = {"quick": "pre/post x 2 losses x costs x 9 step budgets (up to 3 pretraining and 4 training steps) x metric; all stop "
                   "iterations, all divergence iterations and all infinite iterations; budgets of 1100-1500 steps"}

STEPS = [1, 2, 4, 7, (0, 1), (0, 3), (2, 1), (3, 4), (1, 2)]
LR, EPS = .05, .5


def tasks(tier):
    steps = STEPS if tier == "quick" else STEPS + [10, (5, 6), (1, 8), 13]
    for kind, lname, ci, si, metric, rho in itertools.product(
            ("pre", "post"), ("quad", "mse"), (0, 2, 3), range(len(steps)), ("grad", "param"), (.3, 0.)):
        if COSTS[ci][0] == "NLC" and lname == "quad":
            continue
        if rho == 0. and ci:
            continue
        yield "loop", dict(kind=kind, loss=lname, cost=ci, steps=steps[si], metric=metric, rho=rho)
    for kind, lname, ci in itertools.product(("pre", "post"), ("quad", "mse"), (0, 2, 3)):
        if not (COSTS[ci][0] == "NLC" and lname == "quad"):
            yield "data", dict(kind=kind, loss=lname, cost=ci)
    for kind, imp, metric, adapt in itertools.product(("pre", "post"), (True, False), ("grad", "param"),
                                                      ("prodigy", "mechanic", None)):
        if kind == "pre" and adapt != "prodigy":
            continue
        yield "real", dict(kind=kind, imp=imp, metric=metric, adapt=adapt)
    for kind, metric, steps in itertools.product(("pre", "post"), ("grad", "param"), ((1100, 2), (2, 1100), 1500)):
        yield "long", dict(kind=kind, metric=metric, steps=steps)


def split(n):
    return (int(.3 * n), n) if isinstance(n, int) else tuple(n)


def make(cfg, sam):
    from skwdro.base.losses_torch import WrappedPrimalLoss
    from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
    loss, tr, lab, params, ref = U.primal_setup(cfg["loss"], 2, 1, pt.float32)

    class Poison(pt.nn.Module):
        """Lets the environment make the objective undefined."""
        reduction = "none"

        def __init__(self):
            super().__init__()
            self.inner = loss
            self.on = 0.    # True: undefined; otherwise an additive constant

        def forward(self, *a):
            v = self.inner(*a)
            return v * float("nan") if self.on is True else v + self.on

    pl = Poison()
    prim = WrappedPrimalLoss(pl, tr, sam, lab)
    cls = DualPostSampledLoss if cfg["kind"] == "post" else DualPreSampledLoss
    steps = cfg["steps"]
    dual = cls(prim, U.make_cost(*COSTS[cfg["cost"]]), n_samples=3, epsilon_0=pt.tensor(EPS), rho_0=pt.tensor(cfg["rho"]),
               n_iter=steps if isinstance(steps, int) else tuple(steps), reduction="mean", imp_samp=False)
    return dual, pl, params, ref


def ref_eval(params, ref, cost, x, y, z, t, lam, rho, erm):
    P = {k: f64(v).requires_grad_(True) for k, v in params.items()}
    lamt = pt.tensor(float(lam), dtype=pt.float64, requires_grad=True)
    if erm or rho == 0.:
        v = ref(P, f64(x), None if y is None else f64(y)).mean() + 0. * lamt
    else:
        L = ref(P, f64(z), f64(t))
        c = U.ref_cost(*cost, f64(x).unsqueeze(0), f64(z), None if y is None else f64(y).unsqueeze(0), f64(t))
        v = U.ref_dual(L, c, lamt, rho, EPS, cost[2], "mean")
    v.backward()
    return float(v.detach()), {k: p.grad for k, p in P.items()}, float(lamt.grad)


def h_loop(cfg, ch):
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    pre, train = split(cfg["steps"])
    if cfg["kind"] == "pre" and train == 0:
        ch.prune()
    rho, cost = cfg["rho"], COSTS[cfg["cost"]]
    lab = cfg["loss"] == "mse"
    x = U.grid(4, 2, k=5)
    y = U.grid(4, 1, k=6) if lab else None
    # the environment: when does the criterion say stop, when does the loss diverge
    stop = ch.choose("stop after training step", [None] + list(range(train)))
    nan = ch.choose("undefined objective at training step", [None] + list(range(train))) if rho > 0 else None
    # a loss that is infinite but defined is no reason to stop
    inf = ch.choose("infinite objective at training step", [None] + list(range(train))) \
        if rho > 0 and nan is None and cfg["metric"] == "grad" else None
    sam = owned_sampler()(x, y)
    dual, pl, params, ref = make(cfg, sam)
    leaf = U.lam_leaf(dual)
    log = dict(steps=0, evals=[], iters=[], vals=[])
    trainable = [p for p in dual.parameters() if p.requires_grad]

    class Opt(pt.optim.Optimizer):
        def __init__(self):
            super().__init__(trainable, {})

        def step(self, closure=None):
            k = log["steps"]
            ph = k < pre
            if cfg["kind"] == "pre":
                ch.check(closure is not None, "presampled solver: no closure given to the optimiser")
                with pt.enable_grad():
                    closure()
            fine = not pl.on
            if fine:
                z, t = sam.draws[-1][2:] if sam.draws else (None, None)
                if cfg["kind"] == "pre":
                    z, t = sam.draws[0][2:]
                if k == pre and rho > 0:
                    lam0 = float(leaf.detach())
                    if cost[2] != 1.:
                        want = formula(cost, params, ref, x, y, rho, cfg["loss"])
                        ch.check(abs(lam0 - want) <= 2e-4 * max(1., want),
                                 f"multiplier at the start of training: {lam0} instead of {want}")
                val, gP, gl = ref_eval(params, ref, cost, x, y, z, t, leaf.detach(), rho, ph)
                log["vals"].append(val)
                for name, p in params.items():
                    tol = dict(rtol=2e-3, atol=2e-3 * max(1., float(gP[name].abs().max())))
                    ch.check(p.grad is not None, f"step {k}: no gradient for {name}")
                    ch.close(p.grad, gP[name], f"{'pretraining' if ph else 'training'} step: gradient of the "
                             f"{'empirical risk' if ph else 'robust loss'}", **tol)
                if not ph and rho > 0:
                    ch.close(leaf.grad, gl, "training step: gradient of the multiplier", rtol=2e-3, atol=2e-3)
            with pt.no_grad():
                for p in trainable:
                    if p.grad is not None and p is not leaf and (fine or pl.on is True):
                        p -= LR * p.grad
                if rho > 0:
                    # drive the multiplier below 0 from time to time
                    leaf.sub_(.3 if k % 2 else -.2)
            log["steps"] = k + 1
            tk = k + 1 - pre
            if pl.on is not True:
                pl.on = 0.
            if inf is not None and tk == (inf if cfg["kind"] == "post" else inf + 1):
                pl.on = math.inf
            if nan is not None and tk == (nan if cfg["kind"] == "post" else nan + 1):
                pl.on = True
            return None

    class Crit(OptCondTorch):
        def __init__(self):
            super().__init__(2, monitoring="theta", metric=cfg["metric"])

        def __call__(self, lossobj, it):
            ch.check(log["steps"] == pre + len(log["iters"]) + 1,
                     f"criterion consulted after {log['steps']} steps for iteration {it}")
            log["iters"].append(it)
            lam = float(leaf.detach())
            ch.check(lam >= 0., f"multiplier {lam} when the criterion is consulted")
            return it == stop

    opt = Opt()
    dual.optimizer = opt
    if nan == 0 and cfg["kind"] == "post" and pre == 0:
        pl.on = True          # undefined from the first evaluation on
    if inf == 0 and cfg["kind"] == "post" and pre == 0:
        pl.on = math.inf
    before = sum(1 for _ in sam.draws)
    if lab:
        emp = EmpiricalDistributionWithLabels(m=4, samples_x=x.numpy(), samples_y=y.numpy())
    else:
        emp = EmpiricalDistributionWithoutLabels(m=4, samples=x.numpy())
    ch.op()
    with warnings.catch_warnings(record=True) as wlist:
        warnings.simplefilter("always")
        res = solve_dual_wdro(dual, emp, Crit())
    # expected number of training steps
    ends = [train - 1]
    if stop is not None:
        ends.append(stop)
    if nan is not None:
        ends.append(nan)
    last = min(ends)
    diverged = nan is not None and nan == last
    ch.op(log["steps"])
    ch.check(log["steps"] == pre + last + 1, f"{log['steps'] - pre} training steps instead of {last + 1}")
    want = list(range(last + (0 if diverged else 1)))
    ch.check(log["iters"] == want, f"criterion consulted for {log['iters']} instead of {want}")
    ch.check(diverged == any("NaN" in str(w.message) or "diverged" in str(w.message) for w in wlist),
             f"divergence {diverged} but warnings {[str(w.message) for w in wlist]}")
    if cfg["kind"] == "pre":
        ch.check(len(sam.draws) == before + 1, f"presampled solver drew {len(sam.draws) - before} times")
    elif rho > 0:
        ch.check(len(sam.draws) >= before + last + 1, "the resampling solver reused samples")
    coef, inter, dual_var, rl = res
    ch.close(coef, dual.theta.detach().flatten(), "returned parameters", rtol=1e-6)
    ch.check(bool(dual.erm_mode) is False, "the loss is left in empirical mode")
    ch.check(bool(dual.imp_samp) is False, "importance sampling switched on")
    if rho > 0:
        got, fin = float(np.ravel(dual_var)[0]), float(leaf.detach())
        ch.check(got == fin or math.isnan(got) and math.isnan(fin), f"returned multiplier {got} is not the final one {fin}")
        ch.check(got >= 0. or diverged, f"negative multiplier returned: {dual_var}")
    else:
        ch.check(float(np.ravel(dual_var)[0]) == 0., f"multiplier {dual_var} at radius 0")
    if diverged:
        ch.check(math.isnan(rl), f"robust loss {rl} although the solve diverged")
    elif inf is not None and inf == last:
        ch.check(rl == math.inf, f"robust loss {rl} although the last objective was infinite")
    else:
        if cfg["kind"] == "pre":
            v, _, _ = ref_eval(params, ref, cost, x, y, *sam.draws[0][2:], leaf.detach(), rho, False)
        else:
            v = log["vals"][-1]
        ch.check(abs(rl - v) <= 2e-3 * max(1., abs(v)), f"robust loss {rl} instead of {v}")
    ch.state(stop, nan, last)
    ch.outcome((cfg["kind"], "diverged" if diverged else "stopped" if last == stop else "exhausted"))


def h_data(cfg, ch):
    """Whatever the magnitude and number of the data and wherever the sampler was before, the solve is on these data and around them."""
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    cost, lab = COSTS[cfg["cost"]], cfg["loss"] == "mse"
    rho = ch.choose("rho", (.3, 1e-7))
    scale = ch.choose("scale", (1., 1e-4, 1e3, 1e5))
    n = ch.choose("points", (1, 4, 300))
    away = ch.choose("sampler was", ("there", "elsewhere", "around fewer points"))
    again = ch.choose("solves", (1, 2))
    if away == "around fewer points" and n == 1 or n == 300 and cfg["kind"] == "pre" and scale != 1.:
        ch.prune()
    x = U.grid(n, 2, k=5) * scale
    y = U.grid(n, 1, k=6) * scale if lab else None
    k = n - 1 if away == "around fewer points" else n
    sam = owned_sampler()(x[:k] + (7. if away != "there" else 0.), None if y is None else y[:k] - (3. if away != "there" else 0.))
    dual, pl, params, ref = make(dict(cfg, rho=rho, steps=(1, 1)), sam)
    leaf = U.lam_leaf(dual)
    trainable = [p for p in dual.parameters() if p.requires_grad]
    log = []

    class Still(pt.optim.Optimizer):
        """Looks at the gradients, moves nothing."""
        def __init__(self):
            super().__init__(trainable, {})

        def step(self, closure=None):
            if closure is not None:
                with pt.enable_grad():
                    closure()
            log.append(({k: p.grad.clone() for k, p in params.items()}, None if leaf.grad is None else leaf.grad.clone(), float(leaf.detach())))

    for rep in range(again):
        xs, ys = (x, y) if rep == 0 else (x.flip(0) + scale, None if y is None else y.flip(0))
        dual.optimizer = Still()
        if lab:
            emp = EmpiricalDistributionWithLabels(m=n, samples_x=xs.numpy(), samples_y=ys.numpy())
        else:
            emp = EmpiricalDistributionWithoutLabels(m=n, samples=xs.numpy())
        del log[:]
        ch.op()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = solve_dual_wdro(dual, emp, OptCondTorch(2, 0., 0.))
        ch.close(res.dual_var, [log[-1][2]], f"radius {rho}, nothing moves: returned multiplier", rtol=1e-6)
        ch.check(len(log) == 2, f"{len(log)} steps instead of 2")
        z, t = sam.draws[-1][2:]
        ch.close(sam.draws[-1][1], xs, "samples of the solve: centre", rtol=1e-6, atol=1e-6 * scale)
        if cost[2] != 1.:
            want = formula(cost, params, ref, xs, ys, rho, cfg["loss"])
            ch.check(abs(log[1][2] - want) <= 1e-3 * want + 1e-6, f"{n} points of magnitude {scale}: initial multiplier {log[1][2]} instead of {want}")
        for ph, (gP, gl, lam) in zip((True, False), log):
            if not ph and (scale > 1. or rho < .1):
                continue    # the weights of the samples are beyond single precision there
            val, wP, wl = ref_eval(params, ref, cost, xs, ys, z, t, lam, rho, ph)
            for name in wP:
                m = float(wP[name].abs().max())
                ch.close(gP[name], wP[name], f"{'pretraining' if ph else 'training'} on data of magnitude {scale}: gradient", rtol=5e-3, atol=5e-3 * max(m, 1e-6))
    ch.state(rho, scale, n, away, again)


def h_long(cfg, ch):
    """Many steps: all of them are taken, and each training step is followed by a consultation."""
    from skwdro.base.problems import EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    pre, train = split(cfg["steps"])
    stop = ch.choose("stop", [None] + [s for s in (57, 99, 100, 1003) if s < train])
    x = U.grid(3, 2, k=5)
    dual, pl, params, ref = make(dict(cfg, loss="quad", cost=0, rho=.3), owned_sampler()(x, None))
    leaf = U.lam_leaf(dual)
    log = dict(erm=0, robust=0, iters=[])

    class Opt(pt.optim.Optimizer):
        def __init__(self):
            super().__init__([p for p in dual.parameters() if p.requires_grad], {})

        def step(self, closure=None):
            if closure is not None:
                with pt.enable_grad():
                    closure()
            # the multiplier has no part in the empirical risk
            log["erm" if dual.erm_mode else "robust"] += 1
            with pt.no_grad():
                for p in params.values():
                    p -= 1e-3 * p.grad

    class Crit(OptCondTorch):
        def __call__(self, lossobj, it):
            log["iters"].append(it)
            return it == stop

    dual.optimizer = Opt()
    ch.op()
    solve_dual_wdro(dual, EmpiricalDistributionWithoutLabels(m=3, samples=x.numpy()), Crit(2, metric=cfg["metric"]))
    last = train - 1 if stop is None else stop
    ch.check(log["erm"] == pre, f"{log['erm']} pretraining steps instead of {pre}")
    ch.check(log["robust"] == last + 1, f"{log['robust']} training steps instead of {last + 1}")
    ch.check(log["iters"] == list(range(last + 1)), f"criterion consulted {len(log['iters'])} times, instead of {last + 1}")
    ch.op(pre + last)
    ch.state(stop)


def h_real(cfg, ch):
    """With the shipped optimisers: step counts and consultations only."""
    from skwdro.base.problems import EmpiricalDistributionWithLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    from skwdro.torch import robustify
    steps = ch.choose("steps", (1, 4, (0, 2), (3, 5), (2, 1)))
    pre, train = split(steps)
    stop = ch.choose("stop", [None] + list(range(train)))
    pt.manual_seed(1)
    x, y = U.grid(4, 2, k=5), U.grid(4, 1, k=6)
    lin = pt.nn.Linear(2, 1)
    erm = []

    class Mse(pt.nn.Module):
        reduction = "none"

        def forward(self, a, b):
            erm.append(len(a))
            return (a - b) ** 2

    dual = robustify(Mse(), lin, pt.tensor(.3), x, y, cfg["kind"] == "post", "t-NLC-2-2", 3, 1, imp_samp=cfg["imp"],
                     n_iter=steps, adapt=cfg["adapt"])
    seen = []
    marks = []

    class Crit(OptCondTorch):
        def __call__(self, lo, it):
            seen.append(it)
            marks.append((lin.weight.detach().clone(), float(lo.lam)))
            return it == stop

    ch.op()
    res = solve_dual_wdro(dual, EmpiricalDistributionWithLabels(m=4, samples_x=x.numpy(), samples_y=y.numpy()),
                          Crit(2, monitoring="theta", metric=cfg["metric"]))
    last = train - 1 if stop is None else stop
    ch.check(seen == list(range(last + 1)), f"criterion consulted for {seen}")
    ch.check(bool((lin.weight == marks[-1][0]).all()), "the parameters moved after the last consultation")
    ch.check(float(res.dual_var[0]) == marks[-1][1], "the multiplier moved after the last consultation")
    ch.close(res.coef, pt.cat([lin.weight.flatten(), lin.bias]), "returned parameters")
    ch.check(bool(dual.imp_samp) == cfg["imp"], "importance sampling setting changed by the solve")
    ch.check(math.isfinite(res.robust_loss), f"robust loss {res.robust_loss}")
    ch.check(erm.count(4) >= pre, "fewer evaluations of the data than pretraining steps")
    ch.state(str(steps), stop)


HARNESSES = dict(data=h_data, loop=h_loop, real=h_real, long=h_long)
