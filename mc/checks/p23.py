"""P23: robustify builds the announced robust loss."""
import itertools

import numpy as np
import torch as pt
import torch.nn as nn

from .. import util as U

TITLE = ("all combinations of given and omitted settings of the real robustify within a table, the resulting robust loss examined through its "
         "hyper-parameters, samples, steps, importance sampling, optimiser and values against the documented rules")
ASSUMPTIONS = ["two robust losses built with the same seed draw the same samples when they use the same scale"]
BOUNDS = {"quick": "2 sampling modes x labels x 8 costs x 5 radii x 3 scales x 3 temperatures x 2 precisions, 6 optimiser settings, 6 step settings, 4 reductions; up to 1500 samples, 300 points, 40 features"}

COSTS = (None, "t-NC-2-2", "t-NLC-2-2", "t-NLC-2-2-7", "t-NC-1-2", "t-NLC-1-1-3", "t-NC-1-inf", "NC-2-2")


def tasks(tier):
    for post, lab, cost, dt in itertools.product((True, False), (True, False), COSTS, ("float32", "float64")):
        if cost and "NLC" in cost and not lab:
            continue
        yield "hyper", dict(post=post, lab=lab, cost=cost, dtype=dt)
    for post in (True, False):
        yield "wiring", dict(post=post)
        yield "steps", dict(post=post)
        yield "seeds", dict(post=post)
        yield "amounts", dict(post=post)
    yield "refusals", dict()


def spec(cost, lab):
    """(has label part, power, norm, kappa)"""
    if cost is None:
        return lab, 2., 2., 1e8
    f = cost.split("-")
    if f[0] == "t":
        f = f[1:]
    return f[0] == "NLC", float(f[1]), float(f[2]), float(f[3]) if len(f) > 3 else 1e8


def build(lab, post, dtype=pt.float32, rho=.3, m=4, d=2, **kw):
    from skwdro.torch import robustify
    pt.manual_seed(0)
    x = U.grid(m, d, k=1, dtype=dtype)
    y = U.grid(m, 1, k=2, dtype=dtype) if lab else None
    if lab:
        tr, loss = nn.Linear(d, 1).to(dtype), nn.MSELoss(reduction="none")
    else:
        tr, loss = None, U.QuadModule(d).to(dtype)
    rho = pt.tensor(rho, dtype=dtype)
    return robustify(loss, tr, rho, x, y, post, **kw), tr if lab else loss, x, y


def same(a, b):
    return (a is None and b is None) or (a is not None and b is not None and a.shape == b.shape and bool((a == b).all()))


def h_hyper(cfg, ch):
    dtype = getattr(pt, cfg["dtype"])
    cost, lab, post = cfg["cost"], cfg["lab"], cfg["post"]
    nlc, power, norm, kappa = spec(cost, lab)
    rho = ch.choose("rho", (.3, 0., 1e-4, 5., 1.))
    sigma = ch.choose("sigma", (None, .5, 2.))
    eps = ch.choose("eps", (None, .25, 3., 2. ** -33))
    imp = ch.choose("imp", (None, False))
    ch.op()
    kw = {} if imp is None else dict(imp_samp=False)
    if cost is not None:
        kw["cost_spec"] = cost
    L, model, x, y = build(lab, post, dtype, rho, epsilon=eps, sigma=sigma, seed=3, n_samples=4, **kw)
    r = float(pt.tensor(rho, dtype=dtype))
    want_sigma = sigma if sigma is not None else (.5 * r if r > 0 else .5)
    want_eps = eps if eps is not None else max(1e-2 * .5 ** power * r ** (power - 1.), 1e-7)
    ch.close(float(L.rho), r, "radius", rtol=1e-12 if cfg["dtype"] == "float64" else 1e-6, atol=1e-12)
    ch.close(float(L.epsilon), want_eps, f"temperature with radius {rho}, cost {cost}", rtol=1e-5, atol=1e-12)
    ch.check(L.epsilon.dtype == dtype, f"temperature in {L.epsilon.dtype} for {dtype} data")
    ch.check(not L.rho.requires_grad and not L.epsilon.requires_grad, "radius or temperature are trainable")
    ch.check(bool(L.imp_samp) == (imp is None and power == 2. and norm == 2.), f"importance sampling is {L.imp_samp} for cost {cost}, asked {imp}")
    ch.check(bool(L.presample) == (not post), f"sampling mode: presample is {L.presample}")
    ch.check(L.n_samples == 4, f"{L.n_samples} samples instead of 4")
    # cost
    xs, zs = x[:2].to(pt.float64), x[2:].to(pt.float64)
    c = L.cost.value(x[:2], x[2:], *((y[:2], y[2:]) if lab else (None, None)))
    want = U.ref_cost("NLC" if nlc else "NC", norm, power, kappa, xs, zs, *((y[:2].to(pt.float64), y[2:].to(pt.float64)) if lab else (None, None)))
    ch.close(c.flatten(), want.flatten(), f"ground cost {cost}", rtol=1e-4, atol=1e-5)
    # samples: those of the same loss with the scale written out
    z, t = L.generate_zetas()
    ch.check(tuple(z.shape) == (4,) + tuple(x.shape) and z.dtype == dtype, f"samples of shape {tuple(z.shape)}, {z.dtype}")
    ch.check((t is not None) == lab, "samples of labels")
    L2, _, _, _ = build(lab, post, dtype, rho, epsilon=eps, sigma=want_sigma, seed=3, n_samples=4, **kw)
    z2, t2 = L2.generate_zetas()
    ch.close(z, z2, f"samples with the default scale for radius {rho}", rtol=1e-5, atol=1e-6)
    if lab:
        ch.close(t, t2, f"label samples with the default scale for radius {rho}", rtol=1e-5, atol=1e-6)
    # and they scale linearly around the points (norms 2 and inf keep the same draws)
    L3, _, _, _ = build(lab, post, dtype, rho, epsilon=eps, sigma=want_sigma * 2., seed=3, n_samples=4, **kw)
    if not (cost and (norm == 1. and power == 1.)):
        z3, _ = L3.generate_zetas()
        if norm == 2. and power == 2.:
            ch.close((z3 - x), 2. * (z - x), "samples do not scale with the requested scale", rtol=1e-3, atol=1e-4)
    ch.check(bool((z - x).abs().max() > 0), "samples do not move")
    # multiplier
    ch.check(bool(L.lam.requires_grad) == (r > 0) or r > 0, "the multiplier is trainable at radius 0")
    ch.check(float(L.lam) >= 0. and np.isfinite(float(L.lam)), f"initial multiplier {float(L.lam)}")
    # it evaluates
    v = L(x, y) if post else L(x, y, z, t)
    ch.check(v.dim() == 0 and bool(v.isfinite()) and v.dtype == dtype, f"robust loss {v}")
    ch.state(rho, sigma, eps, imp, float(L.epsilon))


def h_amounts(cfg, ch):
    """Numbers of samples, of points and of features."""
    n = ch.choose("n", (1, 2, 10, 100, 130, 1500, None))
    m = ch.choose("m", (1, 4, 70, 300) if n is None or n <= 130 else (1, 4))
    d = ch.choose("d", (1, 2, 40))
    lab = ch.choose("lab", (True, False))
    ch.op()
    L, model, x, y = build(lab, cfg["post"], m=m, d=d, imp_samp=False, seed=3, **({} if n is None else dict(n_samples=n)))
    n = 10 if n is None else n
    ch.check(L.n_samples == n, f"{L.n_samples} samples instead of {n}")
    z, t = L.generate_zetas()
    ch.check(tuple(z.shape) == (n, m, d) and (tuple(t.shape) == (n, m, 1) if lab else t is None), f"{n} samples of {m} points in dimension {d} have shape {tuple(z.shape)}")
    ch.check(bool(((z - x).abs() <= 12 * .15).all()), "samples far from their points")
    if n > 1:
        ch.check(bool((z.std(0) > 0).all()) and len(z[:, 0, 0].unique()) > .9 * n, f"{n} samples are not distinct")
    seen = []
    inner = L.sampler.sample
    L.sampler.sample = lambda k: (seen.append(k), inner(k))[1]
    v = L(x, y) if cfg["post"] else L(x, y, z, t)
    ch.check(seen == ([n] if cfg["post"] else []), f"evaluation drew {seen} samples")
    ch.check(v.dim() == 0 and bool(v.isfinite()), f"robust loss {v}")
    ch.state(n, m, d, lab)


def h_wiring(cfg, ch):
    """Regularisation, reduction, optimiser and parameters."""
    post = cfg["post"]
    lab = ch.choose("lab", (True, False))
    l2 = ch.choose("l2", (None, 0., .5))
    red = ch.choose("red", (None, "mean", "sum", "none"))
    adapt = ch.choose("adapt", ("default", "prodigy", "mechanic", None))
    lr = ch.choose("lr", (None, .07, 0., 2))
    ch.op()
    kw = dict(l2reg=l2, reduction=red, learning_rate=lr)
    if adapt != "default":
        kw["adapt"] = adapt
    L, model, x, y = build(lab, post, n_samples=3, imp_samp=False, **kw)
    B, _, _, _ = build(lab, post, n_samples=3, imp_samp=False)
    par = list(model.parameters())
    ids = {id(p) for p in L.parameters()}
    ch.check(all(id(p) in ids for p in par), "the user's parameters are not those of the robust loss")
    # values: l2 adds a constant to every sample
    z, t = B.generate_zetas()
    for Q in (L, B):
        U.set_lam(Q, .5)
    if post:
        L.sampler = B.sampler = U.stub_samplers()(z, t)
    f = (lambda Q: Q(x, y, reset_sampler=False)) if post else (lambda Q: Q(x, y, z, t))
    reg = .5 * (l2 or 0.) * sum(float((p ** 2).sum()) for p in par)
    per = []
    for i in range(len(x)):
        zi, ti = z[:, i:i + 1], None if t is None else t[:, i:i + 1]
        if post:
            B.sampler = U.stub_samplers()(zi, ti)
        xi, yi = x[i:i + 1], None if y is None else y[i:i + 1]
        per.append(float(B(xi, yi, reset_sampler=False) if post else B(xi, yi, zi, ti)))
    const = .5 * float(L.rho) ** 2
    per = np.array(per) - const + reg
    got = f(L).detach().numpy()
    want = const + {None: per.mean(), "mean": per.mean(), "sum": per.sum(), "none": per}[red]
    ch.close(got, want, f"reduction {red}, regularisation {l2}", rtol=1e-3, atol=1e-3)
    # optimiser
    o = L.optimizer
    own = {id(p) for g in o.param_groups for p in g["params"]}
    if hasattr(o, "opts"):
        own |= {id(p) for oo in o.opts.values() for g in oo.param_groups for p in g["params"]}
    ch.check(all(id(p) in own for p in par) and id(U.lam_leaf(L)) in own, "the optimiser misses the model or the multiplier")
    if post and adapt is None:
        ch.check(isinstance(o, pt.optim.AdamW), f"optimiser {type(o).__name__} without adaptation")
        ch.close(o.param_groups[0]["lr"], .05 if lr is None else lr, "learning rate", rtol=1e-9)
    elif not post:
        ch.check(isinstance(o, pt.optim.LBFGS), f"optimiser {type(o).__name__} of the presampled loss")
        ch.close(o.param_groups[0]["lr"], 1. if lr is None else lr, "learning rate", rtol=1e-9)
    ch.state(lab, l2, red, adapt, lr)


def h_steps(cfg, ch):
    """Number of steps actually performed by a solve."""
    from skwdro.base.problems import EmpiricalDistributionWithoutLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    n_iter = ch.choose("n_iter", (None, (3, 4), (0, 1), 10, 7, 1))
    post = cfg["post"]
    L, model, x, y = build(False, post, n_iter=n_iter, n_samples=2, adapt=None)
    want = ((200, 2800) if post else (100, 10)) if n_iter is None else (n_iter if isinstance(n_iter, tuple) else (int(.3 * n_iter), n_iter))

    class Stop(Exception):
        pass

    seen = dict(steps=0)
    o = L.optimizer
    real = o.step

    def step(*a, **k):
        seen["steps"] += 1
        return real(*a, **k)
    o.step = step
    calls = []

    class Crit(OptCondTorch):
        def __call__(self, loss, it):
            calls.append((int(it), seen["steps"]))
            return n_iter is None and len(calls) == 3        # the default is long
    ch.op()
    solve_dual_wdro(L, EmpiricalDistributionWithoutLabels(m=4, samples=x.numpy()), Crit(2))
    n_train = 3 if n_iter is None else want[1]
    ch.check([c[0] for c in calls] == list(range(n_train)), f"n_iter={n_iter}: criterion consulted at {[c[0] for c in calls]}")
    ch.check(calls and calls[0][1] == want[0] + 1, f"n_iter={n_iter}: {calls[0][1] - 1} pretraining steps instead of {want[0]}")
    if n_iter is None:
        ch.check(len(list(L.iterations)) == want[1], f"default number of training steps {len(list(L.iterations))}")
    ch.state(n_iter, len(calls))


def h_seeds(cfg, ch):
    """Same seed, same draws, whatever the ambient generator; the default seed is 42."""
    seed = ch.choose("seed", (None, 42, 7, 0, 1, 2 ** 31))
    amb = ch.choose("ambient", (1, 2))
    lab = ch.choose("lab", (True, False))
    cost = ch.choose("cost", ("t-NC-2-2", "t-NC-1-1"))
    ch.op()
    kw = {} if seed is None else dict(seed=seed)

    def draws(kw, amb):
        pt.manual_seed(amb)
        L, _, x, y = build(lab, cfg["post"], n_samples=3, cost_spec=cost, **kw)
        return L.generate_zetas()
    z, t = draws(kw, amb)
    z2, t2 = draws(dict(seed=42 if seed is None else seed), 99)
    ch.check(same(z, z2) and same(t, t2), f"draws with seed {seed} depend on the ambient generator")
    z3, _ = draws(dict(seed=8), amb)
    z4, _ = draws(dict(seed=3 if seed is None else seed + 1), amb)
    ch.check(not same(z, z3) and not same(z, z4), "different seeds give the same draws")
    ch.state(seed, amb, lab, cost)


def h_refusals(cfg, ch):
    from skwdro.torch import robustify
    x, y = U.grid(4, 2), U.grid(4, 1)
    what = ch.choose("what", ("labels not a tensor", "adapt", "engine", "cost id", "cost fields", "loss reduces", "rho<0"))
    ch.op()

    def go(lab=y, loss=nn.MSELoss(reduction="none"), rho=.1, **kw):
        return robustify(loss, nn.Linear(2, 1), pt.tensor(rho), x, lab, **kw)
    if what == "labels not a tensor":
        ch.raises((AssertionError, TypeError, AttributeError), lambda: go(lab=y.numpy().tolist()), what)
    elif what == "adapt":
        ch.raises((AssertionError, NotImplementedError, ValueError), lambda: go(adapt="adagrad"), what)
    elif what == "engine":
        ch.raises((AssertionError, ValueError), lambda: go(cost_spec="n-NC-2-2"), what)
    elif what == "cost id":
        ch.raises(ValueError, lambda: go(cost_spec="t-XC-2-2"), what)
    elif what == "cost fields":
        for c in ("2-2", "t-NC-2-2-1-1", ""):
            ch.raises(ValueError, lambda: go(cost_spec=c), what)
    elif what == "loss reduces":
        ch.raises(AssertionError, lambda: go(loss=nn.MSELoss()), what)
    else:
        for post in (True, False):
            L = go(rho=-.5, post_sample=post)
            z, t = pt.zeros(3, 4, 2), pt.zeros(3, 4, 1)
            ch.raises(ValueError, lambda: L(x, y) if post else L(x, y, z, t), what)
    ch.state(what)


HARNESSES = dict(amounts=h_amounts, hyper=h_hyper, wiring=h_wiring, steps=h_steps, seeds=h_seeds, refusals=h_refusals)
