"""P07: importance sampling is a change of measure."""
import itertools
import math

import numpy as np
import torch as pt
import torch.nn as nn

from .. import util as U
from .p01 import f64
from .p06 import gauss

TITLE = ("exhaustive product of losses, label weights, shapes, spreads, multipliers and "
         "evaluation histories on the real importance-sampled dual losses; the evaluation "
         "points are recorded inside the user's model and the value and gradients compared with "
         "the reweighted dual formula")
ASSUMPTIONS = ["the samplers' draws are recorded by subclassing them, not replaced",
               "double precision"]
BOUNDS = {"quick": "losses 5, costs 6, shapes 9, reductions 3, lambda 5, sigma 2, pre/post, "
                   "histories of 3 evaluations"}

COSTS = [("NC", None), ("NLC", .5), ("NLC", 10.), ("NLC", 1e8), ("NLC", U.INF)]
SHAPES = [(1, 2, 1), (2, 1, 2), (2, 2, 2), (3, 2, 1), (4, 3, 3), (1, 5, 2), (17, 2, 2), (2, 65, 1)]


def tasks(tier):
    for kind, lname, ci, shape, red in itertools.product(
            ("pre", "post"), ("quad", "hub", "mse", "logit", "mlp"), range(len(COSTS)), SHAPES,
            ("mean", "sum", "none")):
        if lname in ("quad", "hub") and COSTS[ci][0] == "NLC":
            continue
        if red != "mean" and shape not in SHAPES[1:5]:
            continue
        yield "is", dict(kind=kind, loss=lname, cost=ci, shape=shape, red=red,
                         dl=1, via=("robustify" if lname == "mse" else "direct"))
    for kind, ci, shape in itertools.product(("pre", "post"), range(len(COSTS)), SHAPES[1:5]):
        yield "is", dict(kind=kind, loss="mse", cost=ci, shape=shape, red="mean", dl=2, via="direct")
    for kind, ci in itertools.product(("pre", "post"), range(len(COSTS))):
        yield "parts", dict(kind=kind, loss="parts", cost=ci, via="direct")
    for kind, lname, ci in itertools.product(("pre", "post"), ("quad", "mse"), (0, 2)):
        if lname == "quad" and ci:
            continue
        yield "history", dict(kind=kind, loss=lname, cost=ci)
        yield "flat", dict(kind=kind, loss=lname, cost=ci)
        yield "wide", dict(kind=kind, loss=lname, cost=ci)


class Probe(nn.Module):
    """Identity-like wrapper recording what the model is evaluated on."""

    def __init__(self, inner, log):
        super().__init__()
        self.inner = inner
        self.log = log

    def forward(self, x):
        if not pt._C._functorch.is_functorch_wrapped_tensor(x):
            self.log.append(x.detach().clone())
        return x if self.inner is None else self.inner(x)


class LossProbe(nn.Module):
    reduction = "none"

    def __init__(self, inner, log):
        super().__init__()
        self.inner = inner
        self.log = log

    def forward(self, out, y=None):
        if y is None:
            return self.inner(out)
        if not pt._C._functorch.is_functorch_wrapped_tensor(y):
            self.log.append(y.detach().clone())
        return self.inner(out, y)


class Mlp(nn.Module):
    def __init__(self, d, dl):
        super().__init__()
        self.a = nn.Parameter(U.grid(3, d, k=1, dtype=pt.float64))
        self.b = nn.Parameter(U.grid(dl, 3, k=2, dtype=pt.float64))

    def forward(self, x):
        return pt.tanh(x @ self.a.T) @ self.b.T


class Parts(nn.Module):
    """A term in the data and one in the labels, either of which may have a null gradient."""
    reduction = "none"

    def forward(self, out, y):
        return (out ** 2 + pt.relu(y) ** 2).mean(-1, keepdim=True)


def setup(lname, d, dl):
    if lname == "mlp":
        tr = Mlp(d, dl)
        return nn.MSELoss(reduction="none"), tr, True, dict(tr.named_parameters()), \
            lambda P, x, y: ((pt.tanh(x @ P["a"].T) @ P["b"].T - y) ** 2).mean(-1, keepdim=True)
    if lname == "parts":
        _, tr, lab, params, _ = U.primal_setup("mse", d, dl, pt.float64)
        return Parts(), tr, True, params, \
            lambda P, x, y: ((x @ P["weight"].T + P["bias"]) ** 2 + pt.relu(y) ** 2).mean(-1, keepdim=True)
    loss, tr, lab, params, ref = U.primal_setup(lname, d, dl, pt.float64)
    if lname == "logit":     # differentiable in its target as well
        from skwdro.base.losses_torch.logistic import BiDiffSoftMarginLoss
        loss = BiDiffSoftMarginLoss()
    return loss, tr, lab, params, ref


def recorder(cls):
    class Rec(cls):
        draws = None

        def sample(self, n_samples):
            z, t = super().sample(n_samples)
            self.draws = (z.detach().clone(), None if t is None else t.detach().clone())
            return z, t
    return Rec


def build(cfg, sigma, eps, rho, n, m, d):
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    from skwdro.base.losses_torch import WrappedPrimalLoss
    from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
    kind, kappa = COSTS[cfg["cost"]]
    loss, tr, lab, params, ref = setup(cfg["loss"], d, cfg.get("dl", 1))
    xlog, ylog = [], []
    pl = LossProbe(loss, ylog) if isinstance(loss, nn.Module) else loss
    pt_ = Probe(tr, xlog)
    x = U.grid(m, d, k=5, dtype=pt.float64)
    y = U.grid(m, cfg.get("dl", 1), k=6, dtype=pt.float64) if lab else None
    cost = U.make_cost(kind, 2., 2., kappa)
    if lab:
        s = recorder(LabeledCostSampler)(cost, x, y, pt.tensor(sigma), 11)
    else:
        s = recorder(NoLabelsCostSampler)(cost, x, pt.tensor(sigma), 11)
    red = cfg.get("red", "mean")
    if cfg.get("via") == "robustify":
        from skwdro.torch import robustify
        code = "t-NC-2-2" if kind == "NC" else f"t-NLC-2-2-{'inf' if kappa == U.INF else int(kappa) if kappa >= 1 else kappa}"
        dual = robustify(pl, pt_, pt.tensor(rho, dtype=pt.float64), x, y, cfg["kind"] == "post",
                         code, n, 11, reduction=red, epsilon=eps, sigma=sigma, imp_samp=True)
        dual.sampler = s
    else:
        prim = WrappedPrimalLoss(pl, pt_, s, lab)
        cls = DualPostSampledLoss if cfg["kind"] == "post" else DualPreSampledLoss
        dual = cls(prim, cost, n_samples=n, epsilon_0=pt.tensor(eps, dtype=pt.float64),
                   rho_0=pt.tensor(rho, dtype=pt.float64), n_iter=10, reduction=red, imp_samp=True)
    dual = dual.double()
    return dual, s, x, y, params, ref, xlog, ylog, (kind, kappa)


def evaluate(ch, dual, s, kind, x, y, xlog, ylog, draws):
    xlog.clear()
    ylog.clear()
    ch.op()
    if kind == "post":
        val = dual(x, y)
        z, t = s.draws
    else:
        z, t = draws
        val = dual(x, y, z, t)
    n, m, d = z.shape
    zs = [v for v in xlog if v.numel() == z.numel()]
    ch.check(len(zs) >= 1, "the model was never evaluated on the samples")
    zstar = zs[-1].reshape(n, m, d)
    tstar = None
    if t is not None:
        ts = [v for v in ylog if v.numel() == t.numel()]
        tstar = ts[-1].reshape(t.shape)
    return val, z, t, zstar, tstar


def expected(cost, params, ref, x, y, zs, ts, z, t, lam, rho, eps, sigma, red):
    kind, kappa = cost
    P = {k: f64(v).requires_grad_(True) for k, v in params.items()}
    lamt = pt.tensor(lam, dtype=pt.float64, requires_grad=True)
    L = ref(P, zs, ts)
    c = U.ref_cost(kind, 2., 2., kappa, x.unsqueeze(0), zs,
                   None if y is None else y.unsqueeze(0), ts)
    # centre of the displaced distribution
    xs = x + (zs - z)[0]
    eye = np.eye(x.shape[-1]) * sigma
    w = gauss((zs - x).numpy(), eye) - gauss((zs - xs).numpy(), eye)
    if y is not None and kind == "NLC" and kappa != U.INF:
        ys = y + (ts - t)[0]
        eyel = np.eye(y.shape[-1]) * sigma
        w = w + gauss((ts - y).numpy(), eyel) - gauss((ts - ys).numpy(), eyel)
    v = U.ref_dual(L, c, lamt, rho, eps, 2., red, logw=pt.as_tensor(w))
    v.sum().backward()
    return v.detach(), {k: p.grad for k, p in P.items()}, lamt.grad


def direction(cost, params, ref, x, y, lam):
    """maximiser of the first-order expansion: grad / (2 lambda [kappa])"""
    kind, kappa = cost
    P = {k: f64(v) for k, v in params.items()}
    xx = x.clone().requires_grad_(True)
    yy = None if y is None else y.clone().requires_grad_(True)
    L = ref(P, xx, yy).sum()
    g = pt.autograd.grad(L, [xx] + ([] if yy is None else [yy]), allow_unused=True)
    dx = .5 * g[0] / lam
    if y is None or kind == "NC":
        return dx, None if y is None else pt.zeros_like(y)
    return dx, .5 * g[1] / lam / kappa


def monitor(ch, dual, s, cfg, cost, params, ref, x, y, xlog, ylog, draws, lam, rho, eps, sigma,
            regular=True):
    for p in dual.parameters():
        p.grad = None
    red = cfg.get("red", "mean")
    val, z, t, zs, ts = evaluate(ch, dual, s, cfg["kind"], x, y, xlog, ylog, draws)
    disp = zs - z
    ch.check(bool(pt.isfinite(zs).all()), "importance sampling: non finite evaluation points")
    ch.check(bool(((disp - disp[:1]).abs() <= 1e-9 * (1 + disp.abs().max())).all()),
             "importance sampling: the samples of a data point are not translated together")
    if t is not None:
        dl = ts - t
        ch.check(bool(((dl - dl[:1]).abs() <= 1e-9 * (1 + dl.abs().max())).all()),
                 "importance sampling: the labels of a data point are not translated together")
    if regular and lam > 0:
        dx, dy = direction(cost, params, ref, x, y, lam)
        ch.close(disp[0], dx, "importance sampling: displacement", rtol=1e-6, atol=1e-8)
        if t is not None:
            ch.close((ts - t)[0], dy, "importance sampling: displacement of the labels",
                     rtol=1e-5, atol=1e-8)
    wv, wg, wl = expected(cost, params, ref, x, y, zs, ts, z, t, lam, rho, eps, sigma, red)
    ch.close(val, wv, "importance sampled value", rtol=1e-6, atol=1e-6)
    val.sum().backward()
    for k, v in params.items():
        sc = float(wg[k].abs().max())
        ch.close(v.grad, wg[k], "importance sampled gradient", rtol=1e-5, atol=1e-6 * max(1., sc))
    ch.close(U.lam_leaf(dual).grad, wl, "importance sampled gradient w.r.t. multiplier",
             rtol=1e-5, atol=1e-5)
    return disp


def h_is(cfg, ch):
    m, n, d = cfg["shape"]
    lam = ch.choose("lam", (.01234567891, .5, 3.1415926, 200.))
    sigma = ch.choose("sigma", (.2, 1.5))
    eps = ch.choose("eps", (.05, 2.))
    rho = .4
    dual, s, x, y, params, ref, xlog, ylog, cost = build(cfg, sigma, eps, rho, n, m, d)
    U.set_lam(dual, lam)
    draws = None
    if cfg["kind"] == "pre":
        draws = s.sample(n)
    monitor(ch, dual, s, cfg, cost, params, ref, x, y, xlog, ylog, draws, lam, rho, eps, sigma)
    ch.state(lam, sigma, eps)


def h_history(cfg, ch):
    """The displacement follows the current model, multiplier and batch."""
    kind = cfg["kind"]
    n, m, d = 2, 3, 2
    lam, rho, eps, sigma = .7, .4, .3, .5
    dual, s, x, y, params, ref, xlog, ylog, cost = build(cfg, sigma, eps, rho, n, m, d)
    U.set_lam(dual, lam)
    draws = s.sample(n) if kind == "pre" else None
    for k in range(4):
        a = ch.choose(f"op{k}", ("again", "theta", "lam", "batch", "off"))
        if a == "theta":
            with pt.no_grad():
                for v in params.values():
                    v.mul_(1.3).add_(.1)
        elif a == "lam":
            lam = lam * 1.7
            U.set_lam(dual, lam)
        elif a == "batch":
            m = 5 - m if m in (2, 3) else 3
            x = U.grid(m, d, k=15 + k, dtype=pt.float64)
            y = None if y is None else U.grid(m, 1, k=16 + k, dtype=pt.float64)
            if kind == "pre":
                s.reset_mean(x, y)
                draws = s.sample(n)
        elif a == "off":
            dual.imp_samp = False
            val, z, t, zs, ts = evaluate(ch, dual, s, kind, x, y, xlog, ylog, draws)
            ch.close(zs, z, "importance sampling off: evaluation points", rtol=0, atol=0)
            wv, _, _ = expected(cost, params, ref, x, y, z, t, z, t, lam, rho, eps, sigma, "mean")
            ch.close(val, wv, "importance sampling off: value", rtol=1e-7, atol=1e-8)
            dual.imp_samp = True
            continue
        monitor(ch, dual, s, cfg, cost, params, ref, x, y, xlog, ylog, draws, lam, rho, eps, sigma)
        ch.state(k, m, lam)


def h_flat(cfg, ch):
    """Degenerate directions: null multiplier, null gradient of some or all of
    the data points, huge gradients.  The estimator must remain the dual."""
    n, m, d = 3, 3, 2
    lam = ch.choose("lam", (0., 1e-2, .7))
    what = ch.choose("gradient", ("some null", "all null", "huge", "regular"))
    rho, eps, sigma = .4, .3, .5
    dual, s, x, y, params, ref, xlog, ylog, cost = build(cfg, sigma, eps, rho, n, m, d)
    U.set_lam(dual, lam)
    if what != "regular":
        if cfg["loss"] == "quad":
            pos = params["pos"].detach()
            if what == "some null":
                x = x.clone()
                x[1] = pos
            elif what == "all null":
                x = pos.expand(m, d).clone()
            else:
                x = x * 1e6
        else:
            W, b = params["weight"].detach(), params["bias"].detach()
            out = x @ W.T + b
            y = y.clone()
            if what == "some null":
                y[1] = out[1]
            elif what == "all null":
                y = out.clone()
            else:
                y = y * 1e6
        s.reset_mean(x, y)
    draws = s.sample(n) if cfg["kind"] == "pre" else None
    monitor(ch, dual, s, cfg, cost, params, ref, x, y, xlog, ylog, draws, lam, rho, eps, sigma,
            regular=what == "regular")
    ch.state(lam, what)


def h_parts(cfg, ch):
    """Gradients that are null in the data only or in the labels only, for some or all points."""
    n, m, d = 3, 3, 2
    lam = ch.choose("lam", (1e-2, .7))
    flat_x = ch.choose("null in data", ("no", "all"))
    flat_y = ch.choose("null in labels", ("no", "some", "all"))
    rho, eps, sigma = .4, .3, .5
    dual, s, x, y, params, ref, xlog, ylog, cost = build(cfg, sigma, eps, rho, n, m, d)
    U.set_lam(dual, lam)
    if flat_x == "all":
        with pt.no_grad():
            params["weight"].zero_()
    y = y.abs() + .1
    if flat_y == "all":
        y = -y
    elif flat_y == "some":
        y[1] = -y[1]
    s.reset_mean(x, y)
    draws = s.sample(n) if cfg["kind"] == "pre" else None
    monitor(ch, dual, s, cfg, cost, params, ref, x, y, xlog, ylog, draws, lam, rho, eps, sigma,
            regular=flat_x == "no" and flat_y == "no")
    ch.state(lam, flat_x, flat_y)


def h_wide(cfg, ch):
    """Small and large multipliers, data and gradients."""
    n, m, d = 3, 3, 2
    lam = ch.choose("lam", (1.2345678e-6, 1e-4, 1e-3, 1., 1e3, 1e6))
    scale = ch.choose("data scale", (1e-3, 30., 1e3, 1e5))
    rho, eps, sigma = .4, .3, .5
    dual, s, x, y, params, ref, xlog, ylog, cost = build(cfg, sigma, eps, rho, n, m, d)
    U.set_lam(dual, lam)
    x = x * scale
    y = None if y is None else y * scale
    s.reset_mean(x, y)
    z, t = s.sample(n)
    s.reset_mean(x, y)
    xlog.clear()
    ylog.clear()
    ch.op()
    if cfg["kind"] == "post":
        dual(x, y)
        z, t = s.draws
    else:
        dual(x, y, z, t)
    zs = [v for v in xlog if v.numel() == z.numel()][-1].reshape(z.shape)
    dx, dy = direction(cost, params, ref, x, y, lam)
    tol = 1e-9 * float(dx.abs().max() + z.abs().max())
    ch.close(zs - z, dx.expand(z.shape), "importance sampling: displacement", rtol=1e-6, atol=tol)
    if t is not None:
        ts = [v for v in ylog if v.numel() == t.numel()][-1].reshape(t.shape)
        tol = 1e-9 * float(dy.abs().max() + t.abs().max())
        ch.close(ts - t, dy.expand(t.shape), "importance sampling: displacement of the labels", rtol=1e-6, atol=tol)
    ch.state(lam, scale)


HARNESSES = {"parts": h_parts, "wide": h_wide, "is": h_is, "history": h_history, "flat": h_flat}
