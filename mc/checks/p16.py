"""P16: primal losses compute their formulas, sample by sample, on any stacking."""
import itertools

import torch as pt
import torch.nn as nn

from .. import util as U

TITLE = ("all combinations of loss, parameters, regularisation, stacking and points of a grid of data, labels and special magnitudes on "
         "the real losses, values and gradients against double precision formulas")
ASSUMPTIONS = ["torch's elementary functions and automatic differentiation are trusted (the reference uses them in double precision)"]
BOUNDS = {"quick": "6 built-in losses + wrapped user losses (6 kinds x module/function), dims 1..3, stackings of 1 to 4 axes, grids 5^d x labels, 4 regularisations; selected points in dimension 20, 40 and 130"}

VALS = (-3., -.5, 0., 1., 40.)
L2 = (None, 0., -1., .25)


def tasks(tier):
    dims = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for name, d, dt in itertools.product(("logistic", "quadratic", "newsvendor", "portfolio", "weber", "softmargin"), dims + (20, 130),
                                         ("float32", "float64")):
        yield "formula", dict(name=name, d=d, dtype=dt)
    for kind, oop, d, dt in itertools.product(("mse", "mse2", "mse3", "ce", "unl", "unl2"), (True, False), dims[:3] + (40,),
                                              ("float32", "float64")):
        yield "wrapped", dict(kind=kind, oop=oop, d=d, dtype=dt)
    yield "refusals", dict()
    yield "omitted", dict()


def points(d, dtype, labels=None):
    """All the points of VALS^d, with all labels; in high dimension, constant, almost constant, alternating and generic points."""
    if d > 4:
        x = [[v] * d for v in VALS] + [[VALS[(i + k) % 5] for i in range(d)] for k in range(5)]
        x += [[1. * (i == k) for i in range(d)] for k in (0, 1, d // 2, d - 2, d - 1)] + U.grid(12, d, k=1).tolist()
    else:
        x = list(itertools.product(VALS, repeat=d))
    if labels is None:
        return pt.tensor(x, dtype=dtype), None
    xy = list(itertools.product(x, labels))
    return pt.tensor([a for a, _ in xy], dtype=dtype), pt.tensor([[b] for _, b in xy], dtype=dtype)


def stack(ch, t, how):
    m = t.shape[0]
    if how == "rows":
        return t
    if how == "one":
        return t.unsqueeze(0)
    if how == "many":
        return pt.stack([t, t.flip(0), t.roll(1, 0)])
    if how == "4d":
        return pt.stack([t, t.flip(0), t.roll(1, 0), t.roll(2, 0)]).reshape(2, 2, m, t.shape[-1])
    if how == "thin":           # one point, all others as its samples
        return t.unsqueeze(1)
    raise ValueError(how)


def params_for(name, d):
    """Parameter settings: zero, small, unit-like, large."""
    return [U.grid(d, k=k, dtype=pt.float64) * s for k, s in ((0, 0.), (1, 1.), (2, .01), (3, 30.))]


def tol(dtype):
    return dict(rtol=2e-4, atol=2e-4) if dtype == pt.float32 else dict(rtol=1e-9, atol=1e-9)


def softplus(t):
    return pt.logaddexp(t, pt.zeros_like(t))


def h_formula(cfg, ch):
    from skwdro.base.losses_torch import LogisticLoss, NewsVendorLoss, QuadraticLoss, SimpleWeber
    from skwdro.base.losses_torch.logistic import BiDiffSoftMarginLoss
    from skwdro.base.losses_torch.portfolio import SimplePortfolio
    name, d, dtype = cfg["name"], cfg["d"], getattr(pt, cfg["dtype"])
    w = ch.choose("w", params_for(name, d))
    how = ch.choose("stack", ("rows",) if name == "weber" else ("rows", "one", "many", "4d", "thin"))
    ch.op()
    cols = ch.choose("columns", (1, 2, 3)) if name == "weber" else 1
    lab = {"logistic": (-1., 1.), "softmargin": (-1., 1.), "quadratic": (-2., 0., .5), "weber": (0., .5, 3.)}.get(name)
    x, y = points(d, dtype, lab)
    l2 = None
    if name in ("logistic", "quadratic"):
        l2 = ch.choose("l2", L2)
        b = ch.choose("bias", (None, 0., -1.5))
        loss = (LogisticLoss if name == "logistic" else QuadraticLoss)(None, d=d, l2reg=l2, fit_intercept=b is not None)
        if name == "logistic":
            ch.check(all(float(p.abs().max()) == 0. for p in loss.parameters()), "logistic loss does not start from zero")
        loss = loss.to(dtype)
        with pt.no_grad():
            loss.theta.copy_(w[None])
            if b is not None:
                loss.intercept.fill_(b)
        ch.check(b is not None or loss.intercept is None, "intercept present though not fitted")
        P = {"w": w, "b": pt.tensor(0. if b is None else b, dtype=pt.float64)}
        real = {"w": loss.theta} | ({"b": loss.intercept} if b is not None else {})

        def ref(P, x, y):
            t = (x * P["w"]).sum(-1, keepdim=True) + P["b"]
            return softplus(-y * t) if name == "logistic" else (t - y) ** 2

        def reg(P):
            return .5 * l2 * (P["w"] ** 2).sum() if l2 is not None and l2 > 0 else 0.
    elif name == "softmargin":
        loss = BiDiffSoftMarginLoss(reduction="none")
        P, real = {}, {}
        y = y.expand(-1, d).contiguous()

        def ref(P, x, y):
            return softplus(-y * x)
    elif name == "newsvendor":
        l2 = ch.choose("l2", L2)
        k, u = ch.choose("ku", ((5., 7.), (1., 2.), (0., 3.), (4., 1.)))
        loss = NewsVendorLoss(None, k=k, u=u, l2reg=l2).to(dtype)
        with pt.no_grad():
            loss.theta.fill_(float(w[0]))
        P, real = {"w": w[:1]}, {"w": loss.theta}

        def ref(P, x, y):
            return k * P["w"] - u * pt.minimum(P["w"], x).mean(-1, keepdim=True)

        def reg(P):
            return .5 * l2 * (P["w"] ** 2).sum() if l2 is not None and l2 > 0 else 0.
    elif name == "portfolio":
        eta, alpha = ch.choose("risk", ((0., .9375), (1., .5), (10., .0625), (.25, 1.)))
        tau = ch.choose("tau", (0., -.7, 2.))
        loss = SimplePortfolio(d, eta, alpha).to(dtype)
        raw = w * .1
        with pt.no_grad():
            [p for n, p in loss.named_parameters() if "tau" not in n][0].copy_(raw[None])
            loss.tau.fill_(tau)
        P = {"w": raw, "tau": pt.tensor(tau, dtype=pt.float64)}
        real = {"w": [p for n, p in loss.named_parameters() if "tau" not in n][0], "tau": loss.tau}
        ww = loss.assets.weight
        ch.close(ww.sum(), 1., "portfolio weights: total", **tol(dtype))
        ch.check(bool((ww >= 0).all()), f"portfolio weights {ww.tolist()}")

        def ref(P, x, y):
            e = (P["w"] - P["w"].max().detach()).exp()
            r = (x * (e / e.sum())).sum(-1, keepdim=True)
            return -r + eta * (P["tau"] + pt.clamp(-r - P["tau"], min=0.) / alpha)
    else:
        loss = SimpleWeber(d)
        ch.check(float(loss.pos.abs().max()) == 0., "facility does not start from the origin")
        loss = loss.to(dtype)
        with pt.no_grad():
            loss.pos.copy_(w)
        P, real = {"w": w}, {"w": loss.pos}
        y = pt.cat([y * (c + 1) for c in range(cols)], -1)      # several weights per point: their average is the total

        def ref(P, x, y):
            s = ((x - P["w"]) ** 2).sum(-1, keepdim=True)
            return cols * y * pt.where(s > 0, pt.where(s > 0, s, 1.).sqrt(), 0.)

    # drop kinks, where the gradient is not unique (their values are still compared)
    xs = stack(ch, x, how)
    ys = None if y is None else stack(ch, y, how)
    keep = [None if t is None else t.clone() for t in (xs, ys)]
    P = {k: v.clone().to(dtype).to(pt.float64).requires_grad_(True) for k, v in P.items()}
    xr = xs.to(pt.float64)
    yr = None if ys is None else ys.to(pt.float64)
    want = ref(P, xr, yr)
    r = reg(P) if name in ("logistic", "quadratic", "newsvendor") else 0.
    got = loss(xs, ys) if y is not None else loss(xs)
    ch.check(tuple(got.shape) == tuple(want.shape), f"{name}: shape {tuple(got.shape)} on data {tuple(xs.shape)}")
    ch.check(got.dtype == dtype, f"{name}: {got.dtype} out of {dtype}")
    T = tol(dtype)
    if name == "weber" or name == "quadratic":
        T["atol"] *= 10.
    ch.close(got, want + r, f"{name}: values", **T)
    for t, s, nm in zip((xs, ys), keep, ("data", "labels")):
        ch.check(t is None or bool((t == s).all()), f"{name}: {nm} modified")
    # gradients, at points off the kinks
    off = pt.ones_like(want, dtype=pt.bool)
    if name == "newsvendor":
        off = ((xr - P["w"]).abs() > 1e-3).all(-1, keepdim=True)
    elif name == "portfolio":
        e = (P["w"] - P["w"].max()).exp()
        off = ((xr * (e / e.sum())).sum(-1, keepdim=True) + P["tau"]).abs() > 1e-3
    elif name == "weber":
        off = (xr - P["w"]).norm(dim=-1, keepdim=True) > 1e-3
    weights = (1. + pt.arange(want.numel(), dtype=pt.float64).reshape(want.shape) % 3) * off
    if real:
        gw = pt.autograd.grad(((want + r) * weights).sum() / weights.sum(), list(P.values()), allow_unused=True)
        gg = pt.autograd.grad((got * weights.to(dtype)).sum() / weights.to(dtype).sum(), list(real.values()), allow_unused=True)
        for (k, a) in zip(P, gw):
            if k not in real:
                continue
            b_ = gg[list(real).index(k)]
            a = pt.zeros_like(P[k]) if a is None else a
            b_ = pt.zeros_like(P[k]) if b_ is None else b_
            ch.close(b_.flatten(), a.flatten(), f"{name}: gradient in {k}", rtol=2e-3 if dtype == pt.float32 else 1e-8,
                     atol=5e-3 if dtype == pt.float32 else 1e-8)
    undefined(ch, loss, xs, ys, got, name)
    ch.state(w.tolist(), how, l2)


def undefined(ch, loss, xs, ys, got, what):
    """A sample with an undefined coordinate has an undefined loss, the others keep theirs."""
    d = xs.shape[-1]
    flat = xs.reshape(-1, d).clone()
    pos = {0: 0, len(flat) // 2: d - 1}
    for i, j in pos.items():
        flat[i, j] = pt.nan
    with pt.no_grad():
        v = (loss(flat.reshape(xs.shape), ys) if ys is not None else loss(flat.reshape(xs.shape))).reshape(len(flat), -1)
    for i, j in pos.items():
        ch.check(bool(v[i].isnan().any()), f"{what}: the loss of a sample with an undefined coordinate is {v[i].tolist()}")
    rest = [i for i in range(len(flat)) if i not in pos]
    ch.close(v[rest], got.detach().reshape(len(flat), -1)[rest], f"{what}: losses beside undefined samples", rtol=1e-4, atol=1e-4)


def h_wrapped(cfg, ch):
    """User losses: one number per sample, whatever the stacking."""
    from skwdro.base.losses_torch import WrappedPrimalLoss
    kind, d, dtype = cfg["kind"], cfg["d"], getattr(pt, cfg["dtype"])
    how = ch.choose("stack", ("vector", "rows", "single row", "one", "many", "4d", "thin", "one/flat labels"))
    l2 = ch.choose("l2", L2)
    net = ch.choose("net", ("linear", "identity", "two layers"))
    labelled = not kind.startswith("unl")
    if how == "one/flat labels" and not labelled:
        return
    out = {"mse": 1, "mse2": 2, "mse3": 3, "ce": 3, "unl": 1, "unl2": 2}[kind]
    if net == "identity":
        if out != d or kind == "ce" and d != 3:
            return
        tr = None
    elif net == "linear":
        tr = nn.Linear(d, out)
    else:
        tr = nn.Sequential(nn.Linear(d, 2), nn.Tanh(), nn.Linear(2, out, bias=False))
    if tr is not None:
        with pt.no_grad():
            for i, p in enumerate(tr.parameters()):
                p.copy_(U.grid(*p.shape, k=i + 1) * .5)
        tr = tr.to(dtype)
    loss, own = user_loss(kind, cfg["oop"], out, dtype)
    par = list(tr.parameters()) if tr is not None else []
    if own is not None:
        par = [own] + par
    if not par and l2 is not None and l2 > 0:
        return              # nothing to regularise
    ch.op()
    wrapped = WrappedPrimalLoss(loss, tr, None, labelled, kind != "ce", l2reg=l2)
    x, _ = points(d, dtype)
    x = x[:27]
    y = None
    if labelled:
        if kind == "ce":
            y = nn.functional.one_hot(pt.arange(len(x)) % 3, 3).to(dtype)
        else:
            y = U.grid(len(x), out, k=5, dtype=dtype)
    if how == "single row":
        x, y = x[1:2], None if y is None else y[1:2]
    elif how == "vector":
        x, y = x[1], None if y is None else y[1]
    elif how == "one/flat labels":
        x = x.unsqueeze(0)
    elif how != "rows":
        x, y = stack(ch, x, how), None if y is None else stack(ch, y, how)

    def ref(x, y):
        h = x.to(pt.float64)
        if net == "linear":
            h = h @ tr.weight.to(pt.float64).T + tr.bias.to(pt.float64)
        elif net == "two layers":
            h = pt.tanh(h @ tr[0].weight.to(pt.float64).T + tr[0].bias.to(pt.float64)) @ tr[2].weight.to(pt.float64).T
        y = None if y is None else y.to(pt.float64)
        if kind == "ce":
            v = -(y * (h - h.logsumexp(-1, keepdim=True))).sum(-1, keepdim=True)
        elif labelled:
            v = ((h - y) ** 2).mean(-1, keepdim=True)
        else:
            v = ((h - (0. if own is None else own.to(pt.float64))) ** 2).mean(-1, keepdim=True)
        if l2 is not None and l2 > 0:
            v = v + .5 * l2 * sum((p.to(pt.float64) ** 2).sum() for p in par)
        return v

    want = ref(x, y)
    got = wrapped(x, y)
    T = dict(rtol=1e-4, atol=1e-4) if dtype == pt.float32 else dict(rtol=1e-8, atol=1e-8)
    what = f"wrapped {kind} on {how} data"
    if how in ("rows", "single row", "vector"):
        # only the average is specified for unstacked data, and the individual values when there are as many
        ch.close(got.mean(), want.mean(), what + ": average", **T)
        if got.numel() == want.numel():
            ch.close(got.flatten(), want.flatten(), what, **T)
        if how == "vector":
            ch.check(got.numel() == 1, f"{what}: {got.numel()} values for one point")
    else:
        ch.check(tuple(got.shape) == tuple(want.shape), f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
        ch.close(got, want, what, **T)
        undefined(ch, wrapped, x, y, got, what) if how != "one/flat labels" else None
    if par:
        gg = pt.autograd.grad(got.mean(), par, allow_unused=True)
        gw = pt.autograd.grad(want.mean(), par, allow_unused=True)
        for a, b in zip(gg, gw):
            if b is not None:
                ch.check(a is not None, f"{what}: a parameter gets no gradient")
                ch.close(a, b, f"{what}: gradient", rtol=1e-3 if dtype == pt.float32 else 1e-8, atol=2e-3 if dtype == pt.float32 else 1e-8)
        th = wrapped.theta
        ch.check(sorted(th.detach().flatten().tolist()) == sorted(v for p in par for v in p.detach().flatten().tolist()),
                 f"{what}: theta does not gather the parameters of the model")
    ch.check(float(wrapped.intercept) == 0., f"{what}: separate intercept {wrapped.intercept}")
    ch.state(kind, how, l2, net)


def user_loss(kind, oop, out, dtype):
    if kind.startswith("mse"):
        return (nn.MSELoss(reduction="none") if oop else nn.functional.mse_loss), None
    if kind == "ce":
        return (nn.CrossEntropyLoss(reduction="none") if oop else nn.functional.cross_entropy), None
    if not oop:
        def f(h, reduction="mean"):
            assert reduction == "none", f"user loss called with reduction {reduction}"
            return h ** 2
        return f, None

    class Own(nn.Module):
        reduction = "none"

        def __init__(self):
            super().__init__()
            self.c = nn.Parameter(U.grid(out, k=9, dtype=dtype))

        def forward(self, h):
            return (h - self.c) ** 2
    m = Own()
    return m, m.c


def h_omitted(cfg, ch):
    """Losses built without their optional settings."""
    from skwdro.base.losses_torch import LogisticLoss, NewsVendorLoss, QuadraticLoss, WrappedPrimalLoss
    name = ch.choose("loss", ("newsvendor", "logistic", "quadratic", "wrapped"))
    x, y = points(2, pt.float32, (-1., 1.))
    w = ch.choose("w", params_for(name, 2)[:3]).float()
    ch.op()
    t = (x * w).sum(-1, keepdim=True)
    if name == "newsvendor":
        loss = NewsVendorLoss(None)
        with pt.no_grad():
            loss.theta.fill_(float(w[0]))
        got, want = loss(x[:, None], None), (5. * w[0] - 7. * pt.minimum(w[0], x).mean(-1, keepdim=True))[:, None]
    elif name == "wrapped":
        net = nn.Linear(2, 2, bias=False)
        with pt.no_grad():
            net.weight.copy_(pt.stack([w, -w]))
        got = WrappedPrimalLoss(nn.MSELoss(reduction="none"), net, None, True)(x[:, None], pt.cat([y, y], -1)[:, None])
        want = (((t - y) ** 2 + (t + y) ** 2) / 2)[:, None]
    else:
        loss = (LogisticLoss if name == "logistic" else QuadraticLoss)(None, d=2)
        ch.check(loss.intercept is None, f"{name}: an intercept nobody asked for")
        with pt.no_grad():
            loss.theta.copy_(w[None])
        got, want = loss(x, y), softplus(-y * t) if name == "logistic" else (t - y) ** 2
        if name == "logistic":
            ch.close(loss.predict(x), pt.tanh(t), "logistic loss: prediction", **tol(pt.float32))
        else:
            ch.close(loss.regression(x), t, "quadratic loss: regression", **tol(pt.float32))
        ch.raises(AssertionError, lambda: type(loss)(None), "dimension omitted")
    ch.close(got, want, f"{name} with nothing but defaults", **tol(pt.float32))
    ch.state(name, w.tolist())


def h_refusals(cfg, ch):
    from skwdro.base.losses_torch import LogisticLoss, QuadraticLoss, WrappedPrimalLoss
    what = ch.choose("what", ("mean", "sum", "not callable", "dim logistic", "dim quadratic", "labels missing", "labels superfluous",
                              "labels missing logistic", "labels missing quadratic", "no sampler"))
    ch.op()
    x, y = U.grid(4, 2), U.grid(4, 1)
    if what in ("mean", "sum"):
        ch.raises(AssertionError, lambda: WrappedPrimalLoss(nn.MSELoss(reduction=what), nn.Linear(2, 1), None, True), what)
    elif what == "not callable":
        ch.raises(AssertionError, lambda: WrappedPrimalLoss(3., nn.Linear(2, 1), None, True), what)
    elif what.startswith("dim"):
        cls = LogisticLoss if "logistic" in what else QuadraticLoss
        for d in (0, -1):
            ch.raises(AssertionError, lambda: cls(None, d=d), what)
    elif what == "labels missing":
        lo = WrappedPrimalLoss(nn.MSELoss(reduction="none"), nn.Linear(2, 1), None, True)
        for xx in (x, x[0], x[None]):
            ch.raises(AssertionError, lambda: lo(xx, None), what)
    elif what == "labels superfluous":
        lo = WrappedPrimalLoss(lambda h, reduction: h, nn.Linear(2, 1), None, False)
        for xx, yy in ((x, y), (x[0], y[0]), (x[None], y[None])):
            ch.raises(AssertionError, lambda: lo(xx, yy), what)
    elif what.startswith("labels missing"):
        lo = (LogisticLoss if "logistic" in what else QuadraticLoss)(None, d=2)
        ch.raises(AssertionError, lambda: lo(x, None), what)
    else:
        lo = WrappedPrimalLoss(nn.MSELoss(reduction="none"), nn.Linear(2, 1), None, True)
        ch.raises(ValueError, lambda: lo.sampler, what)
        ch.raises(ValueError, lambda: lo.sample_pi0(3), what)
    ch.state(what)


HARNESSES = dict(omitted=h_omitted, formula=h_formula, wrapped=h_wrapped, refusals=h_refusals)
