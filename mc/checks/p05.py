"""P05: samplers draw around the batch they were last centred on, with the
spread they were built with, whatever the history of draws and recentrings."""
import itertools
import math

import numpy as np
import torch as pt

from .. import util as U

TITLE = ("all histories of draws and recentrings up to a depth on every shipped sampler, "
         "coupled (same random stream) with a freshly built sampler at the current centre; "
         "plus exhaustive product of samplers, spreads, shapes and seeds")
ASSUMPTIONS = ["the torch global generator is the only source of randomness (its state is "
               "saved and restored to couple executions)",
               "the family of the noise is compared with quantiles on one fixed stream of 4096 draws"]
BOUNDS = {"quick": "14 samplers, histories of length 4 over 7 operations, shapes 6, spreads 3"}

NAMES = ("nolab-2-2", "nolab-1-1", "nolab-1-2", "nolab-1-inf",
         "lab-NC-2-2", "lab-NLC-2-2", "lab-NLC-1-1", "lab-NLC-1-2", "lab-NLC-1-inf", "lab-NLC-inf",
         "news", "port", "portl", "clf-nn", "clf-id", "clf-bern")
FAMILY = {"nolab-1-1": "laplace", "lab-NLC-1-1": "laplace"}


def labelled(name):
    return name.startswith(("lab", "clf"))


def make(name, x, y, sigma, seed=None, spread="sigma", p=.3):
    import skwdro.base.samplers.torch as S
    d = x.shape[-1]

    def cov(s, dd):
        if spread == "sigma":
            return dict(sigma=s)
        L = pt.tril(pt.ones(dd, dd, dtype=x.dtype)) * s * .5 + pt.eye(dd, dtype=x.dtype) * s
        C = L @ L.T
        return {"tril": dict(tril=L), "cov": dict(cov=C), "prec": dict(prec=pt.inverse(C))}[spread]
    if name.startswith("nolab"):
        q, t = name.split("-")[1:]
        return S.NoLabelsCostSampler(U.make_cost("NC", float(t), float(q)), x, pt.tensor(sigma), seed)
    if name == "lab-NLC-inf":
        return S.LabeledCostSampler(U.make_cost("NLC", 2., 2., U.INF), x, y, pt.tensor(sigma), seed)
    if name.startswith("lab"):
        k, q, t = name.split("-")[1:]
        return S.LabeledCostSampler(U.make_cost(k, float(t), float(q), 4.), x, y, pt.tensor(sigma), seed)
    if name in ("news", "port", "portl"):
        cls = {"news": S.NewsVendorNormalSampler, "port": S.PortfolioNormalSampler,
               "portl": S.PortfolioLaplaceSampler}[name]
        return cls(x, seed=seed, **cov(sigma, d))
    if name == "clf-nn":
        lc = {"l_" + k: v for k, v in cov(2 * sigma, y.shape[-1]).items()}
        return S.ClassificationNormalNormalSampler(x, y, seed=seed, **cov(sigma, d), **lc)
    if name == "clf-id":
        return S.ClassificationNormalIdSampler(x, y, seed=seed, **cov(sigma, d))
    if name == "clf-bern":
        return S.ClassificationNormalBernouilliSampler(p, x, y, seed=seed, **cov(sigma, d))
    raise ValueError(name)


def label_rule(name):
    if name in ("lab-NC-2-2", "lab-NLC-inf", "clf-id"):
        return "kept"
    if name == "clf-bern":
        return "switched"
    return "noise"


def tasks(tier):
    for name in NAMES:
        spreads = ("sigma", "tril", "cov", "prec") if name in NAMES[10:] else ("sigma",)
        for spread in spreads:
            yield "history", dict(name=name, spread=spread, depth=4 if tier == "quick" else 6)
            yield "family", dict(name=name, spread=spread)
    for name, m, d, dl in itertools.product(NAMES, (1, 2, 5, 33), (1, 2, 3), (1, 2)):
        if dl == 2 and not labelled(name):
            continue
        yield "shape", dict(name=name, m=m, d=d, dl=dl)
    for p in (0., .25, .5, 1.):
        yield "switch", dict(p=p)
    for name in NAMES:
        yield "seed", dict(name=name)
    for cost, lab in itertools.product(("NC-2-2", "NC-1-1", "NC-1-2", "NC-1-inf", "NLC-2-2", "NLC-1-1", "NLC-1-2", "NLC-1-inf"),
                                       (True, False)):
        yield "scale", dict(cost=cost, lab=lab)
    for owner in ("logistic", "quadratic", "newsvendor", "custom", "custom/unlabelled", "dual", "dual/unlabelled"):
        yield "default", dict(owner=owner)


def batch(m, d, dl, k, signs=False):
    x = U.grid(m, d, k=k)
    y = U.grid(m, dl, k=k + 50)
    if signs:
        y = pt.where(y > 0, 1., -1.)
    return x, y


def draw(s, n, state=None):
    if state is not None:
        pt.set_rng_state(state)
    return s.sample(n)


def centred(ch, name, s, fresh, n, x, y, what):
    """Draw n from s, and from a fresh sampler, on the same random stream."""
    st = pt.get_rng_state()
    z, t = draw(s, n, st)
    z0, t0 = draw(fresh, n, st)
    ch.op(2)
    ch.check(tuple(z.shape) == (n,) + tuple(x.shape), f"{what}: shape {tuple(z.shape)}")
    ch.close(z, z0, f"{what}: draws differ from those of a sampler built there", rtol=1e-5, atol=2e-5)
    if not labelled(name):
        ch.check(t is None, f"{what}: labels out of nowhere")
        ch.check(s.produces_labels is False, f"{what}: pretends to produce labels")
        return z, t
    ch.check(s.produces_labels is True, f"{what}: denies producing labels")
    ch.check(tuple(t.shape) == (n,) + tuple(y.shape), f"{what}: label shape {tuple(t.shape)}")
    ch.close(t, t0, f"{what}: labels differ from those of a sampler built there", rtol=1e-5, atol=2e-5)
    r = label_rule(name)
    if r == "kept":
        ch.check(bool((t == y).all()), f"{what}: labels not kept")
    elif r == "switched":
        ch.check(bool((t.abs() - y.abs()).abs().max() < 1e-6), f"{what}: labels not up to a sign")
    return z, t


def h_history(cfg, ch):
    name, spread = cfg["name"], cfg["spread"]
    signs = name == "clf-bern"
    sigma = .25
    x, y = batch(3, 2, 1, 0, signs)
    pt.manual_seed(123)
    s = make(name, x, y, sigma, None, spread)
    seed = ch.choose("seed", (None, 7))
    if seed is not None:
        s = make(name, x, y, sigma, seed, spread)
    prev = None
    for k in range(cfg["depth"]):
        last = k == cfg["depth"] - 1
        a = ch.choose(f"op{k}", ("draw1", "draw4") if last else ("draw1", "draw4", "recentre", "rebatch", "middle", "relabel", "next"))
        if a in ("recentre", "rebatch", "middle", "relabel"):
            m = x.shape[0] if a != "rebatch" else (5 if x.shape[0] == 3 else 3)
            x2, y2 = batch(m, 2, 1, 7 * k + 3, signs)
            if a == "middle":           # only one row moves
                x2, y2 = pt.cat((x[:1], x2[1:2], x[2:])), pt.cat((y[:1], y2[1:2], y[2:]))
            x, y = (x, -y) if a == "relabel" else (x2, y2)
            st = pt.get_rng_state()
            s.reset_mean(x, y if labelled(name) else None)
            ch.op()
            ch.check(s.seed == seed, f"{name}: recentring changes the seed to {s.seed}")
            ch.check(bool((pt.get_rng_state() == st).all()),
                     f"{name}: recentring rewinds or advances the random stream")
        elif a == "next":
            z, t = next(iter(s))
            ch.op()
            ch.check(tuple(z.shape) == (1,) + tuple(x.shape), f"{name}: iteration shape")
        else:
            n = 1 if a == "draw1" else 4
            fresh = make(name, x, y, sigma, None, spread)
            z, t = centred(ch, name, s, fresh, n, x, y, f"{name} after history")
            noise = (z - x)[0, 0]
            if prev is not None:
                ch.check(bool((noise - prev).abs().max() > 1e-7),
                         f"{name}: the same noise is drawn again")
            prev = noise
        ch.state(k, x.shape[0], float(x[0, 0]), a)


def h_shape(cfg, ch):
    """Shift and scale equivariance on one random stream, for all shapes."""
    name, m, d, dl = cfg["name"], cfg["m"], cfg["d"], cfg["dl"]
    n = ch.choose("n", (1, 2, 7))
    sigma = ch.choose("sigma", (1e-3, .5, 3.))
    x, y = batch(m, d, dl, 1, name == "clf-bern")
    ref = make(name, pt.zeros_like(x), y * 0 if label_rule(name) == "noise" else y, 1.)
    s = make(name, x, y, sigma)
    pt.manual_seed(5)
    st = pt.get_rng_state()
    e, et = draw(ref, n, st)
    z, t = draw(s, n, st)
    ch.op(2)
    ch.close(z, (x + sigma * e), f"{name}: draws are not centre + spread * noise", rtol=1e-4,
             atol=2e-5 * max(1., sigma))
    ch.check(bool((z - x).abs().max() > 0), f"{name}: no noise")
    if n * m * d > 1:
        ch.check(len(set(np.round(e.numpy().ravel(), 7))) == e.numel(), f"{name}: noise is shared")
    if labelled(name):
        r = label_rule(name)
        if r == "noise":
            ch.close(t, y + sigma * et, f"{name}: labels are not centre + spread * noise",
                     rtol=1e-4, atol=2e-5 * max(1., sigma))
        elif r == "kept":
            ch.check(tuple(t.shape) == (n, m, dl) and bool((t == y).all()), f"{name}: labels not kept")
    else:
        ch.check(t is None, f"{name}: labels out of nowhere")
    ch.state(n, sigma)


def ks(u):
    u = np.sort(u)
    n = len(u)
    i = np.arange(1, n + 1)
    return max(np.max(i / n - u), np.max(u - (i - 1) / n))


def h_family(cfg, ch):
    """Quantiles of one fixed stream: family, scale, independence."""
    from scipy import stats
    name, spread = cfg["name"], cfg["spread"]
    sigma = .7
    x, y = batch(2, 2, 1, 2, name == "clf-bern")
    pt.manual_seed(2024)
    s = make(name, x, y, sigma, None, spread)
    n = 4096
    z, t = s.sample(n)
    ch.op()
    e = (z - x).double().numpy()
    if spread != "sigma":
        L = np.tril(np.ones((2, 2))) * sigma * .5 + np.eye(2) * sigma
        e = np.linalg.solve(L, e[..., None])[..., 0] * sigma
    fam = FAMILY.get(name, "norm")
    F = (stats.laplace if fam == "laplace" else stats.norm)(scale=sigma).cdf
    cols = [e[:, i, j] for i in range(2) for j in range(2)]
    for c in cols:
        ch.check(ks(F(c)) < .04, f"{name}: data noise is not {fam} of the requested scale "
                 f"(KS {ks(F(c)):.3f}, std {c.std():.4f})")
    if labelled(name) and label_rule(name) == "noise":
        kap = 4.
        sl = 2 * sigma if name == "clf-nn" else (sigma if name == "lab-NLC-2-2" else sigma / kap)
        if name == "clf-nn" and spread != "sigma":
            sl = 3 * sigma
        el = (t - y).double().numpy()
        Fl = (stats.laplace if fam == "laplace" else stats.norm)(scale=sl).cdf
        for i in range(2):
            ch.check(ks(Fl(el[:, i, 0])) < .04,
                     f"{name}: label noise is not {fam} of the requested scale "
                     f"(std {el[:, i, 0].std():.4f}, scale {sl})")
            cols.append(el[:, i, 0])
    R = np.corrcoef(np.array(cols)) - np.eye(len(cols))
    ch.check(np.abs(R).max() < .08, f"{name}: noise is correlated across rows or coordinates")
    ch.state(fam)


def h_switch(cfg, ch):
    """Labels are switched with the requested probability, independently."""
    p = cfg["p"]
    n, m = 2048, 3
    x, y = batch(m, 2, 1, 4, True)
    y = y * ch.choose("scale", (1., 2.))
    pt.manual_seed(99)
    s = make("clf-bern", x, y, .1, None, "sigma", p)
    if ch.choose("recentred", (False, True)):
        x, y = batch(m, 2, 1, 8, True)
        s.reset_mean(x, y)
    _, t = s.sample(n)
    ch.op()
    flip = (t * y < 0).double()
    rate = flip.mean(0).squeeze(-1)
    ch.check(bool(((t.abs() - y.abs()).abs() < 1e-6).all()), "switched labels: not up to a sign")
    ch.check(bool(((rate - p).abs() < .05).all()),
             f"labels are switched with frequency {rate.tolist()} instead of {p}")
    if 0 < p < 1:
        f = flip.squeeze(-1).numpy()
        R = np.corrcoef(f.T) - np.eye(m)
        ch.check(np.abs(R).max() < .1, "labels of different data points are switched together")
    ch.state(rate.round(decimals=1))


def h_seed(cfg, ch):
    name = cfg["name"]
    x, y = batch(3, 2, 1, 6, name == "clf-bern")
    a = ch.choose("seed a", (0, 1, 42))
    b = ch.choose("seed b", (0, 1, 42))
    z1 = make(name, x, y, .3, a).sample(3)[0]
    z2 = make(name, x, y, .3, b).sample(3)[0]
    ch.op(2)
    ch.check(bool((z1 == z2).all()) == (a == b), f"{name}: seeds {a} and {b} and draws do not match")
    pt.manual_seed(3)
    st = pt.get_rng_state()
    make(name, x, y, .3, None)
    ch.check(bool((pt.get_rng_state() == st).all()), f"{name}: unseeded construction touches the stream")
    ch.state(a, b)


def h_scale(cfg, ch):
    """However the scale is written (number, tensor, omitted), from the cost or through a sampler."""
    import skwdro.base.samplers.torch as S
    k, q, t = cfg["cost"].split("-")
    cost = U.make_cost(k, float(t), float(q), 4.)
    if k == "NLC" and not cfg["lab"]:
        return
    dt = getattr(pt, ch.choose("dtype", ("float32", "float64")))
    x, y = (v.to(dt) for v in batch(3, 2, 1, 1))
    form = ch.choose("form", ("number", "tensor", "double", "omitted"))
    s = {"number": .5, "tensor": pt.tensor(.5), "double": pt.tensor(.5, dtype=pt.float64), "omitted": None}[form]
    want = .001 if form == "omitted" else .5
    route = ch.choose("route", ("cost", "sampler"))
    ref = make("nolab-" + cfg["cost"].split("-", 1)[1] if not cfg["lab"] else "lab-" + cfg["cost"], x, y, want)
    ch.op(2)
    if route == "cost":
        a, b = cost.sampler(x, y if cfg["lab"] else None, s)
        ch.check((b is None) == (not cfg["lab"]), "distribution of the labels")
        def go():
            z = a.sample((5,))
            return z, None if b is None else b.sample((5,))
    elif cfg["lab"]:
        go = lambda: S.LabeledCostSampler(cost, x, y, s).sample(5)     # noqa
    else:
        go = lambda: S.NoLabelsCostSampler(cost, x, s).sample(5)       # noqa
    pt.manual_seed(11)
    st = pt.get_rng_state()
    z, l = go()
    z0, l0 = draw(ref, 5, st)
    ch.check(z.dtype == dt, f"scale given as {form}: samples in {z.dtype} around data in {dt}")
    ch.close(z, z0, f"scale given as {form} through the {route}: samples", rtol=1e-4, atol=1e-6)
    if cfg["lab"]:
        ch.close(l, l0, f"scale given as {form} through the {route}: labels", rtol=1e-4, atol=1e-6)
    ch.state(form, route)


def h_default(cfg, ch):
    """Samplers that a loss, or the robust loss, provides by itself."""
    import skwdro.base.losses_torch as L
    from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
    owner = cfg["owner"]
    lab = owner in ("logistic", "quadratic", "custom", "dual")
    seed = ch.choose("seed", (None, 0, 7))
    scale = ch.choose("scale", (.25, 2., "tensor"))
    val = .5 if scale == "tensor" else scale
    scale = pt.tensor(.5) if scale == "tensor" else scale
    x, y = batch(3, 2, 1, 1)
    if not lab:
        y = None
    pt.manual_seed(31)
    st = pt.get_rng_state()
    ch.op(2)
    if owner.startswith("custom"):
        class Own(L.Loss):
            default_sampler = (L.QuadraticLoss if lab else L.NewsVendorLoss).default_sampler
            theta = intercept = None
        how = ch.choose("how", ("given", "omitted", "nothing", "own"))
        if seed is not None:
            return
        if how == "nothing":
            lo = Own(None, lab)
            ch.raises(ValueError, lambda: lo.sampler, "a loss without sampler gives one")
            return
        other = make("clf-nn" if lab else "news", x + 1., y, 3.)
        lo = Own(other if how == "own" else None, lab, xi=x, xi_labels=y, **({} if how == "omitted" else dict(sigma=scale)))
        s = lo.sampler
        if how == "own":
            ch.check(s is other, "the sampler given is replaced")
            return
        val = .1 if how == "omitted" else val
        get = lo.sample_pi0
    elif owner.startswith("dual"):
        kind = ch.choose("cost", ("NC", "NLC") if lab else ("NC",))
        cost = U.make_cost(kind, 2., 2., 4.)
        cls = ch.choose("class", (DualPostSampledLoss, DualPreSampledLoss))
        lo = L.QuadraticLoss(None, d=2) if lab else L.NewsVendorLoss(None)
        d = cls(lo, cost, 4, pt.tensor(.1), pt.tensor(.5))
        pt.set_rng_state(st)
        s = d.init_sampler(x, y, scale, seed)
        ch.check(s is d.sampler and s is lo.sampler, "the new sampler is not installed in the loss")
        get = d.generate_zetas
        (ch.raises(AssertionError, lambda: d.init_sampler(x, None if lab else x, scale, seed), "labels"))
        pt.set_rng_state(st)
        if seed is not None:
            pt.manual_seed(seed)
        n = ch.choose("n", (None, 0, 4, 6))
        z, t = get(n)
        pt.set_rng_state(st)
        ref = make(f"lab-{kind}-2-2" if lab else "nolab-2-2", x, y, val, seed)
        z0, t0 = ref.sample(n or 4)
        ch.check(z.shape == z0.shape, f"{n} samples asked for, {tuple(z.shape)} got")
        ch.close(z, z0, "sampler built by the robust loss", rtol=1e-5, atol=1e-6)
        ch.check((t is None) == (t0 is None), "labels")
        if t is not None:
            ch.close(t, t0, "sampler built by the robust loss: labels", rtol=1e-5, atol=1e-6)
        return
    else:
        cls = {"logistic": L.LogisticLoss, "quadratic": L.QuadraticLoss, "newsvendor": L.NewsVendorLoss}[owner]
        via = ch.choose("via", ("class", "robust loss"))
        if via == "class":
            s = cls.default_sampler(x, y, scale, seed)
        else:
            lo = cls(make("clf-nn" if lab else "news", x, y, 1.), **(dict(d=2) if lab else {}))
            d = DualPostSampledLoss(lo, U.make_cost("NLC" if lab else "NC", 2., 2., 4.), 4, pt.tensor(.1), pt.tensor(.5))
            pt.set_rng_state(st)
            s = d.default_sampler(x, y, scale, seed)
        get = s.sample
    z, t = get(4)
    pt.set_rng_state(st)
    if lab:
        # labels move as much as data
        import skwdro.base.samplers.torch as S
        ref = S.ClassificationNormalNormalSampler(x, y, seed=seed, sigma=val, l_sigma=val)
    else:
        ref = make("news", x, y, val, seed)
    z0, t0 = ref.sample(4)
    ch.close(z, z0, f"default sampler of {owner}", rtol=1e-5, atol=1e-6)
    ch.check((t is None) == (not lab), "labels")
    if lab:
        ch.close(t, t0, f"default sampler of {owner}: labels", rtol=1e-5, atol=1e-6)
    ch.state(owner, val, seed)


HARNESSES = dict(default=h_default, scale=h_scale, history=h_history, shape=h_shape, family=h_family, switch=h_switch, seed=h_seed)
