"""P06: densities reported by the samplers, before and after translation, and
the point-mass distribution."""
import itertools
import math

import numpy as np
import torch as pt

from .. import util as U
from .p05 import NAMES, FAMILY, batch, label_rule, labelled, make

TITLE = ("exhaustive product of samplers, spreads, shapes, evaluation points, translations and "
         "recentring histories against closed-form log-densities; exhaustive enumeration of "
         "locations, values and shapes for the point mass")
ASSUMPTIONS = ["densities compared with scipy's closed forms in double precision"]
BOUNDS = {"quick": "16 samplers, shapes 12, spreads 3 (+4 covariance parametrisations), "
                   "points 4, recentrings 0..2; point sets of 40 x 30 samples, dimension up to 24"}


def tasks(tier):
    for name in NAMES:
        yield "labels", dict(name=name)
    for name in NAMES:
        spreads = ("sigma", "tril", "cov", "prec") if name in NAMES[10:] else ("sigma",)
        for spread, m, n, d, dl in itertools.product(
                spreads, (1, 3) if tier == "quick" else (1, 2, 3, 17), (1, 4), (1, 2, 3), (1, 2)):
            if dl == 2 and not labelled(name):
                continue
            yield "density", dict(name=name, spread=spread, m=m, n=n, d=d, dl=dl)
        yield "density", dict(name=name, spread="sigma", m=40, n=30, d=2, dl=1)
        yield "density", dict(name=name, spread="sigma", m=2, n=2, d=24, dl=5 if labelled(name) else 1)
    for shape, nb in itertools.product(((1,), (3,), (2, 1), (2, 3), (4, 2, 3)), (0, 1, 2)):
        if nb <= len(shape):
            yield "dirac", dict(shape=shape, nb=nb)


def scale_tril(spread, s, dd):
    if spread == "sigma":
        return np.eye(dd) * s
    return np.tril(np.ones((dd, dd))) * s * .5 + np.eye(dd) * s


def gauss(e, L):
    """log N(e; 0, L L^T), sum over the last axis, keepdims."""
    u = np.linalg.solve(L, e[..., None])[..., 0]
    d = e.shape[-1]
    return (-.5 * (u ** 2).sum(-1) - np.log(np.abs(np.diag(L))).sum()
            - .5 * d * math.log(2 * math.pi))[..., None]


def laplace(e, s):
    return (-np.abs(e) / s - math.log(2 * s)).sum(-1, keepdims=True)


def ref_logp(name, spread, sigma, p, x, y, z, t):
    x, y, z, t = (None if v is None else v.detach().double().numpy() for v in (x, y, z, t))
    if FAMILY.get(name) == "laplace":
        lp = laplace(z - x, sigma)
    else:
        lp = gauss(z - x, scale_tril(spread, sigma, x.shape[-1]))
    if not labelled(name):
        return lp
    r = label_rule(name)
    if r == "kept":
        return lp
    if r == "switched":
        # labels live in {-y, y}
        sw = (t * y < 0)
        return lp + np.where(sw, math.log(p), math.log(1 - p)).sum(-1, keepdims=True)
    sl = 2 * sigma if name == "clf-nn" else (sigma if name == "lab-NLC-2-2" else sigma / 4.)
    if FAMILY.get(name) == "laplace":
        return lp + laplace(t - y, sl)
    L = scale_tril(spread if name == "clf-nn" else "sigma", sl, y.shape[-1])
    return lp + gauss(t - y, L)


def h_density(cfg, ch):
    name, spread = cfg["name"], cfg["spread"]
    m, n, d, dl = cfg["m"], cfg["n"], cfg["d"], cfg["dl"]
    signs = name == "clf-bern"
    sigma = ch.choose("sigma", (.05, 1., 2.5))
    p = .3
    x, y = batch(m, d, dl, 1, signs)
    lscale = ch.choose("label scale", (1., 2.)) if signs else 1.
    y = y * lscale
    s = make(name, x, y, sigma, None, spread, p)
    for k in range(ch.choose("recentrings", (0, 1, 2))):
        x, y = batch(m, d, dl, 9 + k, signs)
        y = y * lscale
        s.reset_mean(x, y if labelled(name) else None)
        ch.op()
    far = ch.choose("points", ("near", "far", "remote", "centre", "drawn"))
    r = label_rule(name) if labelled(name) else None
    if far == "drawn":
        pt.manual_seed(1)
        z, t = s.sample(n)
    else:
        k = {"near": 1., "far": 6., "remote": 1e3, "centre": 0.}[far]
        z = x + sigma * k * U.grid(n, m, d, k=21)
        t = None
        if r == "kept":
            t = y.expand(n, m, dl)
        elif r == "switched":
            t = y * pt.where(U.grid(n, m, dl, k=23) > 0, 1., -1.)
        elif r == "noise":
            t = y + .3 * sigma * k * U.grid(n, m, dl, k=22)
    if not labelled(name):
        t = None
    ch.op()
    tol = dict(rtol=3e-4, atol=3e-3)
    skip = name == "clf-bern" and dl != 1   # joint flips only make sense per target
    got = s.log_prob(z, t)
    if not skip:
        want = ref_logp(name, spread, sigma, p, x, y, z, t)
        if name == "clf-bern":    # discrete labels: up to a constant per data point
            const = got.double().numpy()[:1] - want[:1]
            want = want + const
        ch.close(got, want, f"{name}: log-density", **tol)
        ch.check(tuple(got.shape) == (n, m, 1), f"{name}: log-density shape {tuple(got.shape)}")
    # same distribution, translated to another centre
    sh = ch.choose("shift", (0., .4, -2.))
    x2 = x + sh * sigma * (1 + pt.arange(m * d).reshape(m, d).float() / 3)
    y2 = y
    if r == "noise":
        y2 = y + .5 * sh * sigma
    lead = ch.choose("lead", (False, True))
    a = (x2.unsqueeze(0), None if t is None else y2.unsqueeze(0)) if lead else \
        (x2, None if t is None else y2)
    rec = s.log_prob_recentered(a[0], a[1], z, t)
    ch.op()
    if not skip:
        want2 = ref_logp(name, spread, sigma, p, x2, y2, z, t)
        if name == "clf-bern":
            want2 = want2 + const
        ch.close(rec, want2, f"{name}: translated log-density", **tol)
    # ... without moving the sampler itself
    ch.close(s.log_prob(z, t), got, f"{name}: evaluating a translated density moved the sampler",
             rtol=1e-6, atol=1e-6)
    if sh == 0.:
        ch.close(rec, got, f"{name}: null translation", rtol=1e-4, atol=1e-3)
    ch.state(sigma, far, sh, lead)


def h_dirac(cfg, ch):
    from skwdro.distributions import Dirac
    shape, nb = tuple(cfg["shape"]), cfg["nb"]
    loc = U.grid(*shape, k=3) * ch.choose("scale", (0., 1., 1e6))
    D = Dirac(loc, nb, ch.choose("validate", (None, True, False)))
    ch.op()
    ch.check(tuple(D.batch_shape) == shape[:nb] and tuple(D.event_shape) == shape[nb:],
             "point mass: batch/event shapes")
    for nm in ("mean", "mode"):
        ch.close(getattr(D, nm), loc, f"point mass: {nm}", rtol=0, atol=0)
    ch.close(D.variance, pt.zeros_like(loc), "point mass: variance", rtol=0, atol=0)
    ss = ch.choose("sample shape", ((), (1,), (5,), (2, 3)))
    for f in (D.rsample, D.sample):
        for arg in (pt.Size(ss), list(ss), tuple(ss)) if f == D.rsample else (pt.Size(ss),):
            s = f(arg)
            ch.close(s, loc.expand(tuple(ss) + shape), "point mass: samples", rtol=0, atol=0)
    lp = D.log_prob(loc.clone())
    ch.check(bool((lp == 0).all()), f"point mass: log-density {lp} at its location")
    lp = D.log_prob(D.rsample(pt.Size(ss)))
    ch.check(bool((lp == 0).all()), f"point mass: log-density {lp} of its samples")
    off = ch.choose("offset", (1., -.5, 3.))
    base = loc if float(loc.abs().max()) < 1e5 else loc * 0
    D2 = Dirac(base, nb)
    lp = D2.log_prob(base + off)
    ch.check(bool((lp == -math.inf).all()), f"point mass: log-density {lp} away from its location")
    # a single coordinate, by very little, or by amounts that cancel out
    for dev in ("first", "last", "tiny", "cancelling"):
        e = pt.zeros(base.numel(), dtype=pt.float64)
        if dev == "cancelling":
            e[0], e[-1] = 1., -1.
        else:
            e[0 if dev == "first" else -1] = 1e-9 * off if dev == "tiny" else off
        if base.numel() > 1 or dev != "cancelling":
            b64 = base.double()
            lp = Dirac(b64, nb).log_prob(b64 + e.reshape(shape))
            ch.check(bool((lp == -math.inf).all()), f"point mass: log-density {lp} at a deviation ({dev})")
            lp = Dirac(b64, nb).log_prob(pt.stack([b64, b64 + e.reshape(shape)]))
            ch.check(bool((lp == -math.inf).any()), f"point mass: log-density {lp} of samples of which one deviates ({dev})")
    ch.check(float(D.entropy()) == -math.inf, "point mass: entropy")
    ch.check(float(D.perplexity()) == 0., "point mass: perplexity")
    if nb:
        e = D.expand(pt.Size((3,) + shape[:nb]))
        ch.check(tuple(e.batch_shape) == (3,) + shape[:nb] and tuple(e.event_shape) == shape[nb:],
                 "point mass: expanded shapes")
        ch.close(e.rsample(), loc.expand((3,) + shape), "point mass: expanded samples", rtol=0, atol=0)
    sup = D.enumerate_support()
    ch.close(sup, loc.unsqueeze(0), "point mass: support", rtol=0, atol=0)
    ch.state(ss, off, float(loc.sum()))


def h_labels(cfg, ch):
    """Missing or superfluous labels are refused."""
    name = cfg["name"]
    x, y = batch(3, 2, 1, 1, name == "clf-bern")
    s = make(name, x, y, .5)
    z, t = s.sample(4)
    fn = ch.choose("function", ("log_prob", "log_prob_recentered", "reset_mean"))
    which = ch.choose("which", ("both", "centre", "samples"))
    ch.op()
    lab = labelled(name)
    a = None if lab and which != "samples" else (y if lab or which != "samples" else None)
    b = None if lab and which != "centre" else (y.expand(4, 3, 1) if lab or which != "centre" else None)
    if fn == "log_prob":
        if which != "centre":
            ch.raises(AssertionError, lambda: s.log_prob(z, b), f"{name}: labels {'missing' if lab else 'superfluous'}")
    elif fn == "reset_mean":
        if lab:
            ch.raises(AssertionError, lambda: s.reset_mean(x, None), f"{name}: recentring without labels")
    else:
        ch.raises(AssertionError, lambda: s.log_prob_recentered(x, a, z, b),
                  f"{name}: labels {'missing' if lab else 'superfluous'} ({which})")
    ch.state(fn, which)


HARNESSES = dict(labels=h_labels, density=h_density, dirac=h_dirac)
