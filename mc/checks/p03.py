"""P03: ground costs are powers of (weighted) norms of the displacement."""
import itertools

import numpy as np
import torch as pt

from .. import util as U

TITLE = ("exhaustive enumeration of pairs of points over coordinate alphabets, label pairs, "
         "norm types, powers, label weights, shapes and dtypes on the real costs, against "
         "the textbook formula and the metric laws")
ASSUMPTIONS = ["coordinates are drawn from finite alphabets; results compared in floating point"]
BOUNDS = {"quick": "types 1,1.5,2,3,inf; powers .5,1,2,3; kappa 0,.3,1,7,1e4,1e8,inf; all pairs "
                   "over alphabets of 6/4/3 values in dimension 1/2/3; labels in dimension 0,1,2"}

PS = ("1", "1.5", "2", "3", "inf")
QS = (.5, 1., 2., 3.)
KS = ("0", "0.3", "1", "7", "10000", "1e8", "inf")
ALPHA = {1: (-3., -1., 0., 1e-7, .5, 2., 1e6), 2: (-1., 0., 1e-4, .5, 3.), 3: (-1., 0., 2.)}


def tasks(tier):
    dims = (1, 2, 3)
    for p, q, d, dt in itertools.product(PS, QS, dims, ("f64", "f32")):
        yield "plain", dict(p=p, q=q, d=d, dt=dt, labels=0)
        yield "plain", dict(p=p, q=q, d=d, dt=dt, labels=1)
    for p, q, k, d, dl, dt in itertools.product(PS, QS, KS, dims, (1, 2), ("f64", "f32")):
        if dt == "f32" and (d == 3 or dl == 2):
            continue
        yield "label", dict(p=p, q=q, kappa=k, d=d, dl=dl, dt=dt)
    for p, q, k in itertools.product(PS, QS, (None,) + KS):
        yield "shapes", dict(p=p, q=q, kappa=k)
    for k in ("-1", "-1e-9", "-inf", "nan", "-0.5", "-1e8"):
        yield "reject", dict(kappa=k)
    for kind in ("NC", "NLC"):
        yield "omitted", dict(kind=kind)


def points(d, dtype):
    return pt.tensor(list(itertools.product(ALPHA[d], repeat=d)), dtype=dtype)


def pairs(d, dtype):
    p = points(d, dtype)
    n = len(p)
    return p.repeat_interleave(n, 0), p.repeat(n, 1)


def tol(dt):
    return dict(rtol=1e-9, atol=1e-12) if dt == "f64" else dict(rtol=1e-4, atol=1e-5)


def monitor(ch, cost, kind, p, q, kappa, x, z, y, t, dt, how):
    """Formula + laws on a batch of pairs (rows)."""
    call = cost.value if how == "value" else cost
    keep = [None if v is None else v.clone() for v in (x, z, y, t)]
    got = call(x, z, y, t)
    for v, w in zip((x, z, y, t), keep):
        if v is not None:
            ch.check(bool((v == w).all()), "cost: modified its arguments")
    D = lambda v: None if v is None else v.double()
    want = U.ref_cost(kind, p, q, kappa, D(x), D(z), D(y), D(t))
    tl = tol(dt)
    ch.close(got, want, f"cost formula ({kind} p={p} power={q} kappa={kappa})", **tl)
    ch.check(bool((got >= 0).all()), "cost: negative value")
    back = call(z, x, t, y)
    ch.close(back, got, "cost symmetry", **tl)
    if kind == "NC" or kappa == 0.:
        same = (x == z).all(-1)
    elif kappa == U.INF:
        same = (y == t).all(-1)
    else:
        same = (x == z).all(-1) & (y == t).all(-1)
    ch.check(bool(((got.squeeze(-1) == 0) == same).all()),
             "cost: vanishes elsewhere than at identical points (or not at them)")
    # translating both ends and reflecting does not change the cost
    sh = pt.arange(1, x.shape[-1] + 1).to(x) * .25
    ch.close(call(x + sh, z + sh, y, t), got, "cost translation invariance", rtol=1e-4, atol=1e-4)
    ch.close(call(-x, -z, None if y is None else -y, None if t is None else -t), got,
             "cost reflection invariance", **tl)
    # homogeneity of degree `power`
    s = 2.
    ch.close(call(s * x, s * z, None if y is None else s * y, None if t is None else s * t),
             D(got) * s ** q, "cost homogeneity", rtol=max(tl["rtol"], 1e-6), atol=1e-4)
    ch.op(5)


def h_plain(cfg, ch):
    p, q, dt = float(cfg["p"]), cfg["q"], cfg["dt"]
    dtype = pt.float64 if dt == "f64" else pt.float32
    how = ch.choose("how", ("value", "call"))
    x, z = pairs(cfg["d"], dtype)
    y = t = None
    if cfg["labels"]:         # labels are ignored by the cost on inputs only
        y = U.grid(len(x), 1, k=1, dtype=dtype)
        t = U.grid(len(x), 1, k=2, dtype=dtype)
    cost = U.make_cost("NC", p, q)
    ch.check(float(cost.power) == q and float(cost.p) == p, "cost: attributes p and power")
    monitor(ch, cost, "NC", p, q, None, x, z, y, t, dt, how)
    for i in range(len(x)):
        ch.state(i)


def h_label(cfg, ch):
    p, q, dt, kappa = float(cfg["p"]), cfg["q"], cfg["dt"], float(cfg["kappa"])
    dtype = pt.float64 if dt == "f64" else pt.float32
    how = ch.choose("how", ("value", "call"))
    x, z = pairs(cfg["d"], dtype)
    y, t = pairs(cfg["dl"], dtype)
    if cfg["d"] == 3 or cfg["dl"] == 2:
        # strided, complete in each factor
        i = ch.choose("label pair stride", (0, 1, 2, 3))
        idx = (pt.arange(len(x)) * (2 * i + 1) + 5 * i) % len(y)
        y, t = y[idx], t[idx]
    else:
        n = len(x)
        x, z = x.repeat(len(y), 1), z.repeat(len(y), 1)
        y, t = y.repeat_interleave(n, 0), t.repeat_interleave(n, 0)
    cost = U.make_cost("NLC", p, q, kappa)
    monitor(ch, cost, "NLC", p, q, kappa, x, z, y, t, dt, how)
    for i in range(len(x)):
        ch.state(i)


SHAPES = (((3, 2), (3, 2)), ((1, 3, 2), (4, 3, 2)), ((3, 2), (4, 3, 2)), ((1, 1, 2), (5, 1, 2)),
          ((2,), (2,)), ((1, 3, 1), (4, 3, 1)), ((1, 7, 17), (1, 7, 17)), ((1, 2, 65), (3, 2, 65)),
          ((4, 3, 2), (4, 3, 2)), ((1, 129, 2), (2, 129, 2)))


def h_shapes(cfg, ch):
    """Broadcasting of a batch against its samples, gradients, missing labels."""
    p, q = float(cfg["p"]), cfg["q"]
    kind = "NC" if cfg["kappa"] is None else "NLC"
    kappa = None if kind == "NC" else float(cfg["kappa"])
    sx, sz = ch.choose("shape", SHAPES)
    cost = U.make_cost(kind, p, q, kappa)
    x = U.grid(*sx, k=1, dtype=pt.float64)
    z = U.grid(*sz, k=2, dtype=pt.float64).requires_grad_(True)
    y = U.grid(*sx[:-1], 1, k=3, dtype=pt.float64)
    t = U.grid(*sz[:-1], 1, k=4, dtype=pt.float64).requires_grad_(True)
    ch.op()
    got = cost(x, z, y, t)
    want = U.ref_cost(kind, p, q, kappa, x, z, y, t)
    ch.close(got, want, "cost broadcast", rtol=1e-9, atol=1e-12)
    g = pt.autograd.grad(got.sum(), (z, t), allow_unused=True)
    w = pt.autograd.grad(want.sum(), (z, t), allow_unused=True)
    for a, b, v in zip(g, w, (z, t)):
        a = pt.zeros_like(v) if a is None else a
        b = pt.zeros_like(v) if b is None else b
        ch.close(a, b, "cost gradient", rtol=1e-8, atol=1e-10)
    # each row is processed on its own
    if len(sx) == 3:
        for i in range(min(sx[1], 7)):
            xi = x[:, i:i + 1]
            zi = z[:, i:i + 1].detach()
            ch.close(cost(xi, zi, y[:, i:i + 1], t[:, i:i + 1].detach()), want[:, i:i + 1],
                     "cost of a single row", rtol=1e-9, atol=1e-12)
    if kind == "NLC":
        for a, b in ((None, None), (y, None), (None, t.detach())):
            ch.raises(Exception, lambda: cost(x, z.detach(), a, b), "label cost without labels")
    else:
        ch.close(cost(x, z.detach()), want, "input cost without labels", rtol=1e-9, atol=1e-12)
    ch.state(sx, sz)


def h_reject(cfg, ch):
    p = ch.choose("p", (1., 2., U.INF))
    q = ch.choose("q", QS)
    ch.op()
    ch.raises((AssertionError, ValueError), lambda: U.make_cost("NLC", p, q, float(cfg["kappa"])),
              f"kappa={cfg['kappa']}")
    ch.state(p, q)


def h_omitted(cfg, ch):
    """Settings of the cost left out or given by name."""
    from skwdro.base.costs_torch import NormCost, NormLabelCost
    kind = cfg["kind"]
    given = {}
    for k, v in (("p", 2.), ("power", 2.), ("kappa", 3.))[:2 if kind == "NC" else 3]:
        if ch.choose(k, (False, True)):
            given[k] = v
    ch.op()
    c = (NormCost if kind == "NC" else NormLabelCost)(**given)
    full = dict(dict(p=1., power=1.) if kind == "NC" else dict(p=2., power=1., kappa=1e4), **given)
    x, z, y, t = (U.grid(3, w, k=i, dtype=pt.float64) for i, w in ((1, 2), (2, 2), (3, 1), (4, 1)))
    ch.close(c(x, z, y, t), U.ref_cost(kind, full["p"], full["power"], full.get("kappa"), x, z, y, t), f"cost built with {given}",
             rtol=1e-9, atol=1e-12)
    ch.state(sorted(given))


HARNESSES = dict(omitted=h_omitted, plain=h_plain, label=h_label, shapes=h_shapes, reject=h_reject)
