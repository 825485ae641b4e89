"""P09: which samples an evaluation uses, and independence of the data points."""
import itertools

import numpy as np
import torch as pt

from .. import util as U
from .p01 import f64

TITLE = ("all histories up to a depth of evaluations (given, stored or freshly drawn samples, two batches, "
         "kept or moved centre, changed number of samples) on the real dual losses with an owned sampler, "
         "against a model of which draw is used; all permutations, subsets and duplications of small batches")
ASSUMPTIONS = ["the sampler of the histories is a stub returning centre + k-th dictated noise",
               "batch independence is checked on losses acting row by row"]
BOUNDS = {"quick": "histories of depth 4 over 10 (resampling) and 8 (presampled) operations x losses x labels; "
                   "rows: m<=4, all permutations, all nonempty subsets, 3 duplications, 5 costs, importance sampling on/off; batches of 1100 points and 600 samples"}

COSTS = [("NC", 2., 2., None), ("NC", 1., 1., None), ("NC", 2., 1., None), ("NLC", 2., 2., .7),
         ("NLC", 2., 2., 1e8)]


def tasks(tier):
    depth = 4 if tier == "quick" else 6
    for lname, red in itertools.product(("quad", "mse"), ("mean", "none")):
        yield "post", dict(loss=lname, red=red, depth=depth)
        yield "pre", dict(loss=lname, red=red, depth=depth)
    for kind, lname, ci, imp, m in itertools.product(
            ("pre", "post"), ("quad", "mse"), range(len(COSTS)), (False, True), (1, 2, 3, 4)):
        c = COSTS[ci]
        if c[0] == "NLC" and lname == "quad" or imp and c[1:3] != (2., 2.):
            continue
        if m == 1:
            yield "crowd", dict(kind=kind, loss=lname, cost=ci, imp=imp)
        if kind == "post" and m > 2:
            continue
        yield "rows", dict(kind=kind, loss=lname, cost=ci, imp=imp, m=m)
    for ci, lab, seed in itertools.product(range(len(COSTS)), (False, True), (0, 3)):
        if COSTS[ci][0] == "NLC" and not lab:
            continue
        yield "stream", dict(cost=ci, lab=lab, seed=seed)
    for n in (1, 2, 3, 10, 33, 129):
        yield "count", dict(n=n)
    for lname, red, ci in itertools.product(("quad", "mse"), ("mean", "none"), range(len(COSTS))):
        if COSTS[ci][0] == "NC" or lname == "mse":
            yield "unset", dict(loss=lname, red=red, cost=ci)


def owned_sampler():
    from skwdro.base.samplers.torch.base_samplers import BaseSampler

    class Owned(BaseSampler):
        """k-th draw = current centre + k-th dictated noise; everything is recorded."""

        def __init__(self, xi, yi):
            super().__init__(None)
            self.c = (xi, yi)
            self.draws = []

        @property
        def produces_labels(self):
            return self.c[1] is not None

        def reset_mean(self, xi, xi_labels=None):
            self.c = (xi.detach().clone(), None if self.c[1] is None else xi_labels.detach().clone())

        def sample(self, n_samples):
            k = len(self.draws)
            x, y = self.c
            z = x.unsqueeze(0) + .3 * U.grid(n_samples, *x.shape, k=k + 11, dtype=x.dtype)
            t = None if y is None else y.unsqueeze(0) + .2 * U.grid(n_samples, *y.shape, k=k + 40, dtype=x.dtype)
            self.draws.append((n_samples, x, z, t))
            return z, t

        def log_prob(self, zeta, zeta_labels):
            raise AssertionError("density requested")

        def log_prob_recentered(self, xi, xi_labels, zeta, zeta_labels):
            raise AssertionError("density requested")

    return Owned


LAM, RHO, EPS = .6, .3, .1


def make(kind, lname, red, sampler, cost=COSTS[0], n=3, d=2, imp=False):
    from skwdro.base.losses_torch import WrappedPrimalLoss
    from skwdro.solvers.oracle_torch import DualPostSampledLoss, DualPreSampledLoss
    loss, tr, lab, params, ref = U.primal_setup(lname, d, 1, pt.float64)
    prim = WrappedPrimalLoss(loss, tr, sampler, lab)
    cls = DualPostSampledLoss if kind == "post" else DualPreSampledLoss
    dual = cls(prim, U.make_cost(*cost), n_samples=n, epsilon_0=pt.tensor(EPS, dtype=pt.float64),
               rho_0=pt.tensor(RHO, dtype=pt.float64), n_iter=4, reduction=red, imp_samp=imp)
    U.set_lam(dual, LAM)
    return dual, params, ref


def value(params, ref, x, y, z, t, red, cost=COSTS[0]):
    P = {k: f64(v) for k, v in params.items()}
    L = ref(P, f64(z), f64(t))
    c = U.ref_cost(*cost, f64(x).unsqueeze(0), f64(z), None if y is None else f64(y).unsqueeze(0), f64(t))
    return U.ref_dual(L, c, LAM, RHO, EPS, cost[2], red)


def batches(lname):
    xs = [U.grid(3, 2, k=5, dtype=pt.float64), U.grid(2, 2, k=9, dtype=pt.float64) + 1.]
    ys = [None, None] if lname == "quad" else [U.grid(3, 1, k=6, dtype=pt.float64),
                                               U.grid(2, 1, k=3, dtype=pt.float64)]
    # differs from the first batch in one row only
    xs.append(pt.cat((xs[0][:1], xs[0][1:2] - .8, xs[0][2:])))
    ys.append(ys[0] if ys[0] is None else pt.cat((ys[0][:2], ys[0][2:] + .5)))
    return list(zip(xs, ys))


def h_post(cfg, ch):
    data = batches(cfg["loss"])
    sam = owned_sampler()(*data[0])
    dual, params, ref = make("post", cfg["loss"], cfg["red"], sam)
    n, centre = 3, 0
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("A", "B", "A kept", "B kept", "no_grad", "n", "decoy", "mode", "C", "move"))
        ch.op()
        if a == "mode":
            dual.train(not dual.training)
            continue
        if a == "move":        # other values in the same memory
            data[0][0].mul_(.7).add_(.1)
            centre = None if centre == 0 else centre
            continue
        if a == "n":
            n = {3: 1, 1: 4, 4: 3}[n]
            dual.n_samples = n
            continue
        i = {"B": 1, "C": 2}.get(a[0], 0)
        if a.endswith("kept") and centre != i:
            continue
        x, y = data[i]
        before = len(sam.draws)
        if a == "decoy":      # samples handed to the resampling loss are not used
            v = dual(x, y, pt.full((2, 3, 2), 7., dtype=pt.float64),
                     None if y is None else pt.full((2, 3, 1), 7., dtype=pt.float64))
        elif a == "no_grad":
            with pt.no_grad():
                v = dual(x, y)
        else:
            v = dual(x, y, reset_sampler=not a.endswith("kept"))
        centre = i
        new = sam.draws[before:]
        ch.check(len(new) >= 1, f"{a}: no fresh samples were drawn")
        nn, c, z, t = new[-1]
        ch.check(nn == n, f"{a}: {nn} samples drawn instead of {n}")
        ch.check(c.shape == x.shape and bool((c == x).all()), f"{a}: samples are not drawn around the batch")
        ch.close(v, value(params, ref, x, y, z, t, cfg["red"]), f"{a}: value with the fresh samples",
                 rtol=1e-8, atol=1e-9)
        ch.state(k, a, n, centre, len(sam.draws))


def h_pre(cfg, ch):
    data = batches(cfg["loss"])
    sam = owned_sampler()(*data[0])
    dual, params, ref = make("pre", cfg["loss"], cfg["red"], sam)
    banks = []
    for i in range(3):
        x, y = data[0]
        n = (2, 3, 3)[i]
        banks.append((x.unsqueeze(0) + .3 * U.grid(n, 3, 2, k=20 + i, dtype=pt.float64),
                      None if y is None else y.unsqueeze(0) + .1 * U.grid(n, 3, 1, k=30 + i, dtype=pt.float64)))
    stored = None
    shifted = (data[0][0] + .5, data[0][1])
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("Z0", "Z1", "Z2", "stored", "stored other batch", "generate", "no_grad stored",
                                   "mode"))
        ch.op()
        if a == "mode":
            dual.train(not dual.training)
            continue
        x, y = shifted if a.endswith("other batch") else data[0]
        before = len(sam.draws)
        if a == "generate":
            nn = ch.choose("n", (None, 2, 0, -1))
            z, t = dual.generate_zetas(nn) if nn is not None else dual.generate_zetas()
            ch.check(len(z) == (2 if nn == 2 else 3), f"generate({nn}) gives {len(z)} samples")
            ch.check(len(sam.draws) == before + 1, "generate: not one draw")
            continue
        if a in ("Z0", "Z1", "Z2"):
            stored = banks[int(a[1])]
            v = dual(x, y, *stored)
        elif stored is None:
            ch.raises(ValueError, lambda: dual(x, y), "evaluation without any sample")
            continue
        elif a == "no_grad stored":
            with pt.no_grad():
                v = dual(x, y)
        else:
            v = dual(x, y)
        ch.check(len(sam.draws) == before, f"{a}: the presampled loss drew samples")
        ch.close(v, value(params, ref, x, y, *stored, cfg["red"]), f"{a}: value with the given samples",
                 rtol=1e-8, atol=1e-9)
        z, t = dual.current_samples
        ch.check(z is not None and z.shape == stored[0].shape and bool((z == stored[0]).all()),
                 f"{a}: the remembered samples are not the last given ones")
        ch.check((t is None) == (stored[1] is None) and (t is None or bool((t == stored[1]).all())),
                 f"{a}: the remembered label samples are not the last given ones")
        ch.state(k, a, len(stored[0]))


def h_rows(cfg, ch):
    """Value of a part / permutation / repetition of the batch."""
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    m, n, kind, cost = cfg.get("m", 1100), 3, cfg["kind"], COSTS[cfg["cost"]]
    lab = cfg["loss"] != "quad"
    x = U.grid(m, 2, k=5, dtype=pt.float64)
    y = U.grid(m, 1, k=6, dtype=pt.float64) if lab else None
    z = x.unsqueeze(0) + .3 * U.grid(n, m, 2, k=7, dtype=pt.float64)
    t = y.unsqueeze(0) + (.1 if cost[0] == "NLC" else 0.) * U.grid(n, m, 1, k=8, dtype=pt.float64) if lab else None
    c = U.make_cost(*cost)
    sig = pt.tensor(.4, dtype=pt.float64)

    def run(rows, cols, red):
        xx, zz = x[rows], z[cols][:, rows]
        yy, tt = (y[rows], t[cols][:, rows]) if lab else (None, None)
        sam = LabeledCostSampler(c, xx, yy, sig, 0) if lab else NoLabelsCostSampler(c, xx, sig, 0)
        dual, _, _ = make(kind, cfg["loss"], red, sam, cost, n=len(cols), imp=cfg["imp"])
        if kind == "post":
            keep = sam.sample
            sam.sample = lambda k: (zz, tt)
        ch.op()
        return dual(xx, yy) if kind == "post" else dual(xx, yy, zz, tt)

    if "m" not in cfg:
        s = np.r_[0:m]
        rows = ch.choose("rows", ("all", "backwards", "twice", "every third", "last 700", "last", "10"))
        what = rows
        rows = dict(all=s, backwards=s[::-1], twice=np.r_[s, s], last=s[-1:]).get(rows, s[::3] if rows == "every third" else s[-700:] if rows == "last 700" else s[:10])
        rows = rows.tolist()
        cols = ch.choose("cols", ([0, 1, 2], [2, 0, 1], [0, 1, 2] * 200)) if what in ("all", "10") else [0, 1, 2]
    else:
        what = rows = ch.choose("rows", [list(p) for r in range(1, m + 1) for s in itertools.combinations(range(m), r)
                                         for p in itertools.permutations(s)]
                                + [[i for i in range(m) for _ in range(2)], list(range(m)) * 2, list(range(m)) * 17])
        cols = ch.choose("cols", [list(p) for p in itertools.permutations(range(n))] + [[0, 1, 2] * 2, [0, 0, 1, 1, 2, 2]]
                         if rows == list(range(m)) else [[0, 1, 2]])
    base = run(list(range(m)), [0, 1, 2], "none")
    ch.check(base.shape == (m,), f"unreduced loss of {m} points has shape {tuple(base.shape)}")
    part = run(rows, cols, "none")
    ch.close(part, base[rows].detach(), "unreduced value of a part of the batch", rtol=1e-7, atol=1e-8)
    first = float(LAM * RHO ** cost[2])
    ch.close(run(rows, cols, "mean"), base[rows].mean().detach(), "mean over a part of the batch", rtol=1e-7, atol=1e-8)
    ch.close(run(rows, cols, "sum"), (base[rows] - first).sum().detach() + first, "sum over a part of the batch",
             rtol=1e-7, atol=1e-8)
    ch.state(what, cols)


def h_stream(cfg, ch):
    """Real samplers: each evaluation has its own draws, a seed fixes them all."""
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    lab, cost = cfg["lab"], COSTS[cfg["cost"]]
    ops = [ch.choose(f"op{k}", ("A", "A again, kept", "B")) for k in range(3)]
    data = batches("mse" if lab else "quad")

    def trace():
        pt.manual_seed(99)
        c = U.make_cost(*cost)
        sig = pt.tensor(.4, dtype=pt.float64)
        sam = LabeledCostSampler(c, *data[0], sig, cfg["seed"]) if lab else \
            NoLabelsCostSampler(c, data[0][0], sig, cfg["seed"])
        dual, _, _ = make("post", "mse" if lab else "quad", "none", sam, cost)
        out, centre = [], 0
        for a in ops:
            i = 1 if a == "B" else 0
            keep = a.endswith("kept") and centre == i
            out.append(dual(*data[i], reset_sampler=not keep).detach())
            centre = i
            ch.op()
        return out

    a, b = trace(), trace()
    for u, v in zip(a, b):
        ch.check(bool((u == v).all()), "same seed, different evaluations")
    for i, j in itertools.combinations(range(3), 2):
        if (ops[i] == "B") == (ops[j] == "B"):
            ch.check(bool((a[i] != a[j]).all()), "two evaluations of the same batch used the same samples")
    ch.state(ops)


def h_count(cfg, ch):
    """The number of samples is the configured one in every way to build the loss."""
    from skwdro.torch import robustify
    n = cfg["n"]
    lab = ch.choose("labels", (False, True))
    kind = ch.choose("kind", ("pre", "post"))
    x = U.grid(4, 2, k=1)
    y = U.grid(4, 1, k=2)
    loss, tr = (pt.nn.MSELoss(reduction="none"), pt.nn.Linear(2, 1)) if lab else (U.QuadModule(2), None)
    dual = robustify(loss, tr, pt.tensor(.3), x, y if lab else None, kind == "post", None, n, 1, imp_samp=False)
    z, t = dual.generate_zetas()
    ch.op()
    ch.check(tuple(z.shape) == (n, 4, 2), f"samples of shape {tuple(z.shape)}")
    ch.check((t is None) == (not lab) and (t is None or tuple(t.shape) == (n, 4, 1)), "label samples shape")
    seen = []
    inner = dual.sampler.sample
    dual.sampler.sample = lambda k: (seen.append(k), inner(k))[1]
    for _ in range(2):
        dual(x, y if lab else None) if kind == "post" else dual(x, y if lab else None, z, t)
    ch.check(seen == ([n, n] if kind == "post" else []), f"draws {seen}")
    ch.state(lab, kind)


def h_unset(cfg, ch):
    """A resampling loss built without sampler makes one around the first batch it sees."""
    from skwdro.base.samplers.torch import LabeledCostSampler, NoLabelsCostSampler
    cost, lab = COSTS[cfg["cost"]], cfg["loss"] != "quad"
    data = batches(cfg["loss"])
    dual, params, ref = make("post", cfg["loss"], cfg["red"], None, cost)
    seen = []
    started = False
    for k in range(3):
        a = ch.choose(f"op{k}", ("A", "B", "B kept", "unset", "empirical"))
        ch.op()
        if a == "unset":
            dual.primal_loss.sampler = None
            started = False
            continue
        i = 1 if a.startswith("B") else 0
        if a == "B kept" and started and seen[-1] != 1:
            continue
        x, y = data[i]
        dual.erm_mode = a == "empirical"
        pt.manual_seed(5 + k)
        st = pt.get_rng_state()
        v = dual(x, y, reset_sampler=a != "B kept")
        started = True
        seen.append(i)
        c = U.make_cost(*cost)
        pt.set_rng_state(st)
        fresh = LabeledCostSampler(c, x, y, EPS, None) if lab else NoLabelsCostSampler(c, x, EPS, None)
        z, t = fresh.sample(3)
        if a == "empirical":
            P = {k_: f64(p) for k_, p in params.items()}
            want = ref(P, f64(x), f64(y)).reshape(-1)
            want = RHO * LAM + (want if cfg["red"] == "none" else want.mean())
        else:
            want = value(params, ref, x, y, z, t, cfg["red"], cost)
        ch.close(v, want, f"{a}: value of a loss built without sampler", rtol=1e-7, atol=1e-8)
        ch.state(k, a, i)


HARNESSES = dict(crowd=h_rows, unset=h_unset, post=h_post, pre=h_pre, rows=h_rows, stream=h_stream, count=h_count)
