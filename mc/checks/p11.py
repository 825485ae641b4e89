"""P11: the stopping criterion is a state machine over what it has been shown."""
import itertools
import math

import numpy as np
import torch as pt

from .. import util as U

TITLE = ("all sequences, up to a depth, of parameters/gradients shown to the real stopping criterion, updated in "
         "place as optimisers do, for every kind of monitoring, mode, metric and tolerance, against an explicit state machine")
ASSUMPTIONS = ["observations are chosen among exactly representable vectors so that thresholds can be hit exactly"]
BOUNDS = {"quick": "depth 4, 3-4 observations of the parameters x 3 of the multiplier, 4 monitorings x 2 modes x 2 metrics "
                   "x 5 tolerance pairs; 14 names x 4 orders; reuse over 2 solves; iteration counts up to 10^6",
          "thorough": "depth 5, 4 x 3 observations, same product"}

GROUPS = {"both": ("both", "theta_and_lambda", "t&l", "lambda_and_theta", "l&t"),
          "one": ("one", "theta_or_lambda", "tUl", "lambda_or_theta", "lUt"),
          "theta": ("theta", "t"), "lambda": ("lambda", "l")}


def tasks(tier):
    depth = 4 if tier == "quick" else 5
    for mon, mode, metric, tol in itertools.product(
            GROUPS, ("rel", "abs"), ("grad", "param"),
            ((.5, .5), (.5, 1e-3), (1e-3, .5), (0., .5), (.5, -1.))):
        yield "machine", dict(mon=mon, mode=mode, metric=metric, tol=tol, depth=depth,
                             nobs=3 if tier == "quick" else 4)
        if tol == (.5, .5):
            for layout in ("linear", "deep"):
                yield "machine", dict(mon=mon, mode=mode, metric=metric, tol=tol, depth=depth, nobs=2, layout=layout)
    for g, names in GROUPS.items():
        for name, order, mode, metric in itertools.product(names, (1, 2, 3, "inf"), ("rel", "abs"), ("grad", "param")):
            yield "names", dict(group=g, name=name, order=order, mode=mode, metric=metric)
    yield "limits", dict()
    yield "invalid", dict()
    for metric, mon, kind in itertools.product(("grad", "param"), ("theta", "lambda", "both", "one"), ("pre", "post")):
        yield "reuse", dict(metric=metric, mon=mon, kind=kind)


_LOSS = {}


class Deep(pt.nn.Module):
    def __init__(self):
        super().__init__()
        self.a, self.b = pt.nn.Linear(2, 1, bias=False), pt.nn.Linear(1, 1)

    def forward(self, x):
        return self.b(self.a(x[..., :2]))


# four parameters in 2, 1 or 3 tensors
LAYOUTS = {"affine": lambda: pt.nn.Linear(3, 1), "linear": lambda: pt.nn.Linear(4, 1, bias=False), "deep": Deep}


def loss(n_iter=1000, rho=.3, layout="affine"):
    """A real dual loss whose parameters and gradients the harness dictates."""
    from skwdro.torch import robustify
    key = (str(n_iter), rho, layout)
    if key not in _LOSS:
        pt.manual_seed(0)
        _LOSS[key] = robustify(pt.nn.MSELoss(reduction="none"), LAYOUTS[layout](), pt.tensor(rho),
                               U.grid(2, 4 if layout == "linear" else 3, k=1), U.grid(2, 1, k=2), False, "t-NLC-2-2", 2, 0,
                               imp_samp=False, n_iter=n_iter)
    d = _LOSS[key]
    d.n_iter = n_iter
    for p in d.parameters():
        p.grad = None
    return d


def show(dual, th, lam, gth, glam):
    """In place, as an optimiser does."""
    out = []
    for p in dual.primal_loss.parameters():
        n = p.numel()
        out.append((p, pt.tensor(th[:n]).reshape(p.shape), pt.tensor(gth[:n]).reshape(p.shape)))
        th, gth = th[n:], gth[n:]
    with pt.no_grad():
        for p, v, _ in out:
            p.copy_(v)
        U.set_lam(dual, lam)
        for p, g in [(p, g) for p, _, g in out] + [(U.lam_leaf(dual), pt.tensor(glam))]:
            if p.grad is None:
                p.grad = g.clone()
            else:
                p.grad.copy_(g)


class Machine:
    """The specification."""

    def __init__(self, mon, mode, metric, tol, order):
        self.__dict__.update(mon=mon, mode=mode, metric=metric, tol=tol,
                             order=np.inf if order == "inf" else order)
        self.t, self.l = [], []

    def part(self, seen, new, tol):
        if tol <= 0:
            return False
        seen.append(np.atleast_1d(np.array(new, dtype=np.float64)))
        nrm = (lambda v: np.linalg.norm(v, self.order))
        if self.metric == "grad":
            if len(seen) == 1:
                return False
            cur, first = nrm(seen[-1]), nrm(seen[0])
        else:
            if len(seen) <= 2:
                return False
            cur, first = nrm(seen[-1] - seen[-2]), nrm(seen[1] - seen[0])
        return bool(cur < (tol * first if self.mode == "rel" else tol))

    def step(self, th, lam, gth, glam):
        grad = self.metric == "grad"
        t = self.part(self.t, gth if grad else th, self.tol[0]) if self.mon != "lambda" else None
        l = self.part(self.l, glam if grad else lam, self.tol[1]) if self.mon != "theta" else None
        return {"both": lambda: t and l, "one": lambda: t or l, "theta": lambda: t, "lambda": lambda: l}[self.mon]()


def cond(mon, mode, metric, tol, order=2, **kw):
    from skwdro.solvers.optim_cond import OptCondTorch
    return OptCondTorch(order, tol[0], tol[1], monitoring=mon, mode=mode, metric=metric, **kw)


T_OBS = ((4., 0., 0., -3.), (2., 0., 0., -1.5), (0., .25, 0., 0.), (0., 0., 0., 0.))
L_OBS = (2., 1., 0.)


def h_machine(cfg, ch):
    dual = loss(layout=cfg.get("layout", "affine"))
    c = cond(cfg["mon"], cfg["mode"], cfg["metric"], cfg["tol"])
    ref = Machine(cfg["mon"], cfg["mode"], cfg["metric"], cfg["tol"], 2)
    th, lam = np.array([1., -2., .5, 4.]), 8.
    for k in range(cfg["depth"]):
        useT, useL = cfg["mon"] != "lambda", cfg["mon"] != "theta"
        o = ch.choose(f"theta{k}", T_OBS[:cfg["nobs"] if useL else 4] if useT else T_OBS[:1])
        q = ch.choose(f"lambda{k}", L_OBS if useL else L_OBS[:1])
        th, lam = th + np.array(o), lam + q          # displacement o, q
        show(dual, list(th), lam, list(o), q)
        before = [p.detach().clone() for p in dual.parameters()]
        ch.op()
        got = c(dual, k)
        want = ref.step(th, lam, o, q)
        ch.check(bool(got) == bool(want), lambda: f"verdict {got} instead of {want} at call {k}")
        for p, b in zip(dual.parameters(), before):
            ch.check(bool((p == b).all()), "the criterion modified a parameter")
        ch.state(k, list(o), q, bool(want))
        ch.outcome((k, bool(want)))


def h_names(cfg, ch):
    dual = loss(10 ** 6)
    start = ch.choose("start", (0, 47, 997))
    tol = ch.choose("tol", ((.4, .4), (1e-2, .4), (.4, 1e-2)))
    seq = ch.choose("seq", ([0, 1, 2, 3, 0, 2], [3, 0, 2, 1, 1, 3], [1, 1, 0, 2, 2, 3]))
    verb = ch.choose("verbose", (False, True))
    c = cond(cfg["name"], cfg["mode"], cfg["metric"], tol, cfg["order"], verbose=verb)
    ref = Machine(cfg["group"], cfg["mode"], cfg["metric"], tol, cfg["order"])
    th, lam = np.array([1., -2., .5, 4.]), 8.
    import contextlib
    import io
    for k, i in enumerate(seq):
        o, q = T_OBS[i], L_OBS[i % 3]
        th, lam = th + np.array(o), lam + q
        show(dual, list(th), lam, list(o), q)
        ch.op()
        with contextlib.redirect_stdout(io.StringIO()):
            got = c(dual, start + k)
        want = ref.step(th, lam, o, q)
        ch.check(bool(got) == bool(want), f"verdict {got} instead of {want} at call {k}")
        ch.state(start, k, bool(want))


def h_limits(cfg, ch):
    """The iteration limit is the number of training steps of the loss."""
    n = ch.choose("n_iter", (1, 3, 10, (0, 3), (5, 2), (2, 5), (4, 1), 1500, (30, 1001)))
    it = ch.choose("it", (*range(0, 12), 99, 100, 999, 1000, 1001, 1499, 1500, 10 ** 5))
    mi = ch.choose("max_iter", (None, 2, 7))
    mon = ch.choose("mon", tuple(GROUPS))
    metric = ch.choose("metric", ("grad", "param"))
    dual = loss(n)
    c = cond(mon, "abs", metric, (1e-9, 1e-9), 2, max_iter=mi)
    show(dual, [1., 2., 3., 4.], 1., [1., 2., 3., 4.], 5.)
    lim = n if isinstance(n, int) else n[1]
    ch.op()
    got = c(dual, it)
    ch.check(bool(got) == (it >= lim), f"verdict {got} at iteration {it} of {n}")
    ch.state(str(n), it, mi, mon, metric)


def h_invalid(cfg, ch):
    from skwdro.solvers.optim_cond import OptCondTorch
    what = ch.choose("what", ("monitoring", "metric", "mode", "order", "no grad theta", "no grad lambda"))
    dual = loss()
    show(dual, [1., 2., 3., 4.], 1., [1., 2., 3., 4.], 5.)

    def drive(c):
        return lambda: [c(dual, k) for k in range(4)]
    ch.op()
    if what == "monitoring":
        v = ch.choose("v", ("", "thetas", "T", "lam", "none"))
        ch.raises(ValueError, drive(cond(v, "rel", "grad", (.1, .1))), f"monitoring {v!r}")
    elif what == "metric":
        v = ch.choose("v", ("", "params", "gradient", "loss"))
        m = ch.choose("m", ("theta", "lambda", "both"))
        ch.raises(ValueError, drive(cond(m, "rel", v, (.1, .1))), f"metric {v!r}")
    elif what == "mode":
        v = ch.choose("v", ("", "relative", "ABS"))
        m = ch.choose("m", ("theta", "lambda", "both"))
        ch.raises(ValueError, drive(cond(m, v, "grad", (.1, .1))), f"mode {v!r}")
    elif what == "order":
        v = ch.choose("v", (0, -1, "2", "-inf", "fro"))
        ch.raises(Exception, lambda: OptCondTorch(v), f"order {v!r}")
    else:
        leaf = U.lam_leaf(dual) if what.endswith("lambda") else dual.primal_loss.transform.bias
        leaf.grad = None
        m = ch.choose("m", ("lambda", "both", "one") if what.endswith("lambda") else ("theta", "both", "one"))
        ch.raises(ValueError, drive(cond(m, "rel", "grad", (.1, .1))), f"{what}")
    ch.state(what)


def h_reuse(cfg, ch):
    """A criterion used for several solves stops each of them as a new one would."""
    from skwdro.base.problems import EmpiricalDistributionWithLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    from skwdro.torch import robustify
    mode = ch.choose("mode", ("rel", "abs"))
    # a huge tolerance leaves the decision to the other block
    tol = ch.choose("tol", ((.9, .9), (.3, .3), (.02, .02), (1e9, .5), (1e9, .05), (.5, 1e9), (.05, 1e9)))
    seq = [ch.choose(f"data{k}", (0, 1, 2)) for k in range(2)]

    class Counting(OptCondTorch):
        def __call__(self, *a):
            self.calls = getattr(self, "calls", 0) + 1
            return super().__call__(*a)

    def fresh():
        return Counting(2, *tol, monitoring=cfg["mon"], mode=mode, metric=cfg["metric"])

    def solve(i, c):
        pt.manual_seed(5 + i)
        x, y = U.grid(4, 2, k=i) * (1 + 3 * i), U.grid(4, 1, k=i + 2)
        d = robustify(pt.nn.MSELoss(reduction="none"), pt.nn.Linear(2, 1), pt.tensor((.3, .3, 6.)[i]), x, y,
                      cfg["kind"] == "post", "t-NLC-2-2", 2, 0, imp_samp=False, n_iter=(2, 12), learning_rate=.1, adapt=None)
        c.calls = 0
        r = solve_dual_wdro(d, EmpiricalDistributionWithLabels(m=4, samples_x=x.numpy(), samples_y=y.numpy()), c)
        ch.op()
        return c.calls, r.coef.copy(), float(r.dual_var[0])

    shared = fresh()
    for k, i in enumerate(seq):
        a, b = solve(i, shared), solve(i, fresh())
        ch.check(a[0] == b[0], f"solve {k}: stopped after {a[0]} steps with a reused criterion, {b[0]} with a new one")
        ch.check(np.array_equal(a[1], b[1]) and a[2] == b[2], f"solve {k}: result depends on the previous solve")
        ch.outcome(("stopped", a[0]))
        ch.state(k, i, a[0])


HARNESSES = dict(machine=h_machine, names=h_names, limits=h_limits, invalid=h_invalid, reuse=h_reuse)
