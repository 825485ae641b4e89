"""P24: the warm-up phase minimises the plain empirical risk, whatever the robustness settings."""
import inspect
import itertools

import numpy as np
import torch as pt
import torch.nn as nn

from .. import util as U

TITLE = ("the model after every warm-up step of real solves, for all combinations of radius, temperature, sample count, "
         "scale, seed, ground cost and importance sampling within a table, against a plain training loop on the bare model; "
         "its end against closed-form empirical minimisers")
ASSUMPTIONS = ["full-batch optimisers of torch are deterministic for identical gradients"]
BOUNDS = {"quick": "2 sampling modes x 3 optimisers x 4 models x 2-3 warm-up lengths, every single and paired deviation of "
                   "7 settings (29 values); sum and omitted reductions, l2 regularisation; 8 convex problems x 6 radii; plain descent of 57 and 1100 steps"}

SET = dict(rho=(.3, 1e-3, 2., 10.), epsilon=(.1, None, 5.), n_samples=(3, 1, 8), sigma=(None, .5), seed=(7, None),
           cost=("2-2", "1-1", "1-2", "1-inf"), imp=(None, False))


def deviations(pairs=True):
    base = {k: v[0] for k, v in SET.items()}
    out = [base]
    for k in SET:
        for v in SET[k][1:]:
            out.append(dict(base, **{k: v}))
    for a, b in itertools.combinations(SET, 2) if pairs else ():
        for v, w in itertools.product(SET[a][1:], SET[b][1:]):
            out.append(dict(base, **{a: v, b: w}))
    return out


def tasks(tier):
    for post, model in itertools.product((True, False), ("quad", "lin", "logit", "net")):
        for adapt in (("prodigy", "mechanic", None) if post else ("prodigy",)):
            for pre in ((1, 4) if tier == "quick" else (1, 2, 4, 15)):
                yield "free", dict(post=post, model=model, adapt=adapt, pre=pre)
            for red, l2 in (("sum", None), ("mean", .2), (None, None)):
                yield "free", dict(post=post, model=model, adapt=adapt, pre=3, red=red, l2=l2)
    for post, model in itertools.product((True, False), ("quad", "lin")):
        yield "long", dict(post=post, model=model)
    for post in (True, False):
        yield "minimum", dict(post=post, dims=(1, 2) if tier == "quick" else (1, 2, 3, 4))


class Logit(nn.Module):
    reduction = "none"

    def forward(self, out, y):
        return nn.functional.softplus(-y * out)


def setup(model, d=2, m=6):
    pt.manual_seed(0)
    x = pt.tensor(U.lattice(m, d), dtype=pt.float32)
    y = pt.tensor(U.lattice(m, 1, k=2), dtype=pt.float32)
    if model == "quad":
        return U.QuadModule(d), None, x, None
    if model == "lin":
        return nn.MSELoss(reduction="none"), nn.Linear(d, 1), x, y
    if model == "logit":
        return Logit(), nn.Linear(d, 1), x, y.sign() + (y == 0)
    return nn.MSELoss(reduction="none"), nn.Sequential(nn.Linear(d, 3), nn.Tanh(), nn.Linear(3, 1)), x, y


def warm(L, emp, params, pre):
    """Solve; returns the model's parameters after each of the first steps."""
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    traj = []
    o = L.optimizer
    real = o.step

    def step(*a, **k):
        r = real(*a, **k)
        if len(traj) < pre:
            traj.append(pt.cat([p.detach().flatten().clone() for p in params]).double())
        return r
    o.step = step
    solve_dual_wdro(L, emp, OptCondTorch(2))
    return traj


def build(post, loss, tr, x, y, s, n_iter, adapt, red="mean", l2=None):
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    from skwdro.torch import robustify
    kw = {} if s["imp"] is None else dict(imp_samp=False)
    if red is not None:
        kw["reduction"] = red
    if l2 is not None:
        kw["l2reg"] = l2
    code = f"t-{'NC' if y is None else 'NLC'}-{s['cost']}" + ("" if y is None else "-5")
    L = robustify(loss, tr, pt.tensor(s["rho"]), x, y, post, code, s["n_samples"], s["seed"], epsilon=s["epsilon"],
                  sigma=s["sigma"], n_iter=n_iter, adapt=adapt, **kw)
    if y is None:
        return L, EmpiricalDistributionWithoutLabels(m=len(x), samples=x.numpy())
    return L, EmpiricalDistributionWithLabels(m=len(x), samples_x=x.numpy(), samples_y=y.numpy())


def risk(loss, tr, x, y, red="mean", l2=None):
    v = loss(x) if tr is None else loss(tr(x), y)
    v = v.sum() if red == "sum" else v.mean()
    return v if l2 is None else v + .5 * l2 * sum((p ** 2).sum() for p in (tr if tr is not None else loss).parameters())


REF = {}


def opts(cfg):
    return {k: cfg[k] for k in ("red", "l2") if k in cfg}


def reference(cfg):
    """Plain training of the bare model with the optimiser of the robust loss (its 'model' part)."""
    key = (cfg["post"], cfg["model"], cfg["adapt"], cfg["pre"], str(opts(cfg)))
    if key not in REF:
        loss, tr, x, y = setup(cfg["model"])
        s = {k: v[0] for k, v in SET.items()}
        L, _ = build(cfg["post"], loss, tr, x, y, s, (cfg["pre"], 1), cfg["adapt"], **opts(cfg))
        o = L.optimizer
        loss, tr, x, y = setup(cfg["model"])
        par = list((tr if tr is not None else loss).parameters())
        traj = [pt.cat([p.detach().flatten().clone() for p in par]).double()]
        sch = None
        if cfg["post"] and cfg["adapt"] == "prodigy":
            from prodigyopt import Prodigy
            q = Prodigy(par, lr=1., weight_decay=0, safeguard_warmup=True, use_bias_correction=True)
            sch = pt.optim.lr_scheduler.CosineAnnealingLR(q, T_max=cfg["pre"] + 1)
        elif cfg["post"] and cfg["adapt"] == "mechanic":
            from mechanic_pytorch import mechanize
            q = mechanize(pt.optim.Adam)(par, lr=1., weight_decay=0.)
        else:
            kw = {k: v for k, v in o.defaults.items() if k in inspect.signature(type(o).__init__).parameters}
            q = type(o)(par, **kw)

        def closure():
            q.zero_grad()
            v = risk(loss, tr, x, y, **opts(cfg))
            v.backward()
            return v
        for _ in range(cfg["pre"]):
            if isinstance(q, pt.optim.LBFGS):
                q.step(closure)
            else:
                closure()
                q.step()
            if sch is not None:
                sch.step()
            traj.append(pt.cat([p.detach().flatten().clone() for p in par]).double())
        REF[key] = traj
    return REF[key]


def h_free(cfg, ch):
    dev = deviations("red" not in cfg)
    s = dev[ch.choose("setting", range(len(dev)))]
    ref = reference(cfg)
    out = []
    for t in (s, {k: v[0] for k, v in SET.items()}):
        loss, tr, x, y = setup(cfg["model"])
        ch.op()
        L, emp = build(cfg["post"], loss, tr, x, y, t, (cfg["pre"], 1), cfg["adapt"], **opts(cfg))
        par = list((tr if tr is not None else loss).parameters())
        out.append(warm(L, emp, par, cfg["pre"]))
    ch.check(len(out[0]) == cfg["pre"], f"{len(out[0])} steps performed, {cfg['pre']} of warm-up asked")
    for k, (a, b) in enumerate(zip(*out)):
        ch.close(a, b, f"warm-up step {k + 1} depends on the robustness settings {s}", rtol=1e-4, atol=1e-5)
        ch.close(a, ref[k + 1], f"warm-up step {k + 1} is not a step on the empirical risk", rtol=1e-3, atol=1e-4)
    ch.state(sorted((k, str(v)) for k, v in s.items()))


def h_minimum(cfg, ch):
    """A long warm-up ends at the empirical minimiser."""
    post = cfg["post"]
    model = ch.choose("model", ("quad", "lin"))
    d = ch.choose("d", cfg["dims"])
    rho = ch.choose("rho", (1e-3, .1, .3, 1., 3., 0.))
    cost = ch.choose("cost", ("2-2", "1-1"))
    loss, tr, x, y = setup(model, d=d, m=8)
    s = dict({k: v[0] for k, v in SET.items()}, rho=rho, cost=cost, seed=ch.choose("seed", (7, 11)))
    pre = 600 if post else 60
    ch.op()
    L, emp = build(post, loss, tr, x, y, s, (pre, 1), "prodigy")
    par = list((tr if tr is not None else loss).parameters())
    end = warm(L, emp, par, pre)[-1].numpy()
    X = x.numpy().astype(float)
    if model == "quad":
        want = X.mean(0)
    else:
        A = np.hstack([X, np.ones((len(X), 1))])
        want = np.linalg.lstsq(A, y.numpy().astype(float)[:, 0], rcond=None)[0]
    tol = 5e-2 if post else 2e-3
    ch.close(end, want, f"{model}, radius {rho}: end of the warm-up against the empirical minimiser", rtol=tol, atol=tol)
    ch.state(model, d, rho, cost)


def h_long(cfg, ch):
    """Long warm-ups with a plain optimiser of small steps: every step counts."""
    pre = ch.choose("pre", (57, 1100))
    s = {k: v[0] for k, v in SET.items()}
    loss, tr, x, y = setup(cfg["model"])
    ch.op()
    L, emp = build(cfg["post"], loss, tr, x, y, s, (pre, 1), None)
    par = list((tr if tr is not None else loss).parameters())
    L.optimizer = pt.optim.SGD(L.parameters(), lr=1e-3)
    traj = warm(L, emp, par, pre)
    loss, tr, x, y = setup(cfg["model"])
    par = list((tr if tr is not None else loss).parameters())
    o = pt.optim.SGD(par, lr=1e-3)
    want = []
    for _ in range(pre):
        o.zero_grad()
        risk(loss, tr, x, y).backward()
        o.step()
        want.append(pt.cat([p.detach().flatten().clone() for p in par]).double())
    for k in (0, 1, 9, 49, pre // 2, pre - 2, pre - 1):
        ch.close(traj[k], want[k], f"warm-up of {pre} steps: step {k + 1} is not a step on the empirical risk", rtol=1e-3, atol=1e-4)
    ch.state(pre)


HARNESSES = dict(free=h_free, long=h_long, minimum=h_minimum)
