"""P14: the composite optimiser is two independent adaptive optimisers."""
import copy
import itertools

import torch as pt

from .. import util as U

TITLE = ("all operation sequences up to a depth (steps with dictated gradients, clearing, resetting the multiplier's state, "
         "saving, restoring) on the real composite optimiser, in lock-step with two separate inner optimisers")
ASSUMPTIONS = ["the inner optimisers (prodigy, mechanic+Adam) and torch's cosine schedule are trusted",
               "saving/restoring is explored for prodigy (mechanic's own state is not restorable in another process)"]
BOUNDS = {"quick": "depth 4, 9 (prodigy) / 7 (mechanic) operations, 3 step budgets, 2 initial multipliers; budgets of 5000 and 1500+1200 steps, 150 of them performed"}


def tasks(tier):
    depth = 4 if tier == "quick" else 5
    for opt, n_iter, lam0 in itertools.product(("prodigy", "mechanic"), (10, (2, 3), (0, 7)), (0., .8)):
        yield "lockstep", dict(opt=opt, n_iter=n_iter, lam0=lam0, depth=depth)
    for opt, n_iter in itertools.product(("prodigy", "mechanic"), (20, (3, 12), 5000, (1500, 1200))):
        yield "run", dict(opt=opt, n_iter=n_iter)
    yield "names", dict()
    for adapt, kind in itertools.product(("prodigy", "mechanic", None), ("post", "pre")):
        yield "wired", dict(adapt=adapt, kind=kind)


def inner(opt, params):
    from mechanic_pytorch import mechanize
    from prodigyopt import Prodigy
    if opt == "mechanic":
        return mechanize(pt.optim.Adam)(params, lr=1., weight_decay=0.)
    return Prodigy(params, lr=1., weight_decay=0, safeguard_warmup=True, use_bias_correction=True)


class Ref:
    def __init__(self, opt, ws, lam, n_iter):
        self.ws = [pt.nn.Parameter(w.detach().clone()) for w in ws]
        self.lam = pt.nn.Parameter(lam.detach().clone())
        self.o = [inner(opt, self.ws), inner(opt, [self.lam])]
        pre, tr = (int(.3 * n_iter), n_iter) if isinstance(n_iter, int) else n_iter
        self.s = [pt.optim.lr_scheduler.CosineAnnealingLR(o, T_max=T) for o, T in zip(self.o, (pre + tr, tr))] \
            if opt == "prodigy" else []
        self.init = copy.deepcopy(self.o[1].state_dict())

    def step(self, gs, gl):
        for w, g in zip(self.ws, gs):
            w.grad = None if g is None else g.clone()
        self.lam.grad = None if gl is None else pt.tensor(gl)
        for o in self.o:
            o.step()
        for s in self.s:
            s.step()
        with pt.no_grad():
            self.lam.clamp_(0., None)


GRADS = {"g1": ([pt.tensor([1., -.5]), pt.tensor([[.25]])], .5), "g2": ([pt.tensor([-3., 2.]), pt.tensor([[1.]])], -2.),
         "g3": ([pt.tensor([1e-3, 0.]), pt.tensor([[-10.]])], 300.), "half": ([pt.tensor([1., 1.]), None], .1)}


def build(cfg, lam0):
    from skwdro.solvers.oracle_torch import CompositeOptimizer
    ws = [pt.nn.Parameter(pt.tensor([1., -2.])), pt.nn.Parameter(pt.tensor([[.3]]))]
    lam = pt.nn.Parameter(pt.tensor(lam0))
    n = cfg["n_iter"] if isinstance(cfg["n_iter"], int) else tuple(cfg["n_iter"])
    ref = Ref(cfg["opt"], ws, lam, n)
    gen = (w for w in ws)          # parameters() is a one-shot iterator
    return ws, lam, CompositeOptimizer(gen, lam, n, cfg["opt"]), ref


def same(ch, ws, lam, ref, what):
    for w, r in zip(ws, ref.ws):
        ch.close(w, r, f"{what}: parameters", rtol=1e-6, atol=1e-9)
    ch.close(lam, ref.lam, f"{what}: multiplier", rtol=1e-6, atol=1e-9)
    ch.check(float(lam) >= 0., f"{what}: multiplier {float(lam)}")


def h_lockstep(cfg, ch):
    ws, lam, opt, ref = build(cfg, cfg["lam0"])
    saved = None
    ops = list(GRADS) + ["clear", "reset", "set lam"] + (["save", "restore"] if cfg["opt"] == "prodigy" else [])
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ops)
        ch.op()
        if a in GRADS:
            gs, gl = GRADS[a]
            for w, g in zip(ws, gs):
                w.grad = None if g is None else g.clone()
            lam.grad = pt.tensor(gl)
            opt.step()
            ref.step(gs, gl)
        elif a == "clear":
            opt.zero_grad()
            for p in ws + [lam]:
                ch.check(p.grad is None or bool((p.grad == 0).all()), "clearing left a gradient")
        elif a == "reset":
            opt.reset_lbd_state()
            ref.o[1].load_state_dict(copy.deepcopy(ref.init))
        elif a == "set lam":
            with pt.no_grad():
                lam.fill_(1.5)
                ref.lam.fill_(1.5)
        elif a == "save":
            saved = copy.deepcopy(opt.state_dict()), [copy.deepcopy(o.state_dict()) for o in ref.o]
        elif saved is None:
            ch.prune()
        else:
            opt.load_state_dict(copy.deepcopy(saved[0]))
            for o, s in zip(ref.o, saved[1]):
                o.load_state_dict(copy.deepcopy(s))
        same(ch, ws, lam, ref, a)
        ch.state(k, a, lam, ws[0])


def h_run(cfg, ch):
    """Whole budgets, past the end of the schedule as well."""
    pat = ch.choose("pattern", ("g1", "g2", "alt", "all"))
    rst = ch.choose("reset at", (None, 0, 4, 9))
    ws, lam, opt, ref = build(cfg, .5)
    for k in range(24 if cfg["n_iter"] in (20, [3, 12], (3, 12)) else 150):
        if k == rst:
            opt.reset_lbd_state()
            ref.o[1].load_state_dict(copy.deepcopy(ref.init))
        g = pat if pat in GRADS else ("g1", "g2")[k % 2] if pat == "alt" else list(GRADS)[k % 4]
        gs, gl = GRADS[g]
        opt.zero_grad(set_to_none=True)
        for w, gg in zip(ws, gs):
            w.grad = None if gg is None else gg.clone()
        lam.grad = pt.tensor(gl)
        ch.op()
        opt.step()
        ref.step(gs, gl)
        same(ch, ws, lam, ref, f"step {k}")
        ch.state(k, lam)


def h_names(cfg, ch):
    from skwdro.solvers.oracle_torch import CompositeOptimizer
    name = ch.choose("name", ("sgd", "", "Prodigy", "adam", None))
    w, lam = pt.nn.Parameter(pt.zeros(1)), pt.nn.Parameter(pt.tensor(0.))
    ch.op()
    ch.raises(NotImplementedError, lambda: CompositeOptimizer([w], lam, 3, name), f"optimiser {name!r}")
    ch.state(name)


def h_wired(cfg, ch):
    """The losses come with the optimiser asked for, acting on the model and the multiplier."""
    from skwdro.torch import robustify
    rho = ch.choose("rho", (.3, 0.))
    pt.manual_seed(0)
    lin = pt.nn.Linear(2, 1)
    x, y = U.grid(4, 2, k=5), U.grid(4, 1, k=6)
    dual = robustify(pt.nn.MSELoss(reduction="none"), lin, pt.tensor(rho), x, y, cfg["kind"] == "post", None, 3, 1,
                     imp_samp=False, n_iter=(2, 5), adapt=cfg["adapt"])
    z, t = dual.generate_zetas()
    U.set_lam(dual, .4 if rho > 0 else 0.)
    opt = dual.optimizer
    theta0, lam0 = [p.detach().clone() for p in lin.parameters()], float(dual.lam)
    hyper0 = float(dual.rho), float(dual.epsilon)

    def closure():
        opt.zero_grad()
        for p in lin.parameters():
            ch.check(p.grad is None or bool((p.grad == 0).all()), "zero_grad left a gradient in the model")
        lg = U.lam_leaf(dual).grad
        ch.check(lg is None or float(lg) == 0., "zero_grad left a gradient in the multiplier")
        v = dual(x, y) if cfg["kind"] == "post" else dual(x, y, z, t)
        v.backward()
        return v

    for k in range(4):
        ch.op()
        if cfg["kind"] == "pre":
            opt.step(closure)
        else:
            closure()
            opt.step()
    ch.check(all(bool((p != q).all()) for p, q in zip(lin.parameters(), theta0)), "the optimiser does not move the model")
    if rho > 0:
        ch.check(float(dual.lam) != lam0, "the optimiser does not move the multiplier")
    else:
        ch.check(float(dual.lam) == 0., f"multiplier {float(dual.lam)} at radius 0")
    ch.check((float(dual.rho), float(dual.epsilon)) == hyper0, "the optimiser moved the radius or temperature")
    if cfg["kind"] == "post" and cfg["adapt"]:
        ch.check(hasattr(opt, "reset_lbd_state"), "not a composite optimiser")
    ch.raises(AttributeError, lambda: (setattr(dual, "optimizer", None), dual.optimizer), "missing optimiser")
    ch.state(rho)


HARNESSES = dict(lockstep=h_lockstep, run=h_run, names=h_names, wired=h_wired)
