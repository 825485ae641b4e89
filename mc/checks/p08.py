"""P08: evaluating, differentiating and initialising the robust loss leaves the
user's model, data and modes as they were."""
import itertools

import numpy as np
import torch as pt
import torch.nn as nn

from .. import util as U

TITLE = ("all histories, up to a depth, of evaluations, differentiations, multiplier "
         "initialisations and user-side freezing / mode switches on real dual losses, with a "
         "frame monitor on every parameter, buffer, flag, mode and input after each step")
ASSUMPTIONS = ["models: small network with dropout and batch normalisation, linear model, "
               "module used directly as loss"]
BOUNDS = {"quick": "pre/post x importance sampling x 3 models x 2 costs, 9 operations, depth 3; a model of 50 modules to depth 2"}


def tasks(tier):
    depth = 3 if tier == "quick" else 5
    for kind, imp, model, cost in itertools.product(
            ("pre", "post"), (True, False), ("net", "lin", "mod"), ("2-2", "1-1")):
        if imp and cost == "1-1":
            continue
        yield "frame", dict(kind=kind, imp=imp, model=model, cost=cost, depth=depth)
    for kind, imp, model, metric, adapt in itertools.product(
            ("pre", "post"), (True, False), ("net", "lin"), ("param",), ("prodigy", "mechanic", None)):
        if kind == "pre" and adapt != "prodigy":
            continue
        yield "frozen", dict(kind=kind, imp=imp, model=model, metric=metric, adapt=adapt)
    for kind, imp, model, metric, adapt in itertools.product(
            ("pre", "post"), (True, False), ("net", "lin"), ("param", "grad"), ("prodigy", "mechanic", None)):
        if kind == "post" or adapt == "prodigy":
            yield "kept", dict(kind=kind, imp=imp, model=model, metric=metric, adapt=adapt)
    for kind in ("pre", "post"):
        yield "frame", dict(kind=kind, imp=False, model="deep", cost="2-2", depth=2)
        yield "frozen", dict(kind=kind, imp=False, model="deep", metric="param", adapt="prodigy")
        yield "kept", dict(kind=kind, imp=False, model="deep", metric="param", adapt="prodigy")
    for kind, model in itertools.product(("pre", "post"), ("net", "lin", "mod")):
        yield "modes", dict(kind=kind, model=model)


def build(cfg, n_iter=10, adapt="prodigy"):
    from skwdro.torch import robustify
    pt.manual_seed(0)
    x = U.grid(4, 2, k=1)
    y = U.grid(4, 1, k=2)
    if cfg["model"] == "net":
        tr = nn.Sequential(nn.Linear(2, 3), nn.BatchNorm1d(3), nn.Dropout(.25), nn.Tanh(),
                           nn.Linear(3, 1))
        loss, lab = nn.MSELoss(reduction="none"), True
    elif cfg["model"] == "lin":
        tr, loss, lab = nn.Linear(2, 1), nn.MSELoss(reduction="none"), True
    elif cfg["model"] == "deep":
        tr = nn.Sequential(nn.Linear(2, 3), *[nn.Sequential(nn.Linear(3, 3), nn.BatchNorm1d(3), nn.Tanh(), nn.Dropout(.25)) for _ in range(12)],
                           nn.Linear(3, 1), nn.Dropout(.25))
        loss, lab = nn.MSELoss(reduction="none"), True
    else:
        tr, loss, lab = None, U.QuadModule(2), False
    cost = cfg.get("cost", "2-2")
    code = f"t-{'NLC' if lab else 'NC'}-{cost}" + ("-5" if lab else "")
    dual = robustify(loss, tr, pt.tensor(.3), x, y if lab else None, cfg["kind"] == "post", code, 3,
                     7, imp_samp=cfg.get("imp", True), n_iter=n_iter, adapt=adapt)
    user = tr if tr is not None else loss
    return dual, user, x, (y if lab else None)


def snapshot(dual, user):
    return dict(
        params={k: v.detach().clone() for k, v in user.named_parameters()},
        ids={k: id(v) for k, v in user.named_parameters()},
        rg={k: v.requires_grad for k, v in user.named_parameters()},
        grads={k: None if v.grad is None else v.grad.clone() for k, v in user.named_parameters()},
        buffers={k: v.clone() for k, v in user.named_buffers()},
        modes={k: m.training for k, m in user.named_modules()},
        dual=dict(rho=float(dual.rho), eps=float(dual.epsilon), erm=bool(dual.erm_mode),
                  imp=bool(dual.imp_samp), training=dual.training, red=dual.reduction,
                  lam=float(dual.lam), lamrg=U.lam_leaf(dual).requires_grad,
                  rhorg=dual.rho.requires_grad, epsrg=dual.epsilon.requires_grad),
    )


def same(a, b):
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and bool(((a == b) | (a.isnan() & b.isnan())).all())


def frame(ch, before, after, what, buffers=True, grads=True, lam=True):
    for k in before["params"]:
        ch.check(same(before["params"][k], after["params"][k]), f"{what}: parameter {k} was modified")
        ch.check(before["ids"][k] == after["ids"][k], f"{what}: parameter {k} was replaced")
        ch.check(before["rg"][k] == after["rg"][k],
                 f"{what}: trainability of {k} went from {before['rg'][k]} to {after['rg'][k]}")
        if grads:
            ch.check(same(before["grads"][k], after["grads"][k]), f"{what}: gradient of {k} was modified")
    if buffers:
        for k in before["buffers"]:
            ch.check(same(before["buffers"][k], after["buffers"][k]), f"{what}: buffer {k} was modified")
    ch.check(before["modes"] == after["modes"],
             f"{what}: training modes went from {before['modes']} to {after['modes']}")
    a, b = dict(before["dual"]), dict(after["dual"])
    if not lam:
        a.pop("lam"), b.pop("lam")
    ch.check(a == b, f"{what}: settings of the robust loss went from {a} to {b}")


def bn_frozen(user):
    return all(not m.training for m in user.modules() if isinstance(m, nn.BatchNorm1d))


def h_frame(cfg, ch):
    dual, user, x, y = build(cfg)
    post = cfg["kind"] == "post"
    z, t = dual.generate_zetas()
    z, t = z.detach().clone(), None if t is None else t.detach().clone()
    keep = [None if v is None else v.clone() for v in (x, y, z, t)]
    names = [k for k, _ in user.named_parameters()]
    stored = False
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("eval loss", "backward", "no_grad", "guess", "freeze first",
                                 "freeze last", "mode of a part", "eval()", "train()"))
        before = snapshot(dual, user)
        ch.op()
        if a in ("eval loss", "backward", "no_grad"):
            def f():
                return dual(x, y) if post else dual(x, y, z, t)
            buf = bn_frozen(user)
            if a == "eval loss":
                f()
                frame(ch, before, snapshot(dual, user), "evaluation", buffers=buf)
            elif a == "no_grad":
                with pt.no_grad():
                    f()
                ch.check(pt.is_grad_enabled(), "evaluation: autograd left disabled")
                frame(ch, before, snapshot(dual, user), "evaluation without gradients", buffers=buf)
            else:
                v = f()
                if v.requires_grad:
                    v.backward()
                after = snapshot(dual, user)
                frame(ch, before, after, "differentiation", grads=False, buffers=buf)
                for n_, p in user.named_parameters():
                    if not p.requires_grad:
                        ch.check(same(before["grads"][n_], after["grads"][n_]),
                                 f"differentiation: frozen {n_} received a gradient")
        elif a == "guess":
            dual.get_initial_guess_at_dual(x, y)
            frame(ch, before, snapshot(dual, user), "multiplier initialisation", lam=False)
        elif a.startswith("freeze"):
            p = dict(user.named_parameters())[names[0] if a == "freeze first" else names[-1]]
            p.requires_grad_(not p.requires_grad)
        elif a == "mode of a part":
            part = list(user.modules())[-1]
            part.train(not part.training)
        else:
            r = dual.eval() if a == "eval()" else dual.train()
            ch.check(r is dual, f"{a}: does not return the module")
            want = a == "train()"
            ch.check(dual.training == want and all(m.training == want for m in user.modules()),
                     f"{a}: modes are {snapshot(dual, user)['modes']}")
            after = snapshot(dual, user)
            for s in (before, after):
                s["modes"] = None
                s["dual"].pop("training")
            frame(ch, before, after, a)
        for v, w, nm in zip((x, y, z, t), keep, ("data", "labels", "samples", "label samples")):
            if v is not None:
                ch.check(same(v, w), f"{a}: the {nm} were modified")
        ch.state(k, a, [p.requires_grad for p in user.parameters()],
                 [m.training for m in user.modules()])


def h_modes(cfg, ch):
    """train(mode)/eval() follow torch's contract and never change the loss."""
    dual, user, x, y = build(dict(cfg, imp=False))
    parts = list(user.modules())
    for k in range(4):
        a = ch.choose(f"op{k}", ("train()", "train(True)", "train(False)", "eval()", "erm"))
        before = bool(dual.erm_mode)
        ch.op()
        if a == "erm":
            dual.erm_mode = not dual.erm_mode
            continue
        r = {"train()": lambda: dual.train(), "train(True)": lambda: dual.train(True),
             "train(False)": lambda: dual.train(False), "eval()": lambda: dual.eval()}[a]()
        want = a in ("train()", "train(True)")
        ch.check(r is dual, f"{a}: does not return the module")
        ch.check(dual.training is want and all(m.training is want for m in parts),
                 f"{a}: training flags are not {want}")
        ch.check(bool(dual.erm_mode) == before, f"{a}: switched between robust and empirical loss")
        ch.state(k, want, before)


def h_frozen(cfg, ch):
    """A solve moves trainable parameters only."""
    from skwdro.base.problems import EmpiricalDistributionWithLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    names = [k for k, _ in build(cfg)[1].named_parameters()]
    which = ch.choose("frozen", [(n,) for n in names] + [tuple(names[:2])] if len(names) > 2
                      else [(n,) for n in names])
    steps = ch.choose("steps", ((0, 2), (2, 3), (3, 1)))
    dual, user, x, y = build(cfg, n_iter=steps, adapt=cfg["adapt"])
    user.eval()
    P = dict(user.named_parameters())
    for w in which:
        P[w].requires_grad_(False)
    before = {k: v.detach().clone() for k, v in P.items()}
    emp = EmpiricalDistributionWithLabels(m=4, samples_x=x.numpy(), samples_y=y.numpy())
    ch.op()
    solve_dual_wdro(dual, emp, OptCondTorch(2, monitoring="theta", metric=cfg["metric"], tol_theta=1e-30))
    moved = False
    for k, v in user.named_parameters():
        if k in which:
            ch.check(same(before[k], v.detach()), f"solve: frozen parameter {k} moved")
            ch.check(not v.requires_grad, f"solve: frozen parameter {k} became trainable")
        else:
            ch.check(v.requires_grad, f"solve: parameter {k} became frozen")
            moved = moved or not same(before[k], v.detach())
    ch.check(moved, "solve: nothing moved")
    ch.state(which, steps)


def h_kept(cfg, ch):
    """A solve leaves the modes of the modules as it found them, and buffers of modules in evaluation mode alone."""
    from skwdro.base.problems import EmpiricalDistributionWithLabels
    from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
    from skwdro.solvers.optim_cond import OptCondTorch
    steps = ch.choose("steps", ((0, 1), (2, 3), (1, 2)))
    stop = ch.choose("tol", (0., 1e6))
    dual, user, x, y = build(cfg, n_iter=steps, adapt=cfg["adapt"])
    mods = list(dual.modules())
    how = ch.choose("modes", ("train", "eval", "model eval", "first part eval", "last part eval"))
    if how in ("train", "eval"):
        dual.train(how == "train")
    else:
        dual.train()
        parts = list(user.modules())
        for m in parts if how == "model eval" else parts[:1] if how.startswith("first") else parts[-2:]:
            m.training = False
    before = [m.training for m in mods]
    frozen = {k: v.clone() for k, v in user.named_buffers()} if how in ("eval", "model eval") else {}
    emp = EmpiricalDistributionWithLabels(m=4, samples_x=x.numpy(), samples_y=y.numpy())
    ch.op()
    solve_dual_wdro(dual, emp, OptCondTorch(2, stop, stop, mode="abs", monitoring="theta", metric=cfg["metric"]))
    after = [m.training for m in mods]
    ch.check(before == after, lambda: f"solve: training flags {before} became {after}")
    for k, v in user.named_buffers():
        if k in frozen:
            ch.check(same(frozen[k], v), f"solve: buffer {k} of a module in evaluation mode changed")
    ch.state(steps, how, stop)


HARNESSES = dict(kept=h_kept, frame=h_frame, modes=h_modes, frozen=h_frozen)
