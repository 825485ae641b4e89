"""P15: hybrid optimisers, usual optimisers in the geometry asked for per group."""
import itertools

import torch as pt

from .. import util as U

TITLE = ("all combinations of group rules and all gradient/operation sequences up to a depth on the real hybrid optimisers, in "
         "lock-step with plain torch optimisers acting on transformed variables")
ASSUMPTIONS = ["torch's SGD and Adam are trusted"]
BOUNDS = {"quick": "2 optimisers x 4 settings x 6 rules (+ pairs of groups), 5 gradients, depth 4; 6 shapes of parameters; 3 options per group; all pairs/triples of rules in one group; closures with gradients on and off; histories that add groups, change rates, save and restore"}

RULES = (None, "mwu", "mwu_simplex", "non_neg", "max", "bound")


def tasks(tier):
    depth = 4 if tier == "quick" else 6
    for base, rule in itertools.product(("SGD", "SGDm", "Adam", "AdamW0"), RULES):
        yield "lockstep", dict(base=base, rules=[rule], depth=depth)
    for base, r1, r2 in itertools.product(("SGD", "Adam"), RULES, RULES):
        yield "lockstep", dict(base=base, rules=[r1, r2], depth=depth - 1)
    yield "lockstep", dict(base="SGD", rules=list(RULES), depth=depth - 1)
    yield "lockstep", dict(base="Adam", rules=list(RULES), depth=depth - 1)
    for base, rule in itertools.product(("SGD", "Adam"), RULES):
        yield "lockstep", dict(base=base, rules=[rule], depth=2, shapes=[list(t) for t in SHAPES])
        for i in range(1, len(OWN)):
            yield "lockstep", dict(base=base, rules=[None, rule], depth=2, own=OWN[i])
    for base in ("SGD", "Adam"):
        yield "combined", dict(base=base)
        yield "domain", dict(base=base)
        yield "closure", dict(base=base)
        for rule in RULES:
            yield "changing", dict(base=base, rule=rule, depth=depth)


def kw(base):
    return {"SGD": dict(lr=.25), "SGDm": dict(lr=.25, momentum=.5), "Adam": dict(lr=.1), "AdamW0": dict(lr=.1, betas=(.5, .9))}[base]


def make(base, groups):
    from skwdro.solvers.hybrid_opt import HybridAdam, HybridSGD
    return (HybridSGD if base.startswith("SGD") else HybridAdam)(groups, **kw(base))


def plain(base, params):
    return (pt.optim.SGD if base.startswith("SGD") else pt.optim.Adam)(params, **kw(base))


VEC = [.5, .25, 2.]


class RefGroup:
    """Plain optimiser on the transformed variable."""

    def __init__(self, base, rule, vals, **own):
        self.rule = rule
        self.p = [pt.as_tensor(v, dtype=pt.float64).clone() for v in vals]
        self.y = [pt.nn.Parameter(v.clone()) for v in self.p]
        self.o = plain(base, [dict(params=self.y, **own)])

    def step(self, grads):
        with pt.no_grad():
            for y, p, g in zip(self.y, self.p, grads):
                y.copy_(p.log() if self.rule in ("mwu", "mwu_simplex") else -p if self.rule == "max" else p)
                y.grad = None if g is None else (g.clamp(-100., 100.) if self.rule == "bound" else g.clone())
        self.o.step()
        with pt.no_grad():
            for i, y in enumerate(self.y):
                v = y.detach().clone()
                if self.rule in ("mwu", "mwu_simplex"):
                    v = v.exp()
                    if self.rule == "mwu_simplex":
                        v = v / v.sum()
                elif self.rule == "max":
                    v = -v
                elif self.rule == "non_neg":
                    v = v.clamp(min=0.)
                self.p[i] = v


GRADS = {"a": (1., -2., .5), "b": (-.3, 0., 4.), "big": (150., -700., 99.), "tiny": (1e-6, -1e-6, 0.), "zero": (0., 0., 0.)}


SHAPES = ((3,), (1,), (2, 2), (), (1, 3), (2, 1, 2))
OWN = (dict(), dict(lr=.05), dict(weight_decay=.5), dict(maximize=True))


def start(shape):
    n = int(pt.Size(shape).numel())
    return (pt.tensor((VEC * 2)[:n], dtype=pt.float64) if n > 1 else pt.tensor([1.5], dtype=pt.float64)).reshape(shape)


def shaped(g, shape, k):
    """Gradient of a given shape out of three numbers."""
    n = int(pt.Size(shape).numel())
    return (g.repeat(2).roll(k)[:n] * (1. if n == 3 else 2.)).reshape(shape)


def h_lockstep(cfg, ch):
    params, groups, refs = [], [], []
    shapes = [(3,), (1,)] if cfg.get("shapes") is None else [tuple(t) for t in cfg["shapes"]]
    own = dict(cfg.get("own") or {})
    vals = [start(t) for t in shapes]
    for i, r in enumerate(cfg["rules"]):
        ps = [pt.nn.Parameter(v.clone()) for v in vals]
        params.append(ps)
        o = own if i == len(cfg["rules"]) - 1 else {}
        g = {"params": ps} | o
        if r:
            g[r] = True
        groups.append(g)
        refs.append(RefGroup(cfg["base"], r, vals, **o))
    opt = make(cfg["base"], groups)
    for k in range(cfg["depth"]):
        a = ch.choose(f"g{k}", list(GRADS) if len(cfg["rules"]) < 3 else ("a", "b", "big"))
        ch.op()
        g = pt.tensor(GRADS[a], dtype=pt.float64)
        if a == "big" and any(r in ("mwu", "mwu_simplex") for r in cfg["rules"]) and cfg["base"].startswith("SGD"):
            g = g / 100.       # keep multiplicative weights inside the range of the arithmetic
        opt.zero_grad()
        gs = [shaped(g, t, i) for i, t in enumerate(shapes)]
        for ps, ref in zip(params, refs):
            for p, gg in zip(ps, gs):
                p.grad = gg.clone()
            ref.step(gs)
        opt.step()
        for ps, ref, r in zip(params, refs, cfg["rules"]):
            for p, q in zip(ps, ref.p):
                ch.close(p, q, f"{cfg['base']} step with rule {r}", rtol=1e-9, atol=1e-12)
                if r in ("mwu", "mwu_simplex"):
                    ch.check(bool((p > 0).all()), f"{r}: parameters {p.tolist()} left the positive orthant")
                if r == "mwu_simplex":
                    ch.check(abs(float(p.sum()) - 1.) < 1e-9, f"{r}: parameters sum to {float(p.sum())}")
                if r == "non_neg":
                    ch.check(bool((p >= 0).all()), f"{r}: negative parameters {p.tolist()}")
                ch.check(p.requires_grad and p.is_leaf, f"{r}: parameter is no longer a trainable leaf")
        ch.state(k, a, [[p.tolist() for p in ps] for ps in params])


def h_combined(cfg, ch):
    """Several rules in one group: refused when they clash, composed otherwise."""
    rules = ch.choose("rules", [c for n in (2, 3) for c in itertools.combinations(RULES[1:], n)])
    pre = set(rules) & {"mwu", "mwu_simplex", "max", "bound"}
    post = set(rules) & {"mwu", "mwu_simplex", "max", "non_neg"}
    p = pt.nn.Parameter(pt.tensor(VEC, dtype=pt.float64))
    opt = make(cfg["base"], [dict(params=[p], **{r: True for r in rules})])
    p.grad = pt.tensor([500., -500., 1.], dtype=pt.float64)
    ch.op()
    if len(pre) > 1 or len(post) > 1:
        ch.raises(AssertionError, opt.step, f"rules {rules}")
    else:     # bound + non_neg
        ref = RefGroup(cfg["base"], "bound", [VEC])
        opt.step()
        ref.step([pt.tensor([500., -500., 1.], dtype=pt.float64)])
        ch.close(p, ref.p[0].clamp(min=0.), f"rules {rules}", rtol=1e-9)
    ch.state(rules)


def h_domain(cfg, ch):
    """Multiplicative rules refuse parameters outside of their domain; missing gradients are skipped."""
    what = ch.choose("what", ("zero", "negative", "no gradient"))
    if what == "no gradient":
        rule = ch.choose("rule", RULES)
        p, q = (pt.nn.Parameter(pt.tensor(VEC, dtype=pt.float64)) for _ in range(2))
        opt = make(cfg["base"], [dict(params=[p, q], **({rule: True} if rule else {}))])
        p.grad = pt.tensor([1., 2., 3.], dtype=pt.float64)
        ch.op()
        opt.step()
        want = pt.tensor(VEC, dtype=pt.float64)
        if rule == "mwu_simplex":
            want = want / want.sum()
        ch.close(q, want, f"parameter without gradient, rule {rule}", rtol=1e-9)
        ch.check(bool((p != pt.tensor(VEC, dtype=pt.float64)).any()), "parameter with gradient did not move")
        ch.state(what, rule)
        return
    rule = ch.choose("rule", ("mwu", "mwu_simplex"))
    at = ch.choose("at", (0, 1, 2))
    v = list(VEC)
    v[at] = 0. if what == "zero" else -1.
    p = pt.nn.Parameter(pt.tensor(v, dtype=pt.float64))
    opt = make(cfg["base"], [dict(params=[p], **{rule: True})])
    p.grad = pt.ones(3, dtype=pt.float64)
    ch.op()
    ch.raises(AssertionError, opt.step, f"{rule} with {v}")
    ch.check(p.tolist() == v, f"{rule}: refused parameters were modified")
    ch.state(what, rule, at)


def h_changing(cfg, ch):
    """Groups added, rates changed, states saved and restored between the steps."""
    rule, base = cfg["rule"], cfg["base"]
    own = {rule: True} if rule else {}
    ps = [[pt.nn.Parameter(pt.tensor(VEC, dtype=pt.float64))]]
    opt = make(base, [dict(params=ps[0])])
    refs = [RefGroup(base, None, [VEC])]
    for k in range(cfg["depth"]):
        a = ch.choose(f"op{k}", ("step", "step back", "add group", "rate", "restored in another"))
        ch.op()
        if a == "add group":
            if len(ps) == 3:
                return
            r = rule if len(ps) == 1 else None
            ps.append([pt.nn.Parameter(pt.tensor(VEC, dtype=pt.float64))])
            opt.add_param_group(dict(params=ps[-1], **(own if r else {})))
            refs.append(RefGroup(base, r, [VEC]))
        elif a == "rate":
            opt.param_groups[-1]["lr"] = .03
            refs[-1].o.param_groups[0]["lr"] = .03
        elif a.startswith("restored"):
            other = make(base, [dict(params=q, **(own if i == 1 else {})) for i, q in enumerate(ps)])
            other.load_state_dict(opt.state_dict())
            opt = other
        else:
            g = pt.tensor(GRADS["a" if a == "step" else "b"], dtype=pt.float64)
            opt.zero_grad()
            for q, ref in zip(ps, refs):
                q[0].grad = g.clone()
                ref.step([g])
            opt.step()
        for i, (q, ref) in enumerate(zip(ps, refs)):
            ch.close(q[0], ref.p[0], f"{base}, group {i} with rule {ref.rule} after '{a}'", rtol=1e-9, atol=1e-12)
    ch.state([q[0].tolist() for q in ps])


def h_closure(cfg, ch):
    """A closure evaluates the objective at the parameters themselves."""
    rule = ch.choose("rule", RULES)
    p = pt.nn.Parameter(pt.tensor(VEC, dtype=pt.float64))
    opt = make(cfg["base"], [dict(params=[p], **({rule: True} if rule else {}))])
    ref = RefGroup(cfg["base"], rule, [VEC])
    seen = []
    off = ch.choose("gradients", (False, True))          # torch's optimisers turn gradients on for the closure

    def closure():
        opt.zero_grad()
        seen.append(p.detach().clone())
        v = (p ** 2).sum()
        v.backward()
        return v

    for k in range(3):
        before = p.detach().clone()
        ch.op()
        with (pt.no_grad if off else pt.enable_grad)():
            r = opt.step(closure)
            ch.check(pt.is_grad_enabled() != off, "the step changed the gradient mode")
        ch.check(len(seen) == k + 1, f"closure evaluated {len(seen) - k} times")
        ch.close(seen[-1], before, f"rule {rule}: closure evaluated elsewhere", rtol=1e-12)
        ref.step([2 * before])
        ch.close(p, ref.p[0], f"rule {rule}: step with closure", rtol=1e-9)
        ch.check(r is not None, "step with closure returns no objective")
        ch.close(r, (before ** 2).sum(), "objective returned by the step", rtol=1e-9)
    ch.state(rule)


HARNESSES = dict(lockstep=h_lockstep, combined=h_combined, domain=h_domain, closure=h_closure, changing=h_changing)
