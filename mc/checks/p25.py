"""P25: solver results carry every returned quantity under its name; empirical distributions keep their data."""
import itertools

import numpy as np

from .. import util as U

TITLE = ("all shapes of solver outputs (every tuple length, every ordered choice of named quantities, results, invalid values) through "
         "the real result wrapper; all histories of accesses and assignments on empirical distributions against a dictionary model")
ASSUMPTIONS = ["data given to a distribution are arrays; only assignments are type-checked"]
BOUNDS = {"quick": "tuples of 0-6 entries x 4 kinds of values, ordered selections of up to 4 of 6 names, 13 invalid outputs; "
                   "distribution histories of depth 4 over 13 operations; arrays of 1 to 40000 entries"}

NAMES = ("coef", "intercept", "dual_var", "robust_loss", "tau", "n_steps")


def tasks(tier):
    yield "tuples", dict()
    yield "names", dict(k=4 if tier == "quick" else 5)
    yield "direct", dict(k=4 if tier == "quick" else 6)
    yield "invalid", dict()
    for lab in (True, False):
        yield "size", dict(lab=lab)
    for lab, first in itertools.product((True, False), range(len(OPS))):
        yield "history", dict(lab=lab, first=first, depth=3 if tier == "quick" else 4)


def value(kind, i):
    return dict(array=np.arange(3.) + i, number=.5 + i, none=None, tuple=(i, i + 1))[kind]


def wrap(out, **deco):
    from skwdro.solvers.result import wrap_solver_result

    def my_solver(*args, **kwargs):
        "documentation"
        my_solver.seen = (args, kwargs)
        return out
    w = wrap_solver_result(my_solver)
    return w, my_solver


def same(a, b):
    return a is b or (type(a) is type(b) and np.array_equal(a, b))


def expect(ch, r, want, order, what):
    for n in ("coef", "intercept", "dual_var", "robust_loss"):
        ch.check(same(getattr(r, n), want.get(n)), f"{what}: {n} is {getattr(r, n)!r}, returned {want.get(n)!r}")
    for n in want:
        ch.check(same(getattr(r, n), want[n]), f"{what}: {n} is {getattr(r, n)!r}, returned {want[n]!r}")
    for _ in range(2):          # iterating does not use the result up
        got = list(r)
        ch.check(len(got) == len(order) and all(same(a, want[n]) for a, n in zip(got, order)),
                 f"{what}: unpacks to {got}, expected {[want[n] for n in order]}")


def h_tuples(cfg, ch):
    from skwdro.solvers.result import SolverResult
    n = ch.choose("n", range(0, 7))
    kinds = [ch.choose(f"v{i}", ("array", "number", "none", "tuple")) for i in range(n)] if n <= 4 else ["number"] * n
    vals = tuple(value(k, i) for i, k in enumerate(kinds))
    args = ch.choose("args", ((), (1, "a")))
    ch.op()
    w, f = wrap(vals)
    ch.check(w.__name__ == "my_solver" and w.__doc__ == "documentation", "the wrapped solver lost its name or documentation")
    if n == 0 or n > 4:
        ch.raises((AssertionError, RuntimeError, ValueError), lambda: w(*args), f"tuple of {n} entries")
        ch.state(n)
        return
    r = w(*args, key=3)
    ch.check(f.seen == (args, dict(key=3)), f"solver called with {f.seen}")
    ch.check(isinstance(r, SolverResult), f"result of type {type(r).__name__}")
    order = {1: ("coef",), 2: ("coef", "dual_var"), 3: ("coef", "intercept", "dual_var"),
             4: ("coef", "intercept", "dual_var", "robust_loss")}[n]
    expect(ch, r, dict(zip(order, vals)), order, f"tuple of {n} entries")
    # a second call gives an independent result
    r2 = w(*args)
    r2.coef = "other"
    expect(ch, r, dict(zip(order, vals)), order, f"tuple of {n} entries, after another call")
    ch.state(n, kinds)


def pick(ch, k):
    order, rest = [], list(NAMES)
    for i in range(k):
        c = ch.choose(f"name{i}", [None] + rest)
        if c is None:
            break
        order.append(c)
        rest.remove(c)
    return order


def h_names(cfg, ch):
    order = pick(ch, cfg["k"])
    want = {n: value("array" if i % 2 else "number", i) for i, n in enumerate(order)}
    ch.op()
    w, _ = wrap(dict(want))
    r = w()
    expect(ch, r, want, order, f"quantities {order}")
    # results are passed on as they are, also by a second wrapper
    from skwdro.solvers.result import wrap_solver_result
    ch.check(wrap(r)[0]() is r, "a solver result was not passed on as it is")
    rr = wrap_solver_result(w)()
    expect(ch, rr, want, order, f"quantities {order}, wrapped twice")
    ch.state(order)


def h_direct(cfg, ch):
    """Results built directly."""
    from skwdro.solvers.result import SolverResult
    order = pick(ch, cfg["k"])
    want = {n: value("number", i) for i, n in enumerate(order)}
    it = ch.choose("iter", (None, "given", "reversed"))
    ch.op()
    if it is None:
        r = SolverResult(**want)
        seq = ("coef", "intercept", "dual_var")
        expect(ch, r, {**dict.fromkeys(seq), **want}, seq, f"result of {order}")
    else:
        seq = order if it == "given" else order[::-1]
        r = SolverResult(**want, _iter_attrs=list(seq))
        expect(ch, r, want, seq, f"result of {order} iterated {it}")
        other = SolverResult(coef=1)
        ch.check(list(other) == [1, None, None], "iteration order leaked into another result")
    ch.state(order, it)


def h_invalid(cfg, ch):
    from skwdro.solvers.result import SolverResult
    k = ch.choose("out", range(13))
    out = (None, 1., "abc", [1, 2], {1, 2}, np.zeros(3), (), (1,) * 5, (1,) * 6, True, iter([1]), b"x", SolverResult)[k]
    ch.op()
    w, _ = wrap(out)
    ch.raises((RuntimeError, AssertionError, ValueError, TypeError), w, f"solver returning {out!r}")
    ch.state(k)


# --------------------------------------------------------------- distributions
OPS = ("get samples", "get samples_x", "get samples_y", "set samples", "set samples_x", "set samples_y",
       "set samples list", "set samples_x list", "set samples_y tensor", "set samples_x None", "caller edits x", "caller edits y",
       "other object")


def h_history(cfg, ch):
    import torch as pt
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    lab = cfg["lab"]
    order = ch.choose("order", ("C", "F"))
    x = np.array(U.grid(3, 2).numpy(), dtype=ch.choose("dtype", ("float64", "float32")), order=order)
    y = np.array(U.grid(3, 1, k=1).numpy())
    x0, y0 = x.copy(), y.copy()
    named = ch.choose("name", (True, False))
    kw = dict(name="mine") if named else {}
    d = EmpiricalDistributionWithLabels(m=3, samples_x=x, samples_y=y, **kw) if lab else \
        EmpiricalDistributionWithoutLabels(m=3, samples=x, **kw)
    ch.check(d.m == 3 and d.with_labels is lab and d.empirical is True and isinstance(d.name, str) and (d.name == "mine" or not named),
             f"attributes m={d.m} with_labels={d.with_labels} name={d.name!r}")
    model = dict(samples_x=x0.copy(), samples_y=y0.copy()) if lab else dict(samples=x0.copy())
    live = dict() if lab else dict(samples=x)          # unlabelled data may be shared with the caller
    for k in range(cfg["depth"] + 1):
        a = OPS[cfg["first"]] if k == 0 else ch.choose(f"op{k}", OPS)
        ch.op()
        f = a.split()[1] if a.startswith(("get", "set")) else None
        if a.startswith("get"):
            if f in model:
                g = getattr(d, f)
                ch.check(isinstance(g, np.ndarray) and g.dtype == model[f].dtype and np.array_equal(g, model[f]), f"{f} changed")
            else:
                ch.raises(AttributeError, lambda: getattr(d, f), f"{f} of a distribution {'with' if lab else 'without'} labels")
        elif a.endswith(("list", "tensor", "None")):
            bad = dict(list=[[1., 2.]], tensor=pt.zeros(3, 1), **{"None": None})[a.split()[2]]
            ch.raises(TypeError, lambda: setattr(d, f, bad), a)
        elif a.startswith("set"):
            new = np.full((3, 2), float(k + 5))
            try:
                setattr(d, f, new)
            except AttributeError:
                ch.check(f not in model, f"{a} refused")
            else:
                if f in model:
                    model[f] = new.copy()
                    live.pop(f, None)
        elif a == "caller edits x":
            x += 1.
            if lab:
                pass
            elif "samples" in live:
                model["samples"] = np.array(d.samples)     # shared or not: both are fine, as long as it is one of them
                ch.check(np.array_equal(model["samples"], x) or np.array_equal(model["samples"], x0), "data are neither the given ones nor a copy")
        elif a == "caller edits y":
            y += 1.
        else:
            e = EmpiricalDistributionWithLabels(m=1, samples_x=np.zeros((1, 1)), samples_y=np.zeros((1, 1)))
            e.samples_x = np.ones((1, 1))
        for g in model:
            ch.check(np.array_equal(getattr(d, g), model[g]), f"after {a}: {g} is {getattr(d, g).tolist()}, expected {model[g].tolist()}")
    ch.state(cfg["first"], {k: v.tolist() for k, v in model.items()})


def h_size(cfg, ch):
    """Distributions of any size and shape keep their data."""
    from skwdro.base.problems import EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
    lab = cfg["lab"]
    m, d = ch.choose("shape", ((1, 1), (2, 3), (99, 1), (100, 1), (101, 2), (1000, 3), (20000, 2), (3, 5000)))
    dl = ch.choose("labels", (1, 4)) if lab else 0
    dt = ch.choose("dtype", ("float64", "float32", "int64"))
    x = (1e3 * U.grid(m, d, k=1).numpy()).astype(dt)
    y = (1e3 * U.grid(m, dl, k=2).numpy()).astype(dt) if lab else None
    x0, y0 = x.copy(), None if y is None else y.copy()
    ch.op()
    dist = EmpiricalDistributionWithLabels(m=m, samples_x=x, samples_y=y) if lab else EmpiricalDistributionWithoutLabels(m=m, samples=x)
    ch.check(dist.m == m and dist.with_labels is lab, f"m={dist.m}")
    for name, v in ((("samples_x", x0), ("samples_y", y0)) if lab else (("samples", x0),)):
        got = getattr(dist, name)
        ch.check(got.dtype == v.dtype and np.array_equal(got, v), f"{name} of shape {(m, d)} changed")
    if lab:
        x += 1
        y += 1
        ch.check(np.array_equal(dist.samples_x, x0) and np.array_equal(dist.samples_y, y0), f"data of shape {(m, d)}, {(m, dl)} follow the caller's array")
        new = x0 + 5
        dist.samples_x = new
        ch.check(np.array_equal(dist.samples_x, x0 + 5) and np.array_equal(dist.samples_y, y0), "assignment of samples_x")
        dist.samples_y = y0 - 3
        ch.check(np.array_equal(dist.samples_x, x0 + 5) and np.array_equal(dist.samples_y, y0 - 3), "assignment of samples_y")
    else:
        dist.samples = x0 + 5
        ch.check(np.array_equal(dist.samples, x0 + 5), "assignment of samples")
    ch.state(m, d, dl, dt)


HARNESSES = dict(size=h_size, tuples=h_tuples, names=h_names, direct=h_direct, invalid=h_invalid, history=h_history)
