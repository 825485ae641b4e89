"""P21: the dedicated solvers of the operations research models are optimal."""
import itertools

import numpy as np

from .. import est as E, util as U

TITLE = ("all multisets of demands / small return matrices, radii, prices, risk parameters, norms and supports within bounds, the decision of the real "
         "dedicated solvers compared, on the exact worst-case objective, with every decision of a lattice containing the breakpoints")
ASSUMPTIONS = ["the worst-case expectations are evaluated exactly by enumerating the breakpoints of their piecewise linear duals",
               "tolerance 1e-4 (newsvendor, relative to u) and 1e-5 (portfolio), that of the solvers"]
BOUNDS = {"quick": "all multisets of 1..5 of 5 demands, 6 radii, 5 prices; 2-3 assets, 1..5 scenarios, 5 norms, 4 radii, 5 risks, 4 box supports; lattice step 1/10; 60-300 demands of 3 profiles, 60 scenarios"}


def tasks(tier):
    for n in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for ku in ((5., 7.), (1., 2.), (2., 2.), (3., 1.), (0., 1.)):
            yield "newsvendor", dict(n=n, ku=list(ku), full=tier != "quick")
            if n == 1:
                yield "newsvendor", dict(n=60, ku=list(ku), full=False)
                yield "newsvendor", dict(n=300, ku=list(ku), full=False)
                if ku[0] < ku[1]:
                    yield "saa", dict(n=130, ku=list(ku))
            if ku[0] < ku[1]:
                yield "saa", dict(n=n, ku=list(ku))
    for d, n in itertools.product((1, 2, 3), (1, 2, 5) if tier == "quick" else (1, 2, 3, 5, 9)):
        for risk in ((0., .95), (1., .5), (5., .1), (.5, 1.)):
            yield "portfolio", dict(d=d, n=n, risk=list(risk))
            if n == 1 and d < 3:
                yield "portfolio", dict(d=d, n=60, risk=list(risk))


def demands(ch, vals, n):
    if n <= 6:
        return np.array(ch.choose("z", list(itertools.combinations_with_replacement(vals, n))))
    how = ch.choose("z", ("spread", "skewed", "two values"))
    i = np.arange(n)
    return np.sort({"spread": i * 37 % n / n * 5., "skewed": (i * 11 % n / n) ** 3 * 40., "two values": 1. + 3. * (i % 3 == 0)}[how])


def news_worst(theta, z, k, u, rho):
    """sup over W1-ball, demands >= 0, of E[k theta - u min(theta, demand)]."""
    lams = np.array(sorted({0., u, *(u * min(theta, zi) / zi for zi in z.tolist() if zi > 0)}))
    lams = lams[(lams >= 0.) & (lams <= u + 1e-12)][:, None]
    return k * theta + float((lams * rho + np.maximum(-u * np.minimum(theta, z)[None], -lams * z[None]).mean(1, keepdims=True)).min())


def h_newsvendor(cfg, ch):
    from skwdro.operations_research import NewsVendor
    k, u = cfg["ku"]
    rho = ch.choose("rho", (0., .05, .4, 1., 2.5, 10.))
    vals = (0., .5, 1., 2., 4.) if cfg["n"] < 5 or cfg["full"] else (.5, 1., 4.)
    z = demands(ch, vals, cfg["n"])
    order = ch.choose("order", ("up", "down", "two columns"))
    ch.op()
    X = z[:, None]
    if order == "down":
        X = X[::-1].copy()
    elif order == "two columns":
        X = np.c_[X - .25, X + .25]
    e = NewsVendor(rho=rho, k=k, u=u, solver="dedicated")
    E.fit(e, X, None)
    th = float(np.ravel(e.coef_)[0])
    ch.check(np.isfinite(th) and th >= -1e-6 * (1 + z.max()), f"newsvendor: decision {th}")
    f = news_worst(max(th, 0.), z, k, u, rho)
    tol = 1e-4 * u
    for c in sorted({0., *z[::max(1, len(z) // 20)].tolist(), *np.linspace(0., z.max(), 21).tolist()}):
        g = news_worst(c, z, k, u, rho)
        ch.check(g >= f - tol, f"newsvendor: demand {z.tolist()}, k={k}, u={u}, rho={rho}: ordering {c} has worst-case loss {g}, the fit ({th}) has {f}")
    ch.state(rho, z.tolist(), round(th, 6))


def h_saa(cfg, ch):
    """The sample-average solvers minimise the empirical loss."""
    from skwdro.solvers import specific_solvers as S
    k, u = cfg["ku"]
    z = demands(ch, (0., .5, 1., 4.), cfg["n"])
    which = ch.choose("solver", ("SAANewsvendorSpecificSolver", "SAANewsvendorSpecificSolver2"))
    X = z[:, None][::-1].copy() if ch.choose("order", ("up", "down")) == "down" else z[:, None].copy()
    X0 = X.copy()
    ch.op()
    r = getattr(S, which)(k=k, u=u, samples=X)
    th = float(np.ravel(r.coef)[0])
    ch.check(bool((X == X0).all()), f"{which} modified the demands")

    def risk(t):
        return float(np.mean([k * t - u * min(t, zi) for zi in z]))
    f = risk(th)
    ch.check(np.isfinite(th) and th >= -1e-4 * (1. + z.max()), f"{which}: decision {th}")
    for c in sorted({0., *z.tolist(), *np.linspace(0., z.max(), 21).tolist()}):
        ch.check(risk(c) >= f - 1e-4 * u, f"{which}: demand {z.tolist()}, k={k}, u={u}: ordering {c} costs {risk(c)}, the solution ({th}) {f}")
    ch.state(z.tolist(), which)


def port_value(theta, tau, X, eta, alpha, rho, q, box):
    """Worst-case mean-risk loss of (theta, tau) over the ball (and support)."""
    a = (-1., -1. - eta / alpha)
    b = (eta, eta * (1. - 1. / alpha))
    if box is None:
        n = np.abs(theta).max() if q == np.inf else (np.abs(theta) ** q).sum() ** (1. / q)
        lam = max(abs(a[0]), abs(a[1])) * n
        return lam * rho + np.mean([max(b[k] * tau + a[k] * (theta @ x) for k in (0, 1)) for x in X])
    lo, hi = box      # 1-norm: the coordinates separate

    def value(lams):
        tot = np.zeros_like(lams)
        for x in X:
            best = None
            for k in (0, 1):
                c = a[k] * theta
                g = np.full_like(lams, b[k] * tau + c @ x)
                for j in range(len(theta)):
                    g += np.maximum(0., np.maximum((c[j] - lams) * (hi - x[j]), (-c[j] - lams) * (x[j] - lo)))
                best = g if best is None else np.maximum(best, g)
            tot += best
        return lams * rho + tot / len(X)

    # convex in the multiplier: refine the scan around its minimiser
    lo_, hi_ = 0., max(abs(a[0]), abs(a[1])) * np.abs(theta).max()
    for _ in range(4):
        lams = np.linspace(lo_, hi_, 41)
        v = value(lams)
        i = int(np.argmin(v))
        lo_, hi_ = lams[max(i - 1, 0)], lams[min(i + 1, 40)]
    return float(v.min())


def simplex(d, step):
    for c in itertools.product(range(step + 1), repeat=d - 1):
        if sum(c) <= step:
            yield np.array(list(c) + [step - sum(c)]) / step


def h_portfolio(cfg, ch):
    from skwdro.operations_research import Portfolio
    d, n = cfg["d"], cfg["n"]
    eta, alpha = cfg["risk"]
    norm = ch.choose("norm", ("1", "2", "inf", "3", "1.5"))
    rho = ch.choose("rho", (0., .1, 1., 20.))
    k = ch.choose("data", (0, 1))
    sup = ch.choose("support", (None, (-2., 2.), (-1.5, 1.5), (-3., 10.)) if norm == "1" and n < 60 else (None,))
    X = U.lattice(n, d, k=k)
    ch.op()
    kw = {}
    if sup is not None:
        kw = dict(C=np.vstack([np.eye(d), -np.eye(d)]), d=np.r_[np.full(d, sup[1]), np.full(d, -sup[0])])
    e = Portfolio(rho=rho, eta=eta, alpha=alpha, cost=f"t-NC-1-{norm}", solver="dedicated", **kw)
    E.fit(e, X, None)
    th = np.ravel(e.coef_).astype(float)
    tau = float(np.ravel(e.tau_)[0])
    ch.check(th.shape == (d,) and abs(th.sum() - 1.) < 1e-5 and bool((th >= -1e-5).all()), f"portfolio: weights {th.tolist()}")
    q = {"1": np.inf, "2": 2., "inf": 1., "3": 1.5, "1.5": 3.}[norm]
    f = port_value(th, tau, X, eta, alpha, rho, q, sup)
    tol = 2e-4
    ch.close(np.ravel(e.result_)[0], f, f"portfolio: announced worst-case loss (norm {norm}, support {sup})", rtol=tol, atol=tol)
    ch.check(float(np.ravel(e.result_)[0]) <= f + 1e-4 * (1 + abs(f)), f"portfolio: announced loss {e.result_} above the worst case {f}")
    lam = float(np.ravel(e.dual_var_)[0])
    ch.check(lam >= -1e-6, f"portfolio: multiplier {lam}")
    step = 10 if sup is None else 5
    for t in simplex(d, step):
        r = -(X @ t)
        for c in ([0.] if eta == 0. else r[::max(1, n // 8)].tolist() + [tau] + ([-sup[0], -sup[1]] if sup else [])):
            g = port_value(t, c, X, eta, alpha, rho, q, sup)
            ch.check(g >= float(np.ravel(e.result_)[0]) - 1e-4 * (1 + abs(g)),
                     f"portfolio: weights {t.tolist()} have worst-case loss {g}, the fit {th.tolist()} announces {np.ravel(e.result_)[0]}")
    ch.state(norm, rho, k, sup, [round(x, 5) for x in th])


HARNESSES = dict(saa=h_saa, newsvendor=h_newsvendor, portfolio=h_portfolio)
