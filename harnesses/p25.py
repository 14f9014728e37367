"""P25: the initial Lipschitz search."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import Smooth, same_vec

ASSUMPTIONS = ["The objective is an arbitrary function; runs needing more evaluations than the bound are cut."]


def near(a, b):
    return abs(a - b) <= 1e-9 * abs(b)


def search(ctx, n, limit, via):
    S = Smooth(ctx, n, limit)
    x0 = ctx.vec("x0", n)
    keep = x0.copy()
    f = getattr(ctx.cp.utils, "init_lipschitz", None)
    if f is None:
        raise E.Unsupported("init_lipschitz is gone")
    L = f(S.f_grad, x0)
    L = float(L)
    ctx.same("start unchanged", list(x0), list(keep))
    j = 0
    while j < 120 and not near(1e-3 * 10.0 ** j, L):
        j += 1
    ctx.check("positive power of ten multiple of 1e-3", L > 0 and j < 120)
    f0, g0 = S.at(list(keep))
    # the points a smaller estimate would have tried, and the returned one
    for k in range(j + 1):
        Lk = 1e-3 * 10.0 ** k
        pts = [p for p in S.points if _at(ctx, p, keep, g0, Lk)]
        ctx.check("every estimate up to the returned one was tried", bool(pts))
        if not pts:
            return
        fk = S.at(pts[0])[0]
        if k < j:
            ctx.check("no smaller estimate qualifies", Lt(f0, fk))
        else:
            ctx.check("the returned estimate does not increase the objective", Le(fk, f0))


def _at(ctx, p, x, g, L):
    """p = x - g/L up to rounding of the estimate"""
    if ctx.mode == "conc":
        return bool(np.allclose(np.array(p, dtype=float), np.array([a - b / L for a, b in zip(x, g)], dtype=float), rtol=1e-9, atol=1e-9))
    # coefficients of the estimate are floats: compare the displacement against g within 1e-9 relative
    for q, a, b in zip(p, x, g):
        if not ctx.e.identical(q, a - b * (1.0 / L)) and not _close(ctx, q, a, b, L):
            return False
    return True


def _close(ctx, q, a, b, L):
    d = a - q
    e = ctx.e
    # |d*L - b| <= 1e-9 |b| for all values: d is a constant multiple of b, so test at b = 1
    import z3
    t = z3.simplify(z3.substitute(E.term(d), (E.term(b), z3.RealVal(1)), (E.term(a), z3.RealVal(0))))
    if not z3.is_rational_value(t):
        return False
    lin = z3.simplify(E.term(d) - t * E.term(b), som=True)
    return z3.is_rational_value(lin) and lin.as_fraction() == 0 and near(float(t.as_fraction()) * L, 1.0)


def late(ctx, g, trials):
    """the first qualifying estimate may come late: one unknown value per trial point, start and gradient fixed"""
    vals = {}

    def value(k):
        if k not in vals:
            vals[k] = ctx.real("f%s" % k)
        return vals[k]

    def index(x):
        """number of the trial point (or "x0")"""
        if all(float(t) == 0 for t in x):
            return "x0"
        L = -g[0] / float(x[0])
        k = int(round(np.log10(L * 1e3)))
        if k < 0 or not near(1e-3 * 10.0 ** k, L) or any(not near(-b / L, float(t)) for b, t in zip(g, x)):
            return "off"
        return k
    tried = []

    def fg(x):
        k = index(x)
        tried.append(k)
        if k != "x0" and k != "off" and k >= trials:
            raise E.PathCut("more than %d trials" % trials)
        return value(k), ctx.array(list(g))
    L = float(ctx.cp.utils.init_lipschitz(fg, ctx.array([0.0] * len(g))))
    j = 0
    while j < 120 and not near(1e-3 * 10.0 ** j, L):
        j += 1
    ctx.check("positive power of ten multiple of 1e-3", L > 0 and j < 120)
    ctx.check("every estimate up to the returned one was tried", all(k in tried for k in range(j + 1)))
    for k in range(j):
        ctx.check("no smaller estimate qualifies", Lt(value("x0"), value(k)))
    ctx.check("the returned estimate does not increase the objective", Le(value(j), value("x0")))


def exhausted(ctx, n):
    """an objective that always increases: the search ends by itself"""
    x0 = ctx.vec("x0", n)
    g = ctx.vec("g", n)
    cnt = [0]

    def fg(x):
        cnt[0] += 1
        if cnt[0] > 200:
            raise E.PathCut("does not end")
        return float(cnt[0]), g
    try:
        L = ctx.cp.utils.init_lipschitz(fg, x0)
    except E.PathCut:
        ctx.check("the search ends", False)
        return
    ctx.check("the search ends", True)
    ctx.check("positive and finite", 0 < float(L) < float("inf"))


def start_solver(ctx, solver, n):
    """solvers started without a step or Lipschitz estimate use the search and the result is positive"""
    S = Smooth(ctx, n, 8)
    x0 = ctx.vec("x0", n)
    seen = []

    def cb(loc):
        seen.append(loc["step_size"])
        return False
    kw = {}
    if solver == "pgd":
        ctx.cp.minimize_proximal_gradient(S.fun, x0, jac=S.jac, max_iter=1, callback=cb, max_iter_backtracking=2)
    else:
        ctx.cp.minimize_three_split(S.f_grad, x0, max_iter=1, callback=cb, max_iter_backtracking=2)
    ctx.check("positive step", All(*[Lt(0, s) for s in seen]) if seen else True)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []
    for n in (1, 2, 3):
        for lim in ((3, 6) if q else (6, 12, 20)):
            out.append(dict(name="search_n%d_evals%d" % (n, lim), fn=search, params=dict(n=n, limit=lim, via=None), budget=Bq,
                            bounds="%d coordinates, at most %d evaluations" % (n, lim)))
    for i, g in enumerate(([1.0], [3.0, -0.5])):
        t = 90
        out.append(dict(name="late_%d" % i, fn=late, params=dict(g=g, trials=t), budget=Bq, bounds="fixed start and gradient, up to %d trials" % t))
    out.append(dict(name="exhausted", fn=exhausted, params=dict(n=2), budget=Bq, bounds="objective increasing at every trial"))
    out.append(dict(name="pgd_first_step", fn=start_solver, params=dict(solver="pgd", n=2), budget=Bq, bounds="one iteration, at most 8 evaluations"))
    out.append(dict(name="tos_first_step", fn=start_solver, params=dict(solver="tos", n=2), budget=Bq, bounds="one iteration, at most 8 evaluations"))
    return out
