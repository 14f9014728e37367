"""P09: Frank-Wolfe step-size rules and the optimality certificate."""
import inspect
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import AffineSmooth, long_steps
from harnesses.fwlib import fun_oracle, l1_vertex, step_rule

ASSUMPTIONS = ["Objective and gradient values are arbitrary finite reals (function-consistent).",
               "Line searches with more attempts than the stated limit are cut, except for the concrete exhaustion run."]
EPS = float(np.finfo(np.float32).eps)


def line_search(ctx, n, first, attempts):
    """backtracking_step_size from any state"""
    f = ctx.cp.frank_wolfe.backtracking_step_size
    x, d = ctx.vec("x", n), ctx.vec("d", n)
    f_t, L, cert, gm = ctx.real("f_t"), ctx.real("L", gt=0), ctx.real("cert", gt=0), ctx.real("gmax", gt=0)
    norm = sum(d[i] * d[i] for i in range(n))
    if ctx.mode == "sym":
        ctx.assume(norm > 0)
    log = []

    def f_grad(z):
        if len(log) >= attempts:
            raise E.PathCut("more than %d attempts" % attempts)
        v, _ = ctx.oracle("f", z, n + 1)
        log.append((list(z), v))
        return v[0], ctx.array(v[1:])
    args = (x, f_t, None if first else ctx.real("old_f"), f_grad, cert, L, gm, d, norm)
    try:
        inspect.signature(f).bind(*args)
    except TypeError:
        raise E.PathCut("line search has another signature")
    step, Lr, fn, gn = f(*args)
    if ctx.mode == "sym":
        fz, gz = log[-1][1][0], log[-1][1][1:]
        ctx.check("returned value and gradient belong to the new point", All(Eq(log[-1][0], [x[i] + step * d[i] for i in range(n)]), Eq1(fn, fz), Eq(list(gn), gz)))
    ctx.check("estimate positive", Lt(0, Lr))
    ctx.check("step in [0, max_step]", All(Le(0, step), Le(step, gm)))
    if not ctx.warnings():
        ctx.check("sufficient decrease", Le(fn, f_t - step * cert + 0.5 * step * step * Lr * norm + EPS))
        ctx.check("no increase", Le(fn, f_t + EPS))
    ctx.observe("out", [step, Lr, fn])


def exhausted(ctx, L):
    """an objective that refuses every step ends in a warning"""
    f = ctx.cp.frank_wolfe.minimize_frank_wolfe
    x0 = ctx.const([0.0, 0.0])
    k = [0]

    def fun(x):
        k[0] += 1
        return 0.0 if k[0] == 1 else 1.0
    f(fun, x0, lambda u, x, a=None: (ctx.const([1.0, 1.0]), None, None, 1.0), jac=lambda x: ctx.const([-1.0, -1.0]), step="backtracking", lipschitz=L, max_iter=1)
    ctx.check("line search failure is reported", any(c == "RuntimeWarning" for c, _ in ctx.warnings()))


def run(ctx, step, n, iters, calls, long=False):
    """whole solver with an arbitrary oracle: decrease, DR optimality, oblivious rule, certificate; long runs use one quadratic"""
    x0 = ctx.vec("x0", n)
    if long:
        S = AffineSmooth(ctx, n)
        obj, jac = S.fun, S.jac
        rule, L = step_rule(ctx, step)
        tol = 0.0
        L = L and 4.0
        S.m = [-200.0] * n if step != "DR" else S.m
        w = ctx.real("w", lo=0, hi=1)
        if step == "callable":
            rule = lambda loc: long_steps(loc["it"]) / 8
        if ctx.mode == "sym":
            for i in range(n):
                ctx.assume(x0[i] >= 4 + 4 * i)
    else:
        obj = fun_oracle(ctx, n, calls)
        jac = obj.jac
        rule, L = step_rule(ctx, step, lo=0, hi=1)
        tol = ctx.real("tol", lo=0)
    dirs, steps = [], []

    def value(p):
        if long:
            f, g = S.at(p)
            return [f] + g
        return ctx.oracle("f", ctx.array(p), n + 1)[0]

    def lmo(u, x, active_set=None):
        k = len(dirs)
        if long:
            # towards a moving vertex for the oblivious rules, unit directions of varying length otherwise
            if step == "DR":
                d, gm = ctx.const([(-1.0, -0.5, -2.0)[k % 3] * (1 + i) for i in range(n)]), (8.0, 0.25, 1.0)[k % 3]
            else:
                d, gm = ctx.array([w - 4.0 - k * (1 + i) - x[i] for i in range(n)]), 1.0
        else:
            d = ctx.vec("d%d" % k, n)
            gm = 1.0 if step in ("sublinear", "callable") else ctx.real("gmax%d" % k, gt=0)
        dirs.append(([x[i] for i in range(n)], [u[i] for i in range(n)], d.copy(), gm))
        return d, None, None, gm

    def cb(loc):
        steps.append(loc["step_size"])
    res = ctx.cp.minimize_frank_wolfe(obj, x0, lmo, jac=jac, step=rule, lipschitz=L, max_iter=iters, tol=tol, callback=cb)
    steps = steps[:-1]
    warned = bool(ctx.warnings())
    pts = [p for p, _, _, _ in dirs[:len(steps)]] + [[res.x[i] for i in range(n)]]
    vals = []
    for p in pts:
        vals.append(value(p))
    for k, (p, u, d, gm) in enumerate(dirs):
        if k < len(vals):
            ctx.check("oracle is asked with minus the gradient at the iterate", Eq(u, [-g for g in vals[k][1:]]))
    for k, g in enumerate(steps):
        p, u, d, gm = dirs[k]
        cert = sum(d[i] * u[i] for i in range(n))
        nn = sum(d[i] * d[i] for i in range(n))
        if step == "sublinear":
            ctx.check("oblivious step", Eq1(g, 2.0 / (k + 2)))
        elif step == "DR":
            t = ctx.real("t", lo=0) if not long else 0.5 * gm
            q = lambda s: 0.5 * s * s * L * nn - s * cert
            ctx.check("DR minimises the quadratic bound", All(Le(0, g), Le(g, gm), Imp(t <= gm, Le(q(g), q(t)))))
        elif step.startswith("backtracking") and not warned:
            ctx.check("objective does not increase", Le(vals[k + 1][0], vals[k][0] + EPS))
        ctx.check("step taken only above the tolerance", Lt(tol, cert))
    if len(steps) < iters:
        p, u, d, gm = dirs[-1]
        ctx.check("certificate is the gap of the returned point", All(Eq(p, list(res.x)), Eq1(res.certificate, -sum(d[i] * vals[-1][1 + i] for i in range(n)))))
        ctx.check("certificate below tol", Le(res.certificate, tol))
    else:
        ctx.check("budget used", len(dirs) == iters)


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "fw_" + kw["step"], kw["n"])
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    out = []
    Bq = 60 if q else 600
    for n in (1, 2) + (() if q else (3,)):
        for first in (True, False):
            out.append(dict(name="line_search_%s_n%d" % ("first" if first else "later", n), fn=line_search, params=dict(n=n, first=first, attempts=2 if q else 4), budget=Bq,
                            bounds="any state, n=%d, <=%d attempts" % (n, 2 if q else 4)))
    for st, n in (("backtracking", 1), ("DR", 2), ("sublinear", 2)):
        out.append(dict(name="again_%s" % st, fn=warmed, params=dict(step=st, n=n, iters=1, calls=4), budget=Bq,
                        bounds="any oracle, n=%d, one iteration, after another run" % n))
    for st, n, it in (("DR", 1, 24), ("sublinear", 2, 24), ("callable", 2, 24)) if q else (("DR", 1, 60), ("DR", 2, 24), ("sublinear", 2, 110), ("callable", 2, 110)):
        out.append(dict(name="long_%s_n%d" % (st, n), fn=run, params=dict(step=st, n=n, iters=it, calls=0, long=True), budget=Bq, branch_ms=300,
                        bounds="one quadratic, prescribed directions, n=%d, %d iterations, starts from 4 up" % (n, it)))
    for L in (1.0, 1e-3, 10.0):
        out.append(dict(name="exhausted_L%g" % L, fn=exhausted, params=dict(L=L), budget=30, bounds="one concrete objective"))
    for st in ("backtracking", "backtracking_auto", "DR", "sublinear", "callable"):
        bt = st.startswith("backtracking")
        for n, it, calls in [(1, 1, 4), (2, 1, 3 + (st == "backtracking_auto")), (1, 2, 3 + (st == "backtracking_auto"))] + ([(1, 3, 4), (1, 4, 5)] if st == "sublinear" else []) + ([] if q else [(2, 2, 4), (3, 1, 4)]):
            out.append(dict(name="run_%s_n%d_it%d" % (st, n, it), fn=run, params=dict(step=st, n=n, iters=it, calls=calls), budget=Bq,
                            bounds="any oracle, n=%d, %d iterations, <=%d evaluations" % (n, it, calls)))
    return out
