"""P14: accelerated proximal gradient (FISTA)."""
import math
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import AffineProx, AffineSmooth, Prox, Smooth, long_steps, dot, prox_step, same_vec, sq, vsub

ASSUMPTIONS = ["Objective, gradient and prox values are arbitrary finite reals (function-consistent).",
               "Runs with more evaluations than the stated limit are cut.",
               "The extrapolation coefficient is compared up to 1e-9 relative (it is irrational)."]


def near(ctx, p, q, scale):
    return All([Le(ctx.abs(a - b), 1e-9 * scale) for a, b in zip(p, q)])


def run(ctx, step, n, iters, evals, mb=4, noprox=False, long=False, bf=None):
    S = AffineSmooth(ctx, n) if long else Smooth(ctx, n, evals)
    P = AffineProx(ctx, n) if long else Prox(ctx, "prox", n)
    x0 = ctx.vec("x0", n)
    if long and n == 1 and ctx.mode == "sym":
        ctx.assume(x0[0] >= 8)
    tol = 0.0 if long else ctx.real("tol", lo=0)
    xs, ss, rule, marks = [], [], [], []

    def cb(loc):
        xs.append([loc["x"][i] for i in range(n)])
        ss.append(loc["step_size"])
        marks.append(len(P.log))

    def user_step(loc):
        rule.append(long_steps(len(rule)) if long else ctx.real("s%d" % len(rule), gt=0))
        return rule[-1]
    res = ctx.cp.minimize_proximal_gradient(S.fun, x0, P, jac=S.jac, tol=tol, max_iter=iters, callback=cb, trace_certificate=True,
                                            step=user_step if step == "callable" else step, accelerated=True, max_iter_backtracking=mb, **({} if bf is None else dict(backtracking_factor=bf)))
    steps = len(xs)
    warned = any("line-search" in m or "line search" in m for _, m in ctx.warnings())
    if warned and P is not None:
        ctx.check("gives up only after the allowed number of trials", len(P.log) >= mb)
    gave_up = [warned and b - a >= mb for a, b in zip(marks, marks[1:] + [len(P.log)])]
    pts = xs + [[res.x[i] for i in range(n)]]
    reported = ss[1:] + [res.step_size]
    ctx.check("starts at x0", Eq(pts[0], list(x0)))
    ctx.check("max_iter honoured", steps <= iters and 0 <= res.nit <= iters)
    ctx.check("one certificate per step", len(res.trace_certificate) == steps)
    t, used = 1.0, []
    grads = list(S.grads)
    for k in range(steps):
        xn, xk, xp = pts[k + 1], pts[k], pts[k - 1] if k else pts[k]
        tp, t = (1.0, 1.0) if k == 0 else (t, (1 + math.sqrt(1 + 4 * t * t)) / 2)
        beta = 0.0 if k == 0 else (tp - 1.0) / t
        y = [a + beta * (a - b) for a, b in zip(xk, xp)]
        hit = prox_step(ctx, "iterate is the prox of a gradient step", P.log, xn, grads, start=y, step=reported[k])
        if hit is None:
            continue
        p, g, s = hit
        used.append(s)
        if k < 2:
            ctx.check("gradient taken at the extrapolated point", Eq(p, y))
        else:
            ctx.check("gradient taken at the extrapolated point", near(ctx, p, y, sum(ctx.abs(a) for a in xk + xp)))
        if step == "callable":
            ctx.check("callable step used as returned", All(Eq1(s, rule[k]), Eq1(reported[k], rule[k])))
        else:
            ctx.check("step positive", Lt(0, s))
            ctx.check("step never grows", Le(s, used[k - 1]) if k else True)
            if not gave_up[k]:
                d = vsub(xn, p)
                ctx.check("quadratic upper bound at the extrapolated point", Le(S.at(xn)[0], S.at(p)[0] + dot(g, d) + sq(d) / (2 * s)))
        ctx.check("reported step is the one used", Eq1(reported[k], s))
        # certificate: gradient mapping at the new iterate
        f, gn = S.at(xn)
        m = None
        for (v, s2, out) in reversed(P.log):
            if same_vec(ctx, v, [a - s * b for a, b in zip(xn, gn)]) and same_vec(ctx, [s2], [s]):
                m = out
                break
        c = res.trace_certificate[k]
        if m is None:
            m = list(P(ctx.array([a - s * b for a, b in zip(xn, gn)]), s)) if long else ctx.oracle("prox", [a - s * b for a, b in zip(xn, gn)] + [s], n)[0]
        ctx.check("certificate is the gradient mapping at the iterate", All(Le(0, c), Eq1(c * c * s * s, sq(vsub(xn, m)))))
    if steps:
        ctx.check("final certificate", Eq1(res.certificate, res.trace_certificate[-1]))
        below = ctx.decide(res.certificate < tol)
        ctx.check("success exactly when the certificate is below tol", bool(res.success) == below)
        for c in res.trace_certificate[:-1]:
            ctx.check("stops as soon as the certificate is below tol", Le(tol, c))
        if not below:
            ctx.check("stops early only on success", steps == iters)
    else:
        ctx.check("no success without a step", not res.success)
    ctx.observe("x", res.x)


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "apgd", kw["n"])
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []
    sizes = [(1, 1, 9), (1, 2, 14), (2, 1, 9), (2, 2, 12), (1, 3, 15)] + ([] if q else [(2, 3, 18), (3, 2, 14), (1, 4, 24)])
    for n, it, ev in sizes:
        for st in ("callable", "backtracking"):
            out.append(dict(name="%s_n%d_iter%d" % (st, n, it), fn=run, params=dict(step=st, n=n, iters=it, evals=ev if st != "callable" else 20), budget=Bq, branch_ms=300,
                            bounds="n=%d, %d steps, at most %d evaluations, all values" % (n, it, ev)))
    for st, n, it in (("callable", 2, 2), ("backtracking", 1, 1 if 0 else 2)):
        out.append(dict(name="again_" + st, fn=warmed, params=dict(step=st, n=n, iters=it, evals=20), budget=Bq, branch_ms=300,
                        bounds="n=%d, %d steps, after another run" % (n, it)))
    out.append(dict(name="one_trial", fn=run, params=dict(step="backtracking", n=1, iters=2, evals=14, mb=1), budget=Bq, bounds="n=1, one trial per line search"))
    for st, n, it in (("callable", 1, 25), ("backtracking", 1, 25)) if q else (("callable", 1, 120), ("callable", 2, 25), ("backtracking", 1, 60)):
        out.append(dict(name="long_%s_n%d" % (st, n), fn=run, params=dict(step=st, n=n, iters=it, evals=0, long=True), budget=Bq, branch_ms=300,
                        bounds="one quadratic and one affine prox, n=%d, %d steps, any start%s" % (n, it, " from 8 up" if n == 1 else "")))
    out.append(dict(name="slow_search", fn=run, params=dict(step="backtracking", n=1, iters=2, evals=0, long=True, bf=0.97, mb=100), budget=Bq, branch_ms=300,
                    bounds="one quadratic, two iterations, line searches of up to 100 trials, any start from 8 up"))
    out.append(dict(name="no_steps", fn=run, params=dict(step="callable", n=1, iters=0, evals=6), budget=Bq, bounds="max_iter=0"))
    return out
