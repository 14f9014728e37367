"""P13: plain proximal gradient."""
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import AffineProx, AffineSmooth, Prox, Smooth, long_steps, dot, prox_step, sq, vsub

ASSUMPTIONS = ["Objective, gradient and prox values are arbitrary finite reals (function-consistent); for the composite decrease the prox "
               "output satisfies h(p) + |p-v|^2/(2s) <= h(x) + |x-v|^2/(2s), the definition of a prox.",
               "Runs with more evaluations than the stated limit are cut."]


def run(ctx, step, n, iters, evals, mb=4, noprox=False, long=False, bf=None, curv=None):
    S = AffineSmooth(ctx, n, *([] if curv is None else [curv])) if long else Smooth(ctx, n, evals)
    P = None if noprox else AffineProx(ctx, n, *([] if curv is None else [1.0, 0.0])) if long else Prox(ctx, "prox", n)
    x0 = ctx.vec("x0", n)
    if long and n == 1 and ctx.mode == "sym":
        ctx.assume(x0[0] >= 8)
    if curv is not None:
        ctx.assume(All(Le(96, x0[0]), Le(x0[0], 96 + 2.0 ** -10)))
        x0 = ctx.array([x0[0]] + [x0[0] / 32 - 2.0] * (n - 1))
    tol = 0.0 if long else ctx.real("tol", lo=0)
    xs, ss, rule, mark = [], [], [], []

    def cb(loc):
        xs.append([loc["x"][i] for i in range(n)])
        ss.append(loc["step_size"])
        mark.append(0 if P is None else len(P.log))

    def user_step(loc):
        rule.append(long_steps(len(rule)) if long else ctx.real("s%d" % len(rule), gt=0))
        return rule[-1]
    res = ctx.cp.minimize_proximal_gradient(S.fun, x0, P, jac=S.jac, tol=tol, max_iter=iters, callback=cb, trace_certificate=True,
                                            step=user_step if step == "callable" else step, max_iter_backtracking=mb, **({} if bf is None else dict(backtracking_factor=bf)))
    steps = len(xs)
    warned = any("line-search" in m or "line search" in m for _, m in ctx.warnings())
    if warned and P is not None:
        ctx.check("gives up only after the allowed number of trials", len(P.log) >= mb)
        trials = [b - a for a, b in zip(mark, mark[1:] + [len(P.log)])]
        gave_up = [t >= mb for t in trials]
    else:
        gave_up = [warned] * steps
    pts = xs + [[res.x[i] for i in range(n)]]
    reported = ss[1:] + [res.step_size]
    ctx.check("starts at x0", Eq(pts[0], list(x0)))
    ctx.check("max_iter honoured", steps <= iters and 0 <= res.nit <= iters)
    ctx.check("one certificate per step", len(res.trace_certificate) == steps)
    if step == "callable":
        ctx.check("step rule asked once per step", len(rule) == steps)
    vals = [S.at(p) for p in pts]
    for k in range(steps):
        x, xn, (f, g), d = pts[k], pts[k + 1], vals[k], vsub(pts[k + 1], pts[k])
        if noprox:
            s = rule[k] if step == "callable" else None
            if s is None:
                # step of the accepted trial: recover it from one coordinate is not possible in general, use the reported bound
                ctx.check("sufficient decrease", Le(vals[k + 1][0] * 2 * reported[k], (f + dot(g, d)) * 2 * reported[k] + sq(d) * 1.1)
                          if not warned else True)
                continue
            ctx.check("gradient step", Eq(xn, [a - s * b for a, b in zip(x, g)]))
        else:
            hit = prox_step(ctx, "iterate is the prox of a gradient step", P.log, xn, [(x, g)], step=rule[k] if step == "callable" else None)
            if hit is None:
                continue
            s = hit[2]
        if step == "callable":
            ctx.check("callable step used as returned", All(Eq1(s, rule[k]), Eq1(reported[k], rule[k])))
        elif not gave_up[k]:
            ctx.check("step positive", Lt(0, s))
            ctx.check("sufficient decrease", Le(vals[k + 1][0], f + dot(g, d) + sq(d) / (2 * s)))
            ctx.check("sufficient decrease for the reported step", Le(vals[k + 1][0], f + dot(g, d) + sq(d) / (2 * reported[k]) * 1.1))
            if not noprox and not long and ctx.mode == "sym":
                h0, h1 = ctx.oracle("h", x, 1)[0][0], ctx.oracle("h", xn, 1)[0][0]
                v = [a - s * b for a, b in zip(x, g)]
                ctx.assume(h1 + sq(vsub(xn, v)) / (2 * s) <= h0 + sq(vsub(x, v)) / (2 * s))
                ctx.check("composite objective does not increase", Le(vals[k + 1][0] + h1, f + h0))
        c, r = res.trace_certificate[k], reported[k]
        ctx.check("certificate is the change over the reported step", All(Le(0, c), Eq1(c * c * r * r, sq(d))))
    if steps:
        ctx.check("final certificate", Eq1(res.certificate, res.trace_certificate[-1]))
        below = ctx.decide(res.certificate < tol)
        ctx.check("success exactly when the certificate is below tol", bool(res.success) == below)
        for c in res.trace_certificate[:-1]:
            ctx.check("stops as soon as the certificate is below tol", Le(tol, c))
        if not below:
            ctx.check("stops early only on success", steps == iters)
    else:
        ctx.check("no success without a step", not res.success)
    ctx.observe("x", res.x)


def exhausted(ctx):
    """a line search that fails every trial ends in a warning"""
    k = [0]

    def fun(x):
        k[0] += 1
        return 0.0 if k[0] <= 3 else 1.0
    ctx.cp.minimize_proximal_gradient(fun, ctx.const([0.0, 0.0]), jac=lambda x: ctx.const([-1.0, -1.0]), max_iter=1, max_iter_backtracking=5)
    ctx.check("line search failure is reported", bool(ctx.warnings()))


def reject(ctx):
    for kw in (dict(max_iter_backtracking=0), dict(max_iter_backtracking=-1), dict(step="unknown"), dict(step="unknown", accelerated=True)):
        try:
            ctx.cp.minimize_proximal_gradient(lambda x: 0.0, ctx.const([0.0]), jac=lambda x: ctx.const([1.0]), **kw)
        except ValueError:
            ctx.check("invalid options are refused", True)
        else:
            ctx.check("invalid options are refused", False)


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "pgd", kw["n"])
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []
    sizes = [(1, 1, 5), (1, 2, 6), (2, 1, 5), (2, 2, 6)] + ([] if q else [(2, 3, 8), (3, 2, 7), (1, 3, 9)])
    for n, it, ev in sizes:
        for st in ("callable", "backtracking"):
            out.append(dict(name="%s_n%d_iter%d" % (st, n, it), fn=run, params=dict(step=st, n=n, iters=it, evals=ev if st != "callable" else 9), budget=Bq,
                            bounds="n=%d, %d steps, at most %d evaluations, all values" % (n, it, ev)))
    out.append(dict(name="noprox_callable", fn=run, params=dict(step="callable", n=2, iters=2, evals=9, noprox=True), budget=Bq, bounds="n=2, no prox"))
    out.append(dict(name="noprox_backtracking", fn=run, params=dict(step="backtracking", n=1, iters=1, evals=5, noprox=True), budget=Bq, bounds="n=1, no prox"))
    for st, n, it in (("callable", 2, 2), ("backtracking", 1, 1 if 0 else 2)):
        out.append(dict(name="again_" + st, fn=warmed, params=dict(step=st, n=n, iters=it, evals=8), budget=Bq, branch_ms=300,
                        bounds="n=%d, %d steps, after another run" % (n, it)))
    out.append(dict(name="one_trial", fn=run, params=dict(step="backtracking", n=1, iters=2, evals=6, mb=1), budget=Bq, bounds="n=1, one trial per line search"))
    for st, n, it in (("callable", 1, 25), ("callable", 2, 25), ("backtracking", 1, 22)) if q else (("callable", 1, 120), ("callable", 3, 120), ("backtracking", 1, 60)):
        out.append(dict(name="long_%s_n%d" % (st, n), fn=run, params=dict(step=st, n=n, iters=it, evals=0, long=True), budget=Bq, branch_ms=300,
                        bounds="one quadratic and one affine prox, n=%d, %d steps, any start%s" % (n, it, " from 8 up" if n == 1 else "")))
    out.append(dict(name="long_stiff", fn=run, params=dict(step="backtracking", n=2, iters=40 if q else 80, evals=0, long=True, curv=(1.0, 48.0), mb=100), budget=Bq, branch_ms=300,
                    bounds="one badly conditioned quadratic, two coordinates, no proximal term, 40 (80) steps, starts on a segment"))
    out.append(dict(name="slow_search", fn=run, params=dict(step="backtracking", n=1, iters=2, evals=0, long=True, bf=0.97, mb=100), budget=Bq, branch_ms=300,
                    bounds="one quadratic, two iterations, line searches of up to 100 trials, any start from 8 up"))
    out.append(dict(name="no_steps", fn=run, params=dict(step="callable", n=1, iters=0, evals=6), budget=Bq, bounds="max_iter=0"))
    out.append(dict(name="exhausted", fn=exhausted, params={}, budget=20, bounds="concrete"))
    out.append(dict(name="reject", fn=reject, params={}, budget=20, bounds="concrete"))
    return out
