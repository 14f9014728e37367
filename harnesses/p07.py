"""P07: Frank-Wolfe iterates stay in the constraint set, whatever the objective returns."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.fwlib import fun_oracle, feasible_start, in_set, l1_vertex, step_rule

ASSUMPTIONS = ["Objective and gradient values are arbitrary finite reals (function-consistent, otherwise unconstrained).",
               "Paths with more objective evaluations than the stated limit are cut (line searches that double more often)."]


def convex_steps(ctx, step, n, iters, calls):
    """abstract oracle: any direction s - x, any admissible maximum step; iterates are x + g d with 0 <= g <= max_step"""
    fun = fun_oracle(ctx, n, calls)
    x0 = ctx.vec("x0", n)
    x00 = x0.copy()
    rule, L = step_rule(ctx, step, hi=None)
    seen, dirs = [], []

    def lmo(u, x, active_set=None):
        k = len(dirs)
        seen.append([x[i] for i in range(n)])
        d = ctx.vec("d%d" % k, n)
        gm = 1.0 if step == "sublinear" else ctx.real("gmax%d" % k, gt=0)
        dirs.append((d.copy(), gm))
        return d, None, None, gm
    used = []

    def cb(loc):
        used.append(loc["step_size"])
    res = ctx.cp.minimize_frank_wolfe(fun, x0, lmo, jac=fun.jac, step=rule, lipschitz=L, max_iter=iters, tol=ctx.real("tol", lo=0), callback=cb)
    ctx.same("start unchanged", x0, x00)
    pts = seen + [[res.x[i] for i in range(n)]]
    ctx.check("starts at x0", Eq(pts[0], x00))
    moved = len(used) - 1         # the callback also runs once after the loop
    for k in range(len(pts) - 1):
        if k < moved:
            g = used[k]
            d, gm = dirs[k]
            if step != "callable":
                ctx.check("step in [0, max_step]", All(Le(0, g), Le(g, gm)))
            ctx.check("iterate is x + step * direction", Eq(pts[k + 1], [pts[k][i] + g * d[i] for i in range(n)]))
        else:
            ctx.check("no move without a step", Eq(pts[k + 1], pts[k]))


def ball(ctx, kind, step, n, iters, calls, unit):
    """the shipped constraint sets"""
    r = 1.0 if unit else ctx.real("r", gt=0)
    S = ctx.cp.constraint.L1Ball(r) if kind == "l1" else ctx.cp.constraint.SimplexConstraint(r)
    fun = fun_oracle(ctx, n, calls)
    x0 = feasible_start(ctx, kind, n, r)
    rule, L = step_rule(ctx, step, hi=1)

    def cb(loc):
        ctx.check("callback iterate feasible", in_set(ctx, kind, loc["x"], r, n))
        g = loc["step_size"]
        if g is not None:
            ctx.check("step in [0, 1]", All(Le(0, g), Le(g, 1.0)))
            if ctx.mode == "sym":
                ctx.lemma(g >= 0)
                ctx.lemma(g <= 1)
    res = ctx.cp.minimize_frank_wolfe(fun, x0, S.lmo, jac=fun.jac, step=rule, lipschitz=L, max_iter=iters, tol=0.0, callback=cb)
    ctx.check("result feasible", in_set(ctx, kind, res.x, r, n))


def pairwise(ctx, step, n, iters, calls, start, unit):
    """pairwise steps on the l1 ball from a vertex; too large steps must be refused"""
    r = 1.0 if unit else ctx.real("r", gt=0)
    S = ctx.cp.constraint.L1Ball(r)
    fun = fun_oracle(ctx, n, calls)
    x0 = ctx.array(l1_vertex(start, n, r))
    rule, L = step_rule(ctx, step)
    last, steps = {}, []

    def lmo(u, x, active_set):
        out = S.lmo_pairwise(u, x, active_set)
        last["max"] = out[3]
        ctx.check("iterate feasible", in_set(ctx, "l1", x, r, n))
        return out

    def cb(loc):
        last["g"] = loc["step_size"]
        steps.append((last["g"], last["max"]))
    try:
        res = ctx.cp.minimize_frank_wolfe(fun, x0, lmo, x0_rep=start, variant="pairwise", jac=fun.jac, step=rule, lipschitz=L, max_iter=iters, tol=0.0, callback=cb)
    except ValueError:
        ctx.check("refused only when too large", Lt(last["max"], last["g"]))
        ctx.check("built-in rules never refused", step in ("callable", "sublinear"))
        return
    if step not in ("callable", "sublinear"):
        for g, m in steps[:-1]:      # the last callback runs after the loop
            ctx.check("step in [0, max_step]", All(Le(0, g), Le(g, m)))
    ctx.check("result feasible", in_set(ctx, "l1", res.x, r, n))


def configs(tier):
    q = tier == "quick"
    out = []
    steps = ("backtracking", "backtracking_auto", "DR", "sublinear", "callable")
    for st in steps:
        bt = st.startswith("backtracking")
        B = 50 if q else 600
        for n, it, calls in [(1, 1, 4), (1, 2, 3 + (st == "backtracking_auto")), (2, 1, 4)] + ([] if q else [(2, 2, 5), (3, 1, 5), (1, 3, 7)]):
            out.append(dict(name="abstract_%s_n%d_it%d" % (st, n, it), fn=convex_steps, params=dict(step=st, n=n, iters=it, calls=calls),
                            budget=B, bounds="any oracle direction, n=%d, %d iterations, <=%d evaluations" % (n, it, calls)))
        for kind in ("l1", "simplex"):
            for n, it, calls in [(2, 1, 3 if bt and kind == "l1" and q else 4)] + ([(2, 2, 4)] if st == "sublinear" or not q else []) + ([] if q else [(3, 1, 4)]):
                unit = bt or it > 1
                out.append(dict(name="%s_%s_n%d_it%d" % (kind, st, n, it), fn=ball, params=dict(kind=kind, step=st, n=n, iters=it, calls=calls, unit=unit),
                                budget=B, bounds="%s of %s radius, n=%d, %d iterations, <=%d evaluations" % (kind, "unit" if unit else "any", n, it, calls)))
        for n, it, calls in [(2, 1, 4), (1 if bt and q else 2, 2, 3 + (st == "backtracking_auto") + (not q))] + ([] if q else [(2, 3, 6), (3, 2, 4)]):
            unit = bt and it > 1
            out.append(dict(name="pairwise_%s_n%d_it%d" % (st, n, it), fn=pairwise, params=dict(step=st, n=n, iters=it, calls=calls, start=(1.0, 0), unit=unit),
                            budget=B, bounds="l1 ball of %s radius, n=%d, start vertex, %d iterations, <=%d evaluations" % ("unit" if unit else "any", n, it, calls)))
    return out
