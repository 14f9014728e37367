"""Shared pieces of the Frank-Wolfe harnesses."""
from collections import defaultdict
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt


def fun_oracle(ctx, n, limit, tag="f"):
    """arbitrary objective: value and gradient unconstrained, equal at equal points; at most `limit` evaluations.
    Returns (fun, jac) for the solvers' callable-gradient interface."""
    log = []

    def fun(x):
        if len(log) >= limit:
            raise E.PathCut("more than %d objective evaluations" % limit)
        v, k = ctx.oracle(tag, x, n + 1)
        log.append((x.copy(), v[0], v[1:]))
        return v[0]

    def jac(x):
        v, _ = ctx.oracle(tag, x, n + 1)
        return ctx.array(v[1:])
    fun.log = log
    fun.jac = jac
    return fun


def l1_vertex(rep, n, r):
    sign, idx = rep
    s = [0.0] * n
    s[int(idx)] = r * sign
    return s


def in_set(ctx, kind, x, r, n):
    if kind == "l1":
        return Le(sum(ctx.abs(x[i]) for i in range(n)), r)
    return All([Le(0, x[i]) for i in range(n)], Eq1(sum(x[i] for i in range(n)), r))


def feasible_start(ctx, kind, n, r, name="x0"):
    x = ctx.vec(name, n)
    if ctx.mode == "sym":
        if kind == "l1":
            ctx.assume(sum(ctx.abs(x[i]) for i in range(n)) <= r)
        else:
            for i in range(n):
                ctx.assume(x[i] >= 0)
            ctx.assume(sum(x[i] for i in range(n)) == r)
    return x


def step_rule(ctx, step, lo=0, hi=None):
    """(step argument, lipschitz argument)"""
    if step == "callable":
        k = [0]

        def rule(loc):
            k[0] += 1
            return ctx.real("gamma%d" % k[0], lo=lo, hi=hi)
        return rule, None
    if step == "backtracking":
        return step, ctx.real("L", gt=0)
    if step == "backtracking_auto":
        return "backtracking", None
    if step == "DR":
        return step, ctx.real("L", gt=0)
    return step, None
