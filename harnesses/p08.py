"""P08: the pairwise active set is an exact convex decomposition of the iterate (deterministic and stochastic solver)."""
import itertools
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.fwlib import fun_oracle, l1_vertex, step_rule

ASSUMPTIONS = ["Objective and gradient values are arbitrary finite reals.",
               "In the step configurations the active set is replaced, at the first oracle call, by an arbitrary decomposition "
               "of the starting point (any positive weights over the listed vertices): one step from every such state.",
               "Steps refused with ValueError end the run (P07 decides when they may be refused)."]


def invariant(ctx, tag, active, x, n, r):
    keys = list(active.keys())
    w = [active[k] for k in keys]
    ctx.check(tag + ": weights positive", All([Lt(0, v) for v in w]) if w else B(False))
    ctx.check(tag + ": weights sum to one", Eq1(sum(w), 1.0))
    pts = [l1_vertex(k, n, r) for k in keys]
    ctx.check(tag + ": decomposition equals the iterate", Eq([x[i] for i in range(n)], [sum(w[j] * pts[j][i] for j in range(len(keys))) for i in range(n)]))
    ctx.check(tag + ": keys are vertices", all(float(k[0]) in (-1.0, 0.0, 1.0) and 0 <= int(k[1]) < n for k in keys))


def run(ctx, step, n, iters, calls, start, unit):
    r = 1.0 if unit else ctx.real("r", gt=0)
    S = ctx.cp.constraint.L1Ball(r)
    fun = fun_oracle(ctx, n, calls)
    x0 = ctx.array(l1_vertex(start, n, r))
    rule, L = step_rule(ctx, step)

    def lmo(u, x, active_set):
        invariant(ctx, "during the run", active_set, x, n, r)
        return S.lmo_pairwise(u, x, active_set)
    try:
        res = ctx.cp.minimize_frank_wolfe(fun, x0, lmo, x0_rep=start, variant="pairwise", jac=fun.jac, step=rule, lipschitz=L, max_iter=iters,
                                          tol=0.0 if iters > 1 else ctx.real("tol", lo=0))
    except ValueError:
        return
    invariant(ctx, "result", res.active_set, res.x, n, r)


def inductive(ctx, n, keys, step):
    """one iteration from an arbitrary decomposition"""
    S = ctx.cp.constraint.L1Ball(1.0)
    fun = fun_oracle(ctx, n, 2)
    w = ctx.vec("w", len(keys), gt=0)
    if ctx.mode == "sym":
        ctx.assume(sum(w[i] for i in range(len(keys))) == 1)
    pts = [l1_vertex(k, n, 1.0) for k in keys]
    x0 = ctx.array([sum(w[j] * pts[j][i] for j in range(len(keys))) for i in range(n)])
    state = {}

    def lmo(u, x, active_set):
        if not state:
            active_set.clear()
            for k, v in zip(keys, w):
                active_set[k] = v
        out = S.lmo_pairwise(u, x, active_set)
        state["out"] = out
        return out
    L = ctx.real("L", gt=0)
    rule = step
    if step == "callable":
        # every step in [0, max]: a fraction of the maximum, or exactly the maximum (drop step)
        def rule(loc):
            return state["out"][3] if ctx.choose("drop", 2) else state["out"][3] * ctx.real("frac", lo=0, lt=1)
    tol = ctx.real("tol", lo=0)
    stops = step == "callable" and len(keys) == 2 and ctx.choose("callback stops", 2)
    res = ctx.cp.minimize_frank_wolfe(fun, x0, lmo, x0_rep=(1.0, 0), variant="pairwise", jac=fun.jac, step=rule, lipschitz=L, max_iter=1, tol=tol,
                                      callback=(lambda loc: False) if stops else None)
    invariant(ctx, "after one step", res.active_set, res.x, n, 1.0)


def sfw(ctx, variant, step, n_samples, n, epochs, start, maxsteps):
    r = 1.0
    S = ctx.cp.constraint.L1Ball(r)
    ctx.random()
    A = ctx.mat("A", n_samples, n)
    b = ctx.vec("b", n_samples)
    x0 = ctx.array(l1_vertex(start, n, r))
    k = [0]

    def f_deriv(p, bb):
        return ctx.array([ctx.oracle("df", [p[i], bb[i]], 1)[0][0] for i in range(len(p))])

    def lmo(u, x, active_set):
        k[0] += 1
        invariant(ctx, "during the run", active_set, x, n, r)
        if k[0] > maxsteps:
            raise E.PathCut("more than %d steps" % maxsteps)
        last["out"] = S.lmo_pairwise(u, x, active_set)
        return last["out"]
    last = {}
    if step == "callable":
        def rule(loc):
            return (last["out"][3] if last and ctx.choose("drop%d" % k[0], 2) else ctx.real("g%d" % k[0], lo=0, hi=1)), ctx.real("a%d" % k[0], lo=0, hi=1)
    else:
        rule = step
    seen = []

    def cb(loc):
        if loc.get("update_direction") is not None and loc.get("active_set") is not None:
            invariant(ctx, "callback", loc["active_set"], loc["x"], n, r)
    try:
        res = ctx.cp.minimize_sfw(f_deriv, ctx.sparse(A), b, x0, lmo, x0_rep=start, variant=variant, lmo_variant="pairwise", step_size=rule,
                                  lipschitz=ctx.real("L", gt=0), max_iter=epochs, tol=0.0, callback=cb)
    except ValueError:
        return


def configs(tier):
    q = tier == "quick"
    out = []
    B = 50 if q else 600
    for st in ("backtracking", "DR", "sublinear", "callable"):
        for n, it, calls in [(2, 1, 3), (1 if st == "backtracking" and q else 2, 2, 3 if st == "backtracking" else 4)] + ([] if q else [(2, 3, 5), (3, 2, 4)]):
            unit = it > 1
            out.append(dict(name="fw_%s_n%d_it%d" % (st, n, it), fn=run, params=dict(step=st, n=n, iters=it, calls=calls, start=(1.0, 0), unit=unit),
                            budget=B, bounds="l1 ball of %s radius, n=%d, from a vertex, %d iterations" % ("unit" if unit else "any", n, it)))
    vs = [(s, i) for i in range(2) for s in (1.0, -1.0)]
    for k in (1, 2, 3) + (() if q else (4,)):
        for keys in itertools.combinations(vs, k):
            if q and k == 2 and keys[0][1] == keys[1][1] == 1:
                continue
            for st in ("callable", "DR"):
                nm = "_".join("%s%d" % ("p" if s > 0 else "m", i) for s, i in keys)
                out.append(dict(name="step_%s_%s" % (st, nm), fn=inductive, params=dict(n=2, keys=list(keys), step=st), budget=B,
                                bounds="n=2, arbitrary weights over %s, one %s step" % (list(keys), st)))
    for var in ("SAG", "SAGA", "MHK", "LF"):
        for st in ("sublinear", "DR", "callable"):
            ns, ep, mx = (1, 3, 2) if q else (2, 2, 3)
            out.append(dict(name="sfw_%s_%s" % (var, st), fn=sfw, params=dict(variant=var, step=st, n_samples=ns, n=2 if st != "DR" else 1, epochs=ep, start=(1.0, 0), maxsteps=mx),
                            budget=B, bounds="unit l1 ball, n=2 (1 for DR), %d samples, up to %d steps" % (ns, mx), claim_ms=8000))
    return out
