"""P06: linear minimisation oracles."""
from collections import defaultdict
import itertools
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Imp, Le, LeAll
from harnesses.widelib import ends, wide


def vertex(ctx, kind, rep, n, r):
    """the point a representation stands for (l1: (sign, index); simplex: index)"""
    s = [0.0] * n
    if kind == "l1":
        sign, idx = rep
        s[int(idx)] = r * sign
    else:
        s[int(rep)] = r * 1.0
    return s


def feasible(ctx, kind, x, r, n):
    if kind == "l1":
        return Le(sum(ctx.abs(x[i]) for i in range(n)), r)
    return All([Le(0, x[i]) for i in range(n)], Eq(sum(x[i] for i in range(n)), r))


def lmo(ctx, kind, n, unit, call, ints=False):
    r = 1.0 if unit else ctx.real("r", gt=0)
    u, x = (ctx.ints("u", n), ctx.ints("x", n)) if ints else (ctx.vec("u", n), ctx.vec("x", n))
    if kind == "l1":
        S = ctx.cp.constraint.L1Ball(r)
        ctx.assume(sum(ctx.abs(x[i]) for i in range(n)) <= r)
    else:
        S = ctx.cp.constraint.SimplexConstraint(r)
        for i in range(n):
            ctx.assume(x[i] >= 0)
        if ctx.mode == "sym":
            ctx.assume(sum(x[i] for i in range(n)) == r)
    u0, x0 = u.copy(), x.copy()
    # the third argument is what both Frank-Wolfe solvers pass
    d, rep, away, gmax = S.lmo(u, x, None) if call == 3 else S.lmo(u, x)
    ctx.same("arguments unchanged", list(u) + list(x), list(u0) + list(x0))
    lmo_spec(ctx, kind, n, r, u0, x0, d, rep, gmax)
    ctx.observe("d", d)


def lmo_spec(ctx, kind, n, r, u0, x0, d, rep, gmax):
    ctx.check("shape", np.shape(d) == (n,))
    s = [d[i] + x0[i] for i in range(n)]
    ctx.check("vertex feasible", feasible(ctx, kind, s, r, n))
    ctx.check("vertex matches its representation", Eq(s, vertex(ctx, kind, rep, n, r)))
    val = sum(u0[i] * s[i] for i in range(n))
    for i in range(n):
        if kind == "l1":
            ctx.check("vertex optimal", All(Le(r * u0[i], val), Le(-(r * u0[i]), val)))
        else:
            ctx.check("vertex optimal", Le(r * u0[i], val))
    ctx.check("maximum step is 1", Eq(gmax, 1.0))
    if kind == "l1":
        g = ctx.real("g", lo=0, hi=1)
        ctx.check("steps stay feasible", feasible(ctx, kind, [x0[i] + g * d[i] for i in range(n)], r, n))


def history(ctx, kind, n):
    """the same oracle asked twice, the two answers used together"""
    r = ctx.real("r", gt=0)
    S = ctx.cp.constraint.L1Ball(r) if kind == "l1" else ctx.cp.constraint.SimplexConstraint(r)
    u, v, x, y = (ctx.vec(k, n) for k in "uvxy")
    for z in (x, y):
        if kind == "l1":
            ctx.assume(sum(ctx.abs(z[i]) for i in range(n)) <= r)
        else:
            for i in range(n):
                ctx.assume(z[i] >= 0)
            if ctx.mode == "sym":
                ctx.assume(sum(z[i] for i in range(n)) == r)
    v0, y0 = v.copy(), y.copy()
    a = S.lmo(u, x, None)
    keep = list(a[0])
    if ctx.choose("same arrays", 2):
        u[:], x[:] = v, y
        b = S.lmo(u, x, None)
    else:
        b = S.lmo(v, y, None)
        ctx.check("earlier result unchanged by a later call", Eq(list(a[0]), keep))
    lmo_spec(ctx, kind, n, r, v0, y0, b[0], b[1], b[3])


def pairwise(ctx, n, keys):
    r = ctx.real("r", gt=0)
    u = ctx.vec("u", n)
    w = ctx.vec("w", len(keys), gt=0)
    if ctx.mode == "sym":
        ctx.assume(sum(w[i] for i in range(len(keys))) == 1)
    active = defaultdict(float)
    for k, v in zip(keys, w):
        active[k] = v
    before = dict(active)
    pts = [vertex(ctx, "l1", k, n, r) for k in keys]
    x = ctx.array([sum(w[j] * pts[j][i] for j in range(len(keys))) for i in range(n)])
    u0, x0 = u.copy(), x.copy()
    d, rep, away, gmax = ctx.cp.constraint.L1Ball(r).lmo_pairwise(u, x, active)
    ctx.same("arguments unchanged", list(u) + list(x), list(u0) + list(x0))
    ctx.check("active set unchanged", list(active.keys()) == list(before.keys()))
    ctx.check("weights unchanged", Eq([active[k] for k in keys], [before[k] for k in keys]))
    ctx.check("away vertex is active", away in before)
    if away not in before:
        return
    s, v = vertex(ctx, "l1", rep, n, r), vertex(ctx, "l1", away, n, r)
    ctx.check("direction is s - v", Eq(list(d), [s[i] - v[i] for i in range(n)]))
    ctx.check("maximum step is the away weight", Eq(gmax, before[away]))
    val = sum(u0[i] * s[i] for i in range(n))
    for i in range(n):
        ctx.check("s optimal", All(Le(r * u0[i], val), Le(-(r * u0[i]), val)))
    va = sum(u0[i] * v[i] for i in range(n))
    for p in pts:
        ctx.check("v minimal over the active set", Le(va, sum(u0[i] * p[i] for i in range(n))))
    g = ctx.real("g", lo=0)
    ctx.check("steps stay feasible", Imp(g <= gmax, feasible(ctx, "l1", [x0[i] + g * d[i] for i in range(n)], r, n)))
    ctx.observe("d", d)


def long_(ctx, kind, n):
    """a long direction with three symbolic entries"""
    u = wide(ctx, "u", n, ends(n))
    r = 2.0
    S = ctx.cp.constraint.L1Ball(r) if kind == "l1" else ctx.cp.constraint.SimplexConstraint(r)
    x = ctx.zeros(n)
    x[1], x[n - 2] = 0.5, 1.5
    d, rep, _, gmax = S.lmo(u.copy(), x.copy(), None)
    s = [d[i] + x[i] for i in range(n)]
    ctx.check("vertex feasible", feasible(ctx, kind, s, r, n))
    ctx.check("vertex matches its representation", Eq(s, vertex(ctx, kind, rep, n, r)))
    val = sum(u[i] * s[i] for i in range(n))
    for i in ends(n) + tuple(range(1, 14)):
        ctx.check("vertex optimal", All(Le(r * u[i], val), Le(-(r * u[i]), val)) if kind == "l1" else Le(r * u[i], val))


def configs(tier):
    q = tier == "quick"
    out = []
    for kind in ("l1", "simplex"):
        out.append(dict(name="wide_%s" % kind, fn=long_, params=dict(kind=kind, n=300), budget=120, bounds="n=300, three entries of the direction arbitrary"))
    for kind in ("l1", "simplex"):
        for n in (1, 2, 3, 4) + (() if q else (5,)):
            for call in (2, 3):
                for unit in (True, False):
                    out.append(dict(name="%s_n%d_args%d_%s" % (kind, n, call, "unit" if unit else "radius"), fn=lmo,
                                    params=dict(kind=kind, n=n, unit=unit, call=call), budget=100 if q else 900,
                                    bounds="n=%d, all directions and feasible points" % n))
        out.append(dict(name="%s_integers" % kind, fn=lmo, params=dict(kind=kind, n=2, unit=False, call=3, ints=True), budget=100 if q else 900,
                        bounds="n=2, integer directions and points with entries in [-1000, 1000], all radii"))
        out.append(dict(name="twice_%s" % kind, fn=history, params=dict(kind=kind, n=2), budget=100, bounds="two calls on one object, n=2, all directions and feasible points"))
    for n in (1, 2, 3):
        vs = [(s, i) for i in range(n) for s in (1.0, -1.0)]
        for k in range(1, min(len(vs), 4 if n == 2 or not q else 3) + 1):
            for keys in itertools.combinations(vs, k):
                nm = "_".join("%s%d" % ("p" if s > 0 else "m", i) for s, i in keys)
                out.append(dict(name="pairwise_n%d_%s" % (n, nm), fn=pairwise, params=dict(n=n, keys=list(keys)), budget=100 if q else 900,
                                bounds="n=%d, active set %s with arbitrary positive weights summing to 1" % (n, list(keys))))
    for c in out:
        c["linear"] = True
    return out
