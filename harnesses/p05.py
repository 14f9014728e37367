"""P05: prox of constraint sets = euclidean projection."""
import math
import numpy as np
from vp.harness import All, Any, B, Eq, Imp, Le, LeAll
from harnesses.histlib import twice
from harnesses.widelib import pattern, wide

ASSUMPTIONS = ["The projection onto a closed convex set is unique and characterised by its KKT system."]


def make(ctx, kind, r):
    C = ctx.cp.constraint
    return {"linf": lambda: C.LinfBall(r), "l2": lambda: C.L2Ball(r), "l1": lambda: C.L1Ball(r),
            "simplex": lambda: C.SimplexConstraint(r)}[kind]()


def kkt(ctx, kind, v, p, r):
    n = len(v)
    if kind == "linf":
        for i in range(n):
            ctx.check("projection", All(Le(p[i], r), Le(-r, p[i]), Any(All(Le(v[i], r), Le(-r, v[i]), Eq(p[i], v[i])),
                                                                     All(Le(r, v[i]), Eq(p[i], r)), All(Le(v[i], -r), Eq(p[i], -r)))))
    elif kind == "l2":
        nv = ctx.norm(v)
        for i in range(n):
            ctx.check("projection", Any(All(Le(nv, r), Eq(p[i], v[i])), All(Le(r, nv), Eq(p[i] * nv, r * v[i]))))
    elif kind == "simplex":
        ctx.check("in the set", All([Le(0, p[i]) for i in range(n)], Eq(sum(p[i] for i in range(n)), r)))
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.check("projection", Any(Le(p[i], 0), Le(v[j] - p[j], v[i] - p[i])))
    else:
        a = [ctx.abs(x) for x in v]
        q = [ctx.abs(x) for x in p]
        sa, sq = sum(a), sum(q)
        ctx.check("in the set", Le(sq, r))
        inside = All(Le(sa, r), [Eq(p[i], v[i]) for i in range(n)])
        cond = [Le(r, sa), Eq(sq, r)]
        for i in range(n):
            cond.append(Any(Eq(p[i], 0), All(Le(0, p[i]), Le(0, v[i])), All(Le(p[i], 0), Le(v[i], 0))))
            cond.append(Le(q[i], a[i]))
            for j in range(n):
                if i != j:
                    cond.append(Any(Le(q[i], 0), Le(a[j] - q[j], a[i] - q[i])))
        ctx.check("projection", Any(inside, All(cond)))


def proj(ctx, kind, n, unit, member, ints=False):
    r = 1.0 if unit else ctx.real("r", gt=0)
    v = ctx.ints("v", n) if ints else ctx.vec("v", n)
    if member:
        # an element of the set, described independently of the code
        if kind == "linf":
            for i in range(n):
                ctx.assume(ctx.and_(v[i] <= r, v[i] >= -r))
        elif kind == "l2":
            ctx.assume(sum(v[i] * v[i] for i in range(n)) <= r * r)
        elif kind == "l1":
            ctx.assume(sum(ctx.abs(v[i]) for i in range(n)) <= r)
        else:
            for i in range(n):
                ctx.assume(v[i] >= 0)
            if ctx.mode == "sym":
                ctx.assume(sum(v[i] for i in range(n)) == r)
    v0 = v.copy()
    S = make(ctx, kind, r)
    p = S.prox(v, 1.0)
    ctx.check("shape", np.shape(p) == (n,))
    ctx.same("argument unchanged", v, v0)
    if member:
        ctx.check("members unchanged", Eq(p, v0))
    else:
        kkt(ctx, kind, v0, p, r)
    ctx.observe("p", p)


def history(ctx, kind, n):
    """the same object used twice"""
    r = ctx.real("r", gt=0)
    S = make(ctx, kind, r)
    twice(ctx, lambda v: S.prox(v, 1.0), n, lambda p, v: kkt(ctx, kind, v, p, r))


def indicator(ctx, n):
    r = ctx.real("r", gt=0)
    v = ctx.vec("v", n)
    val = ctx.cp.constraint.L1Ball(r)(v)
    l1 = sum(ctx.abs(v[i]) for i in range(n))
    ctx.check("0 or inf", ctx.or_(val == 0, val == math.inf))
    ctx.check("0 on members", Any(Eq(val, 0), Le(r, l1)) if ctx.mode == "conc" else Any(Eq(val, 0), B(l1 > r)))
    ctx.check("inf outside", Any(B(val == math.inf), Le(l1, r)))


def boundary(ctx, n):
    """the vertices of the ball are members (no rounding is involved: |r| + 0 + ... + 0 == r)"""
    r = ctx.real("r", gt=0)
    i = ctx.choose("axis", n)
    sg = -1.0 if ctx.choose("neg", 2) else 1.0
    x = ctx.array([sg * r if j == i else 0.0 for j in range(n)])
    ctx.check("0 on the vertices", Eq(ctx.cp.constraint.L1Ball(r)(x), 0))


def functions(ctx, kind, n):
    """the module-level projection functions with their default radius and a given one"""
    v = ctx.vec("v", n)
    v0 = v.copy()
    C = ctx.cp.constraint
    f = C.euclidean_proj_simplex if kind == "simplex" else C.euclidean_proj_l1ball
    p = f(v)
    kkt(ctx, kind, v0, p, 1.0)
    ctx.same("argument unchanged", v, v0)


def long_(ctx, kind, n):
    """a long vector with one symbolic entry, larger than the others"""
    k = n // 2 + 1
    v = wide(ctx, "v", n, [k], lo=2, hi=3)
    v0 = v.copy()
    r = {"linf": 1.0, "l2": 16.0, "l1": 100.0, "simplex": 400.0}[kind]
    p = make(ctx, kind, r).prox(v, 1.0)
    ctx.same("argument unchanged", v, v0)
    if kind in ("linf", "l2"):
        return kkt(ctx, kind, v0, p, r)
    th = v0[k] - p[k]
    if kind == "l1":
        ctx.check("threshold not negative", Le(0, th))
    ctx.check("in the set", Eq(sum((p[i] if kind == "simplex" else ctx.abs(p[i])) for i in range(n)), r))
    for i in range(n):
        if i != k:
            a = v0[i] if kind == "simplex" else abs(v0[i])
            s = 1.0 if kind == "simplex" or v0[i] >= 0 else -1.0
            ctx.check("projection", Any(All(Eq(p[i], 0), Le(a, th)), All(Eq(s * p[i], a - th), Le(th, a))))


def configs(tier):
    q = tier == "quick"
    out = []
    for kind in ("linf", "l2", "l1", "simplex"):
        out.append(dict(name="wide_%s" % kind, fn=long_, params=dict(kind=kind, n=300), budget=120, bounds="n=300, one entry arbitrary in [2, 3], radius fixed"))
    for kind in ("linf", "l2", "l1", "simplex"):
        for n in (1, 2, 3, 4) + (() if q or kind == "l1" else (5,)):
            for unit in (True, False):
                if q and kind == "l1" and n == 4 and unit:
                    continue
                nm = "unit" if unit else "radius"
                out.append(dict(name="%s_n%d_%s" % (kind, n, nm), fn=proj, params=dict(kind=kind, n=n, unit=unit, member=False),
                                budget=250 if q else 1200, bounds="n=%d, all points%s" % (n, "" if unit else ", all radii > 0")))
            out.append(dict(name="%s_n%d_member" % (kind, n), fn=proj, params=dict(kind=kind, n=n, unit=False, member=True),
                            budget=120 if q else 600, bounds="n=%d, all members, all radii > 0" % n))
        out.append(dict(name="twice_%s" % kind, fn=history, params=dict(kind=kind, n=2), budget=100, bounds="two calls on one object, n=2, all points, all radii > 0"))
        out.append(dict(name="%s_integers" % kind, fn=proj, params=dict(kind=kind, n=2, unit=False, member=False, ints=True),
                        budget=100, bounds="n=2, integer entries in [-1000, 1000], all radii > 0"))
    out.append(dict(name="l1_indicator", fn=indicator, params=dict(n=3), budget=60, bounds="n=3"))
    out.append(dict(name="l1_indicator_n1", fn=indicator, params=dict(n=1), budget=60, bounds="n=1"))
    out.append(dict(name="l1_boundary", fn=boundary, params=dict(n=3), budget=60, bounds="n=3, all radii, the six vertices"))
    for kind in ("l1", "simplex"):
        out.append(dict(name="function_%s" % kind, fn=functions, params=dict(kind=kind, n=2), budget=60, bounds="n=2, default radius"))
    for c in out:
        c["linear"] = True
    return out
