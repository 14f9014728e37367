"""P01: L1 and group-L1 prox are exact minimisers (KKT conditions of a strongly convex problem)."""
from vp.harness import All, Any, Eq, Eq1, Imp, Le, LeAll
from harnesses.histlib import twice
from harnesses.widelib import ends, wide

ASSUMPTIONS = ["The KKT system of the strongly convex prox problem is necessary and sufficient for the minimiser."]


def l1(ctx, n, unit, ints=False):
    alpha = ctx.real("alpha", lo=0)
    ss = 1.0 if unit else ctx.real("ss", lo=0)
    x = ctx.ints("x", n) if ints else ctx.vec("x", n)
    x0 = x.copy()
    pen = ctx.cp.penalty.L1Norm(alpha)
    p = pen.prox(x, ss)
    ctx.same("argument unchanged", x, x0)
    l1_spec(ctx, pen, p, x0, alpha, ss)
    ctx.observe("p", p)


def l1_spec(ctx, pen, p, x0, alpha, ss):
    n = len(x0)
    ctx.check("shape", p.shape == (n,))
    t = alpha * ss
    for i in range(n):
        # x - p = t * s with s in the subdifferential of |.| at p
        d = x0[i] - p[i]
        ctx.check("kkt", All(Le(d, t), Le(-t, d),
                             Any(Le(p[i], 0), Eq(d, t)), Any(Le(0, p[i]), Eq(d, -t))))
    ctx.check("value", Eq(pen(x0), alpha * sum(ctx.abs(x0[i]) for i in range(n))))


def group(ctx, n, groups, unit, ints=False):
    alpha = ctx.real("alpha", lo=0)
    ss = 1.0 if unit else ctx.real("ss", lo=0)
    x = ctx.ints("x", n) if ints else ctx.vec("x", n)
    x0 = x.copy()
    pen = ctx.cp.penalty.GroupL1(alpha, groups)
    p = pen.prox(x, ss)
    ctx.same("argument unchanged", x, x0)
    group_spec(ctx, pen, p, x0, alpha, ss, groups)
    ctx.observe("p", p)


def group_spec(ctx, pen, p, x0, alpha, ss, groups):
    n = len(x0)
    ctx.check("shape", p.shape == (n,))
    t = alpha * ss
    covered = set()
    val = 0.0
    for g in groups:
        covered |= set(g)
        nx = ctx.norm([x0[i] for i in g])
        val = val + nx
        # minimiser of t||u|| + 1/2||u-x||^2:  u = 0 if ||x|| <= t, else u = (1 - t/||x||) x
        for i in g:
            ctx.check("group kkt", Any(All(Le(nx, t), Eq(p[i], 0)), All(Le(t, nx), Eq(p[i] * nx, (nx - t) * x0[i]))))
    for i in range(n):
        if i not in covered:
            ctx.check("uncovered left alone", Eq(p[i], x0[i]))
    ctx.check("value", Eq(pen(x0), alpha * val))


def history(ctx, kind, what):
    """the same object used twice, with two steps"""
    alpha = ctx.real("alpha", lo=0)
    st = [ctx.real("s1", lo=0), ctx.real("s2", lo=0)]
    if kind == "l1":
        n, pen = 2, ctx.cp.penalty.L1Norm(alpha)
    else:
        n, pen = 3, ctx.cp.penalty.GroupL1(alpha, [[0, 1]])
    if what == "value":
        def spec(v, x0):
            ref = sum(ctx.abs(x0[i]) for i in range(n)) if kind == "l1" else ctx.norm([x0[0], x0[1]])
            ctx.check("value", Eq(v, alpha * ref))
        return twice(ctx, lambda x: pen(x), n, spec, flat=lambda v: [v])
    k = iter(st)

    def spec(p, x0):
        l1_spec(ctx, pen, p, x0, alpha, st[1]) if kind == "l1" else group_spec(ctx, pen, p, x0, alpha, st[1], [[0, 1]])
    twice(ctx, lambda x: pen.prox(x, next(k)), n, spec)


def long_(ctx, kind, n):
    """long vectors: three symbolic entries, the others and the threshold constant"""
    x = wide(ctx, "x", n, ends(n))
    x0 = x.copy()
    if kind == "l1":
        pen = ctx.cp.penalty.L1Norm(0.5)
        l1_spec(ctx, pen, pen.prox(x, 0.75), x0, 0.5, 0.75)
    else:
        groups = [list(range(2, n - 3)), [n - 2, n - 1]]
        pen = ctx.cp.penalty.GroupL1(0.5, groups)
        group_spec(ctx, pen, pen.prox(x, 0.75), x0, 0.5, 0.75, groups)
    ctx.same("argument unchanged", x, x0)


def configs(tier):
    out = []
    for kind in ("l1", "group"):
        out.append(dict(name="wide_%s" % kind, fn=long_, params=dict(kind=kind, n=1040), budget=120, bounds="n=1040, three entries arbitrary"))
    for kind in ("l1", "group"):
        for what in ("prox", "value"):
            out.append(dict(name="twice_%s_%s" % (kind, what), fn=history, params=dict(kind=kind, what=what), budget=100, merge=what == "value",
                            bounds="two calls on one object, n=%d, all points, steps" % (2 if kind == "l1" else 3)))
    for fn, kw in ((l1, dict(n=2)), (group, dict(n=3, groups=[[1, 2]]))):
        out.append(dict(name="%s_integers" % fn.__name__, fn=fn, params=dict(unit=False, ints=True, **kw), budget=100, bounds="integer entries in [-1000, 1000]"))
    for n in (1, 2, 3, 4):
        for unit in (True, False):
            out.append(dict(name="l1_n%d_%s" % (n, "unit" if unit else "step"), fn=l1, params=dict(n=n, unit=unit), budget=120,
                            bounds="n=%d, all x, alpha>=0%s" % (n, "" if unit else ", step>=0")))
    gs = [(2, [[0, 1]]), (3, [[1, 2]]), (3, [[0], [1, 2]]), (4, [[0, 1], [3]]), (4, [[1, 2]]), (4, [[0, 1], [2, 3]]), (3, [[0, 1, 2]]), (5, [[0, 1], [3, 4]])]
    if tier != "quick":
        gs += [(6, [[0, 1, 2], [3, 4, 5]]), (5, [[1, 2, 3, 4]])]
    for k, (n, g) in enumerate(gs):
        for unit in (True, False):
            out.append(dict(name="group_%s_of_%d_%s" % ("_".join("".join(map(str, h)) for h in g), n, "unit" if unit else "step"),
                            fn=group, params=dict(n=n, groups=g, unit=unit), budget=120,
                            bounds="n=%d groups=%s, all x, alpha>=0" % (n, g)))
    for c in out:
        c["linear"] = True
    return out
