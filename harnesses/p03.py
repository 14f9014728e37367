"""P03: 2-D total variation value, linear operator and Dykstra prox."""
import numpy as np
from vp.harness import All, Any, Eq, Imp, Le, LeAll

ASSUMPTIONS = ["The minimiser of the 2-D TV prox is characterised by its KKT system with one dual variable per neighbour pair."]


def edges(r, c):
    out = []
    for i in range(r):
        for j in range(c):
            if i + 1 < r:
                out.append((i * c + j, (i + 1) * c + j))
            if j + 1 < c:
                out.append((i * c + j, i * c + j + 1))
    return out


def value(ctx, r, c):
    a = ctx.real("alpha", lo=0)
    x = ctx.vec("x", r * c)
    x0 = x.copy()
    pen = ctx.cp.penalty.TotalVariation2D(a, (r, c))
    tv = 0.0
    for i, j in edges(r, c):
        tv = tv + ctx.abs(x[i] - x[j])
    ctx.check("value", Eq(pen(x), a * tv))
    ctx.same("argument unchanged", x, x0)


def linop(ctx, r, c):
    x = ctx.vec("x", r * c)
    L = ctx.cp.tv_prox.tv2d_linear_operator(r, c)
    E = edges(r, c)
    ctx.check("one row per neighbour pair", tuple(L.shape) == (len(E), r * c))
    y = L.dot(x)
    l1 = sum((ctx.abs(v) for v in y), 0.0)
    tv = sum((ctx.abs(x[i] - x[j]) for i, j in E), 0.0)
    ctx.check("|L x|_1 = TV", Eq(l1, tv))


def image(ctx, r, c, family):
    """all images, or a family with fewer free entries"""
    n = r * c
    if family is None:
        return ctx.vec("w", n)
    at = (lambda i, j: i * c + j) if c >= r else (lambda i, j: j * c + i)     # index along the longer side, line 0 / 1
    L = max(r, c)
    out = [None] * n
    a = ctx.vec("w", L)
    t = ctx.real("t")
    for j in range(L):
        out[at(0, j)] = a[j]
        out[at(1, j)] = {"flat": t, "opposite": t - a[j], "reversed": t + a[L - 1 - j], "spike": t if j == L - 1 else 0.0}[family]
    return ctx.array(out)


def prox(ctx, r, c, max_iter, lam, tol, api, part=(), family=None, ss=0.5):
    n = r * c
    w = image(ctx, r, c, family)
    for (i, j), up in part:                    # case split over configurations (together they cover all images)
        ctx.assume(w[i] <= w[j] if up else w[i] >= w[j])
    w0 = w.copy()
    if api == "penalty":
        pen = ctx.cp.penalty.TotalVariation2D(lam / ss, (r, c), max_iter=max_iter, tol=tol)
        x = pen.prox(w, ss)
    else:
        x = ctx.cp.tv_prox.prox_tv2d(w, lam, r, c, max_iter=max_iter, tol=tol)
    ctx.same("argument unchanged", w, w0)
    ctx.check("shape", np.shape(x) == (n,))
    ctx.observe("x", x)
    ctx.check("sum preserved", Eq(sum(x[i] for i in range(n)), sum(w0[i] for i in range(n))))
    warned = any("converge" in m for _, m in ctx.warnings())
    if warned:
        ctx.check("warning only after the budget", max_iter >= 1)
        return
    near_minimiser(ctx, x, w0, lam, r, c, tol)


def twice(ctx):
    """the value belongs to the image passed, whatever was evaluated before on the same object"""
    from harnesses.histlib import twice as tw
    a = ctx.real("alpha", lo=0)
    pen = ctx.cp.penalty.TotalVariation2D(a, (2, 2))
    tw(ctx, pen, 4, lambda v, y: ctx.check("value", Eq(v, a * sum((ctx.abs(y[i] - y[j]) for i, j in edges(2, 2)), 0.0))), flat=lambda v: [v])


def near_minimiser(ctx, x, w, lam, r, c, tol):
    """optimality up to tol: w - x = D^T u for edge duals u in [-lam, lam] such that an edge whose dual is not at the upper
    (lower) end satisfies x_i - x_j <= 2 tol (>= -2 tol).  This is what p + q = w - x, p in lam dTV_cols(y), q in lam dTV_rows(x),
    |x - y| <= tol amounts to.  The existence of u is a flow feasibility problem: by Hoffman's theorem it holds iff for every
    vertex set S the demand of S does not exceed the capacity leaving S minus the lower bounds entering it (sets where S and its
    complement are connected suffice)."""
    n = r * c
    E = edges(r, c)
    slack = 2 * tol + 1e-7
    hi = [ctx.ite(x[p] - x[q] < -slack, -lam, lam) for p, q in E]
    lo = [ctx.ite(x[p] - x[q] > slack, lam, -lam) for p, q in E]

    def connected(S):
        seen, todo = set(), [min(S)]
        while todo:
            v = todo.pop()
            seen.add(v)
            todo += [b for e in E for a, b in (e, e[::-1]) if a == v and b in S and b not in seen]
        return seen == S
    for bits in range(1, 2 ** n - 1):
        S = {v for v in range(n) if bits >> v & 1}
        if not connected(S) or not connected(set(range(n)) - S):
            continue
        cap = 0.0
        for k, (p, q) in enumerate(E):
            if p in S and q not in S:
                cap = cap + hi[k]
            elif q in S and p not in S:
                cap = cap - lo[k]
        ctx.check("minimiser up to the tolerance", Le(sum(w[v] - x[v] for v in S), cap))


def configs(tier):
    q = tier == "quick"
    out = []
    for r, c in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([] if q else [(4, 3), (3, 4), (4, 4)]):
        out.append(dict(name="value_%dx%d" % (r, c), fn=value, params=dict(r=r, c=c), merge=True, budget=100, bounds="%dx%d, all x, alpha>=0" % (r, c)))
        if (r, c) != (1, 1):
            out.append(dict(name="linop_%dx%d" % (r, c), fn=linop, params=dict(r=r, c=c), merge=True, budget=100, bounds="%dx%d, all x" % (r, c)))
    P = [(1, 2, 2), (2, 1, 2), (1, 3, 2), (3, 1, 2), (2, 2, 1), (2, 2, 2)] + ([] if q else [(1, 4, 3), (4, 1, 3), (2, 2, 3), (2, 3, 1), (3, 2, 1)])
    for r, c, it in P:
        for api in ("function", "penalty"):
            out.append(dict(name="prox_%dx%d_it%d_%s" % (r, c, it, api), fn=prox,
                            params=dict(r=r, c=c, max_iter=it, lam=1.0, tol=1e-3 if api == "function" else 1e-5, api=api), budget=90 if q else 1500,
                            bounds="%dx%d image, lam=1, tol=1e-3 (function) or 1e-5 (penalty), max_iter=%d, all entries" % (r, c, it),
                            solvers=(("smt", 1.0),)))
    # a coarse tolerance makes early acceptance a matter of a few iterations
    for r, c, it, tol in [(2, 2, 1, 0.25), (2, 2, 2, 0.25), (2, 3, 1, 0.25), (3, 2, 1, 0.25)] + ([] if q else [(2, 2, 2, 0.125), (2, 2, 3, 0.25)]):
        parts = [((), None, "")]
        if r * c > 4:
            parts = [((), f, "_" + f) for f in ("flat", "opposite", "reversed") + (() if q else ("spike",))]
            if not q:
                parts += [((((0, 1), a), ((c, c + 1), b), ((0, c), d)), None, "_%d%d%d" % (a, b, d)) for a in (0, 1) for b in (0, 1) for d in (0, 1)]
        for part, fam, nm in parts:
            out.append(dict(name="coarse_%dx%d_it%d_tol%g%s" % (r, c, it, tol, nm), fn=prox,
                            params=dict(r=r, c=c, max_iter=it, lam=1.0, tol=tol, api="function", part=part, family=fam), budget=120 if q else 1500,
                            bounds="%dx%d image, lam=1, tol=%g, max_iter=%d, all entries%s" % (
                                r, c, tol, it, " (second line %s)" % fam if fam else " of one of eight orderings" if nm else ""),
                            solvers=(("smt", 1.0),)))
    # the tolerance belongs to the image, not to the weight: step size and penalty weight far from one
    for r, c, it, lam, ss, api in [(1, 2, 1, 0.25, 8.0, "penalty"), (2, 1, 2, 4.0, 0.125, "penalty"), (2, 2, 1, 0.5, 4.0, "penalty"),
                                   (2, 2, 1, 0.5, 0.125, "penalty"), (2, 2, 1, 4.0, 0, "function"), (2, 2, 1, 0.125, 0, "function")]:
        out.append(dict(name="scaled_%dx%d_it%d_lam%g_step%g" % (r, c, it, lam, ss), fn=prox,
                        params=dict(r=r, c=c, max_iter=it, lam=lam, tol=0.25, api=api, ss=ss), budget=90 if q else 1500,
                        bounds="%dx%d image, lam=%g, step=%g, tol=0.25, max_iter=%d, all entries" % (r, c, lam, ss, it), solvers=(("smt", 1.0),)))
    out.append(dict(name="twice", fn=twice, params={}, budget=60, bounds="2x2 values twice on one object"))
    return out
