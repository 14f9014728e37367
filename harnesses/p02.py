"""P02: 1-D total variation prox: KKT of  lam*sum|p[k+1]-p[k]| + 1/2||p-w||^2  on every path of the taut-string code."""
from vp.harness import All, Any, Eq, Le
from harnesses.histlib import twice
from harnesses.widelib import ends, wide

ASSUMPTIONS = ["The KKT system of the strongly convex prox problem is necessary and sufficient for the minimiser."]


def tv_kkt(ctx, label, w, p, lam):
    n = len(w)
    ctx.check(label + ": sum preserved", Eq(sum(p[i] for i in range(n)), sum(w[i] for i in range(n))))
    u = 0.0
    for k in range(n - 1):
        u = u + (w[k] - p[k])
        ctx.check(label + ": kkt", All(Le(u, lam), Le(-lam, u),
                                       Any(Le(p[k + 1], p[k]), Eq(u, -lam)), Any(Le(p[k], p[k + 1]), Eq(u, lam))))


def tv1d(ctx, n, part=()):
    lam = ctx.real("lam", lo=0)
    w = ctx.vec("w", n)
    for (i, j), up in part:                    # case split over configurations (together they cover all signals)
        ctx.assume(w[i] <= w[j] if up else w[i] >= w[j])
    w0 = w.copy()
    p = ctx.cp.tv_prox.prox_tv1d(w, lam)
    ctx.same("argument unchanged", w, w0)
    ctx.check("shape", p.shape == (n,))
    tv_kkt(ctx, "tv1d", w0, p, lam)
    ctx.observe("p", p)


def fused(ctx, n, alpha):
    a = ctx.real("alpha", lo=0) if alpha is None else alpha
    ss = ctx.real("ss", lo=0)
    w = ctx.vec("w", n)
    w0 = w.copy()
    pen = ctx.cp.penalty.FusedLasso(a)
    p = pen.prox(w, ss)
    ctx.same("argument unchanged", w, w0)
    tv_kkt(ctx, "fused", w0, p, a * ss)
    ctx.observe("p", p)


def history(ctx, n, which):
    a = ctx.real("alpha", lo=0)
    st = [ctx.real("s1", lo=0), ctx.real("s2", lo=0)]
    k = iter(st)
    if which == "fused":
        pen = ctx.cp.penalty.FusedLasso(a)
        twice(ctx, lambda x: pen.prox(x, next(k)), n, lambda p, w: tv_kkt(ctx, "fused", w, p, a * st[1]))
    else:
        twice(ctx, lambda x: ctx.cp.tv_prox.prox_tv1d(x, next(k)), n, lambda p, w: tv_kkt(ctx, "tv1d", w, p, st[1]))


def value(ctx, n):
    a = ctx.real("alpha", lo=0)
    w = ctx.vec("w", n)
    pen = ctx.cp.penalty.FusedLasso(a)
    tv = 0.0
    for k in range(n - 1):
        tv = tv + ctx.abs(w[k + 1] - w[k])
    ctx.check("value", Eq(pen(w), a * tv))


def matrix(ctx, which, r, c):
    lam = ctx.real("lam", lo=0)
    w = ctx.vec("w", r * c)
    w0 = w.copy()
    f = getattr(ctx.cp.tv_prox, "prox_tv1d_" + which)
    p = f(lam, w, r, c)
    ctx.same("argument unchanged", w, w0)
    W, P = w0.reshape(r, c), p.reshape(r, c)
    if which == "cols":
        for j in range(c):
            tv_kkt(ctx, "cols", W[:, j], P[:, j], lam)
    else:
        for i in range(r):
            tv_kkt(ctx, "rows", W[i, :], P[i, :], lam)
    ctx.observe("p", p)


def long_(ctx, n, at):
    """a long signal with one symbolic entry"""
    w = wide(ctx, "w", n, [at])
    w0 = w.copy()
    p = ctx.cp.tv_prox.prox_tv1d(w, 0.625)
    ctx.same("argument unchanged", w, w0)
    tv_kkt(ctx, "tv1d", w0, p, 0.625)


def configs(tier):
    q = tier == "quick"
    out = []
    for at in (0, 151, 299):
        out.append(dict(name="wide_%d" % at, fn=long_, params=dict(n=300, at=at), budget=120, bounds="n=300, entry %d arbitrary" % at))
    for n in range(1, 6 if q else 8):
        out.append(dict(name="tv1d_n%d" % n, fn=tv1d, params=dict(n=n), budget=100 if q else 1500, bounds="n=%d, all w, step>=0" % n,
                        solvers=(("smt", 0.7), ("nlsat", 0.3))))
    if q:
        for bits in range(8):
            part = tuple(((e, e + 1), bool(bits >> k & 1)) for k, e in enumerate((0, 2, 4)))
            out.append(dict(name="tv1d_n6_%d%d%d" % tuple(u for _, u in part), fn=tv1d, params=dict(n=6, part=part), budget=250,
                            bounds="n=6, step>=0, all w of one of eight orderings", solvers=(("smt", 0.7), ("nlsat", 0.3))))
    for n in range(2, 6 if q else 7):
        out.append(dict(name="fused_n%d_alpha2" % n, fn=fused, params=dict(n=n, alpha=2.0), budget=100 if q else 600, bounds="n=%d, alpha=2, all w, step>=0" % n))
    for n in range(2, 6 if q else 7):
        out.append(dict(name="fused_n%d" % n, fn=fused, params=dict(n=n, alpha=None), budget=100 if q else 600, bounds="n=%d, all w, alpha, step>=0" % n))
    for w in ("fused", "function"):
        out.append(dict(name="twice_%s" % w, fn=history, params=dict(n=3 if w == "function" else 2, which=w), budget=100, bounds="two calls, n<=3, all signals, steps"))
    out.append(dict(name="value_n4", fn=value, params=dict(n=4), budget=100, merge=True, bounds="n=4"))
    shapes = [(2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4), (4, 2), (2, 4)] + ([] if q else [(3, 3)])
    for r, c in shapes:
        for w in ("cols", "rows"):
            if q and (w, r, c) in (("cols", 4, 2), ("rows", 2, 4)):
                continue
            out.append(dict(name="%s_%dx%d" % (w, r, c), fn=matrix, params=dict(which=w, r=r, c=c), budget=100 if q else 1200, bounds="%dx%d, all entries, step>=0" % (r, c)))
    for c in out:
        c["linear"] = True
    return out
