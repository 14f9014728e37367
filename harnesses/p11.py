"""P11: Hessian products, per-sample derivatives and Lipschitz constants of the losses."""
import math
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.p10 import data, margins, sigmoid
from harnesses.widelib import ends, pattern as const, wide

ASSUMPTIONS = ["exp is uninterpreted apart from positivity, monotonicity and exp(-t) = 1/exp(t).",
               "svds returns the largest singular value s: ||A v|| <= s ||v|| for the tested direction v; it needs 0 < k < min(shape) and A != 0.",
               "The directional derivative is taken symbolically on the computed gradient, path by path.",
               "The curvature of a sample is w (a.v)^2 with w in [0, 1/4] for the logistic loss (Taylor: s(1-s) <= 1/4), w = 1 for the square, w in [0,1] for Huber."]


def svds_stub(ctx, M, n, p, v):
    if ctx.mode != "sym":
        return

    def svds(A, k=6, **kw):
        if not 0 < k < min(A.shape):
            raise ValueError("k must satisfy 0 < k < min(A.shape)")
        if kw.get("return_singular_vectors", True) is not False and kw.get("return_singular_vectors") != "none":
            raise E.Unsupported("svds with vectors")
        if k != 1:
            raise E.Unsupported("svds k=%d" % k)
        if tuple(A.shape) not in ((n, p), (p, n)):
            raise E.Unsupported("svds of another matrix")
        if ctx.decide(ctx.and_(*[M[i, j] == 0 for i in range(n) for j in range(p)])):
            raise RuntimeError("ARPACK error -9: Starting vector is zero")
        s = ctx.real("sigma_max", lo=0)
        ctx.assume(sum(t * t for t in margins(M, v, n, p)) <= s * s * sum(v[j] * v[j] for j in range(p)))
        return ctx.array([s])
    ctx.hook("svds", svds)


def hessian(ctx, n, p, kind, which, intercept=False):
    A, M = data(ctx, n, p, kind)
    b = ctx.vec("b", n, lo=0, hi=1)
    al = ctx.real("alpha", lo=0)
    x = ctx.vec("x", p + intercept)
    s = ctx.vec("s", p + intercept)
    x0, s0 = x.copy(), s.copy()
    loss = ctx.cp.loss.LogLoss(A, b, alpha=al)
    if intercept:
        loss.intercept = True
    H = getattr(loss, which)(x)
    if ctx.mode == "sym":
        v, g = loss.f_grad(x)
    h = H(s)
    ctx.check("shape", np.shape(h) == (p + intercept,))
    ctx.same("arguments unchanged", list(x) + list(s), list(x0) + list(s0))
    if ctx.mode == "sym":
        for i in range(p + intercept):
            d = sum((ctx.diff(g[i], x0[j]) * s0[j] for j in range(p + intercept)), 0.0)
            ctx.check("Hessian product is the derivative of the gradient", Eq1(h[i], d))
    else:
        c = x[-1] if intercept else 0.0
        z = [t + c for t in margins(M, x, n, p)]
        w = [sigmoid(ctx, t) * (1 - sigmoid(ctx, t)) for t in z]
        av = [t + (s[-1] if intercept else 0.0) for t in margins(M, s, n, p)]
        for i in range(p):
            ctx.check("Hessian product is the derivative of the gradient",
                      Eq1(h[i], sum(w[k] * av[k] * M[k, i] for k in range(n)) / n + al * s[i]))
        if intercept:
            ctx.check("Hessian product is the derivative of the gradient", Eq1(h[p], sum(w[k] * av[k] for k in range(n)) / n))


def deriv(ctx, n, p, kind, cls):
    A, M = data(ctx, n, p, kind)
    log = cls == "LogLoss"
    b = ctx.vec("b", n, **(dict(lo=0, hi=1) if log else {}))
    al = ctx.real("alpha", lo=0)
    x = ctx.vec("x", p)
    loss = getattr(ctx.cp.loss, cls)(A, b, alpha=al)
    v, g = loss.f_grad(x)
    z = margins(M, x, n, p)
    pd = loss.partial_deriv
    zz, bb = ctx.array(z), b.copy()
    d = pd(zz, bb)
    ctx.same("arguments unchanged", list(zz) + list(bb), z + list(b))
    ctx.check("shape", np.shape(d) == (n,))
    for j in range(p):
        ctx.check("gradient is the mean of per-sample derivatives",
                  Eq1(g[j], sum((d[i] * M[i, j] for i in range(n)), 0.0) / n + al * x[j]))
    # one sample at a time, as the stochastic solvers call it
    for i in range(n):
        di = pd(ctx.array([z[i]]), ctx.array([b[i]]))
        ctx.check("one sample at a time", Eq1(di[0], d[i]))


def margin(ctx):
    """derivative of one sample at any magnitude"""
    t = ctx.vec("t", 1)
    b = ctx.vec("b", 1, lo=0, hi=1)
    loss = ctx.cp.loss.LogLoss(ctx.const([[1.0]]), b)
    d = loss.partial_deriv(t, b)[0]
    ctx.check("finite", ctx.isfinite(d))
    if ctx.isfinite(d):
        s = sigmoid(ctx, t[0]) - b[0]
        ctx.check("derivative is sigmoid - b", All(Le(d - s, 1e-14), Le(s - d, 1e-14)))


def lipschitz(ctx, n, p, kind, cls):
    A, M = data(ctx, n, p, kind)
    log = cls == "LogLoss"
    b = ctx.vec("b", n, **(dict(lo=0, hi=1) if log else {}))
    al = ctx.real("alpha", lo=0)
    v = ctx.vec("v", p)
    svds_stub(ctx, M, n, p, v)
    loss = getattr(ctx.cp.loss, cls)(A, b, alpha=al)
    L = loss.lipschitz
    v2 = sum(v[j] * v[j] for j in range(p))
    av = margins(M, v, n, p)
    wm = 0.25 if log else 1.0
    if ctx.mode == "sym":
        t = [ctx.real("t%d" % i, lo=0) for i in range(n)]         # t_i = (a_i.v)^2, so the query stays small
        for i in range(n):
            ctx.assume(t[i] == av[i] * av[i])
            if p > 1:      # Cauchy-Schwarz
                ctx.assume(t[i] <= sum(M[i, j] * M[i, j] for j in range(p)) * v2)
    else:
        t = [a * a for a in av]
    # the curvature along v is at most wm t_i for sample i, and reaches it (w_i = wm)
    ctx.check("lipschitz bounds the curvature of the loss", Le(wm * sum(t) / n + al * v2, L * v2))


def max_lipschitz(ctx, n, p, kind, cls):
    A, M = data(ctx, n, p, kind)
    log = cls != "SquareLoss"
    b = ctx.vec("b", n, **(dict(lo=0, hi=1) if log else {}))
    al = ctx.real("alpha", lo=0)
    if cls == "function":
        L = ctx.cp.utils.get_max_lipschitz(A if kind != "none" else ctx.const(np.eye(n)), "logloss", al)
    else:
        L = getattr(ctx.cp.loss, cls)(A, b, alpha=al).max_lipschitz
    # sup over v of w (a.v)^2 / ||v||^2 is w ||a||^2, attained at v = a
    for i in range(n):
        ctx.check("max_lipschitz bounds the curvature of every sample",
                  Le((0.25 if log else 1.0) * sum(M[i, j] * M[i, j] for j in range(p)) + al, L))


def history(ctx, n, p, which):
    """two Hessian products of one operator and two operators of one loss do not disturb each other"""
    A = ctx.mat("A", n, p)
    b = ctx.vec("b", n, lo=0, hi=1)
    al = ctx.real("alpha", lo=0)
    x, y, s, t = (ctx.vec(k, p) for k in "xyst")
    x0, y0 = x.copy(), y.copy()
    new = lambda: ctx.cp.loss.LogLoss(A, b, alpha=al)
    ref = list(getattr(new(), which)(x0.copy())(t.copy()))
    ref2 = list(getattr(new(), which)(y0.copy())(t.copy()))
    loss = new()
    how = ctx.choose("history", 4)
    H = getattr(loss, which)(x)
    if how == 0:         # another direction first
        r = H(s)
        keep = list(r)
        got = list(H(t))
        ctx.check("earlier product unchanged by a later one", Eq(list(r), keep))
    elif how == 1:       # another point in between
        H2 = getattr(loss, which)(y)
        got = list(H(t))
        ctx.check("product at the second point", Eq(list(H2(t)), ref2))
    elif how == 2:       # the value and gradient elsewhere in between
        loss.f_grad(y)
        loss(y)
        got = list(H(t))
    else:                # the same direction array, refilled
        u = s.copy()
        H(u)
        u[:] = t
        got = list(H(u))
    ctx.check("product depends on the point and the direction only", Eq(got, ref))


def long_(ctx, what, n):
    """many samples: per-sample derivatives, the largest curvature and Hessian products; one feature"""
    at = ends(n)
    if what.startswith("deriv"):
        log = what.endswith("LogLoss")
        z = wide(ctx, "z", n, at)
        b = ctx.zeros(n)
        for i in range(n):
            b[i] = (i % 3) / 2.0
        for i in at:
            b[i] = ctx.real("b%d" % i, lo=0, hi=1)
        loss = getattr(ctx.cp.loss, what[6:])(ctx.const([[1.0]]), ctx.const([1.0]))
        d = loss.partial_deriv(z.copy(), b.copy())
        ctx.check("shape", np.shape(d) == (n,))
        for i in range(n):
            t = (sigmoid(ctx, z[i]) if log else z[i]) - b[i]
            ctx.check("derivative of the sample", All(Le(d[i] - t, 1e-14), Le(t - d[i], 1e-14)))
        return
    if what.startswith("max"):
        a = wide(ctx, "a", n, at)
        A = ctx.zeros(n, 1)
        for i in range(n):
            A[i, 0] = a[i]
        L = getattr(ctx.cp.loss, what[4:])(A, ctx.const([0.5] * n)).max_lipschitz
        for i in range(n):
            ctx.check("max_lipschitz bounds the curvature of every sample", Le((0.25 if what.endswith("LogLoss") else 1.0) * a[i] * a[i], L))
        return
    rows = [1.0 + at.index(i) if i in at else 0.0 for i in range(n)]
    x, s = ctx.vec("x", 1), ctx.vec("s", 1)
    loss = ctx.cp.loss.LogLoss(ctx.const([[v] for v in rows]), ctx.const([0.5] * n), alpha=0.25)
    h = getattr(loss, what)(x)(s)
    w = [sigmoid(ctx, rows[i] * x[0]) * (1 - sigmoid(ctx, rows[i] * x[0])) * rows[i] * rows[i] for i in at]
    ctx.check("Hessian product is the derivative of the gradient", Eq1(h[0], (sum(w) / n + 0.25) * s[0]))


def configs(tier):
    q = tier == "quick"
    out = []
    Bq = 60 if q else 600
    for what in ("deriv_LogLoss", "deriv_SquareLoss", "max_LogLoss", "max_SquareLoss", "hessian_mv", "hessian_trace"):
        out.append(dict(name="wide_" + what, fn=long_, params=dict(what=what, n=300), budget=Bq, exp_bounds=False, bounds="300 samples, three of them arbitrary"))
    for which in ("hessian_mv", "hessian_trace"):
        for n, p in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([] if q else [(3, 2), (2, 3)]):
            for kind in ("dense", "sparse"):
                for ic in (False, True):
                    if q and ic and n * p == 4:
                        continue
                    out.append(dict(name="%s_%dx%d_%s%s" % (which, n, p, kind, "_intercept" if ic else ""), fn=hessian,
                                    params=dict(n=n, p=p, kind=kind, which=which, intercept=ic), budget=Bq, exp_bounds=False,
                                    bounds="%d samples, %d features" % (n, p)))
        for kind in ("csc", "fortran", "repeated"):
            out.append(dict(name="%s_1x2_%s" % (which, kind), fn=hessian, params=dict(n=1, p=2, kind=kind, which=which), budget=Bq, exp_bounds=False,
                            bounds="%s data, 1 sample, 2 features" % kind))
    for cls in ("LogLoss", "SquareLoss"):
        for kind in ("csc", "fortran", "repeated"):
            out.append(dict(name="deriv_%s_1x2_%s" % (cls, kind), fn=deriv, params=dict(n=1, p=2, kind=kind, cls=cls), budget=Bq,
                            exp_bounds=False, bounds="%s data, 1 sample, 2 features" % kind))
            out.append(dict(name="max_lipschitz_%s_2x2_%s" % (cls, kind), fn=max_lipschitz, params=dict(n=2, p=2, kind=kind, cls=cls),
                            budget=Bq, bounds="%s data, 2 samples, 2 features" % kind))
            out.append(dict(name="lipschitz_%s_2x2_%s" % (cls, kind), fn=lipschitz, params=dict(n=2, p=2, kind=kind, cls=cls), budget=Bq,
                            bounds="%s data, 2 samples, 2 features, any direction" % kind))
        for n, p in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([] if q else [(3, 2)]):
            for kind in ("dense", "sparse_holes"):
                out.append(dict(name="deriv_%s_%dx%d_%s" % (cls, n, p, kind), fn=deriv, params=dict(n=n, p=p, kind=kind, cls=cls), budget=Bq,
                                exp_bounds=False, bounds="%d samples, %d features" % (n, p)))
    out.append(dict(name="deriv_any_margin", fn=margin, params={}, budget=Bq, exp_overflow=True, huge=True, bounds="one margin, every real"))
    for cls in ("LogLoss", "SquareLoss", "HuberLoss"):
        for n, p in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([] if q else [(3, 3), (2, 3)]):
            for kind in ("dense", "sparse"):
                out.append(dict(name="lipschitz_%s_%dx%d_%s" % (cls, n, p, kind), fn=lipschitz, params=dict(n=n, p=p, kind=kind, cls=cls), budget=Bq,
                                bounds="%d samples, %d features, any direction" % (n, p)))
    for cls in ("LogLoss", "SquareLoss", "function"):
        for n, p in [(1, 1), (2, 2), (3, 2)] + ([] if q else [(3, 3), (4, 2)]):
            for kind in ("dense", "sparse"):
                out.append(dict(name="max_lipschitz_%s_%dx%d_%s" % (cls, n, p, kind), fn=max_lipschitz, params=dict(n=n, p=p, kind=kind, cls=cls),
                                budget=Bq, bounds="%d samples, %d features" % (n, p)))
    for which in ("hessian_mv", "hessian_trace"):
        for n, p in ((1, 1),) if q else ((1, 1), (1, 2)):
            out.append(dict(name="history_%s_%dx%d" % (which, n, p), fn=history, params=dict(n=n, p=p, which=which), budget=Bq, exp_bounds=False,
                            bounds="%d samples, %d features, two products or two points on one object" % (n, p)))
    return out
