"""P10: loss values are their formulas, gradients are their derivatives."""
import math
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Claim, Eq, Eq1, Imp, Le, Lt
from harnesses.widelib import ends, pattern as const, wide

ASSUMPTIONS = ["exp and log1p are uninterpreted apart from: positivity, monotonicity, exp(-t) = 1/exp(t), log(1+e^t) = log(1+e^-t) + t, "
               "u/(1+u) <= log1p(u) <= u, log1p(u) >= u - u^2/2, rational enclosures of exp at the break points, and overflow to inf above 709.78.",
               "The derivative is taken symbolically on the computed value, path by path."]


class Rel(Claim):
    """|a - ref| <= rel * |ref| + tiny, evaluated without slack in replays"""

    def __init__(self, ctx, a, ref, rel):
        self.a, self.ref, self.rel = a, ref, rel
        if ctx.mode == "sym":
            if not E.is_sym(a) and not math.isfinite(float(a)):
                self.c = B(False)
            else:
                r = ctx.abs(ref)
                self.c = Le(ctx.abs(a - ref), rel * r)

    def viol(self, m):
        return self.c.viol(0)

    def holds(self, tol):
        a, r = float(self.a), float(self.ref)
        return math.isfinite(a) and abs(a - r) <= 20 * self.rel * abs(r) + 1e-300


def exp_(ctx, t):
    return E.exp(t) if ctx.mode == "sym" else math.exp(t)


def log1p_(ctx, t):
    return E.log1p(t) if ctx.mode == "sym" else math.log1p(t)


def softplus_neg(ctx, z):
    """log(1 + exp(-z)), computed on the stable side"""
    if ctx.decide(z >= 0):
        return log1p_(ctx, exp_(ctx, -z))
    return log1p_(ctx, exp_(ctx, z)) - z


def sigmoid(ctx, z):
    if ctx.decide(z >= 0):
        return 1.0 / (1.0 + exp_(ctx, -z))
    e = exp_(ctx, z)
    return e / (1.0 + e)


def scalar(ctx, what):
    """one margin of any magnitude"""
    t = ctx.vec("t", 1)
    b = ctx.vec("b", 1, lo=0, hi=1)
    L = ctx.cp.loss.LogLoss(ctx.const([[1.0]]), b)
    t0, b0 = t.copy(), b.copy()
    if what == "logsig":
        v = L.logsig(t)[0]
        ctx.check("log-sigmoid accurate", Rel(ctx, v, -softplus_neg(ctx, t0[0]), 1e-14))
    elif what == "expit_b":
        v = L.expit_b(t, b)[0]
        s = sigmoid(ctx, t0[0])
        ctx.check("sigmoid - b accurate", All(Le(v - (s - b0[0]), 1e-14), Le((s - b0[0]) - v, 1e-14)) if ctx.mode == "conc" or E.is_sym(v) else B(False))
    else:
        v, g = L.f_grad(t)
        ctx.check("finite", ctx.isfinite(v) and ctx.isfinite(g))
        ref = (1 - b0[0]) * t0[0] + softplus_neg(ctx, t0[0])
        if ctx.isfinite(v):
            sc = 1e-13 * (1 + ctx.abs(t0[0]))
            ctx.check("value accurate", All(Le(v - ref, sc), Le(ref - v, sc)))
        s = sigmoid(ctx, t0[0])
        if ctx.isfinite(g):
            ctx.check("gradient accurate", All(Le(g[0] - (s - b0[0]), 1e-13), Le((s - b0[0]) - g[0], 1e-13)))
    ctx.same("arguments unchanged", [t[0], b[0]], [t0[0], b0[0]])


def margins(A, x, n, p):
    return [sum((A[i, j] * x[j] for j in range(p)), 0.0) for i in range(n)]


def common(ctx, loss, x, x0, p, poly=True):
    v, g = loss.f_grad(x)
    ctx.check("gradient shape", np.shape(g) == (p,))
    ctx.check("calling the object gives the value", Eq(loss(x), v))
    ctx.check("return_gradient=False gives the value", Eq(loss.f_grad(x, return_gradient=False), v))
    ctx.same("argument unchanged", list(x), list(x0))
    if poly:
        ctx.observe("v", v)
        ctx.observe("g", g)
    return v, g


def derivative(ctx, v, g, x, p):
    if ctx.mode == "sym":
        for j in range(p):
            ctx.check("gradient is the derivative of the value", Eq1(g[j], ctx.diff(v, x[j])))


def data(ctx, n, p, kind):
    A = ctx.mat("A", n, p)
    if kind == "none":
        I = np.eye(n)
        return None, I
    if kind == "dense":
        return A, A
    if kind == "fortran":        # a transposed view
        T = ctx.zeros(p, n)
        for i in range(n):
            for j in range(p):
                T[j, i] = A[i, j]
        return T.T, A
    pat = np.ones((n, p), dtype=bool)
    if kind in ("csc", "repeated"):
        return ctx.sparse(A, pat, fmt=kind), A
    if kind == "sparse_holes" and p > 1:
        for i in range(n):
            pat[i, (i + 1) % p] = False
    M = np.zeros((n, p), dtype=object)
    for i in range(n):
        for j in range(p):
            M[i, j] = A[i, j] if pat[i, j] else 0.0
    return ctx.sparse(A, pat), M


def logistic(ctx, n, p, kind, intercept=False):
    A, M = data(ctx, n, p, kind)
    b = ctx.vec("b", n, lo=0, hi=1)
    al = ctx.real("alpha", lo=0)
    k = p + 1 if intercept else p
    x = ctx.vec("x", k)
    x0 = x.copy()
    z = [t + x[p] if intercept else t for t in margins(M, x, n, p)]
    if ctx.mode == "sym":
        for i in range(n):
            ctx.assume(z[i] >= -17)
            ctx.assume(z[i] <= 36)
    loss = ctx.cp.loss.LogLoss(A, b, alpha=al)
    if intercept:
        loss.intercept = True
    v, g = common(ctx, loss, x, x0, k, False)
    ref = sum(((1 - b[i]) * z[i] + softplus_neg(ctx, z[i]) for i in range(n)), 0.0) / n + 0.5 * al * sum(x0[j] * x0[j] for j in range(p))
    ctx.check("value is the documented formula", Eq(v, ref))
    if ctx.mode == "sym":
        derivative(ctx, v, g, x, k)
    else:
        for j in range(k):
            gj = sum((sigmoid(ctx, z[i]) - b[i]) * (M[i, j] if j < p else 1.0) for i in range(n)) / n + (al * x[j] if j < p else 0.0)
            ctx.check("gradient is the derivative of the value", Eq1(g[j], gj))


def square(ctx, n, p, kind):
    A, M = data(ctx, n, p, kind)
    b = ctx.vec("b", n)
    al = ctx.real("alpha", lo=0)
    x = ctx.vec("x", p)
    x0 = x.copy()
    r = [zi - b[i] for i, zi in enumerate(margins(M, x, n, p))]
    loss = ctx.cp.loss.SquareLoss(A, b, alpha=al)
    v, g = common(ctx, loss, x, x0, p)
    ctx.check("value is the documented formula", Eq(v, 0.5 * sum(t * t for t in r) / n + 0.5 * al * sum(x0[j] * x0[j] for j in range(p))))
    derivative(ctx, v, g, x, p)
    for j in range(p):
        ctx.check("gradient formula", Eq1(g[j], sum(r[i] * M[i, j] for i in range(n)) / n + al * x[j]))


def huber(ctx, n, p, kind):
    A, M = data(ctx, n, p, kind)
    b = ctx.vec("b", n)
    al, de = ctx.real("alpha", lo=0), ctx.real("delta", gt=0)
    x = ctx.vec("x", p)
    x0 = x.copy()
    r = [zi - b[i] for i, zi in enumerate(margins(M, x, n, p))]
    loss = ctx.cp.loss.HuberLoss(A, b, alpha=al, delta=de)
    v, g = common(ctx, loss, x, x0, p)
    h, dh = [], []
    for t in r:
        sg = 1.0 if ctx.decide(t >= 0) else -1.0
        if ctx.decide(sg * t < de):
            h.append(0.5 * t * t)
            dh.append(t)
        else:
            h.append(de * (sg * t - 0.5 * de))
            dh.append(sg * de)
    ctx.check("value is the documented formula", Eq(v, sum(h) / n + 0.5 * al * sum(x0[j] * x0[j] for j in range(p))))
    for j in range(p):
        ctx.check("gradient formula", Eq1(g[j], sum(dh[i] * M[i, j] for i in range(n)) / n + al * x[j]))


def history(ctx, cls, n, p):
    """the same loss evaluated at two points: in place or with the first gradient kept"""
    A = ctx.mat("A", n, p)
    b = ctx.vec("b", n, **(dict(lo=0, hi=1) if cls == "LogLoss" else {}))
    al = ctx.real("alpha", lo=0)
    x, y = ctx.vec("x", p), ctx.vec("y", p)
    C = getattr(ctx.cp.loss, cls)
    loss = C(A, b, alpha=al)
    what = ctx.choose("first", 3)
    r = loss.f_grad(x) if what == 0 else (loss(x), []) if what == 1 else (loss.f_grad(x, return_gradient=False), [])
    keep = list(r[1])
    ref = C(A, b, alpha=al).f_grad(y.copy())
    if ctx.choose("same array", 2):
        x[:] = y
        y = x
    v = loss(y)
    w = loss.f_grad(y, return_gradient=False)
    f, g = loss.f_grad(y)
    ctx.check("earlier gradient unchanged by a later call", Eq(list(r[1]), keep))
    ctx.check("value depends on the point only", Eq([v, w, f], [ref[0]] * 3))
    ctx.check("gradient depends on the point only", Eq(g, ref[1]))


def long_(ctx, cls, m, kind):
    """many samples, one feature; the point and three targets arbitrary, the rest constant"""
    log = cls == "LogLoss"
    at = ends(m)
    rows = [1.0 + (i % 4) / 4 if not log else (1.0 + at.index(i) if i in at else 0.0) for i in range(m)]
    M = np.array([[v] for v in rows])
    A = ctx.sparse(ctx.const(M), fmt="csr") if kind == "sparse" else ctx.const(M)
    x = ctx.vec("x", 1, lo=-0.25, hi=0.25)
    b = ctx.zeros(m)
    for i in range(m):
        b[i] = 0.5 if log else const(i)
    for k, i in enumerate(at):
        b[i] = ctx.real("b%d" % i, lo=0 if log else 2, hi=1 if log else 3)
    al = 0.25
    loss = getattr(ctx.cp.loss, cls)(A, b, alpha=al)
    v, g = loss.f_grad(x)
    ctx.check("calling the object gives the value", Eq(loss(x), v))
    ctx.check("gradient shape", np.shape(g) == (1,))
    r = [rows[i] * x[0] - b[i] for i in range(m)]
    if log:
        ref = sum(((sigmoid(ctx, rows[i] * x[0]) - b[i]) * rows[i] for i in at), 0.0) / m + al * x[0]
    elif cls == "SquareLoss":
        ref = sum((r[i] * rows[i] for i in range(m)), 0.0) / m + al * x[0]
        ctx.check("value is the documented formula", Eq(v, 0.5 * sum(t * t for t in r) / m + 0.5 * al * x[0] * x[0]))
    else:
        h, dh = [], []
        for t in r:
            sg = 1.0 if ctx.decide(t >= 0) else -1.0
            if ctx.decide(sg * t < 1.0):
                h.append(0.5 * t * t)
                dh.append(t)
            else:
                h.append(sg * t - 0.5)
                dh.append(sg)
        ref = sum((dh[i] * rows[i] for i in range(m)), 0.0) / m + al * x[0]
        ctx.check("value is the documented formula", Eq(v, sum(h) / m + 0.5 * al * x[0] * x[0]))
    ctx.check("gradient formula", Eq1(g[0], ref))


def reject(ctx):
    b = ctx.vec("b", 2)
    ok = ctx.and_(*[ctx.and_(b[i] >= 0, b[i] <= 1) for i in range(2)])
    try:
        ctx.cp.loss.LogLoss(ctx.const([[1.0], [2.0]]), b)
    except ValueError:
        ctx.check("only targets outside [0, 1] are rejected", B(ctx.not_(ok)))
        return
    ctx.check("targets outside [0, 1] are rejected", B(ok))


def configs(tier):
    q = tier == "quick"
    out = []
    Bq = 60 if q else 600
    for w in ("logsig", "expit_b", "loss"):
        out.append(dict(name="any_margin_" + w, fn=scalar, params=dict(what=w), budget=Bq, exp_overflow=True, huge=True, bounds="one margin, every real"))
    for cls, m in (("LogLoss", 300), ("SquareLoss", 1040), ("HuberLoss", 150)):
        for kind in ("dense", "sparse"):
            if cls == "HuberLoss" and kind == "sparse":
                continue
            out.append(dict(name="wide_%s_%s" % (cls, kind), fn=long_, params=dict(cls=cls, m=m, kind=kind), budget=Bq, exp_bounds=False,
                            bounds="%d samples, one feature; the point and three targets arbitrary" % m))
    out.append(dict(name="reject", fn=reject, params={}, budget=30, bounds="n=2"))
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([] if q else [(3, 3), (4, 2)])
    for fn in (logistic, square, huber):
        for n, p in shapes:
            for kind in ("dense", "sparse", "sparse_holes"):
                if kind == "sparse_holes" and p == 1:
                    continue
                if q and n == 3 and (fn is logistic or fn is huber and kind == "sparse"):
                    continue
                out.append(dict(name="%s_%dx%d_%s" % (fn.__name__, n, p, kind), fn=fn, params=dict(n=n, p=p, kind=kind), budget=Bq, exp_bounds=False,
                                bounds="%d samples, %d features, all data%s" % (n, p, ", margins in [-17, 36]" if fn is logistic else "")))
        cls = dict(logistic="LogLoss", square="SquareLoss", huber="HuberLoss")[fn.__name__]
        for n, p in ((1, 1), (2, 1), (1, 2)):
            if cls == "LogLoss" and n * p > 1 and q:
                continue
            out.append(dict(name="history_%s_%dx%d" % (cls, n, p), fn=history, params=dict(cls=cls, n=n, p=p), budget=Bq, exp_bounds=False,
                            bounds="%d samples, %d features, two evaluations of one object" % (n, p)))
        if fn is logistic:
            for n, p, kind in ((1, 1, "dense"), (2, 1, "sparse"), (1, 2, "dense")):
                out.append(dict(name="logistic_intercept_%dx%d_%s" % (n, p, kind), fn=fn, params=dict(n=n, p=p, kind=kind, intercept=True), budget=Bq,
                                exp_bounds=False, bounds="%d samples, %d features and an intercept, margins in [-17, 36]" % (n, p)))
        if fn is not huber:
            for kind in ("csc", "fortran", "repeated"):
                out.append(dict(name="%s_2x2_%s" % (fn.__name__, kind), fn=fn, params=dict(n=2, p=2, kind=kind), budget=Bq, exp_bounds=False,
                                bounds="%s data, 2 samples, 2 features" % kind))
            out.append(dict(name="%s_identity" % fn.__name__, fn=fn, params=dict(n=2, p=2, kind="none"), budget=Bq, exp_bounds=False, bounds="A=None, n=2"))
    return out
