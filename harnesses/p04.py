"""P04: trace norm and trace ball act on singular values.

The SVD routine is replaced by its contract: for X = U diag(s) Vt with U, Vt orthonormal (rotation angles symbolic)
it may return any exact factorisation (signs and order of equal values arbitrary)."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Le, LeAll, Lt

ASSUMPTIONS = ["scipy's SVD routines return an exact singular value decomposition (contract stub).",
               "Matrices up to 2x3 / 3x2 with two non-trivial singular vectors, and 3x3 with fixed singular vectors."]


def rot(ctx, name):
    """symbolic planar rotation (c, s)"""
    c, s = ctx.real(name + "_c", lo=-1, hi=1), ctx.real(name + "_s", lo=-1, hi=1)
    if ctx.mode == "sym":
        ctx.assume(c * c + s * s == 1)
    else:
        r = (c * c + s * s) ** 0.5 or 1.0
        c, s = c / r, s / r
    return c, s


def frame(ctx, name, n, k, fixed):
    """n x k matrix with orthonormal columns"""
    if k == 3:
        M = np.zeros((3, 3), dtype=object)
        Q = {"u": [[2, -2, 1], [1, 2, 2], [2, 1, -2]], "v": [[1, 2, 2], [2, -2, 1], [2, 1, -2]]}[name]
        for i in range(3):
            for j in range(3):
                M[i, j] = Q[i][j] / 3
        return M
    if fixed is not None:
        c, s = fixed
    else:
        c, s = rot(ctx, name)
    M = np.zeros((n, k), dtype=object)
    cols = [[c, s] + [0.0] * (n - 2), [-s, c] + [0.0] * (n - 2)] if n >= 2 else [[1.0]]
    for j in range(k):
        for i in range(n):
            M[i, j] = cols[j][i]
    if n == 3:   # concrete orthogonal mixing so that no entry is structurally zero
        Q = [[2 / 3, -2 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3], [2 / 3, 1 / 3, -2 / 3]]
        N = np.zeros((n, k), dtype=object)
        for i in range(3):
            for j in range(k):
                N[i, j] = sum((Q[i][l] * M[l, j] for l in range(3)), 0.0)
        M = N
    return M


def complement(n, k):
    """the columns completing frame() to an orthogonal matrix (n - k of them; only n = 3, k = 2 occurs)"""
    return [[1 / 3], [2 / 3], [-2 / 3]]


def setup(ctx, m, n, fixu, fixv):
    k = min(m, n)
    sv = ctx.vec("s", k, lo=0)
    for i in range(k - 1):
        ctx.assume(sv[i] >= sv[i + 1])
    if ctx.mode == "conc":
        sv = np.sort(np.maximum(sv, 0))[::-1].copy()
    U, V = frame(ctx, "u", m, k, fixu), frame(ctx, "v", n, k, fixv)
    X = [[sum((sv[l] * (U[i, l] * V[j, l]) for l in range(k)), 0.0) for j in range(n)] for i in range(m)]
    flip = [(-1.0 if ctx.choose("flip%d" % l, 2) else 1.0) for l in range(k)]
    x = ctx.array([X[i][j] for i in range(m) for j in range(n)])

    def ident(M, scale=None):
        """is the argument X (or its transpose)?"""
        from vp import symnp
        M = symnp.raw(symnp.mk(M))
        if M.shape == (m, n):
            c = ctx.and_(*[E.cmp("==", M[i, j], X[i][j]) for i in range(m) for j in range(n)])
            if ctx.decide(c):
                return False
        if M.shape == (n, m):
            c = ctx.and_(*[E.cmp("==", M[j, i], X[i][j]) for i in range(m) for j in range(n)])
            if ctx.decide(c):
                return True
        raise E.Unsupported("SVD of a matrix other than the argument")

    def svd(M, full=False):
        t = ident(M)
        a = ctx.array([U[i, l] * flip[l] for i in range(m) for l in range(k)]).reshape(m, k)
        b = ctx.array([V[j, l] * flip[l] for l in range(k) for j in range(n)]).reshape(k, n)
        if full and m > k:
            a = np.concatenate([a, ctx.array([v for r in complement(m, k) for v in r]).reshape(m, m - k)], axis=1)
        if full and n > k:
            b = np.concatenate([b, ctx.array([v for r in complement(n, k) for v in r]).reshape(n, n - k).T], axis=0)
        return (b.T.copy(), sv.copy(), a.T.copy()) if t else (a, sv.copy(), b)

    def svdvals(M):
        ident(M)
        return sv.copy()

    def svds(M, k=6, which="LM", return_singular_vectors=True, **kw):
        if k != 1:
            raise E.Unsupported("svds with k != 1")
        t = ident(M)
        if ctx.decide(sv[0] == 0):
            raise RuntimeError("ARPACK error -9: starting vector is zero")   # what scipy does on a zero matrix
        if return_singular_vectors is False:
            return sv[:1].copy()
        a = ctx.array([U[i, 0] * flip[0] for i in range(m)]).reshape(m, 1)
        b = ctx.array([V[j, 0] * flip[0] for j in range(n)]).reshape(1, n)
        return (b.T.copy(), sv[:1].copy(), a.T.copy()) if t else (a, sv[:1].copy(), b)
    ctx.hook("svd", svd)
    ctx.hook("svdvals", svdvals)
    ctx.hook("svds", svds)
    return x, sv, U, V, k


def recon(U, V, t, m, n):
    return [sum((t[l] * (U[i, l] * V[j, l]) for l in range(len(t))), 0.0) for i in range(m) for j in range(n)]


def soft(ctx, v, t):
    return ctx.ite(v > t, v - t, 0.0)


def norm_prox(ctx, m, n, fixu, fixv):
    x, sv, U, V, k = setup(ctx, m, n, fixu, fixv)
    x0 = x.copy()
    alpha, ss = ctx.real("alpha", lo=0), ctx.real("ss", lo=0)
    pen = ctx.cp.penalty.TraceNorm(alpha, (m, n))
    p = pen.prox(x, ss)
    ctx.check("raveled layout", np.shape(p) == (m * n,))
    t = [soft(ctx, sv[l], alpha * ss) for l in range(k)]
    ctx.check("soft thresholded singular values", Eq(p, recon(U, V, t, m, n)))
    ctx.same("argument unchanged", x, x0)


def values(ctx, m, n, fixu, fixv):
    x, sv, U, V, k = setup(ctx, m, n, fixu, fixv)
    alpha = ctx.real("alpha", gt=0)
    nuc = sum((sv[l] for l in range(k)), 0.0)
    ctx.check("penalty value", Eq(ctx.cp.penalty.TraceNorm(alpha, (m, n))(x), alpha * nuc))
    ball = ctx.cp.constraint.TraceBall(alpha, (m, n))
    v = ball(x)
    inside = v == 0
    ctx.check("indicator is 0 or inf", ctx.or_(inside, v == float("inf")))
    ctx.check("members get 0", Any(B(inside), B(nuc > alpha)) if ctx.mode == "sym" else Any(B(inside), Le(alpha, nuc)))
    ctx.check("outside gets inf", Any(B(not inside), Le(nuc, alpha + 1e-6)))


def proj_spec(ctx, sv, alpha):
    """projection of a decreasing nonnegative vector onto the l1 ball: the threshold is the largest (sum of the first j - alpha)/j"""
    th = 0.0
    c = 0.0
    for j in range(len(sv)):
        c = c + sv[j]
        t = (c - alpha) / (j + 1.0)
        th = ctx.ite(t > th, t, th)
    return [soft(ctx, a, th) for a in sv]


def ball_prox(ctx, m, n, fixu, fixv):
    x, sv, U, V, k = setup(ctx, m, n, fixu, fixv)
    x0 = x.copy()
    alpha = ctx.real("alpha", gt=0)
    p = ctx.cp.constraint.TraceBall(alpha, (m, n)).prox(x, 1.0)
    ctx.check("raveled layout", np.shape(p) == (m * n,))
    ctx.check("projected singular values", Eq(p, recon(U, V, proj_spec(ctx, sv, alpha), m, n)))
    ctx.same("argument unchanged", x, x0)


def ball_lmo(ctx, m, n, fixu, fixv):
    u, sv, U, V, k = setup(ctx, m, n, fixu, fixv)
    u0 = u.copy()
    x = ctx.vec("x", m * n)
    x0 = x.copy()
    alpha = ctx.real("alpha", gt=0)
    r = ctx.cp.constraint.TraceBall(alpha, (m, n)).lmo(u, x)
    d = r[0]
    ctx.check("raveled layout", np.shape(d) == (m * n,))
    s = [d[i] + x0[i] for i in range(m * n)]
    ctx.check("step bound", Eq(r[3], 1.0))
    if ctx.mode == "sym" and ctx.decide(sv[0] == 0):
        # every point of the ball is optimal: check membership through a rank-one certificate (2x2 minors, norm)
        S = [[s[i * n + j] for j in range(n)] for i in range(m)]
        ctx.check("vertex", All([Eq(S[i][j] * S[p][q], S[i][q] * S[p][j]) for i in range(m) for p in range(i) for j in range(n) for q in range(j)],
                                Le(sum(v * v for v in s), alpha * alpha)))
    elif ctx.mode == "sym":
        ctx.check("vertex", Eq(s, [alpha * (U[i, 0] * V[j, 0]) for i in range(m) for j in range(n)]))
    else:
        S = np.array(s, dtype=float).reshape(m, n)
        ctx.check("vertex", All(Le(np.linalg.norm(S, "nuc"), alpha),
                                Eq(float(np.dot(S.ravel(), np.array(u0, dtype=float))), alpha * sv[0])))
    ctx.same("arguments unchanged", list(u) + list(x), list(u0) + list(x0))


def sqrt_(ctx, v):
    return E.sqrt(v) if ctx.mode == "sym" else float(v) ** 0.5


def small(ctx, m, n, what):
    """a row or a column: the singular value is the Euclidean norm; the same object is used for two matrices"""
    from harnesses.histlib import twice
    N = m * n
    alpha, ss = ctx.real("alpha", gt=0), ctx.real("ss", gt=0)
    mk = ctx.cp.penalty.TraceNorm if what.startswith("norm") else ctx.cp.constraint.TraceBall
    f = mk(alpha, (m, n))
    nrm = {}

    def stub_norm(M):
        from vp import symnp
        v = [e for e in np.ravel(symnp.raw(symnp.mk(M)))]
        if len(v) != N:
            raise E.Unsupported("SVD of a matrix of another size")
        s = sqrt_(ctx, sum(t * t for t in v))
        return v, s

    def svd(M, full=False):
        v, s = stub_norm(M)
        if full:
            raise E.Unsupported("full SVD")
        z = ctx.decide(s == 0)
        u = [(1.0 if i == 0 else 0.0) if z else v[i] / s for i in range(N)]
        if ctx.choose("flip", 2):
            u, o = [-t for t in u], [-1.0]
        else:
            o = [1.0]
        a, b = (u, o) if np.shape(M)[1] == 1 else (o, u)
        return ctx.array(a).reshape(-1, 1), ctx.array([s]), ctx.array(b).reshape(1, -1)
    ctx.hook("svd", svd)
    ctx.hook("svdvals", lambda M: ctx.array([stub_norm(M)[1]]))

    def spec(r, y):
        s = sqrt_(ctx, sum(t * t for t in y))
        if what == "norm_value":
            ctx.check("value", Eq(r, alpha * s))
            return
        if what == "norm_prox":
            t = alpha * ss
        else:
            t = ctx.ite(s > alpha, s - alpha, 0.0)
        ctx.check("shape", np.shape(r) == (N,))
        # r = max(s - t, 0) / s * y, written without division
        ctx.check("prox", Eq([r[i] * s for i in range(N)], [ctx.ite(s > t, s - t, 0.0) * y[i] for i in range(N)]))
        ctx.check("zero stays zero", Any(B(s > 0), Eq(r, [0.0] * N)) if ctx.mode == "sym" else Any(Lt(0, s), Eq(r, [0.0] * N)))
    twice(ctx, f if what == "norm_value" else (lambda x: f.prox(x, ss)), N, spec, flat=(lambda v: [v]) if what == "norm_value" else list)


def configs(tier):
    out = []
    shapes = [(2, 2), (2, 3), (3, 2), (1, 1), (3, 3)]
    for m, n in shapes:
        fixes = [(None, None, "free")] if tier != "quick" or (m, n) == (2, 2) else [(None, (0.6, 0.8), "v345")]
        if (m, n) == (3, 3):
            fixes = [((1, 0), (1, 0), "fixed")]
        if (m, n) == (1, 1):
            fixes = [(None, None, "free")]
        for fu, fv, nm in fixes:
            for fn in (norm_prox, values, ball_prox, ball_lmo):
                if fn is ball_lmo and (m, n) == (1, 1):
                    continue
                out.append(dict(name="%s_%dx%d_%s" % (fn.__name__, m, n, nm), fn=fn, params=dict(m=m, n=n, fixu=fu, fixv=fv),
                                budget=80 if tier == "quick" else 600,
                                bounds="%dx%d, all singular values, %s rotations" % (m, n, "all planar" if nm == "free" else "fixed" if nm == "fixed" else "one side symbolic")))
    for m, n in ((1, 2), (2, 1)) if tier == "quick" else ((1, 2), (2, 1), (1, 3), (3, 1)):
        for what in ("norm_value", "norm_prox", "ball_prox"):
            out.append(dict(name="small_%s_%dx%d" % (what, m, n), fn=small, params=dict(m=m, n=n, what=what), budget=60 if tier == "quick" else 600,
                            bounds="%dx%d, all entries, two calls on one object" % (m, n)))
    return out
