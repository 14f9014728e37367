"""P21: inputs are not modified; integer, list or strided starting points behave as floating point ones."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.solverlib import DET, STO, Solver

ASSUMPTIONS = ["Objective, gradient, prox, oracle and derivative values are arbitrary finite reals, equal at equal arguments.",
               "Integer starting points have entries in [-1000, 1000]."]


def _data(ctx, solver, n, m, kind):
    if solver not in STO:
        return None, None
    M = np.array([[1, 2, 0], [0, 3, -1], [2, 0, 1]])[:m, :n]
    b = np.array([1, 0, 1])[:m]
    if kind == "int":
        return ctx.const(M), ctx.const(b)
    if kind == "float":
        return ctx.const(M.astype(float)), ctx.const(b.astype(float))
    return ctx.mat("A", m, n), ctx.vec("b", m)


def _run(ctx, s, x0, iters):
    seen = []

    def cb(loc):
        seen.append(list(loc["x"]))
    res = s.run(x0, iters, cb)
    return seen, res


def kinds(ctx, solver, kind, iters, evals=12, n=2):
    """the same start in another representation"""
    m = 2
    A, b = _data(ctx, solver, n, m, "float")
    s = Solver(ctx, solver, n=n, m=m, evals=evals, A=A, b=b)
    if kind in ("int", "intlist"):
        xi = ctx.ints("x0", n)
    else:
        xi = ctx.vec("x0", n)
    vals = [xi[i] for i in range(n)]
    xf = ctx.array(vals)
    if kind == "list":
        other = vals
    elif kind == "intlist":
        other = vals if ctx.mode == "sym" else [int(v) for v in vals]
    elif kind == "tuple":
        other = tuple(vals)
    elif kind == "strided":
        w = ctx.zeros(2 * n)
        for i in range(n):
            w[2 * i] = vals[i]
        other = w[::2]
    else:
        other = xi
    ref, r = _run(ctx, s, xf, iters)
    if solver in STO:
        ctx.random()       # the same sampling order again
    got, g = _run(ctx, s, other, iters)
    ctx.check("same number of iterations", len(ref) == len(got) and r.nit == g.nit)
    for a, c in zip(ref, got):
        ctx.check("same iterates", Eq(a, c))
    ctx.check("same result", Eq(list(r.x), list(g.x)))
    ctx.check("start unchanged", All(Eq(list(xf), vals), Eq(list(other), vals)))


def unchanged(ctx, solver, iters, evals=12, sparse=False, n=2):
    m = 2
    A, b = _data(ctx, solver, n, m, "sym")
    kept = None
    if A is not None:
        kept = ([A[i, j] for i in range(m) for j in range(n)], [b[i] for i in range(m)])
        if sparse:
            A = ctx.sparse(A, np.array([[True, True], [False, True]]), fmt=sparse)
            kept[0][2] = 0.0
            storage, stored = [[int(v) for v in A.indices], [int(v) for v in A.indptr]], list(A.data)
    s = Solver(ctx, solver, n=n, m=m, evals=evals, A=A, b=b)
    x0 = ctx.vec("x0", n)
    vals = [x0[i] for i in range(n)]
    seen, res = _run(ctx, s, x0, iters)
    ctx.check("start unchanged", Eq(list(x0), vals))
    if sparse:
        ctx.check("storage unchanged", storage == [[int(v) for v in A.indices], [int(v) for v in A.indptr]] and len(A.data) == len(stored))
        ctx.check("stored values unchanged", Eq(list(A.data), stored))
    if kept is not None:
        D = A.toarray() if sparse else A
        ctx.check("data unchanged", Eq([D[i, j] for i in range(m) for j in range(n)], kept[0]))
        ctx.check("targets unchanged", Eq([b[i] for i in range(m)], kept[1]))
    # the returned point does not alias the start either
    res.x[0] = res.x[0] + 1.0
    ctx.check("result independent of the start", Eq(list(x0), vals))


def intdata(ctx, solver, iters):
    """integer data and targets give the iterates of the same data in floating point"""
    n, m = 2, 2
    x0 = ctx.vec("x0", n)
    A, b = _data(ctx, solver, n, m, "float")
    s = Solver(ctx, solver, n=n, m=m, A=A, b=b)
    ref, r = _run(ctx, s, x0, iters)
    s.A, s.b = _data(ctx, solver, n, m, "int")
    ctx.random()
    got, g = _run(ctx, s, x0, iters)
    ctx.check("same number of callbacks", len(ref) == len(got))
    for a, c in zip(ref, got):
        ctx.check("same iterates", Eq(a, c))
    ctx.check("same result", Eq(list(r.x), list(g.x)))


def configs(tier):
    q = tier == "quick"
    Bq = 45 if q else 600
    out = []

    def A(name, fn, **kw):
        out.append(dict(name=name, fn=fn, params=kw, budget=Bq, merge="abs", bounds=", ".join("%s=%s" % i for i in sorted(kw.items()))))
    for s in DET + STO:
        heavy = s.endswith("backtracking") or s.endswith("_ls")
        it = 1 if heavy or s in STO or q else 2
        n = 1 if s == "pd_ls" and q else 2
        ev = (16 if s.startswith("apgd") else 8) if heavy else 40
        for k in ("int", "list", "strided"):
            A("kind_%s_%s" % (k, s), kinds, solver=s, kind=k, iters=it, evals=ev, n=n)
        if not q:
            for k in ("intlist", "tuple"):
                A("kind_%s_%s" % (k, s), kinds, solver=s, kind=k, iters=it, evals=ev, n=n)
        A("unchanged_%s" % s, unchanged, solver=s, iters=it, evals=ev, n=n)
        if s in STO:
            A("unchanged_sparse_%s" % s, unchanged, solver=s, iters=1, sparse="csr")
            A("unchanged_repeated_%s" % s, unchanged, solver=s, iters=1, sparse="repeated")
            A("intdata_%s" % s, intdata, solver=s, iters=it)
            if not q:
                A("unchanged2_%s" % s, unchanged, solver=s, iters=2)
    return out
