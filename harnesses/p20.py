"""P20: sparse kernels against dense definitions."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.widelib import ends, wide

ASSUMPTIONS = ["Column indices, row boundaries and row selections range over every value of the bound, with symbolic data."]


def structure(ctx, m, n, nnz):
    """arbitrary CSR structure with nnz stored entries (unsorted and repeated columns allowed)"""
    indices = np.array([ctx.choose("col%d" % k, n) for k in range(nnz)], dtype=np.int32)
    ptr, left = [0], nnz
    for i in range(m):
        c = left if i == m - 1 else ctx.choose("row%d" % i, left + 1)
        left -= c
        ptr.append(ptr[-1] + c)
    indptr = np.array(ptr, dtype=np.int32)
    data = ctx.vec("data", nnz)
    M = [[0.0] * n for _ in range(m)]
    for i in range(m):
        for k in range(ptr[i], ptr[i + 1]):
            M[i][indices[k]] = M[i][indices[k]] + data[k]
    return data, indices, indptr, M


def rows_of(ctx, m, k):
    return np.array([ctx.choose("sel%d" % j, m) for j in range(k)], dtype=np.int64)


def mv(ctx, m, n, nnz, k, ints=False):
    data, indices, indptr, M = structure(ctx, m, n, nnz)
    idx = rows_of(ctx, m, k)
    x = ctx.ints("x", n) if ints else ctx.vec("x", n)
    keep = (data.copy(), indices.copy(), indptr.copy(), x.copy(), idx.copy())
    r = ctx.cp.utils.fast_csr_mv(data, indptr, indices, x, idx)
    ctx.check("length", len(r) == k)
    ctx.check("product of the selected rows", Eq(list(r), [sum((M[i][j] * x[j] for j in range(n)), 0.0) for i in idx]))
    ctx.same("vector unchanged", list(x), list(keep[3]))
    ctx.same("data unchanged", list(data), list(keep[0]))
    ctx.check("structure unchanged", bool((indices == keep[1]).all() and (indptr == keep[2]).all() and (idx == keep[4]).all()))
    ctx.observe("r", r)


def vm(ctx, m, n, nnz, k, ints=False):
    data, indices, indptr, M = structure(ctx, m, n, nnz)
    idx = rows_of(ctx, m, k)
    u = ctx.ints("u", k) if ints else ctx.vec("u", k)
    keep = (data.copy(), indices.copy(), indptr.copy(), u.copy(), idx.copy())
    r = ctx.cp.utils.fast_csr_vm(u, data, indptr, indices, n, idx)
    ctx.check("length", len(r) == n)
    ctx.check("product with the selected rows", Eq(list(r), [sum((u[t] * M[i][j] for t, i in enumerate(idx)), 0.0) for j in range(n)]))
    ctx.same("vector unchanged", list(u), list(keep[3]))
    ctx.same("data unchanged", list(data), list(keep[0]))
    ctx.check("structure unchanged", bool((indices == keep[1]).all() and (indptr == keep[2]).all() and (idx == keep[4]).all()))
    ctx.observe("r", r)


def again(ctx, m, n, nnz, k):
    """a second product on the same arrays with other values; the first result survives"""
    data, indices, indptr, M = structure(ctx, m, n, nnz)
    idx = rows_of(ctx, m, k)
    U = ctx.cp.utils
    which = ctx.choose("kernel", 2)
    x, y = (ctx.vec(c, k if which else n) for c in "xy")
    y0, new = y.copy(), ctx.vec("new", nnz)
    call = (lambda v: U.fast_csr_vm(v, data, indptr, indices, n, idx)) if which else (lambda v: U.fast_csr_mv(data, indptr, indices, v, idx))
    r = call(x)
    keep = list(r)
    if ctx.choose("data refilled", 2):
        data[:] = new
        M = [[0.0] * n for _ in range(m)]
        for i in range(m):
            for q in range(indptr[i], indptr[i + 1]):
                M[i][indices[q]] = M[i][indices[q]] + new[q]
    if ctx.choose("vector refilled", 2):
        x[:] = y
        g = call(x)
    else:
        g = call(y)
    ctx.check("first result survives", Eq(list(r), keep))
    want = ([sum((y0[t] * M[i][j] for t, i in enumerate(idx)), 0.0) for j in range(n)] if which
            else [sum((M[i][j] * y0[j] for j in range(n)), 0.0) for i in idx])
    ctx.check("second product", Eq(list(g), want))


def support(ctx, m, n, nnz, sizes):
    """which blocks does each sample touch"""
    f = getattr(ctx.cp.randomized, "_support_matrix", None)
    if f is None:
        raise E.Unsupported("_support_matrix is gone")
    data, indices, indptr, M = structure(ctx, m, n, nnz)
    of = [h for h, s in enumerate(sizes) for _ in range(s)]
    nb = len(sizes)
    bd, bi, bp = f(indices, indptr, np.array(of, dtype=np.int32), nb)
    ctx.check("one row per sample", len(bp) == m + 1 and int(bp[0]) == 0)
    if len(bp) != m + 1:
        return
    for i in range(m):
        got = [int(v) for v in bi[int(bp[i]):int(bp[i + 1])]]
        want = sorted({of[indices[k]] for k in range(int(indptr[i]), int(indptr[i + 1]))})
        ctx.check("touched blocks, once each", sorted(got) == want)
    ctx.check("arrays end with the last row", int(bp[m]) == len(bi) == len(bd))
    ctx.check("stored value one", Eq(list(bd), [1.0] * len(bd)))


def add(ctx, left, right, m, n):
    """left/right: d1 (vector), d2 (m x n dense), s (m x n sparse), s1 (sparse row or column)"""
    def mk(kind, name):
        if kind == "d1":
            v = ctx.vec(name, m * n)
            return v, [list(v)], (m * n,)
        A = ctx.mat(name, m, n)
        flat = [A[i, j] for i in range(m) for j in range(n)]
        if kind in "cr":
            return ctx.sparse(A, fmt="csc" if kind == "c" else "repeated"), [flat], (m, n)
        if kind == "f":
            T = ctx.zeros(n, m)
            for i in range(m):
                for j in range(n):
                    T[j, i] = A[i, j]
            return T.T, [flat], (m, n)
        if kind == "d2":
            return A, [flat], (m, n)
        pat = np.array([[ctx.choose("%s_nz%d%d" % (name, i, j), 2) == 0 for j in range(n)] for i in range(m)])
        flat = [A[i, j] if pat[i, j] else 0.0 for i in range(m) for j in range(n)]
        return ctx.sparse(A, pat), [flat], (m, n)
    a, fa, sa = mk(left, "a")
    b, fb, sb = mk(right, "b")
    keep = [v.copy() if isinstance(v, np.ndarray) else None for v in (a, b)]
    r = ctx.cp.utils.safe_sparse_add(a, b)
    if hasattr(r, "toarray"):
        ctx.check("sparse only when both are", left in "csr" and right in "csr")
        r = r.toarray()
    shape = (m * n,) if "d1" in (left, right) else (m, n)
    ctx.check("shape of the sum", tuple(np.shape(r)) == shape)
    if np.size(r) == m * n:
        got = list(np.asarray(r, dtype=object).ravel()) if ctx.mode == "sym" else list(np.asarray(r).ravel())
        ctx.check("dense sum", Eq(got, [p + q for p, q in zip(fa[0], fb[0])]))
    for v, k in zip((a, b), keep):
        if k is not None:
            ctx.same("operand unchanged", list(np.ravel(v)), list(np.ravel(k)))


def batches(ctx, n, nb, bs):
    draws = ctx.random()
    idx = ctx.cp.utils.sample_batches(n, nb, bs)
    got = [int(v) for v in idx]
    ctx.check("number of indices", len(got) == nb * bs)
    for k in range(nb):
        b = got[k * bs:(k + 1) * bs]
        ctx.check("valid distinct indices in a batch", len(set(b)) == len(b) and all(0 <= v < n for v in b))


def reach(ctx, n, bs):
    """every batch can be drawn: some outcome of the random source produces any given set"""
    ctx.random()
    got = [int(v) for v in ctx.cp.utils.sample_batches(n, 1, bs)]
    ctx.check("valid", len(set(got)) == bs and all(0 <= v < n for v in got))


def long_(ctx, what, m):
    """many rows and stored entries, three of them arbitrary"""
    n = 3
    if what == "add":
        a, b = wide(ctx, "a", m, ends(m)), wide(ctx, "b", m, ends(m), c=1)
        r = ctx.cp.utils.safe_sparse_add(a, b)
        return ctx.check("dense sum", Eq(list(r), [p + q for p, q in zip(a, b)]))
    data = wide(ctx, "data", 2 * m, ends(2 * m))
    indices = np.array([(k * k) % n for k in range(2 * m)], dtype=np.int32)
    indptr = np.array([2 * i for i in range(m + 1)], dtype=np.int32)
    idx = np.array([(i * 7) % m for i in range(m)], dtype=np.int64)
    row = lambda i: [sum((data[k] for k in (2 * i, 2 * i + 1) if indices[k] == j), 0.0) for j in range(n)]
    if what == "mv":
        x = ctx.const([0.5, -1.0, 2.0])
        r = ctx.cp.utils.fast_csr_mv(data, indptr, indices, x, idx)
        ctx.check("product of the selected rows", Eq(list(r), [sum((p * q for p, q in zip(row(i), x)), 0.0) for i in idx]))
    else:
        u = wide(ctx, "u", m, [])
        r = ctx.cp.utils.fast_csr_vm(u, data, indptr, indices, n, idx)
        R = [row(i) for i in idx]
        ctx.check("product with the selected rows", Eq(list(r), [sum((u[t] * R[t][j] for t in range(m)), 0.0) for j in range(n)]))


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []

    def A(name, fn, **kw):
        out.append(dict(name=name, fn=fn, params=kw, budget=Bq, bounds=", ".join("%s=%s" % i for i in sorted(kw.items()))))
    shapes = [(1, 1, 1, 1), (2, 2, 2, 2), (2, 2, 3, 2), (3, 2, 2, 2), (2, 3, 2, 1), (2, 2, 0, 2), (2, 2, 2, 0)]
    if not q:
        shapes += [(2, 2, 4, 2), (3, 2, 3, 3), (2, 3, 3, 3), (3, 3, 3, 2)]
    for s in shapes:
        nm = "m%d_n%d_nnz%d_k%d" % s
        kw = dict(zip(("m", "n", "nnz", "k"), s))
        A("mv_" + nm, mv, **kw)
        A("vm_" + nm, vm, **kw)
    for m, n, nnz, sizes in [(2, 2, 2, (1, 1)), (2, 3, 3, (2, 1)), (2, 2, 3, (2,)), (3, 3, 2, (1, 2)), (2, 2, 0, (1, 1))] + (
            [] if q else [(2, 4, 4, (2, 2)), (3, 3, 4, (1, 1, 1)), (2, 3, 4, (1, 2))]):
        A("support_m%d_nnz%d_%s" % (m, nnz, "".join(map(str, sizes))), support, m=m, n=n, nnz=nnz, sizes=sizes)
    for (l, r) in [("s", "s"), ("s", "d2"), ("d2", "s"), ("d2", "d2"), ("d1", "d1")]:
        A("add_%s_%s_2x2" % (l, r), add, left=l, right=r, m=2, n=2)
    for (l, r) in [("c", "s"), ("s", "c"), ("c", "c"), ("c", "f"), ("f", "s"), ("f", "d2"), ("f", "f"), ("r", "s"), ("r", "r"), ("d2", "r")]:
        A("add_%s_%s_2x2" % (l, r), add, left=l, right=r, m=2, n=2)
    A("add_c_d1_2x1", add, left="c", right="d1", m=2, n=1)
    A("add_d1_c_1x2", add, left="d1", right="c", m=1, n=2)
    for (m, n) in ((1, 3), (3, 1), (1, 1), (2, 1)):
        for (l, r) in [("s", "d1"), ("d1", "s"), ("s", "s"), ("s", "d2"), ("d2", "s")]:
            A("add_%s_%s_%dx%d" % (l, r, m, n), add, left=l, right=r, m=m, n=n)
    for (n, nb, bs) in [(1, 1, 1), (3, 1, 2), (2, 2, 2), (3, 2, 2), (4, 1, 3), (3, 0, 2)] + ([] if q else [(4, 2, 2), (5, 1, 4), (4, 2, 3)]):
        A("batches_%d_%d_%d" % (n, nb, bs), batches, n=n, nb=nb, bs=bs)
    for s in [(2, 2, 2, 1), (1, 2, 2, 2)]:
        A("again_m%d_n%d_nnz%d_k%d" % s, again, **dict(zip(("m", "n", "nnz", "k"), s)))
    for fn in (mv, vm):
        A("%s_integers" % fn.__name__, fn, m=2, n=2, nnz=2, k=2, ints=True)
        out[-1]["sym_int"] = "strict"
    for fn in ("mv", "vm", "add"):
        A("wide_" + fn, long_, what=fn, m=300)
    for c in out:
        c["linear"] = True
    return out
