"""P12: block-wise prox factories against the full proximal operators."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.widelib import ends, pattern, wide

ASSUMPTIONS = ["The support structure handed to the block prox is any selection of blocks in any row; blocks are listed once."]


def csr(Bm):
    """block structure as lists of coordinates"""
    if Bm.__class__.__module__.startswith("scipy"):
        Bm = Bm.tocsr()
    ip = [int(v) for v in Bm.indptr]
    ix = [int(v) for v in Bm.indices]
    return [ix[ip[k]:ip[k + 1]] for k in range(len(ip) - 1)]


def partition(ctx, Bm, n):
    bl = csr(Bm)
    flat = [j for b in bl for j in b]
    ctx.check("block matrix has one column per coordinate", tuple(Bm.shape) == (len(bl), n))
    ctx.check("blocks partition the coordinates", sorted(flat) == list(range(n)))
    ctx.check("no empty block", all(bl))
    return bl


def setup(ctx, bl, n):
    """an arbitrary sample touching any subset of the blocks, stored after another sample's row"""
    nb = len(bl)
    k = ctx.choose("subset", 2 ** nb)
    sel = [h for h in range(nb) if k >> h & 1]
    if len(sel) > 1 and ctx.choose("order", 2):
        sel = sel[::-1]
    other = [0, nb - 1] if nb > 1 else [0]
    indices = np.array(other + sel + [0], dtype=np.int32)
    indptr = np.array([0, len(other), len(other) + len(sel), len(indices)], dtype=np.int32)
    d = ctx.vec("d", nb, lo=0)
    ss = ctx.real("step", lo=0)
    x = ctx.vec("x", n)
    return sel, indices, indptr, d, ss, x


def run(ctx, prox, bl, n, full):
    sel, indices, indptr, d, ss, x = setup(ctx, bl, n)
    x0, d0, i0, p0 = x.copy(), d.copy(), indices.copy(), indptr.copy()
    r = prox(x, 1, indices, indptr, d, ss)
    ctx.check("works in place", r is None)
    ctx.same("scaling unchanged", list(d), list(d0))
    ctx.check("structure unchanged", bool((indices == i0).all() and (indptr == p0).all()))
    touched = set()
    for h in sel:
        ref = full(x0, bl[h], d0[h] * ss)
        for k, j in enumerate(bl[h]):
            touched.add(j)
            ctx.check("touched block gets the full prox with step d*step", Eq1(x[j], ref[k]))
    for j in range(n):
        if j not in touched:
            ctx.check("other coordinates left alone", Eq1(x[j], x0[j]))
    ctx.observe("x", x)


def l1(ctx, n):
    al = ctx.real("alpha", lo=0)
    pen = ctx.cp.penalty.L1Norm(al)
    prox, Bm = pen.prox_factory(n)
    bl = partition(ctx, Bm, n)
    run(ctx, prox, bl, n, lambda x0, blk, s: [pen.prox(x0.copy(), s)[j] for j in blk])


def group(ctx, n, groups):
    al = ctx.real("alpha", lo=0)
    pen = ctx.cp.penalty.GroupL1(al, groups)
    prox, Bm = pen.prox_factory(n)
    bl = partition(ctx, Bm, n)
    gs = [set(g) for g in groups]
    cov = set().union(*gs) if gs else set()
    for b in bl:
        ctx.check("blocks are the groups and single unpenalised coordinates", set(b) in gs or (len(b) == 1 and b[0] not in cov))
    run(ctx, prox, bl, n, lambda x0, blk, s: [pen.prox(x0.copy(), s)[j] for j in blk])


def fused(ctx, n, which):
    al = ctx.real("alpha", lo=0)
    pen = ctx.cp.penalty.FusedLasso(al)
    fac = {1: pen.prox_1_factory, 2: pen.prox_2_factory}
    prox, Bm = fac[which](n)
    bl = partition(ctx, Bm, n)
    for b in bl:
        ctx.check("blocks are neighbouring pairs or single coordinates", len(b) == 1 or (len(b) == 2 and b[1] == b[0] + 1))
    if which == 1:
        bl2 = csr(fac[2](n)[1])
        pairs = sorted(b[0] for b in bl + bl2 if len(b) == 2)
        ctx.check("the two factories cover each neighbouring pair once", pairs == list(range(n - 1)))

    def full(x0, blk, s):
        if len(blk) == 1:
            return [x0[blk[0]]]
        # minimiser of t |u1 - u0| + |u - x|^2 / 2 : the full prox on the pair
        a, b = x0[blk[0]], x0[blk[1]]
        t = al * s
        if ctx.decide(a - b >= 2 * t):
            return [a - t, b + t]
        if ctx.decide(b - a >= 2 * t):
            return [a + t, b - t]
        return [(a + b) / 2, (a + b) / 2]
    run(ctx, prox, bl, n, full)


def fused_pair(ctx, which):
    """the pair formula is the library's own full prox on two coordinates"""
    al = ctx.real("alpha", lo=0)
    pen = ctx.cp.penalty.FusedLasso(al)
    prox, Bm = pen.prox_1_factory(2) if which == 1 else pen.prox_2_factory(3)
    n = 2 if which == 1 else 3
    bl = csr(Bm)
    h = [k for k, b in enumerate(bl) if len(b) == 2][0]
    d = ctx.vec("d", len(bl), lo=0)
    ss = ctx.real("step", lo=0)
    x = ctx.vec("x", n)
    x0 = x.copy()
    prox(x, 0, np.array([h], dtype=np.int32), np.array([0, 1], dtype=np.int32), d, ss)
    ref = pen.prox(ctx.array([x0[j] for j in bl[h]]), d[h] * ss)
    for k, j in enumerate(bl[h]):
        ctx.check("pair prox is the full prox on the pair", Eq1(x[j], ref[k]))


def again(ctx, n, kind):
    """the same closure called twice with different scalings, steps and rows, or two closures of one penalty"""
    al = ctx.real("alpha", lo=0)
    P = ctx.cp.penalty
    pen = {"l1": lambda: P.L1Norm(al), "group": lambda: P.GroupL1(al, [list(range(n))]), "fused": lambda: P.FusedLasso(al)}[kind]()
    fac = pen.prox_1_factory if kind == "fused" else pen.prox_factory
    prox, Bm = fac(n)
    bl = csr(Bm)
    nb = len(bl)
    if ctx.choose("other size in between", 2):
        fac(n + 2 if kind != "group" else n)
    d, e = ctx.vec("d", nb, lo=0), ctx.vec("e", nb, lo=0)
    s1, s2 = ctx.real("step1", lo=0), ctx.real("step2", lo=0)
    x, y = ctx.vec("x", n), ctx.vec("y", n)
    y0 = y.copy()
    ip = np.array([0, nb, 2 * nb], dtype=np.int32)
    ix = np.array(list(range(nb)) * 2, dtype=np.int32)
    prox(x, 0, ix, ip, d, s1)
    x1 = list(x)
    how = ctx.choose("scaling", 3)
    if how == 0:          # the same array refilled
        d[:] = e
        prox(y, 1, ix, ip, d, s2)
    elif how == 1:
        prox(y, 1, ix, ip, e, s2)
    else:                 # same row again
        prox(y, 0, ix, ip, e, s2)
    ctx.check("first vector left alone by the second call", Eq(list(x), x1))
    if kind == "fused":
        other = P.FusedLasso(al)
        for h, b in enumerate(bl):
            ref = [y0[b[0]]] if len(b) == 1 else list(other.prox(ctx.array([y0[j] for j in b]), e[h] * s2))
            ctx.check("second call", Eq([y[j] for j in b], ref))
        return
    for h, b in enumerate(bl):
        ref = pen.prox(y0.copy(), e[h] * s2)
        ctx.check("second call", Eq([y[j] for j in b], [ref[j] for j in b]))


def reject(ctx, groups):
    """groups the block structure cannot represent are refused"""
    try:
        ctx.cp.penalty.GroupL1(1.0, groups)
    except ValueError:
        ctx.check("refused", True)
        return
    ctx.check("refused", False)


def long_(ctx, kind, n):
    """many blocks in one row; three symbolic entries"""
    P = ctx.cp.penalty
    x = wide(ctx, "x", n, ends(n))
    x0 = x.copy()
    if kind == "l1":
        pen = P.L1Norm(0.5)
        prox, Bm = pen.prox_factory(n)
        full = lambda blk, s: [pen.prox(ctx.array([x0[j]]), s)[0] for j in blk]
    elif kind == "group":
        cut = list(range(1, n - 1, 7)) + [n - 1]
        groups = [list(range(a, b)) for a, b in zip(cut, cut[1:])]
        pen = P.GroupL1(0.5, groups)
        prox, Bm = pen.prox_factory(n)
        full = lambda blk, s: list(P.GroupL1(0.5, [list(range(len(blk)))]).prox(ctx.array([x0[j] for j in blk]), s)) if blk in groups else [x0[j] for j in blk]
    else:
        pen = P.FusedLasso(0.5)
        prox, Bm = (pen.prox_1_factory if kind == "fused1" else pen.prox_2_factory)(n)
        full = lambda blk, s: list(pen.prox(ctx.array([x0[j] for j in blk]), s)) if len(blk) > 1 else [x0[j] for j in blk]
    bl = partition(ctx, Bm, n)
    nb = len(bl)
    d = ctx.zeros(nb)
    for h in range(nb):
        d[h] = 1.0 + (h % 3) / 4
    prox(x, 1, np.array([0] + list(range(nb)), dtype=np.int32), np.array([0, 1, nb + 1], dtype=np.int32), d, 0.5)
    for h in range(nb):
        ctx.check("touched block gets the full prox with step d*step", Eq([x[j] for j in bl[h]], full(bl[h], d[h] * 0.5)))


def configs(tier):
    q = tier == "quick"
    Bq = 150 if q else 600
    out = []
    for kind in ("l1", "group", "fused1", "fused2"):
        for n in (300, 301):
            out.append(dict(name="wide_%s_%d" % (kind, n), fn=long_, params=dict(kind=kind, n=n), budget=Bq, merge=kind == "l1", bounds="%d coordinates, three arbitrary" % n))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        out.append(dict(name="l1_n%d" % n, fn=l1, params=dict(n=n), budget=Bq, merge=True, bounds="%d coordinates, every subset of blocks" % n))
    gs = [(2, [[0, 1]]), (3, [[0, 1]]), (3, [[1, 2]]), (3, [[0], [1, 2]]), (4, [[1, 2]]), (4, [[0, 1], [2, 3]])]
    gs += [(4, [[0, 1], [3]]), (5, [[1, 2], [3]]), (5, [[0, 1], [2, 3, 4]]), (6, [[1, 2], [4, 5]]), (3, [[0, 1, 2]])]
    for n, g in gs:
        out.append(dict(name="group_%s_of_%d" % ("_".join("".join(map(str, h)) for h in g), n), fn=group, params=dict(n=n, groups=g), budget=Bq,
                        bounds="%d coordinates, groups %s, every subset of blocks" % (n, g)))
    for n in (1, 2, 3, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6, 7):
        for w in (1, 2):
            out.append(dict(name="fused%d_n%d" % (w, n), fn=fused, params=dict(n=n, which=w), budget=Bq, bounds="%d coordinates, every subset of blocks" % n))
    for w in (1, 2):
        out.append(dict(name="fused%d_pair" % w, fn=fused_pair, params=dict(which=w), budget=Bq, bounds="one pair"))
    for k, g in enumerate([[[0, 2]], [[1, 2], [0]], [[0, 1], [1, 2]], [[1, 0]]]):
        out.append(dict(name="reject_%d" % k, fn=reject, params=dict(groups=g), budget=10, bounds="groups %s" % g))
    for kind, n in (("l1", 1), ("l1", 2), ("group", 2), ("fused", 2), ("fused", 3)):
        out.append(dict(name="again_%s_n%d" % (kind, n), fn=again, params=dict(n=n, kind=kind), budget=Bq, merge=kind == "l1",
                        bounds="%d coordinates, two calls" % n))
    for c in out:
        c["linear"] = True
    return out
