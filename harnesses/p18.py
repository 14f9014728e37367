"""P18: variance-reduced three-operator splitting against the definition of its sparse update."""
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.randlib import AffineBlockProx, AffineDeriv, BlockProx, Deriv, data, fixed_data, margin, touched
from harnesses.p12 import csr

ASSUMPTIONS = ["The per-sample derivative is an arbitrary function of margin and target; both block proxes are arbitrary functions of the "
               "touched coordinates, their scalings, the step and the sample.",
               "Sampling order: every permutation in every epoch; steps taken before the first callback (a warm-up) are followed as well."]


def run(ctx, pattern, blocks1, blocks2, epochs, p1, p2, dense, alpha0, long=False):
    pattern = np.array(pattern, dtype=bool)
    m, n = pattern.shape
    A, rows = fixed_data(ctx, pattern) if long else data(ctx, pattern, dense=dense)
    b = ctx.const(np.arange(m) + 1.0) if long else ctx.vec("b", m)
    x0 = ctx.vec("x0", n)
    step = 0.125 if long else ctx.real("step", gt=0)
    alpha = 0.0 if alpha0 else 0.25 if long else ctx.real("alpha", lo=0)
    f = AffineDeriv(ctx) if long else Deriv(ctx, limit=epochs * m + 8)
    bls, Bms, pxs = [], [], []
    for k, blocks in enumerate((blocks1, blocks2)):
        if blocks is None:
            bls.append([[j] for j in range(n)])
            Bms.append(None)
        else:
            if blocks in ("pairs1", "pairs2"):
                pen = ctx.cp.penalty.FusedLasso(1.0)
                Bm = (pen.prox_1_factory if blocks == "pairs1" else pen.prox_2_factory)(n)[1]
            else:
                Bm = ctx.cp.penalty.GroupL1(1.0, blocks).prox_factory(n)[1]
            Bms.append(Bm)
            bls.append(csr(Bm))
        pxs.append(AffineBlockProx(ctx, "prox%d" % (k + 1), bls[k], 0.875 if k else 0.75) if long else BlockProx(ctx, "prox%d" % (k + 1), bls[k]))
    TD = [touched(pattern, bl) for bl in bls]
    of = [{j: h for h, blk in enumerate(bl) for j in blk} for bl in bls]
    seen = []
    lead = 0 if p1 else 1

    def cb(loc):
        seen.append((len(pxs[lead].log), list(loc["x"])))
    ctx.random(fixed=long)
    kw = {}
    for k, on in enumerate((p1, p2)):
        if on:
            kw["prox_%d" % (k + 1)] = pxs[k] if Bms[k] is None else (pxs[k], Bms[k])
    if not alpha0:
        kw["alpha"] = alpha
    res = ctx.cp.minimize_vrtos(f, A, b, x0, step, max_iter=epochs, callback=cb, **kw)
    log = pxs[lead].log
    ctx.check("callback at the start and after every epoch", len(seen) == epochs + 1)
    if len(seen) != epochs + 1:
        return
    for e in range(epochs):
        sam = [c[0] for c in log[seen[e][0]:seen[e + 1][0]]]
        ctx.check("each sample once per epoch", sorted(sam) == list(range(m)))
    ctx.check("no step after the last callback", seen[-1][0] == len(log))
    if p1 and p2:
        ctx.check("both proxes see the same samples", [c[0] for c in pxs[0].log] == [c[0] for c in pxs[1].log])
        if len(pxs[0].log) != len(pxs[1].log):
            return
    # --- reference
    z = list(x0)
    X = [list(x0), list(x0)]
    Y = [[0.0] * n, [0.0] * n]
    mem = [0.0] * m
    used = (p1, p2)
    for s in range(len(log) + 1):
        for (at, xs) in seen:
            if at == s:
                ctx.check("callback sees the iterate", Eq(xs, z))
        if s == len(log):
            break
        i = log[s][0]
        avg = [sum((mem[t] * rows[t][j] for t in range(m) if pattern[t, j]), 0.0) / m for j in range(n)]
        g = f.at(margin(rows[i], z), b[i])
        newY = [list(Y[0]), list(Y[1])]
        upd = set()
        for k in (0, 1):
            T, D = TD[k]
            for h in T[i]:
                for j in bls[k][h]:
                    corr = (g - mem[i]) * rows[i][j] if pattern[i, j] else 0.0
                    X[k][j] = 2 * z[j] - Y[k][j] - step * 0.5 * (corr + D[h] * (avg[j] + alpha * z[j]))
            if used[k]:
                (pi, before, hs, ps, after) = pxs[k].log[s]
                ctx.check("prox_%d gets the reflected step" % (k + 1), Eq(before, X[k]))
                ctx.check("prox_%d covers the touched blocks" % (k + 1), sorted(h for h, _ in hs) == T[i])
                ctx.check("prox_%d scaling" % (k + 1), Eq([d for _, d in hs], [D[h] for h, _ in hs]))
                ctx.check("prox_%d step" % (k + 1), Eq1(ps, step))
                X[k] = list(after)
            for h in T[i]:
                for j in bls[k][h]:
                    upd.add(j)
                    newY[k][j] = Y[k][j] + X[k][j] - z[j]
        Y = newY
        for j in upd:
            w = [1.0 / TD[k][1][of[k][j]] for k in (0, 1)]
            z[j] = (w[0] * Y[0][j] + w[1] * Y[1][j]) / (w[0] + w[1])
        mem[i] = g
    ctx.check("returned point is the last iterate", Eq(list(res.x), z))
    ctx.check("certificate is the disagreement of the copies",
              Eq1(res.certificate, ctx.norm([X[0][j] - z[j] for j in range(n)]) + ctx.norm([X[1][j] - z[j] for j in range(n)])))


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "vrtos", len(kw["pattern"][0]), len(kw["pattern"]))
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 700
    out = []

    def add(name, pattern, b1=None, b2=None, epochs=1, p1=True, p2=True, dense=False, alpha0=False, fn=run, **kw):
        out.append(dict(name="%s_e%d" % (name, epochs), fn=fn,
                        params=dict(pattern=pattern, blocks1=b1, blocks2=b2, epochs=epochs, p1=p1, p2=p2, dense=dense, alpha0=alpha0, **kw),
                        budget=Bq, merge="abs", bounds="support %s, blocks %s and %s, %d epochs, every order" % (pattern, b1, b2, epochs)))
    add("full22", [[1, 1], [1, 1]], epochs=2)
    add("diag22", [[1, 0], [1, 1]], epochs=2)
    add("emptyrow", [[1, 1], [0, 0]])
    add("emptyfirst", [[0, 0], [1, 0]], epochs=2)
    add("emptycol", [[1, 0], [1, 0]], epochs=2)
    add("only1", [[1, 0], [1, 1]], p2=False)
    add("only2", [[1, 0], [1, 1]], p1=False)
    add("dense_alpha0", [[1, 1], [0, 1]], dense=True, alpha0=True, epochs=2)
    add("csc", [[1, 0, 1], [1, 1, 0]], dense="csc")
    add("repeated", [[1, 0, 1], [1, 1, 0]], dense="repeated")
    add("fortran", [[1, 0, 1], [1, 1, 0]], dense="fortran")
    add("groups", [[1, 0, 0], [0, 1, 1]], b1=[[0, 1], [2]], b2=[[0], [1, 2]], epochs=2)
    add("groups_gap", [[0, 0, 1], [1, 0, 0]], b1=[[1, 2]], epochs=2)
    for k, (b1, b2) in enumerate([(None, [[0, 1], [2, 3]]), ([[0, 1], [2, 3]], None), ([[0, 1]], [[1, 2]])]):
        add("reach%d" % k, [[1, 0, 0, 0], [0, 0, 1, 0]], b1=b1, b2=b2, epochs=2)
    add("fused", [[1, 0, 0], [0, 1, 1]], b1="pairs1", b2="pairs2", epochs=2)
    add("long", [[1, 0], [1, 1], [0, 1]], epochs=12 if q else 30, long=True)
    add("long1", [[1]], epochs=60 if q else 120, long=True)
    add("long_groups", [[1, 0, 0], [0, 1, 1]], b1=[[0, 1], [2]], b2=[[0], [1, 2]], epochs=12 if q else 30, long=True)
    add("wide", [[1]] * 70, long=True)
    add("wide_features", [[1 if j % 3 != i else 0 for j in range(40)] for i in range(2)], long=True, b1="pairs1", b2="pairs2")
    add("again", [[1, 0], [1, 1]], fn=warmed)
    add("three", [[1, 0], [0, 1], [1, 1]], epochs=1)
    if not q:
        add("full22", [[1, 1], [1, 1]], epochs=4)
        add("three33", [[1, 0, 0], [0, 1, 1], [1, 0, 1]], b1=[[0, 1]], b2=[[1, 2]], epochs=2)
        add("three33full", [[1, 1, 1], [1, 1, 1], [1, 1, 1]], epochs=2)
        add("fused4", [[1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 0, 1]], b1="pairs1", b2="pairs2", epochs=2)
        add("fused3", [[0, 1, 0], [0, 0, 1]], b1="pairs1", b2="pairs2", epochs=3)
        add("four", [[1, 0], [0, 1], [1, 1], [0, 0]], b1=[[0, 1]], epochs=1)
    return out
