"""P17: SAGA and SVRG against the definition of the sparse variance-reduced proximal step."""
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.randlib import AffineBlockProx, AffineDeriv, BlockProx, Deriv, data, fixed_data, margin, touched
from harnesses.p12 import csr

ASSUMPTIONS = ["The per-sample derivative is an arbitrary function of margin and target; the block prox is an arbitrary function of the "
               "touched coordinates, their scalings, the step and the sample.",
               "Sampling order: every permutation in every epoch."]


def run(ctx, algo, pattern, blocks, epochs, proxed, dense, alpha0, stop=False, long=False):
    pattern = np.array(pattern, dtype=bool)
    m, n = pattern.shape
    A, rows = fixed_data(ctx, pattern) if long else data(ctx, pattern, dense=dense)
    b = ctx.const(np.arange(m) + 1.0) if long else ctx.vec("b", m)
    x0 = ctx.vec("x0", n)
    step = 0.125 if long else ctx.real("step", gt=0)
    alpha = 0.0 if alpha0 else 0.25 if long else ctx.real("alpha", lo=0)
    tol = ctx.real("tol", gt=0) if stop else 0
    f = AffineDeriv(ctx) if long else Deriv(ctx, limit=epochs * m * 4 + 8)
    if blocks is None:
        bl = [[j] for j in range(n)]
        Bm = None
    else:
        Bm = ctx.cp.penalty.GroupL1(1.0, blocks).prox_factory(n)[1]
        bl = csr(Bm)
    px = AffineBlockProx(ctx, "prox", bl) if long else BlockProx(ctx, "prox", bl)
    T, D = touched(pattern, bl)
    seen = []

    def cb(loc):
        seen.append(list(loc["x"]))
    order = ctx.random(fixed=long)
    kw = {}
    if proxed:
        kw["prox"] = px if Bm is None else (px, Bm)
    if not alpha0:
        kw["alpha"] = alpha
    solver = ctx.cp.minimize_saga if algo == "saga" else ctx.cp.minimize_svrg
    res = solver(f, A, b, x0, step, max_iter=epochs, tol=tol, callback=cb, **kw)
    # --- reference
    if proxed:
        samples = [c[0] for c in px.log]
    else:
        samples = [int(i) for d in order for i in d]
    ctx.check("whole epochs", len(samples) % m == 0 and len(samples) >= m)
    ne = len(samples) // m
    ctx.check("callback once per epoch and at the start", len(seen) == ne + 1)
    if len(seen) != ne + 1 or len(samples) % m:
        return
    x = list(x0)
    ctx.check("callback sees the start", Eq(seen[0], x))
    mem = [0.0] * m
    for ep in range(ne):
        sam = samples[ep * m:(ep + 1) * m]
        ctx.check("each sample once per epoch", sorted(sam) == list(range(m)))
        if algo == "svrg":
            mem = [f.at(margin(rows[i], x), b[i]) for i in range(m)]
            avg = [sum((mem[i] * rows[i][j] for i in range(m) if pattern[i, j]), 0.0) / m for j in range(n)]
        for k, i in enumerate(sam):
            if algo == "saga":
                avg = [sum((mem[t] * rows[t][j] for t in range(m) if pattern[t, j]), 0.0) / m for j in range(n)]
            g = f.at(margin(rows[i], x), b[i])
            y = list(x)
            for h in T[i]:
                for j in bl[h]:
                    corr = (g - mem[i]) * rows[i][j] if pattern[i, j] else 0.0
                    y[j] = x[j] - step * (corr + D[h] * (avg[j] + alpha * x[j]))
            if proxed:
                (pi, before, hs, ps, after) = px.log[ep * m + k]
                ctx.check("prox gets the variance-reduced step", Eq(before, y))
                ctx.check("prox covers the touched blocks", sorted(h for h, _ in hs) == T[i])
                ctx.check("prox scaling", Eq([d for _, d in hs], [D[h] for h, _ in hs]))
                ctx.check("prox step", Eq1(ps, step))
                x = after
            else:
                x = y
            if algo == "saga":
                mem[i] = g
        ctx.check("callback sees the iterate of the epoch", Eq(seen[ep + 1], x))
    ctx.check("returned point is the last iterate", Eq(list(res.x), seen[-1]))
    change = sum((ctx.abs(p - q) for p, q in zip(seen[-1], seen[-2])), 0.0)
    if ctx.decide(bool(res.success)):
        ctx.check("success means the last epoch moved less than tol", Lt(change, tol))
    else:
        ctx.check("without success the whole budget is used", ne == epochs)
        ctx.check("no success means the last epoch moved", Le(tol, change))
    for e in range(1, ne):
        ctx.check("an epoch below tol ends the run", Le(tol, sum((ctx.abs(p - q) for p, q in zip(seen[e], seen[e - 1])), 0.0)))


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, kw["algo"], len(kw["pattern"][0]), len(kw["pattern"]))
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 700
    out = []

    def add(name, pattern, blocks=None, epochs=2, proxed=True, dense=False, alpha0=False, algos=("saga", "svrg"), stop=False, fn=run, **kw):
        for a in algos:
            out.append(dict(name="%s_%s_e%d" % (a, name, epochs), fn=fn,
                            params=dict(algo=a, pattern=pattern, blocks=blocks, epochs=epochs, proxed=proxed, dense=dense, alpha0=alpha0,
                                        stop=stop, **kw), budget=Bq, merge="abs", bounds="support %s, blocks %s, %d epochs, every order" % (pattern, blocks, epochs)))
    add("full22", [[1, 1], [1, 1]])
    add("diag22", [[1, 0], [1, 1]])
    add("emptyrow", [[1, 1], [0, 0]])
    add("emptycol", [[1, 0], [1, 0]])
    add("firstcol", [[0, 1], [0, 1]])
    add("noprox", [[1, 0], [1, 1]], proxed=False)
    add("noprox_dense_alpha0", [[1, 1], [0, 1]], proxed=False, dense=True, alpha0=True)
    add("csc", [[1, 0, 1], [1, 1, 0]], dense="csc")
    add("repeated", [[1, 0, 1], [1, 1, 0]], dense="repeated")
    add("repeated_groups", [[1, 0, 0], [0, 1, 1]], blocks=[[0, 1], [2]], dense="repeated", epochs=1)
    add("fortran", [[1, 0, 1], [1, 1, 0]], dense="fortran", epochs=1)
    add("groups", [[1, 0, 0], [0, 1, 1]], blocks=[[0, 1], [2]])
    add("groups_gap", [[0, 0, 1], [1, 0, 0]], blocks=[[1, 2]])
    add("three", [[1, 0, 0], [0, 1, 1], [1, 0, 1]], epochs=1)
    add("three", [[1, 0], [0, 1], [1, 1]], epochs=2)
    add("zero", [[0, 0], [0, 0]], epochs=1)
    add("one", [[1]], epochs=4)
    add("one2", [[1, 1]], epochs=3)
    add("again", [[1, 0], [1, 1]], fn=warmed, epochs=1)
    add("long", [[1, 0], [1, 1], [0, 1]], epochs=25 if q else 60, long=True)
    add("long1", [[1]], epochs=110 if q else 250, long=True)
    add("long_noprox", [[1, 0], [1, 1]], epochs=25 if q else 60, long=True, proxed=False)
    add("wide", [[1]] * 70, long=True)
    add("wide_two", [[1, i % 2] for i in range(70)], long=True, epochs=2)
    add("wide_features", [[1 if j % 3 != i else 0 for j in range(40)] for i in range(2)], long=True)
    add("stop", [[1]], stop=True)
    add("stop2", [[1, 1]], stop=True)
    add("stop21", [[1], [1]], stop=True)
    if not q:
        add("two", [[1], [1]], epochs=3, proxed=False)
        add("full22", [[1, 1], [1, 1]], epochs=3)
        add("noprox", [[1, 0], [1, 1]], epochs=3, proxed=False)
        add("groups4", [[1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 0, 1]], blocks=[[0, 1], [2, 3]], epochs=2)
        add("three33", [[1, 0, 0], [0, 1, 1], [1, 0, 1]], epochs=2)
        add("three33", [[1, 1, 1], [1, 1, 1], [1, 1, 1]], epochs=2)
        add("four", [[1, 0], [0, 1], [1, 1], [0, 0]], epochs=1)
        add("four", [[1, 0, 1], [0, 1, 0], [1, 1, 0], [0, 0, 1]], epochs=1, proxed=False)
        add("diag22", [[1, 0], [1, 1]], epochs=4)
    return out
