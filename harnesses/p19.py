"""P19: stochastic Frank-Wolfe: gradient estimates, step sizes, feasibility."""
import math
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.fwlib import feasible_start, in_set
from harnesses.proxlib import long_steps, same_vec
from harnesses.randlib import AffineDeriv, Deriv, data, fixed_data, margin

ASSUMPTIONS = ["The per-sample derivatives are arbitrary functions of the margin (one per sample: the targets are distinct constants).",
               "Estimator configurations: the oracle answers arbitrary directions; feasibility configurations: the library's own oracles.",
               "Sampling: every outcome of every draw."]


class Recorder:
    """derivative and oracle calls in order"""

    def __init__(self, ctx, b, n, limit, long=False):
        self.ctx, self.b, self.n, self.limit = ctx, [float(v) for v in b], n, limit
        self.f = AffineDeriv(ctx) if long else Deriv(ctx, limit=200)
        self.long = long
        self.ev = []            # ("d", [(sample, margin, value)]) or ("l", u, x, direction)
        self.max = 1.0

    def deriv(self, p, b):
        v = self.f(p, b)
        self.ev.append(("d", [(self.b.index(float(b[k])), p[k], v[k]) for k in range(len(p))]))
        return v

    def lmo(self, u, x, active=None):
        if sum(1 for e in self.ev if e[0] == "l") >= self.limit:
            raise E.PathCut("more than %d oracle calls" % self.limit)
        if self.long:       # towards a moving vertex
            k = sum(1 for e in self.ev if e[0] == "l")
            d = [self.ctx.real("w", lo=0, hi=1) + (4.0, -2.0, 1.0)[(k + j) % 3] - x[j] for j in range(self.n)]
        else:
            d, _ = self.ctx.oracle("lmo", list(u) + list(x), self.n)
        self.ev.append(("l", list(u), list(x), list(d)))
        return self.ctx.array(d), (1, 0), (1, 0), 1.0


def default_rule(variant, t, m, bs):
    if variant in ("SAG", "SAGA"):
        return 2.0 / (t + 2), None
    if variant == "MHK":
        return 2.0 / (t + 8), (2.0 / (t + 8)) ** (2 / 3)
    r = m / bs
    return 2 * (2 * r + t) / ((t + 1) * (4 * r + t)), 2 * r / (2 * r + t + 1)


def estimate(ctx, variant, pattern, bs, epochs, rule, dense=False, long=False):
    pattern = np.array(pattern, dtype=bool)
    m, n = pattern.shape
    A, rows = fixed_data(ctx, pattern) if long else data(ctx, pattern, dense=dense)
    b = ctx.const(np.arange(1.0, m + 1))
    x0 = ctx.vec("x0", n)
    nb = m // bs if bs > 1 else m
    R = Recorder(ctx, range(1, m + 1), n, nb * epochs + 2, long)
    seen, steps, kw = [], [], {}

    def cb(loc):
        seen.append(list(loc["x"]))
    if rule == "callable":
        def rule_(loc):
            k = len(steps)
            steps.append((long_steps(k), long_steps(k + 2)) if long else (ctx.real("sx%d" % k), ctx.real("sa%d" % k)))
            return steps[-1]
        kw["step_size"] = rule_
    elif rule == "DR":
        kw["step_size"] = "DR"
        kw["lipschitz"] = ctx.real("L", gt=0)
    ctx.random(fixed=long)
    res = ctx.cp.minimize_sfw(R.deriv, A, b, x0, R.lmo, batch_size=bs, max_iter=epochs, tol=0, callback=cb, variant=variant, **kw)
    # group the calls into steps: one oracle call and one batch of samples each
    st = []
    for k, e in enumerate(R.ev):
        if variant == "LF":
            if e[0] == "l":
                st.append([e, []])
            elif st:
                st[-1][1].extend(e[1])
        else:
            if not st or st[-1][0] is not None:
                st.append([None, []])
            if e[0] == "d":
                st[-1][1].extend(e[1])
            else:
                st[-1][0] = e
    ctx.check("one oracle call per step", len(st) == nb * epochs and all(s[0] is not None for s in st))
    ctx.check("callback at the start and after every step", len(seen) == len(st) + 1)
    if len(st) != nb * epochs or len(seen) != len(st) + 1 or any(s[0] is None for s in st):
        return
    ctx.check("callback sees the start", Eq(seen[0], list(x0)))
    alpha = [0.0] * m                  # stored derivative of each sample
    x = list(x0)
    sig = [margin(rows[i], x) for i in range(m)]

    def agg(al):
        return [sum((al[i] * rows[i][j] for i in range(m) if pattern[i, j]), 0.0) for j in range(n)]
    for t, (lc, ds) in enumerate(st):
        batch = [i for i, _, _ in ds]
        ctx.check("a step visits batch_size distinct samples", len(batch) == bs and len(set(batch)) == bs)
        sx, sa = steps[t] if rule == "callable" else default_rule(variant, t, m, bs)
        old = list(alpha)
        if variant == "LF":
            ctx.check("oracle asked with the aggregate of the previous step", Eq(lc[1], [-v for v in agg(alpha)]))
            ext = [p + q for p, q in zip(x, lc[3])]
            for i in batch:
                sig[i] = sig[i] + sa * (margin(rows[i], ext) - sig[i])
        for (i, p, v) in ds:
            want = sig[i] if variant == "LF" else margin(rows[i], x)
            ctx.check("derivative taken at the right margin", Eq1(p, want))
            g = R.f.at(want, float(i + 1))
            if variant == "MHK":
                alpha[i] = old[i] + sa * (g - old[i])
            else:
                alpha[i] = g / m
        new = agg(alpha)
        if variant in ("SAG", "MHK"):
            ctx.check("oracle asked with the average of the stored gradients", Eq(lc[1], [-v for v in new]))
        elif variant == "SAGA":
            prev = agg(old)
            ctx.check("oracle asked with the unbiased estimate", Eq(lc[1], [-(p + (q - p) * (float(m) / len(batch))) for p, q in zip(prev, new)]))
        if variant in ("SAG", "SAGA") and len(batch) == m:
            full = [sum((R.f.at(margin(rows[i], x), float(i + 1)) * rows[i][j] for i in range(m) if pattern[i, j]), 0.0) / m for j in range(n)]
            ctx.check("full batch gives the full gradient", Eq(lc[1], [-v for v in full]))
        ctx.check("oracle asked at the iterate", Eq(lc[2], x))
        d = lc[3]
        if rule != "DR":
            x = [p + sx * q for p, q in zip(x, d)]
            ctx.check("step of the rule along the oracle's direction", Eq(seen[t + 1], x))
        else:
            # some step in [0, 1] along the direction, minimising the quadratic model built on the aggregate
            gp = sum((-p * q for p, q in zip(new, d)), 0.0)
            nn = sum((q * q for q in d), 0.0)
            L = kw["lipschitz"]
            if ctx.decide(nn == 0):
                s = 0.0
            elif ctx.decide(gp <= 0):
                s = 0.0
            elif ctx.decide(gp >= nn * L):
                s = 1.0
            else:
                s = gp / (nn * L)
            x = [p + s * q for p, q in zip(x, d)]
            ctx.check("Demyanov-Rubinov step clipped to [0, max_step]", Eq(seen[t + 1], x))
        x = seen[t + 1] if rule == "DR" else x
    ctx.check("returned point is the last iterate", Eq(list(res.x), seen[-1]))


def stopping(ctx, variant, m, epochs, bs, n=1):
    """the run ends, successfully, as soon as two successive iterates are closer than tol (sum of absolute differences)"""
    rows = [[1.0 + i + j for j in range(n)] for i in range(m)]
    A = ctx.sparse(ctx.const(np.array(rows)), np.ones((m, n), dtype=bool))
    b = ctx.const(np.arange(1.0, m + 1))
    x0 = ctx.vec("x0", n)
    tol = ctx.real("tol", gt=0)
    f = Deriv(ctx, limit=80)
    k = [0]

    def lmo(u, x, active=None):
        k[0] += 1
        return ctx.vec("d%d" % k[0], n), (1, 0), (1, 0), 1.0
    seen = []

    def cb(loc):
        seen.append(list(loc["x"]))
    ctx.random(fixed=True)
    res = ctx.cp.minimize_sfw(f, A, b, x0, lmo, batch_size=bs, max_iter=epochs, tol=tol, callback=cb, variant=variant)
    steps = len(seen) - 1
    nb = m // bs if bs > 1 else m
    ctx.check("budget honoured", 1 <= steps <= nb * epochs)
    if steps < 1:
        return
    moves = [sum(ctx.abs(q - p) for p, q in zip(a, c)) for a, c in zip(seen, seen[1:])]
    for v in moves[:-1]:
        ctx.check("a move below tol ends the run", Le(tol, v))
    if ctx.decide(bool(res.success)):
        ctx.check("success means the last move is below tol", Lt(moves[-1], tol))
    else:
        ctx.check("without success the whole budget is used", steps == nb * epochs)
        ctx.check("no success means the last move is not below tol", Le(tol, moves[-1]))
    ctx.check("returned point is the last iterate", Eq(list(res.x), seen[-1]))


def feasible(ctx, kind, variant, n, m, bs, rule, lmo_variant="vanilla"):
    """the library's oracles keep the iterates in the set"""
    rows = [[ctx.real("A_%d_%d" % (i, j)) for j in range(n)] for i in range(m)]
    A = ctx.sparse(np.array(rows, dtype=object) if ctx.mode == "sym" else np.array(rows, dtype=float))
    b = ctx.const(np.arange(1.0, m + 1))
    r = ctx.real("alpha", gt=0)
    con = ctx.cp.constraint.L1Ball(r) if kind == "l1" else ctx.cp.constraint.SimplexConstraint(r)
    f = Deriv(ctx, limit=40)
    kw = {}
    if lmo_variant == "pairwise":
        x0 = ctx.zeros(n)
        x0[0] = r
        kw = dict(x0_rep=(1.0, 0), lmo_variant="pairwise")
        lmo = con.lmo_pairwise
    else:
        x0 = feasible_start(ctx, kind, n, r)
        lmo = con.lmo
    if rule == "DR":
        kw.update(step_size="DR", lipschitz=ctx.real("L", gt=0))
    seen = []

    def cb(loc):
        seen.append(list(loc["x"]))
    ctx.random()
    try:
        res = ctx.cp.minimize_sfw(f, A, b, x0, lmo, batch_size=bs, max_iter=1, tol=0, callback=cb, variant=variant, **kw)
    except ValueError as ex:
        ctx.check("a step is only refused when it exceeds the weight of the away vertex", lmo_variant == "pairwise" and "too large" in str(ex))
        res = None
    for x in seen + ([list(res.x)] if res is not None else []):
        ctx.check("finite", ctx.isfinite(x))
        if ctx.isfinite(x):
            ctx.check("iterate in the set", in_set(ctx, kind, x, r, n))


def rules(ctx, variant):
    """default rules for every step number and batch size"""
    fac = getattr(ctx.cp.randomized, "step_size_sfw", None)
    if fac is None:
        raise E.Unsupported("step_size_sfw is gone")
    t = ctx.real("t", lo=0)
    bs = ctx.real("bs", lo=1)
    m = ctx.real("m")
    ctx.assume(m >= bs)
    sx, sa = fac(variant)(dict(step=t, n_samples=m, batch_size=bs))
    ctx.check("step on x in [0, 1]", All(Le(0, sx), Le(sx, 1)))
    if variant == "LF":
        ctx.check("averaging step in [0, 1]", All(Le(0, sa), Le(sa, 1)))
        ctx.check("averaging step of the substitute gradient method", Eq1(sa * (2 * m / bs + t + 1), 2 * m / bs))
        ctx.check("step of the substitute gradient method", Eq1(sx * ((t + 1) * (4 * m / bs + t)), 2 * (2 * m / bs + t)))
    else:
        ctx.check("step 2/(t+2) or 2/(t+8)", Eq1(sx * (t + 2 if variant in ("SAG", "SAGA") else t + 8), 2.0))
    ctx.observe("sx", sx)


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "sfw_" + kw["variant"], len(kw["pattern"][0]), len(kw["pattern"]))
    estimate(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 700
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, params=kw, budget=Bq, merge="abs" if fn in (estimate, warmed) else False,
                        bounds=", ".join("%s=%s" % i for i in sorted(kw.items()))))
    for v in ("SAG", "SAGA", "MHK", "LF"):
        for rule in ("sublinear", "callable"):
            add("est_%s_%s_2x2" % (v, rule), estimate, variant=v, pattern=[[1, 1], [1, 0]], bs=1, epochs=1, rule=rule)
            add("est_%s_%s_2x2_full" % (v, rule), estimate, variant=v, pattern=[[1, 1], [1, 0]], bs=2, epochs=2, rule=rule)
        add("est_%s_2x1_two_epochs" % v, estimate, variant=v, pattern=[[1], [1]], bs=1, epochs=2, rule="sublinear")
        add("est_%s_3_batch2" % v, estimate, variant=v, pattern=[[1, 0], [0, 1], [1, 1]], bs=2, epochs=1, rule="callable")
        add("est_%s_4_batch2" % v, estimate, variant=v, pattern=[[1, 0], [0, 1], [1, 1], [0, 0]], bs=2, epochs=1, rule="callable")
        add("est_%s_dense" % v, estimate, variant=v, pattern=[[1, 1], [0, 1]], bs=1, epochs=1, rule="callable", dense=True)
        for lay in ("csc", "fortran", "repeated"):
            add("est_%s_%s" % (v, lay), estimate, variant=v, pattern=[[1, 0, 1], [1, 1, 0]], bs=1, epochs=1, rule="callable", dense=lay)
        add("est_%s_DR" % v, estimate, variant=v, pattern=[[1, 1], [1, 0]], bs=2, epochs=1, rule="DR")
        add("long_%s" % v, estimate, variant=v, pattern=[[1], [1]], bs=1, epochs=30 if q else 110, rule="callable", long=True)
        add("long_%s_sublinear" % v, estimate, variant=v, pattern=[[1], [1]], bs=1, epochs=30 if q else 110, rule="sublinear", long=True)
        add("long_%s_batch" % v, estimate, variant=v, pattern=[[1], [1], [1], [1]], bs=2, epochs=30 if q else 110, rule="callable", long=True)
        add("wide_%s" % v, estimate, variant=v, pattern=[[1]] * 130, bs=1, epochs=1, rule="callable", long=True)
        add("wide_%s_batch" % v, estimate, variant=v, pattern=[[1]] * 300, bs=130, epochs=1, rule="sublinear", long=True)
        add("again_%s" % v, warmed, variant=v, pattern=[[1, 1], [1, 0]], bs=1, epochs=1, rule="sublinear")
        add("stop_%s" % v, stopping, variant=v, m=2, epochs=2, bs=1)
        add("stop_batch_%s" % v, stopping, variant=v, m=4, epochs=2, bs=2)
        add("stop_two_%s" % v, stopping, variant=v, m=1, epochs=2, bs=1, n=2)
        add("rule_%s" % v, rules, variant=v)
        add("feasible_l1_%s" % v, feasible, kind="l1", variant=v, n=2, m=2, bs=1, rule="sublinear")
        add("feasible_simplex_%s" % v, feasible, kind="simplex", variant=v, n=2, m=2, bs=1, rule="sublinear")
        add("feasible_l1_%s_DR" % v, feasible, kind="l1", variant=v, n=2, m=1, bs=1, rule="DR")
    for v in ("SAG", "SAGA"):
        add("feasible_pairwise_%s" % v, feasible, kind="l1", variant=v, n=2, m=2, bs=1, rule="sublinear", lmo_variant="pairwise")
        add("feasible_pairwise_%s_DR" % v, feasible, kind="l1", variant=v, n=2, m=1, bs=1, rule="DR", lmo_variant="pairwise")
    if not q:
        for v in ("SAG", "SAGA", "MHK", "LF"):
            add("est_%s_3x2" % v, estimate, variant=v, pattern=[[1, 1], [1, 0], [0, 1]], bs=1, epochs=1, rule="callable")
            add("est_%s_2x2_two_epochs" % v, estimate, variant=v, pattern=[[1, 1], [1, 1]], bs=1, epochs=2, rule="callable")
            add("est_%s_4_batch2_two" % v, estimate, variant=v, pattern=[[1, 0], [0, 1], [1, 1], [0, 1]], bs=2, epochs=2, rule="sublinear")
            add("est_%s_5_batch2" % v, estimate, variant=v, pattern=[[1], [1], [1], [1], [1]], bs=2, epochs=1, rule="sublinear")
            add("est_%s_DR_two" % v, estimate, variant=v, pattern=[[1, 1], [1, 0]], bs=2, epochs=2, rule="DR")
            add("feasible_l1_%s_n3" % v, feasible, kind="l1", variant=v, n=3, m=2, bs=1, rule="sublinear")
            add("feasible_simplex_%s_DR" % v, feasible, kind="simplex", variant=v, n=2, m=2, bs=1, rule="DR")
            add("feasible_l1_%s_m3" % v, feasible, kind="l1", variant=v, n=2, m=3, bs=1, rule="sublinear")
    return out
