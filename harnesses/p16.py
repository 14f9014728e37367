"""P16: primal-dual hybrid gradient."""
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import AffineProx, AffineSmooth, Prox, Smooth, dot, same_vec, sq, vsub

ASSUMPTIONS = ["Objective, gradient and prox values are arbitrary finite reals (function-consistent); (v - p)/s is a subgradient at p = prox(v, s).",
               "Runs with more evaluations than the stated limit are cut."]


def operator(ctx, kind, m, n):
    """(argument for the solver, matrix)"""
    if kind == "none":
        return None, np.eye(n)
    if kind == "const":
        M = np.array([[2.0, -1.0], [0.5, 3.0], [1.0, 1.0]])[:m, :n]
        return ctx.const(M), M
    if kind in ("identity", "head"):
        # operators that hand out (a view of) their argument, as scipy's own IdentityOperator does
        def back(v):
            w = ctx.array([0.0] * n)
            w[:m] = v
            return w
        return ctx.linop(*((lambda v: v, lambda v: v) if kind == "identity" else (lambda v: v[:m], back)), (m, n)), np.eye(n)[:m]
    A = ctx.mat("A", m, n)
    if kind == "dense":
        return A, A
    if kind == "sparse":
        return ctx.sparse(A), A
    if kind in ("csc", "repeated"):
        return ctx.sparse(A, fmt=kind), A

    def mv(v):
        return ctx.array([dot(A[i, :], list(v)) for i in range(m)])

    def rmv(v):
        return ctx.array([dot(A[:, j], list(v)) for j in range(n)])
    return ctx.linop(mv, rmv, (m, n)), A


def run(ctx, m, n, iters, evals, kind, ls, given2=False, long=False):
    S = AffineSmooth(ctx, n) if long else Smooth(ctx, n, evals)
    P1, P2 = (AffineProx(ctx, n), AffineProx(ctx, m, 0.5, -0.75)) if long else (Prox(ctx, "prox1", n, 20), Prox(ctx, "prox2", m, 20))
    Larg, M = operator(ctx, kind, m, n)

    def mul(v):
        return [dot(M[i, :], v) for i in range(m)]

    def rmul(v):
        return [dot(M[:, j], v) for j in range(n)]
    x0 = ctx.vec("x0", n)
    x00 = x0.copy()
    if long and ctx.mode == "sym":
        for i in range(n):
            ctx.assume(x0[i] >= 8)
    tol = 0.0 if long else ctx.real("tol", lo=0)
    st = 0.125 if long else ctx.real("step", gt=0)
    st2 = (0.25 if long else ctx.real("step2", gt=0)) if given2 else None
    xs = []

    def cb(loc):
        xs.append([loc["x"][i] for i in range(n)])
    res = ctx.cp.minimize_primal_dual(S.f_grad, x0, P1, P2, L=Larg, tol=tol, max_iter=iters, callback=cb, step_size=st, step_size2=st2, line_search=ls)
    last = [res.x[i] for i in range(n)]
    steps = len(P2.log)
    ctx.check("max_iter honoured", 0 < steps <= iters and res.nit <= iters)
    pts = [list(x00)] + xs[:steps]
    if len(pts) == steps:
        pts.append(last)
    ctx.check("one iterate per dual step", len(pts) == steps + 1)
    if len(pts) != steps + 1:
        return
    ctx.check("returns the last iterate", Eq(last, pts[-1]))
    y = mul(pts[0])
    tau_prev = None
    for k in range(steps):
        x, xn = pts[k], pts[k + 1]
        v, si, p = P2.log[k]
        f, g = S.at(x)
        # dual step: y_next = w - tau prox_2(w/tau, 1/tau), w = y + tau L x
        Lx = mul(x)
        ctx.check("prox_2 argument", Eq(v, [a * si + b for a, b in zip(y, Lx)]))
        ctx.check("dual step positive", Lt(0, si))
        tau = 1.0 / si
        yn = [tau * (a - b) for a, b in zip(v, p)]
        if not ls:
            ctx.check("dual step is the given one", Eq1(tau, st2) if given2 else Lt(0, tau))
            if k:
                ctx.check("dual step is constant", Eq1(si, P2.log[k - 1][1]))
        tn = 1.0 / P2.log[k + 1][1] if k + 1 < steps else None
        hit = None
        for (v1, s1, out) in reversed(P1.log):
            if not same_vec(ctx, out, xn):
                continue
            th = 1.0 if not ls else (tn / tau if tn is not None else None)
            if th is None:
                hit = (v1, s1, None)
                break
            yb = [a + th * (a - b) for a, b in zip(yn, y)]
            if same_vec(ctx, v1, [a - s1 * (b + c) for a, b, c in zip(x, rmul(yb), g)]):
                hit = (v1, s1, th)
                break
        if hit is None:
            def cand(v1, s1, out):
                th = 1.0 if not ls else tn / tau
                yb = [a + th * (a - b) for a, b in zip(yn, y)]
                return All(Eq(out, xn), Eq(v1, [a - s1 * (b + c) for a, b, c in zip(x, rmul(yb), g)]))
            if ls and tn is None:
                ctx.check("iterate comes from prox_1", Any([Eq(out, xn) for (v1, s1, out) in P1.log]))
                return
            small = Le(sq(vsub(xn, x)), 1e-20) if ls else B(False)      # no step is accepted when x does not move
            ctx.check("x is prox_1 of the extrapolated dual step", Any([small] + [cand(*c) for c in P1.log]))
            if ls:
                break
            return
        v1, s1, th = hit
        ctx.check("x is prox_1 of the extrapolated dual step", True)
        ctx.check("primal step positive", Lt(0, s1))
        d = vsub(xn, x)
        if not ls:
            ctx.check("primal step is the given one", Eq1(s1, st))
        elif th is not None:
            acc = tn * s1 * sq(mul(d)) + 2 * s1 * (S.at(xn)[0] - f - dot(g, d))
            ctx.check("line search condition", Any(Le(sq(d), 1e-20), Le(acc, 0.999 * sq(d))))
            thp = 1.0 if tau_prev is None else tau / tau_prev
            # tn <= tau (1 + sqrt(1 + thp)) / 2
            ctx.check("growth of the dual step is limited", Any(Le(2 * tn, tau), Le((2 * tn - tau) * (2 * tn - tau), tau * tau * (1 + thp) * (1 + 1e-9))))
        tau_prev = tau
        y_old, y = y, yn
    if res.success:
        ctx.check("success means the reported change is below tol", Lt(res.certificate, tol))
        d, dy = vsub(pts[-1], pts[-2]), vsub(y, y_old)
        ctx.check("reported change is the last move", Eq1(res.certificate, ctx.norm(d) + ctx.norm(dy)))
    else:
        ctx.check("stops early only on success", steps == iters)
    ctx.observe("x", res.x)


def fixed(ctx, m, n, kind, ls):
    """an iteration that moves neither variable: the prox calls exhibit the optimality conditions"""
    Larg, M = operator(ctx, kind, m, n)
    x0 = ctx.vec("x0", n)
    x00 = list(x0)
    Lx = [dot(M[i, :], x00) for i in range(m)]
    g = ctx.vec("g", n)
    f = ctx.real("f")
    st = ctx.real("step", gt=0)
    tol = ctx.real("tol", gt=0)
    c1, c2 = [], []

    def f_grad(x, return_gradient=True):
        return (f, g.copy()) if return_gradient else f

    def p1(v, s):
        c1.append((list(v), s))
        return ctx.array(x00)

    def p2(v, s):
        c2.append((list(v), s))
        return ctx.array(Lx)
    res = ctx.cp.minimize_primal_dual(f_grad, x0, p1, p2, L=Larg, tol=tol, max_iter=2, step_size=st, line_search=ls)
    ctx.check("a fixed point is reported as solution", bool(res.success))
    ctx.check("returned point", Eq(list(res.x), x00))
    (v1, s1), (v2, s2) = c1[-1], c2[-1]
    y = [(a - b) / s2 for a, b in zip(v2, Lx)]                    # subgradient of h at L x
    sub = [(a - b) / s1 for a, b in zip(v1, x00)]                 # subgradient of g at x
    ctx.check("a fixed point satisfies the optimality conditions", Eq([a + b + c for a, b, c in zip(sub, [dot(M[:, j], y) for j in range(n)], g)], [0.0] * n))


def longrun(ctx):
    """the change is re-evaluated before success is reported late in the run"""
    n = 1
    c = ctx.real("c", gt=0)
    x0 = ctx.vec("x0", n)
    tol = ctx.real("tol", gt=0)
    xs = []
    k = [0]

    def prox1(v, s):
        k[0] += 1
        # moves a lot until iteration 60, then stays
        return ctx.array([x0[0] + c * min(k[0], 60)])
    z = [0]

    def f_grad(x, return_gradient=True):
        return (0.0, ctx.zeros(n)) if return_gradient else 0.0
    res = ctx.cp.minimize_primal_dual(f_grad, x0.copy(), prox1, lambda v, s: v, L=None, tol=tol, max_iter=102, line_search=False,
                                      callback=lambda loc: xs.append(loc["x"][0]))
    if res.success:
        ctx.check("success means the reported change is below tol", Lt(res.certificate, tol))
        moves = len(xs) + 1
        ctx.check("success is decided on the last move", moves > 60 or Lt(c, tol))
    ctx.check("budget", len(xs) <= 102)
    ctx.observe("x", res.x)


def reject(ctx):
    try:
        ctx.cp.minimize_primal_dual(lambda x, return_gradient=True: (0.0, x), ctx.const([0.0]), max_iter_ls=0)
    except ValueError:
        ctx.check("invalid options are refused", True)
        return
    ctx.check("invalid options are refused", False)


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "pd", kw["n"], kw["m"])
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []

    def add(name, fn=run, **p):
        out.append(dict(name=name, fn=fn, params=p, budget=Bq, branch_ms=300,
                        bounds="L %dx%d (%s), %d iterations, at most %d evaluations, all values" % (p["m"], p["n"], p["kind"], p["iters"], p["evals"])))
    for kind in ("none", "dense", "sparse", "linop", "const"):
        for m, n in [(1, 1), (2, 2)] + ([] if kind == "none" else [(1, 2), (2, 1)]):
            if kind != "const" or m == 2:
                add("fixed_%s_%dx%d" % (kind, m, n), m=m, n=n, iters=2, evals=10, kind=kind, ls=False)
    add("fixed_identity_2x2", m=2, n=2, iters=2, evals=10, kind="identity", ls=False)
    add("fixed_head_1x2", m=1, n=2, iters=2, evals=10, kind="head", ls=False)
    add("fixed_csc_1x2", m=1, n=2, iters=2, evals=10, kind="csc", ls=False)
    add("fixed_repeated_2x1", m=2, n=1, iters=2, evals=10, kind="repeated", ls=False)
    add("fixed_two_steps", m=2, n=1, iters=2, evals=10, kind="dense", ls=False, given2=True)
    add("search_none_2x2", m=2, n=2, iters=2, evals=4, kind="none", ls=True)
    add("search_dense_1x2", m=1, n=2, iters=2, evals=3, kind="dense", ls=True)
    add("search_const_2x2", m=2, n=2, iters=2, evals=4, kind="const", ls=True)
    add("search_two_steps", m=2, n=2, iters=2, evals=4, kind="const", ls=True, given2=True)
    for ls in (False, True):
        for kind, m, n in (("none", 2, 2), ("identity", 2, 2), ("dense", 2, 2), ("linop", 1, 2), ("sparse", 2, 1)):
            out.append(dict(name="fixed_point_%s_%s" % (kind, "search" if ls else "fixed"), fn=fixed, params=dict(m=m, n=n, kind=kind, ls=ls), budget=Bq,
                            bounds="L %dx%d, any fixed point" % (m, n)))
    for two in (False, True):
        add("long_fixed%s" % ("_two_steps" if two else ""), m=1, n=1, iters=25 if q else 60, evals=0, kind="const", ls=False, given2=two, long=True)
    add("again_fixed", fn=warmed, m=2, n=2, iters=2, evals=10, kind="const", ls=False)
    add("again_search", fn=warmed, m=2, n=2, iters=1, evals=4, kind="const", ls=True)
    if not q:
        add("fixed_dense_3x2", m=3, n=2, iters=3, evals=10, kind="dense", ls=False)
        add("search_const_3x2", m=3, n=2, iters=3, evals=8, kind="const", ls=True)
        add("search_const_2x2_deep", m=2, n=2, iters=3, evals=8, kind="const", ls=True)
        add("search_identity_1x1", m=1, n=1, iters=2, evals=4, kind="identity", ls=True)
        add("search_none_1x1", m=1, n=1, iters=2, evals=4, kind="none", ls=True)
        add("search_dense_1x1", m=1, n=1, iters=2, evals=4, kind="dense", ls=True)
        add("search_dense_2x1", m=2, n=1, iters=2, evals=4, kind="dense", ls=True)
        add("search_dense_2x2", m=2, n=2, iters=2, evals=5, kind="dense", ls=True)
    out.append(dict(name="long_run", fn=longrun, params={}, budget=Bq, bounds="102 iterations, one coordinate, any amplitude and tol"))
    out.append(dict(name="reject", fn=reject, params={}, budget=20, bounds="concrete"))
    return out
