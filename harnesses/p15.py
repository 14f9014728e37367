"""P15: Davis-Yin three-operator splitting."""
import numpy as np
from harnesses.solverlib import warm
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import AffineProx, AffineSmooth, Prox, Smooth, dot, same_vec, sq, vsub

ASSUMPTIONS = ["Objective, gradient and prox values are arbitrary finite reals (function-consistent); (v - p)/s is a subgradient at p = prox(v, s) "
               "by definition of the prox.",
               "Runs with more evaluations than the stated limit are cut."]
EPS = float(np.finfo(float).eps)


def run(ctx, n, iters, evals, ls=True, given=True, lip=None, mb=6, extra=False, tolzero=False, none=(), long=False, bf=None):
    S = AffineSmooth(ctx, n) if long else Smooth(ctx, n, evals)
    P1, P2 = (AffineProx(ctx, n), AffineProx(ctx, n, 0.5, -0.75)) if long else (Prox(ctx, "prox1", n, 20), Prox(ctx, "prox2", n, 20))
    seen_args = []

    def w(P):
        def prox(v, s, *a):
            seen_args.append(a)
            return P(v, s)
        return prox
    x0 = ctx.vec("x0", n)
    if long and n == 1 and ctx.mode == "sym":
        ctx.assume(x0[0] >= 8)
    tol = 0.0 if long else ctx.real("tol", lo=0)
    s0 = (64.0 if bf else 1.5 if long else ctx.real("s0", gt=0)) if given else None
    hl = None if lip is None else (0 if lip == "zero" else ctx.real("hL", gt=0))
    xs, ss = [], []

    def cb(loc):
        xs.append([loc["x"][i] for i in range(n)])
        ss.append(loc["step_size"])
    kw = dict(args_prox=(7, "a")) if extra else {}
    if bf is not None:
        kw["backtracking_factor"] = bf
    res = ctx.cp.minimize_three_split(S.f_grad, x0, None if 1 in none else w(P1), None if 2 in none else w(P2), tol=tol, max_iter=iters, callback=cb,
                                      line_search=ls, step_size=s0, max_iter_backtracking=mb, h_Lipschitz=hl, **kw)
    if extra:
        ctx.check("extra arguments reach the prox functions", all(a == (7, "a") for a in seen_args) and bool(seen_args))
    steps = len(xs)
    ctx.check("max_iter honoured", 0 < steps <= iters and res.nit <= iters)
    ctx.check("returns the last iterate", Eq(list(res.x), xs[-1]))
    if none:
        return none_case(ctx, S, P1, P2, none, res, steps, n)
    # walk through the iterations: z_k = prox_2 output, u_k its subgradient (0 at the start)
    zlog = list(P2.log)
    ctx.check("first prox_2 call is at x0", len(zlog) == steps + 1 and All(Eq(zlog[0][0], list(x0))))
    if len(zlog) != steps + 1:
        return
    u = [0.0] * n
    cert = None
    for k in range(steps):
        v2, s2, z = zlog[k]
        f, g = S.at(z)
        x = xs[k]
        # the prox_1 call that gave x_k
        hit = None
        for (v, s, out) in reversed(P1.log):
            if same_vec(ctx, out, x) and same_vec(ctx, v, [a - s * (b + c) for a, b, c in zip(z, u, g)]):
                hit = (v, s)
                if same_vec(ctx, [s], [zlog[k + 1][1]]):
                    break
        if hit is None:
            ctx.check("x is prox_1 of the reflected gradient step", Any([All(Eq(out, x), Eq(v, [a - s * (b + c) for a, b, c in zip(z, u, g)]))
                                                                        for (v, s, out) in P1.log]))
            return
        ctx.check("x is prox_1 of the reflected gradient step", True)
        v, s = hit
        d = vsub(x, z)
        sn = zlog[k + 1][1]
        exhausted = ls and mb <= 2
        if ls:
            if not exhausted:
                ctx.check("accepted step satisfies the quadratic upper bound",
                          Any(Le(sq(d), 1e-14), Le(S.at(x)[0], f + dot(g, d) + sq(d) / (2 * s) + EPS)))
        elif lip is None:
            ctx.check("fixed step is used", Eq1(s, s0))
        ctx.check("step does not grow within an iteration", All(Lt(0, sn), Le(sn, s)))
        if lip is None:
            ctx.check("step never grows", All(Le(s, ss[k - 1] if k else s), Le(ss[k], s)))
        elif lip == "zero" or ls:
            ctx.check("step growth is limited", Le(ss[k], 1.02 * sn))
            if ls and not exhausted:
                # with the constant, a searched step is enlarged by 2%, or by what the slack of the test allows
                ctx.check("the step does not shrink after the search", Le(sn, ss[k]))
                if lip == "zero":
                    ctx.check("a constant second term lets the step grow", Any([Le(sq(d), 1.001e-14), Eq1(ss[k], 1.02 * sn)]))
                else:
                    slack = f + dot(g, d) + sq(d) / (2 * s) - S.at(x)[0]
                    room = 2 * s * slack
                    ctx.check("step growth is covered by the slack of the test",
                              Any([Le(ss[k], sn), Le(hl * hl * (ss[k] * ss[k] - s * s), room), Le(sq(d), 1e-14)]))
        if not exhausted:
            ctx.check("the two prox of an iteration use the same step", Eq1(s, sn))
        # z_{k+1} = prox_2(x + s u, s)
        ctx.check("prox_2 is applied to x + step u", Eq(zlog[k + 1][0], [a + sn * b for a, b in zip(x, u)]))
        # optimality: gradient at z, subgradients at x and z
        sub1 = [(a - b) / s for a, b in zip(v, x)]
        tot = [a + b + c for a, b, c in zip(g, sub1, u)]
        cert = (tot, d, s)
        u = [(a - b) / zlog[k + 1][1] for a, b in zip(zlog[k + 1][0], zlog[k + 1][2])]
    tot, d, s = cert
    c = res.certificate
    if ls and mb <= 2:
        ctx.check("certificate bounds the optimality residual", All(Le(0, c), Le(sq(tot), c * c)))
    else:
        ctx.check("certificate is the optimality residual", All(Le(0, c), Eq1(sq(tot), c * c)))
        ctx.check("distance of the two points", Eq1(sq(d), c * c * s * s))
    below = steps > 1 and ctx.decide(c < tol)
    ctx.check("success exactly when the certificate is below tol", bool(res.success) == below)
    if not below:
        ctx.check("stops early only on success", steps == iters)
    ctx.check("reported step", Eq1(res.step_size, ss[-1]))
    ctx.observe("x", res.x)


def none_case(ctx, S, P1, P2, none, res, steps, n):
    """a missing prox is the identity: certificate against the remaining term"""
    c = res.certificate
    if 1 in none and 2 in none:
        # plain gradient descent: residual is the gradient at the last evaluated z
        ctx.check("gradient residual", Any([Eq1(sq(g), c * c) for (_, g) in S.grads]))
    else:
        ctx.check("calls only the given prox", not (P1 if 1 in none else P2).log)


def reject(ctx):
    try:
        ctx.cp.minimize_three_split(lambda x, return_gradient=True: (0.0, x), ctx.const([0.0]), max_iter_backtracking=0)
    except ValueError:
        ctx.check("invalid options are refused", True)
        return
    ctx.check("invalid options are refused", False)


def warmed(ctx, **kw):
    """the same, after another run of the solver"""
    warm(ctx, "tos", kw["n"])
    run(ctx, **kw)


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []

    def add(name, fn=run, **p):
        out.append(dict(name=name, fn=fn, params=p, budget=Bq, branch_ms=300,
                        bounds="n=%d, %d iterations, at most %d evaluations, all values" % (p["n"], p["iters"], p["evals"])))
    for n, it in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)] + ([] if q else [(2, 3), (3, 2), (1, 4)]):
        add("fixed_n%d_iter%d" % (n, it), n=n, iters=it, evals=12, ls=False)
    for n, it, ev in [(1, 1, 6), (1, 2, 6), (2, 1, 5), (2, 2, 7)] + ([] if q else [(1, 3, 12), (2, 3, 10), (3, 2, 7)]):
        add("search_n%d_iter%d" % (n, it), n=n, iters=it, evals=ev)
    add("search_auto", n=2, iters=2, evals=8, given=False)
    for lip in ("zero", "sym"):
        add("lipschitz_%s" % lip, n=1, iters=1, evals=4, lip=lip)
        if lip == "zero" or not q:
            add("lipschitz_%s_2" % lip, n=2, iters=2, evals=6 if lip == "zero" else 5, lip=lip)
        add("lipschitz_%s_nosearch" % lip, n=1, iters=2, evals=7, lip=lip, ls=False)
    add("again_fixed", fn=warmed, n=2, iters=2, evals=12, ls=False)
    add("again_search", fn=warmed, n=1, iters=2, evals=6)
    for ls, lip, it in ((False, None, 25), (True, None, 12), (True, "zero", 8)) if q else ((False, None, 120), (True, None, 60), (True, "zero", 12)):
        add("long_%s%s" % ("search" if ls else "fixed", "_growing" if lip else ""), n=1, iters=it, evals=0, ls=ls, lip=lip, long=True)
    add("slow_search", n=1, iters=2, evals=0, long=True, bf=0.75, mb=60)
    add("one_trial", n=1, iters=2, evals=8, mb=1)
    add("two_trials", n=2, iters=2, evals=8, mb=2)
    add("args", n=1, iters=1, evals=5, extra=True)
    add("none_both", n=2, iters=2, evals=8, ls=False, none=(1, 2))
    add("none_1", n=1, iters=2, evals=8, ls=False, none=(1,))
    add("none_2", n=1, iters=2, evals=8, ls=False, none=(2,))
    out.append(dict(name="reject", fn=reject, params={}, budget=20, bounds="concrete"))
    return out
