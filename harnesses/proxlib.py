"""Shared pieces of the proximal-solver harnesses: recorded prox and gradient oracles."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt


class Prox:
    """arbitrary prox: a function of point and step, unconstrained; every call is recorded"""

    def __init__(self, ctx, name, n, limit=12):
        self.ctx, self.name, self.n, self.limit, self.log = ctx, name, n, limit, []

    def __call__(self, v, s, *args):
        if len(self.log) >= self.limit:
            raise E.PathCut("more than %d prox calls" % self.limit)
        out, _ = self.ctx.oracle(self.name, list(v) + [s], self.n)
        self.log.append((list(v), s, list(out)))
        return self.ctx.array(out)


class Smooth:
    """arbitrary smooth function: value and gradient unconstrained, equal at equal points; every call is recorded"""

    def __init__(self, ctx, n, limit, tag="f"):
        self.ctx, self.n, self.limit, self.tag = ctx, n, limit, tag
        self.points = []        # every evaluation, in order
        self.grads = []         # (point, gradient)

    def at(self, x):
        v, _ = self.ctx.oracle(self.tag, list(x), self.n + 1)
        return v[0], list(v[1:])

    def _tick(self, x):
        if len(self.points) >= self.limit:
            raise E.PathCut("more than %d evaluations" % self.limit)
        self.points.append(list(x))

    def fun(self, x):
        self._tick(x)
        return self.at(x)[0]

    def jac(self, x):
        g = self.at(x)[1]
        self.grads.append((list(x), g))
        return self.ctx.array(g)

    def f_grad(self, x, return_gradient=True):
        self._tick(x)
        f, g = self.at(x)
        if not return_gradient:
            return f
        self.grads.append((list(x), g))
        return f, self.ctx.array(g)


class AffineProx(Prox):
    """a concrete prox, affine in its argument: keeps long runs affine in the starting point"""

    def __init__(self, ctx, n, a=0.75, b=0.25):
        super().__init__(ctx, "prox", n, 10 ** 6)
        self.a, self.b = a, b

    def __call__(self, v, s, *args):
        out = [self.a * t + (self.b if i % 2 else -self.b) for i, t in enumerate(list(v))]
        self.log.append((list(v), s, list(out)))
        return self.ctx.array(out)


class AffineSmooth(Smooth):
    """a concrete separable quadratic"""

    def __init__(self, ctx, n, curv=(1.0, 0.5, 0.25)):
        super().__init__(ctx, n, 10 ** 6)
        self.c = [curv[i % len(curv)] for i in range(n)]
        self.m = [1.0 + i for i in range(n)]

    def at(self, x):
        d = [t - m for t, m in zip(list(x), self.m)]
        return 0.5 * sum((c * t * t for c, t in zip(self.c, d)), 0.0), [c * t for c, t in zip(self.c, d)]


def long_steps(k):
    """dyadic steps that keep changing"""
    return (0.5, 0.25, 0.75, 0.5, 0.125)[k % 5]


def same_vec(ctx, a, b):
    """equal for sure (no solver)"""
    if ctx.mode == "conc":
        return bool(np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), rtol=1e-9, atol=1e-9))
    for p, q in zip(a, b):
        if not E.is_sym(p) and not E.is_sym(q):
            if abs(p - q) > 1e-12 * (1 + abs(p)):
                return False
        elif not (E.is_sym(p) and E.is_sym(q) and p.t.eq(q.t)) and not ctx.e.identical(p, q):
            return False
    return True


def sq(v):
    return sum((t * t for t in v), 0.0)


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), 0.0)


def vsub(a, b):
    return [p - q for p, q in zip(a, b)]


def prox_step(ctx, label, calls, point, grads, check=True, start=None, step=None):
    """some recorded prox call produced `point` from a gradient step; returns (start, gradient, step) of that call, preferring
    the expected start and step when several calls qualify.  grads: candidate (start, gradient) pairs"""
    cands = []
    for (v, s, out) in calls:
        for (p, g) in grads:
            cands.append((v, s, out, p, g))
    hits = []
    for (v, s, out, p, g) in reversed(cands):
        if same_vec(ctx, out, point) and same_vec(ctx, v, [a - s * b for a, b in zip(p, g)]):
            score = (0 if start is None or same_vec(ctx, p, start) else 2) + (0 if step is None or same_vec(ctx, [s], [step]) else 1)
            hits.append((score, len(hits), (p, g, s)))
            if score == 0:
                break
    if hits:
        if check:
            ctx.check(label, True)
        return min(hits)[2]
    if check:
        if cands:
            ctx.check(label, Any([All(Eq(out, point), Eq(v, [a - s * b for a, b in zip(p, g)])) for (v, s, out, p, g) in cands]))
        else:
            ctx.check(label, False)
    return None
