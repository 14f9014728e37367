"""P23: the gradient and value the solvers use are the ones the caller asked for."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import same_vec

ASSUMPTIONS = ["Objective and gradient are arbitrary functions of the point and the extra arguments."]


class User:
    """user-supplied functions: value f(x, args), gradient g(x, args)"""

    def __init__(self, ctx, n, args, limit=30):
        self.ctx, self.n, self.args, self.limit = ctx, n, args, limit
        self.calls = 0
        self.pts = []

    def val(self, x):
        return self.ctx.oracle("f", self.key(x), 1)[0][0]

    def grad(self, x):
        return list(self.ctx.oracle("g", self.key(x), self.n)[0])

    def key(self, x):
        x = list(x)
        if self.ctx.mode == "sym":
            for q in self.pts:
                if same_vec(self.ctx, q, x):
                    return q
            self.pts.append(x)
        return x

    def seen(self, args):
        self.calls += 1
        if self.calls > self.limit:
            raise E.PathCut("more than %d evaluations" % self.limit)
        self.ctx.check("extra arguments passed on", len(args) == len(self.args) and all(p is q for p, q in zip(args, self.args)))

    def fun(self, x, *args):
        self.seen(args)
        return self.val(x)

    def jac(self, x, *args):
        self.seen(args)
        return self.ctx.array(self.grad(x))

    def both(self, x, *args):
        self.seen(args)
        return self.val(x), self.ctx.array(self.grad(x))

    def setup(self, mode):
        if mode == "callable":
            return self.fun, self.jac
        if mode == "true":
            return self.both, True
        return self.fun, {"false": False, "none": None, "2-point": "2-point"}[mode]

    def expected(self, mode, x, eps):
        if mode in ("callable", "true"):
            return self.grad(x)
        f0 = self.val(x)
        out = []
        for i in range(self.n):
            y = list(x)
            y[i] = y[i] + eps
            out.append((self.val(y) - f0) / eps)
        return out


def extra(ctx, k):
    return tuple(ctx.real("arg%d" % i) for i in range(k))


def direct(ctx, mode, n, k):
    """two points, then the first again (caches must not mix them up)"""
    f = getattr(ctx.cp.utils, "build_func_grad", None)
    if f is None:
        raise E.Unsupported("build_func_grad is gone")
    args = extra(ctx, k)
    u = User(ctx, n, args)
    fun, jac = u.setup(mode)
    eps = ctx.real("eps", gt=0, lo=0.01)
    fg = f(jac, fun, args, eps)
    x, y = ctx.vec("x", n), ctx.vec("y", n)
    for p in (x, y, x):
        keep = p.copy()
        v, g = fg(p)
        ctx.check("value of the objective at the point", Eq1(v, u.val(keep)))
        ctx.check("gradient asked for, at the point", Eq(list(g), u.expected(mode, list(keep), eps)))
        ctx.same("point unchanged", list(p), list(keep))
    if n == 1:          # the same array, changed in place as solvers do
        x[:] = ctx.vec("z", n)
        keep = x.copy()
        v, g = fg(x)
        ctx.check("value of the objective at the new point", Eq1(v, u.val(keep)))
        ctx.check("gradient asked for, at the new point", Eq(list(g), u.expected(mode, list(keep), eps)))


def pgd(ctx, mode, n, k, accelerated, iters=1):
    args = extra(ctx, k)
    u = User(ctx, n, args)
    fun, jac = u.setup(mode)
    eps = ctx.real("eps", gt=0, lo=0.01)
    x0 = ctx.vec("x0", n)
    s = ctx.real("s", gt=0)
    tol = ctx.real("tol", lo=0)
    calls = []
    out = []

    def prox(v, t, *a):
        if len(calls) >= 4:
            raise E.PathCut("prox calls")
        calls.append((list(v), t))
        out.append(list(ctx.oracle("prox", list(v) + [t], n)[0]))
        return ctx.array(out[-1])
    kw = dict(args=args) if k else {}
    ctx.cp.minimize_proximal_gradient(fun, x0, prox=prox, jac=jac, step=lambda loc: s, max_iter=iters, tol=tol, eps=eps, accelerated=accelerated, **kw)
    x = list(x0)
    for j, (v, _) in enumerate(calls[:1] if accelerated else calls):
        g = u.expected(mode, x, eps)
        ctx.check("the %s step is along the requested gradient" % ("first" if not j else "next"), Eq(v, [p - s * q for p, q in zip(x, g)]))
        x = out[j]


def fw(ctx, mode, n, k, iters=1):
    args = extra(ctx, k)
    u = User(ctx, n, args)
    fun, jac = u.setup(mode)
    eps = ctx.real("eps", gt=0, lo=0.01)
    x0 = ctx.vec("x0", n)
    tol = ctx.real("tol", lo=0)
    g = ctx.real("step", lo=0, hi=1)
    calls, out = [], []

    def lmo(g_, x, active=None):
        if len(calls) >= 4:
            raise E.PathCut("lmo calls")
        calls.append((list(g_), list(x)))
        out.append(list(ctx.oracle("lmo", list(g_) + list(x), n)[0]))
        return ctx.array(out[-1]), None, None, 1.0
    kw = dict(args=args) if k else {}
    ctx.cp.minimize_frank_wolfe(fun, x0, lmo, jac=jac, step=lambda loc: g, max_iter=iters, tol=tol, eps=eps, **kw)
    x = list(x0)
    for j, (v, at) in enumerate(calls):
        ctx.check("the oracle is asked for the requested gradient", Eq(v, [-q for q in u.expected(mode, x, eps)]))
        ctx.check("at the current iterate", Eq(at, x))
        x = [p + g * d for p, d in zip(x, out[j])]


def configs(tier):
    q = tier == "quick"
    Bq = 60 if q else 600
    out = []

    def A(name, fn, **kw):
        out.append(dict(name=name, fn=fn, params=kw, budget=Bq, merge="abs", bounds=", ".join("%s=%s" % i for i in sorted(kw.items()))))
    for mode in ("callable", "true", "false"):
        for k in (0, 2):
            A("direct_%s_args%d" % (mode, k), direct, mode=mode, n=2, k=k)
            A("pgd_%s_args%d" % (mode, k), pgd, mode=mode, n=2, k=k, accelerated=False)
            A("fw_%s_args%d" % (mode, k), fw, mode=mode, n=2, k=k)
        A("apgd_%s" % mode, pgd, mode=mode, n=2, k=1, accelerated=True)
        for name, fn_, extra_ in (("pgd", pgd, dict(accelerated=False)), ("fw", fw, {})):
            A("%s_%s_two_iterations" % (name, mode), fn_, mode=mode, n=1, k=1, iters=2, **extra_)
        A("direct_%s_n1" % mode, direct, mode=mode, n=1, k=1)
        if not q:
            A("direct_%s_n3" % mode, direct, mode=mode, n=3, k=1)
            A("pgd_%s_n3" % mode, pgd, mode=mode, n=3, k=1, accelerated=False)
    A("two_point_option", direct, mode="2-point", n=1, k=0)
    return out
