"""Every solver behind one interface, with arbitrary (oracle) user functions."""
import numpy as np
from vp import engine as E
from harnesses.proxlib import Prox, Smooth, dot
from harnesses.randlib import Deriv

DET = ["fw_callable", "fw_sublinear", "fw_dr", "fw_backtracking", "fw_pairwise", "pgd_callable", "pgd_backtracking", "apgd_callable",
       "apgd_backtracking", "tos", "tos_ls", "pd", "pd_ls"]
STO = ["saga", "svrg", "vrtos", "sfw_SAG", "sfw_SAGA", "sfw_MHK", "sfw_LF", "sfw_SAGA_batch"]


class Counter:
    def __init__(self):
        self.n = 0


class Lmo:
    def __init__(self, ctx, n, limit=12):
        self.ctx, self.n, self.log, self.limit = ctx, n, [], limit

    def __call__(self, u, x, active=None):
        if len(self.log) >= self.limit:
            raise E.PathCut("more than %d oracle calls" % self.limit)
        d, _ = self.ctx.oracle("lmo", list(u) + list(x), self.n)
        self.log.append((list(u), list(x)))
        return self.ctx.array(d), (1.0, 0), (1.0, 0), 1.0


class Solver:
    """one problem; run() may be called several times with the same user functions"""

    def __init__(self, ctx, name, n=2, m=2, evals=12, A=None, b=None):
        self.ctx, self.name, self.n, self.m = ctx, name, n, m
        self.S = Smooth(ctx, n, evals)
        self.P1, self.P2 = Prox(ctx, "prox1", n, 30), Prox(ctx, "prox2", n, 30)
        self.lmo = Lmo(ctx, n)
        self.D = Deriv(ctx, limit=60)
        self.step = ctx.real("step", gt=0)
        self.L = ctx.real("L", gt=0) if name in ("fw_dr", "fw_backtracking") else None
        if name in STO:
            if A is None:
                A = ctx.mat("A", m, n)
            self.A = A
            self.b = b if b is not None else ctx.const(np.arange(1.0, m + 1))
            ctx.random()

    def evaluations(self):
        return (len(self.S.points), len(self.S.grads), len(self.P1.log), len(self.P2.log), len(self.lmo.log), self.D.calls)

    def run(self, x0, iters, callback=None, tol=0):
        ctx, cp, nm = self.ctx, self.ctx.cp, self.name
        kw = dict(max_iter=iters, tol=tol)
        if callback is not None:
            kw["callback"] = callback
        if nm.startswith("fw"):
            if nm == "fw_callable" or nm == "fw_pairwise":
                kw["step"] = lambda loc: 0.25
            elif nm == "fw_sublinear":
                kw["step"] = "sublinear"
            elif nm == "fw_dr":
                kw.update(step="DR", lipschitz=self.L)
            else:
                kw.update(step="backtracking", lipschitz=self.L)
            if nm == "fw_pairwise":
                kw.update(variant="pairwise", x0_rep=(1.0, 0))
            elif self.L is None:
                kw.update(lipschitz=1.0)
            return cp.minimize_frank_wolfe(self.S.fun, x0, self.lmo, jac=self.S.jac, **kw)
        if nm.startswith("pgd") or nm.startswith("apgd"):
            kw["accelerated"] = nm.startswith("apgd")
            if nm.endswith("callable"):
                kw["step"] = lambda loc: self.step
            else:
                kw.update(step="backtracking", max_iter_backtracking=1)
            return cp.minimize_proximal_gradient(self.S.fun, x0, prox=self.P1, jac=self.S.jac, **kw)
        if nm.startswith("tos"):
            return cp.minimize_three_split(self.S.f_grad, x0, self.P1, self.P2, line_search=nm.endswith("ls"), step_size=self.step,
                                           max_iter_backtracking=1, **kw)
        if nm.startswith("pd"):
            M = ctx.const(np.array([[1.0, 2.0, 0.0], [0.0, 1.0, -1.0], [1.0, 0.0, 1.0]])[:self.n, :self.n])
            return cp.minimize_primal_dual(self.S.f_grad, x0, self.P1, self.P2, L=M, line_search=nm.endswith("ls"), step_size=self.step,
                                           max_iter_ls=1, **kw)
        if nm == "saga":
            return cp.minimize_saga(self.D, self.A, self.b, x0, self.step, **kw)
        if nm == "svrg":
            return cp.minimize_svrg(self.D, self.A, self.b, x0, self.step, **kw)
        if nm == "vrtos":
            return cp.minimize_vrtos(self.D, self.A, self.b, x0, self.step, **kw)
        v = nm.split("_")[1]
        return cp.minimize_sfw(self.D, self.A, self.b, x0, self.lmo, variant=v, batch_size=2 if nm.endswith("batch") else 1, **kw)


def warm(ctx, name, n, m=2, iters=3):
    """an earlier run of the same solver on an unrelated concrete problem of the same size: whatever it leaves behind must not
    matter for the run that follows"""
    cp = ctx.cp
    c = ctx.const(np.arange(n) + 2.0)
    x0 = ctx.const(np.arange(n) - 3.0)
    fun = lambda x, *a: 0.5 * sum(((x[i] - c[i]) * (x[i] - c[i]) for i in range(n)), 0.0)
    jac = lambda x, *a: x - c

    def f_grad(x, return_gradient=True):
        return (fun(x), jac(x)) if return_gradient else fun(x)
    shrink = lambda v, s, *a: v * 0.75
    kw = dict(max_iter=iters, tol=0)

    def lmo(u, x, active=None):
        s = np.zeros(n)
        s[0] = 4.0
        return ctx.const(s) - x, (4.0, 0), (1.0, 0), 0.5
    if name.startswith("fw"):
        cp.minimize_frank_wolfe(fun, x0, lmo, jac=jac, lipschitz=1.0, step=name.split("_")[1], **kw)
    elif name in ("pgd", "apgd"):
        for st in ("backtracking", lambda loc: 0.5):
            cp.minimize_proximal_gradient(fun, x0, prox=shrink, jac=jac, step=st, accelerated=name == "apgd", **kw)
    elif name == "tos":
        for ls in (True, False):
            cp.minimize_three_split(f_grad, x0, shrink, shrink, line_search=ls, step_size=0.5, h_Lipschitz=1.0, **kw)
    elif name == "pd":
        M = ctx.const(np.arange(m * n).reshape(m, n) + 1.0)
        for ls in (True, False):
            cp.minimize_primal_dual(f_grad, x0, shrink, shrink, L=M, line_search=ls, step_size=0.01, **kw)
    else:
        deriv = lambda p, b: p - b
        A = ctx.sparse(ctx.const(np.arange(m * n).reshape(m, n) + 1.0), np.ones((m, n), dtype=bool))
        b = ctx.const(np.arange(m) + 1.0)
        ctx.random(fixed=True)
        kw["max_iter"] = 2
        if name in ("saga", "svrg"):
            (cp.minimize_saga if name == "saga" else cp.minimize_svrg)(deriv, A, b, x0, 0.01, alpha=0.5, **kw)
        elif name == "vrtos":
            cp.minimize_vrtos(deriv, A, b, x0, 0.01, alpha=0.5, **kw)
        else:
            cp.minimize_sfw(deriv, A, b, x0, lmo, variant=name.split("_")[1], **kw)
