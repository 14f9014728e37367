"""Shared pieces of the stochastic-solver harnesses."""
import numpy as np
from vp import engine as E
from vp.harness import All, Any, B, Eq, Eq1, Imp, Le, Lt
from harnesses.proxlib import same_vec


class Deriv:
    """arbitrary per-sample derivative: a function of margin and target"""

    def __init__(self, ctx, limit=64, name="df"):
        self.ctx, self.name, self.seen, self.limit, self.calls = ctx, name, [], limit, 0

    def at(self, p, b):
        a = [p, b]
        if self.ctx.mode == "sym":
            for q in self.seen:
                if same_vec(self.ctx, q, a):
                    a = q
                    break
            else:
                self.seen.append(a)
        return self.ctx.oracle(self.name, a, 1)[0][0]

    def __call__(self, p, b):
        self.calls += 1
        if self.calls > self.limit:
            raise E.PathCut("more than %d derivative evaluations" % self.limit)
        if np.ndim(p) == 0:
            return self.at(p, b)
        return self.ctx.array([self.at(p[k], b[k]) for k in range(len(p))])


class AffineDeriv(Deriv):
    """a concrete derivative, affine in the margin: keeps long runs affine in the starting point"""

    def __init__(self, ctx, limit=10 ** 6):
        super().__init__(ctx, limit)

    def at(self, p, b):
        return 0.5 * (p - b)


class BlockProx:
    """arbitrary in-place block prox: rewrites the coordinates of the blocks touched by the sample; every call is recorded as
    (sample, point before, {block: scaling}, step, point after)"""

    def __init__(self, ctx, name, blocks, limit=40):
        self.ctx, self.name, self.blocks, self.limit, self.log = ctx, name, blocks, limit, []

    def __call__(self, x, i, indices, indptr, d, step):
        if len(self.log) >= self.limit:
            raise E.PathCut("more than %d prox calls" % self.limit)
        before = list(x)
        hs = [int(indices[k]) for k in range(int(indptr[i]), int(indptr[i + 1]))]
        coords = [j for h in hs for j in self.blocks[h]]
        args = [x[j] for j in coords] + [d[h] for h in hs] + [step, int(i)]
        out, _ = self.ctx.oracle(self.name, args, len(coords)) if coords else ([], 0)
        for j, v in zip(coords, out):
            x[j] = v
        self.log.append((int(i), before, [(h, d[h]) for h in hs], step, list(x)))


class AffineBlockProx(BlockProx):
    """a concrete affine block prox"""

    def __init__(self, ctx, name, blocks, a=0.875):
        super().__init__(ctx, name, blocks, 10 ** 6)
        self.a = a

    def __call__(self, x, i, indices, indptr, d, step):
        before = list(x)
        hs = [int(indices[k]) for k in range(int(indptr[i]), int(indptr[i + 1]))]
        for h in hs:
            for j in self.blocks[h]:
                x[j] = self.a * x[j] - 0.125 * (1 + h)
        self.log.append((int(i), before, [(h, d[h]) for h in hs], step, list(x)))


def fixed_data(ctx, pattern):
    """dyadic data matrix with the given support"""
    pattern = np.array(pattern, dtype=bool)
    m, n = pattern.shape
    rows = [[(1.0 + 0.5 * ((i + 2 * j) % 3) if pattern[i, j] else 0.0) * (-1) ** (i * j) for j in range(n)] for i in range(m)]
    return ctx.sparse(ctx.const(np.array(rows)), pattern, fmt="csr"), rows


def data(ctx, pattern, dense=False, nz=True):
    """data matrix with the given support: (argument for the solver, rows as lists)"""
    pattern = np.array(pattern, dtype=bool)
    m, n = pattern.shape
    rows = [[(ctx.real("A_%d_%d" % (i, j)) if pattern[i, j] else 0.0) for j in range(n)] for i in range(m)]
    if nz:
        for i in range(m):
            for j in range(n):
                if pattern[i, j] and ctx.mode == "sym":
                    ctx.assume(ctx.not_(rows[i][j] == 0))
    if dense == "fortran":
        A = ctx.zeros(n, m)
        for i in range(m):
            for j in range(n):
                A[j, i] = rows[i][j]
        return A.T, rows
    if dense is True:
        A = ctx.zeros(m, n)
        for i in range(m):
            for j in range(n):
                A[i, j] = rows[i][j]
        return A, rows
    M = ctx.zeros(m, n)
    for i in range(m):
        for j in range(n):
            M[i, j] = rows[i][j]
    return ctx.sparse(M, pattern, fmt=dense or "csr"), rows


def touched(pattern, blocks):
    """blocks touched by each sample, and the reweighting n / (number of samples touching the block)"""
    m = len(pattern)
    T = [[h for h, bl in enumerate(blocks) if any(pattern[i][j] for j in bl)] for i in range(m)]
    cnt = [sum(1 for i in range(m) if h in T[i]) for h in range(len(blocks))]
    D = [float(m) / c if c else 1.0 for c in cnt]
    return T, D


def margin(row, x):
    return sum((a * v for a, v in zip(row, x) if not (isinstance(a, float) and a == 0.0)), 0.0)
