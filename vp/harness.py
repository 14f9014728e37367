"""Harness runtime: one harness function, two interpretations.

* symbolic: inputs are solver variables, `check` asks the solver for a violating assignment under the path condition;
* concrete: inputs are floats taken from a solver model, code under test is the real copt; used to replay
  counterexamples (only reproduced ones are reported) and to validate path witnesses against the implementation.
"""
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
from contextlib import contextmanager
from fractions import Fraction
from unittest import mock

import numpy as np
import z3

from . import engine as E
from . import loader, symnp
from .engine import SymBool, SymReal, is_sym


# --------------------------------------------------------------------------------------------------------------
# claims

def _flat(v):
    if hasattr(v, "_symsparse") or hasattr(v, "toarray"):
        v = v.toarray()
    if isinstance(v, np.ndarray):
        return [E.norm_scalar(x) for x in np.asarray(symnp.raw(v)).ravel()]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in _flat(y)]
    return [E.norm_scalar(v)]


def _shape(v):
    if hasattr(v, "shape"):
        return tuple(v.shape)
    if isinstance(v, (list, tuple)):
        return (len(v),)
    return ()


class Claim:
    def viol(self, m):
        """z3 condition (or bool) under which the claim is violated by at least margin m"""
        raise NotImplementedError

    def holds(self, tol):
        raise NotImplementedError

    def parts(self):
        return [self]


def zor(xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def zand(xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def _scale(a, b):
    return 1.0 + min(abs(a) if math.isfinite(a) else 0.0, 1e300) + min(abs(b) if math.isfinite(b) else 0.0, 1e300)


ABS = [0.0]        # extra absolute slack of a replay with large inputs


class Le(Claim):
    """a <= b"""

    def __init__(self, a, b, scale=None):
        self.a, self.b = E.norm_scalar(_one(a)), E.norm_scalar(_one(b))
        self.scale = scale

    def viol(self, m):
        a, b = self.a, self.b
        if E.is_special(a) or E.is_special(b):
            fa = 0.0 if is_sym(a) else a
            fb = 0.0 if is_sym(b) else b
            return not (fa <= fb)
        if not is_sym(a) and not is_sym(b):
            return not (float(a) <= float(b) + 1e-9 * _scale(float(a), float(b)))
        return E.term(a) - E.term(b) > E.rv(Fraction(m))

    def holds(self, tol):
        a, b = float(self.a), float(self.b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + tol * (_scale(a, b) if self.scale is None else self.scale) + ABS[0]


class Lt(Claim):
    """a < b strictly (no numerical tolerance in replay: use only for claims robust to rounding)"""

    def __init__(self, a, b):
        self.a, self.b = E.norm_scalar(_one(a)), E.norm_scalar(_one(b))

    def viol(self, m):
        c = E.cmp("<", self.a, self.b)
        if not is_sym(c):
            return not c
        return E.term(self.a) - E.term(self.b) >= E.rv(Fraction(m))

    def holds(self, tol):
        return float(self.a) < float(self.b)


class Eq1(Claim):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def viol(self, m):
        a, b = self.a, self.b
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            if not is_sym(a) and not is_sym(b):
                return a != b
            return E.bterm(a) != E.bterm(b)
        if E.is_special(a) or E.is_special(b):
            if is_sym(a) or is_sym(b):
                return True
            return not (a == b)
        if not is_sym(a) and not is_sym(b):
            fa, fb = float(a), float(b)
            return not (abs(fa - fb) <= 1e-9 * _scale(fa, fb))
        d = E.term(a) - E.term(b)
        if m == 0:
            return d != 0
        return z3.Or(d > E.rv(Fraction(m)), d < -E.rv(Fraction(m)))

    def holds(self, tol):
        a, b = float(self.a), float(self.b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * _scale(a, b) + ABS[0]


class B(Claim):
    def __init__(self, c):
        if isinstance(c, np.ndarray):
            c = c.item()
        self.c = c

    def viol(self, m):
        if is_sym(self.c):
            return z3.Not(E.bterm(self.c))
        return not bool(self.c)

    def holds(self, tol):
        return bool(self.c)


class All(Claim):
    def __init__(self, *cs):
        self.cs = _claims(cs)

    def viol(self, m):
        return zor([c.viol(m) for c in self.cs])

    def holds(self, tol):
        return all(c.holds(tol) for c in self.cs)

    def parts(self):
        return [p for c in self.cs for p in c.parts()]


class Any(Claim):
    def __init__(self, *cs):
        self.cs = _claims(cs)

    def viol(self, m):
        return zand([c.viol(m) for c in self.cs])

    def holds(self, tol):
        return any(c.holds(tol) for c in self.cs)


class Imp(Claim):
    def __init__(self, cond, c):
        self.cond = cond
        self.c = _claim(c)

    def viol(self, m):
        v = self.c.viol(m)
        if is_sym(self.cond):
            return zand([E.bterm(self.cond), v])
        return v if bool(self.cond) else False

    def holds(self, tol):
        return (not bool(self.cond)) or self.c.holds(tol)

    def parts(self):
        return [Imp(self.cond, p) for p in self.c.parts()] if isinstance(self.c, All) else [self]


def _one(v):
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise ValueError("scalar expected in a claim")
        return symnp.raw(v).ravel()[0]
    return v


def _claim(c):
    return c if isinstance(c, Claim) else B(c)


def _claims(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)) or hasattr(c, "__next__"):
            out.extend(_claims(list(c)))
        else:
            out.append(_claim(c))
    return out


def Eq(a, b):
    fa, fb = _flat(a), _flat(b)
    if len(fb) == 1 and len(fa) > 1 and _shape(b) == ():
        fb = fb * len(fa)
    if len(fa) == 1 and len(fb) > 1 and _shape(a) == ():
        fa = fa * len(fb)
    if len(fa) != len(fb):
        return B(False)
    if len(fa) == 1:
        return Eq1(fa[0], fb[0])
    return All([Eq1(p, q) for p, q in zip(fa, fb)])


def LeAll(a, b):
    fa, fb = _flat(a), _flat(b)
    n = max(len(fa), len(fb))
    if len(fa) == 1:
        fa = fa * n
    if len(fb) == 1:
        fb = fb * n
    return All([Le(p, q) for p, q in zip(fa, fb)])


def Ge(a, b):
    return Le(b, a)


# --------------------------------------------------------------------------------------------------------------

class ReplayDiverged(Exception):
    pass


class ReplayTimeout(BaseException):
    pass


class _CP:
    """attribute access loads submodules: ctx.cp.penalty, ctx.cp.minimize_saga ..."""

    def __init__(self, loadf):
        self.__dict__["_load"] = loadf

    def __getattr__(self, k):
        top = self._load("copt")
        if k in ("penalty", "constraint", "loss", "tv_prox", "utils", "frank_wolfe", "proximal_gradient",
                 "randomized", "splitting", "datasets"):
            return self._load("copt." + k)
        return getattr(top, k)


class CtxBase:
    TOL = 1e-6

    def __init__(self):
        self.cleanup = []
        self.state = {}

    def vec(self, name, n, **k):
        return self.arr(name, (n,), **k)

    def mat(self, name, m, n, **k):
        return self.arr(name, (m, n), **k)

    def perm(self, name, n):
        """arbitrary permutation of range(n)"""
        left = list(range(n))
        out = []
        for i in range(n - 1):
            k = self.choose("%s.%d" % (name, i), len(left))
            out.append(left.pop(k))
        return out + left

    def same(self, label, a, b):
        self.check(label, Eq(a, b))

    def random(self, fixed=False):
        """install nondeterministic contracts for numpy's sampling routines; draws go through `choose`
        (fixed: always the first outcome).  Returns the list of draws made so far"""
        ctx = _First() if fixed else self
        cnt = [0]
        draws = []

        def rec(a):
            draws.append([int(v) for v in np.ravel(a)])
            return a

        def nm(k):
            cnt[0] += 1
            return "rnd%d.%s" % (cnt[0], k)

        def shuffle(a, *r, **k):
            p = ctx.perm(nm("shuffle"), len(a))
            b = [a[i] for i in p]
            for i, v in enumerate(b):
                a[i] = v
            rec(b)

        def permutation(a, *r, **k):
            if isinstance(a, (int, np.integer)):
                return rec(np.array(ctx.perm(nm("permutation"), int(a))))
            p = ctx.perm(nm("permutation"), len(a))
            return rec(np.asarray(a)[np.array(p)])

        def randint(low, high=None, size=None, dtype=int, **k):
            lo, hi = (0, low) if high is None else (low, high)
            if size is None:
                return int(rec(int(lo) + ctx.choose(nm("randint"), int(hi) - int(lo))))
            n = int(np.prod(size))
            name = nm("randint")
            return rec(np.array([int(lo) + ctx.choose("%s.%d" % (name, i), int(hi) - int(lo)) for i in range(n)],
                                dtype=np.int64).reshape(size))

        def choice(a, size=None, replace=True, p=None, **k):
            pool = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
            name = nm("choice")
            if size is None:
                return rec(pool[ctx.choose(name, len(pool))])
            out = []
            n = int(np.prod(size))
            if not replace and n > len(pool):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            for i in range(n):
                j = ctx.choose("%s.%d" % (name, i), len(pool))
                out.append(pool[j] if replace else pool.pop(j))
            return rec(np.array(out).reshape(size))
        self._install_random(dict(shuffle=shuffle, permutation=permutation, randint=randint, integers=randint,
                                  choice=choice))
        return draws


class _First:
    """the outcome of a random source that always gives its first value"""

    def choose(self, name, k):
        return 0

    def perm(self, name, n):
        return list(range(n))


class SymCtx(CtxBase):
    mode = "sym"

    def __init__(self, engine, pkg, report):
        super().__init__()
        self.e = engine
        self.pkg = pkg
        self.cp = _CP(pkg.load)
        self.report = report
        self.inputs = {}
        self.calls = {}
        self.obs = []
        self.nchecks = 0
        self.bounds = []
        loader.WARN.items = []
        symnp.HOOKS.h = {}

    # ---- inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = z3.Real(name)
        self.inputs[name] = v
        s = SymReal(v)
        if lo is not None:
            self.e.axiom(v >= E.term(lo))
        if hi is not None:
            self.e.axiom(v <= E.term(hi))
        if gt is not None:
            self.e.axiom(v > E.term(gt))
        if lt is not None:
            self.e.axiom(v < E.term(lt))
        return s

    def arr(self, name, shape, **k):
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.real("%s_%s" % (name, "_".join(map(str, i))), **k)
        return o.view(symnp.SymArray)

    def ints(self, name, n):
        """integer array with arbitrary entries"""
        o = np.empty(n, dtype=object)
        for i in range(n):
            v = z3.Int("%s_%d" % (name, i))
            self.inputs["%s_%d" % (name, i)] = v
            self.e.axiom(z3.And(v >= -1000, v <= 1000))
            o[i] = SymReal(z3.ToReal(v))
        return o.view(symnp.IntSymArray)

    def choose(self, name, n):
        if n <= 0:
            raise ValueError("empty choice")
        if n == 1:
            return 0
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.e.axiom(z3.And(v >= 0, v < n))
        for k in range(n - 1):
            if self.e.branch(v == k):
                return k
        return n - 1

    def assume(self, c):
        for x in _flat(c) if isinstance(c, np.ndarray) else [c]:
            if isinstance(x, Claim):
                v = x.viol(0)
                if v is True:
                    raise E.PathInfeasible()
                if v is not False:
                    self.e.axiom(z3.Not(v))
            else:
                self.e.assume(x)

    def const(self, a):
        """array of concrete numbers in this mode's representation"""
        a = np.asarray(a)
        if a.dtype.kind in "iub":
            return a
        return symnp.mk(a)

    def array(self, items):
        return symnp.mk(list(items)).copy()

    def zeros(self, *shape):
        return symnp.new_array(shape, 0.0, float)

    def sparse(self, A, pattern=None, fmt="csr"):
        A = symnp.mk(A)
        if pattern is None:
            pattern = np.ones(A.shape, dtype=bool)
        if fmt == "repeated":
            return symnp.SymSparse.repeated(A, np.asarray(pattern, dtype=bool))
        return symnp.SymSparse.from_struct(A, np.asarray(pattern, dtype=bool)).asformat(fmt)

    def linop(self, matvec, rmatvec, shape):
        class O:
            pass
        o = O()
        o.shape, o.matvec, o.rmatvec = shape, matvec, rmatvec
        return symnp.CallLinOp(o)

    # ---- oracles
    def oracle(self, name, args, n):
        """n fresh values for this argument vector; equal arguments get equal answers"""
        terms = [self.e.simp(E.term(a)) for a in _flat(args)]
        key = tuple(t.get_id() for t in terms)
        st = self.calls.setdefault(name, {"cache": {}, "list": [], "log": []})
        hit = st["cache"].get(key)
        if hit is None:
            k = len(st["list"])
            vs = [z3.Real("%s#%d_%d" % (name, k, j)) for j in range(n)]
            for (ta, va) in st["list"]:
                if len(ta) == len(terms):
                    eq = z3.And(*[p == q for p, q in zip(ta, terms)]) if terms else z3.BoolVal(True)
                    eq = z3.simplify(eq)
                    if not z3.is_false(eq):
                        self.e.axiom(z3.Implies(eq, z3.And(*[p == q for p, q in zip(va, vs)])))
            st["list"].append((terms, vs))
            hit = st["cache"][key] = (vs, len(st["list"]) - 1)
        st["log"].append(hit[0])
        return [SymReal(v) for v in hit[0]], hit[1]

    def noracle(self, name):
        return len(self.calls.get(name, {}).get("log", ()))

    def svd(self, X):
        raise E.Unsupported("svd")

    def hook(self, name, f):
        symnp.HOOKS.h[name] = f

    def _install_random(self, d):
        for k, f in d.items():
            symnp.HOOKS.h["random." + k] = f

    def warnings(self):
        return list(loader.WARN.items)

    def isfinite(self, v):
        return all(is_sym(x) or math.isfinite(x) for x in _flat(v))

    def copy(self, a):
        return a.copy()

    def decide(self, c):
        """truth value of a condition, forking if necessary"""
        return bool(c)

    def ite(self, c, a, b):
        return E.ite(c, a, b)

    def abs(self, a):
        """non-forking absolute value (for specifications)"""
        if isinstance(a, np.ndarray):
            return symnp.elementwise(self.abs, a)
        if not is_sym(a):
            return abs(a)
        if self.e.merge == "abs":
            return E.absolute(a)
        return E.ite(SymBool(a.t >= 0), a, -a)

    def max(self, *xs):
        xs = [x for y in xs for x in _flat(y)]
        r = xs[0]
        for x in xs[1:]:
            if not is_sym(r) and not is_sym(x):
                r = max(r, x)
            else:
                c = E.cmp(">=", r, x)
                r = E.ite(c, r, x) if is_sym(c) else (r if c else x)
        return r

    def norm(self, v):
        """specification-side euclidean norm"""
        return symnp.norm(symnp.mk(_flat(v)))

    def and_(self, *cs):
        r = True
        for c in cs:
            r = symnp.b_and(r, c)
        return r

    def or_(self, *cs):
        r = False
        for c in cs:
            r = symnp.b_or(r, c)
        return r

    def not_(self, c):
        return symnp.b_not(c)

    def diff(self, v, x):
        """exact partial derivative of a computed value with respect to an input"""
        if not is_sym(v):
            return 0.0
        return SymReal(self.e.diff(v.t, x.t))

    def observe(self, name, v):
        self.obs.append((name, v))

    def lemma(self, c):
        """assert a just-discharged claim for the remaining queries of the path"""
        self.assume(c)

    # ---- assertions
    def check(self, label, claim, sound_models=True, replayable=True):
        claim = _claim(claim)
        self.nchecks += 1
        self.report.labels.setdefault(label, [0, 0, 0, 0])
        for part in claim.parts():
            self._check1(label, part, replayable)

    def _check1(self, label, claim, replayable):
        rep = self.report
        st = rep.labels[label]
        v = claim.viol(0)
        if v is False:
            st[0] += 1
            rep.trivial += 1
            return
        if v is not True:
            v = z3.simplify(v)
            if z3.is_false(v):
                st[0] += 1
                rep.trivial += 1
                rep.rewritten += 1
                return
            if isinstance(claim, Eq1) and self.e.identical(claim.a, claim.b):
                st[0] += 1
                rep.trivial += 1
                rep.identities += 1
                return
        res, model = rep.solve(self.e, [] if v is True else [v])
        if res == "unsat":
            st[0] += 1
            rep.discharged += 1
            if v is True:
                raise E.PathInfeasible()
            return
        if res == "unknown":
            st[1] += 1
            rep.unknown += 1
            rep.note("unknown: %s (%s)" % (label, rep.last_reason))
            return
        st[2] += 1
        rep.candidate(self, label, claim, model, replayable)


class ConcCtx(CtxBase):
    mode = "conc"

    def __init__(self, values, logs, strict=True):
        super().__init__()
        self.values = values
        self.logs = logs
        self.pos = {}
        real = loader.real_copt()

        def load(name):
            import importlib
            return real if name == "copt" else importlib.import_module(name)
        self.cp = _CP(load)
        self.results = []
        self.obs = []
        self.warned = []
        self.strict = strict
        self.patches = []
        self.uses = set()

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        self.uses.add(name)
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else (gt + 1 if gt is not None else
                                           (lt - 1 if lt is not None else 0.0)))
        return float(v)

    def arr(self, name, shape, **k):
        o = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            o[i] = self.real("%s_%s" % (name, "_".join(map(str, i))), **k)
        return o

    def ints(self, name, n):
        return np.array([int(self.values.get("%s_%d" % (name, i), 0)) for i in range(n)], dtype=np.int64)

    def choose(self, name, n):
        if n <= 0:
            raise ValueError("empty choice")
        if n == 1:
            return 0
        v = int(self.values.get(name, 0))
        return v if 0 <= v < n else 0

    def assume(self, c):
        pass

    lemma = assume

    def const(self, a):
        a = np.asarray(a)
        return a if a.dtype.kind in "iub" else np.array(a, dtype=float)

    def array(self, items):
        return np.array([float(x) for x in items])

    def zeros(self, *shape):
        return np.zeros(shape)

    def sparse(self, A, pattern=None, fmt="csr"):
        from scipy import sparse
        A = np.asarray(A, dtype=float)
        if pattern is None:
            pattern = np.ones(A.shape, dtype=bool)
        pattern = np.asarray(pattern, dtype=bool)
        data, ind, ptr = [], [], [0]
        for i in range(A.shape[0]):
            cols = [j for j in range(A.shape[1]) if pattern[i, j]]
            parts = [(j, 0.25) for j in cols[::-1]] + [(j, 0.75) for j in cols] if fmt == "repeated" else [(j, 1.0) for j in cols]
            for j, w in parts:
                data.append(A[i, j] * w)
                ind.append(j)
            ptr.append(len(data))
        M = sparse.csr_matrix((np.array(data, dtype=float), np.array(ind, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=A.shape)
        return M if fmt == "repeated" else M.asformat(fmt)

    def linop(self, matvec, rmatvec, shape):
        from scipy.sparse.linalg import LinearOperator
        return LinearOperator(shape, matvec=matvec, rmatvec=rmatvec, dtype=float)

    def oracle(self, name, args, n):
        k = self.pos.get(name, 0)
        self.pos[name] = k + 1
        log = self.logs.get(name, [])
        if k >= len(log):
            raise ReplayDiverged("more %s calls than in the symbolic path" % name)
        return [float(v) for v in log[k]], k

    def noracle(self, name):
        return self.pos.get(name, 0)

    def hook(self, name, f):
        pass

    def _install_random(self, d):
        for k in ("shuffle", "permutation", "randint", "choice"):
            p = mock.patch.object(np.random, k, d[k])
            p.start()
            self.patches.append(p)

        class Gen:
            pass
        g = Gen()
        for k, f in d.items():
            setattr(g, k, f)
        p = mock.patch.object(np.random, "default_rng", lambda *a, **k: g)
        p.start()
        self.patches.append(p)

    def patch(self, obj, name, val):
        p = mock.patch.object(obj, name, val)
        p.start()
        self.patches.append(p)

    def warnings(self):
        return [(w.category.__name__, str(w.message)) for w in self.warned]

    def isfinite(self, v):
        return all(math.isfinite(x) for x in _flat(v))

    def copy(self, a):
        return a.copy()

    def decide(self, c):
        return bool(c)

    def ite(self, c, a, b):
        return a if c else b

    def abs(self, a):
        return np.abs(a) if isinstance(a, np.ndarray) else abs(a)

    def max(self, *xs):
        return max(x for y in xs for x in _flat(y))

    def norm(self, v):
        return float(np.linalg.norm(np.array(_flat(v), dtype=float)))

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def observe(self, name, v):
        self.obs.append((name, v))

    def check(self, label, claim, sound_models=True, replayable=True):
        claim = _claim(claim)
        ok = True
        try:
            ok = bool(claim.holds(self.TOL))
        except (TypeError, ValueError) as ex:
            ok = False
        self.results.append((label, ok))


# --------------------------------------------------------------------------------------------------------------
# replay

def model_value(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        fr = r.as_fraction()
        return float(fr)
    if z3.is_algebraic_value(r):
        for prec in (40, 20, 10, 4):
            try:
                return float(r.approx(prec).as_fraction())
            except z3.Z3Exception:
                pass
        return 0.0
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return 0.0


def extract(ctx, model):
    values = {k: model_value(model, v) for k, v in ctx.inputs.items()}
    logs = {nm: [[model_value(model, v) for v in vs] for vs in st["log"]] for nm, st in ctx.calls.items()}
    return values, logs


@contextmanager
def alarm(seconds):
    def h(*a):
        raise ReplayTimeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def replay(fn, params, values, logs, timeout=20):
    """run the harness on the real package; returns dict(results, error, diverged)"""
    c = ConcCtx(values, logs)
    out = {"results": [], "error": None, "diverged": None, "obs": []}
    eng_saved, E.ENG = E.ENG, None
    try:
        with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            c.warned = w
            devnull = open(os.devnull, "w")
            so, sys.stdout = sys.stdout, devnull
            try:
                with alarm(timeout):
                    fn(c, **params)
            finally:
                sys.stdout = so
                devnull.close()
    except ReplayTimeout:
        out["error"] = "Timeout: no result within %ds" % timeout
    except ReplayDiverged as ex:
        out["diverged"] = str(ex)
    except E.PathCut as ex:
        pass
    except E.Stop as ex:
        out["diverged"] = "harness stop: " + repr(ex)
    except Exception as ex:
        out["error"] = "%s: %s" % (type(ex).__name__, ex)
        out["traceback"] = traceback.format_exc()
    finally:
        for p in c.patches:
            p.stop()
        E.ENG = eng_saved
    out["results"] = c.results
    out["obs"] = c.obs
    return out


# --------------------------------------------------------------------------------------------------------------

class StopConfig(BaseException):
    pass


def moderate(model, terms, box=10 ** 6):
    for t in terms:
        v = model.eval(t, model_completion=True)
        if not z3.is_true(z3.simplify(z3.And(v <= box, v >= -box))):
            return False
    return True


class Report:
    """accumulates the outcome of one configuration"""

    def __init__(self, prop, cfg, known=(), evdir="/verif/evidence"):
        self.prop = prop
        self.cfg = cfg
        self.known = set(known)
        self.evdir = evdir
        self.labels = {}
        self.trivial = 0
        self.identities = 0
        self.rewritten = 0
        self.discharged = 0
        self.unknown = 0
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.vacuous_paths = 0
        self.cuts = {}
        self.unsupported = {}
        self.notes = []
        self.violations = []
        self.known_hits = []
        self.unreproduced = []
        self.validated = 0
        self.mismatch = []
        self.witness = None
        self.last_reason = ""
        self.branch_queries = 0
        self.decisions = 0
        self.finished = False
        self.functions = set()
        self.wall = 0.0
        self.cand_n = {}

    def note(self, s):
        if len(self.notes) < 12 and s not in self.notes:
            self.notes.append(s)

    def solve(self, e, extra, timeout=None, slow=True):
        """portfolio: default solver, then nlsat; returns ('sat'|'unsat'|'unknown', model)"""
        e.tick()
        t0 = time.time()
        self.queries += 1
        budget = timeout or e.claim_timeout
        if e.deadline is not None:
            budget = min(budget, max(500, int(1000 * max(0, e.deadline - e.clock()))))
        res, model = "unknown", None
        if self.cfg.get("incremental", True):
            # first try the path's own incremental solver
            try:
                r = e.solver.check(*extra)
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                self.solver_s += time.time() - t0
                return "unsat", None
            if r == z3.sat:
                self.solver_s += time.time() - t0
                return "sat", e.solver.model()
        cs = list(e.pc) + list(extra)
        plan = self.cfg.get("solvers") or (("smt", 0.25), ("nlsat", 0.5), ("smt", 0.5))
        seen = set()
        for k, frac in plan:
            if k == "nlsat":
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver() \
                    if not any_int(cs) else None
                if s is None:
                    continue
            elif k == "nra":
                s = z3.SolverFor("QF_NRA")
            elif k == "lra":
                s = z3.SolverFor("QF_LRA")
            else:
                s = z3.Solver()
                if k in seen:
                    s.set("random_seed", 7)
            seen.add(k)
            s.set("timeout", max(200, int(budget * frac)))
            s.add(*cs)
            try:
                r = s.check()
            except z3.Z3Exception as ex:
                self.last_reason = str(ex)
                continue
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                try:
                    model = s.model()
                except z3.Z3Exception:
                    continue
                res = "sat"
                break
            self.last_reason = k + ": " + s.reason_unknown()
        self.solver_s += time.time() - t0
        return res, model

    def interior(self, e, extra, delta, timeout=4000):
        """a model that keeps a distance from the boundaries of the branches taken, so that rounding in the replay
        cannot change the path; conditions that cannot be strengthened are left as they are"""
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*extra)
        names = {}
        for i, c in enumerate(e.pc):
            s.add(c)
            d = strengthen(c, delta)
            if d is not c:
                b = z3.Bool("interior!%d" % i)
                names[b.get_id()] = b
                s.add(z3.Implies(b, d))
        live = list(names.values())
        res, mod = "unknown", None
        for _ in range(8):
            self.queries += 1
            try:
                r = s.check(*live)
                if r == z3.sat:
                    res, mod = "sat", s.model()
            except z3.Z3Exception:
                break
            if r != z3.unsat or not live or time.time() - t0 > 3 * timeout / 1000:
                break
            core = {c.get_id() for c in s.unsat_core()}
            if not core:
                break
            live = [b for b in live if b.get_id() not in core]
        self.solver_s += time.time() - t0
        return res, mod

    # ---- counterexamples
    def candidate(self, ctx, label, claim, model, replayable):
        vid = "%s:%s" % (self.cfg["name"], label)
        k = self.cand_n[vid] = self.cand_n.get(vid, 0) + 1
        if vid in self.known and any(h["id"] == vid for h in self.known_hits):
            return
        tries = []
        e = ctx.e
        fn, params = self.cfg["fn"], self.cfg["params"]
        ins = [v for v in ctx.inputs.values() if z3.is_real(v)]
        ins += [v for st in ctx.calls.values() for (_, vs) in st["list"] for v in vs]
        ladder = self.cfg.get("ladder") or ((Fraction(1, 4), 4), (Fraction(1, 50), 10), (Fraction(1, 10000), 100), None)
        slack = 0.0
        for step in list(ladder) + [(Fraction(1, 4), 4, Fraction(1, 20)), (Fraction(1, 50), 10, Fraction(1, 1000))]:
            slack = 0.0
            if step is None:
                # rounding of the replay is negligible only for moderate numbers
                mod = model
                if not self.cfg.get("huge") and not moderate(model, ins):
                    v = claim.viol(0)
                    r, mod = self.solve(e, ([] if v is True else [v]) + [z3.And(x <= 10 ** 6, x >= -10 ** 6) for x in ins], timeout=4000)
                    if r != "sat" and self.cfg.get("linear"):
                        # claims linear (or homogeneous) in the inputs: a large violation at larger inputs
                        v = claim.viol(1000)
                        if v is False:
                            continue
                        r, mod = self.solve(e, ([] if v is True else [v]) + [z3.And(x <= 10 ** 9, x >= -10 ** 9) for x in ins], timeout=4000)
                        slack = 100.0
                    if r != "sat":
                        continue
            elif len(step) == 3:
                m, box, delta = step
                v = claim.viol(m)
                if v is False or k > 2:
                    continue
                r, mod = self.interior(e, ([] if v is True else [v]) + [z3.And(x <= box, x >= -box) for x in ins], delta)
                if r != "sat":
                    continue
            else:
                m, box = step
                v = claim.viol(m)
                if v is False:
                    continue
                extra = [] if v is True else [v]
                extra += [z3.And(x <= box, x >= -box) for x in ins]
                r, mod = self.solve(e, extra, timeout=4000)
                if r != "sat":
                    continue
            values, logs = extract(ctx, mod)
            ABS[0] = slack
            try:
                out = replay(fn, params, values, logs)
            finally:
                ABS[0] = 0.0
            bad = [l for l, ok in out["results"] if not ok]
            tries.append((out["error"], out["diverged"], bad))
            if out["error"] or bad:
                self.confirmed(vid, label, values, logs, out, bad)
                return
        self.unreproduced.append(dict(id=vid, tries=[str(t)[:200] for t in tries]))
        self.note("counterexample not reproduced: %s %s" % (vid, tries[-1:]))
        if k > 6:
            raise StopConfig()

    def exception(self, ctx, ex):
        """code under test raised on this path"""
        label = "no-exception"
        vid = "%s:%s" % (self.cfg["name"], label)
        self.labels.setdefault(label, [0, 0, 0, 0])
        ins = [v for v in ctx.inputs.values() if z3.is_real(v)]
        ins += [v for st in ctx.calls.values() for (_, vs) in st["list"] for v in vs]
        desc = "%s: %s" % (type(ex).__name__, ex)
        if vid in self.known and any(h["id"] == vid for h in self.known_hits):
            return
        k = self.cand_n[desc] = self.cand_n.get(desc, 0) + 1
        if k > 4:
            return
        tr = []
        for box in (4, 100, None if self.cfg.get("huge") else 10 ** 6, 10):
            extra = [] if box is None else [z3.And(x <= box, x >= -box) for x in ins]
            if box == 10:
                r, mod = self.interior(ctx.e, extra, Fraction(1, 100))
            else:
                r, mod = self.solve(ctx.e, extra, timeout=6000)
            if r == "unsat" and (box is None or box == 10 ** 6):
                return
            if r != "sat":
                continue
            values, logs = extract(ctx, mod)
            out = replay(self.cfg["fn"], self.cfg["params"], values, logs)
            bad = [l for l, ok in out["results"] if not ok]
            if out["error"] or bad:
                self.labels[label][2] += 1
                self.confirmed(vid, label, values, logs, out, bad)
                return
            tr.append(out["diverged"])
        loc = traceback.extract_tb(ex.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in loc[-3:])
        self.unsupported[desc[:160] + " @ " + where] = self.unsupported.get(desc[:160] + " @ " + where, 0) + 1

    def confirmed(self, vid, label, values, logs, out, bad):
        what = out["error"] or ("claims failed on the real code: " + ", ".join(sorted(set(bad))))
        # identify by what failed in the replay
        if out["error"]:
            ids = [vid, "%s:no-exception" % self.cfg["name"]]
        else:
            ids = ["%s:%s" % (self.cfg["name"], b) for b in dict.fromkeys(bad)]
        rec = dict(id=ids[-1] if out["error"] else ids[0], ids=ids, what=what, config=self.cfg["name"], label=label,
                   values={k: v for k, v in values.items()}, logs=logs, params=repr(self.cfg["params"]))
        if all(i in self.known for i in ids) if not out["error"] else ids[-1] in self.known:
            rec["id"] = ids[-1] if out["error"] else ids[0]
            for i in ids if not out["error"] else ids[-1:]:
                if not any(h["id"] == i for h in self.known_hits):
                    self.known_hits.append(dict(rec, id=i))
            return
        if self.known:
            unk = [i for i in ids if i not in self.known]
            if unk:
                rec["id"] = unk[0]
        d = self.evdir
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay_%s_%s.json" % (self.prop, "".join(ch if ch.isalnum() else "_" for ch in rec["id"])[:80]))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, config=self.cfg["name"], label=label, what=what, values=values,
                           logs=logs), f, indent=1, default=str)
        rec["replay"] = path
        self.violations.append(rec)
        raise StopConfig()

    # ---- validation of the encoding: path witnesses on the real code
    def validate(self, ctx):
        e = ctx.e
        ins = [v for v in ctx.inputs.values() if z3.is_real(v)]
        ins += [v for st in ctx.calls.values() for (_, vs) in st["list"] for v in vs]
        r, mod = self.solve(e, [z3.And(x <= 8, x >= -8) for x in ins], timeout=1500)
        if r != "sat":
            return
        values, logs = extract(ctx, mod)
        out = replay(self.cfg["fn"], self.cfg["params"], values, logs, timeout=10)
        if out["diverged"]:
            return
        bad = [l for l, ok in out["results"] if not ok]
        mism = []
        if not out["error"] and not bad:
            for (n1, v1), (n2, v2) in zip(ctx.obs, out["obs"]):
                a = [model_value(mod, E.term(x)) if is_sym(x) and isinstance(x, SymReal) else x for x in _flat(v1)]
                b = _flat(v2)
                if n1 != n2 or len(a) != len(b):
                    mism.append(n1)
                    continue
                for p, q in zip(a, b):
                    try:
                        if not abs(float(p) - float(q)) <= 1e-6 * _scale(float(p), float(q)) and not (
                                E.is_special(p) and E.is_special(q)):
                            mism.append(n1)
                            break
                    except (TypeError, ValueError):
                        mism.append(n1)
                        break
        if self.witness is None:
            self.witness = dict(values={k: values[k] for k in list(values)[:24]},
                                claims=[l for l, _ in out["results"]][:12])
        if out["error"] or bad or mism:
            self.mismatch.append(dict(error=out["error"], failed=bad[:5], observed=mism[:5],
                                      values={k: values[k] for k in list(values)[:24]}))
        else:
            self.validated += 1


def strengthen(c, delta, neg=False):
    """the condition (or its negation) with its inequalities tightened by delta"""
    k = c.decl().kind() if z3.is_app(c) else None
    if k == z3.Z3_OP_NOT:
        r = strengthen(c.arg(0), delta, not neg)
        return c if not neg and r.eq(z3.Not(c.arg(0))) else r
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        kids = [strengthen(x, delta, neg) for x in c.children()]
        if not neg and all(a.eq(b) for a, b in zip(kids, c.children())):
            return c
        return (z3.And if (k == z3.Z3_OP_AND) != neg else z3.Or)(*kids)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_real(c.arg(0)):
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        if neg:
            a, b = b, a
        return a + E.rv(delta) <= b
    if k == z3.Z3_OP_EQ and neg and z3.is_real(c.arg(0)):
        a, b = c.arg(0), c.arg(1)
        return z3.Or(a + E.rv(delta) <= b, b + E.rv(delta) <= a)
    return z3.Not(c) if neg else c


def any_int(cs):
    seen = set()
    stack = list(cs)
    while stack:
        c = stack.pop()
        i = c.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(c) and z3.is_const(c) and not z3.is_int_value(c):
            return True
        stack.extend(c.children())
    return False


# --------------------------------------------------------------------------------------------------------------

def trace_functions(rep):
    """record which functions of the package the symbolic run executed"""
    mon = sys.monitoring
    tid = 4
    base = os.path.join(loader.REPO, "copt") + os.sep
    try:
        mon.use_tool_id(tid, "vp")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(base):
            rep.functions.add(os.path.basename(code.co_filename) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def run_config(prop, cfg, known, evdir, tier):
    rep = Report(prop, cfg, known, evdir)
    t0 = time.time()
    budget = cfg.get("budget", 60)
    e = E.Engine(merge=cfg.get("merge", False), branch_timeout_ms=cfg.get("branch_ms", 2000),
                 claim_timeout_ms=cfg.get("claim_ms", 20000), deadline=time.process_time() + budget,
                 max_branches=cfg.get("max_branches", 4000), logic=cfg.get("logic"))
    e.wall_deadline = cfg.get("wall_deadline")
    e.exp_bounds = cfg.get("exp_bounds", True)
    e.exp_overflow = cfg.get("exp_overflow", False)
    E.ENG = e
    max_valid = cfg.get("validate", 3)
    trace_functions(rep)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pkg = loader.SymPackage(overrides=cfg.get("overrides") and cfg["overrides"]())
        loader.real_copt()
        try:
            while e.work:
                if rep.paths >= cfg.get("max_paths", 100000):
                    rep.cuts["path limit"] = rep.cuts.get("path limit", 0) + len(e.work)
                    break
                prefix = e.work.pop()
                e.start(prefix)
                symnp.SYM_INT[0] = cfg.get("sym_int", False)
                ctx = SymCtx(e, pkg, rep)
                try:
                    cfg["fn"](ctx, **cfg["params"])
                except E.PathInfeasible:
                    continue
                except E.PathCut as ex:
                    rep.cuts[ex.reason] = rep.cuts.get(ex.reason, 0) + 1
                    if ctx.nchecks == 0:
                        continue
                except E.Unsupported as ex:
                    tb = traceback.extract_tb(ex.__traceback__)
                    mine = [f for f in tb if "/copt/" in f.filename] or tb[-2:]
                    msg = "%s @ %s:%d" % (ex, os.path.basename(mine[-1].filename), mine[-1].lineno)
                    rep.unsupported[msg] = rep.unsupported.get(msg, 0) + 1
                    continue
                except Exception as ex:
                    rep.paths += 1
                    rep.exception(ctx, ex)
                    continue
                rep.paths += 1
                rep.decisions += len(e.decisions)
                if ctx.nchecks == 0:
                    rep.vacuous_paths += 1
                elif rep.validated + len(rep.mismatch) < max_valid:
                    rep.validate(ctx)
            rep.finished = True
        except StopConfig:
            pass
        except E.OutOfTime:
            rep.note("%s with %d paths queued" % ("time budget of %ds exhausted" % budget if time.process_time() > e.deadline else "wall limit of the run reached", len(e.work) + 1))
    rep.branch_queries = e.stats.branch_queries
    rep.solver_s += e.stats.solver_s
    rep.wall = time.time() - t0
    rep.pending = len(e.work)
    d = dict(rep.__dict__)
    d["functions"] = sorted(rep.functions)
    d["known"] = None
    d["cfg"] = None
    d["name"] = cfg["name"]
    d["bounds"] = cfg.get("bounds", "")
    return d
