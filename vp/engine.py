"""Symbolic values over exact reals and a forking path explorer on top of z3.

A harness is an ordinary Python function run many times.  Every time the code under test takes the truth value
of a symbolic condition, `Engine.branch` asks the solver which sides are feasible, follows one and queues the
other (as a decision prefix to be re-executed).  The path condition is a z3 conjunction; assertions are decided
by the solver under it.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3


class Stop(BaseException):
    """Base of control-flow signals; BaseException so that code under test cannot swallow them."""


class PathInfeasible(Stop):
    pass


class PathCut(Stop):
    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class Unsupported(Stop):
    pass


class OutOfTime(Stop):
    pass


# --------------------------------------------------------------------------------------------------------------
# numbers

_NICE = {}


def nice(v):
    """Exact rational standing for a machine number written in (or computed from constants of) the code:
    the simplest rational within a few ulps, so 0.1 is 1/10 and 1/3 is 1/3."""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    v = float(v)
    r = _NICE.get(v)
    if r is not None:
        return r
    if v == 0:
        r = Fraction(0)
    elif v == int(v) and abs(v) < 2 ** 53:
        r = Fraction(int(v))
    else:
        exact = Fraction(v)
        tol = abs(exact) * Fraction(2, 10 ** 15)
        r = _simplest(exact - tol, exact + tol)
        if r.denominator > 10 ** 7 and Fraction(repr(v)).denominator <= 10 ** 12:
            r = Fraction(repr(v))
        elif r.denominator > 10 ** 9:
            r = exact if exact.denominator < 2 ** 60 else r
    _NICE[v] = r
    return r


def _simplest(lo, hi):
    """Simplest rational in [lo, hi] (Stern-Brocot)."""
    if lo > 0:
        fl = lo.numerator // lo.denominator
        if fl == lo:
            return Fraction(fl)
        if fl + 1 <= hi:
            return Fraction(fl + 1)
        r = _simplest(1 / (hi - fl), 1 / (lo - fl))
        return fl + 1 / r
    if hi < 0:
        return -_simplest(-hi, -lo)
    return Fraction(0)


_VALS = {}


def rv(fr):
    t = _VALS.get(fr)
    if t is None:
        t = z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)
        _VALS[fr] = t
    return t


_CONC = (int, float, np.integer, np.floating, Fraction, bool, np.bool_)


def is_special(v):
    return isinstance(v, (float, np.floating)) and not math.isfinite(v)


def is_sym(v):
    return isinstance(v, (SymReal, SymBool))


def term(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, rv(Fraction(1)), rv(Fraction(0)))
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return term(v.item())
    if isinstance(v, np.ndarray) and v.size == 1:
        return term(v.ravel()[0])
    return rv(nice(v))


def bterm(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, SymReal):
        return v.t != 0
    if isinstance(v, np.ndarray) and v.size == 1:
        return bterm(v.ravel()[0])
    return z3.BoolVal(bool(v))


def norm_scalar(v):
    """python number standing for a concrete scalar"""
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


ENG = None  # current engine


def eng():
    if ENG is None:
        raise Unsupported("symbolic value used outside an engine run")
    return ENG


class SymBase:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.array_function(func, types, args, kwargs)

    # numpy-scalar look-alikes
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return self

    def ravel(self, *a):
        from . import symnp
        return symnp.mk([self])

    flatten = ravel

    def reshape(self, *shape):
        from . import symnp
        return symnp.mk([self]).reshape(*shape)

    def squeeze(self, *a):
        return self

    def astype(self, *a, **k):
        return self

    def view(self, *a, **k):
        return self

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self


class SymReal(SymBase):
    __slots__ = ()
    __hash__ = None  # dictionary keys on symbolic values would not be sound

    @property
    def dtype(self):
        return np.dtype(float)

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    # ---- arithmetic
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return SymReal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    # ---- comparison
    def __lt__(self, o):
        return cmp("<", self, o)

    def __le__(self, o):
        return cmp("<=", self, o)

    def __gt__(self, o):
        return cmp(">", self, o)

    def __ge__(self, o):
        return cmp(">=", self, o)

    def __eq__(self, o):
        return cmp("==", self, o)

    def __ne__(self, o):
        return cmp("!=", self, o)

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        return eng().concretize_int(self.t)

    def __trunc__(self):
        raise Unsupported("trunc of a symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic value")

    def is_integer(self):
        return self.t.is_int()

    # numpy scalar methods
    def sum(self, *a, **k):
        return self

    mean = prod = max = min = sum

    def dot(self, o):
        return self * o

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def clip(self, lo=None, hi=None, min=None, max=None):
        from . import symnp
        return symnp.clip_scalar(self, lo if lo is not None else min, hi if hi is not None else max)


class SymBool(SymBase):
    __slots__ = ()
    __hash__ = None

    @property
    def dtype(self):
        return np.dtype(bool)

    def __repr__(self):
        return "<symb>"

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, bterm(o))) if not isinstance(o, np.ndarray) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, bterm(o))) if not isinstance(o, np.ndarray) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bterm(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return SymBool(self.t == o.t)
        return cmp("==", self, o)

    def __ne__(self, o):
        return ~(self == o)

    def __lt__(self, o):
        return cmp("<", self, o)

    def __gt__(self, o):
        return cmp(">", self, o)

    def __le__(self, o):
        return cmp("<=", self, o)

    def __ge__(self, o):
        return cmp(">=", self, o)

    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def any(self, *a, **k):
        return self

    all = any

    def sum(self, *a, **k):
        return SymReal(term(self))


def _guard(f):
    """Binary operation wrapper: lets arrays take over, normalises scalars."""
    def g(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            ar, br = a, b
            if isinstance(a, np.ndarray) and a.ndim == 0:
                a = a.item()
            if isinstance(b, np.ndarray) and b.ndim == 0:
                b = b.item()
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                from . import symnp
                return symnp.elementwise(g, ar, br)
        if hasattr(a, "_symsparse") or hasattr(b, "_symsparse"):
            return NotImplemented
        if a is None or b is None or isinstance(a, (str, tuple, list)) or isinstance(b, (str, tuple, list)):
            return NotImplemented
        return f(norm_scalar(a), norm_scalar(b))
    g.__name__ = f.__name__
    return g


def const_of(v):
    """Fraction if v is a finite concrete number, else None"""
    if isinstance(v, _CONC):
        if is_special(v):
            return None
        return nice(v)
    if isinstance(v, SymReal) and z3.is_rational_value(v.t):
        return v.t.as_fraction()
    return None


def wrap(t):
    return SymReal(t)


@_guard
def add(a, b):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return a + b
        return a if is_special(a) else b
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0:
        return b if isinstance(b, SymReal) else SymReal(term(b))
    if not is_sym(b) and b == 0:
        return a if isinstance(a, SymReal) else SymReal(term(a))
    return SymReal(term(a) + term(b))


@_guard
def sub(a, b):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return a - b
        return a if is_special(a) else -b
    if not is_sym(a) and not is_sym(b):
        return a - b
    if not is_sym(b) and b == 0:
        return a if isinstance(a, SymReal) else SymReal(term(a))
    if not is_sym(a) and a == 0:
        return SymReal(-term(b))
    if is_sym(a) and is_sym(b) and a.t.eq(b.t):
        return 0.0
    return SymReal(term(a) - term(b))


@_guard
def mul(a, b):
    if is_special(a) or is_special(b):
        if not is_sym(a) and not is_sym(b):
            return a * b
        s, v = (a, b) if is_special(a) else (b, a)
        if math.isnan(s):
            return s
        if eng().branch(term(v) > 0):
            return s
        if eng().branch(term(v) < 0):
            return -s
        return math.nan
    if not is_sym(a) and not is_sym(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            if p == 0:
                return 0.0
            if p == 1:
                return q if isinstance(q, SymReal) else SymReal(term(q))
            if p == -1:
                return SymReal(-term(q))
    return SymReal(term(a) * term(b))


def _np_div(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


@_guard
def div(a, b):
    if is_special(a) or is_special(b):
        if not is_sym(a) and not is_sym(b):
            return _np_div(a, b)
        if is_special(b):
            return math.nan if math.isnan(b) else 0.0
        if math.isnan(a):
            return a
        return a if eng().branch(term(b) >= 0) else -a
    if not is_sym(a) and not is_sym(b):
        return _np_div(a, b)
    if not is_sym(b):
        if b == 0:
            if eng().branch(term(a) == 0):
                return math.nan
            return math.inf if eng().branch(term(a) > 0) else -math.inf
        if b == 1:
            return a
        return SymReal(term(a) * rv(1 / nice(b)))
    tb = term(b)
    if eng().branch(tb == 0):
        # numpy semantics for a positive zero; the sign of zero is not modelled
        ca = const_of(a)
        if ca is not None:
            return math.nan if ca == 0 else (math.inf if ca > 0 else -math.inf)
        if eng().branch(term(a) == 0):
            return math.nan
        return math.inf if eng().branch(term(a) > 0) else -math.inf
    if not is_sym(a) and a == 0:
        return 0.0
    if is_sym(a) and a.t.eq(tb):
        return 1.0
    return eng().quotient(term(a), tb)


@_guard
def floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return a // b
    q = div(a, b)
    return floor(q)


@_guard
def mod(a, b):
    if not is_sym(a) and not is_sym(b):
        return a % b
    return sub(a, mul(b, floordiv(a, b)))


def floor(v):
    if not is_sym(v):
        return math.floor(v)
    if v.t.is_int():
        return v
    return SymReal(z3.ToReal(z3.ToInt(v.t)))


@_guard
def power(a, b):
    if not is_sym(a) and not is_sym(b):
        return a ** b
    if not is_sym(b):
        if is_special(b):
            raise Unsupported("power with special exponent")
        fb = nice(b)
        if fb.denominator == 1:
            n = int(fb)
            if n == 0:
                return 1.0
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(1.0, r)
        if fb == Fraction(1, 2):
            return sqrt(a)
        if fb == Fraction(-1, 2):
            return div(1.0, sqrt(a))
        return eng().uf_pow(a, fb)
    raise Unsupported("power with symbolic exponent")


_OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def cmp(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import symnp
        return symnp.elementwise(lambda p, q: cmp(op, p, q), a, b)
    a, b = norm_scalar(a), norm_scalar(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return op == "!="
    if not (is_sym(a) or isinstance(a, _CONC)) or not (is_sym(b) or isinstance(b, _CONC)):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return bool(_OPS[op](a, b))
    if is_special(a) or is_special(b):
        # a finite symbolic value against inf / nan
        return bool(_OPS[op](0.0 if is_sym(a) else a, 0.0 if is_sym(b) else b))
    ta, tb = term(a), term(b)
    if ta.eq(tb):
        return op in ("<=", ">=", "==")
    r = _OPS[op](ta, tb)
    return SymBool(r)


# ---- functions

def ite(c, a, b):
    """c symbolic or concrete bool"""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return SymBool(z3.If(c.t, bterm(a), bterm(b)))
    if is_special(a) or is_special(b):
        return a if eng().branch(c.t) else b
    return SymReal(z3.If(c.t, term(a), term(b)))


def select(c, a, b):
    """fork or merge according to the engine's policy"""
    if not isinstance(c, SymBool):
        return a if c else b
    e = eng()
    if e.merge is True:
        v = e.known(c.t)
        if v is not None:
            return a if v else b
        return ite(c, a, b)
    return a if e.branch(c.t) else b


def absolute(a):
    if not is_sym(a):
        return abs(a)
    if isinstance(a, SymBool):
        return SymReal(term(a))
    e = eng()
    if e.merge == "abs":
        t = e.simp(term(a))
        sg = e.sign_of(t)
        if sg is not None:
            return SymReal(t) if sg >= 0 else SymReal(-t)
        key = ("abs", t.get_id())
        r = e.cache.get(key)
        if r is None:
            nt = e.simp(-t)
            v = e.fresh_real("abs")
            e.axiom(v >= 0)
            e.axiom(z3.Or(v == t, v == nt))
            r = e.cache[key] = (SymReal(v), t)
            e.cache[("abs", nt.get_id())] = (r[0], nt)
        return r[0]
    return select(cmp(">=", a, 0), a, -a)


def maximum(a, b):
    if is_special(a) and math.isnan(a) or is_special(b) and math.isnan(b):
        return math.nan
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return select(cmp(">=", a, b), a, b)


def minimum(a, b):
    if is_special(a) and math.isnan(a) or is_special(b) and math.isnan(b):
        return math.nan
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return select(cmp("<=", a, b), a, b)


def fmax(a, b):
    if is_special(a) and math.isnan(a):
        return b
    if is_special(b) and math.isnan(b):
        return a
    return maximum(a, b)


def fmin(a, b):
    if is_special(a) and math.isnan(a):
        return b
    if is_special(b) and math.isnan(b):
        return a
    return minimum(a, b)


def sign(a):
    if not is_sym(a):
        return float(np.sign(a))
    e = eng()
    if e.merge is True:
        return SymReal(z3.If(term(a) > 0, rv(Fraction(1)), z3.If(term(a) < 0, rv(Fraction(-1)), rv(Fraction(0)))))
    if e.branch(term(a) > 0):
        return 1.0
    if e.branch(term(a) < 0):
        return -1.0
    return 0.0


def _perfect_sqrt(c):
    """exact rational square root or None"""
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def sqrt(a, nonneg=False):
    if not is_sym(a):
        if is_special(a):
            return float(np.sqrt(a))
        if a < 0:
            return math.nan
        return math.sqrt(a)
    e = eng()
    t = e.simp(term(a))
    if z3.is_rational_value(t):
        return sqrt(float(t.as_fraction()))
    key = ("sqrt", t.get_id())
    r = e.cache.get(key)
    if r is not None:
        return r[0]
    if not nonneg and not e.is_sumsq(t):
        if e.branch(t < 0):
            return math.nan
    v = e.fresh_real("sqrt")
    e.axiom(v >= 0)
    e.axiom(v * v == t)
    e.defs[v.get_id()] = ("sqrt", v, t)
    r = SymReal(v)
    e.cache[key] = (r, t)
    return r


def exp(a):
    if not is_sym(a):
        if a > 709.782712893384:
            return math.inf
        return math.exp(a)
    return eng().transcendental("exp", term(a))


def log(a):
    if not is_sym(a):
        return float(np.log(a))
    return eng().transcendental("log", term(a))


def log1p(a):
    if not is_sym(a):
        return float(np.log1p(a))
    return eng().transcendental("log1p", term(a))


def expm1(a):
    if not is_sym(a):
        return float(np.expm1(a))
    return sub(exp(a), 1.0)


def expit(a):
    if not is_sym(a):
        from scipy import special
        return float(special.expit(a))
    # 1/(1+exp(-a)); library routine, no overflow obligation
    e = eng()
    E = e.transcendental("exp", -term(a), overflow=False)
    return div(1.0, add(1.0, E))


def is_finite(a):
    if not is_sym(a):
        return math.isfinite(a)
    return True


# --------------------------------------------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.cut = {}
        self.branch_queries = 0
        self.claim_queries = 0
        self.discharged = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.trivial = 0
        self.covers = {}

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """One exploration."""

    def __init__(self, merge=False, branch_timeout_ms=2000, claim_timeout_ms=20000, deadline=None, max_branches=4000,
                 logic=None, lazy=False):
        self.merge = merge
        self.branch_timeout = branch_timeout_ms
        self.claim_timeout = claim_timeout_ms
        self.deadline = deadline
        self.wall_deadline = None
        self.max_branches = max_branches
        self.logic = logic
        self.lazy = lazy
        self.stats = Stats()
        self.work = [[]]
        self.exp_overflow = False
        self.exp_bounds = True

    # -- per path state
    def start(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []           # z3 constraints in order
        self.cache = {}
        self.defs = {}
        self.nfresh = {}
        self.inputs = {}       # name -> z3 const
        self.model = None
        self.trans = {}        # kind -> list of (arg, value)
        self.solver = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        self.solver.set("timeout", self.branch_timeout)
        self.keep = []         # keeps asts alive so ids stay unique
        self.known_cache = {}
        self.normaliser = None
        self.signs = {}

    def fresh_real(self, prefix):
        n = self.nfresh.get(prefix, 0)
        self.nfresh[prefix] = n + 1
        v = z3.Real("%s!%d" % (prefix, n))
        self.keep.append(v)
        return v

    def simp(self, t):
        r = z3.simplify(t, som=True)
        self.keep.append(r)
        return r

    def is_sumsq(self, t):
        """syntactically a sum of squares?"""
        def sq(u):
            if z3.is_rational_value(u):
                return u.as_fraction() >= 0
            if z3.is_mul(u):
                ch = list(u.children())
                c = Fraction(1)
                rest = {}
                for x in ch:
                    if z3.is_rational_value(x):
                        c *= x.as_fraction()
                    else:
                        rest[x.get_id()] = rest.get(x.get_id(), 0) + 1
                return c >= 0 and all(n % 2 == 0 for n in rest.values())
            if u.decl().kind() == z3.Z3_OP_POWER:
                p = u.arg(1)
                return z3.is_rational_value(p) and p.as_fraction() % 2 == 0
            return False
        ch = t.children() if z3.is_add(t) else [t]
        return all(sq(c) for c in ch)

    def axiom(self, c):
        self.pc.append(c)
        self.learn(c)
        self.solver.add(c)
        self.model = None

    def assume(self, c):
        """harness assumption (path condition)"""
        if isinstance(c, SymBool):
            c = c.t
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathInfeasible()
            return
        self.axiom(c)
        if self.model is None and not self.lazy:
            pass

    def _check(self, *extra):
        self.tick()
        t0 = time.time()
        self.stats.branch_queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            return True, self.solver.model()
        if r == z3.unsat:
            return False, None
        return None, None

    def clock(self):
        """CPU seconds of this process, so that what is explored within the budgets does not depend on the load of the machine;
        jumps past every deadline when the wall limit of the whole run is reached"""
        if self.wall_deadline is not None and time.time() > self.wall_deadline:
            return float("inf")
        return time.process_time()

    def tick(self):
        if self.deadline is not None and self.clock() > self.deadline:
            raise OutOfTime()

    def known(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return None

    # -- cheap sign reasoning, so that divisions by obviously positive terms need no query
    def learn(self, c, pos=True):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(c.arg(0), not pos)
        if pos and k == z3.Z3_OP_AND:
            for a in c.children():
                self.learn(a)
            return
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return
        a, b = c.children()
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if not pos:
            a, b, strict = b, a, not strict
        # a <= b (or a < b)
        if z3.is_rational_value(a):
            v = a.as_fraction()
            if v > 0 or v == 0 and strict:
                self.signs[b.get_id()] = 2
            elif v == 0:
                self.signs.setdefault(b.get_id(), 1)
            self.keep.append(b)
        elif z3.is_rational_value(b):
            v = b.as_fraction()
            if v < 0 or v == 0 and strict:
                self.signs[a.get_id()] = -2
            elif v == 0:
                self.signs.setdefault(a.get_id(), -1)
            self.keep.append(a)

    def sign_of(self, t, depth=0):
        """2 positive, 1 nonnegative, -1 nonpositive, -2 negative, 0 zero, None unknown"""
        if z3.is_rational_value(t):
            v = t.as_fraction()
            return 2 if v > 0 else (-2 if v < 0 else 0)
        i = t.get_id()
        r = self.signs.get(i)
        if r in (2, -2) or depth > 12:
            return r
        q = None
        df = self.defs.get(i)
        if df is not None:
            if df[0] == "exp":
                q = 2
            elif df[0] == "sqrt":
                q = 2 if self.sign_of(df[2], depth + 1) == 2 else 1
            elif df[0] == "quot":
                a, b = self.sign_of(df[2], depth + 1), self.sign_of(df[3], depth + 1)
                if a is not None and b is not None and abs(b) == 2:
                    q = 0 if a == 0 else (a if b > 0 else -a)
            elif df[0] == "log1p":
                a = self.sign_of(df[2], depth + 1)
                q = a if a is not None and a > 0 else None
        elif not z3.is_const(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_UMINUS:
                a = self.sign_of(ch[0], depth + 1)
                q = None if a is None else -a
            elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                ss = [self.sign_of(c, depth + 1) for c in ch]
                if k == z3.Z3_OP_SUB:
                    ss = ss[:1] + [None if v is None else -v for v in ss[1:]]
                if None not in ss:
                    if all(v >= 0 for v in ss):
                        q = max(ss)
                    elif all(v <= 0 for v in ss):
                        q = min(ss)
            elif k == z3.Z3_OP_MUL:
                cnt = {}
                for c in ch:
                    cnt.setdefault(c.get_id(), [c, 0])[1] += 1
                sg, strict = 1, True
                for c, m in cnt.values():
                    a = self.sign_of(c, depth + 1)
                    if a == 0:
                        sg = 0
                        break
                    if m % 2 == 0:
                        strict = strict and a is not None and abs(a) == 2
                    elif a is None:
                        sg = None
                        break
                    else:
                        sg *= 1 if a > 0 else -1
                        strict = strict and abs(a) == 2
                if sg is not None:
                    q = sg * (2 if strict else 1)
        if q is None:
            return r
        if abs(q) == 2:
            self.signs[i] = q
            self.keep.append(t)
        return q

    def by_sign(self, c):
        """truth of a comparison with zero when the sign is evident"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.by_sign(c.arg(0))
            return None if r is None else not r
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return None
        a, b = c.children()
        if not z3.is_arith(a):
            return None
        if z3.is_rational_value(a) and not z3.is_rational_value(b):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
        if not z3.is_rational_value(b):
            return None
        v = b.as_fraction()
        s = self.sign_of(a)
        if s is None:
            return None
        if k == z3.Z3_OP_EQ:
            return False if (s == 2 and v <= 0) or (s == -2 and v >= 0) or (s == 1 and v < 0) or (s == -1 and v > 0) else None
        if k == z3.Z3_OP_GE or k == z3.Z3_OP_GT:
            if s >= 1 and (v < 0 or v == 0 and (s == 2 or k == z3.Z3_OP_GE)):
                return True
            if s <= -1 and (v > 0 or v == 0 and (s == -2 or k == z3.Z3_OP_GT)):
                return False
            return None
        if s <= -1 and (v > 0 or v == 0 and (s == -2 or k == z3.Z3_OP_LE)):
            return True
        if s >= 1 and (v < 0 or v == 0 and (s == 2 or k == z3.Z3_OP_LT)):
            return False
        return None

    def branch(self, c):
        r = self.by_sign(c)
        if r is not None:
            if c.get_id() not in self.known_cache:
                # implied by the path; recorded because it spares the solver the derivation
                self.keep.append(c)
                self.known_cache[c.get_id()] = r
                x = c if r else z3.Not(c)
                self.pc.append(x)
                self.solver.add(x)
            return r
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if z3.is_not(c):
            return not self.branch(c.arg(0))
        self.keep.append(c)
        k = self.known_cache.get(c.get_id())
        if k is not None:
            return k
        nc = z3.Not(c)
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self._take(c, nc, d)
            return d
        if i >= self.max_branches:
            raise PathCut("branch bound")
        # new decision
        val = None
        if self.model is not None:
            mv = self.model.eval(c, model_completion=True)
            if z3.is_true(mv):
                val = True
            elif z3.is_false(mv):
                val = False
        if val is None:
            ok, m = self._check(c)
            if ok is False:
                # then not c must hold (path itself assumed feasible)
                ok2, m2 = self._check(nc)
                if ok2 is False:
                    raise PathInfeasible()
                self._take(c, nc, False, forced=True)
                self.model = m2
                return False
            if ok:
                self.model = m
            ok2, m2 = self._check(nc)
            if ok2 is False:
                self._take(c, nc, True, forced=True)
                return True
            self.work.append(self.decisions + [False])
            keep = self.model if ok else None
            self._take(c, nc, True)
            self.model = keep
            return True
        other = nc if val else c
        ok, m = self._check(other)
        keep = self.model
        if ok is False:
            self._take(c, nc, val, forced=True)
            self.model = keep
            return val
        self.work.append(self.decisions + [not val])
        self._take(c, nc, val)
        self.model = keep
        return val

    def _take(self, c, nc, d, forced=False):
        self.decisions.append(d)
        x = c if d else nc
        self.pc.append(x)
        self.learn(x)
        self.solver.add(x)
        self.known_cache[c.get_id()] = d
        if len(self.decisions) <= len(self.prefix):
            self.model = None

    def concretize_int(self, t):
        """fork over the feasible integer values of t"""
        t = z3.simplify(t)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            fr = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            if fr.denominator != 1:
                raise TypeError("non-integer used as an index")
            return int(fr)
        for _ in range(64):
            if self.model is None:
                ok, m = self._check()
                if ok is False:
                    raise PathInfeasible()
                if ok is None:
                    raise Unsupported("cannot concretize index")
                self.model = m
            # deterministic across replays of the prefix: enumerate small values in order
            for v in range(0, 32):
                if self.branch(t == v):
                    return v
            for v in range(-1, -8, -1):
                if self.branch(t == v):
                    return v
            raise PathCut("index out of concretization range")

    # -- derived terms
    def quotient(self, a, b):
        key = ("q", a.get_id(), b.get_id())
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        self.keep.extend([a, b])
        v = self.fresh_real("q")
        self.pc.append(v * b == a)
        self.solver.add(v * b == a)
        self.model = None
        self.defs[v.get_id()] = ("quot", v, a, b)
        r = SymReal(v)
        self.cache[key] = (r, a, b)
        return r

    def uf_pow(self, a, fb):
        """a ** fb for a non-integer rational exponent: contract 0<=a -> r>=0, and r**den == a**num"""
        t = term(a)
        key = ("pow", t.get_id(), fb)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        self.keep.append(t)
        if self.branch(t < 0):
            return math.nan
        v = self.fresh_real("pow")
        self.axiom(v >= 0)
        lhs = rhs = None
        for _ in range(fb.denominator):
            lhs = v if lhs is None else lhs * v
        for _ in range(abs(fb.numerator)):
            rhs = t if rhs is None else rhs * t
        if fb > 0:
            self.axiom(lhs == rhs)
        else:
            self.axiom(lhs * rhs == 1)
        r = SymReal(v)
        self.cache[key] = (r, t)
        return r

    def identical(self, a, b):
        """equality by expansion to rational functions (True proves it, False says nothing)"""
        if not is_sym(a) and not is_sym(b) or isinstance(a, SymBool) or isinstance(b, SymBool) or is_special(a) or is_special(b):
            return False
        if self.normaliser is None:
            from . import identity
            self.normaliser = identity.Normaliser(self)
        return self.normaliser.equal(term(a), term(b))

    def transcendental(self, kind, t, overflow=True):
        t = self.simp(t)
        if z3.is_rational_value(t):
            x = float(t.as_fraction())
            return {"exp": exp, "log": log, "log1p": log1p}[kind](x)
        if kind == "exp" and overflow and self.exp_overflow:
            # double precision: the largest finite exponential
            if self.branch(t > rv(Fraction("709.782712893384"))):
                return math.inf
        key = (kind, t.get_id())
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        prev = self.trans.setdefault(kind, [])
        if kind == "exp":
            # exp(-u) = 1/exp(u)
            for (u, w) in prev:
                if z3.is_rational_value(self.simp(u + t)) and self.simp(u + t).as_fraction() == 0:
                    v = self.fresh_real("exp")
                    self.axiom(v > 0)
                    self.axiom(v * w == 1)
                    self.defs[v.get_id()] = ("exp", v, t)
                    prev.append((t, v))
                    r = SymReal(v)
                    self.cache[key] = (r, t)
                    return r
        v = self.fresh_real(kind)
        self.defs[v.get_id()] = (kind, v, t)
        if kind == "exp":
            self.axiom(v > 0)
            self.axiom(v >= 1 + t)
            self.axiom(z3.Implies(t <= 0, v <= 1))
            # exp(t) <= 1/(1-t) for t < 1
            self.axiom(z3.Implies(t < 1, v * (1 - t) <= 1))
            if self.exp_bounds:
                for c in (-18, -33, -37, -700, 18, 33, 37, 700):
                    lo, hi = _exp_enclosure(c)
                    self.axiom(z3.And(z3.Implies(t <= c, v <= rv(hi)), z3.Implies(t >= c, v >= rv(lo))))
        elif kind == "log1p":
            self.axiom(z3.Implies(t >= 0, z3.And(v >= 0, v <= t, v >= t - t * t / 2, v * (1 + t) >= t)))
            de = self.defs.get(t.get_id())
            if de is not None and de[0] == "exp":
                for (u, w) in prev:
                    du = self.defs.get(u.get_id())
                    if du is not None and du[0] == "exp":
                        sm = self.simp(du[2] + de[2])
                        if z3.is_rational_value(sm) and sm.as_fraction() == 0:
                            self.axiom(v == w + de[2])      # log(1+e^t) = log(1+e^-t) + t
        for (u, w) in prev:
            self.axiom(z3.And(z3.Implies(u < t, w < v), z3.Implies(t < u, v < w), z3.Implies(u == t, v == w)))
        prev.append((t, v))
        r = SymReal(v)
        self.cache[key] = (r, t)
        return r

    # -- differentiation of a term with respect to an input constant, through definitional variables
    def diff(self, t, x, memo=None):
        memo = {} if memo is None else memo

        def d(u):
            i = u.get_id()
            if i in memo:
                return memo[i]
            r = d_(u)
            memo[i] = r
            self.keep.append(u)
            return r

        zero, one = rv(Fraction(0)), rv(Fraction(1))

        def isz(u):
            return z3.is_rational_value(u) and u.as_fraction() == 0

        def mulz(a, b):
            if isz(a) or isz(b):
                return zero
            return a * b

        def addz(ts):
            ts = [u for u in ts if not isz(u)]
            if not ts:
                return zero
            r = ts[0]
            for u in ts[1:]:
                r = r + u
            return r

        def d_(u):
            if u.eq(x):
                return one
            if z3.is_rational_value(u) or z3.is_int_value(u):
                return zero
            df = self.defs.get(u.get_id())
            if df is not None:
                k = df[0]
                if k == "exp":
                    return mulz(u, d(df[2]))
                if k == "log":
                    return mulz(1 / df[2], d(df[2]))
                if k == "log1p":
                    dd = d(df[2])
                    return zero if isz(dd) else dd / (1 + df[2])
                if k == "sqrt":
                    dd = d(df[2])
                    return zero if isz(dd) else dd / (2 * u)
                if k == "quot":
                    a, b = df[2], df[3]
                    da, db = d(a), d(b)
                    if isz(da) and isz(db):
                        return zero
                    return (da - mulz(u, db)) / b
                raise Unsupported("diff of " + k)
            if z3.is_const(u):
                return zero
            ch = u.children()
            k = u.decl().kind()
            if k == z3.Z3_OP_ADD:
                return addz([d(c) for c in ch])
            if k == z3.Z3_OP_SUB:
                r = d(ch[0])
                for c in ch[1:]:
                    dc = d(c)
                    if not isz(dc):
                        r = r - dc
                return r
            if k == z3.Z3_OP_UMINUS:
                dc = d(ch[0])
                return zero if isz(dc) else -dc
            if k == z3.Z3_OP_MUL:
                parts = []
                for i, c in enumerate(ch):
                    dc = d(c)
                    if isz(dc):
                        continue
                    r = dc
                    for j, e in enumerate(ch):
                        if j != i:
                            r = r * e
                    parts.append(r)
                return addz(parts)
            if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
                n = ch[1].as_fraction()
                return mulz(rv(n) * (ch[0] ** rv(n - 1)), d(ch[0]))
            if k == z3.Z3_OP_DIV:
                a, b = ch
                da, db = d(a), d(b)
                if isz(db):
                    return zero if isz(da) else da / b
                return (da * b - a * db) / (b * b)
            if k == z3.Z3_OP_ITE:
                return z3.If(ch[0], d(ch[1]), d(ch[2]))
            raise Unsupported("diff of " + str(u.decl()))
        return d(t)


def _exp_enclosure(c):
    """rational enclosure of exp(c) for an integer c, from e in [2.718281828459045, 2.7182818284590455]"""
    lo, hi = Fraction("2.718281828459045"), Fraction("2.7182818284590455")
    n = abs(c)
    l, h = lo ** n, hi ** n
    if c < 0:
        l, h = 1 / h, 1 / l
    # round outward to short rationals
    def short(x, up):
        e = math.floor(math.log10(float(x))) if 1e-300 < float(x) < 1e300 else 0
        s = Fraction(10) ** (8 - e)
        k = x * s
        k = -((-k.numerator) // k.denominator) if up else k.numerator // k.denominator
        return Fraction(k) / s
    return short(l, False), short(h, True)
