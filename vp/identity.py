"""Decides equalities that hold as identities of rational functions, before the solver is asked.

Terms are expanded to fractions of Laurent polynomials with exact rational coefficients over the symbolic constants; the
definitional constants introduced by the engine are replaced by their definition (quotient v = a/b with b != 0 on the path,
v = sqrt(t): v^2 = t with t >= 0, v = exp(t): exp(-t) = 1/v).  A zero numerator proves the equality on the whole path; any other
outcome says nothing and the claim goes to the solver.
"""
from fractions import Fraction
import z3

LIMIT = 20000


class TooBig(Exception):
    pass


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        s = r.get(m, 0) + c * v
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = mmul(m, n)
            s = r.get(k, 0) + v * w
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def normal(p):
    """p = unit * q with q monic without monomial factor; returns (unit coefficient, unit monomial, q)"""
    lo = None
    for m in p:
        d = dict(m)
        if lo is None:
            lo = d
        else:
            ks = set(lo) | set(d)
            lo = {k: min(lo.get(k, 0), d.get(k, 0)) for k in ks}
    lo = tuple(sorted((k, e) for k, e in lo.items() if e))
    inv = tuple((k, -e) for k, e in lo)
    q = {mmul(m, inv): v for m, v in p.items()}
    lead = q[max(q)]
    return lead, lo, {m: v / lead for m, v in q.items()}


class Frac:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}          # frozen poly -> (poly, exponent)


def fmulpow(num, p, e):
    for _ in range(e):
        num = pmul(num, p)
    return num


def fadd(a, b, c=1):
    if a.den == b.den:
        return Frac(padd(a.num, b.num, c), a.den)
    den = dict(a.den)
    na, nb = a.num, b.num
    for k, (p, e) in b.den.items():
        ea = den[k][1] if k in den else 0
        if e > ea:
            na = fmulpow(na, p, e - ea)
            den[k] = (p, e)
    for k, (p, e) in a.den.items():
        eb = b.den[k][1] if k in b.den else 0
        if e > eb:
            nb = fmulpow(nb, p, e - eb)
    return Frac(padd(na, nb, c), den)


def fmul(a, b):
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, e + (den[k][1] if k in den else 0))
    return Frac(pmul(a.num, b.num), den)


def finv(a):
    if not a.num:
        raise TooBig()
    c, m, q = normal(a.num)
    num = {tuple((k, -e) for k, e in m): 1 / c}
    for p, e in a.den.values():
        num = fmulpow(num, p, e)
    if q == ONE:
        return Frac(num)
    return Frac(num, {frozenset(q.items()): (q, 1)})


class Normaliser:
    """per path"""

    def __init__(self, e):
        self.e = e
        self.memo = {}
        self.exps = {}        # frozen poly of the argument -> atom
        self.roots = {}       # atom -> poly of the square
        self.keep = []

    def reduce_roots(self, p):
        if not self.roots:
            return p
        for _ in range(50):
            hit = None
            for m in p:
                for a, ex in m:
                    if ex >= 2 and a in self.roots:
                        hit = (m, a, ex)
                        break
                if hit:
                    break
            if not hit:
                return p
            out = {}
            for m, v in p.items():
                d = dict(m)
                t = {m: v}
                for a, ex in m:
                    if ex >= 2 and a in self.roots:
                        d[a] = ex % 2
                        rest = tuple(sorted((k, x) for k, x in d.items() if x))
                        t = {rest: v}
                        for _ in range(ex // 2):
                            t = pmul(t, self.roots[a])
                        break
                out = padd(out, t)
            p = out
            if len(p) > LIMIT:
                raise TooBig()
        raise TooBig()

    def frac(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self.frac_(t)
            self.keep.append(t)
        return r

    def atom(self, i, e=1):
        return Frac({((i, e),): Fraction(1)})

    def frac_(self, t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return Frac({(): f} if f else {})
        if z3.is_int_value(t):
            f = Fraction(t.as_long())
            return Frac({(): f} if f else {})
        df = self.e.defs.get(t.get_id())
        if df is not None:
            if df[0] == "quot":
                return fmul(self.frac(df[2]), finv(self.frac(df[3])))
            if df[0] == "exp":
                a = self.frac(df[2])
                if not a.den and a.num:
                    s = 1 if a.num[max(a.num)] > 0 else -1
                    k = frozenset((m, s * v) for m, v in a.num.items())
                    at = self.exps.setdefault(k, t.get_id())
                    return self.atom(at, s)
                return self.atom(t.get_id())
            if df[0] == "sqrt":
                a = self.frac(df[2])
                if not a.den:
                    self.roots[t.get_id()] = a.num
                return self.atom(t.get_id())
            return self.atom(t.get_id())
        if z3.is_const(t):
            return self.atom(t.get_id())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.frac(ch[0])
            for c in ch[1:]:
                r = fadd(r, self.frac(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.frac(ch[0])
            for c in ch[1:]:
                r = fadd(r, self.frac(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return fmul(Frac({(): Fraction(-1)}), self.frac(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.frac(ch[0])
            for c in ch[1:]:
                r = fmul(r, self.frac(c))
            return r
        if k == z3.Z3_OP_TO_REAL:
            return self.frac(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            f = ch[1].as_fraction()
            if f.denominator == 1 and 0 <= f.numerator <= 8:
                r = Frac(ONE)
                for _ in range(f.numerator):
                    r = fmul(r, self.frac(ch[0]))
                return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and ch[1].as_fraction() != 0:
            return fmul(self.frac(ch[0]), Frac({(): 1 / ch[1].as_fraction()}))
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return fmul(self.frac(ch[0]), finv(self.frac(ch[1])))       # produced by Engine.diff only: nonzero on the path
        return self.atom(t.get_id())

    def equal(self, a, b):
        """True when a = b follows; False says nothing"""
        try:
            d = fadd(self.frac(a), self.frac(b), -1)
            return not self.reduce_roots(d.num)
        except (TooBig, RecursionError):
            return False
