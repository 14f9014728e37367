"""Symbolic numpy / scipy layer: object-dtype ndarray subclass plus module proxies.

Anything not overridden falls through to the real library; overridden functions implement the documented
numpy contract on symbolic elements.  Foreign-code routines (SVD, sparse containers) are contract stubs.
"""
import functools
import math
import types
from fractions import Fraction

import numpy as np
import scipy
import scipy.linalg
import scipy.optimize
import scipy.sparse
import scipy.sparse.linalg
import scipy.special
import z3

from . import engine as E
from .engine import SymBool, SymReal, Unsupported, is_sym

RSP = scipy.sparse


# --------------------------------------------------------------------------------------------------------------
# arrays

class SymArray(np.ndarray):
    """object array of python numbers / SymReal / SymBool, presenting itself as float64 (or bool)"""

    __array_priority__ = 900

    @property
    def dtype(self):
        base = np.asarray(self.view(np.ndarray))
        if base.size:
            f = base.flat
            if all(isinstance(v, (SymBool, bool, np.bool_)) for v in f):
                return np.dtype(bool)
            kind = getattr(self, "_intkind", None)
            if kind is not None:
                return kind
        return np.dtype(float)

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        if is_sym_index(idx):
            if isinstance(idx, SymReal) and self.ndim == 1:
                return sym_read(self, idx)
        r = raw(self)[fix_index(idx)]
        return wrap_res(r)

    def __setitem__(self, idx, val):
        if isinstance(idx, SymReal) and self.ndim == 1:
            return sym_write(self, idx, val)
        if hasattr(val, "_symsparse"):
            val = val.toarray()
        if isinstance(val, np.ndarray) and val.dtype != object:
            val = raw(mk(val))
        elif isinstance(val, SymArray):
            val = raw(val)
        elif isinstance(val, (list, tuple)):
            val = raw(mk(val))
        else:
            val = E.norm_scalar(val)
        fi = fix_index(idx)
        target = raw(self)
        if not isinstance(val, np.ndarray):
            # avoid numpy trying to interpret symbolic scalars as sequences
            sub = target[fi]
            if isinstance(sub, np.ndarray) and not (np.isscalar(fi) or isinstance(fi, int)):
                o = np.empty((), dtype=object)
                o[()] = val
                target[fi] = o
                return
            target[fi] = val
            return
        target[fi] = val

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        return bool(np.any(self == v))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(raw(self).ravel()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        v = raw(self).ravel()[0]
        return v if is_sym(v) else float(v)

    def __index__(self):
        if self.size == 1:
            return raw(self).ravel()[0].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __eq__(self, o):
        return elementwise(lambda a, b: E.cmp("==", a, b), self, o)

    def __ne__(self, o):
        return elementwise(lambda a, b: E.cmp("!=", a, b), self, o)

    __hash__ = None

    def __repr__(self):
        return "SymArray(%s)" % (raw(self).tolist(),)

    __str__ = __repr__

    def __format__(self, s):
        return "<symarray>"

    def __matmul__(self, o):
        if hasattr(o, "_symsparse") or RSP.issparse(o):
            return NotImplemented if hasattr(o, "_symsparse") else dot(self, o)
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    # -- methods
    def astype(self, dtype, *a, **k):
        keep = not k.pop("copy", a[3] if len(a) > 3 else True)
        if keep and self.dtype == np.dtype(real_dtype(dtype)):
            return self
        if is_bool_dtype(dtype):
            return unary(lambda v: v if isinstance(v, (SymBool, bool)) else E.cmp("!=", v, 0), self)
        if is_int_dtype(dtype):
            if self.dtype == bool:
                return unary(lambda v: E.SymReal(E.term(v)) if isinstance(v, SymBool) else int(v), self)
            r = unary(lambda v: (v if v.t.is_int() else trunc(v)) if is_sym(v) else int(v), self)
            return r
        return unary(lambda v: E.SymReal(E.term(v)) if isinstance(v, SymBool) else v, self)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return put(out, reduce_("add", self, axis, keepdims, initial, where))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return put(out, reduce_("multiply", self, axis, keepdims, initial, where))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        nok(k)
        n = self.size if axis is None else int(np.prod([self.shape[i] for i in axis])) if isinstance(axis, tuple) else self.shape[axis]
        return put(out, E.div(reduce_("add", self, axis, keepdims), n))

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return put(out, reduce_("maximum", self, axis, keepdims, initial, where))

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return put(out, reduce_("minimum", self, axis, keepdims, initial, where))

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return put(out, reduce_("logical_or", self, axis, keepdims, None, where))

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return put(out, reduce_("logical_and", self, axis, keepdims, None, where))

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        nok(k)
        if ddof or out is not None:
            raise Unsupported("argument ddof")
        m = self.mean(axis=axis, keepdims=True)
        return ((self - m) ** 2).mean(axis=axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return np.sqrt(self.var(axis, dtype, out, ddof, **k))

    def ptp(self, *a, **k):
        return self.max(*a, **k) - self.min(*a, **k)

    def dot(self, o, out=None):
        return put(out, dot(self, o))

    def cumsum(self, axis=None, dtype=None, out=None):
        return put(out, accumulate("add", self, axis))

    def cumprod(self, axis=None, dtype=None, out=None):
        return put(out, accumulate("multiply", self, axis))

    def clip(self, min=None, max=None, out=None, **k):
        r = clip(self, min, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def argmax(self, axis=None, out=None, **k):
        nok(k)
        return argext(self, axis, ">")

    def argmin(self, axis=None, out=None, **k):
        nok(k)
        return argext(self, axis, "<")

    def sort(self, axis=-1, kind=None, order=None, **k):
        raw(self)[...] = raw(np_sort(self, axis))

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return argsort(self, axis)

    def nonzero(self):
        return raw(concrete_bool(self)).nonzero()

    def round(self, decimals=0, out=None, **k):
        return put(out, np_round(self, decimals))

    def item(self, *a):
        if a:
            return raw(self).item(*a)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return raw(self).ravel()[0]

    def fill(self, v):
        self[...] = v

    def copy(self, order="C"):
        return wrap_arr(raw(self).copy())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def trace(self, *a, **k):
        return reduce_("add", wrap_arr(raw(self).diagonal(*a)), None, False)

    def tolist(self):
        return raw(self).tolist()

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side)

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    def tobytes(self, *a):
        raise Unsupported("tobytes")


class IntSymArray(SymArray):
    """integer array with symbolic entries: stores truncate, in-place operations with floats are refused, as in numpy"""

    @property
    def dtype(self):
        return np.dtype(np.int64)

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype")

    def __setitem__(self, idx, val):
        if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
            val = unary(to_int, mk(val))
        else:
            val = to_int(E.norm_scalar(val))
        SymArray.__setitem__(self, idx, val)

    def copy(self, order="C"):
        return raw(self).copy().view(IntSymArray)

    def astype(self, dtype, *a, **k):
        if is_int_dtype(dtype):
            return self.copy() if k.get("copy", a[3] if len(a) > 3 else True) else self
        return wrap_arr(raw(self).copy()).astype(dtype, *a, **k)


def to_int(v):
    if not is_sym(v):
        return int(v)
    if isinstance(v, SymBool):
        return SymReal(E.term(v))
    return v if is_integer(v) else trunc(v)


def is_integer(v):
    if not is_sym(v):
        return isinstance(v, (int, np.integer))
    return v.t.is_int() or v.t.decl().kind() == z3.Z3_OP_TO_REAL


def raw(a):
    return a.view(np.ndarray) if isinstance(a, SymArray) else np.asarray(a)


def wrap_arr(a):
    return a.view(SymArray)


def npf(v):
    """concrete floats leave arrays and reductions as numpy scalars (division by zero gives inf or nan, not an error)"""
    return np.float64(v) if type(v) is float else v


def wrap_res(r):
    if type(r) is float:
        return np.float64(r)
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
        return r.view(SymArray) if r.dtype == object else r
    return r


def mk(v):
    """SymArray from anything array-like"""
    if isinstance(v, SymArray):
        return v
    if hasattr(v, "_symsparse"):
        raise Unsupported("array of a sparse matrix")
    if isinstance(v, np.ndarray) and v.dtype != object:
        o = np.empty(v.shape, dtype=object)
        if v.size:
            o[...] = np.array(v.tolist(), dtype=object).reshape(v.shape) if v.ndim else v.item()
        return o.view(SymArray)
    if isinstance(v, np.ndarray):
        return v.view(SymArray)
    if is_sym(v) or np.isscalar(v) or v is None:
        o = np.empty((), dtype=object)
        o[()] = E.norm_scalar(v)
        return o.view(SymArray)
    if isinstance(v, (list, tuple, range)):
        items = [x if (is_sym(x) or np.isscalar(x)) else mk(x) for x in v]
        if any(isinstance(x, np.ndarray) for x in items):
            arrs = [mk(x) for x in items]
            shp = arrs[0].shape
            if any(a.shape != shp for a in arrs):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            o = np.empty((len(arrs),) + shp, dtype=object)
            for i, a in enumerate(arrs):
                if a.ndim:
                    o[i] = raw(a)
                else:
                    o[i] = a.item()
            return o.view(SymArray)
        o = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            o[i] = E.norm_scalar(x)
        return o.view(SymArray)
    if hasattr(v, "__array__"):
        return mk(np.asarray(v))
    if hasattr(v, "__iter__"):
        return mk(list(v))
    raise Unsupported("cannot build an array from %r" % type(v))


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, np.ndarray) and a.dtype == object or isinstance(a, SymArray):
        return any(is_sym(v) for v in raw(a).flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def concrete(a, dtype=None):
    """real ndarray from a SymArray without symbols"""
    if not isinstance(a, np.ndarray) or a.dtype != object and not isinstance(a, SymArray):
        return np.asarray(a) if dtype is None else np.asarray(a, dtype=dtype)
    r = raw(a)
    if has_sym(a):
        raise Unsupported("symbolic array where a concrete one is needed")
    if dtype is None:
        dtype = float
        if r.size and all(isinstance(v, (bool, np.bool_)) for v in r.flat):
            dtype = bool
        elif r.size and all(isinstance(v, (int, np.integer)) for v in r.flat):
            dtype = np.int64
    return np.array(r.tolist(), dtype=dtype).reshape(r.shape)


def concrete_bool(a):
    """fork each symbolic boolean; result is a plain bool array"""
    r = raw(a)
    out = np.empty(r.shape, dtype=bool)
    for i in np.ndindex(*r.shape):
        v = r[i]
        out[i] = bool(v) if not is_sym(v) else v.__bool__()
    return out


def is_sym_index(idx):
    return isinstance(idx, SymReal)


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, SymArray):
        r = raw(idx)
        if r.size == 0:
            return np.zeros(r.shape, dtype=np.intp)
        if all(isinstance(v, (SymBool, bool, np.bool_)) for v in r.flat):
            return concrete_bool(idx)
        return np.array([v.__index__() for v in r.ravel()], dtype=np.intp).reshape(r.shape)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, SymReal):
        return idx.__index__()
    if isinstance(idx, list) and any(is_sym(v) for v in idx):
        return fix_index(mk(idx))
    if isinstance(idx, slice):
        f = lambda v: v.__index__() if isinstance(v, SymReal) else v
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    return idx


def sym_read(a, idx):
    n = a.shape[0]
    e = E.eng()
    if z3.is_rational_value(z3.simplify(idx.t)) or z3.is_int_value(z3.simplify(idx.t)):
        return a[idx.__index__()]
    r = raw(a)
    ok = z3.And(idx.t >= 0, idx.t < n)
    if not e.branch(ok):
        if e.branch(z3.And(idx.t >= -n, idx.t < 0)):
            return sym_read(a, SymReal(idx.t + n))
        raise IndexError("index out of bounds")
    res = r[n - 1]
    for k in range(n - 2, -1, -1):
        res = E.ite(SymBool(idx.t == k), r[k], res)
    return res


def sym_write(a, idx, val):
    n = a.shape[0]
    e = E.eng()
    s = z3.simplify(idx.t)
    if z3.is_rational_value(s) or z3.is_int_value(s):
        a[idx.__index__()] = val
        return
    ok = z3.And(idx.t >= 0, idx.t < n)
    if not e.branch(ok):
        if e.branch(z3.And(idx.t >= -n, idx.t < 0)):
            return sym_write(a, SymReal(idx.t + n), val)
        raise IndexError("index out of bounds")
    r = raw(a)
    for k in range(n):
        r[k] = E.ite(SymBool(idx.t == k), val, r[k])


# --------------------------------------------------------------------------------------------------------------
# elementwise machinery

def _bcast(args):
    arrs = []
    for a in args:
        if isinstance(a, np.ndarray):
            arrs.append(raw(mk(a)))
        elif isinstance(a, (list, tuple)):
            arrs.append(raw(mk(a)))
        else:
            o = np.empty((), dtype=object)
            o[()] = E.norm_scalar(a)
            arrs.append(o)
    return np.broadcast_arrays(*arrs)


def elementwise(f, *args):
    for a in args:
        if hasattr(a, "_symsparse"):
            return NotImplemented
    if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
        return f(*[E.norm_scalar(a) for a in args])
    bs = _bcast(args)
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[E.norm_scalar(b[i]) for b in bs])
    return out.view(SymArray)


def unary(f, a):
    return elementwise(f, a)


def b_and(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) and bool(b)
    if not is_sym(a):
        return tb(b) if a else False
    if not is_sym(b):
        return tb(a) if b else False
    return SymBool(z3.And(E.bterm(a), E.bterm(b)))


def b_or(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) or bool(b)
    if not is_sym(a):
        return True if a else tb(b)
    if not is_sym(b):
        return True if b else tb(a)
    return SymBool(z3.Or(E.bterm(a), E.bterm(b)))


def tb(a):
    return SymBool(E.bterm(a)) if is_sym(a) else bool(a)


def b_not(a):
    if not is_sym(a):
        return not a
    return SymBool(z3.Not(E.bterm(a)))


def i_and(a, b):
    if isinstance(a, int) and isinstance(b, int) and not (isinstance(a, bool) or isinstance(b, bool)):
        return a & b
    return b_and(a, b)


def i_or(a, b):
    if isinstance(a, int) and isinstance(b, int) and not (isinstance(a, bool) or isinstance(b, bool)):
        return a | b
    return b_or(a, b)


def i_inv(a):
    if isinstance(a, (bool, np.bool_, SymBool)):
        return b_not(a)
    return ~a


def trunc(v):
    if not is_sym(v):
        return math.trunc(v)
    return E.floor(v) if E.eng().branch(v.t >= 0) else -E.floor(-v)


def _xor(a, b):
    return SymBool(z3.Xor(E.bterm(a), E.bterm(b))) if is_sym(a) or is_sym(b) else bool(a) != bool(b)


def _hypot(a, b):
    return E.sqrt(E.add(E.mul(a, a), E.mul(b, b)), nonneg=True)


def _clip(v, lo, hi):
    if lo is not None:
        v = E.maximum(v, lo)
    if hi is not None:
        v = E.minimum(v, hi)
    return v


def _neg(a):
    if isinstance(a, (bool, np.bool_, SymBool)):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return -a


UF = {
    "add": E.add, "subtract": E.sub, "multiply": E.mul, "divide": E.div, "true_divide": E.div,
    "floor_divide": E.floordiv, "remainder": E.mod, "power": E.power, "float_power": E.power,
    "negative": _neg, "positive": lambda a: a, "absolute": E.absolute, "fabs": E.absolute,
    "sqrt": E.sqrt, "square": lambda a: E.mul(a, a), "exp": E.exp, "log": E.log, "log1p": E.log1p,
    "expm1": E.expm1, "sign": E.sign, "maximum": E.maximum, "minimum": E.minimum, "fmax": E.fmax, "fmin": E.fmin,
    "less": lambda a, b: E.cmp("<", a, b), "less_equal": lambda a, b: E.cmp("<=", a, b),
    "greater": lambda a, b: E.cmp(">", a, b), "greater_equal": lambda a, b: E.cmp(">=", a, b),
    "equal": lambda a, b: E.cmp("==", a, b), "not_equal": lambda a, b: E.cmp("!=", a, b),
    "logical_and": b_and, "logical_or": b_or, "logical_not": b_not, "logical_xor": _xor,
    "bitwise_and": i_and, "bitwise_or": i_or, "bitwise_xor": _xor, "invert": i_inv,
    "isfinite": E.is_finite, "isnan": lambda a: (not is_sym(a)) and math.isnan(a),
    "isinf": lambda a: (not is_sym(a)) and math.isinf(a), "reciprocal": lambda a: E.div(1.0, a),
    "conjugate": lambda a: a, "hypot": _hypot, "floor": E.floor, "clip": _clip,
    "copysign": lambda a, b: E.select(E.cmp(">=", b, 0), E.absolute(a), E.sub(0.0, E.absolute(a))),
    "signbit": lambda a: E.cmp("<", a, 0),
    "heaviside": lambda a, b: E.select(E.cmp(">", a, 0), 1.0, E.select(E.cmp("<", a, 0), 0.0, b)),
    "logaddexp": lambda a, b: _logaddexp(a, b),
    "expit": E.expit,
    "trunc": trunc, "ceil": lambda a: math.ceil(a) if not is_sym(a) else -E.floor(-a),
    "_ones_like": lambda a: 1.0, "rint": lambda a: round1(a), "tanh": lambda a: tanh(a),
    "exp2": lambda a: E.exp(E.mul(a, math.log(2.0))), "log2": lambda a: E.div(E.log(a), math.log(2.0)),
    "log10": lambda a: E.div(E.log(a), math.log(10.0)),
    "fmod": lambda a, b: E.sub(a, E.mul(b, trunc(E.div(a, b)))), "xlogy": lambda a, b: E.select(E.cmp("==", a, 0), 0.0, E.mul(a, E.log(b))),
    "log_expit": lambda a: E.sub(0.0, _logaddexp(0.0, E.sub(0.0, a))),
}
IDENT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False}


def tanh(a):
    return E.sub(E.mul(2.0, E.expit(E.mul(2.0, a))), 1.0) if is_sym(a) else math.tanh(a)


def _logaddexp(a, b):
    m = E.maximum(a, b)
    d = E.absolute(E.sub(a, b))
    return E.add(m, E.log1p(E.exp(E.sub(0.0, d))))


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if any(hasattr(i, "_symsparse") for i in inputs):
        return NotImplemented
    if name == "matmul" or name == "vecdot":
        r = dot(*inputs)
        out = kw.get("out")
        if out:
            out[0][...] = r
            return out[0]
        return r
    f = UF.get(name)
    if f is None:
        raise Unsupported("ufunc " + name)
    out = kw.get("out")
    if out and isinstance(out[0], IntSymArray):
        for i in inputs:
            if name == "true_divide" or isinstance(i, SymArray) and not isinstance(i, IntSymArray) or isinstance(i, float) or (
                    is_sym(i) and not is_integer(i)):
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % name)
    where = kw.get("where", True)
    if method == "__call__":
        r = elementwise(f, *inputs)
        if where is not True:
            w = concrete_bool(mk(where)) if isinstance(where, (np.ndarray, list, tuple)) else bool(where)
            if out is None or out[0] is None:
                raise Unsupported("where= without out=")
            o = out[0]
            w = np.broadcast_to(w, raw(o).shape)
            # evaluate lazily: elements outside `where` must not be computed
            bs = _bcast(list(inputs) + [o])
            for i in np.ndindex(*raw(o).shape):
                if w[i]:
                    raw(o)[i] = raw(r)[i] if isinstance(r, np.ndarray) else r
            return o
        if out is not None and out[0] is not None:
            o = out[0]
            if not isinstance(o, SymArray):
                if has_sym(r):
                    return Unsupported_store(o, r)
                o[...] = concrete(r)
                return o
            if raw(o).shape != np.broadcast_shapes(raw(o).shape, np.shape(r)):
                raise ValueError("non-broadcastable output operand")
            if raw(o).ndim == 0:
                raw(o)[()] = r.item() if isinstance(r, np.ndarray) else r
            else:
                o[...] = r
            return o
        if isinstance(r, SymArray) and r.ndim == 0:
            return raw(r)[()]
        return r
    if method == "reduce":
        ax = kw.get("axis", 0)
        r = reduce_(name, inputs[0], ax, kw.get("keepdims", False), initial=kw.get("initial", None),
                    where=kw.get("where", True))
        if out is not None and out[0] is not None:
            out[0][...] = r
            return out[0]
        return r
    if method == "accumulate":
        ax = kw.get("axis", 0)
        if len(inputs) > 1:
            ax = inputs[1]
        return accumulate(name, inputs[0], ax)
    if method == "outer":
        a, b = mk(inputs[0]), mk(inputs[1])
        ar = raw(a).reshape(a.shape + (1,) * b.ndim)
        return elementwise(f, ar.view(SymArray), b)
    if method == "at":
        a, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        if isinstance(idx, np.ndarray) and idx.dtype == bool:
            idx = np.nonzero(idx)[0]
        idxs = list(mk(idx).ravel()) if not np.isscalar(idx) and not is_sym(idx) else [idx]
        vb = None if vals is None else (mk(vals).ravel() if isinstance(vals, (np.ndarray, list)) else [vals] * len(idxs))
        for k, i in enumerate(idxs):
            v = None if vb is None else (vb[k] if len(vb) > 1 else vb[0])
            a[i] = f(a[i], v) if vb is not None else f(a[i])
        return None
    if method == "reduceat":
        a, idx = mk(inputs[0]), [int(i) for i in inputs[1]]
        if a.ndim != 1:
            raise Unsupported("reduceat of a matrix")
        return mk([reduce_(name, a[i:j] if j > i else a[i:i + 1], 0) for i, j in zip(idx, idx[1:] + [a.size])])
    raise Unsupported("ufunc method " + method)


def Unsupported_store(o, r):
    if o.dtype.kind in "iub":
        # numpy refuses to cast a float result into an integer output array
        raise np.exceptions.AxisError("UFuncTypeError") if False else TypeError(
            "Cannot cast ufunc output from dtype('float64') to dtype('%s') with casting rule 'same_kind'" % o.dtype)
    raise Unsupported("symbolic result stored into a plain float array")


def reduce_(name, a, axis=None, keepdims=False, initial=None, where=True):
    f = UF[name]
    a = mk(a)
    r = raw(a)
    if where is not True:
        w = concrete_bool(mk(where))
        none = IDENT.get(name, {"maximum": -np.inf, "minimum": np.inf}.get(name))
        r = np.where(np.broadcast_to(w, r.shape), r, none)
    if name == "add" and r.size and all(isinstance(v, (bool, np.bool_)) for v in r.flat):
        r = np.array([int(v) for v in r.ravel()], dtype=object).reshape(r.shape)
    if keepdims is np._NoValue:
        keepdims = False
    if initial is np._NoValue:
        initial = None

    def red(vals):
        vals = list(vals)
        if initial is not None and not (isinstance(initial, (int, float)) and initial == IDENT.get(name, None)):
            vals = [initial] + vals
        if not vals:
            if name in IDENT:
                return IDENT[name]
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        acc = vals[0]
        if name in ("logical_and", "logical_or"):
            acc = tb(acc) if is_sym(acc) else bool(acc)
        for v in vals[1:]:
            acc = f(acc, v)
        return acc

    if axis is None:
        v = red(r.ravel())
        if keepdims:
            o = np.empty((1,) * r.ndim, dtype=object)
            o[...] = None
            o[(0,) * r.ndim] = v
            return o.view(SymArray)
        return npf(v)
    axes = tuple(sorted(ax % r.ndim for ax in (axis if isinstance(axis, tuple) else (axis,))))
    if r.ndim == len(axes):
        v = red(r.ravel())
        if keepdims:
            o = np.empty((1,) * r.ndim, dtype=object)
            o[(0,) * r.ndim] = v
            return o.view(SymArray)
        return npf(v)
    rest = [i for i in range(r.ndim) if i not in axes]
    t = np.transpose(r, rest + list(axes))
    shp = t.shape[:len(rest)]
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        out[i] = red(np.asarray(t[i], dtype=object).ravel())
    if keepdims:
        for ax in axes:
            out = np.expand_dims(out, ax)
    return out.view(SymArray)


def accumulate(name, a, axis):
    f = UF[name]
    r = raw(mk(a))
    if axis is None:
        r = r.ravel()
        axis = 0
    r = np.moveaxis(r, axis, 0)
    out = np.empty(r.shape, dtype=object)
    for i in range(r.shape[0]):
        if i == 0:
            out[i] = r[i]
        else:
            if r.ndim == 1:
                out[i] = f(out[i - 1], r[i])
            else:
                out[i] = raw(elementwise(f, out[i - 1].view(SymArray), r[i].view(SymArray)))
    return np.moveaxis(out, 0, axis).view(SymArray)


def clip(a, lo=None, hi=None):
    return elementwise(_clip, a, lo if lo is not None else -math.inf, hi if hi is not None else math.inf)


def nok(k, *fine):
    """keyword arguments the model does not implement are refused, not ignored"""
    for n, v in k.items():
        if n not in fine and v is not None and v is not np._NoValue and v is not False and not (n == "where" and v is True):
            raise Unsupported("argument %s" % n)


def put(out, r):
    if out is None:
        return r
    out[...] = r
    return out


def clip_scalar(v, lo, hi):
    return _clip(v, lo, hi)


def argext(a, axis, op):
    a = mk(a)
    r = raw(a)
    if axis is None:
        r = r.ravel()
        if r.size == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for i in range(1, r.size):
            if bool(E.cmp(op, r[i], r[best])):
                best = i
        return best
    r = np.moveaxis(r, axis, -1)
    out = np.empty(r.shape[:-1], dtype=np.intp)
    for i in np.ndindex(*out.shape):
        out[i] = argext(np.asarray(r[i], dtype=object).view(SymArray), None, op)
    return out if out.ndim else int(out)


def _sorted_idx(vals):
    import functools

    def c(i, j):
        a, b = vals[i], vals[j]
        if bool(E.cmp("<", a, b)):
            return -1
        if bool(E.cmp("<", b, a)):
            return 1
        return i - j
    # insertion sort: every comparison is a fork, keep them few and deterministic
    out = []
    for i in range(len(vals)):
        k = len(out)
        while k > 0 and bool(E.cmp("<", vals[i], vals[out[k - 1]])):
            k -= 1
        out.insert(k, i)
    return out


def np_sort(a, axis=-1, **k):
    r = raw(mk(a)).copy()
    if axis is None:
        r = r.ravel()
        axis = 0
    r = np.moveaxis(r, axis, -1)
    out = np.empty(r.shape, dtype=object)
    for i in np.ndindex(*r.shape[:-1]):
        v = list(r[i])
        out[i] = np.array([None] * len(v), dtype=object)
        for p, q in enumerate(_sorted_idx(v)):
            out[i + (p,)] = v[q]
    return np.moveaxis(out, -1, axis).view(SymArray)


def argsort(a, axis=-1, **k):
    r = np.moveaxis(raw(mk(a)), axis if axis is not None else 0, -1)
    out = np.empty(r.shape, dtype=np.intp)
    for i in np.ndindex(*r.shape[:-1]):
        out[i] = _sorted_idx(list(r[i]))
    return np.moveaxis(out, -1, axis if axis is not None else 0)


def searchsorted(a, v, side="left"):
    vals = list(mk(a))

    def one(x):
        k = 0
        for y in vals:
            if bool(E.cmp("<" if side == "left" else "<=", y, x)):
                k += 1
            else:
                break
        return k
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim:
        return np.array([one(x) for x in mk(v)], dtype=np.intp)
    return one(v)


def dot(a, b, out=None):
    if hasattr(a, "_symsparse"):
        return a.dot(b)
    if hasattr(b, "_symsparse"):
        return b.T.dot(mk(a).T).T
    if RSP.issparse(a):
        return SymSparse.from_real(a).dot(b)
    if RSP.issparse(b):
        return dot(a, SymSparse.from_real(b))
    a, b = mk(a), mk(b)
    A, B = raw(a), raw(b)
    if A.ndim == 0 or B.ndim == 0:
        return elementwise(E.mul, a, b)
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
        acc = 0.0
        for x, y in zip(A, B):
            acc = E.add(acc, E.mul(x, y))
        return npf(acc)
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported("dot of >2-d arrays")
    A2 = A.reshape(1, -1) if A.ndim == 1 else A
    B2 = B.reshape(-1, 1) if B.ndim == 1 else B
    if A2.shape[1] != B2.shape[0]:
        raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
    R = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
    for i in range(R.shape[0]):
        for j in range(R.shape[1]):
            acc = 0.0
            for k in range(A2.shape[1]):
                acc = E.add(acc, E.mul(A2[i, k], B2[k, j]))
            R[i, j] = acc
    if A.ndim == 1:
        R = R[0]
    elif B.ndim == 1:
        R = R[:, 0]
    return R.view(SymArray)


def norm(x, ord=None, axis=None, keepdims=False, check_finite=True, **k):
    if hasattr(x, "_symsparse"):
        x = x.toarray()
    x = mk(x)
    if axis is not None:
        if isinstance(axis, tuple):
            raise Unsupported("matrix norm with axes")
        r = np.moveaxis(raw(x), axis, -1)
        out = np.empty(r.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = norm(np.asarray(r[i], dtype=object).view(SymArray), ord)
        if keepdims:
            out = np.expand_dims(out, axis)
        return out.view(SymArray)
    if ord is None or (ord == 2 and x.ndim == 1) or ord == "fro":
        f = [v for v in raw(x).ravel()]
        acc = 0.0
        nz = []
        for v in f:
            if is_sym(v) or v != 0:
                nz.append(v)
            acc = E.add(acc, E.mul(v, v))
        if len(nz) == 1:
            return npf(E.absolute(nz[0]))
        return npf(E.sqrt(acc, nonneg=True))
    if x.ndim == 1:
        if ord == 1:
            return reduce_("add", unary(E.absolute, x), None)
        if ord == np.inf:
            return reduce_("maximum", unary(E.absolute, x), None)
        if ord == -np.inf:
            return reduce_("minimum", unary(E.absolute, x), None)
        if ord == 0:
            return reduce_("add", unary(lambda v: int(bool(E.cmp("!=", v, 0))), x), None)
    if ord == "nuc":
        return reduce_("add", HOOKS.call("svdvals", x), None)
    raise Unsupported("norm ord=%r" % (ord,))


def np_where(cond, x=None, y=None):
    if x is None:
        return nonzero(cond)
    return elementwise(lambda c, a, b: E.select(tb(c) if is_sym(c) else c, a, b), cond, x, y)


def nonzero(a):
    a = mk(a)
    b = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        v = raw(a)[i]
        b[i] = bool(v)
    return np.nonzero(b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return reduce_("logical_and", isclose(a, b, rtol, atol), None)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return elementwise(lambda p, q: E.cmp("<=", E.absolute(E.sub(p, q)), E.add(atol, E.mul(rtol, E.absolute(q)))), a, b)


def array_equal(a, b, equal_nan=False):
    a, b = mk(a), mk(b)
    if a.shape != b.shape:
        return False
    return reduce_("logical_and", a == b, None)


def is_float_dtype(dt):
    if dt is None:
        return True
    try:
        d = np.dtype(dt)
    except TypeError:
        return False
    return d.kind in "fO"


def is_int_dtype(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt).kind in "iu"
    except TypeError:
        return False


def is_bool_dtype(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt).kind == "b"
    except TypeError:
        return False


def real_dtype(dt):
    if isinstance(dt, type) and dt.__name__ == "float" and dt is not float:
        return float
    if isinstance(dt, type) and dt.__name__ == "int" and dt is not int:
        return int
    return dt


SYM_INT = [False]   # when set, integer arrays are symbolic-capable too ("strict": and truncate what is stored in them)


def new_array(shape, fillv, dtype):
    dtype = real_dtype(dtype)
    if isinstance(shape, SymReal):
        shape = shape.__index__()
    elif isinstance(shape, (tuple, list)):
        shape = tuple(s.__index__() if isinstance(s, SymReal) else s for s in shape)
    if is_bool_dtype(dtype):
        return np.full(shape, bool(fillv), dtype=bool)
    if is_int_dtype(dtype):
        if SYM_INT[0]:
            o = np.empty(shape, dtype=object)
            o.fill(int(fillv))
            if SYM_INT[0] == "strict":
                return o.view(IntSymArray)
            r = o.view(SymArray)
            r._intkind = np.dtype(dtype)
            return r
        return np.full(shape, int(fillv) if not is_sym(fillv) else fillv, dtype=dtype)
    if not is_float_dtype(dtype):
        raise Unsupported("dtype %r" % (dtype,))
    o = np.empty(shape, dtype=object)
    if is_sym(fillv):
        for i in np.ndindex(*o.shape):
            o[i] = fillv
    else:
        o.fill(float(fillv) if not isinstance(fillv, float) else fillv)
    return o.view(SymArray)


def np_array(v, dtype=None, copy=True, **k):
    dtype = real_dtype(dtype)
    if hasattr(v, "_symsparse"):
        raise Unsupported("np.array(sparse)")
    if RSP.issparse(v):
        o = np.empty((), dtype=object)
        o[()] = v
        return o
    if isinstance(v, SymArray):
        if dtype is not None and (not is_float_dtype(dtype) or isinstance(v, IntSymArray)):
            return v.astype(dtype)
        return v.copy() if copy else v
    if isinstance(v, np.ndarray) and v.dtype != object:
        if dtype is None:
            dtype = v.dtype
        if is_float_dtype(dtype):
            return mk(v)
        return np.array(v, dtype=dtype, copy=copy)
    if isinstance(v, (str, bytes)):
        return np.array(v, dtype=dtype)
    if has_sym_deep(v):
        r = mk(v)
        if is_int_dtype(dtype) and not SYM_INT[0]:
            return r.astype(dtype)
        return r.copy() if isinstance(v, np.ndarray) and copy else r
    if isinstance(v, np.matrix):
        return mk(np.asarray(v))
    c = np.array(strip(v), dtype=dtype) if dtype is None or not is_float_dtype(dtype) else np.array(strip(v), dtype=float)
    if c.dtype.kind == "f":
        return mk(c)
    return c


def strip(v):
    """lists containing concrete SymArrays -> plain"""
    if isinstance(v, SymArray):
        return concrete(v)
    if isinstance(v, (list, tuple)):
        return [strip(x) for x in v]
    return v


def has_sym_deep(v):
    if isinstance(v, (list, tuple)):
        return any(has_sym_deep(x) for x in v)
    return has_sym(v)


def np_asarray(v, dtype=None, *a, **k):
    k.pop("copy", None)
    return np_array(v, dtype, copy=False)


def like(fillv):
    def f(a, dtype=None, *args, shape=None, **k):
        if hasattr(a, "_symsparse"):
            raise Unsupported("like of sparse")
        a_ = a if isinstance(a, np.ndarray) else mk(a)
        dt = dtype if dtype is not None else (a_.dtype if isinstance(a, np.ndarray) else None)
        if isinstance(a, IntSymArray) and dtype is None and shape is None:
            o = np.empty(a.shape, dtype=object)
            o.fill(int(fillv))
            return o.view(IntSymArray)
        return new_array(a_.shape if shape is None else shape, fillv, dt)
    return f


def full_like(a, fill_value, dtype=None, **k):
    return new_array(np.shape(a), fill_value, dtype if dtype is not None else a.dtype)


def diag(v, k=0):
    v = mk(v)
    r = raw(v)
    if r.ndim == 1:
        n = r.size + abs(k)
        o = new_array((n, n), 0.0, float)
        for i in range(r.size):
            o[i + max(0, -k), i + max(0, k)] = r[i]
        return o
    return np.diagonal(r, offset=k).copy().view(SymArray)


def np_eye(N, M=None, k=0, dtype=float, **kw):
    return mk(np.eye(N, M, k))


def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(where, src, dst)


def median(a, axis=None, **k):
    nok(k)
    if axis is not None:
        raise Unsupported("median axis")
    v = list(np_sort(mk(a).ravel()))
    return v[len(v) // 2] if len(v) % 2 else E.div(E.add(v[len(v) // 2 - 1], v[len(v) // 2]), 2)


def select_(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = np_where(mk(c), v, r)
    return r


def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = mk(a)
    ends = []
    for e in (prepend, append):
        if e is not None and e is not np._NoValue:
            e = mk(e)
            if e.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                e = np.broadcast_to(raw(e), sh).view(SymArray)
        else:
            e = None
        ends.append(e)
    if ends[0] is not None or ends[1] is not None:
        a = np.concatenate([raw(p) for p in (ends[0], a, ends[1]) if p is not None], axis=axis).view(SymArray)
    for _ in range(n):
        r = np.moveaxis(raw(a), axis, 0)
        d = elementwise(E.sub, r[1:].view(SymArray), r[:-1].view(SymArray))
        a = np.moveaxis(raw(d), 0, axis).view(SymArray)
    return a


def svd_stub(x, full_matrices=True, compute_uv=True, **k):
    if not compute_uv:
        return HOOKS.call("svdvals", x)
    return HOOKS.call("svd", x, full_matrices)


def outer(a, b, out=None):
    return elementwise(E.mul, raw(mk(a).ravel()).reshape(-1, 1).view(SymArray), raw(mk(b).ravel()).reshape(1, -1).view(SymArray))


def np_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return put(out, reduce_("maximum", a, axis, keepdims, initial, where))


def np_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return put(out, reduce_("minimum", a, axis, keepdims, initial, where))


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if hasattr(a, "_symsparse"):
        return a.sum(axis)
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return put(out, reduce_("add", a, axis, keepdims, initial, where))


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if hasattr(a, "_symsparse"):
        return a.mean(axis)
    return mk(a).mean(axis=axis, out=out, **k, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


def average(a, axis=None, weights=None, **k):
    nok(k)
    a = mk(a)
    if weights is None:
        return a.mean(axis=axis)
    w = mk(weights)
    return E.div(reduce_("add", elementwise(E.mul, a, w), axis), reduce_("add", w, axis if w.ndim == a.ndim else None))


def flatnonzero(a):
    return nonzero(mk(a).ravel())[0]


def count_nonzero(a, axis=None, **k):
    nok(k)
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    return int(np.count_nonzero(concrete_bool(unary(lambda v: bool(v), mk(a)))))


def einsum(spec, *ops, out=None, **k):
    if out is not None:
        return put(out, einsum(spec, *ops, **k))
    nok(k, "optimize", "order", "casting", "dtype")
    ops = [raw(mk(o)) for o in ops]
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    terms = ins.split(",")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dims[c] = n
    if "->" not in spec:
        allc = "".join(terms)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    summed = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = 0.0
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = 1.0
            for t, o in zip(terms, ops):
                p = E.mul(p, o[tuple(env[c] for c in t)])
            acc = E.add(acc, p)
        res[oi] = acc
    return res.view(SymArray) if res.ndim else res[()]


def cross_all(f):
    return f


def np_dot_like(a, b, out=None):
    return put(out, dot(a, b))


def vdot(a, b):
    return dot(mk(a).ravel(), mk(b).ravel())


def apply_along_axis(func1d, axis, arr, *args, **kw):
    r = np.moveaxis(raw(mk(arr)), axis, -1)
    res = {}
    for i in np.ndindex(*r.shape[:-1]):
        res[i] = func1d(np.asarray(r[i], dtype=object).view(SymArray), *args, **kw)
    first = next(iter(res.values()))
    if isinstance(first, np.ndarray) and first.ndim:
        out = np.empty(r.shape[:-1] + first.shape, dtype=object)
        for i, v in res.items():
            out[i] = raw(mk(v))
        return np.moveaxis(out, -1, axis).view(SymArray)
    out = np.empty(r.shape[:-1], dtype=object)
    for i, v in res.items():
        out[i] = v
    return out.view(SymArray)


def nan_to_num(a, *args, **k):
    return elementwise(lambda v: v if is_sym(v) else float(np.nan_to_num(v)), a)


def round1(v, decimals=0):
    """round half to even"""
    if not is_sym(v):
        return float(np.round(v, decimals))
    p = 10 ** int(decimals) if decimals >= 0 else Fraction(1, 10 ** int(-decimals))
    y = v.t * E.rv(Fraction(p))
    f = z3.ToInt(y + E.rv(Fraction(1, 2)))
    tie = z3.And(y + E.rv(Fraction(1, 2)) == z3.ToReal(f), f % 2 == 1)
    return SymReal(z3.ToReal(z3.If(tie, f - 1, f)) / E.rv(Fraction(p)))


def np_round(a, decimals=0, out=None, **k):
    if has_sym(a):
        return put(out, elementwise(lambda v: round1(v, decimals), a))
    return put(out, mk(np.round(concrete(a), decimals)))


def matrix_rank(*a, **k):
    raise Unsupported("matrix_rank")


def bincount(x, weights=None, minlength=0):
    x = [v.__index__() for v in mk(x)]
    n = max([minlength] + [v + 1 for v in x])
    o = new_array(n, 0.0, float if weights is not None else float)
    if weights is None:
        return np.bincount(np.array(x, dtype=int), minlength=minlength)
    w = mk(weights)
    for k, v in enumerate(x):
        o[v] = E.add(raw(o)[v], raw(w)[k])
    return o


FN = {
    "sum": np_sum, "prod": lambda a, *x, **k: mk(a).prod(*x, **k), "mean": np_mean, "average": average,
    "max": np_max, "amax": np_max, "min": np_min, "amin": np_min,
    "nansum": np_sum, "nanmax": np_max, "nanmin": np_min,
    "any": lambda a, axis=None, out=None, keepdims=False, where=True: put(out, reduce_("logical_or", a, axis, keepdims, None, where)),
    "all": lambda a, axis=None, out=None, keepdims=False, where=True: put(out, reduce_("logical_and", a, axis, keepdims, None, where)),
    "cumsum": lambda a, axis=None, dtype=None, out=None: put(out, accumulate("add", a, axis)),
    "cumprod": lambda a, axis=None, dtype=None, out=None: put(out, accumulate("multiply", a, axis)),
    "sort": np_sort, "argsort": argsort, "searchsorted": lambda a, v, side="left", sorter=None: searchsorted(a, v, side),
    "argmax": lambda a, *x, **k: mk(a).argmax(*x, **k), "argmin": lambda a, *x, **k: mk(a).argmin(*x, **k),
    "nonzero": nonzero, "flatnonzero": flatnonzero, "argwhere": lambda a: np.transpose(nonzero(a)),
    "count_nonzero": count_nonzero,
    "where": np_where, "dot": np_dot_like, "vdot": vdot, "inner": lambda a, b: dot(a, mk(b).T),
    "norm": norm, "clip": lambda a, a_min=None, a_max=None, out=None, min=None, max=None, **k: put(out, clip(a, a_min if a_min is not None else min, a_max if a_max is not None else max)),
    "isclose": isclose, "allclose": allclose, "array_equal": array_equal,
    "zeros_like": like(0.0), "ones_like": like(1.0), "empty_like": like(0.0), "full_like": full_like,
    "copyto": copyto, "diff": np_diff, "svd": svd_stub, "svdvals": lambda x, **k: HOOKS.call("svdvals", x),
    "diag": diag, "outer": outer, "einsum": einsum, "nan_to_num": nan_to_num, "round": np_round, "around": np_round,
    "copy": lambda a, *x, **k: mk(a).copy(), "apply_along_axis": apply_along_axis, "bincount": bincount,
    "var": lambda a, axis=None, *x, **k: mk(a).var(axis, *x, **k), "std": lambda a, axis=None, *x, **k: mk(a).std(axis, *x, **k),
    "median": median, "select": select_,
    "ptp": lambda a, axis=None, **k: reduce_("maximum", a, axis) - reduce_("minimum", a, axis),
    "trace": lambda a, *x, **k: mk(a).trace(*x), "iscomplexobj": lambda a: False, "isrealobj": lambda a: True,
    "matrix_rank": matrix_rank, "ndim": lambda a: a.ndim, "shape": lambda a: a.shape,
    "size": lambda a, axis=None: a.size if axis is None else a.shape[axis],
    "real": lambda a: a, "imag": lambda a: a * 0, "sign": lambda a: unary(E.sign, a),
    "may_share_memory": lambda a, b, *x: np.may_share_memory(raw(a), raw(b)),
    "shares_memory": lambda a, b, *x: np.shares_memory(raw(a), raw(b)),
}


def wrap_conc(r):
    return mk(r) if isinstance(r, np.ndarray) and r.dtype.kind == "f" else tuple(wrap_conc(x) for x in r) if type(r) is tuple else r


def logsumexp(a, axis=None, b=None, keepdims=False, **k):
    nok(k)
    if b is not None or keepdims:
        raise Unsupported("argument b")
    a = raw(mk(a))
    a = a.reshape(-1, 1) if axis is None else np.moveaxis(a, axis, 0)
    out = a[0].view(SymArray)
    for r in a[1:]:
        out = elementwise(_logaddexp, out, r.view(SymArray))
    return out.item() if axis is None else out


def array_function(func, types_, args, kwargs):
    name = func.__name__
    f = FN.get(name)
    if f is not None:
        return f(*args, **kwargs)

    def un(v):
        if isinstance(v, SymArray):
            return raw(v)
        if isinstance(v, (list, tuple)):
            if v and any(is_sym(x) for x in v) and all(is_sym(x) or np.isscalar(x) for x in v):
                return raw(mk(v))
            return type(v)(un(x) for x in v) if not hasattr(v, "_fields") else v
        if is_sym(v):
            o = np.empty((), dtype=object)
            o[()] = v
            return o
        return v

    def wr(v):
        if isinstance(v, np.ndarray):
            return v.view(SymArray) if v.dtype == object else v
        if isinstance(v, (list, tuple)):
            return type(v)(wr(x) for x in v)
        return v
    impl = getattr(func, "_implementation", func)
    try:
        return wr(func(*[un(a) for a in args], **{k: un(v) for k, v in kwargs.items()}))
    except (TypeError, AttributeError) as ex:
        if not has_sym_deep(list(args) + list(kwargs.values())):
            return wrap_conc(func(*[concrete(a) if isinstance(a, SymArray) else a for a in args], **kwargs))
        raise Unsupported("numpy function %s: %s" % (name, ex))


# --------------------------------------------------------------------------------------------------------------
# environment hooks (SVD, random): set by the harness for the duration of a path

class Hooks:
    def __init__(self):
        self.h = {}

    def call(self, name, *a):
        f = self.h.get(name)
        if f is None:
            raise Unsupported("no contract stub for " + name)
        return f(*a)


HOOKS = Hooks()


# --------------------------------------------------------------------------------------------------------------
# sparse matrices with symbolic data and concrete structure

class SymSparse:
    _symsparse = True
    __array_priority__ = 2000
    ndim = 2

    def __init__(self, data, indices, indptr, shape, fmt="csr"):
        self.data = mk(data)
        self.indices = np.asarray(indices)
        self.indptr = np.asarray(indptr)
        self.shape = tuple(int(s) for s in shape)
        self.format = fmt

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def nnz(self):
        return len(self.data)

    size = nnz

    def resize(self, *shape):
        shape = tuple(int(v) for v in (shape[0] if len(shape) == 1 else shape))
        if shape[0] != self.shape[0] or (len(self.indices) and shape[1] <= int(max(self.indices))):
            raise Unsupported("resize that drops entries")
        self.shape = shape

    @staticmethod
    def from_real(A):
        fmt = "csc" if A.format == "csc" else "csr"
        A = RSP.csc_matrix(A) if fmt == "csc" else RSP.csr_matrix(A)
        return SymSparse(mk(A.data), A.indices, A.indptr, A.shape, fmt)

    @staticmethod
    def from_dense(D, keep_zeros=False):
        D = mk(D)
        if D.ndim == 1:
            D = D.reshape(1, -1)
        data, ind, ptr = [], [], [0]
        for i in range(D.shape[0]):
            for j in range(D.shape[1]):
                v = raw(D)[i, j]
                if bool(E.cmp("!=", v, 0)):
                    data.append(v)
                    ind.append(j)
            ptr.append(len(data))
        return SymSparse(mk(data) if data else new_array(0, 0.0, float), np.array(ind, dtype=np.int32),
                         np.array(ptr, dtype=np.int32), D.shape)

    @staticmethod
    def repeated(D, pattern):
        """rows with every entry of the pattern stored twice, unsorted, as a quarter and three quarters of its value"""
        D = mk(D)
        data, ind, ptr = [], [], [0]
        for i in range(D.shape[0]):
            cols = [j for j in range(D.shape[1]) if pattern[i, j]]
            for j, w in [(j, 0.25) for j in cols[::-1]] + [(j, 0.75) for j in cols]:
                data.append(E.mul(raw(D)[i, j], w))
                ind.append(j)
            ptr.append(len(data))
        return SymSparse(mk(data) if data else new_array(0, 0.0, float), np.array(ind, dtype=np.int32),
                         np.array(ptr, dtype=np.int32), D.shape)

    @staticmethod
    def from_struct(D, pattern):
        """dense values, concrete boolean pattern"""
        D = mk(D)
        data, ind, ptr = [], [], [0]
        for i in range(D.shape[0]):
            for j in range(D.shape[1]):
                if pattern[i, j]:
                    data.append(raw(D)[i, j])
                    ind.append(j)
            ptr.append(len(data))
        return SymSparse(mk(data) if data else new_array(0, 0.0, float), np.array(ind, dtype=np.int32),
                         np.array(ptr, dtype=np.int32), D.shape)

    def _cells(self):
        """(row, column, position in data) of every stored entry"""
        col = self.format == "csc"
        for i in range(self.shape[1 if col else 0]):
            for k in range(self.indptr[i], self.indptr[i + 1]):
                j = self.indices[k]
                yield (j, i, k) if col else (i, j, k)

    def _pattern(self):
        p = np.zeros(self.shape, dtype=bool)
        for i, j, k in self._cells():
            p[i, j] = True
        return p

    def _like(self, data):
        """same structure, other values"""
        return SymSparse(data, self.indices, self.indptr, self.shape, self.format)

    def toarray(self, *a, **k):
        o = new_array(self.shape, 0.0, float)
        for i, j, k in self._cells():
            raw(o)[i, j] = E.add(raw(o)[i, j], raw(self.data)[k])
        return o

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    @property
    def T(self):
        return SymSparse(self.data, self.indices, self.indptr, self.shape[::-1], "csr" if self.format == "csc" else "csc")

    def transpose(self, *a, **k):
        return self.T

    def tocsr(self, copy=False, **k):
        if self.format == "csr":
            return self.copy() if copy else self
        return SymSparse.from_struct(self.toarray(), self._pattern())

    def tocsc(self, copy=False, **k):
        if self.format == "csc":
            return self.copy() if copy else self
        return SymSparse.from_struct(self.toarray().T, self._pattern().T).T

    def asformat(self, fmt, copy=False):
        if fmt not in ("csr", "csc", None):
            raise Unsupported("sparse format %s" % fmt)
        return self if fmt is None else self.tocsr(copy) if fmt == "csr" else self.tocsc(copy)

    def tocoo(self, copy=True):
        return SymCoo(self)

    def tolil(self, *a, **k):
        raise Unsupported("sparse format")

    todok = tobsr = todia = tolil

    def nonzero(self):
        """entries that are stored and not zero"""
        return nonzero(self.toarray()) if not self.has_canonical_format else tuple(
            np.array([t[q] for t in self._cells() if bool(E.cmp("!=", raw(self.data)[t[2]], 0))], dtype=np.int32) for q in (0, 1))

    def __ne__(self, o):
        if hasattr(o, "_symsparse") or not np.isscalar(o) or o != 0:
            raise Unsupported("comparison of sparse matrices")
        D = self.toarray()
        m = np.zeros(self.shape, dtype=bool)
        for i, j in zip(*np.nonzero(self._pattern())):
            m[i, j] = bool(E.cmp("!=", raw(D)[i, j], 0))
        return RSP.csr_matrix(m)

    def __eq__(self, o):
        raise Unsupported("comparison of sparse matrices")

    __hash__ = object.__hash__

    def copy(self):
        return SymSparse(self.data.copy(), self.indices.copy(), self.indptr.copy(), self.shape, self.format)

    def astype(self, dtype=None, casting=None, copy=True):
        return self.copy() if copy else self

    def getformat(self):
        return self.format

    def dot(self, o):
        if hasattr(o, "_symsparse") or RSP.issparse(o):
            od = o.toarray() if hasattr(o, "_symsparse") else mk(o.toarray())
            pat = (self._pattern().astype(int) @ (o._pattern() if hasattr(o, "_symsparse") else (o.toarray() != 0)).astype(int)) > 0
            return SymSparse.from_struct(dot(self.toarray(), od), pat)
        if is_sym(o) or np.isscalar(o):
            return self * o
        return dot(self.toarray(), o)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return dot(o, self.toarray())

    def _rmul(self, o):
        return dot(o, self.toarray())

    def __mul__(self, o):
        if is_sym(o) or np.isscalar(o) or (isinstance(o, np.ndarray) and o.ndim == 0):
            return self._like(elementwise(E.mul, self.data, o))
        return self.dot(o)

    def __rmul__(self, o):
        if is_sym(o) or np.isscalar(o) or (isinstance(o, np.ndarray) and o.ndim == 0):
            return self * o
        return self._rmul(o)

    def __truediv__(self, o):
        return self._like(elementwise(E.div, self.data, o))

    def __neg__(self):
        return self * -1.0

    def __pow__(self, n):
        return self._like(self.data ** n) if n != 0 else NotImplemented

    def power(self, n, *a):
        return self._like(self.data ** n)

    def multiply(self, o):
        if hasattr(o, "_symsparse"):
            return SymSparse.from_struct(elementwise(E.mul, self.toarray(), o.toarray()), self._pattern() & o._pattern())
        if RSP.issparse(o):
            return SymSparse.from_struct(elementwise(E.mul, self.toarray(), mk(o.toarray())), self._pattern() & (o.toarray() != 0))
        return SymSparse.from_struct(elementwise(E.mul, self.toarray(), o), self._pattern())

    def _addsub(self, o, f):
        if hasattr(o, "_symsparse"):
            return SymSparse.from_struct(elementwise(f, self.toarray(), o.toarray()), self._pattern() | o._pattern())
        if RSP.issparse(o):
            return self._addsub(SymSparse.from_real(o), f)
        r = elementwise(f, self.toarray(), o)
        return r

    def __add__(self, o):
        return self._addsub(o, E.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, E.sub)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def sum(self, axis=None, **k):
        d = self.toarray()
        if axis is None:
            return reduce_("add", d, None)
        return reduce_("add", d, axis % 2, keepdims=True)

    def mean(self, axis=None, **k):
        n = self.shape[0] * self.shape[1] if axis is None else self.shape[axis % 2]
        return E.div(self.sum(axis), n)

    def diagonal(self, k=0):
        return np.diagonal(raw(self.toarray()), k).copy().view(SymArray)

    def max(self, axis=None):
        if axis is not None:
            raise Unsupported("sparse max axis")
        return reduce_("maximum", self.toarray(), None)

    def min(self, axis=None):
        return reduce_("minimum", self.toarray(), None)

    def __abs__(self):
        return self._like(unary(E.absolute, self.data))

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        i, j = fix_index(idx[0]), fix_index(idx[1])
        D, P = raw(self.toarray()), self._pattern()
        if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)):
            return D[i, j]
        if isinstance(i, (int, np.integer)):
            i = [i]
        if isinstance(j, (int, np.integer)):
            j = [j]
        if not isinstance(i, slice) and not isinstance(j, slice):
            raise Unsupported("sparse fancy indexing")
        return SymSparse.from_struct(D[i, j].view(SymArray), P[i, j]).asformat(self.format)

    def getrow(self, i):
        return self[i]

    def getcol(self, j):
        return self[:, j]

    def count_nonzero(self, axis=None):
        nok(dict(axis=axis))
        return sum(int(bool(E.cmp("!=", v, 0))) for v in raw(self.data))

    def sorted_indices(self):
        o = self.copy()
        o.sort_indices()
        return o

    def sqrt(self):
        return self._like(np.sqrt(self.data))

    def sign(self):
        return self._like(np.sign(self.data))

    def getnnz(self, axis=None):
        if axis is None:
            return self.nnz
        c = np.zeros(self.shape, dtype=int)
        for i, j, k in self._cells():
            c[i, j] += 1
        return c.sum(axis)

    def _lanes(self):
        for i in range(len(self.indptr) - 1):
            yield list(range(self.indptr[i], self.indptr[i + 1]))

    @property
    def has_sorted_indices(self):
        return all(self.indices[a] <= self.indices[b] for l in self._lanes() for a, b in zip(l, l[1:]))

    @property
    def has_canonical_format(self):
        return all(self.indices[a] < self.indices[b] for l in self._lanes() for a, b in zip(l, l[1:]))

    def sort_indices(self):
        for l in self._lanes():
            o = sorted(l, key=lambda k: self.indices[k])
            ind, dat = [self.indices[k] for k in o], [raw(self.data)[k] for k in o]
            for k, i, v in zip(l, ind, dat):
                self.indices[k] = i
                raw(self.data)[k] = v

    def sum_duplicates(self):
        """in place, as scipy does it: the arrays may be shared with other matrices"""
        if self.has_canonical_format:
            return
        self.sort_indices()
        lanes = list(self._lanes())
        pos = 0
        for i, l in enumerate(lanes):
            start = pos
            for k in l:
                if pos > start and self.indices[pos - 1] == self.indices[k]:
                    raw(self.data)[pos - 1] = E.add(raw(self.data)[pos - 1], raw(self.data)[k])
                else:
                    self.indices[pos] = self.indices[k]
                    raw(self.data)[pos] = raw(self.data)[k]
                    pos += 1
            self.indptr[i + 1] = pos
        self.data, self.indices = self.data[:pos].copy(), self.indices[:pos].copy()

    def eliminate_zeros(self):
        pass

    def __len__(self):
        raise TypeError("sparse array length is ambiguous")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method == "__call__" and len(inputs) == 2:
            a, b = inputs
            if name in ("multiply",):
                return b.__rmul__(a) if b is self else a.__mul__(b)
            if name == "add":
                return self.__add__(b if a is self else a)
            if name == "subtract":
                return self.__sub__(b) if a is self else self.__rsub__(a)
            if name in ("divide", "true_divide") and a is self:
                return self / b
            if name == "matmul":
                return self.dot(b) if a is self else self.__rmatmul__(a)
        if method == "__call__" and len(inputs) == 1:
            if name == "absolute":
                return abs(self)
            if name == "square":
                return self.power(2)
            if name == "negative":
                return -self
        raise Unsupported("ufunc %s on sparse" % name)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        if name in ("sum", "mean"):
            return getattr(self, name)(*args[1:], **{k: v for k, v in kwargs.items() if k == "axis"})
        if name == "diff":
            return np.diff(*[a for a in args], **kwargs)
        if name in ("shape",):
            return self.shape
        if name == "ndim":
            return 2
        raise Unsupported("numpy function %s on sparse" % name)


def _mk_sparse_ctor(name, real):
    def ctor(arg, shape=None, dtype=None, copy=False, **k):
        if hasattr(arg, "_symsparse"):
            if name[:3] not in ("csr", "csc"):
                raise Unsupported("sparse format " + name)
            out = arg.asformat(name[:3], copy)
            return SymSparse(out.data, out.indices, out.indptr, out.shape, out.format) if out is arg else out
        if RSP.issparse(arg):
            return real(arg, shape=shape, copy=copy)
        if isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            ind = np.asarray(concrete(ind), dtype=np.int64)
            ptr = np.asarray(concrete(ptr), dtype=np.int64)
            if has_sym(data):
                if name.startswith("csc"):
                    if shape is None:
                        shape = (int(ind.max()) + 1 if ind.size else 0, len(ptr) - 1)
                    return SymSparse(data, ind, ptr, shape, "csc")
                if shape is None:
                    shape = (len(ptr) - 1, int(ind.max()) + 1 if ind.size else 0)
                return SymSparse(data, ind, ptr, shape)
            return real((concrete(data, float), ind, ptr), shape=shape)
        if isinstance(arg, tuple) and len(arg) == 2 and name.startswith("dia"):
            data, off = arg
            d = mk(data)
            d = d if d.ndim == 2 else d.reshape(1, -1)
            if has_sym(d):
                offs = [off] if np.isscalar(off) else list(off)
                o = new_array(shape, 0.0, float)
                p = np.zeros(shape, dtype=bool)
                for r, k0 in enumerate(offs):
                    for j in range(shape[1]):
                        i = j - k0
                        if 0 <= i < shape[0] and j < d.shape[1]:
                            raw(o)[i, j] = raw(d)[r, j]
                            p[i, j] = True
                return SymSparse.from_struct(o, p).asformat("csc" if name.startswith("csc") else "csr")
            return real((concrete(data, float), off), shape=shape)
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (ri, ci) = arg
            if has_sym(data):
                ri, ci = concrete(mk(ri), np.int64), concrete(mk(ci), np.int64)
                if shape is None:
                    shape = (int(ri.max()) + 1, int(ci.max()) + 1)
                o = new_array(shape, 0.0, float)
                p = np.zeros(shape, dtype=bool)
                for v, i, j in zip(mk(data), ri, ci):
                    raw(o)[i, j] = E.add(raw(o)[i, j], v)
                    p[i, j] = True
                return SymSparse.from_struct(o, p).asformat("csc" if name.startswith("csc") else "csr")
            return real((concrete(data, float), (concrete(mk(ri)), concrete(mk(ci)))), shape=shape)
        if isinstance(arg, tuple):
            return real(arg)
        if has_sym(arg) or isinstance(arg, list) and has_sym_deep(arg):
            return SymSparse.from_dense(arg).asformat("csc" if name.startswith("csc") else "csr")
        if isinstance(arg, SymArray):
            return real(concrete(arg))
        return real(arg, shape=shape)

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or (hasattr(o, "_symsparse") and name.startswith(o.format))

        def __call__(cls, *a, **k):
            return ctor(*a, **k)

    return Meta(name, (), {})


def issparse(x):
    return hasattr(x, "_symsparse") or RSP.issparse(x)


def sp_vstack(blocks, *a, **k):
    blocks = list(blocks)
    if any(hasattr(b, "_symsparse") for b in blocks):
        D = np.vstack([raw(b.toarray() if hasattr(b, "_symsparse") else mk(b.toarray())) for b in blocks])
        P = np.vstack([b._pattern() if hasattr(b, "_symsparse") else b.toarray() != 0 for b in blocks])
        return SymSparse.from_struct(D.view(SymArray), P)
    return RSP.vstack(blocks, *a, **k)


def sp_hstack(blocks, *a, **k):
    blocks = list(blocks)
    if any(hasattr(b, "_symsparse") for b in blocks):
        return sp_vstack([(b if hasattr(b, "_symsparse") else SymSparse.from_real(b)).T.tocsr() for b in blocks]).T.tocsr()
    return RSP.hstack(blocks, *a, **k)


def sp_diags(d, offsets=0, shape=None, **k):
    if has_sym_deep(d):
        if isinstance(d, SymArray) and d.ndim == 1:
            n = d.size
            o = diag(d)
            return SymSparse.from_struct(o, np.eye(n, dtype=bool))
        if isinstance(d, (list, tuple)) and len(d) == 1 and list(np.atleast_1d(offsets)) == [0] and shape is None:
            return sp_diags(mk(d[0]))
        raise Unsupported("sparse diags")
    return RSP.diags(concrete(d) if isinstance(d, SymArray) else d, offsets, shape=shape, **k)


class SymCoo:
    """row, column and value of every stored entry"""
    format = "coo"

    def __init__(self, m):
        cells = list(m._cells())
        self._m, self.shape = m, m.shape
        self.row = np.array([c[0] for c in cells], dtype=np.int32)
        self.col = np.array([c[1] for c in cells], dtype=np.int32)
        self.data = mk([raw(m.data)[c[2]] for c in cells]) if cells else new_array(0, 0.0, float)
        self.coords = (self.row, self.col)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self._m, k)


class SymLinOp:
    """LinearOperator contract around a (possibly symbolic) matrix"""

    def __init__(self, M):
        self.M = M
        self.shape = M.shape

    def matvec(self, v):
        return dot(self.M, v)

    def rmatvec(self, v):
        return dot(self.M.T, v)

    matmat = matvec
    rmatmat = rmatvec

    def dot(self, v):
        return dot(self.M, v)

    __matmul__ = dot
    __mul__ = dot

    def __call__(self, v):
        return self.matvec(v)

    @property
    def T(self):
        return SymLinOp(self.M.T)

    H = T

    def adjoint(self):
        return self.T

    transpose = adjoint


class CallLinOp:
    def __init__(self, o):
        self.o = o
        self.shape = o.shape
        self.matvec = o.matvec
        self.rmatvec = o.rmatvec

    def dot(self, v):
        return self.matvec(v)

    __matmul__ = dot
    __mul__ = dot


def aslinearoperator(L):
    if isinstance(L, (SymLinOp, CallLinOp)):
        return L
    if hasattr(L, "_symsparse") or isinstance(L, np.ndarray):
        return SymLinOp(mk(L) if isinstance(L, np.ndarray) else L)
    if RSP.issparse(L):
        return SymLinOp(SymSparse.from_real(L))
    return CallLinOp(L)


def safe_sparse_dot(a, b, *, dense_output=False):
    """documented contract of sklearn.utils.extmath.safe_sparse_dot for <=2-d operands"""
    r = dot(a, b)
    if (hasattr(r, "_symsparse") or RSP.issparse(r)) and dense_output and issparse(a) and issparse(b):
        return r.toarray()
    return r


def row_norms(X, squared=False):
    if hasattr(X, "_symsparse"):
        # every stored entry counts on its own
        o = new_array(X.shape[0], 0.0, float)
        for i, j, k in X._cells():
            v = raw(X.data)[k]
            raw(o)[i] = E.add(raw(o)[i], E.mul(v, v))
        return o if squared else unary(lambda v: E.sqrt(v, nonneg=True), o)
    D = X.toarray() if issparse(X) else X
    D = mk(D)
    s = reduce_("add", unary(lambda v: E.mul(v, v), D), 1)
    return s if squared else unary(lambda v: E.sqrt(v, nonneg=True), s)


def approx_fprime(xk, f, epsilon=1.4901161193847656e-08, *args):
    """documented contract of scipy.optimize.approx_fprime for scalar functions: forward differences"""
    xk = mk(xk)
    f0 = f(xk.copy(), *args)
    out = new_array((len(xk),), 0.0, float)
    for i in range(len(xk)):
        h = epsilon[i] if np.ndim(epsilon) else epsilon
        y = xk.copy()
        y[i] = E.add(y[i], h)
        v = f(y, *args)
        if isinstance(v, np.ndarray):
            v = v.item()
        w = f0.item() if isinstance(f0, np.ndarray) else f0
        out[i] = (v - w) / h
    return out


# --------------------------------------------------------------------------------------------------------------
# module proxies

def _lift(v):
    if isinstance(v, (list, tuple)):
        if any(is_sym(x) for x in v):
            return mk(v)
        if any(isinstance(x, (list, tuple)) for x in v):
            return type(v)(_lift(x) for x in v) if type(v) in (list, tuple) else v
    return v


def lift_lists(f):
    """numpy dispatches on array arguments only: plain lists holding symbolic numbers become symbolic arrays first"""
    @functools.wraps(f)
    def g(*a, **k):
        return f(*[_lift(x) for x in a], **{n: _lift(x) for n, x in k.items()})
    return g


class Proxy(types.ModuleType):
    def __init__(self, real, over, name=None):
        super().__init__(name or getattr(real, "__name__", "proxy"))
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, k):
        o = self.__dict__["_over"]
        if k in o:
            return o[k]
        r = getattr(self.__dict__["_real"], k)
        return lift_lists(r) if type(r).__name__ == "_ArrayFunctionDispatcher" else r

    def __dir__(self):
        return dir(self.__dict__["_real"])


def with_sym(name, realf, symf, real_ok=True):
    """dispatching wrapper: symbolic implementation whenever an argument is symbolic-capable"""
    def f(*a, **k):
        if any(isinstance(x, SymArray) or is_sym(x) or hasattr(x, "_symsparse") or
               (isinstance(x, (list, tuple)) and any(isinstance(y, SymArray) or is_sym(y) for y in x))
               for x in list(a) + list(k.values())):
            return symf(*a, **k)
        return realf(*a, **k)
    f.__name__ = name
    return f


def _arange(*a, dtype=None, **k):
    a = [x.__index__() if isinstance(x, SymReal) else x for x in a]
    r = np.arange(*a, dtype=real_dtype(dtype))
    return mk(r) if r.dtype.kind == "f" else r


def _linspace(*a, **k):
    return mk(np.linspace(*a, **k))


class RandomProxy:
    """np.random: every draw is an arbitrary value of its range (nondeterministic choice of the engine)"""

    def seed(self, *a):
        return None

    def __getattr__(self, k):
        def f(*a, **kw):
            return HOOKS.call("random." + k, *a, **kw)
        return f

    def default_rng(self, *a):
        return self

    def RandomState(self, *a):
        return self


class HooksKw(Hooks):
    def call(self, name, *a, **k):
        f = self.h.get(name)
        if f is None:
            raise Unsupported("no contract stub for " + name)
        return f(*a, **k)


HOOKS = HooksKw()

NP_OVER = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "ascontiguousarray": np_asarray,
    "asfortranarray": np_asarray, "require": np_asarray, "asarray_chkfinite": np_asarray,
    "zeros": lambda shape, dtype=float, order="C", **k: new_array(shape, 0.0, dtype),
    "ones": lambda shape, dtype=float, order="C", **k: new_array(shape, 1.0, dtype),
    "empty": lambda shape, dtype=float, order="C", **k: new_array(shape, 0.0, dtype),
    "full": lambda shape, fill_value, dtype=None, order="C", **k: (
        new_array(shape, fill_value, dtype if dtype is not None else (
            float if is_sym(fill_value) else np.asarray(fill_value).dtype))),
    "eye": np_eye, "identity": lambda n, dtype=float: np_eye(n),
    "load": lambda f, *a, **k: HOOKS.h.get("load", np.load)(f, *a, **k),
    "arange": _arange, "linspace": _linspace, "random": RandomProxy(),
    "array_equal": with_sym("array_equal", np.array_equal, array_equal),
    "sum": with_sym("sum", np.sum, np_sum), "max": with_sym("max", np.max, np_max),
    "min": with_sym("min", np.min, np_min), "diag": with_sym("diag", np.diag, diag),
    "any": with_sym("any", np.any, FN["any"]), "all": with_sym("all", np.all, FN["all"]),
    "where": with_sym("where", np.where, np_where), "mean": with_sym("mean", np.mean, np_mean),
    "einsum": with_sym("einsum", np.einsum, einsum), "outer": with_sym("outer", np.outer, outer),
    "dot": with_sym("dot", np.dot, np_dot_like), "vdot": with_sym("vdot", np.vdot, vdot),
    "zeros_like": like(0.0), "ones_like": like(1.0), "empty_like": like(0.0), "full_like": full_like,
    "isscalar": lambda v: is_sym(v) or np.isscalar(v),
    "fromiter": lambda it, dtype=None, count=-1, **k: (lambda v: mk(v) if has_sym_deep(v) else np.array(v, dtype=real_dtype(dtype)))(
        list(it) if count < 0 else [x for _, x in zip(range(count), it)]),
    "vectorize": lambda f, otypes=None, **k: lambda *a: elementwise(f, *a) if has_sym_deep(list(a)) else np.vectorize(f, otypes=otypes, **k)(*a),
    "result_type": lambda *a: np.result_type(*[real_np(x) if isinstance(x, type) else np.float64 if is_sym(x) else x.dtype if isinstance(x, SymArray) else x for x in a]),
    "issubdtype": lambda a, b: np.issubdtype(real_np(a), real_np(b)),
}


def real_np(t):
    return getattr(t, "_vp_real", t)


class _Concat:
    """np.r_ and np.c_ for comma separated arrays and numbers"""

    def __init__(self, real, cols):
        self.real, self.cols = real, cols

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if not has_sym_deep(list(ks)):
            return self.real[key]
        if any(isinstance(k, (slice, str)) for k in ks):
            raise Unsupported("r_ with slices")
        return np.column_stack([mk(k) for k in ks]) if self.cols else np.concatenate([mk(k).reshape(-1) if mk(k).ndim == 0 else mk(k) for k in ks])


def _typed(real, scalar=False):
    """a numpy scalar type that also covers symbolic numbers"""
    class M(type(real)):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or isinstance(o, E.SymReal) and not is_integer(o)

        def __subclasscheck__(cls, o):
            return issubclass(real_np(o), real)

        def __call__(cls, *a):
            return a[0] if a and (is_sym(a[0]) or isinstance(a[0], SymArray)) else real(*a)

        def __eq__(cls, o):
            return real == o if isinstance(o, np.dtype) else real_np(o) is real

        def __hash__(cls):
            return hash(real)
    return M(real.__name__, (real,), {"_vp_real": real})


class _DT:
    pass


def _sparse_meets_symbolic():
    """concrete sparse matrices multiply symbolic arrays through the layer (scipy's own kernels reject objects)"""
    base = RSP.csr_matrix.__mro__
    for name, own in (("_matmul_dispatch", lambda A, o: A.dot(o)), ("_rmatmul_dispatch", lambda A, o: A._rmul(o)),
                      ("multiply", lambda A, o: A.multiply(o))):
        for cls in base:
            real = cls.__dict__.get(name)
            if real is None or getattr(real, "_vp", False):
                continue

            def f(self, other, *a, _real=real, _own=own, **k):
                if isinstance(other, SymArray) or hasattr(other, "_symsparse"):
                    return _own(SymSparse.from_real(self), other)
                return _real(self, other, *a, **k)
            f._vp = True
            setattr(cls, name, f)


_sparse_meets_symbolic()


def build_proxies():
    nplinalg = Proxy(np.linalg, {"norm": with_sym("norm", np.linalg.norm, norm), "svd": with_sym("svd", np.linalg.svd, svd_stub),
                                 "svdvals": with_sym("svdvals", np.linalg.svdvals, FN["svdvals"])}, "numpy.linalg")
    over = dict(NP_OVER)
    over["float64"] = over["double"] = _typed(np.float64)
    over["floating"] = _typed(np.floating)
    over["r_"], over["c_"] = _Concat(np.r_, False), _Concat(np.c_, True)
    over["linalg"] = nplinalg
    npx = Proxy(np, over, "numpy")
    sl = Proxy(scipy.linalg, {"norm": with_sym("norm", scipy.linalg.norm, norm),
                              "svd": with_sym("svd", scipy.linalg.svd, svd_stub),
                              "svdvals": with_sym("svdvals", scipy.linalg.svdvals, FN["svdvals"])}, "scipy.linalg")
    ssl = Proxy(scipy.sparse.linalg, {"svds": lambda *a, **k: HOOKS.call("svds", *a, **k),
                                      "aslinearoperator": aslinearoperator,
                                      "norm": with_sym("norm", scipy.sparse.linalg.norm, norm)}, "scipy.sparse.linalg")
    spo = {"issparse": issparse, "isspmatrix": issparse, "linalg": ssl, "vstack": sp_vstack, "hstack": sp_hstack, "diags": sp_diags,
           "isspmatrix_csr": lambda a: RSP.isspmatrix_csr(a) or hasattr(a, "_symsparse") and a.format == "csr",
           "isspmatrix_csc": lambda a: RSP.isspmatrix_csc(a) or hasattr(a, "_symsparse") and a.format == "csc"}
    for nm in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dia_matrix", "csr_array", "csc_array",
               "coo_array", "dia_array"):
        spo[nm] = _mk_sparse_ctor(nm, getattr(RSP, nm))
    for nm in ("eye", "identity", "eye_array"):
        if hasattr(RSP, nm):
            spo[nm] = (lambda f: lambda *a, **k: SymSparse.from_real(f(*a, **k)))(getattr(RSP, nm))
    sp = Proxy(scipy.sparse, spo, "scipy.sparse")
    special = Proxy(scipy.special, {
        "expit": with_sym("expit", scipy.special.expit, lambda a: unary(E.expit, a)),
        "log1p": with_sym("log1p", scipy.special.log1p, lambda a: unary(E.log1p, a)),
        "expm1": with_sym("expm1", scipy.special.expm1, lambda a: unary(E.expm1, a)),
        "logsumexp": with_sym("logsumexp", scipy.special.logsumexp, logsumexp),
        "xlogy": with_sym("xlogy", scipy.special.xlogy, lambda a, b: elementwise(UF["xlogy"], a, b)),
        "log_expit": with_sym("log_expit", scipy.special.log_expit, lambda a: unary(UF["log_expit"], a)),
    }, "scipy.special")
    so = Proxy(scipy.optimize, {"approx_fprime": with_sym("approx_fprime", scipy.optimize.approx_fprime, approx_fprime)}, "scipy.optimize")
    sc = Proxy(scipy, {"linalg": sl, "sparse": sp, "special": special, "optimize": so}, "scipy")
    m = Proxy(math, {"sqrt": lambda a: E.sqrt(a) if is_sym(a) else math.sqrt(a),
                     "exp": lambda a: E.exp(a) if is_sym(a) else math.exp(a),
                     "log": lambda a: E.log(a) if is_sym(a) else math.log(a),
                     "log1p": lambda a: E.log1p(a) if is_sym(a) else math.log1p(a),
                     "fabs": lambda a: E.absolute(a), "hypot": lambda *a: norm(mk(list(a))),
                     "fsum": lambda a: reduce_("add", list(a), None), "isnan": lambda a: not is_sym(a) and math.isnan(a),
                     "isinf": lambda a: not is_sym(a) and math.isinf(a),
                     "isfinite": lambda a: is_sym(a) or math.isfinite(a),
                     "copysign": lambda a, b: UF["copysign"](a, b) if is_sym(a) or is_sym(b) else math.copysign(a, b),
                     "floor": lambda a: E.floor(a) if is_sym(a) else math.floor(a),
                     "ceil": lambda a: UF["ceil"](a) if is_sym(a) else math.ceil(a), "trunc": trunc,
                     "pow": lambda a, b: E.power(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b), "tanh": tanh,
                     "expm1": lambda a: E.expm1(a) if is_sym(a) else math.expm1(a),
                     "dist": lambda a, b: norm(elementwise(E.sub, mk(list(a)), mk(list(b)))),
                     "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: E.cmp("<=", E.absolute(E.sub(a, b)), E.maximum(
                         E.mul(rel_tol, E.maximum(E.absolute(a), E.absolute(b))), abs_tol)) if is_sym(a) or is_sym(b) else math.isclose(
                             a, b, rel_tol=rel_tol, abs_tol=abs_tol)}, "math")
    return {"numpy": npx, "numpy.linalg": nplinalg, "scipy": sc, "scipy.linalg": sl, "scipy.sparse": sp,
            "scipy.sparse.linalg": ssl, "scipy.special": special, "scipy.optimize": so, "math": m}
