"""Machine integers, dates and small arrays of them, for host code executed by wv/pysym.py.

Integers are mathematical integers with the wrap-around of their numpy type made explicit (no idealisation here):
  >> k is floor division by 2^k, & (2^k - 1) is the remainder, << k is multiplication followed by wrap-around, `|` of words
  proved disjoint is addition.  Promotion follows NEP 50 (numpy 2): a Python int adopts the numpy type and must fit in it."""
from __future__ import annotations

import builtins

import numpy as _np
import z3

from . import pysym as Y
from . import terms as T
from .contracts import Mismatch

BITS = {"int64": (64, True), "int32": (32, True), "uint32": (32, False), "uint64": (64, False), "int16": (16, True), "uint8": (8, False), "uint16": (16, False), "int8": (8, True)}


def rng_of(dt):
    b, s = BITS[dt]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def entails(c):
    if isinstance(c, bool):
        return c
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*Y.EX.hyps(), T.zb(T.Not(c)))
    return s.check() == z3.unsat


def fits(v, dt):
    lo, hi = rng_of(dt)
    return T.And(T.le(lo, v), T.le(v, hi))


def wrap(v, dt):
    if isinstance(v, int):
        lo, hi = rng_of(dt)
        return (v - lo) % (hi - lo + 1) + lo
    if entails(fits(v, dt)):
        return v
    lo, hi = rng_of(dt)
    return z3.simplify((v - lo) % (hi - lo + 1) + lo)


class MI:
    """dt: numpy integer type or 'py'"""
    __hash__ = object.__hash__
    shape, ndim, size = (), 0, 1

    def __init__(self, dt, v):
        self.dt, self.v = dt, v

    @property
    def dtype(self):
        if self.dt == "py":
            raise AttributeError("dtype")
        return _np.dtype(self.dt)

    def item(self):
        return MI("py", self.v)

    def astype(self, dt):
        return convert(self, dt)

    def reshape(self, *sh):
        return reshape(self, *sh)

    def __index__(self):
        if isinstance(self.v, int):
            return self.v
        raise Mismatch("a symbolic integer is converted to a concrete one")

    __int__ = __index__

    def __bool__(self):
        return Y.EX.fork(T.Not(T.eq(self.v, 0)))

    def __pos__(self):
        return self

    def __invert__(self):
        return MI(self.dt, -1 - self.v if self.dt == "py" else wrap(-1 - self.v, self.dt))

    def __abs__(self):
        r = T.ite(T.lt(self.v, 0), self.v * -1, self.v)
        return MI(self.dt, r if self.dt == "py" else wrap(r, self.dt))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return MI(self.dt, self.v * -1 if self.dt == "py" else wrap(self.v * -1, self.dt))

    def __repr__(self):
        return f"<{self.dt}>"


def fit_py(v, dt):
    """a Python int is given the type dt: it must fit"""
    if not Y.EX.fork(fits(v, dt)):
        raise OverflowError("Python integer out of bounds for " + dt)


def unify(a, b):
    """(dtype, a, b)"""
    def norm(x):
        if isinstance(x, MI):
            return x
        if isinstance(x, (bool, _np.bool_)):
            raise Mismatch("boolean as integer")
        if isinstance(x, _np.integer):
            return MI(str(x.dtype), int(x))
        if isinstance(x, _np.ndarray) and x.ndim == 0 and x.dtype.kind in "iu":
            return MI(str(x.dtype), int(x))
        if isinstance(x, int):
            return MI("py", x)
        raise Mismatch(f"integer arithmetic with a {type(x).__name__}")
    a, b = norm(a), norm(b)
    if a.dt == b.dt:
        return a.dt, a.v, b.v
    if a.dt == "py" or b.dt == "py":
        dt = a.dt if b.dt == "py" else b.dt
        fit_py(a.v if a.dt == "py" else b.v, dt)
        return dt, a.v, b.v
    dt = str(_np.promote_types(a.dt, b.dt))
    if dt not in BITS:
        raise Mismatch("integers promoted to floating point")
    return dt, a.v, b.v


def low_bits(m):
    """m = 2^k - 1"""
    return isinstance(m, int) and m > 0 and (m & (m + 1)) == 0


def _op(op):
    def f(a, b):
        if isinstance(b, MA) or isinstance(a, MA):
            return eltwise(f, a, b)
        if isinstance(b, D64) or isinstance(a, D64):
            return NotImplemented
        dt, x, y = unify(a, b)
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            r = {"lt": T.lt(x, y), "le": T.le(x, y), "gt": T.lt(y, x), "ge": T.le(y, x), "eq": T.eq(x, y), "ne": T.Not(T.eq(x, y))}[op]
            return Y.wrap("b", r)
        if op == "add":
            r = T.add(x, y)
        elif op == "sub":
            r = T.sub(x, y)
        elif op == "mul":
            r = T.mul(x, y)
        elif op in ("floordiv", "mod"):
            if not (isinstance(y, int) and y > 0):
                raise Mismatch("division by a symbolic integer")
            r = (x // y if op == "floordiv" else x % y) if isinstance(x, int) else (x / y if op == "floordiv" else x % y)
        elif op == "fmod":
            if not (isinstance(y, int) and y > 0):
                raise Mismatch("division by a symbolic integer")
            r = (x % y if x >= 0 else -(-x % y)) if isinstance(x, int) else z3.If(x >= 0, x % y, -((-x) % y))
        elif op == "min":
            r = T.ite(T.lt(y, x), y, x)
        elif op == "max":
            r = T.ite(T.lt(x, y), y, x)
        elif op == "rshift":
            if not (isinstance(y, int) and 0 <= y < 63):
                raise Mismatch("shift")
            r = x >> y if isinstance(x, int) else x / (1 << y)
        elif op == "lshift":
            if not (isinstance(y, int) and 0 <= y < 63):
                raise Mismatch("shift")
            r = T.mul(x, 1 << y)
        elif op == "and":
            if low_bits(x):
                x, y = y, x
            if not low_bits(y):
                raise Mismatch("bitwise and")
            r = x % (y + 1)
        elif op in ("or", "xor"):
            for k in (32, 16, 31, 48, 8):
                for p, q in ((x, y), (y, x)):
                    m = 1 << k
                    if entails(T.And(T.eq(p % m, 0), T.le(0, q), T.lt(q, m))):
                        r = T.add(p, q)
                        break
                else:
                    continue
                break
            else:
                raise Mismatch("bitwise or of overlapping words")
        return MI(dt, r if dt == "py" else wrap(r, dt))
    return f


for _n in ("add", "sub", "mul", "floordiv", "mod", "rshift", "lshift", "and", "or", "xor", "lt", "le", "gt", "ge", "eq", "ne"):
    _f = _op(_n)
    setattr(MI, f"__{_n}__", _f)
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(MI, f"__r{_n}__", lambda self, o, _f=_f: _f(o, self))


def eltwise(f, *xs):
    """f applied element by element"""
    shs = [x.shape for x in xs if isinstance(x, MA) and x.shape]
    if not shs:
        return f(*[x.elem() if isinstance(x, MA) else x for x in xs])
    sh = max(shs, key=len)
    if not all(Y.same_shape(t, sh[len(sh) - len(t):]) for t in shs):
        raise Mismatch("broadcasting")

    def g(*i):
        return f(*[x.elem(*i[len(sh) - x.ndim:]) if isinstance(x, MA) else x for x in xs])
    e = g(*[0] * len(sh))
    dt = e.dt if isinstance(e, MI) else "bool" if isinstance(e, (bool, Y.Sc)) else str(e.dtype)
    return MA(sh, dt, lambda *i: Y.unwrap(g(*i))[1] if dt == "bool" else g(*i).v)


NS = {"ns": 1, "us": 1000, "ms": 10**6, "s": 10**9, "D": 86400 * 10**9}
NAT = -(1 << 63)


class D64:
    """numpy datetime64: int64 count of units, NaT the smallest"""
    __hash__ = object.__hash__
    shape, ndim, size = (), 0, 1

    def __init__(self, unit, v):
        self.unit, self.v = unit, v

    @property
    def dtype(self):
        return _np.dtype(f"<M8[{self.unit}]")

    def astype(self, dt):
        s = str(getattr(dt, "__name__", dt))
        d = _np.dtype(getattr(dt, "__name__", dt)) if not s.startswith("<class") else None
        if d is None:
            raise Mismatch("datetime conversion")
        if d.kind == "M":
            u = _np.datetime_data(d)[0]
            a, b = NS[self.unit], NS[u]
            nat = T.eq(self.v, NAT)
            if a >= b:
                return D64(u, T.ite(nat, NAT, wrap(T.mul(self.v, a // b), "int64")))
            return D64(u, T.ite(nat, NAT, self.v / (b // a)))
        if str(d) == "int64":
            return MI("int64", self.v)
        raise Mismatch("datetime conversion")

    def view(self, dt):
        return self.astype(dt) if _np.dtype(dt).kind == "i" else self

    def _cmp(self, o, op):
        if isinstance(o, MA):
            return eltwise(lambda a, b: a._cmp(b, op), self, o)
        if not isinstance(o, D64):
            raise Mismatch("a date compared with something else")
        ok = T.And(T.Not(T.eq(self.v, NAT)), T.Not(T.eq(o.v, NAT)))
        return Y.wrap("b", T.And(ok, op(inst(self), inst(o))))

    def __eq__(self, o): return self._cmp(o, T.eq)
    def __lt__(self, o): return self._cmp(o, T.lt)
    def __le__(self, o): return self._cmp(o, T.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: T.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: T.le(b, a))

    def __ne__(self, o):
        r = self == o
        return Y.wrap("b", T.Not(Y.unwrap(r)[1]))

    def item(self):
        raise Mismatch("item of a date")


def inst(d):
    return T.mul(d.v, NS[d.unit])


class MA:
    """array of machine integers; shape of Python ints or symbolic; f(*index) -> mathematical integer"""
    __hash__ = object.__hash__

    def __init__(self, shape, dt, f):
        self.shape, self.dt, self.f = tuple(shape), dt, f

    ndim = property(lambda s: len(s.shape))
    dtype = property(lambda s: _np.dtype(s.dt) if s.dt in BITS else _np.dtype(s.dt))

    def elem(self, *i):
        v = self.f(*i)
        if self.dt in BITS:
            return MI(self.dt, v)
        if self.dt == "bool":
            return Y.wrap("b", v)
        return D64(_np.datetime_data(_np.dtype(self.dt))[0], v)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Mismatch("length of a symbolic array")

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if len(i) != self.ndim:
                raise Mismatch("slicing")
            return self.elem(*[idx(j, n) for j, n in zip(i, self.shape)])
        if isinstance(i, slice) or i is None or i is Ellipsis:
            raise Mismatch("slicing")
        i = idx(i, self.shape[0])
        if self.ndim == 1:
            return self.elem(i)
        return MA(self.shape[1:], self.dt, lambda *j: self.f(i, *j))

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def astype(self, dt):
        def f(*i):
            return self.elem(*i).astype(dt).v
        e = self.elem(*[0] * self.ndim).astype(dt)
        return MA(self.shape, e.dt if isinstance(e, MI) else str(e.dtype), f)

    def reshape(self, *sh):
        return reshape(self, *sh)

    def item(self):
        if self.ndim == 0:
            return self.elem().item()
        raise Mismatch("item")


for _n in ("add", "sub", "mul", "floordiv", "mod", "rshift", "lshift", "and", "or", "xor", "lt", "le", "gt", "ge", "eq", "ne"):
    _g = _op(_n)

    def _h(a, b, _g=_g, _n=_n):
        if _n in ("lt", "le", "gt", "ge", "eq", "ne") and (isinstance(b, D64) or isinstance(a, MA) and a.dt not in BITS):
            return eltwise(lambda x, y: getattr(x, f"__{_n}__")(y), a, b)
        return eltwise(_g, a, b)
    setattr(MA, f"__{_n}__", _h)
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(MA, f"__r{_n}__", lambda self, o, _h=_h: _h(o, self))


MA.__neg__ = lambda a: eltwise(lambda x: -x, a)
MA.__invert__ = lambda a: eltwise(lambda x: ~x, a)
MA.__abs__ = lambda a: eltwise(abs, a)
MA.__divmod__ = lambda a, b: (a // b, a % b)
_FMOD, _MIN, _MAX = _op("fmod"), _op("min"), _op("max")


def idx(j, n):
    if isinstance(j, Y.Sc):
        j = j.v
    if isinstance(j, MI):
        j = j.v
    if isinstance(j, int) and j < 0:
        return T.add(n, j)
    return j


def reshape(a, *sh):
    sh = sh[0] if len(sh) == 1 and isinstance(sh[0], (list, tuple)) else sh
    sh = tuple(builtins.int(x) for x in sh)
    if isinstance(a, MI) or a.ndim == 0:
        v = a.v if isinstance(a, MI) else a.f()
        if all(x in (1, -1) for x in sh):
            return MA((1,) * len(sh), a.dt, lambda *i: v) if sh else a
    if isinstance(a, MA) and all(isinstance(x, int) for x in a.shape) and a.ndim == 1 and sh in ((-1,), a.shape):
        return a
    raise Mismatch("reshape")


def convert(x, dt):
    """astype / array construction"""
    s = str(getattr(dt, "__name__", dt))
    d = _np.dtype(s)
    if isinstance(x, MA):
        return x.astype(dt)
    if isinstance(x, D64):
        return x.astype(dt)
    if d.kind == "M":
        if isinstance(x, MI) and x.dt in ("int64",):
            return D64(_np.datetime_data(d)[0], x.v)
        raise Mismatch("date from an integer")
    if d.kind not in "iu":
        raise Mismatch("integer converted to " + s)
    if isinstance(x, MI):
        if x.dt == "py":
            fit_py(x.v, str(d))
            return MI(str(d), x.v)
        return MI(str(d), wrap(x.v, str(d)))
    if isinstance(x, float):
        return MI(str(d), builtins.int(x))
    return MI(str(d), builtins.int(_np.array(x, dtype=d)))


class _Ty(type):
    """numpy scalar types as callables and in isinstance"""
    def __instancecheck__(cls, x):
        if isinstance(x, MI):
            return x.dt == cls.dt
        return builtins.isinstance(x, cls.real)

    def __call__(cls, x=0):
        if isinstance(x, (MI, MA, D64)):
            return convert(x, cls.dt)
        return cls.real(x)


def _ty(nm):
    return _Ty(nm, (), dict(dt=nm, real=getattr(_np, nm)))


class _IntTy(type):
    def __instancecheck__(cls, x):
        if isinstance(x, MI):
            return x.dt == "py"
        return builtins.isinstance(x, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, MA) and x.ndim == 0:
            x = x.elem()
        if isinstance(x, MI):
            return MI("py", x.v)
        if isinstance(x, D64):
            raise Mismatch("int of a date")
        return builtins.int(x, *a)


SymInt = _IntTy("int", (), {})


class _NdTy(type):
    def __instancecheck__(cls, x):
        return isinstance(x, MA) or builtins.isinstance(x, _np.ndarray)


ndarray = _NdTy("ndarray", (), {})


class _D64Ty(type):
    def __instancecheck__(cls, x):
        return isinstance(x, D64) or builtins.isinstance(x, _np.datetime64)

    def __call__(cls, x, *a):
        if hasattr(x, "as_datetime64"):
            return x.as_datetime64()
        return _np.datetime64(x, *a)


class NpInt:
    """numpy on these values"""
    datetime64 = _D64Ty("datetime64", (), {})
    int64, int32, uint32, uint64 = _ty("int64"), _ty("int32"), _ty("uint32"), _ty("uint64")
    ndarray = ndarray

    def __getattr__(self, n):
        return getattr(_np, n)

    def shape(self, x):
        return x.shape if isinstance(x, (MI, MA, D64)) else _np.shape(x)

    def array(self, x, dtype=None, **k):
        if isinstance(x, (MI, D64, MA)):
            return x if dtype is None else convert(x, dtype)
        if isinstance(x, float) and dtype is not None and getattr(dtype, "__name__", str(dtype)) in BITS:
            return MI(getattr(dtype, "__name__", str(dtype)), int(x))
        if isinstance(x, (list, tuple)) and x and all(isinstance(e, MI) for e in x):
            es = [convert(e, dtype) if dtype is not None else e for e in x]
            return self.stack(es)
        return _np.array(x, getattr(dtype, "__name__", dtype) if dtype is not None else None, **k)

    asarray = array

    def reshape(self, x, sh):
        return reshape(x, sh)

    def concatenate(self, xs, axis=0):
        xs = list(xs)
        if not all(isinstance(x, MA) and x.ndim == 1 and isinstance(x.shape[0], int) for x in xs) or len({x.dt for x in xs}) != 1:
            raise Mismatch("concatenate")
        vs = [x.f(k) for x in xs for k in range(x.shape[0])]
        return small(vs, xs[0].dt)

    def stack(self, xs, axis=0):
        if isinstance(xs, Y.SymSeq):
            e0 = xs.f(0)
            if isinstance(e0, MA):
                return MA((xs.n,) + e0.shape, e0.dt, lambda i, *j: xs.at(i).f(*j))
            if isinstance(e0, MI):
                return MA((xs.n,), e0.dt, lambda i: xs.at(i).v)
            if isinstance(e0, D64):
                return MA((xs.n,), str(e0.dtype), lambda i: xs.at(i).v)
            raise Mismatch("stack")
        xs = list(xs)
        if xs and all(isinstance(x, MI) for x in xs) and len({x.dt for x in xs}) == 1:
            return small([x.v for x in xs], xs[0].dt)
        raise Mismatch("stack")

    def where(self, c, a, b):
        if any(isinstance(x, MA) for x in (c, a, b)):
            return eltwise(self.where, c, a, b)
        c = Y.unwrap(c)[1]
        if isinstance(a, D64) or isinstance(b, D64):
            f = lambda x: x if isinstance(x, D64) else D64((a if isinstance(a, D64) else b).unit, NAT) if _np.isnat(_np.datetime64(x)) else None
            a, b = f(a), f(b)
            if a is None or b is None:
                raise Mismatch("where with a date constant")
            if NS[a.unit] != NS[b.unit]:
                u = a.unit if NS[a.unit] < NS[b.unit] else b.unit
                a, b = a.astype(f"<M8[{u}]"), b.astype(f"<M8[{u}]")
            return D64(a.unit, T.ite(c, a.v, b.v))
        dt, x, y = unify(a, b)
        return MI("int64" if dt == "py" else dt, T.ite(c, x, y))

    def isnat(self, x):
        if isinstance(x, MA):
            return eltwise(self.isnat, x)
        if isinstance(x, D64):
            return Y.wrap("b", T.eq(x.v, NAT))
        return _np.isnat(x)

    def issubdtype(self, a, b):
        if b is NpInt.datetime64:
            b = _np.datetime64
        f = lambda t: t.real if builtins.isinstance(t, _Ty) else t
        return _np.issubdtype(f(a), f(b))

    def iinfo(self, t):
        return _np.iinfo(getattr(t, "dt", t))

    def remainder(self, a, b): return a % b
    mod = remainder
    def floor_divide(self, a, b): return a // b
    def right_shift(self, a, b): return a >> b
    def left_shift(self, a, b): return a << b
    def bitwise_and(self, a, b): return a & b
    def bitwise_or(self, a, b): return a | b
    def bitwise_xor(self, a, b): return a ^ b
    def add(self, a, b): return a + b
    def subtract(self, a, b): return a - b
    def multiply(self, a, b): return a * b
    def negative(self, a): return -a
    def absolute(self, a): return abs(a)
    abs = absolute
    def less(self, a, b): return a < b
    def less_equal(self, a, b): return a <= b
    def greater(self, a, b): return a > b
    def greater_equal(self, a, b): return a >= b
    def equal(self, a, b): return a == b
    def not_equal(self, a, b): return a != b
    def divmod(self, a, b): return a // b, a % b
    def ravel(self, a, order="C"): return a.ravel(order) if hasattr(a, "ravel") else _np.ravel(a)
    def fmod(self, a, b): return _FMOD(a, b) if isinstance(a, (MI, MA)) or isinstance(b, (MI, MA)) else _np.fmod(a, b)
    def minimum(self, a, b): return _MIN(a, b) if isinstance(a, (MI, MA)) or isinstance(b, (MI, MA)) else _np.minimum(a, b)
    def maximum(self, a, b): return _MAX(a, b) if isinstance(a, (MI, MA)) or isinstance(b, (MI, MA)) else _np.maximum(a, b)


def small(vs, dt):
    def f(i):
        if isinstance(i, int):
            return vs[i]
        out = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            out = T.ite(T.eq(i, k), vs[k], out)
        return out
    return MA((len(vs),), dt, f)
