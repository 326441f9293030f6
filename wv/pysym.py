"""Verification conditions from plain Python code (host code that JAX does not trace).

The module under contract is read from /repo on every run, its loops are given a hook at the loop head by a
mechanical rewriting of the syntax tree, and the rewritten module is executed on symbolic values:

    for T in ITER: BODY      ->   L = __wv__.loop(ITER)
    while TEST: BODY              while True:
                                      v = __wv__.head(L, locals(), (names assigned in BODY))
                                      if v is not None: (names) = v
                                      if not L.test(): break          (for: range exhausted / while: not TEST)
                                      T = L.item()                    (for only)
                                      BODY

Nothing else of the text changes.  A branch on a symbolic condition is explored both ways (one path per re-execution,
infeasible ones dropped).  A loop of symbolic extent is cut at its head: the contract's handler checks its invariant on
arrival, replaces what the loop changes by arbitrary values satisfying it, and one arbitrary iteration is executed and
checked against the invariant again; a name the body assigns and the invariant does not describe is poisoned.
"""
from __future__ import annotations

import ast
import inspect
import sys
import types

import numpy as _np
import z3

from . import prove as P
from . import terms as T
from .arrays import SArr, kind_of
from .contracts import Mismatch


class PathEnd(Exception):
    pass


class Explorer:
    def __init__(self, max_paths=600):
        self.max_paths = max_paths
        self.paths = 0

    def run(self, f):
        """f() is executed once per path; yields (result, exception, hypotheses, obligations)"""
        global EX
        self.prefix = []
        while True:
            self.pos, self.pc, self.obs = 0, [], []
            T.reset()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Mismatch("too many paths")
            old, EX = EX, self
            exc = res = None
            try:
                res = f()
            except PathEnd:
                exc = PathEnd
            except (Mismatch, NotImplementedError):
                raise
            except Exception as e:
                exc = e
            finally:
                EX = old
            yield res, exc, self.hyps(), self.obs
            while self.prefix and not self.prefix[-1][1]:  # (decision taken, alternative still open)
                self.prefix.pop()
            if not self.prefix:
                return
            self.prefix[-1] = (False, False)

    def hyps(self):
        return list(T.CTX.hyps) + [T.zb(f) for f in T.CTX.facts] + list(self.pc)

    def feasible(self, c):
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*self.hyps())
        s.add(c)
        return s.check() != z3.unsat

    def fork(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(T.zb(cond))
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos][0]
        else:
            d = self.feasible(c)
            self.prefix.append((d, d and self.feasible(z3.Not(c))))
        self.pos += 1
        self.pc.append(T.zb(cond) if d else z3.Not(T.zb(cond)))
        return d

    def oblige(self, name, goal, hyps=()):
        self.obs.append((name, self.hyps() + [T.zb(h) for h in hyps], goal))

    def assume(self, f):
        if f is not True:
            self.pc.append(T.zb(f))


EX: Explorer = None


# --------------------------------------------------------------------------------------------- symbolic values
def wrap(kind, v):
    if kind == "i" and isinstance(v, int):
        return v
    if kind == "b" and isinstance(v, bool):
        return v
    return Sc(kind, v)


def unwrap(x):
    """(kind, term)"""
    if isinstance(x, Sc):
        return x.kind, x.v
    if isinstance(x, (bool, _np.bool_)):
        return "b", bool(x)
    if isinstance(x, (int, _np.integer)):
        return "i", int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        return "f", T.fv(T.rational_of_float(x, single=False) if x == x and abs(x) != float("inf") else x)
    if isinstance(x, T.FV):
        return "f", x
    if isinstance(x, z3.ArithRef):
        return "i", x
    if isinstance(x, z3.BoolRef):
        return "b", x
    raise Mismatch(f"no symbolic meaning for a {type(x).__name__}")


def _tof(kv):
    k, v = kv
    if k == "f":
        return v
    if k == "b":
        return T.ite(v, T.fv(1), T.fv(0))
    return T.FV(val=T.toreal(v)) if not isinstance(v, int) else T.fv(v)


def _toi(kv):
    k, v = kv
    return T.ite(v, 1, 0) if k == "b" else v


_CMP = {"lt": (T.flt, T.lt), "le": (T.fle, T.le), "eq": (T.feq, T.eq)}


def elem_op(op, a, b):
    """one elementwise operation on (kind, term) pairs"""
    if op in ("and", "or", "xor"):
        if a[0] != "b" or b[0] != "b":
            raise Mismatch("bitwise operation on numbers")
        return "b", {"and": T.And, "or": T.Or, "xor": T.Xor}[op](a[1], b[1])
    f = "f" in (a[0], b[0])
    if op in ("gt", "ge"):
        return elem_op({"gt": "lt", "ge": "le"}[op], b, a)
    if op == "ne":
        return "b", T.Not(elem_op("eq", a, b)[1])
    if op in _CMP:
        if a[0] == b[0] == "b":
            return "b", T.Iff(a[1], b[1])
        return "b", (_CMP[op][0](_tof(a), _tof(b)) if f else _CMP[op][1](_toi(a), _toi(b)))
    if op == "div":
        return "f", T.fdiv(_tof(a), _tof(b))
    if op in ("max", "min"):
        if f:
            return "f", (T.fmax if op == "max" else T.fmin)(_tof(a), _tof(b))
        return "i", (T.imax if op == "max" else T.imin)(_toi(a), _toi(b))
    if op == "pow":
        if b[0] == "i" and isinstance(b[1], int):
            return "f", T.fintpow(_tof(a), b[1])
        return "f", T.fpow(_tof(a), _tof(b))
    if op == "floordiv":
        return "i", T.floordiv(_toi(a), _toi(b))
    if op == "mod":
        return "i", T.floormod(_toi(a), _toi(b))
    g = {"add": (T.fadd, T.add), "sub": (T.fsub, T.sub), "mul": (T.fmul, T.mul)}[op]
    return ("f", g[0](_tof(a), _tof(b))) if f else ("i", g[1](_toi(a), _toi(b)))


class Ops:
    """arithmetic shared by scalars and arrays"""
    __hash__ = object.__hash__


def _install():
    for nm in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor", "lt", "le", "gt", "ge", "eq", "ne"):
        op = {"truediv": "div"}.get(nm, nm)
        setattr(Ops, f"__{nm}__", lambda self, o, op=op: binop(op, self, o))
        if nm not in ("lt", "le", "gt", "ge", "eq", "ne"):
            setattr(Ops, f"__r{nm}__", lambda self, o, op=op: binop(op, o, self))
    Ops.__neg__ = lambda self: binop("sub", 0, self) if self.kind == "i" else unop(lambda k, v: ("f", T.fneg(v)), self)
    Ops.__pos__ = lambda self: self
    Ops.__abs__ = lambda self: unop(lambda k, v: ("f", T.fabs_(v)) if k == "f" else ("i", T.imax(v, T.neg(v))), self)
    Ops.__invert__ = lambda self: unop(lambda k, v: ("b", T.Not(v)), self)


_install()


class Sc(Ops):
    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __bool__(self):
        if self.kind == "b":
            return EX.fork(self.v)
        return not EX.fork(elem_op("eq", (self.kind, self.v), ("i", 0))[1])

    def __float__(self):
        raise Mismatch("a symbolic number is converted to a concrete one")
    __int__ = __index__ = __float__

    def astype(self, dt):
        return cast_to(self, dt)

    def __repr__(self):
        return f"<symbolic {self.kind}>"

    def __format__(self, spec):
        return repr(self)


DT = {"f": "float64", "i": "int64", "b": "bool"}


class Arr(Ops):
    """a mutable array; aliasing is Python's own"""

    def __init__(self, shape, dtype, f, origin=None):
        self.shape, self.dtype = tuple(shape), str(dtype)
        self.data = f if isinstance(f, SArr) else SArr(self.shape, self.dtype, f)
        self.origin = origin
        self.written = False

    kind = property(lambda s: kind_of(s.dtype))
    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: s.shape[0] if s.ndim == 1 else T.mul(s.shape[0], s.shape[1]))

    def get(self, *i):
        return self.data(*i)

    def put(self, f):
        self.data = SArr(self.shape, self.dtype, f)
        self.written = True

    def _conv(self, kv):
        k = self.kind
        if k == "f":
            return _tof(kv)
        if k == "i":
            if kv[0] == "f":
                raise Mismatch("a float is stored in an integer array")
            return _toi(kv)
        if kv[0] != "b":
            raise Mismatch("a number is stored in a boolean array")
        return kv[1]

    def _idx(self, i, n):
        k, v = unwrap(i)
        if k != "i":
            raise Mismatch("index that is not an integer")
        if isinstance(v, int) and v < 0:
            return T.add(n, v)
        return v

    def __len__(self):
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Mismatch("length of a symbolic array")

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if len(i) == self.ndim and not any(isinstance(j, slice) for j in i):
                return wrap(self.kind, self.get(*[self._idx(j, n) for j, n in zip(i, self.shape)]))
            raise Mismatch("slicing")
        if isinstance(i, (slice, Arr)) or i is None or i is Ellipsis:
            raise Mismatch("slicing")
        i = self._idx(i, self.shape[0])
        if self.ndim == 1:
            return wrap(self.kind, self.get(i))
        return Row(self, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice) and i == slice(None):
            f = bcast(v, self.shape)
            d = lambda *j: self._conv(f(*j))
        elif isinstance(i, (slice, Arr)) or i is None or i is Ellipsis:
            raise Mismatch("slice assignment")
        else:
            ix = [self._idx(j, n) for j, n in zip(i if isinstance(i, tuple) else (i,), self.shape)]
            m = len(ix)
            f = bcast(v, self.shape[m:])
            old = self.data
            d = lambda *j: T.ite(T.And(*[T.eq(a, b) for a, b in zip(j[:m], ix)]), self._conv(f(*j[m:])), old(*j))
        self.put(d)

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if tuple(r.shape) != self.shape and not same_shape(r.shape, self.shape):
            raise Mismatch("in-place broadcasting")
        rd, rk = r.data, r.kind
        self.put(lambda *j: self._conv((rk, rd(*j))))
        return self

    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)
    def __iand__(self, o): return self._inplace("and", o)
    def __ior__(self, o): return self._inplace("or", o)

    def copy(self):
        return Arr(self.shape, self.dtype, self.data, self.origin)

    def astype(self, dt, copy=True):
        return cast_to(self, dt)

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        sh = [unwrap(x)[1] for x in sh]
        if len(sh) == 2 and self.ndim == 1 and isinstance(sh[1], int) and sh[1] == 1:
            return Arr((self.shape[0], 1), self.dtype, lambda i, j: self.get(i), self.origin)
        if len(sh) == 1 and self.ndim == 2 and self.shape[1] == 1:
            return Arr((self.shape[0],), self.dtype, lambda i: self.get(i, 0), self.origin)
        raise Mismatch("reshape")

    ravel = flatten = lambda s: s.reshape(-1)

    def __bool__(self):
        raise Mismatch("truth value of an array")

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]


class Row(Arr):
    """a view of one row"""

    def __init__(self, base, i):
        self.base, self.i = base, i
        self.shape, self.dtype, self.origin, self.written = base.shape[1:], base.dtype, None, False

    @property
    def data(self):
        b, i = self.base.data, self.i
        return SArr(self.shape, self.dtype, lambda *j: b(i, *j))

    def put(self, f):
        old = self.base.data
        self.base.put(lambda k, *j: T.ite(T.eq(k, self.i), f(*j), old(k, *j)))


def same_shape(a, b):
    return len(a) == len(b) and all((x is y) or (isinstance(x, int) and isinstance(y, int) and x == y) or
                                    (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) for x, y in zip(a, b))


def bcast(v, shape):
    if isinstance(v, (list, tuple)):
        raise Mismatch("list as array")
    if not isinstance(v, Arr):
        kv = unwrap(v)
        return lambda *j: kv
    d, k = v.data, v.kind
    if not same_shape(v.shape, shape[len(shape) - v.ndim:]):
        raise Mismatch("broadcasting")
    off = len(shape) - v.ndim
    return lambda *j: (k, d(*j[off:]))


def _cshape(*xs):
    sh = ()
    for x in xs:
        if isinstance(x, Arr) and x.ndim > len(sh):
            sh = x.shape
    return sh


def nary(f, kind, *xs):
    if not any(isinstance(x, Arr) for x in xs):
        return wrap(*f(*[unwrap(x) for x in xs]))
    sh = _cshape(*xs)
    gs = [bcast(x, sh) for x in xs]
    return Arr(sh, DT[kind], lambda *j: f(*[g(*j) for g in gs])[1])


def kof(x):
    return x.kind if isinstance(x, (Arr, Sc)) else unwrap(x)[0]


def binop(op, a, b):
    if op == "mul" and (isinstance(a, (list, SymSeq)) or isinstance(b, (list, SymSeq))):
        l, n = (a, b) if isinstance(a, (list, SymSeq)) else (b, a)
        return seq_repeat(l, n)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op in ("eq", "ne"):
            return op == "ne"
        raise Mismatch("operation on None or text")
    if op in ("and", "or", "xor", "lt", "le", "gt", "ge", "eq", "ne"):
        k = "b"
    elif op in ("div", "pow") or "f" in (kof(a), kof(b)):
        k = "f"
    else:
        k = "i"
    return nary(lambda x, y: elem_op(op, x, y), k, a, b)


def unop(f, x, kind=None):
    return nary(lambda kv: f(*kv), kind or kof(x), x)


def cast_to(x, dt):
    s = str(getattr(dt, "__name__", dt))
    k = "b" if "bool" in s else "i" if "int" in s else "f"
    def f(kv):
        if k == "f":
            return "f", _tof(kv)
        if k == "b":
            return "b", kv[1] if kv[0] == "b" else T.Not(elem_op("eq", kv, ("i", 0))[1])
        if kv[0] == "f":
            raise Mismatch("conversion of a float to an integer")
        return "i", _toi(kv)
    return nary(f, k, x)


class Np:
    """numpy on symbolic arrays; anything not here is numpy's own"""
    nan, inf, pi, newaxis = _np.nan, _np.inf, _np.pi, None
    int64, int32, float64, float32, bool_ = _np.int64, _np.int32, _np.float64, _np.float32, _np.bool_
    ndarray = _np.ndarray

    def __getattr__(self, n):
        return getattr(_np, n)

    def isnan(self, x):
        return nary(lambda kv: ("b", kv[1].nan if kv[0] == "f" else False), "b", x)

    def isfinite(self, x):
        return nary(lambda kv: ("b", T.Not(kv[1].special) if kv[0] == "f" else True), "b", x)

    def isinf(self, x):
        return nary(lambda kv: ("b", T.Or(kv[1].pinf, kv[1].ninf) if kv[0] == "f" else False), "b", x)

    def logical_not(self, x): return ~x if isinstance(x, (Arr, Sc)) else not x
    def logical_and(self, a, b): return binop("and", a, b)
    def logical_or(self, a, b): return binop("or", a, b)
    def maximum(self, a, b): return binop("max", a, b)
    def minimum(self, a, b): return binop("min", a, b)
    def abs(self, x): return abs(x)

    def where(self, c, a, b):
        k = "f" if "f" in (kof(a), kof(b)) else "i" if "i" in (kof(a), kof(b)) else "b"
        cv = {"f": _tof, "i": _toi, "b": lambda kv: kv[1]}[k]
        return nary(lambda c, a, b: (k, T.ite(c[1], cv(a), cv(b))), k, c, a, b)

    def _new(self, shape, val, dt):
        shape = tuple(unwrap(s)[1] for s in (shape if isinstance(shape, tuple) else (shape,)))
        s = str(getattr(dt, "__name__", dt))
        k = "b" if "bool" in s else "i" if "int" in s else "f"
        a = Arr(shape, DT[k], None, "new")
        if k == "i" and isinstance(val, float) and val == int(val):
            val = int(val)
        kv = unwrap(val)
        a.data = SArr(shape, DT[k], lambda *j: a._conv(kv))
        return a

    def full(self, shape, v, dtype="float64"):
        return self._new(shape, v, dtype)

    def full_like(self, a, v, dtype=None):
        return self._new(a.shape, v, dtype or a.dtype)

    def zeros(self, shape, dtype="float64"): return self._new(shape, 0, dtype)
    def ones(self, shape, dtype="float64"): return self._new(shape, 1, dtype)
    def zeros_like(self, a, dtype=None): return self._new(a.shape, 0, dtype or a.dtype)
    def ones_like(self, a, dtype=None): return self._new(a.shape, 1, dtype or a.dtype)

    def empty(self, shape, dtype="float64"):
        a = self._new(shape, 0, dtype)
        T.CTX.nempty = getattr(T.CTX, "nempty", 0) + 1
        s = SArr(a.shape, a.dtype, None)
        from .arrays import sym
        a.data = sym(f"empty{T.CTX.nempty}", a.shape, a.dtype, nan=True)
        a.origin = "empty"
        return a

    def empty_like(self, a, dtype=None): return self.empty(a.shape, dtype or a.dtype)
    def copy(self, a): return a.copy()
    def array(self, a, *r, **k): return a.copy() if isinstance(a, Arr) else _np.array(a, *r, **k)
    def asarray(self, a, *r, **k): return a if isinstance(a, Arr) else _np.asarray(a, *r, **k)


class Poison(Ops):
    kind = "f"

    def _no(self, *a, **k):
        raise Mismatch("a loop carries a value the contract's invariant does not describe")
    __getattr__ = __bool__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __index__ = __int__ = __float__ = _no


for _n in list(vars(Ops)):
    if _n.startswith("__") and callable(getattr(Ops, _n)) and _n not in ("__class__", "__hash__", "__dict__", "__weakref__", "__module__", "__doc__"):
        setattr(Poison, _n, Poison._no)


# --------------------------------------------------------------------------------------------- loops
class SymRange:
    def __init__(self, n):
        self.n = n


def sym_range(*a):
    if all(isinstance(x, (int, _np.integer)) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(unwrap(a[0])[1])
    if len(a) == 2 and isinstance(a[0], int) and a[0] == 0:
        return SymRange(unwrap(a[1])[1])
    raise Mismatch("range with a symbolic start or step")


def sym_len(x):
    if isinstance(x, Arr) or (hasattr(x, "elem") and getattr(x, "shape", ())):
        return wrap("i", x.shape[0])
    s = seq_of(x)
    return wrap("i", s.n) if s is not None else len(x)


def sym_min(*a, **k):
    import builtins
    if len(a) >= 2 and not k and any(isinstance(x, Sc) for x in a):
        r = a[0]
        for x in a[1:]:
            r = binop("min", r, x)
        return r
    return builtins.min(*a, **k)


def sym_max(*a, **k):
    import builtins
    if len(a) >= 2 and not k and any(isinstance(x, Sc) for x in a):
        r = a[0]
        for x in a[1:]:
            r = binop("max", r, x)
        return r
    return builtins.max(*a, **k)


def sym_abs(x):
    return abs(x)


class SymSeq:
    """a list of symbolic length whose element i is f(i)"""

    def __init__(self, n, f):
        self.n, self.f, self.memo = n, f, {}

    def at(self, i):
        k = i if isinstance(i, int) else i.get_id()
        if k not in self.memo:
            self.memo[k] = (i, self.f(i))
        return self.memo[k][1]

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(k) for k in range(self.n)])
        raise Mismatch("iteration over a sequence of symbolic length")

    def __len__(self):
        raise Mismatch("length of a sequence of symbolic length")

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Mismatch("slice of a sequence of symbolic length")
        k, v = unwrap(i)
        if k != "i":
            raise Mismatch("index that is not an integer")
        return self.at(T.add(self.n, v) if isinstance(v, int) and v < 0 else v)

    def __add__(self, o):
        return seq_concat(self, o)

    def __radd__(self, o):
        return seq_concat(o, self)


def as_seq(x):
    return x if isinstance(x, SymSeq) else SymSeq(len(x), lambda i: pick(x, i))


def pick(xs, i):
    if isinstance(i, int):
        return xs[i]
    for k in range(len(xs) - 1):
        if EX.fork(T.eq(i, k)):
            return xs[k]
    return xs[-1]


def seq_concat(a, b):
    if not isinstance(a, (list, SymSeq)) or not isinstance(b, (list, SymSeq)):
        raise Mismatch("concatenation")
    a, b = as_seq(a), as_seq(b)

    def f(i):
        if EX.fork(T.lt(i, a.n)):
            return a.at(i)
        return b.at(T.sub(i, a.n))
    return SymSeq(T.add(a.n, b.n), f)


def seq_repeat(l, n):
    """[x] * n"""
    if isinstance(l, SymSeq) or len(l) != 1 or isinstance(n, (list, SymSeq)):
        raise Mismatch("repetition of a list")
    v = unwrap(n)[1]
    return SymSeq(T.imax(v, 0), lambda i: l[0])


def seq_of(it):
    """a symbolic sequence, if it is one"""
    if isinstance(it, SymRange):
        return SymSeq(it.n, lambda i: wrap("i", i))
    if isinstance(it, SymSeq):
        return it
    if hasattr(it, "wv_seq"):
        return it.wv_seq()
    if hasattr(it, "shape") and hasattr(it, "elem") and len(it.shape) >= 1 and not isinstance(it.shape[0], int):
        return SymSeq(it.shape[0], lambda i: it[i])
    return None


def sym_map(f, *its):
    import builtins
    if len(its) == 1:
        s = seq_of(its[0])
        if s is not None:
            return SymSeq(s.n, lambda i: f(s.at(i)))
    return builtins.map(f, *its)


def sym_enumerate(x, start=0):
    import builtins
    s = seq_of(x)
    if s is not None:
        return SymSeq(s.n, lambda i: (wrap("i", T.add(i, start)), s.at(i)))
    return builtins.enumerate(x, start)


class _ListTy(type):
    def __instancecheck__(cls, x):
        return type(x) is SymSeq or isinstance(x, _list)

    def __call__(cls, x=()):
        s = seq_of(x)
        return s if s is not None else _list(x)

    def __getitem__(cls, k):
        return _list[k]


_list = list
sym_list = _ListTy("list", (), {})


class PlainLoop:
    cut = False

    def __init__(self, it):
        self.it, self.k = iter(it), 0

    def test(self):
        self.k += 1
        if EX is not None and self.k > 200:
            raise Mismatch("a loop of many iterations is executed symbolically")
        try:
            self.nxt = next(self.it)
            return True
        except StopIteration:
            return False

    def item(self):
        return self.nxt


class SymLoop:
    cut = True

    def __init__(self, n, seq=None):
        self.n, self.idx, self.arrivals, self.done, self.seq = n, None, 0, False, seq

    def test(self):
        if self.n is None:
            return True
        if EX.fork(T.lt(self.idx, self.n)):
            return True
        EX.assume(T.eq(self.idx, self.n))
        self.done = True
        return False

    def item(self):
        return self.seq.at(self.idx)


class Hooks:
    """injected as __wv__"""

    def __init__(self, handler, cut_while=False):
        self.h, self.cut_while = handler, cut_while

    def loop(self, it):
        s = seq_of(it)
        if s is not None:
            return SymLoop(s.n, s)
        return PlainLoop(it)

    def comp(self, f, it):
        s = seq_of(it)
        if s is not None:
            return SymSeq(s.n, lambda i: f(s.at(i)))
        return [f(x) for x in it]

    def wloop(self):
        return SymLoop(None) if self.cut_while else None

    def head(self, L, loc, names):
        if L is None or not L.cut:
            return None
        L.arrivals += 1
        L.names = names
        if L.arrivals == 1:
            if L.n is not None:
                T.CTX.nloop = getattr(T.CTX, "nloop", 0) + 1
                L.idx = z3.Int(f"loop{T.CTX.nloop}.i")
                EX.assume(T.And(T.le(0, L.idx), T.le(L.idx, L.n)))
            keep = self.h.enter(L, loc)
            L.bound = {k: loc.get(k) for k in keep}
            return tuple(keep[k] if k in keep else Poison() for k in names)
        self.h.back(L, loc)
        raise PathEnd


def _simple_comp(node):
    return len(node.generators) == 1 and not node.generators[0].ifs and not node.generators[0].is_async and isinstance(node.generators[0].target, ast.Name)


def _assigned(body):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = visit_ListComp
    for b in body:
        V().visit(b)
    return out


class Rewrite(ast.NodeTransformer):
    def __init__(self, whiles):
        self.n, self.whiles = 0, whiles

    def _mk(self, node, pre, head, orelse):
        if orelse:
            return node
        return [*pre, ast.While(test=ast.Constant(True), body=head, orelse=[])]

    def _head(self, L, names):
        src = f"__wv_v = __wv__.head({L}, locals(), {tuple(names)!r})\n"
        if names:
            src += f"if __wv_v is not None: ({', '.join(names)},) = __wv_v\n"
        return ast.parse(src).body

    def visit_For(self, node):
        self.generic_visit(node)
        self.n += 1
        L = f"__wv_L{self.n}"
        names = [x for x in _assigned(node.body) if not x.startswith("__wv")]
        for x in _assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))]):
            if x not in names:
                names.append(x)
        pre = ast.Assign(targets=[ast.Name(L, ast.Store())], value=ast.Call(ast.parse("__wv__.loop", mode="eval").body, [node.iter], []))
        head = self._head(L, names) + ast.parse(f"if not {L}.test(): break").body + \
            [ast.Assign(targets=[node.target], value=ast.parse(f"{L}.item()", mode="eval").body)] + node.body
        return self._mk(node, [pre], head, node.orelse)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if not _simple_comp(node):
            return node
        g = node.generators[0]
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
        return ast.Call(ast.parse("__wv__.comp", mode="eval").body, [lam, g.iter], [])

    def visit_While(self, node):
        self.generic_visit(node)
        if not self.whiles:
            return node
        self.n += 1
        L = f"__wv_L{self.n}"
        names = [x for x in _assigned(node.body) if not x.startswith("__wv")]
        pre = ast.parse(f"{L} = __wv__.wloop()").body
        head = self._head(L, names) + [ast.If(test=ast.UnaryOp(ast.Not(), node.test), body=[ast.Break()], orelse=[])] + node.body
        return self._mk(node, pre, head, node.orelse)


_SRC = {}


class LengthUnknown(Mismatch, TypeError):
    pass


class GList(list):
    """list made by the code under contract; a contract may declare its length unknown, which leaves appending and reading in order"""
    grown = False

    def _need(self):
        if self.grown:
            raise LengthUnknown("use of the length of a list that grows in a loop")

    def __bool__(self):
        return True if self.grown else list.__len__(self) > 0

    def __add__(self, o):
        r = GList(list.__add__(self, list(o)) if isinstance(o, list) else list.__add__(self, o))
        r.grown = self.grown or getattr(o, "grown", False)
        return r

    def __mul__(self, o):
        self._need()
        return GList(list.__mul__(self, o)) if isinstance(o, int) else NotImplemented

    __rmul__ = __mul__
    __hash__ = None


def _guard(n):
    f = getattr(list, n)

    def g(self, *a, **k):
        self._need()
        return f(self, *a, **k)
    return g


for _n in ("__len__", "__getitem__", "__setitem__", "__delitem__", "__contains__", "__imul__", "__reversed__", "pop", "insert", "remove",
           "index", "count", "reverse", "sort", "clear", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(GList, _n, _guard(_n))


class ListRewrite(ast.NodeTransformer):
    def _wrap(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("__wv_list", ast.Load()), [node], [])

    def visit_List(self, node):
        return self._wrap(node) if isinstance(node.ctx, ast.Load) else self.generic_visit(node)

    visit_ListComp = _wrap


class CompRewrite(ast.NodeTransformer):
    """[E for x in S if C], and the same as a generator, become __wv_comp__(kind, S, lambda x: E, lambda x: C): the function given maps and
    filters a symbolic sequence, and does what Python does to any other"""

    def _comp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) > 1 or g.is_async or not isinstance(g.target, ast.Name) or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node

        def lam(e):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        cond = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True)
        return ast.Call(ast.Name("__wv_comp__", ast.Load()), [ast.Constant(type(node).__name__), g.iter, lam(node.elt), lam(cond)], [])

    visit_ListComp = visit_GeneratorExp = _comp


def load(modname, hooks, shims=None, whiles=False, lists=False, comp=None):
    """the module's own text with hooked loops, executed in a fresh namespace; shims replace names of that namespace"""
    key = (modname, whiles, lists, comp is not None)
    if key not in _SRC:
        spec = __import__("importlib.util", fromlist=["util"]).find_spec(modname)
        src = open(spec.origin).read()
        tree = ast.parse(src)
        tree = CompRewrite().visit(tree) if comp else tree
        tree = Rewrite(whiles).visit(tree)
        tree = ListRewrite().visit(tree) if lists else tree
        ast.fix_missing_locations(tree)
        _SRC[key] = (compile(tree, spec.origin, "exec"), spec.origin)
    code, origin = _SRC[key]
    m = types.ModuleType("wv_loaded." + modname)
    m.__file__ = origin
    m.__package__ = modname.rpartition(".")[0]
    sys.modules[m.__name__] = m
    m.__dict__["__wv__"] = hooks
    m.__dict__["__wv_list"] = GList
    m.__dict__["__wv_comp__"] = comp
    exec(code, m.__dict__)
    m.__dict__.update(dict(len=sym_len, range=sym_range, min=sym_min, max=sym_max, map=sym_map, list=sym_list, enumerate=sym_enumerate))
    m.__dict__.update(dict(list=lambda *a: GList(sym_list(*a)) if type(sym_list(*a)) is list else sym_list(*a)) if lists else {})
    m.__dict__.update(shims or {})
    return m
