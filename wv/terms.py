"""Term algebra of the verification-condition generator.

A value is either a Python constant (bool / int / Fraction / float) or a z3 expression; every
operation folds constants, so the same code is a symbolic evaluator (inputs are z3 constants) and a
concrete interpreter (inputs are Python numbers).  Floating point numbers are `FV`s: a mathematical
real together with IEEE special-value flags (nan, +inf, -inf).  Rounding, overflow to infinity and
the sign of zero are NOT modelled (listed as an assumption in every evidence file).
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3


# ---------------------------------------------------------------- context
class Context:
    """Facts (axiom instances) collected while terms are built, and fresh names."""

    def __init__(self):
        self.facts = []
        self._fact_ids = set()
        self.n = 0
        self.pool = []
        self.agg_memo = {}
        self.agg_bound = {}
        self.side = 'code'
        self.concrete = False
        self.assumptions = set()
        self.hyps = []  # preconditions / invariants under which terms are built
        self._dsolver = None
        self._dn = (0, 0)
        self._dmemo = {}
        self.decided = 0
        self.mod_hints = []

    def assume(self, f):
        """Add a hypothesis (precondition or invariant) available to `decide` and to every VC."""
        if f is True:
            return
        self.hyps.append(zb(f))

    def decide(self, b):
        """Fold a Boolean to a constant when the hypotheses prove or refute it (lemma discharged by
        z3 under a resource limit); otherwise return it unchanged."""
        if isc(b) or not self.hyps:
            return b
        k = (b.get_id(), len(self.hyps))
        if k in self._dmemo:
            return self._dmemo[k][0]
        if self._dsolver is None:
            self._dsolver = z3.Solver()
            self._dsolver.set("rlimit", 400000)
        s = self._dsolver
        h, f = self._dn
        for x in self.hyps[h:]:
            s.add(x)
        for x in self.facts[f:]:
            s.add(x)
        self._dn = (len(self.hyps), len(self.facts))
        r = b
        s.push()
        s.add(b)
        c = s.check()
        s.pop()
        if c == z3.unsat:
            r = False
        else:
            s.push()
            s.add(z3.Not(b))
            if s.check() == z3.unsat:
                r = True
            s.pop()
        if isc(r):
            self.decided += 1
        self._dmemo[k] = (r, b)
        return r

    def fact(self, f):
        if f is True:
            return
        if z3.is_expr(f):
            i = f.get_id()
            if i in self._fact_ids:
                return
            self._fact_ids.add(i)
        self.facts.append(f)

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}!{self.n}"


CTX = Context()


def reset():
    global CTX
    CTX = Context()
    return CTX


def ctx():
    return CTX


def isc(x):
    return not z3.is_expr(x)


# ---------------------------------------------------------------- booleans
def Not(a):
    if isc(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if isc(x):
            if not x:
                return False
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return False
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if isc(x):
            if x:
                return True
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return True
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isc(a):
        return b if a else Not(b)
    if isc(b):
        return a if b else Not(a)
    if a.eq(b):
        return True
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


# ---------------------------------------------------------------- numbers
def _num(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


def simplest_between(lo: Fraction, hi: Fraction) -> Fraction:
    """Simplest fraction in [lo, hi] (Stern-Brocot)."""
    if lo <= 0 <= hi:
        return Fraction(0)
    if hi < 0:
        return -simplest_between(-hi, -lo)
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_RAT = {}


def rational_of_float(x, single=True) -> Fraction:
    """The simplest rational that rounds to the float literal x."""
    k = (float(x), single)
    if k in _RAT:
        return _RAT[k]
    dt = np.float32 if single else np.float64
    f = dt(x)
    exact = Fraction(float(f))
    if exact.denominator <= 4096:
        r = exact
    else:
        up = Fraction(float(np.nextafter(f, dt(np.inf))))
        dn = Fraction(float(np.nextafter(f, dt(-np.inf))))
        r = simplest_between((exact + dn) / 2, (exact + up) / 2)
    _RAT[k] = r
    return r


def zr(x):
    """Python number -> z3 real"""
    if z3.is_expr(x):
        return z3.ToReal(x) if z3.is_int(x) else x
    if isinstance(x, float):
        x = Fraction(x)
    x = Fraction(x)
    return z3.RealVal(str(x.numerator) + ("/" + str(x.denominator) if x.denominator != 1 else ""))


def toreal(x):
    if isc(x):
        return float(x) if CTX.concrete else Fraction(x)
    return zr(x)


def zi(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


def zb(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def _isint(x):
    return isinstance(x, (int, bool)) if isc(x) else z3.is_int(x)


def _lift(a, b):
    if _isint(a) and _isint(b):
        return zi(a), zi(b)
    return zr(a), zr(b)


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0 and (_isint(b) == _isint(a) or not _isint(b)):
        return b
    if isc(b) and b == 0 and (_isint(a) == _isint(b) or not _isint(a)):
        return a
    a, b = _lift(a, b)
    # fold  (t + c1) + c2  (keeps index arithmetic small)
    if z3.is_int(a) and z3.is_int_value(b) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        c = a.arg(1).as_long() + b.as_long()
        return a.arg(0) if c == 0 else a.arg(0) + z3.IntVal(c)
    return a + b


def neg(a):
    if isc(a):
        return -a
    return -a


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b):
        return add(a, -b)
    if not isc(a) and a.eq(b):
        return 0 if z3.is_int(a) else Fraction(0)
    a, b = _lift(a, b)
    return a - b


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    for u, v in ((a, b), (b, a)):
        if isc(u):
            if u == 0:
                return 0 if (_isint(v) and _isint(u)) else Fraction(0)
            if u == 1 and (_isint(u) == _isint(v) or not _isint(v)):
                return v
    a, b = _lift(a, b)
    return a * b


def rdiv(a, b):
    """real division, b != 0 assumed (value irrelevant otherwise)"""
    if isc(b):
        if b == 0:
            return Fraction(0)
        if isc(a):
            if isinstance(a, float) or isinstance(b, float):
                return float(a) / float(b)
            return Fraction(a) / Fraction(b)
        if b == 1 and not _isint(a):
            return a
    if isc(a) and a == 0:
        return Fraction(0)
    if not isc(a) and not isc(b) and a.eq(b):
        return Fraction(1)  # b != 0 assumed
    return zr(a) / zr(b)


def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    if not isc(a) and not isc(b) and a.eq(b):
        return False
    a, b = _lift(a, b)
    return a < b


def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    a, b = _lift(a, b)
    return a <= b


def eq(a, b):
    if isinstance(a, FV) or isinstance(b, FV):
        return fsame(a, b)
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    if (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        return Iff(a, b)
    if (not isc(a) and not z3.is_arith(a)) or (not isc(b) and not z3.is_arith(b)):
        return a == b
    a, b = _lift(a, b)
    return a == b


def ite(c, a, b):
    if isc(c):
        return a if c else b
    if isinstance(a, FV) or isinstance(b, FV):
        a, b = fv(a), fv(b)
        if a is b:
            return a
        return FV(ite(c, a.nan, b.nan), ite(c, a.pinf, b.pinf), ite(c, a.ninf, b.ninf),
                  ite(c, a.val, b.val))
    if isc(a) and isc(b):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            if a == b:
                return bool(a)
            return c if a else Not(c)
        if a == b and type(a) == type(b):
            return a
    elif not isc(a) and not isc(b) and a.eq(b):
        return a
    isb = (isinstance(a, (bool, np.bool_)) if isc(a) else z3.is_bool(a))
    isb2 = (isinstance(b, (bool, np.bool_)) if isc(b) else z3.is_bool(b))
    if isb and isb2:
        if isc(a):
            return Or(c, b) if a else And(Not(c), b)
        if isc(b):
            return Or(Not(c), a) if b else And(c, a)
        return z3.If(c, a, b)
    if not isc(a) and not z3.is_arith(a) or not isc(b) and not z3.is_arith(b):
        return z3.If(c, a, b)
    a, b = _lift(a, b)
    return z3.If(c, a, b)


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(b, a), a, b)


def floordiv(a, b):
    """Python floor division of ints (b > 0 in all uses when symbolic)"""
    if isc(a) and isc(b):
        return a // b
    if isc(b) and b == 1:
        return a
    if isc(b) and b > 0:
        return zi(a) / zi(b)  # z3 int div: floor for positive divisor
    return z3.If(zi(b) > 0, zi(a) / zi(b), (-zi(a)) / (-zi(b)))


def floormod(a, b):
    if isc(a) and isc(b):
        return a % b
    if isc(b) and b == 1:
        return 0
    if isc(b) and b > 0:
        return zi(a) % zi(b)
    # symbolic divisor: an uninterpreted remainder with instances of the uniqueness of Euclidean
    # division:  a = q*b + r  and  0 <= r < b   imply   a mod b = r
    a, b = zi(a), zi(b)
    m = uf("wv.mod", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
    CTX.fact(z3.Implies(b > 0, z3.And(m >= 0, m < b)))
    CTX.fact(z3.Implies(z3.And(a >= 0, a < b), m == a))
    CTX.fact(z3.Implies(z3.And(a >= b, a < 2 * b), m == a - b))
    for q, r in CTX.mod_hints:
        for dq, dr in ((0, 0), (0, 1), (1, 1)):
            rr = zi(sub(add(r, dr), mul(dq, b)))
            CTX.fact(z3.Implies(z3.And(a == zi(q) * b + zi(r) + dr, rr >= 0, rr < b), m == rr))
    return m


def truncrem(a, b):
    if isc(a) and isc(b):
        return a - b * truncdiv(a, b)
    if CTX.decide(le(0, a)) is True and CTX.decide(lt(0, b)) is True:
        return floormod(a, b)
    r = floormod(ite(le(0, a), a, neg(a)), ite(le(0, b), b, neg(b)))
    return ite(le(0, a), r, neg(r))


def truncdiv(a, b):
    if isc(a) and isc(b):
        if b == 0:
            return -1
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    q = floordiv(ite(le(0, a), a, neg(a)), ite(le(0, b), b, neg(b)))
    return ite(Iff(le(0, a), le(0, b)), q, neg(q))


# ---------------------------------------------------------------- floats
class FV:
    __slots__ = ("nan", "pinf", "ninf", "val")

    def __init__(self, nan=False, pinf=False, ninf=False, val=Fraction(0)):
        self.nan, self.pinf, self.ninf, self.val = nan, pinf, ninf, val

    def __repr__(self):
        return f"FV({self.nan},{self.pinf},{self.ninf},{self.val})"

    @property
    def special(self):
        return Or(self.nan, self.pinf, self.ninf)

    @property
    def inf(self):
        return Or(self.pinf, self.ninf)

    def is_const(self):
        return isc(self.nan) and isc(self.pinf) and isc(self.ninf) and isc(self.val)

    # operator sugar for contracts
    def __add__(self, o): return fadd(self, fv(o))
    def __radd__(self, o): return fadd(fv(o), self)
    def __sub__(self, o): return fsub(self, fv(o))
    def __rsub__(self, o): return fsub(fv(o), self)
    def __mul__(self, o): return fmul(self, fv(o))
    def __rmul__(self, o): return fmul(fv(o), self)
    def __truediv__(self, o): return fdiv(self, fv(o))
    def __rtruediv__(self, o): return fdiv(fv(o), self)
    def __neg__(self): return fneg(self)


NAN = FV(nan=True)
PINF = FV(pinf=True)
NINF = FV(ninf=True)


def fv(x) -> FV:
    if isinstance(x, FV):
        return x
    x = _num(x)
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return FV(val=x)
    if isinstance(x, int):
        return FV(val=Fraction(x))
    if z3.is_expr(x) and z3.is_int(x):
        return FV(val=z3.ToReal(x))
    if z3.is_expr(x) and z3.is_bool(x):
        return FV(val=ite(x, Fraction(1), Fraction(0)))
    return FV(val=x)


def tofloat(a: FV) -> float:
    if a.nan:
        return math.nan
    if a.pinf:
        return math.inf
    if a.ninf:
        return -math.inf
    return float(a.val)


def fsame(a, b):
    """Equality of observations: both nan, or both the same infinity, or equal reals."""
    a, b = fv(a), fv(b)
    return And(Iff(a.nan, b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
               Or(a.special, eq(a.val, b.val)))


def fneg(a):
    return FV(a.nan, a.ninf, a.pinf, neg(a.val))


def _noinf(*xs):
    return all(x.pinf is False and x.ninf is False for x in xs)


def fadd(a, b):
    if _noinf(a, b):
        return FV(Or(a.nan, b.nan), False, False, add(a.val, b.val))
    nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    return FV(nan, And(Not(nan), Or(a.pinf, b.pinf)), And(Not(nan), Or(a.ninf, b.ninf)),
              add(a.val, b.val))


def fsub(a, b):
    return fadd(a, fneg(b))


def _pos(a):
    return Or(a.pinf, And(Not(a.special), lt(0, a.val)))


def _neg(a):
    return Or(a.ninf, And(Not(a.special), lt(a.val, 0)))


def _zero(a):
    return And(Not(a.special), eq(a.val, Fraction(0)))


def fmul(a, b):
    if _noinf(a, b):
        return FV(Or(a.nan, b.nan), False, False, mul(a.val, b.val))
    nan = Or(a.nan, b.nan, And(a.inf, _zero(b)), And(b.inf, _zero(a)))
    inf = And(Not(nan), Or(a.inf, b.inf))
    pos = Or(And(_pos(a), _pos(b)), And(_neg(a), _neg(b)))
    return FV(nan, And(inf, pos), And(inf, Not(pos)), mul(a.val, b.val))


def fdiv(a, b):
    bz = CTX.decide(_zero(b))
    nan = Or(a.nan, b.nan, And(a.inf, b.inf), And(_zero(a), bz))
    # finite/0 -> inf with the sign of the numerator (zero taken as +0)
    toinf = And(Not(nan), Or(a.inf, bz))
    if _noinf(a, b) and bz is False:
        return FV(nan, False, False, rdiv(a.val, b.val))
    bneg = And(_neg(b), Not(bz))
    pos = ite(bneg, _neg(a), Or(_pos(a)))
    return FV(nan, And(toinf, pos), And(toinf, Not(pos)),
              ite(And(b.inf, Not(nan)), Fraction(0), rdiv(a.val, b.val)) if not _noinf(b)
              else rdiv(a.val, b.val))


def flt(a, b):
    if _noinf(a, b):
        return And(Not(a.nan), Not(b.nan), lt(a.val, b.val))
    return And(Not(a.nan), Not(b.nan),
               Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)),
                  And(Not(a.inf), Not(b.inf), lt(a.val, b.val))))


def feq(a, b):
    if _noinf(a, b):
        return And(Not(a.nan), Not(b.nan), eq(a.val, b.val))
    return And(Not(a.nan), Not(b.nan), Iff(a.pinf, b.pinf), Iff(a.ninf, b.ninf),
               Or(a.inf, eq(a.val, b.val)))


def fle(a, b):
    return Or(flt(a, b), feq(a, b))


def fmax(a, b):
    """lax.max: propagates nan"""
    r = ite(flt(a, b), b, a)
    n = Or(a.nan, b.nan)
    return FV(n, And(Not(n), r.pinf), And(Not(n), r.ninf), r.val)


def fmin(a, b):
    r = ite(flt(b, a), b, a)
    n = Or(a.nan, b.nan)
    return FV(n, And(Not(n), r.pinf), And(Not(n), r.ninf), r.val)


def fabs_(a):
    return FV(a.nan, a.inf, False, ite(le(0, a.val), a.val, neg(a.val)))


def fsign(a):
    return FV(a.nan, False, False, ite(_pos(a), Fraction(1), ite(_neg(a), Fraction(-1), Fraction(0))))


R = z3.RealSort()
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def _app(x, name):
    return z3.is_expr(x) and z3.is_app(x) and x.decl().name() == name


def rexp(v):
    if isc(v):
        if v == 0:
            return Fraction(1)
        if isinstance(v, float):
            try:
                return math.exp(v)
            except OverflowError:
                return 1e300
    if _app(v, "wv.ln"):
        return v.arg(0)  # guarded: ln's value is only meaningful for positive arguments
    t = uf("wv.exp", R, R)(zr(v))
    CTX.fact(t > 0)
    return t


def rln(v):
    if isc(v):
        if v == 1:
            return Fraction(0)
        if isinstance(v, float):
            return math.log(v) if v > 0 else 0.0
    if _app(v, "wv.exp"):
        return v.arg(0)
    return uf("wv.ln", R, R)(zr(v))


def fexp(a):
    return FV(a.nan, a.pinf, False, ite(a.ninf, Fraction(0), rexp(a.val)))


def flog(a):
    z = CTX.decide(_zero(a))
    return FV(Or(a.nan, CTX.decide(_neg(a))), a.pinf, And(Not(a.nan), z), rln(a.val))


def fsqrt(a):
    n = Or(a.nan, CTX.decide(_neg(a)))
    v = a.val
    if isc(v):
        if isinstance(v, float):
            return FV(n, a.pinf, False, math.sqrt(v) if v >= 0 else 0.0)
        if v in (0, 1):
            return FV(n, a.pinf, False, v)
    t = uf("wv.sqrt", R, R)(zr(v))
    CTX.fact(z3.Implies(zr(v) >= 0, z3.And(t >= 0, t * t == zr(v))))
    return FV(n, a.pinf, False, t)


def fun1(name, a, pyf, at_pinf=None, at_ninf=None):
    """uninterpreted smooth function, finite on finite arguments (tanh, logistic, erf_inv, ...)"""
    v = a.val
    if isc(v) and (isinstance(v, float)) and pyf is not None:
        t = pyf(v)
    else:
        t = uf("wv." + name, R, R)(zr(v))
    if a.pinf is not False and at_pinf is not None:
        t = ite(a.pinf, at_pinf, t)
    if a.ninf is not False and at_ninf is not None:
        t = ite(a.ninf, at_ninf, t)
    return FV(a.nan, False, False, t)


def fintpow(a, n):
    if n < 0:
        return fdiv(fv(1), fintpow(a, -n))
    if n == 0:
        return fv(1)
    r = a
    for _ in range(n - 1):
        r = fmul(r, a)
    return r


def fpow(a, b):
    if b.is_const() and not b.special and not isinstance(b.val, float) and Fraction(b.val).denominator == 1 and abs(b.val) < 8:
        return fintpow(a, int(b.val))
    if a.is_const() and b.is_const() and isinstance(a.val, float):
        try:
            return fv(float(np.float64(tofloat(a)) ** np.float64(tofloat(b))))
        except Exception:
            return NAN
    if a.is_const() and b.is_const() and CTX.concrete:
        return fv(float(np.float64(tofloat(a)) ** np.float64(tofloat(b))))
    if CTX.decide(And(Not(a.special), lt(0, a.val))) is True and not b.special is True:
        def power(e):
            """a^e for a > 0, with a^(e+n) = a^n a^e"""
            if z3.is_expr(e):
                e = z3.simplify(e)
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    c, u, v = e.children()
                    return ite(c, power(u), power(v))
                if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
                    i = z3.simplify(e.arg(0))
                    if z3.is_app_of(i, z3.Z3_OP_ITE):
                        c, u, v = i.children()
                        return ite(c, power(z3.ToReal(u)), power(z3.ToReal(v)))
                    if z3.is_app_of(i, z3.Z3_OP_ADD):
                        e = z3.Sum([z3.ToReal(k) for k in i.children()])
                if z3.is_app_of(e, z3.Z3_OP_ADD):
                    cs = [k for k in e.children() if z3.is_rational_value(k) or (z3.is_app_of(k, z3.Z3_OP_TO_REAL) and z3.is_int_value(k.arg(0)))]
                    rest = [k for k in e.children() if not any(k.eq(c) for c in cs)]
                    n = sum((Fraction(z3.simplify(c).as_fraction()) for c in cs), Fraction(0))
                    if n.denominator == 1 and abs(n) <= 4 and rest and n != 0:
                        r = raw(rest[0] if len(rest) == 1 else z3.Sum(rest))
                        for _ in range(abs(int(n))):
                            r = mul(r, a.val) if n > 0 else div(r, a.val)
                        return r
                if z3.is_rational_value(e):
                    e = Fraction(e.as_fraction())
            if isc(e) and Fraction(e).denominator == 1 and abs(e) < 8:
                r = Fraction(1)
                for _ in range(abs(int(e))):
                    r = mul(r, a.val) if e > 0 else div(r, a.val)
                return r
            return raw(e)

        def raw(e):
            f = uf("rpow", R, R, R)
            x, e = zr(a.val), zr(e)
            t = f(x, e)
            CTX.fact(z3.And(t > 0, f(x, 0) == 1, z3.Implies(z3.And(x < 1, e > 0), t < 1)))
            return t
        return FV(Or(a.nan, b.nan), False, False, power(b.val))
    # uninterpreted real power; the recursion and range facts are those of a positive base
    f = uf("rpow", R, R, R)
    x, e = zr(a.val), zr(b.val)
    t = f(x, e)
    CTX.fact(z3.Implies(x > 0, z3.And(t > 0, f(x, 0) == 1, t == x * f(x, e - 1))))
    CTX.fact(z3.Implies(z3.And(x > 0, x < 1, e > 0), t < 1))
    neg, zero = CTX.decide(_neg(a)), CTX.decide(_zero(a))
    frac = And(neg, z3.Not(z3.IsInt(e)))
    return FV(Or(a.nan, b.nan, frac), And(zero, zb(z3.simplify(e < 0))), False, t)


# ---------------------------------------------------------------- symbolic leaves
def sym_float(name, nan=True, inf=False, args=()):
    sorts = [z3.IntSort()] * len(args)

    def mk(suffix, sort):
        if not args:
            return z3.Const(name + suffix, sort)
        return uf(name + suffix, *sorts, sort)(*[zi(a) for a in args])

    n = mk(".nan", z3.BoolSort()) if nan else False
    v = mk("", R)
    if inf:
        p, q = mk(".pinf", z3.BoolSort()), mk(".ninf", z3.BoolSort())
        # exclusive flags by construction
        n_ = n
        p_ = And(Not(n_), p)
        q_ = And(Not(n_), Not(p), q)
        return FV(n_, p_, q_, v)
    return FV(n, False, False, v)


def sym_int(name, args=()):
    if not args:
        return z3.Int(name)
    return uf(name, *([z3.IntSort()] * len(args)), z3.IntSort())(*[zi(a) for a in args])


def sym_bool(name, args=()):
    if not args:
        return z3.Bool(name)
    return uf(name, *([z3.IntSort()] * len(args)), z3.BoolSort())(*[zi(a) for a in args])
