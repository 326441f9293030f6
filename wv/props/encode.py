"""wax.encode: integers, dates and strings as keys JAX can hold."""
import datetime as _dt
from types import SimpleNamespace

import numpy as np
import pandas as _pd
import z3

from .. import mint as M
from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Tok
from ..terms import And, Not

W = 1 << 32
DAY = 86400 * 10**9
LO, HI = M.rng_of("int64")


# ------------------------------------------------------------------------------------------------ dependencies' contracts
class Stamp:
    """pandas.Timestamp: nanoseconds since 1970"""

    def __init__(self, v):
        self.value = M.MI("py", v)

    def to_pydatetime(self):
        return Date(self.value.v / 1000)

    def to_datetime64(self):
        return M.D64("ns", self.value.v)
    to_numpy = to_datetime64


class Date:
    """datetime.datetime: microseconds since 1970"""

    def __init__(self, us):
        self.us = us

    def as_datetime64(self):
        return M.D64("us", self.us)


class Pd:
    Timestamp = Stamp
    NaT = _pd.NaT

    def to_datetime(self, x):
        if isinstance(x, Date):
            return Stamp(T.mul(x.us, 1000))
        if not isinstance(x, M.MI):
            raise Y.Mismatch("pd.to_datetime")
        if Y.EX.fork(T.eq(x.v, M.NAT)):
            return _pd.NaT
        return Stamp(x.v)


def unlinear(order, k, sh):
    """index of the k-th element"""
    out, ext = [], list(sh)
    for n in (reversed(ext) if order == "C" else ext):
        if len(out) == len(ext) - 1:
            out.append(k)
        else:
            out.append(T.zi(k) % T.zi(n))
            k = T.zi(k) / T.zi(n)
    return tuple(reversed(out)) if order == "C" else tuple(out)


def linear(order, i, sh):
    k = 0
    for j, n in (zip(i, sh) if order == "C" else zip(reversed(i), reversed(sh))):
        k = T.add(T.mul(k, n), j)
    return k


class Strings:
    """array of strings, row- or column-major in memory; a flattened array remembers the order it was flattened in (f takes the index before that)"""

    def __init__(self, shape, f, flat=None, kind="s", layout="C"):
        self.full, self.f, self.flat, self.kind, self.layout = tuple(shape), f, flat, kind, layout

    @property
    def shape(self):
        if not self.flat:
            return self.full
        n = 1
        for s in self.full:
            n = T.mul(n, s)
        return (n,)

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: Strings(s.full, s.f, "C").shape[0])

    def __len__(self):
        raise Y.Mismatch("length of a symbolic array")

    def ravel(self, order="C"):
        if len(self.full) < 2 or self.flat:
            return self
        if order in ("K", "A"):
            order = "F" if Y.EX.fork(T.eq(self.layout, 1)) else "C"
        if order not in ("C", "F"):
            raise Y.Mismatch("order")
        return Strings(self.full, self.f, order, self.kind)
    flatten = ravel

    def copy(self, order="C"):
        return self

    def at(self, k):
        """k-th element of a flat array"""
        return self.f(*unlinear(self.flat, k, self.full)) if self.flat else self.f(k)

    def reshape(self, *sh, order="C"):
        sh = tuple(sh[0]) if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
        if len(sh) == 1 and isinstance(sh[0], int) and sh[0] == -1:
            return self.ravel(order)
        if order not in ("C", "F") or not Y.same_shape(tuple(sh), self.full):
            raise Y.Mismatch("reshape")
        if not self.flat:
            return self
        if order == self.flat:
            return Strings(self.full, self.f, None, self.kind)
        return Strings(self.full, lambda *i: self.at(linear(order, i, self.full)), None, self.kind)


class LabelEncoder:
    """scikit-learn's contract: after fit(v), transform numbers the distinct labels of v in increasing order and inverse_transform undoes it"""

    def __init__(self):
        k = T.CTX.nenc = getattr(T.CTX, "nenc", 0) + 1
        self.code = z3.Function(f"code{k}", z3.IntSort(), z3.IntSort())
        self.label = z3.Function(f"label{k}", z3.IntSort(), z3.IntSort())
        self.fitted = None

    def fit(self, v):
        if v.ndim != 1:
            raise ValueError("y should be a 1d array")
        self.fitted = v
        return self

    def transform(self, v):
        if v.ndim != 1:
            raise ValueError("y should be a 1d array")
        if self.fitted is None:
            raise Y.Mismatch("not fitted")

        def f(*i):
            s = v.f(*i)
            Y.EX.assume(T.eq(self.label(self.code(s)), s))
            return self.code(s)
        return Strings(v.full, f, v.flat, "c")

    def fit_transform(self, v):
        return self.fit(v).transform(v)

    def inverse_transform(self, c):
        if c.ndim != 1 or c.kind != "c":
            raise ValueError("y should be a 1d array")
        return Strings(c.full, lambda *i: self.label(c.f(*i)), c.flat)


def load(**extra):
    np_ = M.NpInt()
    shims = dict(onp=np_, jnp=np_, np=np_, int=M.SymInt, pd=Pd(), LabelEncoder=LabelEncoder,
                 datetime=SimpleNamespace(datetime=Date, timedelta=_dt.timedelta), **extra)
    return Y.load("wax.encode", Y.Hooks(None), shims)


def intvar(name, dt):
    v = z3.Int(name)
    Y.EX.assume(M.fits(v, dt))
    return v


def isint(x, dt):
    return isinstance(x, M.MI) and x.dt == dt


def keyed(ob, what, c, v):
    """c is the key of the integer v"""
    ok = isinstance(c, M.MA) and c.shape == (2,) and c.dt == "uint32"
    ob(f"{what}: two words of type uint32", ok)
    if ok:
        ob(f"{what}: high word", T.eq(c.f(0), (v / W) % W))
        ob(f"{what}: low word", T.eq(c.f(1), v % W))


def key_of(v):
    return M.small([(v / W) % W, v % W], "uint32")


FILE = "src/wax/encode.py:"


def real():
    import wax.encode as E
    return E


def rint(rng):
    k = rng.integers(0, 7)
    if k == 0:
        return int(rng.integers(-5, 6))
    if k == 1:
        return int(rng.integers(-3, 4)) * W + int(rng.integers(-3, 4))
    if k == 2:
        return int(rng.choice([LO, LO + 1, HI, HI - 1, W - 1, W, -W, -W - 1, 1 << 31, -(1 << 31), (1 << 31) - 1, (1 << 63) - W, LO + W]))
    if k == 3:
        return int(rng.integers(-(1 << 20), 1 << 20)) * DAY // 16
    b = int(rng.integers(1, 64))
    return int(rng.integers(-(1 << (b - 1)), (1 << (b - 1)) - 1))


def rdate(rng, nat=True):
    """nanoseconds of a date whose day can be represented"""
    if nat and rng.integers(0, 8) == 0:
        return M.NAT
    k = rng.integers(0, 4)
    if k == 0:
        return int(rng.integers(-106751, 106752)) * DAY + int(rng.choice([-1, 0, 1, 5])) if rng.integers(0, 2) else int(rng.integers(-2, 3)) * DAY + int(rng.integers(-2, 3))
    if k == 1:
        return int(rng.integers(-10**6, 10**6))
    return int(rng.integers(-106751 * DAY, HI))


# ------------------------------------------------------------------------------------------------ integers
def int_cases(P):
    out = []

    def enc(kind):
        def scenario(ob, plan):
            dt = {"py": "int64", "0d": "int64"}.get(kind, kind)
            v = intvar("seed", dt)
            x = M.MI("py", v) if kind == "py" else M.MA((), "int64", lambda: v) if kind == "0d" else M.MI(kind, v)
            keyed(ob, "key", load().encode_int64(x), v)

        def concrete(rng):
            v = rint(rng)
            if kind == "int32":
                v = np.int32((v + (1 << 31)) % W - (1 << 31))
            elif kind == "uint32":
                v = np.uint32(v % W)
            x = v if kind == "py" else np.array(v, np.int64) if kind == "0d" else np.int64(v) if kind == "int64" else v
            c = real().encode_int64(x)
            if not (c.shape == (2,) and c.dtype == np.uint32 and int(c[0]) == (int(v) >> 32) % W and int(c[1]) == int(v) % W):
                return dict(call="encode_int64", seed=repr(x), got=np.asarray(c).tolist())
        return HostCase(P, f"encode_int64.{kind}", [FILE + "encode_int64"], scenario, concrete)
    out += [enc(k) for k in ("py", "int64", "int32", "uint32", "0d")]

    def dec(kind):
        def scenario(ob, plan):
            h, lo = intvar("high", "uint32"), intvar("low", "uint32")
            r = load().decode_int64(M.small([h, lo], "uint32") if kind == "array" else (M.MI("uint32", h), M.MI("uint32", lo)))
            ok = isint(r, "py")
            ob("a Python integer", ok)
            if ok:
                ob("within 64 bits", M.fits(r.v, "int64"))
                ob("low word", T.eq(r.v % W, lo))
                ob("high word", T.eq((r.v / W) % W, h))

        def concrete(rng):
            v = rint(rng)
            c = np.array([(v >> 32) % W, v % W], np.uint32)
            r = real().decode_int64(c if kind == "array" else tuple(c))
            if not (type(r) is int and r == v):
                return dict(call="decode_int64", code=c.tolist(), got=repr(r))
        return HostCase(P, f"decode_int64.{kind}", [FILE + "decode_int64"], scenario, concrete)
    out += [dec("array"), dec("pair")]

    def round_trip(ob, plan):
        v = intvar("v", "int64")
        m = load()
        r = m.decode_int64(m.encode_int64(M.MI("py", v)))
        ob("decode(encode(v)) = v", And(isint(r, "py"), T.eq(r.v, v)) if isint(r, "py") else False)
        h, lo = intvar("high", "uint32"), intvar("low", "uint32")
        c = m.encode_int64(m.decode_int64(M.small([h, lo], "uint32")))
        ob("encode(decode(c)) = c", And(T.eq(c.f(0), h), T.eq(c.f(1), lo)) if isinstance(c, M.MA) and c.shape == (2,) else False)

    def c_round(rng):
        v = rint(rng)
        r = real().decode_int64(real().encode_int64(v))
        if r != v:
            return dict(call="decode_int64(encode_int64(v))", v=v, got=r)
    out.append(HostCase(P, "int64.round_trip", [FILE + "encode_int64", FILE + "decode_int64"], round_trip, c_round))

    def less(ob, plan):
        a, b = intvar("a", "int64"), intvar("b", "int64")
        m = load()
        r = m.less(key_of(a), key_of(b))
        ob("less(key(a), key(b)) iff a < b", T.Iff(Y.unwrap(r)[1], T.lt(a, b)))

    def c_less(rng):
        a, b = rint(rng), rint(rng)
        if rng.integers(0, 4) == 0:
            b = a + int(rng.integers(-1, 2))
            b = min(max(b, LO), HI)
        E = real()
        r = bool(E.less(E.encode_int64(a), E.encode_int64(b)))
        if r != (a < b):
            return dict(call="less(encode_int64(a), encode_int64(b))", a=a, b=b, got=r)
    out.append(HostCase(P, "less", [FILE + "less"], less, c_less))

    def less_words(ob, plan):
        """the keys as JAX or Python integers: two separate words"""
        a, b = intvar("a", "int64"), intvar("b", "int64")
        m = load()
        w = lambda v: (M.MI("uint32", (v / W) % W), M.MI("uint32", v % W))
        ob("less(key(a), key(b)) iff a < b", T.Iff(Y.unwrap(m.less(w(a), w(b)))[1], T.lt(a, b)))
    out.append(HostCase(P, "less.words", [FILE + "less"], less_words, c_less))
    return out


# ------------------------------------------------------------------------------------------------ dates
def date_cases(P):
    out = []

    def date(unit, name="t", nat=True):
        v = z3.Int(name)
        k = M.NS[unit]
        rng = And(T.lt(LO, T.mul(v, k)), T.le(T.mul(v, k), HI))
        Y.EX.assume(T.Or(T.eq(v, M.NAT), rng) if nat else rng)
        return M.D64(unit, v)

    def ns(d):
        return T.ite(T.eq(d.v, M.NAT), M.NAT, M.inst(d))

    def rd(rng, unit):
        v = rdate(rng)
        return np.datetime64("NaT", unit) if v == M.NAT else np.datetime64(v // M.NS[unit] + (0 if unit == "ns" else 1 if v < 0 and v % M.NS[unit] else 0), unit)

    def same(a, b):
        return (np.isnat(a) and np.isnat(b)) or a == b

    def day0(t):
        if np.isnat(t):
            return t
        return np.datetime64(int(t.astype("<M8[ns]").astype(np.int64)) // DAY * DAY, "ns")

    def dt64(unit):
        def scenario(ob, plan):
            m = load()
            d = date(unit)
            c = m.encode_datetime64(d)
            keyed(ob, "key of the nanoseconds", c, ns(d))
            r = m.decode_datetime64(c)
            ok = isinstance(r, M.D64) and r.unit == "ns"
            ob("decoded type", ok)
            if ok:
                ob("decode(encode(t)) = t, NaT stays NaT", T.eq(r.v, ns(d)))

        def concrete(rng):
            E = real()
            d = rd(rng, unit)
            r = E.decode_datetime64(E.encode_datetime64(d))
            if not (r.dtype == np.dtype("<M8[ns]") and same(r, d)):
                return dict(call="decode_datetime64(encode_datetime64(t))", t=repr(d), got=repr(r))
        return HostCase(P, f"datetime64.{unit}", [FILE + "encode_datetime64", FILE + "decode_datetime64"], scenario, concrete)
    out += [dt64(u) for u in ("ns", "us", "ms", "s", "D")]

    def stamp(ob, plan):
        m = load()
        v = intvar("ns", "int64")
        Y.EX.assume(Not(T.eq(v, M.NAT)))
        c = m.encode_timestamp(Stamp(v))
        keyed(ob, "key", c, v)
        r = m.decode_timestamp(c)
        ob("a timestamp", isinstance(r, Stamp))
        if isinstance(r, Stamp):
            ob("decode(encode(t)) = t", T.eq(r.value.v, v))

    def c_stamp(rng):
        E = real()
        t = _pd.Timestamp(rdate(rng, False))
        r = E.decode_timestamp(E.encode_timestamp(t))
        if not (type(r) is type(t) and r == t):
            return dict(call="decode_timestamp(encode_timestamp(t))", t=repr(t), got=repr(r))
    out.append(HostCase(P, "timestamp", [FILE + "encode_timestamp", FILE + "decode_timestamp"], stamp, c_stamp))

    def dtime(ob, plan):
        m = load()
        us = z3.Int("us")
        Y.EX.assume(And(T.lt(LO, T.mul(us, 1000)), T.le(T.mul(us, 1000), HI)))
        c = m.encode_datetime(Date(us))
        keyed(ob, "key", c, T.mul(us, 1000))
        r = m.decode_datetime(c)
        ob("a datetime", isinstance(r, Date))
        if isinstance(r, Date):
            ob("decode(encode(t)) = t", T.eq(r.us, us))

    def c_dtime(rng):
        E = real()
        t = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=rdate(rng, False) // 1000 + 1)
        r = E.decode_datetime(E.encode_datetime(t))
        if r != t:
            return dict(call="decode_datetime(encode_datetime(t))", t=repr(t), got=repr(r))
    out.append(HostCase(P, "datetime", [FILE + "encode_datetime", FILE + "decode_datetime"], dtime, c_dtime))

    def order(ob, plan):
        """the order of the keys is the order of the dates"""
        m = load()
        a, b = date("ns", "a", nat=False), date("ns", "b", nat=False)
        r = m.less(m.encode_datetime64(a), m.encode_datetime64(b))
        ob("less(encode(a), encode(b)) iff a < b", T.Iff(Y.unwrap(r)[1], T.lt(a.v, b.v)))

    def c_order(rng):
        E = real()
        a, b = (np.datetime64(rdate(rng, False), "ns") for _ in range(2))
        r = bool(E.less(E.encode_datetime64(a), E.encode_datetime64(b)))
        if r != bool(a < b):
            return dict(call="less(encode_datetime64(a), encode_datetime64(b))", a=str(a), b=str(b), got=r)
    out.append(HostCase(P, "dates.order", [FILE + "less", FILE + "encode_datetime64"], order, c_order))

    # ------------------------------------------------------------------------------- floor
    def floored(ob, v, r):
        ob("NaT stays NaT", T.Implies(T.eq(v, M.NAT), T.eq(r, M.NAT)))
        ok = Not(T.eq(v, M.NAT))
        ob("start of a day", T.Implies(ok, T.eq(r % DAY, 0)))
        ob("not after", T.Implies(ok, T.le(r, v)))
        ob("less than a day before", T.Implies(ok, T.lt(v, T.add(r, DAY))))

    def okday(v, k=1):
        """the start of the day can be represented"""
        return T.Or(T.eq(v, M.NAT), And(T.le(-106751 * DAY, T.mul(v, k)), T.le(T.mul(v, k), HI)))

    def floor_dt(unit, arr):
        def scenario(ob, plan):
            m = load()
            if arr:
                f = z3.Function("t", z3.IntSort(), z3.IntSort())
                n, k = z3.Int("n"), z3.Int("k")
                Y.EX.assume(And(T.le(1, n), T.le(0, k), T.lt(k, n)))

                def el(i):
                    v = f(i)
                    Y.EX.assume(okday(v, M.NS[unit]))
                    return v
                r = m.floor_datetime(M.MA((n,), f"<M8[{unit}]", el))
                ok = isinstance(r, M.MA) and r.ndim == 1 and Y.same_shape(r.shape, (n,))
                ob("one result for every date", ok)
                if ok:
                    floored(ob, ns(M.D64(unit, el(k))), ns(r.elem(k)))
            else:
                v = z3.Int("t")
                Y.EX.assume(okday(v, M.NS[unit]))
                r = m.floor_datetime(M.D64(unit, v))
                if isinstance(r, M.MA) and r.ndim == 0:
                    r = r.elem()
                ob("a date", isinstance(r, M.D64))
                if isinstance(r, M.D64):
                    floored(ob, ns(M.D64(unit, v)), ns(r))

        def concrete(rng):
            E = real()
            vs = [rd(rng, unit) for _ in range(int(rng.integers(1, 5)))]
            vs = [x if np.isnat(x) or x.astype("<M8[ns]").astype(int) >= -106751 * DAY else np.datetime64("NaT", unit) for x in vs]
            t = np.array(vs, f"<M8[{unit}]") if arr else vs[0]
            r = E.floor_datetime(t)
            if np.shape(r) != np.shape(t) or not all(same(x, day0(y)) for x, y in zip(np.asarray(r).ravel(), np.asarray(t).ravel())):
                return dict(call="floor_datetime", t=repr(t), got=repr(r))
        return HostCase(P, f"floor_datetime.{unit}.{'array' if arr else 'scalar'}", [FILE + "floor_datetime"], scenario, concrete)
    out += [floor_dt(u, a) for u in ("ns", "us", "s") for a in (False, True)]

    def floor_key(ob, plan):
        m = load()
        v = intvar("t", "int64")
        Y.EX.assume(okday(v))
        key = key_of(v)
        own = m.decode_int64
        m.decode_int64 = lambda c: M.MI("py", v) if c is key else own(c)  # by the contract of decode_int64
        r = m.floor_jax_datekey(key)
        fl = T.ite(T.eq(v, M.NAT), M.NAT, T.mul(v / DAY, DAY))
        keyed(ob, "key of the start of the day", r, fl)
        floored(ob, v, fl)

    def c_floor_key(rng):
        import jax.numpy as jnp
        E = real()
        t = np.datetime64(max(rdate(rng), -106751 * DAY), "ns") if rng.integers(0, 5) else np.datetime64("NaT", "ns")
        r = E.decode_datetime64(np.array(E.floor_jax_datekey(jnp.array(E.encode_datetime64(t)))))
        if not same(r, day0(t)):
            return dict(call="decode_datetime64(floor_jax_datekey(encode_datetime64(t)))", t=str(t), got=str(r))
    out.append(HostCase(P, "floor_jax_datekey", [FILE + "floor_jax_datekey"], floor_key, c_floor_key))

    # ------------------------------------------------------------------------------- arrays of dates
    def arrays(unit):
        def scenario(ob, plan):
            m = load()
            f = z3.Function("t", z3.IntSort(), z3.IntSort())
            n, k = z3.Int("n"), z3.Int("k")
            Y.EX.assume(And(T.le(1, n), T.le(0, k), T.lt(k, n)))
            kk = M.NS[unit]

            def el(i):
                v = f(i)
                Y.EX.assume(T.Or(T.eq(v, M.NAT), And(T.lt(LO, T.mul(v, kk)), T.le(T.mul(v, kk), HI))))
                return v
            vals = M.MA((n,), f"<M8[{unit}]", el)
            e = m.datetime64_encoder(vals)
            c = e.encode(vals)
            ok = isinstance(c, M.MA) and c.ndim == 2 and Y.same_shape(c.shape, (n, 2)) and c.dt == "uint32"
            ob("one key for every date", ok)
            if not ok:
                return
            v = ns(M.D64(unit, el(k)))
            ob("high word of an arbitrary element", T.eq(c.f(k, 0), (v / W) % W))
            ob("low word of an arbitrary element", T.eq(c.f(k, 1), v % W))
            d = e.decode(c)
            ok = isinstance(d, M.MA) and d.ndim == 1 and Y.same_shape(d.shape, (n,)) and d.dt in ("datetime64[ns]", "<M8[ns]")
            ob("as many dates as encoded", ok)
            if ok:
                ob("arbitrary element comes back, NaT as NaT", T.eq(d.f(k), v))

        def concrete(rng):
            E = real()
            t = np.array([rd(rng, unit) for _ in range(int(rng.integers(1, 6)))], f"<M8[{unit}]")
            e = E.datetime64_encoder(t)
            r = e.decode(e.encode(t))
            if r.shape != t.shape or not all(same(a, b) for a, b in zip(r, t)):
                return dict(call="datetime64_encoder: decode(encode(t))", t=repr(t), got=repr(r))
        return HostCase(P, f"datetime64_encoder.{unit}", [FILE + "datetime64_encoder"], scenario, concrete)
    out += [arrays("ns"), arrays("us")]
    return out


# ------------------------------------------------------------------------------------------------ strings, datasets
def string_cases(P):
    out = []

    def strings(nd):
        def scenario(ob, plan):
            m = load()
            f = z3.Function("s", *[z3.IntSort()] * nd, z3.IntSort())
            sh = [z3.Int(f"n{k}") for k in range(nd)]
            ix = [z3.Int(f"i{k}") for k in range(nd)]
            jx = [z3.Int(f"j{k}") for k in range(nd)]
            Y.EX.assume(And(*[And(T.le(0, i), T.lt(i, n)) for i, n in zip(ix + jx, sh + sh)]))
            v = Strings(sh, f, layout=z3.Int("column_major"))
            e = m.string_encoder(v)
            c = e.encode(v)
            ok = isinstance(c, Strings) and c.kind == "c" and c.ndim == 1
            ob("one code for every string", ok)
            if not ok:
                return
            ob("equal strings, equal codes; different strings, different codes", T.Iff(T.eq(c.f(*ix), c.f(*jx)), T.eq(f(*ix), f(*jx))))
            d = e.decode(c)
            ok = isinstance(d, Strings) and d.kind == "s" and Y.same_shape(d.shape, tuple(sh)) and not d.flat
            ob("decoded array has the original shape", ok)
            if ok:
                ob("decode(encode(a)) = a", T.eq(d.f(*ix), f(*ix)))

        def concrete(rng):
            sh = tuple(int(x) for x in rng.integers(1, 5, nd))
            v = np.array(["a", "bb", "B", "", "é", "10", "9"])[rng.integers(0, 7, sh)]
            v = np.array(v, order="CF"[rng.integers(0, 2)])
            e = real().string_encoder(v)
            keep = v.copy()
            c = e.encode(v)
            r = e.decode(c)
            if r.shape != v.shape or not (r == keep).all() or not (v == keep).all() or not (np.asarray(c).size == v.size):
                return dict(call="string_encoder: decode(encode(a))", a=keep.tolist(), got=r.tolist())
        return HostCase(P, f"string_encoder.{nd}d", [FILE + "string_encoder"], scenario, concrete)
    out += [strings(k) for k in (1, 2, 3)]

    # encode_dataset / decode_dataset: loop invariant over the variables seen so far
    def dataset(which):
        def scenario(ob, plan):
            inenc = z3.Function("encoded", z3.IntSort(), z3.BoolSort())
            n = z3.Int("n")
            Y.EX.assume(T.le(0, n))

            class Key:
                def __init__(self, i):
                    self.i = i

                def __eq__(self, o):
                    return isinstance(o, Key) and o.i is self.i

                def __hash__(self):
                    return 1

            class Enc:
                def __init__(self, key):
                    self.key = key

                def encode(self, v):
                    return Tok("encode", v)

                def decode(self, v):
                    return Tok("decode", v)

            class Encs:
                def __contains__(self, k):
                    if not isinstance(k, Key):
                        raise Y.Mismatch("key")
                    return bool(Y.EX.fork(inenc(k.i)))

                def __getitem__(self, k):
                    if not k in self:
                        raise KeyError(k)
                    return Enc(k)

                def get(self, k, d=None):
                    return self[k] if k in self else d

                def keys(self):
                    return self

            class Data:
                def items(self):
                    return Y.SymSeq(n, lambda i: (Key(i), Tok("var", str(i))))

            class H:
                L = None

                def enter(self, L, loc):
                    if self.L is not None:
                        raise Y.Mismatch("a second loop")
                    self.L = L
                    ds = {nm: v for nm, v in loc.items() if type(v) is dict and not nm.startswith("__wv")}
                    ob("before the loop the result is empty", all(not v for v in ds.values()))
                    if len(ds) != 1:
                        raise Y.Mismatch("result of the loop")
                    (self.nm, self.g), = ds.items()  # from here: what this iteration writes
                    return {}

                def back(self, L, loc):
                    ok = len(self.g) == 1 and loc[self.nm] is self.g
                    ob("exactly one variable is written by one iteration", ok)
                    if ok:
                        (k, v), = self.g.items()
                        i = L.idx
                        ob("under its own name", isinstance(k, Key) and k.i is i)
                        x = Tok("var", str(i))
                        ob("encoded iff it has an encoder, otherwise unchanged", T.ite(inenc(i), v == Tok(which, x), v == x))
            h = H()
            m = Y.load("wax.encode", Y.Hooks(h), {})
            r = getattr(m, which + "_dataset")(Encs(), Data())
            ob("the result is what the loop built", r is getattr(h, "g", 0) and not h.g)

        def concrete(rng):
            E = real()
            names = [f"v{k}" for k in range(int(rng.integers(0, 5)))]
            encs = {k: E.Encoder(lambda v, k=k: ("encode", k, v), lambda v, k=k: ("decode", k, v)) for k in names if rng.integers(0, 2)}
            encs["other"] = E.Encoder(lambda v: 1 / 0, lambda v: 1 / 0)
            data = {k: object() for k in names}
            r = getattr(E, which + "_dataset")(dict(encs), dict(data))
            want = {k: (which, k, v) if k in encs else v for k, v in data.items()}
            if dict(r) != want or list(r) != list(want):
                return dict(call=which + "_dataset", names=names, encoders=list(encs), got=repr(r))
        return HostCase(P, which + "_dataset", [FILE + which + "_dataset"], scenario, concrete)
    out += [dataset("encode"), dataset("decode")]
    return out


def cases(P, tier):
    return int_cases(P) + date_cases(P) + string_cases(P)
