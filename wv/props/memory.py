"""wax.flax.modules.compressed_buffer, wax.flax.core.advanced_state_patterns: memories and compositions of states."""
import itertools

import numpy as np
import z3

from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Tok

C = "src/wax/flax/modules/compressed_buffer.py:"
A = "src/wax/flax/core/advanced_state_patterns.py:"
ROW = z3.DeclareSort("Row")


# ------------------------------------------------------------------------------------------------------- arrays, by contract
def integer(name, lo=0):
    v = z3.Int(name)
    Y.EX.assume(v >= lo)
    return Y.wrap("i", v)


def iv(x):
    k, v = Y.unwrap(x)
    if k != "i":
        raise Y.Mismatch("not an integer")
    return v


class Rows:
    """an array whose row i is f(i)"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    shape = property(lambda s: (Y.wrap("i", s.n),))

    def wv_seq(self):
        return Y.SymSeq(self.n, lambda i: self.f(i))

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if i and all(x is None or x == slice(None) for x in i) and sum(x is None for x in i) == 1 and i[0] is None:
                return Batch(self)
            raise Y.Mismatch("indexing")
        if isinstance(i, Ints):
            return Rows(i.n, lambda k: self.f(i.f(k)))
        if isinstance(i, slice):
            if i.step is not None:
                raise Y.Mismatch("slice with a step")
            a = 0 if i.start is None else iv(i.start)
            b = self.n if i.stop is None else iv(i.stop)
            for e in (a, b):        # bounds of slices are within the array, or the slice means something else
                if not Y.EX.fork(T.And(T.le(0, e), T.le(e, self.n))):
                    raise Y.Mismatch("slice beyond the array")
            return Rows(T.imax(T.sub(b, a), 0), lambda k: self.f(T.add(k, a)))
        return self.f(iv(i))

    class _At:
        def __init__(self, a, i):
            self.a, self.i = a, i

        def set(self, v):
            a, i = self.a, self.i
            if not Y.EX.fork(T.And(T.le(0, i), T.lt(i, a.n))):
                raise Y.Mismatch("row beyond the array")
            v = v.row if isinstance(v, Emb) else v
            return Rows(a.n, lambda k: z3.If(T.zb(T.eq(k, i)), v, a.f(k)))

    class _Ats:
        def __init__(self, a):
            self.a = a

        def __getitem__(self, i):
            return Rows._At(self.a, iv(i))

    at = property(lambda s: Rows._Ats(s))


class Batch:
    """rows with a leading axis of one"""

    def __init__(self, rows):
        self.rows = rows


class Ints:
    """an array of integers"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def _op(self, g, o):
        if isinstance(o, Ints):
            return Ints(self.n, lambda k: g(self.f(k), o.f(k)))
        o = iv(o)
        return Ints(self.n, lambda k: g(self.f(k), o))

    def __add__(self, o):
        return self._op(T.add, o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(T.sub, o)

    def __mod__(self, o):
        return self._op(T.floormod, o)


class Emb:
    """an arbitrary vector"""

    def __init__(self, how, row=None):
        self.how, self.row = how, row

    def __getitem__(self, i):
        if i == (None, None, slice(None)):
            return Emb(("batched", self.how))
        if i in ((0, 0, slice(None)), (0, 0)) and self.how[0] == "attended":
            return Emb(("context", self.how))
        raise Y.Mismatch("indexing of a vector")

    def __mul__(self, o):
        return Emb(("times", float(o), self.how))

    __rmul__ = __mul__

    def __add__(self, o):
        return Emb(("plus", self.how, o.how))


def same_rows(ob, nm, got, want):
    """the same array, at an arbitrary row"""
    if not isinstance(got, Rows):
        ob(nm, False)
        return
    i = z3.Int("arbitrary row")
    ins = [z3.And(i >= 0, i < T.zi(want.n))]
    g = T.And(T.eq(got.n, want.n), T.eq(got.f(i), want.f(i)) if not isinstance(got.f(i), bool) else False)
    ob(nm, g, ins)


class Jnp:
    ndarray = type("ndarray", (), {})
    int32 = None

    @staticmethod
    def roll(a, s, axis=None):
        if not isinstance(a, Rows) or axis not in (0,):
            raise Y.Mismatch("roll")
        s = iv(s)
        return Rows(a.n, lambda k: a.f(T.floormod(T.sub(k, s), a.n)))

    @staticmethod
    def arange(n):
        return Ints(iv(n), lambda k: k)

    @staticmethod
    def concatenate(xs, axis=0):
        a, b = xs
        if axis != 0 or not isinstance(a, Rows) or not isinstance(b, Rows):
            raise Y.Mismatch("concatenate")
        return Rows(T.add(a.n, b.n), lambda k: z3.If(T.zb(T.lt(k, a.n)), a.f(k), b.f(T.sub(k, a.n))))

    def __getattr__(self, nm):
        raise Y.Mismatch("jax.numpy." + nm)


class Var:
    def __init__(self, v):
        self.value = v


class BufStub:
    """the ring buffer of A02: holds the last maxlen inputs; called, it adds its input and returns them oldest first"""

    def __init__(self, maxlen, fill_value=None, return_state=False):
        self.maxlen, self.fill, self.pushed = maxlen, fill_value, []
        R = z3.Function("storage", z3.IntSort(), ROW)
        L, w = iv(maxlen), integer("rows written")
        self.raw = Rows(L, lambda k: R(T.zi(k)))
        self.w = w
        start = T.floormod(iv(w), L)
        self.content = Rows(L, lambda k: R(T.zi(T.floormod(T.add(k, start), L))))

    def __call__(self, x):
        self.pushed.append(x)
        return Tok("content after", x)

    @property
    def variables(self):
        if self.pushed:
            raise Y.Mismatch("the storage is read after an addition")
        return {"state": {"buffer": self.raw, "write_idx": self.w, "len_buffer": Tok("length")}}


def plain(cls, fields, store):
    """an instance of a module class with the given fields, whose methods are its own text"""
    ns = {k: getattr(v, "__wrapped__", v) if callable(v) else v for k, v in vars(cls).items() if not k.startswith("__") or k == "__call__"}
    ns = {k: v for k, v in ns.items() if not k.startswith("_") or k.startswith("_") and callable(v) and not k.startswith("_flax") and not k.startswith("__") or k == "__call__"}

    def variable(self, col, name, init=None, *a):
        if name not in self.vars_:
            self.vars_[name] = Var(store[name] if name in store else init(*a))
            self.inits_[name] = init
        return self.vars_[name]
    ns.update(variable=variable)
    o = object.__new__(type("Plain" + cls.__name__, (object,), ns))
    o.vars_, o.inits_ = {}, {}
    for k, v in fields.items():
        setattr(o, k, v)
    return o


def load(mod, handler=None, **sh):
    return Y.load("wax.flax." + mod, Y.Hooks(handler), dict(jnp=Jnp(), streaming_transform_with_state=lambda f: f, cast=lambda t, x: x, **sh))


# ------------------------------------------------------------------------------------------------------- compressed buffers
def level(m, compression, params=None, maxlen=None, store=None, fill=None):
    o = plain(m.CompressedBuffer, dict(maxlen=maxlen if maxlen is not None else integer("maxlen", 1), compression=compression, compression_params=params,
                                       fill_value=fill if fill is not None else Tok("fill")), store or {})
    o.setup()
    return o


def compressed_cases(P):
    out = []
    X = z3.Const("input", ROW)

    def none(ob, plan):
        m = load("modules.compressed_buffer", Buffer=BufStub)
        o = level(m, "none")
        b = o.uncompressed_buffer
        ob("a buffer of its length and filling", T.And(T.eq(iv(b.maxlen), iv(o.maxlen)), b.fill == Tok("fill")))
        same_rows(ob, "what it holds, without adding to it", o.current(), b.content)
        x = Tok("x")
        r = o(x)
        ob("each input is added once and the content returned", b.pushed == [x] and r == Tok("content after", x))
    out.append(HostCase(P, "CompressedBuffer.none", [C + "CompressedBuffer._no_compression_update", C + "CompressedBuffer.current"], none, lambda rng: level_real(rng, "none")))

    def down(ob, plan):
        for given in (True, False):
            m = load("modules.compressed_buffer", Buffer=BufStub)
            f = integer("factor", 1) if given else 2
            c = integer("inputs so far")
            o = level(m, "downsample", {"factor": f} if given else None, store={"sample_counter": c})
            b = o.downsampled_buffer
            ob("a buffer of maxlen/factor rows, one at least", T.And(T.eq(iv(b.maxlen), T.imax(iv(o.maxlen // f), 1)), b.fill == Tok("fill")))
            ob("starts at the first input", eq_i(o.inits_["sample_counter"](), 0))
            same_rows(ob, "what it holds, without adding to it", o.current(), b.content)
            x = Tok("x")
            r = o(x)
            due = T.eq(T.floormod(iv(c), iv(f)), 0)
            ob("every factor-th input is added, once", T.Iff(len(b.pushed) == 1, due) if all(y == x for y in b.pushed) and len(b.pushed) < 2 else False)
            if b.pushed:
                ob("its content is returned, oldest first", r == Tok("content after", x))
            else:
                same_rows(ob, "between, its content is returned, oldest first", r, b.content)
            ob("inputs are counted", eq_i(o.vars_["sample_counter"].value, c + 1))
    out.append(HostCase(P, "CompressedBuffer.downsample", [C + "CompressedBuffer._downsample_update", C + "CompressedBuffer._setup_downsample_compression", C + "CompressedBuffer.current"],
                        down, lambda rng: level_real(rng, "downsample")))

    def ewma(ob, plan):
        for given in (True, False):
            made = []

            class Ew:
                def __init__(self, *a, **k):
                    made.append((a, k))
                    self.xs = []

                def __call__(self, x):
                    self.xs.append(x)
                    return Tok("average after", x)
            m = load("modules.compressed_buffer", EWMA=Ew)
            c = integer("inputs so far")
            o = level(m, "ewma", {"alpha": Tok("alpha")} if given else None, store={"compressed": Tok("average"), "count": c})
            ob("the average of its rate", made == [((), {"alpha": Tok("alpha") if given else 0.1})])
            ob("what it holds", o.current() == Tok("average"))
            x = Tok("x")
            r = o(x)
            ob("each input is averaged once and the average returned", o.ewma.xs == [x] and r == Tok("average after", x))
            ob("the average is what it holds from then on", o.vars_["compressed"].value == r and o.current() == r)
            ob("inputs are counted", eq_i(o.vars_["count"].value, c + 1))
    out.append(HostCase(P, "CompressedBuffer.ewma", [C + "CompressedBuffer._ewma_update", C + "CompressedBuffer._setup_ewma_compression", C + "CompressedBuffer.current"], ewma, lambda rng: level_real(rng, "ewma")))

    out.append(HostCase(P, "CompressedBuffer.quantile", [C + "CompressedBuffer._quantile_update", C + "CompressedBuffer._setup_quantile_compression", C + "CompressedBuffer.current"],
                        quantile, lambda rng: level_real(rng, "quantile")))
    out.append(HostCase(P, "CompressedBuffer.sketching", [C + "CompressedBuffer._sketching_update", C + "CompressedBuffer._setup_sketching_compression", C + "CompressedBuffer.current"],
                        sketch, lambda rng: level_real(rng, "sketching")))

    def hierarchy(ob, plan):
        kinds = ("ewma", "quantile", "downsample", "sketching", "none")
        for mk, lk in itertools.product(kinds, kinds):
            class Level:
                def __init__(self, **k):
                    self.k, self.xs = k, []

                def __call__(self, x):
                    self.xs.append(x)
                    return Tok("level after", id(self), x)

                def current(self):
                    if self.xs:
                        raise Y.Mismatch("read after an addition")
                    return Tok("level now", id(self))
            m = load("modules.compressed_buffer", Buffer=BufStub, CompressedBuffer=Level)
            n = {k: integer(k, 1) for k in ("recent_maxlen", "medium_maxlen", "long_maxlen")}
            mc, lc = integer("medium so far"), integer("long so far")
            o = plain(m.HierarchicalBuffer, dict(n, medium_compression=mk, long_compression=lk, fill_value=Tok("fill")), {"medium_counter": mc, "long_counter": lc})
            o.setup()
            tag = f"{mk}.{lk}"
            for b, L, k, al in ((o.medium_buffer, "medium_maxlen", mk, .1), (o.long_buffer, "long_maxlen", lk, .01)):
                ob(f"{tag}/{L}: a level of its length, compression and filling", b.k["maxlen"] is n[L] and b.k["compression"] == k and b.k["fill_value"] == Tok("fill") and
                   b.k.get("compression_params") == ({"alpha": al} if k == "ewma" else None))
            ob(f"{tag}/recent: a buffer of its length and filling", o.recent_buffer.maxlen is n["recent_maxlen"] and o.recent_buffer.fill == Tok("fill"))
            ob(f"{tag}/all levels start at the first input", eq_i(o.inits_["medium_counter"](), 0) and eq_i(o.inits_["long_counter"](), 0))
            x = Tok("x")
            r = o(x)
            ob(f"{tag}/each input is added to the recent ones", o.recent_buffer.pushed == [x] and r["recent"] == Tok("content after", x) and r["input"] is x and set(r) == {"recent", "medium", "long", "input"})
            for nm, b, c, every in (("medium", o.medium_buffer, mc, 5), ("long", o.long_buffer, lc, 50)):
                due = T.eq(T.floormod(iv(c), every), 0)
                ob(f"{tag}/{nm}: every {every}-th input is added, once", T.Iff(len(b.xs) == 1, due) if all(y == x for y in b.xs) and len(b.xs) < 2 else False)
                ob(f"{tag}/{nm}: what it holds is returned at every step", r[nm] == (Tok("level after", id(b), x) if b.xs else Tok("level now", id(b))))
                ob(f"{tag}/{nm}: inputs are counted", eq_i(o.vars_[nm + "_counter"].value, c + 1))
    out.append(HostCase(P, "HierarchicalBuffer", [C + "HierarchicalBuffer.setup", C + "HierarchicalBuffer.__call__"], hierarchy, lambda rng: hierarchy_real(rng), max_paths=4000))

    def decorators(ob, plan):
        for nargs, nk in ((1, 0), (2, 0), (1, 1), (0, 1), (0, 2)):
            made = []

            class Level:
                def __init__(self, **k):
                    made.append(k)

                def __call__(self, x):
                    return Tok("memory of", x)
            m = load("modules.compressed_buffer", CompressedBuffer=Level, HierarchicalBuffer=Level)
            xs, kw = tuple(Tok("x", k) for k in range(nargs)), {f"k{j}": Tok("k", j) for j in range(nk)}
            first = xs[0] if xs else kw["k0"]
            for nm, opts in (("streaming_compressed_memory", dict(maxlen=Tok("n"), compression=Tok("c"), compression_params=Tok("p"))),
                             ("streaming_hierarchical_memory", dict(recent_maxlen=Tok("a"), medium_maxlen=Tok("b"), long_maxlen=Tok("c"), medium_compression=Tok("d"), long_compression=Tok("e")))):
                del made[:]
                calls = []

                def fn(*a, **k):
                    calls.append((a, k))
                    return Tok("result")
                r = getattr(m, nm)(**opts)(fn)(*xs, **kw)
                ob(f"{nm}.{nargs}.{nk}/a memory with the options given", made == [opts])
                ob(f"{nm}.{nargs}.{nk}/the function gets the memory of the first input, and the inputs", r == Tok("result") and calls == [((Tok("memory of", first), *xs), kw)])
    out.append(HostCase(P, "streaming_memory", [C + "streaming_compressed_memory", C + "streaming_hierarchical_memory"], decorators))
    return out


def eq_i(a, b):
    g = T.eq(iv(a), iv(b))
    return g


def quantile(ob, plan):
    """the estimates are the interpolated percentiles of the values held that are not NaN, renewed every tenth input"""
    S = z3.Function("value held, in order", z3.IntSort(), z3.RealSort())
    K = z3.Int("which percentile")
    pk = z3.Function("percentile", z3.IntSort(), z3.RealSort())

    class Reals:
        """one number for every percentile, by index"""

        def __init__(self, f):
            self.f = f

        def _op(self, o, g):
            return Reals(lambda k: g(self.f(k), o.f(k) if isinstance(o, Reals) else T.toreal(iv(o))))

        def __mul__(self, o):
            return self._op(o, lambda a, b: a * b)

        __rmul__ = __mul__

        def __add__(self, o):
            return self._op(o, lambda a, b: a + b)

        def __sub__(self, o):
            return self._op(o, lambda a, b: a - b)

        def __rsub__(self, o):
            return Reals(lambda k: T.toreal(iv(o)) - self.f(k))

        def astype(self, t):
            if t != "int32":
                raise Y.Mismatch("conversion")
            return Reals(lambda k: z3.ToReal(z3.ToInt(self.f(k))))      # these are whole already

    class Held:
        def __getitem__(self, i):
            if not isinstance(i, Mask) or i.neg is not True:
                raise Y.Mismatch("selection")
            return Selected()

    class Mask:
        def __init__(self, neg):
            self.neg = neg

        def __invert__(self):
            return Mask(not self.neg)

    class Selected:
        pass

    class Ordered:
        def wv_seq(self):
            return Y.SymSeq(iv(count), lambda i: None)

        shape = property(lambda s: (count,))

        def __getitem__(self, i):
            if not isinstance(i, Reals):
                raise Y.Mismatch("selection")
            return Reals(lambda k: S(z3.ToInt(i.f(k))))

    class J(Jnp):
        int32 = "int32"

        @staticmethod
        def array(x):
            return x if isinstance(x, Reals) else Reals(lambda k: pk(k))

        @staticmethod
        def full(n, v):
            return Tok("filled", v)

        @staticmethod
        def isnan(x):
            if not isinstance(x, Held):
                raise Y.Mismatch("isnan")
            return Mask(False)

        @staticmethod
        def sum(x):
            if not isinstance(x, Mask) or not x.neg:
                raise Y.Mismatch("sum")
            return count

        @staticmethod
        def sort(x):
            if not isinstance(x, Selected):
                raise Y.Mismatch("sort")
            return Ordered()

        @staticmethod
        def floor(x):
            return Reals(lambda k: z3.ToReal(z3.ToInt(x.f(k))))

        @staticmethod
        def ceil(x):
            return Reals(lambda k: -z3.ToReal(z3.ToInt(-x.f(k))))

    class B:
        def __init__(self, maxlen, fill_value=None, **k):
            if k:
                raise Y.Mismatch("buffer")
            self.maxlen, self.fill, self.xs = maxlen, fill_value, []

        def __call__(self, x):
            self.xs.append(x)
            return Held()
    m = load("modules.compressed_buffer", Buffer=B)
    m.jnp = J()
    count, c = integer("values held that are not NaN"), integer("inputs so far")
    old = Tok("estimates so far")
    o = level(m, "quantile", {"percentiles": [Tok("p")]}, store={"quantiles": old, "update_count": c})
    b = o.quantile_buffer
    ob("a buffer of at most a thousand rows", T.And(T.eq(iv(b.maxlen), T.imin(iv(o.maxlen), 1000)), b.fill == Tok("fill")))
    ob("starts at the first input, with the filling", T.And(eq_i(o.inits_["update_count"](), 0), o.inits_["quantiles"]() == Tok("filled", Tok("fill"))))
    ob("what it holds", o.current() is old)
    x = Tok("x")
    r = o(x)
    ob("each input is added once", b.xs == [x])
    ob("inputs are counted", eq_i(o.vars_["update_count"].value, c + 1))
    ob("the estimates are returned", r is o.vars_["quantiles"].value and o.current() is r)
    due = T.And(T.eq(T.floormod(iv(c), 10), 0), T.lt(0, iv(count)))
    ob("renewed every tenth input, where there are values", T.Iff(r is not old, due))
    if r is not old:
        if not isinstance(r, Reals):
            ob("interpolated between the two values around its rank", False)
            return
        n = T.zi(iv(count))
        q = pk(K) * (z3.ToReal(n) - 1)
        lo = z3.ToInt(q)
        hi = -z3.ToInt(-q)
        w = q - z3.ToReal(lo)
        ob("interpolated between the two values around its rank", r.f(K) == (1 - w) * S(lo) + w * S(hi), [z3.And(pk(K) >= 0, pk(K) <= 1)])


def sketch(ob, plan):
    """count-min sketch: one count a hash function and input (there are four hash functions at most)"""
    S = z3.Function("counts so far", z3.IntSort(), z3.IntSort(), z3.IntSort())
    ha, hb = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ("factor of hash", "offset of hash"))

    class Table:
        def __init__(self, f, rows, cols):
            self.f, self.rows, self.cols = f, rows, cols

        class _A:
            def __init__(self, t):
                self.t = t

            def __getitem__(self, ix):
                t = self.t
                i, j = (iv(x) for x in ix)

                class Add:
                    @staticmethod
                    def add(v):
                        v = iv(v)
                        return Table(lambda a, b: t.f(a, b) + z3.If(T.zb(T.And(T.eq(a, i), T.eq(b, j))), T.zi(v), 0), t.rows, t.cols)
                return Add
        at = property(lambda s: Table._A(s))

    class Hashes:
        def __getitem__(self, i):
            i = T.zi(iv(i))
            return Y.wrap("i", ha(i)), Y.wrap("i", hb(i))

    class Num:
        def __mul__(self, o):
            return Tok("input times", o)

        __rmul__ = __mul__

    class J(Jnp):
        @staticmethod
        def int32(x):
            if x != Tok("input times", 1000):
                raise Y.Mismatch("conversion")
            return Y.wrap("i", z3.Int("the input in thousandths"))

        @staticmethod
        def zeros(shape, *a):
            return Tok("zeros", shape)

        @staticmethod
        def array(x):
            return np.array(x)

        @staticmethod
        def min(t, axis=None):
            if not isinstance(t, Table) or axis != 0:
                raise Y.Mismatch("min")
            return Tok("least of", t)
    for nh in (1, 2, 3, 4):
        for given in (True, False) if nh == 4 else (True,):
            m = load("modules.compressed_buffer")
            m.jnp = J()
            nb = integer("buckets", 1) if given else 1024
            t0 = Table(lambda a, b: S(T.zi(a), T.zi(b)), nh, nb)
            o = level(m, "sketching", {"num_hashes": nh, "num_buckets": nb} if given else None, store={"sketch": t0, "hash_params": Hashes()})
            z = o.inits_["sketch"]()
            ob(f"{nh}/starts without counts", z == Tok("zeros", (nh, nb)))
            h = o.inits_["hash_params"]()
            ob(f"{nh}/hash functions that differ", h.shape == (nh, 2) and len({tuple(q) for q in h.tolist()}) == nh)
            cur = o.current()
            ob(f"{nh}/what it holds", cur == Tok("least of", t0))
            r = o(Num())
            t = o.vars_["sketch"].value
            ob(f"{nh}/the summary is the least count over the hash functions", isinstance(t, Table) and r == Tok("least of", t))
            if isinstance(t, Table):
                b = z3.Int("arbitrary bucket")
                for i in range(nh):
                    hit = T.floormod(ha(z3.IntVal(i)) * z3.Int("the input in thousandths") + hb(z3.IntVal(i)), iv(nb))
                    ob(f"{nh}/hash {i}: one more in the bucket of the input, the others unchanged", t.f(i, b) == S(i, b) + z3.If(T.zb(T.eq(b, hit)), 1, 0), [z3.And(b >= 0, b < T.zi(iv(nb)))])


# ------------------------------------------------------------------------------------------------------- attention over the past
def attention_cases(P):
    out = []

    def step(ob, plan):
        for use, kind in itertools.product((True, False, None), ("vector", "numbers")):
            R = z3.Function("row kept", z3.IntSort(), ROW)
            V = z3.Function("entry of the state", z3.IntSort(), z3.RealSort())
            L, E = integer("longest", 1), integer("dimension", 1)
            p, s = integer("pointer"), integer("size")
            Lv, pv, sv = iv(L), iv(p), iv(s)
            # between steps: the rows kept are the first ones until the record is full; then the pointer is at the oldest
            inv = lambda p, s: T.And(T.le(0, p), T.lt(p, Lv), T.le(0, s), T.le(s, Lv), T.Or(T.le(Lv, s), T.eq(p, s)))    # noqa: E731
            Y.EX.assume(inv(pv, sv))

            class Vector:
                def __init__(self, n, f):
                    self.n, self.f = n, f

                def wv_seq(self):
                    return Y.SymSeq(self.n, lambda i: None)

                def __getitem__(self, i):
                    if not isinstance(i, slice) or i.start not in (None, 0) or i.step is not None:
                        raise Y.Mismatch("part of the state")
                    return Vector(T.imin(self.n, iv(i.stop)), self.f)

            class J(Jnp):
                @staticmethod
                def atleast_1d(x):
                    if isinstance(x, Vector):
                        return x
                    raise Y.Mismatch("state")

                @staticmethod
                def pad(x, w, *a, **k):
                    if a or k or not isinstance(x, Vector):
                        raise Y.Mismatch("pad")
                    a, b = w
                    if a != 0:
                        raise Y.Mismatch("pad before")
                    Y.EX.assume(T.le(0, iv(b)))
                    return Vector(T.add(x.n, iv(b)), lambda k: z3.If(T.zb(T.lt(k, x.n)), x.f(k), 0))

                @staticmethod
                def zeros(sh, *a):
                    return Tok("zeros", *[Y.unwrap(x)[1] if isinstance(x, Y.Sc) else x for x in sh])

                @staticmethod
                def ones(n):
                    return Tok("ones", n)

                @staticmethod
                def array(x):
                    return Tok("array", *x)

            enc = []
            new = z3.Const("embedding of this state", ROW)

            class One:
                """1 / n"""

                def __init__(self, n):
                    self.n = n

            class Tk(Tok):
                pass
            m = load("core.advanced_state_patterns")
            J.ones = staticmethod(lambda n: Ones(n))

            class Ones:
                def __init__(self, n):
                    self.n = n

                def __truediv__(self, o):
                    return Ones2(self.n, o)

            class Ones2:
                def __init__(self, n, d):
                    self.n, self.d = n, d
            m.jnp = J()
            o = plain(m.AttentionBasedStateSelector, dict(embed_dim=E, num_heads=4, max_history_length=L),
                      {"history": Rows(Lv, lambda k: R(T.zi(k))), "pointer": p, "size": s})
            o.state_buffer, o.buffer_pointer, o.buffer_size = (o.variable("state", k, None) for k in ("history", "pointer", "size"))

            def encode(v):
                enc.append(v)
                return Emb(("embedding",), new)
            o.state_encoder = encode
            o.query_encoder = lambda v: Emb(("query", v.how))
            att = []

            def attend(q, k, v):
                att.append((q, k, v))
                return Emb(("attended", q.how))
            o.attention = attend
            n = integer("entries", 1)
            x = Vector(iv(n), lambda k: V(T.zi(k)))
            r = o(x) if use is None else o(x, use) if kind == "vector" else o(x, use_attention=use)
            tag = f"{use}.{kind}"
            e = z3.Int("arbitrary entry")
            ok = len(enc) == 1 and isinstance(enc[0], Vector)
            ob(f"{tag}/the state is encoded once", ok)
            if ok:
                ob(f"{tag}/its first entries, then zeros", T.And(T.eq(enc[0].n, iv(E)), enc[0].f(e) == z3.If(e < T.zi(iv(n)), V(e), 0)), [z3.And(e >= 0, e < T.zi(iv(E)))])
            k = z3.Int("age")

            def past(p, s, f):
                return lambda j: z3.If(T.zb(T.lt(s, Lv)), f(j), f(T.floormod(T.add(p, j), Lv)))
            before = past(pv, sv, lambda j: R(T.zi(j)))
            used = T.And(use is not False, T.lt(1, sv))
            if isinstance(r["relevant_history"], Rows):
                h = r["relevant_history"]
                ob(f"{tag}/the past is used when asked and when there are two states", used)
                ob(f"{tag}/the past is the states kept, oldest first", T.And(T.eq(h.n, sv), h.f(k) == before(k)), [z3.And(k >= 0, k < T.zi(sv))])
                w = r["attention_weights"]
                ob(f"{tag}/with equal weights", T.And(T.eq(iv(w.n), sv), T.eq(iv(w.d), sv)) if isinstance(w, Ones2) else False)
                good = len(att) == 1 and att[0][0].how == ("query", ("batched", ("embedding",))) and isinstance(att[0][1], Batch) and att[0][1] is att[0][2] or \
                    len(att) == 1 and isinstance(att[0][1], Batch) and isinstance(att[0][2], Batch) and att[0][1].rows is att[0][2].rows
                ob(f"{tag}/attention of this state to the past", good and (att[0][1].rows.f(k) == h.f(k)))
                ob(f"{tag}/the context is added to the state", isinstance(r["enhanced_state"], Emb) and r["enhanced_state"].how in
                   [("plus", ("embedding",), q) for q in [("times", .1, ("context", ("attended", ("query", ("batched", ("embedding",))))))]])
            else:
                ob(f"{tag}/no past is used otherwise", T.Not(used))
                ob(f"{tag}/then the state stands alone", isinstance(r["enhanced_state"], Emb) and r["enhanced_state"].how == ("embedding",) and r["attention_weights"] == Tok("array", 0.0))
            ob(f"{tag}/the state and its embedding are returned", r["current_state"] is x and isinstance(r["original_state"], Emb) and r["original_state"].how == ("embedding",))
            H, p2, s2 = o.vars_["history"].value, iv(o.vars_["pointer"].value), iv(o.vars_["size"].value)
            ob(f"{tag}/the record stays well formed", T.And(inv(p2, s2), T.eq(H.n, Lv)))
            full = T.le(Lv, sv)
            ob(f"{tag}/one more state is kept, up to the longest", T.eq(s2, T.ite(full, sv, T.add(sv, 1))))
            after = past(p2, s2, H.f)
            # the last is this state; the others are those from before, without the oldest once the record is full
            ob(f"{tag}/the newest is this state", after(T.sub(s2, 1)) == new)
            for nm, hyp, shift in (("while it grows", T.Not(full), 0), ("once it is full", full, 1)):
                a = T.floormod(T.add(p2, k), Lv), T.floormod(T.add(pv, T.add(k, shift)), Lv)
                del a
                ob(f"{tag}/the others are the newest from before, {nm}", after(k) == before(T.add(k, shift)), [T.zb(hyp), z3.And(k >= 0, k < T.zi(T.sub(s2, 1)))])
    out.append(HostCase(P, "AttentionBasedStateSelector", [A + "AttentionBasedStateSelector.__call__", A + "AttentionBasedStateSelector.add_to_history"], step, lambda rng: attention_real(rng)))
    return out


# ------------------------------------------------------------------------------------------------------- the real code, on samples
def level_real(rng, kind, keep=None):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.modules.compressed_buffer import CompressedBuffer
    L = int(rng.integers(2, 9))
    par = {"none": None, "downsample": {"factor": int(rng.integers(1, 4))}, "ewma": {"alpha": float(rng.uniform(.1, .9))}, "quantile": {"percentiles": sorted(rng.uniform(0, 1, 3).tolist())},
           "sketching": {"num_hashes": int(rng.integers(1, 5)), "num_buckets": int(rng.integers(1, 8))}}[kind]
    n = int(rng.integers(1, 26))
    xs = (rng.integers(-9, 9, n) / 4).astype("float32")
    x0 = jnp.asarray(xs[0])
    f = streaming_transform_with_state(lambda x: CompressedBuffer(maxlen=L, compression=kind, compression_params=par, fill_value=float("nan"))(x))
    info = dict(compression=kind, maxlen=L, params=par, inputs=xs.tolist())
    try:
        p, s = f.init(jax.random.PRNGKey(0), x0)
        seen = [float(xs[0])]       # initialising takes the first input
        held, ew, table = [], None, None
        for k, x in enumerate(xs):
            y, s = f.apply(p, s, None, jnp.asarray(x))
            seen.append(float(x))
            pad = lambda v, m: np.array([np.nan] * max(0, m - len(v)) + v[-m:], "float32")   # noqa: E731
            if kind == "none":
                w = pad(seen, L)
            elif kind == "downsample":
                w = pad(seen[::par["factor"]], max(1, L // par["factor"]))
            elif kind == "quantile":
                w = np.quantile(pad(seen[: (len(seen) - 1) // 10 * 10 + 1], L)[-min(L, (len(seen) - 1) // 10 * 10 + 1):], par["percentiles"])
            elif kind == "sketching":
                H = np.array([[31, 17], [37, 23], [41, 29], [43, 31]])
                t = np.zeros((par["num_hashes"], par["num_buckets"]))
                for v in seen:
                    for i in range(par["num_hashes"]):
                        t[i, (H[i, 0] * int(v * 1000) + H[i, 1]) % par["num_buckets"]] += 1
                w = t.min(0)
            else:
                wt = (1 - par["alpha"]) ** np.arange(len(seen))[::-1]
                w = np.sum(wt * seen) / np.sum(wt)
            if np.shape(y) != np.shape(w) or not np.allclose(y, w, equal_nan=True, rtol=1e-3, atol=1e-4):
                return dict(info, step=k, got=np.asarray(y).tolist(), expected=np.asarray(w).tolist())
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def hierarchy_real(rng):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer
    kinds = ("ewma", "quantile", "downsample", "sketching", "none")
    mk, lk = (kinds[int(rng.integers(0, 5))] for _ in "ab")
    a, b, c = (int(x) for x in rng.integers(2, 7, 3))
    n = int(rng.integers(1, 14))
    xs = rng.integers(-9, 9, n).astype("float32")
    info = dict(medium=mk, long=lk, maxlens=[a, b, c], inputs=xs.tolist())
    f = streaming_transform_with_state(lambda x: HierarchicalBuffer(recent_maxlen=a, medium_maxlen=b, long_maxlen=c, medium_compression=mk, long_compression=lk)(x))

    def lone(kind, L, al):
        return streaming_transform_with_state(lambda x: CompressedBuffer(maxlen=L, compression=kind, compression_params={"alpha": al} if kind == "ewma" else None)(x))
    fs = {"medium": lone(mk, b, .1), "long": lone(lk, c, .01)}
    try:
        x0 = jnp.asarray(xs[0])
        p, s = f.init(jax.random.PRNGKey(0), x0)
        st, last = {}, {}
        every = {"medium": 5, "long": 50}
        for nm, g in fs.items():
            st[nm] = g.init(jax.random.PRNGKey(0), x0)
            last[nm] = None
        for k, x in enumerate(xs):
            y, s = f.apply(p, s, None, jnp.asarray(x))
            for nm, g in fs.items():
                if (k + 1) % every[nm] == 0:
                    last[nm], s2 = g.apply(*st[nm], None, jnp.asarray(x))
                    st[nm] = (st[nm][0], s2)
                if last[nm] is None:        # nothing but the first input so far
                    continue
                if np.shape(y[nm]) != np.shape(last[nm]) or not np.allclose(y[nm], last[nm], equal_nan=True, rtol=1e-4):
                    return dict(info, step=k, level=nm, got=np.asarray(y[nm]).tolist(), expected=np.asarray(last[nm]).tolist())
            for nm, kd in (("medium", mk), ("long", lk)):
                if last[nm] is None and kd != "sketching":
                    v = np.asarray(y[nm])
                    if not np.isclose(v.ravel()[-1] if kd != "quantile" else xs[0], xs[0]) or kd in ("quantile",) and v.shape != (5,) or kd in ("downsample", "none") and v.ndim != 1:
                        return dict(info, step=k, level=nm, got=v.tolist(), expected="only the first input so far")
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def attention_real(rng):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.core.advanced_state_patterns import AttentionBasedStateSelector
    L, n = int(rng.integers(1, 5)), int(rng.integers(1, 9))
    f = streaming_transform_with_state(lambda x: AttentionBasedStateSelector(embed_dim=4, num_heads=2, max_history_length=L)(x))
    xs = rng.normal(size=(n, int(rng.integers(1, 7)))).astype("float32")
    info = dict(module="AttentionBasedStateSelector", max_history_length=L, inputs=xs.tolist())
    try:
        p, s = f.init(jax.random.PRNGKey(int(rng.integers(0, 9))), jnp.asarray(xs[0]))
        past = None
        for k, x in enumerate(xs):
            r, s = f.apply(p, s, None, jnp.asarray(x))
            if past is None:
                past = [np.asarray(f.apply(p, s, None, jnp.asarray(xs[0]))[0]["original_state"])]
            want = past[-L:]
            if len(want) > 1:
                if not np.shape(r["relevant_history"]) == np.shape(want) or not np.allclose(r["relevant_history"], want, atol=1e-5):
                    return dict(info, step=k, got=np.asarray(r["relevant_history"]).tolist(), expected=np.asarray(want).tolist())
            elif np.any(np.asarray(r["relevant_history"])):
                return dict(info, step=k, got=np.asarray(r["relevant_history"]).tolist(), expected="no past")
            past.append(np.asarray(r["original_state"]))
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def cases(P, tier):
    return compressed_cases(P) + attention_cases(P)
