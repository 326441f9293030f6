"""wax.stream: several clocks read against one of them."""
from collections import deque

import numpy as np
import pandas as pd
import z3

from .. import mint as M
from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Tok
from ..terms import And, Not

FILE = "src/wax/stream.py:"
FILL = -99999


def real():
    import wax.stream as S
    return S


# ------------------------------------------------------------------------------------------------ merge
class Time:
    """time of event i of stream s; None: as floored to a frequency"""

    def __init__(self, v, ev=None):
        self.v, self.ev = v, ev

    def __lt__(self, o):
        if not isinstance(o, Time):
            raise Y.Mismatch("time compared with something else")
        return Y.wrap("b", T.lt(self.v, o.v))

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return Y.wrap("b", T.le(self.v, o.v))

    def __ge__(self, o):
        return o <= self


class Leaf:
    """one variable of an observation"""

    def __init__(self, s, i, fill=None):
        self.s, self.i, self.fill = s, i, fill
        self.dtype = np.dtype("int64")


class World:
    """ghost state of one merge: how far every stream has been read"""

    def __init__(self, ob, names, local, buffered, ffill, freqs):
        self.ob, self.names, self.local, self.buffered, self.ffill, self.freqs = ob, names, local, buffered, ffill, freqs
        self.time = {s: z3.Function(f"time_{s}", z3.IntSort(), z3.IntSort()) for s in names}
        self.floor = z3.Function("floor", z3.IntSort(), z3.IntSort())
        self.len = {s: z3.Int(f"n_{s}") for s in names}
        for s in names:
            Y.EX.assume(T.le(1, self.len[s]))
        self.streams = {s: SStream(self, s) for s in names}
        self.bufs = {}
        self.now = None          # index of the local event in progress
        self.start = {}          # per secondary stream: events consumed before this local event
        self.carried = {}        # per secondary stream: what is given if nothing new arrives
        self.outer = None
        self.inner = set()
        self.cuts = None

    secondary = property(lambda self: [s for s in self.names if s != self.local])

    def obs(self, s, i):
        return self.SO(Time(self.time[s](i) if not isinstance(i, int) else self.time[s](z3.IntVal(i)), (s, i)), {f"{s}_index": Leaf(s, i)})

    def before(self, s, i):
        t = self.time[self.local](T.zi(self.now) if hasattr(T, "zi") else self.now)
        return T.lt(self.time[s](i if not isinstance(i, int) else z3.IntVal(i)), self.floor(t) if s in self.freqs else t)

    def is_init(self, s, x):
        """the observation standing for `nothing received yet`"""
        if s in self.buffered:
            return isinstance(x, BufOut) and x.s == s and isinstance(x.n, int) and x.n == 0
        return is_obs(x) and x.time is pd.NaT and all(isinstance(v, Leaf) and v.s == s and v.fill == FILL for v in x.value.values())

    def is_output(self, s, x, n):
        """what a stream shows once its first n >= 1 events have been received"""
        if s in self.buffered:
            return And(isinstance(x, BufOut) and x.s == s, T.eq(x.n, n)) if isinstance(x, BufOut) else False
        e = event(x)
        return And(e[0] == s, T.eq(e[1], T.sub(n, 1))) if e is not None else False

    def output(self, s, n):
        return BufOut(s, n) if s in self.buffered else self.obs(s, T.sub(n, 1))


class BufOut:
    """the last maxlen of the first n observations given to the buffer of s"""

    def __init__(self, s, n):
        self.s, self.n = s, n


def is_obs(x):
    return isinstance(x, tuple) and getattr(x, "_fields", None) == ("time", "value")


def event(x):
    """(stream, index) if x is an event as its stream gave it"""
    if is_obs(x) and isinstance(x.time, Time) and x.time.ev is not None and isinstance(x.value, dict) and len(x.value) == 1:
        v = next(iter(x.value.values()))
        s, i = x.time.ev
        if isinstance(v, Leaf) and v.fill is None and v.s == s and (v.i is i or isinstance(v.i, int) and v.i == i):
            return x.time.ev
    return None


class SStream:
    """a started stream: the first value read from it initialises, then come all its events"""

    def __init__(self, w, s):
        self.w, self.s, self.inited, self.pos = w, s, False, 0

    def __iter__(self):
        return self

    def __next__(self):
        if not self.inited:
            self.inited = True
            return self.w.obs(self.s, 0)
        if not Y.EX.fork(T.lt(self.pos, self.w.len[self.s])):
            self.pos = self.w.len[self.s]
            self.ended = True
            raise StopIteration
        i, self.pos = self.pos, T.add(self.pos, 1)
        if self.s == self.w.local:
            self.w.now = i
        return self.w.obs(self.s, i)
    ended = False


class SBuf:
    def __init__(self, w, s, init):
        self.w, self.s, self.init, self.n, self.fired = w, s, init, 0, False

    def __call__(self, x):
        if not self.fired:
            self.w.ob(f"{self.s}: the buffer is started with the missing observation", x is self.init)
            self.fired = True
            return BufOut(self.s, 0)
        e = event(x)
        self.w.ob(f"{self.s}: every event enters the buffer once, in order", And(e[0] == self.s, T.eq(e[1], self.n)) if e is not None else False)
        if e is not None and self.w.now is not None:
            self.w.ob(f"{self.s}: no look-ahead", self.w.before(self.s, e[1]))
        self.n = T.add(self.n, 1)
        return BufOut(self.s, self.n)


def dicts(loc, skip=()):
    out = []

    def walk(x):
        if type(x) is dict:
            if not any(x is d for d in out):
                out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for nm, x in loc.items():
        if nm not in skip and not nm.startswith("__wv"):
            walk(x)
    return out


class MergeLoops:
    def __init__(self, w):
        self.w = w

    def enter(self, L, loc):
        w = self.w
        if w.outer is None:
            w.outer = L
            self.initial(loc, L)
            return self.havoc(loc, L)
        return self.inner_enter(L, loc)

    # outer loop: one local event ------------------------------------------------------------------------
    def initial(self, loc, L):
        w = self.w
        for s in w.secondary:
            w.ob(f"start: {s} is ready to give its first event", w.streams[s].inited)
            if s in w.buffered:
                w.ob(f"start: buffer of {s} is empty", s in w.bufs and w.bufs[s].fired and T.eq(w.bufs[s].n, 0) is True)
        w.ob("start: no local event is lost", T.eq(w.streams[w.local].pos, 0) is True and w.streams[w.local].inited)
        self.slots = []
        for d in dicts(loc, L.names):
            for s, x in list(d.items()):
                if s not in w.secondary:
                    self.slots.append((d, s, "const", x))
                elif isinstance(x, SStream):
                    self.slots.append((d, s, "stream", x))
                elif event(x) is not None:
                    w.ob(f"start: the pending event of {s} is its first, and it has just been read",
                         event(x) == (s, 0) and isinstance(w.streams[s].pos, int) and w.streams[s].pos == 1)
                    self.slots.append((d, s, "pending", x))
                elif w.is_init(s, x):
                    self.slots.append((d, s, "carried", x))
                else:
                    self.slots.append((d, s, "const", x))
        kinds = {(s, k) for _, s, k, _ in self.slots}
        if not all((s, k) in kinds for s in w.secondary for k in ("stream", "pending", "carried")):
            raise Y.Mismatch("the state carried by the merge loop")

    def havoc(self, loc, L):
        w = self.w
        k = z3.Int("k")
        Y.EX.assume(And(T.le(0, k), T.le(k, w.len[w.local])))
        w.streams[w.local].pos = k
        for s in w.secondary:
            st, n = w.streams[s], w.len[s]
            if Y.EX.fork(z3.Bool(f"exhausted_{s}")):
                st.pos, st.ended, c = n, True, n
            else:
                p = z3.Int(f"p_{s}")
                Y.EX.assume(And(T.le(0, p), T.lt(p, n)))
                st.pos, c = T.add(p, 1), p
            if s in w.buffered:
                w.bufs[s].n = c
            shown = s in w.ffill and Y.EX.fork(T.lt(0, c))
            w.start[s] = c
            for d, key, kind, x in self.slots:
                if key != s:
                    continue
                if st.ended and kind in ("stream", "pending"):
                    d.pop(s, None)
                elif kind == "pending":
                    d[s] = w.obs(s, c)
                elif kind == "carried":
                    w.carried[s] = d[s] = w.output(s, c) if shown else x
        return {}

    def back(self, L, loc):
        w = self.w
        if L is not w.outer:
            return self.inner_back(L, loc)
        for d, s, kind, x in self.slots:
            if kind == "const":
                w.ob("kept", d.get(s) is x)
        for s in w.secondary:
            st, n = w.streams[s], w.len[s]
            if st.ended:
                c = n
                for d, key, kind, x in self.slots:
                    if key == s and kind == "stream":
                        w.ob(f"{s}: an exhausted stream is not read again", s not in d)
            else:
                c = T.sub(st.pos, 1)
                for d, key, kind, x in self.slots:
                    if key == s and kind == "pending":
                        e = event(d.get(s))
                        w.ob(f"{s}: the event read and not yet shown is kept", And(e[0] == s, T.eq(e[1], c)) if e is not None else False)
                    if key == s and kind == "stream":
                        w.ob(f"{s}: still read", d.get(s) is st)
            if s in w.buffered:
                w.ob(f"{s}: the buffer has received the events consumed", T.eq(w.bufs[s].n, c))
            for d, key, kind, x in self.slots:
                if key == s and kind == "carried":
                    y = d.get(s)
                    if s in w.ffill:
                        w.ob(f"{s}: carried forward", T.ite(T.lt(0, c), w.is_output(s, y, c), w.is_init(s, y)))
                    else:
                        w.ob(f"{s}: not carried forward", w.is_init(s, y))

    # inner loop: the events of one stream before the local time -------------------------------------------
    def inner_enter(self, L, loc):
        w = self.w
        cur = [x for nm, x in loc.items() if isinstance(x, SStream) and x.s != w.local]
        if len({x.s for x in cur}) != 1:
            raise Y.Mismatch("which stream the loop reads")
        L.s = s = cur[0].s
        st = cur[0]
        L.p0 = p0 = T.sub(st.pos, 1)
        L.pend, L.outs, L.tnames = [], [], []
        for d in dicts(loc):
            x = d.get(s)
            if event(x) is not None and same(event(x)[1], p0):
                L.pend.append(d)
            if d is not None and x is not None and (x is w.carried[s] or w.is_output(s, x, T.add(p0, 1)) is not False) and s in d and w.local in d and \
                    event(d[w.local]) is not None and same(event(d[w.local])[1], w.now):
                L.outs.append(d)
        L.pend = [d for d in L.pend if not any(d is o for o in L.outs)]
        for nm, x in loc.items():
            if isinstance(x, Time) and x.ev is not None and x.ev[0] == s and same(x.ev[1], p0):
                L.tnames.append(nm)
        if len(L.pend) != 1 or len(L.outs) != 1:
            raise Y.Mismatch("the state carried by the inner loop")
        self.inner_check(L, "arrival", loc, p0, first=True)
        keep = {nm: loc[nm] for nm in L.names if nm in loc}
        w.nin = getattr(w, "nin", 0) + 1
        if Y.EX.fork(z3.Bool(f"moved{w.nin}")):
            p = z3.Int(f"q{w.nin}")
            Y.EX.assume(And(T.lt(p0, p), T.lt(p, w.len[s]), w.before(s, T.sub(p, 1))))
            st.pos = T.add(p, 1)
            L.pend[0][s] = w.obs(s, p)
            n = T.add(p, 1) if w.eager and Y.EX.fork(w.before(s, p)) else p
            if s in w.buffered:
                w.bufs[s].n = n
            L.outs[0][s] = w.output(s, n)
            keep = {nm: Time(w.time[s](p), (s, p)) for nm in L.tnames}
        return keep

    def inner_check(self, L, what, loc, p, first=False):
        w, s = self.w, L.s
        x = L.outs[0].get(s)
        if not w.eager:
            if s in w.buffered:
                w.ob(f"{s}: {what}: the buffer has the events before the one just read", T.eq(w.bufs[s].n, p))
            w.ob(f"{s}: {what}: shown is the event before the one just read", (x is w.carried[s]) if first else w.is_output(s, x, p))
            return
        b = w.before(s, p)
        if s in w.buffered:
            w.ob(f"{s}: {what}: the buffer has the events up to the one just read iff it precedes the local time", T.eq(w.bufs[s].n, T.ite(b, T.add(p, 1), p)))
        keep = (x is w.carried[s]) if first else w.is_output(s, x, p)
        w.ob(f"{s}: {what}: shown is the last event that precedes the local time", T.ite(b, w.is_output(s, x, T.add(p, 1)), keep))

    def inner_back(self, L, loc):
        w, s = self.w, L.s
        st = w.streams[s]
        p = T.sub(st.pos, 1)
        e = event(L.pend[0].get(s))
        w.ob(f"{s}: the event just read is the pending one", And(e[0] == s, T.eq(e[1], p)) if e is not None else False)
        w.ob(f"{s}: the loop advances", T.lt(L.p0, p))
        w.ob(f"{s}: events are passed only when they precede the local time", w.before(s, T.sub(p, 1)))
        for nm in L.tnames:
            t = loc.get(nm)
            w.ob(f"{s}: its time", And(t.ev[0] == s, T.eq(t.ev[1], p)) if isinstance(t, Time) and t.ev else False)
        self.inner_check(L, "next", loc, p)


def same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or z3.simplify(a - b).eq(z3.IntVal(0))


class OnpMerge:
    def __getattr__(self, n):
        return getattr(np, n)

    def full_like(self, x, v):
        if isinstance(x, Leaf):
            return Leaf(x.s, x.i, v)
        return np.full_like(x, v)


def merge_case(P, nsec, buffered, ffill, freq):
    names = ["l"] + [f"s{k}" for k in range(nsec)]
    name = f"merge.{nsec}" + ("" if not nsec else "." + "+".join(("buffer" if b else "last") + (".ffill" if f else "") + (".freq" if q else "") for b, f, q in zip(buffered, ffill, freq)))
    B = {f"s{k}": 3 for k in range(nsec) if buffered[k]}
    F = {f"s{k}": bool(ffill[k]) for k in range(nsec)}
    Q = {f"s{k}": "d" for k in range(nsec) if freq[k]}

    def scenario(ob, plan, eager=True):
        w = World(ob, names, "l", set(B), {s for s in F if F[s]}, Q)
        w.eager = eager      # which invariant of the inner loop: a pending event that precedes the local time has been shown already, or not yet
        h = MergeLoops(w)

        def floor_datetime(t, freq="d"):
            ob("frequency", freq == "d")
            if not isinstance(t, Time) or t.ev is None or t.ev[0] != "l":
                raise Y.Mismatch("floor")
            return Time(w.floor(t.v))

        def tbt(maxlen, fill_value, init_value):
            s = next(iter(init_value.value)).removesuffix("_index")
            ob("buffer length", maxlen == B.get(s))
            ob("missing values", is_obs(fill_value) and fill_value.time is pd.NaT and fill_value.value == {f"{s}_index": FILL} and
               w.is_init_obs(s, init_value))
            w.bufs[s] = SBuf(w, s, init_value)
            return w.bufs[s]
        w.is_init_obs = lambda s, x: is_obs(x) and x.time is pd.NaT and all(isinstance(v, Leaf) and v.fill == FILL for v in x.value.values())
        m = Y.load("wax.stream", Y.Hooks(h, cut_while=True), dict(onp=OnpMerge(), floor_datetime=floor_datetime, tree_buffer_transform=tbt,
                                                                  get_unique_dtype=lambda x: np.int64), whiles=True)
        w.SO = m.StreamObservation
        S = m.Stream("l", dict(Q), {s: True for s in F if F[s]}, dict(B))
        given = dict(w.streams)
        g = S.merge(given)
        try:
            out = next(g)
        except StopIteration:
            ob("ends only when the local stream ends", T.eq(w.streams["l"].pos, w.len["l"]) if w.streams["l"].ended else False)
            return
        e = event(out.get("l"))
        ob("the local event, each once and in order", And(e[0] == "l", T.eq(e[1], w.now)) if e is not None else False)
        ob("one value per stream", set(out) == set(names))
        ob("the caller's streams are kept", given == w.streams)
        for s in w.secondary:
            st = w.streams[s]
            c = w.len[s] if st.ended else T.sub(st.pos, 1)
            if not st.ended:
                ob(f"{s}: every event before the local time is consumed", Not(w.before(s, c)))
            x = out.get(s)
            new = T.lt(w.start[s], c)
            ob(f"{s}: the last event before the local time is shown, or what was carried", T.ite(new, w.is_output(s, x, c), x is w.carried[s]))
            ob(f"{s}: no look-ahead", T.Implies(new, w.before(s, T.sub(c, 1))))
        try:
            next(g)
        except StopIteration:
            ob("goes on until the local stream ends", False)

    def concrete(rng):
        return merge_real(rng, names, B, F, Q)
    return HostCase(P, name, [FILE + "Stream.merge"], scenario, concrete, max_paths=4000,
                    variants=[lambda ob, plan: scenario(ob, plan, False)])


def merge_real(rng, names, B, F, Q):
    S = real()
    day = 86400 * 10**9
    B = {s: int(rng.integers(1, 4)) for s in B}
    ev = {s: np.sort(rng.integers(0, 12, int(rng.integers(1, 8)))) * (day // 4) for s in names}
    ev = {s: v.astype("<M8[ns]") for s, v in ev.items()}

    def gen(s):
        yield S.StreamObservation(ev[s][0], {f"{s}_index": np.array(0)})
        for i, t in enumerate(ev[s]):
            yield S.StreamObservation(t, {f"{s}_index": np.array(i)})
    st = S.Stream("l", dict(Q), {s: True for s in F if F[s]}, dict(B))
    try:
        out = list(st.merge({s: gen(s) for s in names}))
    except Exception as e:  # noqa: BLE001
        return dict(call="Stream.merge", error=repr(e))
    info = dict(call="Stream.merge", times={s: (v.astype(int) / day).tolist() for s, v in ev.items()}, freqs=Q, ffills=F, buffer_maxlen=B)
    if len(out) != len(ev["l"]):
        return dict(info, got=f"{len(out)} outputs")
    prev = {s: 0 for s in names}
    for k, t in enumerate(ev["l"]):
        o = out[k]
        if int(o["l"].value["l_index"]) != k or o["l"].time != t:
            return dict(info, step=k, stream="l")
        for s in names[1:]:
            lim = t.astype("<M8[D]").astype("<M8[ns]") if s in Q else t
            n = int((ev[s] < lim).sum())
            m = n if F[s] or n > prev[s] else 0
            prev[s] = n
            got = np.asarray(o[s].value[f"{s}_index"]).tolist()
            ts = o[s].time
            M = B.get(s, 1)
            want = ([FILL] * M + list(range(m)))[-M:] if m else [FILL] * M
            wt = ([pd.NaT] * M + list(ev[s][:m]))[-M:]
            if s not in B:
                want, ts = want[0], [ts]
            if got != want or len(ts) != M or not all((a is pd.NaT and b is pd.NaT) or a == b for a, b in zip(ts, wt)):
                return dict(info, step=k, stream=s, got=got, expected=want)
    return None


def merge_cases(P):
    out = [merge_case(P, 0, (), (), ())]
    for b in (0, 1):
        for f in (0, 1):
            for q in (0, 1):
                out.append(merge_case(P, 1, (b,), (f,), (q,)))
    out.append(merge_case(P, 2, (1, 0), (0, 1), (0, 1)))
    out.append(merge_case(P, 2, (1, 1), (1, 0), (1, 0)))
    return out


# ------------------------------------------------------------------------------------------------ buffers
class SymDeque:
    """collections.deque(maxlen=M) after n appends: the last min(n, M) values appended"""

    def __init__(self, it=(), maxlen=None):
        if maxlen is None:
            raise Y.Mismatch("unbounded deque")
        self.m, self.n, self.hist, self.extra = Y.unwrap(maxlen)[1], 0, None, []

    maxlen = property(lambda s: Y.wrap("i", s.m))

    def arbitrary(self, n, hist):
        self.n, self.hist, self.extra = n, hist, []
        return self

    def append(self, x):
        self.extra.append((self.n, x))
        self.n = T.add(self.n, 1)

    def value(self, i):
        """the i-th value appended"""
        for k, x in self.extra:
            if Y.EX.fork(T.eq(i, k)):
                return x
        return self.hist(i)

    def wv_seq(self):
        ln = T.imin(self.n, self.m)
        return Y.SymSeq(ln, lambda j: self.value(T.add(T.sub(self.n, ln), j)))

    def __getitem__(self, i):
        return self.wv_seq()[i]


class _DequeTy(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymDeque)

    def __call__(cls, it=(), maxlen=None):
        s = Y.seq_of(it)
        if s is not None and maxlen is None:
            return Deq(s)
        return SymDeque(it, maxlen)


class Deq:
    def __init__(self, s):
        self.s = s

    def wv_seq(self):
        return self.s


class OnpBuf(M.NpInt):
    def full_like(self, x, v):
        if isinstance(x, M.MI):
            return M.MI(x.dt, Y.unwrap(v)[1]) if not isinstance(v, M.MI) else M.convert(v, x.dt)
        return np.full_like(x, v)


def buffer_cases(P):
    out = []

    def to_list(kind):
        def scenario(ob, plan):
            m = Y.load("wax.stream", Y.Hooks(None), dict(onp=OnpBuf(), deque=_DequeTy("deque", (), {})))
            n, mx, i = z3.Int("n"), z3.Int("maxlen"), z3.Int("i")
            h = z3.Function("appended", z3.IntSort(), z3.IntSort())
            Y.EX.assume(And(T.le(1, n), T.le(1, mx), T.le(0, i), T.lt(i, mx)))

            def hist(j):
                """a date, missing at first; or an integer"""
                if kind == "int":
                    return M.MI("int64", h(j))
                return pd.NaT if Y.EX.fork(T.eq(j, 0)) else M.D64(kind, h(j))
            b = SymDeque((), Y.wrap("i", mx)).arbitrary(n, hist)
            fv = z3.Int("fill")
            r = m.deque_to_list(b, pd.NaT if kind != "int" else Y.wrap("i", fv))
            # i-th value: counted from the last one
            k = T.sub(n, T.sub(mx, i))
            if kind == "int":
                ok = isinstance(r, M.MA) and r.ndim == 1 and Y.same_shape(r.shape, (mx,))
                ob("an array", isinstance(r, M.MA) and r.ndim == 1)
                if isinstance(r, M.MA) and r.ndim == 1:
                    ob("of the buffer's length", T.eq(r.shape[0], mx))
                    ob("the last values, oldest first, padded in front", T.eq(r.f(i), T.ite(T.lt(k, 0), fv, h(k))))
            else:
                s = Y.seq_of(r)
                ob("a sequence of dates", isinstance(r, Deq))
                if s is not None:
                    ob("of the buffer's length", T.eq(s.n, mx))
                    v = s.at(i)
                    ob("the last dates, oldest first, padded in front with NaT", T.le(k, 0) if v is pd.NaT else And(T.lt(0, k), isinstance(v, M.D64) and v.unit == kind,
                                                                                                                T.eq(v.v, h(k))) if isinstance(v, M.D64) else False)
        return HostCase(P, f"deque_to_list.{kind}", [FILE + "deque_to_list"], scenario, lambda rng: list_real(rng, kind))
    out += [to_list(k) for k in ("int", "ns", "us")]

    def transform(ob, plan):
        calls = []

        def to_list_contract(b, fv):
            calls.append((b, b.n, list(b.extra), fv))
            return Tok("as list", len(calls) - 1)
        m = Y.load("wax.stream", Y.Hooks(None), dict(deque=_DequeTy("deque", (), {}), deque_to_list=to_list_contract))
        mx = z3.Int("maxlen")
        Y.EX.assume(T.le(1, mx))
        SO = m.StreamObservation
        mk = lambda t: SO(Tok(t, "time"), {"a": Tok(t, "a"), "b": Tok(t, "b")})
        f = m.tree_buffer_transform(Y.wrap("i", mx), mk("fill"), mk("init"))
        names = ["time", "a", "b"]

        def leaves(x):
            return [x.time, x.value["a"], x.value["b"]]
        first = f(mk("init"))
        ob("one buffer per variable", len({id(c[0]) for c in calls}) == 3 and len(calls) == 3)
        bs = {}
        for nm, y in zip(names, leaves(first)):
            b, n, ex, fv = calls[y.how[1]]
            bs[nm] = b
            ob(f"{nm}: length", T.eq(b.m, mx))
            ob(f"{nm}: fresh, holding the first value", n == 1 and ex == [(0, Tok("init", nm))])
            ob(f"{nm}: its own missing value", fv == Tok("fill", nm))
        # any number of events later
        n = z3.Int("n")
        Y.EX.assume(T.le(1, n))
        hists = {nm: (lambda j, nm=nm: Tok("event", nm, j)) for nm in names}
        for nm, b in bs.items():
            b.arbitrary(n, hists[nm])
        del calls[:]
        r = f(mk("new"))
        ob("same structure", type(r) is SO and set(r.value) == {"a", "b"} and len(calls) == 3)
        for nm, y in zip(names, leaves(r)):
            b, k, ex, fv = calls[y.how[1]]
            ob(f"{nm}: given by its buffer after appending the new value, once", b is bs[nm] and len(ex) == 1 and ex[0][0] is n and ex[0][1] == Tok("new", nm) and b.hist is hists[nm])
            ob(f"{nm}: its own missing value", fv == Tok("fill", nm))
            ob(f"{nm}: length kept", T.eq(b.m, mx))
    out.append(HostCase(P, "tree_buffer_transform", [FILE + "tree_buffer_transform"], transform, transform_real))
    return out


def list_real(rng, kind):
    S = real()
    M_ = int(rng.integers(1, 6))
    n = int(rng.integers(1, 9))
    b = deque(maxlen=M_)
    vals = [int(x) for x in rng.integers(-5, 100, n)]
    for j, v in enumerate(vals):
        b.append(np.array(v) if kind == "int" else pd.NaT if j == 0 else np.datetime64(v, kind))
    r = S.deque_to_list(b, FILL if kind == "int" else pd.NaT)
    if kind == "int":
        want, got = ([FILL] * M_ + vals)[-M_:], np.asarray(r).tolist()
    else:
        want, got = ([None] * (M_ + 1) + vals[1:])[-M_:], [None if x is pd.NaT else int(x.astype("int64")) for x in r]
    if got != want:
        return dict(call="deque_to_list", maxlen=M_, appended=vals, kind=kind, got=got, expected=want)


def transform_real(rng):
    S = real()
    M_ = int(rng.integers(1, 5))
    n = int(rng.integers(1, 8))
    fill = S.StreamObservation(pd.NaT, {"a": -1, "b": -2.0})
    init = S.StreamObservation(pd.NaT, {"a": np.array(-1), "b": np.array(-2.0)})
    f = S.tree_buffer_transform(M_, fill, init)
    f(init)
    v = rng.integers(0, 50, n)
    for x in v:
        r = f(S.StreamObservation(np.datetime64(int(x), "ns"), {"a": np.array(x), "b": np.array(x + 0.5)}))
    a, b = ([-1] * M_ + v.tolist())[-M_:], ([-2.0] * M_ + (v + 0.5).tolist())[-M_:]
    t = [None if x is pd.NaT else int(x.astype("int64")) for x in r.time]
    if r.value["a"].tolist() != a or r.value["b"].tolist() != b or t != ([None] * M_ + v.tolist())[-M_:]:
        return dict(call="tree_buffer_transform", maxlen=M_, values=v.tolist(), got=[r.value["a"].tolist(), r.value["b"].tolist(), t])


# ------------------------------------------------------------------------------------------------ reading a dataset
class Vars(dict):
    pass


class Var:
    def __init__(self, values, dims=()):
        self.values, self.dims = values, tuple(dims)
        self.shape = getattr(values, "shape", ())


class Col:
    """a variable's data along its first axis"""

    def __init__(self, name):
        self.name = name

    def __getitem__(self, i):
        k, v = Y.unwrap(i)
        return Tok("item", self.name, v if isinstance(v, int) else Id(v))


class Id:
    """a term compared by identity"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Id) and (self.t is o.t or self.t.eq(o.t))

    def __hash__(self):
        return 1


class OnpIdx:
    def __getattr__(self, n):
        return getattr(np, n)

    def array(self, x, *a, **k):
        if isinstance(x, Y.Sc):
            return Tok("index", Id(x.v))
        if isinstance(x, int):
            return Tok("index", x)
        return np.array(x, *a, **k)
    asarray = int64 = array


def dataset_cases(P):
    out = []

    def start(trace, given):
        def scenario(ob, plan):
            n = z3.Int("n")
            Y.EX.assume(T.le(1, n))
            f = z3.Function("t", z3.IntSort(), z3.IntSort())
            times = M.MA((n,), "<M8[ns]", f)
            ds = Vars(u=Var(Col("u")), v=Var(Col("v")))
            ds.coords = {"t": Var(times)}

            class H:
                L = None

                def enter(self, L, loc):
                    if self.L is not None:
                        raise Y.Mismatch("a second loop")
                    self.L = L
                    keep = {}
                    for nm in L.names:
                        x = loc.get(nm)
                        if is_obs(x) or isinstance(x, (int, M.D64)) or x is None:
                            continue
                    return keep

                def back(self, L, loc):
                    ob("every event is given", h.yielded is True)
                yielded = None
            h = H()
            m = Y.load("wax.stream", Y.Hooks(h), dict(onp=OnpIdx(), _get_unique_time_dim=lambda d: "t"))
            S = m.Stream("t", trace=trace)
            g = S.start_dataset_stream(ds, time_dim="t") if given else S.start_dataset_stream(ds)

            def check(what, o, i):
                ok = is_obs(o)
                ob(f"{what}: its time", T.eq(o.time.v, f(z3.IntVal(i) if isinstance(i, int) else i)) if ok and isinstance(o.time, M.D64) else False)
                key = i if isinstance(i, int) else Id(i)
                want = {k: Tok("index", key) if trace else Tok("item", k, key) for k in ds}
                ob(f"{what}: {'its position' if trace else 'the values at its position'} for every variable", ok and dict(o.value) == want)
            check("initialization", next(g), 0)
            try:
                o = next(g)
            except StopIteration:
                ob("ends after the last event", h.L is not None and h.L.done)
                return
            ob("one event per iteration", h.L is not None and h.yielded is None)
            check("event i", o, h.L.idx if h.L is not None else 0)
            h.yielded = True
            try:
                next(g)
            except StopIteration:
                ob("goes on until the last event", False)
            ob("one event per iteration", False)

        def concrete(rng):
            import xarray as xr
            n = int(rng.integers(1, 7))
            t = np.sort(rng.integers(0, 10**6, n)).astype("<M8[ns]")
            u = rng.normal(size=(n, 2))
            d = xr.Dataset({"u": (("t", "c"), u), "v": (("t",), u[:, 0])}, coords={"t": t})
            o = list(real().Stream("t", trace=trace).start_dataset_stream(d, **({"time_dim": "t"} if given else {})))
            want = [0] + list(range(n))
            ok = len(o) == n + 1
            for x, i in zip(o, want):
                ok = ok and x.time == t[i] and (np.array_equal(x.value["u"], i) and np.array_equal(x.value["v"], i) if trace else
                                                np.array_equal(x.value["u"], u[i]) and x.value["v"] == u[i, 0])
            if not ok:
                return dict(call="start_dataset_stream", n=n, trace=trace)
        return HostCase(P, f"start_dataset_stream.{'trace' if trace else 'values'}.{'named' if given else 'unnamed'}",
                        [FILE + "Stream.start_dataset_stream", FILE + "np_select_item", FILE + "dataset_to_numpy"], scenario, concrete)
    out += [start(True, True), start(False, True), start(True, False)]

    # ------------------------------------------------------------------------------- unroll_stream
    def unroll(skip):
        def scenario(ob, plan):
            n = z3.Int("n")
            Y.EX.assume(T.le(0, n))
            leaf = lambda j, i: Tok("leaf", j, i if isinstance(i, int) else Id(i))
            obs = lambda i: {"x": leaf(0, i), "y": (leaf(1, i), leaf(2, i))}

            class G:
                """first value, then n more"""
                first = True

                def __next__(self):
                    if not self.first:
                        raise Y.Mismatch("the stream is advanced outside its loop")
                    self.first = False
                    return obs("first")

                def wv_seq(self):
                    return Y.SymSeq(n, obs)

            class H:
                L = None

                def lists(self, loc):
                    return [v for nm, v in loc.items() if isinstance(v, list) and len(v) == 3 and all(type(x) is list for x in v) and not nm.startswith("__")]

                def enter(self, L, loc):
                    if self.L is not None:
                        raise Y.Mismatch("a second loop")
                    self.L = L
                    ls = self.lists(loc)
                    if len(ls) != 1:
                        raise Y.Mismatch("what the loop collects")
                    self.ls = ls[0]
                    self.cells = list(self.ls)
                    ob("one list per leaf", len({id(c) for c in self.cells}) == 3)
                    for j, c in enumerate(self.cells):
                        ob(f"leaf {j}: starts with the first observation unless it is skipped", c == ([] if skip else [leaf(j, "first")]))
                    self.base = [list(c) for c in self.cells]
                    return {}

                def back(self, L, loc):
                    ob("the lists are kept", len(self.ls) == 3 and all(a is b for a, b in zip(self.ls, self.cells)))
                    for j, c in enumerate(self.cells):
                        ob(f"leaf {j}: each observation is appended once", c == self.base[j] + [leaf(j, L.idx)])
            h = H()

            class Onp:
                def stack(self, x, axis=0):
                    j = [k for k, c in enumerate(h.cells) if c is x]
                    return Tok("stack", *j) if len(j) == 1 and axis == 0 else Tok("other")
            m = Y.load("wax.stream", Y.Hooks(h), dict(onp=Onp()))
            r = m.unroll_stream(G(), skip_first=skip, pbar=False)
            ob("all observations are read", h.L is not None and h.L.done)
            ob("each leaf stacks its own observations in order", r == {"x": Tok("stack", 0), "y": (Tok("stack", 1), Tok("stack", 2))})

        def concrete(rng):
            k = int(rng.integers(2, 6))
            v = rng.normal(size=(k, 3))
            r = real().unroll_stream(iter([{"x": a[0], "y": (a[1], a[2])} for a in v]), skip_first=skip, pbar=False)
            got = [r["x"], r["y"][0], r["y"][1]]
            w = v[1:] if skip else v
            if not all(np.array_equal(g, w[:, j]) for j, g in enumerate(got)):
                return dict(call="unroll_stream", skip_first=skip, observations=v.tolist(), got=[np.asarray(g).tolist() for g in got])
        return HostCase(P, f"unroll_stream[skip_first={skip}]", [FILE + "unroll_stream"], scenario, concrete)
    out += [unroll(False), unroll(True)]
    return out


# ------------------------------------------------------------------------------------------------ access to data
def access_cases(P):
    import jax.numpy as jnp
    from ..contracts import Leaf as Leaf_
    from ..lib import FnCase, Inp, SArr
    S_ = real()
    out = []

    def access(dt, buffered, rank):
        shape = ("N",) + ("C",) * (rank - 1)
        ish = ("K", "B") if buffered else ("K",)
        fill = T.NAN if dt == "float32" else FILL

        def spec(S, xs):
            x, idx, step = xs
            k = step()

            at = lambda i: idx(k, i[0]) if buffered else idx(k)

            def f(*i):
                j = at(i)
                neg = T.lt(j, 0)
                v = T.ite(T.Or(neg, T.le(S["N"], j)), 0, j)
                return T.ite(neg, fill, x(v, *(i[1:] if buffered else i)))
            sh = ((S["B"],) if buffered else ()) + tuple(S[d] for d in shape[1:])
            return Leaf_(SArr(sh, dt, f), when=lambda *i: T.lt(at(i), S["N"])), []
        dims = tuple(dict.fromkeys(shape + ish))
        pre = lambda S, xs: And(T.le(0, xs[2]()), T.lt(xs[2](), S["K"]))
        inputs = [Inp(shape, dt), Inp(ish, "int32"), Inp((), "int32", values=(0, 1, 2, 3))]
        return FnCase(P, f"access_data.{dt}.{rank}d{'.buffered' if buffered else ''}", lambda x, idx, step: S_.access_data(step, x, idx), fns=[FILE + "access_data"],
                      inputs=inputs, dims=dims, spec=spec, pre=pre)
    for dt in ("float32", "int32"):
        for b in (False, True):
            for r in (1, 2):
                out.append(access(dt, b, r))

    def scalar(dt):
        """a variable without axes has its value at every step"""
        def spec(S, xs):
            x, idx, step = xs
            return Leaf_(SArr((), dt, lambda: x()), when=lambda: T.le(0, idx(step()))), []
        return FnCase(P, f"access_data.{dt}.0d", lambda x, idx, step: S_.access_data(step, x, idx), fns=[FILE + "access_data"],
                      inputs=[Inp((), dt), Inp(("K",), "int32"), Inp((), "int32", values=(0, 1, 2, 3))], dims=("K",), spec=spec,
                      pre=lambda S, xs: And(T.le(0, xs[2]()), T.lt(xs[2](), S["K"])))
    out += [scalar("float32"), scalar("int32")]
    return out


# ------------------------------------------------------------------------------------------------ indices
class XA:
    """xarray.DataArray: its values and the names of its axes"""

    def __init__(self, values, dims=(), coords=None):
        self.values, self.dims, self.coords = values, (dims,) if isinstance(dims, str) else tuple(dims), coords or {}

    shape = property(lambda s: s.values.shape)
    ndim = property(lambda s: len(s.shape))
    dtype = property(lambda s: s.values.dtype)

    def wv_seq(self):
        return Y.seq_of(self.values)


class XD(dict):
    """xarray.Dataset: variables by name; coordinates"""

    def __init__(self, d=(), coords=None):
        dict.__init__(self, d)
        self.coords = coords or {}

    def __getitem__(self, k):
        return self.coords[k] if k not in self and k in self.coords else dict.__getitem__(self, k)


class Xr:
    Dataset, DataArray = XD, XA


class Data:
    """numpy array of which only the shape matters"""

    def __init__(self, shape, dtype="float64"):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)

    ndim = property(lambda s: len(s.shape))

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = T.mul(n, s)
        return Y.wrap("i", n)

    def ravel(self):
        return Data((Y.unwrap(self.size)[1],), self.dtype)

    def wv_seq(self):
        return Y.SymSeq(self.shape[0], lambda i: Tok("row", Id(i)))


def term(x):
    return Y.unwrap(x)[1]


class OnpIndex:
    """numpy on index arrays"""

    def __getattr__(self, n):
        if n in ("datetime64", "dtype", "int64", "int32"):
            return getattr(np, n)
        raise Y.Mismatch(f"numpy.{n}")

    def arange(self, *a):
        if len(a) != 1:
            raise Y.Mismatch("arange")
        return M.MA((term(a[0]),), "int64", lambda i: i)

    def shape(self, x):
        return x.shape

    def ndim(self, x):
        return len(x.shape)

    def atleast_1d(self, x):
        return x if len(x.shape) else Data((1,), x.dtype)

    def ones(self, n, dtype=None):
        return M.MA((term(n),), "int64", lambda i: 1)

    def zeros(self, n, dtype=None):
        return M.MA((term(n),), "int64", lambda i: 0)

    def outer(self, a, b):
        return M.MA((a.shape[0], b.shape[0]), "int64", lambda i, j: T.mul(a.f(i), b.f(j)))

    def tile(self, a, reps):
        if not (isinstance(reps, tuple) and len(reps) == 2 and term(reps[1]) == 1 and a.ndim == 1):
            raise Y.Mismatch("tile")
        return M.MA((term(reps[0]), a.shape[0]), "int64", lambda i, j: a.f(j))

    def broadcast_to(self, a, sh):
        if not (len(sh) == 2 and a.ndim == 1):
            raise Y.Mismatch("broadcast")
        return M.MA(tuple(term(x) for x in sh), "int64", lambda i, j: a.f(j))


class OneObligation(HostCase):
    """all obligations under one name, whichever way they are decided"""

    def _named(self, obs):
        for o in obs:
            o.name = f"{self.name}/the codes keep the axis of the clock"
        return obs

    def obligations(self):
        return self._named(HostCase.obligations(self))

    def bounded_obligations(self):
        return self._named(HostCase.bounded_obligations(self))

    def conform(self, rng):
        return None


def index_cases(P):
    out = []

    def from_stream(ob, plan):
        m = Y.load("wax.stream", Y.Hooks(None), dict(xr=Xr, onp=OnpIndex()))
        n = z3.Int("n")
        a, b = M.MA((n,), "int64", z3.Function("a", z3.IntSort(), z3.IntSort())), M.MA((n, 3), "int64", z3.Function("b", z3.IntSort(), z3.IntSort(), z3.IntSort()))
        r = m.get_dataset_index_from_stream_index({"t": m.StreamObservation(None, {"t_index": a, "other": None}), "s": m.StreamObservation(None, {"s_index": b})})
        ob("one variable per clock", set(r) == {"t", "s"})
        ob("its positions, step by step", r["t"].values is a and r["t"].dims == ("step",))
        ob("its buffered positions, step by step", r["s"].values is b and r["s"].dims == ("step", "s_buffer_index"))

    def c_from(rng):
        S = real()
        n = int(rng.integers(1, 6))
        a, b = rng.integers(-9, 9, n), rng.integers(-9, 9, (n, 3))
        r = S.get_dataset_index_from_stream_index({"t": S.StreamObservation(None, {"t_index": a}), "s": S.StreamObservation(None, {"s_index": b})})
        if not (np.array_equal(r["t"].values, a) and np.array_equal(r["s"].values, b)):
            return dict(call="get_dataset_index_from_stream_index", a=a.tolist(), b=b.tolist())
    out.append(HostCase(P, "get_dataset_index_from_stream_index", [FILE + "get_dataset_index_from_stream_index"], from_stream, c_from))

    def ds_index(rank):
        def scenario(ob, plan):
            m = Y.load("wax.stream", Y.Hooks(None), dict(xr=Xr, onp=OnpIndex()))
            n, k, j = z3.Int("n"), z3.Int("k"), z3.Int("j")
            sh = tuple(z3.Int(f"d{q}") for q in range(rank))
            Y.EX.assume(And(T.le(0, k), T.lt(k, n), *[T.le(1, d) for d in sh]))
            it = XA(M.MA((n,), "int64", z3.Function("it", z3.IntSort(), z3.IntSort())), "step")
            is_ = XA(M.MA((n, 2), "int64", z3.Function("is", z3.IntSort(), z3.IntSort(), z3.IntSort())), ("step", "s_buffer_index"))
            ds = XD(dict(v=XA(Data((z3.Int("nt"), 4)), ("t", "c")), w=XA(Data((z3.Int("ns"),)), ("s",)), const=XA(Data(sh), tuple(f"c{q}" for q in range(rank)))))
            r = m.get_dataset_index(ds, XD(dict(t=it, s=is_)))
            ob("one index per variable", set(r) == {"v", "w", "const"})
            ob("a variable is read at the positions of its clock", r["v"] is it and r["w"] is is_)
            c = r["const"].values
            if rank == 0:
                ob("a variable without axes is read at every step", c.ndim == 1 and T.eq(c.shape[0], n))
                ob("at a valid position", T.le(0, c.f(k)))
            else:
                ob("a constant variable is read at every step", c.ndim == 2 and T.eq(c.shape[0], n))
                ob("all of it", T.eq(c.shape[1], sh[0]) if c.ndim == 2 else False)
                if c.ndim == 2:
                    ob("in order", T.Implies(And(T.le(0, j), T.lt(j, sh[0])), T.eq(c.f(k, j), j)))

        def concrete(rng):
            import jax.numpy as jnp
            import xarray as xr
            S = real()
            n = int(rng.integers(1, 5))
            sh = tuple(int(x) for x in rng.integers(1, 4, rank))
            c = rng.normal(size=sh).astype("float32")
            v = rng.normal(size=(n, 2)).astype("float32")
            ds = xr.Dataset({"v": (("t", "c"), v), "const": (tuple(f"c{q}" for q in range(rank)), c)}, coords={"t": np.arange(n).astype("<M8[ns]")})
            ti = rng.integers(0, n, n)
            r = S.dataset_to_numpy(S.get_dataset_index(ds, xr.Dataset({"t": ("step", ti)})))
            for k in range(n):
                got = np.asarray(S.access_data(k, jnp.asarray(c), jnp.asarray(r["const"])))
                if got.shape != c.shape or not np.array_equal(got, c):
                    return dict(call="get_dataset_index / access_data", constant=c.tolist(), step=k, got=got.tolist())
                if not np.array_equal(S.access_data(k, jnp.asarray(v), jnp.asarray(r["v"])), v[ti[k]]):
                    return dict(call="get_dataset_index / access_data", v=v.tolist(), step=k)
        return HostCase(P, f"get_dataset_index.{rank}d", [FILE + "get_dataset_index"], scenario, concrete)
    out += [ds_index(r) for r in (0, 1, 2)]

    def time_ds(ob, plan):
        m = Y.load("wax.stream", Y.Hooks(None), dict(xr=Xr, onp=OnpIndex()))
        n1, n2, j = z3.Int("n1"), z3.Int("n2"), z3.Int("j")
        c = dict(t=XA(Data((n1,), "<M8[ns]"), "t"), s=XA(Data((n2,), "<M8[ns]"), "s"), x=XA(Data((5,)), "x"))
        ds = XD(dict(v=XA(Data((n1, 5)), ("t", "x"))), c)
        r = m.get_time_dataset(ds)
        ob("one position variable per clock", set(r) == {"t_index", "s_index"})
        for nm, n in (("t", n1), ("s", n2)):
            v = r[nm + "_index"]
            ob(f"{nm}: as many positions as times", T.eq(v.values.shape[0], n) if v.values.ndim == 1 else False)
            ob(f"{nm}: in order", T.eq(v.values.f(j), j))
            ob(f"{nm}: against its own times", v.dims == (nm,) and v.coords.get(nm) is c[nm].values)

    def mk(rng):
        import xarray as xr
        n1, n2 = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        t, s = (np.sort(rng.integers(0, 40, n)) * 6 * 3600 * 10**9 for n in (n1, n2))
        t, s = t.astype("<M8[ns]"), s.astype("<M8[ns]")
        return xr.Dataset({"v": (("t", "x"), rng.normal(size=(n1, 2)).astype("float32")), "w": (("s",), rng.normal(size=n2).astype("float32")),
                           "u": (("t",), rng.integers(0, 9, n1).astype("int32")), "c": (("x",), rng.normal(size=2).astype("float32"))},
                          coords={"t": t, "s": s, "x": np.arange(2)})

    def c_time(rng):
        d = mk(rng)
        r = real().get_time_dataset(d)
        if set(r) != {"t_index", "s_index"} or not all(np.array_equal(r[c + "_index"].values, np.arange(len(d[c]))) and np.array_equal(r.coords[c].values, d[c].values) for c in "ts"):
            return dict(call="get_time_dataset")
    out.append(HostCase(P, "get_time_dataset", [FILE + "get_time_dataset", FILE + "get_dataset_time_coords"], time_ds, c_time))

    def split(ob, plan):
        m = Y.load("wax.stream", Y.Hooks(None), dict(xr=Xr, onp=OnpIndex()))
        n1, n2 = z3.Int("n1"), z3.Int("n2")
        c = dict(t=XA(Data((n1,), "<M8[ns]"), "t"), s=XA(Data((n2,), "<M8[us]"), "s"), x=XA(Data((5,)), "x"))
        vs = dict(v=XA(Data((n1, 5)), ("t", "x")), w=XA(Data((n2,)), ("s",)), k=XA(Data((5,)), ("x",)), z=XA(Data(()), ()), u=XA(Data((5, n1)), ("x", "t")))
        r = m.split_dataset_from_time_dims(XD(vs, c))
        ob("one dataset per clock", set(r) == {"t", "s"})
        ob("each holds its times and exactly the variables on its clock", dict(r["t"]) == dict(t=c["t"], v=vs["v"], u=vs["u"]) and dict(r["s"]) == dict(s=c["s"], w=vs["w"]))

    def c_split(rng):
        d = mk(rng)
        r = real().split_dataset_from_time_dims(d)
        if set(r) != {"t", "s"} or set(r["t"].data_vars) != {"v", "u"} or set(r["s"].data_vars) != {"w"} or not r["t"]["v"].equals(d["v"]) or not r["s"]["w"].equals(d["w"]):
            return dict(call="split_dataset_from_time_dims", got={k: list(v) for k, v in r.items()})
    out.append(HostCase(P, "split_dataset_from_time_dims", [FILE + "split_dataset_from_time_dims"], split, c_split))

    # ------------------------------------------------------------------------------- trace_dataset: from a dataset to positions
    def trace(clocks):
        def scenario(ob, plan):
            D = Tok("dataset")
            tds = {c: {c: XA(Tok("times", c), c)} for c in ("t", "s")[:clocks]}
            td = Tok("time dataset")

            def want(x, *how):
                if x != Tok(*how):
                    raise Y.Mismatch("order of the passes")
            seen = {}

            def from_stream(x):
                seen["stream"] = x
                return {"t": Lens("t"), "s": Lens("s")}

            def ds_index(d, x):
                want(d, "dataset")
                seen["second"] = x
                return Tok("dataset index")

            class Lens:
                def __init__(self, c):
                    self.c = c

                def wv_seq(self):
                    return Y.SymSeq(z3.Int("len_" + self.c), lambda i: Tok("x"))

            class Jnp:
                def arange(self, n):
                    return Tok("arange", Id(term(n)))

            def streams(d):
                if d is not tds:
                    raise Y.Mismatch("streams")
                return Tok("streams")

            def get_td(d):
                want(d, "dataset")
                return td

            def split(d):
                want(d, "time dataset")
                return tds
            m = Y.load("wax.stream", Y.Hooks(None), dict(
                get_time_dataset=get_td, split_dataset_from_time_dims=split, get_dataset_index_from_stream_index=from_stream, get_dataset_index=ds_index, jnp=Jnp(),
                dataset_to_numpy=lambda d: Tok("numpy", d) if isinstance(d, Tok) else Tok("numpy", *sorted(d)), unroll_stream=lambda s, skip_first=False, pbar=True: Tok("unrolled", s) if not skip_first else Tok("bad")))

            class S(m.Stream):
                start_dataset_streams = staticmethod(streams)
                merge = staticmethod(lambda x: Tok("merged", x))
            r = S("t" if clocks == 2 else "").trace_dataset(D)
            st = seen.get("stream")
            if clocks == 2:
                ob("the positions are those of the merged streams", st == Tok("unrolled", Tok("merged", Tok("streams"))))
            else:
                ob("a single clock is read in order", set(st) == {"t"} and st["t"].time == Tok("times", "t") and st["t"].value == Tok("numpy", "t"))
            ob("data and positions of every variable", r[0] == Tok("numpy", D) and r[1] == Tok("numpy", Tok("dataset index")) and seen["second"].keys() == {"t", "s"})
            ob("one step per local event", r[2] == Tok("arange", Id(z3.Int("len_t"))))

        def concrete(rng):
            return walk_real(rng, mk(rng), clocks)
        return HostCase(P, f"trace_dataset.{clocks}", [FILE + "Stream.trace_dataset", FILE + "Stream.start_dataset_streams", FILE + "Stream.get_local_time"], scenario, concrete)
    out += [trace(1), trace(2)]

    # ------------------------------------------------------------------------------- variables of strings on a clock
    def strings(nd):
        def scenario(ob, plan):
            from .encode import Strings, load
            n = [z3.Int(f"n{k}") for k in range(nd)]
            f = z3.Function("s", *[z3.IntSort()] * nd, z3.IntSort())
            Y.EX.assume(And(*[T.le(1, x) for x in n]))
            v = Strings(n, f)
            c = load().string_encoder(v).encode(v)
            ob("the codes keep the axis of the clock", T.eq(c.shape[0], n[0]))

        def concrete(rng):
            import jax
            import xarray as xr
            S = real()
            sh = tuple(int(x) for x in rng.integers(2, 4, nd))
            v = np.array(["a", "b", "c", "d", "e"])[rng.integers(0, 5, sh)]
            d = xr.Dataset({"v": (("t", "x", "y")[:nd], v)}, coords={"t": np.arange(sh[0]).astype("<M8[ns]")})
            s = S.Stream("t")
            enc = s.get_encoders(d)["v"]
            data, idx, xs = s.trace_dataset(d)
            codes = np.asarray(enc.encode(v)).reshape(sh)
            data = S.encode_dataset(s.get_encoders(d), data)
            for k in range(sh[0]):
                got = np.asarray(S.access_data(k, jax.numpy.asarray(data["v"]), jax.numpy.asarray(idx["v"])))
                if got.shape != codes[k].shape or not np.array_equal(got, codes[k]):
                    return dict(call="trace_dataset / access_data", strings=v.tolist(), step=k, got=got.tolist(), expected=codes[k].tolist())
        return OneObligation(P, f"strings on a clock.{nd}d", ["src/wax/encode.py:string_encoder", FILE + "Stream.prepare"], scenario, concrete)
    out += [strings(1), strings(2)]
    return out


def walk_real(rng, d, clocks):
    """positions precomputed, then read: what walking the events gives"""
    import jax.numpy as jnp
    S = real()
    F, Q, B = {}, {}, {}
    if clocks == 1:
        d = d[["v", "u", "c"]].drop_vars("s", errors="ignore")
    else:
        F = {"s": True} if rng.integers(0, 2) else {}
        Q = {"s": "d"} if rng.integers(0, 2) else {}
        B = {"s": int(rng.integers(1, 4))} if rng.integers(0, 2) else {}
    info = dict(call="Stream.trace_dataset / tree_access_data", times={c: d[c].values.astype("int64").tolist() for c in "ts" if c in d.coords}, ffills=F, freqs=Q, buffer_maxlen=B)
    st = S.Stream("t" if clocks == 2 else "", Q, F, B)
    try:
        data, idx, xs = st.trace_dataset(d)
        data, idx = ({k: jnp.asarray(v) for k, v in z.items()} for z in (data, idx))
        got = [S.tree_access_data(data, idx, k) for k in range(len(xs))]
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])
    if len(xs) != len(d["t"]):
        return dict(info, got=len(xs))
    prev = 0
    for k, t in enumerate(d["t"].values):
        g = got[k]
        want = {"v": d["v"].values[k], "u": d["u"].values[k], "c": d["c"].values}
        if clocks == 2:
            lim = t.astype("<M8[D]").astype("<M8[ns]") if Q else t
            n = int((d["s"].values < lim).sum())
            m = n if F or n > prev else 0
            prev = n
            M_ = B.get("s", 1)
            w = ([np.nan] * M_ + d["w"].values[:m].tolist())[-M_:]
            want["w"] = np.array(w if B else w[0], "float32")
        for nm, x in want.items():
            y = np.asarray(g[nm])
            if y.shape != np.shape(x) or not np.array_equal(y, x, equal_nan=y.dtype.kind == "f"):
                return dict(info, step=k, variable=nm, got=y.tolist(), expected=np.asarray(x).tolist())
    return None


def cases(P, tier):
    return merge_cases(P) + buffer_cases(P) + dataset_cases(P) + access_cases(P) + index_cases(P)
