"""wax.flax.debug: watching a streaming function never changes it, and records every application once."""
import collections
import contextlib
import inspect
import io
import itertools
import sys

import numpy as np
import z3

from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Tok

D = "src/wax/flax/debug/debugger.py:"
F = "src/wax/flax/debug/profiler.py:"
M = "src/wax/flax/debug/memory_tracker.py:"
MOD = {"debug": "wax.flax.debug.debugger", "profile": "wax.flax.debug.profiler", "memory": "wax.flax.debug.memory_tracker"}
Pair = collections.namedtuple("Pair", "a b")


# ------------------------------------------------------------------------------------------------------- stand-ins, by contract
def real(name):
    return Y.wrap("f", T.FV(val=z3.Real(name)))


def integer(name, lo=None):
    v = z3.Int(name)
    if lo is not None:
        Y.EX.assume(v >= lo)
    return Y.wrap("i", v)


def boolean(name):
    return Y.wrap("b", z3.Bool(name))


def eq(a, b):
    """the same arbitrary values"""
    if isinstance(a, Y.Sc) or isinstance(b, Y.Sc):
        if a is None or b is None or isinstance(a, (str, Tok)) or isinstance(b, (str, Tok)):
            return False
        ka, kb = Y.unwrap(a), Y.unwrap(b)
        if "f" in (ka[0], kb[0]):
            return T.feq(Y._tof(ka), Y._tof(kb))
        return Y.elem_op("eq", ka, kb)[1]
    if isinstance(a, (Tok, str, int, float, type(None))) or isinstance(b, (Tok, str, int, float, type(None))):
        return type(a) is type(b) and bool(a == b)
    return a is b


class Clock:
    """a clock that never goes back; its readings are numbered"""

    def __init__(self):
        self.n, self.v = 0, []

    def tick(self):
        v = real(f"t{self.n}")
        if self.v:
            Y.EX.assume(Y.unwrap(v)[1].val >= Y.unwrap(self.v[-1])[1].val)
        self.n += 1
        self.v.append(v)
        return v

    def __getattr__(self, nm):
        if nm in ("time", "perf_counter", "monotonic"):
            return self.tick
        raise Y.Mismatch("time." + nm)


class Arr:
    """an arbitrary jax array (which cannot be changed)"""

    def __init__(self, name):
        self.name, self.nbytes, self.shape = name, Y.wrap("i", z3.Int(name + ".nbytes")), (Tok("shape", name),)

    def copy(self):
        return Arr(self.name)

    def __bool__(self):
        raise Y.Mismatch("truth value of an arbitrary array")

    def __str__(self):
        return f"text of {self.name}"

    def __sub__(self, o):
        return Tok("difference", self.name, o.name)

    def __len__(self):
        raise Y.Mismatch("length of an arbitrary array")


class _Nd(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr)


class Jnp:
    ndarray = _Nd("ndarray", (), {})

    @staticmethod
    def copy(x):
        if not isinstance(x, Arr):
            raise TypeError("not an array")
        return x.copy()

    array = asarray = copy

    class linalg:
        @staticmethod
        def norm(x):
            if not isinstance(x, Tok) or x.how[0] != "difference":
                raise Y.Mismatch("norm")
            v = z3.Real("norm " + " ".join(sorted(x.how[1:])))
            Y.EX.assume(v >= 0)
            return Y.wrap("f", T.FV(val=v))


class Jax:
    Array = Jnp.ndarray
    numpy = Jnp

    def __getattr__(self, nm):
        import jax
        if nm in ("tree_util", "tree"):
            return getattr(jax, nm)
        raise Y.Mismatch("jax." + nm)


class Past:
    """a record of arbitrary length, bounded or not; what is appended to it is kept"""

    def __init__(self, nm="", maxlen=None, n=None):
        self.nm, self.maxlen, self.new, self.cleared = nm, maxlen, [], 0
        self.n = z3.Int("length of " + nm) if n is None else n

    def append(self, x):
        self.new.append(x)

    def clear(self):
        self.cleared += 1
        self.new, self.n = [], 0

    def __bool__(self):
        return True if self.new else Y.EX.fork(self.n > 0) if not isinstance(self.n, int) else self.n > 0

    def wv_seq(self):
        if isinstance(self.n, int):
            return None
        Y.EX.assume(self.n >= 0)
        total = self.n + len(self.new)
        if self.maxlen is not None:
            total = z3.If(total > self.maxlen, self.maxlen, total)

        def at(i):
            raise Y.Mismatch("an earlier entry of a record is read")
        return Y.SymSeq(total, at)


class Pasts(dict):
    """records by name"""

    def __init__(self, nm):
        self.nm = nm

    def __missing__(self, k):
        self[k] = Past(f"{self.nm} {k}")
        return self[k]

    def clear(self):
        self.cleared = True
        dict.clear(self)


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class Threading:
    RLock = Lock = Lock

    @staticmethod
    def active_count():
        return Tok("threads")


class Each:
    """one loop over arbitrary elements: an arbitrary iteration is executed alone"""

    def __init__(self, ob, check):
        self.ob, self.check, self.L = ob, check, None

    def enter(self, L, loc):
        if self.L is not None:
            raise Y.Mismatch("a second loop")
        self.L = L
        return {}

    def back(self, L, loc):
        self.check(L.idx)


class Elements:
    """a dict of arbitrarily many elements; element(i) makes the i-th"""

    def __init__(self, element):
        self.n = z3.Int("number of elements")
        self.element, self.made = element, []

    def seq(self, f):
        Y.EX.assume(self.n >= 0)

        def at(i):
            for j, e in self.made:
                if Y.EX.fork(T.eq(i, j)):
                    return e
            e = self.element(i)
            self.made.append((i, e))
            return e
        return Y.SymSeq(self.n, lambda i: f(i, at(i)))

    def values(self):
        return self.seq(lambda i, e: e)

    def items(self):
        return self.seq(lambda i, e: (Tok("name of element"), e))

    def __iter__(self):
        raise Y.Mismatch("iteration over names")


class _Float(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Y.Sc) and x.kind == "f"

    def __call__(cls, x=0.):
        return x if isinstance(x, Y.Sc) else float(x)


Float = _Float("float", (), {})


def load(which, handler=None, **shims):
    sh = dict(jnp=Jnp, jax=Jax(), threading=Threading, print=lambda *a, **k: None)
    sh.update(shims)
    m = Y.load(MOD[which], Y.Hooks(handler), sh)
    m.float = Float
    return m


def bound(f, a, k):
    """arguments of a call by the names of the parameters"""
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


class Failure(Exception):
    pass


# ------------------------------------------------------------------------------------------------------- the wrappers
RESULTS = [("pair", lambda: (Tok("y"), Tok("s'"))), ("triple", lambda: (Tok("y"), Tok("s'"), Tok("z"))), ("single", lambda: Tok("y")),
           ("list", lambda: [Tok("y"), Tok("s'")]), ("none", lambda: None), ("one", lambda: (Tok("y"),)),
           ("nested", lambda: ((Tok("y"), Tok("w")), {"a": Tok("s'")}))]


def wrapped(which, m, log, opts):
    """the decorator of a tool whose recording method is replaced by its contract"""
    if which == "debug":
        class Tool(m.StreamingDebugger):
            def step(self, *a, **k):
                log.append(("record", bound(m.StreamingDebugger.step, (self, *a), k)))
        t = object.__new__(Tool)
        t.enabled = True
        return t, lambda **k: m.debug_streaming(t, **k, **({"enable_timing": opts} if opts is not None else {}))
    if which == "profile":
        class Tool(m.StreamingProfiler):
            def record_metrics(self, *a, **k):
                log.append(("record", bound(m.StreamingProfiler.record_metrics, (self, *a), k)))
        t = object.__new__(Tool)
        t.enabled = True
        return t, lambda **k: m.profile_streaming(t, **k, **({"enable_detailed_tracking": opts} if opts is not None else {}))

    class Tool(m.MemoryTracker):
        def take_snapshot(self, *a, **k):
            log.append(("record", bound(m.MemoryTracker.take_snapshot, (self, *a), k)))
    t = object.__new__(Tool)
    t.enabled = True
    return t, lambda **k: m.track_memory_usage(t, **k, **({"detailed_state_analysis": opts} if opts is not None else {}))


def original(named, result, fail, log, clock, transform=True):
    class O:
        if transform:
            def init(self, *a, **k):
                log.append(("init", a, k))
                if fail:
                    raise fail
                return result

            def apply(self, *a, **k):
                log.append(("apply", a, k, clock.n))
                clock.tick()
                clock.tick()
                if fail:
                    raise fail
                return result

        def __call__(self, *a, **k):
            log.append(("call", a, k))
            if fail:
                raise fail
            return result
    o = O()
    if named:
        o.__name__ = "name of the function"
    return o


def same_call(c, what, a, k):
    return c[0] == what and len(c[1]) == len(a) and all(x is y for x, y in zip(c[1], a)) and c[2].keys() == k.keys() and all(c[2][n] is k[n] for n in k)


def wrapper_case(P, which):
    fn = {"debug": D + "debug_streaming", "profile": F + "profile_streaming", "memory": M + "track_memory_usage"}[which]

    def scenario(ob, plan):
        for (rn, mk), nargs, kws, named, given, opts in itertools.product(RESULTS, (0, 1, 2), ((), ("o",)), (True, False), (True, False), (None, True, False)):
            for fail in (None, Failure("as raised")):
                if fail and (nargs, rn) != (1, "pair"):
                    continue
                if opts is not None and (kws or not given):
                    continue
                log, clock = [], Clock()
                m = load(which, time=clock)
                t, deco = wrapped(which, m, log, opts)
                res = mk()
                o = original(named, res, fail, log, clock)
                w = deco(**({"module_name": "given name"} if given else {}))(o)
                tag = f"{rn}.{nargs}.{len(kws)}.{'n' if named else '-'}{'g' if given else '-'}.{opts}.{'raises' if fail else 'returns'}"
                p, s, r = Tok("params"), Tok("state"), Tok("key")
                xs, kw = tuple(Tok("x", i) for i in range(nargs)), {k: Tok("option", k) for k in kws}
                for what, f, a in (("init", lambda *a, **k: w.init(*a, **k), (r, *xs)), ("call", lambda *a, **k: w(*a, **k), xs), ("apply", lambda *a, **k: w.apply(*a, **k), (p, s, r, *xs))):
                    del log[:]
                    out = exc = None
                    try:
                        out = f(*a, **kw)
                    except Failure as e:
                        exc = e
                    calls = [(i, c) for i, c in enumerate(log) if c[0] != "record"]
                    recs = [(i, c[1]) for i, c in enumerate(log) if c[0] == "record"]
                    ok = len(calls) == 1 and same_call(calls[0][1], what, a, kw)
                    ob(f"{tag}/{what}: the function is called once, with the arguments given", ok)
                    ob(f"{tag}/{what}: its own result, or its own error", exc is fail and (out is res if not fail else True))
                    if what != "apply":
                        ob(f"{tag}/{what}: nothing is recorded", not recs)
                        continue
                    if not ok:
                        continue
                    pair = isinstance(res, tuple) and len(res) == 2
                    names = ["given name"] if given else ["name of the function"] if named else None
                    ob(f"{tag}/recorded under its name", all((a_["module_name"] in names) if names else isinstance(a_["module_name"], str) for _, a_ in recs))
                    at = calls[0][0]
                    if which == "debug":
                        ob(f"{tag}/an application is recorded once, after it returned", len(recs) == (0 if fail else 1) and all(i > at for i, _ in recs))
                        for _, a_ in recs:
                            ob(f"{tag}/first input, output and new state", eq(a_["input_data"], xs[0] if xs else None) and a_["output"] is (res[0] if pair else res)
                               and a_["state"] is (res[1] if pair else s))
                            elapsed(ob, tag, a_["execution_time"], opts, clock, calls[0][1][3])
                    elif which == "profile":
                        ob(f"{tag}/an application is recorded once, after it returned", (len(recs) <= 1 if fail else len(recs) == 1) and all(i > at for i, _ in recs))
                        for _, a_ in recs:
                            elapsed(ob, tag, a_["execution_time"], None, clock, calls[0][1][3])
                            if not fail:
                                ob(f"{tag}/with the sizes of its first input and of its result",
                                   eq(a_["input_data"], xs[0] if xs and opts is not False else None) and a_["output_data"] is (res if opts is not False else None)
                                   and a_["jit_compilation"] is False)
                    elif not fail:
                        ob(f"{tag}/memory is looked at once before and once after", [i < at for i, _ in recs] == [True, False])
                        if len(recs) == 2:
                            ob(f"{tag}/with the new state after, as asked", recs[0][1]["state"] is None and recs[1][1]["state"] is (res[1] if pair and opts is not False else None)
                               and not recs[0][1]["force"] and not recs[1][1]["force"])
        # a tool made by the decorator
        log, clock = [], Clock()
        m = load(which, time=clock, **QUIET)
        res = (Tok("y"), Tok("s'"))
        w = getattr(m, fn.split(":")[1])()(original(True, res, None, log, clock))
        with contextlib.redirect_stdout(io.StringIO()):
            if which != "memory":
                ob("a tool of its own/the result is the same", w.init(1) is res and w(2) is res)
        # a plain function
        for given in (True, False):
            log, clock = [], Clock()
            m = load(which, time=clock, **QUIET)
            t, deco = wrapped(which, m, log, None)
            res = Tok("y")
            o = original(True, res, None, log, clock, transform=False)
            w = deco(module_name="given name")(o)
            x = Tok("x")
            ob("plain/called as it is", w(x, k=x) is res and same_call(log[0], "call", (x,), {"k": x}) and len(log) == 1)
            ob("plain/nothing to apply", not hasattr(w, "apply") and not hasattr(w, "init"))
            del log[:]
    return HostCase(P, fn.split(":")[1], [fn], scenario, lambda rng: wrapper_real(rng, which))


def elapsed(ob, tag, v, timing, clock, at):
    if timing is False:
        ob(f"{tag}/not timed when asked not to be", v is None)
        return
    if not isinstance(v, (Y.Sc, int, float)):
        ob(f"{tag}/the time it took", False)
        return
    g = Y._tof(Y.unwrap(v))
    t = [Y.unwrap(x)[1].val for x in clock.v]
    ob(f"{tag}/the time it took", z3.And(T.zb(T.Not(g.nan)), T.zb(g.val >= t[at + 1] - t[at]), T.zb(g.val <= t[-1] - t[0])))


class Tm:
    start = staticmethod(lambda *a: None)
    get_traced_memory = staticmethod(lambda: (0, 0))


QUIET = {"tracemalloc": Tm}


# ------------------------------------------------------------------------------------------------------- copies
def trees():
    a, b = Arr("array a"), Arr("array b")
    obj = lambda n: np.array([Tok(n), Tok("u")], dtype=object)   # noqa: E731
    return [("array", lambda: a), ("numpy", lambda: obj("v")), ("none", lambda: None), ("text", lambda: "s"), ("number", lambda: 3), ("other", lambda: Tok("object")),
            ("empty", lambda: {}), ("dict", lambda: {"x": a, "y": obj("v")}), ("nested", lambda: {"m": {"x": [1, 2], "y": {"z": obj("v")}}, "n": b}),
            ("list", lambda: [a, obj("v"), [1]]), ("tuple", lambda: (a, {"k": 1}, (2, [b]))), ("named", lambda: Pair(a, {"k": obj("v")})),
            ("named inside", lambda: {"s": Pair(Pair(a, 1), [b])}), ("state", lambda: {"state": {"c": [1, a], "t": Pair(b, 2)}, "other": 1})]


def canon(x):
    if isinstance(x, Arr):
        return ("array", x.name)
    if isinstance(x, np.ndarray):
        return ("numpy", tuple(x.tolist()))
    if isinstance(x, dict):
        return ("dict", tuple((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x), tuple(canon(v) for v in x))
    return x


def spoil(x):
    """change everything that can be changed in place"""
    if isinstance(x, np.ndarray):
        x[:] = [Tok("spoilt")] * len(x)
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.append("spoilt")


def unspoilt(f, mk):
    """what f(value) gives, after the value has been changed in place everywhere"""
    x = mk()
    want = canon(x)
    r = f(x)
    ok = canon(x) == want
    spoil(x)
    return ok and canon(r) == want


# ------------------------------------------------------------------------------------------------------- hooks
def hook_cases(P):
    out = []

    def check(ob, plan):
        for kind in ("none", "true", "false", "raises"):
            m = load("debug", time=Clock())
            seen = []
            c = boolean("condition")

            def cond(*a):
                seen.append(a)
                if kind == "raises":
                    raise ZeroDivisionError("in a condition")
                return {"true": True, "false": False}.get(kind, c)
            h = m.DebugHook(Tok("name"), None if kind == "none" else cond)
            on = boolean("enabled")
            h.enabled = on
            a = (Tok("step"), Tok("state"), Tok("input"), Tok("output"))
            r = h.check_condition(*a)
            e = Y.unwrap(on)[1]
            ob(f"{kind}/a hook fires iff it is enabled and its condition holds", T.Iff(bool(r) if not isinstance(r, Y.Sc) else Y.unwrap(r)[1], T.And(e, kind == "true")))
            ob(f"{kind}/the condition is asked about this step", all(len(s) == 4 and all(x is y for x, y in zip(s, a)) for s in seen) and len(seen) <= 1)
    out.append(HostCase(P, "DebugHook.check_condition", [D + "DebugHook.check_condition"], check, lambda rng: debugger_real(rng)))

    def trigger(ob, plan):
        for action, (nm, mk), meta in itertools.product(("log", "capture", "alert", "other"), trees(), (None, {"a": 1})):
            m = load("debug", time=Clock(), deque=lambda *a, maxlen=None: Past("events", maxlen))
            h = m.DebugHook("h", None, action, max_events=Tok("most"))
            h.hit_count = integer("hits", 0)
            h0 = h.hit_count
            ev = h.events
            s, i, o = mk(), mk(), mk()
            want = canon(mk())
            h.trigger(7, "module", s, i, o, meta)
            ob(f"{action}.{nm}/nothing watched is changed", canon(s) == canon(i) == canon(o) == want)
            for x in (s, i, o):
                spoil(x)
            ob(f"{action}.{nm}/counted", eq(h.hit_count, h0 + 1))
            ok = h.events is ev and len(ev.new) == 1 and ev.maxlen == Tok("most") and not ev.cleared
            ob(f"{action}.{nm}/one event is added, to the last max_events ones", ok)
            if ok:
                e = ev.new[0]
                ob(f"{action}.{nm}/the event is of this step", e.step == 7 and e.module_name == "module" and e.event_type == "state_change" and e.metadata == (meta or {}))
                ob(f"{action}.{nm}/its state, input and output are those of the step, whatever becomes of them", canon(e.state_snapshot) == canon(e.input_data) == canon(e.output_data) == want)
    out.append(HostCase(P, "DebugHook.trigger", [D + "DebugHook.trigger", D + "DebugHook._safe_copy", D + "DebugHook._deep_copy_state"], trigger, lambda rng: debugger_real(rng)))

    def breaks(ob, plan):
        for cmds, quits in ((("c",), False), (("s", "i", "o", "h", "?", "Continue "), False), (("q",), True), (("s", "QUIT"), True), ((), False)):
            it = iter(cmds)

            def ask(*a):
                for c in it:
                    return c
                raise EOFError
            m = load("debug", input=ask, traceback=type("Tb", (), {"format_stack": staticmethod(lambda *a: ["stack"])}))
            h = m.DebugHook("h", None, "break")
            exc = None
            try:
                h.trigger(3, "m", {"a": 1}, 2, 3)
            except KeyboardInterrupt as e:
                exc = e
            ob(f"{cmds}/a breakpoint is left by continuing, and stops the run only on quit", (exc is not None) is quits and next(it, None) is None)
            ob(f"{cmds}/its event is kept", h.hit_count == 1 and len(h.events) == 1 and h.events[0].event_type == "breakpoint" and h.events[0].stack_trace == ["stack"])
    out.append(HostCase(P, "DebugHook.breakpoint", [D + "DebugHook._interactive_break"], breaks))
    return out


# ------------------------------------------------------------------------------------------------------- debugger
def debugger_self(m, **kw):
    d = m.StreamingDebugger(**kw)
    d.session_start_time = real("start")
    return d


def debugger_cases(P):
    out = []

    def step(ob, plan):
        log = []
        cond = z3.Function("condition of hook", z3.IntSort(), z3.BoolSort())

        class Hook:
            def __init__(self, i):
                self.i, self.log = i, []

            def check_condition(self, *a):
                self.log.append(("check", a))
                return Y.wrap("b", cond(self.i if not isinstance(self.i, int) else z3.IntVal(self.i)))

            def trigger(self, *a, **k):
                self.log.append(("trigger", bound(m.DebugHook.trigger, (self, *a), k)))

        hooks = Elements(Hook)
        a = dict(module_name=Tok("module"), state=Tok("state"), input_data=Tok("input"), output=Tok("output"))
        timed = Y.EX.fork(z3.Bool("timed"))
        et = real("elapsed") if timed else None

        def asked(i):
            (h,) = [e for _, e in hooks.made]
            c = T.zb(cond(h.i))
            ob("every hook is asked once, about this step", len([1 for x in h.log if x[0] == "check"]) == 1 and h.log[0][0] == "check" and len(h.log[0][1]) == 4 and
               all(x is y for x, y in zip(h.log[0][1][1:], (a["state"], a["input_data"], a["output"]))))
            ob("step number of the question", eq(h.log[0][1][0], n0 + 1))
            tr = [x[1] for x in h.log if x[0] == "trigger"]
            ob("a hook fires iff its condition holds, once", T.Iff(len(tr) == 1, c) if len(tr) < 2 else False)
            for t in tr:
                ob("with the step, the module, the state, the input and the output", T.And(eq(t["step"], n0 + 1),
                   all(t[k] is a[k] for k in a)))
                md = t["metadata"]
                ob("the time it took is told in milliseconds", isinstance(md, dict) and "execution_time_ms" in md and
                   (T.Or(T.feq(Y._tof(Y.unwrap(et)), T.fv(0)), eq(md["execution_time_ms"], et * 1000)) if timed and md["execution_time_ms"] is not None else
                    T.feq(Y._tof(Y.unwrap(et)), T.fv(0)) if timed else md["execution_time_ms"] is None))
            final()

        m = load("debug", Each(ob, asked), time=Clock(), deque=lambda *a, maxlen=None: Past("history", maxlen))
        d = debugger_self(m)
        d._safe_copy_state = lambda s: Tok("copy", s)
        d.hooks = hooks
        d.enabled = boolean("enabled")
        d.enable_state_tracking = boolean("track state")
        d.enable_performance_tracking = boolean("track times")
        d.performance_data = Pasts("performance")
        d.current_step = integer("steps so far", 0)
        n0 = d.current_step
        hist = d.state_history

        def final():
            e, ts, tp = (z3.Bool(x) for x in ("enabled", "track state", "track times"))
            ob("counted iff enabled", eq(d.current_step, n0 + T.ite(e, 1, 0) if False else Y.wrap("i", z3.Int("steps so far") + z3.If(e, 1, 0))))
            ob("a copy of the state is kept iff asked", T.Iff(len(hist.new) == 1, T.And(e, ts)) if len(hist.new) < 2 else False)
            ob("the copy is of this state", all(isinstance(x, Tok) and x.how[0] == "copy" and x.how[1] is a["state"] for x in hist.new) and d.state_history is hist)
            pe, ps = (d.performance_data[k].new for k in ("execution_time", "step"))
            ob("the time is kept iff asked and known", T.Iff(len(pe) == 1, T.And(e, tp, timed)) if len(pe) == len(ps) < 2 else False)
            ob("it is the time of this step", all(x is et for x in pe) and (eq(ps[0], n0 + 1) if ps else True))
        d.step(**a, execution_time=et)
        final()
        ob("hooks are asked iff enabled", T.Iff(d_loop(m), z3.Bool("enabled")))
    out.append(HostCase(P, "StreamingDebugger.step", [D + "StreamingDebugger.step"], step, lambda rng: debugger_real(rng)))

    def state_copy(ob, plan):
        for nm, mk in trees():
            m = load("debug", time=Clock())
            d = debugger_self(m)
            ob(f"{nm}/the state kept is the one of the step, whatever becomes of it", unspoilt(d._safe_copy_state, mk))
        for nm, mk in trees():
            d = debugger_self(load("debug", time=Clock()))
            r = None

            def kept(s):
                nonlocal r
                r = d._safe_copy_state({"params": {"w": Arr("w"), "k": [Arr("v")]}, "state": s})
                return r["state_values"]
            ob(f"{nm}/beside parameters, of which the shapes are kept", unspoilt(kept, mk) and r["params_shapes"] == {"w": Arr("w").shape, "k": [Arr("v").shape]})
    out.append(HostCase(P, "StreamingDebugger.state_history", [D + "StreamingDebugger._safe_copy_state", D + "StreamingDebugger._safe_copy_tree", D + "StreamingDebugger._get_tree_shapes"], state_copy, lambda rng: debugger_real(rng)))

    def config(ob, plan):
        m = load("debug", time=Clock(), deque=lambda *a, maxlen=None: Past("history", maxlen))
        mh = Tok("longest")
        d = m.StreamingDebugger(max_history=mh)
        ob("starts enabled, with nothing recorded", d.enabled is True and d.current_step == 0 and d.hooks == {} and d.state_history.maxlen == mh and not d.state_history.new)
        h = m.DebugHook("a")
        ob("add_hook", d.add_hook(h) is d and d.hooks == {"a": h} and d.hooks["a"] is h)
        h2 = m.DebugHook("b")
        d.add_hook(h2)
        ob("hooks are kept beside each other", list(d.hooks) == ["a", "b"])
        h3 = m.DebugHook("a")
        d.add_hook(h3)
        ob("a hook of the same name replaces it", d.hooks["a"] is h3 and d.hooks["b"] is h2)
        ob("remove_hook", d.remove_hook("a") is d and list(d.hooks) == ["b"] and d.remove_hook("unknown") is d and list(d.hooks) == ["b"])
        c = lambda *a: True   # noqa: E731
        d.add_breakpoint("x", c)
        (k,) = set(d.hooks) - {"b"}
        ob("a breakpoint stops when its condition holds", d.hooks[k].condition is c and d.hooks[k].action == "break" and d.hooks[k].enabled is True)
        d.remove_hook(k)
        d.add_state_change_hook("x", c)
        (k,) = set(d.hooks) - {"b"}
        ob("a state hook logs when its condition holds", d.hooks[k].condition is c and d.hooks[k].action == "log")
        d.remove_hook(k)
        thr = real("threshold")
        d.add_performance_monitor("x", thr)
        (k,) = set(d.hooks) - {"b"}
        last = real("last")
        for n in (0, 1, 2):
            times = [real("earlier")] * (n - 1) + [last] * (n > 0)
            for present in (True, False):
                if n and not present:
                    continue
                d.performance_data = collections.defaultdict(list, {"execution_time": list(times)} if present else {})
                r = d.hooks[k].condition(Tok("step"), Tok("state"), Tok("input"), Tok("output"))
                if n == 0:
                    ob("no alert before the first time", not r)
                else:
                    r = r if isinstance(r, Y.Sc) else bool(r)
                    ob(f"{n}/a slow step alerts: the last time above the threshold", T.Iff(Y.unwrap(r)[1], T.flt(Y._tof(Y.unwrap(thr)), Y._tof(Y.unwrap(last * 1000)))))
        d.disable()
        ob("disable", d.enabled is False)
        d.enable()
        ob("enable", d.enabled is True)
    out.append(HostCase(P, "StreamingDebugger.hooks", [D + "StreamingDebugger." + x for x in ("__init__", "add_hook", "remove_hook", "add_breakpoint", "add_state_change_hook", "add_performance_monitor", "enable", "disable")], config))

    def conditions(ob, plan):
        m = load("debug", time=Clock())
        A = (Tok("state"),)
        thr, v = real("threshold"), real("value")

        def says(r, goal, nm, hyps=()):
            r = Y.unwrap(r)[1] if isinstance(r, Y.Sc) else bool(r)
            ob(nm, T.Iff(r, goal), hyps)
        above = T.flt(Y._tof(Y.unwrap(thr)), Y._tof(Y.unwrap(v)))
        says(m.value_threshold(thr)(Tok("step"), *A, v, Tok("output")), above, "the input is above the threshold")
        says(m.value_threshold(thr, "f")(Tok("step"), *A, {"g": real("other"), "f": v}, Tok("output")), above, "its field is above the threshold")
        says(m.value_threshold(thr, "f")(Tok("step"), *A, {"g": real("other")}, Tok("output")), T.flt(Y._tof(Y.unwrap(thr)), T.fv(0)), "a field that is missing counts as zero")
        says(m.value_threshold(thr, "f")(Tok("step"), *A, v, Tok("output")), above, "an input without fields is compared itself")
        n, k = integer("step", 0), integer("interval", 1)
        r = m.step_interval(k)(n, *A, Tok("input"), Tok("output"))
        rv = Y.unwrap(r)[1] if isinstance(r, Y.Sc) else bool(r)
        ob("every interval-th step", T.Iff(rv, Y.unwrap(n % k == 0)[1]))
        tol = real("tolerance")
        for kind in ("number", "array"):
            c = load("debug", time=Clock()).state_change_detector("f", tol)

            def val(j):
                return real(f"value{j}") if kind == "number" else Arr(f"value{j}")

            def dist(a, b):
                if kind == "array":
                    return Y._tof(Y.unwrap(Jnp.linalg.norm(a - b)))
                return Y._tof(Y.unwrap(abs(a - b)))

            def ask(x):
                r = c(Tok("step"), {"g": Tok("other"), "f": x}, Tok("input"), Tok("output"))
                return Y.EX.fork(Y.unwrap(r)[1]) if isinstance(r, Y.Sc) else bool(r)
            ob(f"{kind}/no change where the state has no such field", not c(Tok("step"), {"g": 1}, Tok("input"), Tok("output")) and not c(Tok("step"), Tok("state"), Tok("input"), Tok("output")))
            v0, v1, v2 = val(0), val(1), val(2)
            ob(f"{kind}/the first value is no change", ask(v0) is False)
            g = T.flt(Y._tof(Y.unwrap(tol)), dist(v1, v0))
            r1 = ask(v1)
            ob(f"{kind}/a change is a move by more than the tolerance", T.Iff(r1, g))
            ob(f"{kind}/still no change where the field is missing", not c(Tok("step"), {}, Tok("input"), Tok("output")))
            g = T.flt(Y._tof(Y.unwrap(tol)), dist(v2, v1 if r1 else v0))
            ob(f"{kind}/changes are measured from the last change", T.Iff(ask(v2), g))
    out.append(HostCase(P, "conditions", [D + "value_threshold", D + "step_interval", D + "state_change_detector"], conditions, lambda rng: conditions_real(rng)))
    return out


def d_loop(m):
    h = m.__dict__["__wv__"].h
    return h.L is not None


# ------------------------------------------------------------------------------------------------------- profiler
def profiler_cases(P):
    out = []

    class Proc:
        def memory_info(self):
            return type("Mi", (), {"rss": real("rss")})

        def cpu_percent(self, *a, **k):
            return Tok("cpu")

    def fresh(m):
        p = object.__new__(m.StreamingProfiler)
        p.enabled = boolean("enabled")
        p.enable_memory_tracking = boolean("track memory")
        p.enable_cpu_tracking = boolean("track cpu")
        p.enable_jit_tracking = False
        p.bottleneck_threshold_ms = real("threshold")
        p.memory_leak_threshold_mb = real("leak")
        p.max_history = 5
        p.metrics = Past("metrics")
        p.module_stats = Pasts("times of")
        p.session_start_time = real("start")
        p.step_count = integer("steps so far", 0)
        p.process = Proc() if Y.EX.fork(z3.Bool("has process")) else None
        p.last_memory_usage = real("last memory")
        p.jit_cache, p.compilation_events = set(), []
        p._lock = Lock()
        return p

    def sized(x, what):
        return isinstance(x, Tok) and x.how[0] == "size" and isinstance(x.how[1], Tok) and x.how[1] == Tok(what)

    def record(ob, plan):
        m = load("profile", time=Clock())
        p = fresh(m)
        p._calculate_data_size = lambda d: Tok("size", d)
        n0, lm = p.step_count, p.last_memory_usage
        had = Y.EX.fork(z3.Bool("had bottlenecks"))
        old = Tok("an earlier bottleneck")
        if had:
            p._bottlenecks = [old]
        et, mets = real("elapsed"), p.metrics
        p.record_metrics("module", et, Tok("input"), Tok("output"), Tok("compiled"))
        e, tm, hp = (z3.Bool(x) for x in ("enabled", "track memory", "has process"))
        ob("counted iff enabled", eq(p.step_count, Y.wrap("i", z3.Int("steps so far") + z3.If(e, 1, 0))))
        ob("recorded once iff enabled", T.Iff(len(mets.new) == 1, e) if len(mets.new) < 2 and p.metrics is mets else False)
        ts = p.module_stats["module"].new
        ob("its time is kept for the module", (len(ts) == len(mets.new)) and all(x is et for x in ts) and set(p.module_stats) == {"module"})
        for x in mets.new:
            ob("step, module, time, sizes", T.And(eq(x.step, n0 + 1), x.module_name == "module" and x.execution_time is et and sized(x.input_size, "input")
               and sized(x.output_size, "output") and eq(x.jit_compilation, Tok("compiled"))))
            mb = real("rss") / 1024 / 1024
            t = T.And(tm, hp)
            ob("memory in use, and since the step before", T.And(T.Or(T.Not(t), T.And(eq(x.memory_usage, mb), eq(x.memory_delta, mb - lm), eq(p.last_memory_usage, mb))),
               T.Or(t, T.And(eq(x.memory_usage, 0.0), eq(x.memory_delta, 0.0), eq(p.last_memory_usage, lm)))))
        p.metrics, p.enabled = [], True
        b = list(p.finalize().bottlenecks)
        new = b[1:] if had else b
        ob("earlier bottlenecks are kept", not had or b[0] is old)
        slow = T.flt(Y._tof(Y.unwrap(real("threshold"))), Y._tof(Y.unwrap(et * 1000)))
        ob("a bottleneck is a step above the threshold", T.Iff(len(new) == 1, T.And(e, slow)) if len(new) < 2 else False)
        for x in new:
            ob("it names the step, the module and the time", T.And(eq(x["step"], n0 + 1), x["module"] == "module", eq(x["execution_time_ms"], et * 1000)))
    out.append(HostCase(P, "StreamingProfiler.record_metrics", [F + "StreamingProfiler.record_metrics", F + "StreamingProfiler._record_bottleneck"], record, lambda rng: profiler_real(rng)))

    def size(ob, plan):
        m = load("profile", time=Clock())
        a, b = Arr("a"), Arr("b")
        A, B = a.nbytes, b.nbytes
        S = m.StreamingProfiler._calculate_data_size
        p = fresh(m)
        for nm, x, w in (("array", a, A), ("none", None, 0), ("int", 3, 8), ("float", 2.5, 8), ("text", "a\u00e9", 3), ("object", object(), 0), ("pair", (a, b), A + B), ("list", [a, a, 1], A + A + 8),
                         ("dict", {"x": a, "y": b}, A + B), ("nested", {"x": (a, [b, 2.0]), "y": {"z": a}}, A + A + B + 8), ("named", Pair(a, b), A + B), ("empty", [], 0)):
            ob(f"{nm}/the sizes of its parts", eq(S(p, x), w))
    out.append(HostCase(P, "StreamingProfiler.data_size", [F + "StreamingProfiler._calculate_data_size"], size, lambda rng: profiler_real(rng)))

    def context(ob, plan):
        for fail, jit in itertools.product((None, Failure("as raised")), (None, True, False)):
            log, clock = [], Clock()
            m = load("profile", time=clock)
            t, _ = wrapped("profile", m, log, None)
            exc, at = None, None
            try:
                with t.start_step("module") as ctx:
                    at = clock.n
                    clock.tick()
                    clock.tick()
                    if jit is not None:
                        ctx.set_jit_compilation(jit)
                    ob("nothing is recorded before the end", not log)
                    if fail:
                        raise fail
            except Failure as e:
                exc = e
            ob("errors pass through", exc is fail)
            ob("recorded once at the end", len(log) == 1)
            if len(log) == 1:
                r = log[0][1]
                ob("under its name, compiled or not as told", r["module_name"] == "module" and r["jit_compilation"] is bool(jit))
                elapsed(ob, "block", r["execution_time"], None, clock, at)
    out.append(HostCase(P, "ProfilerContext", [F + "ProfilerContext.__enter__", F + "ProfilerContext.__exit__", F + "ProfilerContext.set_jit_compilation", F + "StreamingProfiler.start_step"], context, lambda rng: profiler_real(rng)))

    def life(ob, plan):
        m = load("profile", time=Clock(), deque=lambda *a, maxlen=None: Past("metrics", maxlen))
        p = m.StreamingProfiler(enable_memory_tracking=False, enable_cpu_tracking=False, enable_jit_tracking=False, max_history=Tok("longest"))
        ob("starts enabled, with nothing recorded", p.enabled is True and p.step_count == 0 and p.metrics.maxlen == Tok("longest") and not p.metrics.new)
        q = fresh(m)
        q._bottlenecks = [Tok("b")]
        q.reset()
        r0 = (q.step_count, q.metrics.n, q.metrics.new, dict(q.module_stats))
        ob("reset forgets what was recorded", r0 == (0, 0, [], {}))
        q.metrics = []
        ob("and the bottlenecks", list(q.finalize().bottlenecks) == [])
        q.disable()
        ob("disable", q.enabled is False)
        q.enable()
        ob("enable", q.enabled is True)
    out.append(HostCase(P, "StreamingProfiler.life", [F + "StreamingProfiler." + x for x in ("__init__", "reset", "enable", "disable")], life))
    return out


# ------------------------------------------------------------------------------------------------------- memory tracker
def memory_cases(P):
    out = []

    class Ps:
        class Process:
            def __init__(self, *a):
                pass

            def memory_info(self):
                return type("Mi", (), {"rss": real("rss")})

        @staticmethod
        def virtual_memory():
            return type("Vm", (), {"total": real("total"), "available": real("available")})

    class Gc:
        get_objects = staticmethod(lambda: [])
        get_stats = staticmethod(lambda: [])

    @contextlib.contextmanager
    def psutil():
        old = sys.modules.get("psutil")
        sys.modules["psutil"] = Ps
        try:
            yield
        finally:
            if old is None:
                del sys.modules["psutil"]
            else:
                sys.modules["psutil"] = old

    def fresh(m):
        t = object.__new__(m.MemoryTracker)
        t.enabled = boolean("enabled")
        t.enable_detailed_tracking = t.enable_jax_tracking = t.enable_gc_monitoring = t._tracemalloc_enabled = False
        t.snapshot_interval = integer("interval", 1)
        t.leak_detection_threshold_mb = real("leak")
        t.max_snapshots = 9
        t.snapshots = Past("snapshots")
        t.detected_leaks, t.tracked_arrays = [], {}
        t.array_lifecycle, t.state_memory_history, t.module_memory_usage = Pasts("life"), Pasts("state memory"), Pasts("memory")
        t.session_start_time, t.step_count = real("start"), integer("steps so far", 0)
        t.baseline_memory = None
        t._lock = Lock()
        t.last_snapshot = None
        if Y.EX.fork(z3.Bool("had a snapshot")):
            t.last_snapshot = type("Snap", (), {"process_memory_mb": real("last memory"), "jax_arrays_count": integer("last arrays", 0)})
        return t

    def snapshot(ob, plan):
        for force in (True, False, None):
            m = load("memory", time=Clock(), gc=Gc, tracemalloc=Tm)
            t = fresh(m)
            leaks = []
            t._check_for_leaks = lambda: leaks.append(len(t.snapshots.new))
            t._analyze_state_memory = lambda s: (Tok("state of", s), Tok("params of", s), Tok("buffers of", s))
            n0, last, sn = t.step_count, t.last_snapshot, t.snapshots
            with psutil():
                r = t.take_snapshot("module", Tok("state"), **({} if force is None else {"force": force}))
            e = z3.Bool("enabled")
            due = T.And(e, T.Or(bool(force), Y.unwrap((n0 + 1) % t.snapshot_interval == 0)[1]))
            ob(f"{force}/counted iff enabled", eq(t.step_count, Y.wrap("i", z3.Int("steps so far") + z3.If(e, 1, 0))))
            ob(f"{force}/every interval-th step, or when forced", T.Iff(len(sn.new) == 1, due) if len(sn.new) < 2 and t.snapshots is sn else False)
            ob(f"{force}/the snapshot taken is returned", r is (sn.new[0] if sn.new else None))
            ob(f"{force}/and is the last one from then on", t.last_snapshot is (sn.new[0] if sn.new else last))
            mm, sm = t.module_memory_usage["module"].new, t.state_memory_history["module"].new
            ob(f"{force}/one entry a snapshot for the module", len(mm) == len(sm) == len(sn.new))
            for x in sn.new:
                mb = real("rss") / 1024 / 1024
                ob(f"{force}/step, module and memory", T.And(eq(x.step, n0 + 1), x.module_name == "module", eq(x.process_memory_mb, mb), eq(mm[0], mb)) if mm else False)
                ob(f"{force}/memory of the state", all(isinstance(v, Tok) and v.how[0] == k and isinstance(v.how[1], Tok) and v.how[1] == Tok("state") for v, k in zip((x.state_variables_mb, x.parameters_mb, x.buffers_mb), ("state of", "params of", "buffers of")))
                   and len(sm) == 1 and sm[0] is x.state_variables_mb)
                ob(f"{force}/change since the snapshot before", eq(x.memory_delta_mb, mb - last.process_memory_mb) if last is not None else eq(x.memory_delta_mb, 0.0))
    out.append(HostCase(P, "MemoryTracker.take_snapshot", [M + "MemoryTracker.take_snapshot"], snapshot, lambda rng: memory_real(rng)))

    def sizes(ob, plan):
        m = load("memory", time=Clock(), gc=Gc, tracemalloc=Tm)
        t = fresh(m)
        a, b, c = Arr("a"), Arr("b"), Arr("c")
        A, B, C = a.nbytes, b.nbytes, c.nbytes
        mb = lambda x: x / 1024 / 1024     # noqa: E731
        for nm, s, w in (("none", None, (0, 0, 0)), ("array", a, (A, 0, 0)), ("tuple", (a, [b, 3]), (A + B + 8, 0, 0)), ("params", {"params": {"w": a, "v": (b,)}}, (0, A + B, 0)),
                         ("state", {"state": {"x": a, "y": [b]}}, (A + B, 0, 0)), ("both", {"params": {"w": a}, "state": {"x": b, "my_Buffer": (c, c)}}, (B + C + C, A, C + C)),
                         ("others", {"params": {"w": a}, "state": {"x": b}, "more": [c], "z": 2.0}, (B + C + 8, A, 0)), ("plain", {"x": a, "y": {"z": b}}, (A + B, 0, 0))):
            r = t._analyze_state_memory(s)
            for what, g, x in zip(("state", "parameters", "buffers"), r, w):
                ob(f"{nm}/{what}", eq(g, mb(x)))
    out.append(HostCase(P, "MemoryTracker.state_memory", [M + "MemoryTracker._analyze_state_memory", M + "MemoryTracker._calculate_tree_memory"], sizes, lambda rng: memory_real(rng)))

    def life(ob, plan):
        m = load("memory", time=Clock(), gc=Gc, tracemalloc=Tm, deque=lambda *a, maxlen=None: Past("snapshots", maxlen))
        t = m.MemoryTracker(max_snapshots=Tok("longest"), enable_jax_tracking=False, enable_detailed_tracking=False)
        ob("starts enabled, with nothing recorded", t.enabled is True and t.step_count == 0 and t.last_snapshot is None and t.snapshots.maxlen == Tok("longest") and not t.snapshots.new)
        q = fresh(m)
        q.reset()
        ob("reset forgets what was recorded", (q.step_count, q.snapshots.n, q.snapshots.new, q.last_snapshot, q.detected_leaks) == (0, 0, [], None, []) and not q.module_memory_usage and not q.state_memory_history)
        q.disable()
        ob("disable", q.enabled is False)
        q.enable()
        ob("enable", q.enabled is True)
    out.append(HostCase(P, "MemoryTracker.life", [M + "MemoryTracker." + x for x in ("__init__", "reset", "enable", "disable")], life))
    return out


# ------------------------------------------------------------------------------------------------------- the real code, on samples
def stream():
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.modules.ewma import EWMA
    return streaming_transform_with_state(lambda x: EWMA(alpha=.25)(x) + jnp.asarray(0.))


def wrapper_real(rng, which):
    import jax
    for _ in range(12):
        r = any_wrapped_real(rng, which)
        if r is not None:
            return r
    import jax.numpy as jnp
    from wax.flax import debug as W
    f = stream()
    n = int(rng.integers(1, 7))
    named = bool(rng.integers(0, 2))
    xs = rng.normal(size=n).astype("float32")
    tool = {"debug": W.StreamingDebugger, "profile": W.StreamingProfiler, "memory": lambda: W.MemoryTracker(snapshot_interval=1, enable_detailed_tracking=False)}[which]()
    info = dict(decorator=which, module_name=named, inputs=xs.tolist())
    calls = []

    class Spy:
        init = staticmethod(f.init)

        @staticmethod
        def apply(*a, **k):
            calls.append(a[3:])
            return f.apply(*a, **k)
    try:
        deco = {"debug": W.debug_streaming, "profile": W.profile_streaming, "memory": W.track_memory_usage}[which]
        w = deco(tool, **({"module_name": "m"} if named else {}))(Spy())
        p, s = w.init(jax.random.PRNGKey(0), jnp.asarray(xs[0]))
        p2, s2 = f.init(jax.random.PRNGKey(0), jnp.asarray(xs[0]))
        for k, x in enumerate(xs):
            y, s = w.apply(p, s, None, jnp.asarray(x))
            y2, s2 = f.apply(p2, s2, None, jnp.asarray(x))
            if not np.array_equal(y, y2) or len(calls) != k + 1:
                return dict(info, step=k, got=float(y), expected=float(y2), calls=len(calls))
            got = {"debug": lambda: tool.current_step, "profile": lambda: len(tool.metrics), "memory": lambda: tool.step_count / 2}[which]()
            if got != k + 1:
                return dict(info, step=k, recorded=got, expected=k + 1)
            if which == "profile" and not (tool.metrics[-1].execution_time > 0 and tool.metrics[-1].input_size == 4):
                return dict(info, step=k, metrics=str(tool.metrics[-1]))
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def any_wrapped_real(rng, which):
    """a function with any result, error, arguments and options, and tools that only take notes"""
    from wax.flax import debug as W
    Pair = collections.namedtuple("Pair", "output state")
    out, st = [1], {"s": [2]}
    res = [(out, st), Pair(out, st), [out, st], out, (out,), (out, st, 3), None, "text"][int(rng.integers(0, 8))]
    raises = rng.integers(0, 6) == 0
    a, kw = tuple([7 + k] for k in range(int(rng.integers(0, 3)))), {f"k{j}": [j] for j in range(int(rng.integers(0, 3)))}
    opt, on, named = bool(rng.integers(0, 3)), bool(rng.integers(0, 4)), bool(rng.integers(0, 2))
    p, s, key = {"p": 1}, {"s": [1]}, [5]
    calls, seen = [], []

    class F:
        def init(self, *x, **y):
            return x, y

        def apply(self, *x, **y):
            calls.append((x, y))
            seen.append("run")
            if raises:
                raise ZeroDivisionError("as raised")
            return res
    info = dict(decorator=which, result=str(res), raises=bool(raises), arguments=len(a), options=len(kw), module_name=named, flag=opt, enabled=on)
    name = {"module_name": "m"} if named else {}
    want_name = "m" if named else "F"
    if which == "debug":
        tool = W.StreamingDebugger(enable_performance_tracking=bool(rng.integers(0, 3)))
        hook = W.DebugHook("h", lambda *x: True, "capture")
        tool.add_hook(hook)
        w = W.debug_streaming(tool, enable_timing=opt, **name)(F())
    elif which == "profile":
        tool = W.StreamingProfiler(enable_jit_tracking=False)
        note = tool.record_metrics
        tool.record_metrics = lambda *x, **y: (seen.append(("record", x, y)), note(*x, **y))[1]
        w = W.profile_streaming(tool, enable_detailed_tracking=opt, **name)(F())
    else:
        tool = W.MemoryTracker(enable_detailed_tracking=False, snapshot_interval=1)
        note = tool.take_snapshot
        tool.take_snapshot = lambda *x, **y: (seen.append(("look", x, y)), note(*x, **y))[1]
        w = W.track_memory_usage(tool, detailed_state_analysis=opt, **name)(F())
    tool.enabled = on
    try:
        if w.init(1, k=2) != ((1,), {"k": 2}):
            return dict(info, error="init is not the function's")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = w.apply(p, s, key, *a, **kw)
        except ZeroDivisionError:
            r = "as raised"
        if len(calls) != 1 or r is not (res if not raises else "as raised"):
            return dict(info, calls=len(calls), got=str(r))
        (x, y), = calls
        if len(x) != 3 + len(a) or not all(u is v for u, v in zip(x, (p, s, key, *a))) or set(y) != set(kw) or not all(y[k] is kw[k] for k in kw):
            return dict(info, called_with=str((x, y)))
        if which == "debug":
            pair = isinstance(res, tuple) and len(res) == 2
            n = int(on and not raises)
            timed = int(n and opt and tool.enable_performance_tracking)
            ev = list(hook.events)
            if tool.current_step != n or len(ev) != n or len(tool.performance_data.get("execution_time", ())) != timed:
                return dict(info, steps=tool.current_step, events=len(ev), times=len(tool.performance_data.get("execution_time", ())))
            if n:
                e = ev[0]
                want = (want_name, a[0] if a else None, out if pair else res, st if pair else s)
                got = (e.module_name, e.input_data, e.output_data, e.state_snapshot)
                if got != want or (e.metadata["execution_time_ms"] is not None) != opt:
                    return dict(info, recorded=str(got), expected=str(want), metadata=str(e.metadata))
        elif which == "profile":
            got = [(m.module_name, m.input_size, m.output_size) for m in tool.metrics]
            size = tool._calculate_data_size
            want = [(want_name, size(a[0] if a and opt else None), size(res if opt and not raises else None))] * on
            if got != want or any(not m.execution_time >= 0 for m in tool.metrics):
                return dict(info, recorded=str(got), expected=str(want))
        elif on and not raises:
            looks = [k for k, v in enumerate(seen) if v != "run"]
            if looks != [0, 2] or len(tool.snapshots) != 2 or {x.module_name for x in tool.snapshots} - {want_name, want_name + "_before", want_name + "_after"}:
                return dict(info, order=str([v if v == "run" else v[0] for v in seen]), names=str([x.module_name for x in tool.snapshots]))
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def debugger_real(rng):
    import jax.numpy as jnp
    from wax.flax import debug as W
    n, mx = int(rng.integers(1, 9)), int(rng.integers(1, 6))
    xs = rng.normal(size=n)
    S = collections.namedtuple("S", "a b")
    d = W.StreamingDebugger(max_history=mx)
    conds = [lambda s, st, i, o: i > 0 and o == 2 * i and st["x"][0] == i, lambda s, st, i, o: s % 2 == 0, lambda s, st, i, o: 1 / 0, lambda s, st, i, o: True]
    hooks = [W.DebugHook(f"h{k}", c, "capture", max_events=int(rng.integers(1, 5))) for k, c in enumerate(conds)]
    for h in hooks:
        h.enabled = bool(rng.integers(0, 4))
        d.add_hook(h)
    info = dict(inputs=xs.tolist(), enabled=[h.enabled for h in hooks], max_history=mx)
    want = {h.name: [] for h in hooks}
    states, step = [], 0
    buf = {"x": np.zeros(2), "m": {"k": [0]}, "s": S(jnp.zeros(1), 0)}
    with contextlib.redirect_stdout(io.StringIO()):
        for k, x in enumerate(xs):
            buf["x"][:] = x
            buf["m"]["k"][0] = k
            buf["s"] = S(jnp.ones(1) * k, k)
            d.enabled = bool(rng.integers(0, 4))
            d.step("m", buf, x, 2 * x, .25)
            if d.enabled:
                step += 1
                states.append((x, k))
                for j, h in enumerate(hooks):
                    if h.enabled and (j == 3 or j == 0 and x > 0 or j == 1 and step % 2 == 0):
                        want[h.name].append((step, x, k))

    def seen(s):
        return (float(s["x"][0]), s["m"]["k"][0]) if isinstance(s, dict) and isinstance(s["s"], tuple) and hasattr(s["s"], "_fields") and s["s"].b == s["m"]["k"][0] else str(s)
    if d.current_step != step or [seen(s) for s in d.state_history] != states[-mx:]:
        return dict(info, steps=d.current_step, expected_steps=step, history=[seen(s) for s in d.state_history], expected=states[-mx:])
    for h in hooks:
        w = want[h.name][-h.max_events:]
        got = [(e.step, *(seen(e.state_snapshot) if isinstance(seen(e.state_snapshot), tuple) else (seen(e.state_snapshot),))) for e in h.events]
        if h.hit_count != len(want[h.name]) or got != [(a, b, c) for a, b, c in w]:
            return dict(info, hook=h.name, hits=h.hit_count, got=str(got), expected=str(w))


def conditions_real(rng):
    from wax.flax import debug as W
    t = float(rng.normal())
    c, v, last = W.state_change_detector("f", abs(t)), W.value_threshold(t, "f"), None
    k = int(rng.integers(1, 5))
    i = W.step_interval(k)
    for step in range(1, 12):
        x = float(rng.normal())
        want = last is not None and abs(x - last) > abs(t)
        if bool(c(step, {"f": x}, None, None)) != want:
            return dict(condition="state_change_detector", step=step, value=x, last=last, tolerance=abs(t))
        if want or last is None:
            last = x
        if bool(v(step, {}, {"f": x}, None)) != (x > t) or bool(i(step, {}, None, None)) != (step % k == 0):
            return dict(condition="value_threshold or step_interval", step=step, value=x, threshold=t, interval=k)


def profiler_real(rng):
    import jax.numpy as jnp
    from wax.flax import debug as W
    mx, thr = int(rng.integers(1, 6)), float(rng.integers(1, 50))
    p = W.StreamingProfiler(bottleneck_threshold_ms=thr, max_history=mx)
    rec, bott, step = [], [], 0
    for k in range(int(rng.integers(1, 9))):
        p.enabled = bool(rng.integers(0, 4))
        t, n = float(rng.uniform(0, .06)), int(rng.integers(0, 5))
        p.record_metrics(f"m{k % 2}", t, {"x": (jnp.zeros(n), 1)}, [jnp.zeros((n, 2))])
        if p.enabled:
            step += 1
            rec.append((step, f"m{k % 2}", t, 4 * n + 8, 8 * n))
            if t * 1000 > thr:
                bott.append(step)
    got = [(m.step, m.module_name, m.execution_time, m.input_size, m.output_size) for m in p.metrics]
    r = p.finalize()
    if got != rec[-mx:] or [b["step"] for b in r.bottlenecks] != bott or r.total_steps != step:
        return dict(max_history=mx, threshold_ms=thr, got=str(got), expected=str(rec[-mx:]), bottlenecks=str([b["step"] for b in r.bottlenecks]), expected_bottlenecks=str(bott))


def memory_real(rng):
    import jax.numpy as jnp
    from wax.flax import debug as W
    k, mx = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    t = W.MemoryTracker(enable_detailed_tracking=False, snapshot_interval=k, max_snapshots=mx)
    want, step = [], 0
    for _ in range(int(rng.integers(1, 14))):
        t.enabled, force, n = bool(rng.integers(0, 4)), bool(rng.integers(0, 3) == 0), int(rng.integers(0, 9))
        s = {"params": {"w": jnp.zeros(n)}, "state": {"x": jnp.zeros((n, 2)), "buffer": (jnp.zeros(3),)}}
        r = t.take_snapshot("m", s, force=force)
        if t.enabled:
            step += 1
            if force or step % k == 0:
                want.append((step, (8 * n + 12) / 2**20, 4 * n / 2**20, 12 / 2**20))
                if r is None:
                    return dict(interval=k, step=step, force=force, got=None)
    got = [(x.step, x.state_variables_mb, x.parameters_mb, x.buffers_mb) for x in t.snapshots]
    if got != want[-mx:]:
        return dict(interval=k, max_snapshots=mx, got=str(got), expected=str(want[-mx:]))


def cases(P, tier):
    return [wrapper_case(P, w) for w in MOD] + hook_cases(P) + debugger_cases(P) + profiler_cases(P) + memory_cases(P)
