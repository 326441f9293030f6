"""wax.flax.debug, wax.flax.visualization: what is reported is what was recorded, for any number of records.

The records are a family indexed by 0 <= i < n (n symbolic) whose fields are uninterpreted functions of i.  Comprehensions over it are executed for one
arbitrary index (wv/pysym.py:CompRewrite), which gives a mapped and filtered family; its sum, count, extremes, median and deviation are constants named by what is
aggregated (source, element term, filter term), constrained by their definitions where the contract needs it.  A contract first states the aggregates it is about; code that asks
for any other one is outside of its vocabulary (it is then checked on concrete runs, labelled bounded).
"""
import collections
import contextlib
import inspect
import statistics as _st

import numpy as np
import z3

from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Tok
from .debugtools import Clock, Each, Elements, real

D = "src/wax/flax/debug/debugger.py:"
F = "src/wax/flax/debug/profiler.py:"
M = "src/wax/flax/debug/memory_tracker.py:"
V = "src/wax/flax/visualization/data_flow_visualizer.py:"
B = "src/wax/flax/visualization/interactive_dashboard.py:"
I = z3.Int("@i")
NAME = z3.DeclareSort("Name")


def num(x):
    """a number, as a possibly non-finite real"""
    if isinstance(x, bool) or not isinstance(x, (int, float, Y.Sc)):
        raise Y.Mismatch("not a number")
    k, v = Y.unwrap(x)
    if k not in "if":
        raise Y.Mismatch("not a number")
    return Y._tof((k, v))


def rterm(x):
    """as a z3 real"""
    v = num(x)
    if not (T.zb(T.Not(v.special)) is True or z3.is_true(z3.simplify(T.zb(T.Not(v.special))))):
        raise Y.Mismatch("a number that may not be finite")
    return z3.simplify(T.zr(v.val) if hasattr(T, "zr") else v.val if z3.is_expr(v.val) else z3.RealVal(str(v.val)))


def rl(t):
    return Y.wrap("f", T.FV(val=t))


def bl(t):
    return Y.wrap("b", t)


class Name:
    """an arbitrary name"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, Name):
            return bl(self.t == o.t)
        if isinstance(o, str):
            return bl(self.t == z3.Const("text " + o, NAME))
        raise Y.Mismatch("a name is compared with something else")

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(str(self.t))

    def __str__(self):
        return f"<{self.t}>"


class Record:
    """the i-th record: numbers, truth values and names, each an arbitrary function of its index"""

    def __init__(self, src, i, kinds):
        self.__dict__.update(src=src, i=i, kinds=kinds)

    def __getattr__(self, nm):
        k = self.kinds.get(nm)
        if nm.startswith("__") or k is None:
            raise AttributeError(nm)
        s = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort(), "name": NAME}[k]
        t = z3.Function(f"{self.src}.{nm}", z3.IntSort(), s)(self.i)
        return Name(t) if k == "name" else rl(t) if k == "f" else Y.wrap(k, t)

    def __setattr__(self, nm, v):
        raise Y.Mismatch("a record is changed")


def term(e):
    """an element of a family as a term of its index"""
    if isinstance(e, bool) or e is None:
        raise Y.Mismatch("elements of a kind outside of the contract")
    if isinstance(e, Record):
        return z3.StringVal("record of " + e.src)
    if isinstance(e, (Name,)):
        return e.t
    return rterm(e)


class Fam:
    """what is held: n records, mapped and filtered"""

    def __init__(self, src, at, keep=lambda x: True, wanted=None, n=None):
        self.src, self.at, self.keep, self.wanted = src, at, keep, wanted if wanted is not None else set()
        self.n = z3.Int(f"number of {src}") if n is None else n
        Y.EX.assume(self.n >= 0)

    def once(self, f, i):
        pos = Y.EX.pos
        r = f(i)
        if Y.EX.pos != pos:
            raise Y.Mismatch("an element or filter with branches")
        return r

    def cond(self, i):
        c = self.once(self.keep, i)
        return T.zb(Y.unwrap(c)[1]) if not isinstance(c, bool) else z3.BoolVal(c)

    @property
    def filtered(self):
        return not z3.is_true(z3.simplify(self.cond(I)))

    def where(self):
        return z3.simplify(self.cond(I)).sexpr()

    def key(self, what, elem=True):
        k = (what, self.src, term(self.once(self.at, I)).sexpr() if elem else "", self.where())
        if self.open:
            self.wanted.add(k)
        elif k not in self.wanted:
            raise Y.Mismatch(f"another aggregate: {what}")
        return k

    open = False            # while the contract states what it is about

    def const(self, what, sort=z3.RealSort(), elem=True):
        return z3.Const("|".join(self.key(what, elem)), sort)

    def map(self, f):
        return Fam(self.src, lambda i: f(self.at(i)), self.keep, self.wanted, self.n)

    def only(self, c):
        def keep(i):
            u, v = self.keep(i), c(self.at(i))
            return bl(z3.And(*[T.zb(Y.unwrap(x)[1]) if not isinstance(x, bool) else z3.BoolVal(x) for x in (u, v)]))
        return Fam(self.src, self.at, keep, self.wanted, self.n)

    # what Python asks for
    def count(self):
        if not self.filtered:
            return self.n
        c = z3.Const("|".join(("count", self.src, "", self.where())), z3.IntSort())
        Y.EX.assume(z3.And(c >= 0, c <= self.n))
        return c

    def __bool__(self):
        return Y.EX.fork(self.count() > 0)

    def __len__(self):
        raise Y.LengthUnknown("length of a family")

    def some(self, what, k=1):
        """Python raises on fewer"""
        if not self.open:
            Y.EX.oblige(f"{what} of at least {k}", self.count() >= k)
        Y.EX.assume(self.count() >= k)

    def sum(self):
        e = self.once(self.at, I)
        if isinstance(e, int) and not isinstance(e, bool) and e == 1:
            return Y.wrap("i", self.count())
        c = self.const("sum")
        Y.EX.assume(z3.Implies(self.count() == 0, c == 0))
        return rl(c)

    def max(self):
        self.some("the largest")
        return rl(self.const("max"))

    def min(self):
        self.some("the smallest")
        return rl(self.const("min"))

    def mean(self):
        self.some("the mean")
        return rl(self.const("sum") / z3.ToReal(self.count()))

    def median(self):
        self.some("the median")
        return rl(self.const("median"))

    def stdev(self):
        self.some("the deviation", 2)
        return rl(self.const("stdev"))

    def copy(self):
        return Fam(self.src, self.at, self.keep, self.wanted, self.n)

    def end(self, last):
        self.some("the last" if last else "the first")
        if not self.filtered:
            return self.at(self.n - 1 if last else z3.IntVal(0))
        i = z3.Const("|".join(("last" if last else "first", self.src, self.where())), z3.IntSort())
        j = z3.Int("@j")
        Y.EX.assume(z3.And(i >= 0, i < self.n, self.cond(i), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n, j > i if last else j < i), z3.Not(self.cond(j))))))
        return self.at(i)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.part(k)
        if isinstance(k, int) and k in (0, -1):
            return self.end(k == -1)
        raise Y.Mismatch("an element by its place")

    def part(self, s):
        """s[a:b] by Python's rules"""
        if s.step is not None or self.filtered:
            raise Y.Mismatch("slice")
        n = self.n
        if s.stop is None and isinstance(s.start, int) and -16 <= s.start < 0:      # few: one by one
            k = next((k for k in range(-s.start) if Y.EX.fork(n == k)), -s.start)
            return [self.at(z3.simplify(n - k + j)) for j in range(k)]

        def place(v, default):
            if v is None:
                return default
            if not isinstance(v, (int, Y.Sc)) or isinstance(v, bool):
                raise TypeError("slice indices must be integers")
            k, v = Y.unwrap(v)
            v = z3.IntVal(v) if isinstance(v, int) else v
            lo = z3.If(v + n < 0, 0, v + n)
            return z3.simplify(z3.If(v < 0, lo, z3.If(v > n, n, v)))
        a, b = place(s.start, z3.IntVal(0)), place(s.stop, n)
        return Fam(f"part of {self.src}", lambda i: self.at(a + i), wanted=self.wanted, n=z3.If(b > a, b - a, 0))

    def __iter__(self):
        raise Y.Mismatch("iteration over a family")


def comp(kind, it, elt, cond):
    if isinstance(it, Fam):
        return it.only(cond).map(elt)
    g = (elt(x) for x in it if cond(x))
    return list(g) if kind == "ListComp" else g


def agg(nm, py):
    def f(x, *a, **k):
        if isinstance(x, Fam):
            if a or k:
                raise Y.Mismatch(nm)
            return getattr(x, nm)()
        return py(x, *a, **k)
    return f


def _len(x):
    return Y.wrap("i", x.count()) if isinstance(x, Fam) else Y.sym_len(x)


class Stats:
    mean = fmean = staticmethod(agg("mean", _st.mean))
    median = staticmethod(agg("median", _st.median))
    stdev = staticmethod(agg("stdev", _st.stdev))


class _L(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __call__(cls, *a):
        return a[0].copy() if a and isinstance(a[0], Fam) else list(*a)


class List(metaclass=_L):
    __class_getitem__ = classmethod(lambda c, i: list[i])


def load(mod, handler=None, clock=None, **sh):
    m = Y.load("wax.flax." + mod, Y.Hooks(handler), dict(sum=agg("sum", sum), max=agg("max", Y.sym_max), min=agg("min", Y.sym_min), len=_len, list=List, statistics=Stats,
                                                          time=clock or Clock(), print=lambda *a, **k: None, **sh), comp=comp)
    return m


def bare(cls, **attrs):
    o = object.__new__(cls)
    o.__dict__.update(attrs)
    o.__dict__.setdefault("_lock", contextlib.nullcontext())
    return o


METRIC = dict(step="i", execution_time="f", memory_usage="f", memory_delta="f", jit_compilation="b", module_name="name")
SNAP = dict(step="i", process_memory_mb="f", jax_arrays_count="i", jax_arrays_size_mb="f", state_variables_mb="f", parameters_mb="f", buffers_mb="f", module_name="name")


def held(src, kinds):
    return Fam(src, lambda i: Record(src, i, kinds))


@contextlib.contextmanager
def stating():
    """the aggregates asked for here are the ones the contract is about"""
    Fam.open = True
    try:
        yield
    finally:
        Fam.open = False


def same(ob, tag, got, want):
    """the same report: the same entries, numbers equal"""
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            ob(f"{tag}: its entries", False)
            return
        for k in want:
            same(ob, f"{tag}/{k}", got[k], want[k])
        return
    if isinstance(want, Fam):
        ob(f"{tag}: what is held, in order", isinstance(got, Fam) and got.src == want.src and got.where() == want.where())
        ob(f"{tag}: as many", got.n == want.n)
        same(ob, f"{tag}[i]", got.at(I), want.at(I))
        return
    if isinstance(want, Record):
        ob(tag, isinstance(got, Record) and got.src == want.src and z3.simplify(got.i).eq(z3.simplify(want.i)))
        return
    if isinstance(want, (Y.Sc, int, float)) and not isinstance(want, bool):
        ob(f"{tag}", isinstance(got, (Y.Sc, int, float)) and not isinstance(got, bool) and T.feq(num(got), num(want)))
        return
    if isinstance(want, Name):
        ob(tag, isinstance(got, Name) and got.t == want.t)
        return
    ob(tag, type(got) is type(want) and bool(got == want))




def times_of(src):
    return Fam(src, lambda i: rl(z3.Function(src, z3.IntSort(), z3.RealSort())(i)))


class Kept:
    """what an object holds before it is asked for a report: reporting changes nothing"""

    def __init__(self, o):
        self.o, self.was = o, dict(o.__dict__)

    def ok(self):
        return set(self.o.__dict__) == set(self.was) and all(self.o.__dict__[k] is v for k, v in self.was.items())


def some(fam):
    """both cases: nothing recorded, something recorded"""
    return Y.EX.fork(fam.n > 0)


def stats(x, more):
    """mean, median, deviation and extremes, each scaled"""
    return {"mean": x.mean(), "median": x.median(), "std_dev": x.stdev() if more else 0, "min": x.min(), "max": x.max()}


# ------------------------------------------------------------------------------------------------------- profiler
def profiler_cases(P):
    out = []

    def summary(ob, plan):
        m = load("debug.profiler")
        fam, bn, rec = held("metrics", METRIC), held("bottlenecks", {}), held("recommendations", {})
        dur, steps = real("duration"), Y.wrap("i", z3.Int("steps"))
        r = bare(m.ProfileResult, session_duration=dur, total_steps=steps, metrics=fam, execution_stats={}, memory_stats={}, bottlenecks=bn, optimization_recommendations=rec)
        kept = Kept(r)
        if not some(fam):
            got = m.ProfileResult.get_summary(r)
            ob("nothing recorded", set(got) == {"error"} and isinstance(got["error"], str))
            return
        more, pos = Y.EX.fork(fam.n > 1), Y.EX.fork(Y.unwrap(dur > 0)[1])
        with stating():
            t, u = fam.map(lambda x: x.execution_time), fam.map(lambda x: x.memory_usage)
            e = stats(t, more)
            want = {"session": {"duration_seconds": dur, "total_steps": steps, "avg_throughput": steps / dur if pos else 0},
                    "execution": dict(total_time=t.sum(), **{k + "_ms": e[w] * 1000 for k, w in (("avg_time", "mean"), ("median_time", "median"), ("max_time", "max"), ("min_time", "min"), ("std_dev", "std_dev"))}),
                    "memory": {"peak_usage_mb": u.max(), "avg_usage_mb": u.mean(), "total_allocated": fam.only(lambda x: x.memory_delta > 0).map(lambda x: x.memory_delta).sum(),
                               "memory_efficiency": u.min() / u.max() if Y.EX.fork(Y.unwrap(u.max() > 0)[1]) else 1.0},
                    "bottlenecks": _len(bn), "jit_compilations": _len(fam.only(lambda x: x.jit_compilation)), "recommendations": _len(rec)}
        same(ob, "summary", m.ProfileResult.get_summary(r), want)
        ob("the result is left as it is", kept.ok())
    out.append(HostCase(P, "ProfileResult.get_summary", [F + "ProfileResult.get_summary"], summary, lambda rng: profiler_real(rng)))

    def module(ob, plan):
        m = load("debug.profiler")
        fam, name = held("metrics", METRIC), Name(z3.Const("module", NAME))
        q = bare(m.StreamingProfiler, metrics=fam)
        kept = Kept(q)
        own = fam.only(lambda x: x.module_name == name)
        if not Y.EX.fork(own.count() > 0):
            got = m.StreamingProfiler.get_module_summary(q, name)
            ob("nothing recorded of it", set(got) == {"error"} and isinstance(got["error"], str))
            return
        with stating():
            t, u = own.map(lambda x: x.execution_time), own.map(lambda x: x.memory_usage)
            want = {"module_name": name, "total_invocations": _len(own), "total_time_ms": t.sum() * 1000, "avg_time_ms": t.mean() * 1000, "max_time_ms": t.max() * 1000, "min_time_ms": t.min() * 1000,
                    "avg_memory_mb": u.mean(), "peak_memory_mb": u.max(), "jit_compilations": _len(own.only(lambda x: x.jit_compilation))}
        same(ob, "summary", m.StreamingProfiler.get_module_summary(q, name), want)
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "StreamingProfiler.get_module_summary", [F + "StreamingProfiler.get_module_summary"], module, lambda rng: profiler_real(rng)))

    def finalize(ob, plan):
        clock = Clock()
        m = load("debug.profiler", clock=clock)
        fam, bn, rec = held("metrics", METRIC), held("bottlenecks", {}), held("recommendations", {})
        start, steps = real("start"), Y.wrap("i", z3.Int("steps"))
        has = Y.EX.fork(z3.Bool("had a bottleneck"))
        q = bare(m.StreamingProfiler, metrics=fam, session_start_time=start, step_count=steps, **({"_bottlenecks": bn} if has else {}))
        q.__dict__["generate_optimization_recommendations"] = lambda: rec
        kept = Kept(q)
        want = [{}, {}]
        if some(fam):
            more = Y.EX.fork(fam.n > 1)
            with stating():
                want = [stats(fam.map(f), more) for f in (lambda x: x.execution_time, lambda x: x.memory_usage)]
        r = m.StreamingProfiler.finalize(q)
        ob("duration", T.Or(*[T.feq(num(r.session_duration), num(t - start)) for t in clock.v]))
        same(ob, "steps", r.total_steps, steps)
        same(ob, "metrics", r.metrics, fam)
        same(ob, "execution", r.execution_stats, want[0])
        same(ob, "memory", r.memory_stats, want[1])
        same(ob, "bottlenecks", r.bottlenecks, bn if has else [])
        same(ob, "recommendations", r.optimization_recommendations, rec)
        ob("the result is no live record", r.metrics is not fam and r.bottlenecks is not bn)
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "StreamingProfiler.finalize", [F + "StreamingProfiler.finalize"], finalize, lambda rng: profiler_real(rng)))

    def leaks(ob, plan):
        m = load("debug.profiler")
        fam, thr = held("metrics", METRIC), real("threshold")
        q = bare(m.StreamingProfiler, metrics=fam, memory_leak_threshold_mb=thr)
        got = m.StreamingProfiler.detect_memory_leaks(q)
        at = lambda i: rl(z3.Function("metrics.memory_usage", z3.IntSort(), z3.RealSort())(i))     # noqa: E731
        a, b = at(fam.n - 10), at(fam.n - 1)
        ob("exactly when memory grew by more than the threshold over the last ten", z3.And(fam.n >= 10, T.zb(Y.unwrap(b - a > thr)[1])) if len(got) == 1 else z3.Or(fam.n < 10, T.zb(Y.unwrap(b - a <= thr)[1])) if got == [] else False)
        for x in got:
            for k, w in (("growth_mb", b - a), ("start_memory", a), ("end_memory", b), ("steps_analyzed", 10)):
                same(ob, k, x[k], w)
    out.append(HostCase(P, "StreamingProfiler.detect_memory_leaks", [F + "StreamingProfiler.detect_memory_leaks"], leaks, lambda rng: profiler_real(rng)))

    def advice(ob, plan):
        m = load("debug.profiler")
        fam = held("metrics", dict(METRIC, input_size="i"))
        mods = {f"<{k}>": times_of("times of " + k) for k in "a"}
        q = bare(m.StreamingProfiler, metrics=fam, module_stats=mods)
        kept = Kept(q)
        if not some(fam):
            ob("nothing recorded", m.StreamingProfiler.generate_optimization_recommendations(q) == [])
            return
        with stating():
            t, d = fam.map(lambda x: x.execution_time), fam.only(lambda x: x.memory_delta > 0).map(lambda x: x.memory_delta)
            w = [t.max() > t.mean() * 3, d.sum() > 100, _len(fam.only(lambda x: x.jit_compilation)) > _len(fam) * 0.1, _len(fam.only(lambda x: x.input_size > 1024 * 1024)) > _len(fam) * 0.5]
            w = [T.zb(Y.unwrap(c)[1]) for c in w]
            w += [z3.And(f.n > 1, T.zb(Y.unwrap(rl(f.const("stdev")) > rl(f.const("sum") / z3.ToReal(f.n)) * 0.5)[1])) for f in mods.values()]
        got = m.StreamingProfiler.generate_optimization_recommendations(q)
        texts = all(isinstance(x, str) for x in got)
        ob("as many recommendations as there are reasons", z3.Sum([z3.If(c, 1, 0) for c in w]) == len(got) if texts else False)
        for nm, c in zip(mods, w[4:]):
            ob("a module is named exactly when its times vary", c == any(nm in x for x in got) if texts else False)
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "StreamingProfiler.generate_optimization_recommendations", [F + "StreamingProfiler.generate_optimization_recommendations"], advice, lambda rng: profiler_real(rng)))
    return out


# ------------------------------------------------------------------------------------------------------- debugger
EVENT = dict(step="i", timestamp="f", event_type="name", metadata="name")


def debugger_cases(P):
    out = []

    class Hook:
        def __init__(self, k):
            self.name, self.hit_count, self.enabled, self.events = k, Y.wrap("i", z3.Int(f"hits of {k}")), Y.wrap("b", z3.Bool(f"{k} enabled")), held(f"events of {k}", EVENT)

    def fresh(m, **k):
        q = bare(m.StreamingDebugger, hooks={x: Hook(x) for x in ("first", "second")}, performance_data={"execution_time": times_of("times")}, state_history=held("states", {}), global_events=held("global events", {}),
                 session_start_time=real("start"), current_step=Y.wrap("i", z3.Int("steps")), enabled=True)
        q.__dict__.update(k)
        return q

    def summary(ob, plan):
        clock = Clock()
        m = load("debug.debugger", clock=clock)
        which = [z3.Bool("timed")]
        q = fresh(m)
        if not Y.EX.fork(which[0]):
            q.performance_data = {"other": times_of("others")}
        kept, perf = Kept(q), {}
        if "execution_time" in q.performance_data:
            t = q.performance_data["execution_time"]
            n = some(t)
            with stating():
                perf = {"total_steps": _len(t), "avg_time_ms": t.mean() * 1000 if n else 0, "max_time_ms": t.max() * 1000 if n else 0, "min_time_ms": t.min() * 1000 if n else 0}
        got = dict(m.StreamingDebugger.get_summary(q))
        ob("duration", T.Or(*[T.feq(num(got.get("session_duration", 0)), num(t - q.session_start_time)) for t in clock.v]))
        got.pop("session_duration", None)
        hooks = got.pop("hooks", {})
        ob("its hooks", list(hooks) == list(q.hooks))
        for k, h in q.hooks.items():
            ob(f"{k}: its entries", k in hooks and set(hooks[k]) == {"hit_count", "enabled", "events"} and hooks[k]["hit_count"] is h.hit_count and hooks[k]["enabled"] is h.enabled)
            same(ob, f"{k}: events", hooks[k]["events"], _len(h.events))
        same(ob, "summary", got, {"total_steps": q.current_step, "performance": perf, "state_history_length": _len(q.state_history), "global_events": _len(q.global_events)})
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "StreamingDebugger.get_summary", [D + "StreamingDebugger.get_summary"], summary, lambda rng: debugger_real(rng)))

    def export(ob, plan):
        m = load("debug.debugger", dict=_dict)
        q = fresh(m)
        q.__dict__["get_summary"] = lambda: Tok("summary")
        kept = Kept(q)
        for a in ((), ("dict",)):
            got = m.StreamingDebugger.export_events(q, *a)
            ob("entries", set(got) == {"summary", "hooks", "performance_data"} and got["summary"] == Tok("summary") and list(got["hooks"]) == list(q.hooks) and list(got["performance_data"]) == ["execution_time"])
            for k, h in q.hooks.items():
                same(ob, f"{k}: every event", got["hooks"][k], h.events.map(lambda e: {x: getattr(e, x) for x in EVENT}))
            same(ob, "times", got["performance_data"]["execution_time"], q.performance_data["execution_time"])
            ob("no live record is handed out", got["performance_data"] is not q.performance_data and got["performance_data"]["execution_time"] is not q.performance_data["execution_time"])
        ob("nothing is changed", kept.ok())
        try:
            m.StreamingDebugger.export_events(q, "other")
            ob("another format is an error", False)
        except ValueError:
            ob("another format is an error", True)
    out.append(HostCase(P, "StreamingDebugger.export_events", [D + "StreamingDebugger.export_events"], export, lambda rng: debugger_real(rng)))

    def clear(ob, plan):
        from .debugtools import Past
        m = load("debug.debugger")
        q = fresh(m, global_events=Past("global events"), state_history=Past("states"))
        for h in q.hooks.values():
            h.events = Past("events of " + h.name)
        hooks, on, step = dict(q.hooks), {k: h.enabled for k, h in q.hooks.items()}, q.current_step
        m.StreamingDebugger.clear_history(q)
        gone = lambda x: isinstance(x, Past) and isinstance(x.n, int) and x.n == 0 and not x.new or x == []     # noqa: E731
        ob("everything recorded is gone", gone(q.global_events) and gone(q.state_history) and not q.performance_data and all(gone(h.events) and type(h.hit_count) is int and h.hit_count == 0 for h in hooks.values()))
        ob("the hooks stay as they are", list(q.hooks) == list(hooks) and all(q.hooks[k] is h and h.enabled is on[k] for k, h in hooks.items()) and q.current_step is step and q.enabled is True)
    out.append(HostCase(P, "StreamingDebugger.clear_history", [D + "StreamingDebugger.clear_history"], clear, lambda rng: debugger_real(rng)))
    return out


def _dict(*a, **k):
    return dict(*a, **k)


# ------------------------------------------------------------------------------------------------------- memory tracker
def memory_cases(P):
    out = []

    def summary(ob, plan):
        clock = Clock()
        m = load("debug.memory_tracker", clock=clock)
        fam, lk, steps = held("snapshots", SNAP), held("leaks", dict(severity="name")), Y.wrap("i", z3.Int("steps"))
        q = bare(m.MemoryTracker, snapshots=fam, detected_leaks=lk, session_start_time=real("start"), step_count=steps)
        kept = Kept(q)
        if not some(fam):
            got = m.MemoryTracker.get_memory_summary(q)
            ob("nothing recorded", set(got) == {"error"} and isinstance(got["error"], str))
            return
        with stating():
            p, c = fam.map(lambda x: x.process_memory_mb), fam.map(lambda x: x.jax_arrays_count)
            last, first = fam.end(True), fam.end(False)
            want = {"session": {"total_snapshots": _len(fam), "total_steps": steps},
                    "current_usage": {k: getattr(last, k) for k in ("process_memory_mb", "jax_arrays_count", "jax_arrays_size_mb", "state_variables_mb", "parameters_mb", "buffers_mb")},
                    "statistics": {"peak_memory_mb": p.max(), "min_memory_mb": p.min(), "avg_memory_mb": p.mean(), "total_growth_mb": last.process_memory_mb - first.process_memory_mb,
                                   "peak_arrays_count": c.max(), "avg_arrays_count": c.mean()},
                    "leaks": {"total_detected": _len(lk), "critical_leaks": _len(lk.only(lambda x: x.severity == "critical")), "high_leaks": _len(lk.only(lambda x: x.severity == "high"))}}
        got = dict(m.MemoryTracker.get_memory_summary(q))
        got["session"] = dict(got.get("session", {}))
        ob("duration", T.Or(*[T.feq(num(got["session"].get("duration_seconds", 0)), num(t - q.session_start_time)) for t in clock.v]))
        got["session"].pop("duration_seconds", None)
        same(ob, "summary", got, want)
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "MemoryTracker.get_memory_summary", [M + "MemoryTracker.get_memory_summary"], summary, lambda rng: memory_real(rng)))

    def module(ob, plan):
        m = load("debug.memory_tracker")
        fam, name = held("snapshots", SNAP), Name(z3.Const("module", NAME))
        q = bare(m.MemoryTracker, snapshots=fam)
        kept = Kept(q)
        own = fam.only(lambda x: x.module_name == name)
        if not Y.EX.fork(own.count() > 0):
            got = m.MemoryTracker.get_module_memory_analysis(q, name)
            ob("nothing recorded of it", set(got) == {"error"} and isinstance(got["error"], str))
            return
        with stating():
            p, s = own.map(lambda x: x.process_memory_mb), own.map(lambda x: x.state_variables_mb)
            want = {"module_name": name, "snapshots_count": _len(own), "memory_usage": {"current_mb": p.end(True), "peak_mb": p.max(), "avg_mb": p.mean(), "growth_mb": p.end(True) - p.end(False)},
                    "state_memory": {"current_mb": s.end(True), "peak_mb": s.max(), "avg_mb": s.mean()}}
        same(ob, "analysis", m.MemoryTracker.get_module_memory_analysis(q, name), want)
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "MemoryTracker.get_module_memory_analysis", [M + "MemoryTracker.get_module_memory_analysis"], module, lambda rng: memory_real(rng)))

    def check(ob, plan):
        m = load("debug.memory_tracker")
        fam, thr, every = held("snapshots", SNAP), real("threshold"), z3.Int("interval")
        Y.EX.assume(every >= 1)
        q = bare(m.MemoryTracker, snapshots=fam, leak_detection_threshold_mb=thr, snapshot_interval=Y.wrap("i", every))
        got = []
        sig = inspect.signature(m.MemoryTracker._record_memory_leak)
        q.__dict__["_record_memory_leak"] = lambda *a, **k: got.append(sig.bind(q, *a, **k).arguments)
        kept = Kept(q)
        m.MemoryTracker._check_for_leaks(q)
        if not Y.EX.fork(fam.n >= 5):
            ob("too few snapshots", got == [])
            return
        k = next((k for k in range(5, 10) if Y.EX.fork(fam.n == k)), 10)
        x = [fam.at(fam.n - k + j) for j in range(k)]
        y = [rterm(r.process_memory_mb) for r in x]
        mid = z3.Q(k - 1, 2)
        slope = z3.Sum([(j - mid) * v for j, v in enumerate(y)]) / z3.Q(sum((2 * j - k + 1) ** 2 for j in range(k)), 4)
        rate, grown, t = rl(slope) / Y.wrap("i", every), y[-1] - y[0], rterm(thr)
        arrays = [r.jax_arrays_count for r in x]
        more = Y.unwrap(arrays[-1])[1] - Y.unwrap(arrays[0])[1]
        mine = {typ: [g for g in got if g["leak_type"] == typ] for typ in ("growing_memory", "growing_arrays")}
        ob("nothing else is recorded", sum(map(len, mine.values())) == len(got))
        a, b = mine.values()
        # the rate per step exceeds a hundredth of the threshold, said without dividing by the interval
        ob("memory: exactly when it grows by more than the threshold, and its trend by a hundredth of it a step", z3.And(slope > t / 100 * z3.ToReal(every), grown > t) == (len(a) == 1) if len(a) < 2 else False)
        ob("arrays: exactly when there are more than 100 new ones", (more > 100) == (len(b) == 1) if len(b) < 2 else False)
        for g in a:
            same(ob, "the trend a step", g["growth_rate"], rate)
            ob("the growth", rterm(g["total_leaked"]) == grown)
        for g in b:
            ob("the arrays' size", rterm(g["total_leaked"]) * 3 == z3.Sum([rterm(r.jax_arrays_size_mb) for r in x[-3:]]))
            ob("new arrays a snapshot", rterm(g["growth_rate"]) * k == z3.ToReal(more))
        for g in got:
            same(ob, "first step", g["first_step"], x[0].step)
            same(ob, "last step", g["last_step"], x[-1].step)
            names = [n.t for n in g["affected_modules"]]
            ob("the modules", z3.And(*[z3.Or(*[n == r.module_name.t for n in names]) for r in x], *[z3.Or(*[n == r.module_name.t for r in x]) for n in names]))
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "MemoryTracker._check_for_leaks", [M + "MemoryTracker._check_for_leaks"], check, lambda rng: memory_real(rng)))

    def leak(ob, plan):
        m = load("debug.memory_tracker")
        q = bare(m.MemoryTracker, detected_leaks=[Tok("earlier")])
        for typ in ("growing_memory", "growing_arrays"):
            q.detected_leaks[1:] = []
            rate, mb, a, b, mods = real("rate"), real("leaked"), Y.wrap("i", z3.Int("first")), Y.wrap("i", z3.Int("last")), [Tok("module")]
            m.MemoryTracker._record_memory_leak(q, leak_type=typ, growth_rate=rate, total_leaked=mb, first_step=a, last_step=b, affected_modules=mods)
            ob(f"{typ}: recorded once, after the others", len(q.detected_leaks) == 2 and q.detected_leaks[0] == Tok("earlier"))
            x, v = q.detected_leaks[-1], rterm(mb)
            ob(f"{typ}: as given", x.leak_type == typ and x.affected_modules == mods)
            for nm, g, w in (("rate", x.growth_rate_mb_per_step, rate), ("size", x.total_leaked_mb, mb), ("first", x.first_detected_step, a), ("last", x.last_detected_step, b)):
                same(ob, f"{typ}: {nm}", g, w)
            ob(f"{typ}: severity", {"critical": v > 100, "high": z3.And(v > 50, v <= 100), "medium": z3.And(v > 20, v <= 50), "low": v <= 20}.get(x.severity, False))
    out.append(HostCase(P, "MemoryTracker._record_memory_leak", [M + "MemoryTracker._record_memory_leak"], leak, lambda rng: memory_real(rng)))
    return out


# ------------------------------------------------------------------------------------------------------- data flow tracker, dashboard
POINT = dict(timestamp="f", step="i", module_name="name", data_type="name", value="name")


class Mods(dict):
    """records by module, an empty one where there is none"""

    def __missing__(self, k):
        self[k] = Fam("nothing", lambda i: None, n=z3.IntVal(0))
        return self[k]


def tracker_cases(P):
    from .debugtools import Past
    out = []

    def record(ob, plan):
        clock = Clock()

        def default(f):
            class Shelf(dict):
                def __missing__(self, k):
                    self[k] = f()
                    return self[k]
            return Shelf()
        m = load("visualization.data_flow_visualizer", clock=clock, deque=lambda *a, maxlen=None: Past("points", maxlen, 0), defaultdict=default)
        q = m.DataFlowTracker(max_history=Tok("longest"))
        ob("starts empty", q.data_history.maxlen == Tok("longest") and not q.data_history.new and not q.module_data and type(q.step_count) is int and q.step_count == 0)
        shaped = type("V", (), {"shape": Tok("shape")})()
        seen, old = [], q.data_history
        for k, (nm, kind, v, meta, shape) in enumerate([("a", "input", shaped, None, Tok("shape")), ("b", "output", [Tok("x"), Tok("y")], {"k": Tok("v")}, (2,)), ("a", "state", {"u": 1, "v": 2, "w": 3}, {}, (3,)), ("a", "output", real("x"), None, ())]):
            n = Y.wrap("i", z3.Int(f"step{k}"))
            q.step_count = n
            q.start_time = t0 = real(f"start{k}")
            r = q.record_data(nm, kind, v, **({} if meta is None else {"metadata": meta}))
            ob(f"{k}/recorded once, after what was there", r is None and q.data_history is old and len(old.new) == k + 1 and all(x is y for x, y in zip(old.new, seen)))
            x = old.new[-1]
            seen.append(x)
            ob(f"{k}/and for its module", [id(p) for p in q.module_data[nm].new] == [id(p) for p in seen if p.module_name == nm] and q.module_data[nm].maxlen == Tok("longest"))
            ob(f"{k}/as given", x.module_name == nm and x.data_type == kind and x.value is v and x.metadata == (meta or {}) and x.shape == shape and x.step is n)
            ob(f"{k}/time since the start", T.Or(*[T.feq(num(x.timestamp), num(t - t0)) for t in clock.v]))
            before = n
            q.step()
            ob(f"{k}/step", T.feq(num(q.step_count), num(before + 1)))
        ob("of the modules recorded", list(q.module_data) == ["a", "b"])
        q.clear_history()
        ob("nothing is left", not q.data_history.new and not q.module_data and type(q.step_count) is int and q.step_count == 0 and q.start_time is clock.v[-1])
    out.append(HostCase(P, "DataFlowTracker.record_data", [V + "DataFlowTracker." + x for x in ("__post_init__", "record_data", "step", "clear_history")] + [V + "DataPoint.__post_init__"], record, lambda rng: tracker_real(rng)))

    def read(ob, plan):
        m = load("visualization.data_flow_visualizer")
        fam, own, kind = held("points", POINT), held("points of a", POINT), Name(z3.Const("type", NAME))
        q = bare(m.DataFlowTracker, data_history=fam, module_data=Mods(a=own), step_count=Y.wrap("i", z3.Int("steps")), max_history=9)
        kept = Kept(q)
        got = m.DataFlowTracker.get_module_history(q, "a")
        same(ob, "history of a module", got, own)
        ob("it is no live record", got is not own)
        same(ob, "of one type", m.DataFlowTracker.get_module_history(q, "a", kind), own.only(lambda x: x.data_type == kind))
        got = m.DataFlowTracker.get_module_history(q, "b")
        ob("of an unknown module", got == [] if isinstance(got, list) else got.n == 0)
        n = z3.Int("asked for")
        Y.EX.assume(n >= 0)
        for tag, a, k in (("asked for", (Y.wrap("i", n),), n), ("default", (), z3.IntVal(100))):
            got = m.DataFlowTracker.get_recent_data(q, *a)
            c = z3.If(fam.n < k, fam.n, k)
            if not isinstance(got, Fam):
                ob(f"{tag}: the last points", got == [] and c == 0 if got == [] else False)
                continue
            ob(f"{tag}: as many as asked for, or all", z3.And(got.n == c, got.src in ("points", "part of points")))
            x = got.at(I)
            ob(f"{tag}: the last ones, oldest first", z3.Implies(z3.And(I >= 0, I < c), x.i == fam.n - c + I) if isinstance(x, Record) and x.src == "points" and not got.filtered else False)
        ob("nothing is changed", kept.ok())
    out.append(HostCase(P, "DataFlowTracker.get_recent_data", [V + "DataFlowTracker.get_recent_data", V + "DataFlowTracker.get_module_history"], read, lambda rng: tracker_real(rng)))
    return out


class Emits:
    def __init__(self):
        self.sent = []

    def emit(self, *a, **k):
        self.sent.append((a, k))


def dashboard_cases(P):
    from .debugtools import Pasts, Past
    out = []

    class Board:
        pass

    class Tracker:
        def __init__(self, k):
            self.k, self.calls, self.step_count = k, [], Y.wrap("i", z3.Int(f"steps of {k}"))

        def record_data(self, *a, **k):
            b = inspect.signature(lambda module_name, data_type, value, metadata=None: 0).bind(*a, **k)
            b.apply_defaults()
            self.calls.append(tuple(b.arguments.values()))

        def step(self):
            self.calls.append("step")

    class St:
        pass

    def fresh(m, socket):
        q = object.__new__(m.InteractiveDashboard)
        c, s = St(), St()
        c.enable_alerts, c.performance_threshold_ms, c.memory_threshold_mb, c.max_data_points = Y.wrap("b", z3.Bool("alerts")), real("slow"), real("much"), Tok("longest")
        s.active_pipelines = {k: {"function": Tok("f", k), "total_calls": Y.wrap("i", z3.Int(f"calls of {k}"))} for k in "pq"}
        s.data_trackers = {k: Tracker(k) for k in "pq"}
        s.visualizers, s.performance_metrics, s.alerts, s.connected_clients = {}, Pasts("metric"), Past("alerts"), Y.wrap("b", z3.Bool("has clients"))
        q.config, q.state, q.socketio = c, s, Emits() if socket else None
        return q

    def update(ob, plan):
        for socket in (False, True):
            for keys in ((), ("execution_time_ms",), ("memory_usage_mb",), ("execution_time_ms", "memory_usage_mb", "else")):
                clock = Clock()
                m = load("visualization.interactive_dashboard", clock=clock)
                q = fresh(m, socket)
                tag = f"{'+'.join(keys)}/{socket}"
                md = {k: real(k) for k in keys}
                q._update_performance_metrics("p", md)
                on, a, s = z3.Bool("alerts"), q.state.alerts.new, q.state.performance_metrics
                due = []
                for k, nm, typ, thr in (("execution_time_ms", "p_execution_time", "performance", "slow"), ("memory_usage_mb", "p_memory_usage", "memory", "much")):
                    if k not in keys:
                        ob(f"{tag}/{nm} not recorded", nm not in s or not s[nm].new)
                        continue
                    ob(f"{tag}/{nm} recorded once", nm in s and len(s[nm].new) == 1 and s[nm].new[0] is md[k])
                    want = z3.And(on, T.zb(Y.unwrap(md[k] > real(thr))[1]))
                    mine = [x for x in a if x["type"] == typ]
                    due += mine
                    ob(f"{tag}/{typ} alert exactly above the threshold", want == (len(mine) == 1) if len(mine) < 2 else False)
                    ob(f"{tag}/{typ} alert is about the pipeline", all(x["pipeline_id"] == "p" and any(x["timestamp"] is t for t in clock.v) for x in mine))
                ob(f"{tag}/no other alert", len(due) == len(a))
                ob(f"{tag}/throughput", set(s) <= {"p_execution_time", "p_memory_usage", "global_throughput"} and len(s["global_throughput"].new) == 1 and any(s["global_throughput"].new[0] is t for t in clock.v))
                if socket:
                    ob(f"{tag}/alerts are broadcast", [(x[0][0], id(x[0][1])) for x in q.socketio.sent] == [("alert", id(x)) for x in a])
                ob(f"{tag}/the trackers are left alone", all(not t.calls for t in q.state.data_trackers.values()))
    out.append(HostCase(P, "InteractiveDashboard.alerts", [B + "InteractiveDashboard._update_performance_metrics"], update, lambda rng: dashboard_real(rng)))

    def record(ob, plan):
        for socket in (False, True):
            for meta in (None, {}, {"execution_time_ms": real("took")}):
                m = load("visualization.interactive_dashboard", warnings=type("W", (), {"warn": staticmethod(lambda *a, **k: None)}))
                q = fresh(m, socket)
                up, tag = [], f"{socket}/{'none' if meta is None else len(meta)}"
                q._update_performance_metrics = lambda *a: up.append(a)
                q._serialize_value = lambda v: Tok("serialized", v)
                q.record_pipeline_data("p", Tok("module"), Tok("type"), Tok("value"), *(() if meta is None else (meta,)))
                t = q.state.data_trackers
                ob(f"{tag}/recorded once, by the pipeline's tracker", len(t["p"].calls) == 1 and t["p"].calls[0][:3] == (Tok("module"), Tok("type"), Tok("value")) and (t["p"].calls[0][3] or {}) == (meta or {}) and not t["q"].calls)
                ob(f"{tag}/its metrics are updated once", len(up) == 1 and up[0][0] == "p" and up[0][1] == (meta or {}))
                if socket:
                    x = q.socketio.sent
                    ob(f"{tag}/sent to the clients, if any", z3.Bool("has clients") == (len(x) == 1) if len(x) < 2 else False)
                    for a, k in x:
                        d = a[1]
                        ob(f"{tag}/what is sent", a[0] == "pipeline_data_update" and d["pipeline_id"] == "p" and d["module_name"] == Tok("module") and d["data_type"] == Tok("type") and d["value"] == Tok("serialized", Tok("value")) and d["step"] is t["p"].step_count)
                q = fresh(m, socket)
                q._update_performance_metrics = lambda *a: up.append(a)
                n = len(up)
                q.record_pipeline_data("unknown", Tok("module"), Tok("type"), Tok("value"), meta)
                ob(f"{tag}/nothing for an unknown pipeline", len(up) == n and all(not x.calls for x in q.state.data_trackers.values()) and list(q.state.data_trackers) == ["p", "q"] and (not socket or not q.socketio.sent))
    out.append(HostCase(P, "InteractiveDashboard.record_pipeline_data", [B + "InteractiveDashboard.record_pipeline_data"], record, lambda rng: dashboard_real(rng)))

    def step(ob, plan):
        m = load("visualization.interactive_dashboard")
        q = fresh(m, False)
        was = {k: v["total_calls"] for k, v in q.state.active_pipelines.items()}
        q.step_pipeline("p")
        ob("one step of the pipeline, and of no other", q.state.data_trackers["p"].calls == ["step"] and not q.state.data_trackers["q"].calls)
        same(ob, "its calls", q.state.active_pipelines["p"]["total_calls"], was["p"] + 1)
        ob("and of no other", q.state.active_pipelines["q"]["total_calls"] is was["q"])
        q.step_pipeline("unknown")
        ob("nothing for an unknown pipeline", list(q.state.active_pipelines) == ["p", "q"] and list(q.state.data_trackers) == ["p", "q"] and q.state.data_trackers["p"].calls == ["step"] and not q.state.data_trackers["q"].calls)
    out.append(HostCase(P, "InteractiveDashboard.step_pipeline", [B + "InteractiveDashboard.step_pipeline"], step, lambda rng: dashboard_real(rng)))

    def register(ob, plan):

        class Tr:
            def __init__(self, max_history=1000, track_inputs=True, track_outputs=True, track_states=True, track_gradients=False):
                self.max_history, self.on = max_history, (track_inputs, track_outputs, track_states)

        class Vi:
            def __init__(self, **k):
                self.tracker = None

            def attach_tracker(self, t):
                self.tracker = t
        clock = Clock()
        m = load("visualization.interactive_dashboard", clock=clock, DataFlowTracker=Tr, DataFlowVisualizer=Vi)
        q = fresh(m, False)
        old = (dict(q.state.active_pipelines), dict(q.state.data_trackers))
        q.register_pipeline("new", Tok("f"), Tok("x"), Tok("about"))
        p, t, v = q.state.active_pipelines.get("new", {}), q.state.data_trackers.get("new"), q.state.visualizers.get("new")
        ob("kept as given", p.get("function") == Tok("f") and p.get("input_example") == Tok("x") and p.get("description") == Tok("about") and type(p.get("total_calls")) is int and p["total_calls"] == 0 and any(p.get("registered_at") is x for x in clock.v))
        ob("with a tracker of its own, as long as configured", isinstance(t, Tr) and t.max_history == Tok("longest") and t.on == (True, True, True) and isinstance(v, Vi) and v.tracker is t)
        ob("the others stay", all(q.state.active_pipelines[k] is x for k, x in old[0].items()) and all(q.state.data_trackers[k] is x for k, x in old[1].items()) and len(q.state.data_trackers) == 3 == len(q.state.active_pipelines))
    out.append(HostCase(P, "InteractiveDashboard.register_pipeline", [B + "InteractiveDashboard.register_pipeline"], register, lambda rng: dashboard_real(rng)))
    return out


# ------------------------------------------------------------------------------------------------------- the real code, on samples
def close(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(close(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        return isinstance(a, (int, float)) and abs(a - b) <= 1e-6 * max(1, abs(b))
    return a == b


def fail(what, inp, got, want):
    return dict(what=what, inputs=str(inp)[:600], expected=str(want)[:300], actual=str(got)[:300])


class Raised(Exception):
    pass


def call(what, inp, f, *a):
    """one call of the real code, which is to return"""
    try:
        return f(*a)
    except Exception as e:  # noqa: BLE001
        raise Raised(fail(what, inp, repr(e), "an answer")) from e


def guarded(f):
    def run(rng):
        try:
            return f(rng)
        except Raised as e:
            return e.args[0]
    return run


def arr_stats(x):
    return {"mean": float(np.mean(x)), "median": float(np.median(x)), "std_dev": float(np.std(x, ddof=1)) if len(x) > 1 else 0, "min": min(x), "max": max(x)}


@guarded
def profiler_real(rng):
    import wax.flax.debug.profiler as W
    n = int(rng.choice([0, 1, 2, 9, 10, 11, 13]))
    t, u, d = (np.round(rng.normal(3, 2, n) * s, 3).tolist() for s in (1, 20, 50))
    jit, mod, size = (rng.random(n) < 0.4).tolist(), [str(x) for x in rng.choice(["a", "b"], n)], [int(x) for x in rng.choice([5, 1024 * 1024, 1024 * 1024 + 1], n)]
    if rng.random() < 0.3:
        u = [abs(x) for x in u]
    if n and rng.random() < 0.3:
        u = [0.0] * n
    fields = inspect.signature(W.PerformanceMetrics).parameters
    ms = []
    for i in range(n):
        v = dict(step=i, execution_time=t[i], memory_usage=u[i], memory_delta=d[i], jit_compilation=jit[i], module_name=mod[i], input_size=size[i])
        ms.append(W.PerformanceMetrics(**{k: v.get(k, 0) for k in fields}))
    thr = float(rng.choice([0.0, 5.0, 60.0]))
    p = W.StreamingProfiler(memory_leak_threshold_mb=thr, enable_jit_tracking=False)
    p.metrics.extend(ms)
    for x in ms:
        p.module_stats[x.module_name].append(x.execution_time)
    p.step_count = n
    inp = dict(time=t, memory=u, delta=d, jit=jit, module=mod, threshold=thr)
    if rng.random() < 0.7:
        p._bottlenecks = [dict(step=k) for k in range(int(rng.integers(3)))]
    bn = list(getattr(p, "_bottlenecks", []))
    r = call("finalize", inp, p.finalize)
    want = (n, ms, arr_stats(t) if n else {}, arr_stats(u) if n else {}, bn)
    got = (r.total_steps, r.metrics, r.execution_stats, r.memory_stats, r.bottlenecks)
    if not close(got, want):
        return fail("finalize", inp, got, want)
    p.metrics.extend(ms[:1])
    if hasattr(p, "_bottlenecks"):
        p._bottlenecks.append("later")
    if not close((r.metrics, r.bottlenecks), (ms, bn)):
        return fail("a result already given changed with later records", inp, (len(r.metrics), r.bottlenecks), (n, bn))
    if n:
        p.metrics.pop()
    rec = []
    if n:
        rec += [1] if max(t) > np.mean(t) * 3 else []
        rec += [1] if sum(x for x in d if x > 0) > 100 else []
        rec += [1] if sum(jit) > n * 0.1 else []
        rec += [1] if sum(s > 1024 * 1024 for s in size) > n * 0.5 else []
        for k in ("a", "b"):
            v = [x for x, y in zip(t, mod) if y == k]
            rec += [1] if len(v) > 1 and np.std(v, ddof=1) > np.mean(v) * 0.5 else []
    if len(r.optimization_recommendations) != len(rec):
        return fail("recommendations", inp, r.optimization_recommendations, len(rec))
    for dur in (0.0, 2.5):
        r.session_duration = dur
        s = call("get_summary", dict(inp, duration=dur), r.get_summary)
        if not n:
            if set(s) != {"error"}:
                return fail("summary of nothing", inp, s, "an error entry")
            try:
                W.create_performance_report(r)
            except Exception as e:  # noqa: BLE001
                return fail("report of nothing", inp, repr(e), "a report that says so")
            continue
        e = arr_stats(t)
        w = {"session": {"duration_seconds": dur, "total_steps": n, "avg_throughput": n / dur if dur else 0},
             "execution": {"total_time": sum(t), "avg_time_ms": e["mean"] * 1000, "median_time_ms": e["median"] * 1000, "max_time_ms": e["max"] * 1000, "min_time_ms": e["min"] * 1000, "std_dev_ms": e["std_dev"] * 1000},
             "memory": {"peak_usage_mb": max(u), "avg_usage_mb": float(np.mean(u)), "total_allocated": sum(x for x in d if x > 0), "memory_efficiency": min(u) / max(u) if max(u) > 0 else 1.0},
             "bottlenecks": len(bn), "jit_compilations": sum(jit), "recommendations": len(rec)}
        if not close(s, w):
            return fail("get_summary", inp, s, w)
        if not isinstance(call("create_performance_report", inp, W.create_performance_report, r), str):
            return fail("create_performance_report", inp, None, "text")
    for k in ("a", "c"):
        i = [j for j in range(n) if mod[j] == k]
        s = call("get_module_summary", dict(inp, of=k), p.get_module_summary, k)
        if not i:
            if set(s) != {"error"}:
                return fail("module summary of nothing", inp, s, "an error entry")
            continue
        tt, uu = [t[j] for j in i], [u[j] for j in i]
        w = {"module_name": k, "total_invocations": len(i), "total_time_ms": sum(tt) * 1000, "avg_time_ms": float(np.mean(tt)) * 1000, "max_time_ms": max(tt) * 1000, "min_time_ms": min(tt) * 1000,
             "avg_memory_mb": float(np.mean(uu)), "peak_memory_mb": max(uu), "jit_compilations": sum(jit[j] for j in i)}
        if not close(s, w):
            return fail("get_module_summary", inp, s, w)
    g = call("detect_memory_leaks", inp, p.detect_memory_leaks)
    w = [] if n < 10 or u[-1] - u[-10] <= thr else [(u[-1] - u[-10], u[-10], u[-1], 10)]
    if not close([(x["growth_mb"], x["start_memory"], x["end_memory"], x["steps_analyzed"]) for x in g], w):
        return fail("detect_memory_leaks", inp, g, w)
    return None


@guarded
def debugger_real(rng):
    import wax.flax.debug.debugger as W
    q = W.StreamingDebugger()
    n, names = int(rng.integers(0, 7)), ["x", "y"]
    hits = {k: 0 for k in names}
    for k in names:
        q.add_hook(W.DebugHook(name=k, condition=lambda step, state, inp, out: False, action="log"))
    ev = {k: [] for k in names}
    for k in names:
        for i in range(int(rng.integers(0, 5))):
            e = W.DebugEvent(**{f: {"step": i, "timestamp": float(i), "event_type": k + str(i), "metadata": {"i": i}}.get(f) for f in inspect.signature(W.DebugEvent).parameters})
            q.hooks[k].events.append(e)
            ev[k].append(dict(step=i, timestamp=float(i), event_type=k + str(i), metadata={"i": i}))
        q.hooks[k].hit_count = hits[k] = int(rng.integers(0, 9))
        q.hooks[k].enabled = bool(rng.random() < 0.5)
    t = np.round(rng.random(n), 3).tolist()
    timed = bool(rng.random() < 0.8)
    if timed:
        q.performance_data["execution_time"] = list(t)
    q.current_step = n + 3
    for i in range(n):
        q.state_history.append(i)
    inp = dict(times=t if timed else None, events={k: len(v) for k, v in ev.items()}, hits=hits)
    s = call("get_summary", inp, q.get_summary)
    dur = s.pop("session_duration")
    w = {"total_steps": n + 3, "hooks": {k: {"hit_count": hits[k], "enabled": q.hooks[k].enabled, "events": len(ev[k])} for k in names},
         "performance": {} if not timed else {"total_steps": n, "avg_time_ms": float(np.mean(t)) * 1000 if n else 0, "max_time_ms": max(t) * 1000 if n else 0, "min_time_ms": min(t) * 1000 if n else 0},
         "state_history_length": n, "global_events": 0}
    if not close(s, w) or not 0 <= dur < 60:
        return fail("get_summary", inp, s, w)
    x = call("export_events", inp, q.export_events)
    s2 = dict(x["summary"])
    s2.pop("session_duration")
    wp = {"execution_time": t} if timed else {}
    if not close(s2, w) or not close(x["hooks"], ev) or not close(x["performance_data"], wp):
        return fail("export_events", inp, x, (w, ev, wp))
    q.performance_data["execution_time"].append(9.0)
    for k in names:
        q.hooks[k].events.clear()
    if not close(x["hooks"], ev) or not close(x["performance_data"], wp):
        return fail("what was exported changed with later records", inp, x, (ev, wp))
    try:
        q.export_events("other")
        return fail("export_events", "format 'other'", "accepted", "ValueError")
    except ValueError:
        pass
    on = {k: h.enabled for k, h in q.hooks.items()}
    call("clear_history", inp, q.clear_history)
    got = (len(q.global_events), len(q.state_history), len(q.performance_data), [len(h.events) for h in q.hooks.values()], [h.hit_count for h in q.hooks.values()], {k: h.enabled for k, h in q.hooks.items()}, q.current_step)
    w = (0, 0, 0, [0, 0], [0, 0], on, n + 3)
    return None if got == w else fail("clear_history", inp, got, w)


@guarded
def memory_real(rng):
    import wax.flax.debug.memory_tracker as W
    thr, every = float(rng.choice([0.5, 5.0, 30.0])), int(rng.choice([1, 3, 10]))
    q = W.MemoryTracker(enable_detailed_tracking=False, enable_jax_tracking=False, enable_gc_monitoring=False, leak_detection_threshold_mb=thr, snapshot_interval=every)
    n = int(rng.integers(0, 13))
    keys = ("process_memory_mb", "jax_arrays_size_mb", "state_variables_mb", "parameters_mb", "buffers_mb")
    fs = inspect.signature(W.MemorySnapshot).parameters
    xs = [dict({k: float(np.round(rng.normal(50, 20), 3)) for k in keys}, jax_arrays_count=int(rng.integers(0, 9)), step=i, module_name=str(rng.choice(["a", "b"]))) for i in range(n)]
    for x in xs:
        q.snapshots.append(W.MemorySnapshot(**{f: x.get(f, 0) for f in fs if f in x or fs[f].default is inspect.Parameter.empty}))
    sev = [str(x) for x in rng.choice(["low", "medium", "high", "critical"], int(rng.integers(0, 5)))]
    lf = inspect.signature(W.MemoryLeak).parameters
    q.detected_leaks.extend(W.MemoryLeak(**{f: s if f == "severity" else 0 for f in lf}) for s in sev)
    q.step_count = n + 2
    s = call("get_memory_summary", xs, q.get_memory_summary)
    if not n:
        if set(s) != {"error"}:
            return fail("summary of nothing", xs, s, "an error entry")
    else:
        dur = s["session"].pop("duration_seconds")
        p, c = [x["process_memory_mb"] for x in xs], [x["jax_arrays_count"] for x in xs]
        w = {"session": {"total_snapshots": n, "total_steps": n + 2}, "current_usage": {k: xs[-1][k] for k in keys + ("jax_arrays_count",)},
             "statistics": {"peak_memory_mb": max(p), "min_memory_mb": min(p), "avg_memory_mb": float(np.mean(p)), "total_growth_mb": p[-1] - p[0], "peak_arrays_count": max(c), "avg_arrays_count": float(np.mean(c))},
             "leaks": {"total_detected": len(sev), "critical_leaks": sev.count("critical"), "high_leaks": sev.count("high")}}
        if not close(s, w) or not 0 <= dur < 60:
            return fail("get_memory_summary", xs, s, w)
    for k in ("a", "c"):
        o = [x for x in xs if x["module_name"] == k]
        s = call("get_module_memory_analysis", xs, q.get_module_memory_analysis, k)
        if not o:
            if set(s) != {"error"}:
                return fail("analysis of nothing", xs, s, "an error entry")
            continue
        p, v = [x["process_memory_mb"] for x in o], [x["state_variables_mb"] for x in o]
        w = {"module_name": k, "snapshots_count": len(o), "memory_usage": {"current_mb": p[-1], "peak_mb": max(p), "avg_mb": float(np.mean(p)), "growth_mb": p[-1] - p[0]},
             "state_memory": {"current_mb": v[-1], "peak_mb": max(v), "avg_mb": float(np.mean(v))}}
        if not close(s, w):
            return fail("get_module_memory_analysis", xs, s, w)
    # growth
    y = np.cumsum(rng.normal(float(rng.choice([0, 2, 20])), 1, n))
    c = np.cumsum(rng.integers(0, int(rng.choice([5, 40])), n))
    mod = [str(x) for x in rng.choice(["a", "b", "c"], n)]
    size = np.round(rng.random(n) * float(rng.choice([20, 200])), 2)
    q.snapshots.clear()
    q.detected_leaks.clear()
    for i in range(n):
        v = dict(step=i * every, process_memory_mb=float(y[i]), jax_arrays_count=int(c[i]), jax_arrays_size_mb=float(size[i]), module_name=mod[i])
        q.snapshots.append(W.MemorySnapshot(**{f: v.get(f, 0) for f in fs if f in v or fs[f].default is inspect.Parameter.empty}))
    inp = dict(memory=y.tolist(), arrays=c.tolist(), sizes=size.tolist(), modules=mod, threshold=thr, interval=every)
    call("_check_for_leaks", inp, q._check_for_leaks)
    want, k = [], min(n, 10)

    def leak(typ, rate, mb):
        return (typ, "critical" if mb > 100 else "high" if mb > 50 else "medium" if mb > 20 else "low", rate, mb, (n - k) * every, (n - 1) * every, sorted(set(mod[n - k:])))
    if n >= 5:
        rate, grown = float(np.polyfit(np.arange(k), y[n - k:], 1)[0]) / every, float(y[-1] - y[n - k])
        if min(abs(rate - thr / 100), abs(grown - thr)) < 1e-6:
            return None
        if rate > thr / 100 and grown > thr:
            want.append(leak("growing_memory", rate, grown))
        if c[-1] - c[n - k] > 100:
            want.append(leak("growing_arrays", float(c[-1] - c[n - k]) / k, float(np.mean(size[-3:]))))
    got = [(x.leak_type, x.severity, x.growth_rate_mb_per_step, x.total_leaked_mb, x.first_detected_step, x.last_detected_step, sorted(x.affected_modules)) for x in q.detected_leaks]
    if not close(sorted(got), sorted(want)):
        return fail("leaks found", inp, got, want)
    if not isinstance(call("generate_memory_report", xs, q.generate_memory_report), str):
        return fail("generate_memory_report", xs, None, "text")
    return None


@guarded
def tracker_real(rng):
    import wax.flax.visualization.data_flow_visualizer as W
    L = int(rng.integers(1, 6))
    q = W.DataFlowTracker(max_history=L)
    log, step = [], 0
    for _ in range(int(rng.integers(0, 12))):
        if rng.random() < 0.3:
            q.step()
            step += 1
            continue
        v = [3.0, np.ones((2, 3)), [1, 2], {"a": 1}, "text"][int(rng.integers(5))]
        meta = [None, {}, {"k": 1}][int(rng.integers(3))]
        r = (str(rng.choice(["a", "b"])), str(rng.choice(["input", "output"])), v, meta)
        call("record_data", r, q.record_data, *r)
        log.append((step,) + r)
    inp = dict(max_history=L, log=[(a, b, c) for a, b, c, *_ in log])

    def bad(got, want):
        return len(got) != len(want) or any((x.step, x.module_name, x.data_type) != w[:3] or x.value is not w[3] or x.metadata != (w[4] or {})
                                            or x.shape != (np.shape(w[3]) if isinstance(w[3], np.ndarray) else (len(w[3]),) if isinstance(w[3], (list, dict)) else ()) or not 0 <= x.timestamp < 60 for x, w in zip(got, want))
    for n in (None, 0, 1, 2, L, L + 3):
        got = call(f"get_recent_data({n})", inp, q.get_recent_data, *(() if n is None else (n,)))
        want = log[-L:][max(len(log[-L:]) - (100 if n is None else n), 0):]
        if bad(got, want):
            return fail(f"get_recent_data({n})", inp, [(x.step, x.module_name, x.data_type) for x in got], [w[:3] for w in want])
    for k in ("a", "b", "c"):
        for kind in (None, "input"):
            got, want = call("get_module_history", inp, q.get_module_history, k, kind), [w for w in [w for w in log if w[1] == k][-L:] if kind in (None, w[2])]
            if bad(got, want):
                return fail(f"get_module_history({k!r}, {kind!r})", inp, [(x.step, x.module_name, x.data_type) for x in got], [w[:3] for w in want])
    if q.step_count != step:
        return fail("step_count", inp, q.step_count, step)
    q.clear_history()
    if q.get_recent_data() or q.step_count or q.get_module_history("a"):
        return fail("clear_history", inp, q.get_recent_data(), [])
    return None


@guarded
def dashboard_real(rng):
    import warnings

    import wax.flax.visualization.interactive_dashboard as W
    with warnings.catch_warnings(), contextlib.redirect_stdout(None):
        warnings.simplefilter("ignore")
        q = W.InteractiveDashboard(W.DashboardConfig(enable_alerts=bool(rng.random() < 0.8), performance_threshold_ms=10.0, memory_threshold_mb=100.0, max_data_points=3))
        q.socketio = Emits() if rng.random() < 0.5 else None
        for k in "pq":
            call("register_pipeline", k, q.register_pipeline, k, len, 1.0, "about " + k)
        if rng.random() < 0.5:
            q.state.connected_clients.add("someone")
        log = {k: [] for k in "pq"}
        steps, ex, mem, alerts, sent = dict(p=0, q=0), dict(p=[], q=[]), dict(p=[], q=[]), [], []
        hist = []
        for _ in range(int(rng.integers(1, 9))):
            k = str(rng.choice(["p", "q", "u"]))
            if rng.random() < 0.3:
                call("step_pipeline", (hist, k), q.step_pipeline, k)
                hist.append(("step", k))
                if k != "u":
                    steps[k] += 1
                continue
            md = {}
            if rng.random() < 0.6:
                md["execution_time_ms"] = float(rng.choice([1.0, 10.0, 10.5, 200.0]))
            if rng.random() < 0.6:
                md["memory_usage_mb"] = float(rng.choice([1.0, 100.0, 101.0]))
            md = None if not md and rng.random() < 0.5 else md
            v = [1.5, np.arange(3), "x"][int(rng.integers(3))]
            call("record_pipeline_data", (hist, k, v, md), q.record_pipeline_data, k, "module", "output", v, md)
            hist.append(("record", k, md))
            if k == "u":
                continue
            log[k].append((steps[k], v))
            for key, lst, typ, thr in (("execution_time_ms", ex, "performance", 10.0), ("memory_usage_mb", mem, "memory", 100.0)):
                if key in (md or {}):
                    lst[k].append(md[key])
                    if q.config.enable_alerts and md[key] > thr:
                        alerts.append((typ, k))
                        sent.append(("alert", k))
            if q.state.connected_clients:
                sent.append(("pipeline_data_update", k))
        inp = dict(history=hist, alerts=q.config.enable_alerts)
        got = [(a["type"], a["pipeline_id"]) for a in q.state.alerts]
        if got != alerts:
            return fail("alerts", inp, got, alerts)
        if q.socketio is not None and [(a[0], a[1]["pipeline_id"]) for a, _ in q.socketio.sent] != sent:
            return fail("sent to the clients", inp, q.socketio.sent, sent)
        pm = q.state.performance_metrics
        for k in "pq":
            t = q.state.data_trackers[k]
            got = ([(x.step, x.module_name) for x in t.get_recent_data()], [x.value is w[1] for x, w in zip(t.get_recent_data(), log[k][-3:])], t.step_count, q.state.active_pipelines[k]["total_calls"],
                   list(pm.get(f"{k}_execution_time", [])), list(pm.get(f"{k}_memory_usage", [])), q.state.active_pipelines[k]["description"], q.state.visualizers[k].tracker is t)
            want = ([(n, "module") for n, _ in log[k][-3:]], [True] * len(log[k][-3:]), steps[k], steps[k], ex[k], mem[k], "about " + k, True)
            if got != want:
                return fail(f"pipeline {k}", inp, got, want)
        if len(pm.get("global_throughput", [])) != len(log["p"]) + len(log["q"]) or set(q.state.data_trackers) != set("pq"):
            return fail("throughput", inp, len(pm.get("global_throughput", [])), len(log["p"]) + len(log["q"]))
    return None


def cases(P, tier):
    return profiler_cases(P) + debugger_cases(P) + memory_cases(P) + tracker_cases(P) + dashboard_cases(P)
