"""wax.flax.core.advanced_state_patterns, streaming_transforms, state_utils: modules composed of modules."""
import inspect
import itertools

import numpy as np
import z3

from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Tok
from .memory import Jnp, eq_i, integer, load, plain

A = "src/wax/flax/core/advanced_state_patterns.py:"
S = "src/wax/flax/core/streaming_transforms.py:"
U = "src/wax/flax/core/state_utils.py:"


# ------------------------------------------------------------------------------------------------------- compositions
class Along:
    """one loop over arbitrarily many named modules: the first iteration, and an arbitrary one from arbitrary data"""

    def __init__(self, ob, start, data, check, cls=None):
        self.ob, self.start, self.data, self.check, self.L, self.cls = ob, start, data, check, None, cls

    def enter(self, L, loc):
        if self.L is not None:
            raise Y.Mismatch("a second loop")
        self.L = L
        self.first = Y.EX.fork(T.eq(L.idx, 0))
        if self.first:
            self.cur = self.start
            return {k: loc[k] for k in L.names if k in loc}
        # data carried from one module to the next is arbitrary; the results so far are one arbitrary entry
        self.cur = self.data
        self.dicts = [v for k, v in loc.items() if isinstance(v, dict) and not v and v is not self.start and not k.startswith("__wv") and k not in self.params()]
        for d in self.dicts:
            d["results before"] = self.mark = Tok("results before")
        return {k: self.data for k in L.names if k in loc and loc[k] is self.start}

    def params(self):
        return () if self.cls is None else inspect.signature(self.cls.__call__).parameters

    def back(self, L, loc):
        self.check(self, loc)


def composed(ob, plan, strategy):
    DATA = {"token": lambda nm: Tok(nm), "dict": lambda nm: {"a": Tok(nm, "a"), "b": Tok(nm, "b")}}
    OUT = {"token": lambda: Tok("output"), "dict": lambda: {"b": Tok("output b"), "c": Tok("output c")}, "influence": lambda: {"influence": Tok("influence"), "z": Tok("z")}, "empty": lambda: {}}
    for dk, ok in itertools.product(DATA, OUT):
        calls = []
        res = OUT[ok]()
        tag = f"{dk}.{ok}"
        start, data = DATA[dk]("input"), DATA[dk]("data")
        copy = lambda d: dict(d) if isinstance(d, dict) else d      # noqa: E731
        s0, d0, r0 = copy(start), copy(data), copy(res)

        def carried(cur):
            if strategy == "parallel":
                return cur
            if strategy == "pipeline":
                return {**cur, **res} if isinstance(res, dict) and isinstance(cur, dict) else res
            return res["influence"] if isinstance(res, dict) and "influence" in res else cur

        def check(h, loc):
            ob(f"{tag}/each module is called once, with the data of its place", len(calls) == 1 and (calls[0] is h.cur or calls[0] == h.cur))
            outs = [v for k, v in loc.items() if isinstance(v, dict) and NAME in v]
            ob(f"{tag}/its result is kept under its name, the others unchanged", len({id(v) for v in outs}) == 1 and outs[0][NAME] is res and
               (set(outs[0]) == ({NAME} if h.first else {NAME, "results before"})) and (h.first or outs[0]["results before"] is h.mark))
            ob(f"{tag}/what was given is unchanged", start == s0 and data == d0 and res == r0)
            if strategy != "parallel":
                want = carried(h.cur)
                names = [k for k in h.L.names if k in h.L.bound and h.L.bound[k] is start]
                ob(f"{tag}/the next module gets the data of the next place", any(loc.get(k) == want for k in names) if names else False)
        NAME = Tok("name of a module")
        h = Along(ob, start, start if strategy == "parallel" else data, check)
        m = load("core.advanced_state_patterns", h)

        class Pat:
            def __call__(self, d, *a, **k):
                if a or k:
                    raise Y.Mismatch("other arguments")
                calls.append(d)
                return res

        class Names:
            n = z3.Int("number of modules")

            def items(self):
                Y.EX.assume(self.n >= 0)
                return Y.SymSeq(self.n, lambda i: (NAME, Tok("unbound module")))

            def wv_seq(self):
                Y.EX.assume(self.n >= 0)
                return Y.SymSeq(self.n, lambda i: NAME)

            def keys(self):
                return self.wv_seq()
        o = plain(m.CompositeStateManager, dict(state_patterns=Names(), composition_strategy=strategy), {})
        pat = Pat()
        type(o).__getattr__ = lambda s, k: pat if k == f"pattern_{NAME}" else (_ for _ in ()).throw(AttributeError(k))
        r = o(start)
        if h.L is None:
            ob(f"{tag}/every module is run", False)
        else:
            ob(f"{tag}/the results are returned", isinstance(r, dict) and set(r) <= {"results before"} and not calls and h.L.done)


def machine(ob, plan):
    for strategy, fails, nk in itertools.product(("sequential", "parallel"), (False, True), (0, 1)):
        calls, tag = [], f"{strategy}.{'fails' if fails else 'returns'}.{nk}"
        NAME, res = Tok("name of a state"), Tok("output")
        args, kw = (Tok("x"), Tok("y")), {"k": Tok("k")} if nk else {}

        class Boom(Exception):
            pass

        def module(*a, **k):
            calls.append((a, k))
            if fails:
                raise Boom("as raised")
            return res

        def check(h, loc):
            ob(f"{tag}/each state is run once, with the inputs", len(calls) == 1 and len(calls[0][0]) == 2 and all(x is y for x, y in zip(calls[0][0], args)) and calls[0][1] == kw)
            outs = [v for k, v in loc.items() if isinstance(v, dict) and NAME in v]
            v = outs[0][NAME] if outs else None
            ob(f"{tag}/its output, or its failure, is kept under its name, the others unchanged", len({id(v) for v in outs}) == 1 and (v is res if not fails else isinstance(v, dict) and v.get("status") == "failed" and v.get("error") == "as raised")
               and set(outs[0]) <= {NAME, "results before"})
        h = Along(ob, Tok("nothing"), Tok("nothing"), check)
        m = load("core.advanced_state_patterns", h)
        h.cls = m.HierarchicalStateMachine

        class Count:
            def __init__(self, n):
                self.n = n

            def __add__(self, k):
                return Count(self.n + k)

        class Names:
            n = z3.Int("number of states")

            def wv_seq(self):
                Y.EX.assume(self.n >= 0)
                return Y.SymSeq(self.n, lambda i: NAME)

            def __contains__(self, k):
                return k == NAME
        coord = {"num_active_states": Tok("states"), "state_priorities": Tok("priorities"), "last_updates": Count(integer("steps so far"))}
        o = plain(m.HierarchicalStateMachine, dict(state_modules=Names(), dependencies=None, coordination_strategy=strategy), {"coordination": coord})
        o.coordination_state = o.variable("state", "coordination", None)
        o.state_name_list = Tok("all the names")
        asked = []

        def order(active):
            asked.append(active)
            return Names()
        o.get_execution_order = order
        type(o).__getattr__ = lambda s, k: module if k == f"state_{NAME}" else (_ for _ in ()).throw(AttributeError(k))
        r = o(*args, **kw)
        ob(f"{tag}/all the states are run", h.L is not None and h.L.done and len(asked) == 1 and asked[0] is o.state_name_list)
        ob(f"{tag}/the outputs are returned", isinstance(r, dict) and set(r) <= {"results before"} and not calls)
        v = o.vars_["coordination"].value
        ob(f"{tag}/one more step", T.And(eq_i(v["last_updates"].n, integer("steps so far") + 1), v["num_active_states"] == Tok("states") and v["state_priorities"] == Tok("priorities")))


def order(ob, plan):
    m = load("core.advanced_state_patterns")
    import math
    N = ("a", "b", "c")
    pairs = [(x, y) for x in N for y in N if x != y]
    for n in range(2 ** len(pairs)):
        deps = {x: [y for k, (u, y) in enumerate(pairs) if u == x and n >> k & 1] for x in N}
        deps = {k: v for k, v in deps.items() if v or n % 2}
        for active in (N, N[:2], N[1:], N[:1], ()):
            o = plain(m.HierarchicalStateMachine, dict(state_modules={}, dependencies=deps or None, coordination_strategy="sequential"), {})
            r = o.get_execution_order(list(active))
            ok = sorted(r) == sorted(active)
            sub = {x: [y for y in deps.get(x, ()) if y in active] for x in active}
            left, go = dict(sub), True
            while left and go:
                ready = [x for x in left if not any(y in left for y in left[x])]
                go = bool(ready)
                for x in ready:
                    del left[x]
            if not left:
                ok = ok and all(r.index(y) < r.index(x) for x in active for y in sub[x])
            ob(f"{n}.{len(active)}/every state once, after those it depends on", ok)
    del math


def coordinated(ob, plan):
    """the hierarchical strategy, on up to three states whose outputs are arbitrary"""
    class J(Jnp):
        ndarray = Y.Sc
    m = load("core.advanced_state_patterns")
    m.jnp = J()
    N = ("a", "b", "c")
    pairs = [(x, y) for x in N for y in N if x != y]
    number = lambda nm: Y.Sc("f", T.fv(z3.Real(nm)))     # noqa: E731
    for n in range(2 ** len(pairs)):
        deps = {x: [y for k, (u, y) in enumerate(pairs) if u == x and n >> k & 1] for x in N}

        def depth(x, seen=()):
            if x in seen:
                raise RecursionError
            return 1 + max(depth(y, seen + (x,)) for y in deps[x]) if deps[x] else 0
        try:
            lev = {x: depth(x) for x in N}
        except RecursionError:
            continue
        for shape in ("numbers", "mixed"):
            out = {x: {"v": number(f"v of {x}"), "own " + x: number(f"own of {x}"), "t": Tok("text", x)} for x in N}
            if shape == "mixed":
                out["b"] = Tok("output of b")
                out["c"].pop("v")
            before = {x: dict(v) if isinstance(v, dict) else v for x, v in out.items()}
            o = plain(m.HierarchicalStateMachine, dict(state_modules={x: Tok("module", x) for x in N}, dependencies={k: v for k, v in deps.items() if v} or None, coordination_strategy="hierarchical"), {})
            r = o.coordinate_states(dict(out), Tok("info"))
            want = {}
            for x in sorted(N, key=lambda x: (lev[x], x)):
                w = before[x]
                for h in sorted((y for y in N if lev[y] < lev[x]), key=lambda y: (lev[y], y)):
                    if isinstance(w, dict) and isinstance(want[h], dict):
                        w = {k: v if not isinstance(v, Y.Sc) or k not in want[h] else v * .9 + want[h][k] * .1 for k, v in w.items()}
                want[x] = w
            tag = f"{n}.{shape}"
            ob(f"{tag}/every state keeps its place", set(r) == set(N))
            for x in N:
                g = r[x]
                if not isinstance(want[x], dict):
                    ob(f"{tag}/{x}/an output that is no mapping stays", g == want[x])
                    continue
                ob(f"{tag}/{x}/the same entries", isinstance(g, dict) and set(g) == set(want[x]))
                for k, w in want[x].items():
                    ob(f"{tag}/{x}/{k}: a tenth of each higher state", T.eq(Y.unwrap(g[k])[1], w.v) if isinstance(w, Y.Sc) and isinstance(g[k], Y.Sc) else g[k] == w)
                ob(f"{tag}/{x}/what was given is unchanged", all(out[x][k] is before[x][k] for k in before[x]) and set(out[x]) == set(before[x]))


class Asked:
    """a function known by its calls"""

    def __init__(self, res):
        self.res, self.calls = res, []

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return self.res() if callable(self.res) and not isinstance(self.res, Tok) else self.res


def same_call(c, a, k):
    return len(c) == 1 and len(c[0][0]) == len(a) and all(x is y for x, y in zip(c[0][0], a)) and set(c[0][1]) == set(k) and all(c[0][1][j] is k[j] for j in k)


CALLS = [((), {}), ((Tok("x"),), {}), ((Tok("x"), Tok("y")), {}), ((), {"k": Tok("k")}), ((Tok("x"),), {"k": Tok("k"), "l": Tok("l")})]


def patterns(P):
    out = []

    def hierarchy(ob, plan):
        NAME = Tok("name of a module")
        for dk, deps in enumerate((None, {}, {Tok("another name"): ["d"]}, {NAME: []}, {NAME: ["d"]}, {NAME: ["absent", "d"]}, {NAME: ["d", "results before", "x"]})):
            inputs = {"x": Tok("x"), "y": Tok("y")}
            module = Asked(Tok("output"))
            tag = f"dependencies {dk}"

            def check(h, loc):
                mine = (deps or {}).get(NAME, ())
                want = {} if h.first else {k: v for k, v in (("d", Tok("output of d")), ("results before", Tok("results before"))) if k in mine}
                want.update(inputs)
                ob(f"{tag}/each module is called once, with the inputs and the outputs of the modules it depends on", len(module.calls) == 1 and module.calls[0] == ((), want))
                outs = [v for k, v in loc.items() if isinstance(v, dict) and NAME in v and v is not deps]
                ob(f"{tag}/its output is kept under its name, the others unchanged", len({id(v) for v in outs}) == 1 and outs[0] == {**({} if h.first else {"d": Tok("output of d"), "results before": Tok("results before")}), NAME: Tok("output")})
                ob(f"{tag}/the inputs are unchanged", inputs == {"x": Tok("x"), "y": Tok("y")})

            class H(Along):
                def enter(self, L, loc):
                    if self.L is not None:      # the loop over the dependencies of this module: as it is
                        raise Y.Mismatch("a second cut loop")
                    r = super().enter(L, loc)
                    if not self.first:
                        for d in self.dicts:
                            if d is not inputs:
                                d["d"] = Tok("output of d")
                    return r
            h = H(ob, inputs, Tok("no data"), check)
            m = load("core.streaming_transforms", h)
            h.cls = m.HierarchicalState

            class Names:
                n = z3.Int("number of modules")

                def items(self):
                    Y.EX.assume(self.n >= 0)
                    return Y.SymSeq(self.n, lambda i: (NAME, module))

                def wv_seq(self):
                    Y.EX.assume(self.n >= 0)
                    return Y.SymSeq(self.n, lambda i: NAME)
                keys = wv_seq

                def __getitem__(self, k):
                    return module if k == NAME else None
            o = plain(m.HierarchicalState, dict(modules=Names(), dependencies=deps), {})
            r = o(**inputs)
            ob(f"{tag}/every module is run", h.L is not None and h.L.done)
            ob(f"{tag}/the outputs are returned", isinstance(r, dict) and set(r) <= {"results before", "d"} and not module.calls)
    out.append(HostCase(P, "HierarchicalState", [S + "HierarchicalState.execute_in_order", S + "HierarchicalState._get_module_inputs", S + "HierarchicalState.__call__"], hierarchy, lambda rng: hierarchy_state_real(rng)))

    def conditional(ob, plan):
        for a, k in CALLS:
            tag = f"{len(a)}.{len(k)}"
            class J(Jnp):
                array = asarray = float32 = staticmethod(lambda v, *r: Tok("array", v))

                @staticmethod
                def zeros(sh, *r):
                    return Tok("array", 0.0) if sh == () else Tok("zeros", sh)
            m = load("core.streaming_transforms")
            m.jnp = J()
            holds = z3.Bool(f"the condition holds {tag}")
            cond, module = Asked(lambda: Y.Sc("b", holds)), Asked(Tok("output"))
            o = plain(m.ConditionalStateUpdate, dict(module=module, condition_fn=cond, reset_on_condition=False), {})
            o.setup()
            r = o(*a, **k)
            ob(f"{tag}/the condition is asked once, of the inputs", same_call(cond.calls, a, k))
            ran = bool(module.calls)
            ob(f"{tag}/the module is run exactly when it holds", holds if ran else T.Not(holds))
            ob(f"{tag}/once, with the inputs, and its result returned; else the first input", same_call(module.calls, a, k) and r == Tok("output") if ran else r is a[0] if a else r == Tok("array", 0.0))
    out.append(HostCase(P, "ConditionalStateUpdate", [S + "ConditionalStateUpdate.__call__", S + "ConditionalStateUpdate.setup", S + "ConditionalStateUpdate.should_update"], conditional, lambda rng: conditional_real(rng)))

    def automaton(ob, plan):
        for (a, k), listed in itertools.product(CALLS, (False, True)):
            tag = f"{len(a)}.{len(k)}.{'leaves' if listed else 'stays'}"
            NOW, NEXT = Tok("state now"), Tok("a next state")
            cond, module = [], Asked(Tok("output"))
            log = {"asked": 0}

            class Handler:
                L = None

                def enter(self, L, loc):
                    if self.L is not None:
                        raise Y.Mismatch("a second loop")
                    self.L = L
                    return {n: loc[n] for n in L.names if n in loc}

                def back(self, L, loc):
                    ob(f"{tag}/a condition is asked once, of the inputs, and does not hold", same_call(cond, a, k) and log["asked"] is False)
                    ob(f"{tag}/the state stays until then", o.vars_["current"].value == NOW)
            h = Handler()
            m = load("core.streaming_transforms", h)

            def ask(*x, **y):
                cond.append((x, y))
                log["asked"] = bool(Y.Sc("b", z3.Bool("the condition holds")))
                return log["asked"]

            class Leaves:
                n = z3.Int("number of transitions")

                def items(self):
                    Y.EX.assume(self.n >= 0)
                    return Y.SymSeq(self.n, lambda i: (NEXT, ask))

            class Map(dict):
                def __init__(self, **k):
                    pass
            tr = {NOW: Leaves()} if listed else {Tok("another state"): Leaves()}
            o = plain(m.StreamingStateMachine, dict(states={NOW: module}, transitions=tr, initial_state=Tok("first state")), {"current": NOW})
            o.current_state = o.variable("state", "current", None)
            r = o(*a, **k)
            ob(f"{tag}/the module of the state is run once, with the inputs", same_call(module.calls, a, k))
            left = log["asked"] is True
            ob(f"{tag}/a condition is asked of the inputs", not left or same_call(cond, a, k))
            ob(f"{tag}/the first transition whose condition holds is taken, none otherwise", isinstance(r, tuple) and len(r) == 2 and r[1] == (NEXT if left else NOW) and (left or not listed or h.L is not None and h.L.done))
            ob(f"{tag}/the output is that of the state before", r[0] == Tok("output"))
            ob(f"{tag}/the state is kept", o.vars_["current"].value == (NEXT if left else NOW))
    out.append(HostCase(P, "StreamingStateMachine", [S + "StreamingStateMachine.__call__", S + "StreamingStateMachine.get_next_state"], automaton, lambda rng: automaton_real(rng)))

    def constructed(ob, plan):
        m = load("core.streaming_transforms")
        from flax import linen as nn

        class M(nn.Module):
            pass
        for bind in ("position", "name", "defaults"):
            u, c, tr = M(), (lambda x: x), {"u": {"v": lambda x: x}}
            deps = {"v": ["u"]}
            cases = [(m.HierarchicalState, ("modules", "dependencies"), ({"u": u, "v": M()}, deps), 1), (m.ConditionalStateUpdate, ("module", "condition_fn", "reset_on_condition"), (u, c, True), 2),
                     (m.StreamingStateMachine, ("states", "transitions", "initial_state"), ({"u": u}, tr, "u"), 3)]
            for cls, names, v, required in cases:
                v = v[:required] if bind == "defaults" else v
                try:
                    o = (cls(*v) if bind != "name" else cls(**dict(zip(names, v)))).clone()
                    ok = all(getattr(o, k) == x for k, x in zip(names, v)) and (bind != "defaults" or required == len(names) or not getattr(o, names[required]))
                except (AttributeError, TypeError):
                    ok = False
                ob(f"{cls.__name__}.{bind}/it is made with what it is given, also when it becomes part of another", ok)
    out.append(HostCase(P, "patterns are made", [S + "HierarchicalState", S + "ConditionalStateUpdate", S + "StreamingStateMachine"], constructed, lambda rng: [hierarchy_state_real, conditional_real, automaton_real][int(rng.integers(0, 3))](rng)))

    def starts(ob, plan):
        m = load("core.streaming_transforms")
        mods = {f"s{k}": Tok("module", k) for k in range(3)}
        o = plain(m.StreamingStateMachine, dict(states=mods, transitions={}, initial_state="s1"), {})
        o.setup()
        ob("it starts in its initial state", o.current_state.value == "s1" and list(o.vars_) == ["current"])
    out.append(HostCase(P, "StreamingStateMachine.setup", [S + "StreamingStateMachine.setup"], starts, lambda rng: automaton_real(rng), bounded="three states"))

    def applied(ob, plan):
        for cols, (a, k) in itertools.product(((), ("params",), ("params", "state"), ("state",), ("cache",), ("params", "cache", "state")), CALLS):
            tag = f"{'+'.join(cols)}.{len(a)}.{len(k)}"
            calls = []

            class Module:
                def apply(self, v, *x, **y):
                    mut = y.pop("mutable", False)
                    calls.append((v, x, y, mut))
                    return (Tok("output"), Tok("new variables")) if mut is not False else Tok("output")
            m = load("core.state_utils")
            v = {c: Tok(c) for c in cols}
            r = m.apply_with_state(Module(), v, *a, **k)
            ok = len(calls) == 1
            ob(f"{tag}/the module is applied once, to its variables and the inputs", ok and calls[0][0] is v and same_call([calls[0][1:3]], a, k) and v == {c: Tok(c) for c in cols})
            mut = calls[0][3] if ok else ()
            want = {"state", "cache"} & set(cols)
            ob(f"{tag}/its state and cache, and nothing else, can change", (set(mut) if isinstance(mut, (list, tuple, set)) else mut) == (want or False))
            ob(f"{tag}/the output and the new variables are returned", isinstance(r, tuple) and len(r) == 2 and r[0] == Tok("output") and (r[1] == Tok("new variables") if want else r[1] is v))
            # factories
            made = []

            class Cls:
                def __init__(self, *x, **y):
                    made.append((self, x, y))
            m.flax_transform_with_state = lambda x: ("transform of", x)
            t = m.create_streaming_module_wrapper(Cls)(*a, **k)
            ob(f"{tag}/the factory transforms the module it makes with the arguments", len(made) == 1 and same_call([made[0][1:]], a, k) and t == ("transform of", made[0][0]))
            mod = Asked(Tok("output"))
            w = plain(m.StreamingModuleWrapper, dict(wrapped_module=mod), {})
            ob(f"{tag}/the wrapper calls the module once, with the inputs, and returns its output", w(*a, **k) == Tok("output") and same_call(mod.calls, a, k))

            class W:
                def __init__(self, wrapped_module):
                    self.wrapped_module = wrapped_module
            m.StreamingModuleWrapper = W
            t = m.make_streaming_compatible(mod)
            ob(f"{tag}/the transform is that of the wrapped module", isinstance(t, tuple) and t[0] == "transform of" and isinstance(t[1], W) and t[1].wrapped_module is mod)
    out.append(HostCase(P, "apply_with_state", [U + "apply_with_state", U + "create_streaming_module_wrapper", U + "make_streaming_compatible", U + "StreamingModuleWrapper.__call__"], applied, lambda rng: applied_real(rng)))

    def decorators(ob, plan):
        for a, k in CALLS:
            tag = f"{len(a)}.{len(k)}"
            made, ran = [], []

            class Made:
                def __init__(self, *x, **y):
                    made.append((x, y))

                def __call__(self, *x, **y):
                    ran.append((x, y))
                    return Tok("outputs")
            m = load("core.advanced_state_patterns", HierarchicalStateMachine=Made, AttentionBasedStateSelector=Made, CompositeStateManager=Made)
            first = a[0] if a else None

            def got(nm, dec, options, inputs):
                del made[:], ran[:]
                fn = Asked(Tok("result"))
                r = dec(fn)(*a, **k)
                ob(f"{tag}.{nm}/one module with the options given", len(made) == 1 and options(*made[0]))
                ob(f"{tag}.{nm}/run once on the inputs", len(ran) == 1 and inputs(*ran[0]))
                ob(f"{tag}.{nm}/the function gets its outputs and the inputs, and its result is returned", r == Tok("result") and len(fn.calls) == 1 and fn.calls[0][0][:1] == (Tok("outputs"),) and same_call([(fn.calls[0][0][1:], fn.calls[0][1])], a, k))
            same = lambda names, *v: lambda x, y: dict(zip(names, x), **y) == dict(zip(names, v)) and len(x) + len(y) == len(v)      # noqa: E731
            mods, deps = {"u": Tok("module u")}, {"u": []}
            for d, st in ((deps, "parallel"), (None, Tok("strategy"))):
                got("streaming_state_machine", m.streaming_state_machine(mods, d, st), same(("state_modules", "dependencies", "coordination_strategy"), mods, d, st), lambda x, y: same_call([(x, y)], a, k))
            one = lambda x, y: len(x) == 1 and not y and (x[0] is first if a else x[0] == k)       # noqa: E731
            got("streaming_attention_state", m.streaming_attention_state(embed_dim=Tok("e"), num_heads=Tok("h"), max_history=Tok("m")), same(("embed_dim", "num_heads", "max_history_length"), Tok("e"), Tok("h"), Tok("m")), one)
            for n in range(4):
                ms = [Tok("module", j) for j in range(n)]
                got(f"streaming_compose_states{n}", m.streaming_compose_states(*ms, strategy=Tok("strategy")),
                    lambda x, y: (lambda z: list(z["state_patterns"].values()) == ms and len(z) == 2 and z["composition_strategy"] == Tok("strategy"))(dict(zip(("state_patterns", "composition_strategy"), x), **y)), one)
            ob(f"{tag}/a pipeline unless it is said otherwise", inspect.signature(m.streaming_compose_states).parameters["strategy"].default == "pipeline")
    out.append(HostCase(P, "decorators", [A + "streaming_state_machine", A + "streaming_attention_state", A + "streaming_compose_states"], decorators, lambda rng: decorators_real(rng)))

    def simple(ob, plan):
        for a, k in CALLS:
            tag = f"{len(a)}.{len(k)}"
            made, ran = [], []

            class Made:
                def __init__(self, *x, **y):
                    made.append((x, y))

                def __call__(self, *x, **y):
                    ran.append((x, y))
                    return Tok("outputs")
            sh = dict(HierarchicalState=Made, ConditionalStateUpdate=Made, StreamingStateMachine=Made)
            m = load("core.streaming_transforms", **sh)
            mods = {"u": Tok("module u"), "v": Tok("module v")}
            if not a:
                r = m.hierarchical_composition(**mods)(Tok("function"))(**k)
                ob(f"{tag}.hierarchical_composition/the modules given, called once with the inputs", r == Tok("outputs") and len(made) == 1 and made[0][0][0] == mods and same_call(ran, a, k))
            del made[:], ran[:]
            cond, fn = Tok("condition"), Asked(Tok("result"))
            r = m.conditional_update(cond)(fn)(*a, **k)
            z = dict(zip(("module", "condition_fn", "reset_on_condition"), made[0][0]), **made[0][1]) if len(made) == 1 else {}
            ob(f"{tag}.conditional_update/one conditional module, called once with the inputs", z.get("condition_fn") is cond and z.get("reset_on_condition", False) is False and r == Tok("outputs") and same_call(ran, a, k) and not fn.calls)
            ob(f"{tag}.conditional_update/whose module is the function", z["module"](*a, **k) == Tok("result") and same_call(fn.calls, a, k))
            for n in range(1, 4):
                del made[:], ran[:]
                fns = {f"s{j}": Asked(Tok("result", j)) for j in range(n)}
                tr = {"s0": Tok("transitions")}
                r = m.state_machine(fns, tr, "s0")(Tok("function"))(*a, **k)
                z = dict(zip(("states", "transitions", "initial_state"), made[0][0]), **made[0][1]) if len(made) == 1 else {}
                ob(f"{tag}.state_machine.{n}/one machine with the transitions and initial state given, called once with the inputs", z.get("transitions") is tr and z.get("initial_state") == "s0" and r == Tok("outputs") and same_call(ran, a, k) and set(z["states"]) == set(fns))
                for j in range(n):
                    ob(f"{tag}.state_machine.{n}/each state runs its own function", z["states"][f"s{j}"](*a, **k) == Tok("result", j) and same_call(fns[f"s{j}"].calls, a, k) and all(len(fns[f"s{i}"].calls) == (i <= j) for i in range(n)))
    out.append(HostCase(P, "pattern decorators", [S + "hierarchical_composition", S + "conditional_update", S + "state_machine"], simple, lambda rng: automaton_real(rng)))
    return out


def composition_cases(P):
    out = [HostCase(P, f"CompositeStateManager.{s}", [A + "CompositeStateManager.__call__"], lambda ob, plan, s=s: composed(ob, plan, s), lambda rng: compose_real(rng))
           for s in ("pipeline", "parallel", "hierarchical")]
    out.append(HostCase(P, "HierarchicalStateMachine", [A + "HierarchicalStateMachine.__call__"], machine, lambda rng: machine_real(rng)))
    out.append(HostCase(P, "HierarchicalStateMachine.order", [A + "HierarchicalStateMachine.get_execution_order"], order, lambda rng: order_real(rng), bounded="dependencies among at most three states"))
    out.append(HostCase(P, "HierarchicalStateMachine.coordinate", [A + "HierarchicalStateMachine." + f for f in ("coordinate_states", "_get_hierarchy_levels", "_get_higher_level_states", "_apply_hierarchical_influence")], coordinated,
                        lambda rng: order_real(rng), bounded="dependencies among three states"))
    return out + patterns(P)


# ------------------------------------------------------------------------------------------------------- the real code, on samples
def compose_real(rng):
    import jax
    import jax.numpy as jnp
    from flax import linen as nn
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.core.advanced_state_patterns import CompositeStateManager
    n = int(rng.integers(1, 5))
    st = ("pipeline", "parallel", "hierarchical")[int(rng.integers(0, 3))]

    class M(nn.Module):
        a: float
        kind: int

        @nn.compact
        def __call__(self, x):
            v = x["v"] if isinstance(x, dict) else x
            y = self.a * v + 1
            return y if self.kind == 0 else {"v": y, f"o{self.a:.2f}": v} if self.kind == 1 else {"influence": y}
    a, kd = rng.uniform(1, 2, n).tolist(), [int(k) for k in rng.integers(0, 3, n)]
    info = dict(strategy=st, factors=a, kinds=kd)

    def ref(d):
        out, cur = {}, d
        for k in range(n):
            v = cur["v"] if isinstance(cur, dict) else cur
            y = a[k] * v + 1
            o = y if kd[k] == 0 else {"v": y, f"o{a[k]:.2f}": v} if kd[k] == 1 else {"influence": y}
            out[f"m{k}"] = o
            if st == "pipeline":
                cur = {**cur, **o} if isinstance(cur, dict) and isinstance(o, dict) else o
            elif st == "hierarchical" and isinstance(o, dict) and "influence" in o:
                cur = o["influence"]
        return out
    d = {"v": jnp.asarray(1.5)} if rng.integers(0, 2) else jnp.asarray(1.5)
    try:
        want = ref(d)
    except KeyError:
        return None
    try:
        f = streaming_transform_with_state(lambda x: CompositeStateManager({f"m{k}": M(a[k], kd[k]) for k in range(n)}, st)(x))
        p, s = f.init(jax.random.PRNGKey(0), d)
        got, _ = f.apply(p, s, None, d)
        g, w = (jax.tree_util.tree_flatten(dict(x)) for x in (got, want))
        if str(g[1]) != str(w[1]) or not np.allclose(g[0], w[0], rtol=1e-5):
            return dict(info, got=str(got)[:300], expected=str(want)[:300])
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def machine_real(rng):
    import jax
    import jax.numpy as jnp
    from flax import linen as nn
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine

    class M(nn.Module):
        a: float

        @nn.compact
        def __call__(self, x, y):
            c = self.variable("state", "c", lambda: jnp.zeros(()))
            c.value = c.value + x
            return self.a * c.value + y
    n = int(rng.integers(1, 5))
    a = rng.uniform(1, 2, n).tolist()
    deps = {f"m{k}": [f"m{j}" for j in range(n) if j != k and rng.integers(0, 3) == 0] for k in range(n)}
    info = dict(states=n, dependencies=deps)
    try:
        f = streaming_transform_with_state(lambda x, y: HierarchicalStateMachine({f"m{k}": M(a[k]) for k in range(n)}, deps, ("sequential", "parallel")[n % 2])(x, y))
        one = jnp.asarray(1.)
        p, s = f.init(jax.random.PRNGKey(0), one, one)
        for step in range(2, 5):
            r, s = f.apply(p, s, None, one, one)
            if set(r) != {f"m{k}" for k in range(n)} or not all(np.isclose(r[f"m{k}"], a[k] * step + 1) for k in range(n)):
                return dict(info, step=step, got=str(r)[:300])
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def order_real(rng):
    """the order of the states of a machine, and how the higher ones influence the lower ones, for random dependencies (cycles too)"""
    from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine
    M = summing("M")
    n = int(rng.integers(1, 7))
    names = [f"m{k}" for k in rng.permutation(n)]
    cyclic = bool(rng.integers(0, 2))
    deps = {f"m{k}": [f"m{j}" for j in (range(n) if cyclic else range(k)) if j != k and rng.integers(0, 3) == 0] for k in range(n) if rng.integers(0, 4)}
    active = [x for x in names if rng.integers(0, 5)]
    info = dict(module="HierarchicalStateMachine", states=names, dependencies=deps, active=active)
    try:
        h = HierarchicalStateMachine({x: M(1.) for x in names}, deps if deps or rng.integers(0, 2) else None, "hierarchical")
        got = list(h.get_execution_order(list(active)))
        bad = sorted(got) != sorted(active) or not cyclic and any(d in active and got.index(d) > got.index(x) for x in active for d in deps.get(x, ()))
        if bad:
            return dict(info, order=got)

        def depth(x, seen=()):
            if x in seen or not deps.get(x):
                return 0
            return 1 + max(depth(d, seen + (x,)) for d in deps[x])
        lv = {x: depth(x) for x in names}
        outs = {x: dict(v=float(rng.integers(1, 9)), **({x: 1.} if rng.integers(0, 2) else {}), **({"w": float(rng.integers(1, 9))} if rng.integers(0, 2) else {"w": "text"})) if rng.integers(0, 4) else 5. for x in active}
        want = {}
        for L in sorted(set(lv.values())):
            for x in names:
                if lv[x] == L and x in outs:
                    o = outs[x]
                    for H in range(L):
                        for y in names:
                            if lv[y] == H and y in want and isinstance(o, dict) and isinstance(want[y], dict):
                                o = {k: .9 * v + .1 * want[y][k] if k in want[y] and isinstance(v, float) and isinstance(want[y][k], float) else v for k, v in o.items()}
                    want[x] = o
        if any(isinstance(o, dict) and isinstance(o.get("w"), str) for o in outs.values()):
            for o in outs.values():
                if isinstance(o, dict):
                    o["w"] = "text"
            want = {x: dict(o, w="text") if isinstance(o, dict) else o for x, o in want.items()}
        kept = {x: dict(o) if isinstance(o, dict) else o for x, o in outs.items()}
        res = h.coordinate_states(outs, {})
        eq = lambda u, v: np.isclose(u, v) if isinstance(u, float) and isinstance(v, float) else u == v      # noqa: E731
        if set(res) != set(want) or not all(eq(res[x][k], v) and set(res[x]) == set(want[x]) if isinstance(want[x], dict) else eq(res[x], want[x]) for x in want for k, v in (want[x].items() if isinstance(want[x], dict) else [(0, 0)])):
            return dict(info, outputs=str(outs), got=str(res)[:300], expected=str(want)[:300])
        if outs != kept:
            return dict(info, outputs=str(kept), changed_to=str(outs)[:300])
        for st in ("sequential", "parallel"):
            if HierarchicalStateMachine({x: M(1.) for x in names}, deps, st).coordinate_states(outs, {}) != kept:
                return dict(info, outputs=str(kept), strategy=st)
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def decorators_real(rng):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.advanced_state_patterns import streaming_attention_state, streaming_compose_states, streaming_state_machine
    M = summing("M")
    n = int(rng.integers(1, 4))
    a = rng.uniform(1, 2, n).tolist()
    info = dict(modules=n, factors=a)
    one, key = jnp.asarray(1.), jax.random.PRNGKey(0)
    try:
        for st in ("parallel", "hierarchical", None, "pipeline"):
            kw = {} if st is None else dict(strategy=st)
            f = streaming_compose_states(*[M(v) for v in a], **kw)(lambda r, x: (r, 2 * x))
            p, s = f.init(key, one)
            tot = [0.] * n

            def follow(x):
                out, cur = [], x
                for k in range(n):
                    tot[k] += cur
                    out.append(a[k] * tot[k])
                    cur = out[-1] if st in (None, "pipeline") else x
                return out
            follow(1.)
            for x in (2., 3.):
                (r, y), s = f.apply(p, s, None, jnp.asarray(x))
                if not np.allclose(list(r.values()), follow(x)) or not np.isclose(y, 2 * x):
                    return dict(info, function="streaming_compose_states", strategy=st, x=x, got=str((r, y))[:300])
        for st in ("sequential", "parallel", "hierarchical"):
            f = streaming_state_machine({f"m{k}": M(a[k]) for k in range(n)}, {"m0": ["m1"]} if n > 1 else None, st)(lambda r, x: (r, 2 * x))
            p, s = f.init(key, one)
            for t, x in ((3., 2.), (6., 3.)):
                (r, y), s = f.apply(p, s, None, jnp.asarray(x))
                if set(r) != {f"m{k}" for k in range(n)} or not all(np.isclose(r[f"m{k}"], a[k] * t) for k in range(n)) or not np.isclose(y, 2 * x):
                    return dict(info, function="streaming_state_machine", strategy=st, x=x, got=str((r, y))[:300])
        e, m = 4 * int(rng.integers(1, 3)), int(rng.integers(2, 4))
        f = streaming_attention_state(embed_dim=e, num_heads=2, max_history=m)(lambda r, x: (r, 2 * x))
        p, s = f.init(key, jnp.ones(3))
        seen = None
        for t in range(m + 2):
            (r, y), s = f.apply(p, s, None, jnp.ones(3) * t)
            if r["original_state"].shape != (e,) or not np.allclose(y, 2. * t) or not np.allclose(r["current_state"], t) or len(r["relevant_history"]) != (min(t + 1, m) if t else 1) \
                    or t and not np.allclose(r["relevant_history"][-1], seen):
                return dict(info, function="streaming_attention_state", embed_dim=e, max_history=m, step=t, got=str(r)[:300])
            seen = r["original_state"]
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def transformed(f):
    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    return streaming_transform_with_state(f)


def summing(name):
    import jax.numpy as jnp
    from flax import linen as nn

    class M(nn.Module):
        """adds up what it is given"""
        a: float

        @nn.compact
        def __call__(self, x, **k):
            c = self.variable("state", "c", lambda: jnp.zeros(()))
            c.value = c.value + x
            return self.a * c.value + sum(v * (2 + ord(n[-1]) % 7) for n, v in k.items())
    return M


def hierarchy_state_real(rng):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import HierarchicalState, hierarchical_composition
    M = summing("M")
    n = int(rng.integers(1, 5))
    a = rng.uniform(1, 2, n).tolist()
    deps = [None, {}, {f"m{k}": [f"m{j}" for j in range(n) if j != k and rng.integers(0, 2)] for k in range(n) if rng.integers(0, 3)}][int(rng.integers(0, 3))]
    info = dict(module="HierarchicalState", factors=a, dependencies=deps)
    try:
        mods = lambda: {f"m{k}": M(a[k]) for k in range(n)}      # noqa: E731
        f = transformed(lambda **k: (HierarchicalState(mods(), deps) if deps is not None else HierarchicalState(mods()))(**k))
        if deps is None and rng.integers(0, 2):
            f = hierarchical_composition(**mods())(lambda x: x)
        p, s = f.init(jax.random.PRNGKey(0), x=jnp.asarray(1.))
        tot = 1.
        for step in range(3):
            x = float(rng.integers(1, 9))
            r, s = f.apply(p, s, None, x=jnp.asarray(x))
            tot += x
            want = {}
            for k in range(n):
                nm = f"m{k}"
                want[nm] = a[k] * tot + sum(want[d] * (2 + ord(d[-1]) % 7) for d in (deps or {}).get(nm, ()) if d in want)
            if set(r) != set(want) or not all(np.isclose(r[k], want[k]) for k in want):
                return dict(info, step=step, got=str(r)[:300], expected=str(want)[:300])
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def conditional_real(rng):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import ConditionalStateUpdate
    M = summing("M")
    f = transformed(lambda x: ConditionalStateUpdate(M(2.), lambda x: x > 3)(x))
    xs = [5.] + rng.integers(0, 8, 5).astype(float).tolist()
    info = dict(module="ConditionalStateUpdate", condition="x > 3", inputs=xs)
    try:
        p, s = f.init(jax.random.PRNGKey(0), jnp.asarray(xs[0]))
        tot = xs[0]
        for k, x in enumerate(xs):
            r, s = f.apply(p, s, None, jnp.asarray(x))
            tot += x if x > 3 else 0
            if not np.isclose(r, 2 * tot if x > 3 else x):
                return dict(info, step=k, got=float(r), expected=2 * tot if x > 3 else x)
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def automaton_real(rng):
    import jax
    import jax.numpy as jnp
    from wax.flax.core.streaming_transforms import StreamingStateMachine, state_machine, conditional_update
    n = int(rng.integers(1, 4))
    tr = {f"s{k}": {f"s{j}": int(rng.integers(0, 9)) for j in rng.permutation(n) if rng.integers(0, 2)} for k in range(n) if rng.integers(0, 4)}
    xs = rng.integers(0, 10, 6).astype(float).tolist()
    info = dict(module="StreamingStateMachine", states=n, transitions=tr, inputs=xs)
    try:
        M = summing("M")
        conds = {s: {t: (lambda x, b=b: x > b) for t, b in v.items()} for s, v in tr.items()}
        stateful = bool(rng.integers(0, 2))
        if stateful:
            f = transformed(lambda x: StreamingStateMachine({f"s{k}": M(k + 1.) for k in range(n)}, conds, "s0")(x))
        else:
            f = state_machine({f"s{k}": (lambda x, k=k: (k + 1.) * x) for k in range(n)}, conds, "s0")(lambda x: x)
        p, s = f.init(jax.random.PRNGKey(0), jnp.asarray(xs[0]))
        cur, tot = "s0", {}

        def step(x):
            nonlocal cur
            k = int(cur[1:]) + 1.
            tot[cur] = tot.get(cur, 0.) + x
            y = k * tot[cur] if stateful else k * x
            cur = next((t for t, b in tr.get(cur, {}).items() if x > b), cur)
            return y, cur
        step(xs[0])
        for k, x in enumerate(xs):
            (y, nx), s = f.apply(p, s, None, jnp.asarray(x))
            want = step(x)
            if not np.isclose(y, want[0]) or nx != want[1]:
                return dict(info, step=k, got=[float(y), nx], expected=list(want))
        g = conditional_update(lambda x: x > 3)(lambda x: 10 * x)
        p, s = g.init(jax.random.PRNGKey(0), jnp.asarray(1.))
        for x in xs:
            y, s = g.apply(p, s, None, jnp.asarray(x))
            if not np.isclose(y, 10 * x if x > 3 else x):
                return dict(module="conditional_update", condition="x > 3", x=x, got=float(y))
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def applied_real(rng):
    import jax
    import jax.numpy as jnp
    from flax import linen as nn
    from wax.flax.core.state_utils import apply_with_state, create_streaming_module_wrapper, make_streaming_compatible
    M = summing("M")
    x = float(rng.integers(1, 9))
    info = dict(function="apply_with_state", x=x)


    class Kept(nn.Module):
        """keeps its sums in the collections it is told to"""
        where: tuple

        @nn.compact
        def __call__(self, x, gain=1.):
            a = self.param("a", nn.initializers.constant(3.), ())
            r = jnp.zeros(())
            for i, c in enumerate(self.where):
                s = self.variable(c, "s", lambda: jnp.zeros(()))
                s.value = s.value + (i + 1) * gain * x
                r = r + s.value
            return a * r
    try:
        for where in (("state",), ("cache",), ("state", "cache"), ("cache", "state")):
            for gain in (1., 2.):
                m = Kept(where)
                kw = {} if gain == 1. else dict(gain=gain)
                v = m.init(jax.random.PRNGKey(0), jnp.asarray(x))
                p = v["params"]
                for t in range(1, 4):
                    y, w = apply_with_state(m, v, jnp.asarray(x), **kw)
                    want = [(i + 1) * (1 + t * gain) * x for i in range(len(where))]
                    if set(w) - {"params"} != set(where) or not np.isclose(y, 3 * sum(want)) \
                            or not all(np.isclose(w[c]["s"], u) for c, u in zip(where, want)):
                        return dict(info, collections=where, step=t, got=str((y, w))[:300])
                    v = dict(w, params=p)
        m = M(2.)
        v = m.init(jax.random.PRNGKey(0), jnp.asarray(x))
        y, w = apply_with_state(m, v, jnp.asarray(x))
        if not np.isclose(y, 4 * x) or not np.isclose(w["state"]["c"], 2 * x) or not np.isclose(v["state"]["c"], x):
            return dict(info, got=str((y, w))[:300])
        d = nn.Dense(3)
        v = d.init(jax.random.PRNGKey(0), jnp.ones(2))
        y, w = apply_with_state(d, v, jnp.ones(2))
        if w is not v or not np.allclose(y, d.apply(v, jnp.ones(2))):
            return dict(info, module="Dense", got=str((y, w))[:300])
        for t in (create_streaming_module_wrapper(M)(2.), make_streaming_compatible(m)):
            p, s = t.init(jax.random.PRNGKey(0), jnp.asarray(x))
            y, s = t.apply(p, s, None, jnp.asarray(x))
            if not np.isclose(y, 4 * x):
                return dict(info, got=str(y))
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def cases(P, tier):
    return composition_cases(P)
