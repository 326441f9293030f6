"""The Python loops of wax.unroll, for sequences of any length.

Each contract executes the function's own text with its loop cut at the head.  The value of every variable at the head of iteration k is
inferred from what the first iteration leaves (indices of the tokens are shifted by one iteration, lists are "first element, then as many
as there were iterations") and then proved to be preserved by an arbitrary iteration; what the inference proposes is never assumed without
that proof.
"""
import numpy as np
import z3
from jax.tree_util import PyTreeDef

from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Retry, Tok
from ..terms import And

FILE = "src/wax/unroll.py:"


def real():
    from wax import unroll
    return unroll


# ------------------------------------------------------------------------------------------------ tokens of a family, by index
def X(fam, j, ix):
    """member of family `fam`, leaf j, at index ix = (base, offset); base '' is 0, base 'k' is the loop's iteration"""
    return Tok("at", fam, j, *ix)


def is_x(v):
    return isinstance(v, Tok) and v.how[0] == "at"


def bump(ix, d=1):
    return (ix[0], ix[1] + d)


def moved(v, f):
    """the tree v with the index of each token changed by f"""
    if is_x(v):
        return X(v.how[1], v.how[2], f(v.how[3:]))
    if isinstance(v, dict):
        return type(v)((k, moved(x, f)) for k, x in v.items())
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[moved(x, f) for x in v])
    if isinstance(v, (tuple, list)):
        return type(v)(moved(x, f) for x in v)
    return v


def rest(v, n):
    """the tree v standing for elements 1 .. n-1 of a list"""
    if is_x(v):
        return Tok("upto", v.how[1], v.how[2], *n)
    if isinstance(v, dict):
        return {k: rest(x, n) for k, x in v.items()}
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[rest(x, n) for x in v])
    if isinstance(v, (tuple, list)):
        return type(v)(rest(x, n) for x in v)
    return v


def has_x(v):
    if is_x(v):
        return True
    if isinstance(v, dict):
        v = list(v.values())
    return isinstance(v, (tuple, list)) and any(has_x(x) for x in v)


def same(a, b):
    if isinstance(a, Tok) or isinstance(b, Tok):
        return a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and list.__len__(a) == list.__len__(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, PyTreeDef) or isinstance(a, (int, str, bool, type(None))):
        return type(a) is type(b) and a == b
    return a is b


class Grown:
    """list that gains one element per iteration: `first`, then the same at the following indices; n elements in all"""

    def __init__(self, first, n):
        self.first, self.n = first, n

    def build(self):
        return [self.first, rest(self.first, self.n)]

    def after(self):
        return self.build() + [moved(self.first, lambda ix: bump(self.n, ix[1]))]


def propose(v, mode=0):
    """value at the head of iteration k, from the value left by the first iteration; mode: the outermost lists grow, the innermost, none"""
    if is_x(v):
        return moved(v, lambda ix: ("k", ix[1] - 1) if ix[0] == "" else ix)
    if isinstance(v, list) and list.__len__(v) and mode < 2:
        l = list(v)
        if has_x(l[0]) and (mode == 0 or not has_list(l[0])) and all(same(e, moved(l[0], lambda ix, m=m: bump(ix, m))) for m, e in enumerate(l)):
            return Grown(l[0], ("k", len(l) - 1))
    if isinstance(v, dict):
        return {k: propose(x, mode) for k, x in v.items()}
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[propose(x, mode) for x in v])
    if isinstance(v, (tuple, list)):
        return type(v)(propose(x, mode) for x in v)
    return v


def has_list(v):
    return isinstance(v, list) or (isinstance(v, (dict, tuple)) and any(has_list(x) for x in (v.values() if isinstance(v, dict) else v)))


def build(v, old):
    """instance of a proposal; lists and containers that exist before the loop keep their identity"""
    if isinstance(v, Grown):
        if old is None or not isinstance(old, Y.GList):
            old = Y.GList()
        old[:] = v.build()
        old.grown = True
        return old
    if isinstance(v, dict):
        new = {k: build(x, old.get(k) if isinstance(old, dict) else None) for k, x in v.items()}
        if isinstance(old, dict):
            old.clear()
            old.update(new)
            return old
        return new
    if isinstance(v, (tuple, list)):
        o = old if isinstance(old, (tuple, list)) and len(old) == len(v) else [None] * len(v)
        new = [build(x, y) for x, y in zip(v, o)]
        if isinstance(v, list):
            if isinstance(old, list):
                old[:] = new
                return old
            return new
        return old if isinstance(old, tuple) and len(old) == len(v) and all(a is b for a, b in zip(old, new)) else \
            type(v)(*new) if hasattr(v, "_fields") else tuple(new)
    return v


def advanced(v):
    """what one more iteration makes of a proposal"""
    if isinstance(v, Grown):
        return v.after()
    if isinstance(v, dict):
        return {k: advanced(x) for k, x in v.items()}
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[advanced(x) for x in v])
    if isinstance(v, (tuple, list)):
        return type(v)(advanced(x) for x in v)
    return moved(v, lambda ix: bump(ix) if ix[0] == "k" else ix) if is_x(v) else v


class Fold:
    """Hooks for one loop over a sequence of symbolic length"""

    def __init__(self, ob, plan, check=lambda: None):
        self.ob, self.plan, self.check = ob, plan.setdefault("fold", {"mode": {}}), check
        self.L, self.sym, self.steps, self.pre = None, "", 0, 0

    def elem(self, i, offset=0):
        """index of the element the loop reads"""
        if isinstance(i, int):
            raise Y.Mismatch("element read outside the loop")
        if self.L is None or not z3.simplify(i == self.L.idx).eq(z3.BoolVal(True)):
            raise Y.Mismatch("element other than the current one")
        return (self.sym, offset)

    def now(self):
        """index of the next step"""
        return (self.sym, self.steps)

    def enter(self, L, loc):
        if self.L is not None:
            raise Y.Mismatch("a second loop")
        self.L, self.pre = L, self.steps
        self.loc0 = {k: moved(v, lambda ix: ix) for k, v in loc.items() if not k.startswith("__wv")}
        if Y.EX.fork(T.eq(L.idx, 0)):
            return {nm: loc[nm] for nm in L.names if nm in loc}
        self.sym = "k"
        inv = self.plan.get("inv")
        if inv is None:
            raise Y.Mismatch("no iteration seen")
        out = {}
        for nm, v in inv.items():
            if nm in L.names:
                out[nm] = build(v, loc.get(nm))
            elif isinstance(v, (list, dict, tuple)) or isinstance(v, Grown):
                got = build(v, loc.get(nm))
                if got is not loc.get(nm):
                    raise Y.Mismatch("a container changed by the loop")
        return out

    def back(self, L, loc):
        self.ob("each iteration makes one step", self.steps == self.pre + 1)
        self.check()
        loc = {k: v for k, v in loc.items() if not k.startswith("__wv") and self.plan["mode"].get(k, 0) < 3}
        if self.sym == "":
            self.plan["inv"] = {k: propose(v, self.plan["mode"].get(k, 0)) for k, v in loc.items() if k in L.names or self.changed(k, v)}
            return
        for nm, v in self.plan["inv"].items():
            if nm not in loc or not same(advanced(v), loc[nm]):
                self.plan["mode"][nm] = self.plan["mode"].get(nm, 0) + 1
                raise Retry("not an invariant")
        self.ob("every variable has its value at the head of the next iteration", True)

    def changed(self, k, v):
        return isinstance(v, (list, dict, tuple)) and has_x(v) and not same(v, self.loc0.get(k))

    def stacked(self, v, total):
        """the tree v of all steps' outputs"""
        if isinstance(v, dict):
            return {k: self.stacked(x, total) for k, x in v.items()}
        if isinstance(v, (tuple, list)):
            return type(v)(self.stacked(x, total) for x in v)
        return Tok("stacked", v.how[1], v.how[2], *total) if is_x(v) else v


class Jnp:
    def stack(self, x, axis=0):
        l = list(x)
        if not l or axis != 0 or not all(isinstance(e, Tok) for e in l):
            raise Y.Mismatch("jnp.stack of something else")
        e0 = l[0]
        if is_x(e0) and e0.how[3] == "":
            if e0.how[4] == 0 and len(l) == 2 and l[1].how[:3] == ("upto",) + e0.how[1:3]:
                return Tok("stacked", *e0.how[1:3], *l[1].how[3:])
            if e0.how[4] == 0 and all(e == X(e0.how[1], e0.how[2], ("", m)) for m, e in enumerate(l)):
                return Tok("stacked", *e0.how[1:3], "", len(l))
        return Tok("other", *l)

    def __getattr__(self, n):
        raise Y.Mismatch(f"jax.numpy.{n}")


def it(x):
    return x if Y.seq_of(x) is not None else iter(x)


SHAPES = {"nested": lambda f: {"o": f(0), "p": (f(1), [f(2)])}, "one": lambda f: f(0), "pair": lambda f: (f(0), f(1)), "none": lambda f: {"o": f(0), "n": None}}


def shims(**k):
    return dict(jnp=Jnp(), tqdm=lambda x, *a, **kw: x, iter=it, **k)


# ------------------------------------------------------------------------------------------------ contracts
def cases(P, tier="quick"):
    import jax
    out = []

    def scan(shape, length, pbar):
        mk = SHAPES[shape]

        def scenario(ob, plan):
            n = z3.Int("n")
            Y.EX.assume(T.le(1, n))
            F = Fold(ob, plan)
            xs = Tok("xs")

            def rows(x, pbar=False):
                ob("the sequences are read", x is xs)
                return Y.SymSeq(n, lambda i: {"a": X("a", 0, F.elem(i)), "b": (X("a", 1, F.elem(i)),)})

            def step(carry, x):
                i = F.now()
                ob("a step starts from the carry of the previous one", same(carry, (X("carry", 0, i), {"c": X("carry", 1, i)})))
                ob("a step reads the elements at its own position", x is None if length else same(x, {"a": X("a", 0, i), "b": (X("a", 1, i),)}))
                F.steps += 1
                return (X("carry", 0, bump(i)), {"c": X("carry", 1, bump(i))}), mk(lambda j: X("y", j, i))
            m = Y.load("wax.unroll", Y.Hooks(F), shims(iter_first_axis=rows), lists=True)
            init = (X("carry", 0, ("", 0)), {"c": X("carry", 1, ("", 0))})
            if length:
                r = m.static_scan(step, init, length=Y.wrap("i", n), pbar=pbar)
            else:
                r = m.static_scan(step, init, xs, pbar=pbar)
            ob("every position is visited", F.L is not None and F.L.done)
            end = F.now()
            ob("one step per element", end == (F.sym, 0))
            ob("the last carry is returned", same(r[0], (X("carry", 0, end), {"c": X("carry", 1, end)})))
            ob("the outputs of all steps are stacked in order", same(r[1], F.stacked(mk(lambda j: X("y", j, ("", 0))), end)))

        def concrete(rng):
            k = length_of(rng)
            a, b = rng.normal(size=(2, k))
            import jax.numpy as jnp

            def f(c, x):
                u = 1.0 if x is None else x["a"] - 2 * x["b"][0]
                c2 = (0.5 * c[0] + u + c[1]["c"], {"c": c[1]["c"] - c[0]})
                return c2, mk(lambda j: c[0] + j * u)
            init = (jnp.asarray(1.5), {"c": jnp.asarray(-0.5)})
            xs = None if length else {"a": jnp.asarray(a), "b": (jnp.asarray(b),)}
            got = real().static_scan(f, init, xs, length=k if length else None, pbar=pbar)
            c, ys = init, []
            for t in range(k):
                c, y = f(c, None if length else {"a": a[t], "b": (b[t],)})
                ys.append(y)
            want = (c, jax.tree_util.tree_map(lambda *y: jnp.stack(y), *ys))
            return differ("static_scan", got, want, dict(length=k, a=a.tolist(), b=b.tolist()))
        return HostCase(P, f"static_scan.any length[{shape}{',length' if length else ''}{',pbar' if pbar else ''}]", [FILE + "static_scan"], scenario, concrete)
    for s in SHAPES:
        for ln in (False, True):
            out.append(scan(s, ln, False))
    out.append(scan("nested", False, True))

    # ------------------------------------------------------------------------------- rows of a nested structure
    def rows(shape, pbar):
        mk = SHAPES[shape]

        class Leaf(Tok):
            """array of n rows; further axes unknown"""

            def __init__(self, j, n):
                Tok.__init__(self, "leaf", j)
                self.j, self.shape = j, (n,)

            def __getitem__(self, i):
                k, v = Y.unwrap(i)
                if k != "i":
                    raise Y.Mismatch("index")
                return Tok("row", self.j, Id(v))

            def wv_seq(self):
                return Y.SymSeq(self.shape[0], lambda i: self[i])

        def scenario(ob, plan):
            n = z3.Int("n")
            Y.EX.assume(T.le(1, n))

            class H:
                L, given = None, 0

                def enter(self, L, loc):
                    if self.L is not None:
                        raise Y.Mismatch("a second loop")
                    self.L = L
                    ob("as many iterations as there are rows", T.eq(L.n, n))
                    return {}

                def back(self, L, loc):
                    ob("one element per row", self.given == 1)
            h = H()
            m = Y.load("wax.unroll", Y.Hooks(h), shims())
            g = m.iter_first_axis(mk(lambda j: Leaf(j, n)), pbar=pbar)
            for v in g:
                h.given += 1
                ob("the element holds the row of every leaf", h.L is not None and same(v, mk(lambda j: Tok("row", j, Id(h.L.idx)))))
            ob("every row is given", h.L is not None and h.L.done and h.given == 0)

        def concrete(rng):
            k = length_of(rng)
            v = [rng.normal(size=(k, 2)), rng.normal(size=k), rng.integers(0, 9, k)]
            got = list(real().iter_first_axis(mk(lambda j: v[j]), pbar=pbar))
            return differ("iter_first_axis", got, [mk(lambda j: v[j][t]) for t in range(k)], dict(leaves=[x.tolist() for x in v]))
        return HostCase(P, f"iter_first_axis.any length[{shape}{',pbar' if pbar else ''}]", [FILE + "iter_first_axis"], scenario, concrete)
    out += [rows(s, False) for s in SHAPES] + [rows("nested", True)]

    # ------------------------------------------------------------------------------- collecting a generator
    def collect(shape, pbar):
        mk = SHAPES[shape]

        def scenario(ob, plan):
            n = z3.Int("n")
            Y.EX.assume(T.le(1, n))

            def read(i):
                F.steps += 1 if F.steps == F.pre else 0
                return mk(lambda j: X("obs", j, F.elem(i))), Tok("info", *F.elem(i))
            F = Fold(ob, plan)
            m = Y.load("wax.unroll", Y.Hooks(F), shims(), lists=True)
            r = m.data_unroll(Y.SymSeq(n, read), pbar=pbar)
            ob("every observation is read", F.L is not None and F.L.done)
            ob("the observations are stacked in order", same(r, F.stacked(mk(lambda j: X("obs", j, ("", 0))), (F.sym, 0))))

        def concrete(rng):
            k = length_of(rng)
            v = [rng.normal(size=(k, 2)), rng.normal(size=k), rng.integers(0, 9, k)]
            got = real().data_unroll(((mk(lambda j: v[j][t]), {"info": t}) for t in range(k)), pbar=pbar)
            return differ("data_unroll", got, mk(lambda j: v[j]), dict(observations=[x.tolist() for x in v]))
        return HostCase(P, f"data_unroll.any length[{shape}{',pbar' if pbar else ''}]", [FILE + "data_unroll"], scenario, concrete)
    out += [collect(s, False) for s in SHAPES] + [collect("nested", True)]

    # ------------------------------------------------------------------------------- driven by a generator of observations
    def gym(shape, skip, gp, gs, pbar):
        mk = SHAPES[shape]
        first = 1 if skip else 0

        def scenario(ob, plan):
            n = z3.Int("n")
            Y.EX.assume(T.le(1 if skip else 0, n))
            F = Fold(ob, plan)
            obs = lambda ix: {"u": X("obs", 0, ix), "v": (X("obs", 1, ix),)}

            class Gen:
                """one observation, then n more"""
                used = 0

                def __next__(self):
                    if self.used:
                        raise Y.Mismatch("the generator is advanced outside its loop")
                    self.used = 1
                    return obs(("", 0)), Tok("info")

                def wv_seq(self):
                    if not self.used:
                        raise Y.Mismatch("the loop starts with the first observation")
                    return Y.SymSeq(n, lambda i: (obs(F.elem(i, 1)), Tok("info")))

            class Keys:
                used = 0

                def __next__(self):
                    self.used += 1
                    return Tok("key", F.sym, self.used - 1)
            keys = Keys()

            class Fun:
                inits = 0

                def init(self, key, o):
                    self.inits += 1
                    ob("initialised once, with the first key and the first observation", self.inits == 1 and key == Tok("key", "", 0) and same(o, obs(("", 0))))
                    return Tok("params0"), X("state", 0, ("", 0)) if not gs else Tok("state0")

                def apply(self, params, state, key, o):
                    i = F.now()
                    ob("the parameters are those given, or of the initialisation", params == Tok("params" if gp else "params0"))
                    ob("a step starts from the state the previous one left", same(state, X("state", 0, i)))
                    ob("every step takes the next key", key == Tok("key", i[0], i[1] + 1))
                    ob("a step reads its own observation", same(o, obs(bump(i, first))))
                    F.steps += 1
                    return mk(lambda j: X("y", j, i)), X("state", 0, bump(i))
            m = Y.load("wax.unroll", Y.Hooks(F), shims(), lists=True)
            r = m.gym_static_unroll(Fun(), Tok("params") if gp else None, X("state", 0, ("", 0)) if gs else None, keys, skip, Gen(), pbar=pbar)
            ob("every observation is read", F.L is not None and F.L.done)
            end = F.now()
            ob("one step per observation", end[1] == F.pre == 1 - first)
            ob("the last state is returned", same(r[1], X("state", 0, end)))
            ob("the outputs of all steps are stacked in order", same(r[0], F.stacked(mk(lambda j: X("y", j, ("", 0))), end)))

        def concrete(rng):
            import jax.numpy as jnp
            k = length_of(rng) + first
            u, v = rng.normal(size=(2, k))
            keys = [float(x) for x in rng.normal(size=k + 3)]

            class Fun:
                init = staticmethod(lambda key, o: (key + o["u"], key - o["v"][0]))

                @staticmethod
                def apply(p, s, key, o):
                    s2 = 0.5 * s + p + key - o["u"]
                    return mk(lambda j: jnp.asarray(s2 + j * o["v"][0])), s2
            o = lambda t: {"u": u[t], "v": (v[t],)}
            got = real().gym_static_unroll(Fun, 2.0 if gp else None, 0.0 if gs else None, iter(keys), skip, ((o(t), {}) for t in range(k)), pbar=pbar)
            p, s = Fun.init(keys[0], o(0))
            p, s = 2.0 if gp else p, 0.0 if gs else s
            ys = []
            for c, t in enumerate(range(first, k)):
                y, s = Fun.apply(p, s, keys[1 + c], o(t))
                ys.append(y)
            return differ("gym_static_unroll", got, (jax.tree_util.tree_map(lambda *y: jnp.stack(y), *ys), s),
                          dict(skip_first=skip, params=gp, state=gs, u=u.tolist(), v=v.tolist(), keys=keys))
        return HostCase(P, f"gym_static_unroll.any length[{shape},skip_first={skip},params={gp},state={gs}{',pbar' if pbar else ''}]", [FILE + "gym_static_unroll"], scenario, concrete)
    for s in ("nested", "one"):
        for skip in (False, True):
            for gp in (False, True):
                for gs in (False, True):
                    out.append(gym(s, skip, gp, gs, False))
    out.append(gym("pair", False, True, True, True))
    return out


def length_of(rng):
    """mostly short; now and then long"""
    return int(rng.integers(1, 6)) if rng.random() < 0.93 else int(rng.integers(60, 300))


class Id:
    def __init__(self, t):
        self.t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)

    def __eq__(self, o):
        return isinstance(o, Id) and self.t.eq(o.t)

    def __hash__(self):
        return self.t.hash()

    def __repr__(self):
        return str(self.t)


def differ(what, got, want, info):
    import jax
    tl, ts = jax.tree_util.tree_leaves, jax.tree_util.tree_structure
    if ts(got) != ts(want):
        return dict(call=what, **info, got=str(ts(got))[:300], expected=str(ts(want))[:300])
    for a, b in zip(tl(got), tl(want)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=1e-5):
            return dict(call=what, **info, got=a.tolist(), expected=b.tolist())
    return None
