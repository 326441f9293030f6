"""The compiled CPU kernel (wax.numba): contracts on the Python text that numba compiles.

`ewma(...)` is executed on symbolic arguments (wv/pysym.py); `apply` is entered with arrays of symbolic extent and
arbitrary contents.  The loop over rows is cut with the invariant

    the arrays for mean, weight and count represent the ghost state g of A01 (an arbitrary one with the well-formedness
    of A01), and the rows of the result before i hold the outputs of the ghost steps 0..i-1

and the loop over columns with: columns before j hold the values after ghost step i, the others those before it.
numba's compilation itself is trusted (cross-checked against real compiled runs)."""
from types import SimpleNamespace

import numpy as np
import z3

from .. import prove as P
from .. import pysym as Y
from ..contracts import CaseBase, concretize, same
from ..lib import *
from .ewma import spec_parts

ROLES = ("mean", "wt", "nobs", "result")


def wt_of(g, sh):
    """the weight array holds 1 where nothing was observed yet"""
    return SArr(sh, "float64", lambda *i: ite(g["seen"](*i), g["D"](*i), fv(1)))


class Retry(Y.Mismatch):
    pass


class Handler:
    """loop invariants of the kernel"""

    def __init__(self, case, S, cfg, xs, plan):
        self.c, self.S, self.cfg, self.xs, self.plan = case, S, cfg, xs, plan
        self.outer = self.inner = None
        self.roles = None
        self.cuts = {}

    # contents specified for each role
    def rep(self, g):
        st = self.c.spec["state"](self.S, g, self.cfg)
        return {"mean": st["mean"], "wt": wt_of(g, st["mean"].shape), "nobs": g["k"]}

    def arrays(self, loc):
        seen, out = set(), []
        def walk(v, nm):
            if isinstance(v, Y.Arr) and not isinstance(v, Y.Row):
                if id(v) not in seen:
                    seen.add(id(v))
                    out.append((nm, v))
            elif isinstance(v, tuple):
                for k, x in enumerate(v):
                    walk(x, f"{nm}.{getattr(v, '_fields', range(len(v)))[k]}")
        for nm, v in loc.items():
            walk(v, nm)
        return out

    def find_roles(self, loc):
        N, n = self.N, self.n
        one, two = [], []
        for nm, v in self.arrays(loc):
            if v.ndim == 2 and v.kind == "f" and v is not self.values and v.origin != "values":
                two.append((nm, v))
            elif v.ndim == 1:
                one.append((nm, v))
        if len(two) != 1:
            raise Y.Mismatch(f"{len(two)} arrays could be the result")
        r = {"result": two[0][1]}
        ints = [v for nm, v in one if v.kind == "i"]
        flts = [(nm, v) for nm, v in one if v.kind == "f"]
        if len(ints) != 1 or len(flts) != 2:
            raise Y.Mismatch("the kernel's state is not held in two float arrays and one integer array")
        r["nobs"] = ints[0]
        (n1, a), (n2, b) = flts
        want = self.rep(self.g_first)
        def holds(arr, w):
            i, h = fresh_index(w.shape)
            x, y = arr.get(*i), w(*i)
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*Y.EX.hyps(), *[T.zb(k) for k in h])
            s.add(T.zb(Not(And(Iff(x.nan, y.nan), Or(x.nan, T.eq(x.val, y.val))))))
            return s.check() == z3.unsat
        ok = [holds(a, want["mean"]) and holds(b, want["wt"]), holds(b, want["mean"]) and holds(a, want["wt"])]
        if ok[1] and not ok[0]:
            a, b = b, a
        elif ok[0] == ok[1]:
            if "wt" in n1.rsplit(".")[-1] and "wt" not in n2.rsplit(".")[-1]:
                a, b = b, a
        r["mean"], r["wt"] = a, b
        return r

    def keep_of(self, loc):
        """names kept across the cut: those bound to the kernel's arrays, and what the loop does not change"""
        ids = {id(v) for v in self.roles.values()}
        out = {}
        for nm, v in loc.items():
            if isinstance(v, Y.Arr) and id(v) in ids:
                out[nm] = v
            elif isinstance(v, tuple) and v and all(isinstance(x, Y.Arr) and id(x) in ids for x in v):
                out[nm] = v
        return out

    def eqs(self, name, arr, want):
        if not Y.same_shape(arr.shape, want.shape) and len(arr.shape) != len(want.shape):
            Y.EX.oblige(name + ".shape", False)
            return
        idx, h = fresh_index(want.shape)
        self.eq_at(name, arr.get, want, idx, h)

    def eq_at(self, name, f, want, idx, h):
        x, y = f(*idx), want(*idx)
        if isinstance(y, FV):
            Y.EX.oblige(name + ".nan", Iff(x.nan, y.nan), h)
            inf = And(Iff(x.pinf, y.pinf), Iff(x.ninf, y.ninf))
            if inf is not True:
                Y.EX.oblige(name + ".inf", inf, h)
            Y.EX.oblige(name + ".value", T.eq(x.val, y.val), h + [T.zb(Not(Or(x.special, y.special)))])
        else:
            Y.EX.oblige(name, T.eq(x, y), h)

    def rows_done(self, upto, inner=None):
        """result rows: k < upto hold OUT(k)"""
        return lambda k, c: T.And(T.le(0, k), T.lt(k, upto))

    # ---- hooks
    def enter(self, L, loc):
        N, n = self.N, self.n
        if self.outer is None:
            if Y.same_shape((L.n,), (n,)):
                raise Y.Mismatch("the first loop is not over the rows")
            Y.EX.oblige("loop.covers all rows", T.eq(L.n, N))
            self.outer = L
            self.roles = self.find_roles(loc)
            for r, w in self.rep(self.g_first).items():
                self.eqs(f"loop.init.{r}", self.roles[r], w)
            for nm, (sh, f) in self.c.spec["ghost_inv"](self.S, self.g_first, self.cfg).items():
                idx, hh = fresh_index(sh)
                Y.EX.oblige("loop.init.wf." + nm, f(*idx), hh)
            i = L.idx
            self.g = self.c.spec["ghost_sym"](self.S, self.cfg)
            self.xrow = SArr((n,), "float64", lambda c: self.xs(i, c))
            self.g2, self.out = self.c.spec["step"](self.S, self.cfg, self.g, [self.xrow])
            for r, w in self.rep(self.g).items():
                self.roles[r].put(w)
            res = self.roles["result"]
            OUT = sym("OUT", res.shape, "float64", nan=True)
            # the specification's outputs: OUT(i, .) is that of step i
            self.OUT = SArr(res.shape, "float64", lambda k, c: ite(T.eq(k, i), self.out(c), OUT(k, c)))
            self.OUTsym = OUT
            old = res.data
            fresh = sym("result.free", res.shape, "float64", nan=True)
            res.put(lambda k, c: ite(T.lt(k, i), OUT(k, c), fresh(k, c)))
            return self.keep_of(loc)
        if self.outer.done:
            raise Y.Mismatch("a loop after the loop over the rows")
        if self.inner is None or self.inner.done:
            if Y.same_shape((L.n,), (N,)):
                raise Y.Mismatch("the inner loop is not over the columns")
            Y.EX.oblige("loop.covers all columns", T.eq(L.n, n))
            self.nin = getattr(self, "nin", 0) + 1
            self.inner = L
            j = L.idx
            after = dict(self.rep(self.g2))
            self.before = {r: a.data for r, a in self.roles.items()}
            self.ordinal = self.nin
            self.inn = {}
            for r in self.plan.get(self.ordinal, ()):
                b, a = self.before[r], self.roles[r]
                if r == "result":
                    i = self.outer.idx
                    f = lambda jj, b=b: SArr(a.shape, "float64", lambda k, c: ite(And(T.eq(k, i), T.lt(c, jj)), self.out(c), b(k, c)))
                else:
                    f = lambda jj, b=b, w=after[r]: SArr(w.shape, w.dtype, lambda c: ite(T.lt(c, jj), w(c), b(c)))
                self.inn[r] = f
                a.put(f(j))
            self.data1 = {r: a.data for r, a in self.roles.items()}
            return self.keep_of(loc)
        raise Y.Mismatch("loops nested deeper than rows and columns")

    def names_hold(self, L, loc, what):
        """every kept name still refers to the array of its role; a new array gets that role's obligation"""
        out = dict(self.roles)
        for nm, v in L.bound.items():
            w = loc.get(nm)
            if w is v:
                continue
            r = [r for r, a in self.roles.items() if a is v]
            if not r or not isinstance(w, Y.Arr):
                raise Y.Mismatch(f"{nm} does not hold the kernel's array after an iteration")
            others = [m for m, u in L.bound.items() if u is v and loc.get(m) is not w]
            if others:
                raise Y.Mismatch(f"{nm} and {others[0]} no longer share one array")
            out[r[0]] = w
        return out

    def back(self, L, loc):
        roles = self.names_hold(L, loc, "iteration")
        if L is self.inner:
            touched = {r for r in ROLES if roles[r].data is not self.data1[r]}
            new = touched - set(self.plan.get(self.ordinal, ()))
            if new:
                self.plan.setdefault(self.ordinal, set()).update(new)
                raise Retry()
            j1 = T.add(L.idx, 1)
            for r, f in self.inn.items():
                self.eqs(f"columns.{self.ordinal}.step.{r}", roles[r], f(j1))
            return
        for r, w in self.rep(self.g2).items():
            self.eqs(f"rows.step.{r}", roles[r], w)
        k, c = z3.Int(T.CTX.fresh("k")), z3.Int(T.CTX.fresh("c"))
        h = [k >= 0, k < T.zi(T.add(L.idx, 1)), c >= 0, c < T.zi(self.n)]
        self.eq_at("rows.step.result", roles["result"].get, self.OUT, (k, c), [T.zb(x) for x in h])
        for nm, (sh, f) in self.c.spec["ghost_inv"](self.S, self.g2, self.cfg).items():
            idx, hh = fresh_index(sh)
            Y.EX.oblige("rows.step.wf." + nm, f(*idx), hh)


class NumbaCase(CaseBase):
    fallback_bound = "matrices of at most 2 rows and 1 column with symbolic contents (and 60 random larger ones)"
    bounded = None

    def __init__(self, prop, adjust, ignore_na, initial, use_alpha, resume, rank):
        self.prop, self.adjust, self.ignore_na, self.initial = prop, adjust, ignore_na, initial
        self.use_alpha, self.resume, self.rank = use_alpha, resume, rank
        self.name = (f"numba.ewma[adjust={adjust},ignore_na={ignore_na}" + (",initial_value" if initial else "") +
                     (",alpha" if use_alpha else ",com") + (",resumed" if resume else "") + f",rank={rank}]")
        self.fns = ["wax/numba/ewma_numba.py:ewma", "wax/numba/ewma_numba.py:ewma.apply", "wax/numba/ewma_numba.py:ewma.numba_apply"] + \
            ([] if resume else ["wax/numba/ewma_numba.py:ewma.init_ewma_state"])

    def shims(self):
        class jit:
            def __new__(cls, f=None, **k):
                return f if callable(f) else (lambda g: g)
        return dict(np=Y.Np(), numba=SimpleNamespace(jit=jit, njit=jit, prange=Y.sym_range))

    def run_once(self, ctx, plan, rows=None, cols=None):
        """one path of the real code on symbolic arguments"""
        S = {}
        cut = rows is None
        N = z3.Int("N") if cut else rows
        n = (z3.Int("n") if cut else cols) if self.rank == 2 else 1
        S = {"n": n}
        A = Y.EX.assume
        if cut:
            A(N >= 1)
            if self.rank == 2:
                A(n >= 0)
        mp = z3.Int("min_periods")
        cfg = {}
        if self.use_alpha:
            cfg["alpha"] = sym("cfg.alpha", (), "float64", nan=False)()
            A(And(T.lt(0, cfg["alpha"].val), T.lt(cfg["alpha"].val, 1)))
        else:
            cfg["com"] = sym("cfg.com", (), "float64", nan=False)()
            A(T.lt(0, cfg["com"].val))
        for p in Y.EX.pc:
            T.CTX.assume(p)
        if self.initial:
            cfg["initial"] = sym("cfg.initial", (), "float64", nan=False)()
        self.spec = spec_parts(self.adjust, self.ignore_na, mp, "v" if self.initial else None, self.use_alpha, ("n",))
        x2 = sym("x", (N, n) if self.rank == 2 else (N,), "float64", nan=True)
        xs = x2 if self.rank == 2 else SArr((N, 1), "float64", lambda i, j: x2(i))
        h = Handler(self, S, cfg, xs, plan)
        h.N, h.n = N, n
        m = Y.load("wax.numba.ewma_numba", Y.Hooks(h), self.shims())
        values = Y.Arr(x2.shape, "float64", x2, "values")
        h.values = values
        kw = dict(min_periods=Y.wrap("i", mp), adjust=self.adjust, ignore_na=self.ignore_na)
        kw["alpha" if self.use_alpha else "com"] = Y.wrap("f", cfg["alpha" if self.use_alpha else "com"])
        if self.initial:
            kw["initial_value"] = Y.wrap("f", cfg["initial"])
        state = None
        if self.resume:
            g0 = spec_parts(self.adjust, self.ignore_na, mp, None, self.use_alpha, ("n",), pre="g0")["ghost_sym"](S, cfg)
            rep = h.rep(g0)
            state = m.EWMAState(mean=Y.Arr((n,), "float64", rep["mean"], "state"), old_wt=Y.Arr((n,), "float64", rep["wt"], "state"),
                                nobs=Y.Arr((n,), "int64", rep["nobs"], "state"))
            given = {f: (getattr(state, f), getattr(state, f).data) for f in ("mean", "old_wt", "nobs")}
        else:
            g0 = self.spec["ghost0"](S, cfg)
            given = {}
        h.g_first = g0
        vdata = values.data
        res, st = m.ewma(**kw)(values, state) if state is not None else m.ewma(**kw)(values)
        ob = Y.EX.oblige
        if not isinstance(res, Y.Arr) or not Y.same_shape(res.shape, values.shape):
            ob("result.shape", False)
            return
        if type(st).__name__ != "EWMAState":
            ob("state.structure", False)
            return
        if cut and h.outer is None:
            raise Y.Mismatch("no loop over the rows")
        if cut:
            g_end = h.g
            OUT = h.OUTsym
        else:
            g, outs = g0, []
            for t in range(rows):
                g, o = self.spec["step"](S, cfg, g, [SArr((n,), "float64", lambda c, t=t: xs(t, c))])
                outs.append(o)
            g_end = g
            OUT = stack_seq(rows, outs[0], lambda t: outs[t])
        want = OUT if self.rank == 2 else SArr(values.shape, "float64", lambda k: OUT(k, 0))
        h.eqs("result", res, want)
        w = h.rep(g_end)
        h.eqs("state.mean", st.mean, w["mean"])
        h.eqs("state.old_wt", st.old_wt, w["wt"])
        h.eqs("state.nobs", st.nobs, w["nobs"])
        # frame: the caller's arrays are as they were
        ob("frame.values", values.data is vdata)
        for f, (a, d) in given.items():
            if a.data is d:
                ob("frame.state." + f, True)
            else:
                h.eqs("frame.state." + f, a, d)

    def _explore(self, rows=None, cols=None):
        plan = {}
        for attempt in range(8):
            ex = Y.Explorer(max_paths=4000 if rows else 600)
            out, self.paths = [], 0
            try:
                for res, exc, hyps, obs in ex.run(lambda: self.run_once(None, plan, rows, cols)):
                    self.paths += 1
                    if exc is not None and exc is not Y.PathEnd:
                        obs = obs + [(f"no exception ({type(exc).__name__}: {exc})"[:120], hyps, False)]
                    if self.paths == 1:
                        self.vac = P.satisfiable(hyps)
                    facts = [T.zb(f) for f in T.CTX.facts]
                    out += [(f"path{self.paths}." + nm, list(h) + facts, g) for nm, h, g in obs]
                return [P.Obligation(f"{self.name}/{nm}", h, g) for nm, h, g in out]
            except Retry:
                continue
        raise Y.Mismatch("no loop invariant found")

    def obligations(self):
        self.eqns = 0
        return self._explore()

    def bounded_obligations(self):
        obs = []
        for rows in (1, 2):
            obs += self._explore(rows, 1)
        rng = np.random.default_rng(17)
        return obs + [P.Obligation(f"{self.name}/concrete{k}", [], self.check(*self.sample(rng, True), plain=True) is None) for k in range(60)]

    # ---- real runs
    def sample(self, rng, big=False):
        N, n = int(rng.integers(1, 40 if big and rng.random() < 0.3 else 9)), int(rng.integers(1, 4))
        if big and rng.random() < 0.02:
            N, n = int(rng.integers(1000, 6000)), 1
        x = rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, 7.0, -3.0], size=(N, n)) + rng.integers(-3, 3, size=(N, n)) / 4
        x = np.where(rng.random((N, n)) < rng.choice([0, 0.3, 0.7]), np.nan, x)
        com = float(rng.choice([0.5, 1.0, 3.0, 10.0]))
        return x, com, int(rng.integers(0, 4)), float(rng.choice([0.0, 1.0, -2.0])), int(rng.integers(0, N + 1))

    def check(self, x, com, mp, init, cut, plain=False):
        """plain: the kernel is run by Python rather than compiled (much faster for one run)"""
        import wax.numba.ewma_numba as mod
        if self.rank == 1:
            x = x[:, :1]
        N, n = x.shape
        kw = dict(min_periods=mp, adjust=self.adjust, ignore_na=self.ignore_na)
        alpha = 1 / (1 + com)
        kw["alpha" if self.use_alpha else "com"] = alpha if self.use_alpha else com
        if self.initial:
            kw["initial_value"] = init
        old = T.CTX
        T.reset()
        T.CTX.concrete = True
        try:
            sp = spec_parts(self.adjust, self.ignore_na, mp, "v" if self.initial else None, self.use_alpha, ("n",))
            cfg = {"alpha": from_numpy(np.float64(alpha), True)(), "com": from_numpy(np.float64(com), True)(), "initial": from_numpy(np.float64(init), True)()}
            S = {"n": n}
            g = sp["ghost0"](S, cfg)
            outs = []
            for t in range(N):
                g, o = sp["step"](S, cfg, g, [from_numpy(x[t], True)])
                g = concretize(g)
                outs.append(to_numpy(o))
            want = np.array(outs)
            nb = mod.numba
            if plain:
                mod.numba = SimpleNamespace(jit=lambda *a, **k: (lambda g: g), njit=lambda *a, **k: (lambda g: g), prange=range)
            try:
                f = mod.ewma(**kw)
            finally:
                mod.numba = nb
            desc = lambda why: {"case": self.name, "x": x.tolist(), "config": {k: v for k, v in kw.items()}, "split": cut, "why": why}
            a = x if self.rank == 2 else x[:, 0]
            a0 = a.copy()
            mod.numba = SimpleNamespace(prange=range) if plain else nb
            try:
                if self.resume and 0 < cut < N:
                    r1, st = f(a[:cut])
                    keep = [np.array(v) for v in st]
                    r2, st2 = f(a[cut:], st)
                    for nm, u, v in zip(st._fields, st, keep):
                        if not same(np.asarray(u, float), np.asarray(v, float), 0, 0):
                            return desc(f"the caller's state array {nm} is changed from {v.tolist()} to {np.asarray(u).tolist()}")
                    got = np.concatenate([r1, r2])
                else:
                    got, st2 = f(a)
            except Exception as e:
                return desc(f"raised {type(e).__name__}: {e}"[:300])
            finally:
                mod.numba = nb
            if not same(a, a0, 0, 0):
                return desc("the input values are changed")
            if got.shape != a.shape:
                return desc(f"result of shape {got.shape} for values of shape {a.shape}")
            got = got.reshape(N, n)
            if not same(got, want, 1e-6, 1e-6):
                return desc(f"real code gives {got.tolist()}, specification {want.tolist()}")
            w = {"mean": to_numpy(sp["state"](S, g, cfg)["mean"]), "nobs": to_numpy(g["k"])}
            for k, v in w.items():
                if not same(np.asarray(getattr(st2, k), float), np.asarray(v, float), 1e-6, 1e-6):
                    return desc(f"returned state {k} is {np.asarray(getattr(st2, k)).tolist()}, specification {v.tolist()}")
            return None
        finally:
            T.CTX = old

    def conform(self, rng):
        for _ in range(3):
            r = self.check(*self.sample(rng))
            if r:
                return r
        return None

    def search(self, seeds, budget):
        import time
        rng = np.random.default_rng(3)
        t0 = time.time()
        while time.time() - t0 < budget:
            a = self.sample(rng, True)
            if self.check(*a, plain=True):
                r = self.check(*a)
                if r:
                    return r
        return None


def cases(prop, tier):
    out = []
    for adjust in (True, False, "linear"):
        for ignore_na in (False, True):
            for resume in (False, True):
                out.append(NumbaCase(prop, adjust, ignore_na, False, False, resume, 2))
                if not resume:
                    out.append(NumbaCase(prop, adjust, ignore_na, True, False, resume, 2))
                    out.append(NumbaCase(prop, adjust, ignore_na, False, True, resume, 2))
            out.append(NumbaCase(prop, adjust, ignore_na, True, True, False, 1))
            out.append(NumbaCase(prop, adjust, ignore_na, False, False, True, 1))
    return out


# --------------------------------------------------------------------------------------------- the pandas accessor
class Tok:
    """an arbitrary value, known only by how it was obtained"""

    def __init__(self, *how):
        self.how = how

    def __eq__(self, o):
        return isinstance(o, Tok) and self.how == o.how

    def __hash__(self):
        return hash(self.how)

    def __repr__(self):
        return repr(self.how)

    def __bool__(self):
        raise Y.Mismatch("truth value of an arbitrary value")


class FkSeries:
    def __init__(self, data=None, index=None, **k):
        self.data, self.index = data, index
        self.extra = {a: b for a, b in k.items() if b is not None}

    values = property(lambda s: s.data)

    def to_numpy(self, *a, **k):
        return self.data

    def to_frame(self):
        return FkFrame(Tok("column", self.data), self.index, Tok("columns of series"))

    def copy(self, deep=True):
        return FkSeries(self.data, self.index)


class FkFrame:
    def __init__(self, data=None, index=None, columns=None):
        self.data, self.index, self.columns = data, index, columns

    values = property(lambda s: s.data)

    def to_numpy(self, *a, **k):
        return self.data

    def copy(self, deep=True):
        return FkFrame(self.data, self.index, self.columns)

    @property
    def iloc(self):
        f = self
        class I:
            def __getitem__(s, i):
                if i == (slice(None), 0):
                    return FkSeries(Tok("first column", f.data), f.index)
                raise Y.Mismatch("iloc")
        return I()


class FkState:
    """a frame holding one column per part of the state"""

    def __init__(self, cols, index):
        self.cols, self.index = cols, index

    def reindex(self, index=None, columns=None, **k):
        if columns is not None or k or index is None:
            raise Y.Mismatch("reindex")
        return FkState({a: Tok("reindexed", b, index) for a, b in self.cols.items()}, index)

    def __getitem__(self, k):
        return FkSeries(self.cols[k], self.index)

    def __getattr__(self, k):
        if k in ("mean", "old_wt", "nobs"):
            raise Y.Mismatch("attribute of the state frame")
        raise AttributeError(k)


class AccessorCase(CaseBase):
    """the accessor hands the kernel the frame's values, its configuration and the state aligned on the frame's columns, and
    labels what the kernel returns; the kernel enters through its contract (an uninterpreted function of its arguments)"""
    bounded = None
    vac = "n/a"
    fallback_bound = "concrete frames"

    def __init__(self, prop, series, with_state, ret_state):
        self.prop, self.series, self.with_state, self.ret_state = prop, series, with_state, ret_state
        self.name = f"numba.accessor[{'Series' if series else 'DataFrame'}{',state' if with_state else ''}{',return_state' if ret_state else ''}]"
        self.fns = ["wax/numba/ewma_numba.py:NumbaExponentialMovingWindow.mean", "wax/numba/ewma_numba.py:WaxNumbaEWMAccessor.ewm"]

    def obligations(self):
        self.eqns = 0
        calls = []
        pd_ = SimpleNamespace(Series=FkSeries, DataFrame=FkFrame,
                              concat=lambda d, axis=0: FkState({k: v.data for k, v in d.items()}, [v.index for v in d.values()]) if axis in (1, "columns") else Tok("?"),
                              api=None)
        m = Y.load("wax.numba.ewma_numba", Y.Hooks(None), dict(pd=pd_))

        def fake_ewma(**kw):
            def apply(values, state=None):
                calls.append((kw, values, state))
                return Tok("result"), m.EWMAState(Tok("mean'"), Tok("old_wt'"), Tok("nobs'"))
            return apply
        m.ewma = fake_ewma
        cfg = dict(com=Tok("com"), alpha=Tok("alpha"), min_periods=Tok("min_periods"), adjust=Tok("adjust"),
                   ignore_na=Tok("ignore_na"), initial_value=Tok("initial_value"))
        obj = FkSeries(Tok("values"), Tok("index")) if self.series else FkFrame(Tok("values"), Tok("index"), Tok("columns"))
        frame = obj.to_frame() if self.series else obj
        st = FkState({k: Tok(k) for k in ("mean", "old_wt", "nobs")}, Tok("state index")) if self.with_state else None
        obs = []
        ob = lambda n, g: obs.append((n, bool(g)))
        try:
            r = m.WaxNumbaEWMAccessor(obj).ewm(**cfg, return_state=self.ret_state).mean(state=st)
        except (AttributeError, TypeError, KeyError) as e:
            raise Y.Mismatch(f"outside the vocabulary of the contract: {type(e).__name__}: {e}")
        ob("one call of the kernel", len(calls) == 1)
        kw, v, s = calls[0]
        for k, t in cfg.items():
            ob(f"configuration.{k}", kw.get(k) == t)
        ob("configuration.complete", set(kw) == set(cfg))
        ob("values", v == frame.values)
        if self.with_state:
            for k in ("mean", "old_wt", "nobs"):
                ob(f"state.{k} aligned on the columns", getattr(s, k, None) == Tok("reindexed", Tok(k), frame.columns))
        else:
            ob("state.none", s is None)
        if self.ret_state:
            ok = isinstance(r, tuple) and len(r) == 2
            ob("returns (result, state)", ok)
            if ok:
                r, s2 = r
                ok = isinstance(s2, FkState)
                ob("returned state is a frame", ok)
                if ok:
                    ob("returned state fields", list(s2.cols) == ["mean", "old_wt", "nobs"])
                    for k in ("mean", "old_wt", "nobs"):
                        ob(f"returned state.{k}", s2.cols.get(k) == Tok(k + "'"))
                    ob("returned state labels", all(i == frame.columns for i in s2.index))
        if self.series:
            ob("result is the column", isinstance(r, FkSeries) and r.data == Tok("first column", Tok("result")))
            ob("result.index", getattr(r, "index", None) == obj.index)
        else:
            ok = isinstance(r, FkFrame)
            ob("result is a frame", ok)
            if ok:
                ob("result.values", r.data == Tok("result"))
                ob("result.index", r.index == obj.index)
                ob("result.columns", r.columns == obj.columns)
        return [P.Obligation(f"{self.name}/{n}", [], g) for n, g in obs]

    def bounded_obligations(self):
        rng = np.random.default_rng(0)
        return [P.Obligation(f"{self.name}/concrete{k}", [], self.check(rng) is None) for k in range(20)]

    def check(self, rng):
        import pandas as pd
        from wax.numba.ewma_numba import ewma, register_wax_numba
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            register_wax_numba()
        N, n = int(rng.integers(2, 8)), 1 if self.series else int(rng.integers(1, 4))
        x = rng.integers(-8, 8, size=(N, n)) / 4
        x = np.where(rng.random((N, n)) < 0.3, np.nan, x)
        cut = int(rng.integers(1, N))
        kw = dict(com=float(rng.choice([0.5, 3.0])), min_periods=int(rng.integers(0, 3)), adjust=[True, False, "linear"][rng.integers(3)],
                  ignore_na=bool(rng.integers(2)))
        desc = lambda why: {"case": self.name, "x": x.tolist(), "config": kw, "split": cut, "why": why}
        want = np.concatenate([ewma(**kw)(x)[0]])
        cols = [f"c{k}" for k in range(n)]
        df = pd.DataFrame(x, columns=cols, index=np.arange(N) * 3)
        if self.series:
            df = df.iloc[:, 0]
        try:
            if self.with_state:
                r1, st = df.iloc[:cut].wax_numba.ewm(return_state=True, **kw).mean()
                st0 = st.copy(deep=True)
                ext = st if self.series else st.iloc[::-1]
                r2 = df.iloc[cut:].wax_numba.ewm(return_state=self.ret_state, **kw).mean(state=ext)
                if self.ret_state:
                    r2 = r2[0]
                if not st0.equals(st):
                    return desc("the caller's state frame is changed")
                r = pd.concat([r1, r2])
            else:
                r = df.wax_numba.ewm(return_state=self.ret_state, **kw).mean()
                if self.ret_state:
                    r, st = r
                    if list(st.index) != (cols if not self.series else list(df.to_frame().columns)):
                        return desc("labels of the state")
        except Exception as e:
            return desc(f"raised {type(e).__name__}: {e}"[:300])
        if list(r.index) != list(df.index) or (not self.series and list(r.columns) != cols):
            return desc("labels of the result")
        got = r.values.reshape(N, n)
        if not same(got, want, 1e-6, 1e-6):
            return desc(f"accessor gives {got.tolist()}, kernel {want.tolist()}")
        return None

    def conform(self, rng):
        for _ in range(2):
            r = self.check(rng)
            if r:
                return r

    def search(self, seeds, budget):
        import time
        rng, t0 = np.random.default_rng(5), time.time()
        while time.time() - t0 < budget:
            r = self.check(rng)
            if r:
                return r


_kernel_cases = cases


def cases(prop, tier):
    return _kernel_cases(prop, tier) + [AccessorCase(prop, s, w, r) for s in (False, True) for w in (False, True) for r in (False, True)]
