"""Contracts over pure functions of whole sequences, with ghost sequences for loops.

FnCase states: for every size of the symbolic dimensions and every input in the domain, the arrays
returned by the real function equal the specification arrays.  Loops (lax.scan of symbolic length) in the
traced code are handled with a loop invariant "carry leaf k at iteration t = ghost sequence g at t (+shift)",
guessed per leaf from the ghost sequences of the contract and then proved (base and preservation are named
obligations); the ghost sequence itself is defined by its initial value and its step function.
"""
from __future__ import annotations

import time
import traceback

import jax
import numpy as np
import z3
from jax import export

from . import jaxsym as J
from . import prove as P
from . import terms as T
from .arrays import SArr, coerce_elem, fresh_index, from_numpy, kind_of, sym, to_numpy
from .contracts import CaseBase, Leaf, concretize, count_eqns, flat_paths, same, StepCase, Mismatch


def jx(fn, *args):
    """Evaluate a JAX expression on specification arrays."""
    if T.CTX.concrete:
        a = [to_np(x) if isinstance(x, SArr) else x for x in args]
        return jax.tree_util.tree_map(lambda v: from_numpy(np.asarray(v), True), fn(*a))
    env = T.CTX.env
    specs = [J.sds(x.shape, x.dtype) for x in args]
    cj, out = J.trace(fn, *specs)
    leaves = J.eval_closed(env, cj, list(args))
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(out), leaves)


def to_np(a):
    v = to_numpy(a)
    return v.astype(str(a.dtype))


class Ghost:
    """A sequence of states s(0), s(1), ... defined by s(0)=init and s(t+1)=step(s(t), t)."""

    def __init__(self, name, init, step):
        self.name, self.init, self.step = name, init, step
        self.memo = {0: init}
        self.smemo = {}

    def at(self, t):
        if isinstance(t, int):
            for k in range(max(x for x in self.memo if x <= t), t):
                nxt = self.step(self.memo[k], k)
                self.memo[k + 1] = concretize(nxt) if T.CTX.concrete else nxt
            return self.memo[t]
        k = t.get_id()
        if k not in self.smemo:
            self.smemo[k] = (t, {n: self._sym(n, a, t) for n, a in self.init.items()})
        return self.smemo[k][1]

    def _sym(self, n, a, t):
        nm = f"gh.{self.name}.{n}"
        kd = kind_of(a.dtype)

        def f(*i):
            if kd == "f":
                return T.sym_float(nm, True, True, (t,) + i)
            if kd == "i":
                v = T.sym_int(nm, (t,) + i)
                if str(a.dtype).startswith("uint"):
                    T.CTX.fact(v >= 0)
                return v
            return T.sym_bool(nm, (t,) + i)
        return SArr(a.shape, a.dtype, f)

    def after(self, t):
        """s(t+1) unfolded from s(t)"""
        if isinstance(t, int):
            return self.at(t + 1)
        return self.step(self.at(t), t)


def _quick(hyps, goal, ms=3000):
    if goal is True:
        return True
    if goal is False:
        return False
    s = z3.Solver()
    s.set("timeout", ms)
    for h in hyps:
        s.add(T.zb(h))
    s.add(T.zb(T.Not(goal)))
    return s.check() == z3.unsat


def eq_goals(a, w):
    """[(tag, hyps, goal)] stating that two arrays are equal"""
    return StepCase._eq_obs(None, "", a, w)


def _holds(a, w, extra=()):
    try:
        gs = eq_goals(a, w)
    except AssertionError:
        return False
    for _, h, g in gs:
        if not _quick(list(T.CTX.hyps) + list(T.CTX.facts) + list(extra) + list(h), g):
            return False
    return True


def shapes_match(a, b):
    if len(a.shape) != len(b.shape) or kind_of(a.dtype) != kind_of(b.dtype):
        return False
    return all(J.dims_equal(x, y) is True or (not isinstance(x, int) and not isinstance(y, int)) or x == y
               for x, y in zip(a.shape, b.shape))


def resolve_scans(env, ghosts, start=0, prefix="loop"):
    """Find and prove loop invariants for the scans recorded since `start`.  Returns obligations."""
    obs = []
    n = start
    while n < len(env.scans):
        rec = env.scans[n]
        obs += _resolve(env, rec, ghosts, f"{prefix}{n}")
        n += 1
    return obs


def _resolve(env, rec, ghosts, tag):
    t = z3.Int(T.CTX.fresh("t"))
    rng = [t >= 0, t < T.zi(rec.length)]
    cands = []
    for k in range(rec.nk):
        cs = []
        a0 = rec.init[k]
        for shift in (0, 1):
            for g in ghosts:
                for n, w in g.init.items():
                    if shapes_match(a0, w):
                        g0 = g.at(0)[n] if shift == 0 else g.after(0)[n]
                        if _holds(a0, g0):
                            cs.append((g, n, shift))
        cs.append("const")
        if kind_of(rec.cdtypes[k]) == "i" and not rec.cshapes[k]:
            cs.append("count")
        cs.append(None)
        cands.append(cs)

    def value(k, c, tt):
        if c is None:
            return rec.sym_carry(k, tt)
        if c == "const":
            return rec.init[k]
        if c == "count":
            return SArr((), rec.cdtypes[k], lambda: T.add(rec.init[k](), tt))
        g, n, shift = c
        return g.at(T.add(tt, shift) if shift else tt)[n]

    def nxt(k, c, tt):
        if c == "const":
            return rec.init[k]
        if c == "count":
            return SArr((), rec.cdtypes[k], lambda: T.add(T.add(rec.init[k](), tt), 1))
        g, n, shift = c
        return g.after(T.add(tt, shift) if shift else tt)[n]

    for _ in range(40):
        cur = [c[0] for c in cands]
        out, _ys = rec.step_from([value(k, c, t) for k, c in enumerate(cur)], t)
        bad = [k for k, c in enumerate(cur) if c is not None and not _holds(out[k], nxt(k, c, t), rng)]
        if not bad:
            break
        for k in bad:
            cands[k].pop(0)
    cur = [c[0] for c in cands]
    out, _ys = rec.step_from([value(k, c, t) for k, c in enumerate(cur)], t)
    obs = []
    for k, c in enumerate(cur):
        if c is None:
            continue
        lab = c if isinstance(c, str) else f"{c[0].name}.{c[1]}{'+1' if c[2] else ''}"
        if not isinstance(c, str):
            g0 = c[0].at(0)[c[1]] if c[2] == 0 else c[0].after(0)[c[1]]
            for s, h, gl in eq_goals(rec.init[k], g0):
                obs.append((f"{tag}.entry[{k}={lab}]{s}", h, gl))
        for s, h, gl in eq_goals(out[k], nxt(k, c, t)):
            obs.append((f"{tag}.preserved[{k}={lab}]{s}", rng + list(h), gl))

        def res(tt, k=k, c=c):
            return value(k, c, tt)
        rec.resolved[k] = res
    rec.memo.clear()
    rec.assignment = cur
    return obs


class FnCase(CaseBase):
    """code(*arrays) (pure, traced) equals spec(S, arrays) for all sizes and inputs.

    spec(S, arrays) -> (outputs dict, ghosts list).
    """

    def __init__(self, prop, name, code, *, fns, inputs, dims=(), spec, sizes=None, pre=None, bounded=None,
                 rtol=2e-3, atol=2e-3, constraints=(), min_sizes=None, concrete_code=None, jit=True):
        self.prop, self.name, self.code, self.fns = prop, name, code, tuple(fns)
        self.inputs, self.dims, self.spec, self.pre = list(inputs), tuple(dims), spec, pre
        self.min_sizes = min_sizes or {}
        self.sizes = sizes or (lambda rng: {d: int(rng.integers(self.min_sizes.get(d, 1), 5)) for d in self.dims})
        self.bounded, self.rtol, self.atol = bounded, rtol, atol
        self.constraints = constraints
        self.concrete_code, self.jit = concrete_code, jit

    fixed = None
    fallback_bound = "two small sets of sizes"

    def bounded_obligations(self):
        """Used when the code cannot be taken through with symbolic sizes."""
        out = []
        for add in (0, 1):
            self.fixed = {d: max(self.min_sizes.get(d, 1), 2) + add for d in self.dims}
            try:
                out += [P.Obligation(f"{self.name}/sizes{add}{o.name[len(self.name):]}", o.hyps, o.goal) for o in self.obligations()]
            finally:
                self.fixed = None
        return out

    def obligations(self):
        T.reset()
        C = T.CTX
        env = J.Env()
        C.env = env
        dm = {}
        if self.fixed is not None:
            dm = dict(self.fixed)
        elif self.dims:
            cons = [f"{d} >= {v}" for d, v in self.min_sizes.items() if v > 1] + list(self.constraints)
            dm = dict(zip(self.dims, export.symbolic_shape(", ".join(self.dims), constraints=cons)))
        S = {d: v if self.fixed is not None else env.dim(v) for d, v in dm.items()}
        for d, v in ({} if self.fixed is not None else self.min_sizes).items():
            C.assume(S[d] >= v)
        xs_s = [J.sds([dm.get(d, d) for d in i.shape], i.dtype) for i in self.inputs]
        xs = [sym(f"x{n}", [S.get(d, d) for d in i.shape], i.dtype, i.nan, i.inf, pre=i.pre) for n, i in enumerate(self.inputs)]
        if self.pre is not None:
            C.assume(self.pre(S, xs))
        closed, out_s = J.trace((self.concrete_code or self.code) if self.fixed is not None else self.code, *xs_s)
        outs = J.eval_closed(env, closed, xs)
        want, ghosts = self.spec(S, xs)
        obs = []
        # outputs are lazy: force the evaluation of the top-level code so that its loops are recorded
        obs += resolve_scans(env, ghosts)
        paths = flat_paths(out_s)
        want = want if isinstance(want, dict) else {"": want}
        if set(p for p, _ in paths) != set(want):
            raise Mismatch(f"outputs {[p for p, _ in paths]} differ from specified {sorted(want)}")
        n0 = len(env.scans)
        for (pth, _), a in zip(paths, outs):
            obs += StepCase._eq_obs(self, "out." + (pth or "y"), a, want[pth])
        if len(env.scans) > n0:
            obs += resolve_scans(env, ghosts, n0)
        J.settle()
        base = list(C.hyps) + [T.zb(f) for f in C.facts]
        self.vac = P.satisfiable(base)
        self.lemmas = C.decided
        self.eqns = count_eqns(closed)
        return [P.Obligation(f"{self.name}/{n}", base + list(h), gl) for n, h, gl in obs]

    # ------------------------------------------------ concrete
    _sample = StepCase._sample
    POOL = StepCase.POOL
    _j = None

    def check_input(self, S, xs):
        old = T.CTX
        T.reset()
        T.CTX.concrete = True
        T.CTX.env = J.Env(concrete=True)
        try:
            desc = lambda why: {"case": self.name, "sizes": S, "inputs": [x.tolist() for x in xs], "why": why}
            sx = [from_numpy(x, True) for x in xs]
            if self.pre is not None and self.pre(S, sx) is not True:
                return None
            if self._j is None:
                code = self.concrete_code or self.code
                self._j = jax.jit(lambda *a: code(*a)) if self.jit else (lambda *a: code(*a))
            try:
                out = self._j(*xs)
            except Exception as e:
                return desc(f"raised {type(e).__name__}: {e}"[:500])
            want, _ = self.spec(S, sx)
            want = want if isinstance(want, dict) else {"": want}
            got = dict(flat_paths(out))
            if set(got) != set(want):
                return desc(f"output structure {sorted(got)} expected {sorted(want)}")
            for pth, arr in want.items():
                when = None
                if isinstance(arr, Leaf):
                    when, arr = arr.when, arr.value
                e = to_numpy(arr)
                if kind_of(got[pth].dtype) == "k":
                    continue
                a = np.asarray(got[pth])
                if kind_of(a.dtype) != kind_of(arr.dtype):
                    return desc(f"output {pth or 'y'} has type {a.dtype}, expected {arr.dtype}")
                a = a.astype(e.dtype)
                if a.shape != e.shape:
                    return desc(f"output {pth or 'y'}: shape {a.shape}, expected {e.shape}")
                if when is not None:
                    m = np.zeros(e.shape, bool)
                    for ii in np.ndindex(e.shape):
                        m[ii] = bool(when(*ii))
                    a, e = np.where(m, a, 0), np.where(m, e, 0)
                if not same(a, e, self.rtol, self.atol):
                    return desc(f"output {pth or 'y'}: real code gives {a.tolist()}, specification {e.tolist()}")
            return None
        finally:
            T.CTX = old

    def run_one(self, rng, seeds):
        S = self.sizes(rng)
        xs = []
        for i in self.inputs:
            sh = tuple(S.get(d, d) for d in i.shape)
            if i.key:
                xs.append(np.asarray([rng.integers(0, 5), rng.integers(0, 2 ** 31)], "uint32"))
            else:
                xs.append(self._sample(rng, i, sh, seeds))
        return self.check_input(S, xs)

    def search(self, seeds, budget):
        rng = np.random.default_rng(1)
        t0 = time.time()
        n = 0
        self._j = None
        while time.time() - t0 < budget:
            n += 1
            try:
                r = self.run_one(rng, seeds)
            except Exception:
                self.search_error = traceback.format_exc()
                return None
            if r is not None:
                r["trials"] = n
                return r
        return None

    def conform(self, rng):
        for _ in range(2):
            r = self.run_one(rng, [])
            if r is not None:
                return r
        return None
