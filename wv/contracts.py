"""Step contracts: (init, apply) of a stateful function against a ghost-state specification.

A StepCase states, for one real function traced from /repo:

  init  :  requires cfg in its domain           ensures params/state represent ghost0
  step  :  requires params/state represent ghost g, g well-formed, inputs in their domain
           ensures outputs = spec outputs of step(g, x), new params/state represent step(g, x),
                   step(g, x) well-formed

Every leaf and every array index is a separate named obligation.  By induction over the calls (the
two rules above are the base and the step) the contract holds for every finite input history.
"""
from __future__ import annotations

import itertools
import time
import traceback
from fractions import Fraction

import jax
import numpy as np
import z3
from jax import export

from . import jaxsym as J
from . import prove as P
from . import terms as T
from .arrays import SArr, coerce_elem, fresh_index, from_numpy, full, kind_of, map_, sym, to_numpy


class Leaf:
    """A state/output leaf that is only constrained where `when` holds."""

    def __init__(self, value, when=None):
        self.value, self.when = value, when


class Inp:
    def __init__(self, shape=(), dtype="float32", nan=True, inf=False, pre=None, values=None, key=False):
        self.shape, self.dtype, self.nan, self.inf, self.pre, self.values = tuple(shape), dtype, nan, inf, pre, values
        self.key = key


class Cfg(Inp):
    def __init__(self, dtype="float32", pre=None, values=(1.0,)):
        super().__init__((), dtype, False, False, pre, values)


def path_str(path):
    out = []
    for p in path:
        for a in ("key", "idx", "name"):
            if hasattr(p, a):
                out.append(str(getattr(p, a)))
                break
    return "/".join(out)


def flat_paths(tree):
    return [(path_str(p), v) for p, v in jax.tree_util.tree_flatten_with_path(tree)[0]]


# --------------------------------------------------------------- library adapters
def haiku_pair(make):
    """make(cfg) -> python function of the inputs using Haiku modules"""
    import haiku as hk

    def init(key, cfg, *xs):
        return hk.transform_with_state(lambda *a: make(cfg)(*a)).init(key, *xs)

    def apply(params, state, key, cfg, *xs):
        return hk.transform_with_state(lambda *a: make(cfg)(*a)).apply(params, state, key, *xs)

    return init, apply


def flax_pair(make, call=None):
    """make(cfg) -> flax module"""
    def init(key, cfg, *xs):
        m = make(cfg)
        v = dict(m.init(key, *xs))
        params = v.pop("params", {})
        return params, v

    def apply(params, state, key, cfg, *xs):
        m = make(cfg)
        out, v = m.apply({"params": params, **state}, *xs, mutable=True)
        v = dict(v)
        v.pop("params", None)
        return out, v

    return init, apply


def pure_pair(make):
    """stateless function"""
    def init(key, cfg, *xs):
        return {}, {}

    def apply(params, state, key, cfg, *xs):
        return make(cfg)(*xs), {}

    return init, apply


def lane(shape, f, *arrs, dtype="float32"):
    """elementwise array (scalars broadcast)"""
    def g(*i):
        return f(*[a(*i) if a.ndim else a() for a in arrs])
    return SArr(shape, dtype, g)


class Mismatch(Exception):
    pass


class CaseBase:
    prop = "?"
    name = "?"
    fns = ()
    bounded = None  # text when some dimension is fixed

    def obligations(self):
        raise NotImplementedError

    def search(self, seeds, budget):
        return None

    def conform(self, rng):
        return None


class StepCase(CaseBase):
    def __init__(self, prop, name, pair, *, fns, inputs, cfg=None, dims=(), ghost0, ghost_sym, step,
                 params=None, state=None, init_is_step=False, ghost_inv=None, sizes=None, rng_key=False,
                 T_max=14, bounded=None, rtol=2e-3, atol=2e-3, tags=()):
        self.prop, self.name, self.pair, self.fns = prop, name, pair, tuple(fns)
        self.inputs, self.cfg, self.dims = list(inputs), dict(cfg or {}), tuple(dims)
        self.ghost0, self.ghost_sym, self.step = ghost0, ghost_sym, step
        self.params = params or (lambda S, cfg: {})
        self.state = state or (lambda S, g, cfg: {})
        self.init_is_step = init_is_step
        self.ghost_inv = ghost_inv or (lambda S, g, cfg: {})
        self.sizes = sizes or (lambda rng: {d: int(rng.integers(1, 4)) for d in self.dims})
        self.T_max, self.bounded, self.rtol, self.atol = T_max, bounded, rtol, atol
        self.rng_key = rng_key

    def _g0(self, S, cfg, xs):
        """the initial ghost state (of the first inputs, for a contract whose ghost0 takes them)"""
        return self.ghost0(S, cfg, xs) if self.ghost0.__code__.co_argcount - len(self.ghost0.__defaults__ or ()) == 3 else self.ghost0(S, cfg)

    # ---------------------------------------------------------- symbolic
    def _dims(self):
        if not self.dims:
            return {}
        return dict(zip(self.dims, export.symbolic_shape(", ".join(self.dims))))

    def _sds(self, dm):
        cfg = {k: J.sds((), c.dtype) for k, c in self.cfg.items()}
        xs = [J.sds([dm.get(d, d) for d in i.shape], i.dtype) for i in self.inputs]
        return cfg, xs

    def _shape_env(self, env, dm):
        return {d: env.dim(v) for d, v in dm.items()}

    def make_inputs(self, xs):
        return xs

    def obligations(self):
        T.reset()
        C = T.CTX
        env = J.Env()
        C.env = env
        dm = self._dims()
        S = self._shape_env(env, dm)
        cfg_s, xs_s = self._sds(dm)
        key_s = J.sds((2,), "uint32")
        init, apply = self.pair

        # hypotheses
        cfg = {}
        for k, c in self.cfg.items():
            a = sym("cfg." + k, (), c.dtype, nan=False)
            cfg[k] = a
            if c.pre is not None:
                C.assume(c.pre(a()))
        xs = []
        for n, i in enumerate(self.inputs):
            xs.append(sym(f"x{n}", [S.get(d, d) for d in i.shape], i.dtype, i.nan, i.inf, pre=i.pre))
        xs = self.make_inputs(xs)
        cfg_l = {k: a() for k, a in cfg.items()}

        self.trace_info = {}
        ij, (p_s, s_s) = J.trace(init, key_s, cfg_s, *xs_s)
        aj, (out_s, s2_s) = J.trace(apply, p_s, s_s, key_s, cfg_s, *xs_s)
        p_paths = flat_paths(p_s)
        s_paths = flat_paths(s_s)
        s2_paths = flat_paths(s2_s)
        keyarr = sym("key", (2,), "uint32")
        obs = []

        def flat_args(*trees):
            return [l for t in trees for l in jax.tree_util.tree_leaves(t)]

        # ---- init
        outs = J.eval_closed(env, ij, flat_args(keyarr, cfg, xs))
        np_ = len(p_paths)
        g0 = self._g0(S, cfg_l, xs)
        if self.init_is_step:
            g0, _ = self.step(S, cfg_l, g0, xs)
        want_p = self.params(S, cfg_l)
        want_s = self.state(S, g0, cfg_l)
        pm = self._match(want_p, p_paths, env)
        sm = self._match(want_s, s_paths, env)
        for (pth, _), a in zip(p_paths, outs[:np_]):
            if pth in pm:
                obs += self._eq_obs("init.params." + pth, a, want_p[pm[pth]])
        for (pth, _), a in zip(s_paths, outs[np_:]):
            if pth in sm:
                obs += self._eq_obs("init.state." + pth, a, want_s[sm[pth]])
        for nm, (sh, f) in self.ghost_inv(S, g0, cfg_l).items():
            idx, h = fresh_index(sh)
            obs.append(("init.wf." + nm, h, f(*idx)))
        # ---- step
        g = self.ghost_sym(S, cfg_l)
        for nm, (sh, f) in self.ghost_inv(S, g, cfg_l).items():
            pass  # instantiated per element through the ghost symbols themselves
        pre_p = self.params(S, cfg_l)
        pre_s = self.state(S, g, cfg_l)

        def pre_arr(w, pth, sd, tag):
            shape = tuple(env.dim(d) for d in sd.shape)
            free = sym(f"{tag}.{pth}", shape, str(sd.dtype), True, False)
            if w is None:
                return free
            if isinstance(w, Leaf) and w.when is not None:
                return SArr(shape, str(sd.dtype), lambda *i: T.ite(w.when(*i), w.value(*i), free(*i)))
            v = w.value if isinstance(w, Leaf) else w
            return SArr(shape, str(sd.dtype), v)

        p_arrs = [pre_arr(pre_p.get(pm.get(pth)), pth, sd, "p") for pth, sd in p_paths]
        s_arrs = [pre_arr(pre_s.get(sm.get(pth)), pth, sd, "s") for pth, sd in s_paths]
        outs = J.eval_closed(env, aj, p_arrs + s_arrs + flat_args(keyarr, cfg, xs))
        g2, want = self.step(S, cfg_l, g, xs)
        want_s2 = self.state(S, g2, cfg_l)
        out_paths = flat_paths(out_s)
        want_o = self._norm_outs(want)
        n_o = len(out_paths)
        if set(pp for pp, _ in out_paths) != set(want_o):
            raise Mismatch(f"outputs {[p for p, _ in out_paths]} differ from specified {sorted(want_o)}")
        for (pth, _), a in zip(out_paths, outs[:n_o]):
            obs += self._eq_obs("step.out." + (pth or "y"), a, want_o[pth])
        if [p for p, _ in s2_paths] != [p for p, _ in s_paths]:
            obs.append(("step.state.structure", [], False))
        else:
            for (pth, _), a in zip(s2_paths, outs[n_o:]):
                if pth in sm:
                    obs += self._eq_obs("step.state." + pth, a, want_s2[sm[pth]])
        for nm, (sh, f) in self.ghost_inv(S, g2, cfg_l).items():
            idx, h = fresh_index(sh)
            obs.append(("step.wf." + nm, h, f(*idx)))
        J.settle()
        base = list(C.hyps) + [T.zb(f) for f in C.facts]
        self.vac = P.satisfiable(base)
        self.lemmas = C.decided
        self.eqns = count_eqns(ij) + count_eqns(aj)
        return [P.Obligation(f"{self.name}/{n}", base + list(h), gl) for n, h, gl in obs]

    fallback_bound = "the first 3 steps from init, symbolic inputs and extents"

    def bounded_obligations(self, steps=3):
        """Used when no leaf of the real state represents the ghost state: outputs of the first steps only."""
        T.reset()
        C = T.CTX
        env = J.Env()
        C.env = env
        dm = self._dims()
        S = self._shape_env(env, dm)
        cfg_s, xs_s = self._sds(dm)
        key_s = J.sds((2,), "uint32")
        init, apply = self.pair
        cfg = {}
        for k, c in self.cfg.items():
            cfg[k] = sym("cfg." + k, (), c.dtype, nan=False)
            if c.pre is not None:
                C.assume(c.pre(cfg[k]()))
        cfg_l = {k: a() for k, a in cfg.items()}
        seq = [self.make_inputs([sym(f"x{n}@{t}", [S.get(d, d) for d in i.shape], i.dtype, i.nan, i.inf, pre=i.pre)
                                 for n, i in enumerate(self.inputs)]) for t in range(steps)]
        keyarr = sym("key", (2,), "uint32")
        flat = lambda *trees: [l for t in trees for l in jax.tree_util.tree_leaves(t)]
        ij, (p_s, s_s) = J.trace(init, key_s, cfg_s, *xs_s)
        aj, (out_s, s2_s) = J.trace(apply, p_s, s_s, key_s, cfg_s, *xs_s)
        outs = J.eval_closed(env, ij, flat(keyarr, cfg, seq[0]))
        np_ = len(flat_paths(p_s))
        ps, ss = outs[:np_], outs[np_:]
        g = self._g0(S, cfg_l, seq[0])
        if self.init_is_step:
            g, _ = self.step(S, cfg_l, g, seq[0])
        obs = []
        paths = flat_paths(out_s)
        for t in range(steps):
            outs = J.eval_closed(env, aj, list(ps) + list(ss) + flat(keyarr, cfg, seq[t]))
            ss = outs[len(paths):]
            g, want = self.step(S, cfg_l, g, seq[t])
            want = self._norm_outs(want)
            if set(pp for pp, _ in paths) != set(want):
                raise ValueError(f"outputs {[p for p, _ in paths]} differ from specified {sorted(want)}")
            for (pth, _), a in zip(paths, outs):
                obs += self._eq_obs(f"bounded.step{t}.out." + (pth or "y"), a, want[pth])
        J.settle()
        base = list(C.hyps) + [T.zb(f) for f in C.facts]
        self.vac = P.satisfiable(base)
        self.eqns = count_eqns(ij) + count_eqns(aj)
        return [P.Obligation(f"{self.name}/{n}", base + list(h), gl) for n, h, gl in obs]

    def _norm_outs(self, want):
        if isinstance(want, dict):
            return want
        if isinstance(want, (list, tuple)):
            return {str(k): v for k, v in enumerate(want)}
        return {"": want}

    def _match(self, want, paths, env):
        """path of the real leaf -> key of the contract leaf (by unique suffix)"""
        m = {}
        left = [k for k in want]
        for k in list(left):
            c = [p for p, _ in paths if p == k or p.endswith("/" + k)]
            if len(c) == 1:
                m[c[0]] = k
                left.remove(k)
        rest = [(p, sd) for p, sd in paths if p not in m]
        for k in list(left):
            w = want[k].value if isinstance(want[k], Leaf) else want[k]
            c = [p for p, sd in rest if p not in m and kind_of(sd.dtype) == w.kind
                 and len(sd.shape) == w.ndim]
            if len(c) == 1:
                m[c[0]] = k
                left.remove(k)
        if left:
            raise Mismatch(f"no state leaf represents {left} among {[p for p, _ in paths]}")
        return m

    def _eq_obs(self, name, a, w):
        when = None
        if isinstance(w, Leaf):
            when, w = w.when, w.value
        if len(a.shape) != len(w.shape) :
            return [(name + ".shape", [], False)]
        sh_ok = T.And(*[J.dims_equal(x, y) or T.eq(x, y) for x, y in zip(a.shape, w.shape)])
        out = [(name + ".shape", [], sh_ok)]
        idx, h = fresh_index(w.shape)
        T.CTX.side = "code"
        x = a(*idx)
        T.CTX.side = "spec"
        y = w(*idx)
        if when is not None:
            h = h + [T.zb(when(*idx))]
        T.CTX.side = "code"
        if a.kind != w.kind:
            return [(name + ".dtype", [], False)]
        if a.kind == "f":
            out.append((name + ".nan", h, T.Iff(x.nan, y.nan)))
            inf = T.And(T.Iff(x.pinf, y.pinf), T.Iff(x.ninf, y.ninf))
            if inf is not True:
                out.append((name + ".inf", h, inf))
            spec = T.Or(x.special, y.special)
            out.append((name + ".value", h + [T.zb(T.Not(spec))], T.eq(x.val, y.val)))
        else:
            out.append((name + ".value", h, T.eq(x, y)))
        return out

    # ---------------------------------------------------------- concrete replay
    POOL = [0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.0, 10.0, 1.5, -0.25, 7.0, 4.0]

    def _sample(self, rng, i, shape, seeds):
        if i.values is not None:
            vals = list(i.values)
            return np.asarray(rng.choice(np.array(vals, dtype=object), size=shape), dtype=i.dtype)
        k = kind_of(i.dtype)
        if k == "b":
            return rng.random(shape) < rng.choice([0.2, 0.5, 0.9])
        pool = list(self.POOL) + ([s for s in seeds] * 2 if rng.random() < 0.5 else [])
        if k == "i":
            pool = sorted({int(v) for v in pool})
            if str(i.dtype).startswith("uint"):
                pool = [abs(p) for p in pool]
            a = rng.choice(np.array(pool), size=shape)
            a = np.asarray(a).astype(i.dtype)
        else:
            a = np.asarray(rng.choice(np.array(pool, dtype=float), size=shape)).astype(i.dtype)
            if rng.random() < 0.5:
                a = a + rng.integers(-8, 8, size=shape).astype(i.dtype) / 4
            if i.nan:
                pr = rng.choice([0.0, 0.2, 0.5, 0.8])
                a = np.where(rng.random(shape) < pr, np.nan, a).astype(i.dtype)
            if i.inf:
                a = np.where(rng.random(shape) < 0.15, rng.choice([np.inf, -np.inf]), a).astype(i.dtype)
        if i.pre is not None:
            fl = np.asarray(a)
            for ii in np.ndindex(fl.shape):
                t = 0
                while not i.pre(coerce_elem(fl[ii], k, i.dtype, True)) and t < 200:
                    fl[ii] = np.asarray(rng.choice(np.array(pool, dtype=float))).astype(i.dtype)
                    t += 1
            a = fl
        return np.asarray(a)

    def run_history(self, rng, seeds, steps, log=None):
        """Run real code and spec side by side; return None or a failing history description."""
        S = self.sizes(rng)
        cfgv = {}
        for k, c in self.cfg.items():
            vals = list(c.values) + [s for s in seeds if c.pre is None or c.pre(coerce_elem(s, kind_of(c.dtype), c.dtype, True)) is True]
            cfgv[k] = np.asarray(vals[rng.integers(len(vals))], dtype=c.dtype)
        shapes = [[S.get(d, d) for d in i.shape] for i in self.inputs]
        xs_seq = [[self._sample(rng, i, tuple(sh), seeds) for i, sh in zip(self.inputs, shapes)] for _ in range(steps)]
        return self.check_history(S, cfgv, xs_seq)

    _jit = None

    def _jitted(self):
        if self._jit is None:
            i, a = self.pair
            self._jit = (jax.jit(lambda *x: i(*x)), jax.jit(lambda *x: a(*x)))
        return self._jit

    def check_history(self, S, cfgv, xs_seq):
        old = T.CTX
        T.reset()
        T.CTX.concrete = True
        T.CTX.env = J.Env(concrete=True)
        try:
            init, apply = self._jitted()
            key = np.asarray([0, 7], "uint32")
            cfg_l = {k: from_numpy(v, True)() for k, v in cfgv.items()}
            desc = lambda t, why: {"case": self.name, "cfg": {k: v.tolist() for k, v in cfgv.items()},
                                   "sizes": S, "inputs": [[x.tolist() for x in xs] for xs in xs_seq[:t + 1]],
                                   "step": t, "why": why}
            g = self._g0(S, cfg_l, [from_numpy(x, True) for x in xs_seq[0]])
            try:
                p, s = init(key, cfgv, *xs_seq[0])
            except Exception as e:
                return desc(0, f"init raised {type(e).__name__}: {e}"[:500])
            if self.init_is_step:
                g, _ = self.step(S, cfg_l, g, [from_numpy(x, True) for x in xs_seq[0]])
                g = concretize(g)
            for t, xs in enumerate(xs_seq):
                sx = [from_numpy(x, True) for x in xs]
                g, want = self.step(S, cfg_l, g, sx)
                g = concretize(g)
                try:
                    out, s = apply(p, s, key, cfgv, *xs)
                except Exception as e:
                    return desc(t, f"apply raised {type(e).__name__}: {e}"[:500])
                got = dict(flat_paths(out))
                w = self._norm_outs(want)
                if set(got) != set(w):
                    return desc(t, f"output structure {sorted(got)} expected {sorted(w)}")
                for pth, arr in w.items():
                    when = None
                    if isinstance(arr, Leaf):
                        when, arr = arr.when, arr.value
                    e = to_numpy(arr)
                    a = np.asarray(got[pth]).astype(e.dtype)
                    if a.shape != e.shape:
                        return desc(t, f"output {pth or 'y'}: shape {a.shape}, expected {e.shape}")
                    if when is not None:
                        mask = np.zeros(e.shape, bool)
                        for ii in np.ndindex(e.shape):
                            mask[ii] = bool(when(*ii))
                        a, e = np.where(mask, a, 0), np.where(mask, e, 0)
                    if not same(a, e, self.rtol, self.atol):
                        return desc(t, f"output {pth or 'y'} at step {t}: real code gives {a.tolist()}, specification {e.tolist()}")
            return None
        finally:
            T.CTX = old

    def search(self, seeds, budget):
        rng = np.random.default_rng(1)
        t0 = time.time()
        n = 0
        self._jit = None
        while time.time() - t0 < budget:
            n += 1
            steps = int(rng.integers(1, self.T_max))
            if n % 10 == 0:
                steps = self.T_max * 3
            try:
                r = self.run_history(rng, seeds, steps)
            except Exception:
                self.search_error = traceback.format_exc()
                return None
            if r is not None:
                r["trials"] = n
                return r
        return None

    def conform(self, rng):
        return self.run_history(rng, [], 6)


def same(a, e, rtol, atol):
    if e.dtype == bool or e.dtype.kind in "iu":
        return bool((a == e).all())
    a, e = np.asarray(a, float), np.asarray(e, float)
    if (np.isnan(a) != np.isnan(e)).any():
        return False
    ok = np.isnan(e) | (a == e) | (np.abs(a - e) <= atol + rtol * np.abs(e))
    return bool(ok.all())


def concretize(g):
    """Freeze lazily evaluated ghost arrays (avoids deep recursion over long histories)."""
    out = {}
    for k, a in g.items():
        if isinstance(a, SArr):
            memo = {}
            for ii in np.ndindex(*[int(s) for s in a.shape]):
                memo[ii] = a(*ii)
            if any(z3.is_expr(x) for v in memo.values() for x in ([v.nan, v.pinf, v.ninf, v.val] if isinstance(v, T.FV) else [v])):
                raise RuntimeError(f"ghost {k} is not concrete")
            out[k] = SArr(a.shape, a.dtype, lambda *i, m=memo: m[i])
        else:
            out[k] = a
    return out


def count_eqns(closed):
    n = 0
    stack = [closed.jaxpr]
    while stack:
        j = stack.pop()
        n += len(j.eqns)
        for e in j.eqns:
            for v in e.params.values():
                for w in (v if isinstance(v, (tuple, list)) else [v]):
                    if hasattr(w, "jaxpr"):
                        stack.append(w.jaxpr)
                    elif hasattr(w, "eqns"):
                        stack.append(w)
    return n
