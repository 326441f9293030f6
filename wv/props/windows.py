"""Sliding windows: Buffer, Lag, tree_lag, Diff, RollingMean, PctChange (Haiku and Flax)."""
from ..lib import *

HK = "wax/modules/"
FX = "wax/flax/modules/"


def _pos(v):
    return T.le(1, v)


def win_spec(lib, shape, L, fill="fill"):
    """ghost: W(a, idx) = the input a steps ago (fill before the first), cnt = number of inputs.
    L(S) is the window length."""
    def fillv(cfg):
        return cfg["fill"] if "fill" in cfg else T.NAN

    def ghost0(S, cfg):
        return dict(W=const((L(S),) + shp(S, shape), fillv(cfg)), cnt=const((), 0, "int32"), q=0, w=0)

    def ghost_sym(S, cfg):
        n = L(S)
        q, w = T.sym_int("g.q"), T.sym_int("g.w")
        T.CTX.assume(And(q >= 0, w >= 0, T.lt(w, n)))
        c = q * T.zi(n) + w
        T.CTX.assume(c >= 0)
        T.CTX.assume(z3.Implies(q >= 1, c >= T.zi(n)))  # lemma: q>=1, n>=1, w>=0 => q*n+w >= n
        T.CTX.assume(z3.Implies(q == 0, c == w))
        T.CTX.mod_hints.append((q, w))
        return dict(W=gfloat("g.W", (n,) + shp(S, shape)), cnt=const((), c, "int32"), q=q, w=w)

    def push(S, cfg, g, x):
        n = L(S)
        W = SArr((n,) + shp(S, shape), "float32",
                 lambda a, *i: x(*i) if (T.isc(a) and a == 0) else (
                     g["W"](T.sub(a, 1), *i) if T.isc(a) else ite(T.eq(a, 0), x(*i), g["W"](T.sub(a, 1), *i))))
        w1 = T.add(g["w"], 1)
        wrap = T.eq(w1, n)
        return dict(W=W, cnt=const((), T.add(g["cnt"](), 1), "int32"), q=ite(wrap, T.add(g["q"], 1), g["q"]),
                    w=ite(wrap, 0, w1))

    def ordered(S, g):
        n = L(S)
        return SArr(g["W"].shape, "float32", lambda p, *i: g["W"](T.sub(T.sub(n, 1), p), *i))

    def length(S, g):
        return const((), T.imin(g["cnt"](), L(S)), "int32")

    def state(S, g, cfg):
        n = L(S)
        if lib == "haiku":
            return {"buffer": ordered(S, g), "len_buffer": length(S, g),
                    "i_start": const((), T.sub(n, length(S, g)()), "int32")}
        w = g["w"]

        def phys(p, *i):
            # physical slot p holds the input (w-1-p) mod n steps ago
            d = T.sub(T.sub(w, 1), p)
            return g["W"](ite(T.le(0, d), d, T.add(d, n)), *i)
        return {"buffer": SArr(g["W"].shape, "float32", phys), "len_buffer": length(S, g), "write_idx": g["cnt"]}

    return ghost0, ghost_sym, push, ordered, length, state


def cases(prop, tier="quick"):
    import jax.numpy as jnp
    from wax.modules import buffer as hb, lag as hl, diff as hd, rolling_mean as hr, pct_change as hp
    from wax.modules.lag import tree_lag
    from wax.flax import modules as fm
    from wax.flax.modules.buffer import Buffer as FBuffer
    from wax.flax.modules.lag import Lag as FLag
    from wax.flax.modules.diff import Diff as FDiff
    from wax.flax.modules.rolling_mean import RollingMean as FRM
    from jax import export
    out = []
    for lib in ("haiku", "flax"):
        pairf = haiku_pair if lib == "haiku" else flax_pair
        base = HK if lib == "haiku" else FX
        ini = lib == "flax"
        for rank in (0, 1, 2):
            shape = RANKS[rank]
            # ---- Buffer, window length symbolic
            for rs in (False, True):
                for filled in ((False, True) if rank == 1 else (False,)):
                    g0, gs, push, ordered, length, state = win_spec(lib, shape, lambda S: S["L"])
                    cfg = {"fill": Cfg(values=(0.0, -1.0, 5.0))} if filled else {}

                    def make(c, lib=lib, rs=rs):
                        kw = dict(return_state=rs)
                        if "fill" in c:
                            kw["fill_value"] = c["fill"]
                        return (hb.Buffer if lib == "haiku" else FBuffer)(DIM["L"], **kw)

                    def step(S, cfg, g, xs, push=push, ordered=ordered, length=length, rs=rs, lib=lib):
                        g2 = push(S, cfg, g, xs[0])
                        o = ordered(S, g2)
                        if not rs:
                            return g2, o
                        r = {"0": o, "1/buffer": o, "1/len_buffer": length(S, g2)}
                        if lib == "haiku":
                            r["1/i_start"] = const((), T.sub(S["L"], length(S, g2)()), "int32")
                        else:
                            r["1/write_idx"] = g2["cnt"]
                        return g2, r
                    out.append(WinCase(prop, f"{lib}.Buffer[return_state={rs}{',fill' if filled else ''},rank{rank}]",
                                       pairf(make), fns=[base + "buffer.py:Buffer.__call__"], inputs=[Inp(shape)], cfg=cfg,
                                       dims=("L",) + dims_of(shape), init_is_step=ini, ghost0=g0, ghost_sym=gs, step=step,
                                       state=state))
            # ---- Lag: value `lag` steps ago
            for rs in ((False, True) if lib == "flax" and rank == 1 else (False,)):
                g0, gs, push, ordered, length, state = win_spec(lib, shape, lambda S: T.add(S["K"], 1))

                def make(c, lib=lib, rs=rs):
                    if "fill" in c:
                        return (hl.Lag if lib == "haiku" else FLag)(lag=DIM["K"], fill_value=c["fill"], return_state=rs)
                    return (hl.Lag if lib == "haiku" else FLag)(lag=DIM["K"], return_state=rs)

                def step(S, cfg, g, xs, push=push, rs=rs, ordered=ordered, length=length):
                    g2 = push(S, cfg, g, xs[0])
                    o = SArr(shp(S, xs[0].shape), "float32", lambda *i: g2["W"](S["K"], *i))
                    if rs:
                        return g2, {"0": o, "1/buffer": ordered(S, g2), "1/len_buffer": length(S, g2), "1/write_idx": g2["cnt"]}
                    return g2, o
                for filled in ((False, True) if rank == 1 else (False,)):
                    out.append(WinCase(prop, f"{lib}.Lag[{'fill,' if filled else ''}return_state={rs},rank{rank}]", pairf(make),
                                       fns=[base + "lag.py:Lag.__call__", base + "buffer.py:Buffer.__call__"],
                                       inputs=[Inp(shape)], dims=("K",) + dims_of(shape), init_is_step=ini,
                                       cfg={"fill": Cfg(values=(0.0, -1.0, 5.0))} if filled else {},
                                       ghost0=g0, ghost_sym=gs, step=step, state=state))
            # ---- Diff
            g0, gs, push, ordered, length, state = win_spec(lib, shape, lambda S: 2)

            def step(S, cfg, g, xs, push=push):
                g2 = push(S, cfg, g, xs[0])
                return g2, SArr(shp(S, xs[0].shape), "float32", lambda *i: xs[0](*i) - g["W"](0, *i))
            out.append(WinCase(prop, f"{lib}.Diff[rank{rank}]",
                               pairf(lambda c, lib=lib: (hd.Diff() if lib == "haiku" else FDiff())),
                               fns=[base + "diff.py:Diff.__call__", base + "buffer.py:Buffer.__call__"],
                               inputs=[Inp(shape)], dims=dims_of(shape), init_is_step=ini,
                               ghost0=g0, ghost_sym=gs, step=step, state=state))
            # ---- RollingMean, horizon and min_periods symbolic
            g0, gs, push, ordered, length, state = win_spec(lib, shape, lambda S: S["L"])

            def step(S, cfg, g, xs, push=push, ordered=ordered):
                g2 = push(S, cfg, g, xs[0])
                o = ordered(S, g2)
                env = J.Env()

                def f(*i):
                    v = lambda p: o(p, *i)
                    s = J.reduce1(env, "sum", S["L"], lambda p: ite(v(p).nan, fv(0), v(p)), "f")
                    n = J.reduce1(env, "sum", S["L"], lambda p: ite(v(p).nan, 0, 1), "i")
                    return ite(T.le(cfg["mp"], n), T.fdiv(s, fv(n)), T.NAN)
                return g2, SArr(xs[0].shape, "float32", f)
            for sym_l in (True, False):
                if not sym_l and rank != 1:
                    continue
                out.append(WinCase(prop, f"{lib}.RollingMean[rank{rank}{'' if sym_l else ',horizon<=4'}]",
                                   pairf(lambda c, lib=lib: (hr.RollingMean(DIM["L"], c["mp"]) if lib == "haiku"
                                                             else FRM(DIM["L"], c["mp"]))),
                                   fns=[base + "rolling_mean.py:RollingMean.__call__", base + "buffer.py:Buffer.__call__"],
                                   inputs=[Inp(shape)], dims=("L",) + dims_of(shape), init_is_step=ini,
                                   cfg={"mp": Cfg("int32", pre=lambda v: T.le(1, v), values=(1, 2, 3))},
                                   ghost0=g0, ghost_sym=gs, step=step, state=state) if sym_l else None)
            # ---- PctChange
            out += pct_cases(prop, lib, rank)
    # ---- tree_lag on a nested structure (None leaves pass through)
    shape = ("n",)
    g0, gs, push, ordered, length, state = win_spec("haiku", shape, lambda S: T.add(S["K"], 1))

    def g2_0(S, cfg):
        a, b = g0(S, cfg), g0(S, cfg)
        return {**{"a." + k: v for k, v in a.items()}, **{"b." + k: v for k, v in b.items()}}

    def split(g):
        return ({k[2:]: v for k, v in g.items() if k[0] == "a"}, {k[2:]: v for k, v in g.items() if k[0] == "b"})

    def gs2(S, cfg):
        a = gs(S, cfg)
        b = dict(a)
        b["W"] = gfloat("g.W2", a["W"].shape)
        return {**{"a." + k: v for k, v in a.items()}, **{"b." + k: v for k, v in b.items()}}

    def st2(S, g, cfg):
        a, b = split(g)
        sa, sb = state(S, a, cfg), state(S, b, cfg)
        return {**{"lag/buffer_state/" + k: v for k, v in sa.items()}, **{"lag_1/buffer_state/" + k: v for k, v in sb.items()}}

    def step2(S, cfg, g, xs):
        a, b = split(g)
        a2, b2 = push(S, cfg, a, xs[0]), push(S, cfg, b, xs[1])
        o = {"0/u": SArr(xs[0].shape, "float32", lambda *i: a2["W"](S["K"], *i)),
             "0/v/0": SArr(xs[0].shape, "float32", lambda *i: b2["W"](S["K"], *i))}
        return {**{"a." + k: v for k, v in a2.items()}, **{"b." + k: v for k, v in b2.items()}}, o
    out.append(WinCase(prop, "haiku.tree_lag[nested]",
                       haiku_pair(lambda c: lambda x, y: tree_lag(DIM["K"])({"u": x, "v": (y, None)})),
                       fns=["wax/modules/lag.py:tree_lag"], inputs=[Inp(shape), Inp(shape)], dims=("K", "n"),
                       ghost0=g2_0, ghost_sym=gs2, step=step2, state=st2))
    return [c for c in out if c is not None]


DIM = {}


class WinCase(StepCase):
    """StepCase whose python-level window length is a symbolic dimension (or an int on replay)."""

    def _dims(self):
        dm = super()._dims()
        DIM.clear()
        DIM.update(dm)
        return dm

    def check_history(self, S, cfgv, xs_seq):
        if DIM.get("__k") != (self.name, tuple(sorted(S.items()))):
            DIM.clear()
            DIM.update(S)
            DIM["__k"] = (self.name, tuple(sorted(S.items())))
            self._jit = None
        return super().check_history(S, cfgv, xs_seq)

    def search(self, seeds, budget):
        self._fixed = None
        return super().search(seeds, budget)

    def run_history(self, rng, seeds, steps, log=None):
        # re-use one set of sizes for several histories (each set of sizes is a compilation)
        if getattr(self, "_fixed", None) is None or rng.random() < 0.15:
            self._fixed = {d: int(rng.integers(1, 5)) for d in self.dims}
        self.sizes = lambda r: self._fixed
        return super().run_history(rng, seeds, steps, log)


def pct_cases(prop, lib, rank):
    from wax.modules.pct_change import PctChange as HP
    from wax.flax.modules.pct_change import PctChange as FP
    out = []
    shape = RANKS[rank]
    for method in ("pad", "ffill", "none"):
        for fz in (True, False):
            if rank != 1 and (method != "pad" or not fz):
                continue
            # ghost: the two last (filled) values, last valid value, counters of the buffer
            fillm = method in ("pad", "ffill")
            g0, gs, push, ordered, length, state = win_spec(lib, shape, lambda S: 2)

            def ghost0(S, cfg, g0=g0):
                return {**g0(S, cfg), "v": const(shp(S, shape), T.NAN)}

            def ghost_sym(S, cfg, gs=gs):
                g = gs(S, cfg)
                # last valid value is the most recent filled value
                return {**g, "v": SArr(shp(S, shape), "float32", lambda *i: g["W"](0, *i))}

            def step(S, cfg, g, xs, push=push, fillm=fillm, fz=fz):
                x = xs[0]
                v = SArr(x.shape, "float32", lambda *i: ite(x(*i).nan, g["v"](*i), x(*i))) if fillm else x
                g2 = {**push(S, cfg, g, v), "v": v}

                def f(*i):
                    prev = g["W"](0, *i)  # previous (filled) observation
                    r = T.fdiv(x(*i), prev) - fv(1)
                    if fz:
                        r = ite(And(x(*i).nan, Not(prev.nan)), fv(0), r)
                    return r
                return g2, SArr(x.shape, "float32", f)

            def state2(S, g, cfg, state=state, fillm=fillm):
                s = dict(state(S, g, cfg))
                if fillm:
                    s["valid_value"] = g["v"]
                return s
            mod = (HP if lib == "haiku" else FP)
            out.append(WinCase(prop, f"{lib}.PctChange[fill_method={method},fillna_zero={fz},rank{rank}]",
                               (haiku_pair if lib == "haiku" else flax_pair)(
                                   lambda c, mod=mod, method=method, fz=fz: mod(fill_method=method, fillna_zero=fz)),
                               fns=[(HK if lib == "haiku" else FX) + "pct_change.py:PctChange.__call__"],
                               inputs=[Inp(shape)], dims=dims_of(shape), init_is_step=lib == "flax",
                               ghost0=ghost0, ghost_sym=ghost_sym, step=step, state=state2))
    return out
