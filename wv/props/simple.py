"""Counter, Ffill, FillNanInf, HasChanged, OHLC (Haiku and Flax)."""
from ..lib import *

HK = "wax/modules/"
FX = "wax/flax/modules/"


def counter_cases(prop, tier="quick"):
    from wax.modules import Counter as HC
    from wax.flax.modules.counter import Counter as FC
    out = []
    for lib in ("haiku", "flax"):
        out.append(StepCase(
            prop, f"{lib}.Counter", haiku_pair(lambda c: lambda: HC()()) if lib == "haiku" else flax_pair(lambda c: FC()),
            fns=[(HK if lib == "haiku" else FX) + "counter.py:Counter.__call__"], inputs=[], init_is_step=lib == "flax",
            ghost0=lambda S, c: dict(k=const((), 0, "uint32")),
            ghost_sym=lambda S, c: dict(k=sym("g.k", (), "uint32")),
            step=lambda S, c, g, xs: (lambda k: (dict(k=k), k))(const((), T.add(g["k"](), 1), "uint32")),
            state=lambda S, g, c: {"count": g["k"]}))
    return out


def ffill_cases(prop, tier="quick"):
    from wax.modules.ffill import Ffill as HF
    from wax.flax.modules.ffill import Ffill as FF
    out = []
    for lib in ("haiku", "flax"):
        for rank in (0, 1, 2):
            shape = RANKS[rank]

            def step(S, c, g, xs):
                v = SArr(xs[0].shape, "float32", lambda *i: ite(xs[0](*i).nan, g["v"](*i), xs[0](*i)))
                return dict(v=v), v
            out.append(StepCase(
                prop, f"{lib}.Ffill[rank{rank}]",
                haiku_pair(lambda c: lambda x: HF()(x)) if lib == "haiku" else flax_pair(lambda c: FF()),
                fns=[(HK if lib == "haiku" else FX) + "ffill.py:Ffill.__call__"], inputs=[Inp(shape, inf=True)], dims=dims_of(shape),
                init_is_step=lib == "flax",
                ghost0=lambda S, c, shape=shape: dict(v=const(shp(S, shape), T.NAN)),
                ghost_sym=lambda S, c, shape=shape: dict(v=gfloat("g.v", shp(S, shape), inf=True)),
                step=step, state=lambda S, g, c: {"valid_value": g["v"]}))
    return out


def fill_cases(prop, tier="quick"):
    from wax.modules.fill_nan_inf import FillNanInf as HF
    from wax.flax.modules.fill_nan_inf import FillNanInf as FF
    out = []
    for lib in ("haiku", "flax"):
        for rank in (0, 1, 2):
            for filled in (False, True):
                shape = RANKS[rank]

                def make(c, lib=lib):
                    kw = {"fill_value": c["fill"]} if "fill" in c else {}
                    if lib == "haiku":
                        return lambda x, y: HF(**kw)({"a": x, "b": [y]})
                    from flax import linen as nn

                    class W(nn.Module):
                        @nn.compact
                        def __call__(self, x, y):
                            return FF(**kw)({"a": x, "b": [y]})
                    return W()

                def step(S, c, g, xs):
                    f = c.get("fill", fv(0))
                    m = lambda a: SArr(a.shape, "float32", lambda *i: ite(a(*i).special, f, a(*i)))
                    return {}, {"a": m(xs[0]), "b/0": m(xs[1])}
                out.append(StepCase(
                    prop, f"{lib}.FillNanInf[{'fill,' if filled else ''}rank{rank}]",
                    haiku_pair(make) if lib == "haiku" else flax_pair(make),
                    fns=[(HK if lib == "haiku" else FX) + "fill_nan_inf.py:FillNanInf.__call__"],
                    inputs=[Inp(shape, inf=True), Inp((), inf=True)], dims=dims_of(shape),
                    cfg={"fill": Cfg(values=(0.0, 1.0, -3.0))} if filled else {},
                    ghost0=lambda S, c: {}, ghost_sym=lambda S, c: {}, step=step))
    return out


def has_changed_cases(prop, tier="quick"):
    from wax.modules.has_changed import HasChanged as HH
    from wax.flax.modules.has_changed import HasChanged as FH
    out = []
    for lib in ("haiku", "flax"):
        for dtype in ("float32", "int32"):
            for rank in (0, 1, 2):
                shape = RANKS[rank]
                k = kind_of(dtype)
                missing = T.NAN if k == "f" else -99999

                def step(S, c, g, xs, k=k, shape=shape):
                    x = xs[0]
                    env = J.Env()
                    ne = (lambda a, b: Not(T.feq(a, b))) if k == "f" else (lambda a, b: Not(T.eq(a, b)))
                    d = SArr(x.shape, "bool", lambda *i: ne(x(*i), g["v"](*i)))
                    return dict(v=x), J.reduce_axes(env, "or", d, range(len(shape)), "bool")

                out.append(StepCase(
                    prop, f"{lib}.HasChanged[{dtype},rank{rank}]",
                    haiku_pair(lambda c: lambda x: HH()(x)) if lib == "haiku" else flax_pair(lambda c: FH()),
                    fns=[(HK if lib == "haiku" else FX) + "has_changed.py:HasChanged.__call__"],
                    inputs=[Inp(shape, dtype, values=None if k == "f" else (0, 1, 2, -5))], dims=dims_of(shape),
                    init_is_step=lib == "flax",
                    ghost0=lambda S, c, shape=shape, dtype=dtype, missing=missing: dict(v=const(shp(S, shape), missing, dtype)),
                    ghost_sym=lambda S, c, shape=shape, dtype=dtype: dict(v=sym("g.v", shp(S, shape), dtype)),
                    step=step, state=lambda S, g, c: {"prev_value": g["v"]}))
    return out


def ohlc_cases(prop, tier="quick"):
    from wax.modules.ohlc import OHLC as HO
    from wax.flax.modules.ohlc import OHLC as FO
    out = []
    for lib in ("haiku", "flax"):
        for rank in (0, 1, 2):
            shape = RANKS[rank]
            # ghost: has (an observation since the last reset), open, high, low, close

            def ghost0(S, c, shape=shape):
                sh = shp(S, shape)
                return dict(has=const(sh, False, "bool"), **{q: const(sh, 0) for q in ("o", "h", "l", "c")})

            def ghost_sym(S, c, shape=shape):
                sh = shp(S, shape)
                a = {q: greal("g." + q, sh) for q in ("o", "h", "l")}
                c0 = greal("g.c", sh)

                def cl(*i):  # well-formedness of the ghost: low <= close <= high
                    v = c0(*i).val
                    T.CTX.fact(And(T.le(a["l"](*i).val, v), T.le(v, a["h"](*i).val)))
                    return FV(val=v)
                return dict(has=gbool("g.has", sh), c=SArr(sh, "float32", cl), **a)

            def step(S, c, g, xs):
                x, r = xs
                sh = x.shape
                ob = lambda i: isobs(x(*i))
                prev = lambda i: And(g["has"](*i), Not(r()))

                def mk(upd, q):
                    def f(*i):
                        v = FV(val=x(*i).val)
                        new = ite(prev(i), upd(g[q](*i), v), v)
                        return ite(ob(i), new, g[q](*i))
                    return SArr(sh, "float32", f)
                g2 = dict(has=SArr(sh, "bool", lambda *i: Or(prev(i), ob(i))),
                          o=mk(lambda old, v: old, "o"),
                          h=mk(lambda old, v: ite(T.flt(old, v), v, old), "h"),
                          l=mk(lambda old, v: ite(T.flt(v, old), v, old), "l"),
                          c=mk(lambda old, v: v, "c"))
                vis = lambda q: SArr(sh, "float32", lambda *i: ite(g2["has"](*i), g2[q](*i), T.NAN))
                return g2, {"OPEN": vis("o"), "HIGH": vis("h"), "LOW": vis("l"), "CLOSE": vis("c")}

            def state(S, g, c, lib=lib, shape=shape):
                sh = shp(S, shape)
                vis = lambda q: SArr(sh, "float32", lambda *i: ite(g["has"](*i), g[q](*i), T.NAN))
                n = ("BIN_OPEN", "BIN_HIGH", "BIN_LOW", "BIN_CLOSE") if lib == "haiku" else ("open", "high", "low", "close")
                return {a: vis(q) for a, q in zip(n, "ohlc")}

            out.append(StepCase(
                prop, f"{lib}.OHLC[rank{rank}]",
                haiku_pair(lambda c: lambda x, r: HO()(x, reset_on=r)) if lib == "haiku" else flax_pair(lambda c: FO()),
                fns=[(HK if lib == "haiku" else FX) + "ohlc.py:OHLC.__call__"],
                inputs=[Inp(shape, nan=lib == "haiku"), Inp((), "bool")], dims=dims_of(shape), init_is_step=lib == "flax",
                ghost0=ghost0, ghost_sym=ghost_sym, step=step, state=state,
                ghost_inv=lambda S, g, c, shape=shape: {"low<=close<=high": (shp(S, shape), lambda *i: And(
                    T.fle(g["l"](*i), g["c"](*i)), T.fle(g["c"](*i), g["h"](*i))))}))
    return out


# ------------------------------------------------------------------ masks
def mask_cases(prop, tier="quick"):
    import numpy as np
    from wax.modules.apply_mask import ApplyMask as HA
    from wax.modules.mask_mean import MaskMean as HM
    from wax.modules.mask_std import MaskStd as HS
    from wax.modules.mask_normalize import MaskNormalize as HN
    from wax.flax.modules.apply_mask import ApplyMask as FA
    from wax.flax.modules.mask_mean import MaskMean as FM
    from wax.flax.modules.mask_std import MaskStd as FS
    from wax.flax.modules.mask_normalize import MaskNormalize as FN
    out = []

    def pair(lib, mod, **kw):
        def make(c):
            kk = dict(kw)
            if "mv" in c:
                kk["mask_value"] = c["mv"]
            if lib == "haiku":
                return lambda m, x: mod(**kk)(m, {"u": x, "v": (x,)})
            from flax import linen as nn

            class W(nn.Module):
                @nn.compact
                def __call__(self, m, x):
                    return mod(**kk)(m, {"u": x, "v": (x,)})
            return W()
        return haiku_pair(make) if lib == "haiku" else flax_pair(make)

    def twice(a):
        return {"u": a, "v/0": a}

    def case(lib, name, fn, p, inputs, dims, step, cfg=None):
        out.append(MaskCase(prop, f"{lib}.{name}", p, fns=[(HK if lib == "haiku" else FX) + fn], inputs=inputs, dims=dims,
                            cfg=cfg, ghost0=lambda S, c: {}, ghost_sym=lambda S, c: {}, step=step, rtol=5e-3, atol=5e-3))

    for lib in ("haiku", "flax"):
        A, M, Sd, N = (HA, HM, HS, HN) if lib == "haiku" else (FA, FM, FS, FN)
        # ---- ApplyMask
        for rank, axis in ((1, None), (2, None), (2, 0), (2, 1)):
            for filled in (False, True):
                shape = RANKS[rank]
                msh = shape if axis is None else (shape[axis],)

                def step(S, c, g, xs, axis=axis):
                    m, x = xs
                    d = c.get("mv", fv(0))
                    sel = (lambda *i: m(*i)) if axis is None else (lambda *i: m(i[axis]))
                    return {}, twice(SArr(x.shape, "float32", lambda *i: ite(sel(*i), x(*i), d)))
                case(lib, f"ApplyMask[axis={axis},{'mask_value,' if filled else ''}rank{rank}]", "apply_mask.py:ApplyMask.__call__",
                     pair(lib, A, axis=axis), [Inp(msh, "bool"), Inp(shape, inf=True)], dims_of(shape), step,
                     {"mv": Cfg(values=(0.0, 1.0, -3.0))} if filled else {})

        def parts(m, x, axis):
            """selected sum / count of an elementwise function, as functions of the kept index"""
            env = J.Env()
            nd = x.ndim
            axes = list(range(nd)) if axis is None else [axis]

            def red(f, kind):
                arr = SArr(x.shape, "float32" if kind == "f" else "int32", f)
                return J.reduce_axes(env, "sum", arr, axes, arr.dtype)
            keep = lambda i: () if axis is None else tuple(v for d, v in enumerate(i) if d != axis)
            cnt = red(lambda *i: ite(m(*i), 1, 0), "i")
            return red, keep, cnt

        def sel0(m, x):
            return lambda *i: ite(m(*i), x(*i), fv(0))

        # only the selected entries are required to be finite; the others may be anything
        for rank, axis in ((1, None), (1, 0), (2, None), (2, 0), (2, 1)):
            shape = RANKS[rank]
            ins = [Inp(shape, "bool"), Inp(shape, inf=True)]

            def fin(S, c, xs):
                return None

            def mean_step(S, c, g, xs, axis=axis):
                m, x = xs
                red, keep, cnt = parts(m, x, axis)
                tot = red(lambda *i: ite(m(*i), x(*i), fv(0)), "f")
                return {}, twice(SArr(tot.shape, "float32", lambda *i: T.fdiv(tot(*i), fv(cnt(*i)))))
            case(lib, f"MaskMean[axis={axis},rank{rank}]", "mask_mean.py:MaskMean.__call__", pair(lib, M, axis=axis),
                 ins, dims_of(shape), mean_step)
            for centered in (False, True):
                eps = np.finfo(np.float32).resolution ** 2 if lib == "haiku" else np.finfo(np.float32).eps

                def std_of(m, x, axis=axis, centered=centered, eps=eps, lib=lib):
                    red, keep, cnt = parts(m, x, axis)
                    n = lambda i: fv(cnt(*i))
                    if centered:
                        dev = lambda *i: x(*i)
                    else:
                        tot = red(lambda *i: ite(m(*i), x(*i), fv(0)), "f")
                        dev = lambda *i: x(*i) - T.fdiv(tot(*keep(i)), n(keep(i)))
                    sq = red(lambda *i: (lambda d: d * d)(ite(m(*i), dev(*i), fv(0))), "f")

                    def f(*i):
                        var = T.fdiv(sq(*i), n(i))
                        # eps: the libraries' numerical stabiliser, below 1.2e-7
                        r = ite(T.flt(fv(0), var), T.fsqrt(var + FV(val=T.rational_of_float(np.float32(eps)))), fv(0))
                        # no selected point: Flax reports "undefined", Haiku 0
                        return ite(T.eq(cnt(*i), 0), T.NAN if lib == "flax" else fv(0), r)
                    return SArr(sq.shape, "float32", f), keep

                def std_step(S, c, g, xs, std_of=std_of):
                    return {}, twice(std_of(*xs)[0])
                case(lib, f"MaskStd[axis={axis},assume_centered={centered},rank{rank}]", "mask_std.py:MaskStd.__call__",
                     pair(lib, Sd, axis=axis, assume_centered=centered), ins, dims_of(shape), std_step)

                def norm_step(S, c, g, xs, std_of=std_of):
                    m, x = xs
                    sd, keep = std_of(m, x)

                    def f(*i):
                        r = T.fdiv(x(*i), sd(*keep(i)))
                        return ite(r.special, fv(0), r)
                    return {}, twice(SArr(x.shape, "float32", f))
                case(lib, f"MaskNormalize[axis={axis},assume_centered={centered},rank{rank}]",
                     "mask_normalize.py:MaskNormalize.__call__", pair(lib, N, axis=axis, assume_centered=centered),
                     ins, dims_of(shape), norm_step)
    return out


class MaskCase(StepCase):
    """Precondition: the entries selected by the mask are finite."""
    fix_selected = True

    def _tie(self, xs):
        if "ApplyMask" in self.name:
            return xs
        m, x = xs
        x2 = SArr(x.shape, x.dtype, lambda *i: ite(m(*i), FV(val=x(*i).val), x(*i)))
        return [m, x2]

    def make_inputs(self, xs):
        return self._tie(xs)

    def _fix(self, xs):
        if "ApplyMask" in self.name:
            return xs
        m, x = xs
        return [m, np.where(m & ~np.isfinite(x), np.float32(2.0), x).astype(np.float32)]

    def check_history(self, S, cfgv, xs_seq):
        return super().check_history(S, cfgv, [self._fix(x) for x in xs_seq])
