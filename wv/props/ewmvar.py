"""EWMVar, EWMCov (Haiku and Flax)."""
from ..lib import *
from .ewma import spec_parts

POS = lambda v: And(T.lt(0, v.val))
UNIT = lambda v: And(T.lt(0, v.val), T.lt(v.val, 1))
COM = lambda: {"com": Cfg(pre=POS, values=(10.0, 1.0, 0.5, 3.0))}
ALPHA = lambda: {"alpha": Cfg(pre=UNIT, values=(0.5, 0.1, 0.75, 0.25))}


def com_of(cfg):
    return T.fdiv(fv(1), cfg["alpha"]) - fv(1) if "alpha" in cfg else cfg["com"]


def var_parts(adjust, shape):
    """ghost: k observations so far, D the sum of their weights, N = sum w x, Q = sum w x^2.
    variance = Q/D - (N/D)^2 ; weights decay by 1-alpha per observation (missing values are skipped)."""

    def alpha_of(cfg):
        return T.fdiv(fv(1), fv(1) + com_of(cfg))

    def ghost0(S, cfg):
        sh = shp(S, shape)
        return dict(called=const((), False, "bool"), k=const(sh, 0, "int32"), D=const(sh, 0), N=const(sh, 0), Q=const(sh, 0))

    def ghost_sym(S, cfg):
        sh = shp(S, shape)
        a = alpha_of(cfg)
        called0 = gbool("g.called", ())()
        called = SArr((), "bool", lambda: called0)
        k = lane(sh, lambda kk: ite(called0, kk, 0), gint("g.k", sh, lambda v: v >= 0), dtype="int32")
        m, v = greal("g.m", sh), greal("g.v", sh)
        if adjust is True:
            # closed form of the sum of weights: (1-(1-a)^k)/a
            D = SArr(sh, "float32", lambda *i: T.fdiv(fv(1) - T.fpow(fv(1) - a, FV(val=T.toreal(k(*i)))), a))
        else:
            D = lane(sh, lambda kk: ite(T.lt(0, kk), fv(1), fv(0)), k)
        return dict(called=called, k=k, D=D, N=lane(sh, lambda d, mm: d * mm, D, m), m=m, v=v,
                    Q=lane(sh, lambda d, mm, vv: d * (vv + mm * mm), D, m, v))

    def step(S, cfg, g, xs):
        (x,) = xs
        sh = shp(S, shape)
        a = alpha_of(cfg)
        dec = fv(1) - a

        def new(i, what):
            o, k = isobs(x(*i)), g["k"](*i)
            X = FV(val=x(*i).val)
            k2 = T.add(k, 1)
            first = T.eq(k, 0)
            if adjust is True:
                keep, w = dec, fv(1)
            elif adjust is False:
                keep, w = dec, ite(first, fv(1), a)
            else:
                # effective window min(number of observations, 1/alpha)
                n = T.fmin(FV(val=T.toreal(k2)), T.fdiv(fv(1), a))
                w = T.fdiv(fv(1), n)
                keep = fv(1) - w
            keep = ite(first, fv(0), keep)
            d = {"D": lambda: keep * g["D"](*i) + w, "N": lambda: keep * g["N"](*i) + w * X,
                 "Q": lambda: keep * g["Q"](*i) + w * X * X}[what]()
            return ite(o, d, g[what](*i))
        f = lambda w: SArr(sh, "float32", lambda *i: new(i, w))
        k2 = SArr(sh, "int32", lambda *i: ite(isobs(x(*i)), T.add(g["k"](*i), 1), g["k"](*i)))
        g2 = dict(called=const((), True, "bool"), k=k2, D=f("D"), N=f("N"), Q=f("Q"))
        return g2, SArr(sh, "float32", lambda *i: var_of(g2, i))

    def mean_of(g, i):
        if "m" in g:
            return g["m"](*i)
        return T.fdiv(g["N"](*i), g["D"](*i))

    def var_of(g, i):
        """zero before the first observation"""
        if "v" in g:
            v = g["v"](*i)
        else:
            m = T.fdiv(g["N"](*i), g["D"](*i))
            v = T.fdiv(g["Q"](*i), g["D"](*i)) - m * m
        return ite(T.eq(g["k"](*i), 0), fv(0), v)

    def state(S, g, cfg):
        sh = shp(S, shape)
        return {"mean": SArr(sh, "float32", lambda *i: ite(T.eq(g["k"](*i), 0), T.NAN, mean_of(g, i))),
                # not a number until the first call
                "variance": SArr(sh, "float32", lambda *i: ite(g["called"](), var_of(g, i), T.NAN)),
                "nobs": SArr(sh, "float32", lambda *i: FV(val=T.toreal(g["k"](*i))))}

    def params(S, cfg):
        return {"logcom": SArr((), "float32", lambda: T.flog(com_of(cfg)))}

    def inv(S, g, cfg):
        sh = shp(S, shape)
        a = alpha_of(cfg)

        def w(*i):
            D, k = g["D"](*i), g["k"](*i)
            if adjust is True:
                return T.eq((D * a).val, (fv(1) - T.fpow(fv(1) - a, FV(val=T.toreal(k)))).val)
            return T.eq(D.val, ite(T.lt(0, k), fv(1), fv(0)).val)
        return {"weights": (sh, w), "count": (sh, lambda *i: T.le(0, g["k"](*i)))}

    return dict(ghost0=ghost0, ghost_sym=ghost_sym, step=step, params=params, state=state, ghost_inv=inv)


def var_cases(prop, lib, tier="quick"):
    if lib == "haiku":
        from wax.modules import EWMVar
        pairf, fn = haiku_pair, "wax/modules/ewmvar.py:EWMVar.__call__"
    else:
        from wax.flax.modules import EWMVar
        pairf, fn = flax_pair, "wax/flax/modules/ewmvar.py:EWMVar.__call__"
    out = []
    for adjust in (True, False, "linear"):
        for ua in (False, True):
            for r in ((0, 1, 2) if not ua else (1,)):
                shape = RANKS[r]

                def make(c, adjust=adjust, ua=ua):
                    return EWMVar(adjust=adjust, **({"alpha": c["alpha"]} if ua else {"com": c["com"]}))
                out.append(StepCase(prop, f"{lib}.EWMVar[adjust={adjust},{'alpha' if ua else 'com'},rank{r}]", pairf(make),
                                    fns=[fn], inputs=[Inp(shape)], cfg=ALPHA() if ua else COM(), dims=dims_of(shape),
                                    init_is_step=lib == "flax", T_max=15, **var_parts(adjust, shape)))
    return out


def cov_parts(adjust, ignore_na, mp, initial, ua, centered):
    """products, and each factor, are averaged by the moving average's rules (props/ewma.py)"""
    SH = {"mean_xy": ("n", "m"), "mean_x": ("n",), "mean_y": ("m",)}
    names = ["mean_xy"] if centered else list(SH)
    parts = {n: spec_parts(adjust, ignore_na, mp, initial, ua, SH[n], pre="g." + n) for n in names}

    def pack(d):
        return {f"{n}/{k}": v for n, g in d.items() for k, v in g.items()}

    def unpack(g, n):
        return {k.split("/")[1]: v for k, v in g.items() if k.startswith(n + "/")}

    def ghost0(S, cfg):
        return pack({n: p["ghost0"](S, cfg) for n, p in parts.items()})

    def ghost_sym(S, cfg):
        return pack({n: p["ghost_sym"](S, cfg) for n, p in parts.items()})

    def step(S, cfg, g, xs):
        x, y = xs
        sh = shp(S, ("n", "m"))
        xy = SArr(sh, "float32", lambda i, j: x(i) * y(j))
        ins = {"mean_xy": xy, "mean_x": x, "mean_y": y}
        g2, o = {}, {}
        for n, p in parts.items():
            g2[n], o[n] = p["step"](S, cfg, unpack(g, n), [ins[n]])
        out = o["mean_xy"] if centered else SArr(sh, "float32", lambda i, j: o["mean_xy"](i, j) - o["mean_x"](i) * o["mean_y"](j))
        return pack(g2), out

    def params(S, cfg):
        return pack({n: p["params"](S, cfg) for n, p in parts.items()})

    def state(S, g, cfg):
        return pack({n: p["state"](S, unpack(g, n), cfg) for n, p in parts.items()})

    def inv(S, g, cfg):
        return pack({n: p["ghost_inv"](S, unpack(g, n), cfg) for n, p in parts.items()})

    return dict(ghost0=ghost0, ghost_sym=ghost_sym, step=step, params=params, state=state, ghost_inv=inv)


def cov_cases(prop, lib, tier="quick"):
    if lib == "haiku":
        from wax.modules import EWMCov
        pairf, fn = haiku_pair, "wax/modules/ewmcov.py:EWMCov.__call__"
    else:
        from wax.flax.modules import EWMCov
        pairf, fn = flax_pair, "wax/flax/modules/ewmcov.py:EWMCov.__call__"
    out = []
    for adjust in (True, False, "linear"):
        for ignore_na in (False, True):
            for mp, initial, ua, centered, tup in ((0, None, False, False, False), (3, None, True, False, False),
                                                   (0, "v", False, False, False), (0, None, False, True, False),
                                                   (3, "v", True, True, False), (0, None, False, False, True)):
                if tup and (adjust is not True or ignore_na):
                    continue
                cfg = ALPHA() if ua else COM()
                if initial:
                    cfg["initial"] = Cfg(values=(0.0, 1.0, -2.0))

                def make(c, adjust=adjust, ignore_na=ignore_na, mp=mp, initial=initial, ua=ua, centered=centered):
                    kw = dict(adjust=adjust, ignore_na=ignore_na, min_periods=mp, assume_centered=centered)
                    kw.update({"alpha": c["alpha"]} if ua else {"com": c["com"]})
                    if initial:
                        kw["initial_value"] = c["initial"]
                    return EWMCov(**kw)
                pr = pairf(make)
                if tup:
                    i0, a0 = pr
                    pr = (lambda k, c, x, y, i0=i0: i0(k, c, (x, y)), lambda p, s, k, c, x, y, a0=a0: a0(p, s, k, c, (x, y)))
                nm = f"{lib}.EWMCov[adjust={adjust},ignore_na={ignore_na},min_periods={mp}" + (",initial_value" if initial else "") + \
                    (",alpha" if ua else ",com") + (",assume_centered" if centered else "") + (",tuple" if tup else "") + "]"
                out.append(StepCase(prop, nm, pr, fns=[fn, fn.replace("ewmcov.py:EWMCov", "ewma.py:EWMA")],
                                    inputs=[Inp(("n",)), Inp(("m",))], cfg=cfg, dims=("n", "m"), init_is_step=lib == "flax",
                                    **cov_parts(adjust, ignore_na, mp, initial, ua, centered)))
    return out


def cases(prop, tier="quick"):
    return [c for lib in ("haiku", "flax") for f in (var_cases, cov_cases) for c in f(prop, lib, tier)]
