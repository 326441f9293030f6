"""EWMA: exponentially weighted mean (Haiku and Flax)."""
from ..lib import *


def spec_parts(adjust, ignore_na, min_periods, initial, use_alpha, shape, return_info=False, pre="g"):
    """ghost state
        seen : an observation (or an initial value) is in the average
        N, D : sum of w_i x_i and of w_i over the observations so far (adjust=True), resp. the
               value y and its relative weight (adjust=False / 'linear')
        k    : number of observations
    """
    def com_of(cfg):
        if use_alpha:
            return T.fdiv(fv(1), cfg["alpha"]) - fv(1)
        return cfg["com"]

    def ghost0(S, cfg):
        sh = shp(S, shape)
        seen = initial is not None
        i0 = cfg["initial"] if seen else fv(0)
        return dict(seen=const(sh, seen, "bool"), N=const(sh, i0), D=const(sh, 1), k=const(sh, 0, "int32"))

    def ghost_sym(S, cfg):
        sh = shp(S, shape)
        m, D = greal(pre + ".m", sh), greal(pre + ".D", sh, (lambda v: v >= 0) if adjust == "linear" else (lambda v: v > 0))
        return dict(seen=gbool(pre + ".seen", sh), N=lane(sh, lambda a, b: a * b, m, D) if adjust is True else m,
                    D=D, k=gint(pre + ".k", sh, lambda v: v >= 0), m=m)

    def mean_of(g):
        """current average, given ghost"""
        if "m" in g:
            return g["m"]
        if adjust is True:
            return lane(g["N"].shape, lambda n, d: T.fdiv(n, d), g["N"], g["D"])
        return g["N"]

    def step(S, cfg, g, xs):
        (x,) = xs
        sh = shp(S, shape)
        com = com_of(cfg)
        a = T.fdiv(fv(1), fv(1) + com)  # alpha
        dec = fv(1) - a

        def ob(i):
            return isobs(x(*i))

        X = lambda i: FV(val=x(*i).val)
        mean = mean_of(g)

        def newD_N(*i):
            o, seen, N, D = ob(i), g["seen"](*i), g["N"](*i), g["D"](*i)
            keep = And(ignore_na, Not(o))
            if adjust is True:
                # weights of past observations decay by 1-alpha at every (counted) step
                D1, N1 = ite(keep, D, dec * D), ite(keep, N, dec * N)
                D1, N1 = ite(seen, D1, fv(0)), ite(seen, N1, fv(0))
                return ite(o, D1 + fv(1), D1), ite(o, N1 + X(i), N1), D1
            if adjust is False:
                # y' = (w y + alpha x)/(w + alpha), w the decayed weight of y; after an observation w=1
                w = ite(keep, D, dec * D)
                w = ite(seen, w, fv(0))
                y = ite(o, T.fdiv(w * ite(seen, N, fv(0)) + a * X(i), w + a), N)
                return ite(o, fv(1), w), y, T.fdiv(w, a)
            # linear: c is the effective centre of mass: min(c, com), +1 per observation, and a
            # missing value shrinks it linearly (unless missing values are ignored)
            c = T.fmin(D, com)
            shrink = ite(T._zero(D), fv(0), T.fmax(fv(0), T.fdiv(D - fv(1), D)))
            c = ite(o, c, c if ignore_na else c * shrink)
            c = ite(seen, c, fv(0))
            y = ite(o, T.fdiv(c * ite(seen, N, fv(0)) + X(i), c + fv(1)), N)
            return ite(o, c + fv(1), c), y, c

        D2 = SArr(sh, "float32", lambda *i: newD_N(*i)[0])
        N2 = SArr(sh, "float32", lambda *i: newD_N(*i)[1])
        seen2 = SArr(sh, "bool", lambda *i: Or(g["seen"](*i), ob(i)))
        k2 = SArr(sh, "int32", lambda *i: ite(ob(i), T.add(g["k"](*i), 1), g["k"](*i)))
        g2 = dict(seen=seen2, N=N2, D=D2, k=k2)
        if adjust is not True:
            m2 = N2
        else:
            # an average is unchanged by a missing value
            m2 = SArr(sh, "float32", lambda *i: ite(ob(i), T.fdiv(N2(*i), D2(*i)), mean(*i)))
        out = SArr(sh, "float32", lambda *i: ite(And(seen2(*i), T.le(min_periods, k2(*i))), m2(*i), T.NAN))
        if return_info:
            com_eff = Leaf(SArr(sh, "float32", lambda *i: newD_N(*i)[2]))
            return g2, {"0": out, "1/com_eff": com_eff, "1/nobs": k2}
        return g2, out

    def params(S, cfg):
        return {"logcom": SArr((), "float32", lambda: T.flog(com_of(cfg)))}

    def state(S, g, cfg):
        sh = shp(S, shape)
        mean = mean_of(g)
        return {
            "mean": SArr(sh, "float32", lambda *i: ite(g["seen"](*i), mean(*i), T.NAN)),
            "old_wt": Leaf(g["D"], lambda *i: g["seen"](*i)),
            "nobs": g["k"],
        }

    def ghost_inv(S, g, cfg):
        sh = shp(S, shape)
        lo = (lambda d: T.le(0, d.val)) if adjust == "linear" else (lambda d: T.lt(0, d.val))
        return {"weight": (sh, lambda *i: Implies(g["seen"](*i), And(Not(g["D"](*i).special), lo(g["D"](*i))))),
                "mean": (sh, lambda *i: Implies(g["seen"](*i), Not(g["N"](*i).special))),
                "count": (sh, lambda *i: T.le(0, g["k"](*i)))}

    return dict(ghost0=ghost0, ghost_sym=ghost_sym, step=step, params=params, state=state, ghost_inv=ghost_inv)


def ewma_cases(prop, libname, tier="quick"):
    if libname == "haiku":
        from wax.modules import EWMA
        pairf = haiku_pair
        fn = "wax/modules/ewma.py:EWMA.__call__"
    else:
        from wax.flax.modules import EWMA
        pairf = flax_pair
        fn = "wax/flax/modules/ewma.py:EWMA.__call__"
    cases = []
    grid = []
    for adjust in (True, False, "linear"):
        for ignore_na in (False, True):
            for mp in (0, 3):
                for initial in (None, "v"):
                    for ua in (False, True):
                        for info in (False, True):
                            grid.append((adjust, ignore_na, mp, initial, ua, info, 1))
    for (adjust, ignore_na, mp, initial, ua, info, rank) in grid:
        n = (mp > 0) + (initial is not None) + ua + info
        if n > 1 and not (mp and info and initial and ua) and tier == "quick":
            continue
        ranks = (0, 1, 2) if n == 0 else (1,)
        for r in ranks:
            shape = RANKS[r]
            cfg = {}
            if ua:
                cfg["alpha"] = Cfg(pre=lambda v: And(T.lt(0, v.val), T.lt(v.val, 1)), values=(0.5, 0.1, 0.75, 0.25))
            else:
                cfg["com"] = Cfg(pre=lambda v: T.lt(0, v.val), values=(10.0, 1.0, 0.5, 3.0))
            if initial:
                cfg["initial"] = Cfg(values=(0.0, 1.0, -2.0))

            def make(c, adjust=adjust, ignore_na=ignore_na, mp=mp, initial=initial, ua=ua, info=info):
                kw = dict(adjust=adjust, ignore_na=ignore_na, min_periods=mp, return_info=info)
                kw.update(alpha=c["alpha"]) if ua else kw.update(com=c["com"])
                if initial:
                    kw["initial_value"] = c["initial"]
                return EWMA(**kw)
            nm = f"{libname}.EWMA[adjust={adjust},ignore_na={ignore_na},min_periods={mp}" + \
                (",initial_value" if initial else "") + (",alpha" if ua else ",com") + (",return_info" if info else "") + f",rank{r}]"
            cases.append(StepCase(prop, nm, pairf(make), fns=[fn], inputs=[Inp(shape)], cfg=cfg,
                                  dims=dims_of(shape), init_is_step=libname == "flax", T_max=20,
                                  **spec_parts(adjust, ignore_na, mp, initial, ua, shape, info)))
    return cases
