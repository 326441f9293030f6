"""ARMA filters and SNARIMAX forecasters (Haiku and Flax)."""
import jax
import jax.numpy as jnp

from ..lib import *
from .windows import WinCase, DIM, win_spec

FN = "wax/modules/"
FF = "wax/flax/modules/"


def hist(S, shape, n, name):
    """last n values, newest first"""
    return gfloat(name, (n,) + shp(S, shape))


def push(H, x):
    n = H.shape[0]
    return SArr(H.shape, H.dtype, lambda a, *i: ite(T.eq(a, 0), x(*i), H(T.sub(a, 1), *i)) if not T.isc(a) else (x(*i) if a == 0 else H(a - 1, *i)))


def oldest_first(H):
    n = H.shape[0]
    return SArr(H.shape, H.dtype, lambda a, *i: H(T.sub(T.sub(n, 1), a), *i))


def fill0(x):
    return lane(x.shape, lambda v: ite(v.special, FV(val=0), v), x)


def arma_cases(prop, lib, p, q, rank):
    """p, q: orders (ints), or "P", "Q": symbolic"""
    import wax.modules.arma as HM
    import wax.flax.modules.arma as FM
    HA = HM.ARMA
    symbolic_len(HM, FM)
    symb = p == "P"
    shape = RANKS[rank]
    pe, qe = (lambda S: S.get(p, p)), (lambda S: S.get(q, q))
    if lib == "haiku":
        pair = haiku_pair(lambda cfg: lambda eps, a, b: HA(a, b)(eps))
    else:
        FA, create_arma = FM.ARMA, FM.create_arma

        def init(key, cfg, eps, a, b):
            v = dict(create_arma(a, b).init(key, eps))
            return v.pop("params", {}), v

        def apply(params, state, key, cfg, eps, a, b):
            out, v = FA(alpha=a, beta=b).apply({"params": params, **state}, eps, mutable=True)
            v = dict(v)
            v.pop("params", None)
            return out, v
        pair = (init, apply)
    win = win_spec(lib, shape, lambda S: T.add(qe(S), 1))  # the last q+1 noise terms

    def ghost0(S, cfg):
        return dict(Y=const((pe(S),) + shp(S, shape), 0.0), **win[0](S, {"fill": FV(val=0)}))

    def ghost_sym(S, cfg):
        return dict(Y=sym("g.Y", (pe(S),) + shp(S, shape), "float32", nan=False), **win[1](S, cfg))

    def dot(a, H, off, *i):
        """sum_k a[k] * (value n-1-k+off steps back): the last coefficient applies to the most recent value"""
        n = a.shape[0]
        return J.reduce_box(T.CTX.env, "sum", [n], lambda k: T.fmul(a(k), H(T.add(T.sub(T.sub(n, 1), k), off), *i)), "f")

    def step(S, cfg, g, xs):
        eps, a, b = xs
        out = fill0(SArr(shp(S, eps.shape), "float32", lambda *i: dot(a, g["Y"], 0, *i) + dot(b, g["W"], 0, *i) + eps(*i)))
        return dict(Y=push(g["Y"], out), **win[2](S, cfg, g, eps)), out

    def state(S, g, cfg):
        st = win[5](S, g, cfg)
        if lib == "haiku":
            return {"arma/y_buffer": oldest_first(g["Y"]), "y_buffer/buffer_state/buffer": oldest_first(g["Y"]),
                    **{"eps_buffer/buffer_state/" + k: v for k, v in st.items()}}
        return {"y_history": oldest_first(g["Y"]), **st}
    return StepCase(prop, f"{lib}.ARMA[p={p},q={q},rank{rank}]", pair,
                    fns=[(FN if lib == "haiku" else FF) + "arma.py:ARMA.__call__", (FN if lib == "haiku" else FF) + "buffer.py:Buffer.__call__"],
                    inputs=[Inp(shape, inf=not symb), Inp((p,), nan=False), Inp((q,), nan=False)], dims=(("P", "Q") if symb else ()) + dims_of(shape),
                    init_is_step=lib == "flax", ghost0=ghost0, ghost_sym=ghost_sym, step=step, state=state,
                    bounded=None if symb else f"orders p={p}, q={q}", T_max=8)


def snarimax_haiku(prop, exog, yshape, orders=None):
    """The regressor is an adversary: it may return any value r (an input of the step); the features handed to it
    are part of the output."""
    from wax.modules.snarimax import SNARIMAX
    P_ = (lambda S: S["P"]) if orders is None else (lambda S: orders[0])
    Q_ = (lambda S: S["Q"]) if orders is None else (lambda S: orders[1])

    def make(cfg):
        def f(y, r, *X):
            cap = []

            def reg(v):
                cap.append(v)
                return r
            pp, qq = (DIM["P"], DIM["Q"]) if orders is None else orders
            pred, info = SNARIMAX(p=pp, q=qq, regressor=reg)(y, *X)
            assert len(cap) == 1, "the regressor must be called once"
            return {"pred": pred, "X": cap[0]}
        return f

    def ghost0(S, cfg):
        sh = shp(S, yshape)
        n = T.CTX.env
        return dict(Y=const((T.add(P_(S), 1),) + sh, T.NAN), E=const((T.add(Q_(S), 1),) + sh, T.NAN),
                    L=const((Q_(S),) + sh, 0.0), first=const((), 1, "int32"))

    def ghost_sym(S, cfg):
        sh = shp(S, yshape)
        E = gfloat("g.E", (T.add(Q_(S), 1),) + sh)
        return dict(Y=gfloat("g.Y", (T.add(P_(S), 1),) + sh), E=E, L=gfloat("g.L", (Q_(S),) + sh))

    def step(S, cfg, g, xs):
        y, r = xs[:2]
        Y = push(g["Y"], y)
        p, q = P_(S), Q_(S)
        E = push(g["E"], lane(shp(S, y.shape), lambda a, b: a - b, y, r))
        L = SArr((q,) + shp(S, yshape), "float32", lambda a, *i: E(T.sub(T.sub(q, 1), a), *i))
        # features: exogenous inputs, q last errors before this step (oldest first), p last observations (oldest first)
        w = 1 if yshape == () else yshape[0]
        m = S.get("M", 0) if exog else 0
        nE, nY = T.mul(q, w) if w != 1 else q, T.mul(p, w) if w != 1 else p
        N = T.add(T.add(m, nE), nY)

        def feat(j):
            a = T.sub(j, m)
            b = T.sub(a, nE)
            if w == 1:
                ev = lambda: g["L"](a)
                yv = lambda: Y(T.sub(T.sub(p, 1), b))
            else:
                def pick(f, k):
                    if T.isc(k):
                        return f(int(k) // w, int(k) % w)
                    out = f(0, 0)
                    top = (orders[1] if f is LE else orders[0]) * w
                    for c in range(1, top):
                        out = ite(T.eq(k, c), f(c // w, c % w), out)
                    return out
                LE = lambda t, i: g["L"](t, i)
                LY = lambda t, i: Y(T.sub(T.sub(p, 1), t), i)
                ev, yv = lambda: pick(LE, a), lambda: pick(LY, b)
            if T.isc(j) and T.isc(m) and T.isc(nE):
                v = xs[2](j) if j < m else (ev() if a < nE else yv())
            else:
                v = ite(T.lt(a, nE), ev(), yv()) if not (T.isc(nE) and nE == 0) else yv()
                if exog:
                    v = ite(T.lt(j, m), xs[2](j), v)
            return ite(v.special, FV(val=0), v)
        X = SArr((N,), "float32", feat)
        return dict(Y=Y, E=E, L=L), {"pred": r, "X": X}

    def state(S, g, cfg):
        return {"y_trues/buffer_state/buffer": oldest_first(g["Y"]), "err_lag/buffer_state/buffer": oldest_first(g["E"]), "errp": g["L"]}
    dims = (("P", "Q") if orders is None else ()) + (("M",) if exog else ())
    return WinCase(prop, f"haiku.SNARIMAX[{'exogenous,' if exog else ''}y{list(yshape)}{'' if orders is None else f',p={orders[0]},q={orders[1]}'}]",
                   haiku_pair(make), fns=[FN + "snarimax.py:SNARIMAX.__call__", FN + "buffer.py:Buffer.__call__"],
                   inputs=[Inp(yshape), Inp(yshape)] + ([Inp(("M",), inf=True)] if exog else []), dims=dims, ghost0=ghost0, ghost_sym=ghost_sym,
                   step=step, state=state, bounded=None if orders is None else f"orders p={orders[0]}, q={orders[1]}")


def snarimax_flax(prop, shape, with_y, orders=None):
    """The regressor is an adversary (returns an input r of the step); the features handed to it are part of the output:
    the last lags_x values of x, the last lags_y values of y - x (oldest first), the current x."""
    from wax.flax.modules.snarimax import create_snarimax
    w = 1 if shape == () else shape[0]

    def mod(cap, r, eager=False):
        def reg(v):
            cap.append(v)
            return jnp.reshape(r, (1, 1))
        lx, ly = orders if orders is not None else (DIM["P"], DIM["Q"] if with_y else 1)
        return create_snarimax(lags_x=lx, lags_y=ly, regressor=reg)

    def init(key, cfg, x, r, *y):
        v = dict(mod([], r).init(key, x, *y))
        return v.pop("params", {}), v

    def apply(params, state, key, cfg, x, r, *y):
        cap = []
        out, v = mod(cap, r).apply({"params": params, **state}, x, *y, mutable=True)
        assert len(cap) == 1, "the regressor must be called once"
        v = dict(v)
        v.pop("params", None)
        return {"pred": out, "X": cap[0]}, v
    Lx = (lambda S: S["P"]) if orders is None else (lambda S: orders[0])
    Ly = (lambda S: S["Q"]) if orders is None else (lambda S: orders[1])
    wx, wy = win_spec("flax", shape, Lx), win_spec("flax", shape, Ly)
    zero = {"fill": FV(val=0)}
    on_x = orders is None or orders[0] > 0
    on_y = with_y and (orders is None or orders[1] > 0)

    def both(k, f):
        d = {}
        if on_x:
            d.update({"x" + n: v for n, v in f(wx[k], "x").items()})
        if on_y:
            d.update({"y" + n: v for n, v in f(wy[k], "y").items()})
        return d
    sub = lambda g, c: {n[1:]: v for n, v in g.items() if n[0] == c}

    def ghost0(S, cfg):
        return both(0, lambda f, c: f(S, zero))

    def ghost_sym(S, cfg):
        return both(1, lambda f, c: {k: v for k, v in f(S, zero).items()})

    def step(S, cfg, g, xs):
        x, r = xs[:2]
        e = lane(x.shape, lambda a, b: a - b, xs[2], x) if with_y else None
        g2 = both(2, lambda f, c: f(S, zero, sub(g, c), x if c == "x" else e))
        blocks = []
        if on_x:
            blocks.append((Lx(S), wx[3](S, sub(g2, "x"))))
        if on_y:
            blocks.append((Ly(S), wy[3](S, sub(g2, "y"))))
        N = w
        for L, _ in blocks:
            N = T.add(N, T.mul(L, w))

        def flat(a, L, k):
            if w == 1:
                return a(k) if shape == () else a(k, 0)
            out = a(0, 0)
            for c in range(1, L * w):
                out = ite(T.eq(k, c), a(c // w, c % w), out) if not T.isc(k) else (a(c // w, c % w) if k == c else out)
            return out

        def feat(_, j):
            off, parts = 0, []
            for L, a in blocks:
                parts.append((off, L, a))
                off = T.add(off, T.mul(L, w))
            k = T.sub(j, off)
            v = x() if shape == () else x(0)
            if w > 1:
                for c in range(1, w):
                    v = ite(T.eq(k, c), x(c), v) if not T.isc(k) else (x(c) if k == c else v)
            for o, L, a in reversed(parts):
                top = T.add(o, T.mul(L, w))
                if all(T.isc(z) for z in (j, o, top)):
                    v = flat(a, L, j - o) if j < top else v
                else:
                    v = ite(T.lt(j, top), flat(a, L, T.sub(j, o)), v)
            return v
        return g2, {"pred": fill0(r), "X": SArr((1, N), "float32", feat)}

    def state(S, g, cfg):
        d = {}
        if on_x:
            d.update({"buffer_x/" + k: v for k, v in wx[5](S, sub(g, "x"), cfg).items()})
        if on_y:
            d.update({"buffer_y/" + k: v for k, v in wy[5](S, sub(g, "y"), cfg).items()})
        return d
    return WinCase(prop, f"flax.SNARIMAX[x{list(shape)}{',y' if with_y else ''}{'' if orders is None else f',lags={orders}'}]", (init, apply),
                   fns=[FF + "snarimax.py:SNARIMAX.__call__", FF + "buffer.py:Buffer.__call__", FF + "fill_nan_inf.py:FillNanInf.__call__"],
                   inputs=[Inp(shape), Inp((), inf=True)] + ([Inp(shape)] if with_y else []), dims=(("P",) + (("Q",) if with_y else ())) if orders is None else (),
                   ghost0=ghost0, ghost_sym=ghost_sym, step=step, state=state, init_is_step=True, bounded=None if orders is None else f"lags {orders}")


def cases(prop, tier="quick"):
    out = []
    for lib in ("haiku", "flax"):
        for p, q in (("P", "Q"), (1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 2), (2, 3)) if tier != "quick" else ()):
            for rank in (0, 1):
                out.append(arma_cases(prop, lib, p, q, rank))
    for exog in (False, True):
        out.append(snarimax_haiku(prop, exog, ()))
        out.append(snarimax_haiku(prop, exog, (2,), (2, 1)))
        out.append(snarimax_haiku(prop, exog, (2,), (1, 2)))
    for with_y in (False, True):
        out.append(snarimax_flax(prop, (), with_y))
        for o in ((2, 1), (1, 2), (0, 1), (1, 0)):
            out.append(snarimax_flax(prop, (2,), with_y, o))
    return out
