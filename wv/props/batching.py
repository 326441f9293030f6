"""Batching: vmap_lift_with_state, VMap, add_batch (Haiku), VMap/add_batch (Flax)."""
import jax
import jax.numpy as jnp

from .. import jaxsym as J
from ..lib import *
from .unrolling import F0, KEY_IN, V2, hk_user


def mean_rows(a):
    """mean over the leading axis"""
    s = J.reduce_axes(T.CTX.env, "sum", a, [0], a.dtype)
    n = FV(val=T.toreal(a.shape[0]))
    return SArr(a.shape[1:], a.dtype, lambda *i: T.fdiv(s(*i), n))


def split_keys(k, n):
    """jax.random.split(k, n), for n of any kind"""
    if isinstance(n, int):
        return jx(lambda k: jax.random.split(k, n), k)
    kk = J.random_wrap(k)
    g = lambda i: T.uf("keysplit", J.KEY, J.I, J.I, J.KEY)(kk(), T.zi(n), T.zi(i))
    return SArr((n, 2), "uint32", lambda i, j: J.keyword(g(i), j))


def cases(prop, tier="quick"):
    import haiku as hk
    from wax.modules.vmap import VMap, add_batch
    from wax.stateful import vmap_lift_with_state
    import wax.stateful
    symbolic_len(wax.stateful)
    out = []

    def lifted(name, wrap, fns, split, init_rng, B, mean=False, wk=False, kw=False):
        fun = hk_user(wk, init_rng)

        def code(a, b, a2, b2, k, ka):
            f = hk.transform_with_state(lambda a, b: wrap(fun)(a, b=b) if kw else wrap(fun)(a, b))
            p, s = f.init(k, a, b)
            y1, s1 = f.apply(p, s, ka if wk or split else None, a, b)
            y2, s2 = f.apply(p, s1, ka if wk or split else None, a2, b2)
            (s2,), (w,) = jax.tree_util.tree_leaves(s2), jax.tree_util.tree_leaves(p)
            return {"y1": y1, "y2": y2, "s": s2, "w": w}

        def spec(S, xs):
            a, b, a2, b2, k, ka = xs
            n = a.shape[0]
            t = hk.transform_with_state(fun)
            nxt = lambda k: hk.transform(lambda: hk.next_rng_key()).apply({}, k)
            if split:
                ik, ak = (split_keys(jx(nxt, q), n) for q in (k, ka))
            else:
                ik = jx(nxt, k) if init_rng else None

            def init_row(i):
                key = None if ik is None else (row(ik, i) if split else ik)
                if key is None:
                    p, s = jx(lambda a, b: t.init(None, a, b), row(a, i), row(b, i))
                else:
                    p, s = jx(lambda k, a, b: t.init(k, a, b), key, row(a, i), row(b, i))
                return jax.tree_util.tree_leaves(p)[0], jax.tree_util.tree_leaves(s)[0]
            PS = jax.tree_util.tree_structure(jax.eval_shape(lambda k, a, b: t.init(k, a, b), jax.ShapeDtypeStruct((2,), "uint32"),
                                              jax.ShapeDtypeStruct((), "float32"), jax.ShapeDtypeStruct((2,), "float32")))

            def step(w, s, i, a, b):
                def f(w, s, a, b, *k):
                    p, st = jax.tree_util.tree_unflatten(PS, [w, s])
                    y, st = t.apply(p, st, k[0] if k else None, a, b)
                    return y, jax.tree_util.tree_leaves(st)[0]
                return jx(f, w, s, row(a, i), row(b, i), *([row(ak, i)] if split and wk else []))
            w = lambda i: init_row(i)[0]
            r1 = lambda i: step(w(i), init_row(i)[1], i, a, b)
            r2 = lambda i: step(w(i), r1(i)[1], i, a2, b2)
            y1, y2 = (seq(n, (), "float32", lambda i, r=r: r(i)[0]) for r in (r1, r2))
            if mean:
                y1, y2 = mean_rows(y1), mean_rows(y2)
            return {"y1": y1, "y2": y2, "s": seq(n, (), "float32", lambda i: r2(i)[1]), "w": seq(n, (2,), "float32", w)}, []
        out.append(FnCase(prop, name + f"[B={B}]", code, fns=fns, inputs=[Inp((B,), nan=False), Inp((B, 2), nan=False)] * 2 + [KEY_IN(), KEY_IN()],
                          dims=("B",) if B == "B" else (), spec=spec, bounded=None if B == "B" else f"batch size {B}"))

    L = "wax/stateful.py:vmap_lift_with_state"
    for ir in (True, False):
        lifted(f"vmap_lift_with_state[split_rng=False,init_rng={ir}]", lambda f, ir=ir: vmap_lift_with_state(f, split_rng=False, init_rng=ir), [L], False, ir, "B", kw=not ir)
    lifted("VMap", lambda f: (lambda *a, **kw: VMap(f)(*a, **kw)), [L, "wax/modules/vmap.py:VMap.__call__"], False, True, "B", kw=True)
    for B in ("B",):
        for wk in (False, True):
            lifted(f"vmap_lift_with_state[split_rng=True,key_used={wk}]", lambda f: vmap_lift_with_state(f, split_rng=True), [L], True, True, B, wk=wk, kw=wk)
        for tm in (False, True):
            lifted(f"add_batch[take_mean={tm}]", lambda f, tm=tm: add_batch(f, take_mean=tm), [L, "wax/modules/vmap.py:add_batch"], True, True, B, mean=tm, wk=True)
    # Flax
    from wax.flax.modules.vmap import VMap as FV_, add_batch as fadd_batch, create_vmap
    ufun = lambda a, b: {"y": opaque("fv", a, b, out=[F0]), "z": opaque("fz", a, b, out=[V2])}
    for tm in (False, True):
        for nm, mk in (("VMap", FV_), ("create_vmap", create_vmap)):
            def code(a, b, mk=mk, tm=tm):
                return mk(fun=ufun, take_mean=tm).apply({}, a, b) if mk is FV_ else mk(ufun, tm).apply({}, a, b=b)

            def spec(S, xs, tm=tm):
                a, b = xs
                n = a.shape[0]
                y = seq(n, (), "float32", lambda i: ufun(row(a, i), row(b, i))["y"])
                z = seq(n, (2,), "float32", lambda i: ufun(row(a, i), row(b, i))["z"])
                return {"y": mean_rows(y) if tm else y, "z": mean_rows(z) if tm else z}, []
            out.append(FnCase(prop, f"flax.{nm}[take_mean={tm}]", code, fns=["wax/flax/modules/vmap.py:VMap.__call__", "wax/flax/modules/vmap.py:add_batch"],
                              inputs=[Inp(("B",)), Inp(("B", 2))], dims=("B",), spec=spec))

    def code(a, s, c):
        return fadd_batch({"a": a, "s": s, "c": (c,)})

    def spec(S, xs):
        a, s, c = xs
        return {"a": mean_rows(a), "s": s, "c/0": mean_rows(c)}, []
    out.append(FnCase(prop, "flax.add_batch", code, fns=["wax/flax/modules/vmap.py:add_batch"], inputs=[Inp(("B",)), Inp(()), Inp(("B", "n"))], dims=("B", "n"), spec=spec))
    return out
