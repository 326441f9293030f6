"""Unrolling: wax.unroll, wax.transform, wax.stateful.unroll_lift_with_state, Flax unroll."""
import numpy as np

from ..lib import *

V2 = ((2,), "float32")
F0 = ((), "float32")
I0 = ((), "int32")


class UserFn:
    """An arbitrary user function (init, apply) with parameters, a state of several leaves, inputs and
    outputs of several leaves and types; opaque to the verifier."""

    def __init__(self, with_key):
        self.k = with_key

    def _ka(self, key):
        return (key,) if self.k else ()

    # real pair
    def init(self, key, a, b=None):
        p = {"w": opaque("p0", *self._ka(key), a, b, out=[V2])}
        s = {"s": opaque("s0", *self._ka(key), a, b, out=[F0]), "n": opaque("n0", a, b, out=[I0])}
        return p, s

    def apply(self, params, state, key, a, b=None):
        y, z, s, n = opaque("step", params["w"], state["s"], state["n"], *self._ka(key), a, b, out=[F0, V2, F0, I0])
        return {"y": y, "z": (z,)}, {"s": s, "n": n}

    def pair(self):
        import haiku as hk
        return hk.TransformedWithState(self.init, self.apply)


def ghost_unroll(u, p, s, rng, a, b, off):
    """the reference: step the function one input at a time, threading the state and splitting the key"""
    init = {"s": s["s"], "n": s["n"]}
    if rng is not None:
        init["rng"] = rng

    def full_step(g, t):
        st = {"s": g["s"], "n": g["n"]}
        if rng is not None:
            ks = jx(lambda k: jax.random.split(k), g["rng"])
            nrng, sub = take(ks, 0), take(ks, 1)
        else:
            nrng = sub = None
        tt = T.add(t, off)
        out, st2 = u.apply(p, st, sub, row(a, tt), row(b, tt))
        g2 = dict(st2)
        if rng is not None:
            g2["rng"] = nrng
        return out, g2
    G = Ghost("u", init, lambda g, t: full_step(g, t)[1])
    return G, full_step


import jax  # noqa


class Known:
    """ghost sequence in closed form"""

    def __init__(self, name, at):
        self.name, self.at, self.init = name, at, at(0)

    def after(self, t):
        return self.at(T.add(t, 1))


def by_contract(code):
    """code with wax.unroll.static_scan (and JAX's fori_loop) replaced by their contracts: static_scan steps along the sequence as
    jax.lax.scan does (proved for any length in unrolling_host), fori_loop(0, T, f, x) applies f(t, .) for t = 0 .. T-1"""
    def scan(f, init, xs=None, length=None, pbar=False):
        return jax.lax.scan(f, init, xs, length)

    def fori(lo, hi, f, x):
        return jax.lax.scan(lambda c, t: (f(t + lo, c), None), x, jnp.arange(hi - lo))[0]

    def run(*a):
        from wax import transform, unroll
        old = []
        for m, n, f in ((unroll, "static_scan", scan), (transform, "static_scan", scan), (unroll, "fori_loop", fori)):
            if hasattr(m, n):
                old.append((m, n, getattr(m, n)))
                setattr(m, n, f)
        symbolic_len(unroll)
        try:
            return code(*a)
        finally:
            for m, n, f in old:
                setattr(m, n, f)
            del unroll.len
    return run


def cases(prop, tier="quick"):
    import haiku as hk
    from wax import unroll as U
    out = []

    def add(name, fns, code, spec, extra_inputs=()):
        out.append(FnCase(prop, name, by_contract(code), fns=fns, inputs=[Inp(("T",), nan=False), Inp(("T", 2), nan=False)] + list(extra_inputs),
                          dims=("T",), spec=spec, min_sizes={"T": 2}, concrete_code=code))

    key_in = lambda: Inp((2,), "uint32", key=True)
    st_in = lambda: [Inp((2,), nan=False), Inp((), nan=False), Inp((), "int32")]

    # --- apply of unroll_transform_with_state, for any params/state
    if True:
        for skip in (False, True):
            for wk in (False, True):
                for dyn in (True, False):
                    u = UserFn(wk)

                    def code(a, b, w, s, n, *k, u=u, wk=wk, skip=skip, dyn=dyn):
                        f = U.unroll_transform_with_state(u.pair(), skip_first=skip, dynamic=dyn)
                        return f.apply({"w": w}, {"s": s, "n": n}, k[0] if wk else None, a, b=b)

                    def spec(S, xs, u=u, wk=wk, skip=skip):
                        a, b, w, s, n = xs[:5]
                        off = 1 if skip else 0
                        N = T.sub(a.shape[0], off)
                        G, full_step = ghost_unroll(u, {"w": w}, {"s": s, "n": n}, xs[5] if wk else None, a, b, off)
                        o = lambda t: full_step(G.at(t), t)[0]
                        fin = G.at(N)
                        return {"0/y": seq(N, (), "float32", lambda t: o(t)["y"]),
                                "0/z/0": seq(N, (2,), "float32", lambda t: o(t)["z"][0]),
                                "1/s": fin["s"], "1/n": fin["n"]}, [G]
                    add(f"unroll.apply[skip_first={skip},rng={wk},{'dynamic' if dyn else 'static'}]", ["wax/unroll.py:unroll_transform_with_state.apply_fn"],
                        code, spec, st_in() + ([key_in()] if wk else []))
    out += more_cases(prop, tier) + haiku_lift_cases(prop, tier) + haiku_lift_rng_cases(prop, tier) + flax_cases(prop, tier)
    return out


A_IN = lambda n: [Inp((n,), nan=False), Inp((n, 2), nan=False)]
ST_IN = lambda: [Inp((2,), nan=False), Inp((), nan=False), Inp((), "int32")]
KEY_IN = lambda: Inp((2,), "uint32", key=True)


def run_spec(u, p, s, rng, a, b, off):
    N = T.sub(a.shape[0], off)
    G, full_step = ghost_unroll(u, p, s, rng, a, b, off)
    o = lambda t: full_step(G.at(t), t)[0]
    fin = G.at(N)
    res = {"y": seq(N, (), "float32", lambda t: o(t)["y"]), "z/0": seq(N, (2,), "float32", lambda t: o(t)["z"][0])}
    return res, fin, G


def lab(pre, d):
    return {f"{pre}/{k}": v for k, v in d.items()}


def more_cases(prop, tier):
    import haiku as hk
    from wax import unroll as U
    from wax import transform as TR
    out = []

    def case(name, fns, code, spec, extra=(), **kw):
        out.append(FnCase(prop, name, by_contract(code), fns=["wax/" + f for f in fns], inputs=A_IN("T") + list(extra), dims=("T",), spec=spec,
                          min_sizes={"T": 2}, concrete_code=code, **kw))

    if True:
        # --- initialisation uses the first element of the sequences
        u = UserFn(True)

        def code(a, b, k, u=u):
            p, s = U.unroll_transform_with_state(u.pair()).init(k, a, b=b)
            return {"p": p, "s": s}

        def spec(S, xs, u=u):
            a, b, k = xs
            p, s = u.init(k, row(a, 0), row(b, 0))
            return {"p/w": p["w"], "s/s": s["s"], "s/n": s["n"]}, []
        case("unroll.init", ["unroll.py:unroll_transform_with_state.init_fn"], code, spec, [KEY_IN()])

    # --- unroll(): init + apply, optional given params / state
    for dyn in (True, False):
        for skip in (False, True):
            for gp in (False, True):
                for gs in (False, True):
                    for wk in (False, True):
                        u = UserFn(wk)

                        def code(a, b, w, s, n, k=None, u=u, skip=skip, dyn=dyn, gp=gp, gs=gs):
                            f = U.unroll(u.pair(), skip_first=skip, dynamic=dyn, return_final_state=True, rng=k,
                                         params={"w": w} if gp else None, state={"s": s, "n": n} if gs else None)
                            g = U.unroll(u.pair(), skip_first=skip, dynamic=dyn, rng=k,
                                         params={"w": w} if gp else None, state={"s": s, "n": n} if gs else None)
                            return (*f(a, b=b), g(a, b=b))

                        def spec(S, xs, u=u, skip=skip, gp=gp, gs=gs, wk=wk):
                            a, b, w, s, n = xs[:5]
                            k = xs[5] if wk else None
                            p0, s0 = u.init(k, row(a, 0), row(b, 0))
                            p = {"w": w} if gp else p0
                            st = {"s": s, "n": n} if gs else s0
                            r, fin, G = run_spec(u, p, st, k, a, b, int(skip))
                            return {**lab("0", r), "1/s": fin["s"], "1/n": fin["n"], **lab("2", r)}, [G]
                        case(f"unroll[skip_first={skip},params={gp},state={gs},rng={wk},{'dynamic' if dyn else 'static'}]",
                             ["unroll.py:unroll"], code, spec, ST_IN() + ([KEY_IN()] if wk else []))

    # --- deprecated entry points
    for nm in ("dynamic_unroll", "static_unroll"):
        for given in (False, True):
            for skip in (False, True):
                u = UserFn(True)

                def code(a, b, w, s, n, k, u=u, nm=nm, given=given, skip=skip):
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        return getattr(U, nm)(u.pair(), {"w": w} if given else None, {"s": s, "n": n} if given else None, k, skip, a, b=b)

                def spec(S, xs, u=u, given=given, skip=skip):
                    a, b, w, s, n, k = xs
                    p, st = u.init(k, row(a, 0), row(b, 0))
                    if given:
                        p, st = {"w": w}, {"s": s, "n": n}
                    r, fin, G = run_spec(u, p, st, k, a, b, int(skip))
                    return {**lab("0", r), "1/s": fin["s"], "1/n": fin["n"]}, [G]
                case(f"{nm}[given={given},skip_first={skip}]", [f"unroll.py:{nm}"], code, spec, ST_IN() + [KEY_IN()])

    # --- fori_loop variant
    for given in (False, True):
        for skip in (False, True):
          for wk in (False, True):
            u = UserFn(wk)

            def code(a, b, w, s, n, k=None, u=u, skip=skip, given=given):
                return U.dynamic_unroll_fori_loop(u.pair(), {"w": w} if given else None, {"s": s, "n": n} if given else None, k, skip, a, b=b)

            def spec(S, xs, u=u, skip=skip, given=given, wk=wk):
                a, b, w, s, n = xs[:5]
                k = xs[5] if wk else None
                p, st = {"w": w}, {"s": s, "n": n}
                if not given:
                    p, st = u.init(k, row(a, 0), row(b, 0))
                r, fin, G = run_spec(u, p, st, k, a, b, int(skip))
                N = T.sub(a.shape[0], int(skip))
                # what has been written when the loop reaches t
                written = lambda t: {"z": SArr((N, 2), "float32", lambda k, j: ite(T.lt(k, t), r["z/0"](k, j), T.NAN)),
                                     "y": SArr((N,), "float32", lambda k: ite(T.lt(k, t), r["y"](k), T.NAN))}
                return {**lab("0", r), "1/s": fin["s"], "1/n": fin["n"]}, [G, Known("w", written)]
            case(f"dynamic_unroll_fori_loop[given={given},skip_first={skip},rng={wk}]", ["unroll.py:dynamic_unroll_fori_loop"], code, spec, ST_IN() + ([KEY_IN()] if wk else []))

    # --- batch transforms
    for nm in ("transform_batch_with_state", "transform_batch_with_state_static"):
        for skip in (False, True):
            u = UserFn(True)

            def code(a, b, k, k2, u=u, nm=nm, skip=skip):
                pr = u.pair()
                one = hk.TransformedWithState(lambda k, o: pr.init(k, *o), lambda p, st, k, o: pr.apply(p, st, k, *o))
                f = getattr(TR, nm)(one, skip_first=skip)
                p, st = f.init(k, (a, b))
                y, fin = f.apply(p, st, k2, (a, b))
                return y, fin.fun_state, fin.fun_params, fin.rng_key

            def spec(S, xs, u=u, skip=skip):
                a, b, k, k2 = xs
                p, st = u.init(k, row(a, 0), row(b, 0))
                off = int(skip)
                N = T.sub(a.shape[0], off)
                f = lambda g, t: u.apply(p, {"s": g["s"], "n": g["n"]}, k2, row(a, T.add(t, off)), row(b, T.add(t, off)))
                G = Ghost("u", {"s": st["s"], "n": st["n"]}, lambda g, t: f(g, t)[1])
                fin = G.at(N)
                return {"0/y": seq(N, (), "float32", lambda t: f(G.at(t), t)[0]["y"]),
                        "0/z/0": seq(N, (2,), "float32", lambda t: f(G.at(t), t)[0]["z"][0]),
                        "1/s": fin["s"], "1/n": fin["n"], "2/w": p["w"], "3": k2}, [G]
            case(f"{nm}[skip_first={skip}]", [f"transform.py:{nm}"], code, spec, [KEY_IN(), KEY_IN()])
    return out


def hk_user(with_key=False, init_key=True):
    """an arbitrary Haiku function with one parameter and one state"""
    import haiku as hk

    def fun(a, b):
        w = hk.get_parameter("w", (2,), init=lambda sh, dt: opaque("hp0", *((hk.next_rng_key(),) if init_key else ()), out=[V2]))
        s = hk.get_state("s", (), init=lambda sh, dt: opaque("hs0", a, b))
        k = (hk.next_rng_key(),) if with_key else ()
        y, s2 = opaque("hstep", w, s, *k, a, b, out=[F0, F0])
        hk.set_state("s", s2)
        return y
    return fun


def haiku_lift_cases(prop, tier):
    import haiku as hk
    from wax.stateful import unroll_lift_with_state
    out = []
    # two successive calls of the lifted unroll: outputs are those of stepping the function along both sequences
    if True:
        for skip in (False, True):
            for init_rng in (True, False):
                fun = hk_user(False, init_rng)

                def code(a, b, a2, b2, k, fun=fun, skip=skip, init_rng=init_rng):
                    f = hk.transform_with_state(lambda a, b: unroll_lift_with_state(fun, skip_first=skip, init_rng=init_rng)(a, b))
                    p, s = f.init(k, a[:2], b[:2])
                    y1, s = f.apply(p, s, k, a, b)
                    y2, s = f.apply(p, s, k, a2, b2)
                    return y1, y2

                def spec(S, xs, fun=fun, skip=skip, init_rng=init_rng):
                    a, b, a2, b2, k = xs
                    t = hk.transform_with_state(fun)

                    def ini(k, a0, b0):
                        ik = hk.transform(lambda: hk.next_rng_key()).apply({}, k) if init_rng else None
                        return t.init(ik, a0, b0)
                    p, s = jx(ini, k, row(a, 0), row(b, 0))
                    (w,), (s0,) = jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(s)
                    off = int(skip)
                    N = T.sub(a.shape[0], off)
                    f = lambda g, a, b, t: opaque("hstep", w, g["s"], row(a, T.add(t, off)), row(b, T.add(t, off)), out=[F0, F0])
                    G1 = Ghost("u1", {"s": s0}, lambda g, t: {"s": f(g, a, b, t)[1]})
                    G2 = Ghost("u2", {"s": G1.at(N)["s"]}, lambda g, t: {"s": f(g, a2, b2, t)[1]})
                    return {"0": seq(N, (), "float32", lambda t: f(G1.at(t), a, b, t)[0]),
                            "1": seq(N, (), "float32", lambda t: f(G2.at(t), a2, b2, t)[0])}, [G1, G2]
                out.append(FnCase(prop, f"unroll_lift_with_state[skip_first={skip},init_rng={init_rng}]", code,
                                  fns=["wax/stateful.py:unroll_lift_with_state"], inputs=A_IN("T") + A_IN("T") + [KEY_IN()],
                                  dims=("T",), min_sizes={"T": 2}, spec=spec))
    return out


def haiku_lift_rng_cases(prop, tier):
    """unroll_lift_with_state(split_rng=True): every step draws the next key of the caller's key sequence"""
    import haiku as hk
    from wax.stateful import unroll_lift_with_state
    out = []
    if True:
        for skip in (False, True):
            fun = hk_user(True, True)

            def code(a, b, w, s, k, fun=fun, skip=skip):
                f = hk.transform_with_state(lambda a, b: unroll_lift_with_state(fun, skip_first=skip, split_rng=True)(a, b))
                P = jax.eval_shape(f.init, k, a, b)
                p, st = (jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(x), [v]) for x, v in zip(P, (w, s)))
                y, st = f.apply(p, st, k, a, b)
                return y, jax.tree_util.tree_leaves(st)[0]

            def spec(S, xs, fun=fun, skip=skip):
                a, b, w, s, k = xs
                t = hk.transform_with_state(fun)
                PS = jax.eval_shape(lambda k, a, b: t.init(k, a, b), jax.ShapeDtypeStruct((2,), "uint32"),
                                    jax.ShapeDtypeStruct((), "float32"), jax.ShapeDtypeStruct((2,), "float32"))
                PS = [jax.tree_util.tree_structure(x) for x in PS]
                off = int(skip)
                N = T.sub(a.shape[0], off)

                def one(w, s, k, sub, a, b):
                    k2, sub2 = jax.random.split(k)
                    y, st = t.apply(jax.tree_util.tree_unflatten(PS[0], [w]), jax.tree_util.tree_unflatten(PS[1], [s]), sub, a, b)
                    return y, jax.tree_util.tree_leaves(st)[0], k2, sub2
                f = lambda g, t: jx(one, w, g["s"], g["rng"], g["sub"], row(a, T.add(t, off)), row(b, T.add(t, off)))
                k0, sub0 = jx(lambda k: tuple(jax.random.split(k)), k)
                G = Ghost("u", {"s": s, "rng": k0, "sub": sub0}, lambda g, t: dict(zip(("s", "rng", "sub"), f(g, t)[1:])))
                return {"0": seq(N, (), "float32", lambda t: f(G.at(t), t)[0]), "1": G.at(N)["s"]}, [G]
            out.append(FnCase(prop, f"unroll_lift_with_state[skip_first={skip},split_rng=True]", code,
                              fns=["wax/stateful.py:unroll_lift_with_state"], inputs=A_IN("T") + [Inp((2,), nan=False), Inp((), nan=False), KEY_IN()],
                              dims=("T",), min_sizes={"T": 2}, spec=spec))
    return out


def flax_user():
    from flax import linen as nn

    class User(nn.Module):
        @nn.compact
        def __call__(self, a, b):
            w = self.param("w", lambda key: opaque("fp0", key, a, b, out=[V2]))
            s = self.variable("state", "s", lambda: opaque("fs0", a, b))
            n = self.variable("memory", "n", lambda: opaque("fn0", a, b, out=[I0]))
            k = (self.make_rng("default"),) if self.has_rng("default") else ()
            y, z, s2, n2 = opaque("fstep", w, s.value, n.value, *k, a, b, out=[F0, V2, F0, I0])
            s.value, n.value = s2, n2
            return {"y": y, "z": (z,)}
    return User()


def flax_cases(prop, tier):
    from wax.flax.core import transform as FT
    from wax.flax.core import unroll as FU
    from wax.flax.core import state_utils as SU
    out = []
    m = flax_user()

    def ref_init(k, a, b):
        v = m.init(k, a, b)
        return v["params"]["w"], v["state"]["s"], v["memory"]["n"]

    def ref_apply(w, s, n, a, b, k=None):
        o, v = m.apply({"params": {"w": w}, "state": {"s": s}, "memory": {"n": n}}, a, b, mutable=True,
                       **({} if k is None else {"rngs": {"default": k}}))
        return o["y"], o["z"][0], v["state"]["s"], v["memory"]["n"]

    def st(s, n):
        return {"state": {"s": s}, "memory": {"n": n}}

    # --- the transform itself
    for nm, mk in (("flax_transform_with_state", lambda: FT.flax_transform_with_state(m)),
                   ("flax_transform_with_state.factory", lambda: FT.flax_transform_with_state(lambda: m))):
        for wk in (False, True):
            def code(a, b, w, s, n, k, mk=mk, wk=wk):
                f = mk()
                p, s0 = f.init(k, a, b)
                o, s1 = f.apply({"w": w}, st(s, n), k if wk else None, a, b)
                c = FT.combine_variables(p, s0)
                p2, s2 = FT.split_variables(c)
                return {"p": p["w"], "s0": s0, "o": o, "s1": s1, "c": c, "p2": p2["w"], "s2": s2, "np": jnp.asarray(len(p))}

            def spec(S, xs, wk=wk):
                a, b, w, s, n, k = xs
                w0, s0, n0 = jx(ref_init, k, a, b)
                y, z, s1, n1 = jx(ref_apply, w, s, n, a, b, *((k,) if wk else ()))
                return {"p": w0, "s0/state/s": s0, "s0/memory/n": n0, "o/y": y, "o/z/0": z, "s1/state/s": s1, "s1/memory/n": n1,
                        "c/params/w": w0, "c/state/s": s0, "c/memory/n": n0, "p2": w0, "s2/state/s": s0, "s2/memory/n": n0,
                        "np": const((), 1, "int32")}, []
            out.append(FnCase(prop, f"{nm}[rng={wk}]", code, fns=["wax/flax/core/transform.py:flax_transform_with_state",
                              "wax/flax/core/transform.py:combine_variables", "wax/flax/core/transform.py:split_variables"],
                              inputs=[Inp((), nan=False), Inp((2,), nan=False)] + ST_IN() + [KEY_IN()], spec=spec))

    def fghost(w, s, n, k, a, b, off):
        init = {"s": s, "n": n}
        if k is not None:
            init["rng"] = k

        def full(g, t):
            tt = T.add(t, off)
            sub = ()
            g2 = {}
            if k is not None:
                ks = jx(lambda q: jax.random.split(q), g["rng"])
                g2["rng"], sub = take(ks, 0), (take(ks, 1),)
            y, z, g2["s"], g2["n"] = jx(ref_apply, w, g["s"], g["n"], row(a, tt), row(b, tt), *sub)
            return (y, z), g2
        G = Ghost("f", init, lambda g, t: full(g, t)[1])
        return G, full

    def rspec(w, s, n, k, a, b, off):
        N = T.sub(a.shape[0], off)
        G, full = fghost(w, s, n, k, a, b, off)
        fin = G.at(N)
        return {"y": seq(N, (), "float32", lambda t: full(G.at(t), t)[0][0]),
                "z/0": seq(N, (2,), "float32", lambda t: full(G.at(t), t)[0][1])}, \
            {"state/s": fin["s"], "memory/n": fin["n"]}, G

    for dyn in (True, False):
        for skip in (False, True):
            for wk in (False, True):
                def code(a, b, w, s, n, k, dyn=dyn, skip=skip, wk=wk):
                    f = FU.flax_unroll_transform(m, skip_first=skip, dynamic=dyn)
                    p, s0 = f.init(k, a, b)
                    o, s1 = f.apply({"w": w}, FrozenDict(st(s, n)), k if wk else None, a, b)
                    return {"p": p, "s0": s0, "o": o, "s1": s1}

                def spec(S, xs, skip=skip, wk=wk):
                    a, b, w, s, n, k = xs
                    w0, s0, n0 = jx(ref_init, k, row(a, 0), row(b, 0))
                    r, fin, G = rspec(w, s, n, k if wk else None, a, b, int(skip))
                    return {"p/w": w0, "s0/state/s": s0, "s0/memory/n": n0, **lab("o", r), **lab("s1", fin)}, [G]
                out.append(FnCase(prop, f"flax_unroll_transform[skip_first={skip},rng={wk},dynamic={dyn}]", by_contract(code), concrete_code=code,
                                  fns=["wax/flax/core/unroll.py:flax_unroll_transform"],
                                  inputs=A_IN("T") + ST_IN() + [KEY_IN()], dims=("T",),
                                  min_sizes={"T": 2}, spec=spec))
                for gp, gs in ((False, False), (True, False), (False, True), (True, True)):
                    def code(a, b, w, s, n, k, dyn=dyn, skip=skip, gp=gp, gs=gs, wk=wk):
                        kw = dict(skip_first=skip, dynamic=dyn, rng=k, params={"w": w} if gp else None,
                                  state=FrozenDict(st(s, n)) if gs else None)
                        o, fin = FU.flax_unroll(m if wk else FU.flax_unroll_transform(m, skip_first=skip, dynamic=dyn), return_final_state=True, **kw)(a, b)
                        return {"o": o, "s1": fin, "o2": FU.flax_unroll(m, **kw)(a, b)}

                    def spec(S, xs, skip=skip, gp=gp, gs=gs):
                        a, b, w, s, n, k = xs
                        w0, s0, n0 = jx(ref_init, k, row(a, 0), row(b, 0))
                        if gp:
                            w0 = w
                        if gs:
                            s0, n0 = s, n
                        r, fin, G = rspec(w0, s0, n0, k, a, b, int(skip))
                        return {**lab("o", r), **lab("s1", fin), **lab("o2", r)}, [G]
                    out.append(FnCase(prop, f"flax_unroll[skip_first={skip},params={gp},state={gs},pair={not wk},dynamic={dyn}]", by_contract(code), concrete_code=code,
                                      fns=["wax/flax/core/unroll.py:flax_unroll"],
                                      inputs=A_IN("T") + ST_IN() + [KEY_IN()], dims=("T",),
                                      min_sizes={"T": 2}, spec=spec))
    return out


import jax.numpy as jnp  # noqa
from flax.core import FrozenDict  # noqa
