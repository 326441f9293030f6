"""Event-driven updates: UpdateOnEvent (Haiku); ConditionalComputation/update_on_event, streaming_scan (Flax)."""
import jax
import jax.numpy as jnp

from .. import jaxsym as J
from ..lib import *

V2 = ((2,), "float32")
F0 = ((), "float32")
I0 = ((), "int32")


def user_module(cw, layout):
    """An arbitrary module with parameters, a state of two leaves and a submodule with a state and a parameter of its own,
    created in one of the ways Haiku allows."""
    import haiku as hk

    class Inner(hk.Module):
        def __call__(self, a):
            q = hk.get_parameter("q", (2,), init=lambda *_: opaque("uq0", cw, out=[V2]))
            u = hk.get_state("u", (2,), init=lambda *_: opaque("uu0", cw, out=[V2]))
            v, u2 = opaque("uinner", q, u, a, out=[F0, V2])
            hk.set_state("u", u2)
            return v

    class User(hk.Module):
        def __init__(self, inner=None, name=None):
            super().__init__(name=name)
            self.inner = inner
            if layout == "init":
                self.inner = Inner(name="inner")

        def __call__(self, a, b):
            w = hk.get_parameter("w", (2,), init=lambda *_: opaque("uw0", cw, out=[V2]))
            s = hk.get_state("s", (), init=lambda *_: opaque("us0", cw, out=[F0]))
            n = hk.get_state("n", (), "int32", init=lambda *_: opaque("un0", cw, out=[I0]))
            v = (self.inner if layout != "call" else Inner(name="inner"))(a)
            y, z, s2, n2 = opaque("ustep", w, s, n, v, a, b, out=[F0, V2, F0, I0])
            hk.set_state("s", s2)
            hk.set_state("n", n2)
            return {"y": y, "z": (z,)}

    class Stateless(hk.Module):
        def __call__(self, a, b):
            w = hk.get_parameter("w", (2,), init=lambda *_: opaque("uw0", cw, out=[V2]))
            y, z = opaque("ufun", w, a, b, out=[F0, V2])
            return {"y": y, "z": (z,)}

    class Wrap(hk.Module):
        def __init__(self, m, name=None):
            super().__init__(name=name)
            self.m = m

        def __call__(self, a):
            return self.m(a)

    if layout == "deep":
        return User(Wrap(Inner(name="deepest"), name="wrap"), name="user")
    if layout == "stateless":
        return Stateless(name="user")
    return User(Inner(name="other") if layout == "given" else None, name="user")


def o1(name, *args, out):
    r = opaque(name, *args, out=out)
    return r if isinstance(r, list) else [r]


def haiku_uoe(prop, layout, initial, ctx):
    from wax.modules.update_on_event import UpdateOnEvent
    import haiku as hk
    stateless = layout == "stateless"

    def make(cfg):
        def f(ev, a, b):
            m = user_module(cfg["w"], layout)
            kw = {"initial_output_value": cfg["iv"]} if initial else {}
            if ctx == "kwargs":
                return UpdateOnEvent(m, **kw)(ev, a, b=b)
            r = UpdateOnEvent(m, **kw)(ev, a, b)
            if ctx == "neighbours":
                # a module of a colliding name, stepped at every step
                class Tick(hk.Module):
                    def __call__(self):
                        c = hk.get_state("s", (), "int32", init=jnp.zeros)
                        hk.set_state("s", c + 1)
                        return c + 1
                r = dict(r, tick=Tick(name="user_x")())
            return r
        return f
    arr = lambda v: const((), v)

    def leaves(cfg):
        cw = arr(cfg["w"])
        d = dict(w=o1("uw0", cw, out=[V2])[0], q=o1("uq0", cw, out=[V2])[0])
        return d

    def ghost0(S, cfg):
        cw = arr(cfg["w"])
        iv = cfg["iv"] if initial else T.NAN
        g = dict(py=const((), iv), pz=const((2,), iv))
        if not stateless:
            g.update(s=o1("us0", cw, out=[F0])[0], n=o1("un0", cw, out=[I0])[0], u=o1("uu0", cw, out=[V2])[0])
        if ctx == "neighbours":
            g["k"] = const((), 0, "int32")
        return g

    def ghost_sym(S, cfg):
        g = dict(py=gfloat("g.py", (), True), pz=gfloat("g.pz", (2,), True))
        if not stateless:
            g.update(s=sym("g.s", (), "float32", nan=True), n=gint("g.n", ()), u=sym("g.u", (2,), "float32", nan=True))
        if ctx == "neighbours":
            g["k"] = gint("g.k", ())
        return g

    def pick(c, x, y):
        return SArr(x.shape, x.dtype, lambda *i: ite(c, x(*i), y(*i)))

    def step(S, cfg, g, xs):
        ev, a, b = xs
        p = leaves(cfg)
        e = ev()
        if stateless:
            y, z = o1("ufun", p["w"], a, b, out=[F0, V2])
            g2 = {}
        else:
            v, u2 = o1("uinner", p["q"], g["u"], a, out=[F0, V2])
            y, z, s2, n2 = o1("ustep", p["w"], g["s"], g["n"], v, a, b, out=[F0, V2, F0, I0])
            g2 = dict(s=pick(e, s2, g["s"]), n=pick(e, n2, g["n"]), u=pick(e, u2, g["u"]))
        y, z = pick(e, y, g["py"]), pick(e, z, g["pz"])
        out = {"y": y, "z/0": z}
        if ctx == "neighbours":
            g2["k"] = const((), T.add(g["k"](), 1), "int32")
            out["tick"] = g2["k"]
        return dict(g2, py=y, pz=z), out

    def state(S, g, cfg):
        d = {"prev_output/y": g["py"], "prev_output/z/0": g["pz"]}
        if not stateless:
            d.update({"user/s": g["s"], "user/n": g["n"], "u": g["u"]})
        if ctx == "neighbours":
            d["user_x/s"] = g["k"]
        return d

    def params(S, cfg):
        p = leaves(cfg)
        return {"w": p["w"]} if stateless else p
    return StepCase(prop, f"haiku.UpdateOnEvent[{layout}{',initial' if initial else ''}{',' + ctx if ctx else ''}]", haiku_pair(make),
                    fns=["wax/modules/update_on_event.py:UpdateOnEvent.__call__", "wax/modules/update_on_event.py:set_params_or_state_dict",
                         "wax/modules/update_on_event.py:set_state_from_dict"],
                    inputs=[Inp((), "bool"), Inp((), nan=True), Inp((2,), nan=True)],
                    cfg={"w": Cfg(values=(0.3, 1.0, -2.0)), **({"iv": Cfg(values=(0.0, -1.0, 3.0))} if initial else {})},
                    ghost0=ghost0, ghost_sym=ghost_sym, step=step, state=state, params=params)


def cases(prop, tier="quick"):
    out = []
    for layout in ("init", "call", "given", "deep", "stateless"):
        for initial in (False, True):
            out.append(haiku_uoe(prop, layout, initial, "" if initial else "kwargs"))
    out.append(haiku_uoe(prop, "init", False, "neighbours"))
    return out + flax_cases(prop, tier)


# ---------------------------------------------------------------------------------------------- Flax
B0 = ((), "bool")


def flax_fn():
    import flax.linen as nn

    class User(nn.Module):
        @nn.compact
        def __call__(self, a, b):
            w = self.param("w", lambda rng: opaque("fw0", rng, out=[V2]))
            s = self.variable("state", "s", lambda: jnp.asarray(0.25, jnp.float32))
            n = self.variable("memory", "n", lambda: jnp.asarray(0, jnp.int32))
            y, z, s.value, n.value = opaque("fstep", w, s.value, n.value, a, b, out=[F0, V2, F0, I0])
            return {"y": y, "z": (z,)}
    return lambda a, b: User(name="user")(a, b)


def flax_cond(prop, event, initial, through):
    """documented: the wrapped module always advances; only its output is held between events"""
    from wax.flax.core import streaming_transforms as ST
    ev = None if not event else (lambda a, b: opaque("fev", a, b, out=[B0]))

    def mk(cfg):
        kw = {"initial_output_value": cfg["iv"]} if initial else {}
        if through == "decorator":
            return ST.streaming_transform_with_state(ST.update_on_event(event_fn=ev, **kw)(flax_fn()))
        from wax.flax.core.transform import flax_transform_with_state
        return flax_transform_with_state(ST.ConditionalComputation(update_fn=flax_fn(), event_fn=ev, **kw))

    def init(key, cfg, a, b):
        return mk(cfg).init(key, a, b)

    def apply(params, state, key, cfg, a, b):
        return mk(cfg).apply(params, state, None, a, b=b)
    W = {}

    def ghost0(S, cfg):
        iv = cfg["iv"] if initial else T.NAN
        return dict(s=const((), Fraction(1, 4)), n=const((), 0, "int32"), py=const((), iv), pz=const((2,), iv))

    def ghost_sym(S, cfg):
        return dict(s=sym("g.s", (), "float32", nan=True), n=gint("g.n", ()), py=gfloat("g.py", (), True), pz=gfloat("g.pz", (2,), True))
    pick = lambda c, x, y: SArr(x.shape, x.dtype, lambda *i: ite(c, x(*i), y(*i)))

    def step(S, cfg, g, xs):
        a, b = xs
        w = W["w"]()
        y, z, s2, n2 = o1("fstep", w, g["s"], g["n"], a, b, out=[F0, V2, F0, I0])
        if event:
            e = opaque("fev", a, b, out=[B0])()
            y, z = pick(e, y, g["py"]), pick(e, z, g["pz"])
        return dict(s=s2, n=n2, py=y, pz=z), {"y": y, "z/0": z}

    def w_of():
        k = sym("key", (2,), "uint32") if not T.CTX.concrete else from_numpy(np.asarray([0, 7], "uint32"), True)
        # Flax derives the key handed to an initialiser from the one given to init by its own rules
        def real(k):
            p = mk({"iv": 0.0}).init(k, jnp.zeros(()), jnp.zeros(2))[0]
            return jax.tree_util.tree_leaves(p)[0]
        return jx(real, k)
    W["w"] = w_of
    return StepCase(prop, f"flax.update_on_event[event_fn={event}{',initial' if initial else ''},{through}]", (init, apply),
                    fns=["wax/flax/core/streaming_transforms.py:ConditionalComputation.__call__", "wax/flax/core/streaming_transforms.py:update_on_event",
                         "wax/flax/core/streaming_transforms.py:StreamingTransform.apply"],
                    inputs=[Inp((), nan=True), Inp((2,), nan=True)], cfg={"iv": Cfg(values=(0.0, -1.0, 3.0))} if initial else {},
                    ghost0=ghost0, ghost_sym=ghost_sym, step=step, init_is_step=True,
                    state=lambda S, g, cfg: {"prev_output/y": g["py"], "prev_output/z/0": g["pz"], "user/s": g["s"], "user/n": g["n"]},
                    params=lambda S, cfg: {"w": w_of()})


def scan_cases(prop):
    from wax.flax.core import streaming_transforms as ST
    from flax.core import FrozenDict
    out = []
    fn = flax_fn()
    xfn = lambda x: fn(x["a"], x["b"])

    def wrap(w, s, n):
        return {"user": {"w": w}}, FrozenDict({"state": {"user": {"s": s}}, "memory": {"user": {"n": n}}})

    def add(name, code, fns, reset, given=True, prop=prop):
        def spec(S, xs):
            a, b, w, s, n, k = xs
            if not given:
                # the state the library's init returns for the first row
                def i(k, a0, b0):
                    p, st = ST.streaming_transform_with_state(xfn).init(k, {"a": a0, "b": b0})
                    return p["user"]["w"], st["state"]["user"]["s"], st["memory"]["user"]["n"]
                k0 = k if given is None else jx(lambda: jax.random.PRNGKey(0))
                w, s, n = jx(i, k0, row(a, 0), row(b, 0))
            step = lambda g, t: o1("fstep", w, g["s"], g["n"], row(a, t), row(b, t), out=[F0, V2, F0, I0])

            def nxt(g, t):
                _, _, s2, n2 = step(g, t)
                if not reset:
                    return {"s": s2, "n": n2}
                e = opaque("frst", row(a, t), row(b, t), out=[B0])()
                return {"s": SArr((), "float32", lambda: ite(e, s(), s2())), "n": SArr((), "int32", lambda: ite(e, n(), n2()))}
            G = Ghost("u", {"s": s, "n": n}, nxt)
            N = a.shape[0]
            fin = G.at(N)
            return {"0/y": seq(N, (), "float32", lambda t: step(G.at(t), t)[0]), "0/z/0": seq(N, (2,), "float32", lambda t: step(G.at(t), t)[1]),
                    "1/state/user/s": fin["s"], "1/memory/user/n": fin["n"]}, [G]
        out.append(FnCase(prop, name, code, fns=["wax/flax/core/streaming_transforms.py:" + f for f in fns],
                          inputs=[Inp(("T",), nan=False), Inp(("T", 2), nan=False), Inp((2,), nan=False), Inp((), nan=False), Inp((), "int32"), Inp((2,), "uint32", key=True)],
                          dims=("T",), min_sizes={"T": 1}, spec=spec))

    def plain(a, b, w, s, n, k):
        p, st = wrap(w, s, n)
        return ST.streaming_transform_with_state(xfn).scan(p, st, k, {"a": a, "b": b})
    add("flax.StreamingTransform.scan", plain, ["StreamingTransform.scan", "StreamingTransform.apply"], False)
    for reset in (False, True):
        rst = (lambda x: opaque("frst", x["a"], x["b"], out=[B0])) if reset else None
        mk = (lambda r=rst: ST.streaming_scan(reset_on=r)(xfn)) if reset else (lambda: ST.streaming_scan(xfn))
        for given in (True, False, None):
            def code(a, b, w, s, n, k, mk=mk, given=given):
                p, st = wrap(w, s, n)
                if given:
                    return mk().scan_apply({"a": a, "b": b}, p, st, rng=k)
                return mk().scan_apply({"a": a, "b": b}, **({"rng": k} if given is None else {}))
            add(f"flax.streaming_scan[reset={reset},{'state given' if given else 'fresh' if given is False else 'fresh,rng'}]", code, ["streaming_scan"], reset, given)
    return out


def flax_cases(prop, tier):
    out = []
    for ev in (True, False):
        for ini in (False, True):
            for th in ("decorator", "module"):
                out.append(flax_cond(prop, ev, ini, th))
    return out + scan_cases(prop)
