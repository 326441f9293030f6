"""Online learning: OptaxOptimizer, UpdateParams, FuncOptimizer, OnlineSupervisedLearner, OnlineOptimizer, newton."""
import jax
import jax.numpy as jnp

from .. import jaxsym as J
from ..lib import *

V2 = ((2,), "float32")
F0 = ((), "float32")
I0 = ((), "int32")
HK = "wax/modules/"


# --------------------------------------------------- an arbitrary model, loss and optimizer (all uninterpreted)
def hk_model(cw, kind="loss"):
    """A model with two parameters (w, v), and a state s; returns (loss, info) or a prediction."""
    import haiku as hk

    class Lin(hk.Module):
        def __call__(self, a):
            w = hk.get_parameter("w", (2,), init=lambda *_: opaque("ow0", cw, out=[V2]))
            v = hk.get_parameter("v", (2,), init=lambda *_: opaque("ov0", cw, out=[V2]))
            s = hk.get_state("s", (), init=lambda *_: opaque("os0", cw, out=[F0]))
            if kind == "pred":
                y, s2 = opaque("opred", w, v, s, a, out=[V2, F0])
                hk.set_state("s", s2)
                return y
            loss, z, s2 = opaque("oloss", w, v, s, a[1], out=[F0, V2, F0])
            hk.set_state("s", s2)
            return loss * a[0], {"z": z}  # not finite (like its gradient) when a[0] is not
    if kind == "pred":
        return lambda x: Lin(name="lin")(x)
    return lambda a, b: Lin(name="lin")((a, b))


def gt(out=V2, start=None):
    """an arbitrary gradient transformation over the parameter tree, whose update uses the gradients, its state and the parameters"""
    import optax
    lv = jax.tree_util.tree_leaves

    def init(params):
        return opaque("gt0", *(lv(params) if start is None else [start]), out=[V2])

    def update(g, st, params=None):
        gl = lv(g)
        r = opaque("gtu", *gl, st, *lv(params), out=[out] * len(gl) + [V2])
        return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(g), r[:-1]), r[-1]
    return optax.GradientTransformation(init, update)


def gt_step(ps, gs, st):
    """specification: (new params, new optimizer state)"""
    r = opaque("gtu", *gs, st, *ps, out=[V2] * (len(gs) + 1))
    add = lambda p, u: SArr((2,), "float32", lambda i: p(i) + u(i))
    return [add(p, u) for p, u in zip(ps, r)], r[-1]


pred_w = lambda module, name, value: name == "w"


def base(cfg):
    cw = const((), cfg["w"])
    return [opaque(n, cw, out=[V2]) for n in ("ow0", "ov0")] + [opaque("os0", cw, out=[F0])]


fs = lambda n, shape=(2,): sym(n, shape, "float32", nan=False)
CFGW = lambda: {"w": Cfg(values=(0.3, 1.0, -2.0))}


def online_optimizer(prop, train, proj, reg, ret, optmod):
    import haiku as hk
    from wax.modules.online_optimizer import OnlineOptimizer
    from wax.modules.optax_optimizer import OptaxOptimizer
    pick = train == "w"

    def project(params, opt):
        return jax.tree_util.tree_map(lambda p: opaque("proj", p, out=[V2]), params)

    def regul(params):
        return opaque("regul", *jax.tree_util.tree_leaves(params), out=[F0])

    def make(cfg):
        model = hk_model(cfg["w"])

        def f(a, b):
            kw = {}
            if pick:
                kw["params_predicate"] = pred_w
            if proj:
                kw["project_params"] = project
            if reg:
                kw["regularize_loss"] = regul
            m = hk.transform_with_state(model) if ret else model
            o = gt()
            i = OnlineOptimizer(m, OptaxOptimizer(o) if optmod else o, return_params=ret, **kw)(a, b)
            out = {"loss": i.loss, "z": i.model_info["z"]}
            if ret:
                out["w"], out["v"] = i.params["lin"]["w"], i.params["lin"]["v"]
            return out
        return f

    def ghost0(S, cfg):
        w, v, s = base(cfg)
        # Haiku orders parameters by name: v before w
        o = opaque("gt0", *([w] if pick else [v, w]), out=[V2])
        return dict(w=w, v=v, s=s, o=o, k=const((), 0, "int32"))

    def ghost_sym(S, cfg):
        return dict(w=fs("g.w"), v=fs("g.v"), s=fs("g.s", ()), o=fs("g.o"), k=gint("g.k", ()))

    def step(S, cfg, g, xs):
        a, b = xs

        def ref(w, v, s, a, b):
            def loss(tr):
                l, z, s2 = opaque("oloss", tr[-1], v if pick else tr[0], s, b, out=[F0, V2, F0])
                l = l * a
                if reg:
                    l = l + regul(tr)
                return l, (z, s2)
            (l, (z, s2)), gr = jax.value_and_grad(loss, has_aux=True)([w] if pick else [v, w])
            return l, z, s2, jax.tree_util.tree_map(jnp.nan_to_num, gr)
        l, z, s2, gr = jx(ref, g["w"], g["v"], g["s"], a, b)
        ps, o2 = gt_step([g["w"]] if pick else [g["v"], g["w"]], gr, g["o"])
        if proj:
            ps = [opaque("proj", p, out=[V2]) for p in ps]
        w2, v2 = ps[-1], (g["v"] if pick else ps[0])
        out = {"loss": l, "z": z}
        if ret:
            out.update(w=w2, v=v2)
        return dict(w=w2, v=v2, s=s2, o=o2, k=const((), T.add(g["k"](), 1), "int32")), out
    return StepCase(prop, f"haiku.OnlineOptimizer[train={train}{',project' if proj else ''}{',regularize' if reg else ''}{',return_params' if ret else ''}{',OptaxOptimizer' if optmod else ''}]",
                    haiku_pair(make), fns=[HK + "online_optimizer.py:OnlineOptimizer.__call__", HK + "optax_optimizer.py:OptaxOptimizer.__call__"],
                    inputs=[Inp((), inf=True), Inp((2,), nan=False)], cfg=CFGW(), ghost0=ghost0, ghost_sym=ghost_sym, step=step,
                    state=lambda S, g, cfg: {"lin/w": g["w"], "lin/v": g["v"], "lin/s": g["s"], "opt_state": g["o"], "step": g["k"]})


def fill0(x):
    return lane(x.shape, lambda v: ite(v.special, FV(val=0), v), x)


def func_optimizer(prop, which, train, fill, aux=True):
    from wax.modules.func_optimizer import FuncOptimizer
    from wax.modules.online_supervised_learner import OnlineSupervisedLearner
    from wax.modules.optax_optimizer import OptaxOptimizer
    pick = train == "w"
    sup = which == "OnlineSupervisedLearner"

    def make(cfg):
        def f(a, b):
            if sup:
                m = hk_model(cfg["w"], "pred")
                o = gt()
                y, i = OnlineSupervisedLearner(m, o if fill else OptaxOptimizer(o), lambda y, p: opaque("suploss", p, out=[F0]) * y,
                                               **({} if fill else {"grads_fill_nan_inf": False}))(b, a)
                return {"y": y, "loss": i.loss, "w": i.params["lin"]["w"], "v": i.params["lin"]["v"]}
            m = hk_model(cfg["w"])
            if not aux:
                m0 = m
                m = lambda a, b: m0(a, b)[0]
            kw = dict(params_predicate=pred_w) if pick else {}
            r, p = FuncOptimizer(m, OptaxOptimizer(gt()), has_aux=aux, grads_fill_nan_inf=fill, **kw)(a, b=b)
            out = {"w": p["lin"]["w"]}
            if not pick:
                out["v"] = p["lin"]["v"]
            if aux:
                out.update(loss=r[0], z=r[1]["z"])
            else:
                out.update(loss=r)
            return out
        return f

    def ghost0(S, cfg):
        w, v, s = base(cfg)
        return dict(w=w, v=v, s=s, o=opaque("gt0", *([w] if pick else [v, w]), out=[V2]))

    def ghost_sym(S, cfg):
        return dict(w=fs("g.w"), v=fs("g.v"), s=fs("g.s", ()), o=fs("g.o"))

    def step(S, cfg, g, xs):
        a, b = xs

        def ref(w, v, s, a, b):
            def loss(tr):
                vv = v if pick else tr[0]
                if sup:
                    p, s2 = opaque("opred", tr[-1], vv, s, b, out=[V2, F0])
                    return opaque("suploss", p, out=[F0]) * a, (p, s2)
                l, z, s2 = opaque("oloss", tr[-1], vv, s, b, out=[F0, V2, F0])
                return l * a, (z, s2)
            (l, (z, s2)), gr = jax.value_and_grad(loss, has_aux=True)([w] if pick else [v, w])
            return l, z, s2, gr
        l, z, s2, gr = jx(ref, g["w"], g["v"], g["s"], a, b)
        if fill:
            gr = [fill0(x) for x in gr]
        ps, o2 = gt_step([g["w"]] if pick else [g["v"], g["w"]], gr, g["o"])
        w2, v2 = ps[-1], (g["v"] if pick else ps[0])
        out = {"loss": l, "w": w2}
        if aux:
            out["y" if sup else "z"] = z
        if not pick:
            out["v"] = v2
        return dict(w=w2, v=v2, s=s2, o=o2), out
    return StepCase(prop, f"haiku.{which}[train={train},fill={fill}{'' if aux else ',no aux'}]", haiku_pair(make),
                    fns=[HK + "func_optimizer.py:FuncOptimizer.__call__", HK + "update_params.py:UpdateParams.__call__", HK + "update_params.py:get_init_params",
                         HK + "optax_optimizer.py:OptaxOptimizer.__call__"] + ([HK + "online_supervised_learner.py:OnlineSupervisedLearner.__call__"] if sup else []),
                    inputs=[Inp((), inf=True), Inp((2,), nan=False)], cfg=CFGW(), ghost0=ghost0, ghost_sym=ghost_sym, step=step,
                    state=lambda S, g, cfg: {"lin/w": g["w"], "lin/v": g["v"], "lin/s": g["s"], "opt_state": g["o"]})


def cases(prop, tier="quick"):
    out = []
    for train in ("all", "w"):
        for proj, reg, ret, om in ((0, 0, 0, 0), (1, 0, 1, 1), (0, 1, 1, 0), (1, 1, 0, 1)):
            out.append(online_optimizer(prop, train, bool(proj), bool(reg), bool(ret), bool(om)))
        for fill in (True, False):
            out.append(func_optimizer(prop, "FuncOptimizer", train, fill))
    out.append(func_optimizer(prop, "FuncOptimizer", "all", True, aux=False))
    for fill in (True, False):
        out.append(func_optimizer(prop, "OnlineSupervisedLearner", "all", fill))
    return out + flax_cases(prop, tier) + newton_cases(prop, tier)


# ------------------------------------------------------------------------------------------------ Flax
FXM = "wax/flax/modules/"


def flax_model(cw, ret="aux"):
    import flax.linen as nn

    class Lin(nn.Module):
        @nn.compact
        def __call__(self, a, b):
            w = self.param("w", lambda _: opaque("ow0", cw, out=[V2]))
            v = self.param("v", lambda _: opaque("ov0", cw, out=[V2]))
            loss, z = opaque("floss", w, v, b, out=[F0, V2])
            return loss * a, z

    class Model(nn.Module):
        @nn.compact
        def __call__(self, a, b):
            loss, z = Lin(name="lin")(a, b)
            return (loss, z) if ret == "aux" else loss
    return Model()


def flax_base(cfg):
    cw = const((), cfg["w"])
    return [opaque(n, cw, out=[V2]) for n in ("ow0", "ov0")]


PREDS = {"all": None, "w": pred_w, "none": lambda m, n, v: False}


def fx_train(train, w, v):
    return {"all": [v, w], "w": [w], "none": []}[train]


def flax_ref(train, w, v, a, b, reg=None):
    def ref(w, v, a, b):
        def loss(tr):
            ww, vv = (tr[-1] if tr else w), (tr[0] if len(tr) > 1 else v)
            l, z = opaque("floss", ww, vv, b, out=[F0, V2])
            l = l * a
            return (reg(l, ww, vv, z) if reg else l), z
        tr = fx_train(train, w, v)
        if not tr:
            return *loss(tr), []
        (l, z), gr = jax.value_and_grad(loss, has_aux=True)(tr)
        return l, z, gr
    return jx(ref, w, v, a, b)


def flax_func_optimizer(prop, train, aux, wrapped):
    from wax.flax.modules.func_optimizer import FuncOptimizer
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    def make(cfg):
        o = gt()
        kw = {} if PREDS[train] is None else {"params_predicate": PREDS[train]}
        return FuncOptimizer(fun=flax_model(cfg["w"], "aux" if aux else "loss"), opt=OptaxOptimizer(opt=o) if wrapped else o, has_aux=aux, **kw)
    init, apply0 = flax_pair(make)

    def apply(params, state, key, cfg, a, b):
        (r, grads, oi), st = apply0(params, state, key, cfg, a, b)
        out = {"loss": r[0] if aux else r, "grads": grads}
        if aux:
            out["z"] = r[1]
        if train != "none":
            out["opt"] = oi
        return out, st

    def ghost0(S, cfg):
        w, v = flax_base(cfg)
        tr = fx_train(train, w, v)
        return dict(w=w, v=v, **({"o": opaque("gt0", *tr, out=[V2])} if tr else {}))

    def ghost_sym(S, cfg):
        return dict(w=fs("g.w"), v=fs("g.v"), **({"o": fs("g.o")} if train != "none" else {}))

    def step(S, cfg, g, xs):
        w, v = g["w"], g["v"]
        l, z, gr = flax_ref(train, w, v, *xs)
        gr = [fill0(x) for x in gr]
        out = {"loss": l}
        if aux:
            out["z"] = z
        tr = fx_train(train, w, v)
        g2 = dict(g)
        if tr:
            ps, g2["o"] = gt_step(tr, gr, g["o"])
            g2["w"] = ps[-1]
            out["grads/params/lin/w"] = gr[-1]
            out["opt"] = g2["o"]
            if train == "all":
                g2["v"] = ps[0]
                out["grads/params/lin/v"] = gr[0]
        return g2, out

    def state(S, g, cfg):
        return {"lin/w": g["w"], "lin/v": g["v"], **({"opt_state": g["o"]} if "o" in g else {})}
    return StepCase(prop, f"flax.FuncOptimizer[train={train},has_aux={aux}{',OptaxOptimizer' if wrapped else ''}]", (init, apply), init_is_step=True,
                    fns=[FXM + "func_optimizer.py:FuncOptimizer.__call__", FXM + "update_params.py:UpdateParams.partition_params",
                         FXM + "update_params.py:UpdateParams.merge_params", FXM + "optax_optimizer.py:OptaxOptimizer.__call__", FXM + "fill_nan_inf.py:FillNanInf.__call__"],
                    inputs=[Inp((), inf=True), Inp((2,), nan=False)], cfg=CFGW(), ghost0=ghost0, ghost_sym=ghost_sym, step=step, state=state)


def flax_online_optimizer(prop, train, proj, reg, aux, wrapped):
    from wax.flax.modules.online_optimizer import OnlineOptimizer
    from wax.flax.modules.optax_optimizer import OptaxOptimizer

    def project(params):
        return jax.tree_util.tree_map(lambda p: opaque("proj", p, out=[V2]), params)

    def regul(loss, params, z):
        return loss + opaque("regul", params["lin"]["w"], params["lin"]["v"], *([z] if aux else []), out=[F0])

    def regul_ref(loss, w, v, z):
        return loss + opaque("regul", w, v, *([z] if aux else []), out=[F0])

    def make(cfg):
        o = gt()
        kw = {} if PREDS[train] is None else {"params_predicate": PREDS[train]}
        if proj:
            kw["project_params"] = project
        if reg:
            kw["regularize_loss"] = regul
        return OnlineOptimizer(model=flax_model(cfg["w"], "aux" if aux else "loss"), opt=OptaxOptimizer(opt=o) if wrapped else o, **kw)
    init0, apply0 = flax_pair(make)

    def apply(params, state, key, cfg, a, b):
        i, st = apply0(params, state, key, cfg, a, b)
        return {"loss": i.loss, "grads": i.grads, "params": i.params, **({"z": i.aux} if aux else {})}, st

    def ghost0(S, cfg):
        w, v = flax_base(cfg)
        return dict(w=w, v=v, o=opaque("gt0", *fx_train(train, w, v), out=[V2]))

    def ghost_sym(S, cfg):
        return dict(w=fs("g.w"), v=fs("g.v"), o=fs("g.o"))

    def step(S, cfg, g, xs):
        w, v = g["w"], g["v"]
        l, z, gr = flax_ref(train, w, v, *xs, reg=regul_ref if reg else None)
        gr = [jx(jnp.nan_to_num, x) for x in gr]
        ps, o2 = gt_step(fx_train(train, w, v), gr, g["o"])
        if proj:
            ps = [opaque("proj", p, out=[V2]) for p in ps]
        w2, v2 = ps[-1], ps[0] if train == "all" else v
        out = {"loss": l, "grads/lin/w": gr[-1], "params/lin/w": w2, "params/lin/v": v2}
        if train == "all":
            out["grads/lin/v"] = gr[0]
        if aux:
            out["z"] = z
        return dict(w=w2, v=v2, o=o2), out
    return StepCase(prop, f"flax.OnlineOptimizer[train={train}{',project' if proj else ''}{',regularize' if reg else ''}{',aux' if aux else ''}{',OptaxOptimizer' if wrapped else ''}]",
                    (init0, apply), init_is_step=True,
                    fns=[FXM + "online_optimizer.py:OnlineOptimizer.__call__", FXM + "optax_optimizer.py:OptaxOptimizer.__call__"],
                    inputs=[Inp((), inf=True), Inp((2,), nan=False)], cfg=CFGW(), ghost0=ghost0, ghost_sym=ghost_sym, step=step,
                    state=lambda S, g, cfg: {"lin/w": g["w"], "lin/v": g["v"], "opt_state": g["o"]})


def optax_optimizer(prop, lib):
    if lib == "flax":
        from wax.flax.modules.optax_optimizer import OptaxOptimizer
        init, apply0 = flax_pair(lambda cfg: OptaxOptimizer(opt=gt(start=cfg["w"])))
        wrap = lambda f: lambda p, s, key, cfg, *xs: ((lambda o, st: ({"w": o[0]["w"], "v": o[0]["v"], "o": o[1]}, st))(*f(p, s, key, cfg, *xs)))
    else:
        from wax.modules.optax_optimizer import OptaxOptimizer
        init, apply0 = haiku_pair(lambda cfg: lambda p, g: OptaxOptimizer(gt(start=cfg["w"]))(p, g))
        wrap = lambda f: lambda p, s, key, cfg, *xs: (lambda o, st: (o, st))(*f(p, s, key, cfg, *xs))
    tree = lambda v, w: {"w": w, "v": v}
    ii = lambda key, cfg, v, w, gv, gw: init(key, cfg, tree(v, w), tree(gv, gw))
    aa = lambda p, s, key, cfg, v, w, gv, gw: wrap(apply0)(p, s, key, cfg, tree(v, w), tree(gv, gw))

    return StepCase(prop, f"{lib}.OptaxOptimizer", (ii, aa), init_is_step=lib == "flax",
                    fns=[("wax/modules/" if lib == "haiku" else FXM) + "optax_optimizer.py:OptaxOptimizer.__call__"],
                    inputs=[Inp((2,), nan=False) for _ in range(4)],
                    cfg=CFGW(), ghost0=lambda S, cfg: dict(o=opaque("gt0", const((), cfg["w"]), out=[V2])), ghost_sym=lambda S, cfg: dict(o=fs("g.o")),
                    step=lambda S, cfg, g, xs: (lambda ps, o: (dict(o=o), {"w": ps[1], "v": ps[0], **({"o": o} if lib == "flax" else {})}))(*gt_step(xs[:2], xs[2:], g["o"])),
                    state=lambda S, g, cfg: {"opt_state": g["o"]})


def streaming_optimizer_case(prop, aux, target, through):
    """Flax StreamingOptimizer / streaming_optimizer: the scale of an arbitrary model is trained online."""
    from wax.flax.core import streaming_transforms as ST
    from wax.flax.core.transform import flax_transform_with_state

    def model(*xs):
        y, z = opaque("smodel", *xs, out=[V2, F0])
        return (y, z) if aux else y

    def loss_fn(p, t):
        return opaque("sloss", p, t, out=[F0])

    deco = through == "streaming_optimizer"

    def tf():
        import flax.linen as nn
        if deco:
            return ST.streaming_optimizer(gt(F0), loss_fn, has_aux=aux)(model)

        class Top(nn.Module):
            @nn.compact
            def __call__(self, *xs):
                return ST.StreamingOptimizer(optimizer=gt(F0), loss_fn=loss_fn, has_aux=aux)(model, *xs)
        return flax_transform_with_state(Top())

    def init(key, cfg, *xs):
        return tf().init(key, *xs[:2 if target else 1])

    def apply(params, state, key, cfg, *xs):
        o, st = tf().apply(params, state, None, *xs[:2 if target else 1])
        li, pi = (o, None) if deco else o
        return {"loss": li[0], "y": li[1], **({"z": li[2]} if aux else {}), **({} if deco else {"scale": pi["scale"], "grad": pi["grads"]})}, st

    def step(S, cfg, g, xs):
        xs = xs[:2 if target else 1]

        def ref(s, *xs):
            y, z = opaque("smodel", *xs, out=[V2, F0])
            l, gr = jax.value_and_grad(lambda s: opaque("sloss", y * s, xs[-1], out=[F0]))(s)
            return y, z, l, gr
        y, z, l, gr = jx(ref, g["s"], *xs)
        u, o2 = opaque("gtu", gr, g["o"], g["s"], out=[F0, V2])
        s2 = SArr((), "float32", lambda: g["s"]() + u())
        out = {"loss": l, "y": y, **({} if deco else {"scale": s2, "grad": gr})}
        if aux:
            out["z"] = z
        return dict(s=s2, o=o2), out
    return StepCase(prop, f"flax.StreamingOptimizer[has_aux={aux},{'target' if target else 'no target'},{through}]", (init, apply), init_is_step=True,
                    fns=["wax/flax/core/streaming_transforms.py:StreamingOptimizer.__call__", "wax/flax/core/streaming_transforms.py:streaming_optimizer"],
                    inputs=[Inp((), nan=False), Inp((2,), nan=False)], 
                    ghost0=lambda S, cfg: (lambda one: dict(s=one, o=opaque("gt0", one, out=[V2])))(const((), 1)),
                    ghost_sym=lambda S, cfg: dict(s=fs("g.s", ()), o=fs("g.o")), step=step,
                    state=lambda S, g, cfg: {"scale": g["s"], "opt_state": g["o"]})


def flax_learner(prop):
    """OnlineSupervisedLearner: the second prediction uses the parameters updated by the first step"""
    from wax.flax.core.transform import flax_transform_with_state
    from wax.flax.modules.online_supervised_learner import OnlineSupervisedLearner
    import flax.linen as nn

    def model(c):
        class Model(nn.Module):
            @nn.compact
            def __call__(self, x):
                return opaque("fpred", self.param("w", lambda _: opaque("ow0", c, out=[V2])), x, out=[V2])
        return Model()
    ls = lambda p, y: opaque("suploss", p, y, out=[F0])

    def code(c, x0, y0, x1, y1):
        m = OnlineSupervisedLearner(model=model(c), loss_fn=ls, opt=gt())
        p, s = flax_transform_with_state(m).init(jax.random.PRNGKey(0), x0, y0)
        (p1, i1), s = flax_transform_with_state(m).apply(p, s, None, x1, y1)
        return {"prediction": p1, "loss": i1["loss"]}

    def spec(S, xs):
        c, x0, y0, x1, y1 = xs
        w = opaque("ow0", c, out=[V2])
        gr = jx(lambda w, x, y: jax.grad(lambda w: ls(opaque("fpred", w, x, out=[V2]), y))(w), w, x0, y0)
        (w2,), _ = gt_step([w], [fill0(gr)], opaque("gt0", w, out=[V2]))
        p = opaque("fpred", w2, x1, out=[V2])
        return {"prediction": p, "loss": ls(p, y1)}, []
    return FnCase(prop, "flax.OnlineSupervisedLearner[second step]", code, fns=[FXM + "online_supervised_learner.py:OnlineSupervisedLearner.__call__"],
                  inputs=[Inp((), nan=False)] + [Inp((2,), nan=False) for _ in range(4)], spec=spec)


def flax_cases(prop, tier):
    out = [flax_learner(prop), optax_optimizer(prop, "haiku"), optax_optimizer(prop, "flax")]
    for train in ("all", "w", "none"):
        for aux, wr in ((True, False), (False, True)):
            out.append(flax_func_optimizer(prop, train, aux, wr))
    for train in ("all", "w"):
        for proj, reg, aux, wr in ((0, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 0), (1, 1, 0, 0)):
            out.append(flax_online_optimizer(prop, train, bool(proj), bool(reg), bool(aux), bool(wr)))
    for th in ("streaming_optimizer", "StreamingOptimizer"):
        for aux, target in ((False, True), (True, False)):
            out.append(streaming_optimizer_case(prop, aux, target, th))
    return out


def newton_cases(prop, tier):
    shapes = [((1,), "newton"), ((2,), "newton"), ((1, 2), "newton"), ((3,), "newton"), ((2, 2), "newton"), ((2,), "scale_by_newton")]
    return [newton_case(prop, sh, th) for sh, th in shapes] + [inverse_lemma(prop, n) for n in (1, 2)]


# -------------------------------------------------------------------------------- the online Newton optimizer
def mdot(n, f):
    acc = None
    for k in range(n):
        acc = f(k) if acc is None else T.fadd(acc, f(k))
    return acc


def sm(H, g, n):
    """Sherman-Morrison update of the inverse of A by g gT: H - (H g)(gT H) / (1 + gT H g)"""
    Hg = lambda i: mdot(n, lambda j: H(i, j) * g(j))
    gH = lambda k: mdot(n, lambda j: g(j) * H(j, k))
    q = mdot(n, lambda j: gH(j) * g(j))
    # every matrix reached from init is positive semidefinite
    if not T.CTX.concrete:
        T.CTX.assume(T.le(0, q.val))
    den = T.fadd(FV(val=1), q)
    return SArr((n, n), "float32", lambda i, k: H(i, k) - Hg(i) * gH(k) / den)


def newton_case(prop, shape, through):
    """one leaf of each shape; state: the inverse of the accumulated matrix of each leaf"""
    import math
    from wax.optim.newton import newton, scale_by_newton
    n = max(1, math.prod(shape))
    tree = lambda b, w: {"b": b, "w": w}

    def opt(cfg):
        return newton(cfg["lr"], eps=cfg["eps"]) if through == "newton" else scale_by_newton(eps=cfg["eps"])

    def init(key, cfg, b, w):
        return {}, opt(cfg).init(tree(b, w))

    def apply(params, state, key, cfg, b, w):
        return opt(cfg).update(tree(b, w), state)
    flat = lambda a, n: SArr((n,), "float32", (lambda i: a()) if a.ndim == 0 else (lambda i: a(i)) if a.ndim == 1
                             else lambda i: a(i // a.shape[1], i % a.shape[1]))

    def H(n, tag):
        return fs(tag, (n, n))

    def step(S, cfg, g, xs):
        out, g2 = {}, {}
        for name, x, m in (("b", xs[0], 1), ("w", xs[1], n)):
            gr = flat(x, m)
            g2[name] = H2 = sm(g[name], gr, m)
            u = lambda i, H2=H2, gr=gr, m=m: mdot(m, lambda k: H2(i, k) * gr(k))
            if through == "newton":
                u = lambda i, u=u: -(cfg["lr"] * u(i))
            out[name] = SArr(x.shape, "float32", lambda *i, u=u, x=x: u(0 if not i else i[0] if len(i) == 1 else i[0] * x.shape[1] + i[1]))
        return g2, out

    def ghost0(S, cfg):
        eye = lambda m: SArr((m, m), "float32", lambda i, k: ite(T.eq(i, k), FV(val=1) / cfg["eps"], FV(val=0)))
        return {"b": eye(1), "w": eye(n)}
    return StepCase(prop, f"{through}[parameter shapes (), {shape}]", (init, apply),
                    fns=["wax/optim/newton.py:scale_by_newton.init_fn", "wax/optim/newton.py:scale_by_newton.update_fn", "wax/optim/newton.py:sherman_morrison"]
                    + (["wax/optim/newton.py:newton"] if through == "newton" else []),
                    inputs=[Inp((), nan=False), Inp(shape, nan=False)], cfg={"lr": Cfg(values=(0.5, 1.0)), "eps": Cfg(values=(0.5, 2.0), pre=lambda v: T.lt(0, v.val))},
                    ghost0=ghost0, ghost_sym=lambda S, cfg: {"b": H(1, "g.b"), "w": H(n, "g.w")}, step=step,
                    state=lambda S, g, cfg: {"hessian_inv/b": g["b"], "hessian_inv/w": g["w"]}, bounded=f"parameters of {n} elements")


def inverse_lemma(prop, n):
    """if H is the inverse of A then sherman_morrison(H, g, g) is the inverse of A + g gT"""
    from wax.optim.newton import sherman_morrison

    def inv(H):
        if n == 1:
            return 1 / H
        return jnp.stack([jnp.stack([H[1, 1], -H[0, 1]]), jnp.stack([-H[1, 0], H[0, 0]])]) / (H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0])

    def code(H, g):
        m = (inv(H) + jnp.outer(g, g)) @ sherman_morrison(H, g, g)
        return {f"{i}{j}": m[i, j] for i in range(n) for j in range(n)}

    def pre(S, xs):
        H, g = xs
        v = lambda *i: H(*i).val
        det = v(0, 0) if n == 1 else v(0, 0) * v(1, 1) - v(0, 1) * v(1, 0)
        q = mdot(n, lambda i: mdot(n, lambda j: g(i) * H(i, j) * g(j))).val
        return And(Not(T.eq(det, 0)), T.le(0, q))
    return FnCase(prop, f"sherman_morrison[inverse, {n} parameters]", code, fns=["wax/optim/newton.py:sherman_morrison"],
                  inputs=[Inp((n, n), nan=False, values=(1.0, 2.0, 0.5, -1.0, 3.0)), Inp((n,), nan=False, values=(1.0, -2.0, 0.5, 0.0))],
                  spec=lambda S, xs: ({f"{i}{j}": const((), int(i == j)) for i in range(n) for j in range(n)}, []), pre=pre,
                  bounded=f"{n} parameters")
