"""Agent/environment feedback: GymFeedback (Haiku, Flax), HaikuEnv, HaikuAgent, gym_unroll and its callbacks."""
from ..lib import *

V2 = ((2,), "float32")
F0 = ((), "float32")
CFGW = lambda: {"w": Cfg(values=(0.3, 1.0, -2.0))}
fs = lambda n, shape=(): sym(n, shape, "float32", nan=False)
HK = "wax/modules/gym_feedback.py:"


# ------------------------------------------------- an arbitrary stateful agent and environment (uninterpreted)
def user(cw):
    """agent(obs) -> (action, info), env(action, raw_obs) -> (reward, obs, info); obs is a tree of two leaves"""
    import haiku as hk

    class Agent(hk.Module):
        def __call__(self, obs):
            w = hk.get_parameter("w", (2,), init=lambda *_: opaque("ga_w0", cw, out=[V2]))
            s = hk.get_state("s", (), init=lambda *_: opaque("ga_s0", cw, out=[F0]))
            a, i, s2 = opaque("gagent", w, s, obs["p"], obs["q"], out=[V2, F0, F0])
            hk.set_state("s", s2)
            return a, {"i": i}

    class Env(hk.Module):
        def __call__(self, action, raw):
            s = hk.get_state("s", (2,), init=lambda *_: opaque("ge_s0", cw, out=[V2]))
            rw, p, q, i, s2 = opaque("genv", s, action, raw["p"], raw["q"], out=[F0, F0, V2, F0, V2])
            hk.set_state("s", s2)
            return rw, {"p": p, "q": q}, {"i": i}
    return Agent, Env


class Ref:
    """the reference semantics, over ghost terms"""

    def __init__(self, cw):
        self.cw = cw
        self.w = opaque("ga_w0", cw, out=[V2])
        self.sa0, self.se0 = opaque("ga_s0", cw, out=[F0]), opaque("ge_s0", cw, out=[V2])

    def agent(self, s, p, q):
        return opaque("gagent", self.w, s, p, q, out=[V2, F0, F0])

    def env(self, s, a, p, q):
        return opaque("genv", s, a, p, q, out=[F0, F0, V2, F0, V2])


def feedback(prop, ret_obs, ret_act, init_action, layout):
    from wax.modules.gym_feedback import GymFeedback
    import haiku as hk

    def make(cfg):
        Agent, Env = user(cfg["w"])

        def f(p, q):
            kw = {}
            if init_action:
                kw["init_action"] = opaque("g_a0", cfg["w"], out=[V2])
            if ret_obs:
                kw["return_obs"] = True
            if ret_act:
                kw["return_action"] = True
            if layout == "modules":
                agent, env = Agent(name="agent"), Env(name="env")
            else:
                agent, env = (lambda o: Agent(name="agent")(o)), (lambda a, r: Env(name="env")(a, r))
            o, info = GymFeedback(agent, env, **kw)({"p": p, "q": q})
            d = {"rw": o.reward, "ie": info.env["i"], "ia": info.agent["i"]}
            if ret_obs:
                d.update(o.obs)
            if ret_act:
                d["a"] = o.action
            assert set(o._fields) == {"reward"} | ({"obs"} if ret_obs else set()) | ({"action"} if ret_act else set())
            return d
        return f

    def ghost0(S, cfg, xs):
        r = Ref(const((), cfg["w"]))
        a = opaque("g_a0", r.cw, out=[V2]) if init_action else r.agent(r.sa0, *xs)[0]
        return dict(a=a, sa=r.sa0, se=r.se0)

    def step(S, cfg, g, xs):
        r = Ref(const((), cfg["w"]))
        rw, p, q, ie, se = r.env(g["se"], g["a"], *xs)
        a, ia, sa = r.agent(g["sa"], p, q)
        out = {"rw": rw, "ie": ie, "ia": ia}
        if ret_obs:
            out.update(p=p, q=q)
        if ret_act:
            out["a"] = a
        return dict(a=a, sa=sa, se=se), out
    return StepCase(prop, f"haiku.GymFeedback[{'init_action' if init_action else 'agent starts'}{',return_obs' if ret_obs else ''}{',return_action' if ret_act else ''},{layout}]",
                    haiku_pair(make), fns=[HK + "GymFeedback.__call__", HK + "GymOutput.format"], inputs=[Inp((), nan=False), Inp((2,), nan=False)], cfg=CFGW(),
                    ghost0=ghost0, ghost_sym=lambda S, cfg: dict(a=fs("g.a", (2,)), sa=fs("g.sa"), se=fs("g.se", (2,))), step=step,
                    params=lambda S, cfg: {"agent/w": Ref(const((), cfg["w"])).w},
                    state=lambda S, g, cfg: {"action/action": g["a"], "agent/s": g["sa"], "env/s": g["se"]})


def flax_feedback(prop, loop, reward, stateful):
    import flax.linen as nn
    from wax.flax.modules.gym_feedback import GymFeedback, GymFeedbackLoop

    def agent(cw):
        if not stateful:
            return (lambda o, r: opaque("fagent", o, r, out=[V2])) if reward == "used" else (lambda o: opaque("fagent", o, out=[V2]))

        class Agent(nn.Module):
            @nn.compact
            def __call__(self, o, *r):
                if reward == "unused" and r:
                    raise TypeError("takes one observation")
                w = self.param("w", lambda _: opaque("ga_w0", cw, out=[V2]))
                s = self.variable("state", "s", lambda: opaque("ga_s0", cw, out=[F0]))
                a, s.value = opaque("fagent", w, s.value, o, *r, out=[V2, F0])
                return a
        return Agent()
    K = GymFeedbackLoop if loop else GymFeedback
    init0, apply0 = flax_pair(lambda cfg: K(agent=agent(cfg["w"])))
    cut = lambda xs: xs if reward else xs[:1]

    def apply(p, s, key, cfg, *xs):
        o, st = apply0(p, s, key, cfg, *cut(xs))
        return ({"obs": o[0], "action": o[1], "reward": o[2]} if loop else {"action": o}), st

    def step(S, cfg, g, xs):
        o, r = xs
        rr = [r] if reward == "used" else []
        if stateful:
            a, s = opaque("fagent", opaque("ga_w0", const((), cfg["w"]), out=[V2]), g["s"], o, *rr, out=[V2, F0])
            g2 = dict(s=s, a=a)
        else:
            a = opaque("fagent", o, *rr, out=[V2])
            g2 = dict(a=a)
        return g2, {"action": a, **({"obs": o, "reward": r if reward else const((), 0)} if loop else {})}
    st = {"s": lambda g: g["s"]} if stateful else {}
    return StepCase(prop, f"flax.{K.__name__}[reward={reward or 'not given'},{'stateful' if stateful else 'function'} agent]",
                    (lambda key, cfg, *xs: init0(key, cfg, *cut(xs)), apply), init_is_step=True,
                    fns=["wax/flax/modules/gym_feedback.py:" + f for f in (["GymFeedbackLoop.__call__"] if loop else []) + ["GymFeedback.__call__"]],
                    inputs=[Inp((2,), nan=False), Inp((), nan=False)], cfg=CFGW(),
                    ghost0=lambda S, cfg: dict(a=const((2,), 0), **({"s": opaque("ga_s0", const((), cfg["w"]), out=[F0])} if stateful else {})),
                    ghost_sym=lambda S, cfg: dict(a=fs("g.a", (2,)), **({"s": fs("g.s")} if stateful else {})), step=step,
                    params=lambda S, cfg: {"w": opaque("ga_w0", const((), cfg["w"]), out=[V2])} if stateful else {},
                    state=lambda S, g, cfg: {"prev_action": g["a"], **{k: f(g) for k, f in st.items()}})


def cases(prop, tier="quick"):
    out = []
    for ret_obs in (False, True):
        for ret_act in (False, True):
            for ia in (False, True):
                for layout in ("functions", "modules"):
                    out.append(feedback(prop, ret_obs, ret_act, ia, layout))
    for loop in (False, True):
        for reward in (None, "used", "unused"):
            for st in (False, True):
                out.append(flax_feedback(prop, loop, reward, st))
    return out
