"""The host-side (gym style) loop: gym_unroll, HaikuAgent, HaikuEnv, Record, Stop."""
from types import SimpleNamespace

import numpy as np
import z3

from .. import pysym as Y
from .. import terms as T
from ..host import HostCase, Retry, Tok
from ..terms import And, Not, Or


def sbool(name):
    return Y.Sc("b", z3.Bool(name))


def entails(c):
    s = z3.Solver()
    s.set("timeout", 1000)
    s.add(*Y.EX.hyps(), T.zb(Not(c)))
    return s.check() == z3.unsat


# ------------------------------------------------------------------------------------------------ gym_unroll
class LoopHandler:
    """invariant: the observation carried into an iteration is an arbitrary one, nothing else is carried"""

    def __init__(self, first, cut, back, plan):
        self.first, self.cut, self.onback, self.plan = first, cut, back, plan
        self.L = None

    def enter(self, L, loc):
        if self.L is not None:
            raise Y.Mismatch("a second loop of unknown length")
        self.L = L
        self.cut()
        keep, self.obs_names, self.const = {}, [], {}
        for nm, v in loc.items():
            if nm.startswith("__wv"):
                continue
            if isinstance(v, Tok) and v == self.first():
                keep[nm] = Tok("o")
                self.obs_names.append(nm)
            elif (v is None or isinstance(v, (bool, int, str))) and nm not in self.plan.get("vary", ()):
                keep[nm] = v
                self.const[nm] = v
        return keep

    def back(self, L, loc):
        changed = set()
        for nm, v in self.const.items():
            w = loc.get(nm)
            if w is v or (type(w) is type(v) and w == v):
                continue
            if isinstance(w, Y.Sc) and isinstance(v, bool) and w.kind == "b" and entails(T.Iff(w.v, v)):
                continue
            changed.add(nm)
        if changed:
            self.plan.setdefault("vary", set()).update(changed)
            raise Retry()
        self.onback({nm: loc.get(nm) for nm in self.obs_names})


def unroll_case(prop, given_obs, ncb, via_agent):
    """ncb callbacks of every kind; the last of the on_step callbacks returns nothing"""

    def scenario(ob, plan):
        EV = []
        phase = ["start"]
        d, sd = sbool("done"), [sbool(f"step_done{k}") for k in range(max(0, ncb - 1))]

        def agent_call(o):
            EV.append(("agent", o))
            return Tok("action", o)

        class Ag:
            def __call__(self, o):
                return agent_call(o)

            def reset(self):
                EV.append(("agent.reset",))

        class En:
            def reset(self):
                EV.append(("reset",))
                return Tok("first")

            def step(self, a):
                EV.append(("step", a))
                return Tok("obs'"), Tok("rw"), d, Tok("info")

            def close(self):
                EV.append(("close",))
        agent, env = Ag(), En()
        rec = lambda what, k: (lambda *a: EV.append((what, k) + a))

        def on_step(k):
            def f(*a):
                EV.append(("on_step", k) + a)
                return sd[k] if k < len(sd) else None
            return f
        cbs = [(rec("on_train_start", k), rec("on_act", k), on_step(k), rec("on_train_end", k)) for k in range(ncb)]
        first = Tok("given") if given_obs else Tok("first")

        def norm(e):
            """arguments of a call, by position"""
            return tuple("agent" if x is agent else "env" if x is env else ("state",) + tuple(getattr(x, f, None) for f in ("rw", "obs", "action", "done", "info"))
                         if hasattr(x, "_fields") else x for x in e)

        def events(what, want):
            got = [norm(e) for e in EV]
            want = [norm(e) for e in want]
            ok = len(got) == len(want) and all(len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b)) for a, b in zip(got, want))
            ob(what, ok)
            EV.clear()

        def eq(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return len(x) == len(y) and all(eq(a, b) for a, b in zip(x, y))
            if isinstance(x, Y.Sc) or isinstance(y, Y.Sc):
                return x is y
            return x == y
        state = SimpleNamespace(_fields=1, rw=Tok("rw"), obs=Tok("obs'"), action=Tok("action", Tok("o")), done=d, info=Tok("info"))

        def iteration(o):
            return [("agent", o)] + [("on_act", k, env, agent, o, Tok("action", o)) for k in range(ncb)] + \
                [("step", Tok("action", o))] + [("on_step", k, env, agent, state) for k in range(ncb)]
        stop = Or(d.v, *[s.v for s in sd])

        def cut():
            phase[0] = "loop"
            events("before the loop", ([] if given_obs else [("reset",)]) + [("on_train_start", k, env, agent, first) for k in range(ncb)])

        def onback(names):
            events("one iteration: act, step and callbacks in order", iteration(Tok("o")))
            ob("continues only while not done", Not(stop))
            ob("next observation is the environment's", all(v == Tok("obs'") for v in names.values()) and bool(names))
        h = LoopHandler(lambda: first, cut, onback, plan)
        m = Y.load("wax.gym.gym_unroll", Y.Hooks(h, cut_while=True), {}, whiles=True)
        kw = dict(obs=first if given_obs else None, callbacks=cbs if ncb else None)
        if via_agent:
            ma = Y.load("wax.gym.agent", Y.Hooks(None), dict(gym_unroll=m.gym_unroll))

            class A2(ma.Agent):
                __call__ = Ag.__call__
                reset = Ag.reset
            agent = A2()
            r = agent.unroll(env, **kw)
        else:
            r = m.gym_unroll(agent, env, **kw)
        if phase[0] != "loop":
            raise Y.Mismatch("no loop")
        events("last iteration, then the end callbacks and close",
               iteration(Tok("o")) + [("on_train_end", k, env, agent) for k in range(ncb)] + [("close",)])
        ob("ends only when done", stop)
        ob("returns the last state", eq(norm((r,)), norm((state,))))

    def concrete(rng):
        from wax.gym.gym_unroll import gym_unroll
        n = int(rng.integers(1, 6))
        class Log(list):
            def append(self, x):
                if len(self) > 2000:
                    raise RuntimeError("the episode does not end")
                list.append(self, x)
        log = Log()
        stop_at = int(rng.integers(1, 8))
        cnt = [0]

        class En:
            t = 0

            def reset(self):
                log.append("reset")
                return 100

            def step(self, a):
                self.t += 1
                log.append(("step", a))
                return 100 + self.t, 10 * self.t, self.t >= n, {"t": self.t}

            def close(self):
                log.append("close")

        class Ag:
            def __call__(self, o):
                log.append(("agent", o))
                return ("a", o)

            def reset(self):
                log.append("agent.reset")

        def mk(k):
            def os_(e, a, s):
                log.append(("on_step", k, s.rw, s.obs, s.action, bool(s.done), s.info["t"]))
                if k < ncb - 1:
                    return cnt[0] + 1 >= stop_at if not cnt.append(0) and not cnt.__setitem__(0, cnt[0] + (k == 0)) else None
                return None
            return (lambda e, a, o: log.append(("start", k, o)), lambda e, a, o, c: log.append(("act", k, o, c)), os_,
                    lambda e, a: log.append(("end", k)))
        o0 = 55 if given_obs else None
        want = ([] if given_obs else ["reset"])
        cur = 55 if given_obs else 100
        want += [("start", k, cur) for k in range(ncb)]
        c = 0
        for t in range(1, 100):
            a = ("a", cur)
            want += [("agent", cur)] + [("act", k, cur, a) for k in range(ncb)] + [("step", a)]
            cur = 100 + t
            dn = t >= n
            want += [("on_step", k, 10 * t, cur, a, dn, t) for k in range(ncb)]
            c += 1
            if dn or (ncb > 1 and c + 1 >= stop_at):
                break
        want += [("end", k) for k in range(ncb)] + ["close"]
        env, agent = En(), Ag()
        cb = [mk(k) for k in range(ncb)] if ncb else None
        try:
            if via_agent:
                from wax.gym.agent import Agent

                class A2(Agent):
                    __call__ = Ag.__call__
                    reset = Ag.reset
                st = A2().unroll(env, obs=o0, callbacks=cb)
            else:
                st = gym_unroll(agent, env, obs=o0, callbacks=cb)
        except Exception as e:
            return {"episode": n, "why": f"raised {type(e).__name__}: {e}"[:300]}
        if log != want:
            k = next((i for i, (x, y) in enumerate(zip(log, want)) if x != y), min(len(log), len(want)))
            return {"episode": n, "why": f"event {k} is {log[k:k + 1]}, expected {want[k:k + 1]}", "events": [str(e) for e in log]}
        if (st.rw, st.obs, st.action, st.info["t"]) != (10 * t, cur, a, t):
            return {"episode": n, "why": f"returned state {st}"}
        return None
    return HostCase(prop, f"gym_unroll[{'obs given' if given_obs else 'env.reset'},{ncb} callbacks{',Agent.unroll' if via_agent else ''}]",
                    ["wax/gym/gym_unroll.py:gym_unroll", "wax/gym/callbacks/callbacks.py:unpack_callbacks", "wax/gym/callbacks/callbacks.py:local_callbacks"] +
                    (["wax/gym/agent.py:Agent.unroll"] if via_agent else []),
                    scenario, concrete, bounded=None if ncb == 0 else f"{ncb} callbacks of each kind; episodes of any length")


# ------------------------------------------------------------------------------------------------ HaikuAgent / HaikuEnv
class Seq:
    def __init__(self, ev):
        self.n = 0

    def __next__(self):
        self.n += 1
        return Tok("key", self.n)

    next = __next__


def pair(ev, what):
    def init(*a, **k):
        ev.append((what + ".init", a, k))
        return Tok(what, "params", a), Tok(what, "state0", a)

    def apply(*a, **k):
        ev.append((what + ".apply", a, k))
        out = Tok(what, "out", len([1 for e in ev if e[0] == what + ".apply"]))
        return ((Tok("rw"), Tok("obs")) if what == "env" else out), Tok(what, "state'", len(ev))
    return SimpleNamespace(init=init, apply=apply)


def agent_case(prop, first):
    def scenario(ob, plan):
        ev = []
        m = Y.load("wax.gym.haiku_agent", Y.Hooks(None), {})
        a = m.HaikuAgent(pair(ev, "agent"))
        a._seq = Seq(ev)
        if first:
            if first == "after reset":
                a._params, a._state, a._initialized = Tok("old params"), Tok("old state"), True
                a.reset()
        else:
            a(Tok("obs0"))
            ev.clear()
            a._seq.n = 0
            a._params, a._state = Tok("params"), Tok("state")
        r = a(Tok("obs"))
        if first:
            ob("calls", [e[0] for e in ev] == ["agent.init", "agent.apply"])
            ob("init(key1, obs)", ev[0][1] == (Tok("key", 1), Tok("obs")) and not ev[0][2])
            P_, S_, k = Tok("agent", "params", ev[0][1]), Tok("agent", "state0", ev[0][1]), 2
        else:
            ob("calls", [e[0] for e in ev] == ["agent.apply"])
            P_, S_, k = Tok("params"), Tok("state"), 1
        ob("apply(params, state, fresh key, obs)", ev[-1][1] == (P_, S_, Tok("key", k), Tok("obs")) and not ev[-1][2])
        ob("returns the agent's action", r == Tok("agent", "out", 1))
        ob("params kept", a._params == P_)
        ob("state replaced", a._state == Tok("agent", "state'", len(ev)))

    def concrete(rng):
        import haiku as hk
        import jax.numpy as jnp
        from wax.gym.haiku_agent import HaikuAgent

        def f(x):
            c = hk.get_state("c", [], init=lambda *_: jnp.zeros(()))
            hk.set_state("c", c + x)
            return c * 10 + x
        a = HaikuAgent(hk.transform_with_state(f))
        c = 0.0
        for t in range(int(rng.integers(1, 6))):
            if rng.random() < 0.3:
                a.reset()
                c = 0.0
            x = float(rng.integers(-3, 4))
            r = float(a(x))
            if r != c * 10 + x:
                return {"step": t, "why": f"action {r}, expected {c * 10 + x}"}
            c += x
        return None
    return HostCase(prop, f"HaikuAgent.__call__[{first or 'later call'}]",
                    ["wax/gym/haiku_agent.py:HaikuAgent.__call__", "wax/gym/haiku_agent.py:HaikuAgent._initialize"] +
                    (["wax/gym/haiku_agent.py:HaikuAgent.reset"] if first == "after reset" else []), scenario, concrete)


def env_case(prop, mode):
    """mode: reset | first | later"""
    def scenario(ob, plan):
        ev = []
        ended = sbool("exhausted")
        cnt = [0]

        class Gen:
            def __iter__(self):
                return self

            def __next__(self):
                cnt[0] += 1
                if cnt[0] == live[0] and ended:
                    raise StopIteration
                return Tok("raw", cnt[0]), Tok("info", cnt[0])
        live = [0]
        m = Y.load("wax.gym.haiku_env", Y.Hooks(None), {})
        e = m.HaikuEnv(Gen(), pair(ev, "env"))
        e._seq = Seq(ev)
        if mode == "reset":
            e._params, e._state, e._initialized = Tok("old params"), Tok("old state"), True
            r = e.reset()
            ob("one observation is taken", cnt[0] == 1)
            ob("returns the raw observation", r == Tok("raw", 1))
            ob("info of that observation", e._info == Tok("info", 1))
            ob("the environment is not stepped", ev == [])
            live[0] = 2
        else:
            live[0] = 1
            e._info = Tok("info", 0)
            if mode == "later":
                e._initialized, e._params, e._state = True, Tok("params"), Tok("state")
        base = cnt[0]
        S0, P0 = e._state, e._params
        r = e.step(Tok("action"))
        ob("one observation is taken by a step", cnt[0] == base + 1)
        ob("a step returns (obs, reward, done, info)", isinstance(r, tuple) and len(r) == 4)
        obs, rw, done, info = r
        if not entails(Not(ended.v)):
            ob("exhausted: done", done is True)
            ob("exhausted: the environment is not stepped", ev == [])
            ob("exhausted: last info", info == Tok("info", base))
            return
        raw = Tok("raw", base + 1)
        k = 1
        if mode != "later":
            ob("calls", [x[0] for x in ev] == ["env.init", "env.apply"])
            ob("init(key1, action, raw_obs)", ev[0][1] == (Tok("key", 1), Tok("action"), raw) and not ev[0][2])
            P0, S0, k = Tok("env", "params", ev[0][1]), Tok("env", "state0", ev[0][1]), 2
        else:
            ob("calls", [x[0] for x in ev] == ["env.apply"])
        ob("apply(params, state, fresh key, action, raw_obs)", ev[-1][1] == (P0, S0, Tok("key", k), Tok("action"), raw) and not ev[-1][2])
        ob("obs", obs == Tok("obs"))
        ob("reward", rw == Tok("rw"))
        ob("not done", done is False)
        ob("info of that observation", info == Tok("info", base + 1))
        ob("params kept", e._params == P0)
        ob("state replaced", e._state == Tok("env", "state'", len(ev)))

    def concrete(rng):
        import haiku as hk
        import jax.numpy as jnp
        from wax.gym.haiku_env import HaikuEnv

        def f(a, x):
            c = hk.get_state("c", [], init=lambda *_: jnp.zeros(()))
            hk.set_state("c", c + x)
            return c * 10 + a, c + 100 * x
        xs = [float(v) for v in rng.integers(-3, 4, size=12)]
        it = iter([(x, {"i": i}) for i, x in enumerate(xs)])
        e = HaikuEnv(it, hk.transform_with_state(f))
        i, c = 0, 0.0
        for t in range(16):
            if t == 0 or (rng.random() < 0.1 and i < len(xs)):
                r = e.reset()
                if r != xs[i]:
                    return {"step": t, "why": f"reset returned {r}, expected {xs[i]}"}
                i, c = i + 1, 0.0
                continue
            a = float(rng.integers(-3, 4))
            obs, rw, done, info = e.step(a)
            if i >= len(xs):
                if not done:
                    return {"step": t, "why": "not done at the end of the data"}
                continue
            if done or float(rw) != c * 10 + a or float(obs) != c + 100 * xs[i] or info["i"] != i:
                return {"step": t, "why": f"step gives {(float(obs), float(rw), done, info)}, expected {(c + 100 * xs[i], c * 10 + a, False, i)}"}
            c += xs[i]
            i += 1
        return None
    return HostCase(prop, f"HaikuEnv[{mode}]", ["wax/gym/haiku_env.py:HaikuEnv.step"] + (["wax/gym/haiku_env.py:HaikuEnv.reset"] if mode == "reset" else []),
                    scenario, concrete)


# ------------------------------------------------------------------------------------------------ callbacks
def stop_case(prop):
    def scenario(ob, plan):
        m = Y.load("wax.gym.callbacks.stop", Y.Hooks(None), {})
        n, t = z3.Int("stop"), z3.Int("t")
        Y.EX.assume(t >= 0)
        s = m.Stop(Y.wrap("i", n))
        ob("starts at 0", s._t == 0)
        s._t = Y.wrap("i", t)
        r = s._on_step(None, None, None)
        ob("counts the step", T.eq(Y.unwrap(s._t)[1], t + 1))
        want = t + 1 >= n
        got = r.v if isinstance(r, Y.Sc) else bool(r)
        ob("stops at the given number of steps", T.Iff(got, want))

    def concrete(rng):
        from wax.gym.callbacks.stop import Stop
        n = int(rng.integers(1, 5))
        s = Stop(n)
        for t in range(1, 9):
            if bool(s._on_step(None, None, None)) != (t >= n):
                return {"stop": n, "why": f"at step {t}"}
    return HostCase(prop, "Stop", ["wax/gym/callbacks/stop.py:Stop._on_step"], scenario, concrete)


def record_case(prop, return_obs, return_action):
    from jax.tree_util import tree_flatten

    def scenario(ob, plan):
        m = Y.load("wax.gym.callbacks.record", Y.Hooks(None), {})
        done = sbool("done")
        stacks = []

        class NP:
            def __getattr__(self, k):
                return getattr(np, k)

            def stack(self, x, axis=0):
                stacks.append((list(x), axis))
                return Tok("stacked", len(stacks))
        m.np = NP()
        st = SimpleNamespace(rw=Tok("rw"), obs={"a": Tok("oa"), "b": Tok("ob")}, action=[Tok("ac")], done=done, info=Tok("info"))
        leaves = [Tok("rw")] + ([Tok("oa"), Tok("ob")] if return_obs else []) + ([Tok("ac")] if return_action else [])
        for later in (False, True):
            r = m.Record(return_obs=return_obs, return_action=return_action)
            pre = [[] for _ in leaves]
            if later:
                st0 = SimpleNamespace(rw=Tok("rw0"), obs={"a": Tok("oa0"), "b": Tok("ob0")}, action=[Tok("ac0")], done=False, info=Tok("info"))
                r._on_step(None, None, st0)
                # an arbitrary history: one token standing for all earlier entries
                for k, s in enumerate(r._sequence):
                    s[:] = [Tok("earlier", k)]
                pre = [[Tok("earlier", k)] for k in range(len(leaves))]
            ret = r._on_step(Tok("env"), Tok("agent"), st)
            nm = "later: " if later else "first: "
            ob(nm + "does not stop the run", ret is None or ret is False)
            dn = entails(done.v)
            want = [p + ([] if dn else [l]) for p, l in zip(pre, leaves)]
            if dn and not later:
                ob(nm + "nothing recorded when done", r._sequence is None or all(len(s) == 0 for s in r._sequence))
                continue
            got = [list(s) for s in r._sequence]
            ob(nm + ("nothing recorded when done" if dn else "this step's reward, observation and action are appended"), got == want)
            stacks.clear()
            out = r.get_outputs()
            ob(nm + "every sequence is stacked in order", [s for s, a in stacks] == want and all(a == 0 for s, a in stacks))
            lv, _ = tree_flatten(out)
            ob(nm + "structure of the outputs", lv == [Tok("stacked", k + 1) for k in range(len(leaves))] and
               set(out._fields) == {"reward"} | ({"obs"} if return_obs else set()) | ({"action"} if return_action else set()))

    def concrete(rng):
        from wax.gym.callbacks.record import Record
        r = Record(return_obs=return_obs, return_action=return_action)
        n = int(rng.integers(1, 6))
        rows = [(float(rng.integers(-5, 5)), float(rng.integers(-5, 5)), float(rng.integers(-5, 5)), bool(t and rng.random() < 0.2)) for t in range(n)]
        for rw, o, a, d in rows:
            r._on_step(None, None, SimpleNamespace(rw=rw, obs=np.array([o]), action=np.array([a]), done=d, info=None))
        out = r.get_outputs()
        keep = [x for x in rows if not x[3]]
        if out.reward.tolist() != [x[0] for x in keep]:
            return {"steps": rows, "why": f"rewards {out.reward.tolist()}"}
        if return_obs and out.obs[:, 0].tolist() != [x[1] for x in keep]:
            return {"steps": rows, "why": f"observations {out.obs.tolist()}"}
        if return_action and out.action[:, 0].tolist() != [x[2] for x in keep]:
            return {"steps": rows, "why": f"actions {out.action.tolist()}"}
    return HostCase(prop, f"Record[return_obs={return_obs},return_action={return_action}]",
                    ["wax/gym/callbacks/record.py:Record._on_step", "wax/gym/callbacks/record.py:Record.get_outputs"], scenario, concrete,
                    bounded="observations and actions with at most two leaves; runs of any length")


def cases(prop, tier):
    out = [unroll_case(prop, g, n, v) for g in (False, True) for n in (0, 1, 2, 3) for v in (False, True)]
    out += [agent_case(prop, f) for f in ("first call", "after reset", None)]
    out += [env_case(prop, m) for m in ("reset", "first", "later")]
    out += [stop_case(prop)] + [record_case(prop, o, a) for o in (False, True) for a in (False, True)]
    return out
