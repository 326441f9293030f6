"""Discharging verification conditions with SMT solvers run as subprocesses (hard time limits)."""
from __future__ import annotations

import os
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import z3

from . import terms as T

BACKENDS = {
    "z3-5.x": ["z3-new", "-smt2", "-T:{t}"],
    "cvc5": ["cvc5", "--lang=smt2", "--tlimit={ms}"],
    "z3-4.8": ["z3", "-smt2", "-T:{t}"],
}


class Obligation:
    def __init__(self, name, hyps, goal, fn=""):
        self.name, self.hyps, self.goal, self.fn = name, list(hyps), goal, fn
        self.status = None  # 'proved' | 'refuted' | 'unknown'
        self.backend = ""
        self.time = 0.0
        self.smt2 = None
        self.output = ""

    def __repr__(self):
        return f"<{self.name}: {self.status} {self.backend}>"


def split_goal(name, goal, fn=""):
    """A goal may be a dict of named subgoals."""
    return goal


def to_smt2(ob):
    s = z3.Solver()
    for h in ob.hyps:
        s.add(T.zb(h))
    s.add(T.zb(T.Not(ob.goal)))
    return s.to_smt2()


_decl_memo = {}


def _decls(e):
    """uninterpreted symbols of a term"""
    k = e.get_id()
    hit = _decl_memo.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    seen, out, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    _decl_memo[k] = (e, frozenset(out))
    return _decl_memo[k][1]


def light(ob):
    """The same obligation with the hypotheses about its own symbols only (fewer hypotheses: sound to prove)."""
    hyps = [T.zb(h) for h in ob.hyps]
    ds = [_decls(h) for h in hyps]
    S = set(_decls(T.zb(ob.goal)))
    for _ in range(3):
        n = len(S)
        for d in ds:
            if len(d) <= 3 and d & S:
                S |= d
        if len(S) == n:
            break
    keep = [h for h, d in zip(hyps, ds) if d <= S]
    if len(keep) == len(hyps):
        return None
    return to_smt2(Obligation(ob.name, keep, ob.goal))


def _run(cmd, path, t):
    cmd = [c.format(t=max(1, int(t)), ms=int(t * 1000)) for c in cmd] + [path]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 5)
        out = p.stdout.strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = out.split("\n")[0].strip() if out else ""
    return first, out


def discharge(obs, timeout=20, jobs=8, deadline=None, scale=1):
    """Decide every obligation.  Syntactically true goals are discharged by the term simplifier.
    After `deadline` (absolute time) undecided obligations only get the first, short attempt."""
    from . import tactic
    todo = []
    for o in obs:
        if o.goal is True:
            o.status, o.backend = "proved", "simplifier"
        elif o.goal is False and not o.hyps:
            o.status, o.backend = "refuted", "simplifier"
        else:
            o.status = "unknown"
            o.smt2 = to_smt2(o)
            todo.append(o)
    d = tempfile.mkdtemp(prefix="wv_smt_")
    late = lambda extra=0: deadline is not None and time.time() > deadline + extra

    def work_light(k):
        o = todo[k]
        if lights[k] is None:
            return
        t0 = time.time()
        path = os.path.join(d, f"{k}.smt2")
        with open(path, "w") as f:
            f.write(lights[k])
        if _run(BACKENDS["z3-5.x"], path, min(timeout, 3 * scale))[0] == "unsat":
            o.status, o.backend = "proved", "z3-5.x"
        o.time += time.time() - t0
        os.unlink(path)

    def work(arg):
        k, plan = arg
        o = todo[k]
        t0 = time.time()
        path = os.path.join(d, f"{k}.smt2")
        with open(path, "w") as f:
            f.write(o.smt2)
        for b, t in plan:
            if late(120 if plan is first else 0):
                o.output += "not attempted: out of time\n"
                break
            r, out = _run(BACKENDS[b], path, t)
            if r == "unsat":
                o.status, o.backend = "proved", b
                break
            if r == "sat":
                o.status, o.backend, o.output = "refuted", b, out[:2000]
                break
            o.output += f"[{b}] {out[:300]}\n"
        o.time += time.time() - t0
        os.unlink(path)

    first = [("z3-5.x", min(timeout, 4 * scale))]
    rest = [("cvc5", timeout), ("z3-5.x", timeout), ("z3-4.8", timeout)]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, [(k, first) for k in range(len(todo))]))
        lights = {k: light(o) for k, o in enumerate(todo) if o.status == "unknown"}
        list(ex.map(work_light, lights))
        for o in todo:
            if o.status == "unknown" and not late():
                t0 = time.time()
                if tactic.attempt(o, T.zb, timeout, scale):
                    o.status, o.backend = "proved", "split+field tactic with z3"
                o.time += time.time() - t0
        list(ex.map(work, [(k, rest) for k, o in enumerate(todo) if o.status == "unknown"]))
    os.rmdir(d)
    return obs


def model_of(ob, timeout_ms=15000):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for h in ob.hyps:
        s.add(T.zb(h))
    s.add(T.zb(T.Not(ob.goal)))
    if s.check() == z3.sat:
        return s.model()
    return None


def satisfiable(hyps, timeout_ms=10000):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for h in hyps:
        s.add(T.zb(h))
    r = s.check()
    return str(r)


def model_numbers(m):
    """Numbers occurring in a counter-model: seeds for the replay search."""
    out = set()

    def num(v):
        try:
            if z3.is_int_value(v):
                out.add(float(v.as_long()))
            elif z3.is_rational_value(v):
                out.add(float(v.as_fraction()))
            elif z3.is_algebraic_value(v):
                out.add(float(v.approx(10).as_fraction()))
        except Exception:
            pass

    if m is None:
        return []
    for d in m.decls():
        v = m[d]
        if isinstance(v, z3.FuncInterp):
            for k in range(v.num_entries()):
                num(v.entry(k).value())
            num(v.else_value())
        else:
            num(v)
    return sorted(x for x in out if abs(x) < 1e9)
