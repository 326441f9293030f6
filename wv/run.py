"""Check runner:  python -m wv.run --property EWM01 [--tier quick|thorough] [--replay FILE]"""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import os
import sys
import time
import traceback

from . import assumptions

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ob:
    """summary of a discharged (or failed) obligation"""

    def __init__(self, d):
        self.__dict__.update(d)


class Outcome:
    def __init__(self, idx, meta):
        self.idx = idx
        self.name, self.bounded, self.fns = meta["name"], meta["bounded"], meta["fns"]
        self.obs, self.failed = [], []
        self.error = self.witness = self.tb = None
        self.conform_error = self.search_error = None
        self.vac, self.lemmas, self.eqns, self.steps, self.t = "n/a", 0, 0, 0, 0.0
        self.seeds = []
        self.degraded = None


# ------------------------------------------------------------------ worker processes
def build_cases(prop, tier):
    reg = importlib.import_module("wv.registry")
    return reg.PROPS[prop]["cases"](tier)


def verify_case(c, tier, seed, deadline, scale=1):
    """generate and discharge the obligations of one contract, then cross-check it on real executions"""
    import numpy as np
    from . import prove as P
    r = {"error": None, "tb": None, "witness": None, "conform_error": None, "degraded": None, "steps": 0, "seeds": []}
    obs = []
    try:
        obs = c.obligations()
        if not obs:
            r["error"] = "no obligations generated"
        elif getattr(c, "vac", "sat") == "unsat":
            r["error"] = "vacuous: the hypotheses are contradictory"
    except Exception as e:
        r["error"] = f"{type(e).__name__}: {e}"[:600]
        r["tb"] = traceback.format_exc()
        if hasattr(c, "bounded_obligations") and (type(e).__name__ == "Mismatch" or type(c).__name__ == "FnCase"):
            try:
                obs = c.bounded_obligations()
                r["degraded"] = f"{r['error']}; bounded stand-in: {c.fallback_bound}"
                r["error"] = None
            except Exception as e2:
                r["error"] += f"; bounded stand-in: {type(e2).__name__}: {e2}"[:400]
                r["tb"] += traceback.format_exc()
    P.discharge(obs, timeout=(20 if tier == "quick" else 90) * scale, jobs=2, deadline=deadline, scale=scale)
    if any(o.status != "proved" for o in obs) and hasattr(c, "alternatives"):
        for alt in c.alternatives():
            P.discharge(alt, timeout=(20 if tier == "quick" else 90) * scale, jobs=2, deadline=deadline, scale=scale)
            if alt and all(o.status == "proved" for o in alt):
                obs = alt
                break
    r["obs"] = [dict(name=o.name, status=o.status, backend=o.backend, time=o.time, output=o.output[:800]) for o in obs]
    r["vac"], r["lemmas"], r["eqns"] = getattr(c, "vac", "n/a"), getattr(c, "lemmas", 0), getattr(c, "eqns", 0)
    failed = [o for o in obs if o.status != "proved"]
    for f in failed[:3]:
        try:
            r["seeds"] += P.model_numbers(P.model_of(f, 4000))
        except Exception:
            pass
    r["seeds"] = sorted(set(r["seeds"]))[:40]
    if time.time() < deadline:
        for k in range(1 if tier == "quick" else 5):
            try:
                w = c.conform(np.random.default_rng(1000 * seed + k))
            except Exception as e:
                w = None
                r["conform_error"] = f"{type(e).__name__}: {e}"[:300]
                if os.environ.get("WV_VERBOSE"):
                    traceback.print_exc()
            r["steps"] += 1
            if w is not None:
                r["witness"] = w
                break
    return r


def search_case(c, seeds, budget):
    r = {"witness": None, "search_error": None}
    try:
        r["witness"] = c.search(seeds, budget)
        r["search_error"] = getattr(c, "search_error", None)
    except Exception as e:
        r["search_error"] = f"{type(e).__name__}: {e}"[:300]
    return r


def worker_main(conn, prop, tier, seed):
    import logging
    logging.disable(logging.WARNING)
    try:
        cases = build_cases(prop, tier)
        conn.send(("cases", [dict(name=c.name, bounded=c.bounded, fns=list(c.fns)) for c in cases]))
        while True:
            msg = conn.recv()
            if msg is None:
                break
            kind, i = msg[0], msg[1]
            if kind == "verify":
                t0 = time.time()
                res = verify_case(cases[i], tier, seed, *msg[2:])
                res["t"] = time.time() - t0
            else:
                res = search_case(cases[i], msg[2], msg[3])
            conn.send((kind, i, json.loads(json.dumps(res, default=str))))
    except EOFError:
        pass
    except BaseException:
        try:
            conn.send(("died", traceback.format_exc()))
        except Exception:
            pass
    os._exit(0)


class Worker:
    def __init__(self, ctx, args):
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=worker_main, args=(child,) + args, daemon=True)
        self.p.start()
        child.close()
        self.task = self.limit = None
        self.ready = False

    def kill(self):
        try:
            self.p.kill()
            self.p.join(5)
            self.conn.close()
        except Exception:
            pass


class Pool:
    """processes that verify contracts; one that overruns its time limit is ended and replaced"""

    def __init__(self, prop, tier, seed, n):
        import multiprocessing as mp
        self.ctx, self.args, self.n = mp.get_context("fork"), (prop, tier, seed), n
        self.meta, self.fatal = None, None
        self.ws = [Worker(self.ctx, self.args)]
        self._pump_until_meta()

    def _pump_until_meta(self):
        from multiprocessing.connection import wait
        w = self.ws[0]
        if not wait([w.conn], 300):
            self.fatal = "building the contracts took more than 300 s"
            return
        try:
            m = w.conn.recv()
        except EOFError:
            self.fatal = "the process building the contracts ended"
            return
        if m[0] == "died":
            self.fatal = m[1]
            return
        self.meta, w.ready = m[1], True

    def map(self, tasks, limit, on_result, stop=None):
        """tasks: list of messages (kind, idx, ...); limit: seconds per task"""
        from multiprocessing.connection import wait
        tasks = list(tasks)
        while len(self.ws) < min(self.n, max(1, len(tasks))):
            self.ws.append(Worker(self.ctx, self.args))
        pending = len(tasks)
        while pending > 0:
            if stop is not None and stop():
                for w in list(self.ws):
                    if w.task is not None:
                        self._replace(w)
                return
            for w in self.ws:
                if w.ready and w.task is None and tasks:
                    w.task = tasks.pop(0)
                    w.limit = time.time() + limit
                    w.conn.send(w.task)
            busy = [w for w in self.ws if w.task is not None or not w.ready]
            for cn in wait([w.conn for w in busy], 1.0):
                w = [x for x in busy if x.conn is cn][0]
                try:
                    m = cn.recv()
                except (EOFError, OSError):
                    m = ("died", "process ended")
                if m[0] == "cases":
                    w.ready = True
                elif m[0] == "died":
                    if w.task is not None:
                        pending -= 1
                        on_result(w.task, {"died": m[1]})
                    self._replace(w)
                else:
                    t, w.task = w.task, None
                    pending -= 1
                    on_result(t, m[2])
            now = time.time()
            for w in list(self.ws):
                if w.task is not None and now > w.limit:
                    pending -= 1
                    on_result(w.task, {"died": f"no answer within {limit:.0f} s"})
                    self._replace(w)

    def _replace(self, w):
        w.kill()
        self.ws[self.ws.index(w)] = Worker(self.ctx, self.args)

    def close(self):
        for w in self.ws:
            w.kill()


def run(prop, tier, seed, out_dir):
    t00 = time.time()
    reg = importlib.import_module("wv.registry")
    entry = reg.PROPS[prop]
    for m in ("jax", "jax.numpy", "haiku", "flax.linen", "optax", "z3", "numpy"):
        importlib.import_module(m)
    budget = 700 if tier == "quick" else 3300
    njobs = int(os.environ.get("WV_JOBS", "8"))
    pool = Pool(prop, tier, seed, njobs)
    if pool.fatal:
        o = Outcome(0, dict(name="contracts", bounded=None, fns=[]))
        o.error = pool.fatal[-1500:]
        outcomes = [o]
    else:
        outcomes = [Outcome(i, m) for i, m in enumerate(pool.meta)]
    only = os.environ.get("WV_ONLY")
    if only:
        outcomes = [o for o in outcomes if only in o.name]
    byidx = {o.idx: o for o in outcomes}
    verbose = os.environ.get("WV_VERBOSE")

    known = {e["case"]: e for e in load_known(prop) if e["status"] == "known"}

    def is_known(o):
        """exactly the listed obligations of the listed contract fail"""
        e = known.get(o.name)
        return bool(e) and not o.error and all(f.name.split("/", 1)[1] in e["obligations"] for f in o.failed)

    def found():
        return any(o.witness and not is_known(o) for o in outcomes)

    def got(task, r):
        o = byidx[task[1]]
        if task[0] == "verify":
            if "died" in r:
                o.error = "verification of this contract gave no answer: " + r["died"][-600:]
                return
            o.obs = [Ob(d) for d in r["obs"]]
            for k in ("error", "tb", "witness", "conform_error", "degraded", "steps", "seeds", "vac", "lemmas", "eqns", "t"):
                setattr(o, k, r[k])
            o.failed = [x for x in o.obs if x.status != "proved"]
            if o.degraded and not o.bounded:
                o.bounded = o.degraded
            if verbose:
                print(f"# {o.name}: {len(o.obs)} obligations, {len(o.failed)} failed, {o.t:.1f}s {o.error or ''}", flush=True)
        elif "died" in r:
            o.search_error = r["died"]
        else:
            o.witness, o.search_error = r["witness"], r["search_error"]

    if not pool.fatal:
        lim = 300 if tier == "quick" else 1200
        # once enough contracts have failed with a replayed input the verdict is known: leave the rest
        def enough():
            return (sum(1 for o in outcomes if o.witness and not is_known(o)) >= 3 and time.time() - t00 > 120) or time.time() - t00 > budget * 0.7
        pool.map([("verify", o.idx, t00 + budget * 0.6) for o in outcomes], lim, got, enough)
        for o in outcomes:
            if not o.obs and not o.error:
                o.error = "verification of this contract was not finished (out of time, or other contracts failed already)"
                o.skipped = True
        def undecided(o):
            late = o.error and "no answer within" in o.error
            return not o.witness and not is_known(o) and (late or o.failed and not o.error and all(f.status == "unknown" for f in o.failed))

        for per in (8, "again", 25, 60):
            if per == "again":
                # obligations no back end decided (rather than refuted): once more, with larger limits and a quieter machine
                again = [o for o in outcomes if undecided(o)]
                if again and not found() and time.time() - t00 < budget * 0.6:
                    pool.n = max(1, njobs // 2)
                    while len(pool.ws) > pool.n:
                        pool.ws.pop().kill()
                    pool.map([("verify", o.idx, t00 + budget * 0.8, 4) for o in again[:24]], lim * 2, got,
                             lambda: time.time() - t00 > budget * 0.85)
                    pool.n = njobs
                continue
            bad = [o for o in outcomes if (o.failed or o.error) and not o.witness and not is_known(o)]
            if not bad or found() or time.time() - t00 > budget - per:
                break
            bad.sort(key=lambda o: (getattr(o, "skipped", False), not o.failed))
            pool.map([("search", o.idx, o.seeds, per) for o in bad[:16]], per + 45, got,
                     lambda: found() or time.time() - t00 > budget)
    pool.close()
    all_obs = [x for o in outcomes for x in o.obs]
    steps = sum(o.steps for o in outcomes)
    bad = [o for o in outcomes if o.failed or o.error or o.witness]
    violations = []
    for o in bad:
        if is_known(o):
            print(f"KNOWN-FINDING: property={prop} {known[o.name]['what']}", flush=True)
        else:
            violations.append(o)
    wall = time.time() - t00
    write_evidence(prop, tier, seed, entry, outcomes, violations, steps, wall)
    if not violations:
        nb = sum(1 for o in outcomes if o.bounded)
        print(f"property {prop} held: {len(all_obs)} obligations discharged over {len(outcomes)} contracts "
              f"({nb} bounded), {steps} conformance runs, {wall:.0f}s")
        return 0
    violations.sort(key=lambda o: (o.witness is None, getattr(o, "skipped", False), not o.failed))
    o = violations[0]
    path = os.path.join(out_dir, f"{prop}.json")
    os.makedirs(out_dir, exist_ok=True)
    rep = {"property": prop, "case": o.name, "functions": list(o.fns),
           "failed_obligations": [{"name": f.name, "status": f.status, "backend": f.backend, "verifier_output": f.output[:800]}
                                  for f in o.failed[:20]],
           "verifier_error": o.error, "witness": o.witness,
           "other_failing_contracts": [v.name for v in violations[1:40]],
           "how_to_replay": f"cd /verif && ./check.sh {prop} --replay {path}"}
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, default=str)
    for v in violations[:10]:
        for f in v.failed[:6]:
            print(f"  obligation {f.name}: {f.status} ({f.backend or 'no back end decided it'})")
        if v.error and not getattr(v, "skipped", False):
            print(f"  {v.name}: {v.error}")
            if os.environ.get("WV_VERBOSE") and v.tb:
                print(v.tb)
        if v.witness:
            print(f"  replay on the real code: {json.dumps(v.witness, default=str)[:700]}")
    tail = "" if o.witness else " no-failing-input-found"
    print(f"VIOLATION property={prop} replay={path}{tail}", flush=True)
    return 1


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e["property"] == prop:
                    out.append(e)
    return out


def write_evidence(prop, tier, seed, entry, outcomes, violations, steps, wall):
    be = collections.Counter()
    st = 0.0
    fns = collections.Counter()
    proved_fns = set()
    ob_n = dis = bob = bdis = 0
    bounded = []
    eqns = lem = 0
    for o in outcomes:
        okc = not o.failed and not o.error and not o.witness
        if o.bounded:
            bounded.append({"contract": o.name, "bound": o.bounded, "obligations": len(o.obs), "held": okc})
            bob += len(o.obs)
            bdis += sum(1 for x in o.obs if x.status == "proved")
        else:
            ob_n += len(o.obs)
            dis += sum(1 for x in o.obs if x.status == "proved")
            for f in o.fns:
                fns[f] += 1
                if okc:
                    proved_fns.add(f)
        for x in o.obs:
            if x.status == "proved":
                be[x.backend] += 1
            st += x.time
        eqns += o.eqns
        lem += o.lemmas
    level = entry["level"]
    cov = {
        "obligations": ob_n, "discharged": dis,
        "checker_cmd": f"./check.sh {prop} --tier {tier}",
        "trusted_base": (["wv/jaxsym.py (jaxpr semantics)", "wv/arrays.py", "JAX tracing"] if eqns else [])
        + ["wv/terms.py (term simplifier)", "z3 5.x / z3 4.8 / cvc5"]
        + (["wv/pysym.py (Python executed symbolically)", "stand-ins for dependencies in wv/props"] if assumptions.HOST in assumptions.of(prop) else []),
        "contracts": len(outcomes), "functions_under_contract": dict(fns),
        "functions_with_every_obligation_discharged": sorted(proved_fns),
        "discharged_by_backend": dict(be), "solver_time_s": round(st, 2),
        "side_condition_lemmas": lem, "jaxpr_equations_translated": eqns,
        "bounded_contracts": bounded, "bounded_obligations": bob, "bounded_discharged": bdis,
        "conformance_runs": steps,
        "conformance_errors": [o.conform_error for o in outcomes if o.conform_error][:5],
        "hypotheses_satisfiable": dict(collections.Counter(o.vac for o in outcomes)),
        "samples": [x.name for o in outcomes for x in o.obs][:3],
        "explanation": entry.get("explanation", "contracts discharged by SMT on verification conditions extracted from /repo on this run"),
    }
    if bounded and not ob_n:
        cov["obligations"], cov["discharged"] = bob, bdis
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions.of(prop) + list(entry.get("assumptions", [])),
          "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        rep = json.load(open(a.replay))
        reg = importlib.import_module("wv.registry")
        for c in reg.PROPS[a.property]["cases"]("thorough"):
            if c.name == rep["case"]:
                print(json.dumps(rep["witness"], indent=1))
                w = rep["witness"]
                r = c.replay(w) if (w and hasattr(c, "replay")) else c.search([], 30)
                print("replay:", json.dumps(r, default=str) if r else "did not reproduce")
                return 1 if r else 0
        return 2
    return run(a.property, a.tier, seed, os.path.join(VERIF, "replays"))


if __name__ == "__main__":
    import logging
    logging.disable(logging.WARNING)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
