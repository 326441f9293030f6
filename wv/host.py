"""Contracts on host Python code (code JAX never traces), executed by wv/pysym.py."""
from __future__ import annotations

import time

import numpy as np

from . import prove as P
from . import pysym as Y
from . import terms as T
from .contracts import CaseBase


class Tok:
    """an arbitrary value, known only by how it was obtained"""

    def __init__(self, *how):
        self.how = how

    def __eq__(self, o):
        try:
            return isinstance(o, Tok) and self.how == o.how
        except Y.Mismatch:      # a number against something that is none
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.how)

    def __repr__(self):
        return f"<{' '.join(map(str, self.how))}>"

    def __bool__(self):
        raise Y.Mismatch("truth value of an arbitrary value")


class Retry(Y.Mismatch):
    pass


class HostCase(CaseBase):
    """scenario(ob, plan): runs the code under contract on symbolic arguments, calling ob(name, goal) for every obligation; it is
    executed once per feasible path.  concrete(rng): one random run of the real code, returning a description of a failure."""

    vac = "n/a"

    def __init__(self, prop, name, fns, scenario, concrete=None, bounded=None, fallback_bound="random concrete runs", trials=40, max_paths=400, variants=()):
        self.prop, self.name, self.fns, self.scenario, self.concrete = prop, name, list(fns), scenario, concrete
        self.bounded, self.fallback_bound, self.trials, self.max_paths = bounded, fallback_bound, trials, max_paths
        self.variants = list(variants)      # the same contract with other loop invariants

    def alternatives(self):
        """obligations under the other loop invariants: any one set of them being proved is enough"""
        for sc in self.variants:
            try:
                yield HostCase(self.prop, self.name, self.fns, sc, None, max_paths=self.max_paths).obligations()
            except Y.Mismatch:
                continue

    def obligations(self):
        self.eqns = 0
        plan = {}
        for _ in range(24):
            out, n = [], 0
            try:
                for res, exc, hyps, obs in Y.Explorer(max_paths=self.max_paths).run(lambda: self.scenario(self._ob, plan)):
                    n += 1
                    if exc is not None and exc is not Y.PathEnd:
                        if isinstance(exc, (AttributeError, TypeError, KeyError, NameError, IndexError, ValueError)):
                            raise Y.Mismatch(f"outside the vocabulary of the contract: {type(exc).__name__}: {exc}")
                        obs = obs + [(f"no exception ({type(exc).__name__}: {exc})"[:160], hyps, False)]
                    if n == 1 and hyps:
                        self.vac = P.satisfiable(hyps)
                    facts = [T.zb(f) for f in T.CTX.facts]
                    out += [(f"path{n}.{nm}" if nm else f"path{n}", list(h) + facts, g) for nm, h, g in obs]
                return [P.Obligation(f"{self.name}/{nm}", h, g) for nm, h, g in out]
            except Retry:
                continue
        raise Y.Mismatch("no loop invariant found")

    @staticmethod
    def _ob(name, goal, hyps=()):
        Y.EX.oblige(name, goal if not isinstance(goal, np.bool_) else bool(goal), hyps)

    def bounded_obligations(self):
        if self.concrete is None:
            raise Y.Mismatch("no bounded stand-in")
        rng = np.random.default_rng(11)
        return [P.Obligation(f"{self.name}/concrete{k}", [], self.concrete(rng) is None) for k in range(self.trials)]

    def _run(self, rng, n, t1=None):
        k = 0
        while self.concrete is not None and (k < n if t1 is None else time.time() < t1):
            k += 1
            r = self.concrete(rng)
            if r is not None:
                r = dict(r, case=self.name)
                return r
        return None

    def conform(self, rng):
        return self._run(rng, 3)

    def search(self, seeds, budget):
        return self._run(np.random.default_rng(7), 0, time.time() + budget)
