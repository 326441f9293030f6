"""A small proof tactic for what the SMT solvers leave undecided: case splits on the conditions of if-then-else
terms, then rational-function normalisation of equations (every divisor is separately proved non-zero by SMT)."""
from __future__ import annotations

import time
from fractions import Fraction

import z3


class GiveUp(Exception):
    pass


class Poly:
    """sparse polynomial with rational coefficients: {((var, power), ...): coefficient}"""
    __slots__ = ("d",)
    LIMIT = 6000

    def __init__(self, d):
        self.d = d

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __mul__(self, o):
        if len(self.d) * len(o.d) > 60 * Poly.LIMIT:
            raise GiveUp("polynomial too large")
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                p = dict(m1)
                for v, k in m2:
                    p[v] = p.get(v, 0) + k
                m = tuple(sorted(p.items()))
                x = d.get(m, 0) + c1 * c2
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        if len(d) > Poly.LIMIT:
            raise GiveUp("polynomial too large")
        return Poly(d)

    def same(self, o):
        return self.d == o.d


ONE = Poly.const(1)


class Field:
    def __init__(self, nonzero):
        self.nonzero = nonzero
        self.vars = {}
        self.memo = {}

    def frac(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._frac(e)
        self.memo[k] = (e, r)
        return r

    def _frac(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return Poly.const(Fraction(str(e.as_fraction()) if z3.is_rational_value(e) else e.as_long())), ONE
        K = e.decl().kind()
        ch = e.children()
        if K in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.frac(ch[0])
            for c in ch[1:]:
                n2, d2 = self.frac(c)
                if K == z3.Z3_OP_SUB:
                    n2 = n2.neg()
                if d.same(d2):
                    n = n + n2
                else:
                    n, d = n * d2 + n2 * d, d * d2
            return n, d
        if K == z3.Z3_OP_UMINUS:
            n, d = self.frac(ch[0])
            return n.neg(), d
        if K == z3.Z3_OP_MUL:
            n, d = self.frac(ch[0])
            for c in ch[1:]:
                n2, d2 = self.frac(c)
                n, d = n * n2, d * d2
            return n, d
        if K == z3.Z3_OP_DIV:
            if not self.nonzero(ch[1]):
                raise GiveUp("divisor not proved non-zero")
            n, d = self.frac(ch[0])
            n2, d2 = self.frac(ch[1])
            if n.same(n2) and d.same(d2):
                return ONE, ONE
            return n * d2, d * n2
        if K == z3.Z3_OP_TO_REAL and ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            f = {z3.Z3_OP_ADD: lambda *a: z3.Sum(list(a)), z3.Z3_OP_MUL: lambda *a: z3.Product(list(a)),
                 z3.Z3_OP_SUB: lambda a, b: a - b, z3.Z3_OP_UMINUS: lambda a: -a}[ch[0].decl().kind()]
            return self.frac(f(*[z3.ToReal(c) for c in ch[0].children()]))
        if K == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            return Poly.const(ch[0].as_long()), ONE
        if K == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 <= ch[1].as_fraction() < 12:
            n, d = ONE, ONE
            a, b = self.frac(ch[0])
            for _ in range(int(ch[1].as_fraction())):
                n, d = n * a, d * b
            return n, d
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            raise GiveUp("ite")
        v = self.vars.setdefault(e.get_id(), (len(self.vars), e))[0]
        return Poly.var(v), ONE

    def equal(self, a, b):
        n1, d1 = self.frac(a)
        n2, d2 = self.frac(b)
        if d1.same(d2):
            return n1.same(n2)
        return (n1 * d2).same(n2 * d1)


def _conditions(e, seen, out, limit=200):
    """conditions of ites inside e whose own text has no ite"""
    stack = [e]
    while stack and len(out) < limit:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            out.append(x.arg(0))
        stack.extend(x.children())


def _has_ite(e, memo):
    k = e.get_id()
    if k not in memo:
        memo[k] = z3.is_app_of(e, z3.Z3_OP_ITE) or any(_has_ite(c, memo) for c in e.children())
    return memo[k]


def _atoms(c):
    """boolean atoms of a condition"""
    stack, out = [c], []
    while stack:
        x = stack.pop()
        if z3.is_not(x) or z3.is_and(x) or z3.is_or(x) or z3.is_implies(x) or \
                (z3.is_eq(x) and z3.is_bool(x.arg(0))) or (z3.is_app_of(x, z3.Z3_OP_ITE)):
            stack.extend(x.children())
        elif not (z3.is_true(x) or z3.is_false(x)):
            out.append(x)
    return out


class Tactic:
    def __init__(self, hyps, deadline, scale=1):
        self.scale = scale
        self.deadline = deadline
        self.base = list(hyps)
        self.leaves = 0
        self.nz = {}

    def check(self, hyps, goal, ms):
        s = z3.Solver()
        s.set("timeout", int(max(50, min(ms * self.scale, 1000 * (self.deadline - time.time())))))
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def prove(self, hyps, goal, depth=0):
        if time.time() > self.deadline:
            raise GiveUp("time")
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.prove(hyps, g, depth) for g in goal.children())
        memo = {}
        conds = []
        _conditions(goal, set(), conds)
        atoms = {}
        for c in conds:
            for a in _atoms(c):
                if not _has_ite(a, memo):
                    n, _ = atoms.get(a.get_id(), (0, a))
                    atoms[a.get_id()] = (n + 1, a)
        if atoms and depth < 12:
            # a condition decided by the hypotheses is no split
            best = sorted(atoms.values(), key=lambda t: -t[0])[0][1]
            for val in (True, False):
                lit = best if val else z3.Not(best)
                h2 = hyps + [lit]
                if self.check(h2, z3.BoolVal(False), 400):
                    continue
                g2 = z3.substitute(goal, (best, z3.BoolVal(val)))
                if not self.prove(h2, g2, depth + 1):
                    return False
            return True
        self.leaves += 1
        if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
            def nonzero(d):
                k = d.get_id()
                if k not in self.nz:
                    self.nz[k] = (d, self.check(self.base, d != 0, 1500))
                return self.nz[k][1] or self.check(hyps, d != 0, 3000)
            try:
                if Field(nonzero).equal(goal.arg(0), goal.arg(1)):
                    return True
            except GiveUp:
                pass
        return self.check(hyps, goal, 4000)


def attempt(ob, zb, limit, scale=1):
    """True if proved"""
    from . import terms as T
    hyps = [zb(h) for h in ob.hyps]
    try:
        t = Tactic(hyps, time.time() + limit, scale)
        return t.prove(hyps, zb(ob.goal))
    except GiveUp:
        return False
    except z3.Z3Exception:
        return False
