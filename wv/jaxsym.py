"""Semantics of JAX's first-order IR (jaxprs): the VC generator's front end.

The real functions of /repo are traced by JAX itself; the resulting jaxpr - the program JAX would
compile and run - is evaluated here over symbolic arrays.
"""
from __future__ import annotations

import math
from fractions import Fraction

import jax
import numpy as np
import z3

from . import terms as T
from .arrays import SArr, coerce_elem, from_numpy, full, kind_of, map_

Literal = jax.extend.core.Literal if hasattr(jax, "extend") and hasattr(jax.extend, "core") else None
try:
    from jax.extend.core import Literal
except Exception:  # pragma: no cover
    from jax.core import Literal


class Unsupported(Exception):
    pass


KEY = z3.DeclareSort("Key")
I = z3.IntSort()


# ------------------------------------------------------------------ dims
class Env:
    """Maps symbolic dimension variables (by name) to ints or z3 Ints."""

    def __init__(self, dims=None, concrete=False):
        self.dims = dict(dims or {})
        self.concrete = concrete
        self.scans = []
        self.depth = 0
        self.exact = concrete

    def dim(self, d):
        if isinstance(d, (int, np.integer)):
            return int(d)
        tot = 0
        for term, coeff in d._sorted_terms:
            p = int(coeff)
            for f, e in term._factors:
                b = self._factor(f)
                for _ in range(e):
                    p = T.mul(p, b)
            tot = T.add(tot, p)
        return tot

    def _factor(self, f):
        if f.var is not None:
            if f.var not in self.dims:
                v = z3.Int("dim." + f.var)
                self.dims[f.var] = v
            v = self.dims[f.var]
            if not T.isc(v):
                T.CTX.fact(v >= 1)
            return v
        ops = [self.dim(o) for o in f.operands]
        n = f.operation
        if n == "floordiv":
            return T.floordiv(*ops)
        if n == "mod":
            return T.floormod(*ops)
        if n == "max":
            return T.imax(*ops)
        if n == "min":
            return T.imin(*ops)
        raise Unsupported("dim op " + n)


# ------------------------------------------------------------------ aggregates
class AggRec:
    __slots__ = ("kind", "dims", "at", "r", "sides", "done", "bound")

    def __init__(self, kind, dims, at, r, bound):
        self.kind, self.dims, self.at, self.r, self.bound = kind, dims, at, r, bound
        self.sides = set()
        self.done = False


def _bound_vars(t, seen=None):
    """names of the bound variables of enclosing reductions a term depends on"""
    ctx = T.CTX
    out = set()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith("agg.k"):
                    out.add(n)
                elif n.startswith("agg."):
                    out |= ctx.agg_bound.get(n, set())
        else:
            stack.extend(x.children())
    return out


def agg(env, kind, dims, body, sort):
    """Reduction over axes of symbolic lengths `dims`: an opaque value.  Facts about it (witnesses,
    congruence with the reductions of the specification) are instantiated by `settle`."""
    ctx = T.CTX
    wrap = T.zb if sort == "b" else (T.zr if sort == "r" else T.zi)
    nd = len(dims)
    dims = tuple(T.zi(n) for n in dims)
    tmp = [z3.Int(f"agg.tmp{env.depth + q}") for q in range(nd)]
    env.depth += nd
    try:
        b = wrap(body(*tmp))
    finally:
        env.depth -= nd
    bound = _bound_vars(b)
    ks, j = [], 0
    while len(ks) < nd:
        if f"agg.k{j}" not in bound:
            ks.append(z3.Int(f"agg.k{j}"))
        j += 1
    b = z3.substitute(b, *zip(tmp, ks))
    if z3.is_true(b) or z3.is_false(b):
        b = wrap(z3.is_true(b))
    key = (kind, tuple(n.get_id() for n in dims), b.get_id(), tuple(k.get_id() for k in ks))
    if key in ctx.agg_memo:
        rec = ctx.agg_memo[key][0]
    else:
        nm = ctx.fresh("agg." + kind)
        r = {"b": z3.Bool, "r": z3.Real, "i": z3.Int}[sort](nm)
        bound = bound | set(n for n in _tmp_vars(b))
        ctx.agg_bound[nm] = bound
        rec = AggRec(kind, dims, lambda *js: wrap(body(*js)), r, bound)
        ctx.agg_memo[key] = (rec, dims, b, ks)
    rec.sides.add(ctx.side)
    if not rec.bound and rec not in ctx.pool:
        ctx.pool.append(rec)
    return rec.r


def _tmp_vars(t):
    out = set()
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("agg.tmp"):
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    return out


def settle(pool=None, level=0):
    """Emit the facts of the reductions in the pool: witnesses, and congruence between reductions
    occurring in the code and in the specification (nested reductions recursively)."""
    ctx = T.CTX
    pool = ctx.pool if pool is None else pool
    save_pool, save_side = ctx.pool, ctx.side

    def sub(fn):
        ctx.pool = []
        out = fn()
        inner = ctx.pool
        if inner and level < 4:
            settle(inner, level + 1)
        return out

    def sks(dims):
        v = [z3.Int(ctx.fresh("sk")) for _ in dims]
        return v, z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(v, dims)])

    wit, neg = [], []
    try:
        for rec in list(pool):
            if rec.done:
                continue
            rec.done = True
            r, kind = rec.r, rec.kind

            def one(rec=rec, r=r, kind=kind):
                ctx.side = min(rec.sides)
                v, rng = sks(rec.dims)
                if kind == "or":
                    ctx.fact(z3.Implies(r, z3.And(rng, rec.at(*v))))
                elif kind == "and":
                    ctx.fact(z3.Or(r, z3.And(rng, z3.Not(rec.at(*v)))))
                elif kind in ("rmax", "rmin", "imax", "imin"):
                    ctx.fact(z3.Implies(z3.And(*[n > 0 for n in rec.dims]), z3.And(rng, r == rec.at(*v))))
                elif kind in ("rsum", "isum"):
                    ctx.fact(z3.Or(z3.And(rng, rec.at(*v) < 0), r >= 0))
                    w, rng2 = sks(rec.dims)
                    ctx.fact(z3.Or(z3.And(rng2, rec.at(*w) != 0), r == 0))
                    wit.append((rec, w, rng2))
                    if kind == "isum":
                        neg.append((rec, z3.And(rng, rec.at(*v) < 0)))
            sub(one)
        # a sum of non-negative integers is at least each of its terms (at the witnesses above)
        for A, ng in neg:
            for B, w, rng2 in wit:
                if A is B or len(A.dims) != len(B.dims) or any(not m.eq(n) for m, n in zip(A.dims, B.dims)):
                    continue

                def dom(A=A, ng=ng, w=w, rng2=rng2):
                    ctx.side = min(A.sides)
                    ctx.fact(z3.Or(ng, z3.Not(rng2), A.r >= A.at(*w)))
                sub(dom)
        for x in range(len(pool)):
            for y in range(x + 1, len(pool)):
                A, B = pool[x], pool[y]
                if A.kind != B.kind or len(A.dims) != len(B.dims):
                    continue
                if len(A.sides | B.sides) < 2:
                    continue

                def pair(A=A, B=B):
                    v, rng = sks(A.dims)
                    sa, sb = ("code", "spec") if ("code" in A.sides and "spec" in B.sides) else ("spec", "code")
                    ctx.side = sa
                    ta = A.at(*v)
                    ctx.side = sb
                    tb = B.at(*v)
                    ctx.fact(z3.Or(*[m != n for m, n in zip(A.dims, B.dims)],
                                   z3.And(rng, ta != tb), A.r == B.r))
                sub(pair)
    finally:
        ctx.pool, ctx.side = save_pool, save_side


def _expand(n):
    return isinstance(n, int)


def reduce1(env, op, n, get, kind):
    return reduce_box(env, op, [n], get, kind)


def reduce_box(env, op, ns, get, kind):
    """reduce get(k1,...,kr) over the box 0<=k_j<n_j; kind is the element kind"""
    for q, n in enumerate(ns):
        if _expand(n):
            acc = None
            rest = ns[:q] + ns[q + 1:]
            for k in range(n):
                def g(*js, k=k):
                    return get(*js[:q], k, *js[q:])
                v = reduce_box(env, op, rest, g, kind) if rest else g()
                acc = v if acc is None else _comb(op, acc, v, kind)
            return _unit(op, kind) if acc is None else acc
    if kind == "b":
        return agg(env, op, ns, get, "b")
    if kind == "i":
        return agg(env, "i" + op, ns, get, "i")
    if kind == "f":
        if op in ("sum", "max", "min", "prod"):
            nan = _agg_flag(env, ns, lambda *k: get(*k).nan)
            pinf = _agg_flag(env, ns, lambda *k: get(*k).pinf)
            ninf = _agg_flag(env, ns, lambda *k: get(*k).ninf)
            if op == "sum":
                nan = T.Or(nan, T.And(pinf, ninf))
                val = agg(env, "rsum", ns, lambda *k: _v0(get(*k)), "r")
                return T.FV(nan, T.And(T.Not(nan), pinf), T.And(T.Not(nan), ninf), val)
            if pinf is False and ninf is False:
                val = agg(env, "r" + op, ns, lambda *k: _v0(get(*k)), "r")
                return T.FV(nan, False, False, val)
    raise Unsupported(f"symbolic reduction {op}/{kind}")


def _agg_flag(env, ns, get):
    ks = [z3.Int(f"agg.tmp{env.depth + q}") for q in range(len(ns))]
    env.depth += len(ns)
    try:
        b = get(*ks)
    finally:
        env.depth -= len(ns)
    if b is False:
        return False
    return agg(env, "or", ns, get, "b")


def _v0(x):
    return T.ite(x.special, Fraction(0), x.val)


def _comb(op, a, b, kind):
    if op == "sum":
        return T.fadd(a, b) if kind == "f" else T.add(a, b)
    if op == "prod":
        return T.fmul(a, b) if kind == "f" else T.mul(a, b)
    if op == "max":
        return T.fmax(a, b) if kind == "f" else (T.Or(a, b) if kind == "b" else T.imax(a, b))
    if op == "min":
        return T.fmin(a, b) if kind == "f" else (T.And(a, b) if kind == "b" else T.imin(a, b))
    if op == "and":
        return T.And(a, b)
    if op == "or":
        return T.Or(a, b)
    raise Unsupported(op)


def _unit(op, kind):
    if op == "sum":
        return T.fv(0) if kind == "f" else 0
    if op == "prod":
        return T.fv(1) if kind == "f" else 1
    if op == "and":
        return True
    if op == "or":
        return False
    if op == "max" and kind == "f":
        return T.NINF
    if op == "min" and kind == "f":
        return T.PINF
    raise Unsupported("empty reduction " + op)


def reduce_axes(env, op, a, axes, out_dtype):
    axes = sorted(axes)
    keep = [d for d in range(a.ndim) if d not in axes]
    kind = a.kind

    def f(*idx):
        def get(*ks):
            full_idx = [None] * a.ndim
            for d, i in zip(keep, idx):
                full_idx[d] = i
            for d, k in zip(axes, ks):
                full_idx[d] = k
            return a(*full_idx)

        if not axes:
            return get()
        return reduce_box(env, op, [a.shape[ax] for ax in axes], get, kind)

    return SArr([a.shape[d] for d in keep], out_dtype, f)


# ------------------------------------------------------------------ evaluator
def eval_closed(env, closed, args):
    return eval_jaxpr(env, closed.jaxpr, [_const(env, c) for c in closed.consts], args)


def _const(env, c):
    if isinstance(c, SArr):
        return c
    if isinstance(c, jax.Array) and kind_of(c.dtype) == "k":
        raw = np.asarray(jax.random.key_data(c))
        return random_wrap(from_numpy(raw))
    return from_numpy(np.asarray(c), env.exact)


def eval_jaxpr(env, jaxpr, consts, args):
    m = {}

    def read(v):
        if isinstance(v, Literal):
            return from_numpy(np.asarray(v.val, dtype=v.aval.dtype), env.exact)
        return m[v]

    for v, a in zip(jaxpr.constvars, consts):
        m[v] = a
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        m[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(env, eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            m[v] = o
    return [read(v) for v in jaxpr.outvars]


def eval_eqn(env, eqn, ins):
    name = eqn.primitive.name
    f = PRIMS.get(name)
    if f is None:
        raise Unsupported(f"primitive {name}")
    avals = [v.aval for v in eqn.outvars]
    out = f(env, eqn.params, ins, avals)
    if not isinstance(out, (list, tuple)):
        out = [out]
    return out


PRIMS = {}


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


def _shape(env, aval):
    return tuple(env.dim(d) for d in aval.shape)


def _dt(aval):
    return str(aval.dtype)


def elementwise(*names):
    def deco(f):
        def g(env, params, ins, avals):
            sh = _shape(env, avals[0])
            arrs = [a if len(a.shape) == len(sh) else full(sh, a(), a.dtype) for a in ins]
            return SArr(sh, _dt(avals[0]),
                        lambda *i: f(params, ins[0].kind, *[a(*i) for a in arrs]))
        for n in names:
            PRIMS[n] = g
        return f
    return deco


@elementwise("add", "add_any")
def _(p, k, a, b):
    return T.fadd(a, b) if k == "f" else T.add(a, b)


@elementwise("sub")
def _(p, k, a, b):
    return T.fsub(a, b) if k == "f" else T.sub(a, b)


@elementwise("mul")
def _(p, k, a, b):
    return T.fmul(a, b) if k == "f" else T.mul(a, b)


@elementwise("div")
def _(p, k, a, b):
    return T.fdiv(a, b) if k == "f" else T.truncdiv(a, b)


@elementwise("rem")
def _(p, k, a, b):
    if k == "f":
        raise Unsupported("float rem")
    return T.truncrem(a, b)


@elementwise("neg")
def _(p, k, a):
    return T.fneg(a) if k == "f" else T.neg(a)


@elementwise("max")
def _(p, k, a, b):
    return T.fmax(a, b) if k == "f" else (T.Or(a, b) if k == "b" else T.imax(a, b))


@elementwise("min")
def _(p, k, a, b):
    return T.fmin(a, b) if k == "f" else (T.And(a, b) if k == "b" else T.imin(a, b))


@elementwise("abs")
def _(p, k, a):
    return T.fabs_(a) if k == "f" else T.ite(T.le(0, a), a, T.neg(a))


@elementwise("sign")
def _(p, k, a):
    if k == "f":
        return T.fsign(a)
    return T.ite(T.lt(0, a), 1, T.ite(T.lt(a, 0), -1, 0))


@elementwise("exp")
def _(p, k, a):
    return T.fexp(a)


@elementwise("log")
def _(p, k, a):
    return T.flog(a)


@elementwise("sqrt")
def _(p, k, a):
    return T.fsqrt(a)


@elementwise("rsqrt")
def _(p, k, a):
    return T.fdiv(T.fv(1), T.fsqrt(a))


@elementwise("square")
def _(p, k, a):
    return T.fmul(a, a) if k == "f" else T.mul(a, a)


@elementwise("integer_pow")
def _(p, k, a):
    if k == "f":
        return T.fintpow(a, p["y"])
    r = 1
    for _ in range(p["y"]):
        r = T.mul(r, a)
    return r


@elementwise("pow")
def _(p, k, a, b):
    if not isinstance(b, T.FV):
        b = T.fv(b)
    return T.fpow(a, b)


@elementwise("tanh")
def _(p, k, a):
    return T.fun1("tanh", a, math.tanh, Fraction(1), Fraction(-1))


@elementwise("logistic")
def _(p, k, a):
    return T.fun1("logistic", a, lambda v: 1 / (1 + math.exp(-v)) if v > -700 else 0.0, Fraction(1), Fraction(0))


@elementwise("erf_inv")
def _(p, k, a):
    return T.fun1("erf_inv", a, None)


@elementwise("sin")
def _(p, k, a):
    return T.fun1("sin", a, math.sin)


@elementwise("cos")
def _(p, k, a):
    return T.fun1("cos", a, math.cos)


@elementwise("log1p")
def _(p, k, a):
    return T.flog(T.fadd(T.fv(1), a))


@elementwise("expm1")
def _(p, k, a):
    return T.fsub(T.fexp(a), T.fv(1))


@elementwise("floor")
def _(p, k, a):
    v = a.val
    if T.isc(v):
        return T.FV(a.nan, a.pinf, a.ninf, math.floor(v))
    return T.FV(a.nan, a.pinf, a.ninf, z3.ToReal(z3.ToInt(v)))


@elementwise("ceil")
def _(p, k, a):
    v = a.val
    if T.isc(v):
        return T.FV(a.nan, a.pinf, a.ninf, math.ceil(v))
    return T.FV(a.nan, a.pinf, a.ninf, -z3.ToReal(z3.ToInt(-v)))


@elementwise("is_finite")
def _(p, k, a):
    return T.Not(a.special)


@elementwise("lt")
def _(p, k, a, b):
    return T.flt(a, b) if k == "f" else (T.And(T.Not(a), b) if k == "b" else T.lt(a, b))


@elementwise("gt")
def _(p, k, a, b):
    return T.flt(b, a) if k == "f" else (T.And(T.Not(b), a) if k == "b" else T.lt(b, a))


@elementwise("le")
def _(p, k, a, b):
    return T.fle(a, b) if k == "f" else (T.Or(T.Not(a), b) if k == "b" else T.le(a, b))


@elementwise("ge")
def _(p, k, a, b):
    return T.fle(b, a) if k == "f" else (T.Or(T.Not(b), a) if k == "b" else T.le(b, a))


@elementwise("eq")
def _(p, k, a, b):
    return T.feq(a, b) if k == "f" else T.eq(a, b)


@elementwise("ne")
def _(p, k, a, b):
    if k == "f":
        if a is b:
            return a.nan
        return T.Not(T.feq(a, b))
    return T.Not(T.eq(a, b))


@elementwise("and")
def _(p, k, a, b):
    if k == "b":
        return T.And(a, b)
    if T.isc(a) and T.isc(b):
        return a & b
    raise Unsupported("bitwise and")


@elementwise("or")
def _(p, k, a, b):
    if k == "b":
        return T.Or(a, b)
    if T.isc(a) and T.isc(b):
        return a | b
    raise Unsupported("bitwise or")


@elementwise("xor")
def _(p, k, a, b):
    if k == "b":
        return T.Xor(a, b)
    if T.isc(a) and T.isc(b):
        return a ^ b
    raise Unsupported("bitwise xor")


@elementwise("not")
def _(p, k, a):
    if k == "b":
        return T.Not(a)
    return T.sub(T.neg(a), 1)


@elementwise("clamp")
def _(p, k, lo, x, hi):
    if isinstance(x, T.FV):
        return T.fmin(T.fmax(x, lo), hi)
    return T.imin(T.imax(x, lo), hi)


@elementwise("stop_gradient", "copy", "copy_p", "reduce_precision", "optimization_barrier_1", "device_put_1")
def _(p, k, a):
    return a


@prim("device_put", "optimization_barrier")
def _(env, p, ins, avals):
    return list(ins)


@prim("convert_element_type")
def _(env, p, ins, avals):
    a = ins[0]
    nk = kind_of(avals[0].dtype)
    k = a.kind

    def f(*i):
        v = a(*i)
        if k == nk:
            return v
        if nk == "f":
            return T.fv(v) if k == "i" else T.FV(val=T.ite(v, Fraction(1), Fraction(0)))
        if nk == "i":
            if k == "b":
                return T.ite(v, 1, 0)
            if T.isc(v.val):
                return int(math.trunc(v.val)) if T.isc(v.special) and not v.special else 0
            tr = z3.If(v.val >= 0, z3.ToInt(v.val), -z3.ToInt(-v.val))
            return T.ite(v.special, z3.Int(T.CTX.fresh("undef")), tr)
        if nk == "b":
            if k == "i":
                return T.Not(T.eq(v, 0))
            return T.Not(T.feq(v, T.fv(0)))
        raise Unsupported(f"convert {k}->{nk}")

    return SArr(a.shape, _dt(avals[0]), f)


@prim("select_n")
def _(env, p, ins, avals):
    w, cases = ins[0], ins[1:]

    def f(*i):
        c = w(*i) if w.ndim else w()
        if w.kind == "b":
            if T.isc(c):
                return cases[int(c)](*i)
            return T.ite(c, cases[1](*i), cases[0](*i))
        out = cases[-1](*i)
        for j in range(len(cases) - 2, -1, -1):
            out = T.ite(T.le(c, j), cases[j](*i), out)
        return out

    return SArr(cases[0].shape, cases[0].dtype, f)


@prim("broadcast_in_dim")
def _(env, p, ins, avals):
    a = ins[0]
    sh = _shape(env, avals[0])
    bd = p["broadcast_dimensions"]

    def f(*i):
        return a(*[0 if (isinstance(a.shape[d], int) and a.shape[d] == 1) else i[bd[d]]
                   for d in range(a.ndim)])

    return SArr(sh, a.dtype, f)


def _is1(d):
    return isinstance(d, int) and d == 1


def dims_equal(a, b):
    if T.isc(a) and T.isc(b):
        return a == b
    r = T.eq(a, b)
    if r is True:
        return True
    return z3.is_true(z3.simplify(T.zb(r)))


def reshape(env, a, sh):
    """row-major reshape"""
    src = [d for d in range(a.ndim) if not _is1(a.shape[d])]
    dst = [d for d in range(len(sh)) if not _is1(sh[d])]
    s1, s2 = [a.shape[d] for d in src], [sh[d] for d in dst]
    # group matching of dims
    groups = []
    i = j = 0
    while i < len(s1) or j < len(s2):
        if i < len(s1) and j < len(s2) and dims_equal(s1[i], s2[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        gi, gj = [], []
        pi = pj = None
        ok = False
        # grow until products match
        ii, jj = i, j
        gi.append(ii) if ii < len(s1) else None
        gj.append(jj) if jj < len(s2) else None
        if not gi or not gj:
            raise Unsupported(f"reshape {a.shape}->{sh}")
        while True:
            pi = 1
            for x in gi:
                pi = T.mul(pi, s1[x])
            pj = 1
            for x in gj:
                pj = T.mul(pj, s2[x])
            if dims_equal(pi, pj):
                ok = True
                break
            if T.isc(pi) and T.isc(pj):
                if pi < pj:
                    if gi[-1] + 1 >= len(s1):
                        break
                    gi.append(gi[-1] + 1)
                else:
                    if gj[-1] + 1 >= len(s2):
                        break
                    gj.append(gj[-1] + 1)
            else:
                # symbolic: consume the rest
                if gi[-1] + 1 < len(s1) and len(gi) <= len(gj):
                    gi.append(gi[-1] + 1)
                elif gj[-1] + 1 < len(s2):
                    gj.append(gj[-1] + 1)
                elif gi[-1] + 1 < len(s1):
                    gi.append(gi[-1] + 1)
                else:
                    break
        if not ok:
            raise Unsupported(f"reshape {a.shape}->{sh}")
        groups.append((gi, gj))
        i, j = gi[-1] + 1, gj[-1] + 1

    def f(*idx):
        out = [0] * a.ndim
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[src[gi[0]]] = idx[dst[gj[0]]]
                continue
            flat = 0
            for x in gj:
                flat = T.add(T.mul(flat, s2[x]), idx[dst[x]])
            rem = flat
            for pos in range(len(gi) - 1, -1, -1):
                if pos == 0:
                    out[src[gi[pos]]] = rem
                else:
                    out[src[gi[pos]]] = T.floormod(rem, s1[gi[pos]])
                    rem = T.floordiv(rem, s1[gi[pos]])
        return a(*out)

    return SArr(sh, a.dtype, f)


@prim("reshape")
def _(env, p, ins, avals):
    return reshape(env, ins[0], _shape(env, avals[0]))


@prim("squeeze")
def _(env, p, ins, avals):
    a = ins[0]
    dims = [d % a.ndim for d in p["dimensions"]]

    def f(*i):
        i = list(i)
        out = []
        for d in range(a.ndim):
            out.append(0 if d in dims else i.pop(0))
        return a(*out)

    return SArr(_shape(env, avals[0]), a.dtype, f)


@prim("expand_dims")
def _(env, p, ins, avals):
    a = ins[0]
    dims = p["dimensions"]
    nd = len(avals[0].shape)
    dims = [d % nd for d in dims]
    return SArr(_shape(env, avals[0]), a.dtype, lambda *i: a(*[x for d, x in enumerate(i) if d not in dims]))


@prim("transpose")
def _(env, p, ins, avals):
    a = ins[0]
    perm = p["permutation"]

    def f(*i):
        out = [None] * a.ndim
        for k, d in enumerate(perm):
            out[d] = i[k]
        return a(*out)

    return SArr(_shape(env, avals[0]), a.dtype, f)


@prim("rev")
def _(env, p, ins, avals):
    a = ins[0]
    dims = p["dimensions"]
    return SArr(a.shape, a.dtype, lambda *i: a(*[T.sub(T.sub(a.shape[d], 1), x) if d in dims else x for d, x in enumerate(i)]))


@prim("concatenate")
def _(env, p, ins, avals):
    d = p["dimension"]
    arrs = [a for a in ins if not (isinstance(a.shape[d], int) and a.shape[d] == 0)] or ins[:1]

    def f(*i):
        def rec(j, off):
            a = arrs[j]
            loc = T.sub(i[d], off)
            if j == len(arrs) - 1:
                return a(*i[:d], loc, *i[d + 1:])
            end = T.add(off, a.shape[d])
            c = T.lt(i[d], end)
            if T.isc(c):
                return a(*i[:d], loc, *i[d + 1:]) if c else rec(j + 1, end)
            return T.ite(c, a(*i[:d], loc, *i[d + 1:]), rec(j + 1, end))
        return rec(0, 0)

    return SArr(_shape(env, avals[0]), ins[0].dtype, f)


@prim("slice")
def _(env, p, ins, avals):
    a = ins[0]
    st = [env.dim(s) for s in p["start_indices"]]
    strides = p["strides"] or (1,) * a.ndim
    return SArr(_shape(env, avals[0]), a.dtype,
                lambda *i: a(*[T.add(s, T.mul(x, int(r))) for s, x, r in zip(st, i, strides)]))


@prim("pad")
def _(env, p, ins, avals):
    a, pv = ins
    cfg = p["padding_config"]

    def f(*i):
        ok, idx = True, []
        for x, (lo, hi, it), n in zip(i, cfg, a.shape):
            lo = env.dim(lo)
            if it != 0:
                y = T.sub(x, lo)
                ok = T.And(ok, T.eq(T.floormod(y, it + 1), 0))
                y = T.floordiv(y, it + 1)
            else:
                y = T.sub(x, lo)
            ok = T.And(ok, T.le(0, y), T.lt(y, n))
            idx.append(y)
        if T.isc(ok):
            return a(*idx) if ok else pv()
        return T.ite(ok, a(*idx), pv())

    return SArr(_shape(env, avals[0]), a.dtype, f)


@prim("iota")
def _(env, p, ins, avals):
    d = p["dimension"]
    k = kind_of(avals[0].dtype)
    return SArr(_shape(env, avals[0]), _dt(avals[0]), lambda *i: T.fv(i[d]) if k == "f" else i[d])


@prim("dim_as_value")
def _(env, p, ins, avals):
    v = env.dim(p["dim"])
    return full((), v, _dt(avals[0]))


def _clamp(s, lo, hi):
    return T.imin(T.imax(s, lo), hi)


@prim("dynamic_slice")
def _(env, p, ins, avals):
    a, starts = ins[0], ins[1:1 + ins[0].ndim]
    sh = _shape(env, avals[0])
    st = [_clamp(s(), 0, T.sub(n, m)) for s, n, m in zip(starts, a.shape, sh)]
    return SArr(sh, a.dtype, lambda *i: a(*[T.add(s, x) for s, x in zip(st, i)]))


@prim("dynamic_update_slice")
def _(env, p, ins, avals):
    a, u, starts = ins[0], ins[1], ins[2:]
    st = [_clamp(s(), 0, T.sub(n, m)) for s, n, m in zip(starts, a.shape, u.shape)]

    def f(*i):
        inside = T.And(*[T.And(T.le(s, x), T.lt(x, T.add(s, m))) for s, x, m in zip(st, i, u.shape)])
        if T.isc(inside):
            return u(*[T.sub(x, s) for s, x in zip(st, i)]) if inside else a(*i)
        return T.ite(inside, u(*[T.sub(x, s) for s, x in zip(st, i)]), a(*i))

    return SArr(a.shape, a.dtype, f)


@prim("gather")
def _(env, p, ins, avals):
    a, ind = ins
    dn = p["dimension_numbers"]
    sizes = [env.dim(s) for s in p["slice_sizes"]]
    mode = str(p["mode"]).upper()
    off_dims = list(dn.offset_dims)
    coll = list(dn.collapsed_slice_dims)
    obd = list(getattr(dn, "operand_batching_dims", ()))
    sbd = list(getattr(dn, "start_indices_batching_dims", ()))
    nd = len(avals[0].shape)
    batch_dims = [d for d in range(nd) if d not in off_dims]
    win = [d for d in range(a.ndim) if d not in coll and d not in obd]
    fill = p.get("fill_value")

    def f(*i):
        b = [i[d] for d in batch_dims]
        st = {}
        for q, od in enumerate(dn.start_index_map):
            st[od] = ind(*b, q)
        for od, sd in zip(obd, sbd):
            st[od] = b[sd]
        oob = False
        idx = []
        offs = {w: i[o] for w, o in zip(win, off_dims)}
        for d in range(a.ndim):
            s = st.get(d, 0)
            if d in obd:
                idx.append(s)
                continue
            hi = T.sub(a.shape[d], sizes[d])
            if d in st:
                if "CLIP" in mode:
                    s = _clamp(s, 0, hi)
                elif "FILL" in mode:
                    oob = T.Or(oob, T.lt(s, 0), T.lt(hi, s))
            idx.append(T.add(s, offs.get(d, 0)))
        k = a.kind
        if oob is False:
            return a(*idx)
        if fill is not None:
            fl = coerce_elem(fill, k, a.dtype, env.exact)
        else:
            fl = T.NAN if k == "f" else (True if k == "b" else (-2147483648 if str(a.dtype).startswith("int") else 4294967295))
        if oob is True:
            return fl
        return T.ite(oob, fl, a(*idx))

    return SArr(_shape(env, avals[0]), a.dtype, f)


def _scatter(env, p, ins, avals, combine):
    a, ind, upd = ins
    dn = p["dimension_numbers"]
    mode = str(p["mode"]).upper()
    uwd = list(dn.update_window_dims)
    iwd = list(dn.inserted_window_dims)
    obd = list(getattr(dn, "operand_batching_dims", ()))
    sbd = list(getattr(dn, "scatter_indices_batching_dims", ()))
    sdo = list(dn.scatter_dims_to_operand_dims)
    win = [d for d in range(a.ndim) if d not in iwd and d not in obd]
    sdims = [d for d in range(upd.ndim) if d not in uwd]  # scatter (batch) dims of the updates
    bshape = [upd.shape[d] for d in sdims]
    free = [q for q in range(len(bshape)) if q not in sbd]

    def apply_at(i, batch, acc):
        st = {od: ind(*batch, q) for q, od in enumerate(sdo)}
        ok = True
        uidx = [None] * upd.ndim
        for d, b in zip(sdims, batch):
            uidx[d] = b
        for w, ud in zip(win, uwd):
            s = st.get(w, 0)
            n = upd.shape[ud]
            if w in st:
                hi = T.sub(a.shape[w], n)
                if "CLIP" in mode:
                    s = _clamp(s, 0, hi)
                else:
                    ok = T.And(ok, T.le(0, s), T.le(s, hi))
            loc = T.sub(i[w], s)
            if w in st:
                ok = T.And(ok, T.le(0, loc), T.lt(loc, n))
            uidx[ud] = loc
        for d in iwd:
            s = st.get(d, 0)
            if "CLIP" in mode and d in st:
                s = _clamp(s, 0, T.sub(a.shape[d], 1))
            ok = T.And(ok, T.eq(i[d], s))
        if ok is False:
            return acc
        new = combine(acc, upd(*uidx), a.kind)
        return new if ok is True else T.ite(ok, new, acc)

    def f(*i):
        acc = a(*i)
        sizes = [bshape[q] for q in free]
        if not all(isinstance(s, int) for s in sizes):
            raise Unsupported("scatter with symbolic number of indices")
        for bb in np.ndindex(*sizes):
            batch = [None] * len(bshape)
            for q, v in zip(free, bb):
                batch[q] = int(v)
            for od, sd in zip(obd, sbd):
                batch[sd] = i[od]
            acc = apply_at(i, batch, acc)
        return acc

    return SArr(a.shape, a.dtype, f)


@prim("scatter")
def _(env, p, ins, avals):
    return _scatter(env, p, ins, avals, lambda o, n, k: n)


@prim("scatter-add", "scatter_add")
def _(env, p, ins, avals):
    return _scatter(env, p, ins, avals, lambda o, n, k: _comb("sum", o, n, k))


for _n, _o in (("reduce_sum", "sum"), ("reduce_max", "max"), ("reduce_min", "min"),
               ("reduce_prod", "prod"), ("reduce_and", "and"), ("reduce_or", "or")):
    def _mk(o):
        def g(env, p, ins, avals):
            return reduce_axes(env, o, ins[0], p["axes"], _dt(avals[0]))
        return g
    PRIMS[_n] = _mk(_o)


def _argm(sel):
    def g(env, p, ins, avals):
        a = ins[0]
        (ax,) = p["axes"]
        n = a.shape[ax]
        if not isinstance(n, int):
            raise Unsupported("symbolic argmax")

        def f(*i):
            best, bi = a(*i[:ax], 0, *i[ax:]), 0
            for k in range(1, n):
                v = a(*i[:ax], k, *i[ax:])
                if a.kind == "f":
                    c = T.flt(best, v) if sel == "max" else T.flt(v, best)
                    c = T.And(T.Not(best.nan), T.Or(v.nan, c))
                elif a.kind == "b":
                    c = T.And(T.Not(best), v) if sel == "max" else T.And(best, T.Not(v))
                else:
                    c = T.lt(best, v) if sel == "max" else T.lt(v, best)
                best, bi = T.ite(c, v, best), T.ite(c, k, bi)
            return bi
        return SArr(_shape(env, avals[0]), _dt(avals[0]), f)
    return g


PRIMS["argmax"] = _argm("max")
PRIMS["argmin"] = _argm("min")


def _cum(op):
    def g(env, p, ins, avals):
        a = ins[0]
        ax = p["axis"]
        n = a.shape[ax]
        rv = p["reverse"]
        if not isinstance(n, int):
            raise Unsupported("symbolic cumulative op")

        def f(*i):
            if not isinstance(i[ax], int):
                out = None
                for k in range(n):
                    v = f(*i[:ax], k, *i[ax + 1:])
                    out = v if out is None else T.ite(T.eq(i[ax], k), v, out)
                return out
            ks = range(i[ax], n) if rv else range(0, i[ax] + 1)
            acc = None
            for k in ks:
                v = a(*i[:ax], k, *i[ax + 1:])
                acc = v if acc is None else _comb(op, acc, v, a.kind)
            return acc
        return SArr(a.shape, a.dtype, f)
    return g


PRIMS["cumsum"] = _cum("sum")
PRIMS["cumprod"] = _cum("prod")
PRIMS["cummax"] = _cum("max")
PRIMS["cummin"] = _cum("min")


@prim("dot_general")
def _(env, p, ins, avals):
    a, b = ins
    (ca, cb), (ba, bb) = p["dimension_numbers"]
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    nb = len(ba)

    def f(*i):
        ia, ib = [None] * a.ndim, [None] * b.ndim
        for q in range(nb):
            ia[ba[q]] = i[q]
            ib[bb[q]] = i[q]
        for q, d in enumerate(fa):
            ia[d] = i[nb + q]
        for q, d in enumerate(fb):
            ib[d] = i[nb + len(fa) + q]

        def get(*ks):
            ja, jb = list(ia), list(ib)
            for q, k in enumerate(ks):
                ja[ca[q]] = k
                jb[cb[q]] = k
            x, y = a(*ja), b(*jb)
            return T.fmul(x, y) if a.kind == "f" else T.mul(x, y)
        if not ca:
            return get()
        return reduce_box(env, "sum", [a.shape[c] for c in ca], get, a.kind)

    return SArr(_shape(env, avals[0]), _dt(avals[0]), f)


@prim("sort")
def _(env, p, ins, avals):
    if p["num_keys"] != 1:
        raise Unsupported("sort with several keys")
    ax = p["dimension"]
    n = ins[0].shape[ax]
    if not isinstance(n, int) or n > 8:
        raise Unsupported("symbolic sort")
    memo = {}

    def sorted_cols(rest):
        from .arrays import _key
        key = tuple(_key(r) for r in rest)
        if key in memo:
            return memo[key]
        rows = [[x(*rest[:ax], k, *rest[ax:]) for x in ins] for k in range(n)]

        def less(u, v):
            if ins[0].kind == "f":
                return T.Or(T.flt(u, v), T.And(T.Not(u.nan), v.nan))
            return T.lt(u, v)
        # stable insertion network
        for q in range(1, n):
            for r in range(q, 0, -1):
                c = less(rows[r][0], rows[r - 1][0])
                lo = [T.ite(c, y, x) for x, y in zip(rows[r - 1], rows[r])]
                hi = [T.ite(c, x, y) for x, y in zip(rows[r - 1], rows[r])]
                rows[r - 1], rows[r] = lo, hi
        memo[key] = rows
        return rows

    def mk(j):
        def f(*i):
            rows = sorted_cols(i[:ax] + i[ax + 1:])
            if isinstance(i[ax], int):
                return rows[i[ax]][j]
            out = rows[0][j]
            for k in range(1, n):
                out = T.ite(T.eq(i[ax], k), rows[k][j], out)
            return out
        return SArr(ins[j].shape, ins[j].dtype, f)

    return [mk(j) for j in range(len(ins))]


# ---------------------------------------------------------------- calls & control
def _call(env, p, ins, avals):
    j = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
    if hasattr(j, "consts"):
        return eval_closed(env, j, ins)
    return eval_jaxpr(env, j, [], ins)


for _n in ("jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call",
           "custom_vjp_call_jaxpr", "remat", "checkpoint", "remat2", "custom_lin", "xla_call", "name"):
    PRIMS[_n] = _call


@prim("name")
def _(env, p, ins, avals):
    return list(ins)


@prim("cond")
def _(env, p, ins, avals):
    br = p["branches"]
    i = ins[0]()
    if ins[0].kind == "b":
        i = T.ite(i, 1, 0)
    if T.isc(i):
        i = min(max(int(i), 0), len(br) - 1)
        return eval_closed(env, br[i], ins[1:])
    outs = [eval_closed(env, b, ins[1:]) for b in br]

    def mk(k):
        def f(*ix):
            v = outs[-1][k](*ix)
            for q in range(len(br) - 2, -1, -1):
                v = T.ite(T.le(i, q), outs[q][k](*ix), v)
            return v
        return SArr(_shape(env, avals[k]), _dt(avals[k]), f)
    return [mk(k) for k in range(len(avals))]


class ScanRec:
    """A scan of symbolic length: carry(t) as uninterpreted sequences defined by
    carry(0)=init and carry(t+1)=body(carry(t), xs[t])."""

    def __init__(self, env, p, ins):
        self.env = env
        nc, nk = p["num_consts"], p["num_carry"]
        self.consts, self.init, self.xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        self.nk = nk
        self.body = p["jaxpr"]
        self.length = env.dim(p["length"])
        self.reverse = p["reverse"]
        self.name = T.CTX.fresh("scan")
        self.memo = {}
        self.resolved = {}  # carry leaf -> fn(t) -> SArr (proved closed form)
        avals = self.body.in_avals[nc:nc + nk]
        self.cshapes = [tuple(env.dim(d) for d in a.shape) for a in avals]
        self.cdtypes = [str(a.dtype) for a in avals]

    def x_at(self, t):
        pos = T.sub(T.sub(self.length, 1), t) if self.reverse else t
        return [SArr(x.shape[1:], x.dtype, lambda *i, x=x: x(pos, *i)) for x in self.xs]

    def carry(self, t):
        out = []
        for k, (sh, dt, a0) in enumerate(zip(self.cshapes, self.cdtypes, self.init)):
            if isinstance(t, int) and t == 0:
                out.append(a0)
                continue
            if k in self.resolved:
                out.append(self.resolved[k](t))
                continue
            out.append(self.sym_carry(k, t))
        return out

    def sym_carry(self, k, t):
        sh, dt = self.cshapes[k], self.cdtypes[k]
        kd = kind_of(dt)
        nm = f"{self.name}.c{k}"
        if kd == "k":
            return SArr(sh, dt, lambda *i: T.uf(nm, *([I] * (1 + len(i))), KEY)(T.zi(t), *[T.zi(x) for x in i]))
        if kd == "f":
            return SArr(sh, dt, lambda *i: T.sym_float(nm, True, True, (t,) + i))
        if kd == "i":
            return SArr(sh, dt, lambda *i: T.sym_int(nm, (t,) + i))
        return SArr(sh, dt, lambda *i: T.sym_bool(nm, (t,) + i))

    def step_from(self, carry, t):
        """(next carry, ys) computed by the body from the given carry arrays at iteration t."""
        outs = eval_closed(self.env, self.body, list(self.consts) + list(carry) + self.x_at(t))
        return outs[:self.nk], outs[self.nk:]

    def step(self, t):
        from .arrays import _key
        k = (_key(t), len(self.resolved))
        if k not in self.memo:
            self.memo[k] = (self.step_from(self.carry(t), t), t)
        return self.memo[k][0]


@prim("scan")
def _(env, p, ins, avals):
    nc, nk = p["num_consts"], p["num_carry"]
    length = env.dim(p["length"])
    if isinstance(length, int):
        consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        ys = [None] * length
        order = range(length - 1, -1, -1) if p["reverse"] else range(length)
        for t in order:
            xt = [SArr(x.shape[1:], x.dtype, lambda *i, x=x, t=t: x(t, *i)) for x in xs]
            outs = eval_closed(env, p["jaxpr"], list(consts) + list(carry) + xt)
            carry, ys[t] = outs[:nk], outs[nk:]
        res = list(carry)
        for q in range(len(avals) - nk):
            def f(t, *i, q=q):
                if isinstance(t, int):
                    return ys[t][q](*i)
                out = ys[0][q](*i)
                for k in range(1, length):
                    out = T.ite(T.eq(t, k), ys[k][q](*i), out)
                return out
            res.append(SArr(_shape(env, avals[nk + q]), _dt(avals[nk + q]), f))
        return res
    rec = ScanRec(env, p, ins)
    env.scans.append(rec)
    res = []
    for k in range(nk):
        res.append(SArr(rec.cshapes[k], rec.cdtypes[k],
                        lambda *i, k=k: rec.carry(length)[k](*i)))
    for q in range(len(avals) - nk):
        def f(t, *i, q=q):
            pos = T.sub(T.sub(length, 1), t) if rec.reverse else t
            return rec.step(pos)[1][q](*i)
        res.append(SArr(_shape(env, avals[nk + q]), _dt(avals[nk + q]), f))
    return res


@prim("while")
def _(env, p, ins, avals):
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
    for _ in range(10000):
        c = eval_closed(env, p["cond_jaxpr"], list(cc) + list(carry))[0]()
        if not T.isc(c):
            raise Unsupported("while with symbolic condition")
        if not c:
            return carry
        carry = eval_closed(env, p["body_jaxpr"], list(bc) + list(carry))
        carry = [_force(x) for x in carry]
    raise Unsupported("while: too many iterations")


def _force(x):
    if x.ndim == 0:
        x()
    return x


# ---------------------------------------------------------------- random keys (uninterpreted)
def keymk(a, b):
    a, b = T.zi(a), T.zi(b)
    # mk(kw(k,0), kw(k,1)) = k
    if T._app(a, "keyword") and T._app(b, "keyword") and a.arg(0).eq(b.arg(0)):
        if a.arg(1).as_long() == 0 and b.arg(1).as_long() == 1:
            return a.arg(0)
    return T.uf("keymk", I, I, KEY)(a, b)


def keyword(k, i):
    if T._app(k, "keymk") and isinstance(i, int):
        a = k.arg(i)
        return a.as_long() if z3.is_int_value(a) else a
    if not isinstance(i, int):
        return T.ite(T.eq(i, 0), keyword(k, 0), keyword(k, 1))
    t = T.uf("keyword", KEY, I, I)(k, T.zi(i))
    return t


def random_wrap(a):
    return SArr(a.shape[:-1], "key<fry>", lambda *i: keymk(a(*i, 0), a(*i, 1)))


@prim("random_wrap")
def _(env, p, ins, avals):
    return random_wrap(ins[0])


@prim("random_unwrap")
def _(env, p, ins, avals):
    a = ins[0]
    return SArr(a.shape + (2,), "uint32", lambda *i: keyword(a(*i[:-1]), i[-1]))


@prim("random_split")
def _(env, p, ins, avals):
    a = ins[0]
    sh = p["shape"]
    n = 1
    for s in sh:
        n = T.mul(n, env.dim(s))

    def f(*i):
        b, r = i[:a.ndim], i[a.ndim:]
        flat = 0
        for x, s in zip(r, sh):
            flat = T.add(T.mul(flat, env.dim(s)), x)
        return T.uf("keysplit", KEY, I, I, KEY)(a(*b), T.zi(n), T.zi(flat))
    return SArr(_shape(env, avals[0]), "key<fry>", f)


@prim("random_fold_in")
def _(env, p, ins, avals):
    a, d = ins
    return SArr(a.shape, "key<fry>", lambda *i: T.uf("keyfold", KEY, I, KEY)(a(*i), T.zi(d(*i) if d.ndim else d())))


@prim("random_seed")
def _(env, p, ins, avals):
    a = ins[0]
    return SArr(a.shape, "key<fry>", lambda *i: keymk(0, a(*i)))


@prim("random_bits")
def _(env, p, ins, avals):
    a = ins[0]
    nm = "rbits_" + str(p["bit_width"]) + "_" + str(p["shape"])
    return SArr(_shape(env, avals[0]), _dt(avals[0]),
                lambda *i: T.uf(nm, KEY, *([I] * (len(i) - a.ndim)), I)(a(*i[:a.ndim]), *[T.zi(x) for x in i[a.ndim:]]))


@elementwise("shift_right_logical")
def _(p, k, a, b):
    if T.isc(a) and T.isc(b):
        return (a & 0xFFFFFFFF) >> b
    if T.isc(b):
        return T.floordiv(a, 2 ** b)
    raise Unsupported("shift")


@elementwise("shift_left")
def _(p, k, a, b):
    if T.isc(b):
        return T.mul(a, 2 ** b)
    raise Unsupported("shift")


# ---------------------------------------------------------------- tracing helper
def sds(shape, dtype="float32"):
    return jax.ShapeDtypeStruct(tuple(shape), np.dtype(dtype))


def trace(f, *args):
    """Trace the real function; returns (closed jaxpr, output pytree of ShapeDtypeStruct)."""
    # a fresh function object: JAX caches traces per function
    real = jax.lax.scan

    def scan(g, init, xs=None, length=None, *a, **k):
        # Haiku passes the (redundant) length explicitly; lax.scan only accepts a symbolic one implicitly
        if length is not None and not isinstance(length, (int, np.integer)) and jax.tree_util.tree_leaves(xs):
            length = None
        return real(g, init, xs, length, *a, **k)
    jax.lax.scan = scan
    try:
        closed, out = jax.make_jaxpr(lambda *a: f(*a), return_shape=True)(*args)
    finally:
        jax.lax.scan = real
    return closed, out
