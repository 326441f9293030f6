"""Opaque functions: an arbitrary (uninterpreted) user function as a JAX primitive.

`opaque(name, *args, out=...)` may be called inside code traced from /repo (for instance as the
user function handed to a combinator).  In verification conditions it is an uninterpreted function
of all its arguments; a contract proved about it therefore holds for every user function of those
shapes.  It supports jit, scan, cond, vmap and differentiation (its derivative is another opaque
function), and has an arbitrary fixed numerical meaning for replays on the real code.
"""
from __future__ import annotations

import hashlib
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3
from jax import core
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir

from . import jaxsym as J
from . import terms as T
from .arrays import SArr, kind_of

opaque_p = Primitive("wv_opaque")
opaque_p.multiple_results = True


def _norm_out(out):
    return tuple((tuple(int(d) for d in s), str(d)) for s, d in out)


def opaque(name, *args, out=(((), "float32"),)):
    """Apply the uninterpreted function `name`; returns one array, or a list if several outputs."""
    out = _norm_out(out)
    if any(isinstance(a, SArr) for a in args):
        r = [_sym_out(name, args, k, sh, dt) for k, (sh, dt) in enumerate(out)]
    else:
        args = [jnp.asarray(a) for a in args]
        args = [jax.random.key_data(a) if kind_of(a.dtype) == "k" else a for a in args]
        r = opaque_p.bind(*args, name=name, out=out, levels=())
    return r[0] if len(r) == 1 else r


# ------------------------------------------------------------- numerical meaning
def _w(name, *k):
    h = hashlib.md5(repr((name,) + k).encode()).digest()
    return (int.from_bytes(h[:4], "big") / 2 ** 32 - 0.5) * 1.6


def _flatten_num(args):
    vals = []
    for a in args:
        k = kind_of(a.dtype)
        a = a.reshape(-1)
        if k == "i" and "uint32" in str(a.dtype):
            a = (a % 1009).astype(jnp.float32) / 1009
        else:
            a = a.astype(jnp.float32)
            a = jnp.where(jnp.isfinite(a), a, 0.77)
            a = a / (1 + jnp.abs(a))
        vals.append(a)
    return jnp.concatenate(vals) if vals else jnp.zeros((0,), jnp.float32)


def _impl(*args, name, out, levels):
    if levels:
        flags = levels[0]
        f = lambda *a: _impl(*a, name=name, out=out, levels=levels[1:])
        return jax.vmap(f, in_axes=tuple(0 if b else None for b in flags))(*args)
    v = _flatten_num(args)
    res = []
    for k, (sh, dt) in enumerate(out):
        n = int(np.prod(sh)) if sh else 1
        W = np.array([[_w(name, k, o, q) for q in range(v.shape[0])] for o in range(n)], np.float32).reshape(n, v.shape[0])
        c = np.array([_w(name, k, o, "c") for o in range(n)], np.float32)
        s = jnp.sum(jnp.asarray(W) * v[None, :], axis=1) + c
        y = 1.5 * jnp.sin(s) + 0.2 * s
        kd = kind_of(dt)
        if kd == "b":
            y = y > 0
        elif kd == "i":
            y = jnp.floor(jnp.abs(y) * 5)
        res.append(y.astype(dt).reshape(sh))
    return res


def _sq(v):
    return v / (1 + abs(v))


def _num(name, k, o, vals):
    s = _w(name, k, o, "c") + sum(_w(name, k, o, q) * v for q, v in enumerate(vals))
    return 1.5 * math.sin(s) + 0.2 * s


opaque_p.def_impl(lambda *a, **p: jax.jit(lambda *b: _impl(*b, **p))(*a))
mlir.register_lowering(opaque_p, mlir.lower_fun(lambda *a, **p: _impl(*a, **p), multiple_results=True))


@opaque_p.def_abstract_eval
def _abs(*avals, name, out, levels):
    lead = []
    rest = [list(a.shape) for a in avals]
    for flags in levels:
        b = [r[0] for r, f in zip(rest, flags) if f][0]
        for r, f in zip(rest, flags):
            if f:
                r.pop(0)
        lead.append(b)
    return [core.ShapedArray(tuple(lead) + sh, np.dtype(dt)) for sh, dt in out]


def _batch(args, dims, *, name, out, levels):
    flags = tuple(d is not batching.not_mapped for d in dims)
    args = [(jnp.moveaxis(a, d, 0) if d != 0 else a) if f else a for a, d, f in zip(args, dims, flags)]
    r = opaque_p.bind(*args, name=name, out=out, levels=(flags,) + levels)
    return r, [0] * len(r)


batching.primitive_batchers[opaque_p] = _batch


def dname(name, k, j):
    return f"D[{k},{j}]{name}"


def _jvp(primals, tangents, *, name, out, levels):
    assert not levels, "differentiate before batching"
    r = opaque_p.bind(*primals, name=name, out=out, levels=levels)
    ts = []
    for k, (sh, dt) in enumerate(out):
        if kind_of(dt) != "f":
            ts.append(ad.Zero.from_primal_value(r[k]) if hasattr(ad.Zero, "from_primal_value") else ad.Zero(core.get_aval(r[k]).to_tangent_aval()))
            continue
        tot = None
        for j, (x, t) in enumerate(zip(primals, tangents)):
            if isinstance(t, ad.Zero) or kind_of(x.dtype) != "f":
                continue
            (D,) = opaque_p.bind(*primals, name=dname(name, k, j), out=((tuple(sh) + tuple(x.shape), dt),), levels=())
            nd = len(x.shape)
            v = jnp.tensordot(D, t, axes=nd) if nd else D * t
            tot = v if tot is None else tot + v
        ts.append(tot if tot is not None else ad.Zero(core.get_aval(r[k]).to_tangent_aval()))
    return r, ts


ad.primitive_jvps[opaque_p] = _jvp


# ------------------------------------------------------------- symbolic meaning
def _elems(a):
    """all elements of an array with concrete shape"""
    if any(not isinstance(d, int) for d in a.shape):
        raise J.Unsupported("opaque function of an array of symbolic shape")
    return [a(*ii) for ii in np.ndindex(*a.shape)]


def _apply(name, k, idx, dt, args):
    terms, nums = [], []
    conc = True
    for a in args:
        kd = a.kind
        for v in _elems(a):
            if kd == "k":
                conc = False
                terms.append(v)
            elif kd == "f":
                sp = v.special
                terms += [T.zb(v.nan), T.zb(v.pinf), T.zb(v.ninf), T.zr(T.ite(sp, Fraction(0), v.val))]
                if v.is_const():
                    nums.append(_sq(0.77 if sp else float(v.val)))
                else:
                    conc = False
            elif kd == "b":
                terms.append(T.zb(v))
                if T.isc(v):
                    nums.append(_sq(float(v)))
                else:
                    conc = False
            else:
                terms.append(T.zi(v))
                if T.isc(v):
                    nums.append((int(v) % 1009) / 1009 if "uint32" in str(a.dtype) else _sq(float(v)))
                else:
                    conc = False
    kd = kind_of(dt)
    # evaluate numerically in concrete runs only (all inputs are machine numbers)
    if conc and all(isinstance(i, int) for i in idx) and T.CTX.concrete:
        return ("num", nums)
    so = {"f": T.R, "i": J.I, "b": z3.BoolSort()}[kd]
    sorts = [t.sort() for t in terms]
    ix = [T.zi(i) for i in idx]
    f = T.uf(f"op.{name}.{k}" + "".join("f" if s == T.R else ("b" if s == z3.BoolSort() else ("i" if s == J.I else "k")) for s in sorts),
             *([J.I] * len(ix)), *sorts, so)
    v = f(*ix, *terms) if (ix or terms) else z3.Const(f"op.{name}.{k}", so)
    return ("sym", v)


def _sym_out(name, args, k, sh, dt):
    kd = kind_of(dt)
    if kd == "i" and str(dt).startswith("uint"):
        pos = True
    else:
        pos = False

    def f(*idx):
        tag, v = _apply(name, k, idx, dt, args)
        if tag == "num":
            o = int(np.ravel_multi_index(idx, sh)) if sh else 0
            y = _num(name, k, o, v)
            if kd == "f":
                return T.FV(val=float(y))
            return (y > 0) if kd == "b" else int(math.floor(abs(y) * 5))
        if pos:
            T.CTX.fact(v >= 0)
        return T.FV(val=v) if kd == "f" else v
    return SArr(sh, dt, f)


@J.prim("wv_opaque")
def _(env, p, ins, avals):
    name, out, levels = p["name"], p["out"], p["levels"]
    nl = len(levels)

    def mk(k):
        sh, dt = out[k]

        def f(*idx):
            b, i = idx[:nl], idx[nl:]
            args = []
            for q, a in enumerate(ins):
                pre = tuple(b[l] for l in range(nl) if levels[l][q])
                args.append(SArr(a.shape[len(pre):], a.dtype, lambda *ii, a=a, pre=pre: a(*pre, *ii)))
            return _sym_out(name, args, k, sh, dt)(*i)
        return SArr(J._shape(env, avals[k]), J._dt(avals[k]), f)
    return [mk(k) for k in range(len(out))]
