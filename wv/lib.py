"""Shared vocabulary of the contracts."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from . import terms as T
from .arrays import SArr, coerce_elem, fresh_index, from_numpy, full, kind_of, map_, sym, to_numpy
from .contracts import *  # noqa
from .terms import FV, And, Iff, Implies, Not, Or, fv, ite

RANKS = {0: (), 1: ("n",), 2: ("n", "m")}


def dims_of(shape):
    return tuple(d for d in shape if isinstance(d, str))


def shp(S, shape):
    return tuple(S.get(d, d) for d in shape)


def greal(name, shape, pre=None):
    """ghost array of finite reals"""
    return sym(name, shape, "float32", nan=False, pre=pre and (lambda v: pre(v.val)))


def gfloat(name, shape, inf=False):
    return sym(name, shape, "float32", nan=True, inf=inf)


def gint(name, shape, pre=None):
    return sym(name, shape, "int32", pre=pre)


def gbool(name, shape):
    return sym(name, shape, "bool")


def const(shape, v, dtype="float32"):
    return full(shape, v, dtype)


def isobs(x):
    return Not(x.nan)


from .opaque import dname, opaque  # noqa
from .seq import FnCase, Ghost, jx  # noqa


def row(a, t):
    """a[t]"""
    return SArr(a.shape[1:], a.dtype, lambda *i: a(t, *i))


def stack_seq(T_, like, f):
    """array whose t-th row is f(t)"""
    def g(t, *i):
        if isinstance(T_, int) and not isinstance(t, int):
            out = f(0)(*i)
            for k in range(1, T_):
                out = ite(T.eq(t, k), f(k)(*i), out)
            return out
        return f(t)(*i)
    return SArr((T_,) + tuple(like.shape), like.dtype, g)


def take(a, *ix):
    return SArr(a.shape[len(ix):], a.dtype, lambda *i: a(*ix, *i))


def seq(n, shape, dtype, f):
    """array of shape (n, *shape) whose row t is f(t)"""
    return stack_seq(n, const(shape, 0, dtype), f)


def symbolic_len(*modules):
    """Python's len() must return an int, so it cannot be applied to an array of symbolic extent.  In the named modules of the
    code under contract, len of an array is given its definition (extent of the leading axis); everything else is the builtin."""
    import builtins

    def len_(x):
        return x.shape[0] if hasattr(x, "shape") and x.shape else builtins.len(x)
    for m in modules:
        m.len = len_
