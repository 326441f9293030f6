"""Symbolic arrays: shape (ints or z3 Int terms), dtype kind, and a function index -> element."""
from __future__ import annotations

import numpy as np
import z3

from . import terms as T


def _key(i):
    return i if isinstance(i, int) else ("z", i.get_id())


class SArr:
    __slots__ = ("shape", "dtype", "_f", "memo", "keep")

    def __init__(self, shape, dtype, f):
        self.shape = tuple(shape)
        self.dtype = dtype
        self._f = f
        self.memo = {}
        self.keep = []

    @property
    def kind(self):
        return kind_of(self.dtype)

    @property
    def ndim(self):
        return len(self.shape)

    def __call__(self, *idx):
        assert len(idx) == len(self.shape), (idx, self.shape)
        k = tuple(_key(i) for i in idx)
        if k in self.memo:
            return self.memo[k]
        v = self._f(*idx)
        self.memo[k] = v
        self.keep.append(idx)  # keep index terms alive: memo is keyed by z3 ast ids
        return v

    def __repr__(self):
        return f"SArr{self.shape}:{self.dtype}"


def kind_of(dtype):
    s = str(dtype)
    if s.startswith("key"):
        return "k"
    if s.startswith("float0"):
        return "z"
    if s.startswith(("float", "bfloat")):
        return "f"
    if s.startswith(("int", "uint")):
        return "i"
    if s.startswith("bool"):
        return "b"
    raise ValueError(f"dtype {dtype}")


def coerce_elem(x, kind, dtype="float32", exact=False):
    if kind == "f":
        if isinstance(x, T.FV):
            return x
        xf = float(x)
        if np.isnan(xf) or np.isinf(xf):
            return T.fv(xf)
        if exact:
            return T.FV(val=xf)
        return T.FV(val=T.rational_of_float(x, "64" not in str(dtype)))
    if kind == "i":
        return int(x)
    if kind == "b":
        return bool(x)
    raise ValueError(kind)


def from_numpy(a, exact=False):
    a = np.asarray(a)
    k = kind_of(a.dtype)

    def f(*idx):
        if all(isinstance(i, int) for i in idx):
            return coerce_elem(a[idx], k, a.dtype, exact)
        if a.size == 1:
            return coerce_elem(a.reshape(-1)[0], k, a.dtype, exact)
        if a.size > 4096:
            raise NotImplementedError("large constant with symbolic index")
        # symbolic index into a constant array
        out = None
        for ii in np.ndindex(a.shape):
            v = coerce_elem(a[ii], k, a.dtype, exact)
            if out is None:
                out = v
            else:
                out = T.ite(T.And(*[T.eq(i, j) for i, j in zip(idx, ii)]), v, out)
        return out

    return SArr(a.shape, str(a.dtype), f)


def to_numpy(a: SArr):
    """concrete arrays only"""
    sh = tuple(int(s) for s in a.shape)
    dt = {"f": float, "i": object, "b": bool, "k": object}[a.kind]
    out = np.empty(sh, dt)
    for ii in np.ndindex(sh):
        v = a(*ii)
        out[ii] = T.tofloat(v) if a.kind == "f" else v
    if a.kind == "i":
        out = out.astype(np.int64)
    return out


def full(shape, v, dtype="float32"):
    k = kind_of(dtype)
    if k == "f":
        v = T.fv(v)
    return SArr(shape, dtype, lambda *i: v)


def map_(f, *arrs, dtype=None, shape=None):
    return SArr(shape if shape is not None else arrs[0].shape, dtype or arrs[0].dtype,
                lambda *i: f(*[a(*i) for a in arrs]))


def sym(name, shape, dtype="float32", nan=True, inf=False, pre=None):
    """Fresh symbolic array: an uninterpreted function of the index."""
    k = kind_of(dtype)

    def f(*idx):
        if k == "f":
            v = T.sym_float(name, nan, inf, idx)
        elif k == "i":
            v = T.sym_int(name, idx)
            if str(dtype).startswith("uint"):
                T.CTX.fact(v >= 0)
        elif k == "b":
            v = T.sym_bool(name, idx)
        else:
            raise ValueError(k)
        if pre is not None:
            T.CTX.fact(pre(v))
        return v

    return SArr(shape, dtype, f)


def fresh_index(shape, tag="i"):
    """Fresh index into an array of this shape plus the range hypotheses."""
    idx, hyps = [], []
    for d, s in enumerate(shape):
        if isinstance(s, int) and s == 1:
            idx.append(0)
            continue
        v = z3.Int(T.CTX.fresh(f"{tag}{d}"))
        hyps += [v >= 0, v < T.zi(s)]
        idx.append(v)
    return tuple(idx), hyps
