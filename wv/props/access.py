"""wax.accessors, wax.format, Stream.prepare: a function applied through a pandas/xarray accessor."""
import itertools

import numpy as np
import z3

from .. import pysym as Y
from ..host import HostCase, Tok

ACC = "src/wax/accessors.py:"
FMT = "src/wax/format.py:"
STR = "src/wax/stream.py:"


# ----------------------------------------------------------------------------------- arrays with labelled axes, by contract
class Out:
    """an array known only by its rank (outputs of the unrolled function)"""

    def __init__(self, name, ndim, numpy=False):
        self.name, self.ndim, self.numpy = name, ndim, numpy
        self.shape = tuple(z3.Int(f"{name}_size{k}") for k in range(ndim))

    size = property(lambda s: Tok("size", s.name))

    def __array__(self, *a, **k):
        raise Y.Mismatch("the values of an arbitrary array are read")

    def __bool__(self):
        raise Y.Mismatch("truth value of an arbitrary array")


class Np(Out):
    """the same array, as a numpy array"""

    def __init__(self, x):
        super().__init__(x.name, x.ndim, True)


class Onp:
    """numpy: real, except for what is applied to arbitrary arrays"""

    def __init__(self, **more):
        self.__dict__.update(more)

    def __getattr__(self, nm):
        f = getattr(np, nm)
        if nm in ("array", "asarray", "asanyarray"):
            def conv(x, *a, **k):
                if isinstance(x, Out):
                    if a or k.get("dtype") is not None:
                        raise Y.Mismatch("conversion of the outputs to a type")
                    return Np(x)
                return f(x, *a, **k)
            return conv
        if nm == "ndarray":
            return NdArray
        if nm in ("shape", "ndim"):
            return lambda x: getattr(x, nm) if isinstance(x, Out) else f(x)
        if callable(f) and not isinstance(f, type):
            def call(*a, **k):
                if any(isinstance(x, Out) for x in a):
                    raise Y.Mismatch(f"numpy.{nm} of an arbitrary array")
                return f(*a, **k)
            return call
        return f


class _Nd(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Np, np.ndarray))


class NdArray(metaclass=_Nd):
    pass


class Coords:
    """coordinates: a mapping from names to labels, iterated in the order of the object"""

    def __init__(self, name, dims):
        self.name, self.dims = name, tuple(dims)

    def items(self):
        return [(d, self[d]) for d in self.dims]

    def keys(self):
        return list(self.dims)

    def __iter__(self):
        return iter(self.dims)

    def __contains__(self, d):
        return d in self.dims

    def __getitem__(self, d):
        if d not in self.dims:
            raise KeyError(d)
        return Tok("labels", self.name, d)

    def __eq__(self, o):
        return isinstance(o, Coords) and (self.name, self.dims) == (o.name, o.dims)

    def __hash__(self):
        return hash((self.name, self.dims))


def dimnames(dims):
    """xarray's contract on dims: a string is one name"""
    if isinstance(dims, str):
        return (dims,)
    return tuple(str(d) for d in dims)


class Table:
    """xr.DataArray, by its contract: as many names as axes, labels of those axes"""

    def __init__(self, data=None, coords=None, dims=None, **k):
        if k:
            raise Y.Mismatch("options of DataArray")
        if not isinstance(data, Out):
            raise Y.Mismatch("DataArray of something else")
        d = dimnames(dims if dims is not None else [f"dim_{i}" for i in range(data.ndim)])
        if len(d) != data.ndim:
            raise ValueError("different number of dimensions on data and dims")
        for nm in (coords or {}):
            if nm not in d:
                raise ValueError("coordinate of a dimension that is not there")
        self.data, self.dims, self.coords = data, d, {nm: coords[nm] for nm in (coords or {})}
        self.ndim = data.ndim

    values = property(lambda s: s.data)

    def to_series(self):
        if self.ndim == 0:
            raise ValueError("cannot convert 0-d to a series")
        return Frame(self, self.dims, ())

    def to_pandas(self):
        if self.ndim > 2:
            raise ValueError("cannot convert")
        return Frame(self, self.dims[:1], self.dims[1:])

    def to_dataframe(self, *a, **k):
        raise Y.Mismatch("to_dataframe")


class Frame:
    """pandas series / frame holding every entry of the table under its labels: which axes label the rows, which the columns"""

    def __init__(self, t, rows, cols):
        self.t, self.rows, self.cols = t, tuple(rows), tuple(cols)

    class _Index:
        def __init__(self, names):
            self.names, self.nlevels = list(names), len(names)
    index = property(lambda s: Frame._Index(s.rows))
    columns = property(lambda s: Frame._Index(s.cols))

    def unstack(self, level=-1, **k):
        if k or self.cols:
            raise Y.Mismatch("unstack")
        lv = level if isinstance(level, (list, tuple)) else [level]
        names = [x if isinstance(x, str) else self.rows[x] for x in lv]
        if not names:
            raise Y.Mismatch("unstack of nothing")
        return Frame(self.t, [r for r in self.rows if r not in names], names)


def leaves_of(data):
    import jax
    return jax.tree_util.tree_flatten(data)


TREES = [
    ("leaf", lambda f: f(0)),
    ("pair", lambda f: (f(0), f(1))),
    ("triple", lambda f: (f(0), f(1), f(2))),
    ("dict", lambda f: {"b": f(0), "a": f(1)}),
    ("nested", lambda f: {"x": (f(0), [f(1)]), "y": f(2)}),
    ("single", lambda f: (f(0),)),
]


def same_tree(a, b):
    return str(leaves_of(a)[1]) == str(leaves_of(b)[1])


# ------------------------------------------------------------------------------------------------ formatting
class XR:
    DataArray = Table

    class Dataset:
        def __init__(self, data_vars=None, coords=None):
            if isinstance(data_vars, dict) and all(isinstance(v, Table) for v in data_vars.values()) and coords is None:
                self.vars = dict(data_vars)
            elif isinstance(data_vars, dict) and coords is None and any(isinstance(v, (tuple, list)) for v in data_vars.values()):
                # a tuple is read as (dims, values), a list as values
                raise (ValueError if Y.EX.fork(z3.Bool("kind of error")) else TypeError)("not a variable")
            elif isinstance(data_vars, dict):
                raise Y.Mismatch("Dataset of something else")
            else:
                raise TypeError("not a mapping")


def loaded(mod, **shims):
    return Y.load(mod, Y.Hooks(None), dict(onp=Onp(), **shims))


def format_cases(P):
    out = []
    COO = ("c", "t", "other", "u")

    def fmt(kind, per_leaf):
        name = "format_" + kind

        def scenario(ob, plan):
            for tnm, tree in TREES:
                if tnm == "leaf" and per_leaf:
                    pass
                for ranks in itertools.product((1, 2, 3), repeat=3) if per_leaf else [(r,) * 3 for r in (1, 2, 3)]:
                    if tnm in ("leaf", "single") and ranks[1:] != (1, 1) and per_leaf:
                        continue
                    for nlev in ((1, 2) if kind == "dataframe" else (1,)):
                        if nlev >= min(ranks) and nlev > 1:
                            continue
                        m = loaded("wax.format", xr=XR)
                        coords = Coords("c", COO)
                        names = [("t", "u", "c"), ("c", "t", "w"), ("t", "c", "other")]
                        leaf = [Np(Out(f"y{k}", ranks[k])) for k in range(3)]
                        dims = [np.array((names[k] if per_leaf else names[0])[:ranks[k]], dtype=object) for k in range(3)]
                        data = tree(lambda k: leaf[k])
                        fd = tree(lambda k: dims[k]) if per_leaf else dims[0]
                        kw = dict(index_nlevels=nlev) if kind == "dataframe" else {}
                        for form in (fd,) if per_leaf else (fd, tuple(fd)):
                            if isinstance(form, tuple) and same_tree(form, data):
                                continue        # names of the axes given as a tuple that looks like one name for each output
                            r = getattr(m, name)(coords, data, form, **kw)
                            got = r.vars if isinstance(r, XR.Dataset) else r
                            gl, gt = leaves_of(got)
                            wl, wt = leaves_of(tree(lambda k: k))
                            tag = f"{tnm}.{ranks}.{nlev}.{type(form).__name__}"
                            ob(f"{tag}/the containers of the outputs are kept", str(gt) == str(wt))
                            for g, k in zip(gl, wl):
                                t = g.t if isinstance(g, Frame) else g
                                d = tuple(dims[k])
                                ob(f"{tag}/output {k} carries its own values", t.data is leaf[k])
                                ob(f"{tag}/output {k} is labelled by its axes", t.dims == d and t.coords == {x: coords[x] for x in d if x in COO})
                                if kind in ("dataframe", "series"):
                                    rows = d[:1] if kind == "dataframe" and len(d) <= 2 else d[:nlev] if kind == "dataframe" else d
                                    ob(f"{tag}/output {k}: rows and columns", isinstance(g, Frame) and g.rows == rows and g.cols == d[len(rows):])
                                else:
                                    ob(f"{tag}/output {k} is an array", isinstance(g, Table))

        def concrete(rng):
            return format_real(rng, kind, per_leaf)
        return HostCase(P, f"{name}.{'each output its names' if per_leaf else 'one list of names'}", [FMT + name, FMT + ("_to_dataframe" if kind == "dataframe" else "_to_series" if kind == "series" else "_to_dataarray"), FMT + "_to_dataarray"],
                        scenario, concrete)
    for kind in ("dataarray", "dataset", "dataframe", "series"):
        out += [fmt(kind, False), fmt(kind, True)]

    def unnamed(ob, plan):
        for form in (None, (), []):
            for rank in (1, 2, 3):
                m = loaded("wax.format", xr=XR)
                y = Np(Out("y", rank))
                r = m.format_dataframe(None, y, form)
                d = tuple(f"dim_{i}" for i in range(rank))
                ob(f"{form}.{rank}/its own values", r.t.data is y and r.t.dims == d and r.t.coords == {})
                ob(f"{form}.{rank}/rows and columns", r.rows == d[:1] and r.cols == d[1:])
    out.append(HostCase(P, "format_dataframe.unnamed", [FMT + "format_dataframe", FMT + "_get_dims_from_data"], unnamed, lambda rng: None))

    # ------------------------------------------------------------------- axes recognised by their sizes
    def auto(fn, fmtname):
        def scenario(ob, plan):
            n = z3.Ints("n0 n1 n2")
            for x in n:
                Y.EX.assume(x >= 1)
            # any three variables, of ranks up to 3, whose axes have arbitrary sizes
            vs = [("v0", ("t", "c")), ("v1", ("c", "u", "t")), ("v2", ("u",))]
            size = dict(zip(("t", "c", "u"), n))
            for rank in (1, 2):
                s = [z3.Int(f"s{k}") for k in range(rank)]

                class Sym(Out):
                    pass
                y = Out("y", rank)
                y.shape = Shape(s)
                y.size_ = s

                class Var:
                    def __init__(self, d):
                        self.dims, self.shape, self.ndim = d, Shape([size[x] for x in d]), len(d)

                class DS(dict):
                    coords = Coords("c", ("t", "c", "u"))
                ds = DS({k: Var(d) for k, d in vs})
                m = loaded("wax.format", xr=XR, print=lambda *a, **k: None, tuple=lambda x=(): x if isinstance(x, Shape) else tuple(x))
                r = getattr(m, fn)(ds, y, fmtname)
                pre = [d[:rank] for _, d in vs if len(d) >= rank]
                same = [z3.And(*[a == size[x] for a, x in zip(s, d)]) for d in pre]
                if isinstance(r, (Table, Frame)):
                    t = r.t if isinstance(r, Frame) else r
                    k = pre.index(t.dims) if t.dims in pre else None
                    ob(f"{rank}/labelled by the axes of the first variable that begins with its shape", k is not None and z3.And(same[k], *[z3.Not(x) for x in same[:k]]))
                    ob(f"{rank}/its own values and the labels of those axes", t.data.name == "y" and t.coords == {x: ds.coords[x] for x in t.dims})
                    ob(f"{rank}/in the container asked for", isinstance(r, Table if fmtname == "dataarray" else Frame))
                else:
                    ob(f"{rank}/left as it is only if no variable begins with its shape", z3.And(r is y, *[z3.Not(x) for x in same]))
        return HostCase(P, f"{fn}.{fmtname}", [FMT + fn, FMT + "auto_format_with_shape"], scenario, lambda rng: auto_real(rng, fn, fmtname))
    for fn in ("auto_format_with_shape", "tree_auto_format_with_shape"):
        out += [auto(fn, f) for f in ("dataarray", "dataframe")]
    return out


class Shape(tuple):
    """the sizes of an array, as a tuple whose comparison is decided on the path"""

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Shape(r) if isinstance(i, slice) else r

    def __eq__(self, o):
        if not isinstance(o, tuple):
            return NotImplemented
        if len(self) != len(o):
            return False
        return all(Y.EX.fork(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o
    __hash__ = tuple.__hash__


def format_real(rng, kind, per_leaf):
    import pandas as pd
    import xarray as xr
    import wax.format as F
    size = dict(t=3, c=2, u=2)
    lab = dict(t=pd.date_range("2021", periods=3), c=["x", "y"], u=[10, 20])
    coords = xr.Dataset(coords=lab).coords
    orders = [("t", "c", "u"), ("t", "u"), ("c", "t"), ("t",)]
    pick = lambda: orders[int(rng.integers(0, 4))]      # noqa: E731
    tnm, tree = TREES[int(rng.integers(0, len(TREES)))]
    d0 = pick()
    dims = [pick() if per_leaf else d0 for _ in range(3)]
    if kind == "dataset" and tnm in ("nested",):
        tnm, tree = TREES[3]
    vals = [rng.normal(size=[size[x] for x in d]) for d in dims]
    data = tree(lambda k: vals[k])
    fd = tree(lambda k: np.array(dims[k], dtype=object)) if per_leaf else np.array(d0, dtype=object)
    nl = 2 if kind == "dataframe" and min(map(len, dims)) == 3 and rng.integers(0, 2) else 1
    info = dict(call="format_" + kind, data=tnm, dims=[list(d) for d in dims], each_output_its_names=per_leaf, index_nlevels=nl)
    try:
        r = getattr(F, "format_" + kind)(coords, data, fd, **(dict(index_nlevels=nl) if kind == "dataframe" else {}))
        if isinstance(r, xr.Dataset):
            r = {k: r[k] for k in r.data_vars}
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])
    import jax
    isl = lambda x: isinstance(x, (pd.Series, pd.DataFrame, xr.DataArray))      # noqa: E731
    gl, gt = jax.tree_util.tree_flatten(r, is_leaf=isl)
    wl, wt = jax.tree_util.tree_flatten(tree(lambda k: k))
    if str(gt) != str(wt):
        return dict(info, got=str(gt), expected=str(wt))
    for g, k in zip(gl, wl):
        e = entries(g)
        w = {frozenset((x, str(pd.Index(lab[x])[i])) for x, i in zip(dims[k], ix)): float(vals[k][ix]) for ix in np.ndindex(vals[k].shape)}
        if e != w:
            return dict(info, output=k, got=str(g)[:300])
        if isinstance(g, pd.DataFrame):
            rows = dims[k][:1] if len(dims[k]) <= 2 else dims[k][:nl]
            if tuple(g.index.names) != tuple(rows):
                return dict(info, output=k, rows=list(map(str, g.index.names)), expected=list(rows))


def entries(g):
    """labels -> value, whatever the container"""
    import pandas as pd
    if not isinstance(g, (pd.Series, pd.DataFrame)):
        g = g.to_series()
    while isinstance(g, pd.DataFrame):
        g = g.stack(list(range(g.columns.nlevels)), future_stack=True)
    names = g.index.names
    return {frozenset((n, str(v)) for n, v in zip(names, ix if isinstance(ix, tuple) else (ix,))): float(x) for ix, x in g.items()}


def auto_real(rng, fn, kind):
    import pandas as pd
    import xarray as xr
    import wax.format as F
    size = {d: int(rng.integers(1, 4)) for d in ("t", "c", "u")}
    lab = {d: np.arange(n) * 10 for d, n in size.items()}
    vs = [("v0", ("t", "c")), ("v1", ("c", "u", "t")), ("v2", ("u",))]
    ds = xr.Dataset({k: (d, np.zeros([size[x] for x in d])) for k, d in vs}, coords=lab)
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 3))))
    y = rng.normal(size=sh)
    info = dict(call=fn, sizes=size, shape=sh)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        r = getattr(F, fn)(ds, y, kind)
    want = [d[:len(sh)] for _, d in vs if tuple(size[x] for x in d[:len(sh)]) == sh]
    if not want:
        return None if r is y else dict(info, got=str(r)[:200])
    if not isinstance(r, (xr.DataArray, pd.DataFrame, pd.Series)):
        return dict(info, got=str(r)[:200])
    w = {frozenset((x, str(lab[x][i])) for x, i in zip(want[0], ix)): float(y[ix]) for ix in np.ndindex(sh)}
    if entries(r) != w:
        return dict(info, got=str(r)[:200], expected=list(want[0]))


# ------------------------------------------------------------------------------------------------ Stream.prepare
class Leaf:
    def __init__(self, name, dtype, conv=()):
        self.name, self.dtype, self.conv = name, np.dtype(dtype), conv

    def astype(self, dt, **k):
        return Leaf(self.name, dt, self.conv + ((self.dtype.name, np.dtype(dt).name),))


def prepare_cases(P):
    out = []
    NARROW = {"float64": "float32", "int64": "int32"}

    def prep(given, x64, skip, tensor):
        def scenario(ob, plan):
            D = Tok("dataset")
            types = ("float64", "float32", "int64", "int32", "bool", "uint8")
            data = {f"v{k}": Leaf(f"data{k}", t) for k, t in enumerate(types)}
            index = {f"v{k}": Leaf(f"index{k}", "int64") for k in range(len(types))}
            steps = Leaf("steps", "int64")
            ENC, OWN = Tok("encoders given"), Tok("encoders of the dataset")
            seen = {}

            def enc(e, d):
                if d is not data:
                    raise Y.Mismatch("what is encoded")
                seen["enc"] = e
                return {k: Leaf(v.name, v.dtype, (("encoded", e),)) for k, v in d.items()}

            class Cfg:
                jax_enable_x64 = x64

            class Jax:
                config = Cfg()
                device_put = staticmethod(lambda x, *a, **k: x)

                def __getattr__(self, nm):
                    raise Y.Mismatch(f"jax.{nm}")

            def unroll(fn=None, skip_first=False, **k):
                if k or fn is None:
                    raise Y.Mismatch("unroll_transform_with_state")
                seen["fn"], seen["skip"] = fn, skip_first
                return Tok("unrolled")

            def access(d, i, step):
                seen["access"] = (d, i, step)
                return Tok("row", step)
            m = loaded("wax.stream", jax=Jax(), encode_dataset=enc, unroll_transform_with_state=unroll, tree_access_data=access)

            class S(m.Stream):
                def trace_dataset(self, d):
                    if d is not D:
                        raise Y.Mismatch("what is traced")
                    return data, index, steps

                @staticmethod
                def get_dataset_schema(d, *a, **k):
                    if d is not D or a or k:
                        raise Y.Mismatch("schema")
                    return m.DatasetSchema(Tok("coords"), OWN)
            module = lambda x: Tok("module", x)      # noqa: E731
            e = ENC if given else None
            r = S("t", tensor_type=tensor).prepare(D, module, e, skip_first=skip) if skip is not None else S("t", tensor_type=tensor).prepare(D, module, e)
            want = ENC if given else OWN
            ob("encoders: the ones given, or those of the dataset", seen["enc"] == want)
            ob("the function is unrolled, skipping the first step iff asked", r[0] == Tok("unrolled") and seen["skip"] == bool(skip))
            y = seen["fn"](Tok("step"))
            ob("a step applies the function to the row of that step", y == Tok("module", Tok("row", Tok("step"))) and seen["access"][2] == Tok("step"))
            d, i = seen["access"][:2]

            def leaf(x, nm, ty, first=()):
                c = tuple(first)
                if not x64 and tensor == "jax" and ty in NARROW:
                    return x.name == nm and x.conv in (c + ((ty, NARROW[ty]),), c)
                return x.name == nm and x.conv == c
            ob("every variable is read from its own encoded values", d.keys() == data.keys() and all(leaf(d[k], data[k].name, data[k].dtype.name, (("encoded", want),)) for k in data))
            ob("every variable is read at its own positions", i.keys() == index.keys() and all(leaf(i[k], index[k].name, "int64") for k in index))
            ob("one step per local event", leaf(r[1], "steps", "int64"))
        return HostCase(P, f"prepare.{'given' if given else 'own'}.{x64}.{skip}.{tensor}", [STR + "Stream.prepare", STR + "Stream.get_encoders"], scenario, lambda rng: apply_real(rng))
    for given, x64, skip, tensor in [(True, True, None, "jax"), (False, True, False, "jax"), (True, False, True, "jax"), (False, False, False, "jax"), (True, False, True, "raw")]:
        out.append(prep(given, x64, skip, tensor))

    def schema(check):
        def scenario(ob, plan):
            import wax.stream as R
            m = loaded("wax.stream")
            made = {}

            class Var:
                def __init__(self, nm, dt):
                    self.values = Leaf(nm, dt)
            if check:
                raise Y.Mismatch("check")
            types = {"f": "float64", "s": "<U3", "d": "datetime64[ns]", "i": "int64", "b": "bool"}

            def maker(kind):
                def mk(v):
                    e = Tok("encoder", kind, v.name)
                    made[v.name] = e
                    return e
                return mk
            FIX = R.Encoder(None, None) if hasattr(R, "Encoder") else Tok("fixed")
            for dt in ({"s"}, {"s", "d"}, {"d", "i"}, set()):
                own = {np.dtype(types[k]).type: maker(k) for k in dt}
                own[np.bool_] = FIX
                for data in itertools.product("fsdib", repeat=2):
                    class DS:
                        coords = None

                        def items(self):
                            return self.v.items()
                    D = DS()
                    D.v = {f"x{k}": Var(f"x{k}", types[c]) for k, c in enumerate(data)}

                    class C(dict):
                        pass
                    D.coords = C({"time": Var("time", types["d"]), "lab": Var("lab", types["s"])})
                    s = m.Stream.get_dataset_schema(D, own)
                    kinds = dict({f"x{k}": c for k, c in enumerate(data)}, time="d", lab="s")
                    want = {nm: (Tok("encoder", c, nm) if c in dt else FIX) for nm, c in kinds.items() if c in dt or c == "b"}
                    ob(f"{sorted(dt)}.{data}/an encoder for exactly the variables and coordinates whose type has one, made from its own values", s.encoders == want)
                    ob(f"{sorted(dt)}.{data}/coordinates of the dataset", s.coords is D.coords)
        return HostCase(P, "get_dataset_schema", [STR + "Stream.get_dataset_schema"], scenario, lambda rng: None)
    out.append(schema(False))

    def coords(ob, plan):
        for skip in (False, True):
            m = loaded("wax.stream", get_dataset_time_coords=lambda d: {"t"} if d is D else None)

            class DS:
                def isel(self, indexers=None, **k):
                    ix = indexers or k
                    if set(ix) != {"t"} or not isinstance(ix["t"], slice) or (ix["t"].start, ix["t"].stop, ix["t"].step) not in ((1, None, None), (1, None, 1)):
                        raise Y.Mismatch("selection")
                    r = DS()
                    r.coords = Tok("coords", "without the first time")
                    return r
                coords = Tok("coords", "all")
            D = DS()
            r = m.Stream("").get_output_coords(D, D.coords, skip)
            ob(f"{skip}/coordinates of the steps of the output", r == Tok("coords", "without the first time" if skip else "all"))
    out.append(HostCase(P, "get_output_coords", [STR + "Stream.get_output_coords"], coords, lambda rng: apply_real(rng)))
    return out


# ------------------------------------------------------------------------------------------------ apply
class Obj:
    """the pandas / xarray object of an accessor"""

    def __init__(self, kind, rank):
        self.kind = kind
        self.dims = ("t", "c", "u")[:rank]
        self.rows = 1

    class _Ax:
        def __init__(self, n):
            self.nlevels = n
    index = property(lambda s: Obj._Ax(s.rows))
    columns = property(lambda s: Obj._Ax(len(s.dims) - s.rows))

    def to_dataset(self, name=None):
        if self.kind != "array":
            raise Y.Mismatch("to_dataset")
        return DSet({name: self})

    def to_xarray(self):
        if self.kind != "series":
            raise Y.Mismatch("to_xarray")
        return DA(self)

    def stack(self, level=-1, dropna=None, future_stack=False, **k):
        lv = list(level) if isinstance(level, (list, tuple)) else [level]
        if self.kind != "frame" or k or lv != list(range(len(self.dims) - self.rows)):
            raise Y.Mismatch("stack")
        if not (future_stack or dropna is False):
            raise Y.Mismatch("stack that drops missing values")
        r = Obj("series", 1)
        r.dims, r.src, r.rows = self.dims, self, len(self.dims)
        return r


class DA:
    """a labelled array holding the whole object"""

    def __init__(self, src, *a, **k):
        if a or k:
            raise Y.Mismatch("DataArray")
        if isinstance(src, Obj):
            self.src = getattr(src, "src", src)
            self.dims = src.dims
            if src.kind == "frame" and (src.rows != 1 or len(src.dims) != 2):
                raise Y.Mismatch("DataArray of a frame with several levels")
        else:
            raise Y.Mismatch("DataArray of something else")

    def to_dataset(self, name=None):
        return DSet({name: self})

    coords = property(lambda s: DSet({"x": s}).coords)


class DSet:
    def __init__(self, data_vars=None, coords=None, **k):
        if k or coords is not None or not isinstance(data_vars, dict):
            raise Y.Mismatch("Dataset")
        self.v = {nm: (x if isinstance(x, DA) else DA(x)) for nm, x in data_vars.items()}
        (x,) = self.v.values()
        self.of = x.src
        self.coords = Coords(("coords of", id(x.src)), x.dims)
        self.dims = x.dims


def apply_cases(P):
    out = []
    kinds = dict(DataArray=("array", (1, 2, 3)), DataFrame=("frame", (2, 3, 4)), Series=("series", (1,)), Dataset=("dataset", (2,)))
    FORMAT = dict(DataArray="dataarray", DataFrame="dataframe", Series="series", Dataset="dataset")

    def case(cls, giv_p, giv_s, ret, fmt_):
        kind, ranks = kinds[cls]

        def one(ob, rank, rows, skip, tnm, tree, oranks, named):
            o = Obj(kind, min(rank, 3)) if rank <= 3 else Obj(kind, 3)
            if rank == 4:
                o.dims = ("t", "c", "u", "w")
            o.rows = rows
            leaf = [Out(f"y{k}", oranks[k]) for k in range(3)]
            outputs = tree(lambda k: leaf[k])
            seen = {}
            ENC, RNG, XS = Tok("encoders"), Tok("rng"), Tok("steps")
            dims_of = [np.array(o.dims[:r], dtype=object) for r in oranks]
            default_coords = Coords(("coords of", id(o)), o.dims)
            skipped = Coords(("coords after the first step of", id(o)), o.dims)

            class Tf:
                @staticmethod
                def init(rng, xs):
                    if rng != RNG or xs != XS:
                        raise Y.Mismatch("initialised otherwise")
                    return Tok("params0"), Tok("state0")

                @staticmethod
                def apply(p, s, rng, xs):
                    seen["apply"] = (p, s, rng, xs)
                    return outputs, Tok("state after")

            def formatter(coords, data, fd=None, index_nlevels=1):
                if not isinstance(coords, Coords):
                    raise Y.Mismatch("coordinates")
                dl, dt = leaves_of(data)
                fl, ft = leaves_of(fd)
                each = list(fl) if str(dt) == str(ft) else [fd] * len(dl)
                res = []
                for x, d in zip(dl, each):
                    if not isinstance(x, Np):
                        raise AssertionError("not numpy")
                    d = dimnames(d)
                    if len(d) != x.ndim:
                        raise ValueError("different number of dimensions on data and dims")
                    res.append(Tok("formatted", x.name, d, coords, index_nlevels))
                seen["formatter"] = True
                return dt.unflatten(res)

            def bad(*a, **k):
                raise Y.Mismatch("formatter of another kind of object")
            fm = {f"format_{k}": (formatter if k == FORMAT[cls] else bad) for k in ("dataarray", "dataset", "dataframe", "series")}

            class X:
                Dataset = DSet
                DataArray = DA
            m = loaded("wax.accessors", xr=X, **fm)

            class S(getattr(m, "Stream" + cls)):
                @staticmethod
                def get_dataset_schema(d, *a, **k):
                    if a or k:
                        raise Y.Mismatch("schema options")
                    seen["schema"] = d
                    import wax.stream as R
                    return R.DatasetSchema(d.coords if isinstance(d, DSet) else default_coords, ENC)

                def prepare(self, d, module, encoders=None, skip_first=False):
                    seen["prepare"] = (d, module, encoders, skip_first)
                    return Tf, XS

                def get_output_coords(self, d, coords, sk=False):
                    if coords != default_coords:
                        raise Y.Mismatch("coordinates")
                    return skipped if sk else coords

            class A:
                _obj = o
            module = lambda x: Tok("module", x)      # noqa: E731
            # anything may be given, also what counts as false
            gp = {} if giv_p else None
            gs = {} if giv_s else None
            kw = {}
            if named == "each":
                kw["format_dims"] = tree(lambda k: dims_of[k])
            elif named == "all":
                kw["format_dims"] = tuple(o.dims)
            r = S(accessor=A(), return_state=ret, format_outputs=fmt_).apply(module, skip_first=skip, params=gp, state=gs, rng=RNG, **kw)
            tag = f"{rank}d.{rows}.{'skip' if skip else 'all'}.{tnm}.{oranks}" + (f".{named} named" if named else "")
            d, fn, enc, sk = seen["prepare"]
            if cls == "Dataset":
                ob(f"{tag}/the whole object is read", d is o)
                ob(f"{tag}/the function is applied to its rows", fn is module or fn(Tok("row")) == Tok("module", Tok("row")))
            else:
                ob(f"{tag}/the whole object is read", isinstance(d, DSet) and d.of is o and d.dims == o.dims)
                ob(f"{tag}/the function is applied to its rows", fn({nm: Tok("row", nm) for nm in d.v}) == Tok("module", Tok("row", list(d.v)[0])))
            ob(f"{tag}/encoders of the object", enc == ENC and (seen["schema"] is d or getattr(seen["schema"], "of", 0) is getattr(d, "of", 1)))
            ob(f"{tag}/first step skipped iff asked", sk is skip)
            p, s, k, xs = seen["apply"]
            ob(f"{tag}/from the params given, or fresh ones", (p is gp) if giv_p else p == Tok("params0"))
            ob(f"{tag}/from the state given, or a fresh one", (s is gs) if giv_s else s == Tok("state0"))
            ob(f"{tag}/with the key given, over all the steps", k == RNG and xs == XS)
            if ret:
                ob(f"{tag}/the state is returned when asked", isinstance(r, tuple) and len(r) == 2 and r[1] == Tok("state after"))
                r = r[0]
            if not fmt_:
                ob(f"{tag}/raw outputs", r is outputs or all(a is b for a, b in zip(leaves_of(r)[0], leaves_of(outputs)[0])) and same_tree(r, outputs))
                return
            gl, gt = leaves_of(r)
            wl, wt = leaves_of(tree(lambda k: k))
            ob(f"{tag}/the containers of the outputs are kept", str(gt) == str(wt))
            want = skipped if skip else default_coords
            for g, k in zip(gl, wl):
                ob(f"{tag}/output {k} keeps its values, under the leading axes of the object and the times of its steps",
                   g == Tok("formatted", leaf[k].name, o.dims[:oranks[k]], want, rows if cls == "DataFrame" else 1))

        def scenario(ob, plan):
            for rank in ranks:
                for rows in ((1, 2) if cls == "DataFrame" and rank > 2 else (1,)):
                    for skip in (False, True):
                        for tnm, tree in TREES:
                            for oranks in itertools.product(range(1, rank + 1), repeat=3):
                                if tnm in ("leaf", "single") and oranks[1:] != (1, 1):
                                    continue
                                if tnm in ("pair", "dict") and oranks[2] != 1:
                                    continue
                                if rank > 2 and (tnm in ("nested", "triple") and len(set(oranks)) < 2):
                                    continue
                                if cls != "Dataset":
                                    one(ob, rank, rows, skip, tnm, tree, oranks, "")
                                if cls == "Dataset" or fmt_ and not skip:
                                    one(ob, rank, rows, skip, tnm, tree, oranks, "each")
                                if not fmt_ or skip:
                                    continue
                                # names given once for all the outputs: those of the object, or its first for outputs with one value a step
                                used = {oranks[k] for k in leaves_of(tree(lambda k: k))[0]}
                                if (used == {rank} or used == {1}) and str(leaves_of(("x",) * rank)[1]) != str(leaves_of(tree(lambda k: k))[1]):
                                    one(ob, rank, rows, skip, tnm, tree, oranks, "all")
        return HostCase(P, f"Stream{cls}.apply.{'p' if giv_p else '-'}{'s' if giv_s else '-'}.{'state' if ret else 'outputs'}.{'labels' if fmt_ else 'raw'}",
                        [ACC + f"Stream{cls}.apply"], scenario, lambda rng: apply_real(rng, cls))
    for cls in kinds:
        for gp, gs, ret, f in [(False, False, True, True), (True, True, True, True), (True, False, False, True), (False, True, True, False), (False, False, False, False)]:
            out.append(case(cls, gp, gs, ret, f))

    # ---------------------------------------------------------------------------------- accessors and the moving average
    def stream_of(ob, plan):
        m = loaded("wax.accessors")
        for cls in ("Dataset", "DataArray", "DataFrame", "Series"):
            o = Tok("object")
            a = getattr(m, f"Wax{cls}Accessor")(o)
            F, B = {"s": "d"}, {"s": 3}
            s = a.stream("t", freqs=F, buffer_maxlen=B, return_state=False)
            ob(f"{cls}/a stream of that object with the options given",
               type(s) is getattr(m, "Stream" + cls) and s.accessor is a and a._obj is o and s.local_time == "t" and s.freqs == F and s.buffer_maxlen == B and s.return_state is False)
    out.append(HostCase(P, "accessor.stream", [ACC + f"Wax{c}Accessor.stream" for c in ("Dataset", "DataArray", "DataFrame", "Series")], stream_of, lambda rng: apply_real(rng)))

    def ewm(ob, plan):
        import sys
        names = ("com", "alpha", "min_periods", "adjust", "ignore_na", "initial_value")
        import wax.modules as M
        for given in itertools.product((False, True), repeat=len(names)):
            for ret, f in ((True, True), (False, True), (True, False)):
                m = loaded("wax.accessors")
                seen = {}
                default = dict(com=None, alpha=None, min_periods=0, adjust=True, ignore_na=False)
                kw = {n: Opt("option", n) for n, g in zip(names, given) if g}

                class St:
                    def apply(self, fn, **k):
                        if k:
                            raise Y.Mismatch("apply")
                        seen["fn"] = fn
                        return Tok("applied")

                class A(m.WaxAccessor):
                    def stream(self, *a, **k):
                        seen["stream"] = (a, k)
                        return St()

                def Ew(*a, **k):
                    seen["ewma"] = (a, k)
                    return lambda x: Tok("average", x)
                a = A()
                old = M.EWMA
                try:
                    M.EWMA = Ew
                    sys.modules["wax.modules"].EWMA = Ew
                    w = a.ewm(**kw, return_state=ret, format_outputs=f)
                    r = w.mean()
                    y = seen["fn"](Tok("row"))
                finally:
                    M.EWMA = old
                    sys.modules["wax.modules"].EWMA = old
                tag = "".join("01"[g] for g in given) + f".{ret}.{f}"
                a_, k_ = seen["ewma"]
                ob(f"{tag}/rows are averaged", r == Tok("applied") and y == Tok("average", Tok("row")))
                ok = not a_ and set(k_) <= set(names)
                for n, g in zip(names, given):
                    if g:
                        ok = ok and k_.get(n) == kw[n]
                    elif n == "initial_value":
                        ok = ok and (n not in k_ or k_[n] != k_[n])
                    else:
                        ok = ok and k_.get(n, default[n]) == default[n]
                ob(f"{tag}/with every option given and the defaults of the module otherwise", ok)
                st = dict(zip(("local_time", "freqs", "ffills"), seen["stream"][0]), **seen["stream"][1])
                ob(f"{tag}/state and labels as asked", set(st) <= {"return_state", "format_outputs"} and st.get("return_state", True) == ret and st.get("format_outputs", True) == f)
        m = loaded("wax.accessors")
        a = m.WaxAccessor()
        w = a.ewm(Tok("com"), Tok("alpha"))
        ob("options given by position", w.accessor is a and w.com == Tok("com") and w.alpha == Tok("alpha"))
    out.append(HostCase(P, "ewm.mean", [ACC + "ExponentialMovingWindow.mean", ACC + "WaxAccessor.ewm"], ewm, lambda rng: ewm_real(rng)))
    return out


def table(rng, cls):
    import pandas as pd
    import xarray as xr
    n = int(rng.integers(2, 6))
    t = pd.DatetimeIndex(pd.Timestamp("2020-01-01") + pd.to_timedelta(np.cumsum(rng.integers(1, 9, n)), "h"), name="t")
    c = pd.Index(list("dbac")[: int(rng.integers(1, 5))], name="c")
    u = pd.Index([7, 3], name="u")
    v = rng.normal(size=(n, len(c), 2)).astype("float32")
    v[rng.random(v.shape) < .2] = np.nan
    if rng.random() < .4:
        v[int(rng.integers(0, n))] = np.nan
    if cls == "Series":
        return pd.Series(v[:, 0, 0], t), v[:, 0, 0], ("t",), dict(t=t)
    if cls == "DataFrame":
        k = int(rng.integers(0, 3))
        if k == 0:
            return pd.DataFrame(v[:, :, 0], t, c), v[:, :, 0], ("t", "c"), dict(t=t, c=c)
        lab = dict(t=t, c=c, u=u)
        if k == 1:
            cs = c.sort_values()
            v = v[:, [list(c).index(x) for x in cs]][:, :, ::-1]
            return pd.DataFrame(v.reshape(n, -1), t, pd.MultiIndex.from_product([cs, u[::-1]])), v, ("t", "c", "u"), dict(lab, c=cs, u=u[::-1])
        cs = c.sort_values()
        v = v[:, [list(c).index(x) for x in cs]]
        return pd.DataFrame(v.reshape(-1, 2), pd.MultiIndex.from_product([t, cs]), u), v, ("t", "c", "u"), dict(lab, c=cs)
    r = int(rng.integers(1, 4))
    v = v[(slice(None),) * r + (0,) * (3 - r)]
    d = ("t", "c", "u")[:r]
    lab = {k: x for k, x in dict(t=t, c=c, u=u).items() if k in d}
    return xr.DataArray(v, dims=d, coords=lab), v, d, lab


def apply_real(rng, cls=None):
    """outputs and state through the accessor against unrolling the function over the rows"""
    import haiku as hk
    import jax
    import jax.numpy as jnp
    import pandas as pd
    import xarray as xr
    from wax.accessors import register_wax_accessors
    from wax.modules import EWMA, Buffer
    from wax.unroll import unroll_transform_with_state
    register_wax_accessors()
    cls = cls or ("DataArray", "DataFrame", "Series", "Dataset")[int(rng.integers(0, 4))]
    o, v, d, lab = table(rng, "DataArray" if cls == "Dataset" else cls)

    def base(x):
        y = EWMA(com=2., adjust=True)(x)
        w = hk.get_parameter("w", (), init=hk.initializers.RandomNormal())
        return y * w + jax.random.normal(hk.next_rng_key())
    kinds = {"leaf": lambda x: base(x), "pair": lambda x: (jnp.nansum(x), base(x)), "dict": lambda x: {"b": base(x), "a": jnp.nanmax(Buffer(2)(x))},
             "nested": lambda x: {"x": (x, [jnp.nansum(x)]), "y": base(x)}, "single": lambda x: (base(x),), "pair of sums": lambda x: (jnp.nansum(x), jnp.nanmax(x) + 0 * base(jnp.nansum(x)))}
    nm = list(kinds)[int(rng.integers(0, len(kinds)))]
    f = kinds[nm]
    skip = bool(rng.integers(0, 3) == 0)
    ret = bool(rng.integers(0, 2))
    fo = bool(rng.integers(0, 3))
    key = jax.random.PRNGKey(int(rng.integers(0, 99)))
    tf = unroll_transform_with_state(f, skip_first=skip)
    p, s = tf.init(key, jnp.asarray(v))
    kw = {}
    if rng.integers(0, 2):
        p = jax.tree_util.tree_map(lambda x: x + 1, p)
        kw["params"] = p
    if rng.integers(0, 2):
        s = tf.apply(p, s, key, jnp.asarray(v))[1]
        kw["state"] = s
    info = dict(call=f"{cls}.wax.stream().apply", shape=list(v.shape), function=nm, skip_first=skip, format_outputs=fo, return_state=ret, given=sorted(kw), values=v.tolist())
    want, ws = tf.apply(p, s, key, jnp.asarray(v))
    wl, wt = jax.tree_util.tree_flatten(want)
    mod = f
    if cls == "Dataset":
        o = xr.Dataset({"v": o})
        mod = lambda z: f(z["v"])      # noqa: E731
        kw["format_dims"] = wt.unflatten([np.array(d[:x.ndim], dtype=object) for x in wl])
    try:
        r = o.wax.stream(return_state=ret, format_outputs=fo, pbar=False).apply(mod, skip_first=skip, rng=key, **kw)
        if ret:
            r, gs = r
            a, b = jax.tree_util.tree_leaves(gs), jax.tree_util.tree_leaves(ws)
            if len(a) != len(b) or not all(np.allclose(x, y, equal_nan=True, rtol=1e-5, atol=1e-6) for x, y in zip(a, b)):
                return dict(info, got="another final state")
        if isinstance(r, xr.Dataset):
            r = {k: r[k] for k in r.data_vars}
        gl, gt = jax.tree_util.tree_flatten(r, is_leaf=lambda x: isinstance(x, (pd.Series, pd.DataFrame, xr.DataArray)))
        if str(gt) != str(wt):
            return dict(info, got=str(gt), expected=str(wt))
        for k, (g, w) in enumerate(zip(gl, wl)):
            w = np.asarray(w)
            if not fo:
                if not np.allclose(g, w, equal_nan=True, rtol=1e-5, atol=1e-6):
                    return dict(info, output=k, got=np.asarray(g).tolist(), expected=w.tolist())
                continue
            e = entries(g)
            L = dict(lab, t=lab["t"][1:]) if skip else lab
            names = [str(x) for x in d[:w.ndim]]
            if cls in ("Series", "DataFrame"):
                e = {frozenset((str(v_) for _, v_ in q)): x for q, x in e.items()}
                W = {frozenset(str(L[x][i]) for x, i in zip(names, ix)): float(w[ix]) for ix in np.ndindex(w.shape)}
            else:
                W = {frozenset((x, str(L[x][i])) for x, i in zip(names, ix)): float(w[ix]) for ix in np.ndindex(w.shape)}
                # times are printed by numpy or pandas
                e = {frozenset((n, str(pd.Timestamp(x)) if n == "t" else x) for n, x in q): z for q, z in e.items()}
                W = {frozenset((n, str(pd.Timestamp(x)) if n == "t" else x) for n, x in q): z for q, z in W.items()}
            if e.keys() != W.keys() or not all(np.isclose(e[q], W[q], equal_nan=True, rtol=1e-5, atol=1e-6) for q in W):
                return dict(info, output=k, got=str(g)[:400], expected={str(sorted(map(str, q))): z for q, z in list(W.items())[:6]})
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


class Opt(Tok):
    """an arbitrary option, which may count as true or as false"""

    def __bool__(self):
        return Y.EX.fork(z3.Bool("truth of " + str(self.how[-1])))


def ewm_real(rng):
    import jax.numpy as jnp
    from wax.accessors import register_wax_accessors
    from wax.modules import EWMA
    from wax.unroll import unroll_transform_with_state
    register_wax_accessors()
    cls = ("DataArray", "DataFrame", "Series")[int(rng.integers(0, 3))]
    o, v, d, lab = table(rng, cls)
    kw = dict(com=float(rng.uniform(.5, 4))) if rng.integers(0, 2) else dict(alpha=float(rng.uniform(.1, .9)))
    if rng.integers(0, 2):
        kw["min_periods"] = int(rng.integers(0, 4))
    kw["adjust"] = (True, False)[int(rng.integers(0, 2))]
    kw["ignore_na"] = bool(rng.integers(0, 2))
    if rng.integers(0, 2):
        kw["initial_value"] = float(rng.integers(0, 3))
    info = dict(call=f"{cls}.wax.ewm().mean", options=kw, values=v.tolist())
    try:
        tf = unroll_transform_with_state(lambda x: EWMA(**kw)(x))
        p, s = tf.init(None, jnp.asarray(v))
        want = np.asarray(tf.apply(p, s, None, jnp.asarray(v))[0])
        r = o.wax.ewm(**kw, format_outputs=False).mean()
        if not np.allclose(np.asarray(r), want, equal_nan=True, rtol=1e-5, atol=1e-6):
            return dict(info, got=np.asarray(r).tolist(), expected=want.tolist())
    except Exception as e:  # noqa: BLE001
        return dict(info, error=repr(e)[:300])


def cases(P, tier):
    return format_cases(P) + prepare_cases(P) + apply_cases(P)
