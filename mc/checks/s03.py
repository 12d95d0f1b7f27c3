"""S03: a stream delivers the data set it was given.

All small data sets over a menu of kinds of variables (type, dimensions, axis) x all
interleavings of the axes x all settings, through the compiled unroll and the lazy stream;
stateful programs over streams against the same programs over the expected sequences.
"""

import itertools
import warnings
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
import xarray as xr

from mc.core import Task
from mc.haikutools import to_np
from mc.streams import HALF_DAYS, model, show, subsets, take
from wax.accessors import register_wax_accessors
from wax.modules import EWMA, Buffer, Lag
from wax.stream import Stream, split_dataset_from_time_dims, unroll_stream
from wax.unroll import unroll

register_wax_accessors()
PROPERTY = "S03"
ASSUMPTIONS = [
    "times are increasing along each axis and are the first dimension of the variables",
    "dates are one-dimensional",
]
MISSING = {"f": np.nan, "i": -99999, "u": 0, "b": False}
NUMBERS = ["float32", "float64", "int32", "int64", "uint32", "uint64", "bool"]
WORDS = np.array(["b", "a", "", "a b", "é", "B"])
DATES = np.array(
    ["1969-12-31T23:59:59.999999999", "2030-05-01", "1677-09-22", "1970-01-01", "2262-04-11",
     "1905-03-04T05:06:07.89"],
    dtype="datetime64[ns]",
)


def values(kind, shape):
    n = int(np.prod(shape))
    k = np.arange(n)
    if kind == "str":
        return WORDS[k % len(WORDS)].reshape(shape)
    if kind == "date":
        return DATES[k % len(DATES)].reshape(shape)
    if kind == "bool":
        return ((k % 3) == 1).reshape(shape)
    if kind.startswith("f"):
        menu = np.array([0.1, -2.5, np.nan, np.inf, 1e-30, -0.0, 7.25])
    elif kind.startswith("i"):
        menu = np.array([1, -2, 2**31 - 1, -(2**31), 0, -99999, 77])
    else:
        menu = np.array([1, 2**32 - 1, 0, 77, 99999, 2**31, 5])
    return menu[k % len(menu)].astype(kind).reshape(shape)


KINDS = [(k, nd) for k in NUMBERS for nd in (0, 1, 2)] + [("str", 0), ("date", 0)]


def make(kind, nd, axis, times):
    """A variable along an axis (None: no time dimension, nd more dimensions)."""
    extra = (2, 3)[:nd]
    if axis is None:
        if kind in ("str", "date"):
            return xr.DataArray(values(kind, (4,)), dims=("k",))
        return xr.DataArray(values(kind, extra), dims=("x", "y")[:nd])
    return xr.DataArray(
        values(kind, (len(times),) + extra), dims=(axis,) + ("x", "y")[:nd], coords={axis: times}
    )


def expected(var, kind, index, n):
    """What a module is given at each of the n steps (index: None for no time dimension)."""
    v = var.values
    if v.dtype.kind in "UM":
        return None
    half = {"float64": np.float32, "int64": np.int32, "uint64": np.uint32}
    v = v.astype(half.get(str(v.dtype), v.dtype))
    if index is None:
        return np.broadcast_to(v, (n,) + v.shape)
    return take(v, index, MISSING[v.dtype.kind])


def check_delivery(ex, ds, kinds, index, n, case, stream, skip, lazy_axes):
    before = ds.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        encoders = stream.get_encoders(ds)
        fun, xs = stream.prepare(ds, lambda d: d, skip_first=skip)
        p, s = fun.init(None, xs)
        out = to_np(fun.apply(p, s, None, xs)[0])
    first = 1 if skip else 0
    ok = ex.equal(sorted(out), sorted(ds), f"{case}/variables")
    for name, (kind, axis) in kinds.items():
        idx = None if axis is None else index[axis]
        got = out[name]
        if kind not in ("str", "date"):
            want = expected(ds[name], kind, idx, n)[first:]
            ok &= ex.same_array(
                got, want, f"{case}/{name}", rtol=0, atol=0, dtype=want.dtype
            )
        elif len(got):
            # decoding gives back the original
            if axis is None:
                for t in range(len(got)):
                    ex.same_array(
                        encoders[name].decode(got[t]), ds[name].values, f"{case}/{name}/{t}"
                    )
            else:
                i = idx[first:]
                codes = got[i >= 0]
                ex.equal(len(got), len(i), f"{case}/{name}/length")
                if len(codes):
                    ex.same_array(
                        encoders[name].decode(codes),
                        ds[name].values[i[i >= 0]],
                        f"{case}/{name}",
                    )
                blank = got[i < 0]
                ex.check(
                    (blank == MISSING[got.dtype.kind]).all(), f"{case}/{name}/missing entries"
                )
    ex.check(ds.identical(before), f"{case}/data set modified")
    ex.explored(states=n, transitions=n, traces=1)


def settings():
    for ffill, maxlen in itertools.product([False, True], [None, 1, 3]):
        yield ffill, maxlen


def check_all_kinds(ex, size, ffill, maxlen, part, rotate):
    """Every kind of variable on every axis at the same time (a third of them for each
    interleaving if `rotate`), all interleavings."""
    grid = HALF_DAYS[1 : size + 1]
    for i, (L, S) in enumerate(itertools.product(subsets(grid), repeat=2)):
        if i % part[1] != part[0]:
            continue
        ds, kinds = xr.Dataset(), {}
        for axis, times in [("sec", S), (None, None), ("time", L)]:
            for j, (kind, nd) in enumerate(KINDS):
                if rotate and (i + j) % 3:
                    continue
                if axis == "sec" and maxlen and kind in ("str", "date"):
                    continue
                name = f"{axis}_{kind}_{nd}"
                ds[name] = make(kind, nd, axis, times)
                kinds[name] = (kind, axis)
        index = {"time": np.arange(len(L)), "sec": model(L, S, None, ffill, maxlen)}
        stream = Stream(
            local_time="time",
            ffills={"sec": ffill},
            buffer_maxlen={"sec": maxlen} if maxlen else {},
        )
        check_delivery(
            ex, ds, kinds, index, len(L), f"{show(L)} <- {show(S)}", stream, i % 2 == 1, False
        )
    ex.sample(grid=show(grid), ffill=ffill, maxlen=maxlen)


def check_alone(ex, kind, nd):
    """Each kind of variable on its own, and with one of each other kind, on each axis."""
    L, S = HALF_DAYS[[1, 2, 4]], HALF_DAYS[[0, 1, 3]]
    index = {"time": np.arange(3), "sec": model(L, S)}
    for axis in ("time", None, "sec"):
        for other in [None] + KINDS[1::4]:
            ds, kinds = xr.Dataset(coords={"time": L}), {}
            ds["v"] = make(kind, nd, axis, {"time": L, "sec": S}.get(axis))
            kinds["v"] = (kind, axis)
            if other is not None:
                ds["o"] = make(*other, "time", L)
                kinds["o"] = (other[0], "time")
            if "sec" not in ds.coords and other is None and axis is None:
                stream = Stream()
            else:
                stream = Stream(local_time="time")
            for skip in (False, True):
                check_delivery(
                    ex, ds, kinds, index, 3, f"{axis} with {other} skip={skip}", stream, skip, False
                )


def check_coords(ex):
    """Other coordinates (scalar, along a time axis, labels) do not matter."""
    L = HALF_DAYS[:3]
    base = xr.Dataset({"v": (("time", "x"), values("float32", (3, 2)))}, coords={"time": L})
    menu = {
        "number": ((), 3.0),
        "text": ((), "abc"),
        "date": ((), L[1]),
        "labels": (("x",), ["u", "v"]),
        "words": (("time",), ["u", "v", "u"]),
        "dates": (("time",), DATES[:3]),
        "grid": (("time", "x"), np.arange(6).reshape(3, 2)),
        "dates of x": (("x",), DATES[:2]),
    }
    for k in range(len(menu) + 1):
        for names in itertools.combinations(menu, k):
            if 3 < k < len(menu):
                continue
            ds = base.assign_coords({n: menu[n] for n in names})
            case = f"coordinates {names}"
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fun, xs = Stream().prepare(ds, lambda d: d["v"])
                p, s = fun.init(None, xs)
                out, _ = fun.apply(p, s, None, xs)
            ex.same_array(out, base["v"].values, case)
            if k <= 1:
                out, _ = ds.wax.stream().apply(lambda d: d["v"], format_dims=("time", "x"))
                ex.same_array(out.values, base["v"].values, f"{case}/data set")
                out, _ = ds["v"].wax.stream().apply(lambda v: v)
                ex.same_array(out.values, base["v"].values, f"{case}/array")
            ex.explored(states=3, transitions=3, traces=1)


def check_lazy(ex, size):
    """Lazy iteration collected by unroll_stream: the steps of the merged streams."""
    grid = HALF_DAYS[1 : size + 1]
    for L, S, skip, maxlen in itertools.product(
        subsets(grid), subsets(grid), [False, True], [None, 2]
    ):
        if skip and len(L) < 2:
            continue
        ds = xr.Dataset()
        for kind, nd in [("float32", 0), ("float32", 2)]:
            ds[f"s{nd}"] = make(kind, nd, "sec", S)
        for kind, nd in [("int64", 0), ("int64", 1)]:
            ds[f"l{nd}"] = make(kind, nd, "time", L)
        stream = Stream(
            local_time="time", ffills={"sec": True}, trace=False,
            buffer_maxlen={"sec": maxlen} if maxlen else {},
        )
        streams = stream.start_dataset_streams(split_dataset_from_time_dims(ds))
        # the clock of missing observations is NaT, which cannot be stacked with dates
        values_only = ({k: v.value for k, v in o.items()} for o in stream.merge(streams))
        got = unroll_stream(values_only, skip_first=skip, pbar=False)
        want = model(L, S, None, True, maxlen)
        case = f"skip={skip},{maxlen}: {show(L)} <- {show(S)}"
        k = 1 if skip else 0
        for nd in (0, 2):
            ex.same_array(
                got["sec"][f"s{nd}"], take(ds[f"s{nd}"].values, want, np.nan)[k:], f"{case}/s{nd}"
            )
        for nd in (0, 1):
            ex.same_array(
                got["time"][f"l{nd}"], ds[f"l{nd}"].values[k:], f"{case}/l{nd}", dtype=np.int64
            )
        ex.explored(states=len(L), transitions=len(L), traces=1)


def check_unroll_stream(ex):
    """Any generator: all lengths, structures and skipping."""
    def steps(T):
        for t in range(T):
            yield {"a": np.float32(t), "b": (np.arange(3) + t, [np.array([[t > 1]])])}

    for T, skip, pbar in itertools.product(range(1, 6), [False, True], [False, True]):
        if T == 1 and skip:
            continue
        got = unroll_stream(steps(T), skip_first=skip, pbar=pbar)
        t = np.arange(1 if skip else 0, T)
        want = {
            "a": t.astype(np.float32),
            "b": (np.arange(3)[None] + t[:, None], [(t > 1)[:, None, None]]),
        }
        ex.same_tree(got, want, f"T={T},skip={skip}")
        ex.explored(states=T, transitions=T, traces=1)


def check_programs(ex, size, ffill, maxlen, skip):
    """A stateful module over a stream is the module over the expected sequence."""
    grid = HALF_DAYS[1 : size + 1]

    def program(d):
        res = {
            "own": EWMA(com=1.0)(d["l"]),
            "lag": Lag(1)(d["s"]),
            "mix": Buffer(2)(d["l"] + jnp.sum(d["w"]) * d["c"]),
        }
        res["sum"] = jnp.nansum(d["s"]) + d["l"]
        return res

    for L, S in itertools.product(subsets(grid), repeat=2):
        if skip and len(L) < 2:
            continue
        ds = xr.Dataset(
            {
                "l": (("time",), 1.0 + np.arange(len(L))),
                "s": (("sec",), 10.0 * (1 + np.arange(len(S)))),
                "w": (("k",), np.array([1.0, 2.0, 4.0])),
                "c": ((), 0.5),
            },
            coords={"time": L, "sec": S},
        )
        stream = dict(
            local_time="time", ffills={"sec": ffill}, freqs={"sec": "d"},
            buffer_maxlen={"sec": maxlen} if maxlen else {},
        )
        idx = model(L, S, "d", ffill, maxlen)
        n = len(L)
        seq = {
            "l": ds["l"].values, "s": take(ds["s"].values, idx, np.nan),
            "w": np.tile(ds["w"].values, (n, 1)), "c": np.full(n, 0.5),
        }
        seq = {k: jnp.asarray(v, jnp.float32) for k, v in seq.items()}
        want = to_np(unroll(program, skip_first=skip)(seq))
        case = f"{show(L)} <- {show(S)}"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, state = ds.wax.stream(format_outputs=False, **stream).apply(
                program, skip_first=skip
            )
        ex.same_tree(to_np(got), want, case)
        ex.explored(states=n, transitions=2 * n, traces=2)


def check_sizes(ex):
    """Variables of any size, with and without time dimension, and long streams."""
    for n, m in itertools.product([1, 2, 3, 40, 300], repeat=2):
        L = HALF_DAYS[0] + np.arange(n) * np.timedelta64(5, "h")
        S = HALF_DAYS[0] + np.arange(0, 5 * n, 7) * np.timedelta64(1, "h")
        ds, kinds = xr.Dataset(), {}
        for kind in ("float32", "int64", "str"):
            ds[f"free_{kind}"] = xr.DataArray(values(kind, (m,)), dims=("k",))
            ds[f"own_{kind}"] = make(kind, 0, "time", L)
            ds[f"sec_{kind}"] = make(kind, 0, "sec", S)
            for axis, name in [(None, "free"), ("time", "own"), ("sec", "sec")]:
                kinds[f"{name}_{kind}"] = (kind, axis)
        ds["wide"] = xr.DataArray(values("float32", (m, 3, 2)), dims=("k", "x", "y"))
        ds["row"] = xr.DataArray(values("int64", (n, m)), dims=("time", "k"))
        kinds.update(wide=("float32", None), row=("int64", "time"))
        index = {"time": np.arange(n), "sec": model(L, S, None, m % 2 == 1)}
        stream = Stream(local_time="time", ffills={"sec": m % 2 == 1})
        for skip in (False, True):
            if n > skip:
                check_delivery(ex, ds, kinds, index, n, f"{n},{m},skip={skip}", stream, skip, False)


def check_x64(ex, size):
    """In 64-bit mode, the 64-bit numbers are delivered bit for bit."""
    grid = HALF_DAYS[1 : size + 1]
    big = {
        "float64": np.array([0.1, 1 / 3, 1e300, -1e-300]),
        "int64": np.array([2**40 + 1, -(2**50) - 3, 2**63 - 1, -(2**63)]),
        "uint64": np.array([2**64 - 1, 1, 2**63 + 1, 3], np.uint64),
    }
    jax.config.update("jax_enable_x64", True)
    try:
        for L, S in itertools.product(subsets(grid), repeat=2):
            ds = xr.Dataset()
            for axis, times in [("sec", S), ("time", L)]:
                for k, v in big.items():
                    ds[f"{axis}_{k}"] = xr.DataArray(
                        np.resize(v, len(times)), dims=(axis,), coords={axis: times}
                    )
            fun, xs = Stream(local_time="time").prepare(ds, lambda d: d)
            p, s = fun.init(None, xs)
            out = to_np(fun.apply(p, s, None, xs)[0])
            index = {"time": np.arange(len(L)), "sec": model(L, S)}
            for axis in index:
                for k, v in big.items():
                    name = f"{axis}_{k}"
                    want = take(ds[name].values, index[axis], MISSING[v.dtype.kind])
                    ex.same_array(
                        out[name], want, f"{show(L)} <- {show(S)}/{name}", rtol=0, atol=0,
                        dtype=v.dtype,
                    )
            ex.explored(states=len(L), transitions=len(L), traces=1)
    finally:
        jax.config.update("jax_enable_x64", False)


def check_strings2d(ex):
    """Strings with two dimensions."""
    words = np.array([["b", "a"], ["c", "a"], ["a", "d"]])
    codes = np.searchsorted(np.unique(words), words)
    for dims in [("time", "x"), ("k", "x")]:
        ds = xr.Dataset(
            {"w": (dims, words), "v": (("time",), np.arange(3.0))}, coords={"time": HALF_DAYS[:3]}
        )
        fun, xs = Stream().prepare(ds, lambda d: d["w"])
        p, s = fun.init(None, xs)
        out = np.asarray(fun.apply(p, s, None, xs)[0])
        want = codes if "time" in dims else np.broadcast_to(codes, (3, 3, 2))
        ex.same_array(out, want, f"{dims}")
        ex.explored(states=3, transitions=3, traces=1)


def check_schema(ex):
    """Encoders are found by type, for variables and coordinates, and pass their own check."""
    T = 4
    ds = xr.Dataset(
        {
            "w": (("time",), WORDS[:T]), "d": (("time",), DATES[:T]), "n": (("time",), np.arange(4)),
            "k": (("x",), DATES[:2]), "f": (("x",), WORDS[:2]),
        },
        coords={"time": HALF_DAYS[:T], "x": ["p", "q"]},
    )
    for k in range(1, 6):
        for names in itertools.combinations(["w", "d", "n", "k", "f"], k):
            sub = ds[list(names)]
            schema = Stream.get_dataset_schema(sub, check=True)
            want = {
                str(n) for n, v in {**sub.data_vars, **sub.coords}.items()
                if v.dtype.kind in "UM"
            }
            ex.equal(set(map(str, schema.encoders)), want, f"encoders of {names}")
            for n, e in schema.encoders.items():
                ex.same_array(e.decode(e.encode(sub[n].values)), sub[n].values, f"{names}/{n}")
            ex.explored(states=1, transitions=1, traces=1)


def tasks(tier):
    t = tier == "thorough"
    res = []
    for ffill, maxlen in settings():
        parts = 4 if t else 1
        for p in range(parts):
            res.append(
                Task(f"kinds:ffill={ffill},maxlen={maxlen},{p}", check_all_kinds,
                     dict(size=4 if t else 3, ffill=ffill, maxlen=maxlen, part=(p, parts), rotate=not t))
            )
        for skip in (False, True):
            if t or (ffill, maxlen, skip) in [(True, None, True), (False, 3, False)]:
                res.append(
                    Task(f"programs:ffill={ffill},maxlen={maxlen},skip={skip}", check_programs,
                         dict(size=4 if t else 3, ffill=ffill, maxlen=maxlen, skip=skip))
                )
    for kind, nd in KINDS if t else KINDS[:-2:3] + KINDS[-2:]:
        res.append(Task(f"alone:{kind},{nd}", check_alone, dict(kind=kind, nd=nd)))
    res.append(Task("coords", check_coords))
    res.append(Task("lazy", check_lazy, dict(size=4 if t else 3)))
    res.append(Task("unroll_stream", check_unroll_stream))
    res.append(Task("sizes", check_sizes))
    res.append(Task("x64", check_x64, dict(size=4 if t else 3)))
    res.append(Task("schema", check_schema))
    res.append(Task("strings2d", check_strings2d))
    return res
