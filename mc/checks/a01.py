"""A01: containers.

All histories of values as columns of frames, arrays and data sets, with every menu of labels,
through the accessors with every option, compared with the unrolled module; all ways to cut
the container and resume; formats of results of every small shape.
"""

import itertools
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
import xarray as xr

from mc.core import Task, histories
from mc.haikutools import to_np
from mc.models import ewma_model
from mc.programs import Recurrence
from mc.streams import HALF_DAYS
from wax import format as F
from wax.accessors import register_wax_accessors
from wax.compile import jit_init_apply
from wax.modules import EWMA, Counter, Lag
from wax.unroll import unroll_transform_with_state

register_wax_accessors()
PROPERTY = "A01"
ASSUMPTIONS = ["pandas and xarray constructors and label selection are trusted"]
NAN = np.nan
A = [1.0, -2.0, NAN]


def same(x):
    return EWMA(com=1.0)(x)


def reduced(x):
    return jnp.nansum(Lag(1)(x)) + Counter()()


def param(x):
    w = hk.get_parameter("w", [], init=lambda *_: jnp.asarray(3.0))
    return w * Recurrence()(jnp.nan_to_num(x))


PROGRAMS = {"same": same, "reduced": reduced, "param": param}


def times(T, kind="daily"):
    base = {"daily": np.arange(T) * 2, "gaps": np.cumsum(1 + np.arange(T) % 3)}[kind]
    return pd.DatetimeIndex(
        np.datetime64("1969-12-30", "ns") + base * np.timedelta64(12, "h")
    )


def run(fun, X, skip=False, params=None, state=None):
    pair = unroll_transform_with_state(fun, skip_first=skip)
    p, s = pair.init(None, jnp.asarray(X))
    p = p if params is None else params
    s = s if state is None else state
    out, s = pair.apply(p, s, None, jnp.asarray(X))
    return to_np(out), to_np(p), to_np(s)


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def by_label(ex, got, index, columns, want, case, others=True):
    """Each value is under its own labels; other labels, if any, only hold missing values."""
    if not ex.check(list(got.index) == list(index), f"{case}/rows", f"{list(got.index)[:5]}"):
        return
    if columns is None:
        ex.same_array(got.values, want, f"{case}/values")
        return
    missing = [c for c in columns if c not in got.columns]
    if not ex.check(not missing, f"{case}/columns", f"missing {missing[:5]}"):
        return
    ex.same_array(got[list(columns)].values, want, f"{case}/values")
    if not others:
        return
    rest = got[[c for c in got.columns if c not in set(columns)]]
    ex.check(rest.isna().all().all(), f"{case}/other columns")


def column_menu(n):
    yield "letters", pd.Index([chr(97 + (7 * k) % 26) + str(k) for k in range(n)])
    yield "numbers", pd.Index(range(n))
    yield "reversed", pd.Index(range(n, 0, -1), name="col")
    yield "floats", pd.Index(np.arange(n) / 2)
    yield "dates", pd.Index([d.date() for d in pd.date_range("2020-01-01", periods=n)])


def multi_menu(n):
    yield "product", pd.MultiIndex.from_product([range(-(-n // 3)), ["x", "y", "z"]])[:n]
    yield "unsorted", pd.MultiIndex.from_tuples(
        [(n - k, "b" if k % 2 else "a") for k in range(n)], names=["u", "v"]
    )
    yield "three", pd.MultiIndex.from_tuples([(k % 2, k // 2 % 2, k // 4) for k in range(n)])


def check_frames(ex, program, T):
    fun = PROGRAMS[program]
    X = histories(A, T)
    n = X.shape[1]
    menu = [(nm, c, k) for nm, c in column_menu(n) for k in ("daily", "gaps")]
    for (nm, columns, kind), skip, fmt, ret, named in itertools.product(
        menu, [False, True], [True, False], [True, False], [False, True]
    ):
        if (nm != "letters") and (not fmt or not ret or named):
            continue
        index = times(T, kind)
        if named:
            index.name = "when"
        df = pd.DataFrame(X.astype(np.float64), index=index, columns=columns)
        kept = df.copy(deep=True)
        out = quiet(
            df.wax.stream(return_state=ret, format_outputs=fmt).apply, fun, skip_first=skip
        )
        case = f"{nm},{kind},skip={skip},format={fmt},state={ret},named={named}"
        want, _, wstate = run(fun, X, skip)
        if ret:
            out, state = out
            ex.same_tree(to_np(state), wstate, f"{case}/state")
        k = 1 if skip else 0
        if fmt:
            by_label(ex, out, index[k:], columns if want.ndim > 1 else None, want, case)
            if named:
                ex.equal(out.index.name, "when", f"{case}/name of the rows")
        else:
            ex.same_array(out, want, case)
        ex.check(df.equals(kept), f"{case}/frame modified")
        ex.explored(states=T, transitions=T * n, traces=n)


def check_multi(ex, program, T):
    """Frames and series with several levels of labels."""
    fun = PROGRAMS[program]
    X = histories(A, T)
    n = X.shape[1]
    for (nm, columns), skip in itertools.product(multi_menu(n), [False, True]):
        df = pd.DataFrame(X.astype(np.float64), index=times(T), columns=columns)
        out, _ = quiet(df.wax.stream().apply, fun, skip_first=skip)
        want, _, _ = run(fun, X, skip)
        if program == "reduced":
            # with the labels completed by missing values, which do not count in the sum
            by_label(ex, out, times(T)[1 if skip else 0 :], None, want, f"columns {nm},skip={skip}")
        else:
            by_label(
                ex, out, times(T)[1 if skip else 0 :], columns, want, f"columns {nm},skip={skip}",
                others=program == "same",
            )
        ex.explored(states=T, transitions=T * n, traces=n)
    # rows: time x label
    k = 9
    for skip in (False, True):
        index = pd.MultiIndex.from_product([times(T), list("zyxwvutsr")], names=["time", "u"])
        wide = X[:, : (n // k) * k]
        df = pd.DataFrame(wide.reshape(T * k, -1).astype(np.float64), index=index)
        out, _ = quiet(df.wax.stream().apply, fun, skip_first=skip)
        want, _, _ = run(fun, wide, skip)
        i = index[k:] if skip else index
        case = f"rows skip={skip}"
        if program == "reduced":
            ex.check(list(out.index) == list(times(T)[1 if skip else 0 :]), f"{case}/rows")
            ex.same_array(out.values, want, case)
        else:
            ex.equal(sorted(out.index), sorted(i), f"{case}/rows")
            ex.same_array(
                out.reindex(i)[df.columns].values, want.reshape(len(i), -1), f"{case}/values"
            )
        s = df[0]
        out, _ = quiet(s.wax.stream().apply, fun, skip_first=skip)
        want, _, _ = run(fun, s.values.reshape(T, k).astype(np.float32), skip)
        if program == "reduced":
            ex.same_array(out.values, want, f"series {case}")
        else:
            ex.same_array(out.reindex(i).values, want.reshape(-1), f"series {case}")
        ex.explored(states=T, transitions=T * n, traces=n)


def check_missing_rows(ex, program, levels, every):
    """Rows with several levels of labels, missing values at every set of positions, nested
    results with the dimensions given or not."""
    fun = PROGRAMS[program]
    T, labels = 3, {2: [["q", "p"]], 3: [["q", "p"], [1]]}[levels]
    index = pd.MultiIndex.from_product([times(T), *labels])
    names = ["time", "u", "w"][:levels]
    index = index.set_names(names)
    masks = list(itertools.product([False, True], repeat=2 * T))
    if not every:  # the missing rows, and some cells
        masks = [m for m in masks if m[::2] == m[1::2]] + masks[1::23]
    for i, mask in enumerate(masks):
        v = np.where(mask, NAN, np.arange(2 * T) + 1.0)
        shape = (T,) + tuple(len(k) for k in labels)
        for skip in (False, True) if every else (i % 2 == 1,):
            case = f"{v.tolist()},skip={skip}"
            k = 1 if skip else 0
            at = index[2 * k :]
            want = run(fun, v.reshape(shape), skip)[0]
            out, _ = quiet(pd.Series(v, index=index).wax.stream().apply, fun, skip_first=skip)
            if program == "reduced":
                by_label(ex, out, times(T)[k:], None, want, f"series {case}")
            else:
                ex.equal(sorted(out.index), sorted(at), f"series {case}/rows")
                ex.same_array(out.reindex(at).values, want.ravel(), f"series {case}")
            x = np.stack([v, 2 * v, np.full(2 * T, NAN)], 1)
            want = run(fun, x.reshape(shape + (3,)), skip)[0]
            df = pd.DataFrame(x, index=index, columns=["c", "a", "b"])
            df.columns.name = "col"
            dims = names + ["col"] if program != "reduced" else ["time"]
            spec = {"r": np.array(dims), "s": (np.array(dims),)}
            for how in (None, spec):
                if program == "reduced" and how is not None:
                    continue
                out, _ = quiet(
                    df.wax.stream().apply, lambda x: {"r": fun(x), "s": (-fun(x),)},
                    skip_first=skip, format_dims=how,
                ) if how else quiet(
                    df.wax.stream().apply, lambda x: {"r": fun(x), "s": (-fun(x),)},
                    skip_first=skip,
                )
                second = run(lambda x: {"r": fun(x), "s": (-fun(x),)}, x.reshape(shape + (3,)), skip)[0]
                for got, w in [(out["r"], want), (out["s"][0], second["s"][0])]:
                    if program == "reduced":
                        by_label(ex, got, times(T)[k:], None, w, f"frame {case}")
                        continue
                    ex.equal(sorted(got.index), sorted(at), f"frame {case},{how is None}/rows")
                    ex.same_array(
                        got.reindex(at)[["c", "a", "b"]].values, w.reshape(-1, 3),
                        f"frame {case},{how is None}",
                    )
            ex.explored(states=T, transitions=4 * T, traces=3)


def check_types(ex):
    """Containers of integers, booleans and dates keep their values."""

    def both(x):
        return {"x": x, "lag": Lag(1)(x)}

    T = 3
    menu = {
        "int64": np.array([2**24 + 1, -(2**31) + 5, 2**31 - 1, 0, 7, -1]),
        "int32": np.array([2**24 + 1, -5, 2**31 - 1, 0, 7, -1], np.int32),
        "float32": np.array([0.1, -5, 1e30, 0, NAN, -1], np.float32),
        "bool": np.array([True, False, False, True, True, False]),
    }
    for kind, v in menu.items():
        x = v.reshape(T, 2)
        small = x.astype({"int64": np.int32}.get(kind, x.dtype))
        for skip in (False, True):
            k = 1 if skip else 0
            want = run(lambda v: v, small, skip)[0]
            objs = {
                "frame": pd.DataFrame(x, index=times(T)),
                "series": pd.Series(x[:, 1], index=times(T)),
                "array": xr.DataArray(x, dims=("time", "x"), coords={"time": times(T)}),
            }
            for nm, o in objs.items():
                out, _ = quiet(o.wax.stream().apply, lambda v: v, skip_first=skip)
                w = want[:, 1] if nm == "series" else want
                ex.same_array(np.asarray(out), w, f"{kind} {nm} skip={skip}", rtol=0, atol=0)
                if kind != "bool":
                    out, _ = quiet(o.wax.stream().apply, both, skip_first=skip)
                    ex.same_array(np.asarray(out["x"]), w, f"{kind} {nm} skip={skip}/x", rtol=0, atol=0)
                    # without the first step, the lag starts on the second one
                    ex.same_array(
                        np.asarray(out["lag"])[1:], w[:-1], f"{kind} {nm} skip={skip}/lag",
                        rtol=0, atol=0,
                    )
                ex.explored(states=T, transitions=2 * T, traces=2)


def check_series(ex, program, T):
    fun = PROGRAMS[program]
    X = histories(A, T)
    for j in range(X.shape[1]):
        for skip, fmt in [(False, True), (True, True), (False, False)]:
            if (j % 3) != (skip + 2 * (not fmt)) % 3:
                continue
            s = pd.Series(X[:, j].astype(np.float64), index=times(T, "gaps"), name="s")
            out, state = quiet(
                s.wax.stream(format_outputs=fmt).apply, fun, skip_first=skip
            )
            want, _, wstate = run(fun, X[:, j], skip)
            case = f"{X[:, j].tolist()},skip={skip},format={fmt}"
            if fmt:
                by_label(ex, out, times(T, "gaps")[1 if skip else 0 :], None, want, case)
            else:
                ex.same_array(out, want, case)
            ex.same_tree(to_np(state), wstate, f"{case}/state")
            ex.explored(states=T, transitions=T, traces=1)


def check_arrays(ex, program, T):
    """Arrays and data sets of one to four dimensions, nested results, labels or none."""
    fun = PROGRAMS[program]
    X = histories(A, T)
    n = X.shape[1]
    shapes = [(n,), (n // 3, 3), (3, n // 9, 3)]
    for shape, labels, skip, nested in itertools.product(
        shapes, [False, True], [False, True], [False, True]
    ):
        x = X.reshape((T,) + shape)
        dims = ("time", "x", "y", "z")[: x.ndim]
        coords = {"time": times(T)}
        if labels:
            coords |= {d: np.arange(k)[::-1] for d, k in zip(dims[1:], shape)}
        da = xr.DataArray(x.astype(np.float64), dims=dims, coords=coords)
        kept = da.copy(deep=True)

        def module(v):
            out = fun(v)
            return {"a": out, "b": (out * 2,)} if nested else out

        want, _, wstate = run(fun, x, skip)
        case = f"{shape},labels={labels},skip={skip},nested={nested}"
        k = 1 if skip else 0
        wdims = dims if want.ndim > 1 else ("time",)
        for kind in ("array", "dataset"):
            if kind == "array":
                out, state = quiet(da.wax.stream().apply, module, skip_first=skip)
            else:
                ds = xr.Dataset({"v": da, "other": ("w", np.arange(2.0))})
                out, state = quiet(
                    ds.wax.stream().apply,
                    lambda d: module(d["v"]),
                    skip_first=skip,
                    format_dims=np.array(wdims),
                )
            if nested:
                ex.equal(sorted(out), ["a", "b"], f"{kind} {case}/structure")
                two = out["b"][0]
                out = out["a"]
                ex.same_array(two.values, 2 * want, f"{kind} {case}/second")
            ref = xr.DataArray(
                want, dims=wdims, coords={d: c for d, c in da[k:].coords.items() if d in wdims}
            )
            ex.equal(tuple(out.dims), tuple(wdims), f"{kind} {case}/dims")
            ex.same_array(out.values, want, f"{kind} {case}/values")
            ex.check(
                all(out[c].equals(ref[c]) for c in ref.coords) and set(out.coords) == set(ref.coords),
                f"{kind} {case}/labels",
                f"{out.coords}",
            )
            ex.same_tree(to_np(state), wstate, f"{kind} {case}/state")
        ex.check(da.identical(kept), f"{case}/modified")
        ex.explored(states=T, transitions=2 * T * n, traces=2 * n)
    # a data set of results
    ds = xr.Dataset(
        {"v": (("time", "x"), X), "w": (("time", "x"), X[::-1])},
        coords={"time": times(T), "x": np.arange(n)},
    )
    for skip in (False, True):
        out, _ = quiet(
            ds.wax.stream().apply,
            lambda d: {"p": same(d["v"]), "q": same(d["w"])},
            format_dims=np.array(["time", "x"]),
            skip_first=skip,
        )
        k = 1 if skip else 0
        ex.check(isinstance(out, xr.Dataset), "a data set is returned")
        for r, v in [("p", X), ("q", X[::-1])]:
            ex.same_array(out[r].values, run(same, v, skip)[0], f"data set {r} skip={skip}")
            ex.check(out[r]["time"].equals(ds["time"][k:]), f"data set {r} skip={skip} times")


def check_resume(ex, program, T):
    """Any cut of a container: the returned state resumes the run; given parameters are used."""
    fun = PROGRAMS[program]
    X = histories(A, T)
    n = X.shape[1]
    whole, p, _ = run(fun, X)
    da = xr.DataArray(X, dims=("time", "x"), coords={"time": times(T)})
    df = pd.DataFrame(X, index=times(T))
    ds = xr.Dataset({"v": da})
    series = df[n - 2]
    swhole = run(fun, X[:, n - 2])[0]
    cuts = [c for r in range(1, T) for c in itertools.combinations(range(1, T), r)]
    for cut in cuts:
        bounds = list(zip((0,) + cut, cut + (T,)))
        for kind, obj, want in [
            ("frame", df, whole), ("array", da, whole), ("dataset", ds, whole),
            ("series", series, swhole),
        ]:
            state, outs = None, []
            for a, b in bounds:
                part = {"frame": lambda: obj.iloc[a:b], "series": lambda: obj.iloc[a:b],
                        "array": lambda: obj[a:b],
                        "dataset": lambda: obj.isel(time=slice(a, b))}[kind]()
                f, kw = fun, {}
                if kind == "dataset":
                    f = lambda d: fun(d["v"])  # noqa
                    kw = dict(format_dims=np.array(["time", "x"][: want.ndim]))
                out, state = quiet(part.wax.stream().apply, f, state=state, **kw)
                outs.append(np.asarray(out))
            ex.same_array(np.concatenate(outs), want, f"{kind} cut at {cut}")
            ex.explored(states=T, transitions=T, traces=1)
    if program == "param":
        five = jax.tree_util.tree_map(lambda w: w * 0 + 5.0, p)
        want = run(fun, X, params=five)[0]
        for kind, got in [
            ("frame", df.wax.stream().apply(fun, params=five)[0]),
            ("array", da.wax.stream().apply(fun, params=five)[0]),
            ("series", series.wax.stream().apply(fun, params=five)[0]),
            ("dataset", ds.wax.stream().apply(
                lambda d: fun(d["v"]), params=five, format_dims=np.array(["time", "x"]))[0]),
        ]:
            w = want[:, n - 2] if kind == "series" else want
            ex.same_array(np.asarray(got), w, f"{kind} with parameters")


def check_rng(ex):
    """A random key is used, and the same key gives the same run."""

    def noise(x):
        return x + jax.random.uniform(hk.next_rng_key(), x.shape)

    X = np.zeros((4, 3))
    objs = {
        "frame": pd.DataFrame(X, index=times(4)),
        "series": pd.Series(X[:, 0], index=times(4)),
        "array": xr.DataArray(X, dims=("time", "x"), coords={"time": times(4)}),
    }
    for kind, o in objs.items():
        outs = []
        for seed in (0, 0, 1, 2):
            key = jax.random.PRNGKey(seed)
            out = np.asarray(o.wax.stream(return_state=False).apply(noise, rng=key))
            outs.append(out)
        ex.check((outs[0] == outs[1]).all(), f"{kind}: same key, different run")
        ex.check((outs[0] != outs[2]).all() and (outs[2] != outs[3]).all(), f"{kind}: key not used")
        ex.equal(len(np.unique(outs[0])), outs[0].size, f"{kind}: draws are distinct")
        ex.explored(states=4, transitions=16, traces=4)


def check_ewm(ex, T, adjust):
    X = histories(A, T)
    n = X.shape[1]
    df = pd.DataFrame(X, index=times(T))
    da = xr.DataArray(X, dims=("time", "x"), coords={"time": times(T)})
    # options which are not given have the defaults of the module
    options = dict(adjust=adjust, ignore_na=True, min_periods=2, initial_value=0.5)
    defaults = dict(adjust=True, ignore_na=False, min_periods=0, initial_value=NAN)
    for r in range(len(options) + 1):
        for given in itertools.combinations(options, r):
            some = {k: options[k] for k in given}
            want, _, _ = ewma_model(X, com=1.0, **{**defaults, **some})
            for kind, o in [("frame", df), ("array", da), ("series", df[n - 2])]:
                w = want[:, n - 2] if kind == "series" else want
                out = o.wax.ewm(com=1.0, **some).mean()
                ex.same_array(np.asarray(out), w, f"{kind} {some}")
            ex.same_array(np.asarray(df.wax.ewm(1.0, **some).mean()), want, f"positional {some}")
    for k, (com, ignore_na, min_periods, init) in enumerate(
        itertools.product(
            [dict(com=1.0), dict(alpha=0.25)], [False, True], [0, 2], [NAN, 0.5]
        )
    ):
        opts = dict(
            adjust=adjust, ignore_na=ignore_na, min_periods=min_periods, initial_value=init, **com
        )
        want, _, _ = ewma_model(X, **opts)
        for ret, fmt in [(False, True)] + ([(True, True), (False, False)] if k % 4 == 0 else []):
            for kind, o in [("frame", df), ("array", da), ("series", df[n - 2])]:
                out = o.wax.ewm(return_state=ret, format_outputs=fmt, **opts).mean()
                if ret:
                    out, state = out
                    ex.check("ewma" in state, f"{kind} {opts}: state")
                w = want[:, n - 2] if kind == "series" else want
                ex.same_array(np.asarray(out), w, f"{kind} {opts} {ret},{fmt}")
                if fmt and kind != "array":
                    ex.check(list(out.index) == list(df.index), f"{kind} {opts}: labels")
                if fmt and kind == "array":
                    ex.check(out["time"].equals(da["time"]), f"{kind} {opts}: labels")
                ex.explored(states=T, transitions=T * n, traces=n)


def small_shapes():
    for nd in range(1, 5):
        yield from itertools.product((1, 2, 3), repeat=nd)


def check_format(ex):
    """Labelled results of every small shape: each value under its own labels."""
    for shape in small_shapes():
        data = np.arange(np.prod(shape), dtype=np.float64).reshape(shape)
        dims = ("a", "b", "c", "d")[: len(shape)]
        coords = {d: [f"{d}{k}" for k in range(m)][::-1] for d, m in zip(dims, shape)}
        ref = xr.DataArray(data, dims=dims, coords=coords)
        extra = {"zz": [1, 2, 3]}
        full = xr.Dataset({"r": ref}, coords={**coords, **extra}).coords

        def at(where):
            return ref.sel(dict(zip(dims, where))).item()

        cells = list(itertools.product(*coords.values()))
        tree = {"u": data, "v": [(data + 1,), data * 2]}
        arr = F.format_dataarray(full, tree, np.array(dims))
        ex.check(
            arr["u"].identical(ref) and arr["v"][0][0].identical(ref + 1)
            and arr["v"][1].identical(ref * 2),
            f"array {shape}",
        )
        spec = {"u": np.array(dims), "v": [(np.array(dims),), np.array(dims)]}
        arr = F.format_dataarray(full, tree, spec)
        ex.check(arr["u"].identical(ref) and arr["v"][1].identical(ref * 2), f"array spec {shape}")
        dset = F.format_dataset(full, {"u": data, "v": data * 2}, np.array(dims))
        ex.check(
            isinstance(dset, xr.Dataset) and dset["u"].equals(ref) and dset["v"].equals(ref * 2),
            f"data set {shape}",
        )
        ser = F.format_series(full, tree, np.array(dims))
        for nm, s, f in [("u", ser["u"], lambda v: v), ("v", ser["v"][1], lambda v: 2 * v)]:
            ok = len(s) == data.size and all(
                s.loc[c if len(c) > 1 else c[0]] == f(at(c)) for c in cells
            )
            ex.check(ok, f"series {nm} {shape}")
        for levels in range(1, max(2, len(shape))):
            frame = F.format_dataframe(full, tree, np.array(dims), index_nlevels=levels)
            given = F.format_dataframe(full, tree, spec, index_nlevels=levels)
            for nm, fr, f in [
                ("u", frame["u"], lambda v: v), ("v", frame["v"][0][0], lambda v: v + 1),
                ("given u", given["u"], lambda v: v), ("given v", given["v"][1], lambda v: v * 2),
            ]:
                if len(shape) == 1:
                    ok = all(fr.loc[c[0]] == f(at(c)) for c in cells)
                else:
                    k = levels if len(shape) > 2 else 1
                    ok = fr.shape == (int(np.prod(shape[:k])), int(np.prod(shape[k:])))
                    ok = ok and all(
                        fr.loc[
                            c[:k] if k > 1 else c[0],
                            c[k:] if len(c) - k > 1 else c[k],
                        ] == f(at(c))
                        for c in cells
                    )
                ex.check(ok, f"frame {nm} {shape} {levels}")
        bare = F.format_dataframe(None, data)
        ex.check(
            bare.values.shape[0] == shape[0] and (bare.values.ravel() == data.ravel()).all(),
            f"frame without labels {shape}",
        )
        ex.explored(states=1, transitions=6, traces=6)


def check_auto_format(ex):
    """The dimensions are those of the first variable whose first ones have the shape."""
    for s1, s2 in itertools.product(
        itertools.product((2, 3), repeat=2), itertools.product((2, 3, 4), repeat=2)
    ):
        v1 = np.arange(np.prod(s1)).reshape(s1)
        ds = xr.Dataset(
            {
                "v": (("a", "b"), v1),
                "w": (("c", "d"), np.zeros(s2)),
            },
            coords={
                "a": np.arange(s1[0])[::-1], "b": list("xyz")[: s1[1]],
                "c": np.arange(s2[0]), "d": np.arange(s2[1]) * 10,
            },
        )
        for shape in [(k,) for k in (2, 3, 4, 5)] + list(itertools.product((2, 3, 4), repeat=2)):
            dims = None
            for name in ("v", "w"):
                for k in (0, 1, 2):
                    if dims is None and ds[name].shape[:k] == shape:
                        dims = ds[name].dims[:k]
            data = np.arange(np.prod(shape), dtype=np.float64).reshape(shape)
            for fmt in ("dataarray", "dataframe"):
                for nested in (False, True):
                    tree = {"p": data, "q": [data + 1]} if nested else data
                    out = F.tree_auto_format_with_shape(ds, tree, output_format=fmt)
                    case = f"{s1},{s2},{shape},{fmt},{nested}"
                    if nested:
                        ex.same_array(np.asarray(out["q"][0]), data + 1, f"{case}/second")
                        out = out["p"]
                    ex.same_array(np.asarray(out), data, f"{case}/values")
                    if dims is None:
                        ex.check(isinstance(out, np.ndarray), f"{case}/labelled")
                    elif fmt == "dataarray":
                        ex.equal(tuple(out.dims), dims, f"{case}/dims")
                        ex.check(
                            all(out[d].equals(ds[d]) for d in dims), f"{case}/labels"
                        )
                    else:
                        ex.check(
                            list(out.index) == list(ds[dims[0]].values)
                            and (len(dims) < 2 or list(out.columns) == list(ds[dims[1]].values)),
                            f"{case}/labels",
                        )
                    ex.explored(states=1, transitions=1, traces=1)


def check_compile(ex, program, T):
    """Compiled pairs are the pairs."""
    fun = PROGRAMS[program]
    X = jnp.asarray(histories(A, T))
    pair = hk.transform_with_state(fun)
    for nm, p in [("step", pair), ("unroll", unroll_transform_with_state(fun))]:
        c = jit_init_apply(p)
        ex.check(type(c) is type(p), f"{nm}: type")
        x0 = X[0] if nm == "step" else X
        a, b = p.init(None, x0), c.init(None, x0)
        ex.same_tree(to_np(b), to_np(a), f"{nm}: init")
        for t in range(T if nm == "step" else 1):
            x = X[t] if nm == "step" else X
            ra, rb = p.apply(*a, None, x), c.apply(*b, None, x)
            ex.same_tree(to_np(rb), to_np(ra), f"{nm}: apply {t}")
            a, b = (a[0], ra[1]), (b[0], rb[1])
    ex.explored_histories(np.asarray(X))


def tasks(tier):
    t = tier == "thorough"
    res = []
    for name in PROGRAMS:
        kw = dict(program=name)
        res.append(Task(f"frames:{name}", check_frames, dict(T=4 if t else 3, **kw)))
        res.append(Task(f"multi:{name}", check_multi, dict(T=4 if t else 3, **kw)))
        for levels in (2, 3):
            if t or (name == "reduced") == (levels == 2):
                res.append(
                    Task(f"missing rows:{name},{levels}", check_missing_rows,
                         dict(levels=levels, every=t, **kw))
                )
        res.append(Task(f"series:{name}", check_series, dict(T=4 if t else 3, **kw)))
        res.append(Task(f"arrays:{name}", check_arrays, dict(T=4 if t else 3, **kw)))
        res.append(Task(f"resume:{name}", check_resume, dict(T=5 if t else 4, **kw)))
        res.append(Task(f"compile:{name}", check_compile, dict(T=5 if t else 4, **kw)))
    for adjust in (True, False, "linear"):
        res.append(Task(f"ewm:{adjust}", check_ewm, dict(T=5 if t else 3, adjust=adjust)))
    res += [Task("format", check_format), Task("auto_format", check_auto_format), Task("rng", check_rng),
            Task("types", check_types)]
    return res
