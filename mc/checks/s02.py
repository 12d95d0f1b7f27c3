"""S02: buffered stream variables.

All pairs of non-empty sets of times of a grid x all buffer lengths x settings, through the
tracing, the lazy merge of the data and the access from compiled code, for variables of
every allowed type and of one to three dimensions.
"""

import contextlib
import io
import itertools
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
import xarray as xr

from mc.core import Task
from mc.streams import FINE, HALF_DAYS, dataset, model, show, subsets, take, times_of
from wax.stream import Stream, split_dataset_from_time_dims, tree_access_data

PROPERTY = "S02"
ASSUMPTIONS = ["times are increasing along each axis", "xarray and pandas date arithmetic are trusted"]

MISSING = {"float32": np.nan, "float64": np.nan, "int32": -99999, "int64": -99999,
           "uint32": 0, "uint64": 0, "bool": False}


def variables(times, kinds, dim):
    n = len(times)
    res = {}
    for nd, dtype in kinds:
        shape = (n, 2, 3)[:nd]
        v = (1 + np.arange(int(np.prod(shape)))).reshape(shape).astype(dtype)
        if dtype == "bool":
            v = (np.arange(int(np.prod(shape))).reshape(shape) % 3) == 0
        res[f"w{nd}_{dtype}"] = xr.DataArray(
            v, dims=(dim, "x", "y")[:nd], coords={dim: times}
        )
    return res


def compare(ex, L, S, freq, ffill, maxlen, case, kinds=(), third=None, lazy_too=True, **opts):
    axes = {"sec": S, "time": L}
    maxlens, freqs = {"sec": maxlen}, {"sec": freq} if freq else {}
    # not filling forward is the default
    ffills = {"sec": ffill} if ffill or len(L) % 2 else {}
    secs = {"sec": S}
    if third is not None:
        axes["aux"] = secs["aux"] = third
        maxlens["aux"] = 2 if maxlen != 2 else 3
        ffills["aux"] = not ffill
    ds = dataset(axes, variables(S, kinds, "sec"))
    kw = dict(local_time="time", freqs=freqs, ffills=ffills, buffer_maxlen=maxlens, **opts)
    about = dict(local=show(L), times={k: show(v) for k, v in secs.items()}, **{k: v for k, v in kw.items() if k != "buffer_dtype_init_values"})
    want = {
        a: model(L, s, freqs.get(a), ffills.get(a, False), maxlens[a]) for a, s in secs.items()
    }
    data, index, xs = Stream(**kw).trace_dataset(ds)
    ok = True
    for a in secs:
        for name, var in ds.items():
            if a in var.dims:
                got = np.asarray(index[name])
                ok &= ex.same_array(
                    np.where(got < 0, -1, got), want[a], f"{case}/index of {name}", **about
                )
    ok &= ex.same_array(np.asarray(index["v_time"]), np.arange(len(L)), f"{case}/local", **about)
    if not ok:
        return
    if lazy_too:
        # only one type of data per axis in the lazy mode
        plain = dataset(axes)
        stream = Stream(trace=False, **kw)
        steps = list(
            stream.merge(stream.start_dataset_streams(split_dataset_from_time_dims(plain)))
        )
        ex.equal(len(steps), len(L), f"{case}/number of lazy steps", **about)
        for a, s in secs.items():
            v = np.stack([x[a].value[f"v_{a}"] for x in steps])
            ex.same_array(
                v, take(plain[f"v_{a}"].values, want[a], np.nan), f"{case}/lazy {a}", **about
            )
            t = np.stack([pd.to_datetime(list(x[a].time)).values for x in steps])
            ex.same_array(t, times_of(s, want[a]), f"{case}/lazy times of {a}", **about)
    if kinds:
        half = {"float64": np.float32, "int64": np.int32, "uint64": np.uint32}
        np_data, np_index = jax.device_put(
            jax.tree_util.tree_map(
                lambda x: x.astype(half.get(str(x.dtype), x.dtype)), (data, index)
            )
        )
        got = jax.vmap(partial(tree_access_data, np_data, np_index))(jnp.arange(len(L)))
        for nd, dtype in kinds:
            name = f"w{nd}_{dtype}"
            ex.same_array(
                got[name],
                take(ds[name].values, want["sec"], MISSING[dtype]),
                f"{case}/access {name}",
                rtol=0,
                atol=0,
                **about,
            )
    ex.explored(states=len(L), transitions=2 * len(L), traces=2 + bool(kinds))


def check_pairs(ex, grid, size, maxlen, ffill, freq):
    grid = {"half": HALF_DAYS, "fine": FINE}[grid][:size]
    for L, S in itertools.product(subsets(grid), repeat=2):
        compare(ex, L, S, freq, ffill, maxlen, f"{show(L)} <- {show(S)}")
    ex.sample(grid=show(grid), maxlen=maxlen, ffill=ffill, freq=freq)


def check_kinds(ex, size, maxlen, ffill, dtypes):
    kinds = list(itertools.product((1, 2, 3), dtypes))
    grid = HALF_DAYS[:size]
    for L, S in itertools.product(subsets(grid), repeat=2):
        compare(
            ex, L, S, None, ffill, maxlen, f"{show(L)} <- {show(S)}", kinds=kinds, lazy_too=False
        )


def check_two(ex, size, maxlen, ffill):
    """Two buffered axes with their own lengths and settings."""
    grid = HALF_DAYS[:size]
    every = subsets(grid)
    for L, S, R in itertools.product(every, every, every):
        compare(
            ex, L, S, "d", ffill, maxlen, f"{show(L)} <- {show(S)}, {show(R)}", third=R
        )


def check_fill(ex, size):
    """The value used for missing entries can be chosen for each type; messages are harmless."""
    grid = HALF_DAYS[:size]
    for L, S, dtype, ffill, maxlen in itertools.product(
        subsets(grid), subsets(grid), [np.float32, np.int64], [False, True], [None, 2]
    ):
        v = (10 + np.arange(len(S))).astype(dtype)
        ds = xr.Dataset(
            {
                "u": xr.DataArray(v, dims=("sec",), coords={"sec": S}),
                "m": xr.DataArray(np.stack([v, -v], 1), dims=("sec", "x"), coords={"sec": S}),
                "t": xr.DataArray(np.arange(len(L)) * 1.0, dims=("time",), coords={"time": L}),
            }
        )
        stream = Stream(
            local_time="time",
            ffills={"sec": ffill},
            buffer_maxlen={"sec": maxlen} if maxlen else {},
            buffer_dtype_init_values={np.float32: -1.0, np.int64: 7, np.float64: 3.0},
            trace=False,
            verbose=True,
        )
        want = model(L, S, None, ffill, maxlen)
        fill = -1 if dtype is np.float32 else 7
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            try:
                steps = list(
                    stream.merge(stream.start_dataset_streams(split_dataset_from_time_dims(ds)))
                )
            except Exception:
                raise
        for name in ("u", "m"):
            ex.same_array(
                np.stack([s["sec"].value[name] for s in steps]),
                take(ds[name].values, want, fill),
                f"fill {name} {np.dtype(dtype)} ffill={ffill} {maxlen}: {show(L)} <- {show(S)}",
            )
        ex.explored(states=len(L), transitions=len(L), traces=1)


def check_long(ex, maxlen, ffill):
    """Long windows over hundreds of observations."""
    start, step = np.datetime64("1999-12-31T00:00", "ns"), np.timedelta64(1, "h")
    fast, slow = start + np.arange(450) * step, start + np.arange(12) * 40 * step
    gaps = np.concatenate([fast[:5], fast[150:]])
    for L, S in [(slow, fast), (slow, gaps), (fast[:150], fast[:140]), (fast, slow)]:
        for freq in (None, "d"):
            compare(
                ex, L, S, freq, ffill, maxlen, f"{len(L)} steps, {len(S)} observations, {freq}",
                kinds=[(1, "int64"), (2, "float64")] if len(L) < 200 else (),
            )


def tasks(tier):
    t = tier == "thorough"
    res = []
    for maxlen, ffill, freq in itertools.product(
        [1, 2, 3, 5] + ([4, 6, 8] if t else []), [False, True], [None, "d"]
    ):
        if not t and (maxlen in (1, 5)) and bool(freq) != ffill:
            continue
        res.append(
            Task(
                f"pairs:half,maxlen={maxlen},ffill={ffill},freq={freq}",
                check_pairs,
                dict(grid="half", size=6 if t else 4, maxlen=maxlen, ffill=ffill, freq=freq),
            )
        )
        if freq:
            res.append(
                Task(
                    f"pairs:fine,maxlen={maxlen},ffill={ffill},freq={freq}",
                    check_pairs,
                    dict(grid="fine", size=6 if t else 4, maxlen=maxlen, ffill=ffill, freq=freq),
                )
            )
    for maxlen, ffill in itertools.product([1, 2, 3], [False, True]):
        for dtypes in [["float32", "int32", "uint32", "bool"], ["float64", "int64", "uint64"]]:
            res.append(
                Task(
                    f"kinds:{maxlen},{ffill},{dtypes[0]}",
                    check_kinds,
                    dict(size=4 if t else 3, maxlen=maxlen, ffill=ffill, dtypes=dtypes),
                )
            )
        res.append(
            Task(f"two:{maxlen},{ffill}", check_two,
                 dict(size=4 if t else (3 if maxlen == 2 else 2), maxlen=maxlen, ffill=ffill))
        )
    for maxlen, ffill in itertools.product([17, 40, 70, 300], [False, True]):
        if t or (maxlen > 60) == ffill:
            res.append(Task(f"long:{maxlen},{ffill}", check_long, dict(maxlen=maxlen, ffill=ffill)))
    res.append(Task("fill", check_fill, dict(size=4 if t else 3)))
    return res
