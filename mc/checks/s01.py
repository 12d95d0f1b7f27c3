"""S01: synchronisation of streams.

All pairs (triples) of non-empty sets of times of a grid, for the local axis and the secondary
axes, hence all interleavings with ties, gaps, late starts, early ends and several observations
between two local steps.  Each goes through the real tracing, the lazy merge of generators
and the access from compiled code, and is compared with the event-queue model.
"""

import contextlib
import io
import itertools
from functools import partial

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd

from mc.core import Task
from mc.streams import DAY, FINE, HALF_DAYS, UNITS, boundary_grid, dataset, model, show, subsets, take, times_of
from wax.stream import Stream, split_dataset_from_time_dims, tree_access_data, unroll_stream

PROPERTY = "S01"
ASSUMPTIONS = ["times are increasing along each axis", "xarray and pandas date arithmetic are trusted"]

NAMES = [("time", "sec"), ("b", "a"), ("day", "time")]


def lazy(stream, ds):
    """The steps of the lazily merged streams of actual data."""
    streams = stream.start_dataset_streams(split_dataset_from_time_dims(ds))
    return list(stream.merge(streams))


def compare(ex, ds, local, others, freqs, ffills, case, access, **opts):
    """One data set with one setting through tracing, lazy merge and access."""
    stream = Stream(local_time=local, freqs=freqs, ffills=ffills, **opts)
    times = {a: ds[a].values for a in [local, *others]}
    want = {
        a: model(times[local], times[a], freqs.get(a), ffills.get(a, False)) for a in others
    }
    n = len(times[local])
    want[local] = np.arange(n)
    about = dict(times={a: show(t) for a, t in times.items()}, freqs=freqs, ffills=ffills)
    data, index, xs = stream.trace_dataset(ds)
    ok = ex.same_array(np.asarray(xs), np.arange(n), f"{case}/steps", **about)
    for a in want:
        got = np.asarray(index[f"v_{a}"])
        ok &= ex.same_array(
            np.where(got < 0, -1, got), want[a], f"{case}/index of {a}", **about
        )
    if not ok:
        return
    # the same step by step on the data themselves
    steps = lazy(Stream(local_time=local, freqs=freqs, ffills=ffills, trace=False, **opts), ds)
    if ex.equal(len(steps), n, f"{case}/number of lazy steps", **about):
        for a in want:
            v = np.stack([s[a].value[f"v_{a}"] for s in steps])
            ex.same_array(
                v, take(ds[f"v_{a}"].values, want[a], np.nan), f"{case}/lazy {a}", **about
            )
            t = pd.to_datetime([s[a].time for s in steps]).values
            ex.same_array(t, times_of(times[a], want[a]), f"{case}/lazy times of {a}", **about)
    if access:
        np_data, np_index = jax.device_put(
            jax.tree_util.tree_map(
                lambda x: x.astype({"f": np.float32, "i": np.int32}[x.dtype.kind]), (data, index)
            )
        )
        got = jax.vmap(partial(tree_access_data, np_data, np_index))(jnp.arange(n))
        for a in want:
            ex.same_array(
                got[f"v_{a}"],
                take(ds[f"v_{a}"].values, want[a], np.nan),
                f"{case}/access {a}",
                **about,
            )
    ex.explored(states=n, transitions=3 * n, traces=3 if access else 2)


def check_pairs(ex, grid, size, part, names, ffill, freq, access):
    grid = {"half": HALF_DAYS, "fine": FINE}[grid][:size]
    local, other = names
    for i, L in enumerate(subsets(grid)):
        if i % part[1] != part[0]:
            continue
        for S in subsets(grid):
            order = {other: S, local: L} if (i + len(S)) % 2 else {local: L, other: S}
            compare(
                ex,
                dataset(order),
                local,
                [other],
                {other: freq} if freq else {},
                {other: ffill} if (ffill or len(S) % 2) else {},
                f"{show(L)} <- {show(S)}",
                access,
            )
    ex.sample(grid=show(grid), ffill=ffill, freq=freq)


def check_triples(ex, size, part, setting):
    """Two secondary axes with their own settings do not disturb each other."""
    grid = HALF_DAYS[1 : size + 1]
    (f1, g1), (f2, g2) = setting
    every = subsets(grid)
    for i, (L, S1, S2) in enumerate(itertools.product(every, every, every)):
        if i % part[1] != part[0]:
            continue
        axes = {"a": S1, "time": L, "z": S2}
        keys = list(itertools.permutations(axes))[i % 6]
        compare(
            ex,
            dataset({k: axes[k] for k in keys}),
            "time",
            ["a", "z"],
            {k: "d" for k, g in (("a", g1), ("z", g2)) if g},
            {"a": f1, "z": f2},
            f"{show(L)} <- {show(S1)}, {show(S2)}",
            i % 40 == 0,
        )
    ex.sample(grid=show(grid), setting=setting)


def check_repeated(ex, size, ffill, freq):
    """Several observations (or local steps) at the same time."""
    grid = HALF_DAYS[:size]
    seqs = [
        grid[list(c)]
        for k in (1, 2, 3)
        for c in itertools.combinations_with_replacement(range(size), k)
    ]
    for L in seqs:
        for S in seqs:
            if len(set(L)) == len(L) and len(set(S)) == len(S):
                continue
            compare(
                ex,
                dataset({"time": L, "sec": S}),
                "time",
                ["sec"],
                {"sec": freq} if freq else {},
                {"sec": ffill},
                f"repeated {show(L)} <- {show(S)}",
                False,
            )


def check_options(ex, size):
    """Progress bars and messages do not change anything; the local axis is found alone."""
    grid = HALF_DAYS[:size]
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        for L, S in itertools.product(subsets(grid), repeat=2):
            for opts in [
                dict(verbose=True, pbar=True),
                dict(verbose=["sec"], pbar=["time"]),
                dict(verbose=("time",), pbar=("sec",)),
            ]:
                compare(
                    ex,
                    dataset({"sec": S, "time": L}),
                    "time",
                    ["sec"],
                    {"sec": "d"},
                    {"sec": True},
                    f"{opts} {show(L)} <- {show(S)}",
                    False,
                    **opts,
                )
    for L in subsets(HALF_DAYS[:6]):
        ds = dataset({"time": L})
        data, index, xs = Stream().trace_dataset(ds)
        ex.same_array(np.asarray(index["v_time"]), np.arange(len(L)), f"single axis {show(L)}")
        ex.explored(states=len(L), transitions=len(L), traces=1)
    ds = dataset({"sec": grid, "time": grid})
    try:
        Stream().trace_dataset(ds)
        ok = False
    except ValueError:
        ok = True
    ex.check(ok, "ambiguous local time accepted")


def check_causality(ex, size):
    """While iterating lazily, what has been produced never depends on later observations: a
    step is produced by reading at most one observation which is not available yet."""
    grid = HALF_DAYS[:size]
    for L, S in itertools.product(subsets(grid), repeat=2):
        ds = dataset({"time": L, "sec": S})
        stream = Stream(local_time="time", ffills={"sec": True}, trace=False)
        read = []

        def spy(gen):
            for k, obs in enumerate(gen):
                read.append(k)
                yield obs

        streams = stream.start_dataset_streams(split_dataset_from_time_dims(ds))
        streams["sec"] = spy(streams["sec"])
        local_read = []

        def spy_local(gen):
            for obs in gen:
                local_read.append(obs.time)
                yield obs

        streams["time"] = spy_local(streams["time"])
        for t, out in enumerate(stream.merge(streams)):
            available = int((S < L[t]).sum())
            case = f"{show(L)} <- {show(S)} step {t}"
            # the first observation is read twice (initialisation)
            ex.check(len(read) - 1 <= max(available + 1, 1), f"{case}: reads ahead", read=len(read))
            ex.check(local_read[-1] == L[t], f"{case}: reads the local axis ahead")
            ex.explored(states=1, transitions=1)
        ex.explored(traces=1)


def check_scales(ex, step, freq, size, units):
    """Times which differ by a tick of their unit, around the multiples of a step, for
    axes with the same unit or not."""
    for u, v in units:
        L_all, S_all = boundary_grid(step, u), boundary_grid(step, v)
        for L in subsets(L_all[-size:])[:: 1 if size < 5 else 3]:
            for S in itertools.combinations(range(len(S_all)), min(3, len(S_all))):
                compare(
                    ex,
                    dataset({"sec": S_all[list(S)], "time": L}),
                    "time",
                    ["sec"],
                    {"sec": freq} if freq else {},
                    {"sec": True},
                    f"{u},{v}: {show(L)} <- {show(S_all[list(S)])}",
                    False,
                )


def check_long(ex, ratio, ffill):
    """Hundreds of observations, many between two local steps or many steps between two."""
    n = 150
    start, step = np.datetime64("1999-12-31T00:00", "ns"), np.timedelta64(1, "h")
    fast, slow = start + np.arange(3 * n) * step, start + np.arange(3 * n // ratio) * ratio * step
    gaps = np.concatenate([fast[:5], fast[n:]])
    for L, S in [(fast, slow), (slow, fast), (slow, gaps), (gaps, slow), (fast, gaps)]:
        for freq in (None, "d"):
            compare(
                ex, dataset({"sec": S, "time": L}), "time", ["sec"],
                {"sec": freq} if freq else {}, {"sec": ffill},
                f"{len(L)} steps, {len(S)} observations, {freq}", True,
            )


def tasks(tier):
    t = tier == "thorough"
    res = []
    for ffill, freq in itertools.product([False, True], [None, "d"]):
        names = NAMES[(2 * ffill + bool(freq)) % 3]
        parts = 4 if t else 1
        for p in range(parts):
            res.append(
                Task(
                    f"pairs:half,ffill={ffill},freq={freq},{p}",
                    check_pairs,
                    dict(grid="half", size=7 if t else 5, part=(p, parts), names=names,
                         ffill=ffill, freq=freq, access=not t or p == 0),
                )
            )
            if freq or t:
                res.append(
                    Task(
                        f"pairs:fine,ffill={ffill},freq={freq},{p}",
                        check_pairs,
                        dict(grid="fine", size=6 if t else 5, part=(p, parts), names=names,
                             ffill=ffill, freq=freq, access=False),
                    )
                )
        res.append(
            Task(
                f"repeated:ffill={ffill},freq={freq}",
                check_repeated,
                dict(size=4 if t else 3, ffill=ffill, freq=freq),
            )
        )
    settings = list(itertools.product(itertools.product([False, True], [None, "d"]), repeat=2))
    if not t:
        settings = [s for k, s in enumerate(settings) if s[0] != s[1]][::3]
    parts = 8 if t else 2
    for k, s in enumerate(settings):
        for p in range(parts):
            res.append(
                Task(f"triples:{s},{p}", check_triples,
                     dict(size=4 if t else 3, part=(p, parts), setting=s))
            )
    units = list(itertools.product(UNITS, repeat=2))
    for step, freq in [(DAY, "d"), (DAY, None), (10**9, None), (10**6, None)]:
        some = units if step == DAY else units[:1] if step < 10**9 else units[:3]
        res.append(
            Task(f"scales:{step},{freq}", check_scales,
                 dict(step=step, freq=freq, size=5 if t else 3,
                      units=some if t else sorted(some[::5] + some[1:4])))
        )
    for ratio, ffill in itertools.product([24, 40] if t else [40], [False, True]):
        res.append(Task(f"long:{ratio},{ffill}", check_long, dict(ratio=ratio, ffill=ffill)))
    res.append(Task("options", check_options, dict(size=4 if t else 3)))
    res.append(Task("causality", check_causality, dict(size=6 if t else 5)))
    return res
