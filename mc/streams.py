"""Reference model of the synchronisation of streams, and its configurations."""

import itertools

import numpy as np
import pandas as pd
import xarray as xr

HALF_DAYS = np.datetime64("1969-12-31T00:00", "ns") + np.arange(8) * np.timedelta64(12, "h")
# one tick on each side of midnight, noon, ...
FINE = np.array(
    [
        "1969-12-31T23:59:59.999999999",
        "1970-01-01T00:00:00.000000000",
        "1970-01-01T00:00:00.000000001",
        "1970-01-01T23:59:59.999999999",
        "1970-01-02T00:00:00",
        "1970-01-02T06:00:00",
    ],
    dtype="datetime64[ns]",
)
DAY = 24 * 3600 * 10**9
UNITS = ["ns", "us", "ms", "s"]


def boundary_grid(step, unit="ns"):
    """Times on each side of multiples of a step (before and after 1970)."""
    tick = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9}[unit]
    far = 29 * 365 * DAY // step * step
    t = [-step - tick, -step, -1 * tick, 0, tick, far - tick, far, far + tick, far + step // 2]
    t = sorted({x // tick * tick for x in t})
    return (np.array(t, np.int64) // tick).astype(f"datetime64[{unit}]")


def embed(time, freq):
    """Integer time (ns) as seen from an axis with a frequency."""
    t = int(np.datetime64(time, "ns").astype(np.int64))
    return t - t % DAY if freq == "d" else t


def model(local, secondary, freq=None, ffill=False, maxlen=None):
    """Indices of the secondary observations shown at each local step (-1: missing)."""
    seen = 0
    blank = -1 if maxlen is None else [-1] * maxlen
    last = blank
    out = []
    sec = [embed(s, None) for s in secondary]
    for t in local:
        available = sum(s < embed(t, freq) for s in sec)
        if available > seen:
            seen = available
            if maxlen is None:
                shown = available - 1
            else:
                shown = list(range(max(0, available - maxlen), available))
                shown = [-1] * (maxlen - len(shown)) + shown
        else:
            shown = last if ffill else blank
        if ffill:
            last = shown
        out.append(shown)
    return np.array(out)


def subsets(grid):
    """All non-empty increasing sequences of times of the grid."""
    return [
        grid[list(c)]
        for k in range(1, len(grid) + 1)
        for c in itertools.combinations(range(len(grid)), k)
    ]


def take(values, index, missing):
    """Values at the indices (first axis), missing where the index is negative."""
    values = np.asarray(values)
    out = values[np.maximum(index, 0)]
    if (index < 0).any():
        out = out.copy()
        out[index < 0] = missing
    return out


def times_of(times, index):
    return take(times, index, np.datetime64("NaT"))


def dataset(axes, extra=None):
    """One variable `v_<axis>` per time axis, with values that identify the observations."""
    ds = xr.Dataset()
    for k, (name, times) in enumerate(axes.items()):
        ds[f"v_{name}"] = xr.DataArray(
            100.0 * (k + 1) + np.arange(len(times)), dims=(name,), coords={name: times}
        )
    for name, var in (extra or {}).items():
        ds[name] = var
    return ds


def show(times):
    return [str(pd.Timestamp(t)) for t in times]
