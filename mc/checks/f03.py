"""F03: the Flax sliding windows, lags, fills, counters: same definitions as the Haiku ones.

All histories up to the bound (longer than every window), all window lengths, fill values and
dtypes, plus de Bruijn streams which visit every window content from every reachable window
content, on the real Flax modules against the models of M04 and M05.
"""

import itertools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

from mc.checks.m04 import FLOAT, LAYOUTS, streams
from mc.checks.m05 import MISSING
from mc import longrun
from mc.core import Task, histories
from mc.flaxtools import flax_batch, flax_columns, flax_run
from mc.haikutools import to_np
from mc.models import ffill_model, lag_model, pct_change_model, rolling_mean_model, window_model
from wax.flax.modules import (
    Buffer,
    Counter,
    Diff,
    Ffill,
    FillNanInf,
    HasChanged,
    Lag,
    PctChange,
    RollingMean,
)
from wax.flax.modules.buffer import create_buffer
from wax.flax.modules.counter import create_counter
from wax.flax.modules.diff import create_diff
from wax.flax.modules.ffill import create_ffill
from wax.flax.modules.fill_nan_inf import create_fill_nan_inf
from wax.flax.modules.has_changed import create_has_changed
from wax.flax.modules.lag import create_lag, tree_lag
from wax.flax.modules.pct_change import create_pct_change
from wax.flax.modules.rolling_mean import create_rolling_mean

PROPERTY = "F03"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them"]


def check_buffer(ex, maxlen, fill, dtype, alphabet, T, layout, rs):
    for name, X in streams(alphabet, T, min(maxlen + 2, 5), dtype):
        want = window_model(X, maxlen, fill)  # (T, maxlen, N)
        make = create_buffer if rs else Buffer
        if layout == "scalar" and name == "all":
            out = flax_batch(make(maxlen, fill_value=fill, return_state=rs), X)
            want = np.moveaxis(want, 1, 2)
            count = lambda a: a  # noqa
        else:
            out = to_np(jax.jit(lambda x: flax_run(make(maxlen, fill_value=fill, return_state=rs), x))(jnp.asarray(X)))
            count = lambda a: a[:, 0] if a.ndim > 1 else a  # noqa
        win = out[0] if rs else out
        sym = X
        if layout == "scalar" and name == "all":
            ex.same_columns(win, want, sym, f"{name}/window", maxlen=maxlen, fill=fill)
        else:
            ex.same_columns(
                np.moveaxis(win, 1, 2), np.moveaxis(want, 1, 2), sym, f"{name}/window", maxlen=maxlen, fill=fill
            )
        ex.check(win.dtype == X.dtype, f"{name}/dtype", win.dtype)
        if rs:
            n = np.minimum(np.arange(1, X.shape[0] + 1), maxlen)
            st = out[1]
            ex.same_array(st.buffer, win, f"{name}/state")
            got = np.asarray(st.len_buffer)
            ex.same_array(got, np.broadcast_to(n[:, None] if got.ndim > 1 else n, got.shape), f"{name}/number of values")
        ex.explored_histories(X)
    ex.sample(maxlen=maxlen, fill=fill, history=X[:5, 0])


class Lags(nn.Module):
    """Lags of all the leaves of a nested value."""

    lag: int

    @nn.compact
    def __call__(self, x, z):
        return tree_lag(self.lag)({"a": x, "b": (z, x + z)}, None, z)


def check_lag(ex, lag, fill, dtype, alphabet, T, layouts):
    for name, X in streams(alphabet, T, min(lag + 2, 5), dtype):
        want = lag_model(X, lag, fill)
        for layout in layouts if name == "all" else ["flat"]:
            ex.same_columns(
                flax_columns(Lag(lag, fill_value=fill), X, layout=layout), want, X, f"{name}/{layout}/lag", lag=lag
            )
            if layout == "scalar":
                y, st = flax_batch(create_lag(lag, fill_value=fill, return_state=True), X)
                ex.same_columns(y, want, X, f"{name}/lag with state")
                ex.same_columns(
                    st.buffer, np.moveaxis(window_model(X, lag + 1, fill), 1, 2), X, f"{name}/state"
                )
            ex.explored_histories(X)
    if np.dtype(dtype).kind == "f":
        X, Z = histories(alphabet, T, dtype), histories(alphabet[::-1], T, dtype)

        def go(x, z):
            m = Lags(lag)
            first, v = m.init_with_output(jax.random.PRNGKey(0), x[0], z[0])
            outs = [first]
            for t in range(1, T):
                o, v = m.apply(v, x[t], z[t], mutable=["state"])
                outs.append(o)
            return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *outs)

        got = to_np(jax.jit(go)(jnp.asarray(X), jnp.asarray(Z)))
        ex.check(isinstance(got, tuple) and len(got) == 3 and got[1] is None, "tree/structure")
        for what, g, w in [
            ("a", got[0]["a"], X), ("b0", got[0]["b"][0], Z), ("b1", got[0]["b"][1], X + Z), ("second", got[2], Z),
        ]:
            ex.same_columns(g, lag_model(w, lag), w, f"tree/{what}")


def check_diff(ex, T, layout):
    for name, X in streams(FLOAT, T, 3):
        make = Diff if name == "all" else create_diff
        got = flax_columns(make(), X, layout=layout if name == "all" else "flat")
        ex.same_columns(got, X - lag_model(X, 1), X, name)
        ex.explored_histories(X)
    ex.sample(history=X[:6, 0], diff=got[:6, 0])


def check_pct(ex, T, layout, fill_method, fillna_zero):
    for name, X in streams([1.0, -2.0, 4.0, 0.0, np.nan], T, 4):
        make = PctChange if name == "all" else create_pct_change
        got = flax_columns(
            make(fill_method=fill_method, fillna_zero=fillna_zero), X, layout=layout if name == "all" else "flat"
        )
        want = pct_change_model(X, fill_method is not None, fillna_zero)
        ex.same_columns(got, want, X, name, fill_method=fill_method, fillna_zero=fillna_zero)
        ex.explored_histories(X)
    ex.sample(history=X[:8, 0], pct=got[:8, 0])


def check_rolling(ex, horizon, min_periods, T, layout):
    for name, X in streams([1.0, -2.0, np.nan], T, min(horizon + 2, 6)):
        make = RollingMean if name == "all" else create_rolling_mean
        got = flax_columns(make(horizon, min_periods=min_periods), X, layout=layout if name == "all" else "flat")
        want = rolling_mean_model(X, horizon, min_periods)
        ex.same_columns(got, want, X, name, horizon=horizon, min_periods=min_periods)
        ex.explored_histories(X)
    ex.sample(horizon=horizon, min_periods=min_periods, history=X[:8, 0], mean=got[:8, 0])


def check_ffill(ex, T, layout):
    X = histories([1.0, 0.0, np.nan, -np.inf], T)
    for make in (Ffill, create_ffill):
        ex.same_columns(flax_columns(make(), X, layout=layout), ffill_model(X), X, "ffill")
        ex.explored_histories(X)


def check_fill(ex, T, layout, fill):
    X = histories([1.0, 0.0, -3.0, np.nan, np.inf, -np.inf], T)
    kw = {} if fill is None else dict(fill_value=fill)
    f = 0.0 if fill is None else fill
    want = np.where(np.isfinite(X), X, f)
    for make in (FillNanInf, create_fill_nan_inf):
        ex.same_columns(flax_columns(make(**kw), X, layout=layout), want, X, "fill")
    out = to_np(FillNanInf(**kw).apply({}, {"a": (jnp.asarray(X), jnp.asarray(X[::-1])), "n": jnp.arange(3)}))
    ex.same_columns(out["a"][0], want, X, "nested/0")
    ex.same_columns(out["a"][1], want[::-1], X[::-1], "nested/1")
    ex.same_array(out["n"], np.arange(3), "nested/integers")
    ex.explored_histories(X, 2)


def check_changed(ex, dtype, alphabet, T, n):
    symbols = list(itertools.product(alphabet, repeat=n))
    idx = histories(np.arange(len(symbols)), T, np.int64)
    X = np.array(symbols, dtype)[idx]
    want = np.zeros(X.shape[:2], bool)
    prev = np.full(X.shape[1:], MISSING[np.dtype(dtype).name], dtype)
    for t in range(T):
        want[t] = (X[t] != prev).any(-1)
        prev = X[t]
    for make in (HasChanged, create_has_changed):
        got = flax_batch(make(), X if n > 1 else X[:, :, 0])
        ex.same_columns(got, want, X, "changed")
        ex.check(got.dtype == bool, "dtype", got.dtype)
        ex.explored_histories(X)


class TwoCounters(nn.Module):
    @nn.compact
    def __call__(self, x):
        return Counter()(), create_counter()(), x


def check_counter(ex, T, dynamic):
    got = to_np(flax_run(TwoCounters(), jnp.zeros(T), dynamic=dynamic))
    for k in range(2):
        ex.same_array(got[k], np.arange(1, T + 1), f"counter {k}")
    ex.explored(states=T + 1, transitions=T, traces=1)


class LongRun(nn.Module):
    @nn.compact
    def __call__(self, x):
        return {
            "buffer": Buffer(maxlen=5)(x),
            "lag": Lag(3)(x),
            "diff": Diff()(x),
            "change": PctChange()(x),
            "rolling": RollingMean(4, min_periods=2)(x),
            "fill forward": Ffill()(x),
            "fill": FillNanInf()(x),
            "changed": HasChanged()(jnp.nan_to_num(x)),
        }


def check_long_run(ex):
    """Tens of thousands of steps: the outputs repeat as the inputs do."""
    longrun.periodic(ex, "all", lambda x: to_np(flax_run(LongRun(), jnp.asarray(x)[:, None])))


def tasks(tier):
    th = tier == "thorough"
    res = [Task("long run", check_long_run), Task("counter:long", check_counter, dict(T=longrun.STEPS, dynamic=True))]
    kinds = [
        (np.float32, FLOAT, [np.nan, 0.0, -7.0]),
        (np.int32, [0, 1, -5], [0, -1]),
        (np.bool_, [False, True], [False, True]),
    ]
    i = 0
    for maxlen, (dtype, alphabet, fills), rs in itertools.product(range(1, 6), kinds, [False, True]):
        for fill in fills:
            T = min(maxlen + 2, 6) if not th else maxlen + 3
            if dtype == np.bool_:
                T = maxlen + 4
            i += 1
            for layout in ("flat", "scalar") if th else [("flat", "scalar")[i % 2]]:
                res.append(
                    Task(
                        f"buffer:{maxlen},fill={fill},{np.dtype(dtype).name},state={rs},{layout}", check_buffer,
                        dict(maxlen=maxlen, fill=fill, dtype=dtype, alphabet=alphabet, T=T, layout=layout, rs=rs),
                    )
                )
    for lag, (dtype, alphabet, fills) in itertools.product(range(0, 5), kinds[:2]):
        for fill in fills:
            res.append(
                Task(
                    f"lag:{lag},fill={fill},{np.dtype(dtype).name}", check_lag,
                    dict(lag=lag, fill=fill, dtype=dtype, alphabet=alphabet, T=min(lag + 3, 6),
                         layouts=LAYOUTS if th else LAYOUTS[:2]),
                )
            )
    for layout in LAYOUTS:
        res.append(Task(f"diff:{layout}", check_diff, dict(T=8 if th else 6, layout=layout)))
        res.append(Task(f"ffill:{layout}", check_ffill, dict(T=9 if th else 7, layout=layout)))
        for fill in [None, 0.0, -5.0]:
            res.append(Task(f"fill:{layout},{fill}", check_fill, dict(T=5 if th else 4, layout=layout, fill=fill)))
        for fm, fz in itertools.product(["pad", "ffill", None], [True, False]):
            res.append(
                Task(f"pct:{layout},fill_method={fm},fillna_zero={fz}", check_pct,
                     dict(T=7 if th else 5, layout=layout, fill_method=fm, fillna_zero=fz))
            )
    for k, (h, mp) in enumerate((h, mp) for h in range(1, 7) for mp in range(0, h + 2)):
        for layout in LAYOUTS if th else [LAYOUTS[k % 3]]:
            res.append(
                Task(f"rolling:{h},min_periods={mp},{layout}", check_rolling,
                     dict(horizon=h, min_periods=mp, T=h + (4 if th else 3), layout=layout))
            )
    for dtype, alphabet in [
        (np.float32, [0.0, 1.0, -2.5]), (np.int32, [0, 1, -99999]), (np.bool_, [False, True]),
    ]:
        for n in (1, 2, 3):
            T = {1: 8, 2: 4, 3: 3}[n] if len(alphabet) == 3 else {1: 12, 2: 6, 3: 4}[n]
            res.append(
                Task(f"changed:{np.dtype(dtype).name},{n}", check_changed,
                     dict(dtype=dtype, alphabet=alphabet, T=T + (1 if th and n < 3 else 0), n=n))
            )
    for dynamic in (True, False):
        res.append(Task(f"counter:{dynamic}", check_counter, dict(T=300 if th else 60, dynamic=dynamic)))
    return res
