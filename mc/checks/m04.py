"""M04: sliding windows: buffer, lag, difference, relative change, rolling mean.

All histories up to the bound (longer than every window), all window lengths, fill values and
dtypes, plus de Bruijn streams which visit every window content from every reachable
(non-initial) window content.
"""

import itertools

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd

from mc import longrun
from mc.core import Task, de_bruijn, histories
from mc.haikutools import run_columns, to_np
from mc.models import (
    lag_model,
    pct_change_model,
    rolling_mean_model,
    window_model,
)
from wax.modules import Buffer, Diff, Lag, PctChange, RollingMean
from wax.modules.lag import tree_lag
from wax.unroll import unroll

PROPERTY = "M04"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them"]

FLOAT = [1.0, -2.0, 0.0, np.nan]
LAYOUTS = ["flat", "scalar", "tensor"]


def streams(alphabet, T, n, dtype=np.float32):
    """The histories of length T, and one de Bruijn stream for windows of length n."""
    yield "all", histories(alphabet, T, dtype)
    seq = np.asarray(alphabet, dtype)[de_bruijn(len(alphabet), n)]
    yield "debruijn", seq[:, None]


def check_buffer(ex, maxlen, fill, dtype, alphabet, T, layouts, return_state):
    for name, X in streams(alphabet, T, min(maxlen + 2, 5), dtype):
        want = np.moveaxis(window_model(X, maxlen, fill), 1, 2)  # (T, N, maxlen)
        for layout in layouts if name == "all" else ["flat"]:

            def fun(x):
                r = Buffer(maxlen, fill_value=fill, return_state=return_state)(x)
                b, st = r if return_state else (r, None)
                b = jnp.moveaxis(b, 0, -1)
                if return_state:
                    same = jnp.moveaxis(st.buffer, 0, -1)
                    ones = jnp.ones(x.shape, int)
                    return b, same, st.len_buffer * ones, st.i_start * ones
                return b

            if layout == "tensor":
                T_, N = X.shape
                Y = X.reshape(T_, -1, 2) if N % 2 == 0 else X.reshape(T_, N, 1)
                out = to_np(unroll(fun)(jnp.asarray(Y)))
                out = jax.tree_util.tree_map(lambda o: o.reshape((T_, N) + o.shape[3:]), out)
            else:
                out = run_columns(fun, X, layout=layout)
            got = out[0] if return_state else out
            ex.same_columns(got, want, X, f"{name}/{layout}/window", maxlen=maxlen, fill=fill)
            ex.check(got.dtype == X.dtype, f"{name}/{layout}/dtype", got.dtype)
            if return_state:
                count = np.minimum(np.arange(1, X.shape[0] + 1), maxlen)
                count = np.broadcast_to(count[:, None], X.shape)
                ex.same_columns(out[1], want, X, f"{name}/{layout}/state buffer")
                ex.same_columns(out[2], count, X, f"{name}/{layout}/number of values")
                ex.same_columns(out[3], maxlen - count, X, f"{name}/{layout}/first value")
            ex.explored_histories(X)
    ex.sample(maxlen=maxlen, fill=fill, history=X[:5, 0], window=want[4, 0])


def check_lag(ex, lag, fill, dtype, alphabet, T, layouts):
    for name, X in streams(alphabet, T, min(lag + 2, 5), dtype):
        want = lag_model(X, lag, fill)
        for layout in layouts if name == "all" else ["flat"]:
            got = run_columns(lambda x: Lag(lag, fill_value=fill)(x), X, layout=layout)
            ex.same_columns(got, want, X, f"{name}/{layout}/lag", lag=lag)

            def fun(x):
                y, st = Lag(lag, fill_value=fill, return_state=True)(x)
                return y, jnp.moveaxis(st.buffer, 0, -1)

            if layout != "tensor":
                got, buf = run_columns(fun, X, layout=layout)
                ex.same_columns(got, want, X, f"{name}/{layout}/lag with state")
                ex.same_columns(
                    buf,
                    np.moveaxis(window_model(X, lag + 1, fill), 1, 2),
                    X,
                    f"{name}/{layout}/state",
                )
            ex.explored_histories(X)
    if np.dtype(dtype).kind == "f":
        X = histories(alphabet, T, dtype)
        Z = histories(alphabet[::-1], T, dtype)
        got = to_np(
            unroll(lambda x, z: tree_lag(lag)({"a": x, "b": (z, x + z)}, None, z))(
                jnp.asarray(X), jnp.asarray(Z)
            )
        )
        ex.check(isinstance(got, tuple) and len(got) == 3 and got[1] is None, "tree/structure")
        for what, g, w in [
            ("a", got[0]["a"], X),
            ("b0", got[0]["b"][0], Z),
            ("b1", got[0]["b"][1], X + Z),
            ("second", got[2], Z),
        ]:
            ex.same_columns(g, lag_model(w, lag), X, f"tree/{what}")
        one = to_np(
            jax.jit(jax.vmap(unroll(lambda x: tree_lag(lag)({"a": x, "b": (x + 1,)}, None, x)), 1, 1))(
                jnp.asarray(X)
            )
        )
        for what, g, w in [("a", one[0]["a"], X), ("b", one[0]["b"][0], X + 1), ("second", one[2], X)]:
            ex.same_columns(g, lag_model(w, lag), X, f"tree of numbers/{what}")


def check_diff(ex, T, layout):
    for name, X in streams(FLOAT, T, 3):
        got = run_columns(lambda x: Diff()(x), X, layout=layout if name == "all" else "flat")
        ex.same_columns(got, X - lag_model(X, 1), X, name)
        if name == "all":
            ex.same_columns(got, pd.DataFrame(X).diff().values, X, "pandas")
        ex.explored_histories(X)
    ex.sample(history=X[:6, 0], diff=got[:6, 0])


def check_pct(ex, T, layout, fill_method, fillna_zero):
    for name, X in streams([1.0, -2.0, 4.0, 0.0, np.nan], T, 4):
        got = run_columns(
            lambda x: PctChange(fill_method=fill_method, fillna_zero=fillna_zero)(x),
            X,
            layout=layout if name == "all" else "flat",
        )
        want = pct_change_model(X, fill_method is not None, fillna_zero)
        ex.same_columns(got, want, X, name, fill_method=fill_method, fillna_zero=fillna_zero)
        ex.explored_histories(X)
    ex.sample(history=X[:8, 0], pct=got[:8, 0])


def check_rolling(ex, horizon, min_periods, T, layout):
    for name, X in streams([1.0, -2.0, np.nan], T, min(horizon + 2, 6)):
        got = run_columns(
            lambda x: RollingMean(horizon, min_periods=min_periods)(x),
            X,
            layout=layout if name == "all" else "flat",
        )
        want = rolling_mean_model(X, horizon, min_periods)
        ex.same_columns(got, want, X, name, horizon=horizon, min_periods=min_periods)
        if min_periods <= horizon:
            p = pd.DataFrame(X).rolling(horizon, min_periods=max(min_periods, 1)).mean().values
            assert np.allclose(p, want, equal_nan=True)
        ex.explored_histories(X)
    ex.sample(horizon=horizon, min_periods=min_periods, history=X[:8, 0], mean=got[:8, 0])


LONG_RUNS = {
    "buffer": lambda x: Buffer(5)(x),
    "lag": lambda x: Lag(3)(x),
    "diff": lambda x: Diff()(x),
    "change": lambda x: PctChange()(x),
    "rolling": lambda x: RollingMean(4, min_periods=2)(x),
}


def check_long_run(ex, kind):
    """Tens of thousands of steps: the outputs repeat as the inputs do."""
    longrun.periodic(ex, kind, lambda x: run_columns(LONG_RUNS[kind], x[:, None]))


def tasks(tier):
    thorough = tier == "thorough"
    res = [Task(f"long run:{k}", check_long_run, dict(kind=k)) for k in LONG_RUNS]
    kinds = [
        (np.float32, FLOAT, [np.nan, 0.0, -7.0]),
        (np.int32, [0, 1, -5], [0, -1]),
        (np.int32, [0, 2**31 - 2, -(2**31) + 1], [2**24 + 1, -(2**31)]),
        (np.bool_, [False, True], [False, True]),
    ]
    i = 0
    for maxlen, (dtype, alphabet, fills), rs in itertools.product(
        range(1, 6), kinds, [False, True]
    ):
        for fill in fills:
            T = min(maxlen + 2, 6) if not thorough else maxlen + 3
            if dtype == np.bool_:
                T = maxlen + 4
            layouts = LAYOUTS if thorough else [LAYOUTS[i % 3]]
            i += 1
            res.append(
                Task(
                    f"buffer:{maxlen},fill={fill},{np.dtype(dtype).name},state={rs}",
                    check_buffer,
                    dict(
                        maxlen=maxlen, fill=fill, dtype=dtype, alphabet=alphabet, T=T,
                        layouts=layouts, return_state=rs,
                    ),
                )
            )
    for lag, (dtype, alphabet, fills) in itertools.product(range(0, 5), kinds[:3]):
        for fill in fills:
            res.append(
                Task(
                    f"lag:{lag},fill={fill},{np.dtype(dtype).name}",
                    check_lag,
                    dict(
                        lag=lag, fill=fill, dtype=dtype, alphabet=alphabet,
                        T=min(lag + 3, 6), layouts=LAYOUTS if thorough else LAYOUTS[:2],
                    ),
                )
            )
    for layout in LAYOUTS:
        res.append(Task(f"diff:{layout}", check_diff, dict(T=8 if thorough else 6, layout=layout)))
        for fm, fz in itertools.product(["pad", "ffill", None], [True, False]):
            res.append(
                Task(
                    f"pct:{layout},fill_method={fm},fillna_zero={fz}",
                    check_pct,
                    dict(T=7 if thorough else 5, layout=layout, fill_method=fm, fillna_zero=fz),
                )
            )
    for k, (h, mp) in enumerate(
        (h, mp) for h in range(1, 7) for mp in range(0, h + 2)
    ):
        for layout in LAYOUTS if thorough else [LAYOUTS[k % 3]]:
            res.append(
                Task(
                    f"rolling:{h},min_periods={mp},{layout}",
                    check_rolling,
                    dict(horizon=h, min_periods=mp, T=h + (4 if thorough else 3), layout=layout),
                )
            )
    return res
