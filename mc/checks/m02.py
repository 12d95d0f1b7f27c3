"""M02: accelerated (numba) moving average on arrays, data frames and series.

All histories over the alphabet are the columns of one array; the compiled function and the
pandas accessor are run on all of them and compared with the reference model of M01.  Then all
ways of cutting a history into consecutive pieces are enumerated: carrying the returned state
from piece to piece must give the result of the uninterrupted run, must not modify the state
or data that were passed in, and the column order of the state must not matter.
"""

import itertools

import numpy as np
import pandas as pd

from mc.core import Task, histories
from mc.haikutools import run_columns
from mc.models import ewma_model
from wax.modules import EWMA
from wax.numba.ewma_numba import ewma, register_wax_numba

PROPERTY = "M02"
ASSUMPTIONS = ["values outside the alphabet behave as the ones in it"]


def configs():
    for d, adjust, ignore_na, mp, init in itertools.product(
        [dict(com=2.0), dict(alpha=0.1), dict(alpha=1.0)],
        [True, False, "linear"],
        [True, False],
        [0, 2],
        [np.nan, 1.0],
    ):
        yield dict(**d, adjust=adjust, ignore_na=ignore_na, min_periods=mp, initial_value=init)


def label(c):
    return ",".join(f"{k}={v}" for k, v in c.items())


def check(ex, config, T):
    A = [1.0, -2.0, 5.0, np.nan]
    X = histories(A, T, np.float64)
    want, _, nobs = ewma_model(X, **config)
    fun = ewma(**config)
    kept = X.copy()
    got, state = fun(X)
    ex.same_columns(got, want, X, "array", config=config, rtol=1e-9, atol=1e-9)
    ex.same_array(X, kept, "the data were modified")
    ex.same_columns(state.nobs[None], nobs[-1:], X[-1:], "number of observations")
    # agreement of the two implementations of the library
    jx = run_columns(lambda x: EWMA(**config)(x), X.astype(np.float32))
    ex.same_columns(jx, got, X, "the two implementations", rtol=1e-4, atol=1e-5)
    # 1-dimensional input
    for n in range(0, X.shape[1], max(1, X.shape[1] // 16)):
        g1, _ = fun(X[:, n].copy())
        ex.same_array(g1, want[:, n], f"1d/{n}", history=X[:, n])
    # float32 and integer data
    g32, _ = fun(X.astype(np.float32))
    ex.same_columns(g32, want, X, "float32", rtol=1e-4, atol=1e-5)
    for A in ([1, -2, 5], [2**40 + 1, -(2**40), 3]):
        XI = histories(A, T, np.int64)
        gi, _ = fun(XI)
        ex.same_columns(gi, ewma_model(XI, **config)[0], XI, "integers", rtol=1e-9, atol=1e-9)
    # the average is proportional to the observations
    for scale in (1e-30, 1e-12, 1e12) if np.isnan(config["initial_value"]) else ():
        gs, _ = fun(X * scale)
        ex.same_columns(gs / scale, want, X, f"times {scale}", rtol=1e-9, atol=1e-9, config=config)
    # every cut of the histories in consecutive pieces
    for cuts in itertools.chain.from_iterable(
        itertools.combinations(range(1, T), r) for r in range(1, T)
    ):
        state = None
        outs = []
        for a, b in zip((0,) + cuts, cuts + (T,)):
            before = None if state is None else [np.array(v) for v in state]
            prev = state
            out, state = fun(X[a:b], prev) if prev is not None else fun(X[a:b])
            if before is not None:
                for v, w in zip(prev, before):
                    ex.same_array(v, w, f"state passed to the piece at {a} was modified", cuts=cuts)
            outs.append(out)
        ex.same_columns(np.concatenate(outs), want, X, f"cut at {cuts}", config=config)
        ex.explored(transitions=X.size, traces=X.shape[1])
    ex.explored_histories(X)
    ex.sample(config=config, history=X[:, 37], mean=want[:, 37])


def check_frames(ex, config, T, thorough):
    register_wax_numba()
    A = [1.0, -2.0, np.nan]
    X = histories(A, T, np.float64)
    N = X.shape[1]
    want, _, _ = ewma_model(X, **config)
    cols = [f"c{n}" for n in range(N)]
    index = pd.date_range("2020-01-01", periods=T, freq="h")
    df = pd.DataFrame(X, index, cols)
    kept = df.copy()
    got = df.wax_numba.ewm(**config).mean()
    ex.equal(list(got.columns), cols, "columns")
    ex.check(got.index.equals(index), "index")
    ex.same_columns(got.values, want, X, "frame", config=config)
    full, fstate = df.wax_numba.ewm(**config, return_state=True).mean()
    ex.same_columns(full.values, want, X, "frame with state")
    rng = list(reversed(cols))
    for k in range(1, T) if thorough else [2]:
        out1, st = df.iloc[:k].wax_numba.ewm(**config, return_state=True).mean()
        st_kept = st.copy()
        out2, st2 = df.iloc[k:].wax_numba.ewm(**config, return_state=True).mean(st)
        ex.same_columns(np.concatenate([out1.values, out2.values]), want, X, f"resume at {k}", config=config)
        ex.check(st.equals(st_kept), f"state of the caller modified at {k}")
        # the state is matched by column name
        out3 = df.iloc[k:].wax_numba.ewm(**config).mean(st.loc[rng])
        ex.same_columns(out3.values, want[k:], X[k:], f"resume with permuted state at {k}")
        sub = cols[:: max(1, N // 7)]
        out4 = df.iloc[k:][sub].wax_numba.ewm(**config).mean(st)
        ex.same_columns(out4.values, got[sub].values[k:], df[sub].values[k:], f"resume of some columns at {k}")
        ex.same_array(st2["nobs"].values, fstate["nobs"].values, f"nobs after resume at {k}")
        ex.explored(transitions=X.size, traces=N)
    ex.check(df.equals(kept), "data of the caller were modified")
    for n in range(0, N, max(1, N // 10)) if thorough else [N // 2]:
        s = df[cols[n]]
        g = s.wax_numba.ewm(**config).mean()
        ex.check(isinstance(g, pd.Series) and g.name == cols[n], "series")
        ex.same_array(g.values, want[:, n], f"series {n}")
        k = T // 2
        a, st = s.iloc[:k].wax_numba.ewm(**config, return_state=True).mean()
        b, st = s.iloc[k:].wax_numba.ewm(**config, return_state=True).mean(st)
        ex.same_array(np.r_[a.values, b.values], want[:, n], f"resumed series {n}")
    ex.explored_histories(X)


def tasks(tier):
    thorough = tier == "thorough"
    res = []
    for i, c in enumerate(configs()):
        res.append(Task(f"array:{label(c)}", check, dict(config=c, T=7 if thorough else 5)))
        if thorough or i % 7 == 0:  # (each call of the accessor compiles anew)
            res.append(
                Task(
                    f"frame:{label(c)}",
                    check_frames,
                    dict(config=c, T=6 if thorough else 5, thorough=thorough),
                )
            )
    return res
