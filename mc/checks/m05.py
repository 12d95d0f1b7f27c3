"""M05: forward fill, replacement of non-finite values, change detection and counting.

All histories over the alphabets, in all layouts and dtypes, against one-line definitions.
"""

import itertools

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd

from mc import longrun
from mc.core import Task, histories
from mc.haikutools import run_columns, to_np
from mc.models import ffill_model
from wax.modules import Counter, Ffill, FillNanInf, HasChanged
from wax.unroll import unroll

PROPERTY = "M05"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them"]
LAYOUTS = ["flat", "scalar", "tensor"]


def check_ffill(ex, T, layout):
    X = histories([1.0, 0.0, np.nan, -np.inf], T)
    got = run_columns(lambda x: Ffill()(x), X, layout=layout)
    want = ffill_model(X)
    assert np.array_equal(pd.DataFrame(X).ffill().values, want, equal_nan=True)
    ex.same_columns(got, want, X, "ffill")
    # composed twice: same as once
    got = run_columns(lambda x: Ffill()(Ffill()(x)), X, layout=layout)
    ex.same_columns(got, want, X, "ffill of ffill")
    ex.explored_histories(X, 2)
    ex.sample(history=X[:, 100], out=want[:, 100])


def check_fill(ex, T, layout, fill):
    A = [1.0, 0.0, -3.0, np.nan, np.inf, -np.inf]
    X = histories(A, T)
    kw = {} if fill is None else dict(fill_value=fill)
    f = 0.0 if fill is None else fill
    got = run_columns(lambda x: FillNanInf(**kw)(x), X, layout=layout)
    ex.same_columns(got, np.where(np.isfinite(X), X, f), X, "fill")
    out = to_np(
        unroll(lambda x: FillNanInf(**kw)({"a": (x, x[::-1]), "n": (x == 1).astype(int)}))(
            jnp.asarray(X)
        )
    )
    R = X[:, ::-1]
    ex.same_columns(out["a"][0], np.where(np.isfinite(X), X, f), X, "nested/0")
    ex.same_columns(out["a"][1], np.where(np.isfinite(R), R, f), R, "nested/1")
    ex.same_columns(out["n"], (X == 1).astype(int), X, "nested/integers")
    ex.explored_histories(X)
    ex.sample(history=X[:, 7], out=got[:, 7])


MISSING = {"float32": np.nan, "int32": -99999, "bool": False}


def check_changed(ex, dtype, alphabet, T, n):
    """n elements per step; the output is one boolean per step."""
    symbols = list(itertools.product(alphabet, repeat=n))
    idx = histories(np.arange(len(symbols)), T, np.int64)
    X = np.array(symbols, dtype)[idx]  # (T, N, n)
    f = jax.vmap(unroll(lambda x: HasChanged()(x)), in_axes=1, out_axes=1)
    data = jnp.asarray(X if n > 1 else X[:, :, 0])
    got = to_np(jax.jit(f)(data))
    want = np.zeros(X.shape[:2], bool)
    prev = np.full(X.shape[1:], MISSING[np.dtype(dtype).name], dtype)
    for t in range(T):
        want[t] = (X[t] != prev).any(-1)
        prev = X[t]
    ex.same_columns(got, want, X, "changed")
    ex.check(got.dtype == bool, "dtype", got.dtype)
    ex.explored_histories(X)
    ex.sample(history=X[:, X.shape[1] // 2], changed=want[:, X.shape[1] // 2])


def check_counter(ex, T, dynamic):
    got = to_np(unroll(lambda x: (Counter()(), Counter()()), dynamic=dynamic)(jnp.zeros(T)))
    for k in range(2):
        ex.same_array(got[k], np.arange(1, T + 1), f"counter {k}")
    ex.explored(states=T + 1, transitions=T, traces=1)


LONG_RUNS = {
    "fill forward": lambda x: Ffill()(x),
    "fill": lambda x: FillNanInf()(x),
    "changed": lambda x: HasChanged()(jnp.nan_to_num(x)),
}


def check_long_run(ex, kind):
    """Tens of thousands of steps: the outputs repeat as the inputs do."""
    longrun.periodic(ex, kind, lambda x: to_np(jax.jit(unroll(LONG_RUNS[kind]))(jnp.asarray(x))))


def tasks(tier):
    thorough = tier == "thorough"
    res = [Task(f"long run:{k}", check_long_run, dict(kind=k)) for k in LONG_RUNS]
    res.append(Task("counter:long", check_counter, dict(T=longrun.STEPS, dynamic=True)))
    for layout in LAYOUTS:
        res.append(Task(f"ffill:{layout}", check_ffill, dict(T=9 if thorough else 7, layout=layout)))
        for fill in [None, 0.0, -5.0]:
            res.append(
                Task(f"fill:{layout},{fill}", check_fill, dict(T=5 if thorough else 4, layout=layout, fill=fill))
            )
    for dtype, alphabet in [
        (np.float32, [0.0, 1.0, -2.5]),
        (np.int32, [0, 1, -99999]),
        (np.bool_, [False, True]),
    ]:
        for n in (1, 2, 3):
            T = {1: 8, 2: 4, 3: 3}[n] if len(alphabet) == 3 else {1: 12, 2: 6, 3: 4}[n]
            res.append(
                Task(
                    f"changed:{np.dtype(dtype).name},{n}",
                    check_changed,
                    dict(dtype=dtype, alphabet=alphabet, T=T + (1 if thorough and n < 3 else 0), n=n),
                )
            )
    for dynamic in (True, False):
        res.append(Task(f"counter:{dynamic}", check_counter, dict(T=300 if thorough else 60, dynamic=dynamic)))
    return res
