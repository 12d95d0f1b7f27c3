"""M06: open/high/low/close bars.

All histories of (value, reset) pairs up to the bound against the definition of a bar: first,
largest, smallest and last value observed since (and including) the latest reset step.
"""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, histories
from mc.haikutools import to_np
from wax.modules import OHLC
from wax.unroll import unroll

PROPERTY = "M06"
ASSUMPTIONS = ["values outside the alphabet behave as the ones in it (only their order matters)"]


def bars(X, R):
    """X (T, N, n) values, R (T, N) resets -> four arrays (T, N, n)."""
    T, N, n = X.shape
    out = np.full((4, T, N, n), np.nan, np.float32)
    start = np.zeros(N, int)
    for t in range(T):
        start = np.where(R[t], t, start)
        o = np.full((N, n), np.nan)
        h, lo, c = o.copy(), o.copy(), o.copy()
        for s in range(t + 1):
            use = (start <= s)[:, None] & ~np.isnan(X[s])
            x = X[s]
            o = np.where(use & np.isnan(o), x, o)
            h = np.where(use & (np.isnan(h) | (x > h)), x, h)
            lo = np.where(use & (np.isnan(lo) | (x < lo)), x, lo)
            c = np.where(use, x, c)
        out[:, t] = o, h, lo, c
    return out


def check(ex, alphabet, n, T, layout):
    symbols = [
        v + (r,) for v in itertools.product(alphabet, repeat=n) for r in (False, True)
    ]
    idx = histories(np.arange(len(symbols)), T, np.int64)
    X = np.array([s[:n] for s in symbols], np.float32)[idx]
    R = np.array([s[n] for s in symbols], bool)[idx]
    want = bars(X, R)
    fun = unroll(lambda x, r: OHLC()(x, reset_on=r))
    if layout == "scalar":
        g = jax.vmap(lambda x, r: fun(x[:, 0], r), in_axes=1, out_axes=1)
    elif layout == "matrix":
        g = jax.vmap(lambda x, r: fun(x[:, None, :], r), in_axes=1, out_axes=1)
    else:
        g = jax.vmap(fun, in_axes=1, out_axes=1)
    out = to_np(jax.jit(g)(jnp.asarray(X), jnp.asarray(R)))
    S = np.concatenate([X, R[:, :, None]], axis=2)
    for i, (what, got) in enumerate(
        zip(("open", "high", "low", "close"), (out.OPEN, out.HIGH, out.LOW, out.CLOSE))
    ):
        w = want[i]
        ex.same_columns(got.reshape(w.shape) if got.size == w.size else got, w, S, what)
    ex.explored_histories(S)
    k = S.shape[1] * 2 // 3
    ex.sample(history=S[:, k], open=want[0][:, k], high=want[1][:, k], low=want[2][:, k], close=want[3][:, k])


def tasks(tier):
    t = tier == "thorough"
    A4 = [1.0, 2.0, -3.0, np.nan]
    return [
        Task("scalar", check, dict(alphabet=A4, n=1, T=6 if t else 5, layout="scalar")),
        Task("vector1", check, dict(alphabet=A4, n=1, T=6 if t else 5, layout="vector")),
        Task("vector2", check, dict(alphabet=A4[:1] + A4[2:], n=2, T=4 if t else 3, layout="vector")),
        Task("matrix2", check, dict(alphabet=A4[1:], n=2, T=3, layout="matrix")),
        Task("vector3", check, dict(alphabet=[1.0, np.nan], n=3, T=4 if t else 3, layout="vector")),
        Task("order", check, dict(alphabet=[1.0, 2.0, 3.0, 4.0], n=1, T=6 if t else 5, layout="scalar")),
        Task("signs", check, dict(alphabet=[-1.0, -3.0, 0.0, 2.0, np.nan], n=1, T=6 if t else 5, layout="scalar")),
        Task("large", check, dict(alphabet=[-1e38, -3e38, 2e38, np.nan], n=1, T=5, layout="scalar")),
        Task("infinite", check, dict(alphabet=[0.0, np.inf, -np.inf, np.nan], n=1, T=5, layout="vector")),
        Task("deep", check, dict(alphabet=[1.0, np.nan], n=1, T=9 if t else 8, layout="scalar")),
    ]
