"""M03: exponential moving variance and covariance.

Exhaustive enumeration of the histories over small alphabets (pairs and triples of series with
missing values), every option combination, compared step by step with definitions (explicit
weights) and with pandas.
"""

import itertools
import warnings

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd

from mc import longrun
from mc.core import Task, histories
from mc.haikutools import run_columns, to_np
from mc.models import ewma_model, ewmvar_model
from wax.modules import EWMCov, EWMVar
from wax.unroll import unroll

PROPERTY = "M03"
ASSUMPTIONS = [
    "values outside the alphabet behave as the ones in it",
    "before the first observation the variance may be missing or zero (not compared)",
]


def label(c):
    return ",".join(f"{k}={v}" for k, v in c.items())


def check_var(ex, config, alphabet, T, layouts):
    X = histories(alphabet, T)
    want = ewmvar_model(X, **config)
    started = np.cumsum(~np.isnan(X), axis=0) > 0
    for layout in layouts:
        got = run_columns(lambda x: EWMVar(**config)(x), X, layout=layout)
        if not ex.check(got.shape == want.shape, f"{layout}/shape", got.shape):
            continue
        ex.check(
            not (got[~started] > 0).any(), f"{layout}/positive variance before any observation"
        )
        ex.same_columns(
            np.where(started, got, 0), want, X, layout, rtol=1e-4, atol=2e-4, config=config
        )
        ex.check((got[started] >= -1e-4).all(), f"{layout}/negative variance")
    if config["adjust"] != "linear":
        p = (
            pd.DataFrame(X.astype(np.float64))
            .ewm(ignore_na=True, **config)
            .var(bias=True)
            .values
        )
        assert np.allclose(np.where(started, p, 0), want, atol=1e-9)
    ex.explored_histories(X, len(layouts))
    ex.sample(config=config, history=X[:, X.shape[1] // 2], variance=want[:, X.shape[1] // 2])


def check_var_long(ex, config):
    T = 200
    cols = []
    for gap, run, phase in itertools.product([1, 3, 10], [1, 2, 7], [0, 1, 2]):
        t = np.arange(T) + phase
        cols.append(np.where(t % (gap + run) < run, (t * 7) % 5 - 1.0, np.nan))
    X = np.array(cols, np.float32).T
    want = ewmvar_model(X, **config)
    started = np.cumsum(~np.isnan(X), axis=0) > 0
    got = run_columns(lambda x: EWMVar(**config)(x), X)
    ex.same_columns(np.where(started, got, 0), want, X, "long", rtol=1e-3, atol=1e-3)
    ex.explored_histories(X)


def check_scale(ex, run, config, T):
    """The variance is the one of the observations whatever their scale, and does not depend on
    a common large part of them (it is not computed as a difference of two large numbers)."""
    X = histories([1.0, -2.0, 5.0, np.nan], T)
    want = ewmvar_model(X, **config)
    started = np.cumsum(~np.isnan(X), axis=0) > 0
    for scale, shift, tol in [(1e-12, 0.0, 1e-4), (1e12, 0.0, 1e-4), (1.0, 4096.0, 2e-2), (1e-3, -8.0, 2e-2)]:
        got = run(config, (X.astype(np.float64) * scale + shift).astype(np.float32))
        got = np.where(started, got, 0).astype(np.float64) / scale**2
        ex.same_columns(got, want, X, f"times {scale} plus {shift}", rtol=tol, atol=2 * tol, config=config)
        ex.explored_histories(X)


def scale_configs():
    for d, adjust in itertools.product([dict(com=2.0), dict(alpha=0.1)], [True, False, "linear"]):
        yield dict(**d, adjust=adjust)


def check_long_run(ex, config):
    """Tens of thousands of steps: the outputs end up repeating as the observations do."""
    longrun.periodic(
        ex, "variance", lambda x: run_columns(lambda v: EWMVar(**config)(v), x[:, None]), settle=6, rtol=1e-3, atol=1e-3
    )
    longrun.periodic(
        ex, "covariance", lambda x: to_np(unroll(lambda v: EWMCov(**config)((v, v * v)))(jnp.asarray(x[:, None]))),
        alphabet=(1.0, -2.0, 0.5), settle=6, rtol=1e-3, atol=1e-3,
    )


def cov_model(X, Y, assume_centered=False, **config):
    """X (T, N, n), Y (T, N, m) -> (T, N, n, m)."""
    T, N, n = X.shape
    m = Y.shape[2]
    XY = X[:, :, :, None] * Y[:, :, None, :]
    mxy = ewma_model(XY, **config)[0]
    if assume_centered:
        return mxy
    mx = ewma_model(X, **config)[0]
    my = ewma_model(Y, **config)[0]
    return mxy - mx[:, :, :, None] * my[:, :, None, :]


def check_cov(ex, config, shape, T, as_tuple):
    n, m = shape
    symbols = list(itertools.product([1.0, -2.0, np.nan], repeat=n + m))
    idx = histories(np.arange(len(symbols)), T, np.int64)
    S = np.array(symbols, np.float32)[idx]  # (T, N, n + m)
    X, Y = S[:, :, :n], S[:, :, n:]
    want = cov_model(X.astype(np.float64), Y.astype(np.float64), **config)
    if as_tuple:
        fun = lambda x, y: EWMCov(**config)((x, y))  # noqa
    else:
        fun = lambda x, y: EWMCov(**config)(x, y)  # noqa
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = to_np(
            jax.jit(jax.vmap(unroll(fun), in_axes=1, out_axes=1))(jnp.asarray(X), jnp.asarray(Y))
        )
    ex.same_columns(got, want, S, "covariance", rtol=1e-4, atol=1e-4, config=config)
    plain = (
        config["adjust"] != "linear"
        and not config["assume_centered"]
        and not config["min_periods"]
        and np.isnan(config["initial_value"])
    )
    if plain:  # against pandas where the two series are observed together
        kw = {k: config[k] for k in ("com", "alpha", "adjust", "ignore_na") if k in config}
        joint = np.isnan(S).any(-1) == np.isnan(S).all(-1)
        for k in np.flatnonzero(joint.all(0))[:: max(1, joint.all(0).sum() // 20)]:
            df = pd.DataFrame(S[:, k].astype(np.float64))
            p = df[0].ewm(**kw).cov(df[n], bias=True).values
            ex.same_array(got[:, k, 0, 0], p, f"pandas/{k}", rtol=1e-4, atol=1e-4, history=S[:, k])
    ex.explored_histories(S)
    ex.sample(config=config, history=S[:, S.shape[1] // 2], cov=want[:, S.shape[1] // 2])


def tasks(tier):
    thorough = tier == "thorough"
    res = []
    for d, adjust in itertools.product(
        [dict(com=2.0), dict(com=10.0), dict(alpha=0.1), dict(alpha=0.75), dict(alpha=1.0)],
        [True, False, "linear"],
    ):
        c = dict(**d, adjust=adjust)
        for i, (alphabet, tq, tt) in enumerate(
            [([1.0, -2.0, 5.0, np.nan], 6, 8), ([1.0, 0.0, np.nan], 7, 10), ([3.0, np.nan], 10, 14)]
        ):
            layouts = ["flat", "scalar", "tensor"] if thorough else [["flat", "scalar", "tensor"][i]]
            res.append(
                Task(
                    f"var{i}:{label(c)}",
                    check_var,
                    dict(config=c, alphabet=alphabet, T=tt if thorough else tq, layouts=layouts),
                )
            )
        if c.get("com") == 2.0 or c.get("alpha") == 0.75:
            res.append(Task(f"long run:{label(c)}", check_long_run, dict(config=c)))
        res.append(Task(f"varlong:{label(c)}", check_var_long, dict(config=c)))
    for c in scale_configs():
        run = lambda c, X: run_columns(lambda x: EWMVar(**c)(x), X)  # noqa
        res.append(Task(f"scale:{label(c)}", check_scale, dict(run=run, config=c, T=7 if thorough else 5)))
    i = 0
    for d, adjust, ignore_na, mp, init, centered in itertools.product(
        [dict(com=2.0), dict(alpha=0.1)],
        [True, False, "linear"],
        [True, False],
        [0, 2],
        [np.nan, 0.0],
        [False, True],
    ):
        c = dict(
            **d, adjust=adjust, ignore_na=ignore_na, min_periods=mp, initial_value=init,
            assume_centered=centered,
        )
        shapes = [((1, 1), 6, 5), ((2, 1), 3, 3), ((1, 2), 3, 3)]
        for s, tt, tq in shapes if thorough else [shapes[i % 3]]:
            res.append(
                Task(
                    f"cov{s}:{label(c)}",
                    check_cov,
                    dict(config=c, shape=s, T=tt if thorough else tq, as_tuple=(i % 5) % 2 == 0),
                )
            )
        i += 1
    return res
