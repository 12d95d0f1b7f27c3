"""M01: exponential moving average.

Every history of length T over a small alphabet of observations (with missing values) is a
path of the execution tree; the real module is unrolled on all of them, in several array
layouts, for every combination of smoothing, adjustment, missing-value, warm-up and
initial-value options, and compared at every step with a reference model written from the
definition (weighted averages of the observations seen so far).  The model is itself replayed
against pandas on all histories.
"""

import itertools

import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd

from mc import longrun
from mc.core import Task, histories
from mc.haikutools import run_columns
from mc.models import ewma_model, ewma_weights_model
from wax.modules import EWMA
from wax.unroll import unroll_transform_with_state

PROPERTY = "M01"
ASSUMPTIONS = [
    "values outside the alphabet behave as the ones in it (the update is affine in the values)",
    "float32 rounding is bounded by rtol 2e-5",
]

ALPHABETS = {
    "plain": ([1.0, -2.0, 5.0, np.nan], 7, 9),
    "zero": ([0.0, 3.0, np.nan], 8, 11),
    "binary": ([1.0, np.nan], 14, 17),
}


def configs():
    decays = [dict(com=1.0), dict(com=10.0), dict(alpha=0.1), dict(alpha=0.75), dict(alpha=1.0)]
    for d, adjust, ignore_na, min_periods, init in itertools.product(
        decays, [True, False, "linear"], [False, True], [0, 3], [np.nan, 0.0, 2.0]
    ):
        yield dict(
            **d, adjust=adjust, ignore_na=ignore_na, min_periods=min_periods, initial_value=init
        )


def label(c):
    return ",".join(f"{k}={v}" for k, v in c.items())


def check_config(ex, config, alphabet, T, layouts):
    X = histories(alphabet, T)
    mean, com_eff, nobs = ewma_model(X, **config)
    for layout in layouts:
        got, info = run_columns(
            lambda x: EWMA(**config, return_info=True)(x), X, layout=layout
        )
        ex.same_columns(got, mean, X, f"{layout}/mean", config=config)
        seen = ~np.isnan(X)
        ex.same_columns(
            np.where(seen, info["com_eff"], 0.0),
            np.where(seen, com_eff, 0.0),
            X,
            f"{layout}/effective com",
            config=config,
        )
        ex.same_columns(info["nobs"], nobs, X, f"{layout}/observations", config=config)
        plain = run_columns(lambda x: EWMA(**config)(x), X, layout=layout)
        ex.same_columns(plain, got, X, f"{layout}/without info", config=config)
    ex.explored_histories(X, len(layouts))
    ex.sample(config=config, history=X[:, X.shape[1] // 3], mean=mean[:, X.shape[1] // 3])


def check_long(ex, config):
    """Long histories: periodic patterns of observations, gaps and returns."""
    T = 240
    cols = []
    for gap, run, phase in itertools.product([1, 2, 5, 20], [1, 3, 7], [0, 1, 4]):
        t = np.arange(T) + phase
        cols.append(np.where(t % (gap + run) < run, (t * 7) % 5 - 1.0, np.nan))
    X = np.array(cols, np.float32).T
    mean, _, nobs = ewma_model(X, **config)
    got = run_columns(lambda x: EWMA(**config)(x), X)
    ex.same_columns(got, mean, X, "long", rtol=1e-4, atol=1e-5, config=config)
    ex.explored_histories(X)


def check_scale(ex, run, config, T, scales=(1e-30, 1e-12, 1e12, 1e30)):
    """The average is proportional to the observations, however small or large they are; and a
    common large part of the observations is not lost."""
    X = histories([1.0, -2.0, 5.0, np.nan], T)
    want = ewma_model(X, **config)[0]
    for scale in scales:
        c = dict(config, initial_value=config["initial_value"] * scale)
        got = run(c, (X.astype(np.float64) * scale).astype(np.float32))
        ex.same_columns(np.asarray(got, np.float64) / scale, want, X, f"times {scale}", config=config)
        ex.explored_histories(X)
    far = X.astype(np.float64) + 4096.0
    c = dict(config, initial_value=config["initial_value"] + 4096.0)
    ex.same_columns(run(c, far.astype(np.float32)) - 4096.0, want, X, "plus 4096", rtol=1e-3, atol=3e-3, config=config)
    ex.explored_histories(X)


def scale_configs():
    for d, adjust, ignore_na, init in itertools.product(
        [dict(com=2.0), dict(alpha=0.1)], [True, False, "linear"], [False, True], [np.nan, 2.0]
    ):
        yield dict(**d, adjust=adjust, ignore_na=ignore_na, min_periods=0, initial_value=init)


def check_count(ex, adjust, ignore_na):
    """Many observations: the count goes on, and min_periods with it."""
    config = dict(com=3.0, adjust=adjust, ignore_na=ignore_na)

    def run(X, mp):
        c = dict(config, min_periods=mp)
        mean, info = run_columns(lambda x: EWMA(**c, return_info=True)(x), X[:, None])
        plain = run_columns(lambda x: EWMA(**c)(x), X[:, None])
        return mean[:, 0], info["nobs"][:, 0], plain[:, 0]

    longrun.counts(ex, "long", run, [0, 2, 200, 30000])
    longrun.periodic(ex, "long", lambda x: run_columns(lambda v: EWMA(**config)(v), x[:, None]), settle=6, rtol=1e-4, atol=1e-5)


def check_model(ex, adjust, ignore_na, alpha, min_periods, T):
    """The reference model against pandas and against the closed form of the definition."""
    X = histories([1.0, -2.0, np.nan], T, np.float64)
    m = ewma_model(
        X, alpha=alpha, adjust=adjust, ignore_na=ignore_na, min_periods=min_periods
    )[0]
    p = (
        pd.DataFrame(X)
        .ewm(alpha=alpha, adjust=adjust, ignore_na=ignore_na, min_periods=min_periods)
        .mean()
        .values
    )
    w = ewma_weights_model(X, alpha, adjust, ignore_na, min_periods)
    assert np.allclose(m, p, equal_nan=True) and np.allclose(m, w, equal_nan=True)
    got = run_columns(
        lambda x: EWMA(
            alpha=alpha, adjust=adjust, ignore_na=ignore_na, min_periods=min_periods
        )(x),
        X.astype(np.float32),
    )
    ex.same_columns(got, p, X, "pandas")
    ex.explored_histories(X)


def check_impulse(ex, adjust, ignore_na):
    """All pairs (impulse time, missing pattern): weight of each single observation."""
    T = 9
    miss = histories([0.0, 1.0], T) > 0
    for t0 in range(T):
        X = np.where(miss, np.nan, 0.0).astype(np.float32)
        X[t0] = np.where(miss[t0], np.nan, 1024.0)
        want = ewma_model(X, com=3.0, adjust=adjust, ignore_na=ignore_na)[0]
        got = run_columns(lambda x: EWMA(com=3.0, adjust=adjust, ignore_na=ignore_na)(x), X)
        ex.same_columns(got, want, X, f"impulse at {t0}", adjust=adjust, ignore_na=ignore_na)
        ex.explored_histories(X)


def check_gradient(ex, adjust, ignore_na, T, min_periods=0):
    """The average stays differentiable when observations are missing, and before the first
    min_periods of them: the gradients with respect to the decay parameter and to the
    observations, on every history."""
    config = dict(adjust=adjust, ignore_na=ignore_na, min_periods=min_periods)
    com = 3.0
    X = histories([1.0, -2.0, 5.0, np.nan], T)
    f = unroll_transform_with_state(
        lambda x: EWMA(com=com, **config)(x)
    )

    def total(params, x):
        _, state = f.init(None, x)
        out, _ = f.apply(params, state, None, x)
        return jnp.nan_to_num(out).sum()

    params, _ = f.init(None, jnp.asarray(X[:, 0]))
    grad = jax.jit(jax.vmap(jax.grad(total, argnums=(0, 1)), in_axes=(None, 1)))
    gp, gx = grad(params, jnp.asarray(X))
    (gp,) = jax.tree_util.tree_leaves(gp)

    def model(X, c):
        return np.nan_to_num(ewma_model(X, com=c, **config)[0]).sum(0)

    h = 1e-5
    want = (model(X, com * np.exp(h)) - model(X, com * np.exp(-h))) / (2 * h)
    ex.same_columns(np.asarray(gp)[None], want[None], X[-1:], "decay", rtol=1e-3, atol=1e-3)
    for t in range(T):
        D = np.zeros(X.shape)
        D[t] = 1.0
        want = model(X + D, com) - model(X, com)
        ex.same_columns(np.asarray(gx)[None, :, t], want[None], X[-1:], f"observation {t}", rtol=1e-3, atol=1e-4)
    ex.explored_histories(X)


def tasks(tier):
    res = [
        Task(f"count:{a},{i}", check_count, dict(adjust=a, ignore_na=i))
        for a, i in [(True, False), (True, True), (False, False), (False, True), ("linear", True)]
    ]
    thorough = tier == "thorough"
    cs = list(configs())
    for i, c in enumerate(cs):
        names = list(ALPHABETS)
        if not thorough:  # every configuration, alternating the alphabet
            names = [names[i % 3]]
        for a in names:
            alphabet, tq, tt = ALPHABETS[a]
            layouts = ["flat", "scalar", "tensor"] if thorough else [["flat", "scalar", "tensor"][(i // 3) % 3]]
            res.append(
                Task(
                    f"{a}:{label(c)}",
                    check_config,
                    dict(config=c, alphabet=alphabet, T=tt if thorough else tq, layouts=layouts),
                )
            )
    for c in scale_configs():
        run = lambda c, X: run_columns(lambda x: EWMA(**c)(x), X)  # noqa
        res.append(Task(f"scale:{label(c)}", check_scale, dict(run=run, config=c, T=7 if thorough else 4)))
    for c in cs:
        if c["min_periods"] == 0 and c.get("com") == 10.0:
            res.append(Task(f"long:{label(c)}", check_long, dict(config=c)))
    for adjust, ignore_na, alpha, mp in itertools.product(
        [True, False], [True, False], [0.25, 0.5], [0, 2]
    ):
        res.append(
            Task(
                f"pandas:adjust={adjust},ignore_na={ignore_na},alpha={alpha},min_periods={mp}",
                check_model,
                dict(adjust=adjust, ignore_na=ignore_na, alpha=alpha, min_periods=mp, T=9 if thorough else 7),
            )
        )
    for adjust, ignore_na in itertools.product([True, False, "linear"], [True, False]):
        res.append(
            Task(f"impulse:adjust={adjust},ignore_na={ignore_na}", check_impulse, dict(adjust=adjust, ignore_na=ignore_na))
        )
    for adjust, ignore_na, mp in itertools.product([True, False], [True, False], [0, 1, 3]):
        res.append(
            Task(
                f"gradient:adjust={adjust},ignore_na={ignore_na},min_periods={mp}",
                check_gradient,
                dict(adjust=adjust, ignore_na=ignore_na, T=7 if thorough else 5, min_periods=mp),
            )
        )
    return res
