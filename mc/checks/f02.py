"""F02: the Flax moving averages, variances and covariances are the documented ones.

The Flax modules are initialised and unrolled on all histories over small alphabets, for every
combination of options, in several layouts, and compared step by step with the definitions
(the reference models of M01 and M03).
"""

import itertools
import warnings

import flax.linen as nn
import jax
import numpy as np

from mc.checks import m01, m03
from mc.checks.m01 import configs as mean_configs
from mc.checks.m01 import label
from mc.checks.m03 import cov_model
from mc import longrun
from mc.core import Task, histories
from mc.flaxtools import KEY, flax_batch, flax_columns
from mc.models import ewma_model, ewmvar_model
from wax.flax.modules import EWMA, EWMCov, EWMVar
from wax.flax.modules.ewma import create_ewma
from wax.flax.modules.ewmcov import create_ewmcov
from wax.flax.modules.ewmvar import create_ewmvar

PROPERTY = "F02"
ASSUMPTIONS = [
    "values outside the alphabets behave as the ones in them",
    "before the first observation the variance may be missing or zero (not compared)",
]

ALPHABETS = {
    "plain": ([1.0, -2.0, 5.0, np.nan], 5, 8),
    "zero": ([0.0, 3.0, np.nan], 6, 10),
    "binary": ([1.0, np.nan], 9, 15),
}


def check_mean(ex, config, alphabet, T, layouts):
    X = histories(alphabet, T)
    mean, com_eff, nobs = ewma_model(X, **config)
    for layout in layouts:
        got, info = flax_columns(EWMA(**config, return_info=True), X, layout=layout)
        ex.same_columns(got, mean, X, f"{layout}/mean", config=config)
        seen = ~np.isnan(X)
        ex.same_columns(
            np.where(seen, info["com_eff"], 0.0), np.where(seen, com_eff, 0.0), X,
            f"{layout}/effective com", config=config,
        )
        ex.same_columns(info["nobs"], nobs, X, f"{layout}/observations", config=config)
        plain = flax_columns(create_ewma(**config), X, layout=layout)
        ex.same_columns(plain, mean, X, f"{layout}/without info", config=config)
    ex.explored_histories(X, len(layouts))
    ex.sample(config=config, history=X[:, X.shape[1] // 3], mean=mean[:, X.shape[1] // 3])


def check_var(ex, config, alphabet, T, layouts):
    X = histories(alphabet, T)
    want = ewmvar_model(X, **config)
    started = np.cumsum(~np.isnan(X), axis=0) > 0
    for layout in layouts:
        make = EWMVar if layout == "flat" else create_ewmvar
        got = flax_columns(make(**config), X, layout=layout)
        if not ex.check(got.shape == want.shape, f"{layout}/shape", got.shape):
            continue
        ex.check(not (got[~started] > 0).any(), f"{layout}/positive variance before any observation")
        ex.same_columns(
            np.where(started, got, 0), want, X, layout, rtol=1e-4, atol=2e-4, config=config
        )
    ex.explored_histories(X, len(layouts))
    ex.sample(config=config, history=X[:, X.shape[1] // 2], variance=want[:, X.shape[1] // 2])


def check_cov(ex, config, shape, T, as_tuple):
    n, m = shape
    symbols = list(itertools.product([1.0, -2.0, np.nan], repeat=n + m))
    idx = histories(np.arange(len(symbols)), T, np.int64)
    S = np.array(symbols, np.float32)[idx]
    X, Y = S[:, :, :n], S[:, :, n:]
    want = cov_model(X.astype(np.float64), Y.astype(np.float64), **config)
    make = EWMCov if as_tuple else create_ewmcov
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if as_tuple:
            from mc.haikutools import to_np
            import jax.numpy as jnp

            def one(x, y):
                module = make(**config)
                first, v = module.init_with_output(KEY, (x[0], y[0]))
                out = [first]
                for t in range(1, T):
                    o, new = module.apply(v, (x[t], y[t]), mutable=["state"])
                    v = {**v, **new}
                    out.append(o)
                return jnp.stack(out)

            got = to_np(jax.jit(jax.vmap(one, in_axes=1, out_axes=1))(jnp.asarray(X), jnp.asarray(Y)))
        else:
            got = flax_batch(make(**config), X, Y)
    ex.same_columns(got, want, S, "covariance", rtol=1e-4, atol=1e-4, config=config)
    ex.explored_histories(S)
    ex.sample(config=config, history=S[:, S.shape[1] // 2], cov=want[:, S.shape[1] // 2])


def check_long(ex, config):
    T = 240
    cols = []
    for gap, run, phase in itertools.product([1, 2, 5, 20], [1, 3, 7], [0, 1, 4]):
        t = np.arange(T) + phase
        cols.append(np.where(t % (gap + run) < run, (t * 7) % 5 - 1.0, np.nan))
    X = np.array(cols, np.float32).T
    mean = ewma_model(X, **config)[0]
    ex.same_columns(flax_columns(EWMA(**config), X), mean, X, "long", rtol=1e-4, atol=1e-5)
    vc = {k: v for k, v in config.items() if k in ("com", "alpha", "adjust")}
    want = ewmvar_model(X, **vc)
    started = np.cumsum(~np.isnan(X), axis=0) > 0
    got = flax_columns(EWMVar(**vc), X)
    ex.same_columns(np.where(started, got, 0), want, X, "long variance", rtol=1e-3, atol=1e-3)
    ex.explored_histories(X)


def check_count(ex, adjust, ignore_na):
    """Many observations: the count goes on, and min_periods with it."""
    config = dict(com=3.0, adjust=adjust, ignore_na=ignore_na)

    def run(X, mp):
        c = dict(config, min_periods=mp)
        mean, info = flax_columns(EWMA(**c, return_info=True), X[:, None])
        plain = flax_columns(EWMA(**c), X[:, None])
        return mean[:, 0], info["nobs"][:, 0], plain[:, 0]

    longrun.counts(ex, "long", run, [0, 2, 200, 30000])
    long = lambda m, **kw: longrun.periodic(  # noqa
        ex, type(m).__name__, lambda x: flax_columns(m, x[:, None]), settle=6, rtol=1e-3, atol=1e-3, **kw
    )
    long(EWMA(**config))
    if ignore_na:
        long(EWMVar(com=3.0, adjust=adjust))

        class Cov(nn.Module):
            @nn.compact
            def __call__(self, x):
                return EWMCov(com=3.0, adjust=adjust)((x, x * x))

        long(Cov(), alphabet=(1.0, -2.0, 0.5))


def check_parameter(ex, adjust, com):
    """The decay is the trainable parameter, in logarithm: changing it changes the decay."""
    import jax.numpy as jnp

    X = histories([1.0, -2.0, np.nan], 6)
    for module, model in (
        (EWMA(com=com, adjust=adjust), lambda c: ewma_model(X, com=c, adjust=adjust)[0]),
        (EWMVar(com=com, adjust=adjust), lambda c: ewmvar_model(X, com=c, adjust=adjust)),
    ):
        _, v = module.init_with_output(KEY, jnp.full(X[0].shape, jnp.nan))
        leaves = jax.tree_util.tree_leaves(v["params"])
        ex.check(
            len(leaves) == 1 and np.allclose(leaves[0], np.log(com)), "parameter", repr(v["params"])
        )
        for c in (0.5, 2.0, 9.0):
            params = jax.tree_util.tree_map(lambda x: jnp.asarray(np.log(c), x.dtype), v["params"])
            state = {"state": v["state"]}
            out = []
            for t in range(X.shape[0]):
                o, new = module.apply({"params": params, **state}, jnp.asarray(X[t]), mutable=["state"])
                state = {"state": new["state"]}
                out.append(np.asarray(o))
            got, want = np.array(out), model(c)
            started = np.cumsum(~np.isnan(X), axis=0) > 0
            ex.same_columns(
                np.where(started, got, 0), np.where(started, want, 0), X,
                f"{type(module).__name__}/com={c}", rtol=1e-4, atol=2e-4,
            )
            ex.explored_histories(X)


def tasks(tier):
    th = tier == "thorough"
    res = [
        Task(f"count:{a},{i}", check_count, dict(adjust=a, ignore_na=i))
        for a, i in [(True, False), (True, True), (False, False), (False, True), ("linear", True)]
    ]
    for i, c in enumerate(mean_configs()):
        names = list(ALPHABETS) if th else [list(ALPHABETS)[i % 3]]
        for a in names:
            alphabet, tq, tt = ALPHABETS[a]
            layouts = ["flat", "scalar", "tensor"] if th else [["flat", "scalar", "tensor"][(i // 3) % 3]]
            res.append(
                Task(f"{a}:{label(c)}", check_mean, dict(config=c, alphabet=alphabet, T=tt if th else tq, layouts=layouts))
            )
        if c["min_periods"] == 0 and c.get("com") == 10.0:
            res.append(Task(f"long:{label(c)}", check_long, dict(config=c)))
    for d, adjust in itertools.product(
        [dict(com=2.0), dict(com=10.0), dict(alpha=0.1), dict(alpha=0.75), dict(alpha=1.0)],
        [True, False, "linear"],
    ):
        c = dict(**d, adjust=adjust)
        for i, (alphabet, tq, tt) in enumerate(
            [([1.0, -2.0, 5.0, np.nan], 5, 8), ([1.0, 0.0, np.nan], 6, 10), ([3.0, np.nan], 10, 14)]
        ):
            layouts = ["flat", "scalar", "tensor"] if th else [["flat", "scalar", "tensor"][i]]
            res.append(
                Task(f"var{i}:{label(c)}", check_var, dict(config=c, alphabet=alphabet, T=tt if th else tq, layouts=layouts))
            )
    i = 0
    for d, adjust, ignore_na, mp, init, centered in itertools.product(
        [dict(com=2.0), dict(alpha=0.1)], [True, False, "linear"], [True, False], [0, 2],
        [np.nan, 0.0], [False, True],
    ):
        c = dict(**d, adjust=adjust, ignore_na=ignore_na, min_periods=mp, initial_value=init, assume_centered=centered)
        shapes = [((1, 1), 6, 5), ((2, 1), 3, 3), ((1, 2), 3, 3)]
        for s, tt, tq in shapes if th else [shapes[i % 3]]:
            res.append(
                Task(f"cov{s}:{label(c)}", check_cov, dict(config=c, shape=s, T=tt if th else tq, as_tuple=i % 4 == 3))
            )
        i += 1
    for c in m01.scale_configs():
        run = lambda c, X: flax_columns(EWMA(**c), X)  # noqa
        res.append(Task(f"scale:{label(c)}", m01.check_scale, dict(run=run, config=c, T=7 if th else 4)))
    for c in m03.scale_configs():
        run = lambda c, X: flax_columns(EWMVar(**c), X)  # noqa
        res.append(Task(f"variance scale:{label(c)}", m03.check_scale, dict(run=run, config=c, T=7 if th else 5)))
    for adjust, com in itertools.product([True, False, "linear"], [1.0, 4.0]):
        res.append(Task(f"parameter:{adjust},{com}", check_parameter, dict(adjust=adjust, com=com)))
    return res
