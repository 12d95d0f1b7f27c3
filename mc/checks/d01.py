"""D01: losses can be differentiated through missing values.

For every history over the alphabet (with missing values), the gradient of a loss over the
outputs which are not missing, with respect to the observations and to the trainable
parameters, computed by JAX through the real unrolled modules, against the finite differences
of the reference models, in 64 bits; every gradient is finite.
"""

import itertools
import warnings

import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict

import wax.modules as M
from mc import models
from mc.checks import m07, m09
from mc.checks.f04 import snarimax_model as flax_snarimax_model
from mc.checks.m03 import cov_model
from mc.checks.p01 import Bars, bars, columns4, fill, resets
from mc.core import Task, histories
from mc.flaxtools import KEY, flax_run
from mc.haikutools import to_np
from wax.flax.core.unroll import flax_unroll
from wax.flax.modules import arma, buffer, diff, ewma, ewmcov, ewmvar, ffill, fill_nan_inf, lag
from wax.flax.modules import mask_mean, mask_normalize, mask_std, pct_change, rolling_mean, snarimax
from wax.unroll import unroll, unroll_transform_with_state

PROPERTY = "D01"
ASSUMPTIONS = [
    "values outside the alphabets behave as the ones in them",
    "the loss ignores the missing outputs",
]
REAL = [1.1, -2.3, np.nan]
STEP = 1e-6
TOL = dict(rtol=1e-5, atol=1e-6)
W = np.array([0.7, -0.3, 0.2])


def weights(T):
    return 1.0 + 0.5 * np.arange(T)


def loss_of(out):
    """Weighted sum of the outputs (T, ...) which are not missing."""
    w = jnp.asarray(weights(out.shape[0])).reshape((-1,) + (1,) * (out.ndim - 1))
    out = jnp.where(jnp.isnan(out), 0.0, out)
    return (w * out * (1.0 + 0.25 * out)).sum()


def losses(out):
    """The same for each history: (T, N, ...) -> (N,)."""
    out = np.where(np.isnan(out), 0.0, out)
    T, N = out.shape[:2]
    return np.einsum("t,tnk->n", weights(T), (out * (1.0 + 0.25 * out)).reshape(T, N, -1))


def differences(model, X):
    """Central differences of the loss of the model with respect to every observation."""
    g = np.zeros_like(X)
    for t in range(len(X)):
        d = np.zeros((len(X), 1))
        d[t] = STEP
        g[t] = (losses(model(X + d)) - losses(model(X - d))) / (2 * STEP)
    return g


# -- with respect to the observations --------------------------------------------------------


class Cov(nn.Module):
    config: dict

    @nn.compact
    def __call__(self, x):
        return ewmcov.EWMCov(**{"min_periods": 0, **self.config})(jnp.stack([x, 2 * x]), jnp.stack([x]))


class Pair(nn.Module):
    config: dict

    @nn.compact
    def __call__(self, s):
        return ewmcov.EWMCov(**{"min_periods": 0, **self.config})(s[:1], s[1:])


def cov_of(X, c):
    return cov_model(np.stack([X, 2 * X], -1), X[..., None], **c)


EWM = [
    dict(com=2.0),
    dict(com=2.0, adjust=False),
    dict(com=2.3, adjust="linear"),
    dict(com=1.5, ignore_na=True, min_periods=2),
    dict(com=1.5, adjust=False, ignore_na=True, initial_value=0.3),
    dict(com=3.3, adjust="linear", ignore_na=True, min_periods=3),
]
VAR = [dict(com=2.0), dict(com=2.0, adjust=False), dict(com=2.3, adjust="linear"), dict(com=0.5)]


def window(X, n):
    return np.moveaxis(models.window_model(X, n, np.nan), 1, -1)


def predictor(X):
    return m09.snarimax_model(X[..., None], None, 2, 1, lambda F: F @ W[:, None] + 0.1, 1)[0][..., 0]


def haiku_menu():
    menu = {
        "buffer": (lambda x: M.Buffer(3)(x), lambda X: window(X, 3)),
        "lag": (lambda x: M.Lag(2)(x), lambda X: models.lag_model(X, 2)),
        "diff": (lambda x: M.Diff()(x), lambda X: X - models.lag_model(X, 1)),
        "change": (lambda x: M.PctChange()(x), models.pct_change_model),
        "plain change": (
            lambda x: M.PctChange(fill_method=None, fillna_zero=False)(x),
            lambda X: models.pct_change_model(X, False, False),
        ),
        "rolling": (lambda x: M.RollingMean(3)(x), lambda X: models.rolling_mean_model(X, 3)),
        "rolling 2": (lambda x: M.RollingMean(3, 2)(x), lambda X: models.rolling_mean_model(X, 3, 2)),
        "fill": (lambda x: M.FillNanInf(0.3)(x), lambda X: np.where(np.isnan(X), 0.3, X)),
        "ffill": (lambda x: M.Ffill()(x), models.ffill_model),
        "arma": (lambda x: M.ARMA(jnp.asarray(W[:2]), jnp.asarray(W[2:]))(x), lambda X: m09.arma_model(X, W[:2], W[2:])),
        "predictor": (lambda x: M.SNARIMAX(p=2, q=1, regressor=lambda F: F @ W + 0.1)(x)[0], predictor),
        "event": (lambda x: M.UpdateOnEvent(M.EWMA(com=3.0))(True, x), lambda X: models.ewma_model(X, com=3.0)[0]),
    }
    for i, c in enumerate(EWM):
        menu[f"ewma{i}"] = (lambda x, c=c: M.EWMA(**c)(x), lambda X, c=c: models.ewma_model(X, **c)[0])
        menu[f"ewmcov{i}"] = (
            lambda x, c=c: M.EWMCov(**c)(jnp.stack([x, 2 * x]), jnp.stack([x])), lambda X, c=c: cov_of(X, c),
        )
    for i, c in enumerate(VAR):
        menu[f"ewmvar{i}"] = (lambda x, c=c: M.EWMVar(**c)(x), lambda X, c=c: models.ewmvar_model(X, **c))
    return menu


def flax_menu():
    menu = {
        "buffer": (buffer.Buffer(3), lambda X: window(X, 3)),
        "lag": (lag.Lag(2), lambda X: models.lag_model(X, 2)),
        "diff": (diff.Diff(), lambda X: X - models.lag_model(X, 1)),
        "change": (pct_change.PctChange(), models.pct_change_model),
        "plain change": (
            pct_change.PctChange(fill_method=None, fillna_zero=False), lambda X: models.pct_change_model(X, False, False),
        ),
        "rolling": (rolling_mean.RollingMean(3), lambda X: models.rolling_mean_model(X, 3)),
        "rolling 2": (rolling_mean.RollingMean(3, 2), lambda X: models.rolling_mean_model(X, 3, 2)),
        "fill": (fill_nan_inf.FillNanInf(), fill),
        "ffill": (ffill.Ffill(), models.ffill_model),
        "arma": (arma.ARMA(alpha=W[:2], beta=W[2:]), lambda X: m09.arma_model(X, W[:2], W[2:])),
        "predictor": (
            snarimax.SNARIMAX(lags_x=2, lags_y=0, regressor=lambda F: F @ W[:, None] + 0.1),
            lambda X: fill(flax_snarimax_model(X[..., None], None, 2, 0) @ W + 0.1),
        ),
    }
    for i, c in enumerate(EWM):
        menu[f"ewma{i}"] = (ewma.EWMA(**c), lambda X, c=c: models.ewma_model(X, **c)[0])
        menu[f"ewmcov{i}"] = (Cov(c), lambda X, c=c: cov_of(X, c))
    for i, c in enumerate(VAR):
        menu[f"ewmvar{i}"] = (ewmvar.EWMVar(**c), lambda X, c=c: models.ewmvar_model(X, **c))
    return menu


def compare(ex, got, want, X, what):
    ex.check(
        np.isfinite(got).all(), f"{what}: not finite",
        f"history {X[:, int((~np.isfinite(got)).reshape(len(got), -1, X.shape[1]).any((0, 1)).argmax())].tolist()}"
        if got.ndim == 2 and not np.isfinite(got).all() else "",
    )
    ex.same_columns(got, want, X, what, **TOL)


def check_observations(ex, family, fun, model, T):
    X = histories(REAL, T, np.float64)
    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        f = unroll(fun) if family == "haiku" else lambda x: flax_run(fun, x)
        g = jax.jit(jax.vmap(jax.grad(lambda x: loss_of(f(x))), in_axes=1, out_axes=1))
        got = to_np(g(jnp.asarray(X)))
    with np.errstate(all="ignore"):
        want = differences(model, X)
    ex.check(np.isfinite(got).all(), "not finite", first(got, X))
    # missing observations can not be moved
    ex.same_columns(np.where(np.isnan(X), 0, got), np.where(np.isnan(X), 0, want), X, "gradient", **TOL)
    ex.explored_histories(X)
    ex.sample(history=X[:, X.shape[1] // 2], gradient=want[:, X.shape[1] // 2])


def first(got, X):
    bad = (~np.isfinite(got)).any(0)
    return f"history {X[:, int(bad.argmax())].tolist()}: gradient {got[:, int(bad.argmax())].tolist()}" if bad.any() else ""


def check_bars(ex, family, T):
    """Resets at fixed steps; equal values are not explored (the extremes are not smooth there)."""
    X = histories([1.1, -2.3, np.nan], T, np.float64) + 0.01 * np.arange(T)[:, None]
    R = resets(X)
    with jax.enable_x64(True):
        if family == "haiku":
            f = unroll(lambda x, r: columns4(M.OHLC()(x, reset_on=r)))
        else:
            f = lambda x, r: flax_run(Bars(), x, r)  # noqa
        g = jax.grad(lambda x, r: loss_of(f(x, r)))
        got = to_np(jax.jit(jax.vmap(g, in_axes=1, out_axes=1))(jnp.asarray(X), jnp.asarray(R)))
    want = differences(lambda V: bars(V, R), X)
    ex.check(np.isfinite(got).all(), "not finite", first(got, X))
    ex.same_columns(np.where(np.isnan(X), 0, got), np.where(np.isnan(X), 0, want), X, "gradient", **TOL)
    ex.explored_histories(X)


# -- with respect to the parameters ------------------------------------------------------------


def haiku_gradient(fun, X):
    """Gradient of the loss of each history with respect to the parameters: their leaves."""
    f = unroll_transform_with_state(fun)
    params, state = f.init(jax.random.PRNGKey(0), jnp.asarray(X[:, 0]))
    leaves, tree = jax.tree_util.tree_flatten(params)

    def loss(leaves, x):
        return loss_of(f.apply(jax.tree_util.tree_unflatten(tree, leaves), state, None, x)[0])

    return leaves, to_np(jax.jit(jax.vmap(jax.grad(loss), in_axes=(None, 1), out_axes=-1))(leaves, jnp.asarray(X)))


def flax_gradient(module, X):
    _, variables = module.init_with_output(KEY, jnp.asarray(X[0, 0]))
    leaves, tree = jax.tree_util.tree_flatten(variables["params"])

    def loss(leaves, x):
        params = jax.tree_util.tree_unflatten(tree, leaves)
        state = FrozenDict({k: v for k, v in variables.items() if k != "params"})
        # from the state before the first step (that of a missing observation)
        blank = module.init_with_output(KEY, jnp.full_like(x[0], jnp.nan))[1]
        state = FrozenDict({k: v for k, v in blank.items() if k != "params"})
        return loss_of(flax_unroll(module, params=params, state=state)(x))

    return leaves, to_np(jax.jit(jax.vmap(jax.grad(loss), in_axes=(None, 1), out_axes=-1))(leaves, jnp.asarray(X)))


EWMS = {"ewma": (M.EWMA, ewma.EWMA, models.ewma_model), "ewmvar": (M.EWMVar, ewmvar.EWMVar, models.ewmvar_model)}


def check_com(ex, family, kind, config, T, alphabet=None):
    """The centre of mass (its logarithm) is trainable."""
    X = histories(REAL if alphabet is None else alphabet, T, np.float64)
    haiku, flax, model = EWMS[kind]
    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        if family == "haiku":
            leaves, got = haiku_gradient(lambda x: haiku(**config)(x), X)
        else:
            leaves, got = flax_gradient(flax(**config), X)
    if not ex.check(len(leaves) == 1 and np.shape(leaves[0]) == (), "parameters", repr(leaves)):
        return
    got = got[0]
    ex.check(np.isfinite(got).all(), "not finite", first(got[None], X))

    def at(d):
        out = model(X, **{**config, "com": config["com"] * np.exp(d)})
        return losses(out[0] if kind == "ewma" else out)

    if family == "flax":  # one missing observation comes first
        Y = np.concatenate([np.full((1, X.shape[1]), np.nan), X])

        def at(d):  # noqa
            out = model(Y, **{**config, "com": config["com"] * np.exp(d)})
            return losses((out[0] if kind == "ewma" else out)[1:])

    want = (at(STEP) - at(-STEP)) / (2 * STEP)
    bad = ~np.isclose(got, want, rtol=1e-4, atol=1e-5)
    ex.comparisons += got.size
    ex.outcome(got)
    n = int(bad.argmax())
    ex.check(not bad.any(), "gradient", f"history {X[:, n].tolist()}: got {got[n]}, expected {want[n]}")
    ex.explored_histories(X)


def check_predictor(ex, p, q, T):
    """The default regressor of SNARIMAX has trainable weights and bias."""
    X = histories(REAL, T, np.float64)
    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        (b, w), got = haiku_gradient(lambda x: M.SNARIMAX(p=p, q=q)(x)[0], X)
    w, b = np.asarray(w, np.float64), np.asarray(b, np.float64)

    def at(w, b):
        return losses(m09.snarimax_model(X[..., None], None, p, q, lambda F: F @ w + b, 1)[0][..., 0])

    for i in range(p + q):
        d = np.zeros(w.shape)
        d[i] = STEP
        want = (at(w + d, b) - at(w - d, b)) / (2 * STEP)
        compare(ex, got[1][i], want[None], X, f"weight {i}")
    compare(ex, got[0], ((at(w, b + STEP) - at(w, b - STEP)) / (2 * STEP))[None], X, "bias")
    ex.explored_histories(X)


# -- masks ---------------------------------------------------------------------------------------


def check_masks(ex, family, shape, axis, kind, centered, scale=1.0):
    """Statistics of the selected entries; the others may be missing."""
    mask, X = m07.cases(shape, [1.0, -2.0, 4.0], [5.0, np.nan])
    X = X.astype(np.float64) * scale
    kw = dict(axis=axis) if kind == "mean" else dict(axis=axis, assume_centered=centered)
    haiku, flax = {
        "mean": (M.MaskMean, mask_mean.MaskMean),
        "deviation": (M.MaskStd, mask_std.MaskStd),
        "normalised": (M.MaskNormalize, mask_normalize.MaskNormalize),
    }[kind]

    def model(V):
        mean, std, _, full, _ = m07.stats(mask, V, axis, centered)
        with np.errstate(all="ignore"):
            out = {"mean": mean, "deviation": std, "normalised": np.where(mask, V / full, 0)}[kind]
        out = np.where(np.isfinite(out), out, 0).reshape(len(mask), -1)
        return (out * (1.0 + np.arange(out.shape[1]))).sum(1)

    def loss(x, m, apply):
        out = apply(m, x)
        if kind == "normalised":  # the other entries are not specified
            out = jnp.where(m, out, 0.0)
        out = jnp.where(jnp.isnan(out), 0.0, out).reshape(-1)
        return (out * (1.0 + jnp.arange(out.shape[0]))).sum()

    want = np.zeros(X.shape)
    h = 1e-5 * scale
    for i in np.ndindex(*shape):
        d = np.zeros((1,) + shape)
        d[(0,) + i] = h
        want[(slice(None),) + i] = (model(X + d) - model(X - d)) / (2 * h)
    full = m07.stats(mask, X, axis, centered)[3]
    smooth = np.broadcast_to((full > 1e-6 * scale) | (kind == "mean"), X.shape) & mask
    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        if family == "haiku":
            f = hk.without_apply_rng(hk.transform(lambda m, x: haiku(**kw)(m, x)))
            params = f.init(None, mask[0], X[0])
            g = jax.grad(lambda x, m: loss(x, m, lambda m, x: f.apply(params, m, x)))
        else:
            g = jax.grad(lambda x, m: loss(x, m, lambda m, x: flax(**kw).apply({}, m, x)))
        got = to_np(jax.jit(jax.vmap(g))(jnp.asarray(X), jnp.asarray(mask)))
    bad = ~np.isfinite(got).reshape(len(got), -1).all(1)
    n = int(bad.argmax())
    ex.check(not bad.any(), "not finite", f"mask {mask[n].tolist()} input {X[n].tolist()}: {got[n].tolist()}")
    ex.check((got[~mask] == 0).all(), "entries out of the mask have a gradient")
    got, want = got * scale, want * scale
    ex.same_columns(np.where(smooth, got, 0)[None], np.where(smooth, want, 0)[None], X[None], "gradient", rtol=1e-4, atol=1e-4)
    ex.explored(len(mask), len(mask), len(mask))


def check_pairs(ex, family, config, T):
    """Covariance of two series which are not missing at the same times."""
    symbols = np.array(list(itertools.product([1.1, -2.3, np.nan], repeat=2)))
    S = symbols[histories(np.arange(len(symbols)), T, np.int64)]  # (T, N, 2)

    def model(V):
        return cov_model(V[..., :1], V[..., 1:], **config)

    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        if family == "haiku":
            f = unroll(lambda s: M.EWMCov(**config)(s[:1], s[1:]))
        else:
            f = lambda s: flax_run(Pair(config), s)  # noqa
        g = jax.jit(jax.vmap(jax.grad(lambda s: loss_of(f(s))), in_axes=1, out_axes=1))
        got = to_np(g(jnp.asarray(S)))
    want = np.zeros(S.shape)
    with np.errstate(all="ignore"):
        for t, i in itertools.product(range(T), range(2)):
            d = np.zeros((T, 1, 2))
            d[t, 0, i] = STEP
            want[t, :, i] = (losses(model(S + d)) - losses(model(S - d))) / (2 * STEP)
    ex.check(np.isfinite(got).all(), "not finite", first(got.reshape(T, -1), S.reshape(T, -1)))
    ex.same_columns(np.where(np.isnan(S), 0, got), np.where(np.isnan(S), 0, want), S, "gradient", **TOL)
    ex.explored_histories(S)


def tasks(tier):
    th = tier == "thorough"
    T = 7 if th else 5
    res = []
    for family, menu in (("haiku", haiku_menu()), ("flax", flax_menu())):
        for name, (fun, model) in menu.items():
            res.append(Task(f"{family} observations:{name}", check_observations, dict(family=family, fun=fun, model=model, T=T)))
        res.append(Task(f"{family} observations:bars", check_bars, dict(family=family, T=T)))
        for kind, configs in (("ewma", EWM), ("ewmvar", VAR)):
            for i, c in enumerate(configs):
                res.append(Task(f"{family} parameter:{kind}{i}", check_com, dict(family=family, kind=kind, config=c, T=T)))
                res.append(
                    Task(f"{family} parameter:{kind}{i},gaps", check_com,
                         dict(family=family, kind=kind, config=c, T=10 if th else 8, alphabet=[1.1, np.nan]))
                )
        for shape in [(1,), (3,), (2, 2)]:
            for axis in [None] + list(range(len(shape))):
                for kind, centered, scale in [
                    ("mean", False, 1.0), ("deviation", False, 1.0), ("deviation", True, 1.0),
                    ("normalised", False, 1.0), ("normalised", True, 1.0), ("normalised", False, 1e-3),
                ]:
                    res.append(
                        Task(f"{family} masks:{shape},{axis},{kind},{centered},{scale}", check_masks,
                             dict(family=family, shape=shape, axis=axis, kind=kind, centered=centered, scale=scale))
                    )
        for i, c in enumerate(EWM):
            res.append(Task(f"{family} pairs:{i}", check_pairs, dict(family=family, config=c, T=4 if th else 3)))
    for p, q in [(1, 0), (2, 0), (1, 1), (2, 2)]:
        res.append(Task(f"parameter:predictor{p},{q}", check_predictor, dict(p=p, q=q, T=T)))
    return res
