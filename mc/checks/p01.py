"""P01: computations keep the precision of their inputs.

With 64-bit types enabled in JAX, all histories over alphabets of values which are not 32-bit
floating point numbers (and of integers which are not 64-bit floating point numbers) go through
every module of both families, the accelerated average, the accessors and the streams; every
output must have 64 bits and agree with the definition to about 64-bit accuracy.  The same with
32-bit inputs: the modules must work on them, with the 32-bit accuracy.
"""

import warnings

import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax
import pandas as pd
import xarray as xr

import wax.modules as M
from mc import models
from mc.checks import m07, m09
from mc.checks.f04 import snarimax_model as flax_snarimax_model
from mc.checks.m03 import cov_model
from mc.core import Task, histories
from mc.flaxtools import flax_batch
from mc.haikutools import to_np
from wax.accessors import register_wax_accessors
from wax.flax.modules import apply_mask, arma, buffer, diff, ewma, ewmcov, ewmvar, ffill
from wax.flax.modules import fill_nan_inf, has_changed, lag, mask_mean, mask_normalize, mask_std, ohlc
from wax.flax.modules import online_optimizer as flax_online
from wax.flax.modules import pct_change, rolling_mean, snarimax
from wax.modules.func_optimizer import FuncOptimizer
from wax.modules.online_optimizer import OnlineOptimizer
from wax.modules.optax_optimizer import OptaxOptimizer
from wax.unroll import unroll

register_wax_accessors()
PROPERTY = "P01"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them"]

REAL = [1.1, -2.3 + 1e-9, np.nan]
EPS = {"float64": 1e-11, "float32": 2e-4}
BIG = [2**53 + 1, -(2**53) - 3, 2**62 + 1]
ALPHA, BETA = np.array([0.3, -0.1]), np.array([0.7])
W = np.array([0.1, -0.3, 0.7, 1.3, 0.9])


def bars(X, R):
    """Definition of the bars (as in M06), in 64 bits: X, R (T, N)."""
    T, N = X.shape
    out = np.full((T, N, 4), np.nan)
    for n in range(N):
        start = 0
        for t in range(T):
            start = t if R[t, n] else start
            v = X[start : t + 1, n]
            v = v[~np.isnan(v)]
            if len(v):
                out[t, n] = v[0], v.max(), v.min(), v[-1]
    return out


def columns4(o):
    return jnp.stack([o.OPEN, o.HIGH, o.LOW, o.CLOSE], -1)


def resets(X):
    T, N = X.shape
    return (np.arange(T)[:, None] + np.arange(N)) % 3 == 1


def change_model(X):
    out = np.zeros(X.shape, bool)
    for t in range(1, len(X)):
        out[t] = X[t] != X[t - 1]
    return out


def fill(X):
    return np.where(np.isfinite(X), X, 0.0)


def cov1(x):
    return jnp.stack([x, 2 * x * x])


EWM = [
    dict(com=3.0),
    dict(alpha=0.1, adjust=False),
    dict(com=3.0, adjust="linear", min_periods=2),
    dict(alpha=0.3, ignore_na=True, initial_value=0.3),
    dict(com=2.0, min_periods=3, adjust=False, initial_value=0.3),
]
VAR = [dict(com=3.0), dict(alpha=0.1, adjust=False), dict(com=3.0, adjust="linear")]


def nan_before(X, v):
    return np.where(np.cumsum(~np.isnan(X), 0) > 0, v, 0)


def cov_of(X, c):
    Z = np.stack([X, 2 * X * X], -1)
    return cov_model(Z, Z, **c)


def snarimax_of(X):
    return m09.snarimax_model(X[..., None], None, 2, 1, lambda F: F @ W[:3, None] + 0.1, 1)[0][..., 0]


def haiku_menu():
    """name -> (function of one observation, model of the histories (T, N))."""
    menu = {}
    for i, c in enumerate(EWM):
        menu[f"ewma{i}"] = (lambda x, c=c: M.EWMA(**c)(x), lambda X, c=c: models.ewma_model(X, **c)[0])
    for i, c in enumerate(VAR):
        menu[f"ewmvar{i}"] = (
            lambda x, c=c: jnp.nan_to_num(M.EWMVar(**c)(x)), lambda X, c=c: nan_before(X, models.ewmvar_model(X, **c)),
        )
        menu[f"ewmcov{i}"] = (lambda x, c=c: M.EWMCov(**c)(cov1(x), cov1(x)), lambda X, c=c: cov_of(X, c))
    menu |= {
        "buffer": (lambda x: M.Buffer(3)(x), lambda X: np.moveaxis(models.window_model(X, 3, np.nan), 1, -1)),
        "buffer filled": (
            lambda x: M.Buffer(2, fill_value=1 / 3)(x), lambda X: np.moveaxis(models.window_model(X, 2, 1 / 3), 1, -1),
        ),
        "lag": (lambda x: M.Lag(2)(x), lambda X: models.lag_model(X, 2)),
        "lag filled": (lambda x: M.Lag(1, fill_value=1 / 3)(x), lambda X: models.lag_model(X, 1, 1 / 3)),
        "diff": (lambda x: M.Diff()(x), lambda X: X - models.lag_model(X, 1)),
        "change": (lambda x: M.PctChange()(x), models.pct_change_model),
        "rolling": (lambda x: M.RollingMean(3)(x), lambda X: models.rolling_mean_model(X, 3)),
        "fill": (lambda x: M.FillNanInf(1 / 3)(x), lambda X: np.where(np.isnan(X), 1 / 3, X)),
        "ffill": (lambda x: M.Ffill()(x), models.ffill_model),
        "arma": (
            lambda x: M.ARMA(jnp.asarray(ALPHA, x.dtype), jnp.asarray(BETA, x.dtype))(x),
            lambda X: m09.arma_model(X, ALPHA, BETA),
        ),
        "predictor": (
            lambda x: M.SNARIMAX(p=2, q=1, regressor=lambda F: F @ jnp.asarray(W[:3], F.dtype) + 0.1)(x)[0],
            snarimax_of,
        ),
        "event": (
            lambda x: M.UpdateOnEvent(M.EWMA(com=3.0))(True, x), lambda X: models.ewma_model(X, com=3.0)[0],
        ),
    }
    return menu


def check_haiku(ex, name, fun, model, T, dtype, dynamic):
    X = histories(REAL, T, dtype)
    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        g = jax.vmap(unroll(fun, dynamic=dynamic), in_axes=1, out_axes=1)
        got = to_np((jax.jit(g) if dynamic else g)(jnp.asarray(X)))
    want = model(X.astype(np.float64))
    if dtype == "float64":
        ex.equal(str(got.dtype), dtype, "type of the outputs")
    ex.same_columns(got, want, X, name, rtol=EPS[dtype], atol=EPS[dtype])
    ex.explored_histories(X)


class Bars(nn.Module):
    @nn.compact
    def __call__(self, x, r):
        return columns4(ohlc.OHLC()(x, r))


class Cov(nn.Module):
    config: dict

    @nn.compact
    def __call__(self, x):
        return ewmcov.EWMCov(**self.config)(cov1(x), cov1(x))


def flax_menu():
    menu = {}
    for i, c in enumerate(EWM):
        menu[f"ewma{i}"] = (ewma.EWMA(**c), lambda X, c=c: models.ewma_model(X, **c)[0])
    for i, c in enumerate(VAR):
        menu[f"ewmvar{i}"] = (ewmvar.EWMVar(**c), lambda X, c=c: models.ewmvar_model(X, **c))
        menu[f"ewmcov{i}"] = (Cov(c), lambda X, c=c: cov_of(X, c))
    menu |= {
        "buffer": (buffer.Buffer(3), lambda X: np.moveaxis(models.window_model(X, 3, np.nan), 1, -1)),
        "lag": (lag.Lag(2), lambda X: models.lag_model(X, 2)),
        "diff": (diff.Diff(), lambda X: X - models.lag_model(X, 1)),
        "change": (pct_change.PctChange(), models.pct_change_model),
        "rolling": (rolling_mean.RollingMean(3), lambda X: models.rolling_mean_model(X, 3)),
        "fill": (fill_nan_inf.FillNanInf(), fill),
        "ffill": (ffill.Ffill(), models.ffill_model),
        "arma": (arma.ARMA(alpha=ALPHA, beta=BETA), lambda X: m09.arma_model(X, ALPHA, BETA)),
        "predictor": (
            snarimax.SNARIMAX(lags_x=2, lags_y=0, regressor=lambda F: F @ W[:3, None] + 0.1),
            lambda X: fill(flax_snarimax_model(X[..., None], None, 2, 0) @ W[:3] + 0.1),
        ),
    }
    return menu


def check_flax(ex, name, module, model, T, dtype):
    X = histories(REAL, T, dtype)
    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        got = flax_batch(module, X)
    want = model(X.astype(np.float64))
    if name.startswith("ewmvar"):
        got, want = nan_before(X, got), nan_before(X, want)
    if dtype == "float64":
        ex.equal(str(got.dtype), dtype, "type of the outputs")
    ex.same_columns(got.reshape(want.shape), want, X, name, rtol=EPS[dtype], atol=EPS[dtype])
    ex.explored_histories(X)


def check_bars(ex, family, T, dtype):
    X = histories(REAL + [1.1 + 1e-12], T, dtype)
    R = resets(X)
    with jax.enable_x64(True):
        if family == "haiku":
            f = unroll(lambda x, r: columns4(M.OHLC()(x, reset_on=r)))
            got = to_np(jax.jit(jax.vmap(f, in_axes=1, out_axes=1))(jnp.asarray(X), jnp.asarray(R)))
        else:
            got = flax_batch(Bars(), X, R)
    if dtype == "float64":
        ex.equal(str(got.dtype), dtype, "type of the bars")
    ex.same_columns(got, bars(X.astype(np.float64), R), X, "bars", rtol=0, atol=0)
    ex.explored_histories(X)


def check_changes(ex, family, T):
    """Changes which are smaller than the 32-bit accuracy are changes."""
    for A, dtype in [([1.0, 1.0 + 1e-12, -1e-300, 0.0], np.float64), (BIG + [2**53], np.int64)]:
        X = histories(A, T, dtype)
        with jax.enable_x64(True):
            if family == "haiku":
                f = jax.vmap(unroll(lambda x: M.HasChanged()(x)), in_axes=1, out_axes=1)
                got = to_np(jax.jit(f)(jnp.asarray(X)))
            else:
                got = flax_batch(has_changed.HasChanged(), X)
        ex.same_columns(got[1:].astype(float), change_model(X)[1:].astype(float), X[1:], f"changes of {A}")
        ex.explored_histories(X)


def plus_two(v):
    return v + 2


def check_integers(ex, family, T):
    """Integers of 64 bits go through windows and lags exactly."""
    X = histories(BIG, T, np.int64)
    haiku = {
        "window": lambda x: M.Buffer(2, fill_value=-(2**53) - 1)(x),
        "lag": lambda x: M.Lag(1, fill_value=-(2**53) - 1)(x),
        "fill": lambda x: M.FillNanInf()(x),
        "event": lambda x: M.UpdateOnEvent(hk.to_module(plus_two)())(True, x),
    }
    flax = {
        "window": buffer.Buffer(2, fill_value=-(2**53) - 1),
        "lag": lag.Lag(1, fill_value=-(2**53) - 1),
        "fill": fill_nan_inf.FillNanInf(),
    }
    want = {
        "window": np.moveaxis(models.window_model(X, 2, -(2**53) - 1), 1, -1),
        "lag": models.lag_model(X, 1, -(2**53) - 1),
        "fill": X,
        "event": X + 2,
    }
    with jax.enable_x64(True):
        for name, m in (haiku if family == "haiku" else flax).items():
            if family == "haiku":
                got = to_np(jax.jit(jax.vmap(unroll(m), in_axes=1, out_axes=1))(jnp.asarray(X)))
            else:
                got = flax_batch(m, X)
            ex.equal(str(got.dtype), "int64", f"type of {name}")
            ex.check(
                got.shape == want[name].shape and (got == want[name]).all(), name,
                f"integers of 64 bits are changed: {got.reshape(-1)[:4]} for {want[name].reshape(-1)[:4]}",
            )
    ex.explored_histories(X, 4)


def check_masks(ex, family, shape, axis):
    mask, X = m07.cases(shape, [1.0, -2.0, 4.0], [np.nan])
    X = X.astype(np.float64) / 3 + 1e-9
    X = np.where(mask, X, np.nan)
    mean, std, _, full, n = m07.stats(mask, X, axis, False)
    _, rms, _, _, _ = m07.stats(mask, X, axis, True)
    with np.errstate(all="ignore"):
        norm = X / full
    defined = mask & np.broadcast_to(full > 1e-8, X.shape)
    cases = {
        "mean": (M.MaskMean, mask_mean.MaskMean, {}, mean, True),
        "deviation": (M.MaskStd, mask_std.MaskStd, {}, std, n.reshape(std.shape) > 0),
        "centered deviation": (M.MaskStd, mask_std.MaskStd, dict(assume_centered=True), rms, n.reshape(std.shape) > 0),
        "normalised": (M.MaskNormalize, mask_normalize.MaskNormalize, {}, norm, defined),
        "selection": (M.ApplyMask, apply_mask.ApplyMask, dict(mask_value=1 / 3), np.where(mask, X, 1 / 3), True),
    }
    for name, (haiku, flax, kw, want, where) in cases.items():
        if name != "selection":
            kw = dict(kw, axis=axis)
        with warnings.catch_warnings(), jax.enable_x64(True):
            warnings.simplefilter("ignore")
            if family == "haiku":
                got = m07.run(lambda m, x: haiku(**kw)(m, x), mask, X)
            else:
                got = to_np(jax.jit(jax.vmap(lambda m, x: flax(**kw).apply({}, m, x)))(mask, X))
        ex.equal(str(got.dtype), "float64", f"type of {name}")
        if ex.check(got.shape == want.shape, f"shape of {name}", got.shape):
            # (a null deviation may be the square root of a rounding error)
            ex.same_columns(
                np.where(where, got, 0)[None], np.where(where, want, 0)[None], X[None], name, rtol=1e-11, atol=3e-8 if "dev" in name else 1e-11
            )
    ex.explored(len(mask), 5 * len(mask), 5 * len(mask))


START = 0.1 + 1e-9


def predict(x):
    return x * hk.get_parameter("w", [], jnp.float64, init=hk.initializers.Constant(START))


class Error(nn.Module):
    @nn.compact
    def __call__(self, x, y):
        return (self.param("w", lambda *_: jnp.asarray(START, jnp.float64)) * x - y) ** 2


class Learner(nn.Module):
    rate: float

    @nn.compact
    def __call__(self, x, y):
        o = flax_online.OnlineOptimizer(Error(), optax.sgd(self.rate))(x, y)
        return jnp.stack([o.loss] + jax.tree_util.tree_leaves(o.params))


def check_training(ex, kind, T):
    """Gradient descent with 64-bit parameters and observations."""
    A = [(0.1, 1 / 3), (-1.1, 0.7 + 1e-9), (1e-9, 0.3)]
    idx = histories(np.arange(len(A)), T, np.int64)
    D = np.array(A)[idx]  # (T, N, 2)
    rate = 0.1
    w = np.full(D.shape[1], START)
    want = []
    for t in range(T):
        x, y = D[t, :, 0], D[t, :, 1]
        loss = (w * x - y) ** 2
        w = w - rate * 2 * (w * x - y) * x
        want.append(np.stack([loss, w], -1))

    def learn(x, y):
        if kind == "online":
            o = OnlineOptimizer(lambda x, y: ((predict(x) - y) ** 2, {}), optax.sgd(rate), return_params=True)(x, y)
            loss, params = o.loss, o.params
        elif kind == "function":
            loss, params = FuncOptimizer(lambda x, y: (predict(x) - y) ** 2, OptaxOptimizer(optax.sgd(rate)))(x, y)
        else:
            _, o = M.OnlineSupervisedLearner(predict, optax.sgd(rate), loss=lambda y, p: (p - y) ** 2)(x, y)
            loss, params = o.loss, o.params
        return jnp.stack([loss] + jax.tree_util.tree_leaves(params))

    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        if kind == "flax":
            got = flax_batch(Learner(rate), D[..., 0], D[..., 1])
        else:
            f = jax.vmap(unroll(learn, rng=jax.random.PRNGKey(0)), in_axes=1, out_axes=1)
            got = to_np(jax.jit(f)(jnp.asarray(D[..., 0]), jnp.asarray(D[..., 1])))
    ex.equal(str(got.dtype), "float64", "type of the parameters")
    ex.same_columns(got, np.array(want), D, "training", rtol=1e-11, atol=1e-12)
    ex.explored_histories(D)


def check_accessors(ex, T):
    """Data frames, arrays and data sets of 64-bit numbers through the accessors and streams."""
    H = histories(REAL, T, np.float64)
    time = pd.date_range("2020-01-01", periods=T)
    da = xr.DataArray(H, dims=("time", "c"), coords={"time": time, "c": np.arange(H.shape[1])}, name="v")
    ints = histories(BIG, T, np.int64)
    both = xr.Dataset({"v": da, "n": (("time", "k"), ints)})
    want = models.ewma_model(H, com=3.0)[0]
    lagged = models.lag_model(H, 1)

    def step(d):
        return M.EWMA(com=3.0)(d), M.Lag(1)(d)

    with warnings.catch_warnings(), jax.enable_x64(True):
        warnings.simplefilter("ignore")
        results = {
            "array": da.wax.ewm(com=3.0).mean(),
            "frame": da.to_pandas().wax.ewm(com=3.0).mean(),
        }
        results["applied"], lags = da.wax.stream(format_outputs=False, return_state=False).apply(step)
        results["series"] = np.stack([s.wax.ewm(com=3.0).mean() for _, s in da.to_pandas().iloc[:, :5].items()], -1)
        v, n = both.wax.stream(return_state=False, format_outputs=False).apply(lambda d: (M.EWMA(com=3.0)(d["v"]), M.Lag(1, fill_value=7)(d["n"])))
        results["data set applied"] = v
    for name, got in results.items():
        got = np.asarray(got)
        ex.equal(str(got.dtype), "float64", f"type of {name}")
        ex.same_columns(got, want[:, : got.shape[1]], H, name, rtol=1e-11, atol=1e-11)
    ex.same_columns(np.asarray(lags), lagged, H, "lag", rtol=0, atol=0)
    n = np.asarray(n)
    ex.equal(str(n.dtype), "int64", "type of the integers")
    ex.check((n == models.lag_model(ints, 1, 7)).all(), "integers of 64 bits are changed by a stream")
    ex.explored_histories(H, 8)


def axes(shape):
    return [None] + list(range(len(shape)))


def tasks(tier):
    th = tier == "thorough"
    T = 7 if th else 5
    res = []
    for name, (fun, model) in haiku_menu().items():
        for dtype in ("float64", "float32"):
            res.append(Task(f"haiku:{name},{dtype}", check_haiku, dict(name=name, fun=fun, model=model, T=T, dtype=dtype, dynamic=True)))
        res.append(Task(f"haiku:{name},static", check_haiku, dict(name=name, fun=fun, model=model, T=4 if th else 3, dtype="float64", dynamic=False)))
    for name, (module, model) in flax_menu().items():
        for dtype in ("float64", "float32"):
            res.append(Task(f"flax:{name},{dtype}", check_flax, dict(name=name, module=module, model=model, T=T, dtype=dtype)))
    for family in ("haiku", "flax"):
        for dtype in ("float64", "float32"):
            res.append(Task(f"{family} bars:{dtype}", check_bars, dict(family=family, T=T, dtype=dtype)))
        res.append(Task(f"{family} changes", check_changes, dict(family=family, T=T)))
        res.append(Task(f"{family} integers", check_integers, dict(family=family, T=T)))
        for shape in [(3,), (2, 2), (1, 3)]:
            for axis in axes(shape):
                res.append(Task(f"{family} masks:{shape},{axis}", check_masks, dict(family=family, shape=shape, axis=axis)))
    for kind in ("online", "function", "learner", "flax"):
        res.append(Task(f"training:{kind}", check_training, dict(kind=kind, T=T)))
    res.append(Task("accessors", check_accessors, dict(T=T)))
    return res
