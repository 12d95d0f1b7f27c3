"""Small stateful Haiku programs used to explore the unrolling and batching machinery."""

import haiku as hk
import jax
import jax.numpy as jnp

from wax.modules import (
    ARMA,
    EWMA,
    OHLC,
    SNARIMAX,
    Buffer,
    Counter,
    Diff,
    EWMCov,
    EWMVar,
    Ffill,
    FillNanInf,
    HasChanged,
    Lag,
    PctChange,
    RollingMean,
    UpdateOnEvent,
)


class Recurrence(hk.Module):
    """Order-sensitive state, integer and float parts, initial state depends on the input."""

    def __call__(self, x):
        w = hk.get_parameter("w", [], init=hk.initializers.Constant(2.0))
        s = hk.get_state("s", x.shape, x.dtype, init=lambda shape, dtype: 3.0 * x)
        n = hk.get_state("n", [], jnp.int32, init=jnp.zeros)
        s = w * s + x * (n + 1)
        hk.set_state("s", s)
        hk.set_state("n", n + 1)
        return s


def recurrence(x):
    return Recurrence()(x)


def nested(x, *, z):
    a, b = x["a"], x["b"][0]
    s = Recurrence(name="first")(a + 2 * b)
    t = Recurrence(name="second")(z)
    return {"out": (s - t, [Counter()()]), "id": b}


def noisy(x):
    s = Recurrence()(x)
    u = jax.random.uniform(hk.next_rng_key(), x.shape)
    hk.get_state("seed", [], init=lambda *_: jnp.zeros(()))
    acc = hk.get_state("acc", x.shape, x.dtype, init=jnp.zeros)
    hk.set_state("acc", acc + u)
    return s, u, acc


def stateless(x):
    return x * 2, -x


def averages(x):
    return EWMA(com=2.0)(x), EWMVar(com=2.0)(x)


MODULES = {
    # name: (function of (x, e), number of inputs)
    "EWMA": lambda x, e: EWMA(com=2.0, min_periods=2)(x),
    "EWMA linear": lambda x, e: EWMA(com=2.0, adjust="linear", return_info=True)(x),
    "EWMA recursive": lambda x, e: EWMA(alpha=0.5, adjust=False, ignore_na=True)(x),
    "EWMVar": lambda x, e: EWMVar(com=2.0)(x),
    "EWMCov": lambda x, e: EWMCov(com=2.0)(x[:3], x[1:4]),
    "Buffer": lambda x, e: Buffer(3)(x),
    "Buffer state": lambda x, e: Buffer(2, return_state=True)(x),
    "Lag": lambda x, e: Lag(2)(x),
    "Diff": lambda x, e: Diff()(x),
    "PctChange": lambda x, e: PctChange()(x),
    "RollingMean": lambda x, e: RollingMean(2)(x),
    "Ffill": lambda x, e: Ffill()(x),
    "FillNanInf": lambda x, e: FillNanInf()(x),
    "HasChanged": lambda x, e: HasChanged()(x),
    "Counter": lambda x, e: Counter()(),
    "OHLC": lambda x, e: OHLC()(x, reset_on=e[0]),
    "UpdateOnEvent": lambda x, e: UpdateOnEvent(EWMA(com=1.0))(e[0], x),
    "ARMA": lambda x, e: ARMA(jnp.array([0.5, -0.25]), jnp.array([0.5, 2.0]))(x),
    "SNARIMAX": lambda x, e: SNARIMAX(p=2, q=1)(x[0]),
    "composition": lambda x, e: EWMA(com=1.0)(Diff()(Ffill()(x))),
}
