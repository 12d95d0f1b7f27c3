"""M08: conditional update on events.

For each wrapped module, every pattern of events (2^T) times input histories is executed; the
reference runs the *bare* module on the sub-sequence of the steps where the event occurred and
holds its last output in between.  Other modules running beside the wrapped one (same class,
names sharing a prefix, un-gated) must not be disturbed.
"""

import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, histories
from mc.haikutools import to_np
from mc.models import ewma_model, lag_model
from wax.modules import (
    EWMA,
    OHLC,
    Buffer,
    Counter,
    Diff,
    EWMVar,
    Ffill,
    FillNanInf,
    HasChanged,
    Lag,
    PctChange,
    RollingMean,
    UpdateOnEvent,
)
from wax.unroll import unroll

PROPERTY = "M08"
ASSUMPTIONS = [
    "inputs: one fixed sequence of distinct values with gaps per T, all event patterns; and all "
    "inputs over {1,-2,nan} for short histories",
]


class Pair(hk.Module):
    """Module with nested and repeated submodules, and random numbers."""

    def __call__(self, x):
        a = EWMA(com=1.0)(x)
        b = EWMA(com=3.0)(Diff()(x))
        return {"a": a, "b": (b, Lag(2)(x))}


class Noise(hk.Module):
    """A module with its own state and without reference to its input's past."""

    def __call__(self, x):
        n = hk.get_state("n", [], init=lambda *_: jnp.zeros((), jnp.int32))
        hk.set_state("n", n + 1)
        w = hk.get_parameter("w", [], init=jnp.ones)
        return {"n": n, "y": w * x * n}


WRAPPED = {
    "EWMA": lambda: EWMA(com=2.0, min_periods=2),
    "EWMA info": lambda: EWMA(com=2.0, return_info=True),
    "EWMVar": lambda: EWMVar(com=2.0),
    "Buffer": lambda: Buffer(3),
    "Buffer state": lambda: Buffer(2, return_state=True),
    "Lag": lambda: Lag(2),
    "Diff": lambda: Diff(),
    "PctChange": lambda: PctChange(),
    "RollingMean": lambda: RollingMean(2),
    "Ffill": lambda: Ffill(),
    "FillNanInf": lambda: FillNanInf(),
    "HasChanged": lambda: HasChanged(),
    "Pair": lambda: Pair(),
    "Noise": lambda: Noise(),
}


def reference(make, X, E, initial):
    """Bare module on the sub-sequence of events; by number of events, then scattered."""
    T, N = E.shape
    f = jax.jit(jax.vmap(unroll(lambda x: make()(x)), in_axes=1, out_axes=1))
    # left-align the inputs of the event steps
    order = np.argsort(~E, axis=0, kind="stable")
    packed = np.take_along_axis(X, order, axis=0)
    out = to_np(f(jnp.asarray(packed)))
    k = np.cumsum(E, axis=0) - 1  # index in the sub-sequence

    def scatter(o):
        kk = np.maximum(k, 0)
        res = o[kk, np.arange(N)[None, :]]
        empty = (k < 0).reshape(k.shape + (1,) * (o.ndim - 2))
        with np.errstate(all="ignore"):
            init = jnp.full((), initial, o.dtype)
        return np.where(empty, np.asarray(init), res).astype(o.dtype)

    return jax.tree_util.tree_map(scatter, out)


def compare(ex, got, want, S, case, **kw):
    g, gt = jax.tree_util.tree_flatten(got)
    w, wt = jax.tree_util.tree_flatten(want)
    if not ex.check(gt == wt, f"{case}/structure", f"{gt} != {wt}"):
        return
    for i, (a, b) in enumerate(zip(g, w)):
        ex.same_columns(a, b, S, f"{case}/{i}", **kw)


def check(ex, name, T, mode, initial):
    make = WRAPPED[name]
    if mode == "patterns":
        E = histories([0.0, 1.0], T) > 0
        x = (np.arange(T) * 7 % 5 - 1.5).astype(np.float32)
        x[3::5] = np.nan
        x[6::7] = 0.25
        X = np.repeat(x[:, None], E.shape[1], axis=1)
    else:
        S = histories(np.arange(6), T, np.int64)
        E = S % 2 == 1
        X = np.array([1.0, -2.0, np.nan], np.float32)[S // 2]
    kw = {} if initial is None else dict(initial_output_value=initial)
    f = jax.jit(
        jax.vmap(unroll(lambda e, x: UpdateOnEvent(make(), **kw)(e, x)), in_axes=1, out_axes=1)
    )
    got = to_np(f(jnp.asarray(E), jnp.asarray(X)))
    want = reference(make, X, E, np.nan if initial is None else initial)
    S = np.stack([E.astype(np.float32), X], axis=-1)
    compare(ex, got, want, S, f"{name}", module=name)
    ex.explored_histories(S)
    ex.sample(module=name, history=S[:, S.shape[1] // 2])


def check_beside(ex, T):
    """Neighbours of a gated module: same class, prefix names, nested names, un-gated."""
    E = histories([0.0, 1.0], T) > 0
    x = (np.arange(T) * 7 % 5 - 1.5).astype(np.float32)
    x[2::5] = np.nan
    X = np.repeat(x[:, None], E.shape[1], axis=1)

    def fun(e, x):
        free0 = EWMA(com=2.0, name="ma")(x)
        gated = UpdateOnEvent(EWMA(com=2.0, name="m"), name="gate")(e, x)
        free1 = EWMA(com=2.0, name="m_2")(x)
        free2 = Lag(1)(x)
        gated2 = UpdateOnEvent(Lag(1), name="gate_2")(~e, x)
        count = Counter()()
        return free0, gated, free1, free2, gated2, count

    out = to_np(
        jax.jit(jax.vmap(unroll(fun), in_axes=1, out_axes=1))(jnp.asarray(E), jnp.asarray(X))
    )
    ma = ewma_model(X, com=2.0)[0]
    S = np.stack([E.astype(np.float32), X], axis=-1)
    ex.same_columns(out[0], ma, S, "before, name with the same prefix")
    compare(ex, out[1], reference(lambda: EWMA(com=2.0), X, E, np.nan), S, "gated")
    ex.same_columns(out[2], ma, S, "after, name with the same prefix")
    ex.same_columns(out[3], lag_model(X, 1), S, "same class, un-gated")
    compare(ex, out[4], reference(lambda: Lag(1), X, ~E, np.nan), S, "gated by the complement")
    ex.same_columns(out[5], np.repeat(np.arange(1, T + 1)[:, None], E.shape[1], 1), S, "counter")
    ex.explored_histories(S)


def check_ohlc(ex, T):
    """Module with keyword arguments and several inputs; two events per step."""
    S = histories(np.arange(4), T, np.int64)
    E, R = S % 2 == 1, S // 2 == 1
    x = (np.arange(T) * 7 % 5 - 1.5).astype(np.float32)
    X = np.repeat(x[:, None], S.shape[1], axis=1)
    fun = unroll(lambda e, x, r: UpdateOnEvent(OHLC())(e, x, reset_on=r))
    got = to_np(
        jax.jit(jax.vmap(fun, in_axes=1, out_axes=1))(*map(jnp.asarray, (E, X, R)))
    )
    order = np.argsort(~E, axis=0, kind="stable")
    Xp, Rp = (np.take_along_axis(a, order, axis=0) for a in (X, R))
    bare = unroll(lambda x, r: OHLC()(x, reset_on=r))
    out = to_np(jax.jit(jax.vmap(bare, in_axes=1, out_axes=1))(jnp.asarray(Xp), jnp.asarray(Rp)))
    k = np.cumsum(E, axis=0) - 1
    cols = np.arange(S.shape[1])[None]
    for n, (g, o) in enumerate(zip(got, out)):
        w = np.where(k < 0, np.nan, o[np.maximum(k, 0), cols])
        ex.same_columns(g, w, S, f"ohlc/{n}")
    ex.explored_histories(S)


def check_nested(ex, T):
    """A gated module inside a gated module: updates only when both events occur."""
    S = histories(np.arange(4), T, np.int64)
    E1, E2 = S % 2 == 1, S // 2 == 1
    x = (np.arange(T) * 7 % 5 - 1.5).astype(np.float32)
    X = np.repeat(x[:, None], S.shape[1], axis=1)

    class Inner(hk.Module):
        def __call__(self, e, x):
            return UpdateOnEvent(EWMA(com=2.0), initial_output_value=0.0)(e, x), Counter()()

    def fun(e1, e2, x):
        return UpdateOnEvent(Inner(), initial_output_value=0)(e1, e2, x)

    got = to_np(
        jax.jit(jax.vmap(unroll(fun), in_axes=1, out_axes=1))(*map(jnp.asarray, (E1, E2, X)))
    )
    want = reference(lambda: EWMA(com=2.0), X, E1 & E2, 0.0)
    ex.same_columns(got[0], want, S, "nested average")
    ex.same_columns(got[1], np.cumsum(E1, axis=0), S, "nested counter")
    ex.explored_histories(S)


def tasks(tier):
    t = tier == "thorough"
    res = []
    for name in WRAPPED:
        ints = name in ("EWMA info", "Buffer state", "HasChanged", "Noise")
        for initial in [0 if ints else None, -7]:
            if name == "HasChanged" and initial == -7:
                continue
            for mode, T in [("patterns", 14 if t else 12), ("inputs", 6 if t else 5)]:
                res.append(
                    Task(
                        f"{name}:{mode},{initial}",
                        check,
                        dict(name=name, T=T, mode=mode, initial=initial),
                    )
                )
    res.append(Task("beside", check_beside, dict(T=12 if t else 8)))
    res.append(Task("ohlc", check_ohlc, dict(T=7 if t else 5)))
    res.append(Task("nested", check_nested, dict(T=7 if t else 5)))
    return res
