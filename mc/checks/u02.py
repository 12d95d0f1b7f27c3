"""U02: interrupted runs.

For every module, all histories up to the bound are run without interruption and with every set
of cut points, feeding each piece with the state returned by the previous one (also after a
round trip of the state through plain numpy arrays, as when it is saved).  Outputs of a prefix
must not depend on the suffix, and the states and inputs passed in must not be modified.
"""

import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, histories
from mc.haikutools import to_np
from mc.programs import MODULES, noisy, recurrence
from wax.unroll import unroll, unroll_transform_with_state

PROPERTY = "U02"
ASSUMPTIONS = ["the state is opaque: only its use in a later run is observed"]


def save(tree):
    """What saving and loading a state gives: writable numpy arrays."""
    return jax.tree_util.tree_map(lambda v: np.array(v), tree)


def flat(tree):
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(tree)]


def same(ex, a, b, case, **kw):
    a, ta = jax.tree_util.tree_flatten(a)
    b, tb = jax.tree_util.tree_flatten(b)
    if ex.check(ta == tb, f"{case}/structure", f"{ta} {tb}", **kw):
        for i, (u, v) in enumerate(zip(a, b)):
            ex.same_array(u, v, f"{case}/{i}", **kw)


def check(ex, name, T, chunk):
    fun = MODULES[name]
    A = [1.0, -2.0, 0.5, np.nan] if name not in ("ARMA", "SNARIMAX", "Counter") else [1.0, -2.0, 0.5]
    X = histories(A, T)
    E = np.roll(X, 1, axis=1) > 0
    # an event per step and run: the runs are cut in groups which share it
    pair = unroll_transform_with_state(fun)
    N = X.shape[1]
    groups = [np.arange(N)[k::chunk] for k in range(chunk)]
    m = min(len(g) for g in groups)
    G = np.array([g[:m] for g in groups])  # (chunk, m): runs as a batch of vectors
    xs = jnp.asarray(np.moveaxis(X[:, G], 0, 1))  # (chunk, T, m)
    es = jnp.asarray(np.moveaxis(E[:, G], 0, 1))
    params, state0 = jax.vmap(lambda x, e: pair.init(jax.random.PRNGKey(0), x, e))(xs, es)
    apply = jax.jit(
        jax.vmap(lambda s, x, e: pair.apply(jax.tree_util.tree_map(lambda p: p[0], params), s, None, x, e))
    )
    x0, e0 = np.array(xs), np.array(es)
    kept = save(state0)
    whole, final = to_np(apply(state0, xs, es))
    same(ex, save(state0), kept, "initial state modified")
    n = 0
    for r in range(1, T):
        for cuts in itertools.combinations(range(1, T), r):
            outs, st = [], state0
            for k, (a, b) in enumerate(zip((0,) + cuts, cuts + (T,))):
                if (r + k) % 2:
                    st = save(st)
                before = save(st)
                out, nxt = apply(st, xs[:, a:b], es[:, a:b])
                same(ex, save(st), before, f"state modified, cut {cuts}")
                outs.append(to_np(out))
                st = nxt
                if b == cuts[0]:
                    # the outputs of a prefix do not depend on what follows
                    same(
                        ex, outs[0], jax.tree_util.tree_map(lambda w: w[:, :b], whole),
                        f"prefix of length {b}",
                    )
            got = jax.tree_util.tree_map(lambda *o: np.concatenate(o, axis=1), *outs)
            same(ex, got, whole, f"outputs, cut {cuts}", cuts=cuts)
            same(ex, to_np(st), final, f"final state, cut {cuts}", cuts=cuts)
            ex.explored(transitions=T * chunk * m, traces=chunk * m)
            n += 1
    ex.check((np.array(xs) == x0)[~np.isnan(x0)].all(), "inputs modified")
    ex.check((np.array(es) == e0).all(), "inputs modified")
    ex.explored_histories(X)
    ex.sample(module=name, T=T, histories=N, sets_of_cuts=n)


def check_eager(ex, name, T):
    """Step by step without compilation, from saved states, through the one-call interface."""
    fun = MODULES[name]
    x = np.array([1.0, -2.0, 0.5, 4.0, np.nan, 2.0, -1.0, 3.0], np.float32)[:T]
    if name in ("ARMA", "SNARIMAX"):
        x = np.nan_to_num(x, nan=1.5)
    X = np.stack([x, x[::-1], 2 * x, x + 1], axis=1)
    E = np.stack([np.arange(T) % 2 == 0] * 4, axis=1)
    X, E = jnp.asarray(X), jnp.asarray(E)
    rng = jax.random.PRNGKey(0)
    whole, final = unroll(fun, rng=rng, return_final_state=True)(X, E)
    tfun = hk.transform_with_state(fun)
    params, st = tfun.init(rng, X[0], E[0])
    outs = []
    for t in range(T):
        st = save(st)
        before = save(st)
        out, nxt = tfun.apply(params, st, None, X[t], E[t])
        same(ex, st, before, f"state given to step {t} modified")
        outs.append(to_np(out))
        if t + 1 < T:
            # resume from here with both ways of unrolling
            for dynamic in (True, False):
                o, f = unroll(
                    fun, params=params, state=save(nxt), dynamic=dynamic, rng=None if t % 2 else rng,
                    return_final_state=True,
                )(X[t + 1 :], E[t + 1 :]) if name not in ("SNARIMAX",) else unroll(
                    fun, params=params, state=save(nxt), dynamic=dynamic, rng=rng,
                    return_final_state=True,
                )(X[t + 1 :], E[t + 1 :])
                same(ex, o, jax.tree_util.tree_map(lambda w: w[t + 1 :], whole), f"resumed at {t + 1}, {dynamic}")
                same(ex, f, final, f"resumed at {t + 1}, {dynamic}/state")
                ex.explored(transitions=T - t - 1, traces=1)
        st = nxt
    got = jax.tree_util.tree_map(lambda *o: np.stack(o), *outs)
    same(ex, got, whole, "step by step")
    same(ex, st, final, "step by step/state")
    ex.explored(states=T + 1, transitions=T, traces=1)


def tasks(tier):
    t = tier == "thorough"
    res = []
    for name in MODULES:
        res.append(Task(f"cuts:{name}", check, dict(name=name, T=6 if t else 5, chunk=8)))
        res.append(Task(f"eager:{name}", check_eager, dict(name=name, T=8 if t else 6)))
    return res
