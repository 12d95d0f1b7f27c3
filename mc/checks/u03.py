"""U03: batches.

All histories of the alphabet are the elements of a batch; lifting over the batch inside a
transformed function must give for each element what an independent run of the function on
that element gives (outputs, states and parameters of its own).
"""

import itertools
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, histories
from mc.haikutools import to_np
from mc.programs import Recurrence
from wax.modules import EWMA, Buffer, Counter, Diff, Lag, VMap
from wax.modules.vmap import add_batch
from wax.stateful import unroll_lift_with_state, vmap_lift_with_state
from wax.transform import transform_batch_with_state, transform_batch_with_state_static
from wax.unroll import unroll, unroll_transform_with_state

PROPERTY = "U03"
ASSUMPTIONS = ["jax.vmap and hk.experimental.lift_with_state are trusted"]


def own(x):
    """State and parameter of each element depend on the element."""
    w = hk.get_parameter("w", [], init=lambda *_: 2.0 + x)
    return w * Recurrence()(x), Counter()()


def two(x):
    return {"m": EWMA(com=1.0)(x), "l": (Lag(2)(x), Diff()(x)), "b": Buffer(2)(x)}


PROGRAMS = {"recurrence": lambda x: Recurrence()(x), "own": own, "two": two}
A = [1.0, -2.0, 0.5]


def tree_columns(ex, got, want, X, case, **kw):
    g, gt = jax.tree_util.tree_flatten(got)
    w, wt = jax.tree_util.tree_flatten(want)
    if ex.check(gt == wt, f"{case}/structure", f"{gt} {wt}"):
        for i, (a, b) in enumerate(zip(g, w)):
            ex.same_columns(a, b, X, f"{case}/{i}", **kw)


def independent(fun, X):
    """Each history alone."""
    return to_np(jax.vmap(unroll(fun), in_axes=1, out_axes=1)(jnp.asarray(X)))


def check_vmap(ex, name, T):
    fun = PROGRAMS[name]
    X = histories(A, T)
    N = X.shape[1]
    want = independent(fun, X)
    key = jax.random.PRNGKey(1)
    for n in range(0, N, max(1, N // 9)):  # truly alone, without vmap
        one = to_np(unroll(fun)(jnp.asarray(X[:, n])))
        tree_columns(
            ex,
            jax.tree_util.tree_map(lambda o: o[:, None], one),
            jax.tree_util.tree_map(lambda o: o[:, n : n + 1], want),
            X[:, n : n + 1],
            "alone",
        )
    x = jnp.asarray(X)
    for split, init_rng, rng, dynamic in itertools.product(
        [False, True], [False, True], [None, key], [True, False]
    ):
        if split and (not init_rng or rng is None) or (init_rng and rng is None):
            continue
        f = lambda x: vmap_lift_with_state(fun, split_rng=split, init_rng=init_rng)(x)  # noqa
        got = to_np(unroll(f, rng=rng, dynamic=dynamic)(x))
        tree_columns(
            ex, got, want, X, f"split={split},init={init_rng},rng={rng is not None},dynamic={dynamic}"
        )
        ex.explored(transitions=X.size, traces=N)
    # twice in the same function: no interference
    f = lambda x: (vmap_lift_with_state(fun)(x), vmap_lift_with_state(fun)(x[::-1]))  # noqa
    a, b = to_np(unroll(f, rng=key)(x))
    tree_columns(ex, a, want, X, "first of two lifts")
    tree_columns(ex, jax.tree_util.tree_map(lambda o: o[:, ::-1], b), want, X, "second of two lifts")
    # nested
    k = 3
    f = lambda x: vmap_lift_with_state(lambda y: vmap_lift_with_state(fun)(y))(x)  # noqa
    got = to_np(unroll(f, rng=key)(x.reshape(T, k, N // k)))
    got = jax.tree_util.tree_map(lambda o: o.reshape((T, N) + o.shape[3:]), got)
    tree_columns(ex, got, want, X, "nested")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = to_np(unroll(lambda x: VMap(fun)(x), rng=key)(x))
    tree_columns(ex, got, want, X, "module")
    for rng in (jax.random.PRNGKey(3), key):
        got = to_np(unroll(lambda x: add_batch(fun, take_mean=False)(x), rng=rng)(x))
        tree_columns(ex, got, want, X, "add_batch")
        got = to_np(unroll(lambda x: add_batch(fun)(x), rng=rng)(x))
        mean = jax.tree_util.tree_map(lambda o: o.mean(axis=1), want)
        for i, (a, b) in enumerate(zip(*map(jax.tree_util.tree_leaves, (got, mean)))):
            ex.same_array(a, b, f"mean/{i}", rtol=1e-4, atol=1e-4)
    try:
        unroll(lambda x: vmap_lift_with_state(fun, split_rng=True, init_rng=False)(x), rng=key)(x)
        ok = False
    except ValueError:
        ok = True
    ex.check(ok, "split_rng without init_rng accepted")
    ex.explored_histories(X)
    ex.sample(program=name, T=T, batch=N)


def check_inputs(ex, T):
    """Several inputs, nested and keyword; batch of one element."""
    X = histories(A, T)
    Z = np.roll(X, 5, axis=1)

    def fun(a, *, z):
        return Recurrence(name="p")(a["u"] + z), Recurrence(name="q")(z * a["v"][0])

    def lifted(a, *, z):
        return vmap_lift_with_state(fun)(a, z=z)

    def args(c):
        return ({"u": jnp.asarray(X[:, c]), "v": [jnp.asarray(X[:, c][:, ::-1])]},), dict(
            z=jnp.asarray(Z[:, c])
        )

    every = slice(None)
    a, k = args(every)
    want = to_np(jax.vmap(lambda a, z: unroll(fun)(a, z=z), in_axes=1, out_axes=1)(a[0], k["z"]))
    got = to_np(unroll(lifted, rng=jax.random.PRNGKey(0))(*a, **k))
    tree_columns(ex, got, want, X, "inputs")
    # keyword arguments only, with and without a key for each element
    def named(*, y, z):
        return Recurrence(name="p")(y + z), Recurrence(name="q")(z)

    key = jax.random.PRNGKey(0)
    y, z = jnp.asarray(X), jnp.asarray(Z)
    want = to_np(
        jax.vmap(lambda y, z: unroll(named)(y=y, z=z), in_axes=1, out_axes=1)(y, z)
    )
    for split in (False, True):
        f = lambda *, y, z: vmap_lift_with_state(named, split_rng=split)(y=y, z=z)  # noqa
        tree_columns(ex, to_np(unroll(f, rng=key)(y=y, z=z)), want, X, f"named split={split}")
        f = lambda *, y, z: unroll_lift_with_state(named, split_rng=split)(y=y, z=z)  # noqa
        halves = (v[: T // 2 * 2].reshape(2, T // 2, -1) for v in (y, z))
        got = jax.vmap(lambda y, z: unroll(f, rng=key)(y=y, z=z), in_axes=2, out_axes=2)(*halves)
        got = jax.tree_util.tree_map(lambda o: o.reshape(T // 2 * 2, -1), to_np(got))
        short = jax.tree_util.tree_map(lambda o: o[: T // 2 * 2], want)
        tree_columns(ex, got, short, X[: T // 2 * 2], f"named unroll split={split}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = lambda *, y, z: VMap(named)(y=y, z=z)  # noqa
        tree_columns(ex, to_np(unroll(f, rng=key)(y=y, z=z)), want, X, "named module")
        # the key is only needed to initialise
        init, apply = hk.transform_with_state(f)
        p, s = init(key, y=y[0], z=z[0])
        outs = []
        for t in range(T):
            o, s = apply(p, s, None, y=y[t], z=z[t])
            outs.append(o)
        tree_columns(
            ex, jax.tree_util.tree_map(lambda *o: np.stack(o), *outs), want, X, "module without key"
        )
    f = lambda *, y, z: add_batch(named, take_mean=False)(y=y, z=z)  # noqa
    tree_columns(ex, to_np(unroll(f, rng=key)(y=y, z=z)), want, X, "named add_batch")
    a, k = args(slice(7, 8))
    got = to_np(unroll(lifted, rng=jax.random.PRNGKey(0))(*a, **k))
    w = to_np(jax.vmap(lambda a, z: unroll(fun)(a, z=z), in_axes=1, out_axes=1)(a[0], k["z"]))
    tree_columns(ex, got, w, X[:, 7:8], "batch of one")
    ex.explored_histories(X)


def check_random(ex, T, B):
    """With a key per element: elements and steps draw different numbers, reproducibly."""

    def fun(x):
        hk.get_state("s", [], init=lambda *_: jax.random.uniform(hk.next_rng_key()))
        s = hk.get_state("s")
        return Recurrence()(x), jax.random.uniform(hk.next_rng_key()), s

    x = jnp.asarray(np.resize(histories(A, T), (T, B)))
    for seed in range(4):
        runs = [
            to_np(
                unroll(
                    lambda x: vmap_lift_with_state(fun, split_rng=True)(x),
                    rng=jax.random.PRNGKey(seed),
                    dynamic=dyn,
                )(x)
            )
            for dyn in (True, True, False)
        ]
        for i, r in enumerate(runs[1:]):
            tree_columns(ex, r, runs[0], np.asarray(x), f"seed {seed}: run {i + 1} differs")
        out, u, s = runs[0]
        ex.equal(len(np.unique(u)), u.size, f"seed {seed}: distinct draws")
        ex.equal(len(np.unique(s[0])), B, f"seed {seed}: distinct random initial states")
        ex.check((s == s[:1]).all(), f"seed {seed}: initial states drawn once")
        ex.same_array(out, independent(lambda x: Recurrence()(x), x), f"seed {seed}: deterministic part")
        ex.explored(states=T * B, transitions=3 * T * B, traces=3 * B)


def check_unroll_lift(ex, name, T, pieces):
    """An unroll inside the function, called repeatedly: continues where it stopped."""
    fun = PROGRAMS[name]
    X = histories(A, T * pieces)
    N = X.shape[1]
    key = jax.random.PRNGKey(2)
    want = independent(fun, X)
    chunks = jnp.asarray(X.reshape(pieces, T, N))
    for init_rng, split in [(True, False), (False, False), (True, True)]:
        kw = dict(init_rng=init_rng, split_rng=split)
        case = f"init={init_rng},split={split}"

        def one(c):
            return unroll(
                lambda c: unroll_lift_with_state(fun, **kw)(c), rng=key if init_rng else None
            )(c)

        got = to_np(jax.vmap(one, in_axes=2, out_axes=2)(chunks))
        got = jax.tree_util.tree_map(lambda o: o.reshape((T * pieces, N) + o.shape[3:]), got)
        tree_columns(ex, got, want, X, case)
        if T > 1:

            def skipping(c):
                return unroll(
                    lambda c: unroll_lift_with_state(fun, skip_first=True, **kw)(c),
                    rng=key if init_rng else None,
                )(c)

            got = to_np(jax.vmap(skipping, in_axes=2, out_axes=2)(chunks))
            got = jax.tree_util.tree_map(
                lambda o: o.reshape(((T - 1) * pieces, N) + o.shape[3:]), got
            )
            pair = unroll_transform_with_state(fun)

            def ref(x):
                p, s = pair.init(None, x)
                keep = np.array([t for t in range(T * pieces) if t % T])
                return pair.apply(p, s, None, x[keep])[0]

            w = to_np(jax.vmap(ref, in_axes=1, out_axes=1)(jnp.asarray(X)))
            tree_columns(ex, got, w, X[: (T - 1) * pieces], f"{case},skip")
        ex.explored(transitions=X.size, traces=N)
    # twice in the same function
    f = lambda c: (unroll_lift_with_state(fun)(c), unroll_lift_with_state(fun)(-c))  # noqa
    a, b = to_np(jax.vmap(unroll(f, rng=key), in_axes=2, out_axes=2)(chunks))
    m = independent(fun, -X)
    for nm, r, w in [("first", a, want), ("second", b, m)]:
        r = jax.tree_util.tree_map(lambda o: o.reshape((T * pieces, N) + o.shape[3:]), r)
        tree_columns(ex, r, w, X, f"{nm} of two unrolls")
    # batch of unrolls / unroll of batches, inside one function
    x = jnp.asarray(X)
    f = lambda x: vmap_lift_with_state(lambda s: unroll_lift_with_state(fun)(s))(x)  # noqa
    for inner, axes in [("batch of unrolls", (1, 0))]:
        init, apply = hk.transform_with_state(f)
        p, s = init(key, x.T)
        out, s = apply(p, s, key, x.T)
        out = jax.tree_util.tree_map(lambda o: np.swapaxes(np.asarray(o), 0, 1), out)
        tree_columns(ex, out, want, X, inner)
    g = lambda x: unroll_lift_with_state(lambda y: vmap_lift_with_state(fun)(y))(x)  # noqa
    init, apply = hk.transform_with_state(g)
    p, s = init(key, x)
    out, s = apply(p, s, key, x)
    tree_columns(ex, to_np(out), want, X, "unroll of batches")
    ex.explored_histories(X)


def check_batch(ex, T, skip):
    """The two batch transforms: sequences in, sequences out, explicit state."""
    X = histories(A, T)

    def fun(x):
        u = jax.random.uniform(hk.next_rng_key(), x.shape)
        return {"r": Recurrence()(x), "o": (EWMA(com=1.0)(x), u)}

    tfun = hk.transform_with_state(fun)
    k0, k1, k2 = (jax.random.PRNGKey(s) for s in (0, 1, 2))
    xs = jnp.asarray(X)
    p, s = tfun.init(k0, xs[0])
    kept = to_np((p, s))

    def loop(state, key, xs):
        outs = []
        for t in range(1 if skip else 0, T):
            out, state = tfun.apply(p, state, key, xs[t])
            outs.append(out)
        return jax.tree_util.tree_map(lambda *o: np.stack(o), *outs), state

    def plain(x):
        return Recurrence()(x), EWMA(com=1.0)(x)

    # without a key
    tplain = hk.transform_with_state(plain)
    pp, ps = tplain.init(k0, xs[0])
    wp, wps = [], ps
    for t in range(1 if skip else 0, T):
        o, wps = tplain.apply(pp, wps, None, xs[t])
        wp.append(o)
    wp = jax.tree_util.tree_map(lambda *o: np.stack(o), *wp)
    for nm, batch in [
        ("compiled", transform_batch_with_state(tplain, skip_first=skip)),
        ("python", transform_batch_with_state_static(tplain, skip_first=skip, pbar=True)),
    ]:
        for first in (None, k0):
            params, state = batch.init(first, xs)
            out, st = batch.apply(params, state, None, xs)
            tree_columns(ex, to_np(out), wp, X[-len(wp[0]) :], f"{nm} without key")
            ex.check(st.rng_key is None, f"{nm}: a key which was not given")
            ex.same_tree(to_np(st.fun_state), to_np(wps), f"{nm} without key/state")
    w1, s1 = loop(s, k1, xs)
    w2, s2 = loop(s1, k2, xs[:, ::-1])
    for nm, make in [
        ("compiled", lambda: transform_batch_with_state(tfun, skip_first=skip)),
        ("python", lambda: transform_batch_with_state_static(tfun, skip_first=skip, pbar=False)),
    ]:
        batch = make()
        params, state = batch.init(k0, xs)
        out, st = batch.apply(params, state, k1, xs)
        tree_columns(ex, to_np(out), w1, X[-len(w1["r"]) :], f"{nm}/first batch")
        for i, (a, b) in enumerate(zip(*map(jax.tree_util.tree_leaves, (st.fun_state, s1)))):
            ex.same_array(a, b, f"{nm}/state/{i}")
        out, st = batch.apply(params, st, k2, xs[:, ::-1])
        tree_columns(ex, to_np(out), w2, X[-len(w1["r"]) :], f"{nm}/second batch")
        for i, (a, b) in enumerate(zip(*map(jax.tree_util.tree_leaves, (st.fun_state, s2)))):
            ex.same_array(a, b, f"{nm}/state 2/{i}")
        for i, (a, b) in enumerate(
            zip(*map(jax.tree_util.tree_leaves, ((state.fun_params, state.fun_state), kept)))
        ):
            ex.same_array(a, b, f"{nm}/state passed in modified/{i}")
        ex.explored(transitions=2 * X.size, traces=2 * X.shape[1])
    ex.explored_histories(X)


def tasks(tier):
    t = tier == "thorough"
    res = []
    for name in PROGRAMS:
        res.append(Task(f"vmap:{name}", check_vmap, dict(name=name, T=6 if t else 4)))
        for T, pieces in [(1, 3), (2, 2), (3, 1), (3, 2)] + ([(2, 3), (4, 1)] if t else []):
            res.append(
                Task(
                    f"unroll:{name},{T}x{pieces}",
                    check_unroll_lift,
                    dict(name=name, T=T, pieces=pieces),
                )
            )
    res.append(Task("inputs", check_inputs, dict(T=5 if t else 4)))
    res.append(Task("random", check_random, dict(T=8, B=27)))
    for skip in (False, True):
        res.append(Task(f"batch:skip={skip}", check_batch, dict(T=5 if t else 4, skip=skip)))
    return res
