"""U01: unrolling equals stepping.

The transition system is the function itself: init on the first step, then one application per
step.  All histories of the alphabet are run through every way of unrolling (compiled scan,
Python scan, loops kept for compatibility), with every option, and compared with the explicit
loop over Haiku's init/apply.
"""

import itertools
import warnings

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc import programs as P
from mc.core import Task, histories
from mc.haikutools import to_np
from wax import unroll as U

PROPERTY = "U01"
ASSUMPTIONS = ["Haiku's transform, init and apply are trusted", "jax.lax.scan is trusted"]

A = [1.0, -2.0, 0.5]
PROGRAMS = {
    "recurrence": P.recurrence,
    "averages": P.averages,
    "stateless": P.stateless,
    "nested": P.nested,
}


def inputs(name, T):
    X = jnp.asarray(histories(A, T))
    if name == "nested":
        return ({"a": X, "b": (X[:, ::-1],)},), {"z": jnp.flip(X, 0)}
    return (X,), {}


def at(tree, i):
    return jax.tree_util.tree_map(lambda x: x[i], tree)


def step_loop(tfun, args, kwargs, skip, params=None, state=None, keys=None):
    """The reference: explicit loop."""
    p0, s0 = tfun.init(jax.random.PRNGKey(0), *at(args, 0), **at(kwargs, 0))
    params = p0 if params is None else params
    state = s0 if state is None else state
    outs = []
    T = len(jax.tree_util.tree_leaves((args, kwargs))[0])
    for t in range(1 if skip else 0, T):
        out, state = tfun.apply(params, state, None, *at(args, t), **at(kwargs, t))
        outs.append(out)
    return jax.tree_util.tree_map(lambda *o: np.stack(o), *outs), to_np(state)


def same(ex, got, want, X, case, **kw):
    g, gt = jax.tree_util.tree_flatten(got)
    w, wt = jax.tree_util.tree_flatten(want)
    if not ex.check(gt == wt, f"{case}/structure", f"{gt} != {wt}", **kw):
        return
    for i, (a, b) in enumerate(zip(g, w)):
        a, b = np.asarray(a), np.asarray(b)
        ex.check(a.dtype == b.dtype, f"{case}/{i}/dtype", f"{a.dtype} {b.dtype}")
        if a.ndim >= 2 and a.shape[1] == X.shape[1] and a.shape[0] <= X.shape[0]:
            ex.same_columns(a, b, X[-a.shape[0] :], f"{case}/{i}", **kw)
        else:
            ex.same_array(a, b, f"{case}/{i}", **kw)


def check(ex, name, T, skip):
    fun = PROGRAMS[name]
    tfun = hk.transform_with_state(fun)
    args, kwargs = inputs(name, T)
    X = np.asarray(jax.tree_util.tree_leaves(args)[0])
    want, wstate = step_loop(tfun, args, kwargs, skip)
    p0, s0 = tfun.init(None, *at(args, 0), **at(kwargs, 0))
    p0, s0 = to_np(p0), to_np(s0)
    # other parameters and another state, reached after some steps
    params2 = jax.tree_util.tree_map(lambda v: v - 0.5, p0)
    _, state2 = step_loop(tfun, args, kwargs, False)
    key = jax.random.PRNGKey(3)
    n = 0
    for form, dynamic, pbar in itertools.product(
        ["callable", "transformed", "unrolled"], [True, False], [False, True]
    ):
        if dynamic and pbar and form != "callable":
            continue
        if form == "callable":
            f = fun
        elif form == "transformed":
            f = tfun
        else:
            f = U.unroll_transform_with_state(fun, skip_first=skip, dynamic=dynamic, pbar=pbar)
        opts = {} if form == "unrolled" else dict(skip_first=skip, dynamic=dynamic, pbar=pbar)
        for final, rng, given in itertools.product(
            [False, True], [None, key], [(0, 0), (1, 0), (0, 1), (1, 1)]
        ):
            if not (dynamic or (final and rng is None)):
                continue
            case = f"{form},dynamic={dynamic},pbar={pbar},final={final},rng={rng is not None},given={given}"
            kw = dict(opts)
            if given[0]:
                kw["params"] = params2
            if given[1]:
                kw["state"] = state2
            w, ws = (
                (want, wstate)
                if given == (0, 0)
                else step_loop(
                    tfun, args, kwargs, skip,
                    params2 if given[0] else None, state2 if given[1] else None,
                )
            )
            out = U.unroll(f, return_final_state=final, rng=rng, **kw)(*args, **kwargs)
            if final:
                if not ex.check(isinstance(out, tuple) and len(out) == 2, f"{case}/pair"):
                    continue
                out, st = out
                same(ex, st, ws, X, f"{case}/state")
            same(ex, out, w, X, case)
            ex.explored(transitions=X.size, traces=X.shape[1])
            n += 1
    # the pair of pure functions
    for dynamic in (True, False):
        pair = U.unroll_transform_with_state(fun, skip_first=skip, dynamic=dynamic)
        params, state = pair.init(key, *args, **kwargs)
        same(ex, params, p0, X, f"pair {dynamic}/params")
        same(ex, state, s0, X, f"pair {dynamic}/initial state")
        out, st = pair.apply(params, state, None, *args, **kwargs)
        same(ex, out, want, X, f"pair {dynamic}")
        same(ex, st, wstate, X, f"pair {dynamic}/state")
        same(ex, to_np(state), s0, X, f"pair {dynamic}/state not modified")
        out, st = pair.apply(params2, state2, key, *args, **kwargs)
        w, ws = step_loop(tfun, args, kwargs, skip, params2, state2)
        same(ex, out, w, X, f"pair {dynamic} from another state")
        same(ex, st, ws, X, f"pair {dynamic} from another state/state")
    # interfaces kept for compatibility
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for f, nm in [(U.dynamic_unroll, "dynamic_unroll"), (U.static_unroll, "static_unroll"),
                      (U.dynamic_unroll_fori_loop, "fori_loop")]:
            for g in [(0, 0), (1, 1)]:
                out, st = f(
                    tfun, params2 if g[0] else None, state2 if g[1] else None, key, skip,
                    *args, **kwargs,
                )
                w, ws = step_loop(tfun, args, kwargs, skip, params2 if g[0] else None, state2 if g[1] else None)
                same(ex, out, w, X, f"{nm},{g}")
                same(ex, st, ws, X, f"{nm},{g}/state")
        params, state = U.init_params_state(tfun, key, *args, **kwargs)
        same(ex, params, p0, X, "init_params_state/params")
        same(ex, state, s0, X, "init_params_state/state")
    ex.explored_histories(X)
    ex.sample(program=name, T=T, skip_first=skip, histories=X.shape[1], option_combinations=n)


def check_lengths(ex, skip):
    """Every length of sequence, one history each."""
    for T in range(2 if skip else 1, 9):
        x = jnp.asarray((np.arange(T) * 3 % 7 - 2.0).astype(np.float32))[:, None]
        tfun = hk.transform_with_state(P.recurrence)
        want, ws = step_loop(tfun, (x,), {}, skip)
        for dynamic in (True, False):
            out, st = U.unroll(
                P.recurrence, skip_first=skip, dynamic=dynamic, return_final_state=True
            )(x)
            ex.same_array(out, want, f"T={T},dynamic={dynamic}")
            same(ex, st, ws, x, f"T={T},dynamic={dynamic}/state")
            ex.explored(states=T + 1, transitions=T, traces=1)


def check_random(ex, T, skip):
    """Random programs: same seed same run, one key per step, static = dynamic."""
    X = jnp.asarray(histories(A, 4)[:, :8])
    X = jnp.concatenate([X] * (T // 4), axis=0)
    seen = {}
    for seed in range(4):
        key = jax.random.PRNGKey(seed)
        runs = {}
        for dynamic in (True, False):
            kw = dict(skip_first=skip, dynamic=dynamic, rng=key, return_final_state=True)
            runs[dynamic] = to_np(U.unroll(P.noisy, **kw)(X))
            runs[dynamic, "again"] = to_np(U.unroll(P.noisy, **kw)(X))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tf = hk.transform_with_state(P.noisy)
            runs["dynamic_unroll"] = to_np(U.dynamic_unroll(tf, None, None, key, skip, X))
            runs["static_unroll"] = to_np(U.static_unroll(tf, None, None, key, skip, X))
            runs["fori_loop"] = to_np(
                U.dynamic_unroll_fori_loop(tf, None, None, key, skip, X)
            )
        pair = U.unroll_transform_with_state(P.noisy, skip_first=skip)
        p, s = pair.init(key, X)
        runs["pair"] = to_np(pair.apply(p, s, key, X))
        ref = runs[True]
        for name, r in runs.items():
            same(ex, r, ref, np.asarray(X), f"seed {seed}: {name} differs from dynamic")
            # one key per step: no two steps draw the same numbers
            u = np.asarray(r[0][1])
            ex.check(
                len({row.tobytes() for row in u}) == len(u), f"seed {seed}: {name} reuses a key"
            )
            ex.explored(states=len(u) + 1, transitions=len(u), traces=1)
        (s_out, u, acc), _ = ref
        # the deterministic part is not affected by the random one
        want, _ = step_loop(hk.transform_with_state(P.recurrence), (X,), {}, skip)
        ex.same_array(s_out, want, f"seed {seed}: deterministic part")
        cum = np.concatenate([np.zeros((1,) + u.shape[1:]), np.cumsum(u, axis=0)[:-1]])
        ex.same_array(acc, cum, f"seed {seed}: random state", rtol=1e-4)
        for row in u:
            ex.check(row.tobytes() not in seen, f"seed {seed}: draws of seed {seen.get(row.tobytes())}")
            seen[row.tobytes()] = seed


def check_pure(ex, T, skip):
    """Pairs of functions written without Haiku: parameters and states of any kind, in
    particular ones which are zero or empty."""
    menu = {
        "zero": (lambda x: jnp.float32(5.0), jnp.float32(0.0), lambda p, s, x: s * 2 + x + p),
        "number": (lambda x: 7.0 * x, jnp.zeros(()), lambda p, s, x: s - p * x),
        "array": (lambda x: x + jnp.ones(1), jnp.zeros(1), lambda p, s, x: 2 * s + p * x),
        "flag": (lambda x: jnp.array(True), jnp.array(False), lambda p, s, x: s ^ (x > 0)),
        "tuple": (
            lambda x: (x, jnp.ones((2,))), (jnp.float32(0), jnp.zeros(2)),
            lambda p, s, x: (s[1].sum() + x, s[1] + s[0] * p),
        ),
        "list": (lambda x: [x, [x]], [jnp.float32(0), [jnp.float32(0)]],
                 lambda p, s, x: [s[1][0] + p, [s[0] + x]]),
        "nothing": (lambda x: (), (), lambda p, s, x: ()),
        "none": (lambda x: None, None, lambda p, s, x: None),
    }
    for name, (init, zero, step) in menu.items():
        p_init, p_given = jnp.float32(3.0), jnp.float32(0.0)

        def apply(p, s, rng, x, step=step):
            s = step(p, s, x)
            return {"p": p * x, "s": s}, s

        tfun = hk.TransformedWithState(lambda rng, x, i=init: (jnp.float32(3.0), i(x)), apply)
        for hist in itertools.product([1.0, -2.0], repeat=T):
            x = jnp.asarray(hist, jnp.float32)
            for gp, gs in itertools.product([False, True], repeat=2):
                p = p_given if gp else p_init
                s = zero if gs else init(x[0])
                outs = []
                for t in range(1 if skip else 0, T):
                    out, s = apply(p, s, None, x[t])
                    outs.append(out)
                want = jax.tree_util.tree_map(lambda *o: np.stack(o), *outs)
                case = f"{name} {hist} parameters={gp} state={gs}"
                kw = {**({"params": p_given} if gp else {}), **({"state": zero} if gs else {})}
                runs = {
                    f"dynamic={d}": U.unroll(
                        tfun, skip_first=skip, dynamic=d, return_final_state=True, **kw
                    )(x)
                    for d in (True, False)
                }
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for f in (U.dynamic_unroll, U.static_unroll, U.dynamic_unroll_fori_loop):
                        runs[f.__name__] = f(
                            tfun, kw.get("params"), kw.get("state"), None, skip, x
                        )
                for way, (o, st) in runs.items():
                    same(ex, o, want, np.asarray(x)[:, None], f"{case} {way}")
                    same(ex, to_np(st), to_np(s), np.asarray(x)[:, None], f"{case} {way}/state")
                ex.explored(states=T, transitions=5 * T, traces=5)


def check_scan(ex, T):
    """Python scan against lax.scan, iteration over the first axis."""
    X = jnp.asarray(histories([1.0, -2.0], T))

    def f(c, x):
        c = 2 * c + (0.0 if x is None else x["v"])
        return c, {"c": c, "t": (c - 1, c > 0)}

    c0 = jnp.zeros(X.shape[1])
    for pbar in (False, True):
        got = U.static_scan(f, c0, {"v": X}, pbar=pbar)
        same(ex, got, jax.lax.scan(f, c0, {"v": X}), np.asarray(X), f"scan pbar={pbar}")
    steps = list(U.iter_first_axis({"v": X, "w": (X + 1,)}))
    ex.equal(len(steps), T, "number of steps")
    for t, s in enumerate(steps):
        ex.same_array(s["v"], X[t], f"step {t}/v")
        ex.same_array(s["w"][0], X[t] + 1, f"step {t}/w")
    ex.explored_histories(np.asarray(X))


def check_generators(ex, T):
    """Unrolling over generators of (observation, info) pairs."""
    X = histories(A, T)
    obs = [({"a": X[t]}, {"info": t}) for t in range(T)]
    xs = U.data_unroll(iter(obs), pbar=False)
    ex.same_columns(xs["a"], X, X, "data_unroll")
    for form in (lambda x: x, lambda x: (x,), lambda x: [x, (x + 1,)], lambda x: {"b": {"a": x}},
                 lambda x: (x, None)):
        for n, pbar in itertools.product(range(1, 4), [False, True]):
            got = U.data_unroll(iter([(form(X[t]), {}) for t in range(n)]), pbar=pbar)
            same(ex, got, form(X[:n]), X, f"data_unroll {n} {pbar}")

    def fun(x):
        return P.recurrence(x["a"])

    tfun = hk.transform_with_state(fun)
    p0, s0 = tfun.init(None, obs[0][0])
    for skip, given, pbar in itertools.product([False, True], [False, True], [False, True]):
        want, ws = step_loop(
            tfun, ({"a": jnp.asarray(X)},), {}, skip,
            state=jax.tree_util.tree_map(lambda v: v + 1, s0) if given else None,
        )
        seq = hk.PRNGSequence(1)
        out, st = U.gym_static_unroll(
            tfun,
            p0 if given else None,
            jax.tree_util.tree_map(lambda v: v + 1, s0) if given else None,
            seq, skip, iter(obs), pbar=pbar,
        )
        case = f"generator skip={skip},given={given},pbar={pbar}"
        same(ex, out, want, X, case)
        same(ex, st, ws, X, f"{case}/state")
        ex.explored(transitions=X.size, traces=X.shape[1])
    ex.explored_histories(X)


def tasks(tier):
    t = tier == "thorough"
    res = []
    for name in PROGRAMS:
        for skip in (False, True):
            for T in ((2, 5, 7) if t else (2, 4)):
                res.append(Task(f"{name}:T={T},skip={skip}", check, dict(name=name, T=T, skip=skip)))
    for skip in (False, True):
        res.append(Task(f"lengths:skip={skip}", check_lengths, dict(skip=skip)))
        res.append(Task(f"random:skip={skip}", check_random, dict(T=16 if t else 8, skip=skip)))
    for skip in (False, True):
        for T in (2, 3) if t else (2,):
            res.append(Task(f"pure:T={T},skip={skip}", check_pure, dict(T=T, skip=skip)))
    res.append(Task("scan", check_scan, dict(T=8 if t else 6)))
    res.append(Task("generators", check_generators, dict(T=5 if t else 4)))
    return res
