"""F01: Flax transforms and unroll: the pure form of a stateful module, step by step.

All sequences up to the bound, for a menu of programs (parameters, several state collections,
random numbers, nested inputs and outputs), all options of the unroll and all the ways of giving
the module, compared with the recursion of each program written by hand.  All the ways of cutting
a sequence in consecutive pieces are enumerated (the state is carried from piece to piece).
"""

import itertools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict, freeze, unfreeze

from mc.core import Task, histories
from mc.haikutools import to_np
from wax.flax.core.state_utils import (
    apply_with_state,
    create_streaming_module_wrapper,
    make_streaming_compatible,
)
from wax.flax.core.transform import (
    combine_variables,
    flax_transform_with_state,
    split_variables,
)
from wax.flax.core.unroll import (
    create_flax_module_factory,
    flax_unroll,
    flax_unroll_transform,
)

PROPERTY = "F01"
ASSUMPTIONS = ["values outside the alphabet behave as the ones in it", "flax.linen is trusted"]
KEY = jax.random.PRNGKey(5)


class Leaky(nn.Module):
    """m <- 0.5 m + w x ; output (m, number of calls)."""

    gain: float = 1.0

    @nn.compact
    def __call__(self, x):
        w = self.param("w", nn.initializers.normal(1.0), ())
        m = self.variable("state", "m", lambda: jnp.zeros(x.shape))
        n = self.variable("cache", "n", lambda: jnp.zeros((), jnp.int32))
        m.value = 0.5 * m.value + self.gain * w * x
        n.value = n.value + 1
        return {"m": m.value, "n": n.value}


class Pair(nn.Module):
    """Nested inputs, positional and by keyword: running sums, in a submodule each."""

    @nn.compact
    def __call__(self, x, other=None):
        a = Sum(name="a")(x["u"])
        b = Sum(name="b")(x["v"][0] if other is None else other)
        return a, (b, x["u"])


class Sum(nn.Module):
    @nn.compact
    def __call__(self, x):
        s = self.variable("state", "s", lambda: jnp.zeros(x.shape))
        s.value = s.value + x
        return s.value


class Pure(nn.Module):
    def __call__(self, x):
        return 2 * x + 1


class Noise(nn.Module):
    @nn.compact
    def __call__(self, x):
        s = self.variable("state", "s", lambda: jnp.zeros(x.shape))
        s.value = s.value + x
        return s.value, jax.random.normal(self.make_rng("default"))


def leaky_model(X, w, m=0.0, n=0, gain=1.0):
    ms, ns = [], []
    m = np.zeros(X.shape[1:]) + m
    for x in X:
        m = 0.5 * m + gain * w * x
        n += 1
        ms.append(m)
        ns.append(n)
    return {"m": np.array(ms), "n": np.array(ns)}


def cuts_of(T):
    return itertools.chain.from_iterable(
        itertools.combinations(range(1, T), r) for r in range(T)
    )


def check_steps(ex, T):
    """init / apply of the transform, one step at a time."""
    X = histories([1.0, -2.0, 0.5], T)
    for make, gain in [
        (lambda: flax_transform_with_state(Leaky()), 1.0),
        (lambda: flax_transform_with_state(lambda: Leaky(gain=3.0)), 3.0),
        (lambda: create_streaming_module_wrapper(Leaky)(gain=2.0), 2.0),
        (lambda: make_streaming_compatible(Leaky(gain=3.0)), 3.0),
        (lambda: flax_transform_with_state(create_flax_module_factory(Leaky, gain=0.5)), 0.5),
        (lambda: make_streaming_compatible(Leaky()), 1.0),
    ]:
        f = make()
        params, state = f.init(KEY, jnp.asarray(X[0]))
        ex.check("params" not in state, "parameters in the state")
        ex.equal(sorted(state), ["cache", "state"], "collections of the state")
        w = float(jax.tree_util.tree_leaves(params)[0])
        ex.check(len(jax.tree_util.tree_leaves(params)) == 1, "parameters")
        want = leaky_model(np.concatenate([X[:1], X]), w, gain=gain)
        for rng in (None, KEY):
            st = state
            for t in range(T):
                before = to_np(unfreeze(st))
                out, new = f.apply(params, st, rng, jnp.asarray(X[t]))
                again, new2 = f.apply(params, st, rng, jnp.asarray(X[t]))
                ex.same_tree(to_np(unfreeze(st)), before, f"state given at step {t} was modified")
                ex.same_tree(to_np(again), to_np(out), f"second call at step {t}")
                ex.same_tree(to_np(unfreeze(new2)), to_np(unfreeze(new)), f"second state at step {t}")
                ex.same_tree(
                    to_np(out), {"m": want["m"][t + 1], "n": want["n"][t + 1]}, f"gain={gain}/step {t}", rtol=1e-4, atol=1e-5
                )
                st = new
            leaves = {k: np.asarray(jax.tree_util.tree_leaves(v)[0]) for k, v in st.items()}
            ex.same_array(leaves["state"], want["m"][-1], "last state", rtol=1e-4, atol=1e-5)
            ex.same_array(leaves["cache"], want["n"][-1], "last count")
        # other parameters
        p2 = jax.tree_util.tree_map(lambda v: v * 0 + 0.75, params)
        out, _ = f.apply(p2, state, None, jnp.asarray(X[0]))
        ex.same_array(out["m"], 0.5 * want["m"][0] + gain * 0.75 * X[0], "other parameters", rtol=1e-4, atol=1e-5)
        ex.explored_histories(X, 2)


def check_variables(ex):
    """combine_variables and split_variables are inverse of each other."""
    names = ["params", "state", "cache", "opt"]
    for k in range(len(names) + 1):
        for cols in itertools.combinations(names, k):
            v = {c: {"x": jnp.full((2,), float(i)), "y": {"z": jnp.ones(())}} for i, c in enumerate(cols)}
            for wrap in (freeze, dict):
                params, state = split_variables(wrap(v))
                ex.equal(sorted(state), sorted(set(cols) - {"params"}), "collections of the state")
                ex.same_tree(unfreeze(params), v.get("params", {}), "parameters")
                back = combine_variables(params, state)
                ex.same_tree(
                    to_np(unfreeze(back)), to_np({"params": v.get("params", {}), **v}), f"combined {cols}"
                )
                ex.explored(1, 1, 1)


def check_apply_with_state(ex, T):
    X = histories([1.0, -2.0, 0.5], T)
    m = Leaky()
    v = m.init(KEY, jnp.asarray(X[0]))
    params = v["params"]
    w = float(params["w"])
    want = leaky_model(np.concatenate([X[:1], X]), w)
    for t in range(T):
        before = to_np(unfreeze(v))
        out, new = apply_with_state(m, v, jnp.asarray(X[t]))
        ex.same_tree(to_np(unfreeze(v)), before, "variables given were modified")
        ex.same_tree(to_np(out), {"m": want["m"][t + 1], "n": want["n"][t + 1]}, f"step {t}", rtol=1e-4, atol=1e-5)
        v = {"params": params, **new}
    out, v2 = apply_with_state(Pure(), {}, jnp.asarray(X))
    ex.same_array(out, 2 * X + 1, "stateless")
    ex.equal(dict(v2), {}, "variables of a stateless module")
    ex.explored_histories(X)


def forms(module):
    yield "module", module
    yield "factory", lambda: module
    yield "transformed", flax_transform_with_state(module)


def check_unroll(ex, T, dynamic, skip_first, jit):
    X = histories([1.0, -2.0, 0.5], T)
    J = jnp.asarray(X)
    opts = dict(dynamic=dynamic, skip_first=skip_first)
    run = (lambda f, *a, **k: jax.jit(f)(*a, **k)) if jit else (lambda f, *a, **k: f(*a, **k))
    S = X[1:] if skip_first else X
    # parameters and state from the initialisation on the first step, or given
    ref = Leaky().init(KEY, J[0])
    w0 = float(ref["params"]["w"])
    given_p = {"w": jnp.float32(0.75)}
    given_s = FrozenDict({"state": {"m": jnp.full(X.shape[1:], 4.0)}, "cache": {"n": jnp.int32(7)}})
    for (name, form), p, s in itertools.product(forms(Leaky()), (None, given_p), (None, given_s)):
        w = w0 if p is None else 0.75
        if s is None:  # after one step on the first value with the parameters of the initialisation
            m, n = w0 * X[0].astype(np.float64), 1
        else:
            m, n = 4.0, 7
        want = leaky_model(S, w, m, n)
        for rng in (KEY,) if p is None or s is None else (None, KEY):
            f = flax_unroll(form, rng=rng, params=p, state=s, return_final_state=True, **opts)
            out, final = run(f, J)
            case = f"{name}/params={p is not None},state={s is not None},rng={rng is not None}"
            ex.same_tree(to_np(out), want, case, rtol=1e-4, atol=1e-5)
            fin = {k: np.asarray(jax.tree_util.tree_leaves(v)[0]) for k, v in final.items()}
            ex.same_array(fin["state"], want["m"][-1] if len(S) else m + 0 * X[0], f"{case}/final state", rtol=1e-4, atol=1e-5)
            ex.same_array(fin["cache"], n + len(S), f"{case}/final count")
            out2 = run(flax_unroll(form, rng=rng, params=p, state=s, **opts), J)
            ex.same_tree(to_np(out2), to_np(out), f"{case}/without final state")
            ex.explored_histories(X, 2)
    # nested inputs, positional and by keyword
    Y = X[::-1].copy()
    tree = {"u": J, "v": (jnp.asarray(Y),)}
    Z = (X * 3).astype(np.float32)
    cum = lambda a: (np.cumsum(a[1:] if skip_first else a, 0) + a[0])  # noqa  (the first one is seen at init)
    for other in (None, Z):
        f = flax_unroll(Pair(), rng=KEY, **opts)
        out = run(f, tree) if other is None else run(f, tree, other=jnp.asarray(Z))
        ex.same_tree(
            to_np(out), (cum(X), (cum(Y if other is None else Z), S)), f"nested,keyword={other is not None}", rtol=1e-4, atol=1e-5
        )
        ex.explored_histories(X)
    out = run(flax_unroll(Pure(), rng=KEY, **opts), J)
    ex.same_array(out, 2 * S + 1, "stateless")
    ut = flax_unroll_transform(Leaky(), **opts)
    params, state = ut.init(KEY, J)
    ex.same_tree(to_np(unfreeze(params)), to_np(ref["params"]), "parameters of the transform")
    ex.same_tree(to_np(unfreeze(state)), {k: to_np(v) for k, v in ref.items() if k != "params"}, "state of the transform")
    out, final = run(lambda *a: ut.apply(*a), params, state, None, J)
    want = leaky_model(S, w0, w0 * X[0].astype(np.float64), 1)
    ex.same_tree(to_np(out), want, "transform", rtol=1e-4, atol=1e-5)
    out = run(flax_unroll(ut, rng=KEY), J)
    ex.same_tree(to_np(out), want, "unroll of the transform", rtol=1e-4, atol=1e-5)
    ex.explored_histories(X, 2)
    ex.sample(history=X[:, -1], out=want["m"][:, -1])


def check_resume(ex, T, dynamic):
    """Every cut of a sequence in consecutive pieces."""
    X = histories([1.0, -2.0], T)
    params = {"w": jnp.float32(-0.5)}
    state0 = FrozenDict({"state": {"m": jnp.full(X.shape[1:], 2.0)}, "cache": {"n": jnp.int32(0)}})
    want = leaky_model(X, -0.5, 2.0, 0)
    ut = flax_unroll_transform(Leaky(), dynamic=dynamic)
    for cuts in cuts_of(T):
        st, parts = state0, []
        for a, b in zip((0,) + cuts, cuts + (T,)):
            kept = to_np(unfreeze(st))
            before = st
            if len(cuts) % 2:
                out, st = flax_unroll(Leaky(), dynamic=dynamic, params=params, state=st, return_final_state=True)(
                    jnp.asarray(X[a:b])
                )
            else:
                out, st = ut.apply(params, st, None, jnp.asarray(X[a:b]))
            ex.same_tree(to_np(unfreeze(before)), kept, f"state given at {a} modified")
            parts.append(to_np(out))
        got = jax.tree_util.tree_map(lambda *p: np.concatenate(p), *parts)
        ex.same_tree(got, want, f"cut at {cuts}", rtol=1e-4, atol=1e-5)
        ex.explored_histories(X)


def check_random(ex, T):
    """Random modules: same key, same numbers, whatever the way of unrolling; a new number at
    each step; a prefix of the sequence gives a prefix of the outputs."""
    x = jnp.arange(1.0, T + 1)
    for seed in range(4):
        key = jax.random.PRNGKey(seed)
        noise = []
        for dynamic, jit, pbar in [(True, False, False), (True, True, False), (False, False, False), (False, False, True)]:
            f = flax_unroll(Noise(), dynamic=dynamic, rng=key, pbar=pbar)
            s, e = (jax.jit(f) if jit else f)(x)
            ex.same_array(s, np.cumsum(np.asarray(x)) + 1, "sums")
            noise.append(np.asarray(e))
        for e in noise[1:]:
            ex.same_array(e, noise[0], "the ways of unrolling", seed=seed)
        ex.check(len(np.unique(noise[0])) == T, "a random number is used at two steps", noise[0])
        for k in range(1, T):
            _, e = flax_unroll(Noise(), rng=key)(x[:k])
            ex.same_array(e, noise[0][:k], f"prefix of length {k}")
        ut = flax_unroll_transform(Noise())
        p, s = ut.init(key, x)
        _, other = ut.apply(p, s, jax.random.PRNGKey(seed + 100), x)[0]
        ex.check(not np.allclose(other, noise[0]), "the key given to apply has no influence")
        ex.explored(T + 1, 5 * T, 5 + T)


def tasks(tier):
    th = tier == "thorough"
    res = [
        Task("steps", check_steps, dict(T=6 if th else 4)),
        Task("variables", check_variables),
        Task("apply_with_state", check_apply_with_state, dict(T=8 if th else 6)),
    ]
    for T in range(1, 8 if th else 5):
        for dynamic, skip, jit in itertools.product((True, False), (True, False), (True, False)):
            if skip and T == 1:
                continue  # nothing left to unroll
            if jit and not dynamic and not th:
                continue
            res.append(
                Task(f"unroll:T={T},dynamic={dynamic},skip={skip},jit={jit}", check_unroll, dict(T=T, dynamic=dynamic, skip_first=skip, jit=jit))
            )
    for dynamic in (True, False):
        res.append(Task(f"resume:{dynamic}", check_resume, dict(T=6 if th else 4, dynamic=dynamic)))
    for T in (2, 5, 9) if not th else range(2, 12):
        res.append(Task(f"random:{T}", check_random, dict(T=T)))
    return res
