"""F05: streaming transforms: scan, events, resets and streaming optimisation.

All sequences up to the bound; the real transforms against the recursions written by hand:
outputs held between events, states reset after the elements which ask for it, optimisation of
the scale one step at a time.  All cuts of a sequence into scans, and step-by-step application,
must agree with the scan of the whole sequence.
"""

import itertools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict, unfreeze

from mc.checks.f01 import cuts_of
from mc.core import Task, histories
from mc.haikutools import to_np
from mc.models import ewma_model
from wax.flax.core.streaming_transforms import (
    ConditionalComputation,
    StreamingScan,
    streaming_optimizer,
    streaming_scan,
    streaming_transform_with_state,
    update_on_event,
)
from wax.flax.modules import EWMA, Buffer, Counter

PROPERTY = "F05"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them", "flax.linen and optax are trusted"]
KEY = jax.random.PRNGKey(3)


class Sum(nn.Module):
    @nn.compact
    def __call__(self, x):
        s = self.variable("state", "s", lambda: jnp.zeros(x.shape))
        s.value = s.value + x
        return s.value


def program(x):
    """Sums, last two values, number of calls: everything a reset can forget."""
    return {"s": Sum()(x), "b": Buffer(maxlen=2, fill_value=0.0)(x), "n": Counter()()}


def model(X, reset=None, first=True):
    """Outputs of the program on X (T, N), from the state after one step on the first value (or
    from nothing); after an element where reset is true the state is again the initial one."""
    T, N = X.shape
    s0 = X[0].astype(np.float64) if first else np.zeros(N)
    init = (s0, np.stack([np.zeros(N), s0]), np.full(N, int(first)))
    s, b, n = init
    out = {"s": [], "b": [], "n": []}
    for t in range(T):
        s, b, n = s + X[t], np.stack([b[1], X[t]]), n + 1
        out["s"].append(s)
        out["b"].append(b)
        out["n"].append(n)
        if reset is not None:
            r = reset[t]
            s, b, n = (np.where(r, i, v) for i, v in zip(init, (s, b, n)))
    return {k: np.array(v) for k, v in out.items()}, (s, b, n)


def compare(ex, got, want, X, case):
    got = to_np(got)
    ex.same_columns(got["s"], want["s"], X, f"{case}/sum")
    b = np.moveaxis(want["b"], 1, 2)
    g = got["b"]
    ex.same_columns(np.moveaxis(g, 1, 2) if g.shape != b.shape or g.shape[1] == 2 != b.shape[1] else g, b, X, f"{case}/window")
    n = want["n"]
    ex.same_columns(np.broadcast_to(got["n"] if got["n"].ndim > 1 else got["n"][:, None], n.shape), n, X, f"{case}/calls")


def batch(f):
    """Each history on its own."""
    return jax.jit(jax.vmap(f, in_axes=1, out_axes=1))


def check_scan(ex, T):
    X = histories([1.0, -2.0, 3.0], T)
    J = jnp.asarray(X)
    f = streaming_transform_with_state(program)
    want, _ = model(X)

    def whole(x):
        p, s = f.init(KEY, x[0])
        return f.scan(p, s, None, x)[0]

    compare(ex, batch(whole)(J), want, X, "scan")

    def steps(x):
        p, s = f.init(KEY, x[0])
        out = []
        for t in range(T):
            o, s = f.apply(p, s, None, x[t])
            out.append(o)
        return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *out)

    compare(ex, batch(steps)(J), want, X, "steps")
    for cuts in cuts_of(T):

        def pieces(x):
            p, s = f.init(KEY, x[0])
            out = []
            for a, b in zip((0,) + cuts, cuts + (T,)):
                o, s = f.scan(p, s, None, x[a:b])
                out.append(o)
            return jax.tree_util.tree_map(lambda *a: jnp.concatenate(a), *out)

        compare(ex, batch(pieces)(J), want, X, f"scans cut at {cuts}")
        ex.explored_histories(X)
    ex.explored_histories(X, 2)
    # random keys: one for each element
    g = streaming_transform_with_state(lambda x: NoiseModule()(x))
    x = jnp.arange(float(T))
    p, s = g.init(KEY, x[0])
    e, _ = g.scan(p, s, KEY, x)
    e2, _ = g.scan(p, s, KEY, x[: T - 1])
    ex.check(len(np.unique(np.asarray(e))) == T, "a random number is used twice", np.asarray(e))
    ex.same_array(e2, np.asarray(e)[: T - 1], "random numbers of a prefix")
    ex.sample(history=X[:, 5], out={k: v[:, ..., 5] for k, v in want.items()})


class NoiseModule(nn.Module):
    @nn.compact
    def __call__(self, x):
        return jax.random.normal(self.make_rng("default"))


RESETS = {
    "negative": (lambda x: x < 0, lambda X: X < 0),
    "large": (lambda x: x >= 3, lambda X: X >= 3),
    "always": (lambda x: x == x, lambda X: X == X),
    "never": (lambda x: x > 9, lambda X: X > 9),
    "both": (lambda x: jnp.logical_or(x < 0, x > 2), lambda X: (X < 0) | (X > 2)),
}


def check_reset(ex, T, name):
    X = histories([1.0, -2.0, 3.0], T)
    J = jnp.asarray(X)
    fun, mfun = RESETS[name]
    f = streaming_scan(program, reset_on=fun)
    want, last = model(X, mfun(X))
    compare(ex, batch(lambda x: f.scan_apply(x)[0])(J), want, X, "scan")
    # last state
    final = jax.jit(jax.vmap(lambda x: f.scan_apply(x)[1], in_axes=1))(J)
    leaves = {}
    for k, v in jax.tree_util.tree_flatten_with_path(unfreeze(final))[0]:
        leaves[jax.tree_util.keystr(k).split("'")[-2]] = np.asarray(v)
    ex.same_array(leaves["s"], last[0], "last sum")
    ex.same_array(leaves["count"], last[2], "last count")
    # decorator with options; parameters, state and key given
    g = streaming_scan(reset_on=fun)(program)
    zero = FrozenDict(
        {"state": {
            "Sum_0": {"s": jnp.zeros(())},
            "Buffer_0": {"buffer": jnp.zeros(2), "len_buffer": jnp.int32(0), "write_idx": jnp.int32(0)},
            "Counter_0": {"count": jnp.uint32(0)},
        }}
    )
    want0, _ = model(X, mfun(X), first=False)
    for p, rng in itertools.product((None, FrozenDict()), (None, KEY)):
        got = batch(lambda x: g.scan_apply(x, params=p, state=zero, rng=rng)[0])(J)
        compare(ex, got, want0, X, f"state given,params={p is not None},rng={rng is not None}")
        got = batch(lambda x: g.scan_apply(x, params=p, rng=rng)[0])(J)
        compare(ex, got, want, X, f"params={p is not None},rng={rng is not None}")
    ex.explored_histories(X, 9)
    # the first step of the functional interface
    p, s = g.init(KEY, J[0, 0])
    o, _ = g.apply(p, s, None, J[0, 0])
    ex.same_array(o["s"], 2 * X[0, 0], "apply")
    ex.sample(reset=name, history=X[:, 5], s=want["s"][:, 5])


def check_params_given(ex, T):
    """The parameters given are the ones used, with or without a state."""
    X = histories([1.0, -2.0, 3.0], T)
    f = streaming_scan(lambda x: EWMA(com=1.0)(x))
    for com in (0.5, 4.0):
        p = FrozenDict({"EWMA_0": {"logcom": jnp.float32(np.log(com))}})
        state = FrozenDict(
            {"state": {"EWMA_0": {"mean": jnp.full((), jnp.nan), "old_wt": jnp.ones(()), "nobs": jnp.int32(0)}}}
        )
        got = to_np(batch(lambda x: f.scan_apply(x, params=p, state=state)[0])(jnp.asarray(X)))
        ex.same_columns(got, ewma_model(X, com=com)[0], X, f"params and state, com={com}", rtol=1e-4, atol=1e-5)
        got = to_np(batch(lambda x: f.scan_apply(x, params=p)[0])(jnp.asarray(X)))
        want = ewma_model(np.concatenate([X[:1], X]), com=com)[0]
        # the state after one step has the weight one whatever the decay
        ex.same_columns(got, want[1:], X, f"params, com={com}", rtol=1e-4, atol=1e-5)
        ex.explored_histories(X, 2)


EVENTS = {
    "none": (None, lambda X: np.ones(X.shape, bool)),
    "positive": (lambda x: x > 0, lambda X: X > 0),
    "never": (lambda x: x > 9, lambda X: X > 9),
    "large": (lambda x: x >= 3, lambda X: X >= 3),
    "observed": (lambda x: ~jnp.isnan(x), lambda X: ~np.isnan(X)),
    "not positive": (lambda x: ~(x > 0), lambda X: ~(X > 0)),
    "missing": (lambda x: jnp.isnan(x), lambda X: np.isnan(X)),
}


def check_event(ex, T, name, initial, direct):
    """Output of the latest event (the initial value before), inner states always updated."""
    X = histories([1.0, -2.0, 3.0, np.nan], T)
    fun, mfun = EVENTS[name]
    kw = {} if initial is None else dict(initial_output_value=initial)

    def update(x):
        y = jnp.nan_to_num(x)
        return {"s": Sum()(y), "w": (Buffer(maxlen=2, fill_value=0.0)(y),), "n": Counter()().astype(jnp.float32), "x": x}

    if direct:

        class M(nn.Module):
            @nn.compact
            def __call__(self, x):
                return ConditionalComputation(update_fn=update, event_fn=fun, **kw)(x)

        f = streaming_transform_with_state(lambda x: M()(x))
    else:
        f = streaming_transform_with_state(update_on_event(fun, **kw)(update))

    def run(x):
        p, s = f.init(KEY, x[0])
        return f.scan(p, s, None, x)[0]

    got = to_np(batch(run)(jnp.asarray(X)))
    X2 = np.concatenate([X[:1], X])
    Y = np.nan_to_num(X2).astype(np.float64)
    E = mfun(X2)
    init = np.nan if initial is None else initial
    s = np.cumsum(Y, 0)
    w = np.stack([np.concatenate([np.zeros((1,) + Y.shape[1:]), Y[:-1]]), Y], -1)
    n = np.broadcast_to(np.arange(1, T + 2)[:, None], Y.shape)
    held = {"s": np.full(Y.shape[1:], init), "w": np.full(Y.shape[1:] + (2,), init), "n": np.full(Y.shape[1:], init), "x": np.full(Y.shape[1:], init)}
    want = {k: [] for k in held}
    for t in range(T + 1):
        for k, v in (("s", s), ("w", w), ("n", n), ("x", X2)):
            e = E[t][:, None] if k == "w" else E[t]
            held[k] = np.where(e, v[t], held[k])
            want[k].append(held[k])
    want = {k: np.array(v)[1:] for k, v in want.items()}
    ex.same_columns(got["s"], want["s"], X, "sum")
    ex.same_columns(got["n"], want["n"], X, "calls")
    ex.same_columns(got["x"], want["x"], X, "input")
    ex.same_columns(got["w"][0], want["w"], X, "window")
    ex.explored_histories(X)
    ex.sample(event=name, history=X[:, 50], s=want["s"][:, 50])


def check_streaming_scan_module(ex, T):
    """StreamingScan maps the function over the sequence and gives back the initial state."""
    X = histories([1.0, -2.0, 3.0], T)
    states = {"none": None, "number": 1.5, "nested": {"a": np.arange(3.0, dtype=np.float32), "b": (np.float32(2.0),)}}
    for (reset, keep), (name, s) in itertools.product(
        [(None, True), (RESETS["negative"][0], True), (RESETS["negative"][0], False)], states.items()
    ):
        m = StreamingScan(fn=lambda v: {"y": v * 2, "z": (v + 1,)}, reset_fn=reset, preserve_state=keep)
        out, final = to_np(jax.vmap(lambda x: m.apply({}, x, s) if s is not None else m.apply({}, x), in_axes=1, out_axes=(1, None))(jnp.asarray(X)) if reset is None or not keep else _each(m, X, s))
        ex.same_columns(out["y"], X * 2, X, f"{name}/y")
        ex.same_columns(out["z"][0], X + 1, X, f"{name}/z")
        ex.same_tree(final, 0 if s is None else s, f"{name}/final state")
        ex.explored_histories(X)


def _each(m, X, s):
    out = jax.vmap(lambda x: (m.apply({}, x, s) if s is not None else m.apply({}, x))[0], in_axes=1, out_axes=1)(jnp.asarray(X))
    x = jnp.asarray(X[:, 1])
    return out, (m.apply({}, x, s) if s is not None else m.apply({}, x))[1]


def check_optimizer(ex, T, lr, aux, kind):
    """scale <- scale - lr d loss / d scale, the loss being the one before the step."""
    A = list(itertools.product([1.0, -2.0], [0.5, 3.0]))
    idx = histories(np.arange(len(A)), T, np.int64)
    S = np.array(A, np.float32)[idx]
    X, Y = S[..., 0], S[..., 1]
    opt = optax.sgd(lr) if kind == "sgd" else optax.sgd(lr, momentum=0.5)

    def learner(x, y):
        p = Sum()(x)
        return (p, {"x": x, "n": Counter()()}) if aux else p

    f = streaming_optimizer(opt, lambda p, y: jnp.mean((p - y) ** 2), has_aux=aux)(learner)

    def run(x, y):
        p, s = f.init(KEY, x[0], y[0])
        out = []
        for t in range(T):
            o, s = f.apply(p, s, None, x[t], y[t])
            out.append(o)
        return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *out)

    got = to_np(batch(run)(jnp.asarray(X), jnp.asarray(Y)))
    scale, v, c = np.ones(X.shape[1]), np.zeros(X.shape[1]), np.zeros(X.shape[1])
    losses, preds = [], []
    for t in range(-1, T):
        x, y = X[max(t, 0)].astype(np.float64), Y[max(t, 0)]
        c = c + x
        r = scale * c - y
        losses.append(r**2)
        preds.append(c)
        v = 2 * r * c + (0.5 * v if kind == "momentum" else 0.0)
        scale = scale - lr * v
    ex.same_columns(got[0], np.array(losses)[1:], S, "loss", rtol=1e-3, atol=1e-3)
    ex.same_columns(got[1], np.array(preds)[1:], S, "prediction")
    if aux:
        ex.same_columns(got[2]["x"], X, S, "auxiliary output")
        ex.same_columns(got[2]["n"], np.broadcast_to(np.arange(2, T + 2)[:, None], X.shape), S, "auxiliary count")
    ex.check(len(got) == 2 + aux, "number of outputs", len(got))
    ex.explored_histories(S)
    ex.sample(history=S[:, 3], loss=np.array(losses)[1:, 3])


def tasks(tier):
    th = tier == "thorough"
    res = [
        Task("scan", check_scan, dict(T=6 if th else 5)),
        Task("params", check_params_given, dict(T=7 if th else 5)),
        Task("module", check_streaming_scan_module, dict(T=6 if th else 5)),
    ]
    for name in RESETS:
        res.append(Task(f"reset:{name}", check_reset, dict(T=9 if th else 7, name=name)))
    for name, initial, direct in itertools.product(EVENTS, (None, 0.0, -5.0), (False, True)):
        if direct and initial == 0.0:
            continue
        res.append(Task(f"event:{name},{initial},direct={direct}", check_event, dict(T=8 if th else 6, name=name, initial=initial, direct=direct)))
    for lr, aux, kind in itertools.product((0.01, 0.05), (False, True), ("sgd", "momentum")):
        res.append(Task(f"optimizer:{lr},aux={aux},{kind}", check_optimizer, dict(T=5 if th else 4, lr=lr, aux=aux, kind=kind)))
    return res
