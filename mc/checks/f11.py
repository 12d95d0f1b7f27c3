"""F11: interrupted runs of the Flax modules.

For every module, all histories up to the bound are run without interruption and with every set
of cut points, feeding each piece with the state returned by the previous one (also after a round
trip of the state through plain numpy arrays, as when it is saved).  The runs are unrolled
(compiled) or step by step through the module, the transform of the module and the streaming
transform.  Outputs of a prefix must not depend on the suffix, and the states and inputs passed in
must not be modified; a state may be used several times.
"""

import itertools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict, unfreeze

from mc.checks.u02 import same
from mc.core import Task, histories
from mc.haikutools import to_np
from wax.flax.core.state_utils import apply_with_state
from wax.flax.core.streaming_transforms import (
    streaming_transform_with_state,
    update_on_event,
)
from wax.flax.core.transform import flax_transform_with_state
from wax.flax.core.unroll import flax_unroll, flax_unroll_transform
from wax.flax.modules import EWMA, Buffer, Counter, Diff, EWMCov, EWMVar, Ffill, HasChanged, Lag, PctChange, RollingMean
from wax.flax.modules.arma import ARMA
from wax.flax.modules.compressed_buffer import CompressedBuffer, HierarchicalBuffer
from wax.flax.modules.mask_mean import MaskMean
from wax.flax.modules.mask_normalize import MaskNormalize
from wax.flax.modules.ohlc import OHLC
from wax.flax.modules.online_optimizer import OnlineOptimizer
from wax.flax.modules.online_supervised_learner import SimpleOnlineLearner
from wax.flax.modules.snarimax import SNARIMAX

PROPERTY = "F11"
ASSUMPTIONS = ["the state is opaque: only its use in a later run is observed", "flax.linen is trusted"]
KEY = jax.random.PRNGKey(7)


def coef(*v):
    return jnp.asarray(np.array(v, np.float32))


class Linear(nn.Module):
    @nn.compact
    def __call__(self, x):
        return self.param("w", lambda k: jnp.float32(0.5)) * x + self.param("b", lambda k: jnp.float32(-1.0))


class LinearLoss(nn.Module):
    @nn.compact
    def __call__(self, x, y):
        return jnp.mean((Linear()(x) - y) ** 2)


def square_loss(p, y):
    return jnp.mean((p - y) ** 2)


def learner(x, e):
    return SimpleOnlineLearner(model=Linear(), loss_fn=square_loss, opt=optax.adam(0.125))(x, 2 * x + e)


def optimizer(x, e):
    o = OnlineOptimizer(LinearLoss(), optax.sgd(0.125, momentum=0.5))(x, 2 * x + e)
    return o.loss, o.params


def conditional(x, e):
    def update(x, e):
        return {"w": Buffer(maxlen=2, fill_value=0.0)(x), "n": Counter()()}

    return update_on_event(lambda x, e: e, initial_output_value=-1)(update)(x, e)


MODULES = {
    "EWMA": lambda x, e: EWMA(com=2.0)(x),
    "EWMA plain": lambda x, e: EWMA(alpha=0.25, adjust=False, ignore_na=True, min_periods=2)(x),
    "EWMA linear": lambda x, e: EWMA(com=2.0, adjust="linear", return_info=True)(x),
    "EWMVar": lambda x, e: EWMVar(com=2.0)(x),
    "EWMCov": lambda x, e: EWMCov(com=2.0)((x, x * x)),
    "Buffer": lambda x, e: Buffer(maxlen=3)(x),
    "Lag": lambda x, e: Lag(2)(x),
    "Diff": lambda x, e: Diff()(x),
    "PctChange": lambda x, e: PctChange()(x),
    "RollingMean": lambda x, e: RollingMean(3, min_periods=2)(x),
    "Ffill": lambda x, e: Ffill()(x),
    "HasChanged": lambda x, e: HasChanged()(x),
    "Counter": lambda x, e: Counter()(),
    "OHLC": lambda x, e: tuple(OHLC()(x, e)),
    "ARMA": lambda x, e: ARMA(alpha=coef(0.5, -0.25), beta=coef(0.5))(x),
    "SNARIMAX": lambda x, e: SNARIMAX(lags_x=2, lags_y=1, regressor=lambda f: f.sum(-1))(x, 2 * x),
    "masked": lambda x, e: (MaskMean()(e & (x == x), x), MaskNormalize()(e, x)),
    "nested": lambda x, e: {"s": EWMA(com=1.0)(Lag(1, fill_value=0.0)(Ffill()(x))), "w": (Buffer(2)(RollingMean(2)(x)), e)},
    "downsample": lambda x, e: CompressedBuffer(6, "downsample", {})(x[0]),
    "quantile": lambda x, e: CompressedBuffer(6, "quantile", {"percentiles": [0.0, 0.5, 1.0]})(x[0]),
    "sketching": lambda x, e: CompressedBuffer(6, "sketching", {"num_hashes": 2, "num_buckets": 4})(jnp.nan_to_num(x[0])),
    "running": lambda x, e: CompressedBuffer(6, "none", {})(x),
    "hierarchy": lambda x, e: HierarchicalBuffer(2, 4, 8)(x[0]),
    "learner": learner,
    "optimizer": optimizer,
    "conditional": conditional,
}
EAGER = {"downsample", "quantile", "sketching", "hierarchy"}  # cannot be compiled


class Menu(nn.Module):
    kind: str

    @nn.compact
    def __call__(self, x, e):
        return MODULES[self.kind](x, e)


def save(tree):
    """What saving and loading a state gives: writable numpy arrays."""
    return FrozenDict(plain(tree))


def plain(tree):
    """The values of a state, whatever the kind of mapping which holds it."""
    return jax.tree_util.tree_map(lambda v: np.array(v), unfreeze(tree) if isinstance(tree, FrozenDict) else tree)


def check(ex, name, T, chunk):
    A = [1.0, -2.0, 0.5, np.nan] if name not in ("ARMA", "learner", "optimizer", "Counter") else [1.0, -2.0, 0.5]
    X = histories(A, T)
    E = np.roll(X, 1, axis=1) > 0
    N = X.shape[1]
    groups = [np.arange(N)[k::chunk] for k in range(chunk)]
    m = min(len(g) for g in groups)
    G = np.array([g[:m] for g in groups])
    xs = jnp.asarray(np.moveaxis(X[:, G], 0, 1))
    es = jnp.asarray(np.moveaxis(E[:, G[:, 0]], 0, 1))  # one event per step and run
    if name in ("masked", "OHLC"):
        es = jnp.asarray(np.moveaxis(E[:, G], 0, 1))
    if name == "OHLC":
        es = es[:, :, 0]
    pair = flax_unroll_transform(Menu(name))
    params, state0 = jax.vmap(lambda x, e: pair.init(KEY, x, e))(xs, es)
    apply = jax.jit(jax.vmap(lambda s, x, e: pair.apply(jax.tree_util.tree_map(lambda p: p[0], params), s, None, x, e)))
    x0, e0 = np.array(xs), np.array(es)
    kept = plain(state0)
    whole, final = apply(state0, xs, es)
    whole, final = to_np(whole), plain(final)
    same(ex, plain(state0), kept, "initial state modified")
    n = 0
    for r in range(1, T):
        for cuts in itertools.combinations(range(1, T), r):
            outs, st = [], state0
            for k, (a, b) in enumerate(zip((0,) + cuts, cuts + (T,))):
                if (r + k) % 2:
                    st = save(st)
                before = plain(st)
                out, nxt = apply(st, xs[:, a:b], es[:, a:b])
                same(ex, plain(st), before, f"state modified, cut {cuts}")
                outs.append(to_np(out))
                st = nxt
                if b == cuts[0]:
                    prefix = jax.tree_util.tree_map(lambda w: w[:, :b], whole)
                    same(ex, outs[0], prefix, f"prefix of length {b}")
            got = jax.tree_util.tree_map(lambda *o: np.concatenate(o, axis=1), *outs)
            same(ex, got, whole, f"outputs, cut {cuts}", cuts=cuts)
            same(ex, plain(st), final, f"final state, cut {cuts}", cuts=cuts)
            ex.explored(transitions=T * chunk * m, traces=chunk * m)
            n += 1
    ex.check((np.array(xs) == x0)[~np.isnan(x0)].all() and (np.array(es) == e0).all(), "inputs modified")
    ex.explored_histories(X)
    ex.sample(module=name, T=T, histories=N, sets_of_cuts=n)


def check_eager(ex, name, T):
    """Step by step without compilation from saved states, through every interface; every state
    is used again later, and to go on with another value."""
    module = Menu(name)
    x = np.array([1.0, -2.0, 0.5, 4.0, np.nan, 2.0, -1.0, 3.0], np.float32)[:T]
    if name in ("ARMA", "learner", "optimizer"):
        x = np.nan_to_num(x, nan=1.5)
    X = jnp.asarray(np.stack([x, x[::-1], 2 * x, x + 1], axis=1))
    E = jnp.asarray(np.arange(T) % 2 == 0)
    tf = flax_transform_with_state(module)
    params, first = tf.init(KEY, X[0], E[0])
    if name in EAGER:
        whole, final = [], first
        for t in range(T):
            out, final = tf.apply(params, final, None, X[t], E[t])
            whole.append(to_np(out))
        whole = jax.tree_util.tree_map(lambda *o: np.stack(o), *whole)
    else:
        whole, final = flax_unroll(module, params=params, state=first, return_final_state=True)(X, E)
    whole, final = to_np(whole), plain(final)

    def by_module(st, *a):
        out, new = module.apply({"params": params, **st}, *a, mutable=list(st))
        return out, new

    def by_helper(st, *a):
        out, new = apply_with_state(module, {"params": params, **st}, *a)
        return out, {k: v for k, v in new.items() if k != "params"}

    ways = {"transform": lambda st, *a: tf.apply(params, st, None, *a), "module": by_module}
    if set(first) <= {"state", "cache"} and len(first):
        ways["apply_with_state"] = by_helper
    for way, step in ways.items():
        st, outs, used = first, [], []
        for t in range(T):
            before = plain(st)
            out, nxt = step(st, X[t], E[t])
            step(st, 3 * X[t] + 1, ~E[t])  # another future of the same state
            again, nxt2 = step(st, X[t], E[t])
            same(ex, plain(st), before, f"{way}: state given to step {t} modified")
            same(ex, to_np(again), to_np(out), f"{way}: step {t} again")
            same(ex, plain(nxt2), plain(nxt), f"{way}: state of step {t} again")
            outs.append(to_np(out))
            used.append((nxt, plain(nxt)))
            if t + 1 < T and name not in EAGER:
                for dynamic in (True, False):
                    o, f = flax_unroll(module, params=params, state=save(nxt), dynamic=dynamic, return_final_state=True)(
                        X[t + 1 :], E[t + 1 :]
                    )
                    same(ex, to_np(o), jax.tree_util.tree_map(lambda w: w[t + 1 :], whole), f"{way}: resumed at {t + 1}, {dynamic}")
                    same(ex, plain(f), final, f"{way}: resumed at {t + 1}, {dynamic}/state")
                    ex.explored(transitions=T - t - 1, traces=1)
            st = save(nxt) if t % 2 else nxt
        got = jax.tree_util.tree_map(lambda *o: np.stack(o), *outs)
        same(ex, got, whole, f"{way}: step by step")
        same(ex, plain(st), final, f"{way}: step by step/state")
        for t in range(T - 1):
            st = save(used[t][0])
            for k in range(t + 1, T):
                out, st = step(st, X[k], E[k])
                same(ex, to_np(out), outs[k], f"{way}: resumed at {t + 1} by steps: step {k}")
            same(ex, plain(st), final, f"{way}: resumed at {t + 1} by steps/state")
            ex.explored(transitions=T - t - 1, traces=1)
        for t, (live, values) in enumerate(used):
            same(ex, plain(live), values, f"{way}: state of step {t} modified later")
        ex.explored(states=T + 1, transitions=3 * T, traces=1)


def check_given(ex, name, T, full):
    """Parameters and state may be given or not, each on its own: the missing ones are those of
    an initialisation on the first element."""
    module = Menu(name)
    X = jnp.asarray(histories([1.0, -2.0, 0.5], T))
    E = jnp.asarray(np.arange(T) % 2 == 0)
    pair = flax_unroll_transform(module)
    params, first = pair.init(KEY, X, E)
    other = jax.tree_util.tree_map(lambda p: p + 0.5, params)
    kw = dict(rng=KEY, return_final_state=True)
    cut = T // 2
    _, saved = pair.apply(params, first, KEY, X[:cut], E[:cut])
    params2, first2 = pair.init(KEY, X[cut:], E[cut:])
    run = jax.jit(lambda p, s, x, e: pair.apply(p, s, KEY, x, e))
    funs = (module, pair, flax_transform_with_state(module))
    for i, (p, s) in enumerate(itertools.product((None, params, other), (None, first, saved))):
        want = run(params2 if p is None else p, first2 if s is None else s, X[cut:], E[cut:])
        for fun in funs if full else [funs[(i + len(name)) % 3]]:
            got = flax_unroll(fun, params=p, state=s, **kw)(X[cut:], E[cut:])
            case = f"params {'no' if p is None else 'other' if p is other else 'yes'}, state {'no' if s is None else 'saved' if s is saved else 'first'}"
            same(ex, to_np(got[0]), to_np(want[0]), case)
            same(ex, plain(got[1]), plain(want[1]), f"{case}: final state")
            if not full and (i + len(name)) % 4:
                continue
            only = flax_unroll(fun, params=p, state=s, rng=KEY)(X[cut:], E[cut:])
            same(ex, to_np(only), to_np(want[0]), f"{case}: without the final state")
            ex.explored(transitions=2 * (T - cut), traces=2)
    ex.explored_histories(np.asarray(X))


def check_streaming(ex, name, T):
    """The streaming transform of the function: every prefix of every history, cut everywhere."""
    f = streaming_transform_with_state(MODULES[name])
    A = [1.0, -2.0] if name in ("ARMA", "learner", "optimizer") else [1.0, np.nan]
    X = histories(A, T)
    E = jnp.asarray(np.arange(T) % 2 == 0)
    params, first = f.init(KEY, jnp.asarray(X[0]), E[0])
    step = jax.jit(lambda s, x, e: f.apply(params, s, None, x, e))
    ref = flax_transform_with_state(Menu(name))
    rp, rs = ref.init(KEY, jnp.asarray(X[0]), E[0])
    states, outs = [first], []
    for t in range(T):
        o, s = step(states[-1], jnp.asarray(X[t]), E[t])
        ro, rs = ref.apply(rp, rs, None, jnp.asarray(X[t]), E[t])
        a, b = jax.tree_util.tree_leaves(to_np(o)), jax.tree_util.tree_leaves(to_np(ro))
        ex.check(len(a) == len(b), "outputs of the module", f"{len(a)} {len(b)}")
        for i, (u, v) in enumerate(zip(a, b)):
            ex.same_array(u, v, f"step {t}: output {i} of the module")
        outs.append(to_np(o))
        states.append(s)
    for cut in range(T):
        s = save(states[cut])
        for t in range(cut, T):
            o, s = step(s, jnp.asarray(X[t]), E[t])
            same(ex, to_np(o), outs[t], f"resumed at {cut}: step {t}")
        same(ex, plain(s), plain(states[-1]), f"resumed at {cut}: state")
        ex.explored(transitions=(T - cut) * X.shape[1], traces=X.shape[1])
    ex.explored_histories(X)


def tasks(tier):
    t = tier == "thorough"
    res = []
    for name in MODULES:
        if name not in EAGER:
            res.append(Task(f"cuts:{name}", check, dict(name=name, T=6 if t else 5, chunk=8)))
        res.append(Task(f"eager:{name}", check_eager, dict(name=name, T=8 if t else 5)))
        if name not in EAGER:
            res.append(Task(f"given:{name}", check_given, dict(name=name, T=6 if t else 4, full=t)))
            res.append(Task(f"streaming:{name}", check_streaming, dict(name=name, T=6 if t else 5)))
    return res
