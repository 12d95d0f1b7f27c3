"""M10: online learning.

A model with parameters in two modules (one with two parameters) and a state, whose loss and
gradients are written by hand, is trained by the real OnlineOptimizer / FuncOptimizer /
OnlineSupervisedLearner on all histories of (feature, target) over the alphabet, for every
combination of optimiser, partition of the parameters, projection and regularisation; the
reference is the explicit loop: loss and gradients at the current parameters, then the update.
"""

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc.core import Task, histories
from mc.haikutools import to_np
from wax.modules import OnlineSupervisedLearner, UpdateParams
from wax.modules.func_optimizer import FuncOptimizer
from wax.modules.online_optimizer import OnlineOptimizer
from wax.modules.optax_optimizer import OptaxOptimizer
from wax.predicate import pass_all_predicate
from wax.unroll import unroll

PROPERTY = "M10"
ASSUMPTIONS = [
    "optax computes the updates of its own optimisers",
    "infinite gradients are not explored for OnlineOptimizer (they are replaced by the largest number)",
]

W0, B0, G0 = np.array([0.5, -0.25]), 0.125, 2.0
INIT = {"lin": {"w": W0, "b": np.array(B0)}, "gain": {"g": np.array(G0)}}


# -- the model, and its derivatives by hand ----------------------------------------------


class Lin(hk.Module):
    def __call__(self, x, s):
        w = hk.get_parameter("w", [2], init=lambda *_: jnp.asarray(W0, jnp.float32))
        b = hk.get_parameter("b", [], init=hk.initializers.Constant(B0))
        return w[0] * x + w[1] * s + b


class Gain(hk.Module):
    def __call__(self, x):
        return x * hk.get_parameter("g", [], init=hk.initializers.Constant(G0))


def predict(x):
    return Gain(name="gain")(Lin(name="lin")(x, 1.0))


def predict_stateful(x):
    s = hk.get_state("s", [], init=jnp.zeros)
    s = 0.5 * s + x
    hk.set_state("s", s)
    return Gain(name="gain")(Lin(name="lin")(x, s))


def loss_model(x, t):
    pred = predict_stateful(x)
    n = hk.get_state("n", [], jnp.int32, init=jnp.zeros) + 1
    hk.set_state("n", n)
    return (pred - t) ** 2, {"pred": pred, "n": n}


def reference_model(params, x, s, t):
    """pred, loss, grads; arrays over the histories (N,)."""
    w, b, g = params["lin"]["w"], params["lin"]["b"], params["gain"]["g"]
    with np.errstate(all="ignore"):
        lin = w[:, 0] * x + w[:, 1] * s + b
        pred = g * lin
        r = 2 * (pred - t)
        grads = {
            "lin": {"w": np.stack([r * g * x, r * g * s], -1), "b": r * g},
            "gain": {"g": r * lin},
        }
        return pred, (pred - t) ** 2, grads


# -- configurations -----------------------------------------------------------------------

OPTS = {
    "sgd": lambda: optax.sgd(0.125),
    "momentum": lambda: optax.sgd(0.125, momentum=0.5),
    "adam": lambda: optax.adam(0.125),
    "adamw": lambda: optax.adamw(0.125, weight_decay=0.25),
    "clip": lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.scale(-0.5)),
    "schedule": lambda: optax.sgd(lambda count: 0.25 / (1 + count)),
}
PREDICATES = {
    "all": (pass_all_predicate, ["lin/w", "lin/b", "gain/g"]),
    "none": (lambda m, n, p: False, []),
    "module": (lambda m, n, p: m == "gain", ["gain/g"]),
    "parameter": (lambda m, n, p: n != "w", ["lin/b", "gain/g"]),
    "shape": (lambda m, n, p: p.ndim == 1, ["lin/w"]),
}


def selection(params, names):
    out = {}
    for name in names:
        m, p = name.split("/")
        out.setdefault(m, {})[p] = params[m][p]
    return out


def overlay(params, part):
    return {m: {n: part.get(m, {}).get(n, v) for n, v in d.items()} for m, d in params.items()}


def tmap(f, *trees):
    return jax.tree_util.tree_map(f, *trees)


SYMBOLS = [(1.0, 0.5), (-2.0, -1.0), (np.nan, 0.5), (0.5, np.nan)]


def data(T, symbols=SYMBOLS):
    idx = histories(np.arange(len(symbols)), T, np.int64)
    return np.array(symbols, np.float32)[idx]  # (T, N, 2)


def reference(H, opt, names, stateful, project=None, l2=0.0, nan="zero", inf="keep"):
    """Explicit loop, in numpy except the optax updates."""
    T, N = H.shape[:2]
    params = tmap(lambda v: np.tile(np.asarray(v, np.float64), (N,) + (1,) * np.ndim(v)), INIT)
    opt_state = None
    update = lambda g, s, p: (g, s)  # noqa  (nothing to optimise)
    if names:
        opt_state = jax.vmap(opt.init)(tmap(lambda v: jnp.asarray(v, jnp.float32), selection(params, names)))
        update = jax.jit(jax.vmap(lambda g, s, p: opt.update(g, s, p)))
    s = np.zeros(N)
    out = []
    for k in range(T):
        x, t = H[k, :, 0].astype(np.float64), H[k, :, 1].astype(np.float64)
        s = 0.5 * s + x if stateful else np.ones(N)
        pred, loss, grads = reference_model(params, x, s, t)
        train = selection(params, names)
        grads = selection(grads, names)
        if l2:
            loss = loss + l2 * sum(
                [np.sum(v.reshape(N, -1) ** 2, -1) for v in jax.tree_util.tree_leaves(train)], np.zeros(N)
            )
            grads = tmap(lambda g, p: g + 2 * l2 * p, grads, train)
        if nan == "zero":
            grads = tmap(lambda g: np.where(np.isnan(g), 0.0, g), grads)
        if inf == "zero":
            grads = tmap(lambda g: np.where(np.isinf(g), 0.0, g), grads)
        f32 = lambda tree: tmap(lambda v: jnp.asarray(v, jnp.float32), tree)
        updates, opt_state = update(f32(grads), opt_state, f32(train))
        train = tmap(lambda p, u: p + np.asarray(u, np.float64), train, updates)
        if project:
            train = tmap(project, train)
        before, params = params, overlay(params, train)
        out.append(dict(loss=loss, pred=pred, before=before, params=params, train=train, n=np.full(N, k + 1)))
    return {k: tmap(lambda *v: np.stack(v), *[o[k] for o in out]) for k in out[0]}


def run(fun, H, dynamic=True):
    """All histories (T, N, 2) at once; results (T, N, ...)."""
    f = unroll(fun, rng=jax.random.PRNGKey(1), dynamic=dynamic)
    g = jax.vmap(f, in_axes=1, out_axes=1)
    return to_np((jax.jit(g) if dynamic else g)(jnp.asarray(H[..., 0]), jnp.asarray(H[..., 1])))


def compare_params(ex, got, want, H, case):
    """Nested dictionaries of parameters (T, N, ...); modules without parameters may be absent."""
    flat = lambda tree: {f"{m}/{n}": v for m, d in tree.items() for n, v in d.items()}
    got, want = flat(got), flat(want)
    if ex.check(sorted(got) == sorted(want), case, f"names {sorted(got)}, expected {sorted(want)}"):
        for k in want:
            ex.same_columns(got[k], want[k], H, f"{case} {k}", rtol=2e-4, atol=2e-5)


def check_online(ex, opt, predicate, project, l2, wrap, return_params, T, dynamic=True, symbols=SYMBOLS):
    H = data(T, symbols)
    pred, names = PREDICATES[predicate]
    calls = []

    def projection(params, optimizer):
        calls.append(optimizer)
        return tmap(lambda p: jnp.clip(p, -0.5, 1.0), params)

    def make():
        o = OPTS[opt]()
        return OptaxOptimizer(o) if wrap else o

    def regul(params):
        return l2 * sum([jnp.sum(p**2) for p in jax.tree_util.tree_leaves(params)])

    def fun(x, t):
        model = hk.transform_with_state(loss_model) if wrap else loss_model
        kw = {} if predicate == "default" else dict(params_predicate=pred)
        return OnlineOptimizer(
            model,
            make(),
            project_params=projection if project else None,
            regularize_loss=regul if l2 else None,
            return_params=return_params,
            **kw,
        )(x, t)

    got = run(fun, H, dynamic)
    want = reference(
        H, OPTS[opt](), names, True, (lambda p: np.clip(p, -0.5, 1.0)) if project else None, l2
    )
    tol = dict(rtol=2e-4, atol=2e-5)
    ex.same_columns(got.loss, want["loss"], H, "loss", **tol)
    ex.same_columns(got.model_info["pred"], want["pred"], H, "prediction", **tol)
    ex.same_columns(got.model_info["n"], want["n"], H, "state of the model", **tol)
    if return_params:
        compare_params(ex, got.params, want["params"], H, "parameters")
    else:
        ex.equal(sorted(got._fields), ["loss", "model_info"], "fields")
    if project:
        ex.check(calls and all(isinstance(o, OptaxOptimizer) for o in calls), "projection", "not given the optimiser")
    ex.explored_histories(H)
    ex.sample(history=H[:, 5], loss=want["loss"][:, 5])


def check_func(ex, opt, predicate, aux, fill, T, symbols=SYMBOLS):
    H = data(T, symbols)
    pred, names = PREDICATES["all" if predicate is None else predicate]

    def func(x, t):
        p = predict(x)
        return ((p - t) ** 2, {"pred": p}) if aux else (p - t) ** 2

    def fun(x, t):
        return FuncOptimizer(
            func,
            OptaxOptimizer(OPTS[opt]()),
            has_aux=aux,
            params_predicate=None if predicate is None else pred,
            grads_fill_nan_inf=fill,
        )(x, t)

    results, params = run(fun, H)
    mode = "zero" if fill else "keep"
    want = reference(H, OPTS[opt](), names, False, nan=mode, inf=mode)
    tol = dict(rtol=2e-4, atol=2e-5)
    if aux:
        results, info = results
        ex.same_columns(info["pred"], want["pred"], H, "auxiliary output", **tol)
    ex.same_columns(results, want["loss"], H, "value", **tol)
    compare_params(ex, params, want["train"], H, "trainable parameters")
    ex.explored_histories(H)


def check_learner(ex, opt, wrap, fill, T, symbols=SYMBOLS):
    H = data(T, symbols)

    def fun(x, t):
        o = OPTS[opt]()
        kw = {} if fill is None else dict(grads_fill_nan_inf=fill)
        return OnlineSupervisedLearner(
            predict, OptaxOptimizer(o) if wrap else o, loss=lambda y, p: (y - p) ** 2 + 0.25 * y, **kw
        )(x, t)

    y_pred, info = run(fun, H)
    mode = "keep" if fill is False else "zero"
    want = reference(H, OPTS[opt](), PREDICATES["all"][1], False, nan=mode, inf=mode)
    tol = dict(rtol=2e-4, atol=2e-5)
    ex.same_columns(y_pred, want["pred"], H, "prediction", **tol)
    # (not symmetric: the target comes first)
    ex.same_columns(info.loss, want["loss"] + 0.25 * H[..., 1], H, "loss", **tol)
    compare_params(ex, info.params, want["params"], H, "parameters")
    ex.explored_histories(H)


def check_update_params(ex, predicate, T):
    """The function of its trainable parameters: given ones at every step, own state."""
    _, names = PREDICATES["all" if predicate is None else predicate]
    pred = None if predicate is None else PREDICATES[predicate][0]
    H = data(T)
    N = H.shape[1]
    given = tmap(
        lambda v: np.tile(v, (T, N) + (1,) * np.ndim(v))
        + (np.arange(T * N) % 7).reshape((T, N) + (1,) * np.ndim(v)) / 4.0,
        selection(INIT, names),
    )
    given = tmap(lambda v: v.astype(np.float32), given)

    def fun(params, x, t):
        return UpdateParams(loss_model, params_predicate=pred)(params, x, t)

    f = jax.jit(jax.vmap(unroll(fun, rng=jax.random.PRNGKey(1)), in_axes=1, out_axes=1))
    loss, info = to_np(f(tmap(jnp.asarray, given), jnp.asarray(H[..., 0]), jnp.asarray(H[..., 1])))
    s = np.zeros(N)
    want = []
    full = tmap(lambda v: np.tile(np.asarray(v, np.float64), (N,) + (1,) * np.ndim(v)), INIT)
    for k in range(T):
        s = 0.5 * s + H[k, :, 0]
        p = overlay(full, tmap(lambda v: v[k], given))
        want.append(reference_model(p, H[k, :, 0].astype(np.float64), s, H[k, :, 1])[:2])
    ex.same_columns(loss, np.stack([w[1] for w in want]), H, "loss")
    ex.same_columns(info["pred"], np.stack([w[0] for w in want]), H, "prediction")
    ex.same_columns(info["n"], np.arange(1, T + 1)[:, None] + np.zeros((1, N)), H, "state")
    ex.explored_histories(H)


def check_random_init(ex, T):
    """Initial parameters come from the initialisers of the model; the first loss is the one
    of a plain application of the model with these parameters."""

    def model(x, t):
        p = hk.Linear(1, name="lin", w_init=hk.initializers.RandomNormal())(x)[0]
        return (p - t) ** 2, {}

    def learner(rate):
        return hk.transform_with_state(lambda x, t: OnlineOptimizer(model, optax.sgd(rate), return_params=True)(x, t))

    fun, frozen = learner(0.1), learner(0.0)
    for key in range(8):
        x, t = jnp.array([1.0, 2.0]), jnp.array(0.5)
        params, state = fun.init(jax.random.PRNGKey(key), x, t)
        ex.check(params == {}, "parameters of the learner", repr(params))
        # with a rate of zero, the parameters of the first step are the initial ones
        start = frozen.apply(*frozen.init(jax.random.PRNGKey(key), x, t), None, x, t)[0].params
        w0 = np.asarray(start["lin"]["w"], np.float64)
        ex.check(np.abs(w0).min() > 1e-3, "random initialisation", repr(w0))
        w, b = w0[:, 0], 0.0
        for k in range(T):
            out, state = fun.apply(params, state, None, x, t)
            r = w @ np.array([1.0, 2.0]) + b - 0.5
            ex.same_array(out.loss, r * r, f"loss {key},{k}", rtol=1e-3, atol=1e-5)
            w, b = w - 0.1 * 2 * r * np.array([1.0, 2.0]), b - 0.1 * 2 * r
            ex.same_array(out.params["lin"]["w"][:, 0], w, f"weights {key},{k}", rtol=1e-3, atol=1e-5)
        ex.explored(T + 1, T, 1)


def check_no_key(ex, kind, T):
    """After the initialisation, deterministic models are trained without a random key; and the
    results do not depend on the key."""
    H = data(T, SYMBOLS[:2])
    opt = OPTS["momentum"]

    def model(x, t):
        p = predict(x)
        return (p - t) ** 2, {"pred": p}

    def fun(x, t):
        o = OptaxOptimizer(opt())
        if kind == "online":
            r = OnlineOptimizer(model, o, return_params=True)(x, t)
            return r.loss, r.params
        if kind == "function":
            (loss, _), params = FuncOptimizer(model, o, has_aux=True)(x, t)
            return loss, params
        _, info = OnlineSupervisedLearner(predict, o, loss=lambda y, p: (y - p) ** 2)(x, t)
        return info.loss, info.params

    want = reference(H, opt(), PREDICATES["all"][1], False)
    f = hk.transform_with_state(fun)
    apply = jax.jit(lambda params, state, x, t: f.apply(params, state, None, x, t))
    losses, after = [], []
    for n in range(H.shape[1]):
        params, state = f.init(jax.random.PRNGKey(n), *jnp.asarray(H[0, n]))
        row = []
        for k in range(T):
            out, state = apply(params, state, *jnp.asarray(H[k, n]))
            row.append(to_np(out))
        losses.append([r[0] for r in row])
        after.append(tmap(lambda *v: np.stack(v), *[r[1] for r in row]))
        ex.explored(T + 1, T, 1)
    ex.same_columns(np.array(losses).T, want["loss"], H, "loss", rtol=2e-4, atol=2e-5)
    compare_params(ex, tmap(lambda *v: np.stack(v, 1), *after), want["params"], H, "parameters")


def check_heads(ex, opt, kind, fill, vector, T):
    """Two outputs with parameters of their own, or elements of one vector: when the target of one of them is missing, the
    loss is missing but the parameters of the other one are still updated."""
    symbols = np.array([(1.0, 0.5), (np.nan, -1.0), (2.0, np.nan), (np.nan, np.nan)], np.float32)
    H = symbols[histories(np.arange(4), T, np.int64)]  # (T, N, 2)
    N = H.shape[1]

    def predict2(t):
        if vector:
            p = hk.get_parameter("p", [2], init=lambda *_: jnp.array([0.25, -0.5]))
            return p * jnp.array([2.0, 3.0])
        a = hk.get_parameter("a", [], init=hk.initializers.Constant(0.25))
        b = hk.get_parameter("b", [], init=hk.initializers.Constant(-0.5))
        return jnp.stack([a * 2.0, b * 3.0])

    def loss2(t):
        y = Heads()(t)
        return jnp.sum((y - t) ** 2), {"y": y}

    class Heads(hk.Module):
        def __call__(self, t):
            return predict2(t)

    def fun(t):
        o = OPTS[opt]()
        if kind == "online":
            return OnlineOptimizer(loss2, o, return_params=True)(t)
        if kind == "function":
            return FuncOptimizer(loss2, OptaxOptimizer(o), has_aux=True, grads_fill_nan_inf=fill)(t)
        return OnlineSupervisedLearner(
            lambda t: Heads()(t), OptaxOptimizer(o), loss=lambda y, p: jnp.sum((y - p) ** 2), grads_fill_nan_inf=fill
        )(t, t)

    f = jax.jit(jax.vmap(unroll(fun, rng=jax.random.PRNGKey(1)), in_axes=1, out_axes=1))
    got = to_np(f(jnp.asarray(H)))
    # explicit loop
    p = np.tile([0.25, -0.5], (N, 1))
    o = OPTS[opt]()
    tree = lambda p: {"a": jnp.asarray(p[:, 0], jnp.float32), "b": jnp.asarray(p[:, 1], jnp.float32)}  # noqa
    back = lambda u: np.stack([np.asarray(u["a"], np.float64), np.asarray(u["b"], np.float64)], -1)  # noqa
    if vector:
        tree = lambda p: {"p": jnp.asarray(p, jnp.float32)}  # noqa
        back = lambda u: np.asarray(u["p"], np.float64)  # noqa
    opt_state = jax.vmap(o.init)(tree(p))
    update = jax.jit(jax.vmap(o.update))
    losses, preds, params = [], [], []
    for k in range(T):
        y = p * np.array([2.0, 3.0])
        r = y - H[k]
        losses.append(np.sum(r**2, -1))
        preds.append(y)
        g = 2 * r * np.array([2.0, 3.0])
        if fill:
            g = np.nan_to_num(g)
        u, opt_state = update(tree(g), opt_state, tree(p))
        p = p + back(u)
        params.append(p)
    tol = dict(rtol=2e-4, atol=2e-5)
    if kind == "online":
        loss, y, after = got.loss, got.model_info["y"], got.params
    elif kind == "function":
        (loss, aux), after = got
        y = aux["y"]
    else:
        y, info = got
        loss, after = info.loss, info.params
    ex.same_columns(loss, np.stack(losses), H, "loss", **tol)
    for i in range(2):
        ex.same_columns(y[..., i], np.stack(preds)[..., i], H, f"prediction {i}", **tol)
    (after,) = after.values()
    if vector:
        after = {"a": after["p"][..., 0], "b": after["p"][..., 1]}
    ex.same_columns(after["a"], np.stack(params)[..., 0], H, "parameter a", **tol)
    ex.same_columns(after["b"], np.stack(params)[..., 1], H, "parameter b", **tol)
    ex.explored_histories(H)


INF = [(1.0, 0.5), (np.nan, 0.5), (1.0, np.inf), (-2.0, -np.inf)]


def tasks(tier):
    th = tier == "thorough"
    T = 5 if th else 4
    res = [Task("random init", check_random_init, dict(T=4))]
    for kind in ("online", "function", "learner"):
        res.append(Task(f"without key:{kind}", check_no_key, dict(kind=kind, T=4)))
    for opt in OPTS:
        for kind, fill in [("online", True), ("function", True), ("function", False), ("learner", True), ("learner", False)]:
            for vector in (False, True):
                res.append(
                    Task(
                        f"heads:{opt},{kind},{fill},{vector}",
                        check_heads,
                        dict(opt=opt, kind=kind, fill=fill, vector=vector, T=T),
                    )
                )
    for opt in OPTS:
        for p in PREDICATES:
            for project in (False, True):
                for l2 in (0.0, 0.25):
                    wrap = (len(opt) + len(p) + project) % 2 == 0
                    res.append(
                        Task(
                            f"online:{opt},{p},{project},{l2}",
                            check_online,
                            dict(opt=opt, predicate=p, project=project, l2=l2, wrap=wrap, return_params=True, T=T),
                        )
                    )
        for wrap in (False, True):
            res.append(
                Task(
                    f"online without parameters:{opt},{wrap}",
                    check_online,
                    dict(opt=opt, predicate="all", project=False, l2=0.0, wrap=wrap, return_params=False, T=T),
                )
            )
            for fill in (None, True, False):
                res.append(Task(f"learner:{opt},{wrap},{fill}", check_learner, dict(opt=opt, wrap=wrap, fill=fill, T=T)))
        for p in list(PREDICATES) + [None]:
            for aux in (False, True):
                for fill in (False, True):
                    res.append(
                        Task(f"function:{opt},{p},{aux},{fill}", check_func, dict(opt=opt, predicate=p, aux=aux, fill=fill, T=T))
                    )
    res.append(Task("function with infinities", check_func, dict(opt="sgd", predicate="all", aux=True, fill=True, T=T, symbols=INF)))
    res.append(Task("learner with infinities", check_learner, dict(opt="momentum", wrap=False, fill=None, T=T, symbols=INF)))
    for p in list(PREDICATES) + [None]:
        res.append(Task(f"update parameters:{p}", check_update_params, dict(predicate=p, T=T)))
    res.append(
        Task(
            "online in Python",
            check_online,
            dict(opt="adam", predicate="parameter", project=True, l2=0.25, wrap=False, return_params=True, T=2, dynamic=False),
        )
    )
    return res
