"""F08: Flax optimisers, online learners and gym feedback.

All the sequences of data up to the bound (one history per column, through vmap), on the real
modules: losses, gradients, parameters, auxiliary outputs and states at every step against the
recursion of the optimiser on gradients derived by hand; every subset of the parameters as the
trainable ones; every way of giving the model.
"""

import itertools

import flax.linen as nn
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict, unfreeze

from mc.core import Task, histories
from mc.haikutools import to_np
from wax.flax.core.transform import flax_transform_with_state
from wax.flax.modules.func_optimizer import FuncOptimizer
from wax.flax.modules.gym_feedback import GymFeedback, GymFeedbackLoop
from wax.flax.modules.online_optimizer import OnlineOptimizer
from wax.flax.modules.online_supervised_learner import OnlineSupervisedLearner, SimpleOnlineLearner
from wax.flax.modules.optax_optimizer import OptaxOptimizer
from wax.flax.modules.update_params import UpdateParams

PROPERTY = "F08"
ASSUMPTIONS = [
    "flax.linen, optax and haiku are trusted",
    "infinite gradients are not specified (replaced by the largest number or by zero)",
    "the state of a Flax model starts with the one of its initialisation, which is a first step",
]
KEY = jax.random.PRNGKey(2)
NAN = np.nan
START = {"a": {"w": 0.5, "b": -1.0}, "c": {"w": 2.0}}
OPTS = {
    "sgd": lambda: optax.sgd(0.1),
    "momentum": lambda: optax.sgd(0.1, momentum=0.5),
    "adamw": lambda: optax.adamw(0.05, weight_decay=0.1),
}


def const(v):
    return lambda *_: jnp.float32(v)


class Affine(nn.Module):
    @nn.compact
    def __call__(self, x):
        return self.param("w", const(0.5)) * x + self.param("b", const(-1.0))


class Scale(nn.Module):
    @nn.compact
    def __call__(self, x):
        return self.param("w", const(2.0)) * x


class Model(nn.Module):
    """c.w * (a.w * x + a.b)."""

    def setup(self):
        self.a, self.c = Affine(), Scale()

    def __call__(self, x):
        return self.c(self.a(x))


class Loss(nn.Module):
    """Squared error of the model; outputs: none, prediction, or prediction and steps."""

    aux: int = 0

    def setup(self):
        self.a, self.c = Affine(), Scale()

    @nn.compact
    def __call__(self, x, y):
        pred = self.c(self.a(x))
        loss = (pred - y) ** 2
        if self.aux == 0:
            return loss
        if self.aux == 1:
            return loss, pred
        n = self.variable("state", "n", lambda: jnp.int32(0))
        n.value = n.value + 1
        return loss, pred, n.value


def haiku_loss(aux):
    def f(x, y):
        get = lambda m, n: hk.get_parameter(f"{m}_{n}", [], init=lambda *_: jnp.float32(START[m][n]))  # noqa
        pred = get("c", "w") * (get("a", "w") * x + get("a", "b"))
        loss = (pred - y) ** 2
        if aux == 0:
            return loss
        if aux == 1:
            return loss, pred
        n = hk.get_state("n", [], jnp.int32, init=jnp.zeros) + 1
        hk.set_state("n", n)
        return loss, pred, n

    return f


def gradients(p, x, y, reg=0.0):
    h = p["a"]["w"] * x + p["a"]["b"]
    e = 2 * (p["c"]["w"] * h - y)
    return {"a": {"w": e * p["c"]["w"] * x + reg, "b": e * p["c"]["w"]}, "c": {"w": e * h}}


LEAVES = [("a", "w"), ("a", "b"), ("c", "w")]


def select(tree, leaves):
    out = {}
    for m, n in leaves:
        out.setdefault(m, {})[n] = tree[m][n]
    return out


def reference(opt, X, Y, trainable, reg=0.0, project=None):
    """Losses, predictions, gradients and parameters after each step; the optimiser itself is
    the one of optax, on float32 arrays over all the histories."""
    N = X.shape[1]
    p = {m: {n: np.full(N, v, np.float32) for n, v in d.items()} for m, d in START.items()}
    opt_state = jax.vmap(opt.init)(select(p, trainable)) if trainable else None
    out = []
    for x, y in zip(X, Y):
        pred = p["c"]["w"] * (p["a"]["w"] * x + p["a"]["b"])
        loss = (pred - y) ** 2 + reg * p["a"]["w"]
        g = select(gradients(p, x, y, reg), trainable)
        g = jax.tree_util.tree_map(lambda v: np.nan_to_num(v).astype(np.float32), g)
        p = {m: dict(d) for m, d in p.items()}
        if trainable:
            u, opt_state = jax.vmap(opt.update)(g, opt_state, select(p, trainable))
            new = jax.tree_util.tree_map(lambda a, b: np.asarray(a + b), select(p, trainable), u)
            for m, n in trainable:
                p[m][n] = project(new[m][n]) if project else new[m][n]
        out.append({"loss": loss, "pred": pred, "grads": g, "params": {m: dict(d) for m, d in p.items()}})
    return out


def data(T):
    pairs = [(1.0, 2.0), (-2.0, 0.5), (0.5, NAN)]
    idx = histories([0, 1, 2], T, dtype=np.int64)
    P = np.array(pairs, np.float32)
    return P[idx][..., 0], P[idx][..., 1]


def run(module, X, Y, pack):
    """Outputs of each step for all the histories."""

    def first(x, y):
        out, v = module.init_with_output(KEY, x, y)
        return pack(out), v

    def step(v, x, y):
        out, v = module.apply(v, x, y, mutable=True)
        return pack(out), v

    out, v = jax.jit(jax.vmap(first))(jnp.asarray(X[0]), jnp.asarray(Y[0]))
    outs = [to_np(out)]
    step = jax.jit(jax.vmap(step))
    for x, y in zip(X[1:], Y[1:]):
        out, v = step(v, jnp.asarray(x), jnp.asarray(y))
        outs.append(to_np(out))
    return outs


TOL = dict(rtol=2e-3, atol=2e-3)


def check_online(ex, opt, trainable, kind, aux, T, extra):
    X, Y = data(T)
    is_haiku = kind.startswith("haiku")
    trainable = [LEAVES[i] for i in trainable]
    names = {(f"{m}_{n}" if is_haiku else n) for m, n in trainable}
    kw = {}
    if len(trainable) < 3:
        if is_haiku:
            kw["params_predicate"] = lambda m, n, v: n in names
        else:
            kw["params_predicate"] = lambda m, n, v: (m, n) in trainable
    reg, project = 0.0, None
    if extra:
        reg = 0.5
        if is_haiku:
            kw["regularize_loss"] = lambda loss, p, a: loss + 0.5 * p["~"]["a_w"]
        else:
            kw["regularize_loss"] = lambda loss, p, a: loss + 0.5 * p["a"]["w"]
        kw["project_params"] = lambda p: jax.tree_util.tree_map(lambda v: jnp.clip(v, -1.25, 0.75), p)
        project = lambda v: np.clip(v, -1.25, 0.75)  # noqa
    model = {
        "module": lambda: Loss(aux),
        "transform": lambda: flax_transform_with_state(Loss(aux)),
        "haiku": lambda: haiku_loss(aux),
        "haiku transform": lambda: hk.transform_with_state(haiku_loss(aux)),
    }[kind]()
    want = reference(OPTS[opt](), X, Y, trainable, reg, project)
    tree = lambda d: {"~": {f"{m}_{n}": v for m, r in d.items() for n, v in r.items()}} if is_haiku else d  # noqa
    wrap = OPTS[opt]() if T % 2 else OptaxOptimizer(opt=OPTS[opt]())
    outs = run(
        OnlineOptimizer(model, wrap, **kw), X, Y,
        lambda o: {"loss": o.loss, "aux": () if o.aux is None else o.aux, "grads": unfreeze(o.grads), "params": unfreeze(o.params)},
    )
    for t, (got, w) in enumerate(zip(outs, want)):
        ex.same_array(got["loss"], w["loss"], f"loss at {t}", **TOL)
        ex.same_tree(got["grads"], tree(w["grads"]), f"gradients at {t}", **TOL)
        ex.same_tree(got["params"], tree(w["params"]), f"parameters at {t}", **TOL)
        if aux == 0:
            ex.check(got["aux"] == (), "nothing else is returned", got["aux"])
        elif aux == 1:
            ex.same_array(got["aux"], w["pred"], f"prediction at {t}", **TOL)
        else:
            ex.same_array(got["aux"][0], w["pred"], f"prediction at {t}", **TOL)
            ex.same_array(got["aux"][1], np.full(X.shape[1], t + 1 + (not is_haiku)), f"steps of the model at {t}")
    ex.explored_histories(np.where(np.isnan(Y), 9, X))
    ex.sample(x=X[:, -2], y=Y[:, -2], loss=[o["loss"][-2] for o in outs])


def check_func(ex, opt, trainable, aux, T):
    X, Y = data(T)
    trainable = [LEAVES[i] for i in trainable]
    names = set(trainable)
    value = {0.5: ("a", "w"), -1.0: ("a", "b"), 2.0: ("c", "w")}
    kw = {}
    if len(trainable) < 3:
        # chosen by the name and the initial value (only called once, on the initial values)
        if len(trainable) == 2 and {n for _, n in trainable} == {"w"}:
            kw["params_predicate"] = lambda m, n, v: n == "w"
        elif trainable == [("a", "b")]:
            kw["params_predicate"] = lambda m, n, v: n == "b"
        elif trainable == []:
            kw["params_predicate"] = lambda m, n, v: False
        else:
            return
    del names, value
    want = reference(OPTS[opt](), X, Y, trainable)
    wrap = OPTS[opt]() if T % 2 else OptaxOptimizer(opt=OPTS[opt]())
    outs = run(
        FuncOptimizer(Loss(int(aux)), wrap, has_aux=aux, **kw), X, Y,
        lambda o: {"loss": o[0][0] if aux else o[0], "pred": o[0][1] if aux else (), "grads": unfreeze(o[1])},
    )
    for t, (got, w) in enumerate(zip(outs, want)):
        ex.same_array(got["loss"], w["loss"], f"loss at {t}", **TOL)
        g = got["grads"].get("params", got["grads"]) if got["grads"] else {}
        ex.same_tree(g, w["grads"], f"gradients at {t}", **TOL)
        if aux:
            ex.same_array(got["pred"], w["pred"], f"prediction at {t}", **TOL)
    ex.explored_histories(np.where(np.isnan(Y), 9, X))


def check_learner(ex, opt, simple, pure, T):
    X, Y = data(T)
    trainable = [] if pure else LEAVES
    want = reference(OPTS[opt](), X, Y, trainable)
    model = (lambda x: 2.0 * (0.5 * x - 1.0)) if pure else Model()
    cls = SimpleOnlineLearner if simple else OnlineSupervisedLearner
    m = cls(model, lambda p, y: (p - y) ** 2, OPTS[opt]())
    outs = run(m, X, Y, (lambda o: {"pred": o[0], "loss": o[1]}) if simple else lambda o: {"pred": o[0], "loss": o[1]["loss"], "grads": unfreeze(o[1]["grads"])})
    for t, (got, w) in enumerate(zip(outs, want)):
        ex.same_array(got["loss"], w["loss"], f"loss at {t}", **TOL)
        ex.same_array(got["pred"], w["pred"], f"prediction at {t}", **TOL)
        if not simple:
            g = got["grads"]
            while g and set(g) != set(w["grads"]) and len(g) == 1:
                (g,) = g.values()
            ex.same_tree(g, w["grads"], f"gradients at {t}", **TOL)
    ex.explored_histories(np.where(np.isnan(Y), 9, X))


class Heads(nn.Module):
    """Two outputs, with parameters of their own or elements of one vector."""

    vector: bool

    @nn.compact
    def __call__(self, t):
        if self.vector:
            return self.param("p", lambda *_: jnp.array([0.25, -0.5])) * jnp.array([2.0, 3.0])
        return jnp.stack([self.param("a", const(0.25)) * 2.0, self.param("b", const(-0.5)) * 3.0])


class HeadsLoss(nn.Module):
    vector: bool

    @nn.compact
    def __call__(self, t):
        y = Heads(self.vector, name="m")(t)
        return jnp.sum((y - t) ** 2), y


def check_heads(ex, opt, kind, vector, T):
    """When the target of one of the outputs is missing, the loss is missing but the parameters of
    the other one are still updated."""
    symbols = np.array([(1.0, 0.5), (NAN, -1.0), (2.0, NAN), (NAN, NAN)], np.float32)
    H = symbols[histories(np.arange(4), T, np.int64)]  # (T, N, 2)
    N = H.shape[1]
    if kind == "online":
        m = OnlineOptimizer(HeadsLoss(vector), OPTS[opt]())
        pack = lambda o: (o.loss, o.aux, unfreeze(o.grads))  # noqa
    elif kind == "function":
        m = FuncOptimizer(HeadsLoss(vector), OPTS[opt](), has_aux=True)
        pack = lambda o: (*o[0], unfreeze(o[1]))  # noqa
    else:
        cls = SimpleOnlineLearner if kind == "simple learner" else OnlineSupervisedLearner
        m = cls(Heads(vector), lambda p, y: jnp.sum((p - y) ** 2), OPTS[opt]())
        pack = lambda o: (o[1], o[0], {}) if kind == "simple learner" else (o[1]["loss"], o[0], unfreeze(o[1]["grads"]))  # noqa

    if kind.endswith("learner"):
        outs = run(m, H, H, pack)
    else:

        class One(nn.Module):
            def setup(self):
                self.m = m.clone()

            def __call__(self, t, _):
                return self.m(t)

        outs = run(One(), H, H, pack)
    p = np.tile([0.25, -0.5], (N, 1))
    o = OPTS[opt]()
    tree = lambda p: {"a": jnp.asarray(p[:, 0], jnp.float32), "b": jnp.asarray(p[:, 1], jnp.float32)}  # noqa
    back = lambda u: np.stack([np.asarray(u["a"], np.float64), np.asarray(u["b"], np.float64)], -1)  # noqa
    if vector:
        tree = lambda p: {"p": jnp.asarray(p, jnp.float32)}  # noqa
        back = lambda u: np.asarray(u["p"], np.float64)  # noqa
    opt_state = jax.vmap(o.init)(tree(p))
    update = jax.jit(jax.vmap(o.update))
    for k, (loss, y, grads) in enumerate(outs):
        want = p * np.array([2.0, 3.0])
        r = want - H[k]
        ex.same_array(loss, np.sum(r**2, -1), f"loss at {k}", **TOL)
        ex.same_array(y, want, f"outputs at {k}", **TOL)
        g = np.nan_to_num(2 * r * np.array([2.0, 3.0]))
        if grads:
            while not set(grads) & {"a", "b", "p"}:
                (grads,) = grads.values()
            ex.same_tree(grads, to_np(tree(g)), f"gradients at {k}", **TOL)
        u, opt_state = update(tree(g), opt_state, tree(p))
        p = p + back(u)
    ex.explored_histories(H)


def check_optax(ex, opt, T):
    """The update of optax on given gradients, the state being kept."""
    G = histories([1.0, -0.5, 0.0], T)
    p0 = np.linspace(-1, 1, G.shape[1]).astype(np.float32)
    ref = OPTS[opt]()
    m = OptaxOptimizer(opt=OPTS[opt]())
    p, q = {"u": p0, "v": (2 * p0,)}, {"u": p0, "v": (2 * p0,)}
    s = ref.init(q)
    v = None
    for t, g in enumerate(G):
        g = {"u": jnp.asarray(g), "v": (jnp.asarray(-g),)}
        if v is None:
            (p, info), v = m.init_with_output(KEY, p, g)
        else:
            (p, info), v = m.apply(v, p, g, mutable=True)
        u, s = ref.update(g, s, q)
        q = jax.tree_util.tree_map(lambda a, b: a + b, q, u)
        ex.same_tree(to_np(p), to_np(q), f"parameters at {t}")
        ex.same_tree(to_np(jax.tree_util.tree_leaves(info)), to_np(jax.tree_util.tree_leaves(s)), f"state at {t}")
    ex.explored_histories(G)


def check_partition(ex):
    """Every subset of the parameters of trees: partitioned and merged back."""
    trees = [
        {"a": {"w": 1, "b": 2}, "c": {"b": 3, "d": {"w": 4, "x": 5}}},
        {"w": 1, "b": 2},
        {"m": {"n": {"o": {"p": 1, "q": 2}}, "r": 3}},
    ]

    def flat(d, path=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from flat(v, path + (k,))
            else:
                yield path + (k,), v

    for tree in trees:
        leaves = dict(flat(tree))
        for r in range(len(leaves) + 1):
            for chosen in itertools.combinations(leaves, r):
                seen = []

                def predicate(module, name, value):
                    seen.append((module, name, value))
                    return value in [leaves[c] for c in chosen]

                u = UpdateParams(lambda: 0, predicate)
                t, n = u.partition_params(tree)
                ex.equal(dict(flat(t)), {k: v for k, v in leaves.items() if k in chosen}, f"trainable, {chosen}")
                ex.equal(dict(flat(n)), {k: v for k, v in leaves.items() if k not in chosen}, f"others, {chosen}")
                ex.equal(dict(flat(u.merge_params(t, n))), leaves, f"merged, {chosen}")
                ex.equal(sorted(seen), sorted((k[0], k[-1], v) for k, v in leaves.items()), "given to the predicate")
                ex.explored(3, 3, 1)
        t, n = UpdateParams(lambda: 0).partition_params(tree)
        ex.equal((t, n), (tree, {}), "no predicate")


class Agent(nn.Module):
    """Accumulates what it is given."""

    rewarded: bool = True

    @nn.compact
    def __call__(self, obs, *reward):
        if reward and not self.rewarded:
            raise TypeError("no reward expected")
        s = self.variable("state", "s", lambda: jnp.zeros_like(obs))
        s.value = s.value + obs + (10.0 * reward[0] if reward else 0.0)
        return -s.value


def check_gym(ex, kind, rewarded, loop, T):
    O = histories([1.0, -2.0, 0.5], T)
    R = O[:, ::-1] * 3
    if kind == "module":
        agent = Agent(rewarded != "refused")
    elif rewarded == "refused":
        agent = lambda o: 2 * o  # noqa
    else:
        agent = lambda o, *r: 2 * o + (r[0] if r else 0)  # noqa
    m = (GymFeedbackLoop if loop else GymFeedback)(agent)
    v = None
    s = np.zeros(O.shape[1])
    for t in range(T):
        args = (jnp.asarray(O[t]),) + ((jnp.asarray(R[t]),) if rewarded else ())
        if v is None:
            out, v = m.init_with_output(KEY, *args)
        else:
            out, v = m.apply(v, *args, mutable=True)
        used = R[t] if rewarded == "given" else 0.0
        s = s + O[t] + 10.0 * used
        action = -s if kind == "module" else 2 * O[t] + used
        if loop:
            ex.same_tree(to_np(tuple(out)), (O[t], action, R[t] if rewarded else np.float32(0)), f"step {t}")
        else:
            ex.same_columns(to_np(out)[None], action[None], O[: t + 1, :][None, -1], f"step {t}")
        prev = [np.asarray(x) for p, x in jax.tree_util.tree_leaves_with_path(v["state"]) if "prev_action" in str(p)]
        if prev:
            ex.same_array(prev[0], action, f"action kept at {t}")
    ex.explored_histories(O)


def tasks(tier):
    th = tier == "thorough"
    res = []
    subsets = [s for r in (3, 2, 1, 0) for s in itertools.combinations(range(3), r)]
    kinds = ("module", "transform", "haiku", "haiku transform")
    for opt, kind, aux, extra in itertools.product(OPTS, kinds, (0, 1, 2), (False, True)):
        i = list(OPTS).index(opt) + kinds.index(kind) + aux + extra
        for k, sub in enumerate(subsets[:7]):
            if not th and (i + k) % 6 and not (k == 0 and (i % 3 == 0)):
                continue
            if kind == "transform" and aux == 2 and sub == ():
                continue
            T = 6 if th else 4 + (i % 2)
            res.append(
                Task(
                    f"online:{opt},{kind},{aux},{extra},{''.join(map(str, sub))}", check_online,
                    dict(opt=opt, trainable=sub, kind=kind, aux=aux, T=T, extra=extra),
                )
            )
    for opt, sub, aux in itertools.product(OPTS, [(0, 1, 2), (0, 2), (1,), ()], (False, True)):
        res.append(Task(f"func:{opt},{''.join(map(str, sub))},{aux}", check_func, dict(opt=opt, trainable=sub, aux=aux, T=5 if th else 4 - aux)))
    for opt, simple, pure in itertools.product(OPTS, (False, True), (False, True)):
        res.append(Task(f"learner:{opt},{simple},{pure}", check_learner, dict(opt=opt, simple=simple, pure=pure, T=6 if th else 4)))
    for opt, kind, vector in itertools.product(OPTS, ("online", "function", "learner", "simple learner"), (False, True)):
        res.append(Task(f"heads:{opt},{kind},{vector}", check_heads, dict(opt=opt, kind=kind, vector=vector, T=5 if th else 3)))
    for opt in OPTS:
        res.append(Task(f"optax:{opt}", check_optax, dict(opt=opt, T=7 if th else 5)))
    res.append(Task("partition", check_partition))
    for kind, rewarded, loop in itertools.product(("function", "module"), ("", "given", "refused"), (False, True)):
        res.append(Task(f"gym:{kind},{rewarded},{loop}", check_gym, dict(kind=kind, rewarded=rewarded, loop=loop, T=7 if th else 5)))
    return res
