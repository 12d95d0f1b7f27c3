"""G01: the feedback loop between an agent and an environment (GymFeedback).

All histories of raw observations over the alphabet x agents and environments (with and
without state, nested actions and observations) x options, against the loop written in numpy:
env(previous action, raw observation) then agent(observation).
"""

import itertools
from typing import Any, NamedTuple

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, histories
from mc.haikutools import run_columns, to_np
from wax.modules import GymFeedback
from wax.unroll import unroll

PROPERTY = "G01"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them"]
KEY = jax.random.PRNGKey(1)
ALPHABET = [1.0, 0.0, -2.0, np.nan]


# agents and environments are written once, with get/set of their state abstracted
def agent_rule(kind, obs, s):
    """action, info, state."""
    if kind == "stateless":
        return obs + 1.0, {}, s
    if kind == "stateful":
        s = 0.5 * s + obs
        return s - obs, {"s": s}, s
    if kind == "nested":  # nested observations and actions
        s = s + obs["o"][0]
        return {"a": (s, obs["raw"])}, (s,), s
    if kind == "constant":
        return 0.0 * s + 3.0, {}, s
    raise ValueError(kind)


def env_rule(kind, action, raw, s):
    """reward, obs, info, state."""
    if kind == "stateless":
        return action * raw, raw + action, {}, s
    if kind == "stateful":
        s = s + raw * 0.25
        return action * s, s - action, {"s": s}, s
    if kind == "nested":
        s = s + action["a"][0]
        return {"r": raw - s, "a": action["a"][1]}, {"o": [raw + s], "raw": raw}, {"s": s}, s
    raise ValueError(kind)


class WithState(hk.Module):
    def __init__(self, rule, kind, name):
        super().__init__(name=name)
        self.rule, self.kind = rule, kind

    def __call__(self, *args):
        ref = jax.tree_util.tree_leaves(args)[0]
        s = hk.get_state("s", ref.shape, ref.dtype, init=jnp.zeros)
        *res, s = self.rule(self.kind, *args, s)
        hk.set_state("s", s)
        return tuple(res)


def reference(X, agent, env, init_action):
    T, N = X.shape
    sa, se = np.zeros(N), np.zeros(N)
    if init_action is None:
        obs0 = {"o": [X[0]], "raw": X[0]} if agent == "nested" else X[0]
        action = agent_rule(agent, obs0, np.zeros(N))[0]  # the state it leaves is forgotten
    else:
        action = init_action
    out = []
    for t in range(T):
        rw, obs, ie, se = env_rule(env, action, X[t].astype(np.float64), se)
        action, ia, sa = agent_rule(agent, obs, sa)
        out.append(({"reward": rw, "obs": obs, "action": action}, {"env": ie, "agent": ia}))
    return jax.tree_util.tree_map(lambda *v: np.stack([np.broadcast_to(k, N) for k in v]), *out)


def check(ex, agent, env, init, obs, act, layout, T):
    X = histories(ALPHABET, T)
    N = X.shape[1]
    start = None
    if init == "given":
        start = {"a": (2.0, -1.0)} if agent == "nested" else 2.0
    elif init == "zero":
        start = {"a": (0.0, 0.0)} if agent == "nested" else 0.0

    def fun(raw):
        module = WithState(agent_rule, agent, "agent")
        if agent == "nested":
            a = lambda o: module(o if isinstance(o, dict) else {"o": [o], "raw": o})
        else:
            a = module
        e = WithState(env_rule, env, "env")
        kw = {} if start is None else dict(init_action=jax.tree_util.tree_map(lambda v: jnp.full(raw.shape, v), start))
        return GymFeedback(a, e, return_obs=obs, return_action=act, **kw)(raw)

    out, info = run_columns(fun, X, layout=layout)
    want, winfo = reference(X, agent, env, None if start is None else jax.tree_util.tree_map(lambda v: np.full(N, v), start))
    fields = ["reward"] + ["obs"] * obs + ["action"] * act
    ex.equal(list(out._fields), fields, "fields")
    for f in fields:
        g, w = jax.tree_util.tree_leaves(getattr(out, f)), jax.tree_util.tree_leaves(want[f])
        if ex.check(len(g) == len(w), f, "structure"):
            for k, (a, b) in enumerate(zip(g, w)):
                ex.same_columns(a, b, X, f"{f}/{k}")
    for f in ("env", "agent"):
        g, w = jax.tree_util.tree_leaves(getattr(info, f)), jax.tree_util.tree_leaves(winfo[f])
        if ex.check(len(g) == len(w), f"info {f}", "structure"):
            for k, (a, b) in enumerate(zip(g, w)):
                ex.same_columns(a, b, X, f"info {f}/{k}")
    ex.explored_histories(X)
    ex.sample(history=X[:, 9], reward=jax.tree_util.tree_leaves(want["reward"])[0][:, 9])


def check_random(ex, T):
    """An agent drawing random numbers: same results as the loop applied by hand."""

    class Agent(hk.Module):
        def __call__(self, obs):
            return jax.random.uniform(hk.next_rng_key(), obs.shape), {}

    class Env(hk.Module):
        def __call__(self, action, raw):
            return action * raw, raw, {"previous": action}

    X = jnp.arange(1.0, T + 1)
    for seed in range(6):
        out, info = to_np(
            unroll(
                lambda raw: GymFeedback(Agent(), Env(), return_action=True)(raw),
                rng=jax.random.PRNGKey(seed),
                dynamic=True,
            )(X)
        )
        ex.check(len(np.unique(out.action)) == T, f"actions {seed}", out.action)
        ex.same_array(info.env["previous"][1:], out.action[:-1], f"previous action {seed}")
        ex.same_array(out.reward, info.env["previous"] * np.asarray(X), f"reward {seed}")
        ex.explored(T, T, 1)


class Point(NamedTuple):
    x: Any
    y: Any = None


KINDS = {
    "none": lambda v: None,
    "array": lambda v: v,
    "empty": lambda v: {},
    "dict": lambda v: {"k": v, "l": {"m": 2 * v}},
    "tuple": lambda v: (v, None),
    "list": lambda v: [v, -v],
    "namedtuple": lambda v: Point(v),
    "nothing in tuple": lambda v: (),
    "integer": lambda v: jnp.int32(0) * v.astype(jnp.int32) + 7 if isinstance(v, jnp.ndarray) else np.int32(7),
    "falsy": lambda v: v * 0,
}


def check_structure(ex, what, T):
    """Every kind of value for two of: information of the environment, information of the agent,
    reward, observation, action; exactly these values, in these structures, are passed on."""
    data = np.arange(1.0, T + 1, dtype=np.float32)
    for kinds in itertools.product(KINDS, repeat=2):
        kind = dict(ie="dict", ia="dict", reward="array", obs="array", action="array")
        kind.update(zip(what, kinds))
        make = {k: KINDS[v] for k, v in kind.items()}
        seen = []

        def env(action, raw):
            seen.append(("env", jax.tree_util.tree_structure(action)))
            n = sum([jnp.sum(a) for a in jax.tree_util.tree_leaves(action)], jnp.float32(0))
            return make["reward"](raw + n), make["obs"](raw * 2 + n), make["ie"](raw + 100 + n)

        def agent(obs):
            seen.append(("agent", jax.tree_util.tree_structure(obs)))
            n = sum([jnp.sum(a) for a in jax.tree_util.tree_leaves(obs)], jnp.float32(0))
            return make["action"](n * 3), make["ia"](n + 200)

        start = make["action"](jnp.float32(0.5))
        fun = hk.transform_with_state(lambda raw: GymFeedback(agent, env, True, True, start)(raw))
        params, state = fun.init(KEY, data[0])
        total = lambda tree: sum(float(np.sum(a)) for a in jax.tree_util.tree_leaves(tree))  # noqa
        action = KINDS[kind["action"]](np.float32(0.5))
        for t, raw in enumerate(data):
            (out, info), state = fun.apply(params, state, None, raw)
            n = np.float32(total(action))
            want = {"reward": make["reward"](raw + n), "obs": make["obs"](raw * 2 + n)}
            ie = make["ie"](raw + 100 + n)
            m = np.float32(total(want["obs"]))
            action = want["action"] = make["action"](m * 3)
            ia = make["ia"](m + 200)
            for f, w in want.items():
                ex.same_tree(to_np(getattr(out, f)), to_np(w), f"{f} {kinds} {t}", rtol=1e-4)
            ex.same_tree(to_np(info.env), to_np(ie), f"information of the environment {kinds} {t}", rtol=1e-4)
            ex.same_tree(to_np(info.agent), to_np(ia), f"information of the agent {kinds} {t}", rtol=1e-4)
            for tree, names in [(out, "outputs"), (info, "information")]:
                w = (want["reward"], want["obs"], want["action"]) if names == "outputs" else (ie, ia)
                ex.equal(
                    jax.tree_util.tree_structure(tuple(tree)), jax.tree_util.tree_structure(w), f"structure of the {names} {kinds}"
                )
        if start is None:  # no action given: it is asked to the agent, on the raw observation
            seen.remove(("agent", jax.tree_util.tree_structure(0)))
        sa, so = jax.tree_util.tree_structure(action), jax.tree_util.tree_structure(want["obs"])
        ex.check(all(s == (sa if who == "env" else so) for who, s in seen), f"given {kinds}", repr(seen))
        ex.explored(T, T, 1)


def tasks(tier):
    T = 6 if tier == "thorough" else 5
    res = [Task("random", check_random, dict(T=50 if tier == "thorough" else 20))]
    for what in itertools.combinations(("ie", "ia", "reward", "obs", "action"), 2):
        res.append(Task(f"structure:{','.join(what)}", check_structure, dict(what=what, T=3)))
    pairs = [(a, e) for a in ("stateless", "stateful", "constant") for e in ("stateless", "stateful")]
    pairs.append(("nested", "nested"))
    for agent, env in pairs:
        for init in ("agent", "given", "zero"):
            for obs, act in [(False, False), (True, False), (False, True), (True, True)]:
                layouts = ["flat", "scalar", "tensor"] if obs and act else ["flat"]
                for layout in layouts:
                    res.append(
                        Task(
                            f"feedback:{agent},{env},{init},{obs},{act},{layout}",
                            check,
                            dict(agent=agent, env=env, init=init, obs=obs, act=act, layout=layout, T=T),
                        )
                    )
    return res
