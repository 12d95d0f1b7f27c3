"""F06: state patterns: state machines, hierarchies, conditional updates, attention, composition.

The real modules and decorators are run from every state reached by a sequence of inputs on
every next input (the tree of all the sequences up to the bound, a state being used again for
each of its successors), for all small transition tables, dependency graphs and compositions.
Each output is compared with a model; the states given must not be modified.
"""

import itertools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import unfreeze

from mc.core import Task
from mc.haikutools import to_np
from wax.flax.core.advanced_state_patterns import (
    AttentionBasedStateSelector,
    CompositeStateManager,
    HierarchicalStateMachine,
    streaming_attention_state,
    streaming_compose_states,
    streaming_state_machine,
)
from wax.flax.core.streaming_transforms import (
    ConditionalStateUpdate,
    HierarchicalState,
    StreamingStateMachine,
    conditional_update,
    hierarchical_composition,
    state_machine,
)

PROPERTY = "F06"
ASSUMPTIONS = [
    "flax.linen is trusted",
    "modules without parameters in the states of a state machine and in conditional updates (the "
    "parameters of a module which is not called by the initialisation are not created)",
]
KEY = jax.random.PRNGKey(11)


class Acc(nn.Module):
    """Sum of k times the inputs, plus the keyword arguments times their weights."""

    k: float = 1.0

    @nn.compact
    def __call__(self, x, **others):
        s = self.variable("state", "s", lambda: jnp.float32(0.0))
        s.value = s.value + self.k * x
        return s.value + sum(WEIGHTS[n] * v for n, v in others.items())


WEIGHTS = {"a": 10.0, "b": 100.0, "c": 1000.0, "d": 10000.0}


class System:
    """Two ways of running a module or a streaming transform eagerly."""

    def __init__(self, module=None, transform=None, keyword=None):
        self.module, self.transform, self.keyword = module, transform, keyword

    def args(self, x):
        x = jax.tree_util.tree_map(jnp.asarray, x)
        return ((), {self.keyword: x}) if self.keyword else ((x,), {})

    def init(self, x):
        a, k = self.args(x)
        if self.module is not None:
            out, variables = self.module.init_with_output(KEY, *a, **k)
            return out, variables
        return None, self.transform.init(KEY, *a, **k)

    def step(self, variables, x):
        a, k = self.args(x)
        if self.module is not None:
            out, new = self.module.apply(variables, *a, mutable=True, **k)
            return out, new
        params, state = variables
        out, state = self.transform.apply(params, state, None, *a, **k)
        return out, (params, state)


def leaves(x):
    x = jax.tree_util.tree_map(lambda v: v, unfreeze(x) if hasattr(x, "unfreeze") else x)
    return [repr(v) if isinstance(v, str) else np.asarray(v).tolist() for v in jax.tree_util.tree_leaves(x)]


def explore(ex, system, model, alphabet, T, compare):
    """Tree of all the sequences of inputs of length up to T: model is (initial, step) with
    step(state, x) -> (output, state); the initialisation is already a step."""
    init, step = model
    start = time = 0
    for x0 in alphabet[:2]:
        out, variables = system.init(x0)
        want, m = step(init, x0)
        if out is not None:
            compare(out, want, [x0])
        todo = [(variables, m, [x0])]
        while todo:
            variables, m, hist = todo.pop()
            start += 1
            if len(hist) > T:
                continue
            kept = leaves(variables)
            for x in alphabet:
                out, new = system.step(variables, x)
                want, m2 = step(m, x)
                h = hist + [x]
                compare(out, want, h)
                time += 1
                todo.append((new, m2, h))
            ex.check(leaves(variables) == kept, f"state modified after {hist}", history=hist)
    ex.explored(start, time, time)


# -- finite state machines --------------------------------------------------------------------

CONDITIONS = {"+": lambda x: x > 0, "-": lambda x: x < 0, "!": lambda x: x != 0}
NAMES = "abc"


def tables_of(name):
    """Transitions of a state: in order, to the other states."""
    p, q = (n for n in NAMES if n != name)
    return [None, {p: "+"}, {q: "-"}, {p: "+", q: "!"}, {q: "!", p: "+"}, {q: "-", p: "+"}, {name: "+", p: "!"}]


def machine_model(table, initial, ks):
    def step(state, x):
        current, sums = state
        sums = dict(sums)
        sums[current] += ks[current] * x
        nxt = current
        for target, c in (table[current] or {}).items():
            if bool(CONDITIONS[c](x)):
                nxt = target
                break
        return (sums[current], nxt), (nxt, sums)

    return (initial, dict.fromkeys(NAMES, 0.0)), step


def check_machine(ex, first, T, decorated):
    ks = {"a": 1.0, "b": 10.0, "c": 100.0}
    for second, third in itertools.product(range(7), range(7)):
        if (second + third) % (3 if decorated else 1) or (T > 3 and (second + 2 * third + first) % 2):
            continue
        table = {n: tables_of(n)[i] for n, i in zip(NAMES, (first, second, third))}
        transitions = {
            n: {target: CONDITIONS[c] for target, c in row.items()} for n, row in table.items() if row is not None
        }
        initial = NAMES[(first + second + third) % 3]
        if decorated:
            states = {n: (lambda k: lambda x: Acc(k)(x))(k) for n, k in ks.items()}

            @state_machine(states=states, transitions=transitions, initial_state=initial)
            def machine(x):
                pass

            system = System(transform=machine)
        else:
            system = System(StreamingStateMachine({n: Acc(k) for n, k in ks.items()}, transitions, initial))

        def compare(out, want, h):
            got = (float(out[0]), str(out[1]))
            ex.check(abs(got[0] - want[0]) < 1e-3 and got[1] == want[1], f"table {table} from {initial}", f"{h}: {got} != {want}", history=h)
            ex.outcome(np.float32(got[0]))

        explore(ex, system, machine_model(table, initial, ks), [1.0, -2.0, 0.0][: 2 if T > 3 else 3], T, compare)


# -- hierarchies ------------------------------------------------------------------------------


def graphs(names, forward):
    """All the dependency graphs (forward: only on earlier names)."""
    pairs = [(n, d) for i, n in enumerate(names) for d in (names[:i] if forward else names) if d != n]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        deps = {}
        for (n, d), b in zip(pairs, bits):
            if b:
                deps.setdefault(n, []).append(d)
        yield deps


def check_hierarchy(ex, T, decorated):
    names = "abc"
    ks = {"a": 1.0, "b": -1.0, "c": 2.0}
    for deps in graphs(names, True) if not decorated else [{}]:
        modules = {n: Acc(ks[n]) for n in names}
        if decorated:

            @hierarchical_composition(**modules)
            def f(x):
                pass

            system = System(transform=f, keyword="x")
        else:
            system = System(HierarchicalState(modules, deps or None), keyword="x")

        def step(sums, x):
            sums = {n: sums[n] + ks[n] * x for n in names}
            out = {}
            for n in names:
                out[n] = sums[n] + sum(WEIGHTS[d] * out[d] for d in deps.get(n, []))
            return out, sums

        def compare(out, want, h):
            ex.same_tree(to_np(dict(out)), want, f"dependencies {deps}", history=h)

        explore(ex, system, (dict.fromkeys(names, 0.0), step), [1.0, -2.0], T, compare)


def check_conditional(ex, T):
    for (cname, cond), decorated in itertools.product(CONDITIONS.items(), (False, True)):
        if decorated:
            system = System(transform=conditional_update(cond)(lambda x: Acc(3.0)(x) + 0.25))
            extra = 0.25
        else:
            system = System(ConditionalStateUpdate(Acc(3.0), cond))
            extra = 0.0

        def step(s, x):
            if cond(x):
                return s + 3.0 * x + extra, s + 3.0 * x
            return x, s

        def compare(out, want, h):
            ex.same_array(out, np.float32(want), f"condition {cname}, decorated={decorated}", history=h)

        explore(ex, system, (0.0, step), [1.0, -2.0, 0.0], T, compare)


# -- coordinated state machines ---------------------------------------------------------------

CALLS = []


class Rec(nn.Module):
    """Records that it is called; its output depends on the form asked."""

    name_: str = "a"
    form: str = "array"

    @nn.compact
    def __call__(self, x):
        CALLS.append(self.name_)
        s = self.variable("state", "s", lambda: jnp.float32(0.0))
        if self.form == "fails" and bool(x < 0):
            raise RuntimeError(f"no negative for {self.name_}")
        s.value = s.value + x
        return rec_output(self.name_, self.form, s.value)


def rec_output(name, form, s):
    w = WEIGHTS[name] / 10
    if form == "dict":
        return {"v": w * s, "w": s + w}
    if form == "other":
        return {"w": 2 * s, "z": s}
    return s + w


def acyclic(deps, names):
    done = set()
    while True:
        ready = {n for n in names if n not in done and all(d in done for d in deps.get(n, []))}
        if not ready:
            return len(done) == len(names)
        done |= ready


def check_order(ex, n, called):
    """Every dependency graph: each state machine is run once, after the ones it depends on."""
    names = "abcd"[:n]
    for deps in graphs(names, False):
        fine = acyclic(deps, names)
        orders = list(itertools.permutations(names)) if called else [tuple(names), tuple(names[::-1])]
        for order in orders if not called or n < 3 else orders[:: 2 if fine else 5]:
            m = HierarchicalStateMachine({k: Rec(k) for k in order}, deps or None)
            if called:
                CALLS.clear()
                m.init_with_output(KEY, jnp.float32(1.0))
                ran = list(CALLS)
            else:
                ran = list(m.get_execution_order(list(order)))
            ex.check(sorted(ran) == list(names), f"dependencies {deps}", f"ran {ran}")
            if fine:
                ok = all(ran.index(d) < ran.index(k) for k, v in deps.items() for d in v)
                ex.check(ok, f"dependencies {deps}", f"ran {ran}")
            if not called:
                for active in itertools.combinations(order, n - 1):
                    sub = {k: [d for d in v if d in active] for k, v in deps.items() if k in active}
                    got = list(m.get_execution_order(list(active)))
                    ok = sorted(got) == sorted(active)
                    if acyclic(sub, active):
                        ok = ok and all(got.index(d) < got.index(k) for k, v in sub.items() for d in v)
                    ex.check(ok, f"dependencies {deps}, active {active}", f"order {got}")
            ex.outcome(repr(ran))
            ex.explored(n, n, 1)


def depth_of(name, deps):
    return 1 + max((depth_of(d, deps) for d in deps[name]), default=-1) if deps.get(name) else 0


def coordinate(outs, deps, names):
    """Blend of each output with the ones of the higher levels, level after level."""
    depth = {n: depth_of(n, deps) for n in names}
    res = {}
    for n in sorted(names, key=lambda n: depth[n]):
        out = outs[n]
        for h in sorted(names, key=lambda n: depth[n]):
            if depth[h] < depth[n] and isinstance(out, dict) and isinstance(res[h], dict):
                out = {k: 0.9 * v + 0.1 * res[h][k] if k in res[h] else v for k, v in out.items()}
        res[n] = out
    return res


def check_coordination(ex, strategy, forms, T):
    names = "abc"
    seen = 0
    for order in (names, names[::-1]):
        for deps in graphs(names, False):
            if not acyclic(deps, names):
                continue
            seen += 1
            if len(order) == 3 and order != names and seen % 3:
                continue
            form = dict(zip(names, forms))
            modules = {n: Rec(n, form[n]) for n in order}
            for decorated in (False, True):
                if decorated and (seen % 4 or strategy == "parallel"):
                    continue
                if decorated:

                    @streaming_state_machine(modules, deps or None, strategy)
                    def f(outputs, x):
                        return {"o": outputs, "x": 5 * x}

                    system = System(transform=f)
                else:
                    system = System(HierarchicalStateMachine(modules, deps or None, strategy))

                def step(state, x):
                    sums, calls = state
                    sums = {n: s if form[n] == "fails" and x < 0 else s + x for n, s in sums.items()}
                    outs = {n: rec_output(n, "array" if form[n] == "fails" else form[n], sums[n]) for n in names}
                    failed = {n for n in names if form[n] == "fails" and x < 0}
                    if strategy == "hierarchical":
                        outs = coordinate(outs, deps, order)  # at a level: in the order given
                    return (outs, failed, calls + 1), (sums, calls + 1)

                def compare(out, want, h):
                    outs, failed, _ = want
                    if decorated:
                        ex.same_array(out["x"], 5 * h[-1], f"{deps}/input given to the function")
                        out = out["o"]
                    got = dict(out)
                    for n in failed:
                        g = got.pop(n)
                        ex.check(g.get("status") == "failed" and f"no negative for {n}" in g.get("error", ""), f"{deps}/failure of {n}", g)
                    ex.same_tree(to_np(got), {n: o for n, o in outs.items() if n not in failed}, f"{deps},{order}", history=h)

                explore(ex, system, ((dict.fromkeys(names, 0.0), 0), step), [1.0, -2.0], T, compare)


def check_counters(ex, T):
    """The coordination state counts the updates of each state machine."""
    m = HierarchicalStateMachine({n: Rec(n) for n in "abc"}, {"c": ["a"]})
    _, v = m.init_with_output(KEY, jnp.float32(1.0))
    for t in range(T):
        c = v["state"]["coordination"]
        ex.same_array(c["last_updates"], np.full(3, t + 1), f"updates after {t + 1} calls")
        ex.same_array(c["num_active_states"], np.int32(3), "number of state machines")
        _, v = m.apply(v, jnp.float32(t), mutable=True)
    ex.explored(T, T, 1)


# -- composition ------------------------------------------------------------------------------


class Plus(nn.Module):
    """Arrays: sum so far.  Mappings: adds 1 to p, gives q."""

    @nn.compact
    def __call__(self, d):
        s = self.variable("state", "s", lambda: jnp.float32(0.0))
        v = d["p"] if isinstance(d, dict) else d
        s.value = s.value + v
        return {"p": v + 1, "q": s.value} if isinstance(d, dict) else s.value


class Double(nn.Module):
    @nn.compact
    def __call__(self, d):
        return {"q": 2 * d["p"]} if isinstance(d, dict) else 2 * d


class Influence(nn.Module):
    """Always a mapping, which tells what the next ones see."""

    @nn.compact
    def __call__(self, d):
        n = self.variable("state", "n", lambda: jnp.float32(0.0))
        n.value = n.value + 1
        v = d["p"] if isinstance(d, dict) else d
        return {"influence": {"p": v * n.value, "r": v} if isinstance(d, dict) else v * n.value, "p": v}


KINDS = {"plus": Plus, "double": Double, "influence": Influence}


def run_kind(kind, d, state):
    v = d["p"] if isinstance(d, dict) else d
    if kind == "plus":
        s = state + v
        return ({"p": v + 1, "q": s} if isinstance(d, dict) else s), s
    if kind == "double":
        return ({"q": 2 * v} if isinstance(d, dict) else 2 * v), state
    n = state + 1
    return {"influence": {"p": v * n, "r": v} if isinstance(d, dict) else v * n, "p": v}, n


def check_composition(ex, strategy, mapping, T):
    for kinds in itertools.chain.from_iterable(itertools.product(KINDS, repeat=r) for r in (1, 2, 3)):
        if mapping is False and strategy == "pipeline" and "influence" in kinds[:-1]:
            pass  # the next ones are given the mapping
        names = [f"p{i}" for i in range(len(kinds))]

        def step(states, x):
            data = {"p": x, "u": -x} if mapping else x
            outs, new = {}, []
            for n, k, s in zip(names, kinds, states):
                out, s = run_kind(k, data, s)
                outs[n] = out
                new.append(s)
                if strategy == "pipeline":
                    data = {**data, **out} if isinstance(out, dict) and isinstance(data, dict) else out
                elif strategy == "hierarchical" and isinstance(out, dict) and "influence" in out:
                    data = out["influence"]
            return outs, tuple(new)

        for decorated in (False, True):
            if decorated and len(kinds) != 2:
                continue
            modules = [KINDS[k]() for k in kinds]
            if decorated:

                @streaming_compose_states(*modules, strategy=strategy)
                def f(outputs, d):
                    return {"o": outputs, "d": d}

                system = System(transform=f)
            else:
                system = System(CompositeStateManager(dict(zip(names, modules)), strategy))
            inner = system.args
            system.args = lambda x: inner({"p": x, "u": -x} if mapping else x)

            def compare(out, want, h):
                if decorated:
                    ex.same_tree(to_np(out["d"]), {"p": h[-1], "u": -h[-1]} if mapping else h[-1], "input given to the function")
                    out = {f"p{i}": v for i, v in enumerate(dict(sorted(out["o"].items())).values())}
                ex.same_tree(to_np(dict(out)), want, f"{kinds},decorated={decorated}", history=h)

            explore(ex, system, ((0.0,) * len(kinds), step), [1.0, -2.0], T, compare)


# -- attention over the past states -----------------------------------------------------------


def attention_model(params, E, H, maxlen, use):
    p = jax.tree_util.tree_map(lambda v: np.asarray(v, np.float64), unfreeze(params))
    dense = lambda d, v: v @ d["kernel"] + d["bias"]  # noqa

    def vector(x):
        v = np.concatenate([np.atleast_1d(i) for i in x.values()]) if isinstance(x, dict) else np.atleast_1d(x)
        v = v.astype(np.float64)[:E]
        return np.concatenate([v, np.zeros(E - len(v))])

    def step(hist, x):
        e = dense(p["state_encoder"], vector(x))
        known = hist[-maxlen:]
        if use and len(known) > 1:
            query = dense(p["query_encoder"], e)
            a = p["attention"]
            proj = lambda n, v: np.einsum("...e,ehd->...hd", v, a[n]["kernel"]) + a[n]["bias"]  # noqa
            q, k, v = proj("query", query), proj("key", np.array(known)), proj("value", np.array(known))
            logits = np.einsum("hd,thd->ht", q, k) / np.sqrt(q.shape[-1])
            w = np.exp(logits - logits.max(-1, keepdims=True))
            w /= w.sum(-1, keepdims=True)
            o = np.einsum("ht,thd->hd", w, v)
            context = np.einsum("hd,hde->e", o, a["out"]["kernel"]) + a["out"]["bias"]
            out = (e + 0.1 * context, e, np.array(known), np.full(len(known), 1 / len(known)))
        else:
            out = (e, e, np.zeros((1, E)), np.zeros(1))
        return out, hist + [e]

    return [], step


def check_attention(ex, maxlen, kind, T, use=True, decorated=False):
    E, H = 4, 2
    alphabet = {
        "scalar": [1.0, -2.0],
        "short": [np.float32([1.0, 2.0]), np.float32([-3.0, 0.5])],
        "long": [np.arange(6, dtype=np.float32), -np.ones(6, np.float32)],
        "mapping": [{"a": np.float32(1.0), "b": np.float32([2.0, -1.0])}, {"a": np.float32(-3.0), "b": np.float32([0.0, 4.0])}],
    }[kind]
    if decorated:

        @streaming_attention_state(embed_dim=E, num_heads=H, max_history=maxlen)
        def f(attended, x):
            return {**attended, "input": x}

        system = System(transform=f)
        params, _ = f.init(KEY, jax.tree_util.tree_map(jnp.asarray, alphabet[0]))
        params = unfreeze(params)
        while "attention" not in params:
            (params,) = params.values()
    else:
        module = AttentionBasedStateSelector(embed_dim=E, num_heads=H, max_history_length=maxlen)
        system = System(module)
        _, v = system.init(alphabet[0])
        params = v["params"]
        if not use:
            inner = system.args
            system.args = lambda x: (inner(x)[0], {"use_attention": False})

    def compare(out, want, h):
        got = {k: to_np(v) for k, v in out.items()}
        names = ("enhanced_state", "original_state", "relevant_history", "attention_weights")
        for n, w in zip(names, want):
            ex.same_array(got[n], w, f"{n} after {len(h)} inputs", rtol=2e-4, atol=2e-5, history=h)
        ex.same_tree(got["current_state"], h[-1], "current state")
        if decorated:
            ex.same_tree(got["input"], h[-1], "input given to the function")

    explore(ex, system, attention_model(params, E, H, maxlen, use), alphabet, T, compare)


def tasks(tier):
    th = tier == "thorough"
    res = []
    for first in range(7):
        res.append(Task(f"machine:{first}", check_machine, dict(first=first, T=4 if th else 2, decorated=False)))
        if th or first % 2 == 1:
            res.append(Task(f"machine:{first},decorated", check_machine, dict(first=first, T=3 if th else 2, decorated=True)))
    for d in (False, True):
        res.append(Task(f"hierarchy:{d}", check_hierarchy, dict(T=6 if th else 4, decorated=d)))
    res.append(Task("conditional", check_conditional, dict(T=6 if th else 4)))
    for n in (1, 2, 3):
        res.append(Task(f"order:{n},called", check_order, dict(n=n, called=True)))
    res.append(Task("order:4", check_order, dict(n=4, called=False)))
    for strategy in ("sequential", "parallel", "hierarchical"):
        for forms in (
            ("dict", "dict", "dict"), ("dict", "other", "dict"), ("array", "fails", "dict"), ("other", "dict", "array"),
        )[: None if th or strategy == "hierarchical" else 3]:
            if not th and strategy != "hierarchical" and forms != ("array", "fails", "dict"):
                continue
            if strategy == "hierarchical" and "fails" in forms:
                continue
            res.append(
                Task(f"coordination:{strategy},{'/'.join(forms)}", check_coordination, dict(strategy=strategy, forms=forms, T=4 if th else 2))
            )
    res.append(Task("counters", check_counters, dict(T=6)))
    for strategy, mapping in itertools.product(("pipeline", "parallel", "hierarchical"), (False, True)):
        res.append(
            Task(f"composition:{strategy},{mapping}", check_composition, dict(strategy=strategy, mapping=mapping, T=4 if th else 2))
        )
    for maxlen in range(1, 6 if th else 4):
        for kind in ("scalar", "short", "long", "mapping"):
            if not th and kind != "short" and maxlen != 2:
                continue
            res.append(Task(f"attention:{maxlen},{kind}", check_attention, dict(maxlen=maxlen, kind=kind, T=min(maxlen + 2, 4) + 2 * th)))
    res.append(Task("attention:unused", check_attention, dict(maxlen=2, kind="short", T=3, use=False)))
    res.append(Task("attention:decorated", check_attention, dict(maxlen=2, kind="short", T=4, decorated=True)))
    return res
