"""G02: running an agent in an environment, with callbacks.

Exhaustive exploration of the real loop:
  loop        every combination of hooks of two callbacks, length of the run, stop request and
              way of giving the callbacks; the complete log of the calls is compared with the
              specification, then the same run is repeated with an exception raised at every
              single call (fault injection at every point): the log is the prefix, the
              exception reaches the caller, the active callbacks are the ones of before.
  activation  every sequence of operations (entering and leaving contexts, registering, runs,
              failing runs, nested runs) up to a depth, against a set of active callbacks.
  Haiku       every sequence of operations on HaikuAgent / HaikuEnv, and every run of an agent
              with Record, Stop and ProgressBar, against the loop written in numpy.
"""

import contextlib
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import pandas as pd
import tqdm.std
import xarray as xr

from mc.core import Task
from wax.gym.agent import Agent
from wax.gym.callbacks.callbacks import Callback, add_callbacks
from wax.gym.callbacks.progressbar import ProgressBar
from wax.gym.callbacks.record import Record
from wax.gym.callbacks.stop import Stop
from wax.gym.env import Env
from wax.gym.gym_unroll import gym_unroll
from wax.gym.haiku_agent import HaikuAgent
from wax.gym.haiku_env import HaikuEnv

PROPERTY = "G02"
ASSUMPTIONS = [
    "the same callback is not activated in two ways at the same time, and the set of global callbacks is not changed inside a run",
    "the order in which global callbacks are called at the same point is not specified",
]
HOOKS = ["start", "act", "step", "end"]


def clear():
    Callback.active = type(Callback.active)()


class Boom(Exception):
    pass


class Log:
    def __init__(self, fail_at=None):
        self.events = []
        self.fail_at = fail_at

    def __call__(self, *event):
        self.events.append(event)
        if self.fail_at is not None and len(self.events) == self.fail_at + 1:
            raise Boom(event)


class LogEnv(Env):
    """Ends at step `n` (1-based); obs are ("o", t)."""

    def __init__(self, log, n, name="env"):
        self.log, self.n, self.t, self.name = log, n, 0, name

    def reset(self):
        self.log(self.name, "reset")
        self.t = 0
        return ("o", 0)

    def step(self, action):
        self.log(self.name, "step", action)
        self.t += 1
        return ("o", self.t), 10.0 * self.t, self.t >= self.n, {"t": self.t}

    def close(self):
        self.log(self.name, "close")


class LogAgent(Agent):
    def __init__(self, log, inner=None):
        self.log, self.inner, self.k = log, inner, 0

    def __call__(self, obs):
        self.log("agent", obs)
        self.k += 1
        if self.inner and self.k == 1:
            self.inner()
        return ("a", self.k)


def functions(log, name, hooks, stop_at, env, agent):
    """Functions of one callback, by hook."""
    count = [0]

    def start(e, a, obs):
        log(name, "start", e is env[0] and a is agent[0], obs)

    def act(e, a, obs, action):
        log(name, "act", e is env[0] and a is agent[0], obs, action)

    def step(e, a, state):
        count[0] += 1
        log(name, "step", e is env[0] and a is agent[0], state.rw, state.obs, state.action, state.done, state.info["t"])
        return True if count[0] == stop_at else None

    def end(e, a):
        log(name, "end", e is env[0] and a is agent[0])

    fs = dict(start=start, act=act, step=step, end=end)
    return {f"on_{'train_' if h in ('start', 'end') else ''}{h}": fs[h] for h in hooks}


FIELDS = ["on_train_start", "on_act", "on_step", "on_train_end"]


def make(kind, fs):
    if kind == "tuple":
        return tuple(fs.get(f) for f in FIELDS)
    if kind == "subclass":
        ns = {f"_{k}": (lambda g: lambda self, *a: g(*a))(g) for k, g in fs.items()}
        ns["__init__"] = lambda self: None
        return type("Sub", (Callback,), ns)()
    return Callback(**fs)


def expected(n, given_obs, cbs, name="env"):
    """Events of a run with callbacks cbs: list of (name, hooks, stop_at); groups of events at
    the same point are nested lists."""
    ev = [] if given_obs else [(name, "reset")]
    obs = ("x", -1) if given_obs else ("o", 0)
    ev.append([(c, "start", True, obs) for c, hooks, _ in cbs if "start" in hooks])
    t = 0
    while True:
        t += 1
        a = ("a", t)
        ev.append(("agent", obs))
        ev.append([(c, "act", True, obs, a) for c, hooks, _ in cbs if "act" in hooks])
        ev.append((name, "step", a))
        obs, done = ("o", t), t >= n
        ev.append([(c, "step", True, 10.0 * t, obs, a, done, t) for c, hooks, _ in cbs if "step" in hooks])
        if done or any("step" in hooks and stop == t for _, hooks, stop in cbs):
            break
    ev.append([(c, "end", True) for c, hooks, _ in cbs if "end" in hooks])
    ev.append((name, "close"))
    return ev, (10.0 * t, obs, a, t >= n, {"t": t})


def flatten(ev):
    return [e for x in ev for e in (x if isinstance(x, list) else [x])]


def matches(log, ev, ordered, prefix):
    """Is the log (a prefix of) the expected events; within a group any order if not ordered."""
    log = list(log)
    for x in ev:
        group = x if isinstance(x, list) else [x]
        head, log = log[: len(group)], log[len(group) :]
        if prefix and not log and len(head) <= len(group):
            if ordered:
                return head == group[: len(head)]
            return all(h in group for h in head) and len(set(map(repr, head))) == len(head)
        if ordered and head != group:
            return False
        if sorted(map(repr, head)) != sorted(map(repr, group)):
            return False
    return not log


def execute(cbs, n, given_obs, how, fail_at=None):
    """One run of the real loop. Returns log, result, exception."""
    log = Log(fail_at)
    env, agent = [None], [None]
    env[0], agent[0] = LogEnv(log, n), LogAgent(log)
    objs = [make(kind, functions(log, c, hooks, stop, env, agent)) for c, hooks, stop, kind in cbs]
    kw = dict(obs=("x", -1)) if given_obs else {}
    res = exc = None
    entered = []
    try:
        if how == "explicit":
            kw["callbacks"] = objs
        elif how == "context":
            for o in objs:
                cm = o if isinstance(o, Callback) else add_callbacks(o)
                cm.__enter__()
                entered.append(cm)
        elif how == "register":
            for o in objs:
                o.register()
        before = set(Callback.active)
        try:
            res = gym_unroll(agent[0], env[0], **kw) if len(cbs) % 2 else agent[0].unroll(env[0], **kw)
        except Boom as e:
            exc = e
        after = set(Callback.active)
    finally:
        for cm in reversed(entered):
            cm.__exit__(None, None, None)
        if how == "register":
            for o in objs:
                o.unregister()
    left = set(Callback.active)
    clear()
    return log.events, res, exc, before == after, left


def check_loop(ex, how, kinds, max_n, faults):
    subsets = [s for r in range(5) for s in itertools.combinations(HOOKS, r)]
    clear()
    for hooks_a in subsets:
        for hooks_b in subsets:
            for n in range(1, max_n + 1):
                for stop_a, stop_b in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (2, 1)]:
                    if (stop_a and "step" not in hooks_a) or (stop_b and "step" not in hooks_b):
                        continue
                    given = (len(hooks_a) + len(hooks_b) + n + stop_a) % 2 == 0
                    cbs = [("A", hooks_a, stop_a, kinds[0]), ("B", hooks_b, stop_b, kinds[1])]
                    if how == "register" and not hooks_a and not hooks_b:
                        continue  # the same callback twice
                    case = f"{hooks_a},{hooks_b},{n},{stop_a},{stop_b},{given}"
                    ev, final = expected(n, given, [c[:3] for c in cbs])
                    log, res, exc, same, left = execute(cbs, n, given, how)
                    ordered = how == "explicit"
                    ex.check(exc is None and matches(log, ev, ordered, False), case, f"calls {log}, expected {ev}")
                    ex.check(res is not None and tuple(res) == final, case + " result", f"{res}, expected {final}")
                    ex.check(same and not left, case + " active callbacks", "changed by the run")
                    total = len(flatten(ev))
                    ex.explored(total + 1, total, 1)
                    ex.outcome(repr(log[-3:]))
                    if not faults:
                        continue
                    for k in range(total):
                        log, res, exc, same, left = execute(cbs, n, given, how, fail_at=k)
                        ok = exc is not None and len(log) == k + 1 and matches(log, ev, ordered, True)
                        ex.check(ok, f"{case} fault {k}", f"{exc!r}: calls {log}, expected a prefix of {ev}")
                        ex.check(same and not left, f"{case} fault {k}: active callbacks", "changed by the run")
                        ex.explored(1, k + 1, 1)


TRUE = [True, np.True_, 1, np.asarray(True), jnp.asarray(True), "stop"]
FALSE = [False, np.False_, 0, np.asarray(False), jnp.asarray(False), None]


def check_flags(ex, max_n):
    """The end of the environment and the request to stop, whatever the type of the flag."""

    class FlagEnv(LogEnv):
        def step(self, action):
            obs, rw, done, info = super().step(action)
            return obs, rw, self.flags[done], info

    for (yes, no), (stop, go) in itertools.product(zip(TRUE, FALSE), repeat=2):
        for n, at in itertools.product(range(1, max_n + 1), repeat=2):
            log = Log()
            env = FlagEnv(log, n)
            env.flags = {True: yes, False: no}
            count = [0]

            def on_step(e, a, s):
                count[0] += 1
                return stop if count[0] == at else go

            state = gym_unroll(LogAgent(log), env, callbacks=[Callback(on_step=on_step), Callback(on_step=lambda e, a, s: None)])
            steps = min(n, at)
            case = f"ends at {n} with {yes!r}, stopped at {at} with {stop!r}"
            ex.check(count[0] == steps and state.info["t"] == steps, case, f"{count[0]} steps")
            ex.check(bool(state.done) == (steps == n), case, f"done {state.done!r}")
            ex.check(log.events[-1] == ("env", "close"), case, "not closed")
            ex.explored(steps + 1, steps, 1)
            ex.outcome((steps, str(yes)))


OPS = ["enter A", "exit A", "register B", "unregister B", "enter C+D", "exit C+D", "run", "failing run", "nested run", "explicit run", "nested with F"]


def check_activation(ex, depth, first):
    """All sequences of operations; runs log which callbacks were called."""

    def runs(ops):
        clear()
        log = []
        cb = {c: Callback(on_step=(lambda c: lambda e, a, s: log.append(c))(c)) for c in "ABCDEFG"}
        active = set()
        contexts = {}
        for op in ops:
            what, _, arg = op.partition(" ")
            if op == "enter A":
                cb["A"].__enter__()
                active |= {"A"}
            elif op == "exit A":
                cb["A"].__exit__(None, None, None)
                active -= {"A"}
            elif op == "register B":
                cb["B"].register()
                active |= {"B"}
            elif op == "unregister B":
                cb["B"].unregister()
                active -= {"B"}
            elif op == "enter C+D":
                contexts["CD"] = add_callbacks(cb["C"], cb["D"]._callback)
                contexts["CD"].__enter__()
                active |= {"C", "D"}
            elif op == "exit C+D":
                contexts["CD"].__exit__(None, None, None)
                active -= {"C", "D"}
            else:
                want = sorted(active)
                inner_want = []
                inner = None
                inner_log = []
                agent_log = Log()
                kw = {}
                if op == "nested run":

                    def inner():
                        log.clear()
                        gym_unroll(LogAgent(Log()), LogEnv(Log(), 1))
                        inner_log.append(sorted(log))
                        log.clear()
                        cb["G"].register()  # ends with the run

                elif op == "nested with F":
                    inner_want = ["F"]

                    def inner():
                        log.clear()
                        with cb["F"]:
                            gym_unroll(LogAgent(Log()), LogEnv(Log(), 1))
                        inner_log.append(sorted(log))
                        log.clear()

                elif op == "failing run":
                    agent_log = Log(fail_at=1)
                    inner = cb["G"].register  # left behind when the run fails
                elif op == "explicit run":
                    want = ["E"]
                    kw["callbacks"] = [cb["E"]]
                log.clear()
                failed = False
                try:
                    gym_unroll(LogAgent(agent_log, inner), LogEnv(Log(), 1 if what != "failing" else 2), **kw)
                except Boom:
                    failed = True
                case = " / ".join(ops)
                ex.check(failed == (op == "failing run"), case, "exception")
                ex.check(sorted(log) == want, case, f"called {sorted(log)}, expected {want}")
                if op.startswith("nested"):
                    ex.check(inner_log == [inner_want], case + " nested", f"called {inner_log}, expected {inner_want}")
                ex.outcome(repr((sorted(log), inner_log)))
            ex.check(len(Callback.active) == len(active), " / ".join(ops), "number of active callbacks")
            ex.model_states.add((tuple(sorted(active)), op))
        clear()
        ex.explored(transitions=len(ops), traces=1)

    def extend(ops, on):
        runs(ops)
        if len(ops) == depth:
            return
        for op in OPS:
            what, _, arg = op.partition(" ")
            if what in ("enter", "register"):
                if arg not in on:
                    extend(ops + [op], on | {arg})
            elif what in ("exit", "unregister"):
                if arg in on:
                    extend(ops + [op], on - {arg})
            else:
                extend(ops + [op], on)

    what, _, arg = first.partition(" ")
    extend([first], {arg} if what in ("enter", "register") else set())


# -- Haiku agents and environments ---------------------------------------------------------


class AgentModule(hk.Module):
    def __call__(self, obs):
        s = hk.get_state("s", [], init=jnp.zeros)
        n = hk.get_state("n", [], jnp.int32, init=jnp.zeros)
        s = 0.5 * s + obs
        hk.set_state("s", s)
        hk.set_state("n", n + 1)
        return {"a": s + 1.0, "n": n}


class EnvModule(hk.Module):
    def __call__(self, action, raw):
        s = hk.get_state("s", [], init=jnp.zeros) + raw
        hk.set_state("s", s)
        return action * s, s - 0.25 * action


class AgentModel:
    def __init__(self):
        self.reset()

    def reset(self):
        self.s, self.n = 0.0, 0

    def __call__(self, obs):
        self.s = 0.5 * self.s + obs
        self.n += 1
        return self.s + 1.0, self.n - 1


class EnvModel:
    def __init__(self, raws):
        self.raws, self.k, self.s = list(raws), 0, 0.0

    def reset(self):
        self.k += 1
        self.s = 0.0
        return self.raws[self.k - 1]

    def step(self, a):
        """obs, reward, done, time of the information."""
        if self.k >= len(self.raws):
            return None, 0, True, self.k - 1
        raw = self.raws[self.k]
        self.k += 1
        self.s += raw
        return self.s - 0.25 * a, a * self.s, False, self.k - 1


def generator(raws, maxlen=None):
    for k, r in enumerate(raws):
        yield r, ({"k": k} if maxlen is None else {"k": k, "maxlen": maxlen})


def check_agent_ops(ex, depth):
    agent_fn = hk.transform_with_state(lambda obs: AgentModule()(obs))
    for ops in itertools.product([1.0, -2.0, "reset"], repeat=depth):
        agent, model = HaikuAgent(agent_fn), AgentModel()
        for k, op in enumerate(ops):
            if op == "reset":
                agent.reset()
                model.reset()
                continue
            out = agent(op)
            a, n = model(op)
            ex.check(abs(float(out["a"]) - a) < 1e-5 and int(out["n"]) == n, f"{ops[: k + 1]}", f"{out}, expected {a}, {n}")
            ex.outcome(np.float32(a))
            ex.model_states.add((model.s, model.n))
        ex.explored(transitions=depth, traces=1)


def check_env_ops(ex, depth, n):
    env_fn = hk.transform_with_state(lambda a, raw: EnvModule()(a, raw))
    raws = [1.0, -3.0, 0.5, 2.0, 4.0][:n]
    for ops in itertools.product([1.0, -2.0, "reset"], repeat=depth):
        env, model = HaikuEnv(generator(raws, maxlen=n), env_fn), EnvModel(raws)
        for k, op in enumerate(("reset",) + ops):
            case = f"{ops[:k]}"
            if op == "reset":
                if model.k >= n:
                    break
                obs = env.reset()
                ex.check(obs == model.reset(), case, f"reset gave {obs}")
                ex.check(len(env) == n, case + " length", "length")
                continue
            obs, rw, done, info = env.step(op)
            wo, wr, wd, wk = model.step(op)
            same = done == wd and info["k"] == wk
            if wo is None:
                same &= obs is None and rw == 0
            else:
                same &= abs(float(obs) - wo) < 1e-5 and abs(float(rw) - wr) < 1e-5
            ex.check(same, case, f"{(obs, rw, done, info)}, expected {(wo, wr, wd, wk)}")
            ex.model_states.add((model.k, model.s))
            ex.outcome(repr(wr))
        ex.explored(transitions=depth, traces=1)


def reference_run(raws, agent, stop):
    """Recorded steps, all steps of a fresh environment."""
    env = EnvModel(raws)
    obs = env.reset()
    rec = []
    t = 0
    while True:
        a, n = agent(obs)
        obs, rw, done, k = env.step(a)
        t += 1
        if not done:
            rec.append((rw, obs, a, n))
        if done or (stop is not None and t >= stop):
            return rec, (rw, obs, a, done, k), t


def wrap(kind, v):
    if kind == "array":
        return np.full((1, 2), v, np.float32)
    if kind == "frame":
        return pd.DataFrame(np.full((1, 2), v))
    if kind == "series":
        return pd.Series([v, v])
    if kind == "xarray":
        return xr.DataArray(np.full((1, 2), v), dims=["time", "x"])
    return v


class Bars:
    """Observe progress bars through tqdm's base class."""

    def __enter__(self):
        self.bars = []
        bars = self.bars
        self.saved = {k: getattr(tqdm.std.tqdm, k) for k in ("update", "close")}
        saved = self.saved

        def record(bar):
            for b in bars:
                if b["bar"] is bar:
                    return b
            bars.append({"bar": bar, "n": 0, "closed": False, "total": bar.total})
            return bars[-1]

        def update(bar, n=1):
            record(bar)["n"] += n
            return saved["update"](bar, n)

        def close(bar):
            record(bar)["closed"] = True
            return saved["close"](bar)

        tqdm.std.tqdm.update, tqdm.std.tqdm.close = update, close
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(tqdm.std.tqdm, k, v)


def check_runs(ex, kind, max_n):
    """Runs of a stateful agent with Record, Stop and ProgressBar, two runs in a row."""

    def agent_step(obs):
        s = hk.get_state("s", [], init=lambda *_: 0.0 * obs)
        n = hk.get_state("n", [], jnp.int32, init=jnp.zeros)
        s = 0.5 * s + obs
        hk.set_state("s", s)
        hk.set_state("n", n + 1)
        return s + 1.0

    def env_step(a, raw):
        s = hk.get_state("s", [], init=lambda *_: 0.0 * raw) + raw
        hk.set_state("s", s)
        return a * s, s - 0.25 * a

    agent_fn, env_fn = hk.transform_with_state(agent_step), hk.transform_with_state(env_step)
    values = [1.0, -3.0, 0.5, 2.0, 4.0]
    for n in range(1, max_n + 1):
        for stop in [None] + list(range(1, n + 2)):
            for obs_, act_ in itertools.product([False, True], repeat=2):
                for maxlen in (None, n):
                    stopper = Stop(stop) if stop is not None else None
                    bar = ProgressBar()
                    agent, model = HaikuAgent(agent_fn), AgentModel()
                    for run in range(2):
                        case = f"{n},{stop},{obs_},{act_},{maxlen},{run}"
                        raws = values[run : run + n]
                        rec = Record(return_obs=obs_, return_action=act_)
                        env = HaikuEnv(generator([wrap(kind, v) for v in raws], maxlen), env_fn)
                        cbs = [rec, bar] + ([stopper] if stopper else [])
                        with Bars() as bars:
                            if run == 0:
                                with contextlib.ExitStack() as stack:
                                    for c in cbs:
                                        same = stack.enter_context(c)
                                        ex.check(same is c, case, "entering a callback does not give it back")
                                    state = agent.unroll(env)
                            else:
                                state = gym_unroll(agent, env, callbacks=cbs)
                        want, last, steps = reference_run(raws, model, stop)
                        bars.bars = [b for b in bars.bars if b["n"]]  # not the ones of before
                        ex.check(
                            len(bars.bars) == 1
                            and bars.bars[0]["n"] == steps
                            and bars.bars[0]["closed"]
                            and bars.bars[0]["total"] == maxlen,
                            case + " progress",
                            f"{[{k: v for k, v in b.items() if k != 'bar'} for b in bars.bars]}, {steps} steps",
                        )
                        ex.check(state.done == last[3] and state.info["k"] == last[4], case + " end", state)
                        if last[1] is None:
                            ex.check(state.obs is None and state.rw == 0, case + " end", state)
                        else:
                            ex.same_array(np.asarray(state.rw).reshape(-1)[:1], [last[0]], case + " last reward")
                        ex.same_array(np.asarray(state.action).reshape(-1)[:1], [last[2]], case + " last action")
                        ex.explored(steps + 1, steps, 1)
                        if not want:
                            continue
                        out = rec.get_outputs()
                        fields = ["reward"] + ["obs"] * obs_ + ["action"] * act_
                        ex.equal(list(out._fields), fields, case + " fields")
                        for f, col in (("reward", 0), ("obs", 1), ("action", 2)):
                            if f not in fields:
                                continue
                            got = np.asarray(getattr(out, f))
                            w = np.array([r[col] for r in want], np.float64)
                            w = np.concatenate([np.asarray(wrap(kind, v)) for v in w]) if kind not in ("scalar", "array") else np.stack([wrap(kind, v) for v in w])
                            ex.same_array(got, w, f"{case} {f}")


def tasks(tier):
    th = tier == "thorough"
    res = []
    for how, kinds, n in [
        ("explicit", ("object", "tuple"), 3 if th else 2),
        ("explicit", ("subclass", "object"), 2),
        ("context", ("object", "tuple"), 3 if th else 2),
        ("context", ("subclass", "subclass"), 2),
        ("register", ("object", "subclass"), 3 if th else 2),
    ]:
        res.append(Task(f"loop:{how},{kinds}", check_loop, dict(how=how, kinds=kinds, max_n=n, faults=True)))
    for op in OPS:
        if op.split()[0] not in ("exit", "unregister"):
            res.append(Task(f"activation:{op}", check_activation, dict(depth=6 if th else 5, first=op)))
    res.append(Task("flags", check_flags, dict(max_n=4 if th else 3)))
    res.append(Task("agent", check_agent_ops, dict(depth=6 if th else 4)))
    for n in (1, 2, 3, 4, 5) if th else (1, 2, 3, 5):
        res.append(Task(f"environment:{n}", check_env_ops, dict(depth=6 if th else 4, n=n)))
    for kind in ("scalar", "array", "frame", "series", "xarray"):
        res.append(Task(f"runs:{kind}", check_runs, dict(kind=kind, max_n=4 if th else 3)))
    return res
