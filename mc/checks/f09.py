"""F09: debugging, profiling and memory tracking of streaming functions.

Explicit-state exploration of the real objects: every sequence of operations (steps, enabling,
disabling, clearing, adding and removing hooks, snapshots, resets) up to a depth is executed on a
debugger, a profiler and a memory tracker, and everything they show is compared with reference
models written with plain lists.  The readings of the memory of the process are scripted.  Every
nesting of the three wrappers, with everything enabled or not, must be transparent, also when the
wrapped function raises, at every possible call.
"""

import builtins
import contextlib
import io
import itertools
import statistics
from collections import namedtuple
from fractions import Fraction
from types import SimpleNamespace

import numpy as np
import psutil

MB = 1024 * 1024
MEMORY = SimpleNamespace(rss=0, cpu=12.5)


class FakeProcess:
    """Stands for the process whose memory is read."""

    def __init__(self, *a, **k):
        pass

    def memory_info(self):
        return SimpleNamespace(rss=MEMORY.rss, vms=MEMORY.rss)

    def cpu_percent(self, *a, **k):
        return MEMORY.cpu


psutil.Process = FakeProcess
psutil.virtual_memory = lambda: SimpleNamespace(total=8192 * MB, available=4096 * MB)

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402

from mc.core import Task  # noqa: E402
from wax.flax.core.streaming_transforms import streaming_transform_with_state  # noqa: E402
from wax.flax.debug import (  # noqa: E402
    DebugHook,
    MemoryTracker,
    StreamingDebugger,
    StreamingProfiler,
    create_performance_report,
    debug_streaming,
    profile_streaming,
    state_change_detector,
    step_interval,
    track_memory_usage,
    value_threshold,
)
from wax.flax.modules import EWMA, Buffer, Counter  # noqa: E402

PROPERTY = "F09"
ASSUMPTIONS = [
    "the readings of psutil are scripted",
    "times measured by the profiler are only checked against the elapsed time around the call",
    "what is recorded of a call which raises is not specified",
]
Pair = namedtuple("Pair", "p q")


def same(a, b):
    """Equality of nested values, numpy and JAX arrays compare by values."""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, (np.ndarray, jax.Array)):
        return isinstance(a, (np.ndarray, jax.Array)) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(b, float):
        return isinstance(a, (float, int)) and abs(a - b) <= 1e-9 * max(1.0, abs(b))
    return type(a) is type(b) and a == b


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


# -- debugger ------------------------------------------------------------------------------

VALUES = [0.0, 1.0, 2.0]
TIMES = [0.01, 0.5, 0.09]
DOPS = ["s0", "s1", "s2", "disable", "enable", "clear", "hook off", "hook on", "remove", "add"]


class DebuggerModel:
    def __init__(self, history, states, times, kind):
        self.history, self.states, self.times, self.kind = history, states, times, kind
        self.step, self.enabled = 0, True
        self.shist, self.perf, self.psteps = [], [], []
        names = ["always", "every2", "over", "moved", "bad", "never", "none", "state_change_m", "perf_p"]
        self.hooks = {n: dict(on=True, hits=0, events=[]) for n in names}
        self.moved = None

    def condition(self, n, v):
        if n == "always":
            return True
        if n in ("every2", "state_change_m"):
            return self.step % 2 == 0
        if n == "over":
            return v > 0.5
        if n == "moved":
            if self.moved is None:
                self.moved = v
                return False
            if abs(v - self.moved) > 1.5:
                self.moved = v
                return True
            return False
        if n == "perf_p":
            return self.times and bool(self.perf) and self.perf[-1] > 0.1
        return False

    def do_step(self, k, data):
        if not self.enabled:
            return
        self.step += 1
        if self.states:
            self.shist = (self.shist + [data["state"]])[-self.history :]
        if self.times:
            self.perf.append(TIMES[k])
            self.psteps.append(self.step)
        for n, h in self.hooks.items():
            if h["on"] and self.condition(n, VALUES[k]):
                h["hits"] += 1
                limit = 2 if n == "always" else 1000
                h["events"] = (h["events"] + [(self.step, f"m{k}", data)])[-limit:]


def step_data(k, kind, arrays):
    """Values of a step; `arrays` are the buffers which the caller reuses from step to step."""
    v = VALUES[k]
    arrays["x"][:] = v
    arrays["w"][:] = -v
    pair = Pair(arrays["w"], [k])
    state = {"v": np.array([v, 0.0]) if kind == "array" else v, "pair": pair, "sub": {"w": arrays["w"]}}
    inp = {"a": v, "x": arrays["x"], "t": (arrays["x"], k)}
    return state, inp, Pair(arrays["x"], {"o": arrays["w"]})


def frozen(k, kind):
    state, inp, out = step_data(k, kind, dict(x=np.zeros(2), w=np.zeros(3)))
    return {"state": state, "input": inp, "output": out}


def new_debugger(history, states, times):
    d = StreamingDebugger(enable_state_tracking=states, enable_performance_tracking=times, max_history=history)
    hooks = {
        "always": DebugHook("always", lambda *a: True, "capture", max_events=2),
        "every2": DebugHook("every2", step_interval(2), "capture"),
        "over": DebugHook("over", value_threshold(0.5, "a"), "alert"),
        "moved": DebugHook("moved", state_change_detector("v", 1.5), "capture"),
        "bad": DebugHook("bad", lambda *a: 1 / 0, "capture"),
        "never": DebugHook("never", state_change_detector("absent"), "capture"),
        "none": DebugHook("none", None, "capture"),
    }
    for h in hooks.values():
        d.add_hook(h)
    d.add_state_change_hook("m", step_interval(2))
    d.add_performance_monitor("p", threshold_ms=100.0)
    return d, hooks


def check_debugger(ex, depth, history, states, times, kind, first):
    stored = [frozen(k, kind) for k in range(3)]

    def run(ops):
        d, hooks = new_debugger(history, states, times)
        m = DebuggerModel(history, states, times, kind)
        gone = {}
        arrays = dict(x=np.zeros(2), w=np.zeros(3))
        for op in ops:
            if op[0] == "s" and op[1:].isdigit():
                k = int(op[1:])
                state, inp, out = step_data(k, kind, arrays)
                d.step(f"m{k}", state, inp, out, execution_time=TIMES[k])
                m.do_step(k, stored[k])
                arrays["x"][:] = 77.0  # the caller uses its arrays for something else
                arrays["w"][:] = 77.0
            elif op == "disable":
                d.disable()
                m.enabled = False
            elif op == "enable":
                d.enable()
                m.enabled = True
            elif op == "clear":
                d.clear_history()
                m.shist, m.perf, m.psteps = [], [], []
                for h in [*m.hooks.values()]:
                    h["hits"], h["events"] = 0, []
            elif op == "hook off":
                hooks["always"].enabled = False
                (m.hooks.get("always") or gone["always"])["on"] = False
            elif op == "hook on":
                hooks["always"].enabled = True
                (m.hooks.get("always") or gone["always"])["on"] = True
            elif op == "remove":
                d.remove_hook("always").remove_hook("moved")
                for n in ("always", "moved"):
                    if n in m.hooks:
                        gone[n] = m.hooks.pop(n)
            elif op == "add":
                for n in ("always", "moved"):
                    d.add_hook(hooks[n])
                    if n in gone:
                        m.hooks[n] = gone.pop(n)
        case = " / ".join(ops)
        ex.check(d.current_step == m.step, case, f"{d.current_step} steps, expected {m.step}")
        ex.check(same(list(d.state_history), m.shist), case + ": states kept", f"{list(d.state_history)}, expected {m.shist}")
        ex.check(set(d.hooks) == set(m.hooks), case + ": hooks", list(d.hooks))
        exported = d.export_events()
        summary = d.get_summary()
        for n, h in m.hooks.items():
            real = d.hooks[n]
            got = [(e.step, e.module_name, {"state": e.state_snapshot, "input": e.input_data, "output": e.output_data}) for e in real.events]
            ok = real.hit_count == h["hits"] and same(got, h["events"])
            ex.check(ok, f"{case}: hook {n}", f"{real.hit_count} hits {got}, expected {h['hits']} {h['events']}")
            ex.check([e["step"] for e in exported["hooks"][n]] == [e[0] for e in h["events"]], f"{case}: exported {n}", exported["hooks"][n])
            want = {"hit_count": h["hits"], "enabled": h["on"], "events": len(h["events"])}
            ex.check(summary["hooks"][n] == want, f"{case}: summary of {n}", f"{summary['hooks'][n]}, expected {want}")
        ok = summary["total_steps"] == m.step and summary["state_history_length"] == len(m.shist)
        ex.check(ok and set(summary["hooks"]) == set(m.hooks), case + ": summary", summary)
        data = {k: list(v) for k, v in exported["performance_data"].items() if len(v)}
        ex.check(data == ({"execution_time": m.perf, "step": m.psteps} if m.perf else {}), case + ": times", data)
        want = {}
        if m.perf:
            want = dict(total_steps=len(m.perf), avg_time_ms=1e3 * sum(m.perf) / len(m.perf), max_time_ms=1e3 * max(m.perf), min_time_ms=1e3 * min(m.perf))
        got = {k: v for k, v in summary["performance"].items() if k in want} if want else {k: v for k, v in summary["performance"].items() if v}
        ex.check(all(k in got and same(float(got[k]), float(v)) for k, v in want.items()) and len(got) == len(want), case + ": summary of times", summary["performance"])
        ex.explored(transitions=len(ops), traces=1)
        ex.model_states.add((m.enabled, m.step, tuple((n, h["on"], h["hits"]) for n, h in m.hooks.items())))
        ex.outcome(repr([(n, h["hits"]) for n, h in m.hooks.items()]))

    with quiet():
        for n in range(depth):
            for rest in itertools.product(DOPS, repeat=n):
                run([first, *rest])


def check_actions(ex, length):
    """Breakpoints: every sequence of commands typed by the user; special states."""
    for cmds in itertools.chain.from_iterable(itertools.product(["c", "s", "i", "o", "h", "q", "?", "EOF"], repeat=n) for n in range(1, length + 1)):
        ends = [i for i, c in enumerate(cmds) if c in ("c", "q", "EOF")]
        if not ends or ends[0] != len(cmds) - 1:
            continue
        feed = iter(cmds)

        def answer(prompt="", feed=feed):
            c = next(feed)
            if c == "EOF":
                raise EOFError
            return c

        d = StreamingDebugger()
        d.add_breakpoint("b", value_threshold(0.5))
        old = builtins.input
        stopped = False
        with quiet() as out:
            builtins.input = answer
            try:
                d.step("mod", {"v": 3.25}, 0.25, 1.0)
                d.step("mod", {"v": 4.25}, 8.5, 16.5)
            except KeyboardInterrupt:
                stopped = True
            finally:
                builtins.input = old
        h = d.hooks["breakpoint_b"]
        text = out.getvalue()
        ok = stopped == (cmds[-1] == "q") and h.hit_count == 1 and [e.step for e in h.events] == [2]
        ok = ok and next(feed, None) is None and h.events[0].event_type == "breakpoint" and h.events[0].stack_trace
        ex.check(ok, "/".join(cmds), f"{stopped} {h.hit_count}")
        for c, shown in (("s", "4.25"), ("i", "8.5"), ("o", "16.5")):
            ex.check((shown in text) == (c in cmds), "/".join(cmds) + " shown", text)
        ex.explored(1, len(cmds), 1)
    d = StreamingDebugger()
    s = {"params": {"k": np.ones((2, 3)), "n": 1}, "state": {"b": jnp.arange(3.0)}}
    d.step("m", s, 1.0, 1.0)
    want = {"params_shapes": {"k": (2, 3), "n": "int"}, "state_values": {"b": np.arange(3.0, dtype=np.float32)}}
    ex.check(same(d.state_history[0], want), "params and state", d.state_history[0])
    try:
        d.export_events("xml")
        ex.violation("export", "unknown format accepted")
    except ValueError:
        pass


# -- wrappers ------------------------------------------------------------------------------


class Fake:
    """A transform: the state is the sum, the output depends on everything given; raises at call
    `fail`."""

    def __init__(self, fail=None, pair=True):
        self.__name__ = "fake"
        self.calls, self.fail, self.pair = 0, fail, pair

    def init(self, rng, x):
        return {"p": 2.0}, {"s": np.zeros(2) + x}

    def apply(self, params, state, rng, x, *more, scale=1.0):
        k = self.calls
        self.calls += 1
        if k == self.fail:
            raise ZeroDivisionError(k)
        s = state["s"] + x
        out = params["p"] * s * scale + sum(more)
        return (out, {"s": s}) if self.pair else out

    def __call__(self, x):
        return ("called", x)


class Tools:
    def __init__(self, order, enabled, name):
        self.debugger = StreamingDebugger()
        self.hook = DebugHook("all", lambda *a: True, "capture")
        self.debugger.add_hook(self.hook)
        self.profiler = StreamingProfiler()
        self.tracker = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=1)
        self.on = dict(zip(order, enabled))
        kw = {} if name is None else {"module_name": name}
        self.wrap = dict(
            d=lambda f: debug_streaming(self.debugger, **kw)(f),
            p=lambda f: profile_streaming(self.profiler, **kw)(f),
            m=lambda f: track_memory_usage(self.tracker, **kw)(f),
        )
        for o, (which, obj) in dict(d=("d", self.debugger), p=("p", self.profiler), m=("m", self.tracker)).items():
            if not self.on.get(o, True):
                obj.disable()

    def __call__(self, f):
        for o in self.on:
            f = self.wrap[o](f)
        return f


def orders():
    for n in (1, 2, 3):
        for o in itertools.permutations("dpm", n):
            for e in itertools.product([True, False], repeat=n):
                yield "".join(o), e


def check_wrappers(ex, T):
    xs_all = list(itertools.product([1.0, -2.0], repeat=T))
    for (order, enabled), name, pair in itertools.product(orders(), (None, "mod"), (True, False)):
        for xs, fail in itertools.product(xs_all, [None, *range(T)]):
            case = f"{order},{enabled},{name},pair={pair},{xs},fail={fail}"
            ref, real = Fake(fail, pair), Fake(fail, pair)
            tools = Tools(order, enabled, name)
            with quiet():
                f = tools(real)
            pr, sr = ref.init(None, 1.0)
            p, s = f.init(None, 1.0)
            ex.check(same((p, s), (pr, sr)) and f(5) == ("called", 5) and f.__name__ == "fake", case, "init, call or name")
            done, log = 0, []
            for t, x in enumerate(xs):
                kw = {"scale": 3.0} if t % 2 else {}
                more = (0.5,) * (t % 3)
                want = wexc = got = gexc = None
                try:
                    want = ref.apply(pr, sr, None, x, *more, **kw)
                except ZeroDivisionError as e:
                    wexc = repr(e)
                try:
                    with quiet():
                        got = f.apply(p, s, None, x, *more, **kw)
                except ZeroDivisionError as e:
                    gexc = repr(e)
                if not ex.check(gexc == wexc and same(got, want), f"{case} step {t}", f"{got} {gexc}, expected {want} {wexc}"):
                    break
                if wexc is None:
                    done += 1
                    log.append((x, want[0] if pair else want, want[1] if pair else sr))
                    if pair:
                        sr, s = want[1], got[1]
            ex.check(real.calls == ref.calls, case, f"{real.calls} calls, expected {ref.calls}")
            ex.explored(T, T, 1)
            if fail is not None:
                continue
            mod = name or "fake"
            n = done if tools.on.get("d") else 0
            events = [(e.module_name, e.input_data, e.output_data, e.state_snapshot) for e in tools.hook.events]
            want = [(mod, *r) for r in log] if n else []
            ex.check(tools.debugger.current_step == n and same(events, want), case + " debugger", f"{events}, expected {want}")
            n = done if tools.on.get("p") else 0
            ms = list(tools.profiler.metrics)
            sizes = [(m.module_name, m.input_size, m.output_size) for m in ms]
            ex.check(tools.profiler.step_count == n and sizes == [(mod, 8, 16 + (0 if not pair else 16))] * n, case + " profiler", sizes)
            ex.check(all(0 <= m.execution_time < 30 for m in ms), case + " times", [m.execution_time for m in ms])
            n = 2 * done if tools.on.get("m") else 0
            snaps = [(s.module_name, round(s.state_variables_mb * MB)) for s in tools.tracker.snapshots]
            want = [(mod, 0), (mod, 16 if pair else 0)] * done if n else []
            ex.check(tools.tracker.step_count == n and snaps == want, case + " tracker", f"{snaps}, expected {want}")
            ex.outcome(repr((len(events), sizes, snaps)))


def check_real(ex, T):
    """Real transforms: outputs and states of the wrapped ones, step by step and compiled."""

    def program(x):
        return {"e": EWMA(alpha=0.25)(x), "b": Buffer(maxlen=2)(x), "n": Counter()()}

    key = jax.random.PRNGKey(0)
    plain = streaming_transform_with_state(program)
    for xs in itertools.product([np.float32(1.0), np.float32(-3.0)], repeat=T):
        p, s = plain.init(key, jnp.asarray(xs[0]))
        ref = []
        for x in xs:
            out, s = plain.apply(p, s, None, x)
            ref.append((out, s))
        for order, enabled, compiled in [("dpm", (1, 1, 1), False), ("mpd", (1, 1, 1), True), ("pd", (1, 0), False), ("m", (1,), False)]:
            tools = Tools(order, map(bool, enabled), None)
            with quiet():
                f = tools(streaming_transform_with_state(program))
                p, s = f.init(key, jnp.asarray(xs[0]))
                run = jax.jit(f.apply) if compiled else f.apply
                got = []
                for x in xs:
                    out, s = run(p, s, None, x)
                    got.append((out, s))
            case = f"{order},{compiled},{[float(x) for x in xs]}"
            ok = jax.tree_util.tree_structure(ref) == jax.tree_util.tree_structure(got)
            ok = ok and all(np.allclose(a, b, equal_nan=True, rtol=1e-6) for a, b in zip(jax.tree_util.tree_leaves(ref), jax.tree_util.tree_leaves(got)))
            ex.check(ok, case, f"{got}, expected {ref}")
            ex.explored(T, T, 1)
            if not compiled:
                if "d" in order and tools.on["d"]:
                    ok = tools.debugger.current_step == T and [float(e.input_data) for e in tools.hook.events] == [float(x) for x in xs]
                    ok = ok and all(np.allclose(e.output_data["e"], r[0]["e"]) for e, r in zip(tools.hook.events, ref))
                    ok = ok and all(e.module_name == "program" for e in tools.hook.events)
                    ok = ok and all(np.allclose(e.state_snapshot["state"]["EWMA_0"]["mean"], r[1]["state"]["EWMA_0"]["mean"]) for e, r in zip(tools.hook.events, ref))
                    ex.check(ok, case + " debugger", tools.debugger.current_step)
                if "p" in order:
                    ms = list(tools.profiler.metrics)
                    want = sum(np.asarray(a).nbytes for a in jax.tree_util.tree_leaves(ref[0][0]))
                    ok = len(ms) == T and all(m.module_name == "program" and m.output_size == want for m in ms)
                    ex.check(ok, case + " profiler", [(m.input_size, m.output_size) for m in ms])
                if "m" in order:
                    last = list(tools.tracker.snapshots)[-1]
                    state = sum(np.asarray(a).nbytes for a in jax.tree_util.tree_leaves(ref[-1][1]["state"]))
                    buf = sum(np.asarray(a).nbytes for a in jax.tree_util.tree_leaves(ref[-1][1]["state"]["Buffer_0"]))
                    got = (round(last.state_variables_mb * MB), round(last.buffers_mb * MB))
                    ex.check(got == (state, buf), case + " tracker", f"{got}, expected {(state, buf)}")


def check_time(ex):
    """The time of a profiled or debugged call is the one of the wrapped function."""
    import time

    for wrapper, busy in itertools.product("dp", (0.0, 0.05)):
        tools = Tools(wrapper, (True,), None)
        real = Fake()
        inner = real.apply
        real.apply = lambda *a, inner=inner, busy=busy: (time.sleep(busy), inner(*a))[1]
        f = tools(real)
        p, s = f.init(None, 1.0)
        before = time.perf_counter()
        for _ in range(3):
            _, s = f.apply(p, s, None, 1.0)
        total = time.perf_counter() - before
        times = [m.execution_time for m in tools.profiler.metrics] if wrapper == "p" else tools.debugger.performance_data["execution_time"]
        ok = len(times) == 3 and all(t >= 0.8 * busy for t in times) and sum(times) <= total + 0.1
        ex.check(ok, f"{wrapper},{busy}", f"{times}, in all {total}")
        ex.explored(3, 3, 1)


# -- profiler ------------------------------------------------------------------------------

POPS = ["A fast", "B slow", "ctx A", "ctx B jit", "disable", "enable", "reset"]
RSS = [100, 130, 90, 160]
DATA = [
    (None, 0),
    (np.zeros(3), 24),
    ({"a": [1, 2.0], "b": (np.zeros((2, 2), np.float32), "xyz")}, 8 + 8 + 16 + 3),
    (jnp.zeros(5), 20),
]


def check_profiler(ex, depth, history, memory, cpu, first):
    def run(ops):
        p = StreamingProfiler(max_history=history, enable_memory_tracking=memory, enable_cpu_tracking=cpu, bottleneck_threshold_ms=100.0)
        steps, last, on, n = 0, 0.0, True, 0
        kept, slow, mods = [], [], []
        for op in ops:
            MEMORY.rss = RSS[n % len(RSS)] * MB
            inp, isz = DATA[n % len(DATA)]
            out, osz = DATA[(n // 2 + 1) % len(DATA)]
            n += 1
            what, _, arg = op.partition(" ")
            if op == "disable":
                p.disable()
                on = False
            elif op == "enable":
                p.enable()
                on = True
            elif op == "reset":
                p.reset()
                steps, last, kept, slow = 0, 0.0, [], []
            else:
                jit = False
                if what == "ctx":
                    mod, jit, t = arg[0], "jit" in arg, None
                    with p.start_step(mod) as ctx:
                        ctx.set_jit_compilation(jit)
                    isz = osz = 0
                else:
                    mod, t, jit = what, (0.01 if arg == "fast" else 0.25), arg == "slow"
                    p.record_metrics(mod, t, inp, out, jit_compilation=jit)
                if on:
                    steps += 1
                    mem = MEMORY.rss / MB if memory else 0.0
                    kept = (kept + [(steps, mod, t, mem, mem - last, MEMORY.cpu if cpu else 0.0, jit, isz, osz)])[-history:]
                    last = mem
                    if t == 0.25:
                        slow.append((steps, mod, 250.0))
        case = " / ".join(ops)
        ms = list(p.metrics)
        got = [(m.step, m.module_name, m.execution_time, m.memory_usage, m.memory_delta, m.cpu_percent, m.jit_compilation, m.input_size, m.output_size) for m in ms]
        ok = len(got) == len(kept) and all(g[:2] == k[:2] and g[3:] == k[3:] and (g[2] == k[2] if k[2] is not None else 0 <= g[2] < 30) for g, k in zip(got, kept))
        ex.check(ok and p.step_count == steps, case, f"{got}, expected {kept}")
        res = p.finalize()
        times, mems = [m.execution_time for m in ms], [m.memory_usage for m in ms]

        def stats(v):
            if not v:
                return {}
            return dict(mean=statistics.mean(v), median=statistics.median(v), std_dev=statistics.stdev(v) if len(v) > 1 else 0.0, min=min(v), max=max(v))

        def close(a, b):
            return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-6 + 1e-6 * abs(b[k]) for k in b)

        ok = res.total_steps == steps and len(res.metrics) == len(kept) and close(res.execution_stats, stats(times)) and close(res.memory_stats, stats(mems))
        ex.check(ok, case + " result", f"{res.execution_stats} {res.memory_stats}")
        got = [(b["step"], b["module"], b["execution_time_ms"]) for b in res.bottlenecks]
        ex.check(got == slow, case + " bottlenecks", f"{got}, expected {slow}")
        for mod in "AB":
            sub = [m for m in ms if m.module_name == mod]
            got = p.get_module_summary(mod)
            if not sub:
                ex.check("error" in got, f"{case} module {mod}", got)
                continue
            t, me = [m.execution_time for m in sub], [m.memory_usage for m in sub]
            want = dict(total_invocations=len(sub), total_time_ms=1e3 * sum(t), avg_time_ms=1e3 * sum(t) / len(t), max_time_ms=1e3 * max(t), min_time_ms=1e3 * min(t))
            want.update(avg_memory_mb=sum(me) / len(me), peak_memory_mb=max(me), jit_compilations=sum(m.jit_compilation for m in sub))
            name = got.pop("module_name", None)
            ex.check(name == mod and close(got, want), f"{case} module {mod}", f"{got}, expected {want}")
        summary = res.get_summary()
        report = create_performance_report(res)
        if not kept:
            ex.check("error" in summary and "No profiling data" in report, case + " summary", f"{summary} {report}")
        else:
            e, m = summary["execution"], summary["memory"]
            want = dict(total_time=sum(times), avg_time_ms=1e3 * sum(times) / len(times), median_time_ms=1e3 * statistics.median(times), max_time_ms=1e3 * max(times), min_time_ms=1e3 * min(times), std_dev_ms=1e3 * stats(times)["std_dev"])
            wantm = dict(peak_usage_mb=max(mems), avg_usage_mb=sum(mems) / len(mems), total_allocated=sum(max(k[4], 0) for k in kept), memory_efficiency=min(mems) / max(mems) if max(mems) > 0 else 1.0)
            ok = close(e, want) and close(m, wantm) and summary["session"]["total_steps"] == steps
            ok = ok and summary["bottlenecks"] == len(slow) and summary["jit_compilations"] == sum(k[6] for k in kept)
            ex.check(ok, case + " summary", f"{summary}, expected {want} {wantm}")
            ex.check(f"Total Steps: {steps}" in report, case + " report", report)
        ex.explored(transitions=len(ops), traces=1)
        ex.model_states.add((on, steps, tuple(k[:2] for k in kept)))
        ex.outcome(repr([k[:2] for k in kept]))

    for n in range(depth):
        for rest in itertools.product(POPS, repeat=n):
            run([first, *rest])


def check_growth(ex, T):
    """Memory at every step: a leak is reported from the last ten steps."""
    for seq in itertools.product([100, 130], repeat=T - 8):
        for mid, tail in itertools.product([100, 400], itertools.product([100, 149, 160], repeat=2)):
            mem = [*seq, *[mid] * 6, *tail]
            p = StreamingProfiler(memory_leak_threshold_mb=50.0, max_history=50)
            for t, m in enumerate(mem):
                MEMORY.rss = m * MB
                p.record_metrics("m", 0.01)
                got = p.detect_memory_leaks()
                growth = mem[t] - mem[t - 9] if t >= 9 else 0
                want = [(growth, mem[t - 9], mem[t])] if growth > 50 else []
                ok = [(g["growth_mb"], g["start_memory"], g["end_memory"]) for g in got] == want
                ex.check(ok, f"{mem[: t + 1]}", f"{got}, expected {want}")
            ex.explored(T, T, 1)
            ex.outcome(repr(want))


def check_results(ex, length):
    """What has been returned does not change with what happens later."""

    def plain(x):
        if hasattr(x, "__dataclass_fields__"):
            return {f: plain(getattr(x, f)) for f in x.__dataclass_fields__}
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(v) for v in x]
        return x

    def debugger():
        d = StreamingDebugger(max_history=2)
        d.add_hook(DebugHook("a", lambda *a: True, "capture", max_events=2))
        ops = dict(step=lambda: d.step("m", {"v": 1.0}, 1.0, 2.0, execution_time=0.5), clear=d.clear_history, remove=lambda: d.remove_hook("a"))
        return ops, lambda: [d.get_summary(), d.export_events()]

    def profiler():
        p = StreamingProfiler(max_history=2, bottleneck_threshold_ms=100.0)
        ops = {f"record {m}": lambda m=m: p.record_metrics(m, 0.25, [1.0], 1.0) for m in "AB"}
        return {**ops, "reset": p.reset}, lambda: [p.finalize(), p.get_module_summary("A"), p.generate_optimization_recommendations(), p.detect_memory_leaks()]

    def tracker():
        t = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=1, max_snapshots=2)
        ops = dict(take=lambda: t.take_snapshot("A", state={"s": np.zeros(2)}), reset=t.reset)
        return ops, lambda: [t.take_snapshot("B", force=True), t.get_memory_summary(), t.get_module_memory_analysis("A")]

    for new in (debugger, profiler, tracker):
        names = list(new()[0])
        for seq in itertools.product(names, repeat=length):
            ops, results = new()
            taken = []
            with quiet():
                for op in seq:
                    ops[op]()
                    got = results()
                    taken.append((got, plain(got)))
            for i, (got, before) in enumerate(taken):
                ex.check(repr(plain(got)) == repr(before), f"{new.__name__}: {seq}: results after {i + 1}", f"now {plain(got)}, then {before}")
            ex.explored(length, length, 1)
            ex.outcome(repr(len(taken)))


# -- memory tracker ------------------------------------------------------------------------

TOPS = ["take A", "take B state", "force A", "disable", "enable", "reset"]
STATES = [
    (None, (0, 0, 0)),
    ({"params": {"w": np.zeros(4)}, "state": {"EWMA_0": {"m": np.zeros(2)}, "Buffer_0": {"b": np.zeros(8)}}}, (80, 32, 64)),
    ({"state": {"my_buffer": np.zeros(3, np.float32)}, "other": 1.5}, (20, 0, 12)),
    ({"params": {"w": np.zeros(2)}}, (0, 16, 0)),
    ({"s": np.zeros(2), "t": [1, 2]}, (32, 0, 0)),
    (np.zeros(5), (40, 0, 0)),
    ((np.zeros(5), [3]), (48, 0, 0)),
]


def check_tracker(ex, depth, interval, keep, first):
    def run(ops):
        tr = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=interval, max_snapshots=keep, leak_detection_threshold_mb=1e9)
        steps, on, n, kept, last = 0, True, 0, [], None
        for op in ops:
            MEMORY.rss = RSS[n % len(RSS)] * MB
            state, sizes = STATES[n % len(STATES)]
            n += 1
            if op == "disable":
                tr.disable()
                on = False
            elif op == "enable":
                tr.enable()
                on = True
            elif op == "reset":
                tr.reset()
                steps, kept, last = 0, [], None
            else:
                what, mod = op.split()[:2]
                kw = dict(state=state) if "state" in op else {}
                sizes = sizes if kw else (0, 0, 0)
                got = tr.take_snapshot(mod, force=what == "force", **kw)
                want = None
                if on:
                    steps += 1
                    if what == "force" or steps % interval == 0:
                        mem = MEMORY.rss / MB
                        want = (steps, mod, mem, mem - last if last is not None else 0.0, *sizes)
                        last = mem
                        kept = (kept + [want])[-keep:]

                def view(s):
                    return s and (s.step, s.module_name, s.process_memory_mb, s.memory_delta_mb, *(round(v * MB) for v in (s.state_variables_mb, s.parameters_mb, s.buffers_mb)))

                ex.check(view(got) == want, " / ".join(ops[:n]), f"snapshot {view(got)}, expected {want}")
                if got:
                    ok = got.system_memory_mb == 8192 and got.available_memory_mb == 4096 and got.device_memory_mb == {"cpu": got.process_memory_mb}
                    ex.check(ok, " / ".join(ops[:n]) + " system", got)
        case = " / ".join(ops)
        got = [view(s) for s in tr.snapshots] if tr.snapshots else []
        ex.check(got == kept and tr.step_count == steps, case, f"{got}, expected {kept}")
        summary, report = tr.get_memory_summary(), tr.generate_memory_report()
        if not kept:
            ex.check("error" in summary and "No memory snapshots" in report, case + " summary", summary)
        else:
            mems = [k[2] for k in kept]
            c, s = summary["current_usage"], summary["statistics"]
            ok = (c["process_memory_mb"], *(round(c[k] * MB) for k in ("state_variables_mb", "parameters_mb", "buffers_mb"))) == (mems[-1], *kept[-1][4:])
            ok = ok and (s["peak_memory_mb"], s["min_memory_mb"], s["total_growth_mb"]) == (max(mems), min(mems), mems[-1] - mems[0])
            ok = ok and abs(s["avg_memory_mb"] - sum(mems) / len(mems)) < 1e-9
            ok = ok and (summary["session"]["total_snapshots"], summary["session"]["total_steps"]) == (len(kept), steps)
            ex.check(ok and summary["leaks"]["total_detected"] == 0, case + " summary", summary)
            ex.check("No Memory Leaks" in report and f"Snapshots: {len(kept)}" in report, case + " report", report)
        for mod in "AB":
            sub = [k for k in kept if k[1] == mod]
            got = tr.get_module_memory_analysis(mod)
            if not sub:
                ex.check("error" in got, f"{case} module {mod}", got)
                continue
            for name, v, unit in (("memory_usage", [k[2] for k in sub], 1), ("state_memory", [k[4] for k in sub], MB)):
                want = dict(current_mb=v[-1], peak_mb=max(v), avg_mb=sum(v) / len(v))
                if name == "memory_usage":
                    want["growth_mb"] = v[-1] - v[0]
                ok = set(got[name]) == set(want) and all(abs(got[name][k] * unit - want[k]) < 1e-6 for k in want)
                ex.check(ok and got["snapshots_count"] == len(sub), f"{case} module {mod}", f"{got}, expected {want}")
        ex.explored(transitions=len(ops), traces=1)
        ex.model_states.add((on, steps, tuple(k[:2] for k in kept)))
        ex.outcome(repr([k[:2] for k in kept]))

    for n in range(depth):
        for rest in itertools.product(TOPS, repeat=n):
            run([first, *rest])


def leak(steps, mem, interval, threshold):
    """Leak visible at the last snapshot: (total, rate per step, first step, last step)."""
    if len(mem) < 5:
        return None, False
    m, s = mem[-10:], steps[-10:]
    n = len(m)
    xm, ym = Fraction(n - 1, 2), Fraction(sum(m), n)
    slope = sum((i - xm) * (v - ym) for i, v in enumerate(m)) / sum((i - xm) ** 2 for i in range(n))
    rate, total = slope / interval, m[-1] - m[0]
    close = abs(rate - Fraction(threshold, 100)) < Fraction(1, 10**6)
    if total > threshold and rate > Fraction(threshold, 100):
        return (total, float(rate), s[0], s[-1]), close
    return None, close


def check_leaks(ex, sequences, interval):
    for mem in sequences:
        tr = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=interval, leak_detection_threshold_mb=10)
        steps, found = [], []
        sure = True
        for t, m in enumerate(mem):
            MEMORY.rss = (100 + m) * MB
            for _ in range(interval):
                tr.take_snapshot(f"m{t}")
            steps.append((t + 1) * interval)
            want, close = leak(steps, mem[: t + 1], interval, 10)
            sure = sure and not close
            if want:
                found.append((*want, "critical" if want[0] > 100 else "high" if want[0] > 50 else "medium" if want[0] > 20 else "low", len(steps[-10:])))
        if not sure:
            continue
        got = [(x.total_leaked_mb, x.growth_rate_mb_per_step, x.first_detected_step, x.last_detected_step, x.severity, len(set(x.affected_modules))) for x in tr.detected_leaks]
        ok = len(got) == len(found) and all(abs(g[0] - w[0]) < 1e-6 and abs(g[1] - w[1]) < 1e-6 and g[2:] == w[2:] for g, w in zip(got, found))
        ex.check(ok, f"{mem}", f"{got}, expected {found}")
        s = tr.get_memory_summary()["leaks"]
        want = (len(found), sum(f[4] == "critical" for f in found), sum(f[4] == "high" for f in found))
        ex.check((s["total_detected"], s["critical_leaks"], s["high_leaks"]) == want, f"{mem} summary", s)
        ex.check(("No Memory Leaks" in tr.generate_memory_report()) == (not found), f"{mem} report", found)
        ex.explored(len(mem), len(mem) * interval, 1)
        ex.outcome(repr([f[2:] for f in found]))


def tasks(tier):
    th = tier == "thorough"
    res = [Task("actions", check_actions, dict(length=5 if th else 4)), Task("wrappers", check_wrappers, dict(T=4 if th else 3))]
    res += [Task("real", check_real, dict(T=4 if th else 3)), Task("time", check_time), Task("growth", check_growth, dict(T=16 if th else 14)), Task("results", check_results, dict(length=6 if th else 5))]
    depth = 5 if th else 4
    for op in DOPS:
        for cfg in [(2, True, True, "float"), (3, True, True, "array"), (2, False, True, "float"), (2, True, False, "float")]:
            d = depth if cfg[1] and cfg[2] and (th or cfg[0] == 2) else depth - 1
            res.append(Task(f"debugger:{cfg}:{op}", check_debugger, dict(depth=d, history=cfg[0], states=cfg[1], times=cfg[2], kind=cfg[3], first=op)))
    for op in POPS:
        for history, memory, cpu in [(2, True, True), (3, False, True), (3, True, False)]:
            res.append(Task(f"profiler:{history},{memory},{cpu}:{op}", check_profiler, dict(depth=depth + history - 3, history=history, memory=memory, cpu=cpu, first=op)))
    for op in TOPS:
        for interval, keep in [(1, 2), (2, 3), (3, 2)]:
            res.append(Task(f"tracker:{interval},{keep}:{op}", check_tracker, dict(depth=depth + 1, interval=interval, keep=keep, first=op)))
    for interval in (1, 2, 5):
        short = [list(s) for n in (5, 6) for s in itertools.product([0, 8, 30, 120] if th or n == 5 else [0, 8, 30], repeat=n)]
        long = [list(s) for s in itertools.product([0, 60], repeat=12 if th else 11)]
        res.append(Task(f"leaks:short,{interval}", check_leaks, dict(sequences=short, interval=interval)))
        if th or interval == 2:
            res.append(Task(f"leaks:long,{interval}", check_leaks, dict(sequences=long, interval=interval)))
    return res
