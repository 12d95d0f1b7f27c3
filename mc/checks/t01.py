"""T01: debugger, profiler and memory tracker shared by threads.

Stateless model checking of the real objects: two or three real threads call the methods of one
object, and every schedule with at most a given number of preemptions is executed, a preemption
being possible before every bytecode instruction of the code under test which may touch something
shared (see mc/threads.py).  In every schedule, what the calls return and everything which the
object shows afterwards must be the same as in one of the sequential executions of the same calls
(linearizability); no call may raise or wait forever.
"""

import contextlib
import dataclasses
import io
import itertools
import threading
import time
from types import SimpleNamespace

import numpy as np
import psutil

from mc import threads

threads.install()

MB = 1024 * 1024
READINGS = [100, 230, 90, 400, 410, 700]
MEMORY = SimpleNamespace(n=0)


class FakeProcess:
    """Stands for the process whose memory is read: a script of readings."""

    def __init__(self, *a, **k):
        pass

    def memory_info(self):
        MEMORY.n += 1
        if MEMORY.n > 1000:  # growing
            return SimpleNamespace(rss=(MEMORY.n - 1000) * 100 * MB, vms=0)
        return SimpleNamespace(rss=READINGS[(MEMORY.n - 1) % len(READINGS)] * MB, vms=0)

    def cpu_percent(self, *a, **k):
        return 12.5


psutil.Process = FakeProcess
psutil.virtual_memory = lambda: SimpleNamespace(total=8192 * MB, available=4096 * MB)

from mc.core import Task, from_wax  # noqa: E402
from wax.flax.debug import DebugHook, MemoryTracker, StreamingDebugger, StreamingProfiler  # noqa: E402
from wax.flax.debug import create_performance_report  # noqa: E402

PROPERTY = "T01"
ASSUMPTIONS = [
    "the readings of psutil and of the clock are scripted",
    "a bytecode instruction of the code under test and what it calls outside wax is atomic",
    "rebinding of module globals is not interleaved",
    "at most the stated number of preemptions",
]


NOISE = {"gc_collections", "gc_objects_count", "python_objects_mb"}  # of the interpreter


def plain(x):
    """A copy of a result, to compare later."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {"type": type(x).__name__, **{f.name: plain(getattr(x, f.name)) for f in dataclasses.fields(x) if f.name not in NOISE}}
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, (list, tuple)) or type(x).__name__ == "deque":
        return [plain(v) for v in list(x)]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return type(x).__name__


def sort_modules(x):
    if isinstance(x, dict):
        return {k: sorted(v) if k == "affected_modules" else sort_modules(v) for k, v in x.items()}
    return [sort_modules(v) for v in x] if isinstance(x, list) else x


# -- the objects, their calls and what they show -------------------------------------------


def new_debugger():
    d = StreamingDebugger(max_history=3)
    d.add_hook(DebugHook("a", lambda *a: True, "capture", max_events=2))
    d.add_hook(DebugHook("z", lambda step, *a: step % 2 == 0, "capture"))
    d.step("m", {"v": 0.5}, 0.5, 1.0, execution_time=0.25)
    return d


def hook_b():
    return DebugHook("b", lambda *a: True, "log")


DEBUGGER = {
    "step0": lambda d: d.step("m0", {"v": 1.5}, 1.0, 2.0, execution_time=0.5),
    "step1": lambda d: d.step("m1", {"v": 2.5}, 3.0, 4.0, execution_time=0.125),
    "add": lambda d: d.add_hook(hook_b()) and None,
    "remove": lambda d: d.remove_hook("a") and None,
    "clear": lambda d: d.clear_history(),
    "summary": lambda d: d.get_summary(),
    "export": lambda d: d.export_events(),
    "disable": lambda d: d.disable(),
    "enable": lambda d: d.enable(),
}


def show_debugger(d):
    res = [d.enabled, d.current_step, d.export_events(), d.state_history, {n: (h.hit_count, h.events) for n, h in d.hooks.items()}]
    res = [plain(r) for r in res]
    d.enable()
    d.step("m9", {"v": 9.5}, 9.0, 9.0, execution_time=1.0)
    return [*res, plain(d.export_events())]


def new_profiler():
    p = StreamingProfiler(max_history=3, bottleneck_threshold_ms=100.0)
    p.record_metrics("A", 0.5, 1.0, 2.0)
    return p


def timed(p):
    with p.start_step("A") as ctx:
        ctx.set_jit_compilation(True)
        ctx.output_data = [1.0, "x"]


PROFILER = {
    "record A": lambda p: p.record_metrics("A", 0.25, 1.0, {"a": 2.0}),
    "record B": lambda p: p.record_metrics("B", 0.0625, None, 1, jit_compilation=True),
    "timed A": timed,
    "module A": lambda p: p.get_module_summary("A"),
    "finalize": lambda p: p.finalize(),
    "report": lambda p: create_performance_report(p.finalize()),
    "advice": lambda p: p.generate_optimization_recommendations(),
    "reset": lambda p: p.reset(),
    "disable": lambda p: p.disable(),
    "enable": lambda p: p.enable(),
}


def show_profiler(p):
    res = [plain(x) for x in (p.enabled, p.step_count, p.finalize(), p.get_module_summary("A"), p.get_module_summary("B"))]
    p.enable()
    p.record_metrics("A", 1.0)
    return [*res, plain(p.finalize())]


def new_tracker():
    t = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=2, max_snapshots=6)
    for _ in range(3):
        t.take_snapshot("A", state={"s": np.zeros(2)}, force=True)
    MEMORY.n = 3
    t.take_snapshot("A", force=True)
    return t


TRACKER = {
    "take A": lambda t: t.take_snapshot("A", state={"s": np.zeros(4)}),
    "force B": lambda t: t.take_snapshot("B", force=True),
    "summary": lambda t: t.get_memory_summary(),
    "module A": lambda t: t.get_module_memory_analysis("A"),
    "report": lambda t: t.generate_memory_report(),
    "reset": lambda t: t.reset(),
    "disable": lambda t: t.disable(),
    "enable": lambda t: t.enable(),
}


def show_tracker(t):
    def view():
        return plain([t.enabled, t.step_count, t.snapshots, t.detected_leaks, t.get_memory_summary(), t.generate_memory_report(), t.get_module_memory_analysis("A"), t.get_module_memory_analysis("B")])

    res = view()
    t.enable()
    t.take_snapshot("B", force=True)
    return [res, view()]


def grown_profiler():
    """Enough records for the detection of leaks, which finds one."""
    p = StreamingProfiler(max_history=12, bottleneck_threshold_ms=100.0)
    MEMORY.n = 1000
    for _ in range(10):
        p.record_metrics("A", 0.5, 1.0, 2.0)
    return p


GROWN_PROFILER = {
    "leaks": lambda p: p.detect_memory_leaks(),
    **{k: PROFILER[k] for k in ("record A", "finalize", "advice", "reset")},
}


def grown_tracker():
    t = MemoryTracker(enable_detailed_tracking=False, enable_gc_monitoring=False, snapshot_interval=2, max_snapshots=12)
    MEMORY.n = 1000
    for _ in range(10):
        t.take_snapshot("A", state={"s": np.zeros(2)}, force=True)
    return t


GROWN_TRACKER = {k: TRACKER[k] for k in ("take A", "force B", "summary", "report", "reset")}

OBJECTS = {
    "grown profiler": (grown_profiler, GROWN_PROFILER, show_profiler),
    "grown tracker": (grown_tracker, GROWN_TRACKER, show_tracker),
    "debugger": (new_debugger, DEBUGGER, show_debugger),
    "profiler": (new_profiler, PROFILER, show_profiler),
    "tracker": (new_tracker, TRACKER, show_tracker),
}
SETTERS = {"disable", "enable"}


def call(fn, obj):
    try:
        return sort_modules(plain(fn(obj)))
    except threads.Abandon:
        raise
    except Exception as e:
        if not from_wax(e):
            raise
        return f"raised {type(e).__name__}: {e}"


def sequential(kind, progs):
    """Results of all the sequential executions which keep the order of every thread."""
    new, ops, show = OBJECTS[kind]
    allowed = []
    slots = [t for t, p in enumerate(progs) for _ in p]
    for order in sorted(set(itertools.permutations(slots))):
        MEMORY.n = 0
        obj = new()
        got = [[] for _ in progs]
        for t in order:
            got[t].append(call(ops[progs[t][len(got[t])]], obj))
        res = [got, sort_modules(show(obj))]
        if res not in allowed:
            allowed.append(res)
    return allowed


@contextlib.contextmanager
def scripted():
    clock, count = time.time, threading.active_count
    time.time, threading.active_count = lambda: 1.6e9, lambda: 1
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        time.time, threading.active_count = clock, count


def check_threads(ex, kind, programs, bound, opcodes):
    new, ops, show = OBJECTS[kind]
    with scripted():
        for progs in programs:
            case = " | ".join("; ".join(p) for p in progs)
            allowed = sequential(kind, progs)
            for res in allowed:
                for r in itertools.chain(*res[0]):
                    ex.check(not str(r).startswith("raised"), case + " one after the other", r)

            def make():
                MEMORY.n = 0
                obj = new()
                got = [[] for _ in progs]

                def program(t):
                    def run():
                        for op in progs[t]:
                            got[t].append(call(ops[op], obj))

                    return run

                return [program(t) for t in range(len(progs))], lambda: [got, sort_modules(show(obj))]

            seen = set()
            most = 0
            for decisions, res, points, new_points in threads.explore(make, bound, opcodes):
                ex.explored(new_points, points, 1)
                most = max(most, points)
                if isinstance(res, threads.Deadlock):
                    ex.violation(case, f"deadlock: {res}", schedule=decisions)
                    break
                key = repr(res)
                if key in seen:
                    ex.comparisons += 1
                    continue
                seen.add(key)
                ex.outcome(key)
                if not ex.check(res in allowed, case, f"switches {decisions}: {difference(res, allowed)}", schedule=decisions, got=res):
                    break
            if most < 5:
                raise RuntimeError(f"{case}: the threads were not under control")


def difference(res, allowed):
    """How the result differs from the nearest allowed one."""

    def diff(a, b, path=""):
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return [d for k in a for d in diff(a[k], b[k], f"{path}/{k}")]
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [d for i in range(len(a)) for d in diff(a[i], b[i], f"{path}/{i}")]
        return [] if a == b else [f"{path}: {a!r:.200}, sequentially {b!r:.200}"]

    return min((diff(res, a) for a in allowed), key=len)[:4]


def pairs(ops):
    return [((a,), (b,)) for a, b in itertools.combinations_with_replacement(ops, 2) if not {a, b} <= SETTERS]


def triples(ops, switched):
    """One call against two; the two are not both changes of the switch.  `switched`: the first
    one is."""
    for a in ops:
        for b, c in itertools.product(ops, repeat=2):
            if not {b, c} <= SETTERS and a not in SETTERS and (b in SETTERS or not switched):
                yield ((a,), (b, c))


def chunks(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]


def tasks(tier):
    th = tier == "thorough"
    res = []

    def add(name, kind, programs, bound, opcodes, n):
        for i, part in enumerate(chunks(programs, n)):
            res.append(Task(f"{kind}:{name}:{i}", check_threads, dict(kind=kind, programs=part, bound=bound, opcodes=opcodes)))

    for kind, (_, ops, _) in OBJECTS.items():
        grown = kind.startswith("grown")
        add("1|1,1 preemption", kind, pairs(ops), 1, True, 3 if grown else 6)
        if grown and not th:
            continue
        add("1|2,lines", kind, triples(ops, not th), 1, False, 12)
        if th:
            add("1|1,2 preemptions", kind, pairs(ops), 2, False, 12)
            add("1|2,1 preemption", kind, triples(ops, False), 1, True, 24)
            three = [((a,), (b,), (c,)) for a, b, c in itertools.combinations_with_replacement(ops, 3) if len({a, b, c} & SETTERS) < 2]
            add("1|1|1,lines", kind, three, 1, False, 24)
    return res
