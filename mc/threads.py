"""Exhaustive exploration of the interleavings of real threads (stateless model checking).

The code under test runs on real threads, of which exactly one runs at any time.  A thread may
be interrupted before every bytecode instruction of the code under test which can read or write
something shared (or at every line, as a coarser grain), and at every operation on a lock.  All
schedules with at most a given number of preemptions are executed, each exactly once; switches
because a thread ends or waits for a lock are free.

Locks created by the code under test are replaced (see `install`) by locks with the semantics of
threading.RLock / threading.Lock under the control of the scheduler, so that waiting and deadlocks
are seen by the explorer.
"""

import dis
import os
import sys
import threading

from mc.core import WAX_SRC

_Thread, _Semaphore = threading.Thread, threading.Semaphore
_real = {"RLock": threading.RLock, "Lock": threading.Lock}
PREFIX = WAX_SRC + os.sep
LOCAL = {
    "CACHE", "RESUME", "NOP", "EXTENDED_ARG", "PUSH_NULL", "POP_TOP", "COPY", "SWAP", "KW_NAMES", "LOAD_CONST",
    "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "DELETE_FAST", "LOAD_GLOBAL", "LOAD_CLOSURE",
    "MAKE_CELL", "COPY_FREE_VARS", "LOAD_DEREF", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "RETURN_VALUE",
    "RETURN_CONST", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP", "BUILD_CONST_KEY_MAP", "BUILD_STRING", "MAKE_FUNCTION",
    "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "IS_OP", "END_FOR", "PUSH_EXC_INFO", "POP_EXCEPT", "RERAISE", "RETURN_GENERATOR",
}
_current = None  # the scheduler of the execution under way
_shared_offsets = {}
_under_test = {}


def shared_offsets(code):
    """Offsets of the instructions of `code` which may touch something shared."""
    got = _shared_offsets.get(code)
    if got is None:
        got = {i.offset for i in dis.get_instructions(code) if i.opname not in LOCAL}
        _shared_offsets[code] = got
    return got


def under_test(filename):
    got = _under_test.get(filename)
    if got is None:
        got = _under_test[filename] = os.path.realpath(filename).startswith(PREFIX)
    return got


class Deadlock(Exception):
    pass


class Abandon(BaseException):
    """Unwinds the threads of an execution which is given up."""


class ControlledLock:
    """threading.RLock (or Lock) under the control of the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.count = None, 0

    def _me(self):
        s = _current
        return (s.me() if s is not None else None) or "main"

    def acquire(self, blocking=True, timeout=-1):
        me, s = self._me(), _current
        if me != "main":
            s.point()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking or timeout > 0:
                return False
            if me == "main":
                raise Deadlock("a lock is held after the end of the threads")
            s.wait_for(self)
        self.owner, self.count = me, self.count + 1
        return True

    __enter__ = acquire

    def release(self):
        if not self.count or (self.reentrant and self.owner != self._me()):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if self._me() != "main":
                _current.released(self)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return bool(self.count)


def _called_by_wax():
    return under_test(sys._getframe(2).f_code.co_filename)


def install():
    """From now on, locks created by the code under test are controlled ones."""
    threading.RLock = lambda: ControlledLock(True) if _called_by_wax() else _real["RLock"]()
    threading.Lock = lambda: ControlledLock(False) if _called_by_wax() else _real["Lock"]()


class Scheduler:
    """One execution of `programs` (functions without arguments, one per thread).

    `decisions` maps numbers of scheduling points to the thread to run there; by default the
    running thread goes on, and the first enabled one follows a thread which waits or ends."""

    def __init__(self, programs, decisions, opcodes, free):
        self.programs, self.decisions, self.opcodes = programs, decisions, opcodes
        # `free`: preemptions are still possible after the last decision.  Otherwise, and if there
        # are two threads, nothing is decided any more, and the points need not be traced
        self.last = max(decisions, default=-1) if not free and len(programs) == 2 else None
        self.quiet = False
        self.gates = [_Semaphore(0) for _ in programs]
        self.done_gate = _Semaphore(0)
        self.ids = {}
        self.blocked = {}  # thread -> lock
        self.finished = set()
        self.running = None
        self.n = 0
        self.trace = []  # per point: (enabled threads, chosen, forced switch)
        self.error = None
        self.abandoned = False

    def me(self):
        return self.ids.get(threading.get_ident())

    # -- points ---------------------------------------------------------------------

    def enabled(self):
        return [t for t in self.order if t not in self.finished and t not in self.blocked]

    def choose(self, forced):
        en = self.enabled()
        if not en:
            if len(self.finished) == len(self.order):
                return None
            self.error = Deadlock(f"all threads wait: {sorted(self.blocked)}")
            return None
        default = en[0] if forced else self.running
        chosen = self.decisions.get(self.n, default)
        if chosen not in en:
            raise RuntimeError(f"the execution is not reproducible: {chosen} is not enabled at point {self.n}")
        self.trace.append((tuple(en), chosen, forced))
        self.n += 1
        self.quiet = self.last is not None and self.n > self.last
        return chosen

    def switch(self, me, to):
        if to == me:
            return
        self.running = to
        if to is None:
            self.stop()
        else:
            self.gates[self.order.index(to)].release()
        if me not in self.finished:
            self.gates[self.order.index(me)].acquire()
        if self.abandoned and me not in self.finished:
            raise Abandon()

    def stop(self):
        """Nothing can run any more: everything has ended, or a deadlock."""
        self.abandoned = True
        for t in self.order:
            if t not in self.finished:
                self.gates[self.order.index(t)].release()
        self.done_gate.release()

    def point(self):
        if self.abandoned or self.quiet:
            return
        me = self.running
        self.switch(me, self.choose(False))

    def wait_for(self, lock):
        if self.abandoned:
            raise Abandon()
        me = self.me()
        self.blocked[me] = lock
        self.switch(me, self.choose(True))

    def released(self, lock):
        for t in [t for t, other in self.blocked.items() if other is lock]:
            del self.blocked[t]

    # -- threads --------------------------------------------------------------------

    def tracer(self, frame, event, arg):
        if not under_test(frame.f_code.co_filename):
            return None
        if not self.opcodes:
            return self.on_line
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.on_opcode

    def on_line(self, frame, event, arg):
        if self.quiet:
            sys.settrace(None)
            return None
        if event == "line":
            self.point()
        return self.on_line

    def on_opcode(self, frame, event, arg):
        if self.quiet:
            sys.settrace(None)
            return None
        if event == "opcode" and frame.f_lasti in shared_offsets(frame.f_code):
            self.point()
        return self.on_opcode

    def body(self, t, program):
        self.ids[threading.get_ident()] = t
        self.gates[t - 1].acquire()
        try:
            if not self.abandoned:
                if not self.quiet:
                    sys.settrace(self.tracer)
                try:
                    program()
                finally:
                    sys.settrace(None)
        except Abandon:
            pass
        except BaseException as e:  # an error of the harness
            self.error = self.error or e
        self.finished.add(t)
        if not self.abandoned:
            try:
                self.switch(t, self.choose(True))
            except BaseException as e:
                self.error = self.error or e
                self.stop()

    def run(self):
        global _current
        self.order = list(range(1, len(self.programs) + 1))
        threads = [_Thread(target=self.body, args=(t, p), daemon=True) for t, p in zip(self.order, self.programs)]
        _current = self
        try:
            for t in threads:
                t.start()
            first = self.choose(True)
            self.running = first
            self.gates[first - 1].release()
            self.done_gate.acquire()
            for t in threads:
                t.join()
        finally:
            _current = None
        if self.error is not None and not isinstance(self.error, Deadlock):
            raise self.error
        return self


def explore(make, bound, opcodes=True):
    """Execute every schedule of the threads with at most `bound` preemptions.

    `make()` prepares a fresh execution and returns (programs, result); `result()` is called
    after the threads have ended.  Yields (schedule, result or Deadlock, number of points,
    number of points which no execution before had reached)."""
    todo = [({}, 0, 0)]
    while todo:
        decisions, start, used = todo.pop()
        programs, result = make()
        s = Scheduler(programs, decisions, opcodes, used < bound).run()
        out = s.error if s.error is not None else result()
        yield decisions, out, s.n, max(0, s.n - start)
        for i in range(start, len(s.trace)):
            en, chosen, forced = s.trace[i]
            cost = used if forced else used + 1
            if cost > bound:
                continue
            for t in en:
                if t != chosen:
                    todo.append(({**decisions, i: t}, i + 1, cost))
