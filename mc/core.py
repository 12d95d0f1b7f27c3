"""Core of the explorer: histories, comparison with reference models, bookkeeping.

A check module defines

    PROPERTY = "M01"
    def tasks(tier): return [Task(name, function, kwargs), ...]

Each task gets an `Explorer` (below) and exhaustively enumerates one slice of the
bounded space on the real code.  Tasks are independent of each other and are spread over
worker processes by mc.runner.
"""

import hashlib
import itertools
import json
import os
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

import numpy as np

WAX_SRC = os.path.realpath(os.environ.get("WAX_SRC", "/repo/src"))
MAX_VIOLATIONS_PER_TASK = 3
OUTPUT_ERRORS = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError)


@dataclass
class Task:
    name: str
    fn: Callable
    kwargs: dict = field(default_factory=dict)


class Violation(Exception):
    """Raised to abandon a task after its first violations."""


class ImplementationError(Exception):
    """The code under test raised on an input on which the property defines an answer."""


def histories(alphabet, T, dtype=np.float32):
    """All |alphabet|^T histories as columns of an array of shape (T, N).

    The first columns vary the last step fastest, so that the first counterexample found
    has its interesting symbols as late (and as simple) as possible."""
    alphabet = np.asarray(alphabet, dtype)
    k = len(alphabet)
    idx = np.array(list(itertools.product(range(k), repeat=T)), dtype=np.int64).T
    return alphabet[idx.reshape(T, -1)]


def de_bruijn(k, n):
    """De Bruijn sequence B(k, n): cyclic sequence with every word of length n once."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if hasattr(x, "_fields"):
        return {f: jsonable(getattr(x, f)) for f in x._fields}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    try:
        a = np.asarray(x)
        if a.dtype.kind in "fiub":
            return jsonable(a.tolist())
    except Exception:
        pass
    return repr(x)[:500]


def values_differ(got, want, rtol, atol):
    """Boolean array: where got != want (NaN equals NaN, infinities by sign)."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.dtype.kind in "fc" or want.dtype.kind in "fc":
        g = got.astype(np.float64)
        w = want.astype(np.float64)
        with np.errstate(all="ignore"):
            close = np.abs(g - w) <= atol + rtol * np.abs(w)
        same = (g == w) | (np.isnan(g) & np.isnan(w)) | (close & np.isfinite(g) & np.isfinite(w))
        return ~same
    return ~(got == want)


def from_wax(exc):
    """True if the exception was raised through the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            f = os.path.realpath(tb.tb_frame.f_code.co_filename)
            if f.startswith(WAX_SRC + os.sep):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


class Explorer:
    """Book-keeping for one task: what was explored, and where the property failed."""

    def __init__(self, prop, task, tier, known=()):
        self.prop = prop
        self.task = task
        self.tier = tier
        self.known = set(known)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.samples = []
        self.outcomes = set()
        self.violations = []
        self.known_hits = []
        self.notes = []
        self.model_states = set()

    # -- bookkeeping ----------------------------------------------------------------

    def explored(self, states=0, transitions=0, traces=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)

    def explored_histories(self, X, layouts=1):
        """Count an exhaustive run over the columns of X (T, N): the states are the distinct
        history prefixes (nodes of the execution tree), the transitions the steps executed."""
        X = np.asarray(X)
        if X.ndim == 1:
            X = X[:, None]
        T, N = X.shape[:2]
        flat = X.reshape(T, N, -1)
        _, codes = np.unique(
            np.where(flat == flat, flat, 12345.678) if flat.dtype.kind == "f" else flat,
            return_inverse=True,
        )
        codes = codes.reshape(flat.shape).astype(np.int64)
        base = int(codes.max()) + 1 if codes.size else 1
        step = np.zeros((T, N), np.int64)
        for k in range(codes.shape[2]):
            step = step * base + codes[:, :, k]
        node = np.zeros(N, np.int64)
        n_states = 1
        for t in range(T):
            _, node = np.unique(np.stack([node, step[t]]), axis=1, return_inverse=True)
            node = node.reshape(-1)
            n_states += int(node.max()) + 1 if N else 0
        self.explored(n_states, T * N * layouts, N * layouts)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable({"task": self.task, **kw}))

    def outcome(self, x):
        """Record an observed outcome (to show that the exploration is not vacuous)."""
        a = np.ascontiguousarray(np.asarray(x))
        if a.dtype.kind == "O":
            h = hashlib.sha1(repr(jsonable(x)).encode()).hexdigest()[:16]
            self.outcomes.add(h)
        elif a.size:
            if a.dtype.kind == "f":
                a = np.round(a.astype(np.float64), 4)
            u = np.unique(a)[:2000]
            self.outcomes.update(map(repr, u.tolist()))

    # -- verdicts -------------------------------------------------------------------

    def violation(self, case, detail, **replay):
        """Record one violation.  `case` identifies the failing input / history."""
        case = f"{self.task}:{case}"
        if case in self.known:
            self.known_hits.append(case)
            return
        self.violations.append(
            {
                "property": self.prop,
                "task": self.task,
                "case": case,
                "detail": str(detail)[:4000],
                "replay": jsonable(replay),
            }
        )
        if len(self.violations) >= MAX_VIOLATIONS_PER_TASK:
            raise Violation()

    def check(self, ok, case, detail="", **replay):
        self.comparisons += 1
        if not bool(ok):
            self.violation(case, detail, **replay)
            return False
        return True

    def equal(self, got, want, case, **replay):
        """got == want for plain Python values."""
        self.comparisons += 1
        self.outcome(repr(got))
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            self.violation(case, f"got {got!r}, expected {want!r}", got=got, want=want, **replay)
        return same

    def same_array(self, got, want, case, rtol=2e-5, atol=2e-6, dtype=None, **replay):
        """Arrays equal, same shape (and dtype if given)."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.comparisons += max(1, want.size)
        if got.shape != want.shape:
            self.violation(
                case, f"shape {got.shape}, expected {want.shape}", got=got, want=want, **replay
            )
            return False
        if dtype is not None and got.dtype != np.dtype(dtype):
            self.violation(case, f"dtype {got.dtype}, expected {np.dtype(dtype)}", **replay)
            return False
        self.outcome(got)
        if got.dtype.kind in "OSU" or want.dtype.kind in "OSU" or got.dtype.kind in "mM":
            bad = ~(got == want)
            if got.dtype.kind in "mM":
                bad &= ~(np.isnat(got) & np.isnat(want))
        else:
            bad = values_differ(got, want, rtol, atol)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            self.violation(
                case,
                f"at {i}: got {got[i]!r}, expected {want[i]!r} "
                f"({int(bad.sum())} of {bad.size} differ)",
                got=got if got.size < 200 else got[i],
                want=want if want.size < 200 else want[i],
                **replay,
            )
            return False
        return True

    def same_tree(self, got, want, case, rtol=2e-5, atol=2e-6, **replay):
        """Same nested structure of dict/tuple/list/namedtuple with equal arrays as leaves."""

        def walk(g, w, path):
            if isinstance(w, dict):
                if not isinstance(g, dict) and not hasattr(g, "items"):
                    self.violation(f"{case}{path}", f"not a mapping: {type(g)}", **replay)
                    return False
                if sorted(map(str, g)) != sorted(map(str, w)):
                    self.violation(
                        f"{case}{path}", f"keys {sorted(map(str, g))} != {sorted(map(str, w))}",
                        **replay,
                    )
                    return False
                return all([walk(g[k], w[k], f"{path}/{k}") for k in w])
            if isinstance(w, (tuple, list)):
                if not isinstance(g, (tuple, list)) or len(g) != len(w):
                    self.violation(f"{case}{path}", f"got {g!r:.300}, expected {w!r:.300}", **replay)
                    return False
                return all([walk(a, b, f"{path}/{i}") for i, (a, b) in enumerate(zip(g, w))])
            if w is None:
                return self.check(g is None, f"{case}{path}", f"got {g!r:.300}, expected None")
            return self.same_array(g, w, f"{case}{path}", rtol, atol, **replay)

        return walk(got, want, "")

    def same_columns(self, got, want, X, case, rtol=2e-5, atol=2e-6, **replay):
        """Outputs (T, N, ...) of all histories X (T, N, ...); reports the simplest history."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.comparisons += max(1, want.size)
        if got.shape != want.shape:
            self.violation(case, f"shape {got.shape}, expected {want.shape}", **replay)
            return False
        self.outcome(got.reshape(-1)[:: max(1, got.size // 5000)])
        bad = values_differ(got, want, rtol, atol)
        if not bad.any():
            return True
        T, N = bad.shape[:2]
        per = bad.reshape(T, N, -1).any(-1)
        # earliest failing step, then first such history
        first = np.where(per.any(0), per.argmax(0), T)
        n = int(first.argmin())
        t = int(first[n])
        X = np.asarray(X)
        hist = X[: t + 1, n] if X.ndim > 1 else X[: t + 1]
        self.violation(
            f"{case}",
            f"history {jsonable(hist)}: step {t}: got {jsonable(got[t, n])}, "
            f"expected {jsonable(want[t, n])} ({int(per.any(0).sum())} of {N} histories differ)",
            history=hist,
            step=t,
            got=got[: t + 1, n],
            want=want[: t + 1, n],
            **replay,
        )
        return False

    def result(self):
        return {
            "task": self.task,
            "states": self.states + len(self.model_states),
            "transitions": self.transitions,
            "traces": self.traces,
            "comparisons": self.comparisons,
            "samples": self.samples,
            "outcomes": sorted(self.outcomes)[:5000],
            "violations": self.violations,
            "known_hits": sorted(set(self.known_hits)),
            "notes": self.notes,
        }


def run_task(prop, task, tier, known):
    """Run one task; exceptions raised through the code under test are violations."""
    ex = Explorer(prop, task.name, tier, known)
    res_error = None
    try:
        task.fn(ex, **task.kwargs)
    except Violation:
        pass
    except Exception as e:
        text = traceback.format_exc()
        resources = isinstance(e, (MemoryError, OSError)) or "RESOURCE_EXHAUSTED" in str(e)
        if not resources and (from_wax(e) or isinstance(e, OUTPUT_ERRORS)):
            # raised by the code under test, or by the comparison of an output which does not
            # even have the structure it has to have (on the tree the check was written
            # for, no comparison raises)
            try:
                ex.violation(
                    f"raised {type(e).__name__}",
                    f"the code under test raised, or its output is malformed: {e!r:.600}",
                    config=task.kwargs,
                    traceback=text[-3000:],
                )
            except Violation:
                pass
        else:
            res_error = text
    res = ex.result()
    res["error"] = res_error
    return res


def load_known(path, prop):
    """known-findings file: lines `finding: property=<id> case=<case> -- text`."""
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, text = line[len("finding: ") :].partition(" -- ")
            parts = head.split(" case=", 1)
            if len(parts) == 2 and parts[0] == f"property={prop}":
                known[parts[1].strip()] = text.strip()
    return known


def dump(path, obj):
    tmp = f"{path}.tmp{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=repr)
    os.replace(tmp, path)
