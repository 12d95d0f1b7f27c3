"""F07: compressed and hierarchical buffers.

Element-wise strategies (none, downsampling, moving average) on all the histories at once, one
per column; quantiles on every rotation of de Bruijn streams, which visit every content of the
window at every phase of the updates; the sketch on the tree of all the sequences.  Levels of
the hierarchical buffers are compared at each step, also between their updates.
"""

import itertools

import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, de_bruijn, histories
from mc.haikutools import to_np
from mc.models import ewma_model
from wax.flax.modules.compressed_buffer import (
    CompressedBuffer,
    HierarchicalBuffer,
    streaming_compressed_memory,
    streaming_hierarchical_memory,
)

PROPERTY = "F07"
ASSUMPTIONS = ["step by step, not compiled (updates depend on counters held in Python)", "flax.linen is trusted"]
KEY = jax.random.PRNGKey(5)
NAN = np.nan


def stream(module, X):
    """Outputs of a module along X, the first one being the one of the initialisation."""
    outs = []
    out, v = module.init_with_output(KEY, jnp.asarray(X[0]))
    outs.append(to_np(out))
    for x in X[1:]:
        out, new = module.apply(v, jnp.asarray(x), mutable=["state"])
        v = {**v, **new}
        outs.append(to_np(out))
    return outs


def transform_stream(transform, X):
    """Outputs of a transform along X, after its initialisation on the first value."""
    params, state = transform.init(KEY, jnp.asarray(X[0]))
    outs = []
    for x in X[1:]:
        out, state = transform.apply(params, state, None, jnp.asarray(x))
        outs.append(to_np(out))
    return outs


def window(values, n, fill):
    """Last n of the values, oldest first, completed on the left."""
    shape = np.shape(values[0]) if len(values) else ()
    last = list(values[-n:])
    return np.array([np.full(shape, fill)] * (n - len(last)) + last)


class Level:
    """Model of a compressed buffer: (kind, ...) and the values given to it."""

    def __init__(self, kind, maxlen, params, fill=0.0):
        self.kind, self.maxlen, self.params, self.fill = kind, maxlen, params or {}, fill
        self.values = []
        q = self.params.get("percentiles", [0.1, 0.25, 0.5, 0.75, 0.9])
        self.quantiles = np.full(len(q), fill, np.float64)

    def add(self, x):
        if self.kind == "quantile" and len(self.values) % 10 == 0:
            seen = np.array((self.values + [x])[-min(self.maxlen, 1000) :], np.float64)
            seen = seen[~np.isnan(seen)]
            if len(seen):
                self.quantiles = np.quantile(seen, self.params.get("percentiles", [0.1, 0.25, 0.5, 0.75, 0.9]))
        self.values.append(x)

    def content(self):
        if self.kind == "none":
            return window(self.values, self.maxlen, self.fill)
        if self.kind == "downsample":
            f = self.params.get("factor", 2)
            return window(self.values[::f], max(1, self.maxlen // f), self.fill)
        if self.kind == "ewma":
            V = np.array(self.values)
            flat = V.reshape(len(V), -1)
            return ewma_model(flat, alpha=self.params.get("alpha", 0.1))[0][-1].reshape(V.shape[1:])
        return self.quantiles


def check_columns(ex, kind, maxlen, params, T, fill=0.0):
    """All histories at once, as the elements of a vector (and of a matrix)."""
    for alphabet in ([1.0, -2.0], [3.0, NAN]):
        X = histories(alphabet, T)
        for shape in ("vector", "matrix"):
            Y = X if shape == "vector" else X.reshape(T, 2, -1)
            outs = stream(CompressedBuffer(maxlen, kind, params, fill), Y)
            model = Level(kind, maxlen, params, fill)
            for t in range(T):
                model.add(Y[t])
                ex.same_array(outs[t], model.content(), f"step {t},{shape}", rtol=1e-4, atol=1e-5)
            ex.explored_histories(X)
    # distinct values, far beyond the window; through the decorator
    X = np.arange(1.0, 4 * maxlen + 8, dtype=np.float32)

    @streaming_compressed_memory(maxlen=maxlen, compression=kind, compression_params=params)
    def f(content, x):
        return content, 2 * x

    for dec in (False, True):
        outs = transform_stream(f, X) if dec else stream(CompressedBuffer(maxlen, kind, params, fill), X)
        model = Level(kind, maxlen, params, 0.0 if dec else fill)
        for t, x in enumerate(X):
            model.add(x)
            if dec and t == 0:
                continue
            out = outs[t - dec]
            if dec:
                ex.same_array(out[1], 2 * x, "input given to the function")
                out = out[0]
            ex.same_array(out, model.content(), f"step {t} of distinct values,decorated={dec}", rtol=1e-4, atol=1e-5)
        ex.explored(len(X), len(X), 1)
    ex.sample(kind=kind, maxlen=maxlen, params=params, last=out)


def check_quantiles(ex, maxlen, percentiles, word):
    params = {"percentiles": percentiles} if percentiles else None
    alphabet = np.array([1.0, -2.0, 4.0, NAN], np.float32)
    base = alphabet[de_bruijn(4, word)]
    for shift in range(0, 10):
        X = np.concatenate([base[shift:], base[:shift]])
        outs = stream(CompressedBuffer(maxlen, "quantile", params), X)
        model = Level("quantile", maxlen, params)
        for t, x in enumerate(X):
            model.add(x)
            ex.same_array(outs[t], model.content(), f"step {t} of the rotation {shift}", rtol=1e-4, atol=1e-5, history=X[: t + 1])
        ex.explored(len(X), len(X), 1)


def check_missing(ex):
    """Nothing observed: the fill value, until something is."""
    for fill in (0.0, -3.0):
        for k in range(0, 24):
            X = np.full(32, NAN, np.float32)
            X[k] = 5.0
            outs = stream(CompressedBuffer(12, "quantile", {"percentiles": [0.0, 0.5, 1.0]}, fill), X)
            model = Level("quantile", 12, {"percentiles": [0.0, 0.5, 1.0]}, fill)
            for t, x in enumerate(X):
                model.add(x)
                ex.same_array(outs[t], model.content(), f"observed at {k}, step {t}")
            ex.explored(len(X), len(X), 1)


def check_sketch(ex, rows, buckets, T):
    """Every input adds one to one bucket of each row, always the same for the same value: the
    smallest of them is never less than the number of times the value was given."""
    module = CompressedBuffer(10, "sketching", {"num_hashes": rows, "num_buckets": buckets})
    alphabet = [0.0, 1.0, -1.5, 7.25]
    where = {}

    def visit(before, v, out, x, hist):
        sketch = np.asarray(v["state"]["sketch"])
        ex.check(sketch.shape == (rows, buckets), "shape of the sketch", sketch.shape)
        d = sketch - before
        ok = (d >= 0).all() and (d.sum(1) == 1).all()
        if not ex.check(ok, "an input is counted once in each row", f"after {hist}"):
            return sketch
        at = tuple(d.argmax(1).tolist())
        ex.check(where.setdefault(x, at) == at, "the buckets of a value change", f"{x}: {where[x]} then {at}")
        for y, b in where.items():
            est = min(sketch[i, k] for i, k in enumerate(b))
            ex.check(est >= hist.count(y), "a value is counted less than it was given", f"{y}: {est} in {hist}")
        ex.same_array(out, sketch.min(0), "summary")
        ex.explored(1, 1, 1)
        return sketch

    for x0 in alphabet:
        out, v = module.init_with_output(KEY, jnp.float32(x0))
        s = visit(np.zeros((rows, buckets)), v, out, x0, [x0])
        todo = [(v, s, [x0])]
        while todo:
            v, s, hist = todo.pop()
            if len(hist) == T:
                continue
            for x in alphabet:
                out, new = module.apply(v, jnp.float32(x), mutable=["state"])
                s2 = visit(s, new, out, x, hist + [x])
                todo.append((dict(new), s2, hist + [x]))
    if buckets > 40:
        ex.check(len(set(where.values())) == len(alphabet), "values are not told apart", where)


def check_hierarchical(ex, medium, long, T, decorated):
    """Levels at every step: the medium one has one value out of 5, the long one out of 50."""
    sizes = (3, 4, 5)
    X = np.array([(7 * i) % 11 - 3.0 for i in range(T)], np.float32)
    par = {"ewma": lambda a: {"alpha": a}}
    levels = [
        Level("none", sizes[0], None),
        Level(medium, sizes[1], par.get(medium, lambda a: None)(0.1)),
        Level(long, sizes[2], par.get(long, lambda a: None)(0.01)),
    ]
    if decorated:

        @streaming_hierarchical_memory(*sizes, medium, long)
        def f(content, x):
            return {**content, "x": -x}

        outs = [None] + transform_stream(f, X)
    else:
        outs = stream(HierarchicalBuffer(*sizes, medium, long), X)
    for t, x in enumerate(X):
        for level, every in zip(levels, (1, 5, 50)):
            if t % every == 0:
                level.add(x)
        if outs[t] is None:
            continue
        want = {"recent": levels[0].content(), "medium": levels[1].content(), "long": levels[2].content(), "input": x}
        if decorated:
            want["x"] = -x
        ex.same_tree(outs[t], want, f"step {t}", rtol=1e-4, atol=1e-5)
    ex.explored(T, T, 1)


def check_usage(ex):
    kinds = ("ewma", "quantile", "downsample", "sketching", "none")
    for m, l in itertools.product(kinds, kinds):
        for a, b, c in itertools.product((1, 10, 100), (4, 1000), (6, 20000)):
            u = HierarchicalBuffer(a, b, c, m, l).get_total_memory_usage()
            ex.equal(u["total"], u["recent"] + u["medium"] + u["long"], f"total,{m},{l}")
            ex.equal(u["recent"], 8 * a, "recent level")
            ex.check(abs(u["compression_ratio"] * u["total"] - 8 * (a + b + c)) < 1e-6, f"ratio,{m},{l}")
            ex.explored(1, 1, 1)
    for kind, n in itertools.product(kinds, (2, 10, 1000, 5000)):
        u = dict(CompressedBuffer(n, kind).get_memory_usage())
        want = {"ewma": 12, "quantile": min(n, 1000) * 8 + 44, "downsample": n // 2 * 8 + 4, "sketching": 4 * 1024 * 8 + 32, "none": 8 * n}
        ex.equal(u["total"], want[kind], f"total of {kind},{n}")


def tasks(tier):
    th = tier == "thorough"
    T = 10 if th else 7
    res = []
    for maxlen in (1, 2, 3, 5) + ((4, 7) if th else ()):
        res.append(Task(f"none:{maxlen}", check_columns, dict(kind="none", maxlen=maxlen, params=None, T=T, fill=-1.0)))
        for factor in (1, 2, 3) + ((4, 5) if th else ()):
            res.append(
                Task(f"downsample:{maxlen},{factor}", check_columns, dict(kind="downsample", maxlen=maxlen, params={"factor": factor}, T=T, fill=0.5))
            )
    for factor, maxlen in ((2, 8), (3, 9), (2, 7)):
        res.append(Task(f"downsample:{maxlen},{factor}", check_columns, dict(kind="downsample", maxlen=maxlen, params={"factor": factor}, T=T)))
    res.append(Task("downsample:default", check_columns, dict(kind="downsample", maxlen=6, params=None, T=T)))
    for alpha in (0.1, 0.5, None):
        res.append(Task(f"ewma:{alpha}", check_columns, dict(kind="ewma", maxlen=4, params=alpha and {"alpha": alpha}, T=T)))
    for maxlen in (1, 2, 3, 20) + ((4, 5) if th else ()):
        for p in (None, [0.25, 0.5, 0.75]):
            res.append(Task(f"quantile:{maxlen},{p}", check_quantiles, dict(maxlen=maxlen, percentiles=p, word=3 if th else 2)))
    res.append(Task("quantile:missing", check_missing))
    for rows, buckets in ((1, 3), (3, 64), (4, 1024), (2, 5)):
        res.append(Task(f"sketch:{rows},{buckets}", check_sketch, dict(rows=rows, buckets=buckets, T=5 if th else 3)))
    for m, l in itertools.product(("ewma", "quantile", "downsample", "none"), repeat=2):
        res.append(Task(f"levels:{m},{l}", check_hierarchical, dict(medium=m, long=l, T=160 if th else 56, decorated=False)))
    res.append(Task("levels:decorated", check_hierarchical, dict(medium="ewma", long="quantile", T=56, decorated=True)))
    res.append(Task("usage", check_usage))
    return res
