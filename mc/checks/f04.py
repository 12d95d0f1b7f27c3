"""F04: the Flax masks, bars, filters and predictors.

Every mask times every content (as in M07), all histories of (value, reset) pairs (as in M06),
all histories and orders of the ARMA filter (as in M09), of the SNARIMAX predictor against the
documented features, and VMap, on the real Flax modules.
"""

import itertools
import warnings

import jax
import jax.numpy as jnp
import numpy as np

from mc.checks.m06 import bars
from mc.checks.m07 import axes, cases, check_scale, check_types, report, stats
from mc.checks.m09 import ALPHA, ALPHABET, BETA, arma_model, fill
from mc.core import Task, histories
from mc.flaxtools import KEY, flax_batch, flax_columns
from mc.haikutools import to_np
from wax.flax.modules.apply_mask import ApplyMask, create_apply_mask
from wax.flax.modules.arma import ARMA, create_arma
from wax.flax.modules.mask_mean import MaskMean, create_mask_mean
from wax.flax.modules.mask_normalize import MaskNormalize, create_mask_normalize
from wax.flax.modules.mask_std import MaskStd, create_mask_std
from wax.flax.modules.ohlc import OHLC, create_ohlc
from wax.flax.modules.snarimax import SNARIMAX, create_snarimax
from wax.flax.modules.vmap import VMap, create_vmap

PROPERTY = "F04"
ASSUMPTIONS = [
    "values outside the alphabets behave as the ones in them",
    "selected entries of masked statistics are finite (otherwise the result is not specified)",
]


def run(module, *args):
    """A module without state on a batch of cases."""
    return to_np(jax.jit(jax.vmap(lambda *a: module.apply({}, *a)))(*map(jnp.asarray, args)))


def check_apply(ex, shape, mask_value):
    M, X = cases(shape, [1.0, -2.0, np.nan], [5.0, np.inf])
    kw = {} if mask_value is None else dict(mask_value=mask_value)
    v = 0.0 if mask_value is None else mask_value
    want = np.where(M, X, v)
    for make in (ApplyMask, create_apply_mask):
        report(ex, run(make(**kw), M, X), want, M, X, "apply")
    f = jax.jit(jax.vmap(lambda m, x: ApplyMask(**kw).apply({}, m, {"a": x, "b": (2 * x,)})))
    got = to_np(f(jnp.asarray(M), jnp.asarray(X)))
    report(ex, got["a"], want, M, X, "nested a")
    report(ex, got["b"][0], np.where(M, 2 * X, v), M, X, "nested b")
    ex.explored(states=len(M), transitions=2 * len(M), traces=len(M))
    if len(shape) == 2:
        for axis in (0, 1):
            masks = np.array(list(itertools.product([False, True], repeat=shape[axis])))
            _, X1 = cases(shape, [1.0, np.nan], [5.0])
            m = np.repeat(masks, len(X1), axis=0)
            x = np.tile(X1, (len(masks),) + (1,) * len(shape))
            full = m[:, :, None] if axis == 0 else m[:, None, :]
            w = np.where(np.broadcast_to(full, x.shape), x, v)
            report(ex, run(ApplyMask(axis=axis, **kw), m, x), w, m, x, f"axis {axis}")
            ex.explored(states=len(m), transitions=len(m), traces=len(m))


def check_stats(ex, shape, axis, finite, junk):
    M, X = cases(shape, finite, junk)
    ex.explored(states=len(M), transitions=len(M) * 5, traces=len(M) * 5)
    mean, std, _, _, n = stats(M, X, axis, False)
    report(ex, run(MaskMean(axis=axis), M, X), mean, M, X, "mean", axis=axis)
    report(ex, run(create_mask_mean(axis), M, X), mean, M, X, "created mean", axis=axis)
    for centered in (False, True):
        _, std, _, std_full, n = stats(M, X, axis, centered)
        std = np.where(n.reshape(std.shape) == 0, np.nan, std)
        kw = dict(axis=axis, assume_centered=centered)
        for make in (MaskStd, create_mask_std):
            report(ex, run(make(**kw), M, X), std, M, X, f"std centered={centered}", **kw)
        with np.errstate(all="ignore"):
            norm = X / std_full
        defined = M & np.broadcast_to(std_full > 0, X.shape)
        for make in (MaskNormalize, create_mask_normalize):
            got = run(make(**kw), M, X)
            if ex.check(got.shape == X.shape, f"normalised shape {kw}", got.shape):
                ex.check(np.isfinite(got).all(), f"normalised values are not finite {kw}")
                report(
                    ex, np.where(defined, got, 0), np.where(defined, norm, 0), M, X,
                    f"normalised centered={centered}", **kw,
                )
    f = jax.jit(jax.vmap(lambda m, x: MaskStd(axis=axis).apply({}, m, {"a": x, "b": [3 * x]})))
    both = to_np(f(jnp.asarray(M), jnp.asarray(X)))
    _, s1, _, _, n = stats(M, X, axis, False)
    s1 = np.where(n.reshape(s1.shape) == 0, np.nan, s1)
    report(ex, both["a"], s1, M, X, "nested std a")
    report(ex, both["b"][0], 3 * s1, M, X, "nested std b")
    ex.sample(mask=M[len(M) // 3], input=X[len(M) // 3], mean=mean[len(M) // 3], std=std[len(M) // 3])


def scaled(kind, kw, mask, X):
    m = {"mean": MaskMean, "std": MaskStd, "normalised": MaskNormalize}[kind]
    return run(m(**kw), mask, X)


def check_bars(ex, alphabet, n, T, layout):
    symbols = [v + (r,) for v in itertools.product(alphabet, repeat=n) for r in (False, True)]
    idx = histories(np.arange(len(symbols)), T, np.int64)
    X = np.array([s[:n] for s in symbols], np.float32)[idx]
    R = np.array([s[n] for s in symbols], bool)[idx]
    want = bars(X, R)
    data = {"scalar": X[..., 0], "vector": X, "matrix": X[:, :, None, :]}[layout]
    make = OHLC if layout == "scalar" else create_ohlc
    out = flax_batch(make(), data, R)
    S = np.concatenate([X, R[:, :, None]], axis=2)
    for i, (what, got) in enumerate(
        zip(("open", "high", "low", "close"), (out.OPEN, out.HIGH, out.LOW, out.CLOSE))
    ):
        w = want[i]
        ex.same_columns(got.reshape(w.shape) if got.size == w.size else got, w, S, what)
    ex.explored_histories(S)
    k = S.shape[1] * 2 // 3
    ex.sample(history=S[:, k], open=want[0][:, k], high=want[1][:, k], low=want[2][:, k], close=want[3][:, k])


def f32(x):
    return jnp.asarray(np.asarray(x, np.float32))


def check_arma(ex, na, nb, T, layout):
    X = histories(ALPHABET, T)
    make = ARMA if layout == "flat" else create_arma
    got = flax_columns(make(alpha=f32(ALPHA[:na]), beta=f32(BETA[:nb])), X, layout=layout)
    want = arma_model(X, ALPHA[:na], BETA[:nb])
    ex.same_columns(got, want, X, "arma")
    ex.explored_histories(X)
    ex.sample(history=X[:, 77], out=want[:, 77])


def snarimax_model(x, y, p, q):
    """x (T, N, n), y the same or None: features of each step: the last p values of x (with the
    one of this step), the last q differences y - x, then x; oldest first, zeros before the start."""
    T, N, n = x.shape
    lx, ly = [np.zeros((N, n))] * p, [np.zeros((N, n))] * q
    out = []
    for t in range(T):
        lx = (lx + [x[t]])[1:]
        parts = list(lx) if p else []
        if q and y is not None:
            ly = (ly + [y[t] - x[t]])[1:]
            parts += ly
        out.append(np.concatenate(parts + [x[t]], -1))
    return np.array(out)


def check_snarimax(ex, p, q, n, T, with_y, default):
    m = max(n, 1)
    A = [1.0, -2.0, np.nan] if m == 1 else [1.0, np.nan]
    H = histories(A, T * m)
    N = H.shape[1]
    x = H.reshape(T, m, N).transpose(0, 2, 1)
    y = np.roll(x, 1, axis=0) * 3 + 1 if with_y else None
    F = snarimax_model(x.astype(np.float64), y, p, q)
    nf = F.shape[-1]
    W = np.array([(-1) ** i * (1 + i) / 8 for i in range(nf)])
    cut = (lambda a: a) if n else (lambda a: a[..., 0])
    args = [cut(x)] + ([cut(y)] if with_y else [])
    if default:
        module = create_snarimax(p, q)
        one = [jnp.asarray(a[0, 0]) for a in args]
        v = module.init(KEY, *one)
        k = np.asarray(v["params"]["regressor_fn"]["kernel"])
        ex.equal(k.shape, (nf, 1), "shape of the weights")
        got = flax_batch(module, *args)
        W, b = k[:, 0].astype(np.float64), float(v["params"]["regressor_fn"]["bias"][0])
    else:
        module = SNARIMAX(lags_x=p, lags_y=q, regressor=lambda f: f @ f32(W)[:, None] + 0.25)
        got = flax_batch(module, *args)
        b = 0.25
    want = fill(F @ W + b)
    ex.same_columns(got, want, x, "prediction", rtol=1e-4, atol=1e-5)
    ex.explored_histories(x)
    ex.sample(history=x[:, N // 2], prediction=want[:, N // 2])


def check_vmap(ex, n, mean):
    X = histories([1.0, -2.0, 0.5], n).T  # (N, n)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fun = lambda x, k: {"a": x * k, "b": (x - k, jnp.stack([x, x * x]))}  # noqa
        for make in (VMap, create_vmap):
            m = make(fun=fun, take_mean=mean)
            for row in X:
                K = np.arange(n, dtype=np.float32) + 1
                got = to_np(m.apply({}, jnp.asarray(row), jnp.asarray(K)))
                want = {"a": row * K, "b": (row - K, np.stack([row, row * row], -1))}
                if mean:
                    want = jax.tree_util.tree_map(lambda v: v.mean(0), want)
                ex.same_tree(got, want, f"row {row.tolist()}")
                ex.explored(1, 1, 1)


def tasks(tier):
    t = tier == "thorough"
    res = [Task("types", check_types, dict(run=run, make=ApplyMask))]
    for shape in [(1,), (3,), (2, 2), (1, 3), (2, 1, 2)] + ([(5,), (2, 3)] if t else []):
        for mv in [None, -7.0, np.nan]:
            res.append(Task(f"apply:{shape},{mv}", check_apply, dict(shape=shape, mask_value=mv)))
    J = [0.0, np.nan, np.inf]
    for shape, fin, junk in [
        ((1,), [1.0, -2.0, 0.0, 4.0], J),
        ((2,), [1.0, -2.0, 0.0, 4.0], J),
        ((4,), [1.0, -2.0, 4.0], J[1:]),
        ((2, 2), [1.0, -2.0, 4.0], J[1:]),
        ((1, 3), [1.0, -2.0, 4.0], J[1:]),
        ((3, 1), [1.0, -2.0, 4.0], J[1:]),
        ((2, 3), [1.0, -2.0], J[1:2]),
        ((3, 2), [1.0, 4.0], J[1:2]),
        ((2, 1, 2), [1.0, -2.0], J[1:2]),
        ((2, 2, 1), [1.0, -2.0], J[1:2]),
    ] + ([((6,), [1.0, -2.0, 4.0], J[1:]), ((2, 3), [1.0, -2.0, 4.0], J[1:])] if t else []):
        for axis in axes(shape):
            if axis is not None and axis > 1:
                continue  # refused
            if len(shape) == 2:
                res.append(Task(f"scale:{shape},axis={axis}", check_scale, dict(apply=scaled, shape=shape, axis=axis)))
            res.append(
                Task(f"stats:{shape},axis={axis},{len(fin)}x{len(junk)}", check_stats,
                     dict(shape=shape, axis=axis, finite=fin, junk=junk))
            )
    A4 = [1.0, 2.0, -3.0, np.nan]
    for name, kw in [
        ("scalar", dict(alphabet=A4, n=1, T=6 if t else 5, layout="scalar")),
        ("vector1", dict(alphabet=A4, n=1, T=6 if t else 5, layout="vector")),
        ("vector2", dict(alphabet=A4[:1] + A4[2:], n=2, T=4 if t else 3, layout="vector")),
        ("matrix2", dict(alphabet=A4[1:], n=2, T=3, layout="matrix")),
        ("vector3", dict(alphabet=[1.0, np.nan], n=3, T=4 if t else 3, layout="vector")),
        ("order", dict(alphabet=[1.0, 2.0, 3.0, 4.0], n=1, T=6 if t else 5, layout="scalar")),
        ("signs", dict(alphabet=[-1.0, -3.0, 0.0, 2.0, np.nan], n=1, T=6 if t else 5, layout="scalar")),
        ("large", dict(alphabet=[-1e38, -3e38, 2e38, np.nan], n=1, T=5, layout="scalar")),
        ("infinite", dict(alphabet=[0.0, np.inf, -np.inf, np.nan], n=1, T=5, layout="vector")),
        ("deep", dict(alphabet=[1.0, np.nan], n=1, T=9 if t else 8, layout="scalar")),
    ]:
        res.append(Task(f"bars:{name}", check_bars, kw))
    for na in (0, 1, 2, 3):
        for nb in (0, 1, 2, 3):
            for layout in ("flat", "scalar", "vec1", "tensor"):
                if not t and (na + nb + len(layout)) % 2:
                    continue
                res.append(Task(f"arma:{na},{nb},{layout}", check_arma, dict(na=na, nb=nb, T=6 if t else 5, layout=layout)))
    for p, q, n, with_y, default in itertools.product(range(4), range(3), (0, 1, 2), (False, True), (False, True)):
        if default and (p + q + n) % 2 and not t:
            continue
        res.append(
            Task(f"snarimax:{p},{q},{n},y={with_y},default={default}", check_snarimax,
                 dict(p=p, q=q, n=n, T=(8 if t else 6) if n < 2 else 4, with_y=with_y, default=default))
        )
    for n, mean in itertools.product((1, 2, 3, 4), (False, True)):
        res.append(Task(f"vmap:{n},mean={mean}", check_vmap, dict(n=n, mean=mean)))
    return res
