"""M07: masks: selection, mean, standard deviation, normalisation.

Every mask of the given shape times every content over the alphabet (masked-out entries may be
missing or infinite), for every axis option, against numpy on the selected entries.
"""

import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task
from mc.haikutools import to_np
from wax.modules import ApplyMask, MaskMean, MaskNormalize, MaskStd

PROPERTY = "M07"
ASSUMPTIONS = [
    "values outside the alphabet behave as the ones in it",
    "selected entries are finite (the result for a missing selected entry is not specified)",
]


def run(fun, *args):
    """Apply a stateless Haiku function to a batch of cases."""
    f = hk.without_apply_rng(hk.transform(fun))
    one = [a[0] for a in args]
    params = f.init(None, *one)
    return to_np(jax.jit(jax.vmap(lambda *a: f.apply(params, *a)))(*map(jnp.asarray, args)))


def cases(shape, finite, junk):
    """All (mask, content): selected entries over `finite`, the others over `junk`."""
    n = int(np.prod(shape))
    symbols = [(True, v) for v in finite] + [(False, v) for v in junk]
    idx = np.array(list(itertools.product(range(len(symbols)), repeat=n)))
    M = np.array([s[0] for s in symbols])[idx].reshape((-1,) + shape)
    X = np.array([s[1] for s in symbols], np.float32)[idx].reshape((-1,) + shape)
    return M, X


def report(ex, got, want, M, X, what, rtol=2e-5, **kw):
    """One case per row."""
    got, want = np.asarray(got), np.asarray(want)
    if not ex.check(got.shape == want.shape, f"{what}/shape", f"{got.shape} {want.shape}"):
        return
    from mc.core import values_differ

    ex.comparisons += want.size
    ex.outcome(got[:5000])
    bad = values_differ(got, want, rtol, rtol).reshape(len(got), -1).any(1)
    if bad.any():
        i = int(bad.argmax())
        ex.violation(
            what,
            f"mask {M[i].tolist()} input {X[i].tolist()}: got {got[i].tolist()}, expected "
            f"{want[i].tolist()} ({int(bad.sum())} of {len(bad)} cases differ)",
            mask=M[i], input=X[i], got=got[i], want=want[i], **kw,
        )


def stats(M, X, axis, centered):
    axis = None if axis is None else axis % (M.ndim - 1)
    ax = tuple(range(1, M.ndim)) if axis is None else axis + 1
    V = np.where(M, X, 0).astype(np.float64)
    with np.errstate(all="ignore"):
        n = M.sum(ax, keepdims=True)
        mean = V.sum(ax, keepdims=True) / n
        d = V if centered else V - mean
        var = np.where(M, d**2, 0).sum(ax, keepdims=True) / n
        std = np.where(var > 0, np.sqrt(var), 0.0)
    sq = lambda a: a.reshape([len(M)] + [s for i, s in enumerate(a.shape[1:]) if (axis is not None and i != axis)])  # noqa
    return sq(mean), sq(std), mean, std, n


def check_apply(ex, shape, mask_value):
    M, X = cases(shape, [1.0, -2.0, np.nan], [5.0, np.inf])
    kw = {} if mask_value is None else dict(mask_value=mask_value)
    v = 0.0 if mask_value is None else mask_value
    want = np.where(M, X, v)
    report(ex, run(lambda m, x: ApplyMask(**kw)(m, x), M, X), want, M, X, "apply")
    got = run(lambda m, x: ApplyMask(**kw)(m, {"a": x, "b": (2 * x,)}), M, X)
    report(ex, got["a"], want, M, X, "nested a")
    report(ex, got["b"][0], np.where(M, 2 * X, v), M, X, "nested b")
    ex.explored(states=len(M), transitions=2 * len(M), traces=len(M))
    if len(shape) == 2:
        for axis in (0, 1):
            k = shape[axis]
            masks = np.array(list(itertools.product([False, True], repeat=k)))
            _, X1 = cases(shape, [1.0, np.nan], [5.0])
            m = np.repeat(masks, len(X1), axis=0)
            x = np.tile(X1, (len(masks),) + (1,) * len(shape))
            full = m[:, :, None] if axis == 0 else m[:, None, :]
            w = np.where(np.broadcast_to(full, x.shape), x, v)
            report(ex, run(lambda m, x: ApplyMask(axis=axis, **kw)(m, x), m, x), w, m, x, f"axis {axis}")
            ex.explored(states=len(m), transitions=len(m), traces=len(m))
    # incoherent shapes are refused, not broadcast
    for ms, xs in [((2,), (3,)), ((1,), (3,)), ((2, 2), (2, 3)), ((3,), (2, 3)), ((2,), (1, 2))]:
        try:
            run(lambda m, x: ApplyMask()(m, x), np.ones((1,) + ms, bool), np.ones((1,) + xs, np.float32))
            refused = False
        except ValueError:
            refused = True
        ex.check(refused, f"incoherent shapes {ms} {xs} accepted")


def check_types(ex, run, make):
    """Selection in arrays of integers and booleans: the entries, and the value of the mask."""
    for dtype, alphabet in [(np.int32, [0, 1, -(2**20)]), (np.bool_, [False, True]), (np.int8, [5, -7])]:
        for value in [None, 0.0, -7.5, 0.25, np.nan, 300.0, np.inf]:
            M, X = cases((2,), alphabet, alphabet)
            X = X.astype(dtype)
            kw = {} if value is None else dict(mask_value=value)
            want = np.where(M, X.astype(np.float64), 0.0 if value is None else value)
            got = np.asarray(run(make(**kw), M, X))
            report(ex, got.astype(np.float64), want, M, X, f"{np.dtype(dtype).name}, value {value}")
            ex.explored(states=len(M), transitions=len(M), traces=len(M))


def axes(shape):
    return [None] + list(range(len(shape))) + list(range(-len(shape), 0))


def check_stats(ex, shape, axis, finite, junk):
    M, X = cases(shape, finite, junk)
    ex.explored(states=len(M), transitions=len(M) * 5, traces=len(M) * 5)
    mean, std, _, _, n = stats(M, X, axis, False)
    report(ex, run(lambda m, x: MaskMean(axis=axis)(m, x), M, X), mean, M, X, "mean", axis=axis)
    for centered in (False, True):
        _, std, _, std_full, n = stats(M, X, axis, centered)
        kw = dict(axis=axis, assume_centered=centered)
        report(ex, run(lambda m, x: MaskStd(**kw)(m, x), M, X), std, M, X, f"std centered={centered}", **kw)
        # entries which are selected, in a selection that is not constant
        with np.errstate(all="ignore"):
            norm = X / std_full
        defined = M & np.broadcast_to(std_full > 0, X.shape)
        got = run(lambda m, x: MaskNormalize(**kw)(m, x), M, X)
        if ex.check(got.shape == X.shape, f"normalised shape {kw}", got.shape):
            ex.check(np.isfinite(got).all(), f"normalised values are not finite {kw}")
            report(
                ex, np.where(defined, got, 0), np.where(defined, norm, 0), M, X,
                f"normalised centered={centered}", **kw,
            )
    both = run(lambda m, x: MaskStd(axis=axis)(m, {"a": x, "b": [3 * x]}), M, X)
    _, s1, _, _, _ = stats(M, X, axis, False)
    report(ex, both["a"], s1, M, X, "nested std a")
    report(ex, both["b"][0], 3 * s1, M, X, "nested std b")
    ex.sample(mask=M[len(M) // 3], input=X[len(M) // 3], mean=mean[len(M) // 3], std=std[len(M) // 3])


def apply(kind, kw, mask, X):
    m = {"mean": MaskMean, "std": MaskStd, "normalised": MaskNormalize}[kind]
    return run(lambda a, b: m(**kw)(a, b), mask, X)


def check_scale(ex, apply, shape, axis):
    """The statistics of small and large data are as accurate as those of data of size one.
    apply(kind, options, masks, contents)."""
    M, X = cases(shape, [1.0, -2.0, 4.0], [np.nan])
    for centered in (False, True):
        mean, std, _, full, _ = stats(M, X, axis, centered)
        with np.errstate(all="ignore"):
            norm = X / full
        defined = M & np.broadcast_to(full > 0, X.shape)
        for scale in (1e-4, 1e-3, 1e4, 1e6):
            Y = (X.astype(np.float64) * scale).astype(np.float32)
            kw = dict(axis=axis, assume_centered=centered)
            got = {k: apply(k, dict(axis=axis) if k == "mean" else kw, M, Y) for k in ("mean", "std", "normalised")}
            for k, want, where in (("mean", mean, ~np.isnan(mean)), ("std", std, std > 0), ("normalised", norm, defined)):
                if not ex.check(got[k].shape == want.shape, f"{k} shape", got[k].shape):
                    continue
                g = got[k].astype(np.float64) / (1.0 if k == "normalised" else scale)
                report(ex, np.where(where, g, 0), np.where(where, want, 0), M, Y, f"{k} times {scale}", rtol=2e-4, **kw)
            ex.explored(states=len(M), transitions=3 * len(M), traces=3 * len(M))


def tasks(tier):
    t = tier == "thorough"
    res = [Task("types", check_types, dict(run=lambda make, *a: run(lambda *b: make()(*b), *a), make=lambda **kw: lambda: ApplyMask(**kw)))]
    for shape in [(1,), (3,), (2, 2), (1, 3), (2, 1, 2)] + ([(5,), (2, 3)] if t else []):
        for mv in [None, -7.0, np.nan]:
            res.append(Task(f"apply:{shape},{mv}", check_apply, dict(shape=shape, mask_value=mv)))
    J = [0.0, np.nan, np.inf]
    for shape, fin, junk in [
        ((1,), [1.0, -2.0, 0.0, 4.0], J),
        ((2,), [1.0, -2.0, 0.0, 4.0], J),
        ((4,), [1.0, -2.0, 4.0], J[1:]),
        ((2, 2), [1.0, -2.0, 4.0], J[1:]),
        ((1, 3), [1.0, -2.0, 4.0], J[1:]),
        ((3, 1), [1.0, -2.0, 4.0], J[1:]),
        ((2, 3), [1.0, -2.0], J[1:2]),
        ((3, 2), [1.0, 4.0], J[1:2]),
        ((2, 1, 2), [1.0, -2.0], J[1:2]),
    ] + ([((6,), [1.0, -2.0, 4.0], J[1:]), ((2, 3), [1.0, -2.0, 4.0], J[1:]), ((2, 1, 3), [1.0, -2.0], J[1:])] if t else []):
        for axis in axes(shape):
            if len(shape) == 2:
                res.append(Task(f"scale:{shape},axis={axis}", check_scale, dict(apply=apply, shape=shape, axis=axis)))
            res.append(
                Task(
                    f"stats:{shape},axis={axis},{len(fin)}x{len(junk)}",
                    check_stats,
                    dict(shape=shape, axis=axis, finite=fin, junk=junk),
                )
            )
    return res
