"""M09: ARMA filter and SNARIMAX predictor.

All histories over the alphabet (with missing and infinite values) x all small orders x
layouts of the real modules, against the recursions written with lists.
"""

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

from mc.core import Task, histories
from mc.haikutools import run_columns, to_np
from wax.modules import ARMA, SNARIMAX
from wax.unroll import unroll, unroll_transform_with_state

PROPERTY = "M09"
ASSUMPTIONS = ["values outside the alphabets behave as the ones in them"]

ALPHA = [0.5, -0.25, 0.125]  # oldest output first
BETA = [2.0, 0.5, -1.0]
ALPHABET = [1.0, 0.0, -3.0, np.nan, np.inf]


def fill(x):
    return np.where(np.isfinite(x), x, np.zeros_like(x))


def arma_model(eps, alpha, beta):
    """eps: (T, ...). y_t = eps_t + sum alpha_i y_{t-na+i} + sum beta_i eps_{t-nb+i}, zeros
    before the start; an output which is not finite is replaced by zero."""
    ys, out = [np.zeros(eps.shape[1:])] * len(alpha), []
    es = [np.zeros(eps.shape[1:])] * len(beta)
    for e in eps.astype(np.float64):
        with np.errstate(all="ignore"):
            y = e.copy()
            for a, v in zip(alpha, ys):
                y = y + a * v
            for b, v in zip(beta, es):
                y = y + b * v
        y = fill(y)
        ys = (ys + [y])[1:]
        if beta:
            es = (es + [e])[1:]
        out.append(y)
    return np.array(out)


def check_arma(ex, na, nb, T, layout):
    alpha, beta = ALPHA[:na], BETA[:nb]
    X = histories(ALPHABET, T)
    got = run_columns(
        lambda e: ARMA(jnp.asarray(alpha), jnp.asarray(np.asarray(beta, np.float32)))(e), X, layout=layout
    )
    want = arma_model(X, alpha, beta)
    ex.same_columns(got, want, X, "arma")
    ex.check(np.isfinite(got).all(), "not finite")
    ex.explored_histories(X)
    ex.sample(history=X[:, 77], out=want[:, 77])


def check_arma_shapes(ex, na, nb, shape, T):
    """Elements are independent, for every shape (including ones equal to the orders)."""
    n = int(np.prod(shape))
    alpha, beta = ALPHA[:na], BETA[:nb]
    X = histories([1.0, 0.0, np.nan], T)
    N = X.shape[1] // n * n
    X = X[:, :N]
    blocks = X.reshape((T, N // n) + shape)
    f = jax.jit(jax.vmap(unroll(lambda e: ARMA(jnp.asarray(alpha), jnp.asarray(beta))(e)), in_axes=1, out_axes=1))
    got = to_np(f(jnp.asarray(blocks)))
    if not ex.check(got.shape == blocks.shape, "shape", f"{got.shape} for inputs {blocks.shape}"):
        return
    ex.same_columns(got.reshape(X.shape), arma_model(X, alpha, beta), X, "arma")
    ex.explored_histories(X)


def snarimax_model(y, exog, p, q, regress, n):
    """y: (T, N, n), exog: (T, N, k) or None.
    Features: exogenous, q last errors (oldest first, before this step), p last values
    (oldest first, with the one of this step); zeros instead of missing ones."""
    T, N = y.shape[:2]
    errs = [np.zeros((N, n))] * q
    vals = [np.full((N, n), np.nan)] * p
    out, feats = [], []
    for t in range(T):
        vals = (vals + [y[t].astype(np.float64)])[1:] if p else []
        parts = ([exog[t]] if exog is not None else []) + errs + vals
        F = fill(np.concatenate(parts, -1)) if parts else np.zeros((N, 0))
        pred = regress(F)
        feats.append(F)
        out.append(pred)
        if q:
            with np.errstate(all="ignore"):
                errs = (errs + [y[t] - pred])[1:]
    return np.array(out), np.array(feats)


def check_snarimax(ex, p, q, n, k, T, A=None):
    """n targets per step (0: a scalar), k exogenous features (0: none)."""
    m = max(n, 1)
    A = A or ([1.0, -2.0, np.nan] if n < 2 else [1.0, np.nan])
    H = histories(A, T * m)
    N = H.shape[1]
    y = H.reshape(T, m, N).transpose(0, 2, 1)
    rng = np.arange(T * N * k).reshape(T, N, k)
    exog = np.where(rng % 5 == 4, np.nan, (rng % 3) - 1.0).astype(np.float32) if k else None
    nf = p * m + q * m + k
    W = np.array([[(-1) ** i * (1 + i + 3 * j) / 8 for i in range(nf)] for j in range(m)], np.float32)
    b = np.arange(1, m + 1, dtype=np.float32) / 4

    def fun(y, X=None):
        reg = lambda F: jnp.asarray(W) @ F + jnp.asarray(b)
        return SNARIMAX(p=p, q=q, regressor=reg)(y, X) if k else SNARIMAX(p, q=q, regressor=reg)(y)

    args = [jnp.asarray(y if n else y[..., 0])] + ([jnp.asarray(exog)] if k else [])
    got, info = jax.jit(jax.vmap(unroll(fun), in_axes=1, out_axes=1))(*args)
    ex.check(info == {}, "info", repr(info))
    got = np.asarray(got)
    if not n:
        got = got[..., None]
    want, _ = snarimax_model(y, exog, p, q, lambda F: F @ W.T.astype(np.float64) + b, m)
    ex.same_columns(got, want, y, "prediction")
    ex.explored_histories(y)
    ex.sample(history=y[:, N // 2], prediction=want[:, N // 2])


def check_default_regressor(ex, p, q, T):
    """The default regressor is linear with trainable parameters."""
    H = histories([1.0, -2.0, np.nan], T)
    fun = unroll_transform_with_state(lambda y: SNARIMAX(p=p, q=q)(y))
    params, state = fun.init(jax.random.PRNGKey(3), jnp.asarray(H[:, 0]))
    leaves = {k: np.asarray(v) for d in params.values() for k, v in d.items()}
    ex.equal(sorted(leaves), ["b", "w"], "parameters")
    ex.equal(leaves["w"].shape, (p + q, 1), "shape of the weights")
    for scale in (1.0, 0.5):
        par = jax.tree_util.tree_map(lambda x: scale * x + 0.25, params)
        w = np.asarray(next(iter(par.values()))["w"], np.float64)
        b = np.asarray(next(iter(par.values()))["b"], np.float64)
        got = jax.vmap(lambda y: fun.apply(par, state, None, y)[0][0], in_axes=1, out_axes=1)(jnp.asarray(H))
        want, _ = snarimax_model(H[..., None], None, p, q, lambda F: F @ w + b, 1)
        ex.same_columns(np.asarray(got), want[..., 0], H, f"prediction {scale}", rtol=1e-4, atol=1e-5)
    ex.explored_histories(H)


def check_not_implemented(ex):
    """Options which are not implemented are refused, not ignored."""
    for opt in ("d", "sp", "sd", "sq"):
        try:
            hk.transform(lambda y: SNARIMAX(p=1, **{opt: 1})(y)).init(jax.random.PRNGKey(0), jnp.ones(()))
        except NotImplementedError:
            ex.check(True, opt)
        else:
            ex.violation(opt, "accepted")
        ex.outcome(opt)
        ex.explored(1, 1, 1)


def tasks(tier):
    th = tier == "thorough"
    res = [Task("options", check_not_implemented)]
    for na in (1, 2, 3):
        for nb in (0, 1, 2, 3):
            for layout in ("flat", "scalar", "vec1", "tensor"):
                res.append(
                    Task(f"arma:{na},{nb},{layout}", check_arma, dict(na=na, nb=nb, T=6 if th else 5, layout=layout))
                )
    for shape in [(2,), (3,), (2, 3), (3, 2), (2, 2), (1, 3), (3, 3), (2, 2, 2)]:
        for na, nb in [(1, 1), (2, 2), (3, 2), (2, 3)]:
            res.append(
                Task(f"arma shape:{na},{nb},{shape}", check_arma_shapes, dict(na=na, nb=nb, shape=shape, T=7 if th else 5))
            )
    for p in (0, 1, 2, 3):
        for q in (0, 1, 2):
            if p + q == 0:
                continue
            res.append(Task(f"default:{p},{q}", check_default_regressor, dict(p=p, q=q, T=6)))
            for n in (0, 1, 2):
                for k in (0, 1, 2):
                    T = (8 if th else 6) if n < 2 else (6 if th else 4)
                    res.append(Task(f"snarimax:{p},{q},{n},{k}", check_snarimax, dict(p=p, q=q, n=n, k=k, T=T)))
            A = [1.0, np.inf, -np.inf, np.nan]
            for n in (0, 1):
                res.append(
                    Task(f"snarimax with infinities:{p},{q},{n}", check_snarimax, dict(p=p, q=q, n=n, k=n, T=6 if th else 5, A=A))
                )
    return res
