"""M11: the online Newton optimiser.

All sequences of gradients over the alphabet, for parameters of all small shapes and
nestings, against the definition: the step is the inverse of eps.I plus the sum of the outer
products of all gradients so far, times the last gradient, scaled by minus the learning rate.
"""

import itertools

import jax
import jax.numpy as jnp
import numpy as np
import optax

from mc.core import Task, histories
from wax.optim.newton import newton, scale_by_newton

PROPERTY = "M11"
ASSUMPTIONS = ["double precision, so that the inverse is well conditioned for every eps explored"]


def structures():
    return {
        "scalar": {"w": ()},
        "vector1": {"w": (1,)},
        "vector2": {"w": (2,)},
        "vector3": {"w": (3,)},
        "matrix": {"w": (2, 2)},
        "row": {"w": (1, 3)},
        "tensor": {"w": (2, 1, 2)},
        "matrix23": {"w": (2, 3)},
        "matrix32": {"a": (3, 2), "b": (1,)},
        "matrix33": {"w": (3, 3)},
        "two": {"a": (2,), "b": ()},
        "three": {"a": {"b": (), "c": (1, 1)}, "d": (2,)},
    }


def size(tree):
    if isinstance(tree, dict):
        return sum(size(v) for v in tree.values())
    return int(np.prod(tree, dtype=int))


def split(tree, v):
    """Fill the shapes of `tree` with slices of v (..., n), in sorted order of the keys."""
    out = {}
    for k in sorted(tree):
        n = size(tree[k])
        if isinstance(tree[k], dict):
            out[k] = split(tree[k], v[..., :n])
        else:
            out[k] = v[..., :n].reshape(v.shape[:-1] + tree[k])
        v = v[..., n:]
    return out


def model(tree, G, eps, lr):
    """Updates for gradients G (T, N, n)."""
    T, N, _ = G.shape
    res = []
    offset = 0
    flat_shapes = jax.tree_util.tree_leaves(split_sizes(tree))
    for n in flat_shapes:
        g = G[:, :, offset : offset + n]
        offset += n
        H = np.tile(eps * np.eye(n), (N, 1, 1))
        out = []
        for t in range(T):
            H = H + g[t][:, :, None] * g[t][:, None, :]
            out.append(-lr(t) * np.linalg.solve(H, g[t][:, :, None])[..., 0])
        res.append(np.array(out).reshape(T, N, n))
    return np.concatenate(res, -1)


def split_sizes(tree):
    return {k: split_sizes(v) if isinstance(v, dict) else size(v) for k, v in tree.items()}


def check(ex, structure, eps, lr, T, jit):
    tree = structures()[structure]
    n = size(tree)
    A = [0.0, 1.0, -2.0] if n <= 2 else [0.0, 1.5]
    if n <= 4:
        symbols = np.array(list(itertools.product(A, repeat=n)))
    else:  # each entry on its own, all of them (distinct), none
        symbols = np.concatenate([1.5 * np.eye(n), [np.arange(n) - 2.0, np.zeros(n)]])
    idx = histories(np.arange(len(symbols)), T, np.int64)
    G = symbols[idx]  # (T, N, n)
    rate = {"constant": lambda t: 0.5, "schedule": lambda t: 1.0 / (1 + t), "none": lambda t: -1.0}[lr]
    with jax.enable_x64(True):
        kw = {} if eps is None else dict(eps=eps)
        if lr == "none":
            opt = scale_by_newton(**kw)
            eps = 1e-7 if eps is None else eps
        else:
            opt = newton(0.5 if lr == "constant" else (lambda count: 1.0 / (1 + count)), **kw)
            eps = 1e-5 if eps is None else eps
        grads = jax.tree_util.tree_map(jnp.asarray, split(tree, G))
        params = jax.tree_util.tree_map(lambda g: jnp.full(g.shape[1:], 3.0), grads)

        def run(params, grads):
            state = opt.init(params)

            def step(carry, g):
                params, state = carry
                updates, state = opt.update(g, state, params)
                params = optax.apply_updates(params, updates)
                return (params, state), (updates, params)

            return jax.lax.scan(step, (params, state), grads)[1]

        run = jax.vmap(run, in_axes=(0, 1), out_axes=1)
        updates, after = (jax.jit(run) if jit else run)(params, grads)
        want = model(tree, G, eps, rate)
        for name, got, w in [("updates", updates, want), ("parameters", after, 3.0 + np.cumsum(want, 0))]:
            leaves = jax.tree_util.tree_leaves(jax.tree_util.tree_map(np.asarray, got))
            shapes = jax.tree_util.tree_leaves(jax.tree_util.tree_map(np.asarray, grads))
            for a, b in zip(leaves, shapes):
                ex.check(a.shape == b.shape, f"{name} shape", f"{a.shape} for gradients {b.shape}")
            flat = np.concatenate([a.reshape(a.shape[:2] + (-1,)) for a in leaves], -1)
            ex.same_columns(flat, w, G, name, rtol=1e-6, atol=1e-9 if eps > 1e-6 else 1e-6)
    ex.explored_histories(G)
    ex.sample(gradients=G[:, -1], updates=want[:, -1])


def tasks(tier):
    th = tier == "thorough"
    res = []
    for s, tree in structures().items():
        n = size(tree)
        T = {1: 7, 2: 4, 3: 4, 4: 3}.get(n, 3) + (1 if th and n <= 7 else 0)
        for eps in (1.0, 0.25, 1e-5, 1e-8, None):
            for lr in ("constant", "schedule", "none"):
                res.append(Task(f"newton:{s},{eps},{lr}", check, dict(structure=s, eps=eps, lr=lr, T=T, jit=True)))
    return res
