"""Run the real Haiku modules on all histories at once, in several array layouts."""

import jax
import jax.numpy as jnp
import numpy as np

from wax.unroll import unroll


def to_np(tree):
    return jax.tree_util.tree_map(np.asarray, tree)


def factor(N):
    for k in range(2, N + 1):
        if N % k == 0:
            return k
    return 1


def run_columns(fun, *xs, layout="flat", dynamic=True, jit=True, **kw):
    """Unroll fun() over the first axis of xs of shape (T, N); outputs come back (T, N).

    layout  flat:   one run, the histories are the elements of a vector (T, N)
            tensor: one run, the histories are the elements of a matrix (T, k, N // k)
            scalar: each history on its own, as a sequence of scalars (vmap over runs)
            vec1:   each history on its own, as a sequence of vectors of length one
    """
    xs = [jnp.asarray(x) for x in xs]
    T, N = xs[0].shape[:2]
    f = unroll(fun, dynamic=dynamic, **kw)
    if layout == "flat":
        g = f
    elif layout == "tensor":
        k = factor(N)

        def g(*ys):
            out = f(*[y.reshape((T, k, N // k)) for y in ys])
            return jax.tree_util.tree_map(lambda o: o.reshape((T, N) + o.shape[3:]), out)

    elif layout == "scalar":
        g = jax.vmap(f, in_axes=1, out_axes=1)
    elif layout == "vec1":

        def g(*ys):
            out = jax.vmap(f, in_axes=1, out_axes=1)(*[y[..., None] for y in ys])
            return jax.tree_util.tree_map(lambda o: o[:, :, 0] if o.ndim == 3 else o, out)

    else:
        raise ValueError(layout)
    if jit and dynamic:
        g = jax.jit(g)
    return to_np(g(*xs))
