"""Run the real Flax modules on all histories at once, in several array layouts."""

import jax
import jax.numpy as jnp
from flax.core import FrozenDict

from mc.haikutools import factor, to_np
from wax.flax.core.unroll import flax_unroll

KEY = jax.random.PRNGKey(0)


def flax_run(module, *xs, dynamic=True):
    """Initialise on the first step (which gives its output and the state after it), then
    unroll from that state over the next steps: outputs of all the steps."""
    first, variables = module.init_with_output(KEY, *[x[0] for x in xs])
    state = FrozenDict({k: v for k, v in variables.items() if k != "params"})
    f = flax_unroll(
        module, skip_first=True, dynamic=dynamic, params=variables.get("params", {}), state=state
    )
    rest = f(*xs)
    return jax.tree_util.tree_map(
        lambda a, b: jnp.concatenate([jnp.asarray(a)[None], jnp.asarray(b)]), first, rest
    )


def flax_columns(module, *xs, layout="flat", dynamic=True):
    """Outputs of the module on the histories xs (T, N); see haikutools.run_columns."""
    xs = [jnp.asarray(x) for x in xs]
    T, N = xs[0].shape[:2]

    def f(*ys):
        return flax_run(module, *ys, dynamic=dynamic)

    if layout == "flat":
        g = f
    elif layout == "tensor":
        k = factor(N)

        def g(*ys):
            out = f(*[y.reshape((T, k, N // k)) for y in ys])
            return jax.tree_util.tree_map(lambda o: o.reshape((T, N) + o.shape[3:]), out)

    elif layout == "scalar":
        g = jax.vmap(f, in_axes=1, out_axes=1)
    elif layout == "vec1":

        def g(*ys):
            out = jax.vmap(f, in_axes=1, out_axes=1)(*[y[..., None] for y in ys])
            return jax.tree_util.tree_map(lambda o: o[:, :, 0] if o.ndim == 3 else o, out)

    else:
        raise ValueError(layout)
    if dynamic:
        g = jax.jit(g)
    return to_np(g(*xs))


def flax_batch(module, *xs):
    """Outputs of the module on each history on its own; xs: (T, N, ...)."""
    f = jax.vmap(lambda *ys: flax_run(module, *ys), in_axes=1, out_axes=1)
    return to_np(jax.jit(f)(*map(jnp.asarray, xs)))
