"""Very long runs: counters must not wrap around, nothing must drift.

The input repeats a word which contains every factor of a given length, so that the outputs of
a module with a finite (or fading) memory must end up repeating too; counts are known exactly.
"""

import jax
import numpy as np

from mc.core import de_bruijn

STEPS = 70000  # longer than 16-bit counters


def periodic(ex, name, run, alphabet=(1.0, -2.0, 0.5, np.nan), n=3, T=STEPS, settle=4, dtype=np.float32, **tol):
    """run(x) -> outputs for the sequence x (T,)."""
    word = np.asarray(alphabet, dtype)[de_bruijn(len(alphabet), n)]
    P = len(word)
    X = np.tile(word, T // P + 1)[:T]
    out = jax.tree_util.tree_map(np.asarray, run(X))
    first = settle * P
    for k, leaf in enumerate(jax.tree_util.tree_leaves(out)):
        reps = (T - first) // P
        got = leaf[first : first + reps * P].reshape((reps, P) + leaf.shape[1:])
        ex.same_array(got, np.broadcast_to(got[0], got.shape), f"{name}/output {k}: repetition", **tol)
    ex.explored(T, T, 1)
    return X, out


def counts(ex, name, run_info, min_periods, T=STEPS):
    """Averages with a number of observations; run_info(x, min_periods) -> mean, nobs, plain."""
    t = np.arange(T)
    for gap in (0, 3):
        X = np.where(t % (gap + 2) < 2, 2.0, np.nan).astype(np.float32)
        want = np.cumsum(~np.isnan(X))
        for mp in min_periods:
            mean, nobs, plain = run_info(X, mp)
            ex.same_array(nobs, want, f"{name}/observations, gap {gap}, min_periods {mp}")
            expected = np.where(want >= max(mp, 1), 2.0, np.nan)
            ex.same_array(mean, expected, f"{name}/mean, gap {gap}, min_periods {mp}")
            ex.same_array(plain, expected, f"{name}/without info, gap {gap}, min_periods {mp}")
            ex.explored(T, 2 * T, 2)
