"""Reference models, in plain numpy, written from the documented definitions.

Histories are columns of arrays (T, N); every function loops over time.
"""

import numpy as np


def decay(com=None, alpha=None):
    if com is None:
        com = 1.0 / alpha - 1.0
    return float(com), 1.0 / (1.0 + com)


def ewma_model(
    X, *, com=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, initial_value=np.nan
):
    """Exponential moving average.  Returns mean, effective com, number of observations."""
    com, alpha = decay(com, alpha)
    X = np.asarray(X, np.float64)
    T = X.shape[0]
    mean = np.full(X.shape[1:], initial_value, np.float64)
    weight = np.ones(X.shape[1:])  # weight of the past in the running average
    nobs = np.zeros(X.shape[1:], int)
    out, effs, counts = [], [], []
    for t in range(T):
        x = X[t]
        obs = ~np.isnan(x)
        started = ~np.isnan(mean)
        new = 1.0 if adjust else alpha
        if adjust == "linear":
            with np.errstate(all="ignore"):
                shrink = np.where(weight > 0, np.maximum(0.0, (weight - 1.0) / weight), 0.0)
            faded = np.minimum(weight, com) * np.where(obs, 1.0, shrink)
            kept = np.minimum(weight, com)
        else:
            faded = weight * (1.0 - alpha)
            kept = weight
        past = np.where(obs, faded, kept if ignore_na else faded)
        past = np.where(started, past, 0.0)
        prev = np.where(started, mean, 0.0)
        updated = (past * prev + new * np.where(obs, x, 0.0)) / (past + new)
        mean = np.where(obs, updated, np.where(started, mean, np.nan))
        effs.append(past / new)
        weight = np.where(obs, past + new if adjust else 1.0, past)
        nobs = nobs + obs
        counts.append(nobs)
        out.append(np.where(nobs >= min_periods, mean, np.nan))
    return np.array(out), np.array(effs), np.array(counts)


def ewma_weights_model(X, alpha, adjust, ignore_na, min_periods=0):
    """Closed form: explicit weights of every past observation (adjust True/False)."""
    X = np.asarray(X, np.float64)
    T, N = X.shape
    obs = ~np.isnan(X)
    out = np.full((T, N), np.nan)
    for n in range(N):
        seen = np.flatnonzero(obs[:, n])
        for t in range(T):
            s = seen[seen <= t]
            if len(s) < max(1, min_periods):
                continue
            last = s[-1]
            # positions at which the weights are measured
            pos = np.arange(len(s)) if ignore_na else s
            end = pos[-1]
            if adjust:
                w = (1 - alpha) ** (end - pos)
            else:
                # recursion of the definition, gaps multiply the weight of the past
                w = np.zeros(len(s))
                w[0] = 1.0
                for i in range(1, len(s)):
                    old = (1 - alpha) ** (pos[i] - pos[i - 1])
                    w[:i] *= old / (old + alpha)
                    w[i] = alpha / (old + alpha)
            out[t, n] = (w * X[s, n]).sum() / w.sum()
            del last
    return out


def ewmvar_model(X, *, com=None, alpha=None, adjust=True):
    """Exponentially weighted variance (biased): weighted mean of squares around the weighted
    mean, by the definition, with weights relative to the observations (missing values are
    skipped).  Weights: adjust=True: (1-a)^i normalised;  adjust=False: the first observation
    has the weight of all the past;  'linear': the k-th observation is averaged with weight
    1/min(k, 1/a)."""
    com, alpha = decay(com, alpha)
    X = np.asarray(X, np.float64)
    T, N = X.shape
    out = np.zeros((T, N))
    for n in range(N):
        w = np.zeros(0)
        xs = np.zeros(0)
        for t in range(T):
            x = X[t, n]
            if not np.isnan(x):
                k = len(xs) + 1
                if adjust == "linear":
                    a = 1.0 / min(k, 1.0 / alpha)
                elif adjust:
                    a = alpha / (1.0 - (1.0 - alpha) ** k)
                else:
                    a = 1.0 if k == 1 else alpha
                w = np.append(w * (1.0 - a), a)
                xs = np.append(xs, x)
            if len(xs):
                m = (w * xs).sum()
                out[t, n] = (w * (xs - m) ** 2).sum()
    return out


def window_model(X, n, fill):
    """Last n observations, oldest first, completed on the left: (T, n, ...)."""
    X = np.asarray(X)
    T = X.shape[0]
    out = np.full((T, n) + X.shape[1:], fill, dtype=X.dtype)
    for t in range(T):
        k = min(n, t + 1)
        out[t, n - k :] = X[t + 1 - k : t + 1]
    return out


def lag_model(X, n, fill=np.nan):
    X = np.asarray(X)
    out = np.full(X.shape, fill, dtype=X.dtype)
    if n == 0:
        return X.copy()
    out[n:] = X[:-n] if n < X.shape[0] else X[:0]
    return out


def ffill_model(X):
    X = np.asarray(X)
    out = X.copy()
    for t in range(1, X.shape[0]):
        out[t] = np.where(np.isnan(out[t]), out[t - 1], out[t])
    return out


def pct_change_model(X, ffill=True, fillna_zero=True):
    X = np.asarray(X, np.float64)
    prev = lag_model(ffill_model(X) if ffill else X, 1)
    with np.errstate(all="ignore"):
        res = X / prev - 1.0
    if fillna_zero:
        res = np.where(np.isnan(X) & ~np.isnan(prev), 0.0, res)
    return res


def rolling_mean_model(X, horizon, min_periods=1):
    X = np.asarray(X, np.float64)
    out = np.full(X.shape, np.nan)
    for t in range(X.shape[0]):
        w = X[max(0, t + 1 - horizon) : t + 1]
        count = (~np.isnan(w)).sum(0)
        with np.errstate(all="ignore"):
            m = np.where(np.isnan(w), 0.0, w).sum(0) / count
        out[t] = np.where((count >= min_periods) & (count > 0), m, np.nan)
    return out
