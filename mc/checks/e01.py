"""E01: encodings.

A lattice of 64-bit integers (each power of two and a neighbourhood, both signs, the bounds of
the dates) and all pairs for the order; all sequences of labels; all days and their
neighbourhoods for the rounding.
"""

import datetime
import itertools

import jax.numpy as jnp
import numpy as np
import pandas as pd

from mc.core import Task
from wax import encode as E

PROPERTY = "E01"
ASSUMPTIONS = ["numpy and pandas conversions between types of dates are trusted"]
LO, HI = -(2**63), 2**63 - 1
DAY = 24 * 3600 * 10**9


def lattice(width):
    res = {0}
    for k in range(64):
        for d in range(-width, width + 1):
            for sign in (1, -1):
                res.add(sign * 2**k + d)
    for k in (DAY, 10**9, 10**6, 1000):
        for m in (1, 2, 3, 365, 11000, 19000):
            res |= {s * m * k + d for s in (1, -1) for d in (-1, 0, 1)}
    # both parts at their own bounds
    parts = [0, 1, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
    for h, l in itertools.product(parts, repeat=2):
        v = (h << 32) | l
        res.add(v - 2**64 if v >= 2**63 else v)
    return sorted(v for v in res if LO <= v <= HI)


def check_int64(ex, width):
    for v in lattice(width):
        forms = [int(v), np.int64(v), np.array(v, np.int64)]
        if -(2**31) <= v < 2**31:
            forms += [np.int32(v), np.array(v, np.int32)]
        if 0 <= v < 2**32:
            forms += [np.uint32(v)]
        for f in forms:
            code = E.encode_int64(f)
            ex.check(
                code.shape == (2,) and code.dtype == np.uint32, f"{v} as {type(f)}", f"{code!r}"
            )
            ex.equal(E.decode_int64(code), v, f"{v} as {type(f)}")
        ex.equal([int(c) for c in code], [(v >> 32) & 0xFFFFFFFF, v & 0xFFFFFFFF], f"{v}: parts")
        ex.equal(E.decode_int64(jnp.asarray(code)), v, f"{v} from jax")
        ex.explored(states=1, transitions=len(forms) + 1, traces=len(forms))
    ex.sample(values=len(lattice(width)))
    for bad in (1.0, np.float64(1), "1", None, np.arange(2), [1], np.array(1.5)):
        try:
            E.encode_int64(bad)
            ok = False
        except TypeError:
            ok = True
        ex.check(ok, f"{bad!r} accepted")


def check_order(ex, width, part):
    vals = lattice(width)
    codes = [E.encode_int64(v) for v in vals]
    for i in range(part[0], len(vals), part[1]):
        for j in range(len(vals)):
            r = E.less(codes[i], codes[j])
            if bool(r) != (vals[i] < vals[j]):
                ex.violation(f"{vals[i]} < {vals[j]}", f"got {r}")
        ex.comparisons += len(vals)
        ex.outcome(len(vals) - i)
        ex.explored(states=1, transitions=len(vals))


def check_dates(ex, width):
    lo, hi = pd.Timestamp.min.value, pd.Timestamp.max.value
    vals = [v for v in lattice(width) if lo <= v <= hi]
    dates = np.array(vals, np.int64).astype("datetime64[ns]")
    codes = E.datetime64_encoder(dates).encode(dates)
    ex.equal(codes.shape, (len(vals), 2), "shape")
    for form in (codes, jnp.asarray(codes)):
        ex.same_array(E.datetime64_encoder(dates).decode(form), dates, "array of dates")
    for v, d, c in zip(vals, dates, codes):
        ex.same_array(E.encode_datetime64(d), c, f"date {v}")
        ex.same_array(np.asarray(E.decode_datetime64(c)), np.asarray(d), f"date {v} decoded")
        ts = pd.Timestamp(v)
        ex.equal(E.decode_timestamp(E.encode_timestamp(ts)), ts, f"timestamp {v}")
        py = ts.floor("us").to_pydatetime(warn=False) if v - v % 1000 >= lo else None
        if py is not None:
            ex.equal(E.decode_datetime(E.encode_datetime(py)), py, f"datetime {v}")
        ex.explored(states=1, transitions=4, traces=3)
    for unit in ("ns", "us", "ms", "s", "m", "h", "D"):
        for v in range(-400, 401):
            for scale in (1, 37):
                d = np.datetime64(v * scale, unit)
                got = E.decode_datetime64(E.encode_datetime64(d))
                ex.same_array(np.asarray(got), np.asarray(d).astype("M8[ns]"), f"{v} {unit}")
        d = np.datetime64("NaT", unit)
        got = np.asarray(E.decode_datetime64(E.encode_datetime64(d)))
        ex.same_array(got, np.datetime64("NaT", "ns"), f"missing date in {unit}")
    # dates with a time zone are instants
    for zone in ("UTC", "Asia/Tokyo", "America/New_York", "+05:30"):
        for v in vals[:: max(1, len(vals) // 50)]:
            if abs(v) > HI - 2 * DAY:
                continue
            ts = pd.Timestamp(v, tz="UTC").tz_convert(zone)
            got = E.decode_timestamp(E.encode_timestamp(ts))
            ex.equal(got, pd.Timestamp(v), f"timestamp {v} in {zone}")
    # missing dates at all positions
    nat = np.datetime64("NaT")
    for T in range(1, 5):
        for mask in itertools.product([False, True], repeat=T):
            seq = np.where(mask, nat, dates[: T])
            enc = E.datetime64_encoder(seq)
            ex.same_array(enc.decode(enc.encode(seq)), seq, f"missing {mask}")
    for bad in (1, 1.5, "2020-01-01"):
        for f in (E.encode_timestamp, E.encode_datetime):
            try:
                f(bad)
                ok = False
            except TypeError:
                ok = True
            ex.check(ok, f"{f.__name__}({bad!r}) accepted")
    for bad in (np.int64(3), np.float64(2.0)):
        try:
            E.encode_datetime64(bad)
            ok = False
        except TypeError:
            ok = True
        ex.check(ok, f"encode_datetime64({bad!r}) accepted")


def check_floor(ex, days):
    offsets = [0, 1, -1, DAY // 2, DAY - 2, 3600 * 10**9, 10**6, -(10**3)]
    base = list(range(-days, days + 1)) + [10957, 19000, -20000, 106751 - 1, -106750]
    vals = np.array([d * DAY + o for d in base for o in offsets], np.int64)
    want = np.array([v - v % DAY for v in vals.tolist()], np.int64).astype("M8[ns]")
    times = vals.astype("M8[ns]")
    for shape in [(-1,), (4, -1), (2, 2, -1)]:
        t = times.reshape(shape)
        ex.same_array(E.floor_datetime(t), want.reshape(t.shape), f"floor {shape}", dtype="M8[ns]")
    for t, w in zip(times, want):
        ex.same_array(E.floor_datetime(t), w, f"floor of {t}")
        for unit in ("us", "s"):
            u = t.astype(f"M8[{unit}]")
            x = u.astype("M8[ns]").astype(np.int64)
            ex.same_array(
                E.floor_datetime(u, "d"), np.int64(x - x % DAY).astype("M8[ns]"), f"floor of {u}"
            )
        key = E.floor_jax_datekey(jnp.asarray(E.encode_datetime64(t)))
        ex.same_array(E.decode_datetime64(key), w, f"key of {t}")
        ex.explored(states=1, transitions=4, traces=4)
    try:
        E.floor_datetime(times, "h")
        ok = False
    except AssertionError:
        ok = True
    ex.check(ok, "unsupported frequency accepted")


def check_strings(ex, size, T):
    words = ["b", "a", "", "é", "aa", " a", "B"][:size]
    for t in range(1, T + 1):
        for seq in itertools.product(words, repeat=t):
            v = np.array(seq)
            enc = E.string_encoder(v)
            codes = enc.encode(v)
            ex.check(codes.shape == v.shape, f"{seq}: shape")
            ex.check((enc.decode(codes) == v).all(), f"{seq}: decoded")
            # the order of the codes is the order of the words
            same = (codes[:, None] < codes[None]) == (v[:, None] < v[None])
            ex.check(same.all(), f"{seq}: order")
            # a part of the values, repetitions
            for k in range(t):
                ex.check((enc.decode(enc.encode(v[k:])) == v[k:]).all(), f"{seq}: from {k}")
            for shape in [(t, 1), (1, t), (1, t, 1)] + ([(2, 2), (2, 2, 1)] if t == 4 else []):
                m = v.reshape(shape)
                e2 = E.string_encoder(m)
                ex.check(
                    e2.decode(e2.encode(m)).shape == m.shape
                    and (e2.decode(e2.encode(m)) == m).all(),
                    f"{seq}: {shape}",
                )
            try:
                enc.encode(np.array(["zz"]))
                ok = False
            except ValueError:
                ok = True
            ex.check(ok, f"{seq}: unknown word accepted")
            ex.explored(states=t, transitions=t, traces=1)
    ex.sample(words=words, T=T)


def check_datasets(ex):
    """Encoding a data set encodes the variables with an encoder and leaves the others alone."""
    data = {
        "w": np.array(["b", "a", "b"]), "d": np.array([5, -5, 0]).astype("M8[ns]"),
        "x": np.array([1.5, np.nan, -2.0]), "i": np.array([[1, 2], [3, 4], [5, 6]]),
        "m": np.array([["u", "v"], ["v", "w"]]),
    }
    make = {"w": E.string_encoder, "d": E.datetime64_encoder, "m": E.string_encoder}
    for k in range(1, len(data) + 1):
        for names in itertools.combinations(data, k):
            for r in range(4):
                for used in itertools.combinations(make, r):
                    sub = {n: data[n] for n in names}
                    enc = {n: make[n](data[n]) for n in used}
                    out = E.encode_dataset(enc, sub)
                    ex.equal(list(out), list(names), f"{names} {used}")
                    for n in names:
                        if n not in enc:
                            ex.check(out[n] is data[n], f"{names} {used}: {n} changed")
                        else:
                            ex.check(out[n].dtype.kind in "iu", f"{names} {used}: {n} is encoded")
                    back = E.decode_dataset(enc, out)
                    for n in names:
                        if data[n].dtype.kind in "U":
                            ex.check((back[n] == data[n]).all(), f"{names} {used}: {n}")
                        else:
                            ex.same_array(back[n], data[n], f"{names} {used}: {n}")
                    ex.explored(states=1, transitions=2, traces=1)


def tasks(tier):
    t = tier == "thorough"
    parts = 8 if t else 3
    res = [
        Task("int64", check_int64, dict(width=8 if t else 3)),
        Task("dates", check_dates, dict(width=8 if t else 3)),
        Task("floor", check_floor, dict(days=800 if t else 40)),
        Task("strings", check_strings, dict(size=6 if t else 4, T=5 if t else 4)),
        Task("datasets", check_datasets),
    ]
    return res + [
        Task(f"order:{p}", check_order, dict(width=4 if t else 1, part=(p, parts)))
        for p in range(parts)
    ]
