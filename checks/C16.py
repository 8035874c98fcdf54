"""C16: time averages and bins of generated series, every entry recomputed from the values by counting each into its own calendar period or bin; conservation
of the number and sum of values over all entries is watched through additive probes (a 1 at one position)."""
import calendar
import datetime as dt
import importlib
import warnings

import numpy as np

PROP = "C16"
RULE = ("series of 1-200 values in any order over hours to decades, with values exactly on period boundaries, repeated times, gaps, leap days and year ends, NaN values; "
        "binning with 1-60 bins, given or own range, values on edges and outside; non-trivial with more than one period")
N = {"quick": 4500, "thorough": 30000}
BUDGET = {"quick": 150, "thorough": 500}
FILES = ["harmonisation_eiv/harmonisation/core/utils/stats.py"]
NEED = ["hour", "day", "month", "year", "on_boundary", "gap", "unsorted", "leap_day", "probe", "bins", "own_range", "given_range", "empty_bin", "on_edge", "outside", "nan_value", "nan_x", "whole_numbers"]
st = None


def setup():
    global st
    st = importlib.import_module("harmonisation.core.utils.stats")
    warnings.simplefilter("ignore")


def start(t, p):
    if p == "year":
        return dt.datetime(t.year, 1, 1)
    if p == "month":
        return dt.datetime(t.year, t.month, 1)
    if p == "day":
        return dt.datetime(t.year, t.month, t.day)
    return dt.datetime(t.year, t.month, t.day, t.hour)


def following(s, p):
    if p == "year":
        return dt.datetime(s.year + 1, 1, 1)
    if p == "month":
        return dt.datetime(s.year + (s.month == 12), s.month % 12 + 1, 1)
    return s + (dt.timedelta(days=1) if p == "day" else dt.timedelta(hours=1))


def averages(m, rng):
    p = ["hour", "day", "month", "year"][int(rng.integers(4))]
    m.saw(p)
    n = int(rng.choice([1, 2, 5, 30, 200, 3000], p=[.19, .2, .2, .2, .2, .01]))
    span = {"hour": 3600 * int(rng.integers(1, 72)), "day": 86400 * int(rng.integers(1, 60)), "month": 86400 * int(rng.integers(20, 1500)), "year": 86400 * int(rng.integers(100, 9000))}[p]
    y0 = int(rng.integers(1955, 2061))
    base = [dt.datetime(y0, 12, 31, 22, 30), dt.datetime(y0, 2, 27, 20), dt.datetime(y0, 1, 1), dt.datetime(y0, int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(24)), int(rng.integers(60)))][int(rng.integers(4))]
    times = [base + dt.timedelta(seconds=float(np.round(rng.uniform(0, span), int(rng.choice([0, 0, 6]))))) for _ in range(n)]
    for k in range(n):
        u = rng.random()
        if u < .15:
            times[k] = start(times[k], p)
            m.saw("on_boundary")
        elif u < .2:
            times[k] = following(start(times[k], p), p) - dt.timedelta(microseconds=int(rng.choice([1, 10 ** 6])))
        elif u < .25:
            times[k] = times[int(rng.integers(n))]
    if any(t.month == 2 and t.day == 29 for t in times):
        m.saw("leap_day")
    if rng.random() < .4:
        times.sort()
    elif times != sorted(times):
        m.saw("unsorted")
    data = rng.normal(250, 30, n)
    if rng.random() < .1:
        data[int(rng.integers(n))] = np.nan
        m.saw("nan_value")
    if rng.random() < .1:
        data = rng.integers(-500, 500, n)
        m.saw("whole_numbers")
    T = np.array(times)
    if rng.random() < .2:
        both = np.empty((n, 2)), np.empty((n, 2), object)
        both[0][:, 0], both[1][:, 0] = data, T
        data, T = both[0][:, 0], both[1][:, 0]
    held = data.copy(), T.copy()
    a, at = st.time_average(data, T, time_period=p)
    m.check(np.array_equal(held[0], data, equal_nan=True) and list(held[1]) == list(T), "%s averages: the input stays as it was" % p)
    own = [start(t, p) for t in times]
    want_t, s = [], min(own)
    while s <= max(own):
        want_t.append(s)
        s = following(s, p)
    m.key(p, n, len(want_t))
    m.trivial = len(want_t) < 2
    m.equal([t for t in at], want_t, "%s averages: periods" % p)
    by = {}
    for t, v in zip(own, data):
        by.setdefault(t, []).append(v)
    if len(by) < len(want_t):
        m.saw("gap")
    m.close(a, [float(np.mean(by[t])) if t in by else np.nan for t in want_t], "%s averages of %d values" % (p, n), rtol=1e-12)
    if p == "month" and rng.random() < .3:
        b, bt = st.time_average(data, T)
        m.check(np.array_equal(a, b, equal_nan=True) and list(bt) == want_t, "monthly averages by default")
    # one value's weight
    k = int(rng.integers(n))
    e = np.zeros(n)
    e[k] = 1.
    w, _ = st.time_average(e, T, time_period=p)
    m.saw("probe")
    m.close(np.nansum(w), 1. / len(by[own[k]]), "%s averages: a value counts once" % p, rtol=1e-12)
    m.check(np.argmax(np.nan_to_num(w)) == want_t.index(own[k]), "%s averages: a value counts in its own period" % p)


def binning(m, rng):
    n = int(rng.choice([1, 3, 20, 300]))
    nb = int(rng.choice([1, 2, 4, 8, 16, 32, 7, 20, 50]))
    exact = nb in (1, 2, 4, 8, 16, 32)
    if exact:  # edges and values exactly representable
        X = rng.integers(-64, 65, n) / 8.
        rg = [float(rng.integers(-64, 0)) / 4, float(rng.integers(1, 64)) / 4]
        m.saw("on_edge")
    else:
        X = rng.uniform(-8, 8, n)
        rg = sorted(rng.uniform(-9, 9, 2).tolist())
    Y = rng.normal(0, 5, n)
    given = rng.random() < .6
    if rng.random() < .1:
        Y[int(rng.integers(n))] = np.nan
        m.saw("nan_value")
    if given and rng.random() < .1:
        X[int(rng.integers(n))] = np.nan
        m.saw("nan_x")
    if exact and rng.random() < .1:
        Y = rng.integers(-50, 50, n)
        m.saw("whole_numbers")
    if not given:
        if X.min() == X.max():
            return
        rg = [float(X.min()), float(X.max())]
    m.saw("given_range" if given else "own_range")
    held = X.copy(), Y.copy()
    a, s, c = (st.bin(Y, X, bins=nb, X_range=rg) if nb != 20 or rng.random() < .5 else st.bin(Y, X, X_range=rg)) if given else st.bin(Y, X, bins=nb)
    m.saw("bins")
    m.check(np.array_equal(held[0], X, equal_nan=True) and np.array_equal(held[1], Y, equal_nan=True), "bins: the input stays as it was")
    m.key("bin", n, nb, given)
    w = (rg[1] - rg[0]) / nb
    edges = rg[0] + np.arange(nb + 1) * (rg[1] - rg[0]) / nb
    if not exact and np.abs(X[np.isfinite(X), None] - edges[None, 1:-1]).min(initial=np.inf) < 1e-9:
        return
    ii = np.searchsorted(edges, X, side="right") - 1
    if np.any((ii < 0) | (ii >= nb)):
        m.saw("outside")
    am, sm = np.full(nb, np.nan), np.full(nb, np.nan)
    for k in range(nb):
        v = Y[(ii == k) & ~np.isnan(X)]
        if len(v):
            am[k] = np.mean(v)
            sm[k] = np.sqrt(np.mean((v - np.mean(v)) ** 2))
        else:
            m.saw("empty_bin")
    what = "%d values in %d bins: " % (n, nb)
    if not given and not exact:
        # the largest X is the range's upper edge: its bin depends on rounding
        top = X == X.max()
        if np.any(top):
            k = nb - 1
            a, s, am, sm = (np.delete(np.asarray(q, float), k) for q in (a, s, am, sm))
    m.close(c, (edges[1:] + edges[:-1]) / 2, what + "centres", rtol=1e-12, atol=1e-12)
    m.close(a, am, what + "means", rtol=1e-10, atol=1e-10)
    m.close(s, sm, what + "standard deviations", rtol=1e-8, atol=1e-7)


def case(m, rng, i):
    (binning if i % 3 == 2 else averages)(m, rng)
