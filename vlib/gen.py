"""Match-up data set workloads and an independent model of what reading them must give."""
import os

import numpy as np
from netCDF4 import Dataset
from scipy.sparse import csr_matrix

FILL = -1e30


def sensor_names(rng, n):
    style = rng.integers(4)
    pool = {0: ["s%d" % k for k in range(1, 12)],
            1: ["m02", "n19", "n18", "n17", "n16", "n15", "n14", "n12", "n11", "n10"],
            2: ["AATSR", "NOAA 18", "NOAA 1", "NOAA 11", "ATSR2", "a", "aa", "A"],
            3: ["10", "1", "0", "11", "01", "2", "21", "12"]}[int(style)]
    return [pool[j] for j in rng.permutation(len(pool))[:n]]


def band_matrix(rng, M, fresh=True, width=None, gaps=False):
    """Weights of M rows over a sliding window. fresh: every row adds at least one new column. gaps: windows with measurements left out."""
    width = int(width or (rng.integers(1, 6) if rng.random() < .93 else rng.integers(6, 52)))
    starts, s = [], 0
    for i in range(M):
        if i:
            lo = 1 if fresh else 0
            s += int(rng.integers(lo, width + (2 if rng.random() < .3 else 1)))
        starts.append(s)
    if fresh:  # gaps would leave unused columns: the window then starts at the next unused column
        s = 0
        for i in range(1, M):
            starts[i] = min(starts[i], starts[i - 1] + width)
    else:
        for i in range(1, M):
            starts[i] = min(starts[i], starts[i - 1] + width)
    # match-ups need not be in scanline order: backwards each row still adds a column, shuffled it need not
    if rng.random() < .25:
        starts = starts[::-1]
    elif not fresh and rng.random() < .4:
        starts = [starts[j] for j in rng.permutation(M)]
    cols = np.array([st + np.arange(width) for st in starts])
    if width > 1 and rng.random() < .15:      # the entries of a row need not be stored in column order
        cols = rng.permuted(cols, axis=1)
    if width > 5 or rng.random() < .5:
        vals = np.full((M, width), 1. / width)
    else:
        # also few distinct weights, so that rows agree in some and differ in others
        vals = rng.uniform(.1, 1., (M, width)) if rng.random() < .6 else rng.choice([.2, .3, .5, .9], (M, width))
    n = int(cols.max()) + 1
    if gaps and width > 2:
        keep = rng.random((M, width)) < .7
        keep[np.arange(M), rng.integers(0, width, M)] = True
        keep[int(np.argwhere(cols == n - 1)[0, 0]), int(np.argwhere(cols == n - 1)[0, 1])] = True
        return csr_matrix((vals[keep], cols[keep], np.concatenate([[0], np.cumsum(keep.sum(1))])), shape=(M, n))
    return csr_matrix((vals.ravel(), cols.ravel(), np.arange(M + 1) * width), shape=(M, n))


def gen(rng, max_series=6, max_M=60, types=(1, 2, 3, 4), fresh=True, equal_m=None, p_opt=.5, p_extra=.5, min_M=1, max_m=4,
        ref=False, shared_us=False, n_series=None, f4=None, connected=False, M_fixed=None, ref_types=(1,), wide=0., big=False, big_w=False, w_gaps=False):
    """A list of series (dicts of arrays), the sensors' covariate counts and the storage choices.

    wide: how often the data set leaves the small sizes in one respect: one long series, more than ten series, more than ten covariates.
    big: two or three series of some 70000 match-ups. big_w: weighting matrices of 30001 rows and 120004 weights."""
    if big:     # more rows than 2 ** 16 and, in sum, than 100000
        types, M_fixed, n_series, max_m, wide, p_opt, p_extra = (1, 2), int(rng.integers(66000, 71000)), int(rng.integers(2, 4)), 2, 0., .3, .2
    if big_w:
        types, max_series, max_m, wide, equal_m = (3, 4), 3, 3, 0., False
    long_series = 0 if big_w else -1
    extremes = wide > 0     # of times and indices
    if rng.random() < wide:
        kind = int(rng.integers(3))
        if kind == 0:
            long_series = 0
            max_series = min(max_series, 3)
        elif kind == 1:
            n_series = n_series or int(rng.integers(10, 14))
            max_M = min(max_M, 6)
        else:
            max_m, equal_m = 12, None
            max_M = min(max_M, 6)
        wide = 1.
    n = int(n_series or rng.integers(1, max_series + 1))
    ns = int(rng.integers(2, min(8, n + 2) + 1))
    names = sensor_names(rng, ns)
    ns = len(names)
    if equal_m is None:
        equal_m = rng.random() < .4
    ms = [int(rng.integers(1, max_m + 1))] * ns if equal_m else [int(rng.integers(1, max_m + 1)) for _ in range(ns)]
    if ref:
        ms[0] = 1
    pairs = []
    for k in range(n):
        if connected and k < ns - 1:
            i, j = (int(rng.integers(0, k + 1)), k + 1)
        else:
            i, j = (int(v) for v in rng.permutation(ns)[:2])
        if ref and j == 0:
            i, j = j, i
        pairs.append((i, j))
    series = []
    tag = 0
    if long_series == 0:
        long_series = int(rng.integers(n))
    us_of = {}
    for k, (i, j) in enumerate(pairs):
        M = int(M_fixed) if M_fixed else (int(rng.integers(min_M, max_M + 1)) if rng.random() < .8 else min_M)
        if k == long_series:
            M = int(rng.choice([257, 1025, 2049, 4099])) if not big_w else 30001
        d = {"s": (names[i], names[j]), "M": M, "m": (ms[i], ms[j])}
        for side, s in ((1, i), (2, j)):
            m = ms[s]
            # traceable: every measurement of the data set is distinct even at single precision
            X = (np.arange(M * m).reshape(M, m) + tag) * .25 + 1.
            tag += M * m
            perm = rng.permutation(M)
            d["X%d" % side] = X[perm] * (1 if rng.random() < .8 else -1)
            ty = [int(types[int(rng.integers(len(types)))]) for _ in range(m)]
            if ref and s == 0:
                ty = [int(ref_types[int(rng.integers(len(ref_types)))])] * m
            d["ut%d" % side] = np.array(ty)
            d["Ur%d" % side] = rng.uniform(.01, 2., (M, m))
            us = rng.uniform(.01, 2., m)
            if shared_us:
                us = us_of.setdefault(s, us)
            d["Us%d" % side] = np.tile(us, (M, 1))
            if rng.random() < .3 and not shared_us:
                d["Us%d" % side] = rng.uniform(.01, 2., (M, m))
                for c in range(m):
                    if ty[c] == 4:
                        d["Us%d" % side][:, c] = us[c]
        d["K"] = rng.normal(0, 3, M)
        d["Kr"] = rng.uniform(.01, 1, M)
        d["Ks"] = rng.uniform(0, 1, M) if rng.random() < .7 else np.zeros(M)
        if rng.random() < .2:
            d["Ks"][rng.random(M) < .5] = 0.
        t0 = float(rng.integers(0, 1500000000))
        if extremes and rng.random() < .1:     # before 1970, beyond 2038
            t0 = float(rng.choice([-86400. * 400, 2. ** 31 - 1000, 4e9]))
        gaps = rng.integers(0, 5000, M) if rng.random() < .7 else rng.integers(0, 3, M) * 86400
        d["time1"] = t0 + np.cumsum(gaps) + (rng.uniform(0, 1, M) if rng.random() < .3 else 0.)
        d["time2"] = d["time1"] + (rng.integers(0, 900, M) if rng.random() < .9 else rng.uniform(-1, 1, M))
        for v in ("across_track_index", "along_track_index"):
            for side in (1, 2):
                if rng.random() < p_opt:
                    d[v + str(side)] = rng.integers(0, [30000, 30000, 2 ** 17, 2 ** 31 - 1][int(rng.integers(4))] if extremes else 30000, M)
        ex = {}
        for e in range(3 if rng.random() < .85 else 8):
            if rng.random() < p_extra:
                a = rng.normal(200, 50, M)
                if rng.random() < .15:      # large, but no fill value
                    a[rng.integers(M)] = rng.choice([-1e29, -9.99e29, -1.01e30, 1e30, -2e30, -999., -1e10, 0.])
                a[rng.random(M) < .15] = FILL
                ex["extra%d" % e if e else "nominal_BT2"] = (str(rng.choice(["f8", "f8", "f4"])), a)
        d["extra"] = ex
        # weighting matrices
        cols = [(side, c) for side in (1, 2) for c in range(d["m"][side - 1]) if d["ut%d" % side][c] in (3, 4)]
        if cols:
            nw = int(rng.integers(1, len(cols) + 2))
            nu = int(rng.integers(1, len(cols) + 2))
            ws = [band_matrix(rng, M, fresh, gaps=w_gaps and rng.random() < .3) for _ in range(nw)]
            if k == long_series and M > 9000:      # more than 2 ** 15 stored weights before the last matrix
                ws = [band_matrix(rng, M, fresh, width=4) for _ in range(nw)]
            if fresh and rng.random() < .2:
                ws[0] = csr_matrix((rng.uniform(.5, 1, M), (np.arange(M), np.arange(M))), shape=(M, M))
            # vectors belong to matrices of the same column count
            if rng.random() < .5:
                nu = nw
                us = [rng.uniform(.05, 2, w.shape[1]) for w in ws]
                uw = list(range(nw))
            else:
                uw = [int(rng.integers(nw)) for _ in range(nu)]
                for q in range(nw):
                    if q not in uw:
                        uw.append(q)
                us = [rng.uniform(.05, 2, ws[q].shape[1]) for q in uw]
            for u in us:
                if rng.random() < .3:       # nearly or exactly constant
                    u[:] = rng.uniform(.1, 2) * (1 + rng.choice([0., .001, .03]) * rng.random(len(u)))
            use = {"w1": np.zeros(d["m"][0], int), "w2": np.zeros(d["m"][1], int), "u1": np.zeros(d["m"][0], int), "u2": np.zeros(d["m"][1], int)}
            for side, c in cols:
                w = int(rng.integers(nw))
                us_ok = [q for q in range(len(us)) if uw[q] == w]
                use["w%d" % side][c] = w + 1
                use["u%d" % side][c] = us_ok[int(rng.integers(len(us_ok)))] + 1
                d["Ur%d" % side][:, c] = 0
            for side in (1, 2):
                for c in range(d["m"][side - 1]):
                    if d["ut%d" % side][c] in (1, 3):
                        d["Us%d" % side][:, c] = 0
            d["W"], d["U"], d["use"] = ws, us, use
        elif rng.random() < .15:
            # matrices stored but not used by any covariate
            d["W"], d["U"] = [band_matrix(rng, M, fresh)], [rng.uniform(.05, 2, 3)]
            d["use"] = {"w1": np.zeros(d["m"][0], int), "w2": np.zeros(d["m"][1], int), "u1": np.zeros(d["m"][0], int), "u2": np.zeros(d["m"][1], int)}
        series.append(d)
    if f4 is None:
        f4 = rng.random() < .3
    return {"series": series, "f4": bool(f4), "ref": names[0] if ref else None}


def w_vars(d):
    ws, us = d["W"], d["U"]
    return {"w_matrix_nnz": np.array([w.nnz for w in ws]),
            "w_matrix_row": np.array([w.indptr for w in ws]),
            "w_matrix_col": np.concatenate([w.indices for w in ws]),
            "w_matrix_val": np.concatenate([w.data for w in ws]),
            "u_matrix_row_count": np.array([len(u) for u in us]),
            "u_matrix_val": np.concatenate(us)}


def write(d, path, f4=False):
    """One series as a match-up file, written with netCDF4 directly."""
    f = "f4" if f4 else "f8"
    ds = Dataset(path, "w")
    ds.sensor_1_name, ds.sensor_2_name = d["s"]
    ds.createDimension("M", d["M"])
    ds.createDimension("m1", d["m"][0])
    ds.createDimension("m2", d["m"][1])

    def var(n, t, dims, a):
        v = ds.createVariable(n, t, dims)
        v[:] = a
    for s in (1, 2):
        for n in ("X", "Ur", "Us"):
            var("%s%d" % (n, s), f, ("M", "m%d" % s), d["%s%d" % (n, s)])
        var("uncertainty_type%d" % s, "i4", ("m%d" % s,), d["ut%d" % s])
        var("time%d" % s, "f8", ("M",), d["time%d" % s])
        for n in ("across_track_index%d" % s, "along_track_index%d" % s):
            if n in d:
                var(n, "i4", ("M",), d[n])
    for n in ("K", "Kr", "Ks"):
        var(n, "f8", ("M",), d[n])
    for n, (t, a) in d["extra"].items():
        var(n, t, ("M",), a)
    if "W" in d:
        v = w_vars(d)
        ds.createDimension("w_matrix_count", len(d["W"]))
        ds.createDimension("w_matrix_row_count", d["M"] + 1)
        ds.createDimension("w_matrix_nnz_sum", len(v["w_matrix_col"]))
        ds.createDimension("u_matrix_count", len(d["U"]))
        ds.createDimension("u_matrix_row_count_sum", len(v["u_matrix_val"]))
        for n, t, dims in (("w_matrix_nnz", "i4", ("w_matrix_count",)), ("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count")),
                           ("w_matrix_col", "i4", ("w_matrix_nnz_sum",)), ("w_matrix_val", "f8", ("w_matrix_nnz_sum",)),
                           ("u_matrix_row_count", "i4", ("u_matrix_count",)), ("u_matrix_val", "f8", ("u_matrix_row_count_sum",))):
            var(n, t, dims, v[n])
        for s in (1, 2):
            var("w_matrix_use%d" % s, "i4", ("m%d" % s,), d["use"]["w%d" % s])
            var("u_matrix_use%d" % s, "i4", ("m%d" % s,), d["use"]["u%d" % s])
    ds.close()


def write_all(spec, folder, rng=None):
    """All series as files whose names sort in series order; returns the paths."""
    os.makedirs(folder, exist_ok=True)
    paths = []
    for k, d in enumerate(spec["series"]):
        p = os.path.join(folder, "%02d_matchups.nc" % k)  # the same path for other data in the next case
        write(d, p, spec["f4"])
        paths.append(p)
    return paths


def model(spec):
    """What the documentation of the match-up data structure says about this data set (not the reader's code)."""
    S = spec["series"]
    f = np.float32 if spec["f4"] else np.float64
    names, ms = [], []
    for d in S:
        for n, m in zip(d["s"], d["m"]):
            if n not in names:
                names.append(n)
                ms.append(m)
    blocks = []
    for c in range(1, max(ms) + 1):
        for k, d in enumerate(S):
            for side in (1, 2):
                if d["m"][side - 1] >= c:
                    blocks.append({"c": c, "mu": k + 1, "side": side, "s": names.index(d["s"][side - 1]), "N": d["M"],
                                   "x": np.asarray(d["X%d" % side][:, c - 1], dtype=f).astype(np.float32),
                                   "t": int(d["ut%d" % side][c - 1]),
                                   "ur": np.asarray(d["Ur%d" % side][:, c - 1], dtype=f),
                                   "us": np.asarray(d["Us%d" % side][:, c - 1], dtype=f),
                                   "w": d["W"][d["use"]["w%d" % side][c - 1] - 1] if d["ut%d" % side][c - 1] in (3, 4) else None,
                                   "u": d["U"][d["use"]["u%d" % side][c - 1] - 1] if d["ut%d" % side][c - 1] in (3, 4) else None})
    cN = [0]
    for d in S:
        cN.append(cN[-1] + d["M"])
    off = [0]
    for b in blocks:
        off.append(off[-1] + b["N"])
    num = {}
    for b in blocks:
        if b["t"] in (2, 4):
            b["usi"] = num.setdefault((b["s"], b["c"]), len(num) + 1)
        else:
            b["usi"] = None
    idx = {"Nm": [d["M"] for d in S], "cNm": cN, "Im": [[names.index(n) for n in d["s"]] for d in S], "sensors": names, "sensor_ms": ms,
           "n_sensor": [b["s"] for b in blocks], "n_mu": [b["mu"] for b in blocks], "n_cov": [b["c"] for b in blocks],
           "N_var": [b["N"] for b in blocks], "idx": off}
    return {"idx": idx, "blocks": blocks, "K": np.concatenate([d["K"] for d in S]), "n_sys": len(num)}


def shape_key(spec):
    """Structure of a data set, without its values."""
    names = []
    out = []
    for d in spec["series"]:
        for n in d["s"]:
            if n not in names:
                names.append(n)
        out.append((names.index(d["s"][0]), names.index(d["s"][1]), d["m"], tuple(d["ut1"]), tuple(d["ut2"]), min(d["M"], 3),
                    tuple(map(tuple, (d["use"][k] for k in ("w1", "w2", "u1", "u2")))) if "W" in d else None))
    return tuple(out)


def describe(spec):
    return [{"sensors": list(d["s"]), "M": d["M"], "types1": d["ut1"].tolist(), "types2": d["ut2"].tolist(),
             "W": [list(w.shape) for w in d.get("W", [])], "extra": sorted(d["extra"])} for d in spec["series"]]
