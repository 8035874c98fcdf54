"""Native reader: what the sanitized reader loads from generated match-up files against a reference model."""
import os

import numpy as np
from netCDF4 import Dataset

import native
from harness import SkipCase
from checks.C23 import check_banded

PROP = "C22"
RULE = ("a case is one run of the sanitized native reader over 1-4 generated match-up files (1-40 match-ups, 1-6 covariates per sensor, every "
        "uncertainty type, 0-3 weighting and uncertainty matrices shared by covariates, optional variables left out, single or double precision, "
        "sampling steps 1 to beyond the number of match-ups, column selections in any order with repeats and with common-uncertainty columns, "
        "common effects enabled or not), the registries and the matrix store being compared with what the files hold; one case in three has one "
        "unacceptable value in one variable, or one matrix number or count that contradicts the rest, and must stop with an error. Non-trivial: at least one series was loaded or refused.")
N = {"quick": 340, "thorough": 6000}
FILES = []
BUILDS = ["fortran"]
F = np.float32
BAD = [(v, b) for v in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "u_matrix_val", "w_matrix_val")
       for b in ("nan", "inf", "-inf", "huge", "-huge")] \
    + [(v, b) for v in ("time1", "time2") for b in ("nan", "inf", "-inf")] \
    + [("Kr", "zero"), ("Kr", "zero"), ("Kr", "-zero"), ("u_matrix_val", "zero"), ("u_matrix_val", "zero"), ("w_matrix_val", "zero"),
       ("w_matrix_val", "negative"), ("w_matrix_val", "zero"), ("w_matrix_val", "negative")]
NUMBERS = [(v, b) for v in ("w_matrix_use", "u_matrix_use") for b in ("none", "negative", "beyond")] + [("u_matrix_val", "short")] * 2 \
    + [(v, b) for v in ("w_matrix_nnz", "u_matrix_row_count") for b in ("more", "less", "moved")] + [("w_matrix_row", "rows")]
VALUE = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e20, "-huge": -1e25, "zero": 0.0, "-zero": -0.0, "negative": -0.25}


def setup():
    pass


def f32(rng, shape, lo=.01, hi=50.):
    a = rng.uniform(lo, hi, shape)
    if rng.random() < .3:
        a *= 10.0 ** rng.integers(-4, 4)
    return a.astype(F)


def weights(rng, M):
    """CSR arrays of M rows: windows over columns, some rows empty or irregular; every weight positive."""
    width = int(rng.integers(1, 6))
    rows, start = [], 0
    for _ in range(M):
        start += int(rng.integers(0, width + 1))
        k = 0 if rng.random() < .1 else int(rng.integers(1, width + 1))
        cols = start + (np.arange(k) if rng.random() < .7 else np.sort(rng.permutation(width)[:k]))
        rows.append({int(c): F(v) for c, v in zip(cols, f32(rng, k, .05, 1.))})
    if not any(rows):
        rows[0] = {0: F(.5)}
    return rows


def make(rng, m1, m2, want_w):
    M = int(rng.integers(1, 41)) if rng.random() < .85 else int(rng.integers(1, 4)) if rng.random() < .85 else int(rng.choice([257, 1030]))
    d = {"M": M, "m": (m1, m2), "uuid": "" if rng.random() < .4 else "".join("0123456789abcdef-"[int(k)] for k in rng.integers(0, 17, 36))}
    d["has"] = {v: bool(rng.random() < .75) for v in ("Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "uncertainty_type1", "uncertainty_type2",
                                                      "across_track_index1", "across_track_index2")}
    nw = int(rng.integers(1, 4)) if want_w else 0
    nu = int(rng.integers(1, 4)) if want_w else 0
    d["W"] = [weights(rng, M) for _ in range(nw)]
    d["one_based"] = bool(rng.random() < .3)
    top = max([c for w in d["W"] for r in w for c in r] + [0]) + 1
    d["U"] = [f32(rng, top + int(rng.integers(0, 4))) * (F(1) if rng.random() < .8 else F(-1)) for _ in range(nu)]
    d["time kind"] = "f8" if rng.random() < .8 else "f4"
    types = [1, 2] if not nw else ([1, 2, 3, 4] if rng.random() < .7 else [3, 4])
    for s, m in ((1, m1), (2, m2)):
        d["X%d" % s] = f32(rng, (M, m)) * (1 if rng.random() < .7 else -1)
        d["Ur%d" % s] = f32(rng, (M, m)) * (rng.random((M, m)) < .95)
        d["Us%d" % s] = f32(rng, (M, m))
        t = np.array([types[int(rng.integers(len(types)))] for _ in range(m)])
        if not d["has"]["uncertainty_type%d" % s]:
            t[:] = 1
        d["t%d" % s] = t
        d["uuse%d" % s] = np.array([int(rng.integers(1, nu + 1)) if x > 2 else 0 for x in t])
        d["wuse%d" % s] = np.array([int(rng.integers(1, nw + 1)) if x > 2 else 0 for x in t])
        base = rng.choice([0., 1e9, 1.5e9, 2.5e9, -3e8])
        d["time%d" % s] = base + rng.uniform(0, 1e8, M)
        if d["time kind"] == "f4":
            d["time%d" % s] = d["time%d" % s].astype(F).astype(float)
        d["p%d" % s] = rng.integers(0, 2048, M)
    d["K"] = f32(rng, M) * np.where(rng.random(M) < .5, F(1), F(-1))
    d["Kr"] = f32(rng, M, .01, 5)
    d["Ks"] = f32(rng, M, .0, 5)
    return d


def miscount(bad, name, counts):
    counts = list(counts)
    if bad and bad[0] == name:
        if bad[1] == "moved":                                # the sum stays, one count is below zero
            counts += [0] * (len(counts) < 2)
            counts[-1], counts[0] = -1, counts[0] + counts[-1] + 1
        else:
            counts[0] += 1 if bad[1] == "more" else -1
    return counts


def contradict(rng, d, bad, selected):
    """One matrix number or count of a series' description made to contradict the rest; selected: columns of either sensor that are read"""
    v, what = bad
    if what == "moved":
        k = "W" if v == "w_matrix_nnz" else "U"
        if len(d[k]) < 2:
            d[k].append(d[k][0])
    if v not in ("w_matrix_use", "u_matrix_use", "u_matrix_val"):
        return True
    places = [(s, c) for s in (1, 2) for c in selected[s - 1] if c <= d["m"][s - 1]]
    if not places:
        return False
    s, c = places[int(rng.integers(len(places)))]
    if d["t%d" % s][c - 1] < 3:
        d["t%d" % s][c - 1] = int(rng.integers(3, 5))
        d["uuse%d" % s][c - 1] = d["wuse%d" % s][c - 1] = 1
    n = d["uuse%d" % s if v[0] == "u" else "wuse%d" % s]
    if v == "u_matrix_val":                                  # the vector ends before the last column of its matrix
        wide = max([k for r in d["W"][d["wuse%d" % s][c - 1] - 1] for k in r]) + 1
        if wide < 2:
            return False
        u = n[c - 1] - 1
        d["U"] = [q if k != u else q[:wide - 1] for k, q in enumerate(d["U"])] + [d["U"][u]] * (len(d["U"]) < 2)
        d["step"] = 1
    else:
        n[c - 1] = 0 if what == "none" else -int(rng.integers(1, 4)) if what == "negative" else len(d[v[0].upper()]) + int(rng.integers(1, 4))
    return True


def write(d, path, rng, bad=None):
    M, (m1, m2) = d["M"], d["m"]
    with Dataset(path, "w", format="NETCDF4" if rng.random() < .8 else "NETCDF4_CLASSIC") as nc:
        if d["uuid"]:
            nc.matchup_dataset_uuid = d["uuid"]
        nc.createDimension("M", M)
        nc.createDimension("m1", m1)
        nc.createDimension("m2", m2)
        double = rng.random() < .5

        def put(name, dims, a, kind=None):
            a = np.array(a)
            if bad and len(bad) == 3 and bad[0] == name:
                a = a.astype(float)
                a.flat[bad[2] % a.size] = VALUE[bad[1]]
            t = kind or ("f8" if double and rng.random() < .8 else "f4")
            v = nc.createVariable(name, t, dims, fill_value=False)
            v[:] = a
        for s, dim in ((1, "m1"), (2, "m2")):
            put("X%d" % s, ("M", dim), d["X%d" % s])
            for u in ("Ur", "Us"):
                if d["has"][u + str(s)]:
                    put(u + str(s), ("M", dim), d[u + str(s)])
            if d["has"]["uncertainty_type%d" % s]:
                put("uncertainty_type%d" % s, (dim,), d["t%d" % s], "i4")
            put("time%d" % s, ("M",), d["time%d" % s], d["time kind"])
            if d["has"]["across_track_index%d" % s]:
                put("across_track_index%d" % s, ("M",), d["p%d" % s], "i2" if rng.random() < .5 else "i4")
        for v in ("K", "Kr", "Ks"):
            if d["has"][v]:
                put(v, ("M",), d[v])
        if d["W"]:
            nw, nu = len(d["W"]), len(d["U"])
            o = int(d["one_based"])
            nnz = [sum(len(r) for r in w) for w in d["W"]]
            rows = np.array([np.concatenate([[0], np.cumsum([len(r) for r in w])]) + o for w in d["W"]])
            if bad == ("w_matrix_row", "rows"):
                rows = np.hstack([rows, rows[:, -1:]])
            nc.createDimension("w_matrix_count", nw)
            nc.createDimension("w_matrix_row_count", rows.shape[1])
            nc.createDimension("w_matrix_nnz_sum", sum(nnz))
            nc.createDimension("u_matrix_count", nu)
            nc.createDimension("u_matrix_row_count_sum", sum(len(u) for u in d["U"]))
            put("w_matrix_nnz", ("w_matrix_count",), miscount(bad, "w_matrix_nnz", nnz), "i4")
            put("w_matrix_row", ("w_matrix_count", "w_matrix_row_count"),
                rows, "i4")
            put("w_matrix_col", ("w_matrix_nnz_sum",), [c + o for w in d["W"] for r in w for c in r], "i4")
            put("w_matrix_val", ("w_matrix_nnz_sum",), [v for w in d["W"] for r in w for v in r.values()])
            put("u_matrix_row_count", ("u_matrix_count",), miscount(bad, "u_matrix_row_count", [len(u) for u in d["U"]]), "i4")
            put("u_matrix_val", ("u_matrix_row_count_sum",), np.concatenate(d["U"]))
            for s, dim in ((1, "m1"), (2, "m2")):
                put("w_matrix_use%d" % s, (dim,), d["wuse%d" % s], "i4")
                put("u_matrix_use%d" % s, (dim,), d["uuse%d" % s], "i4")


def namelist(job, path, group="job"):
    def val(v):
        if isinstance(v, bool):
            return "T" if v else "F"
        return '"%s"' % v if isinstance(v, str) else str(v)
    with open(path, "w") as f:
        f.write("&%s\n" % group)
        for k, v in job.items():
            if isinstance(v, (list, tuple)):
                v = ", ".join(val(x) for x in v)
            else:
                v = val(v)
            f.write("  config_job_%s = %s\n" % (k, v) if group == "job" else "  config_%s = %s\n" % (k, v))
        f.write("/\n")


def case(m, rng, i):
    ns = int(rng.integers(2, 5))
    cols = [int(rng.integers(1, 7)) for _ in range(ns)]                # covariates of each sensor's files
    common = bool(rng.random() < .5)
    sensors, job = [], {"id": "C22", "enable_covariance_common": common, "enable_covariance_matrix": bool(rng.random() < .5),
                        "sensor_count": ns}
    for s in range(ns):
        avail = cols[s] if common else 2 * cols[s]
        if rng.random() < .5:
            r = int(rng.integers(1, min(avail, 12) + 1))
            sel = [int(x) for x in rng.integers(1, avail + 1, r)] if rng.random() < .4 else [int(x) + 1 for x in rng.permutation(avail)[:r]]
            r = len(sel)
            job["sensor_columns_select(%d)" % (s + 1)] = True
            job["sensor_columns(%d,1:%d)" % (s + 1, r)] = sel
        else:
            r = int(rng.integers(1, avail + 1))
            sel = list(range(1, r + 1))
        sensors.append((r, sel))
    pairs = [(a, b) for a in range(1, ns + 1) for b in range(a + 1, ns + 1)]
    pairs = [pairs[int(k)] for k in rng.permutation(len(pairs))[:int(rng.integers(1, 5))]]
    hostile = i % 3 == 2
    bad = None
    files = []
    for k, (a, b) in enumerate(pairs):
        d = make(rng, cols[a - 1], cols[b - 1], hostile or rng.random() < .6)
        d["step"] = int(rng.integers(1, 6)) if rng.random() < .8 else int(rng.integers(1, d["M"] + 3))
        d["name"] = "series %d" % k
        this = None
        if hostile and k == len(pairs) - 1 and i % 4 == 3:
            for q in d["has"]:
                d["has"][q] = True
            bad = this = NUMBERS[(i // 12) % len(NUMBERS)]
            if not contradict(rng, d, bad, (sensors[a - 1][1], sensors[b - 1][1])):
                raise SkipCase
        elif hostile and k == len(pairs) - 1:
            v, what = BAD[(i // 3 - i // 12) % len(BAD)]
            for q in d["has"]:
                d["has"][q] = True
            bad = this = (v, what, int(rng.integers(1 << 30)))
        write(d, os.path.join(m.tmp, "f%d.nc" % k), rng, this)
        files.append(d)
        q = k + 1
        job["matchup(%d,:)" % q] = [a, b]
        job["matchup_datasets(%d)" % q] = "f%d.nc" % k
        job["matchup_names(%d)" % q] = d["name"]
        if d["step"] != 1 or rng.random() < .5:
            job["matchup_samplings(%d)" % q] = d["step"]
        m.key("series", d["M"], d["step"], len(d["W"]), tuple(sorted(set(map(int, d["t1"])))), common)
    job["matchup_count"] = len(pairs)
    job["matchup_dataset_path"] = "./" if rng.random() < .5 else m.tmp + "/"
    namelist(job, os.path.join(m.tmp, "job.nml"))
    if rng.random() < (.7 if hostile else .4):
        namelist({"enable_log_level": 7 if hostile and rng.random() < .6 else int(rng.integers(0, 9)), "solver_max_iteration": 7}, os.path.join(m.tmp, "run.nml"), "run")
    script = ["config", "capacities"]
    for s in range(ns):
        script += ["s_add", native.line(["s%d" % s, 0, 0, sensors[s][0], 0, 0, 0]), "", ""]
    for k in range(len(pairs)):
        script += ["read", str(k + 1)]
    script += ["m_dump", "dump"]
    m.sample(pairs=str(pairs), sizes=[(d["M"], d["step"], d["m"], len(d["W"])) for d in files], common=common, bad=bad and bad[:2])
    r = native.vdrv("\n".join(script) + "\n", m.tmp)
    m.check(r.memory_error is None, "memory error or undefined behaviour in the native reader", what=r.memory_error, bad=bad)
    if bad:
        m.check(r.reported, "unacceptable data were not refused", variable=bad[0], value=bad[1], what=r.tail())
        m.saw("unacceptable values offered")
        m.key("bad", bad[0], bad[1])
        return
    m.check(r.rc == 0, "acceptable data were refused", what=r.tail())
    groups = native.parse(r.out)
    m.equal([g[0] for g in groups][-2:], ["m_dump", "dump"], "operations completed")
    compare(m, groups[-2][1], groups[-1][1], files, pairs, sensors, common)


def compare(m, reg, store, files, pairs, sensors, common):
    # ---- the matrix store, by kind
    mats, cur = {"b": [], "d": [], "v": [], "w": []}, None
    q = 0
    while q < len(store):
        key, val = store[q]
        if key in ("b", "d", "v"):
            n = 3 if key == "b" else 2
            mats[key].append([val[0]] + [x[1] for x in store[q + 1:q + n]])
            q += n
        elif key == "w":
            mats["w"].append(store[q:q + 4])
            q += 4
        else:
            q += 1
    m.equal([x[0] for x in reg][:1], ["matchups"], "registry report")
    m.equal(reg[0][1][1], len(files), "number of series")
    per = (len(reg) - 1) // max(len(files), 1)
    used = {"b": set(), "d": set(), "vw": set()}
    start = 1
    for k, (d, (a, b)) in enumerate(zip(files, pairs)):
        g = dict(reg[1 + per * k:1 + per * (k + 1)])
        s = d["step"]
        sl = slice(None, None, s)
        n = len(range(0, d["M"], s))
        tag = "of series %d" % (k + 1)
        m.equal(g["m.name"].rstrip(), d["name"], "name " + tag)
        m.equal(g["m.uuid"].rstrip(), d["uuid"], "UUID " + tag)
        ri, rj = sensors[a - 1][0], sensors[b - 1][0]
        m.equal(g["m"][:7], [a, b, n, ri, rj, start, start + n - 1], "sensors, number of match-ups, columns, index range " + tag)
        start += n
        zero = np.zeros(n)
        K = d["K"][sl].astype(float) if d["has"]["K"] else zero
        kr = d["Kr"][sl].astype(float) if d["has"]["Kr"] else zero + 1
        ks = d["Ks"][sl].astype(float) if d["has"]["Ks"] else zero
        m.close(g["m.hi"], zero, "first sensor's measurand " + tag)
        m.close(g["m.vhi"], zero, "first sensor's measurand variance " + tag)
        m.close(g["m.hj"], K, "K " + tag, rtol=2e-7)
        m.close(g["m.vhj"], kr ** 2 + ks ** 2, "K variance " + tag, rtol=2e-6)
        for side, sen, p in ((1, a, "i"), (2, b, "j")):
            r, sel = sensors[sen - 1]
            mm = d["m"][side - 1]
            wh = "of sensor %d %s" % (side, tag)
            us = d["Us%d" % side] if d["has"]["Us%d" % side] else np.zeros((d["M"], mm))
            ur = d["Ur%d" % side] if d["has"]["Ur%d" % side] else np.zeros((d["M"], mm))
            both = np.hstack([d["X%d" % side], us])
            q_ = np.array([both[sl, c - 1] for c in sel])
            m.close(g["m.q" + p], q_.ravel(), "measurements " + wh, rtol=2e-7)
            m.close(g["m.t" + p], d["time%d" % side][sl], "times " + wh, rtol=1e-15)
            m.equal(g["m.p" + p], [int(x) for x in d["p%d" % side][sl]] if d["has"]["across_track_index%d" % side] else [0] * n,
                    "across-track positions " + wh)
            ty, ic, iv, iw = [], g["m.%sc" % p], g["m.%sv" % p], g["m.%sw" % p]
            for l, c in enumerate(sel):
                t = 0 if c > mm else int(d["t%d" % side][c - 1])
                t = {4: 3, 2: 2 if common else 1}.get(t, t)
                ty.append(t)
                m.key("column", t, c > mm, common, s > 1)
                if t in (1, 2):
                    m.check(iv[l] == 0 and iw[l] == 0, "independent covariate with a weighting matrix " + wh, column=c)
                    kind = "b" if t == 2 else "d"
                    if not m.check(1 <= ic[l] <= len(mats[kind]), "no covariance for the covariate " + wh, column=c, index=ic[l]):
                        continue
                    mat = mats[kind][ic[l] - 1]
                    m.close(mat[1], ur[sl, c - 1].astype(float) ** 2, "squared random uncertainty of column %d %s" % (c, wh), rtol=2e-6)
                    if kind == "b":
                        m.close(mat[2], us[sl, c - 1], "systematic uncertainty of column %d %s" % (c, wh), rtol=2e-7)
                    used[kind].add(ic[l])
                elif t == 3:
                    m.equal(ic[l], 0, "structured covariate with a diagonal covariance " + wh)
                    if not m.check(1 <= iv[l] <= len(mats["v"]) and 1 <= iw[l] <= len(mats["w"]), "no matrices for the structured covariate " + wh,
                                   column=c, v=iv[l], w=iw[l]):
                        continue
                    u = d["U"][d["uuse%d" % side][c - 1] - 1]
                    w = d["W"][d["wuse%d" % side][c - 1] - 1]
                    m.close(mats["v"][iv[l] - 1][1], u.astype(float) ** 2, "squared uncertainty vector of column %d %s" % (c, wh), rtol=2e-6)
                    check_banded(m, mats["w"][iw[l] - 1], "w", {"rows": w[::s], "n": 0}, n_exact=False)
                else:
                    m.equal([ic[l], iv[l], iw[l]], [0, 0, 0], "covariance of a common-uncertainty column " + wh)
            m.equal(g["m.u" + p], ty, "uncertainty types " + wh)
        m.saw("series compared")
        m.saw("match-ups compared", n)
