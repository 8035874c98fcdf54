"""C20: microwave match-up files given to the real tool, single files and whole directories; the copy is read back with netCDF4 and compared with the input and with the
calibration windows recomputed per scanline from each sensor's own times."""
import contextlib
import io
import os
import sys

import numpy as np
import winref
from netCDF4 import Dataset

PROP = "C20"
RULE = ("directories of 1-3 files of 1-40 match-ups: every pair of AMSU-B, MHS and reference sensors, times of the two sensors on independent scanline grids, single or double precision; "
        "non-trivial when the two sensors' windows differ")
N = {"quick": 150, "thorough": 4000}
BUDGET = {"quick": 150, "thorough": 500}
FILES = ["tools/MW_add_W_matrices.py", "tools/W_matrix_functions.py"]
KIND = {"15": "AMSUB", "16": "AMSUB", "17": "AMSUB", "19": "MHS", "ma": "MHS", "mb": "MHS", "18": "ref"}
NAVG = {"AMSUB": 9, "MHS": 7, "ref": 0}
NEED = ["conversion", "directory", "one file", "checker passed", "other widths", "unknown sensor", "extra", "far apart", "off the grid", "many match-ups", "over earlier output"] + [a + "-" + b for a in ("AMSUB", "MHS", "ref") for b in ("AMSUB", "MHS")]
WGT = np.array([1, 2, 3, 4, 3, 2, 1]) / 16.
DT = 8. / 3.
NAMES = ["mw_%d.nc", "mw_%d.nc", "%d.nc", "m%d", "MW18_ma_2012-01-%02d.v1.0.nc", "b match up %d.nc", "%d.NC", "mw_%d_new.nc4"]
tool = None


def setup():
    global tool
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    import MW_add_W_matrices as tool


def make(m, rng, path, n=None):
    k2 = str(rng.choice([q for q in KIND if KIND[q] != "ref"]))
    k1 = str(rng.choice([q for q in KIND if q != k2]))
    n = n or int(rng.choice([1, 3, 12, 40, 400], p=[.245] * 4 + [.02]))
    d = {"s": (k1, k2), "n": n, "m": tuple(1 if KIND[q] == "ref" else NAVG[KIND[q]] + 2 for q in (k1, k2))}
    m.saw(KIND[k1] + "-" + KIND[k2])
    t0 = float(rng.integers(0, 1400000000))
    v = {}
    for s in (1, 2):
        mm = d["m"][s - 1]
        v["X%d" % s] = rng.normal(size=(n, mm)) * 50 + 200
        v["Ur%d" % s] = np.tile(rng.uniform(.1, 2, mm), (n, 1))
        v["Ur%d" % s][:, NAVG[KIND[d["s"][s - 1]]]:] = rng.uniform(.1, 2, (n, mm - NAVG[KIND[d["s"][s - 1]]]))
        if mm > 1:
            v["Ur%d" % s][:, 3:mm - 2] = v["Ur%d" % s][:, 2:3]
        us = np.zeros((n, mm))
        if mm > 1:
            us[:, 2:mm - 2] = us[:, mm - 1:] = rng.uniform(.1, 1)
        v["Us%d" % s] = us
        pos = np.cumsum(rng.integers(0, 12, n))
        if rng.random() < .3:
            rng.shuffle(pos)
        pos = pos.astype(float)
        if rng.random() < .2:
            pos += 20000 * rng.integers(0, 4, n)
            m.saw("far apart")
        if rng.random() < .3:
            pos += rng.uniform(-.2, .2, n)
            m.saw("off the grid")
        v["time%d" % s] = t0 + 400 * s + pos * DT
    for q in ("K", "Kr", "Ks"):
        v[q] = rng.uniform(.1, 2, n)
    f = str(rng.choice(["f4", "f8"]))
    ds = Dataset(path, "w")
    ds.sensor_1_name, ds.sensor_2_name = k1, k2
    ds.comment = "made"
    for q, w in (("M", n), ("m1", d["m"][0]), ("m2", d["m"][1])):
        ds.createDimension(q, w)
    for q, a in v.items():
        ds.createVariable(q, "f8" if q[0] == "t" else f, ("M", "m" + q[-1]) if a.ndim == 2 else ("M",))[:] = a
    for s in (1, 2):
        ds.createVariable("uncertainty_type%d" % s, "i4", ("m%d" % s,))[:] = rng.integers(1, 3, d["m"][s - 1])
    if rng.random() < .5:
        ds.createVariable("nominal_BT1", "f4", ("M",))[:] = rng.normal(250, 20, n)
        m.saw("extra")
    ds.close()
    return d


def verify(m, src, dst, what):
    if not m.check(os.path.exists(dst), what + "file written"):
        return False
    a, b = Dataset(src), Dataset(dst)
    kinds = [KIND[a.sensor_1_name], KIND[a.sensor_2_name]]
    m.equal({q: a.getncattr(q) for q in a.ncattrs()}, {q: b.getncattr(q) for q in b.ncattrs()}, what + "attributes")
    for q in a.variables:
        if q not in ("Ur1", "Ur2", "uncertainty_type1", "uncertainty_type2"):
            m.check(q in b.variables and a.variables[q].dtype == b.variables[q].dtype and np.array_equal(a.variables[q][:], b.variables[q][:]), what + q + " stays as it was")
    t = [np.asarray(a.variables["time%d" % s][:]) for s in (1, 2)]
    sides = [s for s in (0, 1) if kinds[s] != "ref"]
    D = [winref.dense(t[s], DT, WGT) for s in sides]
    U, use = [], {"w1": [0], "u1": [0]}
    for q, s in enumerate(sides):
        ur = np.asarray(a.variables["Ur%d" % (s + 1)][0, :], float)
        U += [np.full(D[q].shape[1], ur[c]) for c in (0, 1, 2)]
        k = NAVG[kinds[s]]
        use["w%d" % (s + 1)] = [q + 1] * k + [0, 0]
        use["u%d" % (s + 1)] = [3 * q + 1, 3 * q + 2] + [3 * q + 3] * (k - 2) + [0, 0]
    for s in (0, 1):
        k = NAVG[kinds[s]]
        ur = np.asarray(a.variables["Ur%d" % (s + 1)][:]).copy()
        ur[:, :k] = 0
        m.close(b.variables["Ur%d" % (s + 1)][:], ur, what + "Ur%d" % (s + 1), rtol=0)
        ty = [3, 3] + [4] * (k - 2) + [1, 2] if k else [1]
        m.equal([int(x) for x in b.variables["uncertainty_type%d" % (s + 1)][:]], ty, what + "uncertainty types of sensor %d" % (s + 1))
    for q in use:
        v = "%s_matrix_use%s" % (q[0], q[1])
        m.equal([int(x) for x in b.variables[v][:]] if v in b.variables else None, use[q], what + v)
    W_, U_ = winref.stored(b)
    m.equal([x.shape for x in W_], [x.shape for x in D], what + "matrix shapes")
    m.equal([len(x) for x in U_], [len(x) for x in U], what + "uncertainty vector lengths")
    for q in range(min(len(D), len(W_))):
        m.close(W_[q], D[q], what + "weights of sensor %d" % (sides[q] + 1), rtol=1e-14)
    for q in range(min(len(U), len(U_))):
        m.close(U_[q], U[q], what + "uncertainty vector %d" % (q + 1), rtol=1e-14)
    a.close()
    b.close()
    return len(D) > 1 and D[0].shape != D[1].shape


def case(m, rng, i):
    src, dst = os.path.join(m.tmp, "in"), os.path.join(m.tmp, "out")
    os.makedirs(src)
    one = rng.random() < .4
    ds = []
    for k in range(1 if one else int(rng.integers(1, 4))):
        path = os.path.join(src, NAMES[int(rng.integers(len(NAMES)))] % k)
        ds.append((os.path.basename(path), make(m, rng, path, 1100 if i % 50 == 31 and k == 0 else None)))
        if ds[-1][1]["n"] > 1000:
            m.saw("many match-ups")
    held = {q: open(os.path.join(src, q), "rb").read() for q, _ in ds}
    m.key(tuple((d["s"], d["n"]) for _, d in ds))
    if i % 12 == 0:
        m.saw("unknown sensor")
        with Dataset(os.path.join(src, ds[0][0]), "a") as f:
            bad = int(rng.integers(1, 3))
            f.setncattr("sensor_%d_name" % bad, str(rng.choice(["xx", "18 ", "14"])) if bad == 1 else str(rng.choice(["xx", "18"])))
        with contextlib.redirect_stdout(io.StringIO()):
            m.raises(lambda: tool.run(os.path.join(src, ds[0][0]), os.path.join(m.tmp, "o.nc")), "unknown sensor refused", ValueError)
        m.check(not os.path.exists(os.path.join(m.tmp, "o.nc")), "no file written for an unknown sensor")
        return
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if one:
            m.saw("one file")
            os.makedirs(dst)
            tool.run(os.path.join(src, ds[0][0]), os.path.join(dst, ds[0][0]))
        else:
            m.saw("directory")
            if rng.random() < .5:
                os.makedirs(dst)
                if rng.random() < .5:       # what an earlier run of other data left
                    make(m, rng, os.path.join(dst, ds[0][0]))
                    m.saw("over earlier output")
            tool.main(src, dst)
    m.trivial = True
    for q, d in ds:
        m.saw("conversion")
        what = "%s %s, %d match-ups: " % (q, " and ".join("%s (%s)" % (x, KIND[x]) for x in d["s"]), d["n"])
        if verify(m, os.path.join(src, q), os.path.join(dst, q), what):
            m.saw("other widths")
            m.trivial = False
        m.check(open(os.path.join(src, q), "rb").read() == held[q], what + "input file stays as it was")
    m.equal(buf.getvalue().count("Test Passed"), len(ds), "files passing the file checker: " + buf.getvalue()[-600:])
    m.saw("checker passed", buf.getvalue().count("Test Passed"))
    m.equal(sorted(os.listdir(dst)), sorted(held), "files written")
