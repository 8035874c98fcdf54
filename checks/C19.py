"""C19: AVHRR match-up files in the producer's layout converted with the real tool; every file written is read back with netCDF4 and compared with the kept rows of the
input, the windows recomputed from the kept match-ups' times, and the directory its channel, parameterisation and uncertainty treatment ask for."""
import contextlib
import io
import os
import sys

import numpy as np
import winref
from netCDF4 import Dataset

PROP = "C19"
RULE = ("1-3 files of 1-40 match-ups each converted into one directory; any mix of the three channels, reference and sensor pairs, every pair of known sensors; kernels of 1-13 scanlines, "
        "missing scanline uncertainties in none to all but one match-up, temperature limit or none; non-trivial when match-ups are dropped")
N = {"quick": 90, "thorough": 2500}
BUDGET = {"quick": 150, "thorough": 600}
CASE_S = 60
FILES = ["tools/AVHRR_to_updated_spec.py", "tools/W_matrix_functions.py"]
NEED = ["conversion", "reference", "pair", "37", "11", "12", "limit", "no limit", "dropped by uncertainty", "dropped by temperature", "additional", "channels together", "checker passed",
        "below limit kept without limit", "unsorted", "places there", "converted again"]
NAMES = {-12: "aatsr", -11: "atsr2", -10: "atsr1", -1: "m02", 19: "n19", 18: "n18", 17: "n17", 16: "n16", 15: "n15", 14: "n14", 12: "n12", 11: "n11", 10: "n10", 9: "n09", 8: "n08", 7: "n07"}
NEW = {"latitude": "lat2", "longitude": "lon2", "satza": "vza2", "solza": "sza2", "BT": "nominal_measurand2", "ref_latitude": "lat1", "ref_longitude": "lon1", "ref_satza": "vza1",
       "ref_solza": "sza1", "ref_BT": "nominal_measurand1"}
tool = None


def setup():
    global tool
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    import AVHRR_to_updated_spec as tool


class Reading:
    """Hands the wrapped object on, with numbers for scalars, as the netCDF4 library did when the tool was written."""

    def __init__(self, held):
        self._held = held

    def __getattr__(self, name):
        return getattr(self._held, name)

    def __getitem__(self, key):
        v = self._held[key]
        return v[()].item() if getattr(v, "shape", None) == () else v


def Plain(path, mode="r", *a, **k):
    ds = Dataset(path, mode, *a, **k)
    if mode != "r":
        return ds
    r = Reading(ds)
    r.variables = {n: Reading(v) for n, v in ds.variables.items()}
    return r


@contextlib.contextmanager
def plain_reading():
    import netCDF4
    held = [(o, n, v) for o in (tool, netCDF4) for n, v in list(vars(o).items()) if v is Dataset]
    for o, n, _ in held:
        setattr(o, n, Plain)
    try:
        yield
    finally:
        for o, n, v in held:
            setattr(o, n, v)


class Names(dict):
    """The additional variables, with the brightness temperatures also found under the name the limit asks for."""

    def __missing__(self, key):
        if key != "BT11":
            raise KeyError(key)
        return self["BT"]


@contextlib.contextmanager
def names_known():
    read = tool.read_matchup_data
    tool.read_matchup_data = lambda *a, **k: tuple(Names(v) if isinstance(v, dict) else v for v in read(*a, **k))
    try:
        yield
    finally:
        tool.read_matchup_data = read


def convert(m, path, out, d):
    """Runs the converter, past the defects known of it."""
    args = [path, out] + ([] if d["lim"] is None else [d["lim"]])

    def run():
        try:
            tool.main(*args)
        except KeyError as e:
            if d["lim"] is None or e.args != ("BT11",):
                raise
            m.fail("conversion with a temperature limit: %r" % e, finding="avhrr-limit")
            with names_known():
                tool.main(*args)
    try:
        run()
    except TypeError as e:
        if "unhashable" not in str(e):
            raise
        m.fail("conversion of a file with sensor IDs %s: %r" % (d["s"], e), finding="avhrr-ids")
        with plain_reading():
            run()


def make(rng, m, path, ref, band):
    n = int(rng.choice([1, 3, 10, 40, 400], p=[.245] * 4 + [.02]))
    k = int(rng.integers(1, 14))
    ids = sorted(NAMES)
    d = {"n": n, "k": k, "ref": ref, "band": band, "s": tuple(int(v) for v in rng.permutation(ids)[:2])}
    d["H"] = np.cumsum(rng.uniform(.5, 2, (n, 10)), axis=0) * np.array([1, 1, 1, .1, .1] * 2) + 1
    d["Ur"], d["Us"] = rng.uniform(.1, 1, (n, 10)), rng.uniform(.1, 1, (n, 10))
    d["Us"][:, [0, 1, 2, 5, 6, 7]] = 0
    if ref:
        d["H"][:, 1:5] = np.nan
        d["Ur"][:, 1:5] = d["Us"][:, 1:5] = np.nan
        d["Us"][:, 0] = .2
    d["K"], d["Kr"], d["Ks"] = rng.normal(size=n), rng.uniform(.1, 1, n), rng.uniform(0, 1, n)
    t0 = float(rng.integers(0, 1400000000))
    d["u"] = []
    for s in (0, 1):
        pos = np.cumsum(rng.integers(0, k + 3, n))
        if rng.random() < .3:
            rng.shuffle(pos)
            m.saw("unsorted")
        far = 40000 * rng.integers(0, 4) if rng.random() < .2 else 0
        off = rng.uniform(-.2, .2, n) if rng.random() < .3 else np.zeros(n)
        last = pos >= np.median(pos) + k
        d["t%d" % s] = t0 + (pos + np.where(last, far, 0) + off) * .5 + 3 * s
        for c in (0, 1):
            lines = rng.uniform(.1, 2, pos.max() + k)
            d["u"].append(np.array([lines[p:p + k] for p in pos]))
    if ref:
        d["u"][0][:], d["u"][1][:] = 0, 0
    keep = int(rng.integers(n))                              # one match-up at least stays
    bad = rng.random(n) < rng.choice([0, .2, .6])
    bad[keep] = False
    for r in np.flatnonzero(bad):
        for q in (2, 3) if ref else rng.permutation(4)[:int(rng.integers(1, 4))]:
            a, b = sorted(rng.integers(0, k + 1, 2))
            d["u"][q][r, a:b + (a == b)] = np.nan            # scanlines missing anywhere in the window
            if a == b == k:
                d["u"][q][r, k - 1] = np.nan
            if rng.random() < .5:
                break
    d["bad"] = np.array([any(np.isnan(u[r]).any() for u in d["u"]) for r in range(n)])
    d["extra"] = {"BT": rng.uniform(200, 310, n), "ref_BT": rng.uniform(200, 310, n)}
    for e in ("latitude", "longitude", "satza", "solza"):
        for p in ("", "ref_"):
            if rng.random() < .7:
                d["extra"][p + e] = rng.uniform(-80, 80, n)
                m.saw("additional")
    d["lim"] = None
    if rng.random() < .5:
        d["lim"] = float(rng.uniform(200, d["extra"]["BT"][keep]))
        if rng.random() < .3:
            d["lim"] = float(d["extra"]["BT"][keep])         # the limit itself is not below it
    f = str(rng.choice(["f4", "f8"]))
    d["f"] = f
    if d["lim"] is not None and f == "f4":
        d["lim"] = min(d["lim"], float(np.float32(d["extra"]["BT"][keep])))
    ds = Dataset(path, "w")
    ds.createDimension("M", n)
    ds.createDimension("col", 10)
    ds.createDimension("k", k)
    ds.createDimension("pair", 1)
    ds.createDimension("lmc", 3)
    for v in ("H", "Us", "Ur"):
        ds.createVariable(v, f, ("M", "col"))[:] = d[v]
    for v in ("K", "Kr", "Ks"):
        ds.createVariable(v, f, ("M",))[:] = d[v]
    ds.createVariable("lm", "i4", ("pair", "lmc"))[:] = np.array([d["s"] + (n,)])
    ds.createVariable("ref_time_matchup", "f8", ("M",))[:] = d["t0"]
    ds.createVariable("time_matchup", "f8", ("M",))[:] = d["t1"]
    for v, u in zip(("ref_cal_Sp_Ur", "ref_cal_BB_Ur", "cal_Sp_Ur", "cal_BB_Ur"), d["u"]):
        ds.createVariable(v, f, ("M", "k"))[:] = u
    for e, a in d["extra"].items():
        ds.createVariable(e + (str(band) if e.endswith("BT") else ""), f, ("M",))[:] = a
    if rng.random() < .3:
        ds.createVariable("scan", "i4", ("M",))[:] = np.arange(n)
    ds.close()
    if d["f"] == "f4":                                       # what the file holds
        for v in ("H", "Us", "Ur", "K", "Kr", "Ks"):
            d[v] = d[v].astype("f4").astype("f8")
        d["u"] = [u.astype("f4").astype("f8") for u in d["u"]]
        d["extra"] = {e: a.astype("f4").astype("f8") for e, a in d["extra"].items()}
    return d


def verify(m, out, name, d, what):
    n, k, ref, band = d["n"], d["k"], d["ref"], d["band"]
    valid = ~d["bad"]
    if d["lim"] is not None:
        cold = d["extra"]["BT"] < d["lim"]
        if (cold & valid).any():
            m.saw("dropped by temperature")
        valid = valid & ~cold
    if d["bad"].any():
        m.saw("dropped by uncertainty")
    M = int(valid.sum())
    f4 = lambda a: np.asarray(a).astype("f4")
    H, Ur, Us = d["H"], d["Ur"].copy(), d["Us"].copy()
    Ur[:, [5, 6] if ref else [0, 1, 5, 6]] = 0
    if ref:
        Us[:, 0] = 0
    t = [d["t0"][valid], d["t1"][valid]]
    u = [a[valid] for a in d["u"]]
    sides = [1] if ref else [0, 1]
    D = [winref.dense(t[s], .5, np.full(k, 1. / k)) for s in sides]
    U = [winref.per_line(t[s], .5, u[2 * s + c]) for s in sides for c in (0, 1)]
    no = {3: 105, 4: 106} if band == 37 else {3: 101, 4: 102}
    for par in (3, 4):
        m1, m2 = (1 if ref else par + 1), par + 1
        for how in ("RSW_", "R_W_", "R___"):
            path = os.path.join(out, "AVHRR_REAL_%d_%s" % (no[par], how), name)
            w = what + "%d parameters, %s: " % (par, how)
            other = os.path.join(out, "AVHRR_REAL_%d_%s" % (no[par] - 4, how), name)
            if band == 37 and not os.path.exists(path) and os.path.exists(other):
                m.fail(w + "3.7 um file among the other channels', at " + other[len(out):], finding="avhrr-37-directories")
                path = other
            if not m.check(os.path.exists(path), w + "file written at " + path[len(out):]):
                continue
            ds = Dataset(path)
            V = ds.variables
            m.equal([ds.sensor_1_name, ds.sensor_2_name], [NAMES[d["s"][0]], NAMES[d["s"][1]]], w + "sensors")
            m.equal([ds.dimensions[q].size for q in ("M", "m1", "m2")], [M, m1, m2], w + "match-ups and columns")
            if not m.equal([V[q].shape for q in ("X1", "X2")], [(M, m1), (M, m2)], w + "shape"):
                ds.close()
                continue
            for s, ms, o in ((1, m1, 0), (2, m2, 5)):
                avg = s == 2 or not ref
                m.close(V["X%d" % s][:], f4(H[valid, o:o + ms]), w + "X%d" % s, rtol=0)
                ur = Ur[valid, o:o + ms].copy()
                if how == "R___" and avg:
                    q = (0 if s == 1 else len(sides) - 1)
                    for c in (0, 1):
                        ur[:, c] = D[q] @ U[2 * q + c]
                m.close(V["Ur%d" % s][:], f4(ur), w + "Ur%d" % s, rtol=3e-7)
                us = Us[valid, o:o + ms] if how == "RSW_" else np.zeros((M, ms))
                m.close(V["Us%d" % s][:], f4(us), w + "Us%d" % s, rtol=0)
                ty = {"RSW_": [3, 3, 1, 2, 2], "R_W_": [3, 3, 1, 1, 1], "R___": [1] * 5}[how][:ms] if avg else [1]
                m.equal([int(x) for x in V["uncertainty_type%d" % s][:]], ty, w + "uncertainty types of sensor %d" % s)
                m.close(V["time%d" % s][:], t[s - 1], w + "time%d" % s, rtol=0)
                To = "To%d" % s
                m.check((To in V) == (ms == 4), w + To + " in the file")
                if To in V and ms == 4:
                    m.close(V[To][:], f4(H[valid, o + 4]), w + To, rtol=0)
            for q in ("K", "Kr", "Ks"):
                m.close(V[q][:], f4(d[q][valid]), w + q, rtol=0)
            m.equal([int(x) for x in V["original_indices"][:]] if "original_indices" in V else None, [int(x) for x in np.flatnonzero(valid)], w + "original indices")
            for e, a in d["extra"].items():
                if m.check(NEW[e] in V, w + NEW[e] + " in the file"):
                    m.close(V[NEW[e]][:], a[valid], w + NEW[e], rtol=1e-7)
            m.check(("w_matrix_val" in V) == (how != "R___"), w + "weighting matrices")
            if how != "R___" and "w_matrix_val" in V:
                W_, U_ = winref.stored(ds)
                m.equal([x.shape for x in W_], [x.shape for x in D], w + "matrix shapes")
                m.equal([len(x) for x in U_], [len(x) for x in U], w + "uncertainty vector lengths")
                for q in range(len(D)):
                    m.close(W_[q], D[q], w + "weights", rtol=1e-6)
                for q in range(len(U)):
                    m.close(U_[q], f4(U[q]), w + "scanline uncertainties", rtol=0)
                z = [0, 0, 0]
                uses = {"w1": [0] if ref else [1, 1] + z, "w2": [1, 1] + z if ref else [2, 2] + z, "u1": [0] if ref else [1, 2] + z, "u2": [1, 2] + z if ref else [3, 4] + z}
                for q in uses:
                    m.equal([int(x) for x in V["%s_matrix_use%s" % (q[0], q[1])][:]], uses[q][:m1 if q[1] == "1" else m2], w + "use of " + q)
            ds.close()
    return 6, M


def case(m, rng, i):
    out = os.path.join(m.tmp, "out")
    os.makedirs(out)
    if rng.random() < .3:                                    # some of the places there already
        for no in (101, 102, 105, 106):
            for how in ("RSW_", "R_W_", "R___"):
                if rng.random() < .4:
                    os.makedirs(os.path.join(out, "AVHRR_REAL_%d_%s" % (no, how)))
        m.saw("places there")
    files = []
    for k in range(int(rng.integers(1, 4))):
        ref, band = bool(rng.random() < .5), int(rng.choice([37, 11, 12]))
        name = "mta_mmd_%d_%d_b%d.nc" % (i, k, band)
        path = os.path.join(m.tmp, name)
        d = make(rng, m, path, ref, band)
        m.saw("reference" if ref else "pair")
        m.saw(str(band))
        m.saw("no limit" if d["lim"] is None else "limit")
        if d["lim"] is None:
            m.saw("below limit kept without limit")
        files.append((name, path, d))
    if len({d["band"] for _, _, d in files}) > 1:
        m.saw("channels together")
    m.key(tuple((d["n"], d["k"], d["ref"], d["band"], d["s"], int(d["bad"].sum())) for _, _, d in files))
    texts, held = [], []
    for name, path, d in files:
        held.append(open(path, "rb").read())
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
            convert(m, path, out, d)
        texts.append(buf.getvalue())
        if rng.random() < .08:                               # again, over what it wrote
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                convert(m, path, out, d)
            m.saw("converted again")
        m.saw("conversion")
    total = 0
    for (name, path, d), text, h in zip(files, texts, held):
        what = "%s %s, %d match-ups, kernel of %d, limit %s: " % (name, "reference pair" if d["ref"] else "sensor pair", d["n"], d["k"], d["lim"])
        k, M = verify(m, out, name, d, what)
        total += k
        m.trivial = M == d["n"]
        m.check(open(path, "rb").read() == h, what + "input file stays as it was")
        m.equal(text.count("Test Passed"), 6, what + "files passing the file checker")
        m.saw("checker passed", text.count("Test Passed"))
    found = sorted(os.path.relpath(os.path.join(r, f), out) for r, _, fs in os.walk(out) for f in fs)
    m.equal(len(found), total, "files written: %s" % found)
