"""C29: generated data sets in the PMH text format given to the real converter; every file it writes is read back with netCDF4 and by the package's own reader and compared
with the text's numbers and with rolling averages stated independently."""
import contextlib
import io
import logging
import os
import subprocess
import sys

import numpy as np
from netCDF4 import Dataset
from scipy.sparse import csr_matrix

PROP = "C29"
RULE = ("1-5 series of 2-60 match-ups, equal and differing sizes, 1-4 covariates of random, systematic and moving-average kinds, with and without reference series, windows of 1-79 lines; "
        "incomplete directories, differing windows or unknown kinds; non-trivial with series of differing sizes and moving averages")
N = {"quick": 260, "thorough": 8000}
BUDGET = {"quick": 150, "thorough": 400}
FILES = ["tools/pmh2fiduceo.py"]
NEED = ["converted", "reference", "no reference", "names beginning with 0", "random", "systematic", "averages", "no averages", "sizes differ", "two averages", "missing file", "missing directory", "differing windows",
        "differing uncertainties", "unknown kind", "program", "output made", "single match-up", "window longer than a series", "read by the package"]
tool = None


def setup():
    global tool
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    old = sys.argv
    sys.argv = ["pmh2fiduceo", "--quiet"]
    try:
        import pmh2fiduceo as tool
    finally:
        sys.argv = old
    tool.logger.handlers[:] = []
    tool.logger.setLevel(logging.ERROR)


def num(r, lo, hi):
    return float("%.6g" % r.uniform(lo, hi))


def make(m, rng, d, kinds=None):
    n = int(rng.integers(1, 6))
    names = [str(k) for k in rng.permutation(np.arange(1, 12))[:n + 1]]
    if rng.random() < .3:                                       # names beginning like the reference's
        names = ["0" + k for k in names]
        m.saw("names beginning with 0")
    if rng.random() < .6:
        names = ["0"] + names[:n]
        m.saw("reference")
    else:
        m.saw("no reference")
    Im = [(names[int(rng.integers(0, k + 1))], names[k + 1]) for k in range(n)]
    equal = rng.random() < .3
    Nm = [int(rng.integers(2, 61)) if rng.random() < .98 else int(rng.integers(200, 1100)) for _ in range(n)]
    if n > 1 and rng.random() < .2:                             # a series of a single match-up
        Nm[int(rng.integers(n))] = 1
        m.saw("single match-up")
    if equal:
        Nm = [max(Nm)] * n
    nX = int(rng.integers(1, 5)) if rng.random() < .9 else int(rng.integers(5, 13))
    if kinds is None:
        kinds = [str(rng.choice(["R", "RS", "MA"])) for _ in range(nX)]
    nX = len(kinds)
    lo = 10. ** float(rng.integers(-9, 5)) if rng.random() < .3 else 1.
    uR = [num(rng, .01 * lo, 2 * lo) for _ in kinds]
    uS = [num(rng, .01 * lo, 2 * lo) if k == "RS" else 0. for k in kinds]
    nW = [0] * nX
    if "MA" in kinds:
        q = kinds.index("MA")
        w = int(rng.integers(1, 10)) if rng.random() < .8 else int(rng.integers(10, 80))
        if w > min(Nm):
            m.saw("window longer than a series")
        for j, k in enumerate(kinds):
            if k == "MA":
                uR[j], nW[j] = uR[q], w
    H = np.round(rng.normal(0, 100, (sum(Nm), 2 * nX + 1)), 7)
    if rng.random() < .3:
        H = np.array([[float("%.10g" % v) for v in row] for row in H * 10. ** rng.integers(-12, 9, H.shape[1])])
    p = {"Im": Im, "Nm": Nm, "kinds": kinds, "uR": uR, "uS": uS, "nW": nW, "H": H, "ref": num(rng, .01 * lo, 2 * lo), "Kr": num(rng, .01 * lo, 2 * lo),
         "a": rng.normal(0, 1, (n + 1, int(rng.integers(1, 4)))) * 10. ** float(rng.integers(-12, 6))}
    return p


def write(rng, p, d):
    os.mkdir(d)
    np.savetxt(os.path.join(d, "data_vals.txt"), p["H"], fmt="%.10g")
    sep = str(rng.choice([" ", "   ", "\t"]))
    with open(os.path.join(d, "data_pams.txt"), "w") as f:
        f.write("Im\n" + "".join(sep.join(s) + "\n" for s in p["Im"]))
        f.write("Nm\n" + "".join("%d\n" % k for k in p["Nm"]))
        f.write("atrue\n" + "".join(sep.join("%.17g" % v for v in r) + "\n" for r in p["a"]))
    with open(os.path.join(d, "data_uncs.txt"), "w") as f:
        f.write("Reference uncertainty R:\n%r\n" % p["ref"])
        for j, k in enumerate(p["kinds"]):
            f.write("Covariate %d %s:\n" % (j + 1, k))
            f.write({"R": "%r\n" % p["uR"][j], "RS": "%r%s%r\n" % (p["uR"][j], sep, p["uS"][j])}.get(k, "%r%s%d\n" % (p["uR"][j], sep, p["nW"][j])))
        f.write("K uncertainty R:\n%r\n" % p["Kr"])


def run(m, inp, out, program=False):
    if program:
        m.saw("program")
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(os.environ["VERIF_TREE"], "tools", "pmh2fiduceo.py"), "-i", inp, "-o", out], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=os.path.join(os.environ["VERIF_TREE"], "tools")))
        if r.returncode:
            raise IOError("program ends with %d: %s" % (r.returncode, r.stderr[-400:]))
        return

    class A:
        input_directory, output_directory = inp, out
    tool.main(A)


def refusals(m, rng, i):
    inp, out = os.path.join(m.tmp, "in"), os.path.join(m.tmp, "out")
    kind = str(rng.choice(["missing file", "missing directory", "differing windows", "differing uncertainties", "unknown kind"]))
    m.saw(kind)
    p = make(m, rng, inp, ["MA", "R", "MA"] if kind.startswith("differing") else ["R", "XX"] if kind == "unknown kind" else None)
    m.key(kind, len(p["Im"]))
    if kind == "differing windows":
        p["nW"][2] += 1
    if kind == "differing uncertainties":
        p["uR"][2] *= 2
    if kind != "missing directory":
        write(rng, p, inp)
    if kind == "missing file":
        os.remove(os.path.join(inp, str(rng.choice(["data_vals.txt", "data_pams.txt", "data_uncs.txt"]))))
    m.raises(lambda: run(m, inp, out), "a PMH data set with %s" % kind)
    if kind.startswith("missing"):
        m.check(not os.path.exists(out), "%s: output made although nothing can be converted" % kind)


def case(m, rng, i):
    if i % 8 == 5:
        return refusals(m, rng, i)
    inp, out = os.path.join(m.tmp, "in"), os.path.join(m.tmp, "out")
    p = make(m, rng, inp)
    write(rng, p, inp)
    before = {f: open(os.path.join(inp, f), "rb").read() for f in os.listdir(inp)}
    if rng.random() < .5:
        os.mkdir(out)
    else:
        m.saw("output made")
    ma = [j for j, k in enumerate(p["kinds"]) if k == "MA"]
    m.key(tuple(p["kinds"]), len(p["Im"]), len(set(p["Nm"])), p["Im"][0][0] == "0")
    m.trivial = not ma or len(set(p["Nm"])) == 1
    for k in p["kinds"]:
        m.saw({"R": "random", "RS": "systematic", "MA": "averages"}[k])
    if not ma:
        m.saw("no averages")
    if len(ma) > 1:
        m.saw("two averages")
    if len(set(p["Nm"])) > 1:
        m.saw("sizes differ")
    what = "%d series of %s match-ups, covariates %s: " % (len(p["Im"]), p["Nm"], " ".join(p["kinds"]))
    run(m, inp, out, program=i % 40 == 0)
    m.saw("converted")
    m.equal(sorted(os.listdir(out)), sorted(["_".join(s) + ".nc" for s in p["Im"]] + ["atrue.txt"]), what + "files written")
    m.equal({f: open(os.path.join(inp, f), "rb").read() for f in os.listdir(inp)} == before, True, what + "input left as it was")
    m.close(np.loadtxt(os.path.join(out, "atrue.txt"), ndmin=2).reshape(p["a"].shape), p["a"], what + "true parameters", rtol=1e-12)
    o, nX = 0, len(p["kinds"])
    ty = [{"R": 1, "RS": 2, "MA": 3}[k] for k in p["kinds"]]
    for pair, n in zip(p["Im"], p["Nm"]):
        H = p["H"][o:o + n]
        o += n
        with Dataset(os.path.join(out, "_".join(pair) + ".nc")) as ds:
            w = what + "%s: " % "_".join(pair)
            m.equal((ds.sensor_1_name, ds.sensor_2_name), pair, w + "sensors")
            v = {k: np.ma.filled(np.ma.asarray(ds.variables[k][:], dtype=float), np.nan) for k in ds.variables}
        for side in (1, 2):
            ref = side == 1 and pair[0] == "0"
            cols = [0] if ref else range(nX)
            m.close(v["X%d" % side], H[:, [0] if ref else [nX * (side - 1) + c for c in cols]], w + "X%d" % side, rtol=1e-12)
            m.equal([int(t) for t in v["uncertainty_type%d" % side]], [1] if ref else ty, w + "uncertainty types of sensor %d" % side)
            ur = [p["ref"]] if ref else [0. if k == "MA" else u for k, u in zip(p["kinds"], p["uR"])]
            m.close(v["Ur%d" % side], np.tile(ur, (n, 1)), w + "Ur%d" % side, rtol=1e-12)
            m.close(v["Us%d" % side], np.tile([0.] if ref else p["uS"], (n, 1)), w + "Us%d" % side, rtol=1e-12)
            if ma:
                uses = [0] if ref else [int(k == "MA") for k in p["kinds"]]
                m.equal([int(t) for t in v["w_matrix_use%d" % side]], uses, w + "matrices used by sensor %d" % side)
                m.equal([int(t) for t in v["u_matrix_use%d" % side]], uses, w + "vectors used by sensor %d" % side)
        m.close(v["K"], H[:, -1], w + "K", rtol=1e-12)
        m.close(v["Kr"], np.full(n, p["Kr"]), w + "Kr", rtol=1e-12)
        m.close(v["Ks"], np.zeros(n), w + "Ks")
        m.close(v["time1"], v["time2"], w + "times of both sensors", rtol=0)
        m.close(np.diff(v["time1"]), np.ones(n - 1), w + "one scanline between match-ups", rtol=0)
        if not ma:
            m.check(not any(k.startswith(("w_matrix", "u_matrix")) for k in v), w + "no matrices without moving averages")
            continue
        k = p["nW"][ma[0]]
        m.equal([int(t) for t in v["w_matrix_nnz"]], [n * k], w + "weights stored")
        ptr = np.asarray(v["w_matrix_row"], int)
        m.equal(ptr.shape, (1, n + 1), w + "row pointers")
        W = csr_matrix((v["w_matrix_val"], np.asarray(v["w_matrix_col"], int), ptr[0]), shape=(n, n + k - 1)).toarray()
        want = np.array([[1. / k if r <= c < r + k else 0. for c in range(n + k - 1)] for r in range(n)])
        m.close(W, want, w + "weights: averages of %d lines" % k, rtol=1e-6)
        m.equal([int(t) for t in v["u_matrix_row_count"]], [n + k - 1], w + "lines averaged")
        m.close(v["u_matrix_val"], np.full(n + k - 1, p["uR"][ma[0]]), w + "uncertainty of each line", rtol=1e-6)
    if i % 4 == 0:
        m.saw("read by the package")
        from harmonisation import open_matchup
        os.remove(os.path.join(out, "atrue.txt"))
        mu = open_matchup(out)
        m.equal(int(mu.idx["cNm"][-1]), sum(p["Nm"]), what + "match-ups opened")
        m.equal(sorted(int(k) for k in mu.idx["Nm"]), sorted(p["Nm"]), what + "series opened")
        m.close(np.sort(mu.ks), np.sort(p["H"][:, -1]), what + "K opened", rtol=1e-6)
