"""C18: the match-up file checker on sound files, as other processing writes them, and on files into which one or several faults were put, each of them breaking one
documented requirement. The monitor holds the verdict (return value and printed report) against the faults put in, and that the file stays byte for byte as it was."""
import contextlib
import io
import os
import re
import subprocess
import sys

import gen
import numpy as np
from harness import SkipCase
from netCDF4 import Dataset

PROP = "C18"
RULE = ("files of 1-30 match-ups, 1-5 covariates of all four uncertainty types, weighting matrices shared or not, single or double precision; sound (1 in 4), with one fault "
        "(1 in 2) or with 2-4 faults; faults cover every required variable, dimension, type, attribute and documented value rule; non-trivial when a fault is in the file")
N = {"quick": 1400, "thorough": 12000}
BUDGET = {"quick": 150, "thorough": 500}
FILES = ["tools/harmonisation_input_checker.py"]
REQ = ["X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2", "uncertainty_type1", "uncertainty_type2"]
WV = ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1", "u_matrix_use2"]
FAULTS = ["missing variable", "missing w variable", "missing attribute", "same sensors", "dtype", "dimension", "negative K", "zero K", "nan K", "negative U", "nan U", "type unknown",
          "type other", "type 1 systematic", "type 2 no systematic", "no random", "type 3 systematic", "type 4 no systematic", "structured random", "w use gap", "u use gap", "w without u",
          "u without w", "nnz", "w rows", "row count", "u value", "negative index", "unused w", "unused u", "u length", "u beyond", "empty w", "u use moved", "plain with w", "structured random 1", "structured random 2", "one w variable missing", "unused first w", "unused first u", "u length shared", "entries gone"]
NEED = ["sound", "far rows", "sound with w", "sound without w", "several faults", "process", "f4", "tiny uncertainties", "many covariates", "all of several named"] + ["fault: " + f for f in FAULTS]
FORMS = {1: "independent", 2: "independent+systematic", 3: "w-matrix", 4: "w-matrix+systematic"}
cell_faults = ["type 1 systematic", "type 2 no systematic", "no random", "type 3 systematic", "type 4 no systematic", "structured random", "structured random 1", "structured random 2", "plain with w"]
checker = None


def setup():
    global checker
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    import harmonisation_input_checker as checker


tiny = [0]


def small(rng, sign=1):
    return sign * float(rng.choice([.3, .1, 1e-3, 1e-7, 1e-12, 1e-30, 1e5]))


def sound(rng):
    """name -> (type, dims, values), dims -> size, attributes of a file that follows the format"""
    types = (1, 2, 3, 4) if rng.random() < .7 else (1, 2)
    d = gen.gen(rng, n_series=1, max_M=30 if rng.random() < .94 else 2500, types=types, max_m=5, f4=False, wide=.06)["series"][0]
    f = "f4" if rng.random() < .3 else "f8"
    M = d["M"]
    dims = {"M": M, "m1": d["m"][0], "m2": d["m"][1]}
    v = {}
    for s in (1, 2):
        ut, ur, us = d["ut%d" % s], d["Ur%d" % s].copy(), np.abs(d["Us%d" % s]).copy()
        for c, t in enumerate(ut):
            if t in (1, 3):
                us[:, c] = 0
            elif not (us[:, c] > 0).all():
                us[:, c] = .5
            ur[:, c] = 0 if t > 2 else np.where(ur[:, c] > 0, ur[:, c], .25)
        for n, a in (("X", d["X%d" % s]), ("Ur", ur), ("Us", us)):
            v["%s%d" % (n, s)] = [f, ("M", "m%d" % s), a]
        v["uncertainty_type%d" % s] = ["i4", ("m%d" % s,), np.array(ut)]
        v["time%d" % s] = ["f8", ("M",), d["time%d" % s]]
    for n in ("K", "Kr", "Ks"):
        v[n] = ["f8", ("M",), d[n].copy()]
    if rng.random() < .1:       # in units that make uncertainties small
        for n in ("Kr", "Ks"):
            v[n][2] *= 1e-30
        for n in ("Ur1", "Ur2", "Us1", "Us2"):
            v[n][2] *= 1e-20
        tiny[0] += 1
    z = rng.random(M) < .2
    v["Kr"][2][z], v["Ks"][2][z] = 0, .5                     # either of the two may be zero
    if rng.random() < .4:
        v["nominal_BT1"] = ["f8", ("M",), rng.normal(size=M)]
        v["note"] = ["i8", ("M",), np.arange(M)]
    if any((d["ut%d" % s] > 2).any() for s in (1, 2)):
        use = [int(q) for s in (1, 2) for q in d["use"]["w%d" % s] if q]
        uu = [int(q) for s in (1, 2) for q in d["use"]["u%d" % s] if q]
        wk, uk = sorted(set(use)), sorted(set(uu))
        ws, us = [d["W"][q - 1] for q in wk], [d["U"][q - 1] for q in uk]
        wn, un = {q: k + 1 for k, q in enumerate(wk)}, {q: k + 1 for k, q in enumerate(uk)}
        wn[0] = un[0] = 0
        dims.update(w_matrix_count=len(ws), w_matrix_row_count=M + 1, w_matrix_nnz_sum=sum(w.nnz for w in ws), u_matrix_count=len(us), u_matrix_row_count_sum=sum(len(u) for u in us))
        w = gen.w_vars({"W": ws, "U": us})
        for n, t, dd in (("w_matrix_nnz", "i4", ("w_matrix_count",)), ("w_matrix_row", "i4", ("w_matrix_count", "w_matrix_row_count")), ("w_matrix_col", "i4", ("w_matrix_nnz_sum",)),
                         ("w_matrix_val", f, ("w_matrix_nnz_sum",)), ("u_matrix_row_count", "i4", ("u_matrix_count",)), ("u_matrix_val", f, ("u_matrix_row_count_sum",))):
            v[n] = [t, dd, np.array(w[n])]
        for s in (1, 2):
            v["w_matrix_use%d" % s] = ["i4", ("m%d" % s,), np.array([wn[int(q)] for q in d["use"]["w%d" % s]])]
            v["u_matrix_use%d" % s] = ["i4", ("m%d" % s,), np.array([un[int(q)] for q in d["use"]["u%d" % s]])]
    return v, dims, {"sensor_1_name": d["s"][0], "sensor_2_name": d["s"][1]}


def put(rng, fault, v, dims, at):
    """Puts the fault into the file's description; returns a label of what was done, None when this file has no place for it"""
    M = dims["M"]
    has_w = "w_matrix_nnz" in v
    r = int(rng.integers(M)) if M < 500 or rng.random() < .3 else M - 1 - int(rng.integers(50))

    def columns(*types):
        return [(s, c) for s in (1, 2) for c in range(dims["m%d" % s]) if "uncertainty_type%d" % s in v and v["uncertainty_type%d" % s][2][c] in types]

    def pick(seq):
        return seq[int(rng.integers(len(seq)))]

    if fault == "missing variable":
        n = pick([n for n in REQ if n in v] or [None])
        if n:
            del v[n]
        return n
    if fault == "missing w variable":
        if not has_w:
            return None
        k = int(rng.integers(1, len(WV)))
        gone = [WV[j] for j in rng.permutation(len(WV))[:k]]
        for n in gone:
            v.pop(n, None)
        return " ".join(gone)
    if fault == "one w variable missing":
        if not has_w:
            return None
        n = pick([n for n in WV if n in v] or [None])
        if n:
            del v[n]
        return n
    if fault == "missing attribute":
        n = pick(sorted(at) or [None])
        if n:
            del at[n]
        return n
    if fault == "same sensors":
        if len(at) < 2:
            return None
        at["sensor_2_name"] = at["sensor_1_name"]
        return at["sensor_2_name"]
    if fault == "dtype":
        n = pick([n for n in REQ + WV if n in v])
        v[n][0] = pick(["i4", "i8", "i2"]) if v[n][0][0] == "f" else pick(["f8", "f4", "i8", "i2", "u4"])
        if v[n][0][0] in "iu":
            v[n][2] = np.nan_to_num(np.asarray(v[n][2], float)).clip(-30000 if v[n][0][0] == "i" else 0, 30000)
        return n + " " + v[n][0]
    if fault == "dimension":
        n = pick([n for n in REQ + WV if n in v])
        old = v[n]
        how = int(rng.integers(5))
        dims["other"] = 2
        if how == 0 and len(old[1]) == 2:
            new = (old[1][::-1], np.asarray(old[2]).T)
        elif how == 1:
            new = (("other",), np.zeros(2))
        elif how == 2:
            new = ((), 0)
        elif how == 3:
            new = (old[1] + ("other",), np.repeat(np.asarray(old[2])[..., None], 2, -1))
        else:                                                # same size, other name
            nd = []
            for k, x in enumerate(old[1]):
                nd.append("of_%s" % x)
                dims["of_" + x] = np.shape(old[2])[k]
            new = (tuple(nd), old[2])
        v[n] = [old[0], new[0], new[1]]
        return "%s %s" % (n, new[0])
    if fault in ("negative K", "nan K"):
        n = pick(["Kr", "Ks"])
        if n not in v:
            return None
        v[n][2][r] = np.nan if fault[0] == "n" and fault[1] == "a" else small(rng, -1)
        return n
    if fault == "zero K":
        if "Kr" not in v or "Ks" not in v:
            return None
        v["Kr"][2][r] = v["Ks"][2][r] = 0
        return str(r)
    if fault in ("negative U", "nan U"):
        if not set(["Ur1", "Ur2", "Us1", "Us2"]) <= set(v):
            return None
        n = pick(["Ur1", "Ur2", "Us1", "Us2"])
        c = int(rng.integers(dims["m" + n[2]]))
        v[n][2][r, c] = np.nan if fault == "nan U" else small(rng, -1)
        return "%s[%d, %d]" % (n, r, c)
    if fault in ("type unknown", "type other"):
        if not columns(1, 2, 3, 4):
            return None
        s, c = pick(columns(1, 2, 3, 4))
        t = v["uncertainty_type%d" % s][2]
        t[c] = pick([0, 5, -1, 17]) if fault == "type unknown" else pick([q for q in (1, 2, 3, 4) if q != t[c]])
        return "X%d[:, %d]" % (s, c)
    val = small(rng)
    cell = {"type 1 systematic": ((1,), "Us", val), "type 2 no systematic": ((2,), "Us", 0), "no random": ((1, 2), "Ur", 0), "type 3 systematic": ((3,), "Us", val),
            "type 4 no systematic": ((4,), "Us", 0), "structured random": ((3, 4), "Ur", None),
            "structured random 1": ((3,), "Ur", None), "structured random 2": ((4,), "Ur", None)}
    if fault in cell:
        if not set(["X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2"]) <= set(v):
            return None
        types, n, val = cell[fault]
        cc = columns(*types)
        if not cc:
            return None
        if fault[-1] in "12":                                # each sensor in turn, as far as it has one
            q = int(rng.integers(1, 3))
            cc = [x for x in cc if x[0] == q] or cc
        s, c = pick(cc)
        if val is None:
            v["%s%d" % (n, s)][2][:, c] = small(rng)
        else:
            v["%s%d" % (n, s)][2][r, c] = val
        return "%s%d[%d, %d]" % (n, s, r, c)
    if not has_w or not set(WV) <= set(v):
        return None
    used = [(s, c) for s in (1, 2) for c in range(dims["m%d" % s]) if v["w_matrix_use%d" % s][2][c] != 0]
    if not used:
        return None
    s, c = pick(used)
    if fault in ("unused first w", "unused first u"):        # all sizes in step, numbering from two
        for q in "12":
            b = v[fault[-1] + "_matrix_use" + q][2]
            b[b > 0] += 1
        if fault[-1] == "w":
            dims["w_matrix_count"] += 1
            v["w_matrix_row"][2] = np.vstack([v["w_matrix_row"][2][:1], v["w_matrix_row"][2]])
            n = int(v["w_matrix_nnz"][2][0])
            v["w_matrix_nnz"][2] = np.append(n, v["w_matrix_nnz"][2])
            dims["w_matrix_nnz_sum"] += n
            for q in ("w_matrix_col", "w_matrix_val"):
                v[q][2] = np.append(v[q][2][:n], v[q][2])
        else:
            dims["u_matrix_count"] += 1
            n = int(v["u_matrix_row_count"][2][0])
            v["u_matrix_row_count"][2] = np.append(n, v["u_matrix_row_count"][2])
            dims["u_matrix_row_count_sum"] += n
            v["u_matrix_val"][2] = np.append(v["u_matrix_val"][2][:n], v["u_matrix_val"][2])
        return "1"
    if fault == "u length shared":                           # a vector of another length than its matrix is wide, another covariate of the same matrix is right
        pairs = {}
        for q, e in used:
            pairs.setdefault(int(v["w_matrix_use%d" % q][2][e]), []).append(int(v["u_matrix_use%d" % q][2][e]))
        late = [u for uu in pairs.values() for u in uu[1:] if u != uu[0]]
        several = [w for w, uu in pairs.items() if len(uu) > 1]
        if several and (not late or rng.random() < .5):     # a vector of its own for one of the covariates
            w = pick(several)
            q, e = pick([(q, e) for q, e in used if v["w_matrix_use%d" % q][2][e] == w][1:])
            old = int(v["u_matrix_use%d" % q][2][e]) - 1
            if not 0 <= old < dims["u_matrix_count"] or sum(int((v["u_matrix_use%d" % x][2] == old + 1).sum()) for x in (1, 2)) < 2:
                return None
            size = int(v["u_matrix_row_count"][2][old]) + pick([1, 2, 5])
            dims["u_matrix_count"] += 1
            dims["u_matrix_row_count_sum"] += size
            v["u_matrix_use%d" % q][2][e] = dims["u_matrix_count"]
            v["u_matrix_row_count"][2] = np.append(v["u_matrix_row_count"][2], size)
            v["u_matrix_val"][2] = np.append(v["u_matrix_val"][2], np.full(size, .5))
            return str(dims["u_matrix_count"])
        if not late:
            return None
        k = pick(late) - 1
        if not 0 <= k < dims["u_matrix_count"]:
            return None
        end = int(np.sum(v["u_matrix_row_count"][2][:k + 1]))
        v["u_matrix_row_count"][2][k] += 1
        dims["u_matrix_row_count_sum"] += 1
        v["u_matrix_val"][2] = np.insert(v["u_matrix_val"][2], end, .5)
        return str(k)
    if fault in ("w use gap", "u use gap"):
        a = fault[0] + "_matrix_use"
        top = max(v[a + "1"][2].max(), v[a + "2"][2].max())
        for q in "12":
            b = v[a + q][2]
            b[b == top] = top + 1
        return str(top)
    if fault == "w without u":
        v["u_matrix_use%d" % s][2][c] = 0
        return "%d %d" % (s, c)
    if fault == "u without w":
        v["w_matrix_use%d" % s][2][c] = 0
        return "%d %d" % (s, c)
    if fault == "u use moved":                               # to a covariate that has no weighting matrix
        free = [(q, e) for q in (1, 2) for e in range(dims["m%d" % q]) if v["w_matrix_use%d" % q][2][e] == 0 and v["u_matrix_use%d" % q][2][e] == 0]
        if not free or v["u_matrix_use%d" % s][2][c] == 0:
            return None
        q, e = pick(free)
        v["u_matrix_use%d" % q][2][e], v["u_matrix_use%d" % s][2][c] = v["u_matrix_use%d" % s][2][c], 0
        return "%d %d" % (q, e)
    if fault == "plain with w":                              # an independent covariate that is given the matrix and uncertainties of another one as well
        free = [(q, e) for q, e in columns(1, 2) if v["w_matrix_use%d" % q][2][e] == 0 and v["u_matrix_use%d" % q][2][e] == 0]
        if not free:
            return None
        q, e = pick(free)
        for n in "wu":
            v["%s_matrix_use%d" % (n, q)][2][e] = v["%s_matrix_use%d" % (n, s)][2][c]
        return "X%d[:, %d]" % (q, e)
    if fault == "nnz":
        k = int(rng.integers(dims["w_matrix_count"]))
        v["w_matrix_nnz"][2][k] += pick([-1, 1, 3])
        return str(k)
    if fault == "entries gone":                              # a matrix without any entry, all counts in step, and vectors for columns it does not have
        k = int(v["w_matrix_use%d" % s][2][c]) - 1
        if not 0 <= k < dims["w_matrix_count"] or len(v["w_matrix_nnz"][2]) < 2:
            return None
        a = int(np.sum(v["w_matrix_nnz"][2][:k]))
        n = int(v["w_matrix_nnz"][2][k])
        for q in ("w_matrix_col", "w_matrix_val"):
            v[q][2] = np.delete(v[q][2], np.arange(a, a + n))
        v["w_matrix_row"][2][k] = 0
        v["w_matrix_nnz"][2][k] = 0
        dims["w_matrix_nnz_sum"] -= n
        return str(k)
    if fault == "empty w":
        k = int(rng.integers(dims["w_matrix_count"]))
        v["w_matrix_nnz"][2][k] = 0
        return str(k)
    if fault == "row count":
        k = int(rng.integers(dims["u_matrix_count"]))
        v["u_matrix_row_count"][2][k] += pick([-1, 1, 2])
        return str(k)
    if fault == "w rows":
        new = dims["w_matrix_row_count"] + pick([-1, 1, 5] if M > 1 else [1])
        if v["w_matrix_row"][1] != ("w_matrix_count", "w_matrix_row_count"):
            return None
        v["w_matrix_row"][2] = np.resize(v["w_matrix_row"][2], (dims["w_matrix_count"], new))
        dims["w_matrix_row_count"] = new
        return str(new)
    if fault == "u value":
        k = int(rng.integers(len(v["u_matrix_val"][2])))
        v["u_matrix_val"][2][k] = pick([0, -1, np.nan, -1e-12])
        return str(k)
    if fault == "negative index":
        n = pick(["w_matrix_row", "w_matrix_col"])
        b = v[n][2]
        b[np.unravel_index(int(rng.integers(b.size)), b.shape)] = pick([-1, -7])
        return n
    if fault in ("unused w", "unused u"):
        if fault == "unused w":
            dims["w_matrix_count"] += 1
            v["w_matrix_row"][2] = np.vstack([v["w_matrix_row"][2], v["w_matrix_row"][2][:1]])
            v["w_matrix_nnz"][2] = np.append(v["w_matrix_nnz"][2], v["w_matrix_nnz"][2][0])
            n = int(v["w_matrix_nnz"][2][0])
            dims["w_matrix_nnz_sum"] += n
            for q in ("w_matrix_col", "w_matrix_val"):
                v[q][2] = np.append(v[q][2], v[q][2][:n])
        else:
            dims["u_matrix_count"] += 1
            n = int(v["u_matrix_row_count"][2][0])
            v["u_matrix_row_count"][2] = np.append(v["u_matrix_row_count"][2], n)
            dims["u_matrix_row_count_sum"] += n
            v["u_matrix_val"][2] = np.append(v["u_matrix_val"][2], v["u_matrix_val"][2][:n])
        return "1"
    if fault == "u length":                                  # every count in step, but a vector of another length than its matrix is wide
        k = int(rng.integers(dims["u_matrix_count"]))
        v["u_matrix_row_count"][2][k] += 1
        dims["u_matrix_row_count_sum"] += 1
        v["u_matrix_val"][2] = np.append(v["u_matrix_val"][2], .5)
        return str(k)
    if fault == "u beyond":
        v["u_matrix_use%d" % s][2][c] = pick([dims["u_matrix_count"] + 1, dims["u_matrix_count"] + 9, -3, -200])
        return "%d %d" % (s, c)
    raise AssertionError(fault)


def write(path, v, dims, at, rng):
    ds = Dataset(path, "w")
    ds.setncatts(at)
    if rng.random() < .3:
        ds.comment = "converted"
    for n, k in dims.items():
        ds.createDimension(n, k)
    names = list(v)
    rng.shuffle(names)
    for n in names:
        t, dd, a = v[n]
        x = ds.createVariable(n, t, dd)
        if dd:
            x[:] = a
        else:
            x.assignValue(a)
    ds.close()


def case(m, rng, i):
    v, dims, at = sound(rng)
    kind = rng.random()
    done = []
    if kind < .25:
        m.saw("sound")
        m.saw("sound with w" if "w_matrix_nnz" in v else "sound without w")
        m.trivial = True
    else:
        n = 1 if kind < .75 else int(rng.integers(2, 5))
        order = [FAULTS[j] for j in rng.permutation(len(FAULTS))]
        order.sort(key=lambda f: f in ("dimension", "dtype", "missing w variable", "one w variable missing", "missing variable"))   # those take away the place of others
        first = i % len(FAULTS)
        if dims["M"] > 500 and n == 1 and rng.random() < .8:
            first = FAULTS.index(str(rng.choice(cell_faults[:5] + ["negative K", "zero K", "nan K", "negative U", "nan U"])))
            m.saw("far rows")
        order = [FAULTS[first]] + order if n == 1 else [order[j] for j in sorted(rng.permutation(len(order))[:n + 3])]
        for f in order:
            if len(done) == n:
                break
            try:
                what = put(rng, f, v, dims, at)
            except (KeyError, IndexError, ValueError):
                if not done:
                    raise
                raise SkipCase                               # a fault on top of a fault that took its place away
            if what is not None:
                done.append("%s (%s)" % (f, what))
                m.saw("fault: " + f)
        if len(done) > 1:
            m.saw("several faults")
        if not done:
            raise SkipCase
    if v.get("X1", ["f8"])[0] == "f4":
        m.saw("f4")
    path = os.path.join(m.tmp, "matchup_%d.nc" % i)
    try:
        write(path, v, dims, at, rng)
    except (IndexError, ValueError):
        if len(done) < 2:
            raise
        raise SkipCase
    m.key(tuple(sorted(done)), dims["M"], "w_matrix_nnz" in v)
    held = open(path, "rb").read()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        got = checker.main(path)
    text = out.getvalue()
    what = "file of %d match-ups%s: " % (dims["M"], " with " + "; ".join(done) if done else "")
    m.check(bool(got) == bool(done), what + ("no error reported" if done else "errors reported: " + text[:400]))
    m.check(("Test Passed" in text) == (not done) and ("\n>" in text) == bool(done), what + "report reads: " + text[:400])
    if dims["m1"] > 5 or dims["m2"] > 5:
        m.saw("many covariates")
    if tiny[0]:
        m.saw("tiny uncertainties")
    if len(done) > 1:       # faults that hide no other: each of them is named
        for x in done:
            f, _, at_ = x.partition(" (")
            n = at_[:-1].split(" ")[0]
            if f in ("missing variable", "missing attribute") or f in ("dtype", "dimension") and n in v and v[n][1] or f == "one w variable missing" and any(q in v for q in WV):
                m.saw("all of several named")
                m.check(n in text, what + "%s is named" % n)
    if len(done) == 1:
        f, _, at_ = done[0].partition(" (")
        at_ = at_[:-1]
        if f in cell_faults or f in ("type unknown", "type other"):
            s, c = (at_[1], at_[5:-1].strip()) if at_[0] == "X" else (at_[2], at_[at_.index(",") + 1:-1].strip())
            m.equal(set(re.findall(r"X[12]\[:, ?\d+\]", text)), {"X%s[:, %s]" % (s, c)}, what + "the covariate named")
            ur, us, w = v["Ur" + s][2][:, int(c)], v["Us" + s][2][:, int(c)], v["w_matrix_use" + s][2][int(c)] > 0 if "w_matrix_use" + s in v else False
            rand, no, sys_ = (ur > 0).all(), (us == 0).all(), (us > 0).all()
            seen = [(q.strip(" -").split()[0].strip(":").replace("random", "independent"), q.split(":")[1].strip()) for q in text.split("\n") if q.strip().startswith("- ") and ":" in q]
            m.check(seen and set(seen) <= {("independent", str(rand and no)), ("independent+systematic", str(rand and sys_)), ("w-matrix", str(w and no)), ("w-matrix+systematic", str(w and sys_))},
                    what + "forms the data have: %s" % seen)
            t = int(v["uncertainty_type" + s][2][int(c)])
            if 1 <= t <= 4:
                m.check("assigned as " + FORMS[t] + " " in text, what + "its declared form is named")
        elif f in ("missing variable", "missing attribute", "dtype", "dimension", "negative K", "nan K", "negative U", "nan U", "missing w variable", "one w variable missing"):
            for n in (at_.split("[")[0].split() if f == "missing w variable" else [at_.split("[")[0].split(" ")[0]]):
                m.check(n in text, what + "%s is named" % n)
        elif f in ("w without u", "u without w", "u use moved"):
            both = [np.append(v[n + "1"][2], v[n + "2"][2]) for n in ("w_matrix_use", "u_matrix_use")]
            line = [q for q in text.split("\n>") if "Mismatch" in q]
            m.check(len(line) == 1 and all(str(np.where(b != 0)[0]) in line[0] for b in both), what + "covariates with matrices are listed: " + text[:500])
    m.check(open(path, "rb").read() == held, what + "the file stays as it was")
    if i % 50 == 0:
        m.saw("process")
        r = subprocess.run([sys.executable, os.path.join(os.environ["VERIF_TREE"], "tools", "harmonisation_input_checker.py"), path], capture_output=True, text=True)
        m.check("Traceback" not in r.stderr, what + "the program ends with " + r.stderr[-300:])
        m.equal(r.returncode, 1 if done else 0, what + "exit status")
    os.remove(path)
