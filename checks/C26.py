"""Sanitizers and valgrind over the native demo and the Cython extensions, under sound, malformed and failing inputs."""
import errno
import os
import re
import subprocess
import sys

import numpy as np
from netCDF4 import Dataset

import native
from checks import C22

PROP = "C26"
RULE = ("a case is one or several runs of the real programs under instrumentation: the native demo with ASan, UBSan and bounds checks on 1-4 generated or "
        "shipped match-up files that are sound, or have one fault (file missing, a directory, empty, truncated or garbage; variable or dimension "
        "missing, of wrong rank, length or type; row pointers, column indices, non-zero counts, matrix numbers or row counts out of range), or whose "
        "job or run configuration has one fault, or whose n-th read or write fails; the same without sanitizers in valgrind, and with two different "
        "fill patterns of fresh memory; and the Cython extensions with ASan and UBSan in the solver's data chain. Non-trivial: a program ran.")
N = {"quick": 330, "thorough": 6000}
FILES = []
BUILDS = ["fortran", "plain", "cysan"]
NEED = ["sound runs", "faults refused", "failing reads refused", "failing writes refused", "valgrind runs", "fill patterns compared", "extension runs",
        "shipped jobs run"]
LIM = 2 ** 31 - 1
CAPACITY = 325            # series the configuration has room for
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = None


def setup():
    pass


# ------------------------------------------------------------------ faults in match-up files
MANDATORY = ["X1", "X2", "time1", "time2", "u_matrix_use1", "u_matrix_use2", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_val",
             "w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val"]
OPTIONAL = ["Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "uncertainty_type1", "uncertainty_type2", "across_track_index1", "across_track_index2"]
DIMS = ["M", "m1", "m2", "u_matrix_row_count_sum", "w_matrix_nnz_sum", "w_matrix_row_count"]
FILE_FAULTS = (["missing", "directory", "empty", "garbage", "truncated", "broken symlink"]
               + ["no variable " + v for v in MANDATORY] + ["no dimension " + v for v in DIMS]
               + ["%s %s" % (k, v) for v in MANDATORY + OPTIONAL for k in ("rank of", "length of", "text in", "short of")]
               + ["nnz sum", "nnz negative", "nnz past the end", "nnz shifted", "row pointers decrease", "row pointers negative", "row pointers past the end", "row pointer huge",
                  "row count", "row count", "row count", "column negative", "column past the vector", "column huge", "u rows negative", "u rows sum", "u rows past the end",
                  "u use 0", "u use negative", "u use beyond", "u use huge", "w use 0", "w use negative", "w use beyond", "w use huge",
                  "no u_matrix_count", "no w_matrix_count", "m1 too small", "m2 too small"])
# Faults for which only the freedom from memory errors is claimed: the statement does not list them.
LAX = ["type 0", "type 5", "type -1", "type huge", "time text", "M 0", "uuid long", "uuid number", "w weights beyond", "K missing", "no attribute", "w count 0", "u count 0", "repeated columns",
       "X fill values", "integer X", "unsigned use", "long use"]


def copy_with(src, dst, drop=(), rename_dims={}, change=None, redefine={}, attributes=None):
    """Copies a match-up file; change maps a variable to a function of its data; redefine to (type, dims, data)."""
    with Dataset(src) as a, Dataset(dst, "w", format=a.data_model) as b:
        b.set_fill_off()
        at = {k: a.getncattr(k) for k in a.ncattrs()}
        if attributes:
            attributes(at)
        b.setncatts(at)
        for k, d in a.dimensions.items():
            b.createDimension(rename_dims.get(k, k), len(d))
        for k, v in a.variables.items():
            if k in drop:
                continue
            v.set_auto_mask(False)
            data = v[:]
            if k in redefine:
                t, dims, data = redefine[k](v, data, b)
            else:
                t, dims = v.dtype, [rename_dims.get(d, d) for d in v.dimensions]
                if change and k in change:
                    data = change[k](np.array(data))
            b.createVariable(k, t, dims, fill_value=False)[:] = data


def put(rng, value):
    def f(a):
        a = a.copy()
        a.flat[int(rng.integers(a.size))] = value
        return a
    return f


def last(value):
    def f(a):
        a = a.copy()
        a[..., -1] = value
        return a
    return f


def spoil(rng, d, src, dst, fault):
    """Writes the file with the fault; returns False when it cannot be had with these data."""
    w = fault.split(" ")
    M = d["M"]
    if fault == "missing":
        return True
    if fault == "directory":
        os.mkdir(dst)
        return True
    if fault == "broken symlink":
        os.symlink("nowhere.nc", dst)
        return True
    raw = open(src, "rb").read()
    if fault in ("empty", "garbage", "truncated"):
        cut = {"empty": b"", "garbage": bytes(rng.integers(0, 256, int(rng.integers(1, 5000)), dtype=np.uint8)),
               "truncated": raw[:int(rng.integers(1, len(raw)))]}[fault]
        open(dst, "wb").write(cut)
        return True
    if fault.startswith("no variable"):
        copy_with(src, dst, drop=[w[2]])
    elif fault.startswith("no dimension"):
        copy_with(src, dst, rename_dims={w[2]: w[2] + "_x"})
    elif fault.startswith(("rank of", "length of", "text in", "short of")):
        v = w[-1]

        def new(var, data, nc):
            dims = list(var.dimensions)
            if w[0] == "rank":
                k = int(rng.integers(3))
                if k == 0 and len(dims) > 1:
                    return var.dtype, dims[:1], data[:, 0]
                if k == 1 and len(dims) == 1:
                    return var.dtype, [], data.flat[0]
                nc.createDimension("extra", int(rng.integers(1, 4)))
                return var.dtype, dims + ["extra"], np.repeat(data[..., None], len(nc.dimensions["extra"]), -1)
            if w[0] == "text":
                if rng.random() < .5 and nc.data_model == "NETCDF4":
                    return str, dims, np.full(data.shape, "1", dtype=object)
                return "S1", dims, np.full(data.shape, b"1", dtype="S1")
            ax = int(rng.integers(len(dims)))
            n = data.shape[ax]
            new_n = n + int(rng.integers(1, 50)) if w[0] == "length" else int(rng.integers(0, n))
            if new_n == 0:
                new_n = n + 1            # an extent of zero would be an unlimited dimension
            nc.createDimension("other", new_n)
            dims[ax] = "other"
            idx = np.arange(new_n) % n
            return var.dtype, dims, np.take(data, idx, axis=ax)
        copy_with(src, dst, redefine={v: new})
    elif fault.startswith("nnz"):
        def nnz(a):
            a = a.copy()
            k = int(rng.integers(a.size))
            if fault == "nnz sum":
                a[k] += 1 if rng.random() < .5 or a[k] == 0 else -1
            elif fault == "nnz negative":
                a[k] = -int(rng.integers(1, 10))
            elif fault == "nnz past the end":
                a[k] = LIM
            else:
                a[:] = a[::-1]
            return a
        counts = [sum(len(r) for r in x) for x in d["W"]]
        if fault == "nnz shifted" and counts == counts[::-1]:
            return False
        copy_with(src, dst, change={"w_matrix_nnz": nnz})
    elif fault.startswith("row pointer"):
        def row(a):
            a = a.copy()
            k = int(rng.integers(a.shape[0]))
            r = a[k]
            if fault == "row pointers decrease":
                p = int(rng.integers(0, M))
                r[p] = r[-1] + 1 if rng.random() < .5 or p == 0 else r[p]
                if p and r[p] <= r[-1]:
                    r[p] = -1 if r[0] == 0 else 0
            elif fault == "row pointers negative":
                r[int(rng.integers(M + 1))] = -int(rng.integers(2, 1000))
            elif fault == "row pointers past the end":
                r[-1] += int(rng.integers(1, 100))
            else:
                r[int(rng.integers(M + 1))] = LIM
            return a
        copy_with(src, dst, change={"w_matrix_row": row})
    elif fault == "row count":
        n = M + 1 + int(rng.choice([-1, 1, 3])) if M > 1 else M + 2
        resize(src, dst, "w_matrix_row_count", n)
    elif fault.startswith("column"):
        top = sum(len(u) for u in d["U"]) + 1
        v = {"column negative": -int(rng.integers(2, 100)), "column past the vector": top + int(rng.integers(1, 50)), "column huge": LIM}[fault]
        copy_with(src, dst, change={"w_matrix_col": put(rng, v)})
    elif fault.startswith("u rows"):
        def rows(a):
            a = a.copy()
            k = int(rng.integers(a.size))
            a[k] = {"u rows negative": -int(rng.integers(1, 9)), "u rows sum": a[k] + int(rng.choice([-1, 1])), "u rows past the end": LIM}[fault]
            return a
        copy_with(src, dst, change={"u_matrix_row_count": rows})
    elif len(w) == 3 and w[1] == "use":
        # A matrix number counts only for a structured covariate the sensor uses.
        n = len(d["W"] if w[0] == "w" else d["U"])
        s = int(rng.integers(1, 3))
        c = [k for k in range(d["r"][s - 1]) if d["t%d" % s][k] > 2]
        if not c:
            return False
        v = {"0": 0, "negative": -int(rng.integers(1, 50)), "beyond": n + int(rng.integers(1, 5)), "huge": LIM}[w[2]]

        def use(a):
            a = a.copy()
            a[c[int(rng.integers(len(c)))]] = v
            return a
        copy_with(src, dst, change={"%s_matrix_use%d" % (w[0], s): use})
    elif fault in ("no u_matrix_count", "no w_matrix_count"):
        if not any(d["t%d" % s][k] > 2 for s in (1, 2) for k in range(d["r"][s - 1])):
            return False
        copy_with(src, dst, rename_dims={w[1]: "other_count"})
    elif fault in ("m1 too small", "m2 too small"):
        need = d["r"][int(w[0][1]) - 1]
        have = max(1, int(rng.integers(1, need + 1)) - 1)
        if have * (1 if d["common"] else 2) >= need:
            return False
        resize(src, dst, w[0], have)
    else:
        return lax(rng, d, src, dst, fault)
    return True


def resize(src, dst, dim, n):
    with Dataset(src) as a, Dataset(dst, "w", format=a.data_model) as b:
        b.setncatts({k: a.getncattr(k) for k in a.ncattrs()})
        for k, q in a.dimensions.items():
            b.createDimension(k, n if k == dim else len(q))
        for k, v in a.variables.items():
            v.set_auto_mask(False)
            data = v[:]
            for ax, q in enumerate(v.dimensions):
                if q == dim:
                    data = np.take(data, np.minimum(np.arange(n), data.shape[ax] - 1), axis=ax)
            x = b.createVariable(k, v.dtype, v.dimensions, fill_value=False)
            if data.size:
                x[:] = data


def lax(rng, d, src, dst, fault):
    k, _, v = fault.partition(" ")
    s = str(int(rng.integers(1, 3)))
    if k == "type":
        copy_with(src, dst, change={"uncertainty_type" + s: put(rng, {"0": 0, "5": 5, "-1": -1, "huge": LIM}[v])})
    elif fault == "M 0":
        resize(src, dst, "M", 0)
    elif fault == "uuid long":
        text = "0123456789" * int(rng.integers(4, 2000))
        copy_with(src, dst, attributes=lambda at: at.update(matchup_dataset_uuid=text))
    elif fault == "uuid number":
        n = int(rng.integers(1, 500))
        copy_with(src, dst, attributes=lambda at: at.update(matchup_dataset_uuid=np.arange(n, dtype="f8") if rng.random() < .5 else np.arange(n, dtype="i1")))
    elif fault == "w weights beyond":
        copy_with(src, dst, change={"w_matrix_col": lambda a: a + int(rng.integers(1, 40))})
    elif fault == "K missing":
        copy_with(src, dst, drop=["K", "Kr", "Ks"])
    elif fault == "no attribute":
        copy_with(src, dst, attributes=lambda at: at.clear())
    elif fault in ("w count 0", "u count 0"):
        copy_with(src, dst, drop=[x for x in MANDATORY if "matrix" in x], rename_dims={fault[0] + "_matrix_count": "gone"})
    elif fault == "repeated columns":
        copy_with(src, dst, change={"w_matrix_col": lambda a: np.full_like(a, a.flat[0])})
    elif fault == "X fill values":
        copy_with(src, dst, change={"X" + s: put(rng, 9.96921e36)})
    elif fault == "integer X":
        copy_with(src, dst, redefine={"X" + s: lambda var, data, nc: ("i2", var.dimensions, np.clip(data, -30000, 30000).astype("i2"))})
    elif fault in ("unsigned use", "long use"):
        if Dataset(src).data_model != "NETCDF4":
            return False
        copy_with(src, dst, redefine={"w_matrix_use" + s: lambda var, data, nc: ("u4" if k == "unsigned" else "i8", var.dimensions,
                                                                                  data.astype("i8") + (2 ** 31 if rng.random() < .7 else 0))})
    elif fault == "time text":
        copy_with(src, dst, redefine={"time" + s: lambda var, data, nc: ("i4" if rng.random() < .5 else "i1", var.dimensions, (data % 100).astype("i4"))})
    return True


# ------------------------------------------------------------------ faults in the configuration
def job_fault(rng, job, path):
    """Writes the job configuration with a fault; returns (name, whether it must be refused)."""
    k = str(rng.choice(["absent", "empty", "no group", "unknown", "type", "unclosed", "sensor", "sensor", "sampling", "column", "column", "too many matchups",
                        "matchups beyond", "too many columns", "sensors beyond", "garbage", "long text", "index", "huge sampling", "other sensor count"]))
    must = True
    j = dict(job)
    extra = None
    if k == "sensor":
        q = int(rng.integers(1, job["matchup_count"] + 1))
        p = list(job["matchup(%d,:)" % q])
        p[int(rng.integers(2))] = int(rng.choice([0, -1, 5, 25, 26, 325, LIM, -LIM]))
        j["matchup(%d,:)" % q] = p
    elif k == "sampling":
        j["matchup_samplings(%d)" % int(rng.integers(1, job["matchup_count"] + 1))] = int(rng.choice([0, -1, -7, -LIM]))
    elif k == "huge sampling":
        j["matchup_samplings(%d)" % int(rng.integers(1, job["matchup_count"] + 1))] = int(rng.choice([LIM, LIM - 1, 10 ** 6]))
        must = False
    elif k == "column":
        s = int(rng.choice([x for p in range(1, job["matchup_count"] + 1) for x in job["matchup(%d,:)" % p]]))
        r = 1 if s == 1 else 4
        c = [1] * r
        c[int(rng.integers(r))] = int(rng.choice([0, -1, 99, 15, LIM, -LIM]))
        j["sensor_columns_select(%d)" % s] = True
        for z in [z for z in j if z.startswith("sensor_columns(%d," % s)]:
            del j[z]
        j["sensor_columns(%d,1:%d)" % (s, r)] = c
    elif k == "too many matchups":
        j["matchup_count"] = job["matchup_count"] + int(rng.choice([1, 2, 60, 10 ** 6]))
    elif k == "matchups beyond":
        extra = "config_job_matchup(%d,:) = 1, 2" % int(rng.choice([0, -1, 10 ** 9, 10 ** 5]))
    elif k == "too many columns":
        extra = "config_job_sensor_columns(1,1:2000) = 2000*1"
    elif k == "sensors beyond":
        extra = 'config_job_sensor_names(%d) = "x"' % int(rng.choice([0, -5, 10 ** 6, 10 ** 4]))
    elif k == "index":
        extra = "config_job_matchup(1,%d) = 1" % int(rng.choice([0, 3, -1, 99]))
    elif k == "unknown":
        extra = "config_job_something = 1"
    elif k == "type":
        extra = str(rng.choice(['config_job_matchup_count = "three"', "config_job_enable_covariance_matrix = 77", "config_job_matchup_count = 1.5.2",
                                "config_job_matchup_samplings(1) = abc", "config_job_matchup_count = 99999999999"]))
    elif k == "long text":
        extra = 'config_job_%s = "%s"' % (rng.choice(["id", "matchup_dataset_id", "enable_unit", "path_prior_data", "sensor_names(1)", "matchup_names(1)"]),
                                          "y" * int(rng.choice([100, 600, 5000, 70000])))
        must = False
    elif k == "other sensor count":
        j["sensor_count"] = int(rng.choice([0, -1, 3, 99, LIM]))
        must = False
    C22.namelist(j, path)
    t = open(path).read()
    if extra:
        t = t[:t.rindex("/")] + "  " + extra + "\n/\n"
    if k == "absent":
        os.remove(path)
        return k, must
    if k == "empty":
        t = ""
    elif k == "no group":
        t = t.replace("&job", "&jobs")
    elif k == "unclosed":
        t = t[:int(rng.integers(0, t.rindex("/")))]
    elif k == "garbage":
        t = bytes(rng.integers(0, 256, int(rng.integers(1, 3000)), dtype=np.uint8)).decode("latin-1")
    with open(path, "w", encoding="latin-1") as f:
        f.write(t)
    return k, must


def run_fault(rng, path):
    k = str(rng.choice(["unknown", "type", "unclosed", "garbage", "log level", "long name", "name", "long text", "index"]))
    must, t = True, None
    if k == "unknown":
        t = "&run\n config_other = 1\n/\n"
    elif k == "type":
        t = "&run\n config_enable_log_level = %s\n/\n" % rng.choice(["'x'", "1.5.1", "T9", "abc", "99999999999999"])
    elif k == "index":
        t = "&run\n config_enable_log_level(3) = 1\n/\n"
    elif k == "unclosed":
        t = "&run\n config_enable_log_level = 1\n config_job = 'x"
    elif k == "garbage":
        t = bytes(rng.integers(128, 256, int(rng.integers(1, 3000)), dtype=np.uint8)).decode("latin-1")
    elif k == "log level":
        t = "&run\n config_enable_log_level = %d\n/\n" % int(rng.choice([-1, 99, LIM, -LIM]))
        must = False
    elif k == "name":
        t = "&run\n config_name_parameter_dataset = '%s'\n/\n" % rng.choice(["nowhere/out", "run.nml/out", "/proc/none/out"])
    elif k == "long name":
        t = "&run\n config_name_parameter_dataset = '%s'\n/\n" % ("n" * int(rng.choice([254, 300, 600, 5000])))
        must = False
    else:
        t = "&run\n config_%s = '%s'\n/\n" % (rng.choice(["name_var_x", "name_att_uuid", "desc_var_x", "value_att_software", "name_dim_n", "job"]),
                                             "z" * int(rng.choice([40, 300, 3000])))
        must = False
    with open(path, "w", encoding="latin-1") as f:
        f.write(t)
    return k, must


# ------------------------------------------------------------------ workloads
def workload(m, rng, sound=False):
    """Match-up files and a job for the demo's four sensors. Returns the job and the descriptions of the files."""
    common = bool(rng.random() < .5)
    job = {"id": "C26", "enable_covariance_common": common, "enable_covariance_matrix": bool(rng.random() < .5), "sensor_count": 4}
    pairs = [(a, b) for a in range(1, 5) for b in range(a + 1, 5)]
    pairs = [pairs[int(k)] for k in rng.permutation(6)[:int(rng.integers(1, 5))]]
    cols = {1: int(rng.integers(1, 4))}
    for s in (2, 3, 4):
        cols[s] = int(rng.integers(4, 8)) if common or rng.random() < .7 else int(rng.integers(2, 8))
        job['sensor_names(%d)' % s] = "s%d" % s
        if rng.random() < .4:
            avail = cols[s] if common else 2 * cols[s]
            job["sensor_columns_select(%d)" % s] = True
            job["sensor_columns(%d,1:4)" % s] = [int(x) for x in rng.integers(1, avail + 1, 4)]
    job["sensor_names(1)"] = "s1"
    files = []
    for k, (a, b) in enumerate(pairs):
        d = C22.make(rng, cols[a], cols[b], not sound or rng.random() < .7)
        if not sound:
            d["has"] = {v: True for v in d["has"]}
        d["common"], d["r"], d["s"] = common, (1 if a == 1 else 4, 4), (a, b)
        C22.write(d, os.path.join(m.tmp, "f%d.nc" % k), rng)
        files.append(d)
        job["matchup(%d,:)" % (k + 1)] = [a, b]
        job["matchup_datasets(%d)" % (k + 1)] = "f%d.nc" % k
        job["matchup_names(%d)" % (k + 1)] = "n%d" % k
        d["step"] = 1 if rng.random() < .5 else int(rng.integers(1, d["M"] + 2))
        job["matchup_samplings(%d)" % (k + 1)] = d["step"]
        if rng.random() < .3:
            with Dataset(os.path.join(m.tmp, "f%d.nc" % k), "a") as nc:
                nc.matchup_dataset_uuid = "abcdef0123456789"[:int(rng.integers(1, 17))]
    job["matchup_count"] = len(files)
    job["matchup_dataset_path"] = "./"
    C22.namelist(job, os.path.join(m.tmp, "job.nml"))
    return job, files


def prepared(prog="demo", which="fortran"):
    return os.path.join(native.dirs(which), prog)


def demo(m, env=None, prog=None, text=""):
    return native.run(prog or prepared(), text, m.tmp, 120, env)


def clean(m, r, **info):
    return m.check(r.memory_error is None, "memory error or undefined behaviour in the native demo", what=r.memory_error, **info)


def result(m):
    return [f for f in os.listdir(m.tmp) if f.startswith("harm_") and f.endswith(".nc")]


def sound(m, rng):
    job, files = workload(m, rng, True)
    if rng.random() < .5:
        C22.namelist({"enable_log_level": int(rng.integers(0, 9))}, os.path.join(m.tmp, "run.nml"), "run")
    text = ""
    if rng.random() < .15:
        text = open(os.path.join(m.tmp, "job.nml")).read()
        os.remove(os.path.join(m.tmp, "job.nml"))
    r = demo(m, text=text)
    clean(m, r)
    m.check(r.rc == 0 and len(result(m)) == 1, "sound data and configuration did not give a result", what=r.tail())
    m.saw("sound runs")
    for d in files:
        m.key("sound", d["M"], d["step"], len(d["W"]), d["common"])
    return r


def accepts(m, rng, fault):
    """Data with the fault, one that these data allow; None when no such data came up."""
    for _ in range(40):
        for f in os.listdir(m.tmp):
            os.remove(os.path.join(m.tmp, f))
        job, files = workload(m, rng)
        q = int(rng.integers(len(files)))
        d, name = files[q], os.path.join(m.tmp, "f%d.nc" % q)
        # Selected columns decide what a sensor uses: leave them out where the fault depends on it.
        if " use " in fault or fault.startswith(("no u_m", "no w_m", "m1", "m2", "u use", "w use")):
            for z in [z for z in job if z.startswith("sensor_columns")]:
                del job[z]
            C22.namelist(job, os.path.join(m.tmp, "job.nml"))
            d = dict(d, r=[min(x, y) for x, y in zip(d["r"], d["m"])]) if not fault.startswith("m") else d
        os.rename(name, name + ".sound")
        if spoil(rng, d, name + ".sound", name, fault):
            return job, d
        if os.path.exists(name):
            os.remove(name)
    return None


def file_fault(m, rng, fault, must):
    got = accepts(m, rng, fault)
    if got is None:
        m.trivial = True
        return
    r = demo(m)
    m.sample(fault=fault, sizes=(got[1]["M"], got[1]["m"], len(got[1]["W"])), rc=r.rc)
    clean(m, r, fault=fault)
    m.key("fault", fault)
    if must:
        m.check(r.reported and r.rc > 0, "a malformed match-up file was not refused with an error and a non-zero exit status", fault=fault, what=r.tail())
        m.saw("faults refused")
    else:
        m.check(r.rc >= 0, "the demo was ended by a signal", fault=fault, what=r.tail())


def config_fault(m, rng):
    job, files = workload(m, rng)
    if rng.random() < .7:
        k, must = job_fault(rng, job, os.path.join(m.tmp, "job.nml"))
        what = "job: " + k
    else:
        k, must = run_fault(rng, os.path.join(m.tmp, str(rng.choice(["run.nml", "preferences.nml"]))))
        what = "run: " + k
    r = demo(m)
    m.sample(fault=what, rc=r.rc)
    clean(m, r, fault=what)
    m.key("fault", what)
    if must:
        m.check(r.reported, "a faulty configuration was not refused with an error and a non-zero exit status", fault=what, what=r.tail(),
                job=open(os.path.join(m.tmp, "job.nml"), encoding="latin-1").read()[-150:] if what[:3] == "job" and k != "absent" else None)
        m.saw("faults refused")
    else:
        m.check(r.rc >= 0, "the demo was ended by a signal", fault=what, what=r.tail())


_asan = []


def preload():
    if not _asan:
        for n in ("libasan.so", "libubsan.so"):
            _asan.append(subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE).stdout.decode().strip())
    return _asan


def library_crash(r):
    """Ended by a signal raised inside the netCDF and HDF5 libraries, not through what the code handed to them."""
    if r.rc not in (-11, -6) or "ERROR: AddressSanitizer" in r.err or "rogram received signal" not in r.err and "ERROR STOP" not in r.err:
        return False
    if "ERROR STOP" in r.err:
        return True
    first = re.search(r"at gpl/(\w+)\.F90", r.err)
    return first is None or first.group(1) == "mod_nc"


def io_fault(m, rng):
    workload(m, rng, True)
    op = str(rng.choice(["read", "write", "open"]))
    lib = preload()[0] + " " + os.path.join(native.dirs(), "faults.so")
    r = demo(m, {"LD_PRELOAD": lib, "VERIF_FAULT": "%s 0 0" % op})
    m.check(r.rc == 0, "sound data and configuration did not give a result", what=r.tail())
    n = int(re.search(r"faults: %s (\d+)" % op, r.err).group(1))
    for f in result(m):
        os.remove(os.path.join(m.tmp, f))
    k = int(rng.integers(1, n + 1))
    r = demo(m, {"LD_PRELOAD": lib, "VERIF_FAULT": "%s %d %d" % (op, k, {"read": errno.EIO, "write": errno.ENOSPC, "open": errno.EACCES}[op])})
    what = "%s %d of %d fails" % (op, k, n)
    m.key("failing", op, k)
    m.sample(fault=what, rc=r.rc)
    said = bool(re.search("error", r.err + r.out, re.I))
    if op != "open" and library_crash(r):
        # The HDF5 library itself may crash when a read or write fails, or in its exit handler after the program has reported the error.
        m.saw("library crashes after a failing %s" % op)
    else:
        clean(m, r, fault=what)
        m.check(r.rc > 0 and said, "a failing %s was not reported with a non-zero exit status" % op, fault=what, what=r.tail())
    m.saw("failing %ss refused" % op)


FRAME = re.compile(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: (\S+).*\((.*)\)")


def ours(report):
    """Error reports of valgrind whose innermost frame outside the run-time libraries is the code's."""
    out = []
    for b in re.split(r"==\d+== *\n", report):
        lines = b.strip().splitlines()
        head = next((x for x in lines if not FRAME.search(x)), "")
        if not re.search(r"uninitialised|Invalid|Mismatched|overlap", head):
            continue
        for x in lines:
            f = FRAME.search(x)
            if not f:
                continue
            place = f.group(2)
            if re.search(r"vgpreload|libgfortran|libc\.so|in /usr/libexec|libm\.so", place):
                continue
            if re.search(r"\.F90:\d+", place):
                out.append(head.strip() + " in " + f.group(1) + " " + place)
            break
    return out


def valgrind(m, rng):
    workload(m, rng, True)
    C22.namelist({"enable_log_level": 7}, os.path.join(m.tmp, "run.nml"), "run")
    if os.path.exists(os.path.join(m.tmp, "vg.txt")):
        os.remove(os.path.join(m.tmp, "vg.txt"))
    r = subprocess.run(["valgrind", "--leak-check=no", "--error-limit=no", "--log-file=" + os.path.join(m.tmp, "vg.txt"), prepared(which="plain")], cwd=m.tmp,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    text = open(os.path.join(m.tmp, "vg.txt")).read()
    m.check("ERROR SUMMARY" in text, "valgrind gave no summary", what=text[-300:])
    bad = ours(text)
    m.check(not bad, "valgrind: the native demo uses uninitialised or foreign memory", what=bad[:5])
    m.check(r.returncode == 0, "sound data did not give a result in valgrind", rc=r.returncode, what=r.stderr[-300:].decode("latin-1"))
    m.saw("valgrind runs")


def fills(m, rng):
    """What the reader loads, and what the demo writes, must not depend on what fresh memory holds."""
    job, files = workload(m, rng, True)
    script = ["config", "capacities"]
    for s in range(1, 5):
        script += ["s_add", native.line(["s%d" % s, 0, 0, 1 if s == 1 else 4, 0, 0, 0]), "", ""]
    for k in range(len(files)):
        script += ["read", str(k + 1)]
    script = "\n".join(script + ["m_dump", "dump"]) + "\n"
    outs, data = [], []
    for byte in (0x00, 0x3f, 0xff):
        env = {"ASAN_OPTIONS": native.ASAN + ":malloc_fill_byte=%d:max_malloc_fill_size=1000000000" % byte}
        r = native.run(prepared("vdrv"), script, m.tmp, 120, env)
        clean(m, r)
        m.check(r.rc == 0, "sound data were refused", what=r.tail())
        outs.append(native.parse(r.out))
        r = demo(m, env)
        clean(m, r)
        name = result(m)
        if not m.check(r.rc == 0 and len(name) == 1, "sound data and configuration did not give a result", what=r.tail()):
            return
        with Dataset(os.path.join(m.tmp, name[0])) as nc:
            nc.set_auto_mask(False)
            data.append({k: (v.dtype, v[:].tobytes()) for k, v in nc.variables.items()})
        os.remove(os.path.join(m.tmp, name[0]))
    for o, d in zip(outs[1:], data[1:]):
        m.check(repr(o) == repr(outs[0]), "what the reader loaded depends on what fresh memory held")
        m.check(d == data[0], "what the writer stored depends on what fresh memory held", variables=[k for k in d if d[k] != data[0][k]])
    m.saw("fill patterns compared", len(outs) - 1)


def many(m, rng):
    """As many series as there is room for, and one more."""
    pair = [1, 2]
    d = C22.make(rng, 2, 4, True)
    C22.write(d, os.path.join(m.tmp, "f.nc"), rng)
    n = int(rng.choice([CAPACITY - 1, CAPACITY, CAPACITY + 1, CAPACITY + 1, CAPACITY + 50]))
    job = {"id": "C26", "enable_covariance_common": True, "sensor_count": 4, "matchup_count": n, "matchup_dataset_path": "./"}
    top = min(n, CAPACITY)
    for k in range(1, top + 1):
        job["matchup(%d,:)" % k] = pair
        job["matchup_datasets(%d)" % k] = "f.nc"
    C22.namelist(job, os.path.join(m.tmp, "job.nml"))
    r = demo(m)
    clean(m, r, series=n)
    m.key("series", n)
    m.sample(series=n, rc=r.rc, tail=r.tail()[-200:])
    if n > CAPACITY:
        m.check(r.reported, "more series than the capacity were not refused", series=n, what=r.tail())


def shipped(m, rng, k):
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "harmonisation_meiv_demo/src")
    jobs = os.path.join(src, "main/resources-filtered/jobs")
    names = sorted(os.listdir(jobs))
    if k >= len(names):
        m.trivial = True
        return
    t = open(os.path.join(jobs, names[k])).read()
    t = re.sub(r"@PROC@[^\"']*", os.path.join(src, "test/resources/ph_v1") + "/", t)
    open(os.path.join(m.tmp, "job.nml"), "w").write(t)
    r = demo(m)
    clean(m, r, job=names[k])
    m.check(r.rc == 0 and len(result(m)) == 1, "a shipped job did not give a result", job=names[k], what=r.tail())
    m.key("shipped", names[k])
    m.saw("shipped jobs run")


def extension(m, rng):
    env = dict(os.environ, LD_PRELOAD=" ".join(preload()), ASAN_OPTIONS=native.ASAN, UBSAN_OPTIONS=native.UBSAN,
               VERIF_PY_DIR=native.dirs("cysan"), PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=os.pathsep.join([os.path.join(native.dirs("cysan"), "harmonisation_eiv"), HERE, os.path.join(HERE, "vlib")]))
    n = 6 if m.tier == "quick" else 25
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "vlib/cywork.py"), str(int(rng.integers(1 << 30))), str(n), m.tmp], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
    q = native.Run(r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"))
    m.check(q.memory_error is None, "memory error or undefined behaviour in the compiled extensions", what=q.memory_error, tail=q.err[-1500:])
    m.check(q.rc == 0, "the compiled extensions did not run", what=q.err[-800:])
    for line in q.out.splitlines():
        if line.startswith("ran "):
            _, what, size = line.split()
            m.key("extension", what)
            m.saw("extension calls")
        elif line.startswith("differs "):
            m.check(False, "compiled extension differs from the index model", what=line)
    m.saw("extension runs")


def case(m, rng, i):
    if i < 4:
        return shipped(m, rng, i)
    turn, k = divmod(i, 33)
    if k < 4:
        return file_fault(m, rng, FILE_FAULTS[(turn * 15 + k) % len(FILE_FAULTS)], True)
    if k < 8:
        return sound(m, rng)
    if k < 11:
        return io_fault(m, rng)
    if k == 11:
        return valgrind(m, rng) if turn % 2 == 0 or m.tier == "thorough" else sound(m, rng)
    if k == 12:
        return fills(m, rng)
    if k == 13:
        return extension(m, rng) if turn % 3 == 0 else many(m, rng)
    if k < 20:
        return config_fault(m, rng)
    if k < 22:
        return file_fault(m, rng, LAX[(turn * 2 + k) % len(LAX)], False)
    return file_fault(m, rng, FILE_FAULTS[(turn * 15 + k - 18) % len(FILE_FAULTS)], True)
