"""Native writer, names and time stamps: what the sanitized writer stored against what it was given."""
import datetime
import os

import numpy as np
from netCDF4 import Dataset

import native
from checks.C22 import namelist

PROP = "C25"
RULE = ("a case is one run of the sanitized native writer, name functions and time stamps under one random job and run configuration (units, "
        "explicit or derived data set names, renamed variables and attributes): one parameter file (1-12 parameters, 1-8 sensors, 1-6 pairs, with "
        "or without sensor configurations) and 1-4 residual files of different pairs (1-60 match-ups) are written and read back, file names are "
        "asked for neighbouring configurations (one component changed) and must differ, 60 time stamps (epoch, days' ends, leap days, after 2038, "
        "before 1970, up to the year 9999) are compared with the calendar. Non-trivial: files were written.")
N = {"quick": 400, "thorough": 5000}
FILES = []
BUILDS = ["fortran"]
VAR_DEFAULT = {"x": "parameter", "x_unc": "parameter_uncertainty", "x_cov": "parameter_covariance_matrix", "x_cor": "parameter_correlation_matrix",
               "x_add_offset": "parameter_add_offset", "x_scale_factor": "parameter_scale_factor", "x_names": "parameter_name",
               "sensor_equation_id": "sensor_equation_id", "sensor_equation_x_count": "sensor_equation_parameter_count",
               "sensor_equation_y": "sensor_equation_config", "sensor_equation_y_count": "sensor_equation_config_count",
               "sensor_names": "sensor_name", "number_of_matchups": "number_of_matchups", "cost": "cost", "cost_reduced": "cost_reduced",
               "k_res_mean": "K_res_mean", "k_res_sdev": "K_res_sdev", "matchup_sensor_names": "matchup_sensor_names",
               "matchup_dataset_uuids": "matchup_dataset_uuid", "time": "t", "k_res": "K_res", "k_res_unc": "K_res_uncertainty",
               "k_res_weights": "K_res_weights"}
ATT_DEFAULT = {"software": "software", "software_version": "software_version", "software_tag": "software_tag", "job": "job", "job_id": "job_id",
               "matchup_dataset_id": "matchup_dataset", "matchup_dataset_begin": "matchup_dataset_begin",
               "matchup_dataset_end": "matchup_dataset_end", "matchup_dataset_uuid": "matchup_dataset_uuid",
               "number_of_matchups": "number_of_matchups", "uuid": "uuid", "cost": "cost", "cost_reduced": "cost_reduced",
               "cost_p_value": "cost_p_value", "cost_matchup": "cost_matchup", "cost_sensors": "cost_sensors", "k_res_mean": "K_res_mean",
               "k_res_sdev": "K_res_sdev", "sensor_i": "sensor_1_name", "sensor_j": "sensor_2_name"}


def setup():
    pass


def word(rng, n=12, alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-."):
    w = "".join(alphabet[int(k)] for k in rng.integers(0, len(alphabet), int(rng.integers(1, n + 1))))
    return "x" + w[1:] if w[0] in "-." else w


def vals(rng, n):
    a = rng.normal(0, 1, n) * 10.0 ** rng.integers(-12, 12, n)
    a[rng.random(n) < .05] = 0
    return [float(v) for v in a]


def stats(rng):
    return [int(rng.integers(0, 2 ** 31))] + vals(rng, 7)


def text(v):
    """A character variable or attribute as written, without padding."""
    if isinstance(v, np.ndarray):
        return ["".join(c.decode("latin-1") for c in row).rstrip(" \0") for row in v]
    return str(v).rstrip()


def date(rng):
    return (datetime.date(1970, 1, 1) + datetime.timedelta(int(rng.integers(0, 30000)))).strftime("%Y%m%d")


def instants(rng):
    e = datetime.datetime(1970, 1, 1)
    far = (datetime.datetime(9999, 12, 31, 23, 59, 59) - e).total_seconds()
    out = [0.0, 1.0, 59.0, 60.0, 3599.0, 3600.0, 86399.0, 86400.0, 2.0 ** 31 - 1, 2.0 ** 31, 2.0 ** 31 + 1, 2.0 ** 32, -1.0, -86400.0, -86401.0, far]
    for _ in range(44):
        k = rng.integers(6)
        day = int(rng.integers(0, 30000))
        if k == 0:
            t = day * 86400.0 + rng.choice([0, 86399, 86399.5, 86399.999])
        elif k == 1:
            y = int(rng.integers(1970, 2400))
            t = (datetime.datetime(y, 3, 1) - e).total_seconds() - rng.choice([0, 1, 86400, 86401])
        elif k == 2:
            t = rng.uniform(0, far)
        elif k == 3:
            y = int(rng.integers(1901, 2200))
            t = (datetime.datetime(y, 1, 1) - e).total_seconds() - rng.choice([0, 1, .5])
        elif k == 4:
            t = rng.uniform(-2e9, 5e9)
        else:
            t = float(rng.integers(0, 2 ** 32))
        out.append(float(t))
    return out


def iso(t):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(np.floor(t)))
    return d.strftime("%Y%m%dT%H%M%SZ").rjust(16, "0")


class Conf:
    def __init__(self, rng):
        self.job, self.run = {}, {}
        if rng.random() < .85:
            self.job["id"] = word(rng, 20)
        if rng.random() < .85:
            self.job["matchup_dataset_id"] = word(rng, 40)
        if rng.random() < .7:
            self.job["enable_unit"] = str(rng.choice(["K", "mW m-2 sr-1 cm", "W/m2", word(rng, 30)]))
        self.run["enable_log_level"] = int(rng.choice([1, 2, 4, 7]))
        if rng.random() < .3:
            self.run["name_parameter_dataset"] = word(rng, 60)
        if rng.random() < .3:
            self.run["name_residuals_dataset"] = word(rng, 60) + ".r"
        if rng.random() < .3:
            self.run["value_att_software"] = word(rng, 20)
        self.var, self.att = dict(VAR_DEFAULT), dict(ATT_DEFAULT)
        for k in self.var:
            if rng.random() < .15:
                self.var[k] = "v_%s_%s" % (k, word(rng, 8, "abcdefgh"))
                self.run["name_var_" + k] = self.var[k]
        for k in self.att:
            if rng.random() < .15:
                self.att[k] = "a_%s_%s" % (k, word(rng, 8, "abcdefgh"))
                self.run["name_att_" + k] = self.att[k]
        self.job_path = "job.nml"
        if rng.random() < .3:
            self.job_path = word(rng, 12, "abcdefgh") + ".nml"
            self.run["job"] = self.job_path

    def save(self, folder):
        os.makedirs(folder, exist_ok=True)
        namelist(self.job, os.path.join(folder, self.job_path))
        namelist(self.run, os.path.join(folder, "run.nml"), "run")


def base_name(a, c, begin, end):
    """The derived name from the identification stored in the file."""
    return "_".join(["harm", text(a[c.att["software"]]), text(a[c.att["software_version"]]), text(a[c.att["software_tag"]]),
                     c.job.get("id", "01"), c.job.get("matchup_dataset_id", ""), begin, end])


def case(m, rng, i):
    c = Conf(rng)
    here = os.path.join(m.tmp, "a")
    c.save(here)
    n, np_, ns = int(rng.integers(1, 13)), int(rng.integers(1, 7)), int(rng.integers(1, 9))
    nc = int(rng.integers(1, 20)) if rng.random() < .6 else 0
    begin, end = date(rng), date(rng)
    uuid = "%032x" % int(rng.integers(2 ** 62))
    xc = np.array(vals(rng, n * n)).reshape(n, n)
    xc = xc + xc.T
    xr = np.array(vals(rng, n * n)).reshape(n, n)
    xr = xr + xr.T
    p = {"x": vals(rng, n), "x_unc": vals(rng, n), "x_cov": xc, "x_cor": xr, "x_add_offset": vals(rng, n), "x_scale_factor": vals(rng, n),
         "x_names": [word(rng, 80) for _ in range(n)], "sensor_equation_id": [int(v) for v in rng.integers(0, 999, ns)],
         "sensor_equation_x_count": [int(v) for v in rng.integers(0, 9, ns)], "sensor_equation_y_count": [int(v) for v in rng.integers(0, 9, ns)],
         "sensor_equation_y": vals(rng, nc), "sensor_names": [word(rng, 80) for _ in range(ns)],
         "matchup_sensor_names": [word(rng, 30) + " " + word(rng, 30) for _ in range(np_)],
         "matchup_dataset_uuids": ["%036x" % int(rng.integers(2 ** 62)) for _ in range(np_)]}
    total, per = stats(rng), [stats(rng) for _ in range(np_)]
    script = ["config", "w_par", native.line([n, np_, ns, nc, uuid, begin, end])]
    script += [native.line(np.ravel(p[k]).tolist() if not isinstance(p[k], list) else p[k]) for k in
               ("x", "x_unc", "x_cov", "x_cor", "x_add_offset", "x_scale_factor", "x_names", "sensor_equation_id", "sensor_equation_x_count",
                "sensor_equation_y_count", "sensor_equation_y", "sensor_names", "matchup_sensor_names", "matchup_dataset_uuids")]
    script += [native.line(total)] + [native.line(s) for s in per]
    res = []
    pool = [word(rng, 40 if rng.random() < .1 else 8) for _ in range(3)]
    pairs = [(a, b) for a in pool for b in pool if a != b]
    pairs = [pairs[int(k)] for k in rng.permutation(len(pairs))[:int(rng.integers(1, 5))]] if len(set(pool)) == 3 else [(pool[0], "q")]
    for a, b in pairs:
        k = int(rng.integers(1, 61)) if rng.random() < .98 else int(rng.choice([300, 1025, 4100]))
        r = {"uuid": "%030x" % int(rng.integers(2 ** 62)), "pair": (a, b), "muuid": "%020x" % int(rng.integers(2 ** 62)), "n": k,
             "t": [float(v) for v in rng.uniform(-1e9, 4e9, k)]}
        for f in ("k_res", "k_res_unc", "k_res_weights", "measurand1", "measurand2", "measurand1_uncertainty_tel", "measurand2_uncertainty_tel",
                  "measurand1_uncertainty_cal", "measurand2_uncertainty_cal"):
            r[f] = vals(rng, k)
        res.append(r)
        script += ["w_res", native.line([k, r["uuid"], begin, end, a, b, r["muuid"]])]
        script += [native.line(r[f]) for f in ("t", "k_res", "k_res_unc", "k_res_weights", "measurand1", "measurand2", "measurand1_uncertainty_tel",
                                              "measurand2_uncertainty_tel", "measurand1_uncertainty_cal", "measurand2_uncertainty_cal")]
    ts = instants(rng)
    for t in ts:
        script += ["iso", native.line([t])]
    m.sample(job=str(c.job), run=str({k: v for k, v in c.run.items() if "name_v" not in k and "name_a" not in k})[:200], n=n, pairs=np_, sensors=ns,
             config=nc)
    m.key("shape", n, np_, ns, nc > 0)
    m.key("names", "name_parameter_dataset" in c.run, "name_residuals_dataset" in c.run, "enable_unit" in c.job, "id" in c.job)
    r = native.vdrv("\n".join(script) + "\n", here)
    m.check(r.memory_error is None, "memory error or undefined behaviour in the native writer", what=r.memory_error)
    m.check(r.rc == 0, "the writer failed", what=r.tail())
    got = [g for g in native.parse(r.out) if g[0] == "iso"]
    m.equal(len(got), len(ts), "time stamps reported")
    for t, (_, g) in zip(ts, got):
        m.equal(g[0][1], iso(t), "time stamp of %r" % t)
        m.saw("time stamps compared")
    files = sorted(f for f in os.listdir(here) if not f.endswith(".nml"))
    m.equal(len(files), 1 + len(res), "one file for the parameters and one for each pair", )
    unit = c.job.get("enable_unit")
    # ---- parameters
    name = None
    if "name_parameter_dataset" in c.run:
        name = c.run["name_parameter_dataset"] + ".nc"
    else:
        cand = [f for f in files if "_res_" not in f and f.startswith("harm_") and f.endswith("_%s_%s.nc" % (begin, end))]
        m.equal(len(cand), 1, "parameter file under a name of the job, data set and time range: %s" % files)
        name = cand[0]
    m.check(name in files, "parameter file under the configured name", want=name, files=files)
    with Dataset(os.path.join(here, name)) as d:
        d.set_auto_mask(False)
        d.set_always_mask(False)
        a = {k: d.getncattr(k) for k in d.ncattrs()}
        if "name_parameter_dataset" not in c.run:
            m.equal(name, base_name(a, c, begin, end) + ".nc", "name of the parameter file")
        identification(m, a, c, begin, end, uuid)
        for k, v in zip(("number_of_matchups", "cost", "cost_reduced", "cost_p_value", "cost_matchup", "cost_sensors", "k_res_mean", "k_res_sdev"),
                        total):
            m.equal(a[c.att[k]].item() if hasattr(a[c.att[k]], "item") else a[c.att[k]], v, "fit statistic " + k)
        stat = list(zip(*per))
        p.update(number_of_matchups=list(stat[0]), cost=list(stat[1]), cost_reduced=list(stat[2]), k_res_mean=list(stat[6]),
                 k_res_sdev=list(stat[7]))
        for k in sorted(p):
            v = c.var[k]
            if k.startswith("sensor_equation_y") and not nc:
                m.check(v not in d.variables, "sensor configuration without any configured", variable=v)
                continue
            if not m.check(v in d.variables, "variable missing in the parameter file", variable=v):
                continue
            w = d.variables[v]
            if isinstance(p[k], list) and p[k] and isinstance(p[k][0], str):
                m.equal(text(w[:]), p[k], "text variable " + v)
            else:
                m.check(w.dtype.kind == ("i" if isinstance(np.ravel(p[k])[0].item(), int) else "f") and (w.dtype.kind == "i" or w.dtype.itemsize == 8),
                        "type of a parameter variable", variable=v, got=str(w.dtype))
                m.close(w[:], p[k], "variable " + v, rtol=0)
            want = unit if k in ("k_res_mean", "k_res_sdev") else None
            m.equal(text(getattr(w, "units", "")), want or "", "unit of " + v)
            m.saw("parameter variables compared")
        extra = [v for v in d.variables if v not in [c.var[k] for k in p]]
        m.equal(extra, [], "variables that were not given")
    # ---- residuals
    seen = {name}
    for r_ in res:
        a_, b_ = r_["pair"]
        tail = "_%s_%s.nc" % (a_, b_)
        if "name_residuals_dataset" in c.run:
            name = c.run["name_residuals_dataset"] + tail
            m.check(name in files, "residual file under the configured name", want=name, files=files)
        else:
            cand = [f for f in files if f.startswith("harm_") and f.endswith("_%s_%s_res%s" % (begin, end, tail))]
            m.equal(len(cand), 1, "residual file under a name of the job, data set, time range and sensors: %s" % files)
            name = cand[0]
        m.check(name not in seen, "two results share a file", name=name)
        seen.add(name)
        with Dataset(os.path.join(here, name)) as d:
            d.set_auto_mask(False)
            at = {k: d.getncattr(k) for k in d.ncattrs()}
            if "name_residuals_dataset" not in c.run:
                m.equal(name, base_name(at, c, begin, end) + "_res" + tail, "name of the residual file")
            identification(m, at, c, begin, end, r_["uuid"])
            m.equal([text(at[c.att[k]]) for k in ("sensor_i", "sensor_j", "matchup_dataset_uuid")], [a_, b_, r_["muuid"]], "sensors and UUID")
            named = {c.var.get(k, k): k for k in r_ if k not in ("uuid", "pair", "muuid", "n", "t")}
            named[c.var["time"]] = "t"
            m.equal(sorted(d.variables), sorted(named), "variables of the residual file")
            for v, k in named.items():
                w = d.variables[v]
                m.close(w[:], r_[k] if k == "t" else np.array(r_[k]).astype(np.float32), "residual variable " + v, rtol=0)
                m.check(w.dtype.itemsize == (8 if k == "t" else 4), "type of a residual variable", variable=v, got=str(w.dtype))
                want = c.run.get("unit_var_time", "seconds since 1970-1-1 0:0:0") if k == "t" else \
                    ("" if not unit else "1 / " + unit if k == "k_res_weights" else unit)
                m.equal(text(getattr(w, "units", "")), want, "unit of " + v)
                m.saw("residual variables compared")
    m.saw("files read back", len(seen))
    neighbours(m, rng, c, begin, end, pool)


def identification(m, a, c, begin, end, uuid):
    m.equal([text(a[c.att[k]]) for k in ("job", "job_id", "matchup_dataset_id", "matchup_dataset_begin", "matchup_dataset_end", "uuid")],
            [c.job_path, c.job.get("id", "01"), c.job.get("matchup_dataset_id", ""), begin, end, uuid], "identification of the result")
    m.equal(text(a[c.att["software"]]), c.run.get("value_att_software", "FO"), "software")


def neighbours(m, rng, c, begin, end, pool):
    """Names asked for under configurations that differ in one component."""
    names = {}
    others = [("same", {}), ("job", {"id": word(rng, 20)}), ("data set", {"matchup_dataset_id": word(rng, 70)})]
    saved = dict(c.job)
    for q, (what, change) in enumerate(others):
        c.job = dict(saved, **change)
        here = os.path.join(m.tmp, "n%d" % q)
        c.save(here)
        asked = [(".nc", begin, end, pool[0], pool[1])]
        if what == "same":
            asked += [(".nc", date(rng), end, pool[0], pool[1]), (".nc", begin, date(rng), pool[0], pool[1]),
                      (".nc", begin, end, pool[1], pool[0]), (".nc", begin, end, pool[0], pool[1] + "x"), (".nc", begin, end, pool[2], pool[1]),
                      (".dat", begin, end, pool[0], pool[1])]
        script = ["config"]
        for x in asked:
            script += ["n_par", native.line(x[:3]), "n_res", native.line(x)]
        r = native.vdrv("\n".join(script) + "\n", here)
        m.check(r.memory_error is None, "memory error or undefined behaviour in the name functions", what=r.memory_error)
        m.check(r.rc == 0, "the name functions failed", what=r.tail())
        got = [g[1][0][1].rstrip() for g in native.parse(r.out) if g[0].startswith("n_")]
        m.equal(len(got), 2 * len(asked), "names reported")
        ids = (c.job.get("id"), c.job.get("matchup_dataset_id"))
        for x, par, res in zip(asked, got[::2], got[1::2]):
            # the components that must tell the names apart, explicit names leave the job and data set to the user
            kp = ("par", x[0]) if "name_parameter_dataset" in c.run else ("par", ids) + x[:3]
            kr = ("res", x[0]) + x[3:] if "name_residuals_dataset" in c.run else ("res", ids) + x
            for key, nm in ((kp, par), (kr, res)):
                for k2, n2 in names.items():
                    m.check((k2 == key) == (n2 == nm), "different results share a file name or equal ones do not", first=n2, second=nm)
                names[key] = nm
                m.check(" " not in nm.strip() and nm.endswith(x[0]), "file name", name=nm)
            m.saw("names compared", 2)
    c.job = saved
