"""C15: harmonisation results saved, opened, saved again and overwritten; the directory's files are read independently and what is opened is compared
with what was saved, series by series."""
import copy
import os
import sys

import numpy as np
from netCDF4 import Dataset

import gen
import gnlib

PROP = "C15"
RULE = ("results with 1-14 parameters, sensors of four naming styles, 1-6 series of distinct sensor pairs with differing covariate counts, with and without residuals, cost, "
        "attributes and numeric or text variables, saved over earlier ones or not, opened by directory or file, with and without residuals, and saved again; "
        "non-trivial with at least two series or additional variables")
N = {"quick": 500, "thorough": 3000}
BUDGET = {"quick": 150, "thorough": 600}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py"]
NEED = ["saved", "opened", "values_res", "no_values_res", "no_residuals", "open_without", "no_cost", "text_variable", "numeric_variable", "attributes",
        "saved_again", "overwritten", "none_refused", "two_refused", "mixed_m", "by_file", "first_not_reference",
        "zero_statistic", "long_names", "own_attribute", "some_without"]
HR = None


def setup():
    global HR
    HR = gnlib.load().HarmonisationResult


def num(v):
    return np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)


def build(m, rng):
    for _ in range(100):
        spec = gen.gen(rng, ref=rng.random() < .6, max_series=6, max_M=30 if rng.random() < .98 else 3000, types=(1,), p_opt=0., p_extra=0.)
        pairs = [tuple(d["s"]) for d in spec["series"]]
        if len(set(pairs)) == len(pairs):
            break
    else:
        from harness import SkipCase
        raise SkipCase
    idx = gen.model(spec)["idx"]
    n = int(rng.integers(1, 15))
    r = HR()
    big = lambda *k: rng.normal(0, 1, k) * 10. ** rng.integers(-12, 8, k)
    r.parameter = big(n) if rng.random() < .8 else big(n).astype(np.float32)
    r.parameter_sensors = [idx["sensors"][int(rng.integers(0, len(idx["sensors"])))] for _ in range(n)]
    if rng.random() < .15:          # names up to the field's 80 characters
        r.parameter_sensors = [(s + " of the simulated long time series, morning orbit, channel 4 rescaled and more")[:int(rng.integers(len(s), 81))].strip() for s in r.parameter_sensors]
        m.saw("long_names")
    r.parameter_covariance_matrix = big(n, n)
    if rng.random() < .8:
        r.cost, r.cost_dof, r.cost_p_value = float(rng.uniform(0, 1e7)), int(rng.integers(0, 10 ** 6)), float(rng.random())
        if rng.random() < .3:
            r.cost_dof = float(rng.choice([r.cost_dof + .5, -3.]))
        if rng.random() < .3:       # statistics that are nought
            k = str(rng.choice(["cost", "cost_dof", "cost_p_value"]))
            setattr(r, k, type(getattr(r, k))(0))
            m.saw("zero_statistic")
    else:
        m.saw("no_cost")
    r.idx = copy.deepcopy(idx)
    r.ks_res = rng.normal(0, 1, int(idx["cNm"][-1]))
    if rng.random() < .7:
        r.values_res = rng.normal(0, 1, int(idx["idx"][-1]))
        m.saw("values_res")
    else:
        m.saw("no_values_res")
    if rng.random() < .6:
        r.additional_attributes = {"software": "EV", "software_version": "0.0", "software_tag": "", "job_id": "%02d" % rng.integers(100), "matchup_dataset": "AVHRR_SIM__"}
        if rng.random() < .5:
            r.additional_attributes["n_trials"] = int(rng.integers(1, 1000))
            r.additional_attributes["tolerance"] = float(10. ** -rng.integers(1, 9))
        if rng.random() < .2:
            r.additional_attributes.update({"zz_%02d" % q: "value %d" % q for q in range(int(rng.integers(1, 40)))})
        if rng.random() < .1:       # an attribute the residual files have, too
            r.additional_attributes["sensor_1_name"] = "the result's own"
            m.saw("own_attribute")
        m.saw("attributes")
    if rng.random() < .5:
        k = int(rng.integers(1, 6))
        r.additional_variables["systematic_errors"] = {"data": rng.normal(0, 1, k).astype(np.float32), "dim": "s", "dtype": "f4", "Description": "Fitted systematic errors"}
        m.saw("numeric_variable")
        if rng.random() < .6:
            r.additional_variables["systematic_error_sensors"] = {"data": [idx["sensors"][int(rng.integers(0, len(idx["sensors"])))] for _ in range(k)], "dim": "s", "dtype": "S1"}
            m.saw("text_variable")
        if rng.random() < .3:
            r.additional_variables["nominal"] = {"data": rng.normal(0, 1, n), "dim": "n", "dtype": "f8"}
        if rng.random() < .3:
            r.additional_variables["counts"] = {"data": rng.integers(-5, 10 ** 6, k + 1).astype(np.int32), "dim": "q", "dtype": "i4"}
    return r, idx, spec


def values_of(v):
    """An additional variable's values, text decoded and stripped."""
    if isinstance(v, dict):
        v = v["data"]
    if isinstance(v, (list, tuple)):
        return [str(x) for x in v]
    a = np.ma.filled(v) if np.ma.isMaskedArray(v) else np.asarray(v)
    if a.dtype.kind == "S" and a.ndim == 2:
        return [b"".join(row).decode().strip() for row in a]
    if a.dtype.kind in "SU":
        return [(x.decode() if isinstance(x, bytes) else str(x)).strip() for x in a]
    return a


def same_result(m, got, want, what):
    m.close(num(got.parameter), want.parameter, what + "parameters", rtol=1e-15, atol=0)
    m.equal([str(s) for s in got.parameter_sensors], list(want.parameter_sensors), what + "sensors of the parameters")
    m.equal(np.shape(got.parameter_covariance_matrix), np.shape(want.parameter_covariance_matrix), what + "covariance shape")
    m.close(num(got.parameter_covariance_matrix), want.parameter_covariance_matrix, what + "covariance", rtol=1e-15, atol=0)
    for k in ("cost", "cost_dof", "cost_p_value"):
        a, b = getattr(got, k), getattr(want, k)
        m.check((a is None) == (b is None) and (b is None or a == b), what + k, got=a, want=b)
    for k, v in want.additional_attributes.items():
        m.check(k in got.additional_attributes and got.additional_attributes[k] == v, what + "attribute " + k, got=got.additional_attributes.get(k), want=v)
    m.equal(sorted(got.additional_variables), sorted(want.additional_variables), what + "additional variables")
    for k in want.additional_variables:
        a, b = values_of(got.additional_variables[k]), values_of(want.additional_variables[k])
        if isinstance(b, list):
            m.equal(a, b, what + "additional variable " + k)
        else:
            m.close(a, b, what + "additional variable " + k, rtol=0, atol=0)


def check_files(m, d, name, r, idx, what):
    """The residual files, read directly."""
    stem = os.path.splitext(name)[0]
    want = {"%s_res_%s_%s.nc" % (stem, idx["sensors"][p[0]], idx["sensors"][p[1]]): k for k, p in enumerate(idx["Im"])}
    m.equal(sorted(f for f in os.listdir(d) if "_res_" in f and f.startswith(stem) and f.endswith(".nc")), sorted(want), what + "residual files")
    blocks = list(zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"]))
    for f, k in want.items():
        with Dataset(os.path.join(d, f)) as ds:
            p = idx["Im"][k]
            m.equal([ds.sensor_1_name, ds.sensor_2_name], [idx["sensors"][q] for q in p], what + "sensors named in " + f)
            m.close(num(ds.variables["k_res"][:]), r.ks_res[idx["cNm"][k]:idx["cNm"][k + 1]], what + "K residuals in " + f, rtol=0, atol=0)
            m.equal(sorted(v for v in ds.variables), sorted(["k_res"] + (["X1_res", "X2_res"] if r.values_res is not None else [])), what + "variables of " + f)
            if r.values_res is not None:
                for side in (0, 1):
                    cols = []
                    for c in range(idx["sensor_ms"][p[side]]):
                        b = blocks.index((p[side], k + 1, c + 1))
                        cols.append(r.values_res[idx["idx"][b]:idx["idx"][b + 1]])
                    m.close(num(ds.variables["X%d_res" % (side + 1)][:]), np.column_stack(cols), what + "measurement residuals of sensor %d in %s" % (side + 1, f), rtol=0, atol=0)


def same_residuals(m, got, want, idx, what):
    g = got.idx
    n = len(idx["Im"])
    m.equal(len(g["Im"]), n, what + "series")
    m.equal(sorted(g["sensors"]), sorted(set(idx["sensors"][q] for p in idx["Im"] for q in p)), what + "sensors of the residuals")
    pairs = [tuple(g["sensors"][q] for q in p) for p in g["Im"]]
    mine = [tuple(idx["sensors"][q] for q in p) for p in idx["Im"]]
    m.equal(sorted(pairs), sorted(mine), what + "pairs of sensors")
    m.equal(list(g["cNm"]), [0] + list(np.cumsum(g["Nm"])), what + "cumulative sizes")
    m.equal(len(got.ks_res), int(g["cNm"][-1]), what + "number of K residuals")
    where = [mine.index(p) for p in pairs]
    for k, w in enumerate(where):
        m.equal(int(g["Nm"][k]), int(idx["Nm"][w]), what + "size of a series")
        m.close(num(got.ks_res[g["cNm"][k]:g["cNm"][k + 1]]), want.ks_res[idx["cNm"][w]:idx["cNm"][w + 1]], what + "K residuals of %s" % (pairs[k],), rtol=0, atol=0)
    if want.values_res is None:
        m.check(got.values_res is None, what + "no measurement residuals", got=got.values_res)
        return
    if g["sensor_ms"][0] != 1:
        m.saw("first_not_reference")
    gb, b = list(zip(g["n_sensor"], g["n_mu"], g["n_cov"])), list(zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"]))
    m.equal(len(set(gb)), len(gb), what + "blocks are distinct")
    m.equal(sorted((g["sensors"][s], where[k - 1], c) for s, k, c in gb), sorted((idx["sensors"][s], k - 1, c) for s, k, c in b), what + "blocks")
    m.equal(list(g["idx"]), [0] + [int(v) for v in np.cumsum(g["N_var"])], what + "block boundaries")
    m.equal(len(got.values_res), int(g["idx"][-1]), what + "number of measurement residuals")
    m.equal([g["sensor_ms"][g["sensors"].index(s)] for s in sorted(g["sensors"])], [idx["sensor_ms"][idx["sensors"].index(s)] for s in sorted(g["sensors"])], what + "covariates per sensor")
    for j, (s, k, c) in enumerate(gb):
        w = b.index((idx["sensors"].index(g["sensors"][s]), where[k - 1] + 1, c))
        m.close(num(got.values_res[g["idx"][j]:g["idx"][j + 1]]), want.values_res[idx["idx"][w]:idx["idx"][w + 1]], what + "measurement residuals of %s" % ((g["sensors"][s], pairs[k - 1], c),), rtol=0, atol=0)


def same_pair(m, rng):
    """Two series of the same pair of sensors."""
    r, idx, spec = build(m, rng)
    k = int(rng.integers(0, len(idx["Im"])))
    n = len(idx["Im"]) + 1
    idx = {"Nm": idx["Nm"] + [4], "cNm": list(idx["cNm"]) + [idx["cNm"][-1] + 4], "Im": idx["Im"] + [idx["Im"][k]], "sensors": idx["sensors"], "sensor_ms": idx["sensor_ms"],
           "n_sensor": idx["n_sensor"], "n_mu": idx["n_mu"], "n_cov": idx["n_cov"], "idx": idx["idx"], "N_var": idx["N_var"]}
    r.idx, r.values_res, r.ks_res = idx, None, np.append(r.ks_res, [7.] * 4)
    d = os.path.join(m.tmp, "pair")
    os.mkdir(d)
    r.save(os.path.join(d, "harm_x.nc"))
    files = [f for f in os.listdir(d) if "_res_" in f]
    m.check(len(files) == n, "a residual file per series, two of them of the same pair of sensors", finding="same-pair-one-file" if len(files) == n - 1 else None, got=len(files), want=n)
    kept = []
    for f in files:
        with Dataset(os.path.join(d, f)) as ds:
            kept.append(num(ds.variables["k_res"][:]))
    for q in range(n):
        mine = r.ks_res[idx["cNm"][q]:idx["cNm"][q + 1]]
        m.check(any(np.array_equal(mine, v) for v in kept), "K residuals of a series that shares its pair of sensors", finding="same-pair-one-file" if q == k else None)


def case(m, rng, i):
    if i % 25 == 3:
        same_pair(m, rng)
    r, idx, spec = build(m, rng)
    m.key(gen.shape_key(spec), len(r.parameter), r.values_res is None, sorted(r.additional_variables))
    m.trivial = len(idx["Im"]) < 2 and not r.additional_variables
    if len(set(idx["sensor_ms"])) > 1:
        m.saw("mixed_m")
    d = os.path.join(m.tmp, "out")
    os.mkdir(d)
    name = "harm_EV_0.0__%s_%s.nc" % (["01", "job", "a_b"][int(rng.integers(3))], ["AVHRR_RSA", "sim", "x", "lowres_sim", "AVHRR_presim", "resampled"][int(rng.integers(6))])
    path = os.path.join(d, name)
    for junk in ("notes.txt", "job.cfg", "plots.nc.txt", name + ".bak", name.replace(".nc", "_res_a_b.nc~")):
        if rng.random() < .2:
            open(os.path.join(d, junk), "w").write("harm")
    if rng.random() < .2:
        os.mkdir(os.path.join(d, "plots"))
    m.raises(lambda: HR(d), "a directory without result file", exc=IOError)
    m.saw("none_refused")
    if rng.random() < .3:
        # an earlier result of the same series under the same name
        old = copy.deepcopy(r)
        old.parameter = np.append(old.parameter, 1.)
        old.parameter_sensors = old.parameter_sensors + ["zz"]
        old.parameter_covariance_matrix = np.ones((len(old.parameter),) * 2)
        old.additional_variables = {"extra": {"data": np.arange(3.), "dim": "e", "dtype": "f8"}}
        old.ks_res = old.ks_res + 5.
        old.save(path)
        m.saw("overwritten")
    res = rng.random() < .8
    held = copy.deepcopy(vars(r))
    before = set(os.listdir(d))
    r.save(path, save_residuals=res)
    m.saw("saved")
    m.check(repr({k: v for k, v in held.items()}) == repr(vars(r)), "saving leaves the result as it was")
    what = "%d series, %d parameters: " % (len(idx["Im"]), len(r.parameter))
    if not res:
        m.saw("no_residuals")
        m.equal(sorted(set(os.listdir(d)) - before - {name}), [], what + "no residual files when not asked for")
    else:
        check_files(m, d, name, r, idx, what)
    got = HR(d, open_residuals=True) if rng.random() < .5 else HR(d)
    m.saw("opened")
    same_result(m, got, r, what)
    if res:
        same_residuals(m, got, r, idx, what)
    elif not any("_res_" in f and f.endswith(".nc") for f in before):
        m.check(got.ks_res is None and got.values_res is None and got.idx is None, what + "no residuals without residual files")
    lone = HR(d, open_residuals=False)
    m.saw("open_without")
    same_result(m, lone, r, what + "without residuals: ")
    m.check(lone.ks_res is None and lone.values_res is None and lone.idx is None, what + "residuals opened though not asked for")
    if rng.random() < .5:
        m.saw("by_file")
        same_result(m, HR(path, open_residuals=False), r, what + "from the file: ")
    # opened and saved again elsewhere
    if rng.random() < .5:
        d2 = os.path.join(m.tmp, "again")
        os.mkdir(d2)
        got.save(os.path.join(d2, "harm_again.nc"), save_residuals=res)
        m.saw("saved_again")
        g2 = HR(d2)
        same_result(m, g2, r, what + "saved again: ")
        if res:
            same_residuals(m, g2, r, idx, what + "saved again: ")
    # one of the series has no measurement residuals any more
    if res and r.values_res is not None and len(idx["Im"]) > 1 and rng.random() < .4:
        k = int(rng.integers(len(idx["Im"])))
        f = os.path.join(d, "%s_res_%s_%s.nc" % (os.path.splitext(name)[0], idx["sensors"][idx["Im"][k][0]], idx["sensors"][idx["Im"][k][1]]))
        os.remove(f)
        with Dataset(f, "w") as ds:
            ds.sensor_1_name, ds.sensor_2_name = [idx["sensors"][q] for q in idx["Im"][k]]
            ds.createDimension("M", idx["Nm"][k])
            ds.createVariable("k_res", "f8", ("M",))[:] = r.ks_res[idx["cNm"][k]:idx["cNm"][k + 1]]
        only_k = copy.copy(r)
        only_k.values_res = None
        m.saw("some_without")
        same_residuals(m, HR(d), only_k, idx, what + "a series without measurement residuals: ")
    # a second result in the directory
    HR_ = copy.deepcopy(r)
    HR_.save(os.path.join(d, "harm_second.nc"), save_residuals=False)
    m.raises(lambda: HR(d), "a directory with two result files", exc=IOError)
    m.saw("two_refused")
    m.sample(series=len(idx["Im"]), parameters=len(r.parameter))
