"""C30: harmonisation diagnostics. The plotting programs and the values behind them run on generated match-ups and results; a stand-in for the plotting library
records every curve drawn, and each is compared with what the generated data say, computed here in double precision."""
import contextlib
import importlib
import io
import logging
import os
import pickle
import sys
from datetime import datetime, timedelta

import numpy as np

import gen
import gnlib

PROP = "C30"
RULE = ("data sets of 1-5 series of 1-80 match-ups (some above the number drawn), sensors with differing covariate counts and named or unnamed variables, additional variables "
        "with missing values, constant or absent from a series, results with the parameters in any order; harm_plot, harm_comp_plot, single plots and values asked for in any order; "
        "non-trivial with two series or more")
N = {"quick": 60, "thorough": 1500}
BUDGET = {"quick": 150, "thorough": 600}
MIN_RAN = .6
CASE_S = 200
T = "harmonisation.tools."
B = "harmonisation_eiv/harmonisation/"
FILES = [B + "core/matchup/matchupVis/MatchUpVis.py", B + "core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py", B + "core/utils/plots.py",
         B + "tools/HarmonisationPlottingOp.py", B + "tools/HarmonisationCompPlottingOp.py", B + "tools/harm_plot.py", B + "tools/harm_comp_plot.py"]
NEED = ["values", "program", "comparison", "scatter", "monthly", "binned", "all series binned", "missing value", "absent variable", "constant variable", "more covariates on one side", "named variables",
        "sampled", "subset", "other parameter order", "density"]
EPOCH = datetime(1970, 1, 1)


def setup():
    global vis, mvis, common, HR, plots
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "fakemat")
    if p not in sys.path:
        sys.path.insert(0, p)
    HR = gnlib.load().HarmonisationResult
    common = importlib.import_module(T + "common")
    vis = importlib.import_module(gnlib.HP + "harmonisationVis.HarmonisationVis")
    mvis = importlib.import_module(gnlib.BASE + "matchupVis.MatchUpVis")
    plots = importlib.import_module("harmonisation.core.utils.plots")


def when(t):
    return EPOCH + timedelta(seconds=int(np.floor(t)))


class Truth:
    """What the data set and the result say."""

    def __init__(self, P, a_nom, a_harm):
        self.P, self.a_nom, self.a_harm = P, a_nom, a_harm
        self.S = P.spec["series"]
        self.mod = gen.model(P.spec)
        self.idx = self.mod["idx"]
        X = [b["x"].astype(float) for b in self.mod["blocks"]]
        self.nom = [[np.asarray(d["extra"]["nominal_measurand%d" % s][1], float) for s in (1, 2)] for d in self.S]
        for p in self.nom:
            for v in p:
                v[v == gen.FILL] = np.nan
        self.harm = self.measurands(X, a_harm)
        self.K = [d["K"] for d in self.S]
        self.kres = {"nominal": [b - a - k for (a, b), k in zip(self.nom, self.K)],
                     "harmonised": [b - a - k for (a, b), k in zip(self.harm, self.K)],
                     "nom_harm": [n[1] - h[0] - k for n, h, k in zip(self.nom, self.harm, self.K)]}
        self.t = [np.array([when(v) for v in d["time2"]]) for d in self.S]
        self.labels = ["%s - %s" % d["s"] for d in self.S]
        self.scale = max(1., max(float(np.nanmax(np.abs(v))) for p in self.harm + self.nom for v in p))

    def measurands(self, X, a, adjusted=True):
        P, out = self.P, []
        for k, d in enumerate(self.S):
            pair = []
            for side in (1, 2):
                s = d["s"][side - 1]
                sd = P.sensors[s]
                cols = np.column_stack([x for x, b in zip(X, self.mod["blocks"]) if b["mu"] == k + 1 and b["side"] == side])
                at = [v for v, ps in zip(a, P.par_sensor) if ps == s]
                mdl = sd["sensor_model"]
                e = P.extra(k, side, mdl) if adjusted else np.zeros(len(cols))
                R = mdl.double(cols, at, sd["sensor_model_constant"], e)
                pair.append(sd.get("sensor_adjustment_model", gnlib.NoAdjust())(R)[0] if adjusted else R)
            out.append(pair)
        return out


def problem(m, rng, big=False):
    from harness import SkipCase
    for _ in range(50):
        P = gnlib.Problem(rng, types=(1,), min_M=1 if not big else 3000, max_M=80 if not big else 9000, max_series=5 if not big else 3, npar=None, max_m=4,
                          ref=rng.random() < .6, tm=False if big else True, track=not big, scale_u=(.01, .05))
        pairs = [d["s"] for d in P.spec["series"]]
        if len(set(pairs)) == len(pairs) and P.par_sensor:
            break
    else:
        raise SkipCase
    for k, d in enumerate(P.spec["series"]):
        M = d["M"]
        # distinct continuous values, times within decades
        for side in (1, 2):
            d["X%d" % side] = np.float32(rng.normal(3, 1, (M, d["m"][side - 1]))).astype(float)
        t0 = rng.uniform(3e8, 1.4e9)
        span = float(rng.choice([1e5, 1e7, 1e8]))
        d["time2"] = np.floor(t0 + np.sort(rng.uniform(0, span, M)) + np.arange(M))
        if rng.random() < .3:
            d["time2"] = d["time2"][rng.permutation(M)]
        d["time1"] = d["time2"] - rng.integers(0, 900, M)
        d["extra"] = {}
        for side in (1, 2):
            v = np.round(rng.normal(3, 1.5, M), 5)
            if rng.random() < .3 and M > 1:
                v[rng.random(M) < .2] = gen.FILL
                m.saw("missing value")
            d["extra"]["nominal_measurand%d" % side] = ("f8", v)
    add = ["latitude", "angle2", "nominal_BT1"][:int(rng.integers(0, 4))] if not big else []
    for x in add:
        for k, d in enumerate(P.spec["series"]):
            u = rng.random()
            if u < .15 and k:
                m.saw("absent variable")
                continue
            v = np.round(rng.normal(20, 30, d["M"]), 4)
            if u < .3:
                v[:] = 7.25
                m.saw("constant variable")
            elif u < .5:
                v[rng.random(d["M"]) < .2] = gen.FILL
                m.saw("missing value")
            d["extra"][x] = ("f8", v)
    return P


def sensor_data(m, rng, P, a):
    sd = P.sensor_data(a)
    ms = dict(zip(P.mod["idx"]["sensors"], P.mod["idx"]["sensor_ms"]))
    names = None
    if rng.random() < .5:
        m.saw("named variables")
        per = rng.random() < .4
        names = {}
        for s in sd:
            n = int(ms[s])
            names[s] = ["%s%s" % (w, "_" + s if per else "") for w in ["C_S", "C_ICT", "T_orb", "L_ICT"][:n]]
            sd[s]["sensor_model_variable_names"] = names[s]
            sd[s]["sensor_model_variable_labels"] = ["l" + w for w in names[s]]
    return sd, names


def var_name(names, s, c):
    return names[s][c - 1] if names else "X%d" % c


def finite(x):
    return np.array([not (isinstance(v, float) and v != v) for v in np.asarray(x, dtype=object)])


def load(m, path, what):
    if not m.check(os.path.isfile(path), what + "plot missing: " + os.path.basename(path)):
        return None
    with open(path, "rb") as f:
        return pickle.load(f)


def num(x):
    x = np.asarray(x)
    if x.dtype == object and len(x) and isinstance(x[0], datetime):
        return np.array([(v - EPOCH).total_seconds() for v in x])
    return np.asarray(x, dtype=float)


def drawn(c):
    x, y = num(c["x"]), num(c["y"])
    ok = ~(np.isnan(x) | np.isnan(y))
    return x[ok], y[ok], None if c["yerr"] is None else np.asarray(c["yerr"], float)[ok]


def curves(m, rec, labels, what):
    """the recorded curve of every series, by its label"""
    by = {}
    for c in rec["curves"]:
        if len(drawn(c)[0]) == 0:
            continue
        m.check(c["label"] in labels, what + "a curve of no match-up series", got=c["label"])
        m.check(c["label"] not in by, what + "two curves of %s" % c["label"])
        by[c["label"]] = c
    if len(labels) > 1:
        m.check(rec["legend"], what + "no legend")
    return by


def points(m, c, X, Y, what, xtol, ytol, subset=False):
    """the points drawn are those of the series, missing ones apart"""
    X, Y = num(X), num(Y)
    ok = ~(np.isnan(X) | np.isnan(Y))
    X, Y = X[ok], Y[ok]
    gx, gy, _ = drawn(c) if c is not None else (np.zeros(0), np.zeros(0), None)
    m.saw("points", len(gx))
    if subset:
        o = np.argsort(X)
        j = np.clip(np.searchsorted(X[o], gx - xtol), 0, len(X) - 1)
        m.check(np.all(np.abs(X[o][j] - gx) <= 2 * xtol) and np.all(np.abs(Y[o][j] - gy) <= ytol + 1e-9), what + "points drawn that are no match-ups")
        return len(gx)
    if not m.check(len(gx) == len(X), what + "number of points", got=len(gx), want=len(X)):
        return len(gx)
    # in any order
    a, b = np.lexsort((gy, gx)), np.lexsort((Y, X))
    if xtol:
        # close abscissae may be ordered either way: match by nearest
        left = list(range(len(X)))
        for x, y in zip(gx, gy):
            q = [k for k in left if abs(X[k] - x) <= xtol and abs(Y[k] - y) <= ytol]
            if not m.check(q, what + "a point that is no match-up", point=(x, y)):
                return len(gx)
            left.remove(q[0])
    else:
        m.close(gx[a], X[b], what + "abscissae", rtol=0, atol=0)
        m.close(gy[a], Y[b], what + "ordinates", rtol=0, atol=ytol)
    return len(gx)


def check_scatter(m, rec, tr, X, Y, what, xtol, tol, sampled=False):
    by = curves(m, rec, tr.labels, what)
    m.saw("scatter")
    total = 0
    for k, l in enumerate(tr.labels):
        total += points(m, by.get(l), X[k], Y[k], what + l + ": ", xtol, tol, subset=sampled)
    return total


def months(t, y):
    by = {}
    for v, w in zip(t, y):
        by.setdefault(datetime(v.year, v.month, 1), []).append(w)
    return sorted(by), [by[k] for k in sorted(by)]


def check_monthly(m, rec, tr, Y, what, tol):
    by = curves(m, rec, tr.labels, what)
    m.saw("monthly")
    for k, l in enumerate(tr.labels):
        mt, vals = months(tr.t[k], Y[k])
        gx, gy, _ = drawn(by[l]) if l in by else (np.zeros(0), np.zeros(0), None)
        got = dict(zip(gx, gy))
        m.equal(len(got), len(gx), what + l + ": a month drawn twice")
        seconds = [(v - EPOCH).total_seconds() for v in mt]
        m.check(set(got) <= set(seconds), what + l + ": a month without match-ups")
        for s, v in zip(seconds, vals):
            if np.isnan(v).any():
                continue
            if m.check(s in got, what + l + ": month missing", month=s):
                m.close(got[s], np.mean(v), what + l + ": monthly mean", rtol=0, atol=tol)


def check_bins(m, c, x, y, lo, hi, what, tol, nb=50):
    """one binned line: mean and spread of every bin between lo and hi"""
    gx, gy, ge = drawn(c) if c is not None else (np.zeros(0), np.zeros(0), None)
    if not lo < hi:
        m.check(len(gx) <= 1, what + "points of no bin")
        return
    m.saw("binned")
    w = (hi - lo) / nb
    ok = ~np.isnan(x)
    p = (x[ok] - lo) / w
    yy = y[ok]
    near = np.abs(p - np.round(p)) < 1e-4
    doubt = set()
    for q in np.round(p[near]).astype(int):
        doubt |= {q - 1, q}
    got = {}
    for j, v in enumerate(gx):
        b = int(np.floor((v - lo) / w))
        if not m.check(0 <= b < nb and abs((v - lo) / w - b - .5) < 1e-2, what + "a point at no bin's centre", x=v, range=(lo, hi)):
            return
        m.check(b not in got, what + "a bin drawn twice")
        got[b] = j
    if len(gx):
        m.check(ge is not None, what + "no spread drawn")
    for b in range(nb):
        v = yy[(p >= b) & (p < b + 1)]
        if b in doubt or np.isnan(v).any():
            continue
        if len(v) == 0:
            m.check(b not in got, what + "an empty bin is drawn")
            continue
        if m.check(b in got, what + "a bin is missing", bin=b, values=len(v)):
            m.close(gy[got[b]], v.mean(), what + "mean of a bin", rtol=0, atol=tol)
            m.close(ge[got[b]], v.std(), what + "spread of a bin", rtol=0, atol=tol)


def check_binned_plots(m, directory, tr, stem, Y, names, variables, tol, mus=None):
    """the lines against the sensors' variables or against additional variables"""
    S = tr.S
    chosen = list(range(len(S))) if mus is None else [q - 1 for q in mus]
    for v in variables:
        per = isinstance(v, int)
        members = [k for k in chosen if not per or v <= S[k]["m"][1]]
        if not members:
            continue
        col = {}
        for k in range(len(S)):
            if per:
                if v <= S[k]["m"][1]:
                    col[k] = S[k]["X2"][:, v - 1]
            else:
                a = np.asarray(S[k]["extra"][v][1], float).copy() if v in S[k]["extra"] else np.full(S[k]["M"], np.nan)
                a[a == gen.FILL] = np.nan
                col[k] = a
        every = np.concatenate(list(col.values()))
        every = every[~np.isnan(every)]
        vn = lambda k: var_name(names, S[k]["s"][1], v) if per else v
        for k in members:
            x = col[k][~np.isnan(col[k])]
            f = "%s.%s_%s_binned.%s_%s.pdf" % (stem, vn(k), S[k]["s"][1], S[k]["s"][0], S[k]["s"][1])
            if len(x) == 0 or x.min() == x.max():
                continue
            rec = load(m, os.path.join(directory, f), "")
            if rec is None:
                return
            cs = [c for c in rec["curves"] if len(drawn(c)[0])]
            m.check(len(cs) <= 1, f + ": more than one curve")
            m.check(tr.labels[k] in str(rec["ylabel"]), f + ": labelled as another series", got=rec["ylabel"], want=tr.labels[k])
            check_bins(m, cs[0] if cs else None, col[k], Y[k], x.min(), x.max(), f + ": ", tol)
        if len(every) == 0 or every.min() == every.max():
            continue
        fs = [os.path.join(directory, "%s.%s_sensor_2_binned.pdf" % (stem, n)) for n in sorted({vn(k) for k in members})]
        fs = [f for f in fs if os.path.isfile(f)]
        if not m.check(len(fs) > 0, "no plot of all series against %s" % vn(members[0])):
            return
        rec = load(m, fs[0], "")
        m.saw("all series binned")
        what = os.path.basename(fs[0]) + ": "
        by = curves(m, rec, [tr.labels[k] for k in members], what)
        for k in members:
            check_bins(m, by.get(tr.labels[k]), col[k], Y[k], every.min(), every.max(), what + tr.labels[k] + ": ", tol)


def start(module, argv, name, data):
    class Factory:
        def get_sensor_data(self, n):
            if n != name:
                raise KeyError(n)
            return data

        def get_names(self):
            return [name]
    old = sys.argv, common.SensorDataFactory
    sys.argv, common.SensorDataFactory = [module] + argv, Factory
    sys.modules.pop(T + module, None)
    lg = logging.getLogger(T + "common")
    lg.handlers[:] = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return importlib.import_module(T + module).main()
    finally:
        sys.argv, common.SensorDataFactory = old
        lg.handlers[:] = []


def result(m, rng, P, a, order=None):
    r = HR()
    n = len(a)
    order = list(range(n)) if order is None else order
    r.parameter = np.array([a[k] for k in order])
    r.parameter_sensors = [P.par_sensor[k] for k in order]
    A = rng.normal(0, .1, (n, n))
    r.parameter_covariance_matrix = (A @ A.T)[np.ix_(order, order)]
    r.cost, r.cost_dof, r.cost_p_value = 1., 10, .5
    r.additional_attributes = {"software": "EV", "software_version": "0.0", "software_tag": "", "job_id": "01", "matchup_dataset": "TEST"}
    return r


def sensors_order(rng, P):
    """the parameters sensor by sensor, the sensors in another order"""
    u = list(dict.fromkeys(P.par_sensor))
    rng.shuffle(u)
    return [k for s in u for k, q in enumerate(P.par_sensor) if q == s]


def case(m, rng, i):
    mode = ["program", "values", "values", "comparison", "values", "values"][i % 6]
    big = mode != "comparison" and i % 12 in (0, 5)
    P = problem(m, rng, big)
    a_nom = rng.normal(0, .5, len(P.a_true))
    a_harm = rng.normal(0, .5, len(P.a_true))
    sd, names = sensor_data(m, rng, P, a_nom)
    S = P.spec["series"]
    if any(d["m"][0] > max(e["m"][1] for e in S) for d in S) or len({d["m"][1] for d in S}) > 1:
        m.saw("more covariates on one side")
    inp, out = os.path.join(m.tmp, "in"), os.path.join(m.tmp, "out")
    os.mkdir(out)
    gen.write_all(P.spec, inp)
    tr = Truth(P, a_nom, a_harm)
    m.trivial = len(S) < 2
    m.key(mode, big, gen.shape_key(P.spec), len(a_nom), bool(names), [sorted(d["extra"]) for d in S])
    m.sample(mode=mode, series=[(d["s"], d["M"], d["m"]) for d in S])
    order = None
    if rng.random() < .6 and mode != "comparison":
        order = sensors_order(rng, P)
        if order != sorted(order):
            m.saw("other parameter order")
    r = result(m, rng, P, a_harm, order)
    tol = 2e-5 * tr.scale
    if mode == "comparison":
        return comparison(m, rng, P, tr, sd, r, inp, out)
    if mode == "program":
        m.saw("program")
        r.save(os.path.join(out, "harm_run.nc"), save_residuals=False)
        m.check(not start("harm_plot", ["-i", inp, "-s", "THE SENSORS", "-o", out] + [[], ["--quiet"]][i // 6 % 2], "THE SENSORS", sd), "harm_plot reports a failure")
        return program(m, out, tr, names, tol, big)
    from harmonisation import open_matchup
    mu = open_matchup(inp, open_uncertainty=bool(rng.random() < .5))
    mu.setSensorData(sd)
    values(m, rng, mu, r, tr, names, tol, big, out)


def want_values(tr):
    c = np.concatenate
    return {"get_L1_nom": c([p[0] for p in tr.nom]), "get_L2_nom": c([p[1] for p in tr.nom]), "get_L1_harm": c([p[0] for p in tr.harm]), "get_L2_harm": c([p[1] for p in tr.harm]),
            "get_kres_nom_nom": c(tr.kres["nominal"]), "get_kres_harm_harm": c(tr.kres["harmonised"]), "get_kres_nom_harm": c(tr.kres["nom_harm"])}


PER = {"L1_nom": lambda t: [p[0] for p in t.nom], "L2_nom": lambda t: [p[1] for p in t.nom], "L1_harm": lambda t: [p[0] for p in t.harm], "L2_harm": lambda t: [p[1] for p in t.harm],
       "kres_nom_nom": lambda t: t.kres["nominal"], "kres_harm_harm": lambda t: t.kres["harmonised"], "kres_nom_harm": lambda t: t.kres["nom_harm"], "times": lambda t: t.t}
KIND = {"nom_nom": ("nominal", "k_res_nominal"), "harm_harm": ("harmonised", "k_res_harmonised"), "nom_harm": ("nom_harm", "k_res_nom_harm")}


def sampled_total(tr):
    n = sum(d["M"] for d in tr.S)
    return n <= 10000, n


def values(m, rng, mu, r, tr, names, tol, big, out):
    m.saw("values")
    V = vis.HarmonisationVis(mu, r)
    a0, ps0 = np.array(mu.a), list(mu.idx["parameter_sensor"])
    want = want_values(tr)
    every, n = sampled_total(tr)
    asked = [str(q) for q in rng.permutation(sorted(want) + ["times", "musamples"])]
    scat = [("plot_kres_%s_scatter" % k, k) for k in KIND] + [("plot_kres_%s_scatter_monthlymean" % k, k) for k in KIND] + [("plot_L1_nom_v_L2_nom_scatter", "L_nom"), ("plot_L1_harm_v_L2_harm_scatter", "L_harm")]
    jobs = [("get", q) for q in asked[:int(rng.integers(2, len(asked) + 1))]] + [("plot", scat[int(q)]) for q in rng.permutation(len(scat))[:3]]
    if not big:
        jobs += [("binned", str(rng.choice(["harm_harm", "nom_harm"]))), ("additional", str(rng.choice(["harm_harm", "nom_harm"])))]
        if rng.random() < .5:
            jobs.append(("density", str(rng.choice(["nom_nom", "harm_harm", "nom_harm", "L_nom", "L_harm"]))))
    for q in rng.permutation(len(jobs)):
        what, arg = jobs[int(q)]
        d = os.path.join(out, "p%d" % int(q))
        os.mkdir(d)
        if what == "get" and arg in want:
            m.close(getattr(V, arg)(), want[arg], arg, rtol=0, atol=tol)
        elif what == "get" and arg == "times":
            m.equal(list(V.get_times()), list(np.concatenate(tr.t)), "times")
        elif what == "get":
            got = {k: getattr(V, "get_%s_musamples" % k)() for k in PER}
            for k in got:
                m.equal(len(got[k]), len(tr.S), "samples of " + k)
            for s in range(len(tr.S)):
                size = {len(got[k][s]) for k in got}
                m.equal(len(size), 1, "samples of one series differ in number")
                if every:
                    for k in got:
                        m.close(num(got[k][s]), num(PER[k](tr)[s]), "samples of %s of series %d" % (k, s + 1), rtol=0, atol=tol)
                else:
                    m.saw("sampled")
                    where = {v: j for j, v in enumerate(num(tr.t[s]))}
                    j = np.array([where[v] for v in num(got["times"][s])], dtype=int)
                    for k in got:
                        m.close(num(got[k][s]), num(PER[k](tr)[s])[j], "samples of %s of series %d: another match-up's" % (k, s + 1), rtol=0, atol=tol)
            tot = int(V.get_musamples_total())
            m.equal(tot, sum(len(x) for x in got["times"]), "number of samples")
            m.equal(int(V.get_mu_total()), n, "number of match-ups")
        elif what == "plot":
            name, k = arg
            kw = {}
            if "kres" in name and rng.random() < .3:
                kw["ylim"] = [-1.5, 2.5]
            m.check(getattr(V, name)(d, **kw) == 0, name)
            fs = os.listdir(d)
            m.equal(len(fs), 1, name + ": files")
            rec = load(m, os.path.join(d, fs[0]), name)
            one_plot(m, rec, tr, name, k, tol, every)
            if kw:
                m.equal(list(np.ravel(rec["ylim"])), kw["ylim"], name + ": limits")
            else:
                m.check(rec["ylim"] is None, name + ": limits of its own")
        elif what == "density":
            m.saw("density")
            density(m, V, tr, arg, d)
        else:
            key, stem = KIND[arg]
            mus = None
            if rng.random() < .4:
                mus = sorted(int(q) + 1 for q in rng.permutation(len(tr.S))[:int(rng.integers(1, len(tr.S) + 1))])
                m.saw("subset")
            kw = {} if mus is None else {"mus": list(mus)}
            if what == "binned":
                getattr(V, "plot_kres_%s_X_binned_line" % arg)(d, **kw)
                check_binned_plots(m, d, tr, stem, tr.kres[key], names, list(range(1, max(e["m"][1] for e in tr.S) + 1)), tol, mus)
            else:
                getattr(V, "plot_kres_%s_additional_variables_binned_line" % arg)(d, **kw)
                check_binned_plots(m, d, tr, stem, tr.kres[key], names, sorted({x for e in tr.S for x in e["extra"]}), tol, mus)
    m.check(np.array_equal(a0, mu.a) and ps0 == list(mu.idx["parameter_sensor"]), "the match-up data's own parameters changed")


def one_plot(m, rec, tr, name, k, tol, every):
    if "monthlymean" in name:
        return check_monthly(m, rec, tr, tr.kres[KIND[k][0]], name + ": ", tol)
    if k in KIND:
        n = check_scatter(m, rec, tr, tr.t, tr.kres[KIND[k][0]], name + ": ", 0 if every else .1, tol, not every)
    else:
        X, Y = PER["L2" + k[1:]](tr), PER["L1" + k[1:]](tr)
        if not every:
            return
        m.check("ensor 1" in str(rec["ylabel"]) and "ensor 2" in str(rec["xlabel"]), name + ": sensors of the axes", got=(rec["xlabel"], rec["ylabel"]))
        n = check_scatter(m, rec, tr, X, Y, name + ": ", tol, tol)
    N = sum(d["M"] for d in tr.S)
    if not every:
        m.saw("sampled")
        m.check(n <= 10000, name + ": more points than samples", got=n)
    else:
        m.check(str(N) in str(rec["ylabel"]), name + ": number of samples in the label", got=rec["ylabel"], want=N)


def density(m, V, tr, kind, d):
    if kind in KIND:
        y, t = np.concatenate(tr.kres[KIND[kind][0]]), num(np.concatenate(tr.t))
        call = "plot_kres_%s_density" % kind
    else:
        y, t = np.concatenate(PER["L1" + kind[1:]](tr)), np.concatenate(PER["L2" + kind[1:]](tr))
        call = "plot_L1%s_v_L2%s_density" % (kind[1:], kind[1:])
    ok = ~(np.isnan(y) | np.isnan(t))
    y, t = y[ok], t[ok]
    if len(y) < 5 or np.ptp(y) == 0 or np.ptp(t) == 0 or abs(np.corrcoef(t, y)[0, 1]) > 1 - 1e-7:
        return
    m.saw("density of " + kind)
    getattr(V, call)(d)
    fs = os.listdir(d)
    m.equal(len(fs), 1, "density plot files")
    rec = load(m, os.path.join(d, fs[0]), "density")
    gx, gy, gz = rec["mesh"]
    from scipy.stats import gaussian_kde
    for g, v, what in ((gx, t, "times"), (gy, y, "residuals")):
        m.close([g.min(), g.max()], [v.min(), v.max()], "density plot: range of the " + what, rtol=1e-5, atol=1e-4)
    if kind not in KIND:
        m.check("ensor 1" in str(rec["ylabel"]) and "ensor 2" in str(rec["xlabel"]), "density plot: sensors of the axes", got=(rec["xlabel"], rec["ylabel"]))
    if abs(np.corrcoef(t, y)[0, 1]) > .9999:                 # the density of points on a line depends on their last digits
        return
    q = np.unravel_index(np.linspace(0, gz.size - 1, 40).astype(int), gz.shape)
    w = gaussian_kde(np.vstack([t, y]))(np.vstack([gx[q], gy[q]]))
    m.close(gz[q], w, "density", rtol=2e-2, atol=2e-3 * float(gz.max()))


def program(m, out, tr, names, tol, big):
    o = os.path.join(out, "plots", "overview")
    every, n = sampled_total(tr)
    for k, (key, stem) in KIND.items():
        rec = load(m, os.path.join(o, stem + "_scatter.pdf"), "")
        if rec is None:
            return
        one_plot(m, rec, tr, stem + "_scatter", k, tol, every)
        rec = load(m, os.path.join(o, stem + "_monthlymean.pdf"), "")
        check_monthly(m, rec, tr, tr.kres[key], stem + "_monthlymean: ", tol)
    for f, k in (("L1_vs_L2_nominal_scatter.pdf", "L_nom"), ("L1_vs_L2_harmonised_scatter.pdf", "L_harm")):
        one_plot(m, load(m, os.path.join(o, f), ""), tr, f, k, tol, every)
    for folder, kind in (("kres_harmonised", "harm_harm"), ("kres_nom_harm", "nom_harm")):
        key, stem = KIND[kind]
        d = os.path.join(out, "plots", "diagnostics", folder)
        check_binned_plots(m, os.path.join(d, "sensor_state_variables"), tr, stem, tr.kres[key], names, list(range(1, max(e["m"][1] for e in tr.S) + 1)), tol)
        check_binned_plots(m, os.path.join(d, "additional_variables"), tr, stem, tr.kres[key], names, sorted({x for e in tr.S for x in e["extra"]}), tol)


def comparison(m, rng, P, tr, sd, r, inp, out):
    """each sensor's calibration with the result's parameters against the one of the sensor data"""
    m.saw("comparison")
    for s in P.sensors:
        mdl = P.sensors[s]["sensor_model"]
        if getattr(mdl, "track", 0) or getattr(mdl, "tm", 0):
            mdl.track = mdl.tm = 0.
    r.save(os.path.join(out, "harm_run.nc"), save_residuals=False)
    m.check(not start("harm_comp_plot", ["-i", inp, "-s", "THE SENSORS", "-o", out], "THE SENSORS", sd), "harm_comp_plot reports a failure")
    X = [np.linspace(b["x"].min(), b["x"].max(), 20) for b in tr.mod["blocks"]]
    one = tr.measurands([x.astype(np.float32).astype(float) for x in X], tr.a_nom, adjusted=False)
    two = tr.measurands([x.astype(np.float32).astype(float) for x in X], tr.a_harm, adjusted=False)
    scale = max(1., max(np.abs(v).max() for p in one + two for v in p))
    V = np.asarray(r.parameter_covariance_matrix)
    for s in tr.idx["sensors"]:
        f = "compare_calibration.%s.pdf" % s
        rec = load(m, os.path.join(out, "plots", f), "")
        if rec is None:
            return
        if not m.check(len(rec["curves"]) == 1, f + ": one curve"):
            return
        gx, gy, ge = drawn(rec["curves"][0])
        sl = [k for k, q in enumerate(P.par_sensor) if q == s]
        why = []
        for k, d in enumerate(tr.S):
            for side in (1, 2):
                if d["s"][side - 1] != s:
                    continue
                x, y = one[k][side - 1], one[k][side - 1] - two[k][side - 1]
                mdl = P.sensors[s]["sensor_model"]
                if sl:
                    cols = np.column_stack([v for v, b in zip(X, tr.mod["blocks"]) if b["mu"] == k + 1 and b["side"] == side])
                    J = np.column_stack(mdl.parts(cols)[3]) * mdl.eff([tr.a_harm[q] for q in sl])[1]   # at the result's parameters
                    e = 2 * np.sqrt(np.einsum("ij,jk,ik->i", J, V[np.ix_(sl, sl)], J))
                else:
                    e = np.zeros(len(x))
                if len(gx) != len(x):
                    why.append("%d points" % len(gx))
                    continue
                q = [np.abs(gx - x).max() / scale, np.abs(gy - y).max() / scale, np.inf if ge is None else np.abs(ge - e).max() / max(1., e.max())]
                if max(q) < 3e-5:
                    break
                why.append("series %d: %s" % (k + 1, q))
            else:
                continue
            break
        else:
            m.fail(f + ": not the sensor's calibrations in any series", why=why)
        m.events["checks"] += 1
