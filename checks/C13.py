"""C13: solver states saved and opened: the real solver object is saved before or after runs, into new or used directories, and opened in solvers built
on the same files by other routes; everything the restored solver computes is compared with the saved one's, and whole harmonisations are resumed."""
import copy
import os
import sys

import numpy as np
import gnlib
from checks import C11

PROP = "C13"
RULE = ("data sets of 1-4 series with any mixture of uncertainty types, preconditioned or not, saved as built, moved to another estimate or after a run, into new, nested or "
        "already used directories, opened in solvers built on transformed or untransformed data with other starting values; every tenth case resumes a complete harmonisation; "
        "non-trivial when some covariate is structured or systematic")
N = {"quick": 80, "thorough": 1500}
BUDGET = {"quick": 150, "thorough": 700}
MIN_RAN = .6
CASE_S = 200
GP = C11.GP
FILES = [GP + "GN_algo.py", GP + "HarmonisationEIV.py"]
NEED = ["restored", "untransformed", "overwritten", "nested", "after_run", "moved", "as_built", "resumed", "rerun", "complete"]
pkg = None


def setup():
    global pkg
    C11.setup()
    pkg = C11.pkg
    C11.pool(True)


def plain(v):
    return np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)


def behaviour(G, xs, ys):
    """What the solver computes at its present estimate."""
    return [np.asarray(G.calc_f(G.xyza, G.HData), float)] + [np.asarray(G.get_JPx(x), float) for x in xs] + [np.asarray(G.get_JPTx(y), float) for y in ys] + \
        [np.asarray(G.calc_Hx(x), float) for x in xs]


def fresh(P, folder, rng, transformed):
    from harmonisation import open_matchup
    mu = open_matchup(folder)
    mu.setSensorData(P.sensor_data(P.a_true + rng.normal(0, .2, len(P.a_true))))
    return pkg.Transform2NormInd().run(mu) if transformed else mu


def solver_case(m, rng, i):
    from harness import SkipCase
    will_run = rng.random() < .4
    if will_run:
        P = C11.make(rng, False, float(rng.random() < .8), (6, 14))
        if P is None:
            raise SkipCase
    else:
        P = gnlib.Problem(rng, max_M=20, min_M=1 if rng.random() < .3 else 6, max_series=4, max_m=3)
    n_a = len(P.a_true)
    m.key(*P.key())
    m.trivial = all(b["t"] == 1 for b in P.mod["blocks"])
    data = os.path.join(m.tmp, "data")
    os.mkdir(data)
    P.write(data)
    t, mu = gnlib.prepare(P, data, P.a_true + rng.normal(0, .1, n_a))
    V0 = None
    if rng.random() < .6 and n_a:
        q = rng.normal(0, 1, (n_a, n_a))
        V0 = (q @ q.T + .3 * np.eye(n_a)) * (.02 if will_run else 10 ** rng.uniform(-3, 1))
    G = pkg.GNAlgo(t, V0) if V0 is not None else pkg.GNAlgo(t)
    state = "as_built"
    if will_run:
        G.run(return_covariance=False)
        state = "after_run"
    elif rng.random() < .6:
        G.xyza = np.asarray(G.xyza) + rng.normal(0, 1, P.N_var + n_a) * np.where(np.arange(P.N_var + n_a) < P.N_var, 1., .2)
        state = "moved"
    m.saw(state)
    # where to
    d = os.path.join(m.tmp, "state")
    if rng.random() < .4:
        d = os.path.join(d, "of", "job_%d" % i)
        m.saw("nested")
    used = rng.random()
    if used < .5:
        os.makedirs(d)
        if used < .25:
            # another data set's state, or an earlier one of this solver, is there already
            if rng.random() < .5:
                Q = gnlib.Problem(rng, max_M=30, min_M=6, max_series=3, max_m=3)
                od = os.path.join(m.tmp, "other")
                os.mkdir(od)
                Q.write(od)
                pkg.GNAlgo(gnlib.prepare(Q, od, Q.a_true)[0]).save(d)
            else:
                H = pkg.GNAlgo(t)
                H.xyza = np.asarray(H.xyza) + 3.
                H.save(d)
            m.saw("overwritten")
    xs, ys = [rng.normal(0, 1, P.N_var + n_a) for _ in range(2)], [rng.normal(0, 1, P.N_var + len(P.K)) for _ in range(2)]
    before = behaviour(G, xs, ys)
    held = copy.deepcopy((np.array(t.values), np.array(t.ks), np.array(G.xyza), np.array(G.S), t.idx))
    G.save(d)
    m.check(all(np.array_equal(a, b) for a, b in zip(held[:4], (t.values, t.ks, G.xyza, G.S))) and repr(held[4]) == repr(t.idx), "saving leaves the solver as it was")
    again = behaviour(G, xs, ys)
    m.check(all(np.array_equal(a, b) for a, b in zip(before, again)), "the saved solver computes the same as before")

    transformed = rng.random() < .5
    if not transformed:
        m.saw("untransformed")
    H = pkg.GNAlgo(fresh(P, data, rng, transformed))
    if rng.random() < .3:
        H.xyza = np.zeros(3)
    H.open(d)
    m.saw("restored")
    what = "state saved %s, opened on %s data: " % (state, "transformed" if transformed else "opened")
    for nm, a, b in (("measured values", H.HData.values, t.values), ("estimates", H.xyza, G.xyza), ("preconditioner", H.S, G.S), ("K", H.HData.ks, t.ks)):
        m.equal(np.shape(a), np.shape(b), what + "shape of the " + nm)
        m.close(plain(a), np.asarray(b, float), what + nm, rtol=2e-7, atol=1e-30)
    for k in t.idx:
        m.equal(H.HData.idx.get(k), t.idx[k], what + "index " + k)
    z = np.abs(np.asarray(G.xyza, float))
    full = gnlib.sparse_jacobian(P, np.asarray(G.xyza, float))
    scale = np.asarray(abs(full) @ z).ravel() + np.abs(before[0]) + np.concatenate([np.abs(np.asarray(t.values, float)), np.abs(P.K) / P.uK])
    got = behaviour(H, xs, ys)
    names = ["residuals"] + ["forward product"] * 2 + ["transposed product"] * 2 + ["normal product"] * 2
    for nm, a, b in zip(names, got, before):
        at = 3e-6 * scale + 1e-6 if nm == "residuals" else 3e-5 * np.abs(b).max() + 1e-6
        m.close(a, b, what + nm, rtol=1e-5, atol=at)
    if will_run:
        sd = np.sqrt(np.diag(gnlib.covariance(P, full)))
        k, l = (int(v) for v in rng.integers(0, n_a, 2))
        m.close(H.calculate_parameter_covariance_matrix_ij([k, l]) / (sd[k] * sd[l]), G.calculate_parameter_covariance_matrix_ij([k, l]) / (sd[k] * sd[l]), what + "covariance element", rtol=0, atol=5e-3)
        m.saw("rerun")
        r1 = G.run(return_covariance=False)
        r2 = H.run(return_covariance=False)
        m.close(np.asarray(r2[0], float) / sd, np.asarray(r1[0], float) / sd, what + "solution", rtol=1e-5, atol=.02)
        m.close(r2[2], r1[2], what + "cost", rtol=1e-3, atol=1e-3)
        m.equal(int(r2[3]), int(r1[3]), what + "degrees of freedom")
        for nm, q in (("measurement", 5), ("K", 6)):
            s = np.abs(np.asarray(r1[q], float)).max() + .01
            m.close(np.asarray(r2[q], float) / s, np.asarray(r1[q], float) / s, what + nm + " residuals", rtol=1e-2, atol=.02)
    m.sample(variables=P.N_var, parameters=n_a, state=state)


def complete_case(m, rng, i):
    """A harmonisation saving its preconditioner and solver state, and one resuming from both."""
    from harness import SkipCase
    from harmonisation import open_matchup
    P = C11.make(rng, False, 1., (90, 150))
    if P is None:
        raise SkipCase
    m.key("complete", *P.key())
    data, pc, gn = (os.path.join(m.tmp, q) for q in ("data", "harm_pc.nc", "gn"))
    os.mkdir(data)
    P.write(data)

    def op():
        mu = open_matchup(data)
        mu.setSensorData(P.sensor_data(P.a_true + rng.normal(0, .1, len(P.a_true))))
        return mu
    m.saw("complete")
    r1 = pkg.HarmonisationEIV().run(op(), save_pc=pc, save_gn=gn, show=0)
    m.check(os.path.exists(gn) and os.path.exists(pc), "preconditioner and solver state are saved where asked")
    r2 = pkg.HarmonisationEIV().run(op(), pc_input=pc, gn_input=gn, show=0)
    m.saw("resumed")
    sd = np.sqrt(np.diag(np.asarray(r1.parameter_covariance_matrix, float)))
    m.close(np.asarray(r2.parameter, float) / sd, np.asarray(r1.parameter, float) / sd, "resumed harmonisation: parameters", rtol=1e-5, atol=.02)
    m.close(np.asarray(r2.parameter_covariance_matrix, float) / np.outer(sd, sd), np.asarray(r1.parameter_covariance_matrix, float) / np.outer(sd, sd), "resumed harmonisation: covariance", rtol=0, atol=.01)
    m.close(r2.cost, r1.cost, "resumed harmonisation: cost", rtol=1e-3, atol=1e-3)
    m.equal(list(r2.parameter_sensors), list(r1.parameter_sensors), "resumed harmonisation: sensors of the parameters")
    s = np.abs(np.asarray(r1.ks_res, float)).max() + .01
    m.close(np.asarray(r2.ks_res, float) / s, np.asarray(r1.ks_res, float) / s, "resumed harmonisation: K residuals", rtol=1e-2, atol=.02)
    s = np.abs(np.asarray(r1.values_res, float)).max() + .01
    m.close(np.asarray(r2.values_res, float) / s, np.asarray(r1.values_res, float) / s, "resumed harmonisation: measurement residuals", rtol=1e-2, atol=.02)
    for k in r1.idx:
        m.equal(r2.idx.get(k), r1.idx[k], "resumed harmonisation: index " + k)


def case(m, rng, i):
    (complete_case if i % 10 == 9 else solver_case)(m, rng, i)
