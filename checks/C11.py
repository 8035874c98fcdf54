"""C11: whole runs of the harmonisation solver on data sets with known parameters, judged against an independent double-precision Gauss-Newton
solution with exact linear solves of the same least-squares problem: cost, parameters, covariance, residuals, systematic errors; and of the complete
harmonisation (sampling, preconditioner, full solution), with saved and reused preconditioners."""
import os
import sys

import numpy as np
import gnlib

PROP = "C11"
RULE = ("well-posed data sets of 1-4 series with any mixture of uncertainty types, smooth non-linear sensor models, adjustment models, random noise (or none), "
        "starting points and preconditioners, run to convergence; every eighth case runs the complete harmonisation; non-trivial when some covariate is structured or systematic")
N = {"quick": 48, "thorough": 1200}
BUDGET = {"quick": 150, "thorough": 780}
MIN_RAN = .6
CASE_S = 200
GP = "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/"
FILES = [GP + "GN_algo.py", GP + "HarmonisationEIV.py", GP + "pykrylov_lsmr.py", GP + "pykrylov_minres.py"]
NEED = ["runs", "noise_free", "covariances", "no_covariance", "preconditioned", "systematic", "structured", "complete", "pool", "far_starts"]
pkg = None
real_pool = None


class Serial:
    """Stand-in for the process pool: most runs do without starting processes."""

    def __init__(self, *a, **k):
        pass

    def map(self, f, x):
        return [f(v) for v in x]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def setup():
    global pkg, gn, real_pool
    pkg = gnlib.load()
    gn = [m for n, m in sys.modules.items() if n.endswith(".GN_algo")][0]
    real_pool = getattr(gn, "Pool", None)


def pool(serial):
    if real_pool is not None:
        gn.Pool = Serial if serial else (lambda *a, **k: real_pool(2))


def residuals_back(P, f):
    """Residuals of the transformed variables and K in the units of the data."""
    return P.blocks_X(f[:P.N_var]), f[P.N_var:] * P.uK


def judge(m, P, t_values, a, V, cost, dof, p, vres, kres, sys_err, sys_sen, z, c, Vw, what, with_cov, noise):
    n_a = len(P.a_true)
    sd = np.sqrt(np.diag(Vw))
    r = P.residual(z, t_values)
    m.close(cost, c, what + "cost is the least-squares minimum", rtol=3e-4, atol=1e-4 if noise else 2e-4)
    m.close(np.asarray(a, float) / sd, z[P.N_var:] / sd, what + "parameters minimise the cost", rtol=1e-5, atol=.02)
    if not noise:
        m.saw("noise_free")
        m.close(np.asarray(a, float) / sd, P.a_true / sd, what + "true parameters recovered", rtol=1e-4, atol=.03)
    if with_cov:
        m.saw("covariances")
        V = np.asarray(V, float)
        m.check(np.array_equal(V, V.T), what + "covariance symmetric")
        cond = np.linalg.cond(Vw / np.outer(sd, sd))
        tol = 2e-3 + 2e-6 * cond
        m.close(V / np.outer(sd, sd), Vw / np.outer(sd, sd), what + "covariance is the parameter block of the inverse normal matrix", rtol=0, atol=tol)
        if cond < 1e3:
            m.check(np.linalg.eigvalsh(V / np.outer(sd, sd)).min() > 0, what + "covariance positive definite")
    else:
        m.saw("no_covariance")
        m.check(np.shape(V) == (n_a, n_a) and not np.any(V), what + "no covariance when not asked for", got=V)
    m.equal(int(dof), P.N_var - len(P.K) - n_a, what + "degrees of freedom")
    vw, kw = residuals_back(P, r)
    cN = P.mod["idx"]["cNm"]
    sizes = [b["N"] for b in P.mod["blocks"]]
    m.equal(len(vres), sum(sizes), what + "one residual per measurement")
    m.equal(len(kres), int(cN[-1]), what + "one residual per K")
    o = 0
    for b, w in zip(P.mod["blocks"], vw):
        s = b["ur"].max() if b["t"] in (1, 2) else max(b["u"])
        m.close(np.asarray(vres[o:o + b["N"]], float) / s, w / s, what + "measurement residuals of a block of type %d" % b["t"], rtol=1e-3, atol=.02)
        o += b["N"]
    m.close(np.asarray(kres, float) / P.uK, kw / P.uK, what + "K residuals", rtol=1e-3, atol=.02)
    n_s = P.mod["n_sys"]
    if n_s:
        m.saw("systematic")
        m.close(np.asarray(sys_err, float), z[P.N_var - n_s:P.N_var], what + "fitted systematic errors", rtol=1e-3, atol=.02)
        owner = {}
        for b in P.mod["blocks"]:
            if b["usi"]:
                owner[b["usi"]] = P.spec["series"][b["mu"] - 1]["s"][b["side"] - 1]
        m.equal(list(sys_sen), [owner[k] for k in range(1, n_s + 1)], what + "sensors of the systematic errors")
    else:
        m.check(sys_err is None or len(sys_err) == 0, what + "no systematic errors without such effects", got=sys_err)
    if any(b["t"] in (3, 4) for b in P.mod["blocks"]):
        m.saw("structured")


def make(rng, big, noise, M):
    # a well-posed problem: parameters determined by the data
    for _ in range(40):
        P = gnlib.Problem(rng, types=[(1, 2, 3, 4), (1,), (1, 2), (1, 3), (1, 2, 3, 4)][int(rng.integers(5))], noise=noise, max_series=4 if big else 2,
                          npar=None if big else int(rng.integers(1, 3)), max_m=3 if big else 2, min_M=M[0], max_M=M[1], curv=float(rng.uniform(0, 1.5)))
        n_a = len(P.a_true)
        if n_a == 0 or n_a > (9 if big else 4):
            continue
        z = np.concatenate([np.zeros(P.N_var), P.a_true])
        vals = transformed(P)
        z[:P.N_var] = vals
        V = gnlib.covariance(P, gnlib.sparse_jacobian(P, z))
        sd = np.sqrt(np.diag(V))
        if not np.isfinite(sd).all() or sd.max() > .5:
            continue
        if np.linalg.cond(V / np.outer(sd, sd)) > 2e3:
            continue
        return P
    return None


def transformed(P):
    """Variables reproducing the measured values: values over uncertainty; for structured blocks a least-squares solution."""
    out = []
    for b in P.mod["blocks"]:
        x = b["x"].astype(float)
        if b["t"] in (1, 2):
            out.append(x / b["ur"])
        else:
            out.append(np.linalg.lstsq(b["w"].toarray(), x, rcond=None)[0] / b["u"])
    return np.concatenate(out + [np.zeros(P.mod["n_sys"])])


def solver_case(m, rng, i):
    from harness import SkipCase
    noise = 0. if rng.random() < .25 else 1.
    big = rng.random() < .25
    P = make(rng, big, noise, (10, 30) if big else (6, 14))
    if P is None:
        raise SkipCase
    m.key(*P.key())
    m.trivial = all(b["t"] == 1 for b in P.mod["blocks"])
    P.write(m.tmp)
    n_a = len(P.a_true)
    far = [.15, .6, 1.5][int(rng.integers(3))]
    a0 = P.a_true + rng.normal(0, far, n_a)
    t, mu = gnlib.prepare(P, m.tmp, a0)
    values = np.array(t.values, dtype=float)
    V0 = None
    if rng.random() < .5:
        z0 = np.concatenate([values, a0])
        V0 = gnlib.covariance(P, gnlib.sparse_jacobian(P, z0))
        V0 = V0 * np.outer(*[10 ** rng.uniform(-.5, .5, n_a)] * 2)
        m.saw("preconditioned")
    G = pkg.GNAlgo(t, V0) if V0 is not None else pkg.GNAlgo(t)
    start = P.residual(np.concatenate([values, a0]), values)
    with_cov = not big
    par = rng.random() < .1
    pool(not par)
    if par and with_cov:
        m.saw("pool")
    keep = [np.array(q) for q in (t.values, t.ks, t.a)]
    out = G.run(show=bool(rng.random() < .1), return_covariance=with_cov)
    pool(True)
    m.saw("runs")
    what = "%d variables, %d parameters, %s: " % (P.N_var, n_a, "noise" if noise else "no noise")
    # a start far from the solution may lead to another minimum: what is returned is still one
    z, c, Vw = gnlib.optimum(P, np.concatenate([values, a0]) if far < .2 else np.array(G.xyza), values)
    other = abs(c - out[2]) < 1e-3 * c and c > 2 * gnlib.optimum(P, np.concatenate([values, P.a_true]), values)[1] + 1
    if far > .2:
        m.saw("far_starts")
    m.check(out[2] <= start @ start * (1 + 1e-5) + 1e-3, what + "cost not above the starting cost", got=out[2], start=start @ start)
    judge(m, P, values, out[0], out[1], out[2], out[3], out[4], out[5], out[6], out[7], out[8], z, c, Vw, what, with_cov, noise or other)
    m.check(all(np.array_equal(q, w) for q, w in zip(keep, (t.values, t.ks, t.a))), what + "the run leaves the measured data as they were")
    m.close(G.xyza[P.N_var:], out[0], what + "the solver holds the solution", rtol=0)
    scale = np.concatenate([np.ones(P.N_var), np.sqrt(np.diag(Vw))])
    m.close(G.xyza / scale, z / scale, what + "estimates of the variables", rtol=1e-4, atol=.02)
    if not with_cov:
        Vs = np.asarray(Vw)
        sd = np.sqrt(np.diag(Vs))
        for _ in range(2):
            k, l = (int(v) for v in rng.integers(0, n_a, 2))
            m.close(G.calculate_parameter_covariance_matrix_ij([k, l]) / (sd[k] * sd[l]), Vs[k, l] / (sd[k] * sd[l]), what + "covariance element", rtol=0, atol=5e-3)
    # starting again from the solution stays there
    if rng.random() < .2:
        again = G.run(return_covariance=False)
        sd = np.sqrt(np.diag(Vw))
        m.close(np.asarray(again[0]) / sd, np.asarray(out[0]) / sd, what + "running again stays at the solution", rtol=1e-5, atol=.02)
    m.sample(variables=P.N_var, parameters=n_a, cost=float(out[2]))


def complete_case(m, rng, i):
    from harness import SkipCase
    P = make(rng, False, 1., (90, 160))
    if P is None:
        raise SkipCase
    m.key("complete", *P.key())
    P.write(m.tmp)
    from harmonisation import open_matchup
    n_a = len(P.a_true)
    a0 = P.a_true + rng.normal(0, .1, n_a)
    mu = open_matchup(m.tmp)
    mu.setSensorData(P.sensor_data(a0))
    pool(True)
    H = pkg.HarmonisationEIV()
    pc = os.path.join(m.tmp, "pc")
    os.mkdir(pc)
    r = H.run(mu, save_pc=os.path.join(pc, "harm_pc.nc"), show=0)
    m.saw("complete")
    what = "complete run, %d variables, %d parameters: " % (P.N_var, n_a)
    values = transformed_like(P, m)
    z, c, Vw = gnlib.optimum(P, np.concatenate([values, P.a_true]), values)
    av = r.additional_variables
    judge(m, P, values, r.parameter, r.parameter_covariance_matrix, r.cost, r.cost_dof, r.cost_p_value, r.values_res, r.ks_res,
          av["systematic_errors"]["data"] if "systematic_errors" in av else None, av["systematic_error_sensors"]["data"] if "systematic_error_sensors" in av else None,
          z, c, Vw, what, True, 1.)
    m.equal(list(r.parameter_sensors), P.par_sensor, what + "sensors of the parameters")
    for k in ("Nm", "cNm", "Im", "sensors", "n_sensor", "n_mu", "n_cov", "N_var", "idx", "sensor_ms"):
        m.equal(r.idx[k], P.mod["idx"][k], what + "index of the residuals: " + k)
    # the same from the saved preconditioner
    mu2 = open_matchup(m.tmp)
    mu2.setSensorData(P.sensor_data(a0))
    r2 = pkg.HarmonisationEIV().run(mu2, pc_input=pc, show=0)
    sd = np.sqrt(np.diag(Vw))
    m.close(np.asarray(r2.parameter) / sd, np.asarray(r.parameter) / sd, what + "same solution from the saved preconditioner", rtol=1e-5, atol=.02)
    m.close(np.asarray(r2.parameter_covariance_matrix) / np.outer(sd, sd), np.asarray(r.parameter_covariance_matrix) / np.outer(sd, sd), what + "same covariance from the saved preconditioner",
            rtol=0, atol=.01)


def transformed_like(P, m):
    """The solver's own transformed values (their faithfulness is C05's)."""
    from harmonisation import open_matchup
    mu = open_matchup(m.tmp)
    mu.setSensorData(P.sensor_data())
    return np.array(pkg.Transform2NormInd().run(mu).values, dtype=float)


def case(m, rng, i):
    (complete_case if i % 8 == 7 else solver_case)(m, rng, i)
