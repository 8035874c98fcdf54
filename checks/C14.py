"""C14: the preconditioner's fit observed on transformed data sets with known parameters, against an independent double-precision fixed point of the
K-only weighted least-squares problem with the full covariance of K."""
import contextlib
import io
import sys

import numpy as np
import gnlib

PROP = "C14"
RULE = ("data sets of 1-4 series independent or independent+systematic covariates (one or several effects per sensor), mixed covariate counts, "
        "adjustment models, track indices and times, noise (or none) and starting points; non-trivial when there is a systematic effect")
N = {"quick": 70, "thorough": 1500}
BUDGET = {"quick": 150, "thorough": 600}
MIN_RAN = .5
HPC = "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/"
FILES = [HPC + "pc_algo.py", HPC + "HarmonisationEIVPC.py"]
NEED = ["fits", "noise_free", "noisy", "systematic", "several_effects", "shared_effect", "mixed_m", "positive_definite", "large"]
pkg = None


def setup():
    global pkg
    pkg = gnlib.load()


def jacobians(P, X, a):
    """dK/dx per block and dK/da, both over the K uncertainty."""
    dX, A = gnlib.dK_blocks(P, X, a)
    return dX, A / P.uK[:, None]


def weight(P, X, a):
    """Covariance of K over its uncertainty at parameters a."""
    n = len(P.K)
    dX, A = jacobians(P, X, a)
    V = np.ones(n)
    T = np.zeros((n, P.mod["n_sys"]))
    cN = P.mod["idx"]["cNm"]
    for b, d in zip(P.mod["blocks"], dX):
        sl = slice(cN[b["mu"] - 1], cN[b["mu"]])
        d = d / P.uK[sl]
        V[sl] += (d * b["ur"]) ** 2
        if b["usi"]:
            T[sl, b["usi"] - 1] += d * b["us"]
    return np.diag(V) + T @ T.T, A


def fit(P, X, a0):
    """Fixed point: parameters minimising the residuals weighted by their covariance at those parameters."""
    a = np.array(a0, float)
    for _ in range(60):
        VK, _ = weight(P, X, a)
        L = np.linalg.cholesky(VK)
        b = a.copy()
        for _ in range(60):
            r = np.linalg.solve(L, (P.K_of(X, b) - P.K) / P.uK)
            J = np.linalg.solve(L, jacobians(P, X, b)[1])
            d = -np.linalg.lstsq(J, r, rcond=None)[0]
            b = b + d
            if np.abs(d).max() < 1e-11:
                break
        done = np.abs(b - a).max() < 1e-10
        a = b
        if done:
            break
    VK, A = weight(P, X, a)
    r = (P.K_of(X, a) - P.K) / P.uK
    return a, np.linalg.inv(A.T @ np.linalg.solve(VK, A)), float(r @ np.linalg.solve(VK, r)), np.linalg.cholesky(VK)


def case(m, rng, i):
    from harness import SkipCase
    noise = float(rng.random() < .7)
    large = i % 25 == 11
    for _ in range(30):
        P = gnlib.Problem(rng, types=[(1,), (1, 2), (2,)][int(rng.choice(3, p=[.2, .6, .2]))], noise=noise, min_M=8 if not large else 120, max_M=30 if not large else 200, max_series=4 if not large else 2, max_m=3,
                          curv=float(rng.uniform(0, 1.5)), scale_u=(.02, .3))
        n_a = len(P.a_true)
        if not 0 < n_a < 10 or n_a >= len(P.K):
            continue
        X = [b["x"].astype(float) for b in P.mod["blocks"]]
        VK, A = weight(P, X, P.a_true)
        V = np.linalg.pinv(A.T @ np.linalg.solve(VK, A))
        sd = np.sqrt(np.diag(V))
        if not np.isfinite(sd).all() or sd.min() <= 0 or sd.max() > .6 or np.linalg.cond(V / np.outer(sd, sd)) > 1e3 or np.linalg.matrix_rank(A) < n_a:
            continue
        break
    else:
        raise SkipCase
    if large:
        m.saw("large")
    m.key(*P.key())
    eff = {}
    for b in P.mod["blocks"]:
        if b["usi"]:
            s = P.spec["series"][b["mu"] - 1]["s"][b["side"] - 1]
            eff.setdefault(s, []).append(b["usi"])
    m.trivial = not eff
    if eff:
        m.saw("systematic")
        if any(len(set(e)) > 1 for e in eff.values()):
            m.saw("several_effects")
        if any(len(set(e)) < len(e) for e in eff.values()):
            m.saw("shared_effect")
    if len(set(P.mod["idx"]["sensor_ms"])) > 1:
        m.saw("mixed_m")
    P.write(m.tmp)
    start = P.a_true + rng.normal(0, .2, n_a)
    t, mu = gnlib.prepare(P, m.tmp, start)
    keep = [np.array(q) for q in (t.values, t.ks)]
    what = "%d match-ups, %d parameters, %d effects: " % (len(P.K), n_a, P.mod["n_sys"])
    if rng.random() < .3:
        L = np.asarray(pkg.PCAlgo(t).calc_LK(t), float)
        want = weight(P, X, start)[0]
        m.close(L @ L.T, want, what + "covariance of K", rtol=1e-4, atol=1e-4 * want.max())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = pkg.HarmonisationEIVPC().run(t)
    m.saw("fits")
    m.saw("noisy" if noise else "noise_free")
    a, V, c, L = fit(P, X, P.a_true)
    sd = np.sqrt(np.diag(V))
    got = np.asarray(r.parameter, float)
    m.equal(got.shape, (n_a,), what + "parameters")
    m.close(got / sd, a / sd, what + "weighted fit", rtol=2e-5, atol=.01)
    if not noise:
        m.close(got / sd, P.a_true / sd, what + "true parameters", rtol=2e-5, atol=.02)
    W = np.asarray(r.parameter_covariance_matrix, float)
    m.check(np.allclose(W, W.T, rtol=1e-5, atol=1e-5 * np.abs(W).max()), what + "covariance symmetric", got=W)
    m.check(np.linalg.eigvalsh((W + W.T) / 2 / np.outer(sd, sd)).min() > 0, what + "covariance positive definite")
    m.saw("positive_definite")
    m.close(W / np.outer(sd, sd), V / np.outer(sd, sd), what + "covariance is the inverse of the weighted normal matrix", rtol=0, atol=3e-3)
    m.equal(list(r.parameter_sensors), P.par_sensor, what + "sensors of the parameters")
    m.check(all(np.array_equal(p, q) for p, q in zip(keep, (t.values, t.ks))), what + "the measured data stay as they were")
    m.sample(match_ups=len(P.K), parameters=n_a, effects=P.mod["n_sys"])
