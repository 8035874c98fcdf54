"""C10: the solver's residuals and Jacobian products, observed on the real solver object, against an independent double-precision statement of
the model: every residual, Jacobian columns by high-order differences of the independent residual, rows through the transposed product, the
adjoint identity, the normal operator, the preconditioner, and the (Python and Cython) undoing of the reparameterisation."""
import copy

import numpy as np
import gnlib

PROP = "C10"
RULE = ("data sets of 1-5 series over a connected set of 2-7 sensors with or without a reference, any mixture of uncertainty types and covariate counts, shared systematic effects, "
        "models using parameters, constants, track indices and times, adjustment models, random estimates away from the data and random "
        "preconditioners; non-trivial when some covariate is structured or systematic")
N = {"quick": 60, "thorough": 1500}
GP = "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/"
FILES = [GP + "GN_algo.py", GP + "cython_lib_GN_algo.pyx", "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py",
         "harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py"]
NEED = ["residuals", "jac_columns", "jac_rows", "adjoint", "unconvert_python", "unconvert_cython", "type1", "type2", "type3", "type4", "precond", "mixed_m", "large", "next_estimate"]
pkg = unconvert = None


def setup():
    global pkg, unconvert
    pkg = gnlib.load()
    import sys
    unconvert = [m for n, m in sys.modules.items() if n.endswith("cython_lib_GN_algo")][0].unconvert_Xs


def snapshot(t):
    return copy.deepcopy((np.array(t.values), np.array(t.ks), np.array(t.a), t.idx, t._original_idx, [np.array(k.uR) for k in t.unck]))


def same(a, b):
    return repr(a) == repr(b) and all(np.array_equal(x, y) for x, y in zip(a[:3], b[:3]))


def against_sparse(m, P, G, t, z, S, rng, what, n=3):
    """Products with an estimate's Jacobian, its transpose and the normal matrix against the independent (sparse) Jacobian."""
    from scipy.sparse import block_diag, eye
    n_a = len(P.a_true)
    J = gnlib.sparse_jacobian(P, z)
    JP = (J @ (block_diag([eye(P.N_var), S]) if n_a else eye(P.N_var))).tocsr()
    absJ = abs(J)
    want = P.residual(z, t.values)
    m.close(G.calc_f(G.xyza, t), want, what + "residuals", rtol=1e-5,
            atol=3e-6 * (absJ @ np.abs(z) + np.abs(want) + np.concatenate([np.abs(t.values), np.abs(P.K) / P.uK])) + 1e-6)
    A = abs(JP)
    for _ in range(n):
        x, y = rng.normal(0, 1, P.N_var + n_a), rng.normal(0, 1, P.N_var + len(P.K))
        m.close(G.get_JPx(x), JP @ x, what + "Jacobian product", rtol=2e-5, atol=2e-5 * (A @ np.abs(x)) + 1e-6)
        m.close(G.get_JPTx(y), JP.T @ y, what + "transposed Jacobian product", rtol=2e-5, atol=2e-5 * (A.T @ np.abs(y)) + 1e-6)
    w = JP.T @ (JP @ x)
    m.close(G.calc_Hx(x), w, what + "normal operator", rtol=1e-4, atol=5e-5 * (A.T @ (A @ np.abs(x))) + 1e-6)


def large(m, rng):
    P = gnlib.Problem(rng, M_fixed=int(rng.integers(1500, 6000)), series=int(rng.integers(2, 4)), max_m=3, noise=0.)
    m.key("large", *P.key())
    P.write(m.tmp)
    t, mu = gnlib.prepare(P, m.tmp, P.a_true + rng.normal(0, .1, len(P.a_true)))
    G = pkg.GNAlgo(t)
    G.xyza = np.asarray(G.xyza) + rng.normal(0, .2, P.N_var + len(P.a_true))
    against_sparse(m, P, G, t, np.array(G.xyza), np.eye(len(P.a_true)), rng, "%d match-ups: " % len(P.K), n=2)
    m.saw("large")


def case(m, rng, i):
    if i % 30 == 7:
        return large(m, rng)
    P = gnlib.Problem(rng, types=[(1, 2, 3, 4), (1,), (1, 2), (3, 4), (1, 3), (2, 4)][int(rng.choice(6, p=[.5, .1, .1, .1, .1, .1]))],
                      max_M=20 if m.tier == "quick" else 36, min_M=1 if rng.random() < .3 else 6, max_series=5, one_sys=rng.random() < .3, max_m=4, ref=rng.random() < .8)
    m.key(*P.key())
    P.write(m.tmp)
    t, mu = gnlib.prepare(P, m.tmp, P.a_true + rng.normal(0, .1, len(P.a_true)))
    n_a = len(P.a_true)
    blocks = P.mod["blocks"]
    for b in blocks:
        m.saw("type%d" % b["t"])
    m.trivial = all(b["t"] == 1 for b in blocks)
    if len(set(P.mod["idx"]["sensor_ms"])) > 2:
        m.saw("mixed_m")
    V = None
    S = np.eye(n_a)
    if rng.random() < .6 and n_a:
        q = rng.normal(0, 1, (n_a, n_a))
        V = (q @ q.T + .3 * np.eye(n_a)) * 10 ** rng.uniform(-3, 1)
        m.saw("precond")
    G = pkg.GNAlgo(t, V) if V is not None else pkg.GNAlgo(t)
    if V is not None:
        S = np.asarray(G.S)
        m.close(S @ S.T, V, "the preconditioner is a square root of the covariance given", rtol=1e-5, atol=1e-5 * np.abs(V).max())
    m.check(len(G.xyza) == P.N_var + n_a, "length of the estimate", got=len(G.xyza), want=P.N_var + n_a)
    m.close(G.xyza, np.concatenate([t.values, t.a]), "first estimate is the measured values and the given parameters", rtol=0)
    # an estimate away from the data
    if rng.random() < .8:
        G.xyza = np.asarray(G.xyza) + rng.normal(0, 1, P.N_var + n_a) * np.where(np.arange(P.N_var + n_a) < P.N_var, 1., .2)
    before, z = snapshot(t), np.array(G.xyza)
    N_f = P.N_var + len(P.K)

    want = P.residual(z, t.values)
    cols = list(range(P.N_var + n_a)) if P.N_var + n_a < (260 if m.tier == "quick" else 900) else \
        sorted(set(rng.integers(0, P.N_var, 120 if m.tier == "quick" else 500).tolist()) | set(range(P.off[-1], P.N_var + n_a)))
    J = P.jacobian(z, t.values, cols)
    # single precision data and arithmetic: scale of rounding in each row
    full = P.jacobian(z, t.values) if len(cols) < P.N_var + n_a else J
    tol = 3e-6 * (np.abs(full) @ np.abs(z) + np.abs(want) + np.concatenate([np.abs(t.values), np.abs(P.K) / P.uK])) + 1e-6
    f = np.asarray(G.calc_f(G.xyza, t), dtype=float)
    m.saw("residuals", N_f)
    m.close(f, want, "residuals of an estimate", rtol=1e-5, atol=tol)
    f2 = np.asarray(G.calc_f(G.xyza, t), dtype=float)
    m.check(np.array_equal(f, f2), "the same residuals when asked again")

    colscale = 1e-5 * np.abs(full).max() + 1e-6
    Pm = np.eye(P.N_var + n_a)
    Pm[P.N_var:, P.N_var:] = S
    JP = full @ Pm
    for c in cols:
        e = np.zeros(P.N_var + n_a)
        e[c] = 1.
        m.close(G.get_JPx(e), JP[:, c], "Jacobian column %d" % c, rtol=2e-5, atol=colscale * max(1., np.abs(S).max()))
        m.saw("jac_columns")
    rows = rng.choice(N_f, min(N_f, 25 if m.tier == "quick" else 150), replace=False)
    for r in rows:
        e = np.zeros(N_f)
        e[r] = 1.
        m.close(G.get_JPTx(e), JP[r], "Jacobian row %d" % r, rtol=2e-5, atol=colscale * max(1., np.abs(S).max()))
        m.saw("jac_rows")
    for _ in range(3):
        x, y = rng.normal(0, 1, P.N_var + n_a), rng.normal(0, 1, N_f)
        a, b = np.asarray(G.get_JPx(x), float), np.asarray(G.get_JPTx(y), float)
        m.saw("adjoint")
        m.close(a @ y, b @ x, "adjoint identity", rtol=1e-5, atol=1e-5 * np.linalg.norm(a) * np.linalg.norm(y))
        h = np.asarray(G.calc_Hx(x), float)
        w = JP.T @ (JP @ x)
        m.close(h, w, "normal operator", rtol=1e-4, atol=3e-5 * np.abs(w).max() + 1e-6)
    m.check(same(before, snapshot(t)) and np.array_equal(z, G.xyza), "evaluations leave the data and the estimate as they were")

    # the same object and array with the next estimate in it, as the iteration makes it; another solver in between
    other = pkg.GNAlgo(t)
    other.xyza = np.asarray(other.xyza) + rng.normal(0, 1, P.N_var + n_a) * .3
    other.get_JPx(rng.normal(0, 1, P.N_var + n_a))
    G.xyza += rng.normal(0, 1, P.N_var + n_a) * np.where(np.arange(P.N_var + n_a) < P.N_var, .5, .2)
    if P.N_var < 400:
        z2 = np.array(G.xyza)
        against_sparse(m, P, G, t, z2, S, rng, "next estimate: ")
        m.check(np.array_equal(z2, G.xyza), "evaluations leave the estimate as it was")
        m.saw("next_estimate")
        # estimates that share much with the last: the same parameters and other values, the same values moved about or negated, other parameters
        kind = int(rng.integers(0, 5))
        if kind == 0:
            G.xyza[:P.N_var] += rng.normal(0, .5, P.N_var)
        elif kind == 1:
            G.xyza[:P.N_var] = np.roll(np.array(G.xyza[:P.N_var]), 1) if rng.random() < .5 else np.array(G.xyza[:P.N_var])[::-1]
        elif kind == 2:
            G.xyza[P.N_var:] += rng.normal(0, .2, n_a)
        elif kind == 3:     # every measurement's sign changed
            G.xyza[:P.N_var] *= -1
        else:               # all but the first and last of each block
            for j in range(len(P.mod["blocks"])):
                lo, hi = P.off[j] + 1, P.off[j] + int(t.idx["N_var"][j]) - 1
                G.xyza[lo:hi] += rng.normal(0, .5, max(0, hi - lo))
        against_sparse(m, P, G, t, np.array(G.xyza), S, rng, "estimate like the last (%d): " % kind, n=1)

    # undoing the reparameterisation
    X = P.blocks_X(z)
    absX = P.blocks_X(np.abs(z))
    z32 = np.asarray(z, dtype=np.float32)
    i32 = lambda v: np.asarray(v, dtype=np.int32)
    for k, d in enumerate(P.spec["series"]):
        for side in (1, 2):
            n = P.mod["idx"]["sensors"].index(d["s"][side - 1])
            mine = [j for j, b in enumerate(blocks) if b["mu"] == k + 1 and b["side"] == side]
            want = np.column_stack([X[j] for j in mine])
            at = 2e-6 * np.column_stack([np.abs(absX[j]) for j in mine]) + 1e-6
            m.close(G.unconvert_Xs(z, t.unc, t.idx, t._original_idx, n, k + 1), want, "values back from an estimate, series %d sensor %d" % (k + 1, n), rtol=2e-6, atol=at)
            m.saw("unconvert_python")
            u32 = [np.asarray(u, dtype=np.float32) for u in t.u_matrices]
            got = unconvert(z32, i32(t.idx["n_sensor"]), i32(t.idx["idx"]), i32(t._original_idx["idx"]), i32(t.idx["n_cov"]), i32(t.idx["n_mu"]),
                            i32(t.idx["N_var"]), list(t.unc), list(t.w_matrices), u32, n, k + 1, len(mine))
            m.close(got, want, "values back from an estimate (native), series %d sensor %d" % (k + 1, n), rtol=2e-6, atol=at)
            m.saw("unconvert_cython")
    m.sample(variables=P.N_var, parameters=n_a)
