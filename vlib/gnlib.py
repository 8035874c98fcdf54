"""Solver workloads: importing the solver, picklable sensor models, data sets with known parameters, and an independent
double-precision statement of the residuals."""
import importlib
import os
import sys

import numpy as np

import gen

BASE = "harmonisation.core.matchup."
HP = BASE + "matchupToolbox.harmonisation."


def load():
    """Imports the solver modules; the package's own __init__ does not export the names they import from it."""
    pkg = importlib.import_module("harmonisation")
    if not hasattr(np, "set_printoptions_verif"):
        real = np.set_printoptions

        def tolerant(*a, **k):
            if isinstance(k.get("threshold"), float) and k["threshold"] != k["threshold"]:
                k["threshold"] = sys.maxsize
            return real(*a, **k)
        np.set_printoptions = tolerant
        np.set_printoptions_verif = real

    def put(name, mod):
        if not hasattr(pkg, name):
            setattr(pkg, name, getattr(importlib.import_module(mod), name))
    put("Transform2NormInd", BASE + "matchupProcessing.transform2normind.Transform2NormInd")
    put("Sample2Ind", BASE + "matchupProcessing.sample2ind.Sample2Ind")
    for n in ("evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"):
        put(n, BASE + "matchupToolbox.utils.matchup_maths")
    put("HarmonisationResult", HP + "harmonisationIO.HarmonisationResult")
    g = importlib.import_module(HP + "harmonisationProcessing.harmonisation_eiv.GN_algo")
    if not hasattr(pkg, "GNAlgo"):
        pkg.GNAlgo = g.GNAlgo
    put("PCAlgo", HP + "harmonisationProcessing.harmonisation_eiv_pc.pc_algo")
    put("HarmonisationEIVPC", HP + "harmonisationProcessing.harmonisation_eiv_pc.HarmonisationEIVPC")
    put("HarmonisationEIV", HP + "harmonisationProcessing.harmonisation_eiv.HarmonisationEIV")
    return pkg


class Model:
    """A smooth sensor model with m covariates and p parameters, its derivatives exact; the parameters may enter it non-linearly."""

    def __init__(self, k, m, p, track=0., tm=0., curv=1., nl=0.):
        self.k, self.m, self.p, self.track, self.tm, self.curv, self.nl = k, m, p, track, tm, curv, nl

    def eff(self, a):
        a = np.array([float(v) for v in a])
        return a + self.nl * a ** 3 / 3, 1 + self.nl * a ** 2

    def parts(self, X):
        X = np.asarray(X, dtype=float)
        n = X.shape[1]
        c = 1. + .13 * self.k + .21 * np.arange(n)
        q = .02 * self.curv * (1. + .3 * np.arange(n))
        basis = [np.ones(len(X)), .5 * X[:, 0], .1 * X[:, -1] * X[:, 0], np.sin(X[:, n // 2])][:self.p]
        db = [np.zeros(X.shape) for _ in basis]
        if self.p > 1:
            db[1][:, 0] = .5
        if self.p > 2:
            db[2][:, -1] += .1 * X[:, 0]
            db[2][:, 0] += .1 * X[:, -1]
        if self.p > 3:
            db[3][:, n // 2] = np.cos(X[:, n // 2])
        return X, c, q, basis, db

    def __call__(self, V, a, const, xt, at, t):
        X, c, q, basis, db = self.parts(V)
        R = X @ c + (X ** 2) @ q + sum(float(z) for z in const)
        D = c + 2 * q * X
        ea, da = self.eff(a)
        for j in range(self.p):
            R = R + ea[j] * basis[j]
            D = D + ea[j] * db[j]
        if self.track:
            R = R + self.track * (np.asarray(xt, float) * 1e-4 + np.asarray(at, float) * 1e-5)
        if self.tm:
            R = R + self.tm * np.array([z.hour + z.minute / 60. for z in t]) * .01
        return R, np.column_stack([D] + [d * b for d, b in zip(da, basis)])

    def double(self, X, a, const, extra):
        X, c, q, basis, _ = self.parts(X)
        return X @ c + (X ** 2) @ q + sum(const) + sum(v * b for v, b in zip(self.eff(a)[0], basis)) + extra


class Ref:
    """Reference sensor: its one covariate is the measurand."""

    def __call__(self, V, a, const, xt, at, t):
        return np.array(V[:, 0]), None

    def double(self, X, a, const, extra):
        return X[:, 0]


class Adjust:
    def __init__(self, b, c):
        self.b, self.c = b, c

    def __call__(self, R):
        R = np.asarray(R, dtype=float)
        return self.b * R + self.c * R ** 2, self.b + 2 * self.c * R


class NoAdjust(Adjust):
    def __init__(self):
        Adjust.__init__(self, 1., 0.)


class Problem:
    """A data set with known parameters a_true whose K agree with the models up to the stated noise."""

    def __init__(self, rng, types=(1, 2, 3, 4), noise=1., max_M=25, min_M=8, max_series=4, npar=None, max_m=3, adjust=True, track=True, tm=True,
                 one_sys=False, scale_u=(.02, .1), K_u=(.02, .1), M_fixed=None, series=None, curv=1., ref=True):
        spec = gen.gen(rng, ref=ref, connected=True, types=types, max_M=max_M, min_M=min_M, max_series=max_series, max_m=max_m, shared_us=True,
                       p_opt=1. if track else 0., f4=False, p_extra=0., M_fixed=M_fixed, n_series=series, ref_types=types)
        self.spec = spec
        S = spec["series"]
        self.ref = spec["ref"]
        cols = {}
        for d in S:
            for side in (1, 2):
                name, mm = d["s"][side - 1], d["m"][side - 1]
                M = d["M"]
                X = np.zeros((M, mm))
                for c in range(mm):
                    ty = d["ut%d" % side][c]
                    d["Ur%d" % side][:, c] = 0 if ty in (3, 4) else rng.uniform(*scale_u, M)
                    if one_sys and ty == 2:
                        if cols.setdefault(name, c) != c:
                            d["ut%d" % side][c] = 1
                            ty = 1
                    if ty in (2, 4):
                        d["Us%d" % side][:, c] = cols.setdefault((name, c), rng.uniform(*scale_u))
                    else:
                        d["Us%d" % side][:, c] = 0
                    X[:, c] = rng.uniform(2., 5.) + np.cumsum(rng.normal(0, .3, M)) * .3 + rng.uniform(-1.5, 1.5, M) * (0 if ty in (3, 4) else 1)
                d["X%d" % side] = X
            if "W" in d:
                # running means, some of them not normalised: well conditioned under the sequential solution
                norm = rng.random() < .4
                ws = [gen.csr_matrix(w) for w in d["W"]]
                for w in ws:
                    w.data[:] = np.concatenate([np.full(n, (1. if norm else rng.uniform(.6, 1.5)) / n) for n in np.diff(w.indptr)])
                d["W"] = ws
                d["U"] = [rng.uniform(*scale_u, len(u)) for u in d["U"]]
        mod = gen.model(spec)
        self.mod = mod
        names = mod["idx"]["sensors"]
        self.sensors = {}
        a_true = []
        self.par_sensor = []
        for k, s in enumerate(names):
            if s == self.ref:
                self.sensors[s] = {"sensor_model": Ref(), "sensor_model_parameter": [], "sensor_model_constant": []}
                if adjust and rng.random() < .3:
                    self.sensors[s]["sensor_adjustment_model"] = Adjust(float(rng.uniform(.6, 1.4)), float(rng.uniform(-.01, .01)))
                continue
            p = int(npar or rng.integers(1, 4))
            mdl = Model(k, mod["idx"]["sensor_ms"][k], p, track=1. if track and rng.random() < .5 else 0., tm=1. if tm and rng.random() < .5 else 0., curv=curv,
                        nl=float(rng.uniform(.2, .8)) if rng.random() < .4 else 0.)
            self.sensors[s] = {"sensor_model": mdl, "sensor_model_parameter": [0.] * p, "sensor_model_constant": [float(rng.normal())] * int(rng.integers(0, 2))}
            if rng.random() < .25:      # constants that only double precision holds
                big = float(rng.choice([4e6, 3e8]))
                self.sensors[s]["sensor_model_constant"] = [big + float(rng.normal()), -big]
            if adjust and rng.random() < .4:
                self.sensors[s]["sensor_adjustment_model"] = Adjust(float(rng.uniform(.6, 1.4)), float(rng.uniform(-.01, .01)))
        order = list(self.sensors)
        rng.shuffle(order)
        self.sensors = {s: self.sensors[s] for s in order}
        for s in order:
            p = len(self.sensors[s]["sensor_model_parameter"])
            t = rng.normal(0, .3, p)
            self.sensors[s]["true"] = t
            self.par_sensor += [s] * p
            a_true += list(t)
        self.a_true = np.array(a_true)
        # truth in transformed variables is drawn by the data themselves: X is the truth, measured values add noise below
        blocks = mod["blocks"]
        self.nv = [len(b["u"]) if b["t"] in (3, 4) else b["N"] for b in blocks]
        self.off = np.concatenate([[0], np.cumsum(self.nv)]).astype(int)
        self.N_var = int(self.off[-1]) + mod["n_sys"]
        self.uK = []
        for d in S:
            d["Kr"] = rng.uniform(*K_u, d["M"])
            d["Ks"] = rng.uniform(*K_u, d["M"]) if rng.random() < .5 else np.zeros(d["M"])
            self.uK.append(np.hypot(d["Kr"], d["Ks"]))
        self.uK = np.concatenate(self.uK)
        Kt = self.K_of([b["x"].astype(float) for b in gen.model(spec)["blocks"]], self.a_true)
        cN = mod["idx"]["cNm"]
        esys = rng.normal(0, 1, mod["n_sys"]) * noise
        for k, d in enumerate(S):
            sl = slice(cN[k], cN[k + 1])
            d["K"] = Kt[sl] + noise * rng.normal(0, 1, d["M"]) * self.uK[sl]
        if noise:
            for b in blocks:
                d = S[b["mu"] - 1]
                X = d["X%d" % b["side"]]
                c = b["c"] - 1
                e = esys[b["usi"] - 1] if b["usi"] else 0.
                if b["t"] in (1, 2):
                    X[:, c] += noise * rng.normal(0, 1, b["N"]) * b["ur"] + e * b["us"]
                else:
                    X[:, c] += b["w"] @ (noise * rng.normal(0, 1, len(b["u"])) * b["u"] + e * (b["us"][0] if b["t"] == 4 else 0.))
        self.mod = gen.model(spec)
        self.K = self.mod["K"]

    # -- independent statement of the model, double precision
    def blocks_X(self, z):
        """Original values of every block from the transformed variables."""
        z = np.asarray(z, dtype=float)
        sys_ = z[self.off[-1]:self.N_var]
        out = []
        for b, blk in enumerate(self.mod["blocks"]):
            v = z[self.off[b]:self.off[b + 1]]
            s = sys_[blk["usi"] - 1] if blk["usi"] else 0.
            if blk["t"] == 1:
                x = v * blk["ur"]
            elif blk["t"] == 2:
                x = v * blk["ur"] + s * blk["us"]
            elif blk["t"] == 3:
                x = blk["w"] @ (blk["u"] * v)
            else:
                x = blk["w"] @ (blk["u"] * v + s * blk["us"][0])
            out.append(x)
        return out

    def extra(self, k, side, mdl):
        d = self.spec["series"][k]
        e = np.zeros(d["M"])
        if getattr(mdl, "track", 0):
            e = e + mdl.track * (d["across_track_index%d" % side] * 1e-4 + d["along_track_index%d" % side] * 1e-5)
        if getattr(mdl, "tm", 0):
            sec = np.floor(d["time%d" % side]) % 86400
            e = e + mdl.tm * (sec // 3600 + (sec % 3600) // 60 / 60.) * .01
        return e

    def K_of(self, X, a):
        """Modelled K of every match-up from the original values and the parameters."""
        idx = self.mod["idx"]
        out = []
        for k, d in enumerate(self.spec["series"]):
            B = []
            for side in (1, 2):
                s = d["s"][side - 1]
                sd = self.sensors[s]
                n = idx["sensors"].index(s)
                cols = np.column_stack([x for x, b in zip(X, self.mod["blocks"]) if b["mu"] == k + 1 and b["side"] == side])
                at = [v for v, ps in zip(a, self.par_sensor) if ps == s]
                R = sd["sensor_model"].double(cols, at, sd["sensor_model_constant"], self.extra(k, side, sd["sensor_model"]))
                adj = sd.get("sensor_adjustment_model", NoAdjust())
                B.append(adj(R)[0])
            out.append(B[1] - B[0])
        return np.concatenate(out)

    def residual(self, xyza, values):
        """The residual vector for an estimate, given the transformed measured values."""
        z = np.asarray(xyza, dtype=float)
        k = self.K_of(self.blocks_X(z[:self.N_var]), z[self.N_var:])
        return np.concatenate([z[:self.N_var] - np.asarray(values, dtype=float)[:self.N_var], (k - self.K) / self.uK])

    def jacobian(self, xyza, values, cols=None, h=1e-3):
        """Central differences of the residual, fourth order."""
        z = np.asarray(xyza, dtype=float)
        cols = range(len(z)) if cols is None else cols
        out = []
        for j in cols:
            def f(t):
                y = z.copy()
                y[j] += t
                return self.residual(y, values)
            out.append((8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h))
        return np.array(out).T

    def write(self, folder):
        return gen.write_all(self.spec, folder)

    def sensor_data(self, start=None):
        """The sensor data dictionary, with the given start parameters (in parameter order)."""
        out, j = {}, 0
        for s, d in self.sensors.items():
            p = len(d["sensor_model_parameter"])
            out[s] = {q: d[q] for q in d if q != "true"}
            out[s]["sensor_model_parameter"] = [float(v) for v in (start[j:j + p] if start is not None else d["sensor_model_parameter"])]
            j += p
        return out

    def key(self):
        return gen.shape_key(self.spec), [len(d["sensor_model_parameter"]) for d in self.sensors.values()]


def prepare(P, folder, start=None):
    """Opens the problem's files and transforms them: (transformed data, original data)."""
    from harmonisation import open_matchup
    pkg = sys.modules["harmonisation"]
    mu = open_matchup(folder)
    mu.setSensorData(P.sensor_data(start))
    return pkg.Transform2NormInd().run(mu), mu


def dK_blocks(P, X, a, h=1e-4):
    """Derivative of each match-up's K with respect to each covariate of its own, per block, and to the parameters."""
    base = [np.array(x, dtype=float) for x in X]
    cN = P.mod["idx"]["cNm"]
    out = []
    for b, blk in enumerate(P.mod["blocks"]):
        sl = slice(cN[blk["mu"] - 1], cN[blk["mu"]])

        def f(t):
            Y = list(base)
            Y[b] = base[b] + t
            return P.K_of(Y, a)[sl]
        out.append((8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h))
    A = []
    for j in range(len(a)):
        def g(t):
            y = np.array(a, dtype=float)
            y[j] += t
            return P.K_of(base, y)
        A.append((8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h))
    return out, (np.array(A).T if A else np.zeros((int(cN[-1]), 0)))


def sparse_jacobian(P, z):
    """The residuals' Jacobian as a sparse matrix, from derivatives of K row by row (match-ups depend on their own values only)."""
    from scipy.sparse import bmat, csr_matrix, diags, eye
    z = np.asarray(z, dtype=float)
    N_K = len(P.K)
    dX, A = dK_blocks(P, P.blocks_X(z[:P.N_var]), z[P.N_var:])
    cN = P.mod["idx"]["cNm"]
    cols = []
    S = np.zeros((N_K, P.mod["n_sys"]))
    for b, blk in enumerate(P.mod["blocks"]):
        sl = slice(cN[blk["mu"] - 1], cN[blk["mu"]])
        k = dX[b] / P.uK[sl]
        if blk["t"] in (1, 2):
            T = diags(k * blk["ur"])
        else:
            T = diags(k) @ blk["w"] @ diags(blk["u"])
        T = csr_matrix(T)
        T = bmat([[csr_matrix((int(cN[blk["mu"] - 1]), T.shape[1]))], [T], [csr_matrix((N_K - int(cN[blk["mu"]]), T.shape[1]))]]) if N_K else T
        cols.append(T)
        if blk["usi"]:
            S[sl, blk["usi"] - 1] += k * (blk["us"] if blk["t"] == 2 else blk["us"][0] * (blk["w"] @ np.ones(blk["w"].shape[1])))
    K = bmat([cols + [csr_matrix(S), csr_matrix(A / P.uK[:, None])]])
    return bmat([[bmat([[eye(P.N_var), csr_matrix((P.N_var, len(z) - P.N_var))]])], [K]]).tocsc()


def optimum(P, z0, values, steps=12):
    """Gauss-Newton in double precision with exact linear solves: (estimate, cost, covariance of the parameters)."""
    from scipy.sparse.linalg import splu
    z = np.array(z0, dtype=float)
    r = P.residual(z, values)
    for _ in range(steps):
        J = sparse_jacobian(P, z)
        lu = splu((J.T @ J).tocsc())
        d = -lu.solve(J.T @ r)
        t = 1.
        while t > 1e-4:
            r2 = P.residual(z + t * d, values)
            if r2 @ r2 <= r @ r * (1 + 1e-13):
                break
            t /= 2
        z, r = z + t * d, r2
        if np.abs(t * d).max() < 1e-10:
            break
    J = sparse_jacobian(P, z)
    V = covariance(P, J)
    return z, float(r @ r), V


def covariance(P, J):
    from scipy.sparse.linalg import splu
    n = J.shape[1]
    E = np.zeros((n, n - P.N_var))
    E[P.N_var:] = np.eye(n - P.N_var)
    return splu((J.T @ J).tocsc()).solve(E)[P.N_var:]
