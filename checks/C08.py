"""Evaluation of measurands, adjusted measurands and K: the calls the sensor models receive and what comes back."""
import os
import sys
from datetime import datetime

import numpy as np

import gen

PROP = "C08"
RULE = ("random data sets with one recording model per sensor (own parameter and constant counts, with and without adjustment model, sensor data listed in any order and "
        "with extra sensors, given as a dictionary or as a file), evaluated for all series, single series and lists in any order; every call a model receives is compared "
        "with the match-up file; distinct = different structure and selection")
N = {"quick": 420, "thorough": 12000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py",
         "harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py", "harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py"]
NEED = ("model_calls", "adjusted", "K", "derivatives", "uncertainty", "subset", "unsorted_subset", "from_file", "reference", "near_names", "changed since")


def setup():
    global open_matchup, mm
    from harmonisation import open_matchup
    from harmonisation.core.matchup.matchupToolbox.utils import matchup_maths as mm


def make_model(s, calls, npar, ref):
    def model(X, a, c, xt, at, t):
        calls.append((s, np.array(X), np.array(a), np.array(c), None if xt is None else np.array(xt), None if at is None else np.array(at), list(t)))
        X = np.asarray(X, float)
        if ref:
            return X[:, 0], None
        # a function that no other sensor has, of every argument
        f = (s + 2) * 3. + np.sum(X * (np.arange(X.shape[1]) + 1), axis=1)
        f = f + sum(float(a[p]) * (p + 1) * np.sin(X[:, 0] / 50. + p) for p in range(npar)) + sum(float(x) for x in c)
        if xt is not None:
            f = f + .001 * np.nan_to_num(np.asarray(xt, float))
        if at is not None:
            f = f + .002 * np.nan_to_num(np.asarray(at, float))
        J = np.column_stack([np.full(len(X), float(k + 1)) for k in range(X.shape[1])] + [(p + 1) * np.sin(X[:, 0] / 50. + p) for p in range(npar)])
        return f, J
    return model


def make_adjust(s):
    def adjust(R):
        return 2. * np.asarray(R) + s + 1, np.full(len(R), 2. + s)
    return adjust


def case(m, rng, i):
    spec = gen.gen(rng, types=(1, 2, 3, 4) if i % 2 else (1, 2), max_M=25, max_series=5, p_opt=.7, wide=.14)
    S = spec["series"]
    mod = gen.model(spec)
    names = mod["idx"]["sensors"]
    paths = gen.write_all(spec, os.path.join(m.tmp, "d"))
    calls = []
    npar = {s: int(rng.integers(0, 5)) for s in names}
    ref = {s: bool(rng.random() < .2) for s in names}
    for s in names:
        if ref[s]:
            npar[s] = 0
            m.saw("reference")
    data = {}
    # sensors that are not in the data: another, one whose name is a part of a name in the data, one whose name contains one
    near = [x for x in (names[0][:-1], names[-1][1:], names[0] + "1", "1" + names[-1], names[0].upper(), names[0] + " ") if x and x not in names]
    others = ["other sensor"] + [x for x in dict.fromkeys(near) if rng.random() < .3]
    order = [str(x) for x in rng.permutation(names + others)]
    m.saw("near_names", len(others) > 1)
    adj = {}
    for s in order:
        k = names.index(s) if s in names else 90
        data[s] = {"sensor_model": make_model(k, calls, npar.get(s, 2), ref.get(s, False)),
                   "sensor_model_parameter": [float(x) for x in np.round(rng.normal(0, 5, npar.get(s, 2)), 3)],
                   "sensor_model_constant": [float(x) for x in rng.normal(0, 100, int(rng.integers(0, 4)))]}
        adj[s] = int(rng.integers(4))
        if adj[s] in (1, 3):
            data[s]["adjustment_model"] = make_adjust(k)
        if adj[s] in (2, 3):
            data[s]["sensor_adjustment_model"] = make_adjust(k)
    if i % 9 == 4:
        mu = from_file(m, rng, i, paths, data, names)
    else:
        mu = open_matchup(paths)
        if i % 5 == 2:      # other sensor data attached before, in part the same dictionary changed since
            old = {s: dict(data[s], sensor_model_parameter=[p + 1 for p in data[s]["sensor_model_parameter"]], adjustment_model=make_adjust(77),
                           sensor_model_constant=[7.], sensor_model=make_model(77, calls, 3, False)) for s in order}
            mu.setSensorData(old)
            if rng.random() < .5:
                for s in order:
                    old[s].clear()
                    old[s].update(data[s])
                mu.setSensorData(old)
            else:
                mu.setSensorData(data)
            m.saw("attached_again")
        else:
            mu.setSensorData(data)
        m.equal(mu._original_idx["parameter_sensor"], mu.idx["parameter_sensor"], "sensor of each parameter of the original data")
        m.equal(mu._original_idx["sensor_model_constant_sensor"], mu.idx["sensor_model_constant_sensor"], "sensor of each constant of the original data")
    # what is attached
    pars = [(s, p) for s in data if s in names for p in data[s]["sensor_model_parameter"]]
    cons = [(s, p) for s in data if s in names for p in data[s]["sensor_model_constant"]]
    m.equal(mu.idx["parameter_sensor"], [s for s, _ in pars], "sensor of each parameter")
    m.close(mu.a, np.array([p for _, p in pars], dtype=np.float32), "parameters", rtol=1e-6)
    m.equal(mu.idx["sensor_model_constant_sensor"], [s for s, _ in cons], "sensor of each constant")
    m.close(np.array(mu.sensor_model_constant, dtype=float), [p for _, p in cons], "constants", rtol=1e-7)
    m.check(len(mu.sensor_model) == len(names) and len(mu.adjustment_model) == len(names), "one model per sensor")
    # another estimate of the parameters than the one attached
    if rng.random() < .5:
        mu.a = np.asarray(rng.normal(0, 5, len(pars)), dtype=np.float32)
    n = len(pars)
    A = rng.normal(0, 1, (n, n))
    V = A @ A.T
    mk = {s: names.index(s) for s in names}
    judge(m, rng, mu, spec, mod, names, npar, ref, adj, pars, cons, mk, V, calls)
    if rng.random() > .4:
        return
    # the same data set after a part of it changed: whatever was evaluated before, what counts is what it holds now
    m.saw("changed since")
    kind = int(rng.integers(0, 6))
    if kind == 0 and n:
        mu.a = np.asarray(mu.a, dtype=np.float32).copy()
        mu.a[int(rng.integers(n))] += np.float32(1.5)
    elif kind == 1 and n:
        mu.a = np.asarray(rng.permutation(np.asarray(mu.a)) * 2, dtype=np.float32)
    elif kind == 2 and cons:
        cons = [(s, v * 2 + 1) for s, v in cons]
        if isinstance(mu.sensor_model_constant, np.ndarray) and rng.random() < .5:
            mu.sensor_model_constant[:] = [v for _, v in cons]
        else:
            mu.sensor_model_constant = np.array([v for _, v in cons])
        cons = list(zip([s for s, _ in cons], np.array(mu.sensor_model_constant, dtype=float).tolist()))
    elif kind == 3:
        V *= 4
        s = names[int(rng.integers(len(names)))]
        mk[s] += 50
        mu.sensor_model = list(mu.sensor_model)
        mu.sensor_model[names.index(s)] = make_model(mk[s], calls, npar[s], ref[s])
    else:
        at = 0
        for b in mod["blocks"]:
            x = np.array(b["x"])
            b["x"] = -x if kind == 4 else x[::-1].copy()
            if rng.random() < .5:
                mu.values[at:at + len(x)] = b["x"]
            else:
                mu.values = np.concatenate([mu.values[:at], b["x"].astype(mu.values.dtype), mu.values[at + len(x):]])
            at += len(x)
    judge(m, rng, mu, spec, mod, names, npar, ref, adj, pars, cons, mk, V, calls)


def judge(m, rng, mu, spec, mod, names, npar, ref, adj, pars, cons, mk, V, calls):
    S = spec["series"]
    sel = selection(m, rng, len(S))
    chosen = list(range(1, len(S) + 1)) if sel == 0 else ([sel] if isinstance(sel, int) else sel)
    if chosen != sorted(chosen):
        m.saw("unsorted_subset")
    m.key(gen.shape_key(spec), tuple(chosen), tuple(npar.values()))
    m.sample(series=gen.describe(spec), parameters=npar, selection=sel)
    want = np.zeros((0, 2))
    wantJ = {}
    wantu = []
    quiet = []
    n = len(pars)
    for k in chosen:
        d = S[k - 1]
        cols, us = [], []
        for side in (1, 2):
            s = d["s"][side - 1]
            args = expected_args(mu, mod, S, k, side, pars, cons)
            f, J = make_model(mk[s], quiet, npar[s], ref[s])(*args)
            cols.append(f)
            wantJ[k, side] = J
            sl = [p for p, (q, _) in enumerate(pars) if q == s]
            us.append(np.zeros(d["M"]) if J is None else np.sqrt(np.einsum("ij,jk,ik->i", J[:, args[0].shape[1]:], V[np.ix_(sl, sl)], J[:, args[0].shape[1]:])))
        want = np.vstack([want, np.column_stack(cols)])
        wantu.append(np.column_stack(us))
    wantu = np.vstack(wantu)
    kw = {} if sel == 0 and rng.random() < .5 else {"matchup_series": sel if not isinstance(sel, list) else list(sel)}

    del calls[:]
    R = mm.evaluate_measurand(mu, **kw)
    trace(m, calls, mu, mod, S, chosen, pars, cons, mk)
    m.close(R, want, "measurand", rtol=2e-6, atol=1e-5)
    R, D = mm.evaluate_measurand(mu, return_derivatives=True, **kw)
    m.saw("derivatives")
    m.close(R, want, "measurand (with derivatives)", rtol=2e-6, atol=1e-5)
    for (k, side), J in wantJ.items():
        g = D[k - 1][side - 1]
        m.check((g is None) == (J is None), "derivatives of a reference sensor", series=k, side=side)
        if J is not None:
            m.close(g, J, "derivatives of sensor %d of series %d" % (side, k), rtol=1e-6)
    if n:
        m.saw("uncertainty")
        R, u = mm.evaluate_measurand(mu, parameter_covariance_matrix=V, **kw)
        m.close(R, want, "measurand (with uncertainty)", rtol=2e-6, atol=1e-5)
        m.close(u, wantu, "measurand uncertainty", rtol=2e-5, atol=1e-6 * float(wantu.max() or 1))
        if rng.random() < .3:
            out = mm.evaluate_measurand(mu, parameter_covariance_matrix=V, return_derivatives=True, **kw)
            m.check(len(out) == 3, "derivatives and uncertainty together", got=len(out))
            m.close(out[2], wantu, "measurand uncertainty (with derivatives)", rtol=2e-5, atol=1e-6 * float(wantu.max() or 1))
    # adjusted
    wadj, wder, row = np.array(want), np.ones_like(want), 0
    for k in chosen:
        d = S[k - 1]
        for side in (0, 1):
            s = d["s"][side]
            if adj[s]:
                wadj[row:row + d["M"], side], wder[row:row + d["M"], side] = make_adjust(names.index(s))(want[row:row + d["M"], side])
        row += d["M"]
    m.saw("adjusted")
    m.close(mm.evaluate_adjusted_measurand(mu, **kw), wadj, "adjusted measurand", rtol=4e-6, atol=2e-5)
    a, da = mm.evaluate_adjusted_measurand(mu, return_derivatives=True, **kw)
    m.close(a, wadj, "adjusted measurand (with derivatives)", rtol=4e-6, atol=2e-5)
    m.close(da, wder, "derivatives of the adjustment", rtol=1e-6)
    a, da, dm = mm.evaluate_adjusted_measurand(mu, return_derivatives=True, return_measurand_derivatives=True, **kw)
    for (k, side), J in wantJ.items():
        if J is not None:
            m.close(dm[k - 1][side - 1], J, "measurand derivatives with the adjusted measurand", rtol=1e-6)
    m.saw("K")
    scale = float(np.abs(wadj).max())
    m.close(mm.evaluate_K(mu, **kw), wadj[:, 1] - wadj[:, 0], "K", rtol=1e-6, atol=1e-6 * scale + 1e-5)
    m.close(mu.values, np.concatenate([b["x"] for b in mod["blocks"]]), "measurements after evaluation", rtol=0)


def selection(m, rng, n):
    r = rng.integers(4)
    if r == 0 or n > 9 and rng.random() < .4:
        return 0
    m.saw("subset")
    if r == 1:
        return int(rng.integers(1, n + 1))
    perm = [int(x) + 1 for x in rng.permutation(n)][:int(rng.integers(1, n + 1))]
    if r == 3 and rng.random() < .2:
        perm.append(perm[0])        # a series asked for twice
    return sorted(perm) if r == 2 else perm


def expected_args(mu, mod, S, k, side, pars, cons):
    d, s = S[k - 1], S[k - 1]["s"][side - 1]
    blks = sorted((b for b in mod["blocks"] if b["mu"] == k and b["side"] == side), key=lambda b: b["c"])
    X = np.column_stack([b["x"] for b in blks])
    a = np.array([float(v) for (q, _), v in zip(pars, mu.a) if q == s], dtype=np.float32)
    c = np.array([v for q, v in cons if q == s])
    out = []
    for v in ("across_track_index", "along_track_index"):
        v += str(side)
        if not any(v in e for e in S):
            out.append(None)
        else:
            out.append(np.asarray(d[v], float) if v in d else np.full(d["M"], np.nan))
    return X, a, c, out[0], out[1], [datetime.fromtimestamp(int(t)) for t in d["time%d" % side]]


def trace(m, calls, mu, mod, S, chosen, pars, cons, mk):
    want = [(k, side) for k in chosen for side in (1, 2)]
    m.check(len(calls) >= len(want), "every sensor of every chosen series is evaluated", got=len(calls), want=len(want))
    left = list(calls)
    for k, side in want:
        s = S[k - 1]["s"][side - 1]
        X, a, c, xt, at, t = expected_args(mu, mod, S, k, side, pars, cons)
        hit = [q for q, r in enumerate(left) if r[0] == mk[s] and r[1].shape == X.shape and np.array_equal(r[1], X)]
        m.check(hit, "the model of %s was not called with its state values of series %d" % (s, k))
        r = left.pop(hit[0])
        m.saw("model_calls")
        m.close(r[2], a, "parameters the model of %s received" % s, rtol=1e-6)
        m.close(r[3], c, "constants the model of %s received" % s, rtol=1e-12)
        for what, g, w in (("across-track", r[4], xt), ("along-track", r[5], at)):
            m.check((g is None) == (w is None), "%s index the model of %s received" % (what, s), got=g)
            if w is not None:
                m.close(g, w, "%s index the model of %s received" % (what, s), rtol=0)
        m.check(r[6] == t, "times the model of %s received" % s, got=r[6][:2], want=t[:2])


def from_file(m, rng, i, paths, data, names):
    """The same sensor data through a file; its name is used once per process unless the known stale-module case is tried."""
    m.saw("from_file")
    sys.modules["verif_c08_models"] = type(sys)("verif_c08_models")
    sys.modules["verif_c08_models"].data = data
    d = os.path.join(m.tmp, "sd")
    os.makedirs(d)
    name = "sensor_data_%d" % i
    p = os.path.join(d, name + ".py")
    open(p, "w").write("import verif_c08_models\nSENSOR_DATA = verif_c08_models.data\n")
    try:
        mu = open_matchup(paths, p)
        m.check(mu.sensor_data is data, "sensor data of the file")
        # another file of the same name elsewhere
        d2 = os.path.join(m.tmp, "sd2")
        os.makedirs(d2)
        p2 = os.path.join(d2, name + ".py")
        open(p2, "w").write("import verif_c08_models\nSENSOR_DATA = dict(verif_c08_models.data, another=1)\n")
        mu2 = open_matchup(paths, p2)
        m.check("another" in mu2.sensor_data, "a second sensor data file of the same name in another folder: the first one's data were attached", finding="stale-sensor-data-module")
        return mu
    finally:
        for x in (d, os.path.join(m.tmp, "sd2")):
            while x in sys.path:
                sys.path.remove(x)
        sys.modules.pop(name, None)
