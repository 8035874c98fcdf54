"""Sensor models and the sensor data registry."""
import os
from datetime import datetime, timedelta

import numpy as np

PROP = "C09"
RULE = ("every sensor of every registered data set in turn, random parameters around the registered ones and random plausible states (single match-ups, batches, both float widths); "
        "measurand against the measurement equation, derivatives against central differences; distinct = data set, sensor, size, float width")
N = {"quick": 1600, "thorough": 40000}
FILES = ["harmonisation_eiv/harmonisation/sensor_data/" + f for f in
         ("AVHRR/AVHRR_sensor_models.py", "HIRS/HIRS_sensor_models.py", "HIRS/HIRS_config_functions.py", "MW/MW_sensor_models.py", "SensorDataFactory.py")]
NEED = ("reference_models", "avhrr_models", "hirs_models", "mw_models", "derivative_columns", "registries_listed", "registered_sensors", "repeated_calls", "inner rows shuffled")

H, C, KB, TCMB = 6.626070040e-34, 299792458., 1.38064852e-23, 2.72548
NAMES = (["AVHRR_%s_%s%s" % (c, p, r) for c, ps in (("11um", "34"), ("12um", "34"), ("37um", "23")) for p in ps for r in ("", "_rescaled")]
         + ["AVHRR_sim_3", "AVHRR_sim_4"] + ["HIRS__Ch%02d_3" % k for k in range(1, 20)] + ["MW____Ch03_3", "test_sim"])

AVHRR = "m02 n19 n18 n17 n16 n15 n14 n12 n11 n10 n09 n08 n07".split()
SIM = {"AVHRR_sim_3": dict({s: [1.802, -0.00631, 1.9e-5] for s in AVHRR}, m02=[], n19=[-2.45, 0.0392, 7.8e-6], n18=[1.227, -0.0014, 2.18e-5], n17=[2.479, -0.0157, 3.4e-5],
                           n16=[1.91, -0.0095, 9.6e-6]),
       "AVHRR_sim_4": {"m02": [], "n19": [-33.45, 0.0392, 7.8e-6, 0.108], "n18": [17.63, -0.001435, 2.18e-5, -0.057], "n17": [-11.9, -0.0158, 3.4e-5, 0.05],
                       "n16": [-14.24, -0.010093, 9.6e-6, 0.0552], "n15": [-13.82, -0.00731, 1.9e-5, 0.0535], "n14": [-24.95, -0.01061, 2.3e-5, 0.0937],
                       "n12": [-45.6, -0.00213, 1.4e-5, 0.1638], "n11": [-9.31, 0.04558, 9.9e-6, 0.02041], "n10": [-10.44, 0.03732, 2.3e-5, 0.0293],
                       "n09": [-34.41, -0.00582, 1e-5, 0.124], "n08": [-133.26, -0.02063, 1.65e-5, 0.4626], "n07": [-6.43, -0.0425, 2.3e-5, 0.0386]}}
VARIABLES = {"avhrr": ["C_S", "C_ICT", "C_E", "L_ICT"], "hirs": ["C_S", "C_ICT", "C_E", "T_ICT", "R_self"],
             "mw": ["C_S", "C_IWCT", "T_IWCT1", "T_IWCT2", "T_IWCT3", "T_IWCT4", "T_IWCT5", "C_E", "T_LO"]}


def contents(m, name, data):
    """What the data set holds for each of its sensors: which are references, the order of the variables, registered parameters and constants."""
    fam, k, _ = family(name)
    if name == "test_sim":
        want, refs = ["0", "1", "2", "3"], ["0"]
    elif name.startswith("AVHRR_sim"):
        want, refs = AVHRR, ["m02"]
    elif name.startswith("AVHRR"):
        refs = ["aatsr", "atsr2", "atsr1"]
        want = refs + AVHRR
    elif fam == "hirs":
        want, refs = list(data), ["iasi"]
    else:
        want, refs = ["18", "A", "B", "19", "17", "16", "15"], ["18"]
    m.equal(sorted(data), sorted(want), "sensors of " + name)
    m.equal(sorted(s for s in data if data[s]["sensor_model_variables_num"] == 1), sorted(refs), "reference sensors of " + name)
    for s in data:
        if s in refs:
            continue
        names = VARIABLES[fam[:5] if fam != "avhrr37" else "avhrr"]
        if fam.startswith("avhrr") and k == {"avhrr": 4, "avhrr37": 3}[fam]:
            names = names + ["T_o"]
        m.equal(list(data[s]["sensor_model_variable_names"]), names, "names of the variables of %s %s" % (name, s))
        if name != "test_sim":
            m.equal(list(data[s]["sensor_model_parameter"]), SIM[name][s] if name in SIM else [0.] * k, "registered parameters of %s %s" % (name, s))
        if fam == "mw":
            c = list(data[s]["sensor_model_constant"])
            m.equal((c[:90], c[-4:]), ([1.] * 90, [1.8331e11, 0., 1., 0.]), "antenna correction and channel constants of %s %s" % (name, s))
            if s in "A B 19":
                m.equal(c[90:-4], [2., 1., 1., 1., 1.], "thermometer weights of %s %s" % (name, s))
        m.saw("registered_sensors")


def setup():
    global Factory
    from harmonisation.sensor_data.SensorDataFactory import SensorDataFactory as Factory


def B(v, T):
    return 2 * H * v ** 3 / C ** 2 / np.expm1(H * v / (KB * T))


def family(name):
    if name == "test_sim":
        return "avhrr", 3, False
    if name.startswith("AVHRR_sim"):
        return "avhrr", int(name[-1]), False
    if name.startswith("AVHRR_37um"):
        return "avhrr37", int(name.split("_")[2]), name.endswith("rescaled")
    if name.startswith("AVHRR"):
        return "avhrr", int(name.split("_")[2]), name.endswith("rescaled")
    return ("hirs" if name.startswith("HIRS") else "mw"), 3, False


def measurand(name, X, a, c, ia):
    """The measurement equations, straight from their definition."""
    f, k, scaled = family(name)
    s = 1e-3 if scaled else 1.
    if f.startswith("avhrr"):
        Cs, Ci, Ce, Ri = X[:, :4].T
        R = a[0] + (.98514 + a[1] * s) * Ri * (Ce - Cs) / (Ci - Cs)
        j = 2
        if f == "avhrr":
            R = R + a[2] * s * s * (Ce - Ci) * (Ce - Cs)
            j = 3
        if k == j + 1:
            R = R + a[j] * s * (X[:, 4] - (285. if scaled else 0.))
        return R
    if f == "hirs":
        v, al, be = c[:3]
        Cs, Ci, Ce, T, Rs = X.T
        return a[0] + (.98 + a[1]) * B(v, al + be * T) * (Ce - Cs) / (Ci - Cs) + a[2] * (Ce - Ci) * (Ce - Cs) - Rs
    w = np.array(c[-9:-4])
    v, al, be, dT = c[-4:]
    g = np.array([c[i] for i in ia])
    th = np.pi / 180 * 1.111 * (np.asarray(ia) - 45.5)
    Cs, Ci, Ce = X[:, 0], X[:, 1], X[:, 7]
    T = X[:, 2:7] @ w / w.sum()
    Li, Ls, L0 = B(v, al + be * (T + dT)), B(v, al + be * (TCMB + a[2])), B(v, al + be * TCMB)
    x = (Ce - Ci) / (Ci - Cs)
    Lp = Li + (Li - Ls) * x + a[0] * (Li - L0) ** 2 * x * (x + 1)
    Lm = Lp + .5 * a[1] * (np.cos(2 * th) - np.cos(2 * np.pi * 73.6 / 180)) * (Li - Lp)
    return C ** 2 / (2 * v ** 2 * KB) * (Lm - (1 - g) * L0) / g


def draw(rng, name, M, par, const):
    """Plausible states and parameters, and the steps of the central differences."""
    f, k, scaled = family(name)
    if f.startswith("avhrr"):
        Ce = rng.uniform(300, 900, M)
        X = np.column_stack([rng.uniform(970, 1000, M), rng.uniform(350, 900, M), Ce, rng.uniform(.3, 1) * rng.uniform(60, 120, M)])
        X[:, 1] = np.minimum(X[:, 1], X[:, 0] - 40)
        if rng.random() < .7:
            X[:, 2] = np.minimum(X[:, 2], X[:, 0] - 20)
        else:
            X[:, 2] = np.where(rng.random(M) < .5, X[:, 0] + rng.integers(-3, 4, M), X[:, 1] + rng.integers(-60, 3, M))   # space view, target hotter than the black body
        if k == {"avhrr": 4, "avhrr37": 3}[f]:
            X = np.column_stack([X, rng.uniform(275, 295, M)])
        z = 1e3 if scaled else 1.
        a = np.array([rng.uniform(-5, 5), rng.uniform(-.05, .05) * z, rng.uniform(-4e-5, 4e-5) * z * z, rng.uniform(-.1, .1) * z])
        if f == "avhrr37":
            a = a[[0, 1, 3]]
        return X, a[:k]
    if f == "hirs":
        X = np.column_stack([rng.uniform(-100, 100, M), rng.uniform(-1500, -700, M), rng.uniform(-650, -200, M), rng.uniform(270, 300, M), np.zeros(M)])
        if rng.random() < .3:
            X[:, 2] = np.where(rng.random(M) < .5, X[:, 0] + rng.integers(-3, 4, M), X[:, 1] + rng.integers(-300, 3, M))
        Bi = B(const[0], const[1] + const[2] * 285.)
        X[:, 4] = Bi * rng.uniform(-.05, .05, M)
        return X, np.array([Bi * rng.uniform(-.01, .01), rng.uniform(-.03, .03), Bi * rng.uniform(-1e-7, 1e-7)])
    X = np.column_stack([rng.uniform(8000, 14000, M), rng.uniform(40000, 55000, M), rng.uniform(275, 295, (M, 5)), rng.uniform(18000, 39000, M), rng.uniform(300, 340, M)])
    if rng.random() < .3:
        X[:, 7] = np.where(rng.random(M) < .5, X[:, 0] + rng.integers(-20, 21, M), X[:, 1] + rng.integers(-20, 4000, M))
    return X, np.array([rng.uniform(-1, 1) * 2e15, rng.uniform(-.02, .02), rng.uniform(0, 2)])


def layout(rng, X):
    """The same values as a view of another array."""
    k = int(rng.integers(4))
    if k == 0:
        return np.asfortranarray(X)
    if k == 1:
        big = np.full((X.shape[0] + 3, X.shape[1] + 2), -999., dtype=X.dtype)
        big[2:-1, 1:-1] = X
        return big[2:-1, 1:-1]
    return X


def registry(m, rng):
    fac = Factory()
    names = list(fac.get_names())
    m.check(sorted(names) == sorted(NAMES), "registered names", missing=sorted(set(NAMES) - set(names)), unexpected=sorted(set(names) - set(NAMES)))
    m.check(len(set(names)) == len(names), "a sensor data set is listed twice", names=names)
    other = Factory()
    order = list(names)
    rng.shuffle(order)
    for n in order:
        d, e = fac.get_sensor_data(n), other.get_sensor_data(n)
        m.check(list(d) == list(e), "two registries disagree on the sensors of " + n)
        for s in d:
            m.check(d[s]["sensor_model"] is e[s]["sensor_model"], "two registries disagree on the sensor model of %s %s" % (n, s))
            for key in ("sensor_model_parameter", "sensor_model_constant", "sensor_model_variables_num", "sensor_model_variable_names"):
                m.equal(d[s][key], e[s][key], "two registries disagree on %s of %s %s" % (key, n, s))
            for key in ("sensor_model_variable_names", "sensor_model_variable_labels"):
                m.equal(len(d[s][key]), d[s]["sensor_model_variables_num"], "number of %s of %s %s" % (key, n, s))
        contents(m, n, d)
        m.check(not (set(map(id, [d])) & {id(fac.get_sensor_data(x)) for x in names if x != n}), "two names give the same data: " + n)
    base = os.path.join(os.environ["VERIF_TREE"], "harmonisation_eiv/harmonisation/sensor_data/HIRS/coeffs")
    for ch in range(1, 20):
        d = fac.get_sensor_data("HIRS__Ch%02d_3" % ch)
        rows = [l.split() for l in open(os.path.join(base, "coef_ch%d.dat" % ch)).read().splitlines()[1:] if l.strip()]
        m.check(set(d) == {r[0] for r in rows} | {"iasi"}, "sensors of HIRS channel %d" % ch, got=sorted(d))
        for r in rows:
            m.equal(list(d[r[0]]["sensor_model_constant"]), [float(x) for x in r[1:4]], "constants of %s in HIRS channel %d" % (r[0], ch))
    for bad in ("", "AVHRR", names[0] + "x", names[0].lower(), None):
        m.raises(lambda: fac.get_sensor_data(bad), "an unknown name was answered: %r" % (bad,))
    m.saw("registries_listed")


def case(m, rng, i):
    if i % 32 == 0:
        registry(m, rng)
    name = NAMES[i % len(NAMES)]
    data = Factory().get_sensor_data(name)
    sensors = list(data)
    s = sensors[(i // len(NAMES)) % len(sensors)]
    d = data[s]
    model, par, const, nv = d["sensor_model"], list(d["sensor_model_parameter"]), list(d["sensor_model_constant"]), d["sensor_model_variables_num"]
    M = int([1, 2, 3, 7, 20, 60, 600][int(rng.integers(7))]) if rng.random() < .98 else int(rng.integers(5000, 20000))
    f4 = bool(rng.random() < .25)
    m.key(name, s, M, f4)
    m.sample(name=name, sensor=s, M=M)
    if d["sensor_model_variable_names"] in (["Lref"], ["BTref"]):
        m.saw("reference_models")
        m.equal((nv, par, const), (1, [], []), "data of reference sensor %s" % s)
        pad = int(rng.integers(0, 4))
        X = layout(rng, rng.uniform(1, 300, (M, 1 + pad)).astype("f4" if f4 else "f8"))
        keep = X.copy()
        R, J = model(X, par, const, np.arange(M), np.arange(M), None)
        m.close(R, X[:, 0], "%s: measurand of reference sensor %s" % (name, s), rtol=0)
        m.check(J is None, "%s: derivatives of reference sensor %s" % (name, s))
        m.check(np.array_equal(X, keep), "%s: the model of %s changed its input" % (name, s))
        return
    fam = family(name)
    m.saw({"avhrr37": "avhrr"}.get(fam[0], fam[0]) + "_models")
    X, a = draw(rng, name, M, par, const)
    m.equal((X.shape[1], len(a)), (nv, len(par)), "%s: numbers of variables and parameters of %s" % (name, s))
    if rng.random() < .3:
        a = np.array(par) + a * (.1 if name.startswith("AVHRR_sim") else 0)
    if fam[0] == "mw" and rng.random() < .6:
        const[:90] = list(rng.uniform(.9, 1., 90))
        if rng.random() < .5:
            const[-3:] = [float(rng.uniform(-.02, 0)), float(rng.uniform(1, 1.005)), float(rng.uniform(-.2, .2))]
    across, along = rng.integers(0, 90, M), rng.integers(0, 5000, M)
    if f4:
        X = X.astype("f4")
    X = layout(rng, X)
    keep, kpar, kconst = X.copy(), a.copy(), list(const)
    tm = [None, np.arange(M), np.array([datetime(1980, 1, 1) + timedelta(hours=float(h)) for h in rng.uniform(0, 3e5, M)]) if M < 100 else None,
          rng.uniform(0, 1.5e9, M)][int(rng.integers(4))]
    first = model(X, list(a) if rng.random() < .5 else a, const, across, along, tm)
    m.check(np.array_equal(X, keep) and np.array_equal(a, kpar) and const == kconst, "%s: the model of %s changed its input" % (name, s))
    R, J = np.array(first[0]), np.array(first[1])
    m.equal((list(R.shape), list(J.shape)), ([M], [M, nv + len(a)]), "%s: shapes of measurand and derivatives of %s" % (name, s))
    m.check(np.isfinite(R).all() and np.isfinite(J).all(), "%s: measurand or derivatives of %s not finite" % (name, s))
    X8 = keep.astype("f8")
    want = measurand(name, X8, a, const, across)
    scale = np.abs(want) + np.abs(measurand(name, X8, np.zeros_like(a), const, across))
    m.close(R / scale, want / scale, "%s: measurand of %s against its measurement equation" % (name, s), rtol=0, atol=2e-4 if f4 else 1e-9)
    Rf, Jf = R, J
    # derivatives, column by column, at double precision
    R, J = model(X8, a, const, across, along, tm)
    J = np.array(J, dtype=float)
    for j in range(nv + len(a)):
        def at(h):
            Y, b = X8.copy(), a.copy()
            if j < nv:
                Y[:, j] += h
            else:
                b[j - nv] += h
            return np.array(model(Y, b, const, across, along, tm)[0], dtype=float)
        if j < nv:
            h = 1e-3 * max(float(np.abs(X8[:, j]).max()), {"hirs": 1e-16}.get(fam[0], 1.) if fam[0] == "hirs" and j == 4 else 1e-30)
            h = min(h, 1.) if not (fam[0] == "hirs" and j == 4) else h
        else:
            z = {"avhrr": [1., .01, 1e-5, .1], "avhrr37": [1., .01, .1], "hirs": [None, .01, None], "mw": [1e15, .01, .01]}[fam[0]]
            h = z[j - nv]
            if fam[2]:
                h *= {"avhrr": [1, 1e3, 1e6, 1e3], "avhrr37": [1, 1e3, 1e3]}[fam[0]][j - nv]
            if h is None:
                h = float(B(const[0], const[1] + const[2] * 285.)) * (.01 if j == nv else 1e-7)
        fd = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
        top = np.abs(fd).max() + np.abs(R).max() * 1e-9 / h
        m.saw("derivative_columns")
        m.close(J[:, j] / top, fd / top, "%s: derivative of the measurand of %s with respect to %s"
                % (name, s, "variable %d" % j if j < nv else "parameter %d" % (j - nv)), rtol=2e-4, atol=2e-5)
    # the same arrays with new values in them, as an iteration leaves them; what an earlier call gave stays what it was
    X2, a2 = draw(rng, name, M, par, const)
    across2 = rng.integers(0, 90, M)
    Y, b, idx = X8.copy(), a.copy(), across.copy()
    R0, J0 = model(Y, b, const, idx, along, tm)
    k0 = np.array(R0), np.array(J0)
    Y[:], b[:], idx[:] = X2, a2, across2
    R1, J1 = model(Y, b, const, idx, along, tm)
    m.check(np.array_equal(R0, k0[0]) and np.array_equal(J0, k0[1]), "%s: the model of %s changed what an earlier call returned" % (name, s))
    m.check(np.array_equal(first[0], Rf) and np.array_equal(first[1], Jf), "%s: the model of %s changed what an earlier call returned" % (name, s))
    want2 = measurand(name, X2, a2, const, across2)
    sc2 = np.abs(want2) + np.abs(measurand(name, X2, np.zeros_like(a2), const, across2))
    m.close(np.array(R1) / sc2, want2 / sc2, "%s: measurand of %s with new values in the same arrays" % (name, s), rtol=0, atol=1e-9)
    R3, J3 = model(X2.copy(), a2.copy(), list(const), across2.copy(), along.copy(), tm)
    m.check(np.array_equal(R1, R3) and np.array_equal(J1, J3), "%s: the model of %s depends on earlier calls" % (name, s))
    m.saw("repeated_calls")
    # arrays alike in size, ends, extremes and sums are still other arrays
    if M > 3:
        inner = np.r_[0, 1 + rng.permutation(M - 2), M - 1]
        Y, idx = X8.copy(), across[inner]
        for j in rng.permutation(nv)[:int(rng.integers(0, nv + 1))]:
            Y[:, j] = X8[inner, j]
        wantp = measurand(name, Y, a, const, idx)
        scp = np.abs(wantp) + np.abs(measurand(name, Y, np.zeros_like(a), const, idx))
        if np.isfinite(wantp / scp).all() and scp.max() < 1e3 * scale.max():
            m.close(np.array(model(Y, a, const, idx, along[inner], tm)[0]) / scp, wantp / scp, "%s: measurand of %s with the inner rows in another order" % (name, s), rtol=0, atol=1e-9)
            m.saw("inner rows shuffled")
    # each row from its own match-up
    perm = rng.permutation(M)[:max(1, M // 2)]
    R2, J2 = model(X8[perm], a, const, across[perm], along[perm], None if tm is None else tm[perm])
    m.close(np.array(R2) / scale[perm], np.array(R)[perm] / scale[perm], "%s: measurand of %s depends on the other match-ups" % (name, s), rtol=0, atol=1e-9)
    cs = np.abs(J).max(axis=0) + 1e-300
    m.close(np.array(J2, dtype=float) / cs, J[perm] / cs, "%s: derivatives of %s depend on the other match-ups" % (name, s), rtol=0, atol=1e-6)
