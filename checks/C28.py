"""C28: the real solver program run from match-up files to result files, nothing replaced but the table of sensor data; the files it leaves are read directly
with netCDF4 and judged against an independent double-precision optimum of the same data, and the directories against what a run may change."""
import contextlib
import hashlib
import importlib
import io
import logging
import os
import sys

import numpy as np
from netCDF4 import Dataset

import gnlib
import checks.C11 as c11

PROP = "C28"
RULE = ("programs started from the command line or a job file on 1-3 series of 90-150 match-ups of any mixture of uncertainty types, with and without noise, covariance, saved "
        "preconditioner and saved solver state, the saved ones then given to a second run; non-trivial when some covariate is structured or systematic")
N = {"quick": 22, "thorough": 500}
BUDGET = {"quick": 150, "thorough": 780}
MIN_RAN = .6
CASE_S = 200
T = "harmonisation.tools."
FILES = ["harmonisation_eiv/harmonisation/tools/" + f for f in ("full_eiv_solver.py", "HarmonisationOp.py", "common.py")] + c11.FILES
NEED = ["program", "job file", "command line", "covariance", "no covariance", "saved preconditioner", "saved state", "from preconditioner", "from state", "residual files", "noise free",
        "structured", "systematic"]
op = common = None


def setup():
    global op, common
    c11.setup()
    common = importlib.import_module(T + "common")
    op = importlib.import_module(T + "HarmonisationOp")


def snapshot(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = hashlib.sha1(open(q, "rb").read()).hexdigest()
    return out


def start(argv, name, data):
    """the solver program, the sensors' data known under a name of their own"""
    class Factory:
        def get_sensor_data(self, n):
            if n != name:
                raise KeyError(n)
            return data

        def get_names(self):
            return [name]
    old = sys.argv, common.SensorDataFactory
    sys.argv, common.SensorDataFactory = ["full_eiv_solver"] + argv, Factory
    sys.modules.pop(T + "full_eiv_solver", None)
    lg = logging.getLogger(T + "common")
    lg.handlers[:] = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return importlib.import_module(T + "full_eiv_solver").main()
    finally:
        sys.argv, common.SensorDataFactory = old
        for h in lg.handlers:
            h.close()
        lg.handlers[:] = []


def num(v):
    return np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)


def text(v):
    a = np.ma.filled(v[:], b"")
    return [b"".join(r).decode().strip("\0 ") if a.dtype.kind == "S" and a.ndim == 2 else (r.decode() if isinstance(r, bytes) else str(r)).strip() for r in a]


def results(m, out, what):
    """the result file and the residual files of a directory"""
    files = sorted(f for f in os.listdir(out) if f.startswith("harm_") and f.endswith(".nc"))
    main = [f for f in files if "_res_" not in f]
    if not m.check(len(main) == 1, what + "one result file: %s" % files):
        return None
    return main[0], [f for f in files if f != main[0]]


def judge(m, P, out, z, c, Vw, what, with_cov, noise):
    names = results(m, out, what)
    if names is None:
        return
    main, res = names
    n_a = len(P.a_true)
    sd = np.sqrt(np.diag(Vw))
    r = P.residual(z, np.asarray(P.values))
    with Dataset(os.path.join(out, main)) as ds:
        a = num(ds.variables["parameter"][:])
        m.equal(text(ds.variables["parameter_sensors"]), P.par_sensor, what + "sensors of the parameters")
        m.close(a / sd, z[P.N_var:] / sd, what + "parameters minimise the cost", rtol=1e-5, atol=.02)
        if not noise:
            m.saw("noise free")
            m.close(a / sd, P.a_true / sd, what + "true parameters recovered", rtol=1e-4, atol=.03)
        V = num(ds.variables["parameter_covariance_matrix"][:])
        if with_cov:
            m.saw("covariance")
            cond = np.linalg.cond(Vw / np.outer(sd, sd))
            m.close(V / np.outer(sd, sd), Vw / np.outer(sd, sd), what + "covariance", rtol=0, atol=2e-3 + 2e-6 * cond)
        else:
            m.saw("no covariance")
            m.check(V.shape == (n_a, n_a) and not V.any(), what + "no covariance when not asked for")
        m.close(float(ds.cost), c, what + "cost", rtol=3e-4, atol=2e-4)
        m.equal(int(ds.cost_dof), P.N_var - len(P.K) - n_a, what + "degrees of freedom")
        n_s = P.mod["n_sys"]
        if n_s:
            m.saw("systematic")
            if m.check("systematic_errors" in ds.variables, what + "fitted systematic errors are saved"):
                m.close(num(ds.variables["systematic_errors"][:]), z[P.N_var - n_s:P.N_var], what + "systematic errors", rtol=1e-3, atol=.02)
        else:
            m.check("systematic_errors" not in ds.variables or ds.variables["systematic_errors"].size == 0, what + "no systematic errors without such effects")
    if any(b["t"] in (3, 4) for b in P.mod["blocks"]):
        m.saw("structured")
    idx = P.mod["idx"]
    X, kw = c11.residuals_back(P, r)
    stem = os.path.splitext(main)[0]
    want = {"%s_res_%s_%s.nc" % ((stem,) + tuple(idx["sensors"][q] for q in p)): k for k, p in enumerate(idx["Im"])}
    if not m.equal(res, sorted(want), what + "residual files"):
        return
    for f, k in want.items():
        m.saw("residual files")
        sl = slice(idx["cNm"][k], idx["cNm"][k + 1])
        with Dataset(os.path.join(out, f)) as ds:
            m.close(num(ds.variables["k_res"][:]) / P.uK[sl], kw[sl] / P.uK[sl], what + "K residuals in " + f, rtol=1e-3, atol=.02)
            for side in (1, 2):
                got = num(ds.variables["X%d_res" % side][:])
                mine = [(b, x) for b, x in zip(P.mod["blocks"], X) if b["mu"] == k + 1 and b["side"] == side]
                m.equal(got.shape, (idx["Nm"][k], len(mine)), what + "measurement residuals of sensor %d in %s" % (side, f))
                for q, (b, x) in enumerate(mine):
                    s = b["ur"].max() if b["t"] in (1, 2) else max(b["u"])
                    m.close(got[:, q] / s, x / s, what + "residuals of covariate %d of sensor %d in %s" % (q + 1, side, f), rtol=1e-3, atol=.02)


def case(m, rng, i):
    from harness import SkipCase
    noise = 0. if rng.random() < .3 else 1.
    for _ in range(6):
        P = c11.make(rng, False, noise, (90, 150))
        if P is None:
            continue
        pairs = [tuple(d["s"]) for d in P.spec["series"]]
        # one residual file per pair of sensors
        if len(set(pairs)) == len(pairs) and not any("_" in s or "res" in s for p in pairs for s in p):
            break
    else:
        raise SkipCase
    m.key(noise, *P.key())
    m.trivial = all(b["t"] == 1 for b in P.mod["blocks"])
    inp = os.path.join(m.tmp, str(rng.choice(["data", "set 1", "AVHRR_X_3"])))
    out = os.path.join(m.tmp, str(rng.choice(["out", "a result"])))
    os.mkdir(inp), os.mkdir(out)
    P.write(inp)
    a0 = P.a_true + rng.normal(0, .1, len(P.a_true))
    name = str(rng.choice(["TEST_1", "another sensor"]))
    before = snapshot(m.tmp)
    with_cov = rng.random() < .7
    c11.pool(True)
    opts = [] if with_cov else ["--no_covariance"]
    job = rng.random() < .3
    pc = os.path.join(m.tmp, "pc")
    gn = os.path.join(m.tmp, "gn")
    mine = set()
    if job:
        m.saw("job file")
        jf = os.path.join(m.tmp, "job_7.cfg")
        open(jf, "w").write("[harmonisation]\ndataset_dir = %s\nsensor = %s\noutput_dir = %s\n" % (inp, name, out))
        before = snapshot(m.tmp)
        argv = ["-j", jf] + opts
    else:
        m.saw("command line")
        argv = ["-i", inp, "-s", name, "-o", out] + opts
        if rng.random() < .6:
            os.mkdir(pc)
            argv += ["--save_pc", os.path.join(pc, "harm_pc.nc")]
            mine.add("pc")
            m.saw("saved preconditioner")
        if rng.random() < .5:
            os.mkdir(gn)
            argv += ["--save_gn", gn]
            mine.add("gn")
            m.saw("saved state")
    argv += [[], ["--quiet"], ["--verbose"]][int(rng.integers(3))]
    m.saw("program")
    m.check(not start(argv, name, P.sensor_data(a0)), "the program reports a failure")
    what = "%s, %d variables, %d parameters: " % (" ".join(argv[6:] if not job else opts) or "plain", P.N_var, len(P.a_true))
    P.values = transformed(P, inp)
    z, c, Vw = gnlib.optimum(P, np.concatenate([P.values, P.a_true]), P.values)
    judge(m, P, out, z, c, Vw, what, with_cov, noise)
    only_added(m, before, snapshot(m.tmp), out, mine, what)
    # what was saved, given to a second run
    if mine and i % 2:
        out2 = os.path.join(m.tmp, "second")
        os.mkdir(out2)
        opts = []
        if "pc" in mine:
            opts += ["--pc_input", pc]
            m.saw("from preconditioner")
        if "gn" in mine:
            opts += ["--gn_input", gn]
            m.saw("from state")
        before = snapshot(m.tmp)
        argv = ["-i", inp, "-s", name, "-o", out2, "--quiet"] + opts
        m.check(not start(argv, name, P.sensor_data(a0)), "the second program reports a failure")
        what = "from %s: " % " ".join(sorted(mine)) + what
        judge(m, P, out2, z, c, Vw, what, True, noise)
        only_added(m, before, snapshot(m.tmp), out2, set(), what)
    m.sample(variables=P.N_var, parameters=len(P.a_true), cost=c)


def only_added(m, before, after, out, allowed, what):
    """Nothing that was there is changed, nothing is added outside the places given."""
    ch = [f for f in before if after.get(f) != before[f]]
    m.check(not ch, what + "files changed by the run: %s" % ch)
    new = [f for f in after if f not in before]
    o = os.path.basename(out)
    m.check(all(f.split(os.sep)[0] in allowed | {o} for f in new), what + "files made elsewhere: %s" % new)


def transformed(P, folder):
    from harmonisation import open_matchup
    mu = open_matchup(folder)
    mu.setSensorData(P.sensor_data())
    return np.array(c11.pkg.Transform2NormInd().run(mu).values, dtype=float)
