"""Space-filling simulation of match-ups."""
import contextlib
import copy
import io
import os
import re

import numpy as np

import gen
from checks.C05 import model_f, same, state

PROP = "C07"
RULE = "random data sets and sample sizes 1..60 (also with the verbose listing); distinct = different structure and sample size"
N = {"quick": 420, "thorough": 12000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/simulate_matchup/SimulateMatchUp.py"]
NEED = ("blocks", "K_blocks", "verbose", "listed")


def setup():
    global open_matchup, Sim
    from harmonisation import open_matchup
    from harmonisation.core.matchup.matchupProcessing.simulate_matchup.SimulateMatchUp import SimulateMatchUp as Sim


def case(m, rng, i):
    spec = gen.gen(rng, types=(1, 2, 3, 4) if i % 2 else (1, 2), max_M=40, wide=.1, big=i % 400 == 202)
    mod = gen.model(spec)
    mu = open_matchup(gen.write_all(spec, os.path.join(m.tmp, "d")))
    mu.setSensorData({s: {"sensor_model": model_f, "sensor_model_parameter": [1. + k], "sensor_model_constant": [3. * k, 7.]} for k, s in enumerate(mod["idx"]["sensors"])})
    n = (int(rng.integers(1, 60)) if rng.random() < .93 else int(rng.choice([300, 1025, 5000]))) if i % 5 else 20
    kw = {} if n == 20 and rng.random() < .5 else {"n_samples_mu": n}
    if i % 6 == 0:
        kw["verbose"] = True
        m.saw("verbose")
    m.key(gen.shape_key(spec), n)
    m.sample(series=gen.describe(spec), n_samples=n)
    before = state(mu)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = Sim().run(mu, **kw)
    m.check(same(before, state(mu)), "the simulation changed its input")
    nb, ns = len(mod["blocks"]), len(spec["series"])
    m.equal(r.idx["N_var"], [n] * nb, "simulated block sizes")
    m.equal(r.idx["Nm"], [n] * ns, "simulated series sizes")
    m.equal(r.idx["idx"], [n * k for k in range(nb + 1)], "simulated block boundaries")
    m.equal(r.idx["cNm"], [n * k for k in range(ns + 1)], "simulated series boundaries")
    for key in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov"):
        m.equal(r.idx[key], mod["idx"][key], "index entry " + key)
    m.check(len(r.values) == n * nb and len(r.ks) == n * ns, "number of simulated values")
    for b, blk in enumerate(mod["blocks"]):
        m.saw("blocks")
        fill(m, np.asarray(r.values[n * b:n * (b + 1)], float), blk["x"].astype(float), "block %d" % b)
    for k, d in enumerate(spec["series"]):
        m.saw("K_blocks")
        fill(m, np.asarray(r.ks[n * k:n * (k + 1)], float), d["K"], "K of series %d" % (k + 1))
    m.close(r.a, mu.a, "calibration parameters", rtol=0)
    m.check(r.sensor_model == mu.sensor_model and r.adjustment_model == mu.adjustment_model and list(r.sensor_model_constant) == list(mu.sensor_model_constant),
            "sensor models and constants")
    if kw.get("verbose"):
        listing(m, out.getvalue(), n, spec, mod)
    else:
        m.check(not out.getvalue().strip(), "a listing is printed unasked", got=out.getvalue()[:200])


def fill(m, g, x, what):
    lo, hi = x.min(), x.max()
    n = len(g)
    want = lo + (hi - lo) * np.arange(n) / max(n - 1, 1)
    m.close(g, want, "simulated " + what, rtol=1e-6, atol=1e-6 * (abs(lo) + abs(hi)))


def listing(m, text, n, spec, mod):
    """The verbose listing gives, for every sensor, the simulated range of each of its covariates in some series it is part of."""
    names = mod["idx"]["sensors"]
    shown, cur = {}, None
    for line in text.splitlines():
        if line.strip() in names:
            cur = line.strip()
        elif cur is not None and re.match(r"\s*\d+\s+\S+\s+\S+\s*$", line):
            c, lo, hi = line.split()
            shown.setdefault((cur, int(c)), []).append((float(lo), float(hi)))
    m.equal(sorted(shown), sorted((s, c + 1) for s, n in zip(names, mod["idx"]["sensor_ms"]) for c in range(n)), "sensors and covariates of the listing")
    for (s, c), ranges in shown.items():
        cand = [np.array([x.min(), x.max() if n > 1 else x.min()]) for x in (d["X%d" % (side + 1)][:, c - 1] for d in spec["series"] for side in (0, 1) if d["s"][side] == s)]
        for lo, hi in ranges:
            m.saw("listed")
            m.check(any(np.allclose([lo, hi], x, rtol=1e-5, atol=1e-5 * np.abs(x).max()) for x in cand),
                    "range listed for covariate %d of %s" % (c, s), got=(lo, hi), want=cand)
