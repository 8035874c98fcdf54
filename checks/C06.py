"""Sampling to independent match-ups."""
import copy
import math
import os

import numpy as np

import gen
from checks.C05 import model_f, same, state

PROP = "C06"
RULE = ("random data sets with weighting matrices of varying overlap, fractions 0..1, maximum sizes that bind and do not, repeated runs in different random states; "
        "each match-up is recognised by its K; distinct = different structure, fraction and cap")
N = {"quick": 420, "thorough": 12000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py"]
NEED = ("series_with_matrices", "series_without_matrices", "dropped_at_random_with_matrices", "dropped_at_random", "capped", "all_kept", "small_part_of_long_series")


def setup():
    global open_matchup, Sampler
    from harmonisation import open_matchup
    from harmonisation.core.matchup.matchupProcessing.sample2ind.Sample2Ind import Sample2Ind as Sampler


def case(m, rng, i):
    spec = gen.gen(rng, types=[(1, 2, 3, 4), (3,), (1, 2), (3, 1, 4)][i % 4], fresh=bool(rng.random() < .5), max_M=60, max_m=3, max_series=4, p_opt=.8, wide=.1, big=i % 400 == 203, w_gaps=True)
    few = i % 21 == 8    # a small part of long series with matrices
    if few:
        spec = gen.gen(rng, types=(3, 4, 1), fresh=bool(rng.random() < .5), M_fixed=int(rng.integers(300, 700)), n_series=int(rng.integers(1, 3)), max_m=2, p_opt=.8, w_gaps=True)
    S = spec["series"]
    mod = gen.model(spec)
    mu = open_matchup(gen.write_all(spec, os.path.join(m.tmp, "d")))
    mu.setSensorData({s: {"sensor_model": model_f, "sensor_model_parameter": [1. + k], "sensor_model_constant": []} for k, s in enumerate(mod["idx"]["sensors"])})
    sf = float([1.0, .5, .3, .1, rng.uniform(0, 1), 1.0][int(rng.integers(6))])
    if few:
        sf = float(rng.choice([.01, .02, .05]))
        m.saw("small_part_of_long_series")
    total = mod["idx"]["cNm"][-1]
    cap = int(rng.integers(1, total + 1)) if rng.random() < .3 else 100000
    m.key(gen.shape_key(spec), round(sf, 3), cap)
    m.sample(series=gen.describe(spec), sf=sf, n_sample_max=cap)
    before = state(mu)
    times = [list(mu.time1), list(mu.time2)]
    kw = {} if sf == 1.0 and cap == 100000 and rng.random() < .5 else {"sf": sf, "n_sample_max": cap}
    r = Sampler().run(mu, **kw)
    m.check(same(before, state(mu)) and times == [list(mu.time1), list(mu.time2)], "sampling changed its input")
    eff = sf if total * sf <= cap else cap / float(total)
    if eff < sf:
        m.saw("capped")
    I = mod["idx"]
    m.check(r.idx["cNm"][0] == 0 and len(r.idx["cNm"]) == len(S) + 1 and r.idx["cNm"][-1] == len(r.ks), "cumulative sizes of the sample", got=r.idx["cNm"])
    if eff < sf:
        m.check(len(r.ks) <= cap, "more match-ups than the maximum sample size", got=len(r.ks), want=cap)
    rows = []
    for k, d in enumerate(S):
        a, b = r.idx["cNm"][k], r.idx["cNm"][k + 1]
        m.equal(r.idx["Nm"][k], b - a, "sampled size of series %d" % (k + 1))
        where = {v: j for j, v in enumerate(d["K"])}
        ks = list(np.asarray(r.ks)[a:b])
        m.check(all(x in where for x in ks), "sampled K of series %d is not one of the series'" % (k + 1), got=ks[:3])
        sel = [where[x] for x in ks]
        rows.append(sel)
        m.check(len(set(sel)) == len(sel), "a match-up of series %d was kept twice" % (k + 1), got=sel)
        m.check(sel == sorted(sel), "kept match-ups of series %d are out of order" % (k + 1), got=sel)
        lo, hi = int(np.floor(d["M"] * eff - 1e-9)), int(np.floor(d["M"] * eff + 1e-9))
        m.check(len(sel) <= hi, "more of series %d kept than the fraction %g of %d" % (k + 1, eff, d["M"]), got=len(sel))
        Ws = [blk["w"] for blk in mod["blocks"] if blk["mu"] == k + 1 and blk["w"] is not None]
        if Ws:
            m.saw("series_with_matrices")
            cols = [[set(w.indices[w.indptr[j]:w.indptr[j + 1]]) for j in range(d["M"])] for w in Ws]
            for c in cols:
                used = set()
                for j in sel:
                    m.check(not (used & c[j]), "two kept match-ups of series %d share an underlying measurement" % (k + 1), rows=sel)
                    used |= c[j]
            greedy, used = [], [set() for _ in cols]
            for j in range(d["M"]):
                if all(not (u & c[j]) for u, c in zip(used, cols)):
                    greedy.append(j)
                    for u, c in zip(used, cols):
                        u |= c[j]
            if len(greedy) > lo:
                m.saw("dropped_at_random_with_matrices")
                m.check(lo <= len(sel) <= hi, "series %d: kept %d, the fraction allows %d" % (k + 1, len(sel), hi))
                at_random(m, [greedy.index(j) for j in sel if j in greedy], len(greedy), k)
            else:
                m.check(sel == greedy, "series %d: not the first-come selection although the fraction does not bind" % (k + 1), got=sel, want=greedy)
                m.saw("all_kept")
        else:
            m.saw("series_without_matrices")
            m.check(lo <= len(sel) <= hi, "series %d: kept %d of %d at fraction %g" % (k + 1, len(sel), d["M"], eff))
            m.saw("dropped_at_random" if len(sel) < d["M"] else "all_kept")
            at_random(m, sel, d["M"], k)
        m.close(r.unck[k].uR, np.hypot(d["Kr"], d["Ks"])[sel], "K uncertainty of series %d" % (k + 1), rtol=1e-9)
        m.equal(r.unck[k].typeID, 1, "K uncertainty type")
        for side in (1, 2):
            t = np.array(getattr(mu, "time%d" % side))[I["cNm"][k]:I["cNm"][k + 1]]
            m.check(list(getattr(r, "time%d" % side)[a:b]) == [t[j] for j in sel], "times of series %d" % (k + 1))
            for v in ("across_track_index%d" % side, "along_track_index%d" % side):
                src, dst = getattr(mu, v), getattr(r, v)
                if src is None:
                    m.check(dst is None, v + " appeared by sampling")
                else:
                    m.close(dst[a:b], np.asarray(src)[I["cNm"][k]:I["cNm"][k + 1]][sel], "%s of series %d" % (v, k + 1), rtol=0)
    off = np.concatenate([[0], np.cumsum([len(rows[b["mu"] - 1]) for b in mod["blocks"]])]).astype(int)
    m.equal(list(r.idx["idx"]), off, "block boundaries of the sample")
    m.equal(r.idx["N_var"], np.diff(off), "block sizes of the sample")
    for key in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov"):
        m.equal(r.idx[key], I[key], "index entry " + key)
    m.check(len(r.values) == off[-1], "number of sampled values")
    for b, blk in enumerate(mod["blocks"]):
        sel = rows[blk["mu"] - 1]
        m.close(r.values[off[b]:off[b + 1]], blk["x"][sel], "block %d of the sample" % b, rtol=1e-7)
        m.equal(r.unc[b].typeID, 1, "uncertainty type of block %d of the sample" % b)
        if blk["t"] in (1, 2):
            u = blk["ur"][sel]
        else:
            w = blk["w"]
            u = [np.sqrt(np.mean(blk["u"][w.indices[w.indptr[j]:w.indptr[j + 1]]] ** 2)) for j in sel]
        m.close(r.unc[b].uR, u, "uncertainty of block %d of the sample (type %d)" % (b, blk["t"]), rtol=1e-7)
    m.close(r.a, mu.a, "calibration parameters", rtol=0)
    m.check(r.sensor_model == mu.sensor_model and list(r.sensor_model_constant) == list(mu.sensor_model_constant), "sensor models and constants")


def at_random(m, ranks, N, k):
    """A selection of n out of N at random has its mean rank near the middle, and is a given one hardly ever."""
    n = len(ranks)
    if not 0 < n < N:
        return
    lg = math.lgamma(N + 1) - math.lgamma(n + 1) - math.lgamma(N - n + 1)
    if lg > 22:
        m.saw("random_choice_judged")
        var = (N + 1) * (N - n) / (12. * n)
        z = (np.mean(ranks) - (N - 1) / 2.) / math.sqrt(var)
        m.check(abs(z) < 7, "series %d: the match-ups dropped are not dropped at random" % (k + 1), kept=ranks[:20], of=N, z=z)
        step = set(np.diff(ranks))
        m.check(n < 8 or len(step) > 1 or n > N - 4, "series %d: evenly spaced match-ups are not chosen at random" % (k + 1), kept=ranks[:20], of=N)
