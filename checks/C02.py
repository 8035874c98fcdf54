"""Uncertainties and W/U matrices of an opened data set against the files they came from."""
import os

import numpy as np

import gen

PROP = "C02"
RULE = ("random match-up file sets with any mix of the four uncertainty types, weighting matrices stored 1-9 per file, shared, unused or used out of order, "
        "f4/f8 storage; distinct = different structure (graph, types, matrix use)")
N = {"quick": 420, "thorough": 12000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py", "harmonisation_eiv/harmonisation/core/matchup/matchupIO/Uncertainty.py"]
NEED = ("type1", "type2", "type3", "type4", "without_uncertainty", "shared_matrix", "matrix_out_of_order", "shared_systematic", "zero_uncertainty")


def setup():
    global open_matchup
    from harmonisation import open_matchup


def case(m, rng, i):
    spec = gen.gen(rng, types=[(1, 2, 3, 4), (3, 4), (1, 2), (2, 4, 3)][i % 4], fresh=bool(rng.random() < .5), max_M=30, wide=.1, big=i % 400 == 205, w_gaps=True, big_w=i % 400 == 207)
    if rng.random() < .15:                                   # effects of no size keep their kind
        for d in spec["series"]:
            for n in ("Ur1", "Ur2", "Us1", "Us2", "Kr", "Ks"):
                if rng.random() < .4:
                    d[n] = np.array(d[n])
                    if d[n].ndim == 2:
                        d[n][:, rng.random(d[n].shape[1]) < .7] = 0
                    else:
                        d[n][:] = 0
        m.saw("zero_uncertainty")
    mod = gen.model(spec)
    paths = gen.write_all(spec, os.path.join(m.tmp, "d"))
    m.key(gen.shape_key(spec))
    m.sample(series=gen.describe(spec))
    if i % 7 == 3:
        mu = open_matchup(paths, open_uncertainty=False)
        m.saw("without_uncertainty")
        m.check(mu.unc is None and mu.unck is None and mu.w_matrices is None and mu.u_matrices is None,
                "uncertainty reading switched off, but there is uncertainty data")
        m.close(mu.values, np.concatenate([b["x"] for b in mod["blocks"]]), "measurements with uncertainty reading off", rtol=0)
        m.close(mu.ks, mod["K"], "K with uncertainty reading off", rtol=0)
        return
    mu = open_matchup(paths)
    check(m, mu, mod, spec)


def check(m, mu, mod, spec, kr=1e-9):
    m.check(len(mu.unc) == len(mod["blocks"]), "one uncertainty per block", got=len(mu.unc), want=len(mod["blocks"]))
    m.close(mu.values, np.concatenate([b["x"] for b in mod["blocks"]]), "measurements", rtol=0)
    seen = {}
    order = {}
    for b, blk in enumerate(mod["blocks"]):
        u = mu.unc[b]
        where = "block %d (sensor %s, series %d, covariate %d)" % (b, mod["idx"]["sensors"][blk["s"]], blk["mu"], blk["c"])
        m.saw("type%d" % blk["t"])
        m.equal(u.typeID, blk["t"], where + ": uncertainty type")
        if blk["t"] in (1, 2):
            m.close(u.uR, blk["ur"], where + ": random uncertainty", rtol=1e-7)
        if blk["t"] == 2:
            m.close(u.uS, blk["us"], where + ": systematic uncertainty", rtol=1e-7)
        if blk["t"] == 4:
            m.close(np.broadcast_to(np.asarray(u.uS, dtype=float), blk["us"].shape), blk["us"], where + ": systematic uncertainty", rtol=1e-7)
        if blk["t"] in (3, 4):
            W = mu.w_matrices[u.w_i]
            m.equal(W.shape, blk["w"].shape, where + ": size of the weighting matrix")
            if W.shape[0] > 5000:
                m.saw("large_matrix")
                m.check(abs(W - blk["w"]).max() < 1e-12, where + ": weighting matrix")
            else:
                m.close(W.toarray(), blk["w"].toarray(), where + ": weighting matrix", rtol=1e-12)
            m.equal(W.nnz, blk["w"].nnz, where + ": weighting matrix entries")
            m.close(mu.u_matrices[u.u_i], blk["u"], where + ": uncertainty vector", rtol=1e-12)
            d = spec["series"][blk["mu"] - 1]
            n = d["use"]["w%d" % blk["side"]][blk["c"] - 1]
            if (blk["mu"], n) in seen:
                m.saw("shared_matrix")
            seen[blk["mu"], n] = 1
            if order.get(blk["mu"], 0) > n:
                m.saw("matrix_out_of_order")
            order[blk["mu"]] = n
        n = getattr(u, "uS_i", None)
        if blk["t"] in (2, 4):
            m.equal(n, blk["usi"], where + ": number of its systematic effect")
            if ("sys", blk["usi"]) in seen:
                m.saw("shared_systematic")
            seen["sys", blk["usi"]] = 1
        else:
            m.check(not n and not hasattr(u, "uS"), where + ": systematic effect on a block without one", got=n)
    m.check(len(mu.unck) == len(spec["series"]), "one K uncertainty per series")
    for k, d in enumerate(spec["series"]):
        m.saw("K_uncertainty")
        m.equal(mu.unck[k].typeID, 1, "K uncertainty type of series %d" % (k + 1))
        m.close(mu.unck[k].uR, np.hypot(d["Kr"], d["Ks"]), "K uncertainty of series %d" % (k + 1), rtol=kr)
