"""Transformation to normalised independent variables and back."""
import copy
import os

import numpy as np

import gen

PROP = "C05"
RULE = ("random data sets (types mixed, shared systematic effects, banded weighting matrices where every match-up adds a measurement, and in part ones where it does not), "
        "transformed and back, and arbitrary transformed values taken back; distinct = different structure")
N = {"quick": 360, "thorough": 9000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py"]
NEED = ("type1", "type2", "type3", "type4", "systematic_effects", "round_trip", "arbitrary", "track_index_carried", "track_index_absent", "time_carried")


def setup():
    global open_matchup, Tr
    from harmonisation import open_matchup
    from harmonisation.core.matchup.matchupProcessing.transform2normind.Transform2NormInd import Transform2NormInd as Tr


def model_f(a, *args):
    return a


def state(mu):
    d = {k: copy.deepcopy(getattr(mu, k)) for k in ("values", "ks", "idx", "_original_idx", "a", "across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2", "time1", "time2")}
    d["unc"] = [{k: copy.deepcopy(v) for k, v in vars(u).items()} for u in mu.unc]
    d["unck"] = [np.array(u.uR) for u in mu.unck]
    d["w"] = [w.toarray() if w is not None and not np.isscalar(w) else None for w in mu.w_matrices]
    d["u"] = [np.array(u) for u in mu.u_matrices]
    return d


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and (a.dtype == object or bool(np.array_equal(np.ma.filled(a.astype(float), np.nan), np.ma.filled(b.astype(float), np.nan), equal_nan=True)))
    return a is b or a == b


OPS, LAST = {}, []


def case(m, rng, i):
    fresh = i % 6 != 5
    spec = gen.gen(rng, types=[(1, 2, 3, 4), (3, 4), (1, 2), (2, 4)][i % 4], fresh=fresh, max_M=30, shared_us=bool(i % 3), wide=.1, big=i % 400 == 203)
    S = spec["series"]
    mod = gen.model(spec)
    mu = open_matchup(gen.write_all(spec, os.path.join(m.tmp, "d")))
    consts = {}
    mu.setSensorData({s: {"sensor_model": model_f, "sensor_model_parameter": [1. + k, 2.], "sensor_model_constant": [3. * k]} for k, s in enumerate(mod["idx"]["sensors"])})
    m.key(gen.shape_key(spec), fresh)
    m.sample(series=gen.describe(spec), each_match_up_adds_a_measurement=fresh)
    before = state(mu)
    op = OPS.setdefault(i % 3, Tr())      # one object serves many data sets
    t = op.run(mu)
    if i % 3 and rng.random() < .5 and LAST:
        op.run(LAST[0])     # another data set in between
        m.saw("other_data_between")
    LAST[:] = [mu]
    m.check(same(before, state(mu)), "the transformation changed its input")
    blocks, n_sys = mod["blocks"], mod["n_sys"]
    # sizes
    nv = [len(b["u"]) if b["t"] in (3, 4) else b["N"] for b in blocks]
    off = np.concatenate([[0], np.cumsum(nv)])
    m.equal(t.idx["N_var"], nv, "transformed block sizes")
    m.equal(list(t.idx["idx"])[:-1], off[:-1], "transformed block boundaries")
    m.equal(t.idx["idx"][-1], off[-1] + n_sys, "end of the transformed variables (with systematic effects)")
    for k in ("Nm", "cNm", "Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov"):
        m.equal(t.idx[k], mod["idx"][k], "index entry %s of the transformed data" % k)
    v = np.asarray(t.values, dtype=float)
    m.check(v.shape == (off[-1] + n_sys,), "number of transformed variables", got=v.shape)
    m.saw("systematic_effects", n_sys)
    m.check((v[off[-1]:] == 0).all(), "systematic-effect variables start at zero", got=v[off[-1]:])
    for b, blk in enumerate(blocks):
        m.saw("type%d" % blk["t"])
        x = blk["x"].astype(float)
        z = v[off[b]:off[b + 1]]
        if blk["t"] in (1, 2):
            m.close(z, x / blk["ur"], "transformed block %d" % b, rtol=2e-6)
        elif fresh:
            # the sequential solve amplifies rounding by the ratio of the weights, so that much is allowed for
            w = blk["w"].toarray()
            back = w @ (blk["u"] * z)
            size = np.abs(w) @ np.abs(blk["u"] * z)
            m.close(back, x, "weighting matrix applied to the transformed block %d" % b, rtol=1e-5, atol=1e-6 * float(size.max()) + 1e-6)
    k = np.concatenate([d["K"] / np.hypot(d["Kr"], d["Ks"]) for d in S])
    m.close(t.ks, k, "transformed K", rtol=1e-9)
    carried(m, t, mu, "transformed data")

    def reverse(values, ks, what, atol=0.):
        tt = copy.copy(t)
        tt.values, tt.ks = values, ks
        keep = np.array(values), np.array(ks)
        r = op.reverse(tt)
        m.check(np.array_equal(keep[0], values) and np.array_equal(keep[1], ks), "the reverse transformation changed its input")
        vv = np.asarray(values, dtype=float)
        sysv = vv[off[-1]:]
        m.equal(r.idx["idx"], mod["idx"]["idx"], what + ": index")
        m.equal(r.idx["N_var"], mod["idx"]["N_var"], what + ": block sizes")
        m.check(len(r.values) == mod["idx"]["idx"][-1], what + ": number of values")
        for b, blk in enumerate(blocks):
            z = vv[off[b]:off[b + 1]]
            if blk["t"] == 1:
                w, s = z * blk["ur"], 0
            elif blk["t"] == 2:
                w, s = z * blk["ur"] + sysv[blk["usi"] - 1] * blk["us"], np.abs(sysv[blk["usi"] - 1] * blk["us"])
            elif blk["t"] == 3:
                w, s = blk["w"].toarray() @ (blk["u"] * z), blk["w"].toarray() @ np.abs(blk["u"] * z)
            else:
                w = blk["w"].toarray() @ (blk["u"] * z + sysv[blk["usi"] - 1] * blk["us"][0])
                s = blk["w"].toarray() @ (np.abs(blk["u"] * z) + np.abs(sysv[blk["usi"] - 1] * blk["us"][0]))
            g = np.asarray(r.values[mod["idx"]["idx"][b]:mod["idx"]["idx"][b + 1]], dtype=float)
            m.close(g, w, "%s: block %d (type %d)" % (what, b, blk["t"]), rtol=1e-5, atol=1e-5 * float(np.max(np.abs(s) + np.abs(w))))
        m.close(r.ks, np.asarray(ks, float) * np.concatenate([np.hypot(d["Kr"], d["Ks"]) for d in S]), what + ": K", rtol=1e-9)
        carried(m, r, mu, what)
        return r
    r = reverse(t.values, t.ks, "reverse of the transformed data")
    m.saw("round_trip")
    for b, blk in enumerate(blocks):
        if blk["t"] in (1, 2):
            m.close(r.values[mod["idx"]["idx"][b]:mod["idx"]["idx"][b + 1]], blk["x"], "round trip of block %d" % b, rtol=2e-6)
    m.close(r.ks, mod["K"], "round trip of K", rtol=1e-9)
    m.saw("arbitrary")
    reverse(rng.normal(0, 5, len(v)).astype(np.float32), rng.normal(0, 5, len(k)), "reverse of arbitrary values")
    m.check(same(before, state(mu)), "transforming back changed the original data")


def carried(m, t, mu, what):
    for name in ("across_track_index1", "across_track_index2", "along_track_index1", "along_track_index2", "time1", "time2"):
        g, w = getattr(t, name, None), getattr(mu, name)
        m.check((g is None) == (w is None) and (w is None or (list(g) == list(w) if name[0] == "t" else np.array_equal(g, w, equal_nan=True))),
                "%s: %s" % (what, name))
        m.saw("track_index_carried" if w is not None and name[0] == "a" else "track_index_absent" if w is None else "time_carried")
    m.check(same(t._original_idx, mu._original_idx), what + ": index of the original data")
    m.close(t.a, mu.a, what + ": calibration parameters", rtol=0)
    m.check(t.sensor_model == mu.sensor_model and t.adjustment_model == mu.adjustment_model and list(t.sensor_model_constant) == list(mu.sensor_model_constant),
            what + ": sensor models and constants")
    m.check(len(t.unc) == len(mu.unc) and all(a.typeID == b.typeID for a, b in zip(t.unc, mu.unc)), what + ": uncertainties")
    m.check(len(t.w_matrices) == len(mu.w_matrices) and len(t.u_matrices) == len(mu.u_matrices), what + ": matrices")
