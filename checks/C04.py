"""Round trip of the match-up file writers."""
import os
import sys

import numpy as np
from netCDF4 import Dataset
from scipy.sparse import coo_matrix

import gen

PROP = "C04"
RULE = ("random match-up arrays (any shapes, magnitudes 1e-30..1e30, negative and zero values) written by the package writer and the tools' writer, weighting matrices packed and "
        "appended by the tools, read back with netCDF4 and with open_matchup; distinct = different writer, shapes, types, matrix structure")
N = {"quick": 320, "thorough": 9000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py", "tools/W_matrix_functions.py", "tools/pmh2fiduceo.py", "tools/AVHRR_to_updated_spec.py"]
NEED = ("avhrr_writer", "pmh_writer", "over_an_existing_file", "memory_layout", "package_writer", "tools_writer", "w_appended", "reopened", "additional_variables", "package_writer_with_w")


def setup():
    global Writer, open_matchup, TOOLS
    from harmonisation import open_matchup
    from harmonisation.core.matchup.matchupIO.MatchUpWriter import MatchUpWriter as Writer
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    import W_matrix_functions
    import pmh2fiduceo
    import AVHRR_to_updated_spec
    TOOLS = {"tools": W_matrix_functions, "pmh": pmh2fiduceo, "avhrr": AVHRR_to_updated_spec}


def snapshot(path):
    with Dataset(path) as ds:
        return ({n: (v.dimensions, str(v.dtype), np.ma.filled(v[:].astype(float), np.nan), {a: str(v.getncattr(a)) for a in v.ncattrs()}) for n, v in ds.variables.items()},
                {n: len(x) for n, x in ds.dimensions.items()}, {a: str(ds.getncattr(a)) for a in ds.ncattrs()})


def case(m, rng, i):
    spec = gen.gen(rng, types=(1, 2, 3, 4) if i % 4 else (3, 4), n_series=1, max_M=40, f4=False, fresh=bool(rng.random() < .5), max_m=5, wide=.1,
                   big_w=i % 400 == 203)
    d = spec["series"][0]
    who = ["package", "tools", "package", "tools", "package", "pmh", "package", "avhrr"][i % 8]
    tool = who != "package"
    W = TOOLS[who if tool else "tools"]
    PACK = getattr(W, "return_w_matrix_variables")
    scale = 10. ** rng.integers(-12, 12) if rng.random() < .3 else 1.
    for n in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2"):
        d[n] = d[n] * scale
        if rng.random() < .2:
            d[n] = d[n].astype(np.float32)
    if rng.random() < .2:
        d["time1"], d["time2"] = np.floor(d["time1"]).astype(int), np.floor(d["time2"]).astype(int)
    if who in ("pmh", "avhrr"):
        # these keep weights (and the second one most variables) at single precision
        for n in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks") if who == "avhrr" else ():
            d[n] = d[n].astype("f4").astype("f8")
        for w in d.get("W", ()):
            w.data = w.data.astype("f4").astype("f8")
        d["U"] = [u.astype("f4").astype("f8") for u in d.get("U", ())]
    if rng.random() < .3:
        m.saw("memory_layout")
        for n in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2"):
            d[n] = np.asfortranarray(d[n]) if rng.random() < .5 else np.repeat(d[n], 2, axis=0)[::2]
        for n in ("K", "Kr", "Ks", "time1", "time2"):
            d[n] = d[n][::-1].copy()[::-1]
    extra, dims = {}, {"M": d["M"], "m1": d["m"][0], "m2": d["m"][1]}
    for k in range(int(rng.integers(0, 4))):
        dim = [("M",), ("M", "m1"), ("M", "m2"), ("m1",), ("M",)][int(rng.integers(5))]
        t = str(rng.choice(["f8", "f4", "i4", "i2", "i8"]))
        a = rng.normal(0, 100, [dims[x] for x in dim])
        a = a.astype({"f8": float, "f4": np.float32, "i4": np.int32, "i2": np.int16, "i8": np.int64}[t])
        extra["more_%d" % k] = {"data": a, "dtype": t, "dim": dim, "Description": "variable %d" % k}
        m.saw("additional_variables")
    path = os.path.join(m.tmp, "f.nc")
    args = [d[n] for n in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "ut1", "ut2", "K", "Kr", "Ks", "time1", "time2")]
    before = [np.array(a) for a in args]
    m.key(who, gen.shape_key(spec), tuple((v["dim"], v["dtype"]) for v in extra.values()))
    m.sample(writer=who, series=gen.describe(spec), extra={k: [v["dtype"], list(v["dim"])] for k, v in extra.items()})
    wv = gen.w_vars(d) if "W" in d else None
    kw = {} if not extra and rng.random() < .5 else {"additional_variables": extra or None}
    if rng.random() < .2:
        # something of that name is there: the file holds what is written now
        m.saw("over_an_existing_file")
        if rng.random() < .5:
            gen.write(gen.gen(rng, n_series=1, max_M=80)["series"][0], path)
        else:
            with open(path, "wb") as f:
                f.write(rng.bytes(5000))
    if tool:
        m.saw(who + "_writer")
        W.write_input_file(path, *args, d["s"][0], d["s"][1], **kw)
    else:
        m.saw("package_writer")
        if wv is not None and i % 4 == 0:
            kw["w_matrix_variables"] = (wv["w_matrix_nnz"], wv["w_matrix_row"], wv["w_matrix_col"], wv["w_matrix_val"], d["use"]["w1"], d["use"]["w2"],
                                        wv["u_matrix_row_count"], wv["u_matrix_val"], d["use"]["u1"], d["use"]["u2"])
        Writer().write_input_file(path, *args, d["s"][0], d["s"][1], **kw)
        if "w_matrix_variables" in kw:
            m.saw("package_writer_with_w")
            with Dataset(path) as ds:
                if not m.check("w_matrix_val" in ds.variables, "weighting matrix variables given to the package writer are not in the file", finding="writer-ignores-w"):
                    kw.pop("w_matrix_variables")
    for n, a, b in zip(("X1", "X2", "Ur1", "Ur2", "Us1", "Us2"), args, before):
        m.check(np.array_equal(a, b), "the writer changed its input " + n)
    v, dm, at = snapshot(path)
    m.equal((at.get("sensor_1_name"), at.get("sensor_2_name")), d["s"], "sensor names in the file")
    for n, k in dims.items():
        m.equal(dm[n], k, "dimension " + n)
    for n, a, dim in [("X1", d["X1"], ("M", "m1")), ("X2", d["X2"], ("M", "m2")), ("Ur1", d["Ur1"], ("M", "m1")), ("Ur2", d["Ur2"], ("M", "m2")),
                      ("Us1", d["Us1"], ("M", "m1")), ("Us2", d["Us2"], ("M", "m2")), ("uncertainty_type1", d["ut1"], ("m1",)), ("uncertainty_type2", d["ut2"], ("m2",)),
                      ("K", d["K"], ("M",)), ("Kr", d["Kr"], ("M",)), ("Ks", d["Ks"], ("M",)), ("time1", d["time1"], ("M",)), ("time2", d["time2"], ("M",))] + \
            [(n, e["data"], e["dim"]) for n, e in extra.items()]:
        m.check(n in v, "variable %s is missing from the file" % n)
        m.equal(v[n][0], dim, "dimensions of " + n)
        if n not in extra:      # single precision is what the converter of AVHRR files stores, but for times
            want = "int32" if n[:11] == "uncertainty" else "float32" if who == "avhrr" and n[:4] != "time" else "float64"
            m.check(v[n][1] == want, "type of " + n, got=v[n][1], want=want)
        m.close(v[n][2], a, n + " in the file", rtol=1e-12 if "f8" in v[n][1] or "float64" in v[n][1] else 1e-7)
    for n, e in extra.items():
        m.check(np.dtype(v[n][1]) == np.dtype(e["dtype"]), "type of " + n, got=v[n][1], want=e["dtype"])
        m.check(e["Description"] in v[n][3].values(), "description of " + n)
    if wv is not None and "w_matrix_variables" not in kw:
        if not (tool or rng.random() < .5):
            return
        us = [u * (scale if rng.random() < .5 and who != "pmh" and who != "avhrr" else 1) for u in d["U"]]
        if rng.random() < .3:
            us = [u.astype(np.float32) for u in us]
        d["U"] = us
        got = PACK([w.copy() for w in d["W"]], [u.copy() for u in us])
        m.check(len(got) == 6, "six packed variables")
        val, row, col, nnz, cnt, uval = got
        want = gen.w_vars(d)
        for n, g, k in (("values", val, "w_matrix_val"), ("row pointers", row, "w_matrix_row"), ("columns", col, "w_matrix_col"), ("entry counts", nnz, "w_matrix_nnz"),
                        ("vector lengths", cnt, "u_matrix_row_count"), ("vector values", uval, "u_matrix_val")):
            m.close(g, want[k], "packed " + n, rtol=1e-12)
        W.append_W_to_input_file(path, val, row, col, nnz, cnt, uval, d["use"]["w1"], d["use"]["w2"], d["use"]["u1"], d["use"]["u2"])
        m.saw("w_appended")
        v2, dm2, at2 = snapshot(path)
        for n in v:
            m.check(n in v2 and v2[n][0] == v[n][0] and v2[n][1] == v[n][1] and np.array_equal(v2[n][2], v[n][2], equal_nan=True) and v2[n][3] == v[n][3],
                    "appending matrices changed variable " + n)
        m.check(all(dm2[n] == dm[n] for n in dm) and at == at2, "appending matrices changed dimensions or attributes")
        for s in (1, 2):
            m.close(v2["w_matrix_use%d" % s][2], d["use"]["w%d" % s], "w_matrix_use%d" % s, rtol=0)
            m.close(v2["u_matrix_use%d" % s][2], d["use"]["u%d" % s], "u_matrix_use%d" % s, rtol=0)
        # unpack as the format says
        off, uo = 0, 0
        for k, w in enumerate(d["W"]):
            n = int(v2["w_matrix_nnz"][2][k])
            rp = np.atleast_2d(v2["w_matrix_row"][2])[k]
            m.check(rp[0] == 0 and rp[-1] == n == w.nnz and (np.diff(rp) >= 0).all(), "row pointers of weighting matrix %d in the file" % (k + 1))
            full = coo_matrix((v2["w_matrix_val"][2][off:off + n], (np.repeat(np.arange(w.shape[0]), np.diff(rp).astype(int)), v2["w_matrix_col"][2][off:off + n].astype(int))), shape=w.shape)
            off += n
            m.check(w.shape[1] > 20000 or np.array_equal(full.toarray(), w.toarray()), "weighting matrix %d in the file" % (k + 1))
            m.check(abs(full.tocsr() - w).max() == 0, "weighting matrix %d in the file" % (k + 1))
        for k, u in enumerate(us):
            n = int(v2["u_matrix_row_count"][2][k])
            m.close(v2["u_matrix_val"][2][uo:uo + n], u, "uncertainty vector %d in the file" % (k + 1), rtol=1e-7 if u.dtype == np.float32 else 1e-12)
            uo += n
        have_w = True
    else:
        have_w = wv is None or "w_matrix_variables" in kw
    if have_w:
        m.saw("reopened")
        mu = open_matchup(path)
        import checks.C02 as c2
        d["extra"] = {}
        mod = gen.model(spec)
        # the reader keeps measurements at single precision
        c2.check(m, mu, mod, spec, kr=3e-7 if who == "avhrr" else 1e-9)
        m.close(mu.ks, d["K"], "K of the reopened file", rtol=1e-12)
        m.equal(mu.idx["sensors"], list(d["s"]), "sensors of the reopened file")
