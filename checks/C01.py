"""Reader layout: every measurement of every file appears once, in the block the index says."""
import os

import numpy as np

import gen

PROP = "C01"
RULE = ("random match-up file sets (1-6 series, any sensor graph incl. repeated pairs and a sensor on both sides, M 1-60, 1-4 covariates per sensor, "
        "f4/f8 storage, opened as one file, list, shuffled list, or directory with other files in it); every stored measurement is a distinct number; "
        "distinct = different structure (graph, sizes, types, opening mode)")
N = {"quick": 480, "thorough": 14000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py"]
NEED = ("blocks", "open_dir", "open_list", "open_single", "open_dirs", "refused_paths", "same_names", "magnitudes")


def setup():
    global open_matchup
    from harmonisation import open_matchup


def case(m, rng, i):
    spec = gen.gen(rng, types=(1, 2, 3, 4) if rng.random() < .5 else (1, 2), fresh=bool(rng.random() < .5), wide=.1, big=i % 400 == 201)
    S = spec["series"]
    d = os.path.join(m.tmp, "data with space" if i % 7 == 0 else "data")
    os.makedirs(d)
    mode = ["list", "dir", "single", "shuffled", "dirs"][i % 5]
    if mode == "single":
        S = spec["series"] = S[:1]
    order = list(range(len(S)))
    if mode in ("dir", "shuffled", "dirs"):
        # the order on disk (creation, name) differs from the order of the series in the data set
        rng.shuffle(order)
    magnitudes(m, rng, S)
    h = int(rng.integers(len(S) + 1)) if rng.random() < .3 else 0     # upper-case names come first
    names = ["%s_%d%s.nc" % (chr(78 + p) if p < h else chr(97 + p - h), rng.integers(10) if i % 2 else 3, "x" * int(rng.integers(3)) if i % 2 else "") for p in range(len(S))]
    paths = [os.path.join(d, n) for n in names]
    if mode == "dirs":
        # the directories are given out of the order of their names, the files go to them series after series
        q = int(rng.integers(1, 4))
        dirs = [os.path.join(d, "%s%d" % ("zmca"[j], int(rng.integers(10)))) for j in rng.permutation(4)[:q]]
        at = np.sort(rng.integers(0, q, len(S)))
        if rng.random() < .5:       # files of different folders may have the same name
            names = ["match_%02d.nc" % np.sum(at[:k] == at[k]) for k in range(len(S))]
            m.saw("same_names", len(set(names)) < len(names))
        paths = [os.path.join(dirs[at[k]], n) for k, n in enumerate(names)]
        for x in dirs:
            os.mkdir(x)
            open(os.path.join(x, "notes.txt"), "w").write("not data")
    for k in order:
        gen.write(S[k], paths[k], spec["f4"])
    if mode == "dir":
        open(os.path.join(d, "aaa_readme.txt"), "w").write("not data")
        open(os.path.join(d, "b_notes.nc.txt"), "w").write("not data")
        arg = d
    elif mode == "dirs":
        arg = dirs
    elif mode == "single":
        arg = paths[0] if rng.random() < .7 else paths[:1]
    elif mode == "shuffled":
        perm = list(range(len(S)))
        rng.shuffle(perm)
        spec["series"] = [S[p] for p in perm]
        arg = [paths[p] for p in perm]
    else:
        arg = paths
    m.saw("open_" + ("list" if mode == "shuffled" else mode))
    mod = gen.model(spec)
    with_unc, with_add = bool(rng.random() < .6), bool(rng.random() < .6)
    mu = open_matchup(arg, open_uncertainty=with_unc, open_additional_values=with_add)
    m.key(mode, gen.shape_key(spec))
    m.sample(mode=mode, series=gen.describe(spec))
    check(m, mu, mod)
    if i % 3 == 0:
        bad = [os.path.join(m.tmp, "nowhere.nc"), os.path.join(d, "nodir", "x"), [paths[0], os.path.join(d, "absent.nc")]][(i // 3) % 3]
        try:
            r = open_matchup(bad)
        except Exception:
            r = None
        m.saw("refused_paths")
        m.check(r is None or len(r.values) == 0, "a path that is no file or directory was opened as data", path=bad)


def magnitudes(m, rng, S):
    """Some measurements far from the rest: large, tiny, zero, not a number."""
    for d in S:
        if rng.random() < .3:
            X = d["X%d" % rng.integers(1, 3)]
            for _ in range(int(rng.integers(1, 4))):
                X[rng.integers(len(X)), rng.integers(X.shape[1])] = rng.choice([3.5e7, -2.25e12, 1e30, -1e30, 3e-12, -1e-30, 0., -0., 1e5, -32768., -999., np.nan, np.inf, -np.inf])
            m.saw("magnitudes")


def check(m, mu, mod):
    I = mod["idx"]
    for k in ("Nm", "cNm", "Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov", "N_var", "idx"):
        m.equal(list(mu.idx[k]), I[k], "index entry " + k)
    v = np.asarray(mu.values)
    m.check(v.ndim == 1 and len(v) == I["idx"][-1], "length of the data array", got=v.shape, want=I["idx"][-1])
    m.check(v.dtype == np.float32, "measurements are held at single precision", dtype=v.dtype)
    for b, blk in enumerate(mod["blocks"]):
        m.saw("blocks")
        m.close(v[I["idx"][b]:I["idx"][b + 1]], blk["x"], "block %d (sensor %s, series %d, covariate %d)"
                % (b, I["sensors"][blk["s"]], blk["mu"], blk["c"]), rtol=0)
    m.check(np.asarray(mu.ks).dtype == np.float64, "K is held at double precision", dtype=np.asarray(mu.ks).dtype)
    m.close(mu.ks, mod["K"], "K", rtol=0)
