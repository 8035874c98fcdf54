"""Drives the compiled extensions, built with sanitizers, in the solver's data chain.

cywork.py SEED COUNT FOLDER prints a line "ran NAME SIZE" for each call and "differs ..." where a result is not what the index model gives."""
import os
import sys

import numpy as np

import gnlib


def main(seed, count, folder):
    pkg = gnlib.load()
    ext = {n.rsplit(".", 1)[-1]: mod for n, mod in sys.modules.items() if n.rsplit(".", 1)[-1].startswith("cython_lib_")}
    unconvert, sample = ext["cython_lib_GN_algo"].unconvert_Xs, ext["cython_lib_sample2ind"].get_sample_idxs
    rng = np.random.default_rng(seed)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    i32 = lambda v: np.asarray(v, dtype=np.int32)
    for c in range(count):
        P = gnlib.Problem(rng, max_M=40, min_M=1, max_series=4, max_m=4, ref=bool(rng.random() < .5))
        d = os.path.join(folder, "c%d" % c)
        os.makedirs(d)
        P.write(d)
        t, mu = gnlib.prepare(P, d, P.a_true)
        try:
            pkg.Sample2Ind().run(mu, sf=float(rng.choice([1., .5, .1])))
        except IndexError:
            pass            # nothing sampled
        out.write("ran sample_chain %d\n" % len(P.K))
        for _ in range(6):
            ws = [w for w in mu.w_matrices if not np.isscalar(w)]
            ws = [w for w in ws if w.shape[0] == ws[0].shape[0]] if ws else []
            if not ws:
                break
            use = i32(rng.integers(0, len(ws), int(rng.integers(1, 4))))
            got = sample(use, int(rng.choice([0, 1, 3, 10 ** 6])), ws)
            seen = [set() for _ in use]
            for r in got:
                for s, k in zip(seen, use):
                    cols = set(ws[k].indices[ws[k].indptr[r]:ws[k].indptr[r + 1]].tolist())
                    if s & cols:
                        out.write("differs get_sample_idxs: match-up %d shares column %s\n" % (r, sorted(s & cols)))
                    s |= cols
            out.write("ran get_sample_idxs %d\n" % len(got))
        z = np.concatenate([t.values, t.a])
        X = P.blocks_X(z)
        blocks = P.mod["blocks"]
        absX = P.blocks_X(np.abs(z))
        for k, s in enumerate(P.spec["series"]):
            for side in (1, 2):
                n = P.mod["idx"]["sensors"].index(s["s"][side - 1])
                mine = [j for j, b in enumerate(blocks) if b["mu"] == k + 1 and b["side"] == side]
                full = [np.asarray(z, np.float32), i32(t.idx["n_sensor"]), i32(t.idx["idx"]), i32(t._original_idx["idx"]), i32(t.idx["n_cov"]),
                        i32(t.idx["n_mu"]), i32(t.idx["N_var"]), list(t.unc), list(t.w_matrices), [np.asarray(u, np.float32) for u in t.u_matrices],
                        n, k + 1, len(mine)]
                got = unconvert(*full)
                want = np.column_stack([X[j] for j in mine])
                at = 2e-6 * np.column_stack([np.abs(absX[j]) for j in mine]) + 1e-6
                if got.shape != want.shape or not (np.abs(got - want) <= at + 2e-6 * np.abs(want)).all():
                    out.write("differs unconvert_Xs of series %d sensor %d\n" % (k + 1, n))
                out.write("ran unconvert_Xs %d\n" % want.size)
    out.write("ran end 1\n")
    out.flush()


main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3])
