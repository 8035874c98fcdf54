"""C17: rolling-average weighting matrices generated for match-ups on scanline grids, compared row by row with the averaging windows; overlaps, column use and
uncertainty vectors are recomputed from the scanlines, and averages of probe scanline data are formed through the matrix."""
import os
import sys

import numpy as np

PROP = "C17"
RULE = ("1-80 match-ups in any time order on grids of 0.1-8 s scanlines with jitter below half a scanline, repeated scanlines, gaps and touching windows; kernels of 1-15 with equal or "
        "given weights, one uncertainty or one per scanline; non-trivial when windows overlap")
N = {"quick": 3000, "thorough": 60000}
BUDGET = {"quick": 150, "thorough": 500}
FILES = ["tools/generate_w_matrices.py", "tools/pmh2fiduceo.py"]
NEED = ["matrices", "single_u", "array_u", "given_weights", "equal_weights", "overlap", "gap", "same_scanline", "unsorted", "jitter", "kernel_from_u", "zero weights", "of the PMH tool", "lists", "far apart", "signed weights", "exact scanlines"]
GEN = []


def setup():
    sys.path.insert(0, os.path.join(os.environ["VERIF_TREE"], "tools"))
    import generate_w_matrices
    import pmh2fiduceo
    GEN[:] = [generate_w_matrices.generate_rolling_average_w_matrix, pmh2fiduceo.generate_rolling_average_w_matrix]


def case(m, rng, i):
    gen_w = GEN[int(rng.random() < .3)]
    if gen_w is GEN[1]:
        m.saw("of the PMH tool")
    n = int(rng.choice([1, 2, 5, 20, 80, 700], p=[.198] * 5 + [.01]))
    k = int(rng.integers(1, 16))
    dt = float(rng.choice([1. / 6., .5, 1., 8. / 3., 2., 8., .1, float(rng.uniform(.1, 8))]))
    step = int(rng.choice([1, 2, k, k + 1, 3 * k]))
    pos = np.cumsum(rng.integers(0, step + 1, n)) if rng.random() < .7 else rng.integers(0, 5 * n + 1, n)
    if n > 1 and rng.random() < .1:                          # days or months apart
        pos = pos + np.where(np.arange(n) >= int(rng.integers(1, n)), int(rng.choice([2 ** 8, 2 ** 15, 2 ** 16, 86400, 10 ** 7])) - int(rng.integers(0, 3)), 0)
        m.saw("far apart")
    if rng.random() < .3:
        rng.shuffle(pos)
    if np.any(np.diff(pos) < 0):
        m.saw("unsorted")
    if len(set(pos.tolist())) < n:
        m.saw("same_scanline")
    t0 = float(rng.choice([0., 1.2e9, float(rng.uniform(0, 1.5e9))]))
    jit = np.zeros(n)
    if rng.random() < .4:
        jit = rng.uniform(-.2, .2, n)
        m.saw("jitter")
    times = t0 + (pos + jit) * dt
    # scanline of every match-up relative to the first, by its time
    rel = np.rint((times - times[0]) / dt).astype(int)
    if np.abs((times - times[0]) / dt - rel).max() > .45:
        from harness import SkipCase
        raise SkipCase
    rel = rel - rel.min()
    given = rng.random() < .5
    w = rng.uniform(.05, 1., k) if given else np.full(k, 1. / k)
    if given and rng.random() < .3:
        w = w / w.sum()
        if rng.random() < .4:                                # as printed
            w = np.maximum(np.round(w, 4), 1e-4)
    if given and k > 2 and rng.random() < .3:
        w[rng.random(k) < .5] = 0.
        w[int(rng.integers(k))] = .3
        m.saw("zero weights")
    if given and rng.random() < .1:                          # a difference rather than an average
        w = (np.ones(k) if rng.random() < .5 else w) * rng.choice([-1., 1.], k)
        m.saw("signed weights")
    held_j = [j for j in range(k) if w[j]]
    lines = sorted({int(p) + j for p in rel for j in held_j})
    every = sorted({int(p) + j for p in rel for j in range(k)})
    col = {s: c for c, s in enumerate(lines)}
    if len(lines) < n * len(held_j):
        m.saw("overlap")
    else:
        m.trivial = True
    if lines[-1] - lines[0] + 1 > len(lines):
        m.saw("gap")
    us = dict(zip(every, rng.uniform(.01, 2., len(every))))
    if rng.random() < .2:                                    # scanlines known exactly
        us = {s: v if rng.random() < .6 else 0. for s, v in us.items()}
        m.saw("exact scanlines")
    kw = {}
    single = rng.random() < .5
    if single:
        u = float(rng.uniform(.01, 2))
        m.saw("single_u")
    else:
        u = np.array([[us[int(p) + j] for j in range(k)] for p in rel])
        m.saw("array_u")
    if given:
        kw["weights"] = w
        m.saw("given_weights")
    else:
        m.saw("equal_weights")
        if single or rng.random() < .5:
            kw["kernel_size"] = k
        else:
            m.saw("kernel_from_u")
    m.key(n, k, len(lines), single, sorted(kw))
    held = times.copy(), np.array(w), np.array(u)
    t_in = times
    if rng.random() < .2:
        t_in = times.tolist()
        if given:
            kw["weights"] = w.tolist()
        m.saw("lists")
    W, U = gen_w(t_in, dt, u, **kw)
    m.saw("matrices")
    # whether a line that only ever gets the weight zero is used is a matter of taste
    if W.shape[1] == len(every):
        lines = every
        col = {s: c for c, s in enumerate(lines)}
    what = "%d match-ups, kernel of %d, %d scanlines of %g s: " % (n, k, len(lines), dt)
    m.equal(tuple(int(v) for v in W.shape), (n, len(lines)), what + "a row per match-up and a column per scanline used")
    D = np.zeros((n, len(lines)))
    for r, p in enumerate(rel):
        for j in held_j:
            D[r, col[int(p) + j]] = w[j]
    m.close(W.toarray(), D, what + "weights", rtol=1e-14)
    if len(held_j) == k:
        m.equal(W.nnz, n * k, what + "stored weights")
        m.equal([int(v) for v in np.diff(W.indptr)], [k] * n, what + "weights per row")
    m.close(np.asarray(W.sum(axis=1)).ravel(), np.full(n, np.sum(w)), what + "sum of a row", rtol=1e-12, atol=1e-12)
    m.close(U, np.full(len(lines), u) if single else [us[s] for s in lines], what + "uncertainties of the scanlines", rtol=1e-14)
    # averaging scanline data through the matrix
    x = dict(zip(every, rng.normal(280, 10, len(every))))
    m.close(W @ [x[s] for s in lines], [np.dot(w, [x[int(p) + j] for j in range(k)]) for p in rel], what + "averages", rtol=1e-12, atol=1e-10)
    m.check(np.array_equal(held[0], times) and np.array_equal(held[2], u) and ("weights" not in kw or np.array_equal(held[1], w)), what + "inputs stay as they were")
