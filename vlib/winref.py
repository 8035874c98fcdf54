"""Averaging windows on a scanline grid, one scanline at a time: what rolling-average weighting matrices have to hold."""
import numpy as np


def windows(times, dt, k):
    """scanline of each match-up's window start, relative to the earliest, and the sorted scanlines all windows cover"""
    rel = np.rint((np.asarray(times) - times[0]) / dt).astype(int)
    rel = rel - rel.min()
    return rel, sorted({int(p) + j for p in rel for j in range(k)})


def dense(times, dt, w):
    rel, lines = windows(times, dt, len(w))
    col = {s: c for c, s in enumerate(lines)}
    D = np.zeros((len(rel), len(lines)))
    for r, p in enumerate(rel):
        for j, v in enumerate(w):
            D[r, col[int(p) + j]] = v
    return D


def per_line(times, dt, u):
    """uncertainties of the covered scanlines from the windows' values (windows agree where they overlap)"""
    rel, lines = windows(times, dt, u.shape[1])
    val = {}
    for r, p in enumerate(rel):
        for j in range(u.shape[1]):
            val[int(p) + j] = u[r, j]
    return np.array([val[s] for s in lines])


def stored(ds):
    """[(dense matrix)], [vector] of a match-up file opened with netCDF4, read with plain loops"""
    nnz = [int(v) for v in ds.variables["w_matrix_nnz"][:]]
    ptr, col, val = (np.asarray(ds.variables["w_matrix_" + n][:]) for n in ("row", "col", "val"))
    W, a = [], 0
    for q, n in enumerate(nnz):
        c, v = col[a:a + n], val[a:a + n]
        D = np.zeros((ptr.shape[1] - 1, int(c.max()) + 1))
        for r in range(ptr.shape[1] - 1):
            for e in range(int(ptr[q, r]), int(ptr[q, r + 1])):
                D[r, int(c[e])] += v[e]
        W.append(D)
        a += n
    U, a = [], 0
    for n in ds.variables["u_matrix_row_count"][:]:
        U.append(np.asarray(ds.variables["u_matrix_val"][a:a + int(n)]))
        a += int(n)
    return W, U
