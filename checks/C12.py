"""C12: the bundled iterative solvers, observed on generated systems: every reported quantity is recomputed from the returned solution with dense
linear algebra, the solution is held to the optimality conditions it claims, and objects are reused across systems."""
import contextlib
import importlib
import io

import numpy as np
import gnlib
from harness import SkipCase  # noqa: F401

PROP = "C12"
RULE = ("LSMR and MINRES on random systems with chosen singular values or spectrum (tall, wide, square, rank deficient, identity-like, scaled), zero and "
        "orthogonal right-hand sides, eigenvectors, damping, shift, preconditioners, tolerances and iteration limits, several per object; "
        "non-trivial when more than one iteration is taken")
N = {"quick": 7000, "thorough": 60000}
GP = "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/"
FILES = [GP + "pykrylov_lsmr.py", GP + "pykrylov_minres.py", GP + "pykrylov_generic.py", GP + "pykrylov_tools_utils.py"]
NEED = ["form_column", "form_strided", "form_single", "lsmr_converged", "lsmr_reuse", "minres_converged", "minres_reuse", "zero_rhs", "limit", "nonsymmetric", "bad_precon", "eigenvector", "damped",
        "weighted", "shifted", "preconditioned", "rank_deficient", "stop_1", "stop_2", "stop_3", "stop_7"]
LS = MR = lsmr = minres = roots = None
# what the closing line of a run that is asked to show itself says about the reason for stopping
LSMR_SAYS = [("exact", "x = 0"), ("small enough", "btol"), ("least-squares", "given atol"), ("cond", "exceeded conlim"), ("small enough", "this machine"),
             ("least-squares", "this machine"), ("cond", "too large"), ("iteration limit",), ("direct error", "etol")]
MINRES_SAYS = {-1: ("eigenvectors",), 0: ("x = 0",), 1: ("solution to", "rtol"), 2: ("least-squares", "rtol"), 3: ("accuracy", "eps"), 4: ("eigenvector",), 5: ("acond",), 6: ("iteration limit",),
               7: ("aname", "not", "symmetric"), 8: ("mname", "not", "symmetric"), 9: ("mname", "not", "pos-def"), 10: ("direct error", "etol")}


def setup():
    global LS, MR, roots
    gnlib.load()
    base = gnlib.HP + "harmonisationProcessing.harmonisation_eiv."
    LS = importlib.import_module(base + "pykrylov_lsmr").LSMRFramework
    roots = importlib.import_module(base + "pykrylov_tools_utils").roots_quadratic
    MR = importlib.import_module(base + "pykrylov_minres").Minres


def orth(rng, n, k):
    return np.linalg.qr(rng.normal(0, 1, (n, n)))[0][:, :k]


def operator(rng, A, matrices=True):
    from scipy.sparse import csr_matrix
    from scipy.sparse.linalg import aslinearoperator, LinearOperator
    k = int(rng.integers(3)) if matrices else 2 * int(rng.integers(2))
    if k == 0:
        return aslinearoperator(A)
    if k == 1:
        return csr_matrix(A)
    return LinearOperator(A.shape, matvec=lambda v: A @ np.ravel(v), rmatvec=lambda v: A.T @ np.ravel(v), dtype=float)


def spd(rng, n):
    q = orth(rng, n, n)
    return (q * 10 ** rng.uniform(-.5, .5, n)) @ q.T


def lsmr_system(rng):
    big = 5 if rng.random() < .01 else 1
    M, N_ = int(rng.integers(2, 40 * big)), int(rng.integers(1, 30 * big))
    kind = rng.choice(["plain", "plain", "plain", "deficient", "identity", "diag", "clustered"])
    k = min(M, N_)
    r = k if kind != "deficient" else int(rng.integers(1, k + 1))
    sv = 10 ** rng.uniform(0, rng.uniform(0, 2.), r)
    if kind == "clustered":
        sv = rng.choice(sv[:3], r)
    if kind in ("identity", "diag"):
        A = np.zeros((M, N_))
        A[range(k), range(k)] = 1. if kind == "identity" else rng.integers(1, 5, k)
    else:
        A = (orth(rng, M, r) * sv) @ orth(rng, N_, r).T
    far = rng.random() < .1         # units in which the numbers are tiny or huge
    A = A * 10 ** (rng.uniform(-9, 9) if far else rng.uniform(-4, 4))
    b = rng.normal(0, 1, M)
    bk = rng.choice(["random", "consistent", "zero", "orthogonal", "unit"], p=[.45, .3, .07, .08, .1])
    if bk == "consistent":
        b = A @ rng.normal(0, 1, N_)
    elif bk == "zero":
        b = np.zeros(M)
    elif bk == "orthogonal" and M > 1:
        A[-1] = 0.
        b = np.zeros(M)
        b[-1] = 2.
    elif bk == "unit":
        b = np.zeros(M)
        b[int(rng.integers(M))] = 3.
    return A, b * 10 ** (rng.uniform(-25, 25) if far else rng.uniform(-3, 3)), kind, bk


def true_quantities(A, b, x, damp, E, F):
    E = np.eye(len(b)) if E is None else E
    Fi = np.eye(len(x)) if F is None else np.linalg.inv(F)
    r = b - A @ x
    g = A.T @ (E @ r) - damp ** 2 * (Fi @ x)
    nr = np.sqrt(max(0., r @ E @ r + damp ** 2 * (x @ Fi @ x)))
    ng = np.sqrt(max(0., g @ (np.eye(len(x)) if F is None else F) @ g))
    return nr, ng, g


def direct_errors(m, got, h, window, what):
    """Truncated direct errors: what the last `window` iterations contributed, relative to everything so far."""
    m.equal(len(got), max(0, len(h) - 1 - window), what + "one direct error per iteration after the first window")
    for k, g in enumerate(got):
        j = k + window + 1
        w = np.sqrt(max(0., h[j - window] ** 2 - h[j] ** 2) / max(h[0] ** 2 - h[j] ** 2, 1e-300))
        m.check(abs(g - w) <= 1e-4 * w + 1e-6, what + "direct error after %d iterations" % j, got=g, want=w)


def lsmr_case(m, rng, i):
    obj = None
    for turn in range(int(rng.integers(1, 4))):
        if obj is None or rng.random() < .4:
            A, b, kind, bk = lsmr_system(rng)
            op = operator(rng, A, False)
            obj = LS(op)
        else:
            b = rng.normal(0, 1, len(b)) if rng.random() < .7 else np.zeros(len(b))
            bk = "again" if b.any() else "zero"
            m.saw("lsmr_reuse")
        M_, N_ = A.shape
        scale = np.linalg.norm(A, 2) if A.any() else 1.
        fro = np.linalg.norm(A)
        damp = 0. if rng.random() < .6 else float(scale * 10 ** rng.uniform(-2, 1))
        tol = float(10 ** rng.uniform(-12, -6))
        lim = None if rng.random() < .15 else int(rng.integers(1, 5)) if rng.random() < .2 else 6 * (M_ + N_) + 20
        kw = dict(damp=damp, atol=tol, btol=tol, conlim=1e12 if rng.random() < .85 else float(10 ** rng.uniform(.5, 2)), itnlim=lim, etol=0. if rng.random() < .6 else 1e-6,
                  store_resids=True, store_iterates=True, show=bool(rng.random() < .2),
                  window=int(rng.choice([5, 5, 2, 3, 8])))
        E = F = None
        if rng.random() < .2:
            E = spd(rng, M_)
            kw["M"] = lambda v, E=E: E @ v
            m.saw("weighted")
        if rng.random() < .2:
            F = spd(rng, N_)
            kw["N"] = lambda v, F=F: F @ v
            m.saw("weighted")
        if damp:
            m.saw("damped")
        b0, A0 = b.copy(), A.copy()
        if rng.random() < .05:
            kw["atol"] = kw["btol"] = tol = 0.
            m.saw("machine_precision")
        if rng.random() < .06:
            # documented defaults, left out or given as None
            kw.update(atol=1e-6, btol=1e-6, conlim=1e8)
            tol = 1e-6
            told, kw2 = kw, dict(kw, atol=None, btol=None, conlim=None, damp=None if not damp else damp)
            if kw["etol"]:
                del kw2["etol"]
            if kw["window"] == 5:
                del kw2["window"]
            m.saw("defaults")
        else:
            told, kw2 = kw, kw
        with shown() as text:
            out = obj.solve(b, **kw2)
        x, istop, itn, normr, normar, norma, conda, normx = out
        what = "LSMR %dx%d %s/%s damp=%.3g tol=%.1e E=%s F=%s stop=%s itn=%s: " % (M_, N_, kind, bk, damp, tol, E is not None, F is not None, istop, itn)
        m.key("lsmr", M_ > N_, M_ == N_, kind, bk, damp > 0, E is not None, F is not None, istop, min(itn, 6))
        m.saw("stop_%d" % istop)
        m.check(np.array_equal(b, b0) and np.array_equal(A, A0), what + "inputs left alone")
        m.check(obj.x is not None and np.array_equal(np.asarray(obj.x), x), what + "the solver's solution is the one returned", got=obj.x, want=x)
        m.check(x.shape == (N_,) and np.isfinite(x).all(), what + "finite solution of the right size", x=x)
        limit = min(M_, N_) if lim is None else lim
        m.check(0 <= itn <= limit, what + "iterations within the limit", itn=itn, limit=limit)
        m.check(0 <= istop <= 8, what + "stop reason known")
        nr, ng, g = true_quantities(A, b, x, damp, E, F)
        eE = 1. if E is None else np.linalg.norm(E, 2) ** .5
        eF = 1. if F is None else np.linalg.norm(F, 2) ** .5
        aE, bE = np.linalg.norm(A, 2) * eE * eF if A.any() else 0., np.linalg.norm(b) * eE
        tot = np.hypot(aE, damp)
        if not b.any():
            m.saw("zero_rhs")
        if istop == 0:
            m.check(not x.any() and np.linalg.norm(A.T @ (E @ b if E is not None else b)) <= 1e-14 * np.linalg.norm(A) * np.linalg.norm(b) * eE ** 2,
                    what + "zero is the solution when it says so")
        m.check(not (itn == 0) or istop == 0, what + "stop reason for no iterations")
        says(m, text, kw["show"], LSMR_SAYS[istop], what)
        # reported quantities describe the returned solution
        cond = conda if np.isfinite(conda) else 1e16
        fine = itn <= min(M_, N_) + 2 and cond < 1e5
        if itn and fine:
            m.close(normx, np.linalg.norm(x), what + "norm of x", rtol=1e-9)
            m.close(normr, nr, what + "norm of the residual", rtol=1e-5, atol=1e-8 * bE + 1e-8 * tot * np.linalg.norm(x))
            m.close(normar, ng, what + "norm of the normal equations' residual", rtol=1e-3, atol=1e-8 * tot * (bE + tot * np.linalg.norm(x)))
            m.check(norma <= 1.001 * np.sqrt(min(M_, N_)) * tot * (1.2 if itn <= min(M_, N_) else 2.) + 1e-300, what + "norm of A not above the Frobenius norm", got=norma, fro=fro)
        # the stop reason is true of the solution
        if istop == 7:
            m.saw("limit")
            m.check(itn == limit, what + "stopped at the limit it names")
        elif istop < 7:
            m.check(itn <= limit, what + "within the limit")
        if itn and istop:
            # the tests behind the reasons, in the solver's own terms: the one it names is met, and none of those that come before it
            beta = float(np.sqrt(b @ (b if E is None else E @ b)))
            eps = 1.11e-16
            left = {1: (normr, tol * beta + tol * norma * normx), 2: (normar, tol * norma * normr), 3: (1., conda / kw["conlim"]), 4: (normr, eps * (beta + norma * normx)),
                    5: (normar, eps * norma * normr), 6: (1., conda * eps)}
            for q, (small, bound) in left.items():
                if q == istop:
                    m.check(small <= bound * (1 + 1e-6) * (1 if q < 4 else 2), what + "test %d is met, it being the reason" % q, got=small, bound=bound)
                    break
                m.check(small >= bound * (1 - 1e-6) * (1 if q < 4 else .5), what + "test %d is not met, it not being the reason" % q, got=small, bound=bound)
        if istop in (1, 4):
            m.check(nr <= 3 * (tol * (bE + norma * np.linalg.norm(x) * max(1., 1. if F is None else np.linalg.norm(np.linalg.inv(F), 2) ** .5)) + 1e-12 * (bE + tot * np.linalg.norm(x))),
                    what + "residual small as reported", got=nr)
        if istop in (2, 5):
            m.check(ng <= 3 * tol * norma * nr + 1e-9 * tot * (bE + tot * np.linalg.norm(x)), what + "normal equations solved as reported", got=ng, bound=tol * norma * nr)
        if istop == 3:
            m.check(kw["conlim"] < 1e5 and conda >= kw["conlim"] * .999, what + "condition number above its limit")
            if E is None and F is None:
                true = np.linalg.svd(A, compute_uv=False)
                true = np.sqrt((true[0] ** 2 + damp ** 2) / ((true[true > 1e-9 * true[0]][-1] if not damp or M_ >= N_ else 0.) ** 2 + damp ** 2))
                m.check(true >= kw["conlim"] * .9 or itn > min(M_, N_), what + "the condition number is above the limit, as reported", got=true, want=kw["conlim"])
        if istop == 8:
            m.check(kw["etol"] > 0 and itn > kw["window"], what + "direct error test only when asked for")
        if istop in (1, 2, 4, 5) and E is None and F is None:
            if damp:
                want = np.linalg.solve(A.T @ A + damp ** 2 * np.eye(N_), A.T @ b)
                c2 = (np.linalg.norm(A, 2) ** 2 + damp ** 2) / (np.linalg.svd(A, compute_uv=False)[-1] ** 2 * (M_ >= N_) + damp ** 2)
            else:
                sv = np.linalg.svd(A, compute_uv=False)
                sv = sv[sv > 1e-9 * sv[0]]
                want = np.linalg.pinv(A, rcond=1e-9) @ b
                c2 = (sv[0] / sv[-1]) ** 2
                if len(sv) < min(M_, N_):
                    m.saw("rank_deficient")
            err = np.linalg.norm(x - want)
            size = np.linalg.norm(want) + (np.linalg.norm(b) / sv[-1] if not damp else np.linalg.norm(b) / damp)
            m.check(err <= 20 * c2 * max(tol, 1e-12) * size, what + "solution of the least-squares problem (minimum norm)", err=err, bound=20 * c2 * max(tol, 1e-12) * size)
            m.saw("lsmr_converged")
        if itn:
            m.equal(len(obj.resids), itn + 1, what + "one residual norm per iteration")
            m.equal(len(obj.iterates), itn + 1, what + "one iterate per iteration")
            m.check(np.array_equal(obj.iterates[-1], x) and not obj.iterates[0].any(), what + "iterates start at zero and end at the solution")
            ne = np.array(obj.normal_eqns_resids)
            m.check((ne[1:] <= ne[:-1] * (1 + 1e-6)).all(), what + "normal equations' residuals never increase")
            direct_errors(m, obj.dir_errors_window, ne, kw["window"], what)
            m.check(istop != 8 or (obj.dir_errors_window[-1] < kw["etol"] and all(q >= kw["etol"] for q in obj.dir_errors_window[:-1])), what + "stopped as soon as the direct error is small")
            m.check(len(obj.norms) == itn and np.allclose(obj.norms, ne[0] ** 2 - ne[1:] ** 2, rtol=1e-5, atol=1e-9 * ne[0] ** 2), what + "energy norms recorded")
            if fine:
                for q in {0, len(obj.iterates) // 2, len(obj.iterates) - 1}:
                    m.close(obj.resids[q], true_quantities(A, b, obj.iterates[q], damp, E, F)[0], what + "recorded residual norm of iterate %d" % q, rtol=1e-5,
                            atol=1e-8 * bE + 1e-8 * tot * np.linalg.norm(x))
        m.trivial = m.trivial or itn <= 1
        # a fresh object gives the same
        again = LS(op).solve(b, **told)
        m.check(np.array_equal(again[0], x) and again[1:3] == out[1:3], what + "the same answer as a fresh solver", got=x, want=again[0])


@contextlib.contextmanager
def shown():
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        yield f


def says(m, text, show, words, what):
    t = text.getvalue().lower()
    if show:
        m.saw("shown")
        m.check(any(all(w in l for w in words) for l in t.splitlines()[-12:]), what + "the closing lines give the reason for stopping", got=t[-700:], want=words)


def quadratic(m, rng):
    """The real roots of a quadratic, all of them and nothing else."""
    kind = int(rng.integers(6))
    if kind == 0:
        q = [0., float(rng.normal()), float(rng.normal())] if rng.random() < .6 else [0., 0., float(rng.integers(2))]
        want = [] if q[1] == 0 and q[2] else [0.] if q[1] == 0 else [-q[2] / q[1]]
    elif kind == 1:
        a, x, y = rng.normal(), rng.normal(), abs(rng.normal()) + .01
        q, want = [a, -2 * a * x, a * (x * x + y * y)], []
    else:
        a, x, y = rng.normal(), rng.normal() * 10 ** rng.uniform(-3, 3), rng.normal() * 10 ** rng.uniform(-3, 3)
        if kind == 2:
            y = 0.
        elif kind == 3:
            x, y = abs(x), -abs(x)
        if abs(x - y) < 1e-6 * abs(x):
            return
        q, want = [a, -a * (x + y), a * x * y], [x, y]
    got = roots(*q)
    m.saw("quadratic")
    m.check(len(got) == len(want) and np.allclose(np.sort(got), np.sort(want), rtol=1e-6, atol=1e-9 * max([abs(w) for w in want] + [0.])), "roots of %r" % (q,), got=got, want=want)


def minres_system(rng):
    n = int(rng.integers(1, 35)) * (5 if rng.random() < .01 else 1)
    kind = rng.choice(["definite", "indefinite", "indefinite", "singular", "multiple", "identity", "diag", "ill"], p=[.13, .13, .13, .13, .13, .13, .13, .09])
    sv = 10 ** rng.uniform(0, rng.uniform(0, 2.), n)
    if kind in ("indefinite", "singular"):
        sv = sv * rng.choice([-1, 1], n)
    if kind == "singular" and n > 1:
        sv[: int(rng.integers(1, n))] = 0.
    if kind == "multiple":
        sv = rng.choice(sv[:3], n)
    if kind == "ill":
        sv = 10 ** rng.uniform(0, rng.uniform(5, 14), n) * rng.choice([-1, 1], n)
    if kind == "identity":
        A, Q, sv = np.eye(n), np.eye(n), np.ones(n)
    elif kind == "diag":
        sv = rng.integers(1, 6, n).astype(float)
        A, Q = np.diag(sv), np.eye(n)
    else:
        Q = orth(rng, n, n)
        A = (Q * sv) @ Q.T
        A = (A + A.T) / 2
    far = rng.random() < .1
    s = 10 ** (rng.uniform(-6, 6) if far else rng.uniform(-3, 3))
    A = A * s
    bk = rng.choice(["random", "zero", "eigen"], p=[.7, .1, .2])
    b = A @ rng.normal(0, 1, n)
    if bk == "zero":
        b = np.zeros(n)
    elif bk == "eigen":
        j = int(np.argmax(np.abs(sv)))
        b = Q[:, j] * 2.
    if kind == "ill" and rng.random() < .5:
        b = rng.normal(0, 1, n)
    if far:
        b = b * 10 ** rng.uniform(-25, 25) / s
    return A, b, kind, bk


def minres_case(m, rng, i):
    obj = None
    for turn in range(int(rng.integers(1, 4))):
        if obj is None or rng.random() < .4:
            A, b, kind, bk = minres_system(rng)
            op = operator(rng, A)
            obj = MR(op)
        else:
            b = A @ rng.normal(0, 1, len(b)) if rng.random() < .8 else np.zeros(len(b))
            bk = "again" if b.any() else "zero"
            m.saw("minres_reuse")
        n = len(b)
        from scipy.sparse.linalg import aslinearoperator
        shift = 0.
        if rng.random() < .3 and kind not in ("singular", "ill"):
            ev = np.linalg.eigvalsh(A)
            shift = float(ev[0] - (abs(ev[-1]) + abs(ev[0])) * rng.uniform(.05, 1))
            m.saw("shifted")
        rtol = float(10 ** rng.uniform(-12, -6))
        lim = int(rng.integers(1, 4)) if rng.random() < .1 else 10 * n + 20
        kw = dict(shift=shift, show=bool(rng.random() < .1), check=bool(rng.random() < .5), itnlim=lim, rtol=rtol, etol=0. if rng.random() < .6 else 1e-6, store_iterates=True, window=int(rng.choice([5, 5, 2, 3, 8])))
        P, fault = None, None
        u = rng.random()
        if u < .25:
            P = spd(rng, n)
            P = (P + P.T) / 2
            kw["precon"] = aslinearoperator(P)
            m.saw("preconditioned")
        elif u < .31 and n > 1:
            P = spd(rng, n)
            P[0, 1] += 3 * np.abs(P).max()
            kw["precon"], kw["check"], fault = aslinearoperator(P), True, 8
        elif u < .37 and b.any():
            P = -spd(rng, n)
            P = (P + P.T) / 2
            kw["precon"], fault = aslinearoperator(P), 9
            kw["check"] = False
        elif u < .42 and b.any() and n > 2:
            # indefinite: the right-hand side alone does not show it
            c = b / np.linalg.norm(b)
            P = 2 * np.outer(c, c) - np.eye(n)
            P = (P + P.T) / 2
            B = A - shift * np.eye(n)
            Ab = B @ c
            if np.linalg.norm(Ab - (c @ Ab) * c) > 1e-3 * np.linalg.norm(Ab):
                kw["precon"], fault = aslinearoperator(P), 9
                kw["check"] = False
                kw["itnlim"] = 50
            else:
                P = None
        use = op
        if fault is None and rng.random() < .08 and n > 1:
            A2 = A.copy()
            A2[0, 1] += 3 * np.abs(A).max() + 1.
            use = aslinearoperator(A2)
            kw["check"], fault = True, 7
        b0, A0 = b.copy(), A.copy()
        o = obj if use is op else MR(use)
        kw2 = kw
        if rng.random() < .1:
            kw.update(rtol=1e-12, etol=1e-6, window=5, itnlim=5 * n if kw["itnlim"] > 4 else kw["itnlim"], show=True, check=True)
            rtol = 1e-12
            kw2 = {k: v for k, v in kw.items() if k in ("shift", "precon", "store_iterates") or k == "itnlim" and v < 5}
            if fault == 9:     # seen while running only, and not when it is found not to be symmetric
                kw2["check"] = kw["check"] = False
            m.saw("defaults")
        with shown() as text:
            o.solve(b, **kw2)
        x = np.asarray(o.x)
        istop, itn = o.istop, o.itn
        what = "MINRES n=%d %s/%s shift=%.3g rtol=%.1e P=%s stop=%s itn=%s: " % (n, kind, bk, shift, rtol, P is not None, istop, itn)
        m.key("minres", n == 1, kind, bk, shift != 0, P is not None, istop, min(itn, 6), fault)
        m.check(np.array_equal(b, b0) and np.array_equal(A, A0), what + "inputs left alone")
        m.check(x.shape == (n,) and np.isfinite(x).all(), what + "finite solution of the right size", x=x)
        m.check(0 <= itn <= kw["itnlim"], what + "iterations within the limit", itn=itn)
        m.saw("mstop_%d" % istop)
        says(m, text, kw["show"], MINRES_SAYS[istop], what)
        if istop > 0:
            m.check(bool(o.converged) == (istop in (1, 2, 3, 4, 10)), what + "converged or not as the stop reason says", got=o.converged)
        else:
            m.check(istop == -1 or not o.converged or not b.any(), what + "converged or not", got=o.converged)
        if fault:
            m.check(istop == fault or (not b.any() and istop in (0, fault)), what + "fault %d recognised" % fault)
            m.saw("nonsymmetric" if fault == 7 else "bad_precon")
            continue
        m.check(istop not in (7, 8, 9), what + "sound arguments not refused")
        if not b.any():
            m.saw("zero_rhs")
            m.check(istop == 0 and not x.any() and itn == 0, what + "zero right-hand side")
            continue
        m.check(istop != 0, what + "a reason is given for stopping")
        B = A - shift * np.eye(n)
        r = b - B @ x
        Pm = np.eye(n) if P is None else P
        rn = np.sqrt(r @ Pm @ r)
        # the norms the solver works in are those of the preconditioned system C^-1 B C^-T y = C^-1 b, with P = C^-T C^-1
        w, Q = np.linalg.eigh(Pm)
        Ch = (Q * np.sqrt(w)) @ Q.T
        Bp = Ch @ B @ Ch
        y = np.linalg.solve(Ch, x)
        nb, nB = np.linalg.norm(Ch @ b), np.linalg.norm(Bp, 2)
        cond = np.linalg.cond(Bp) if kind != "singular" else 1e3
        if kind == "ill":
            m.saw("ill_conditioned")
        if itn <= n + 2 and cond < 1e5 and kind != "ill":
            m.close(o.rnorm, rn, what + "norm of the residual", rtol=1e-4, atol=1e-8 * nb)
            m.check(istop == 6 or .02 * np.linalg.norm(y) <= o.ynorm <= 50 * np.linalg.norm(y), what + "size of the solution", got=o.ynorm, want=np.linalg.norm(y))
            if P is None:
                m.check(o.Anorm >= .999 * np.linalg.norm(B @ b) / np.linalg.norm(b), what + "norm of A at least that along the right-hand side", got=o.Anorm)
                last = b - B @ o.iterates[-2]
                m.close(o.Arnorm, np.linalg.norm(B @ last), what + "norm of A times the last residual", rtol=1e-3, atol=1e-7 * nB * nb)
                # the estimate starts from the first diagonal entry of the tridiagonal form
                a1 = abs(b @ B @ b) / (b @ b)
                sv = np.linalg.svd(B, compute_uv=False)
                top = max(sv[0], a1) / max(min(sv[sv > 1e-9 * sv[0]].min(), a1), 1e-300)
                m.check(1 - 1e-9 <= o.Acond <= 1.05 * top or top > 1e5 or kind == "singular", what + "condition number of A", got=o.Acond, want=top)
            m.check(o.Anorm <= 1.01 * np.sqrt(3 * n) * nB, what + "norm of A", got=o.Anorm, want=nB)
        if bk == "eigen" and P is None:
            m.saw("eigenvector")
        prev = o.residHistory[-2] if itn > 1 else float(np.sqrt(b @ Pm @ b))
        t1, t2 = o.rnorm / (o.Anorm * o.ynorm), o.Arnorm / prev / o.Anorm
        if istop == 1:
            m.check(t1 <= max(rtol, 2.3e-16) * (1 + 1e-6), what + "the residual is as small as the reason says", got=t1)
        elif istop == 2:
            m.check(t2 <= max(rtol, 2.3e-16) * (1 + 1e-6), what + "the least-squares residual is as small as the reason says", got=t2)
        elif istop == 3:
            m.check(o.Anorm * o.ynorm * 2.3e-16 >= float(np.sqrt(b @ Pm @ b)) * (1 - 1e-6), what + "reasonable accuracy reached, as the reason says")
        elif istop == 4:
            m.check(o.Acond >= .1 / 2.3e-16, what + "an eigenvector, as the reason says", got=o.Acond)
        if istop in (2, 3, 4, 6):
            m.check(t1 >= rtol * (1 - 1e-6), what + "the residual is not as small as asked for, that not being the reason", got=t1)
        if istop in (3, 4, 6):
            m.check(t2 >= rtol * (1 - 1e-6), what + "the least-squares residual is not as small as asked for, that not being the reason", got=t2)
        m.check(o.itn == o.nMatvec == itn and np.array_equal(o.bestSolution, x) and o.residNorm == o.rnorm, what + "the solver's attributes agree")
        if istop == 6:
            m.saw("limit")
            m.check(itn == kw["itnlim"], what + "stopped at the limit it names")
        elif istop in (-1, 1, 2, 3, 4):
            scale = o.Anorm * max(o.ynorm, np.linalg.norm(y)) if istop != 3 else nb
            bound = {1: 3 * rtol, 2: 3 * rtol * max(1., cond), 3: 1e-6, 4: 1e-6, -1: 1e-9}[istop] * scale + (1e-6 if kind == "ill" else 1e-9) * (nb + nB * np.linalg.norm(y))
            m.check(rn <= bound, what + "the system is solved as reported", got=rn, bound=bound)
            if kind != "singular" and P is None:
                want = np.linalg.solve(B, b)
                m.check(np.linalg.norm(x - want) <= 20 * cond * max(3 * rtol * cond if istop == 2 else rtol, 1e-9) * np.linalg.norm(want) * max(np.sqrt(3 * n), o.Anorm / nB), what + "the solution", err=np.linalg.norm(x - want))
            m.saw("minres_converged")
        elif istop == 10:
            m.check(kw["etol"] > 0 and itn > kw["window"], what + "direct error test only when asked for")
            m.check(rn <= 1e-2 * (nb + nB * np.linalg.norm(y)), what + "roughly solved when the direct error is small", got=rn)
        else:
            m.fail(what + "unknown stop reason")
        m.check(np.array_equal(o.iterates[-1], x) and len(o.iterates) == itn + 1, what + "one iterate per iteration, the last the solution")
        h = np.array(o.residHistory[-itn:])
        m.check((h[1:] <= h[:-1] * (1 + 1e-9)).all(), what + "residual norms never increase")
        direct_errors(m, o.dir_errors_window, np.concatenate([[np.sqrt(b @ Pm @ b)], h]), kw["window"], what)
        m.check(istop != 10 or o.dir_errors_window[-1] < kw["etol"], what + "stopped when the direct error is small")
        m.trivial = m.trivial or itn <= 1
        f = MR(op)
        f.solve(b, **kw)
        m.check(np.array_equal(f.x, x) and (f.istop, f.itn) == (istop, itn), what + "the same answer as a fresh solver", got=x, want=f.x)


def forms(m, rng):
    """The same right-hand side as a column, in every second place of another array, or in single precision (as the Gauss-Newton iterations give it)."""
    kind = ["column", "strided", "single", "whole"][int(rng.integers(4))]
    minres = rng.random() < .5
    if minres:
        n = int(rng.integers(2, 30))
        Q = orth(rng, n, n)
        A = (Q * (10 ** rng.uniform(0, 1, n) * rng.choice([-1, 1], n))) @ Q.T
        A = (A + A.T) / 2
    else:
        n, k = int(rng.integers(6, 40)), int(rng.integers(1, 6))
        A = (orth(rng, n, k) * 10 ** rng.uniform(0, 1, k)) @ orth(rng, k, k).T
    b = np.float32(rng.normal(0, 1, n) * 10 ** rng.uniform(-3, 3)).astype(float)
    if kind == "whole" and minres:
        kind = "strided"
    if kind == "whole":
        b = np.round(b / np.abs(b).max() * 50)
        g = b.copy()
    elif kind == "column" and not minres:
        g = b[:, None].copy()
    elif kind == "single":
        g = b.astype(np.float32)
    else:
        big = np.full(2 * n, 7.)
        big[::2] = b
        g = big[::2]
    m.saw("form_" + ("strided" if kind == "column" and minres else kind))
    held = g.copy()
    if minres:
        o = MR(operator(rng, A))
        o.solve(g, rtol=1e-10, etol=0., itnlim=10 * n + 20, show=False)
        x, want = np.asarray(o.x), np.linalg.solve(A, b)
    else:
        x, want = np.asarray(LS(operator(rng, A, False)).solve(g, atol=1e-10, btol=1e-10, conlim=1e12, itnlim=10 * n, etol=0.)[0]), np.linalg.lstsq(A, b, rcond=None)[0]
    what = "%s, right-hand side %s: " % ("MINRES" if minres else "LSMR", kind)
    m.check(np.array_equal(g, held) and (kind == "whole" or not np.shares_memory(x, g)), what + "right-hand side left alone")
    m.check(x.shape == want.shape, what + "size of the solution", got=x.shape)
    m.close(x, want, what + "the solution", rtol=0, atol=3e-5 * (np.linalg.norm(want) + np.linalg.norm(b)))


def case(m, rng, i):
    if i % 8 == 3:
        forms(m, rng)
    for _ in range(2 if i % 4 == 0 else 0):
        quadratic(m, rng)
    (lsmr_case if i % 2 else minres_case)(m, rng, i)
