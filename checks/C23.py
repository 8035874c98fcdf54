"""Native matrices: sequences of operations on the matrix store, each dump compared with a reference model."""
import random

import numpy as np

import native

PROP = "C23"
RULE = ("a case is one run of the sanitized native modules through 6-25 operations (store initialisation with capacity 0-6, adding perturbed, "
        "diagonal, variance, weighting and rectangular matrices singly, from raw storage with several matrices, from derived types, removing "
        "kinds, re-initialising), the store being dumped after every operation; weighting matrices have 0-12 rows in 0- or 1-based arrays with "
        "ascending, descending or arbitrary column order, empty rows and row steps 1-5. Hostile cases feed one malformed array "
        "set and must end in a reported error. Non-trivial: a matrix was stored.")
N = {"quick": 260, "thorough": 6000}
FILES = []
BUILDS = ["fortran"]
KINDS = "bdvwz"


def setup():
    pass


def _f32(rng, n, lo=0.01, hi=100):
    return [np.float32(rng.uniform(lo, hi) * (1 if rng.random() < .8 else 1e-3)) for _ in range(n)]


def _csr(rng, m, order, p_empty, width, offset=0):
    ia, ja, a, rows = [0], [], [], []
    for _ in range(m):
        k = 0 if rng.random() < p_empty else rng.randint(1, width)
        cols = sorted(rng.sample(range(offset, offset + width + rng.choice([0, 3, 20])), k))
        if order == "desc":
            cols.reverse()
        elif order == "any":
            rng.shuffle(cols)
        vals = _f32(rng, k)
        ja += cols
        a += vals
        ia.append(len(ja))
        rows.append(dict(zip(cols, vals)))
    return ia, ja, a, rows


def _ref_w(rows, s, n):
    return {"rows": rows[::s], "n": n}


class Model:
    def __init__(self):
        self.final()

    def final(self):
        self.cap = 0
        self.q = {k: [] for k in KINDS}

    def init(self, cap):
        self.final()
        self.cap = cap

    def add(self, kind, mat):
        if len(self.q[kind]) < self.cap:
            self.q[kind].append(mat)
            return len(self.q[kind])
        return 0


def check_banded(m, got, key, ref, n_exact=True):
    """got: list of four (key, values); ref: {'rows': [{col0: val}], 'n'}"""
    (k0, mn), (k1, ib), (k2, jb), (k3, b) = got
    m.check((k0, k1, k2, k3) == (key, key + ".ia", key + ".ja", key + ".a"), "matrix report incomplete", keys=(k0, k1, k2, k3))
    rows = ref["rows"]
    m.check(mn[0] == len(rows), "number of rows of the weighting matrix", got=mn[0], want=len(rows))
    if n_exact:
        m.check(mn[1] == ref["n"], "number of columns of the weighting matrix", got=mn[1], want=ref["n"])
    m.check(len(ib) == len(rows) + 1 and len(jb) == len(rows), "row pointers of the weighting matrix", ib=ib, jb=jb)
    m.check(ib[0] == 1 and all(p <= q for p, q in zip(ib, ib[1:])) and ib[-1] == len(b) + 1, "row pointers do not address the elements",
            ib=ib, elements=len(b))
    for r, want in enumerate(rows):
        cells = {}
        for q in range(ib[r], ib[r + 1]):
            col = jb[r] + q - ib[r]
            m.check(col >= 1, "column index out of range", row=r, col=col)
            if want or b[q - 1] != 0:
                cells[col - 1] = b[q - 1]
        for c, v in want.items():
            m.check(c in cells and np.float32(cells[c]) == v, "stored element differs", row=r, col=c, got=cells.get(c), want=v)
        for c, v in cells.items():
            m.check(v == 0 or c in want, "an element appears that was not given", row=r, col=c, got=v)
        m.saw("rows of weighting matrices compared")
    # products with the dense matrix
    if rows:
        n = max([c for r in rows for c in r] + [j - 1 + ib[i + 1] - ib[i] for i, j in enumerate(jb)] + [0]) + 1
        x = np.linspace(.5, 2, n)
        y = np.array([sum(b[q - 1] * x[jb[i] - 1 + q - ib[i]] for q in range(ib[i], ib[i + 1])) for i in range(len(rows))])
        dense = np.zeros((len(rows), n))
        for i, r in enumerate(rows):
            for c, v in r.items():
                dense[i, c] = v
        m.close(y, dense @ x, "product with a vector", rtol=1e-6)
        m.saw("products")


def check_dump(m, got, model):
    d = list(got)
    i = 0

    def nxt(key):
        nonlocal i
        m.check(i < len(d) and d[i][0] == key, "report of the store", got=d[i][0] if i < len(d) else None, want=key)
        i += 1
        return d[i - 1][1]
    m.equal(nxt("capacity"), [model.cap], "capacity of the store")
    m.equal(nxt("counts"), [len(model.q[k]) for k in KINDS], "numbers of matrices", )
    for k in range(-1, model.cap + 2):
        m.equal(nxt("has"), [k] + [int(1 <= k <= len(model.q[t])) for t in KINDS], "has-queries")
    for x in model.q["b"]:
        m.equal(nxt("b"), [len(x[0])], "size of a perturbed diagonal matrix")
        m.close(nxt("b.a"), x[0], "diagonal of a perturbed diagonal matrix", rtol=2e-6)
        m.close(nxt("b.u"), x[1], "perturbation vector", rtol=2e-7)
    for t, name in (("d", "diagonal"), ("v", "variance")):
        for x in model.q[t]:
            m.equal(nxt(t), [len(x)], "size of a %s matrix" % name)
            m.close(nxt(t + ".a"), x, "elements of a %s matrix" % name, rtol=2e-6)
    for x in model.q["w"]:
        m.check(i + 4 <= len(d), "weighting matrix missing")
        check_banded(m, d[i:i + 4], "w", x, n_exact=x["n"] is not None)
        i += 4
    for mm, n, x in model.q["z"]:
        m.equal(nxt("z"), [mm, n], "shape of a rectangular matrix")
        m.close(nxt("z.a"), x, "elements of a rectangular matrix", rtol=2e-7)
    m.check(i == len(d), "unexpected report", rest=d[i:i + 2])
    m.saw("store dumps compared")


def case(m, rng, i):
    rng = random.Random(int(rng.integers(2 ** 62)))
    if i % 4 == 3:
        return hostile(m, rng)
    model = Model()
    script, expect = [], []

    def op(name, *lines, want=None):
        script.append(name)
        script.extend(native.line(l) for l in lines)
        expect.append((name, want))
        script.append("dump")
        import copy
        snap = Model()
        snap.cap, snap.q = model.cap, copy.copy({k: list(v) for k, v in model.q.items()})
        expect.append(("dump", snap))
    cap = rng.choice([0, 1, 2, 3, 6])
    model.init(cap)
    op("init", [cap])
    stored = 0
    big = rng.random() < .1
    for _ in range(rng.randint(6, 24)):
        what = rng.choice(["addb", "addd", "addv", "addvs", "addws", "addws", "addws", "addw", "addz", "banded", "banded", "diag", "rm", "init"])
        n = rng.choice([0, 1, 2, 5, 9]) if not big else rng.choice([50, 300])
        if what == "addb":
            x, y = _f32(rng, n), _f32(rng, n)
            k = model.add("b", (np.array(x) ** 2, y))
            op("addb", [n], x, y, want=[k])
        elif what in ("addd", "addv"):
            x = _f32(rng, n)
            k = model.add(what[-1], np.array(x, "f4") ** 2)
            op(what, [n], x, want=[k])
        elif what == "addvs":
            rows = [rng.choice([0, 1, 3, 7]) for _ in range(rng.randint(1, 4))]
            x = _f32(rng, sum(rows))
            off = np.cumsum([0] + rows)
            ks = [model.add("v", np.array(x[p:q], "f4") ** 2) for p, q in zip(off, off[1:])]
            op("addvs", [len(rows), len(x)], rows, x, want=ks)
        elif what == "addz":
            q = rng.choice([1, 2, 4])
            x = _f32(rng, n * q)
            op("addz", [n, q], x, want=[model.add("z", (n, q, x))])
        elif what == "addws":
            cnt = rng.randint(1, 3)
            r = rng.choice([1, 2, 5, 12]) if not big else 150
            s = rng.choice([1, 1, 2, 3, 5])
            order = rng.choice(["asc", "asc", "desc", "any"])
            base = rng.randint(0, 1)
            mats = [_csr(rng, r, order, rng.choice([0, .3]), rng.choice([1, 4, 9]), rng.choice([0, 5])) for _ in range(cnt)]
            ks = []
            for ia, ja, a, rows in mats:
                ks.append(model.add("w", {"rows": rows[::s], "n": max(ja) + 1 if ja else None}))
            op("addws", [cnt, r, s, sum(len(x[1]) for x in mats)], [len(x[1]) for x in mats],
               [p + base for x in mats for p in x[0]], [p + base for x in mats for p in x[1]], [v for x in mats for v in x[2]], want=ks)
            m.key("w", cnt, r, s, order, base, min(len(x[1]) for x in mats) == 0)
            m.saw("weighting matrices given", cnt)
        elif what == "addw":
            r, s = rng.choice([1, 4, 10]), rng.choice([1, 2, 4])
            ia, ja, a, rows = _csr(rng, r, rng.choice(["asc", "desc"]), .2, 5)
            k = model.add("w", {"rows": rows[::s], "n": max(ja) + 1 if ja else None})
            op("addw", [r, s, len(ja)], [p + 1 for p in ia], [p + 1 for p in ja], a, want=[k])
        elif what == "banded":
            r = rng.choice([0, 1, 3, 8])
            ia, ja, a, rows = _csr(rng, r, rng.choice(["asc", "desc", "any"]), .2, 6)
            nn = (max(ja) + 1 if ja else 1) + rng.choice([0, 2])
            ref = {"rows": rows, "n": nn}
            k = model.add("w", ref)
            op("banded", [r, nn, len(ja)], [p + 1 for p in ia], [p + 1 for p in ja], a, want=("banded", r, nn, ia, ja, a, ref, k))
        elif what == "diag":
            x, y = _f32(rng, n), _f32(rng, n)
            ks = [model.add("d", np.array(x)), model.add("v", np.array(x)), model.add("b", (np.array(x), y)), model.add("z", (n, 1, y))]
            op("diag", [n], x, y, want=("diag", n, x, y, ks))
        elif what == "rm":
            t = rng.choice(KINDS)
            model.q[t] = []
            op("rm" + t)
        elif rng.random() < .4:
            if rng.random() < .3:
                model.final()
                op("final")
            cap = rng.choice([0, 1, 2, 3, 6])
            model.init(cap)
            op("init", [cap])
        stored = max(stored, sum(len(v) for v in model.q.values()))
    m.sample(operations=" ".join(n for n, _ in expect if n != "dump"), capacity=model.cap)
    r = native.vdrv("\n".join(script) + "\n", m.tmp)
    m.check(r.memory_error is None, "memory error or undefined behaviour in the native code", what=r.memory_error)
    m.check(r.rc == 0, "the native code refused valid matrices", what=r.tail())
    groups = native.parse(r.out)
    m.check(len(groups) == len(expect), "operations completed", got=len(groups), want=len(expect))
    m.trivial = not stored
    for (name, got), (want_name, want) in zip(groups, expect):
        m.check(name == want_name, "order of reports", got=name, want=want_name)
        m.saw("operations")
        if name == "dump":
            check_dump(m, got, want)
        elif isinstance(want, list):
            m.check(len(got) == 1 and got[0] == ("index", want), "index of the added matrix (0 when the store is full)", op=name, got=got, want=want)
            if 0 in want:
                m.saw("refused by a full store")
        elif want and want[0] == "banded":
            _, rr, nn, ia, ja, a, ref, k = want
            m.equal(got[0], ("sm", [rr, nn]), "shape of the sparse matrix")
            m.equal(got[1], ("sm.ia", [p + 1 for p in ia]), "row pointers of the sparse matrix")
            m.equal(got[2], ("sm.ja", [p + 1 for p in ja]), "column indices of the sparse matrix")
            m.close(got[3][1], a, "elements of the sparse matrix", rtol=2e-7)
            check_banded(m, got[4:8], "bm", ref)
            m.equal(got[8], ("index", [k]), "index of the banded matrix")
            m.equal(got[9], ("deleted", [0] * 6), "deleted matrices are empty")
        elif want and want[0] == "diag":
            _, n, x, y, ks = want
            vals = [g[1] for g in got]
            m.equal([g[0] for g in got], ["dm", "dm.a", "index", "index", "dm.a", "pm.a", "pm.u", "index", "rm", "rm.a", "index", "deleted"],
                    "reports of derived-type matrices")
            m.equal(vals[0], [n], "size of the diagonal matrix")
            for got_v, want_v in ((vals[1], x), (vals[4], [2.5] * n), (vals[5], x), (vals[6], y), (vals[9], y)):
                m.close(got_v, want_v, "elements of the derived-type matrix", rtol=2e-7)
            m.equal([vals[2], vals[3], vals[7], vals[10]], [[k] for k in ks], "indices of derived-type matrices")
            m.equal(vals[8], [n, 1], "shape of the rectangular matrix")
            m.equal(vals[11], [n, 0, 0, 0, 0], "deleted matrices are empty")


def hostile(m, rng):
    cnt = rng.randint(1, 3)
    r = rng.choice([2, 5, 12])
    base = rng.randint(0, 1)
    mats = []
    while len(mats) < cnt:
        x = _csr(rng, r, "asc", .1, 5)
        if len(x[1]) >= 2:
            mats.append([list(v) for v in x[:3]])
    nnz = [len(x[1]) for x in mats]
    for x in mats:
        x[0] = [p + base for p in x[0]]
        x[1] = [p + base for p in x[1]]
    k = rng.randrange(cnt)
    kind = rng.choice(["last", "first", "descend", "column", "far column", "mixed", "nnz"])
    q = mats[k]
    if kind == "last":
        q[0][-1] += rng.choice([-2, 2, 1000])
    elif kind == "first":
        q[0][0] -= rng.choice([1, 5, 10 ** 6])
    elif kind == "descend":
        j = rng.randrange(1, r)
        q[0][j] = q[0][-1] + rng.choice([1, 7, 10 ** 6])
    elif kind == "column":
        q[1][rng.randrange(len(q[1]))] = base - 1
    elif kind == "far column":
        q[1][rng.randrange(len(q[1]))] = -rng.choice([5, 10 ** 6])
    elif kind == "mixed":
        if cnt == 1:
            q[0] = [p + 3 for p in q[0]]
        else:
            q[0] = [p + 1 - 2 * base for p in q[0]]
    elif kind == "nnz":
        nnz[k] += rng.choice([-1, 3]) if base == 0 else rng.choice([2, -2])
        if base == 0 and nnz[k] == q[0][-1] - 1:
            nnz[k] += 5
    script = ["init", "6", "addws", native.line([cnt, r, rng.choice([1, 2]), sum(len(x[1]) for x in mats)]), native.line(nnz),
              native.line([p for x in mats for p in x[0]]), native.line([p for x in mats for p in x[1]]),
              native.line([v for x in mats for v in x[2]]), "dump"]
    res = native.vdrv("\n".join(script) + "\n", m.tmp)
    m.key("hostile", kind, base, cnt)
    m.saw("malformed arrays given")
    m.check(res.memory_error is None, "memory error on malformed sparse arrays", kind=kind, base=base, what=res.memory_error)
    m.check(res.reported, "malformed sparse arrays were not refused", kind=kind, base=base, what=res.tail())
    m.saw("malformed arrays refused")
