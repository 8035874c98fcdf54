"""Native sensor and match-up registries: histories of registrations, settings and look-ups against a reference model."""
import copy
import random

import numpy as np

import native

PROP = "C24"
RULE = ("a case is one run of the sanitized native modules through 10-40 operations on the sensor and match-up registries (capacity 0-8; sensors "
        "with 0-6 parameters, with or without prior values, uncertainties and configuration; pairs in any order, repeated, reversed, equal or "
        "non-positive; every setter; look-ups; re-initialisation), the registries being dumped after every operation; every second case ends with "
        "an operation on an invalid index, which must stop with an error. Non-trivial: something was registered.")
N = {"quick": 240, "thorough": 6000}
FILES = []
BUILDS = ["fortran"]


def setup():
    pass


def _w(rng, n, lo=-50, hi=50):
    return [rng.uniform(lo, hi) for _ in range(n)]


def _name(rng):
    return rng.choice(["m02", "aatsr", "NOAA 15", "s" * rng.choice([1, 40, 80]), "x_" + str(rng.randint(0, 999))])


class Model:
    def __init__(self):
        self.scap = self.mcap = 0
        self.sensors, self.matchups = [], []


def sensor_dump(m, got, model):
    m.equal(got[0], ("sensors", [model.scap, len(model.sensors)]), "capacity and number of sensors")
    want_first = 1
    m.check(len(got) == 1 + 6 * len(model.sensors), "sensor report incomplete", got=len(got), want=1 + 6 * len(model.sensors))
    for k, s in enumerate(model.sensors):
        g = got[1 + 6 * k:7 + 6 * k]
        m.equal([x[0] for x in g], ["s.name", "s", "s.x", "s.c", "s.ci", "s.y"], "sensor report")
        v = [x[1] for x in g]
        n = s["n"]
        m.equal(v[0].rstrip(), s["name"].rstrip(), "sensor name")
        m.equal(v[1], [s["id"], n, s["r"], want_first, want_first + n - 1, len(s["y"])],
                "equation, numbers of parameters and columns, index range, configuration size of sensor %d" % (k + 1))
        m.close(v[2], s["x"], "prior parameters of sensor %d" % (k + 1), rtol=1e-14)
        c = np.zeros((n, n))
        ci = np.zeros((n, n))
        for q, u in enumerate(s["u"]):
            if u > 0:
                c[q, q], ci[q, q] = u * u, 1 / (u * u)
        m.close(v[3], c.ravel(), "prior covariance of sensor %d" % (k + 1), rtol=1e-14)
        m.close(v[4], ci.ravel(), "inverse prior covariance of sensor %d" % (k + 1), rtol=1e-14)
        m.close(v[5], s["y"], "configuration of sensor %d" % (k + 1), rtol=1e-14)
        want_first += n
        m.saw("sensors compared")


FIELDS = [("qi", "m", "ri"), ("qj", "m", "rj"), ("hi", "m", 1), ("hj", "m", 1), ("vhi", "m", 1), ("vhj", "m", 1), ("ti", "m", 1), ("tj", "m", 1),
          ("pi", "m", 0), ("pj", "m", 0), ("ui", "ri", 0), ("uj", "rj", 0), ("ic", "ri", 0), ("jc", "rj", 0), ("iv", "ri", 0), ("jv", "rj", 0),
          ("iw", "ri", 0), ("jw", "rj", 0), ("iz", 1, 0), ("jz", 1, 0)]
DUMP = ["m.name", "m.uuid", "m", "m.shape"] + ["m." + f for f in
        ("qi", "qj", "hi", "hj", "vhi", "vhj", "ti", "tj", "pi", "pj", "ui", "uj", "ic", "jc", "iv", "jv", "iw", "jw")]


def size(p, d):
    return p[d] if isinstance(d, str) else max(d, 1)


def matchup_dump(m, got, model):
    m.equal(got[0], ("matchups", [model.mcap, len(model.matchups)]), "capacity and number of match-up series")
    w = len(DUMP)
    m.check(len(got) == 1 + w * len(model.matchups), "match-up report incomplete", got=len(got))
    first = 1
    for k, p in enumerate(model.matchups):
        g = got[1 + w * k:1 + w * (k + 1)]
        m.equal([x[0] for x in g], DUMP, "match-up report")
        v = {x[0]: x[1] for x in g}
        m.equal(v["m.name"].rstrip(), p["name"].rstrip(), "name of series %d" % (k + 1))
        m.equal(v["m.uuid"].rstrip(), p["uuid"].rstrip(), "UUID of series %d" % (k + 1))
        m.equal(v["m"], [p["i"], p["j"], p["m"], p["ri"], p["rj"], first, first + p["m"] - 1, p["iz"][0], p["jz"][0]],
                "sensors, sizes, index range of series %d" % (k + 1))
        m.equal(v["m.shape"], [p["m"], p["ri"], p["m"], p["rj"]], "shape of the telemetry of series %d" % (k + 1))
        for f, _, kind in FIELDS[:-2]:
            if kind == 0:
                m.equal(v["m." + f], p[f], "%s of series %d" % (f, k + 1))
            else:
                m.close(v["m." + f], p[f], "%s of series %d" % (f, k + 1), rtol=1e-14 if f in ("ti", "tj") else 2e-7)
        first += p["m"]
        m.saw("series compared")


def case(m, rng, i):
    rng = random.Random(int(rng.integers(2 ** 62)))
    model = Model()
    script, expect = [], []
    use_cfg = rng.random() < .4
    conf = {}
    if use_cfg:
        for q in range(1, 9):
            conf[q] = _w(rng, rng.choice([7, 12]))
        with open(m.tmp + "/job.nml", "w") as f:
            f.write("&job\n" + "".join(" config_job_sensor_configurations(%d,1:%d) = %s\n" % (q, len(v), ", ".join(map(repr, v)))
                                       for q, v in conf.items()) + "/\n")
        script.append("config")
        expect.append(("config", None))

    def op(name, *lines, want=None):
        script.append(name)
        script.extend(native.line(x) for x in lines)
        expect.append((name, want))

    def dump():
        snap = copy.deepcopy(model)
        op("s_dump", want=snap)
        op("m_dump", want=snap)

    def init_s():
        model.scap, model.sensors = rng.choice([0, 1, 2, 4, 8]), []
        op("s_init", [model.scap])

    def init_m():
        model.mcap, model.matchups = rng.choice([0, 1, 3, 8]), []
        op("m_init", [model.mcap])
    init_s()
    init_m()
    dump()
    total = 0
    for _ in range(rng.randint(8, 36)):
        what = rng.choice(["s_add"] * 3 + ["m_add"] * 4 + ["m_set"] * 6 + ["s_set"] * 2 + ["s_get", "m_get", "init"])
        if what == "s_add":
            n = rng.choice([0, 1, 2, 3, 6])
            px, pu = rng.randint(0, 1), rng.randint(0, 1)
            x = _w(rng, n)
            u = [abs(v) if rng.random() < .8 else rng.choice([0.0, -1.0]) for v in _w(rng, n)]
            o = rng.choice([0, 1, 2, 5]) if use_cfg else 0
            s = {"name": _name(rng), "id": rng.randint(0, 299), "n": n, "r": rng.randint(1, 9), "x": x if px else [0.0] * n, "u": u if pu else [0.0] * n}
            idx = 0
            if len(model.sensors) < model.scap:
                idx = len(model.sensors) + 1
                s["y"] = conf[idx][:o] if o else [0.0, 1.0] * n
                model.sensors.append(s)
            op("s_add", [s["name"], s["id"], n, s["r"], o, px, pu], x, u, want=("index", idx))
        elif what == "m_add":
            i1, j1 = rng.choice([(1, 2), (2, 3), (1, 3), (2, 1), (1, 1), (0, 1), (-1, 2), (3, 4), (1, 4), (4, 1), (0, 0), (2, 5), (7, 9)])
            mm = rng.choice([0, 1, 2, 5, 17, 60])
            p = {"name": _name(rng), "i": i1, "j": j1, "m": mm, "ri": rng.randint(0, 4), "rj": rng.randint(0, 4),
                 "uuid": rng.choice(["-", "%036x" % rng.getrandbits(140)])}
            ok = len(model.matchups) < model.mcap and 0 < i1 < j1 and not any((q["i"], q["j"]) == (i1, j1) for q in model.matchups)
            idx = 0
            line = [p["name"], i1, j1, mm, p["ri"], p["rj"], p["uuid"]]
            if ok:
                p["uuid"] = "" if p["uuid"] == "-" else p["uuid"]
                for f, d, kind in FIELDS:
                    p[f] = [0] * (size(p, d) * (size(p, kind) if kind else 1))
                model.matchups.append(p)
                idx = len(model.matchups)
                m.key("pair", i1, j1, idx)
            else:
                m.saw("registrations refused")
            op("m_add", line, want=("index", idx))
        elif what == "m_set" and model.matchups:
            k = rng.randint(1, len(model.matchups))
            p = model.matchups[k - 1]
            f, d, kind = rng.choice(FIELDS)
            n1, n2 = size(p, d), size(p, kind) if kind else 1
            if kind:
                val = [float(np.float32(v)) if f[0] != "t" else v * 1e8 for v in _w(rng, n1 * n2)]
            else:
                val = [rng.randint(0, 99) for _ in range(n1)]
            p[f] = val
            op("m_set", [f, k, n1, n2], val)
            m.key("set", f)
        elif what == "s_set" and model.sensors:
            k = rng.randint(1, len(model.sensors))
            s = model.sensors[k - 1]
            val = _w(rng, s["n"])
            if rng.random() < .5:
                s["x"] = val
                op("s_setx", [k, s["n"]], val)
            else:
                val = [abs(v) if rng.random() < .8 else 0.0 for v in val]
                s["u"] = val
                op("s_setu", [k, s["n"]], val)
        elif what == "s_get" and model.sensors:
            k = rng.randint(1, len(model.sensors))
            s = model.sensors[k - 1]
            st = 1 + sum(q["n"] for q in model.sensors[:k - 1])
            c = rng.choice(["s_eq", "s_name", "s_n", "s_r", "s_start", "s_end"])
            op(c, [k], want=("value", {"s_eq": s["id"], "s_name": s["name"], "s_n": s["n"], "s_r": s["r"], "s_start": st,
                                       "s_end": st + s["n"] - 1}[c]))
        elif what == "m_get" and model.matchups:
            k = rng.randint(1, len(model.matchups))
            p = model.matchups[k - 1]
            f = rng.choice(["name", "i", "j", "m", "ri", "rj", "ti", "tj"])
            op("m_get", [f, k, p["m"]], want=("values", p[f]) if f[0] == "t" else ("value", p[f]))
        elif what == "init" and rng.random() < .3:
            if rng.random() < .3:
                model.scap, model.sensors = 0, []
                op("s_final")
            elif rng.random() < .5:
                model.mcap, model.matchups = 0, []
                op("m_final")
            elif rng.random() < .5:
                init_s()
            else:
                init_m()
        dump()
        total = max(total, len(model.sensors) + len(model.matchups))
    m.trivial = not total
    # the last operation of some histories is on an invalid index
    bad = None
    if i % 2:
        every = (["s_eq", "s_name", "s_n", "s_r", "s_start", "s_end", "s_x", "s_c", "s_setx", "s_setu"] +
                         ["m_get " + f for f in ("name", "i", "j", "m", "ri", "rj", "ti", "tj")] + ["m_set " + f[0] for f in FIELDS])
        bad = every[i // 2 % len(every)]
        top = len(model.sensors) if bad[0] == "s" else len(model.matchups)
        cap = model.scap if bad[0] == "s" else model.mcap
        k = rng.choice([0, -1, top + 1, cap + 1, cap + 7, 10 ** 6])
        if bad in ("s_x", "s_c"):
            script += [bad, native.line([k, 2])]
        elif bad in ("s_setx", "s_setu"):
            script += [bad, native.line([k, 2]), "1.0 2.0"]
        elif bad[0] == "s":
            script += [bad, native.line([k])]
        else:
            c, f = bad.split()
            script += [c, native.line([f, k, 1] + ([1] if c == "m_set" else []))] + (["1"] if c == "m_set" else [])
        m.key("invalid", bad)
        m.saw("invalid indices used")
    m.sample(operations=" ".join(n for n, _ in expect if not n.endswith("dump"))[:300], invalid=bad)
    r = native.vdrv("\n".join(script) + "\n", m.tmp)
    m.check(r.memory_error is None, "memory error or undefined behaviour in the native code", what=r.memory_error, invalid=bad)
    if bad:
        m.check(r.reported, "an invalid index was not refused", operation=bad, index=k, what=r.tail())
    else:
        m.check(r.rc == 0, "the native code refused valid operations", what=r.tail())
    groups = native.parse(r.out)
    m.check(len(groups) == len(expect), "operations completed", got=len(groups), want=len(expect), invalid=bad, what=r.tail())
    for (name, got), (want_name, want) in zip(groups, expect):
        m.check(name == want_name, "order of reports", got=name, want=want_name)
        m.saw("operations")
        if name == "s_dump":
            sensor_dump(m, got, want)
        elif name == "m_dump":
            matchup_dump(m, got, want)
        elif want and want[0] == "index":
            m.equal(got, [("index", [want[1]])], "index of the registration (0 when refused)")
        elif want and want[0] == "value":
            v = got[0][1]
            m.equal(v.rstrip() if isinstance(v, str) else v[0], want[1].rstrip() if isinstance(want[1], str) else want[1], "look-up %s" % name)
        elif want and want[0] == "values":
            m.close(got[0][1], want[1], "look-up of times", rtol=1e-14)
