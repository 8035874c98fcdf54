"""Accessors, times, optional indices, additional data and the printed summary against the files."""
import os
import re
import time
from datetime import datetime

import numpy as np

import gen

PROP = "C03"
RULE = ("random match-up file sets (sensors on either side of a pair, repeated sensors, index and extra variables present in some files only, "
        "fill values, several time zones), all accessors asked for every series and sensor plus sensors not in the series; "
        "distinct = different structure incl. which optional variables each file has")
N = {"quick": 320, "thorough": 9000}
FILES = ["harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py", "harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py"]
NEED = ("variable", "time", "index_present", "index_nan", "index_absent", "additional", "additional_missing", "additional_fill", "foreign_sensor", "additional_everywhere", "summary_short",
        "summary_long", "other contents")


def setup():
    global open_matchup
    from harmonisation import open_matchup


def case(m, rng, i):
    os.environ["TZ"] = ["UTC", "UTC", "JST-9", "EST5EDT"][i % 4]
    time.tzset()
    try:
        _case(m, rng, i)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()


def _case(m, rng, i):
    p = [.5, .8, .3][i % 3]
    spec = gen.gen(rng, types=(1, 2, 3, 4) if i % 2 else (1, 2), max_M=25, p_opt=p, p_extra=p, wide=.1, big=i % 400 == 202)
    S = spec["series"]
    f = np.float32 if spec["f4"] else np.float64
    mod = gen.model(spec)
    paths = gen.write_all(spec, os.path.join(m.tmp, "d"))
    opt = [v + s for v in ("across_track_index", "along_track_index") for s in "12"]
    m.key(gen.shape_key(spec), tuple(tuple(v in d for v in opt) + tuple(sorted(d["extra"])) for d in S))
    m.sample(series=gen.describe(spec), optional=[[v for v in opt if v in d] for d in S])
    mu = open_matchup(paths, open_uncertainty=bool(i % 5))
    accessors(m, mu, S, mod, f)
    if i % 6 == 3:      # the same object given another data set's contents
        spec = gen.gen(rng, types=(1, 2), max_M=12, p_opt=p, p_extra=p)
        S, mod = spec["series"], gen.model(spec)
        f = np.float32 if spec["f4"] else np.float64
        other = open_matchup(gen.write_all(spec, os.path.join(m.tmp, "e")))
        for k, v in vars(other).items():
            setattr(mu, k, v)
        accessors(m, mu, S, mod, f)
        m.saw("other contents")
    if i % 4 == 0:
        with mu:
            pass
        m.saw("closed")
        m.check(not hasattr(mu, "values"), "closing a data set lets go of its data")


def accessors(m, mu, S, mod, f):
    names = mod["idx"]["sensors"]
    extras = sorted({e for d in S for e in d["extra"]})
    m.equal(sorted(mu.getAdditionalDataNames()), extras, "names of the additional data")
    for k, d in enumerate(S):
        for side in (1, 2):
            s = d["s"][side - 1]
            for c in range(d["m"][side - 1]):
                x = np.asarray(d["X%d" % side][:, c], f).astype(np.float32)
                m.saw("variable")
                m.close(mu.getVariableData(c + 1, s, k + 1), x, "covariate %d of %s in series %d" % (c + 1, s, k + 1), rtol=0)
                m.close(mu.getVariableDataMax(c + 1, s, k + 1), x.max(), "maximum of covariate %d of %s in series %d" % (c + 1, s, k + 1), rtol=0)
                m.close(mu.getVariableDataMin(c + 1, s, k + 1), x.min(), "minimum of covariate %d of %s in series %d" % (c + 1, s, k + 1), rtol=0)
            want = [datetime.fromtimestamp(int(t)) for t in d["time%d" % side]]
            m.saw("time")
            got = list(mu.getSensorTime(k + 1, s))
            m.check(got == want, "times of %s in series %d" % (s, k + 1), got=got[:3], want=want[:3])
            for name, get in (("across_track_index", mu.getSensorAcrossTrackIndex), ("along_track_index", mu.getSensorAlongTrackIndex)):
                v = name + str(side)
                got = get(k + 1, s)
                if not any(v in e for e in S):
                    m.saw("index_absent")
                    m.check(got is None, "%s is in no file but was returned" % v, got=got)
                elif v in d:
                    m.saw("index_present")
                    m.close(got, d[v], "%s of series %d" % (v, k + 1), rtol=0)
                else:
                    m.saw("index_nan")
                    m.close(got, np.full(d["M"], np.nan), "%s of series %d, whose file has none" % (v, k + 1))
        for s in [n for n in names if n not in d["s"]][:2] + ["no such sensor"]:
            m.saw("foreign_sensor")
            for what, fn in (("time", lambda: mu.getSensorTime(k + 1, s)), ("across-track index", lambda: mu.getSensorAcrossTrackIndex(k + 1, s)),
                             ("along-track index", lambda: mu.getSensorAlongTrackIndex(k + 1, s)), ("variable", lambda: mu.getVariableData(1, s, k + 1))):
                m.raises(fn, "%s of sensor %r, which is not in series %d" % (what, s, k + 1))
    for e in extras:
        parts = []
        for k, d in enumerate(S):
            if e in d["extra"]:
                t, a = d["extra"][e]
                a = a.astype({"f4": np.float32, "f8": np.float64}[t]).astype(float)
                if (d["extra"][e][1] == gen.FILL).any():
                    m.saw("additional_fill")
                a = np.where(d["extra"][e][1] == gen.FILL, np.nan, a)
            else:
                a = np.full(d["M"], np.nan)
                m.saw("additional_missing")
            parts.append(a)
            m.saw("additional")
            m.close(mu.getAdditionalData(e, k + 1), a, "additional data %s of series %d" % (e, k + 1), rtol=1e-12)
            if not np.isnan(a).any():
                m.close(mu.getAdditionalDataMax(e, k + 1), a.max(), "maximum of %s" % e, rtol=1e-12)
                m.close(mu.getAdditionalDataMin(e, k + 1), a.min(), "minimum of %s" % e, rtol=1e-12)
        if not np.isnan(np.concatenate(parts)).any():
            m.saw("additional_everywhere")
            m.close(mu.getAdditionalDataMax(e), np.concatenate(parts).max(), "maximum of %s over all series" % e, rtol=1e-12)
            m.close(mu.getAdditionalDataMin(e), np.concatenate(parts).min(), "minimum of %s over all series" % e, rtol=1e-12)
        m.close(mu.getAdditionalData(e), np.concatenate(parts), "additional data %s of all series" % e, rtol=1e-12)
    m.raises(lambda: mu.getAdditionalData("no such variable"), "unknown additional variable")
    summary(m, mu, S, mod, f)


def summary(m, mu, S, mod, f):
    t = repr(mu)
    I = mod["idx"]
    head, *parts = re.split(r"\nMatch-up Series (\d+)\n", t)
    m.check("Sensors - " + str(I["sensors"]) in head, "summary: sensors", got=head)
    n = [int(x) for x in re.findall(r"Total Match-Ups - (\d+)", head)]
    m.check(n and all(x == I["cNm"][-1] for x in n), "summary: number of match-ups", got=n)
    n = re.findall(r"Match-Up Series - (\d+)", head)
    m.equal([int(x) for x in n], [len(S)], "summary: number of series")
    n = re.findall(r"State Data Values - (\d+)", head)
    m.equal([int(x) for x in n], [I["idx"][-1]], "summary: number of sensor state data values")
    m.equal(parts[0::2], [str(k + 1) for k in range(len(S))], "summary: one section per series")
    for k, (d, sec) in enumerate(zip(S, parts[1::2])):
        m.check("Series Sensors: %s, %s" % d["s"] in sec, "summary: sensors of series %d" % (k + 1), got=sec[:200])
        m.check(re.search(r"Series Match-ups: %d\n" % d["M"], sec), "summary: size of series %d" % (k + 1), got=sec[:200])
        m.saw("summary_short" if d["M"] < 10 else "summary_long")
        chunks = re.split(r"\n- (.*?)(?: Sensor State Data)? ?\n", sec)
        m.equal([c for c in chunks[1::2]], [d["s"][0], d["s"][1], "Series K"], "summary: parts of series %d" % (k + 1))
        for q, c in enumerate(chunks[2::2]):
            a = np.asarray(d["X%d" % (q + 1)], f).astype(np.float32) if q < 2 else d["K"].reshape(-1, 1)
            rows = ["[" + "".join("{:.2f}, ".format(x) for x in r) + "]" for r in a]
            shown = [l for l in c.splitlines() if l.startswith("[")]
            if d["M"] < 10:
                m.equal(shown, rows, "summary: values of series %d" % (k + 1))
            else:
                m.check(shown[:3] == rows[:3] and shown[-1] == rows[-1] and all(r in rows for r in shown), "summary: values of series %d" % (k + 1), got=shown)
            if mu.unc is not None and q < 2:
                m.check("%s Sensor State Data Uncertainty Types: [%s]" % (d["s"][q], "".join("%d, " % x for x in d["ut%d" % (q + 1)])) in c,
                        "summary: uncertainty types of %s in series %d" % (d["s"][q], k + 1), got=c[-200:])
            if mu.unc is not None and q == 2:
                m.check("Series K Uncertainty Type: 1" in c, "summary: uncertainty type of K in series %d" % (k + 1), got=c[-200:])
