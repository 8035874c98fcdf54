"""The native program's configuration and messages: what it holds and prints against what the namelists say."""
import os
import re
import time

import numpy as np

import native
from checks import C26

PROP = "C31"
RULE = ("a case is one or several runs of the sanitized native program in a fresh directory. Most: a random preferences.nml, run.nml and job "
        "configuration (each present or not; the job in the file named by the run configuration, in job.nml or on standard input; entries in random "
        "order, some repeated, as elements, sections, null values and repeat counts, in several spellings), after which every configuration value the "
        "program holds is compared with what a model of the namelists says, and every message with the log level; one in ten: one sound or malformed "
        "workload run at all log levels, the messages at each level being those of the highest level that are severe enough, and the result the same; "
        "plus every kind of message at random levels, and the shipped templates. Non-trivial: a configuration was read or refused.")
N = {"quick": 360, "thorough": 4000}
FILES = []
BUILDS = ["fortran"]
NEED = ["values compared", "messages checked", "levels compared", "templates read", "time stamps with an offset"]
LIMIT = {"NAME": 80, "DESC": 512, "PATH": 512, "TAGS": 20}
# Run configuration: name, type, documented default; the last two are fixed.
TEXT = [
    ("name_att_software", "NAME", "software"),
    ("value_att_software", "TAGS", "FO"),
    ("name_att_software_version", "NAME", "software_version"),
    ("name_att_software_tag", "NAME", "software_tag"),
    ("name_att_job", "PATH", "job"),
    ("name_att_job_id", "NAME", "job_id"),
    ("name_att_matchup_dataset_id", "NAME", "matchup_dataset"),
    ("name_att_matchup_dataset_uuid", "NAME", "matchup_dataset_uuid"),
    ("name_att_matchup_dataset_begin", "NAME", "matchup_dataset_begin"),
    ("name_att_matchup_dataset_end", "NAME", "matchup_dataset_end"),
    ("name_att_number_of_matchups", "NAME", "number_of_matchups"),
    ("name_att_uuid", "NAME", "uuid"),
    ("name_att_cost", "NAME", "cost"),
    ("name_att_cost_reduced", "NAME", "cost_reduced"),
    ("name_att_cost_p_value", "NAME", "cost_p_value"),
    ("name_att_cost_matchup", "NAME", "cost_matchup"),
    ("name_att_cost_sensors", "NAME", "cost_sensors"),
    ("name_att_k_res_mean", "NAME", "K_res_mean"),
    ("name_att_k_res_sdev", "NAME", "K_res_sdev"),
    ("name_att_sensor_i", "NAME", "sensor_1_name"),
    ("name_att_sensor_j", "NAME", "sensor_2_name"),
    ("name_dim_c", "NAME", "n_config"),
    ("name_dim_l_name", "NAME", "l_name"),
    ("name_dim_l_uuid", "NAME", "l_uuid"),
    ("name_dim_m", "NAME", "M"),
    ("name_dim_n", "NAME", "n"),
    ("name_dim_p", "NAME", "n_sensor_pair", False),
    ("name_dim_s", "NAME", "n_sensor", False),
    ("name_var_x", "NAME", "parameter"),
    ("desc_var_x", "DESC", "The harmonisation parameters"),
    ("name_var_x_add_offset", "NAME", "parameter_add_offset"),
    ("desc_var_x_add_offset", "DESC", "The harmonisation parameter add offsets (used internally only)"),
    ("name_var_x_scale_factor", "NAME", "parameter_scale_factor"),
    ("desc_var_x_scale_factor", "DESC", "The harmonisation parameter scale factors (used internally only)"),
    ("name_var_x_unc", "NAME", "parameter_uncertainty"),
    ("desc_var_x_unc", "DESC", "The harmonisation parameter uncertainties"),
    ("name_var_x_cov", "NAME", "parameter_covariance_matrix"),
    ("desc_var_x_cov", "DESC", "The harmonisation parameter error covariance matrix"),
    ("name_var_x_cor", "NAME", "parameter_correlation_matrix"),
    ("desc_var_x_cor", "DESC", "The harmonisation parameter error correlation matrix"),
    ("name_var_x_names", "NAME", "parameter_name"),
    ("desc_var_x_names", "DESC", "The names of the harmonisation parameters or the names of the sensors associated with them"),
    ("name_var_k_res", "NAME", "K_res"),
    ("desc_var_k_res", "DESC", "The harmonisation residual"),
    ("name_var_k_res_unc", "NAME", "K_res_uncertainty"),
    ("desc_var_k_res_unc", "DESC", "The uncertainty of the harmonisation residual"),
    ("name_var_k_res_weights", "NAME", "K_res_weights"),
    ("desc_var_k_res_weights", "DESC", "The weights of the harmonisation residual"),
    ("name_var_number_of_matchups", "NAME", "number_of_matchups"),
    ("desc_var_number_of_matchups", "DESC", "The number of matchups in a matchup dataset"),
    ("name_var_cost", "NAME", "cost"),
    ("desc_var_cost", "DESC", "The cost associated with a matchup dataset"),
    ("name_var_cost_reduced", "NAME", "cost_reduced"),
    ("desc_var_cost_reduced", "DESC", "The reduced cost associated with a matchup dataset"),
    ("name_var_k_res_mean", "NAME", "K_res_mean"),
    ("desc_var_k_res_mean", "DESC", "The mean harmonisation residual"),
    ("name_var_k_res_sdev", "NAME", "K_res_sdev"),
    ("desc_var_k_res_sdev", "DESC", "The standard deviation of the harmonisation residual"),
    ("name_var_matchup_sensor_names", "NAME", "matchup_sensor_names"),
    ("desc_var_matchup_sensor_names", "DESC", "The sensors associated with a matchup dataset"),
    ("name_var_matchup_dataset_uuids", "NAME", "matchup_dataset_uuid"),
    ("desc_var_matchup_dataset_uuids", "DESC", "The UUID associated with a matchup dataset"),
    ("name_var_time", "NAME", "t"),
    ("desc_var_time", "DESC", "The time of measurement"),
    ("unit_var_time", "DESC", "seconds since 1970-1-1 0:0:0"),
    ("name_var_sensor_equation_id", "NAME", "sensor_equation_id"),
    ("desc_var_sensor_equation_id", "DESC", "The sensor equation identifiers"),
    ("name_var_sensor_equation_x_count", "NAME", "sensor_equation_parameter_count"),
    ("desc_var_sensor_equation_x_count", "DESC", "The number of sensor equation parameters"),
    ("name_var_sensor_equation_y_count", "NAME", "sensor_equation_config_count"),
    ("desc_var_sensor_equation_y_count", "DESC", "The number of sensor equation configuration constants"),
    ("name_var_sensor_equation_y", "NAME", "sensor_equation_config"),
    ("desc_var_sensor_equation_y", "DESC", "The sensor equation configuration constants"),
    ("name_var_sensor_names", "NAME", "sensor_name"),
    ("desc_var_sensor_names", "DESC", "The sensor names"),
]
SEVERITY = {"error": 1, "warning": 2, "info": 4, "fine": 6, "debug": 7}
MESSAGE = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d\.\d{3})([+-])(\d\d):(\d\d) \[(\w+)\] (\w*)::(.*)$")
SENSORS, SERIES, COLUMNS, CONFIG = 25, 325, 32, 512


def setup():
    pass


def defaults():
    run = {n: v for n, _, v, *_ in TEXT}
    run.update(job="job.nml", value_att_software="FO", enable_log_level=4, solver_accuracy_goal=1e-4, solver_max_iteration=100)
    job = dict(job_id="01", job_enable_covariance_matrix=False, job_enable_covariance_update=False, job_enable_covariance_common=False,
               job_enable_cost_sensors=True, job_enable_unit="", job_enable_prior_data=False, job_enable_start_data=False,
               job_path_prior_data="prior.dat", job_path_start_data="start.dat", job_sensor_count=0, job_matchup_count=0,
               job_matchup_dataset_id="", job_matchup_dataset_path="./", job_sensors=np.zeros(SENSORS, int),
               job_sensor_names=[""] * SENSORS, job_sensor_columns_select=np.zeros(SENSORS, int),
               job_sensor_columns=np.zeros((SENSORS, COLUMNS), int), job_sensor_configurations=np.zeros((SENSORS, CONFIG)),
               job_matchup=np.zeros((SERIES, 2), int), job_matchup_datasets=[""] * SERIES, job_matchup_names=[""] * SERIES,
               job_matchup_samplings=np.ones(SERIES, int))
    return run, job


# ------------------------------------------------------------------ one namelist
def spell(rng, v):
    """A value as a user may write it."""
    if isinstance(v, (bool, np.bool_)):
        return str(rng.choice(["T", ".true.", ".TRUE.", "t", "true", ".T."] if v else ["F", ".false.", ".FALSE.", "f", "false", ".F."]))
    if isinstance(v, str):
        q = "\"" if rng.random() < .7 else "'"
        return q + v.replace(q, q + q) + q
    if isinstance(v, float):
        t = "%.16e" % v if rng.random() < .5 else repr(v)
        k = int(rng.integers(4))
        return t if k == 0 else t.replace("e", "E") if k == 1 else t.replace("e", "d") if k == 2 else ("+" + t if v >= 0 else t)
    return ("+%d" if rng.random() < .1 and v >= 0 else "%d") % v


def name(rng, n):
    t = "config_" + n
    return t.upper() if rng.random() < .1 else t.title() if rng.random() < .05 else t


def text(rng, limit, path=False):
    n = limit if rng.random() < .15 else int(rng.integers(0, min(limit, 30) + 1))
    abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./" + ("" if path else "   %$&!,;=()[]*'")
    t = "".join(abc[int(k)] for k in rng.integers(0, len(abc), n))
    return t.rstrip() if rng.random() < .5 or n < limit else t[:-1] + "z"


def number(rng):
    return float(rng.normal() * 10.0 ** rng.integers(-9, 9)) if rng.random() < .8 else float(rng.integers(-5, 6))


def job_entries(rng, state):
    """Random assignments [(key and subscript, values as text)] and their effect on the state."""
    out = []

    def put(key, sub, vals):
        out.append((key, sub, vals))

    def row(n, make):
        return [make() for _ in range(n)]

    def listed(vals):
        """The text of several values, equal neighbours possibly as a repeat count."""
        parts, k = [], 0
        while k < len(vals):
            n = 1
            while k + n < len(vals) and vals[k + n] == vals[k] and type(vals[k]) is not str:
                n += 1
            if n > 1 and rng.random() < .6:
                parts.append("%d*%s" % (n, spell(rng, vals[k])))
            else:
                parts += [spell(rng, v) for v in vals[k:k + n]]
            k += n
        return (", " if rng.random() < .7 else " " if rng.random() < .5 else " ,\n      ").join(parts)

    scalars = [("job_id", lambda: text(rng, 20)), ("job_enable_unit", lambda: text(rng, 512)), ("job_path_prior_data", lambda: text(rng, 512, True)),
               ("job_path_start_data", lambda: text(rng, 512, True)), ("job_matchup_dataset_id", lambda: text(rng, 80)),
               ("job_matchup_dataset_path", lambda: text(rng, 512, True))]
    scalars += [("job_enable_" + k, lambda: bool(rng.random() < .5)) for k in
                ("covariance_matrix", "covariance_update", "covariance_common", "cost_sensors", "prior_data", "start_data")]
    scalars += [(k, lambda: int(rng.integers(0, 2 ** 31 - 1)) if rng.random() < .2 else int(rng.integers(0, 26))) for k in
                ("job_sensor_count", "job_matchup_count")]
    for _ in range(int(rng.integers(0, 22))):
        k, make = scalars[int(rng.integers(len(scalars)))]
        v = make()
        state[k] = v
        put(k, "", spell(rng, v))
    i4 = lambda: int(rng.integers(-9, 400))
    vectors = [("job_sensors", SENSORS, i4), ("job_sensor_names", SENSORS, lambda: text(rng, 80)),
               ("job_sensor_columns_select", SENSORS, lambda: bool(rng.random() < .5)), ("job_matchup_datasets", SERIES, lambda: text(rng, 512, True)),
               ("job_matchup_names", SERIES, lambda: text(rng, 80)), ("job_matchup_samplings", SERIES, lambda: int(rng.choice([1, 1, 2, 17, 100000])))]
    for _ in range(int(rng.integers(0, 16))):
        k, size, make = vectors[int(rng.integers(len(vectors)))]
        how = int(rng.integers(4))
        n = 1 if how == 0 else int(rng.integers(1, 8))
        if how == 3:
            at, sub = 0, ""
        else:
            at = int(rng.integers(0, size - n + 1)) if rng.random() < .3 else int(rng.integers(0, 8)) if rng.random() < .9 else size - n
            at = min(at, size - n)
            sub = "(%d)" % (at + 1) if how == 0 else "(%d:%d)" % (at + 1, at + n)
        vals = row(n, make)
        if rng.random() < .3:
            vals = [vals[0]] * n
        skip = int(rng.integers(1, n - 1)) if how == 3 and n > 2 and rng.random() < .4 else None
        for q, v in enumerate(vals):
            if q != skip:
                state[k][at + q] = v
        if skip is None:
            put(k, sub, listed(vals))
        else:
            put(k, sub, ", ".join("" if q == skip else spell(rng, v) for q, v in enumerate(vals)))
    tables = [("job_sensor_columns", SENSORS, COLUMNS, i4), ("job_sensor_configurations", SENSORS, CONFIG, lambda: number(rng)),
              ("job_matchup", SERIES, 2, i4)]
    for _ in range(int(rng.integers(0, 10))):
        k, nr, nc, make = tables[int(rng.integers(3))]
        r = int(rng.integers(0, nr)) if rng.random() < .3 else int(rng.integers(0, 8))
        how = int(rng.integers(3))
        if how == 0:
            c = int(rng.integers(0, nc))
            v = make()
            state[k][r, c] = v
            put(k, "(%d,%d)" % (r + 1, c + 1), spell(rng, v))
        else:
            n = min(nc, int(rng.integers(1, 10))) if rng.random() < .95 else nc
            vals = row(n, make) if rng.random() < .8 else [make()] * n
            state[k][r, :n] = vals
            put(k, "(%d,:)" % (r + 1) if how == 1 else "(%d,1:%d)" % (r + 1, n), listed(vals))
    # Entries of different keys may stand in any order, those of one key keep theirs.
    order = rng.permutation(len(out))
    keys = [out[int(q)][0] for q in order]
    turn = {k: iter([e for e in out if e[0] == k]) for k in set(keys)}
    return [next(turn[k]) for k in keys]


def run_entries(rng, state, level, jobname):
    out = []
    texts = [t for t in TEXT if len(t) == 3 and t[0] != "job"]
    for _ in range(int(rng.integers(0, 8)) if rng.random() < .8 else 2 * len(texts)):
        n, kind, _ = texts[int(rng.integers(len(texts)))]
        v = text(rng, LIMIT[kind])
        state[n] = v
        out.append((n, "", spell(rng, v)))
    more = [("value_att_software", lambda: text(rng, 20, True)), ("solver_accuracy_goal", lambda: abs(number(rng))),
            ("solver_max_iteration", lambda: int(rng.integers(0, 2 ** 31 - 1))), ("parameter", lambda: text(rng, 60, True)),
            ("residuals", lambda: text(rng, 60, True))]
    for n, make in more:
        if rng.random() < .35:
            v = make()
            if n in ("parameter", "residuals"):
                v = "d" + v
                state[n] = v
                out.append(("name_%s_dataset" % n, "", spell(rng, v)))
            else:
                state[n] = v
                out.append((n, "", spell(rng, v)))
    if level is not None:
        state["enable_log_level"] = level
        out.append(("enable_log_level", "", spell(rng, level)))
    if jobname is not None:
        state["job"] = jobname
        out.append(("job", "", spell(rng, jobname)))
    return out


def group(rng, which, entries):
    """The text of the namelist group."""
    a = str(rng.choice(["&", "&", "$"]))
    t = "%s%s\n" % (a, which if rng.random() < .8 else which.upper())
    for k, sub, v in entries:
        if rng.random() < .08:
            t += "  ! a remark, config_job_id = 'none'\n"
        t += "  %s%s%s%s%s" % (name(rng, k), sub, " = " if rng.random() < .8 else "=", v, str(rng.choice(["\n", "\n", "\n", ",\n", "  ! remark\n"])))
    return t + str(rng.choice(["/\n", " /\n", "&end\n" if a == "&" else "$end\n"]))


# ------------------------------------------------------------------ messages
def messages(m, out, begin, end, offset=None):
    """The messages [(level, module, text)] the program printed; every line that is none is left to the caller."""
    got, other, last = [], [], None
    for line in out.splitlines():
        q = MESSAGE.match(line)
        if not q:
            other.append(line)
            continue
        y, mo, d, h, mi = (int(q.group(k)) for k in range(1, 6))
        sec = float(q.group(6))
        off = (int(q.group(8)) * 60 + int(q.group(9))) * (1 if q.group(7) == "+" else -1)
        m.check(q.group(10) in SEVERITY, "level of a message", line=line)
        if offset is not None:
            m.equal(off, offset, "offset of the time stamp")
            m.saw("time stamps with an offset")
        import calendar
        t = calendar.timegm((y, mo, d, h, mi, 0)) + sec - off * 60
        m.check(begin - .01 <= t <= end + .01, "time stamp of a message outside the run", line=line, begin=begin, end=end)
        m.check(last is None or t >= last, "messages are not in the order of time", line=line)
        m.check(q.group(12).strip() == q.group(12) and q.group(12) != "", "text of a message", line=line)
        last = t
        got.append((q.group(10), q.group(11), q.group(12)))
        m.saw("messages checked")
    return got, other


def timed(f):
    a = time.time()
    r = f()
    return r, int(a * 1000) / 1000., time.time()


ZONES = [("UTC0", 0), ("XXX-5:30", 330), ("XXX8", -480), ("XXX-12:45", 765), ("XXX3:30", -210), ("XXX-0:15", 15)]


# ------------------------------------------------------------------ configuration
def configuration(m, rng):
    run, job = defaults()
    run["parameter"] = run["residuals"] = ""
    levels = [0, 1, 2, 3, 4, 5, 6, 7, 8, 7, 7]
    names = ["job.nml", "other.nml", "my job.nml", "sub/" + text(rng, 40, True).replace("/", "_").replace(".", "_") + ".nml", "j" * 508 + ".nml"]
    preferences, config = rng.random() < .4, rng.random() < .8
    for present, path in ((preferences, "preferences.nml"), (config, "run.nml")):
        if present:
            e = run_entries(rng, run, int(rng.choice(levels)) if rng.random() < .7 else None, str(rng.choice(names)) if rng.random() < .5 else None)
            with open(os.path.join(m.tmp, path), "w") as f:
                f.write(group(rng, "run", [e[int(k)] for k in unrepeated(rng, e)]))
    t = group(rng, "job", job_entries(rng, job))
    stdin = rng.random() < .3
    decoys = [n for n in names if n != run["job"] and len(n) < 100]
    if rng.random() < .5:
        d = str(rng.choice(decoys))
        os.makedirs(os.path.dirname(os.path.join(m.tmp, d)) or m.tmp, exist_ok=True)
        open(os.path.join(m.tmp, d), "w").write("&job config_job_id = 'decoy', config_job_sensor_count = 77777 /\n")
    if not stdin:
        path = os.path.join(m.tmp, run["job"])
        if len(run["job"]) > 255:
            stdin = True
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, "w").write(t)
    asked = [(".nc", "20000101", "20101231"), (".dat", "19790101", "19790102")]
    script = "config\n" + (t if stdin else "") + "c_dump\n"
    for x in asked:
        script += "n_par\n%s\nn_res\n%s\n" % (native.line(x), native.line(x + ("s1", "s2")))
    tz, off = ZONES[int(rng.integers(len(ZONES)))]
    m.key("job from", "stdin" if stdin else run["job"][:5], preferences, config, run["enable_log_level"])
    m.sample(job=t[:300], level=run["enable_log_level"], stdin=stdin)
    r, a, b = timed(lambda: native.run(os.path.join(native.dirs(), "vdrv"), script, m.tmp, 60, {"TZ": tz}))
    m.check(r.memory_error is None, "memory error or undefined behaviour while the configuration is read", what=r.memory_error)
    m.check(r.rc == 0, "an acceptable configuration was refused", what=r.tail(), job=t[:600])
    got, _ = messages(m, r.out, a, b, off)
    job_messages(m, got, run["enable_log_level"], stdin)
    groups = dict(native.parse(r.out))
    dump = groups["c_dump"]
    compare(m, dump, run, job)
    # The names of the results, which the program tells only through the name functions.
    reported = [g for k, g in native.parse(r.out) if k in ("n_par", "n_res")]
    for (x, par, res) in zip(asked, reported[::2], reported[1::2]):
        for what, given, g, tail in (("parameter", run["parameter"], par, x[0]), ("residuals", run["residuals"], res, "_s1_s2" + x[0])):
            if given:
                m.equal(g[0][1].rstrip(), given + tail, "name of the %s data set" % what)
                m.saw("values compared")


def unrepeated(rng, entries):
    """A random order that keeps the order of entries with one key."""
    order = [int(k) for k in rng.permutation(len(entries))]
    keys = [entries[k][0] for k in order]
    turn = {}
    for k, e in enumerate(entries):
        turn.setdefault(e[0], []).append(k)
    turn = {k: iter(v) for k, v in turn.items()}
    return [next(turn[k]) for k in keys]


def job_messages(m, got, level, stdin):
    """Once the run configuration is known, messages are those its log level asks for."""
    ours = [g for g in got if g[1] == "mod_config"]
    m.check(all(SEVERITY[g[0]] <= level for g in ours), "a message below the log level", level=level, got=ours)
    have = [g[0] for g in ours]
    if stdin:
        m.equal(have.count("warning") > 0, level >= 2, "warning that no job file was found, at level %d" % level)
    else:
        m.equal(have.count("warning"), 0, "warnings about a job file that was found")
    m.equal(have.count("debug") > 0, level >= 7, "messages about the job configuration at level %d" % level)


def compare(m, dump, run, job):
    texts, rest, cur = {}, {}, {}
    at = None
    for k, v in dump:
        k = k[2:]
        if k.endswith(".at"):
            at = v[0]
        elif at is not None:
            cur.setdefault(k, {})[at] = v
            at = None
        elif isinstance(v, str):
            texts[k] = v
        else:
            rest[k] = v
    for k, v in run.items():
        if k in ("parameter", "residuals"):
            continue
        if isinstance(v, str):
            m.check(texts.get(k, "").rstrip() == v.rstrip(), "configuration value differs from what the run configuration says", name=k, want=v[:120],
                    got=texts.get(k, "").rstrip()[:120])
        elif isinstance(v, float):
            m.check(abs(rest[k][0] - v) <= 1e-6 * abs(v), "configuration value differs from what the run configuration says", name=k, want=v, got=rest[k])
        else:
            m.equal(rest[k], [v], "configuration value " + k)
        m.saw("values compared")
    for k, v in job.items():
        if isinstance(v, str):
            m.check(texts.get(k, "").rstrip() == v.rstrip(), "configuration value differs from what the job configuration says", name=k, want=v[:120],
                    got=texts.get(k, "").rstrip()[:120])
        elif isinstance(v, list):
            have = {q: x.rstrip() for q, x in cur.get(k, {}).items() if x.strip()}
            want = {q + 1: x.rstrip() for q, x in enumerate(v) if x.strip()}
            m.check(have == want, "configured texts differ from what the job configuration says", name=k,
                    differs=str([(q, have.get(q), want.get(q)) for q in sorted(set(have) | set(want)) if have.get(q) != want.get(q)])[:300])
        elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
            have = np.zeros(v.shape)
            for q, x in cur.get(k, {}).items():
                have[q - 1] = x
            m.check(np.all(np.abs(have - v) <= 1e-6 * np.abs(v)), "configured constants differ from what the job configuration says", name=k,
                    at=str(np.argwhere(have != v)[:5].tolist()))
        elif isinstance(v, np.ndarray):
            have = np.array(rest[k]).reshape(v.shape, order="F")
            m.check(np.array_equal(have, v), "configured numbers differ from what the job configuration says", name=k,
                    at=str(np.argwhere(have != v)[:5].tolist()))
        else:
            m.equal(rest[k], [int(v)], "configuration value " + k)
        m.saw("values compared")


# ------------------------------------------------------------------ log levels
def levels(m, rng):
    fault, group_fault = None, False
    k = rng.random()
    if k < .25:
        # A job configuration that is none: the program says so at every level but the lowest.
        C26.workload(m, rng, True)
        path = os.path.join(m.tmp, "job.nml")
        t = open(path).read()
        fault = str(rng.choice(["unknown", "type", "unclosed", "other group", "empty", "index", "garbage"]))
        t = {"unknown": t[:-2] + "config_job_other = 1\n/\n",
             "type": t[:-2] + "config_job_matchup_count = 'x'\n/\n", "unclosed": t[:-2], "other group": t.replace("&job", "&jog"), "empty": "",
             "index": t[:-2] + "config_job_matchup(1,7) = 1\n/\n", "garbage": "".join(chr(int(c)) for c in rng.integers(32, 36, 500))}[fault]
        given = ""
        if rng.random() < .4:
            os.remove(path)
            given = t
        else:
            open(path, "w").write(t)
        fault, group_fault = "job " + fault, True
    elif k < .5:
        for _ in range(20):
            fault = str(rng.choice(C26.FILE_FAULTS))
            if C26.accepts(m, rng, fault) is not None:
                break
        else:
            m.trivial = True
            return
    else:
        C26.workload(m, rng, True)
    if not group_fault:
        given = ""
    top = None
    for level in [8] + [int(k) for k in rng.permutation(8)]:
        with open(os.path.join(m.tmp, "run.nml"), "w") as f:
            f.write(group(rng, "run", [("enable_log_level", "", str(level))]))
        for f in C26.result(m):
            os.remove(os.path.join(m.tmp, f))
        tz, off = ZONES[int(rng.integers(len(ZONES)))]
        r, a, b = timed(lambda: C26.demo(m, {"TZ": tz}, text=given))
        C26.clean(m, r, level=level)
        got, other = messages(m, r.out, a, b, off)
        m.check(not [x for x in other if x.strip()], "the program printed a line that is no message", lines=other[:3], level=level)
        state = (r.rc, result_bytes(m))
        if top is None:
            top, first = got, state
            m.check((r.rc == 0) == (fault is None), "status of the run", fault=fault, what=r.tail())
            m.check(not group_fault or any(g[:2] == ("error", "mod_config") for g in got), "no error message for a faulty job configuration", fault=fault)
            m.check(fault is None or any(g[0] == "error" for g in got) or "ERROR STOP" in r.err or re.search("error", r.err, re.I),
                    "a refusal without an error message", fault=fault, what=r.tail())
            m.check(fault is not None or [g for g in got if g[0] == "info"] != [], "a sound run without information")
            m.sample(fault=fault, messages=len(top), severities=sorted({g[0] for g in top}))
        else:
            want = [g for g in top if SEVERITY[g[0]] <= level]
            m.check(got == want, "messages at a log level are not those of the highest level that are severe enough", level=level, fault=fault,
                    missing=[g for g in want if g not in got][:3], extra=[g for g in got if g not in want][:3])
            m.check(state == first, "the log level changed the result or the exit status", level=level, fault=fault, rc=(r.rc, first[0]))
        m.key("levels", level, fault is None, len(got) > 0)
        m.saw("levels compared")


KINDS = {"e": "error", "w": "warning", "i": "info", "f": "fine", "d": "debug"}


def logger(m, rng):
    """Every kind of message at a random level: one line with the value, when severe enough."""
    for _ in range(6):
        level = int(rng.integers(-1, 10))
        i, l = int(rng.integers(-2 ** 31 + 1, 2 ** 31)), int(rng.integers(-2 ** 62, 2 ** 62))
        d = round(float(rng.uniform(-999, 999)), 2)
        w = text(rng, 40, True) or "w"
        tz, off = ZONES[int(rng.integers(len(ZONES)))]
        r, a, b = timed(lambda: native.run(os.path.join(native.dirs(), "vdrv"), "log\n" + native.line([level, i, l, d, w]) + "\n", m.tmp, 60, {"TZ": tz}))
        m.check(r.memory_error is None and r.rc == 0, "messages ended the program", what=r.memory_error or r.tail())
        got, _ = messages(m, r.out.replace(" :: ", "::"), a, b, off)
        m.equal(dict(native.parse(r.out)[0][1])["level"], [level], "log level reported")
        want = []
        for k in "ewifd":
            if SEVERITY[KINDS[k]] <= level:
                for t, n in (("i", "m_a"), ("l", "m_f"), ("d", "m_b"), ("s", "m_c"), ("t", "m_d"), ("n", "m_e")):
                    if t == "l" and k != "d" or k == "w" and t not in "tn":
                        continue
                    want.append((KINDS[k], n, k + t, {"i": i, "l": l, "d": d, "s": d, "t": w, "n": ""}[t]))
        m.equal([g[:2] for g in got], [x[:2] for x in want], "messages at level %d" % level)
        for g, x in zip(got, want):
            key, _, v = g[2].partition(" ")
            m.check(key == x[2] and (abs(float(v) - x[3]) < 2e-3 if isinstance(x[3], float) else v == str(x[3])), "text of a message", got=g, want=x)
        m.key("logger", level)


def result_bytes(m):
    from netCDF4 import Dataset
    out = {}
    for f in sorted(C26.result(m)):
        with Dataset(os.path.join(m.tmp, f)) as d:
            d.set_auto_mask(False)
            out[f] = {k: v[:].tobytes() for k, v in d.variables.items()}
    return out


# ------------------------------------------------------------------ templates
def templates(m, rng):
    """The shipped templates are configurations the program accepts, and it holds what they say."""
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "harmonisation_meiv_demo/src/main/resources-filtered")
    for path, run in [(os.path.join(src, "templates/template_job.nml"), False), (os.path.join(src, "templates/template_run.nml"), True)] + \
            [(os.path.join(src, "jobs", f), False) for f in sorted(os.listdir(os.path.join(src, "jobs")))]:
        t = open(path).read().replace("@PROC@", "/nowhere")
        for f in ("run.nml", "job.nml"):
            if os.path.exists(os.path.join(m.tmp, f)):
                os.remove(os.path.join(m.tmp, f))
        open(os.path.join(m.tmp, "run.nml" if run else "job.nml"), "w").write(t)
        if run:
            open(os.path.join(m.tmp, "job.nml"), "w").write("&job config_job_id = '01' /\n")
        r = native.vdrv("config\nc_dump\n", m.tmp)
        m.check(r.memory_error is None, "memory error or undefined behaviour while a template is read", what=r.memory_error)
        m.check(r.rc == 0, "a shipped template was refused", template=os.path.basename(path), what=r.tail())
        dump = dict(native.parse(r.out)).get("c_dump", [])
        first = {}
        for k, v in dump:
            first.setdefault(k, v)
        for k, v in re.findall(r"^\s*config_(\w+)\s*=\s*(.*?)\s*$", t, re.M):
            g = first.get("c." + k)
            if v[0] in "\"'":
                ok = isinstance(g, str) and g.rstrip() == v[1:-1]
            elif v in "TF":
                ok = g == [int(v == "T")]
            else:
                ok = g is not None and abs(g[0] - float(v)) <= 1e-6 * abs(float(v))
            m.check(ok, "a value of a shipped template", template=os.path.basename(path), name=k, want=v, got=str(g)[:80])
        names = sum(k == "c.job_sensor_names" for k, _ in dump)
        if not run:
            m.equal([names], first["c.job_sensor_count"], "sensors named in " + os.path.basename(path))
            m.equal([sum(k == "c.job_matchup_datasets" for k, _ in dump)], first["c.job_matchup_count"], "data sets in " + os.path.basename(path))
        m.saw("templates read")


def case(m, rng, i):
    if i == 0:
        return templates(m, rng)
    if i % 10 == 5:
        return levels(m, rng)
    if i % 30 == 9:
        return logger(m, rng)
    return configuration(m, rng)
