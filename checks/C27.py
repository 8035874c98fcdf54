"""C27: option vectors and job files given to the real option parser and to the real solver program, whose heavy parts (opening match-ups, the solver proper, saving) are
recording stand-ins: the monitor holds what they are called with against the options given, refusals against the documented rules, and that nothing ran on a refusal."""
import contextlib
import importlib
import inspect
import io
import logging
import os
import pkgutil
import subprocess
import sys

import gnlib

PROP = "C27"
RULE = ("random subsets of all options, long, short, abbreviated and '=' forms in any order, paths with spaces and relative parts, every sensor; job files with relative and absolute "
        "directories; listings; incomplete and contradictory vectors; non-trivial when the run is accepted with optional settings")
N = {"quick": 1600, "thorough": 20000}
BUDGET = {"quick": 150, "thorough": 400}
WORKERS = 8
FILES = ["harmonisation_eiv/harmonisation/tools/common.py", "harmonisation_eiv/harmonisation/tools/full_eiv_solver.py", "harmonisation_eiv/harmonisation/tools/HarmonisationOp.py"]
NEED = ["accepted", "refused", "contradictory", "incomplete", "bad value", "unknown sensor", "list", "job file", "relative job directories", "command line", "quiet", "verbose", "normal",
        "no covariance", "pc_input", "save_pc", "gn_input", "save_gn", "log file", "plot options", "mode", "program", "plain start", "incomplete job file", "unknown sensor in a job file"]
common = op = version = None
sensors = {}
T = "harmonisation.tools."
SLOTS = ("pc_input", "save_pc", "gn_input", "save_gn")


def setup():
    global common, op, version
    gnlib.load()
    version = importlib.import_module("harmonisation.version")
    common = importlib.import_module(T + "common")
    op = importlib.import_module(T + "HarmonisationOp")
    pkg = importlib.import_module("harmonisation.sensor_data")
    # sensor data by name, from the classes themselves
    for _, name, ispkg in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
        if ispkg or name.endswith("Factory") or "cython" in name or ".tests" in name:
            continue
        try:
            mod = importlib.import_module(name)
        except ImportError:
            continue
        for _, c in inspect.getmembers(mod, inspect.isclass):
            if c.__module__ == name and hasattr(c, "get_sensor_data"):
                try:
                    o = c()
                except TypeError:
                    continue
                sensors[o.name] = o.get_sensor_data()


def same(a, b):
    """equal structure, functions being the same functions"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if callable(a):
        return a is b
    return type(a) == type(b) and str(a) == str(b)


class Log:
    def __init__(self):
        self.calls = []


def stand_ins(log):
    class Data:
        idx = {"sensors": ["a", "b"], "parameter_sensor": ["b"], "cNm": [0, 5], "idx": [0, 9]}

        def setSensorData(self, s):
            log.calls.append(("sensor_data", s))

    class Result:
        parameter, parameter_covariance_matrix = [1.], [[1.]]

        def save(self, path, save_residuals=True):
            log.calls.append(("save", path, save_residuals, dict(self.additional_attributes)))

    class EIV:
        def run(self, data, **k):
            log.calls.append(("run", data, k))
            return Result()

    def open_matchup(path, **k):
        log.calls.append(("open", path, k))
        return Data()
    return open_matchup, EIV


def start(argv, log):
    """the solver program with these arguments -> exit status"""
    old = sys.argv, op.open_matchup, op.HarmonisationEIV
    sys.argv = ["full_eiv_solver"] + argv
    op.open_matchup, op.HarmonisationEIV = stand_ins(log)
    sys.modules.pop(T + "full_eiv_solver", None)
    lg = logging.getLogger(T + "common")
    lg.handlers[:] = []
    out, err = io.StringIO(), io.StringIO()
    level = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod = importlib.import_module(T + "full_eiv_solver")
                level = lg.level
                rc = mod.main()
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv, op.open_matchup, op.HarmonisationEIV = old
        for h in lg.handlers:
            h.close()
        lg.handlers[:] = []
    return rc or 0, out.getvalue(), level


def parse(argv, solver):
    old = sys.argv
    sys.argv = ["tool"] + argv
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                a = common.parse_cmdline("a tool", solver_options=solver)
                return 0, out.getvalue(), common.read_parsed_cmdline(a, solver_options=solver)
            except SystemExit as e:
                return e.code or 0, out.getvalue(), None
    finally:
        sys.argv = old


FORMS = {"job_file": ("-j", "--job_file", "--job"), "input_directory": ("-i", "--input_directory", "--input_d"), "sensor": ("-s", "--sensor", "--sens"),
         "output_directory": ("-o", "--output_directory", "--output"), "pc_input": ("--pc_input", "--pc"), "save_pc": ("--save_pc",), "gn_input": ("--gn_input", "--gn"),
         "save_gn": ("--save_gn",), "mode": ("--mode", "--mod"), "log": ("--log",)}


def vector(rng, o, flags):
    parts = []
    for k, v in o.items():
        f = str(rng.choice(FORMS[k]))
        if f.startswith("--") and rng.random() < .4:
            parts.append([f + "=" + v])
        else:
            parts.append([f, v])
    parts += [[f] for f in flags]
    rng.shuffle(parts)
    return [x for p in parts for x in p]


def case(m, rng, i):
    if i == 0:
        return plain_start(m)
    here = os.getcwd()
    os.chdir(m.tmp)
    try:
        one(m, rng, i)
    finally:
        os.chdir(here)


def plain_start(m):
    """the installed program as it is, without any of the stand-ins"""
    m.saw("plain start")
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", T + "full_eiv_solver", "--list_sensors"], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=os.path.join(os.environ["VERIF_TREE"], "harmonisation_eiv")))
    known = "ImportError: cannot import name" in r.stderr and "from 'harmonisation'" in r.stderr
    m.check(r.returncode == 0 and r.stdout.split() == list(sensors), "full_eiv_solver --list_sensors as installed exits with %d: %s" % (r.returncode, r.stderr[-300:]),
            finding="solver-not-importable" if known else None)


def path(rng):
    p = str(rng.choice(["data", "some dir/set", "../up/x", "./a/b/", "/abs/place", "x.nc", "a=b", "~u/d", "~/d", "50%", "%(sensor)s", "a;b", "run #2", "a:b", "\"q\""]))
    return p + str(int(rng.integers(9))) if rng.random() < .5 else p


def one(m, rng, i):
    names = list(sensors)
    name = names[i % len(names)]
    solver = rng.random() < .8
    kind = rng.choice(["cmd", "cmd", "cmd", "job", "job", "bad", "bad", "list"])
    o, flags = {}, []
    show = 1
    verb = rng.choice(["quiet", "verbose", "normal"])
    if verb != "normal":
        flags.append("--" + verb)
        show = {"quiet": 0, "verbose": 2}[verb]
    if rng.random() < .2:
        o["log"] = "run%d.log" % i
    opt = {}
    if solver:
        for k in SLOTS:
            if rng.random() < .4:
                opt[k] = path(rng)
        if rng.random() < .3:
            flags.append("--no_covariance")
    inp, outp = path(rng), path(rng)
    want, why = None, None
    jobname = str(rng.choice(["job", "01", "my.job", "a b", "jobs/j", "jobs/set one/02", "x.cfg"])) + str(rng.choice([".cfg", ".cfg", ".cfg", ".job", "", ".cfg.old"]))
    os.makedirs(os.path.dirname(jobname) or ".", exist_ok=True)
    if kind == "list":
        m.saw("list")
        if rng.random() < .5:
            o.update(sensor=name)
        if rng.random() < .3:
            o.update(input_directory=inp, output_directory=outp)
        v = vector(rng, o, flags + ["--list_sensors"])
        rc, out, got = parse(v, solver)
        m.equal(rc, 0, "exit status of %s" % v)
        m.equal(out.split("\n")[:-1], names, "sensors listed by %s" % v) if sorted(out.split("\n")[:-1]) != sorted(names) else None
        m.check(got is None, "listing runs nothing")
        if solver:
            log = Log()
            rc, out, _ = start(v, log)
            m.check(rc == 0 and not log.calls, "listing runs nothing: %s" % [c[0] for c in log.calls])
        return
    if kind == "cmd":
        m.saw("command line")
        o.update(input_directory=inp, sensor=name, output_directory=outp, **opt)
        want = (inp, sensors[name], outp, opt)
    elif kind == "job":
        m.saw("job file")
        lines = ["[DEFAULT]", "job_id = 7", "matchup_dataset = AVHRR_X", "[harmonisation]"]
        ent = [("dataset_dir", inp), ("sensor", name), ("output_dir", outp)]
        rng.shuffle(ent)
        lines += ["%s%s%s" % (k, str(rng.choice([" = ", "=", ": "])), v) for k, v in ent]
        if rng.random() < .3:
            lines.insert(0, "# comment")
        open(jobname, "w").write("\n".join(lines) + "\n")
        o["job_file"] = jobname if rng.random() < .5 else os.path.abspath(jobname)
        if not os.path.isabs(inp) or not os.path.isabs(outp):
            m.saw("relative job directories")
        cwd = os.getcwd()
        want = (os.path.normpath(os.path.join(cwd, inp)), sensors[name], os.path.normpath(os.path.join(cwd, outp)), {})
    else:
        m.saw("refused")
        bad = rng.choice(["contradictory", "incomplete", "bad value", "unknown sensor"])
        m.saw(str(bad))
        why = str(bad)
        full = dict(input_directory=inp, sensor=name, output_directory=outp)
        if bad == "contradictory":
            open(jobname, "w").write("[harmonisation]\ndataset_dir = %s\nsensor = %s\noutput_dir = %s\n" % (inp, name, outp))
            o["job_file"] = jobname
            extra = dict(full, **({k: path(rng) for k in SLOTS} if solver else {}))
            k = str(rng.choice(list(extra)))
            o[k] = extra[k]
            if rng.random() < .3:
                o.update(full)
        elif bad == "incomplete" and rng.random() < .3:       # a job file that lacks something
            ent = [k for k in ("dataset_dir", "sensor", "output_dir")]
            del ent[int(rng.integers(3))]
            open(jobname, "w").write("[harmonisation]\n" + "".join("%s = %s\n" % (k, {"dataset_dir": inp, "sensor": name, "output_dir": outp}[k]) for k in ent))
            o["job_file"] = jobname
            why = "unknown sensor"                           # an exception, not an exit status
            m.saw("incomplete job file")
        elif bad == "unknown sensor" and rng.random() < .5:
            open(jobname, "w").write("[harmonisation]\ndataset_dir = %s\nsensor = %s\noutput_dir = %s\n" % (inp, str(rng.choice(["AVHRR", name + " extra", name[:-1], name.lower() + "_"])), outp))
            o["job_file"] = jobname
            m.saw("unknown sensor in a job file")
        elif bad == "incomplete":
            for k in [q for q in full if rng.random() < .6]:
                o[k] = full[k]
            if len(o) and all(k in o for k in full):
                del o[str(rng.choice(list(full)))]
            o.update(opt)
        elif bad == "bad value":
            o.update(full)
            w = rng.choice(["mode", "both", "option", "noarg", "missing job"])
            if w == "mode" and solver:
                o["mode"] = "fast"
            elif w == "both":
                flags = ["--quiet", "--verbose"]
            elif w == "noarg":
                flags.append("--log")
            elif w == "missing job":
                o = {"job_file": "nowhere.cfg"}
                why = "unknown sensor"                       # an exception, not an exit status
            else:
                flags.append("--speed")
        else:
            o.update(full, sensor=str(rng.choice(["AVHRR", "avhrr_11um_3", name + " ", "None"])))
    if solver and kind != "bad" and rng.random() < .1:
        o["mode"] = "normal"
    v = vector(rng, o, flags)
    m.key(kind, why, tuple(sorted(o)), tuple(sorted(flags)))
    what = "options %s: " % " ".join(v)
    if want is None:
        log = Log()
        try:
            rc, out, got = parse(v, solver)
            ran = False
        except Exception as e:
            m.check(why == "unknown sensor", what + "ends with %r" % e)
            rc, got = 1, None
        if why == "unknown sensor" and got is None:
            m.check(rc != 0, what + "exit status %s" % rc)
        else:
            m.check(rc != 0 and got is None, what + "accepted although %s" % why)
        if solver:
            try:
                rc, out, _ = start(v, log)
            except Exception as e:
                rc = 1
                m.check(why == "unknown sensor", what + "the program ends with %r" % e)
            m.check(rc != 0, what + "the program's exit status %s although %s" % (rc, why))
            m.check(not log.calls, what + "something ran although %s: %s" % (why, [c[0] for c in log.calls]))
        return
    m.saw("accepted")
    m.saw(str(verb))
    for k in opt:
        if kind == "cmd":
            m.saw(k)
    m.trivial = not opt
    rc, out, got = parse(v, solver)
    if not m.check(rc == 0 and got is not None, what + "refused: %s" % out):
        return
    m.equal(len(got), 8 if solver else 4, what + "values read")
    if not solver:
        m.saw("plot options")
    m.equal((got[0], got[2], got[-1]), (want[0], want[2], show), what + "directories and verbosity")
    m.check(same(want[1], got[1]), what + "sensor data of %s" % name)
    if not solver:
        return
    m.equal(list(got[3:7]), [want[3].get(k) for k in SLOTS], what + "solver paths")
    # the program
    m.saw("program")
    log = Log()
    rc, out, level = start(v, log)
    m.equal(rc, 0, what + "exit status of the program")
    if not m.equal([c[0] for c in log.calls], ["open", "sensor_data", "run", "save"], what + "what ran"):
        return
    opened, sd, run, save = log.calls
    m.equal((opened[1], {k: x for k, x in opened[2].items() if x not in (True,)}), (want[0], {}), what + "match-ups opened")
    m.check(same(want[1], sd[1]), what + "sensor data of the run")
    k = run[2]
    m.equal([k.get(q) for q in SLOTS], [want[3].get(q) for q in SLOTS], what + "solver paths of the run")
    m.equal(k.get("show", 1), show, what + "verbosity of the run")
    for q in ("tolPC", "tol", "tolA", "tolU"):
        m.check(0 < k.get(q, 1e-6) <= 1e-4, what + "%s of the run is %s" % (q, k.get(q)))
    m.equal(bool(k.get("return_covariance", True)), "--no_covariance" not in flags, what + "covariance of the run")
    if "--no_covariance" in flags:
        m.saw("no covariance")
    m.equal(os.path.dirname(os.path.normpath(save[1])), os.path.normpath(want[2]), what + "directory of the result")
    job = os.path.splitext(os.path.basename(jobname))[0] if kind == "job" else ""
    dset = os.path.basename(os.path.abspath(want[0]))
    base = os.path.basename(save[1])
    m.equal(base, "_".join(("harm", "EV", version.__version__, version.__tag__, job, dset)) + ".nc", what + "name of the result")
    m.equal((save[3].get("software_version"), save[3].get("software_tag")), (version.__version__, version.__tag__), what + "the result's version")
    m.equal((save[3].get("software"), save[3].get("job_id")), ("EV", job), what + "the result's software and job")
    m.check(str(save[3].get("matchup_dataset")).startswith(dset), what + "the result's match-up data set %s" % save[3].get("matchup_dataset"))
    m.check(save[2] is True, what + "residuals are saved")
    m.equal(level, {0: logging.WARNING, 1: logging.INFO, 2: logging.DEBUG}[show], what + "log level")
    if "log" in o:
        m.saw("log file")
        text = open(o["log"]).read() if os.path.exists(o["log"]) else None
        m.check(text is not None and (want[0] in text) == (show > 0), what + "log file reads %r" % text)
    named = [l for l in out.splitlines() if l.rstrip().endswith(": " + want[0])]
    m.equal(bool(named), show > 0, what + "data set named in the output: " + out)
    m.check(len(named) <= 2, what + "data set named once: " + out)
    # asked to set up only, the program must not do what it does when asked for a normal run
    if i % 7 == 0 and "mode" not in o:
        m.saw("mode")
        log2 = Log()
        start(v + ["--mode", str(rng.choice(["setup_pc", "setup_trans2ind"]))], log2)
        alike = [c[0] for c in log2.calls] == [c[0] for c in log.calls] and {q: x for q, x in log2.calls[2][2].items()} == k
        m.check(not alike, "--mode setup_pc and setup_trans2ind run the same as --mode normal", finding="mode-ignored")
