"""Runs a property's monitor over generated workloads on the code under test and reports the verdict.

A check module in /verif/checks defines

    PROP    id of the property
    RULE    how cases are made and what makes one non-trivial
    N       {"quick": n, "thorough": n}    number of cases
    FILES   files of the tree (relative) whose executed lines are recorded as evidence
    setup() imports the code under test, once per worker (a failure there is an error of the check, not a violation)
    case(m, rng, i)  one execution under observation; m is a Monitor

Every case draws only from its own rng (VERIF_SEED, property, index), so `--case I` repeats it.
"""
import contextlib
import importlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class SkipCase(Exception):
    """The drawn case is outside the property's domain."""


class HarnessError(Exception):
    """The check itself could not observe what it needs: no verdict."""


class Timeout(Exception):
    pass


def _load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return {(k["property"], k["id"]): k for k in json.load(f)["findings"]}
    except FileNotFoundError:
        return {}


class Monitor:
    def __init__(self, prop, tier, tmp, known):
        self.prop, self.tier, self.tmp, self._known = prop, tier, tmp, known
        self.events = Counter()
        self.keys = set()
        self.trivial = False
        self.findings = {}
        self.note = {}

    # -- observation
    def saw(self, what, n=1):
        self.events[what] += n

    def key(self, *k):
        self.keys.add(repr(k))

    def sample(self, **kw):
        self.note.update(kw)

    # -- verdict
    def fail(self, msg, finding=None, **details):
        if finding and (self.prop, finding) in self._known:
            self.findings.setdefault(finding, msg)
            return
        raise Violation(msg + ("" if not details else " | " + ", ".join("%s=%s" % (k, _short(v)) for k, v in details.items())))

    def check(self, cond, msg, finding=None, **details):
        self.events["checks"] += 1
        if not cond:
            self.fail(msg, finding, **details)
            return False
        return True

    def close(self, got, want, msg, rtol=1e-5, atol=0.0, finding=None):
        """got and want agree in shape and value (NaN equal to NaN)."""
        import numpy as np
        self.events["checks"] += 1
        g = np.ma.filled(np.ma.asarray(got, dtype=float), np.nan) if not np.isscalar(got) else np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (msg, g.shape, w.shape), finding)
            return False
        self.events["values_compared"] += int(g.size)
        bad = ~((g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            j = tuple(int(x) for x in np.argwhere(bad)[0]) if bad.ndim else ()
            self.fail("%s: %d of %d differ, first at %s: got %r, expected %r" % (msg, int(bad.sum()), bad.size, j, float(g[j]), float(w[j])), finding)
            return False
        return True

    def equal(self, got, want, msg, finding=None):
        self.events["checks"] += 1
        if _plain(got) != _plain(want):
            self.fail("%s: got %s, expected %s" % (msg, _short(_plain(got)), _short(_plain(want))), finding)
            return False
        return True

    def raises(self, fn, msg, exc=Exception, finding=None):
        self.events["checks"] += 1
        try:
            r = fn()
        except exc:
            return True
        self.fail("%s: no error, returned %s" % (msg, _short(r)), finding)
        return False


def _plain(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return _plain(x.tolist())
    if isinstance(x, np.generic):
        return _plain(x.item())
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, float) and x == x and abs(x) < 1e15 and x == int(x):
        return int(x)
    return x


def _short(x):
    r = repr(x)
    return r if len(r) < 300 else r[:300] + "..."


class LineMonitor:
    """sys.monitoring tool that notes each executed line of the watched files once."""

    def __init__(self, root, files):
        self.lines = set()
        self.watch = {os.path.join(root, f): f for f in files if f.endswith(".py")}

    def start(self):
        if not self.watch or not hasattr(sys, "monitoring"):
            return
        mon = sys.monitoring
        try:
            mon.use_tool_id(4, "verif")
        except ValueError:
            return

        def on_line(code, line):
            f = self.watch.get(code.co_filename)
            if f is not None:
                self.lines.add((f, line))
            return mon.DISABLE
        mon.register_callback(4, mon.events.LINE, on_line)
        mon.set_events(4, mon.events.LINE)


def _seed(prop, seed, i):
    import numpy as np
    s = [seed, zlib.crc32(prop.encode()) & 0x7fffffff, i]
    random.seed(repr(s))
    np.random.seed(zlib.crc32(repr(s).encode()) & 0x7fffffff)
    return np.random.default_rng(s)


@contextlib.contextmanager
def _quiet(log):
    """Keeps what the code under test prints out of the check's output, native prints included."""
    so, se = os.dup(1), os.dup(2)
    sys.stdout.flush(), sys.stderr.flush()
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1), os.dup2(fd, 2)
    os.close(fd)
    try:
        yield
    finally:
        with contextlib.suppress(Exception):
            sys.stdout.flush(), sys.stderr.flush()
        os.dup2(so, 1), os.dup2(se, 2)
        os.close(so), os.close(se)


def run_case(mod, tier, seed, i, tmp, known, case_s):
    # one path for all cases of a worker: what the code remembers of a path or a name must not outlive the data there
    d = os.path.join(tmp, "w%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    m = Monitor(mod.PROP, tier, d, known)
    out = {"i": i, "status": "ok"}

    def cpu():
        return sum(os.times()[:4])
    t0, c0 = time.time(), cpu()

    def on_alarm(*a):
        # a loaded machine is no hang: once more the time while less than half of it was the case's own
        if cpu() - c0 < .5 * case_s and time.time() - t0 < 1.5 * case_s:
            signal.alarm(case_s)
            return
        raise Timeout("no result within %d s" % case_s)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case_s)
    cwd = os.getcwd()
    try:
        with _quiet(os.path.join(tmp, "log%d" % os.getpid())):
            os.chdir(d)
            mod.case(m, _seed(mod.PROP, seed, i), i)
    except SkipCase:
        out["status"] = "skip"
    except Violation as e:
        out.update(status="violation", msg=str(e))
    except (HarnessError, MemoryError) as e:
        out.update(status="error", msg=traceback.format_exc()[-1500:])
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            out.update(status="error", msg=traceback.format_exc()[-1500:])
        else:
            out.update(status="violation", msg="unexpected " + "".join(traceback.format_exception_only(type(e), e)).strip(), trace=traceback.format_exc()[-3000:])
    except Timeout as e:
        out.update(status="violation", msg="did not finish: " + str(e), trace=traceback.format_exc()[-3000:])
    except (Exception, SystemExit) as e:
        out.update(status="violation", msg="unexpected " + "".join(traceback.format_exception_only(type(e), e)).strip(), trace=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    out.update(s=round(time.time() - t0, 2), events=dict(m.events), keys=list(m.keys), trivial=m.trivial, findings=m.findings, note=m.note)
    return out


def _worker(name, tier, seed, idxs, tmp, deadline, root, known, case_s, conn):
    try:
        mod = importlib.import_module(name)
        lm = LineMonitor(root, getattr(mod, "FILES", []))
        lm.start()
        try:
            with _quiet(os.path.join(tmp, "setup%d.log" % os.getpid())):
                if hasattr(mod, "setup"):
                    mod.setup()
        except BaseException:
            conn.send({"status": "error", "i": -1, "msg": "setup: " + traceback.format_exc()[-2500:], "events": {}, "keys": [], "findings": {}, "note": {}, "trivial": True})
            return
        for k, i in enumerate(idxs):
            if time.time() > deadline:
                break
            r = run_case(mod, tier, seed, i, tmp, known, case_s)
            r["before"] = idxs[max(0, k - 12):k]
            conn.send(r)
        conn.send({"status": "done", "lines": sorted(lm.lines)})
    except BaseException:
        with contextlib.suppress(Exception):
            conn.send({"status": "error", "i": -1, "msg": "worker: " + traceback.format_exc()[-2500:], "events": {}, "keys": [], "findings": {}, "note": {}, "trivial": True})
    finally:
        conn.close()
        os._exit(0)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and not np.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main(name, tier, root, case=None, seed=None, before=()):
    import multiprocessing as mp
    from multiprocessing.connection import wait
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    mod = importlib.import_module("checks." + name)
    prop = mod.PROP
    known = _load_known()
    n = mod.N[tier]
    budget = getattr(mod, "BUDGET", {"quick": 300, "thorough": 780})[tier]
    case_s = getattr(mod, "CASE_S", 150)
    W = min(getattr(mod, "WORKERS", 8), os.cpu_count() or 8, n)
    idxs = list(range(n)) if case is None else list(before) + [case]
    if before:
        W = 1
    # replayed cases use the seed and index only, so they are the same in every tier unless the module says otherwise
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    results, lines, died = [], set(), []
    ctx = mp.get_context("fork")
    try:
        conns, procs = {}, []
        for w in range(W):
            part = [i for k, i in enumerate(idxs) if (k + k // W) % W == w]   # rotating, so that no worker gets all cases of one kind
            if not part:
                continue
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=("checks." + name, tier, seed, part, tmp, t0 + budget, root, known, case_s, b))
            p.daemon = False
            p.start()
            b.close()
            conns[a] = (p, part)
            procs.append(p)
        finished = set()
        while conns:
            for c in wait(list(conns)):
                try:
                    r = c.recv()
                except EOFError:
                    p, part = conns.pop(c)
                    p.join(10)
                    if p not in finished:
                        died.append((p.exitcode, part, [x["i"] for x in results if x["i"] in part]))
                    continue
                if r["status"] == "done":
                    finished.add(conns[c][0])
                    lines |= {tuple(x) for x in r["lines"]}
                    continue
                if r["status"] == "error" and r["i"] == -1:
                    finished.add(conns[c][0])
                results.append(r)
        for p in procs:
            p.join(10)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    for code, part, done in died:
        nxt = [i for i in part if i not in done]
        i = nxt[0] if nxt else -1
        if code == 0 or code is None or code == -9:
            results.append({"i": i, "status": "error", "msg": "worker ended early (%s)" % code, "events": {}, "keys": [], "findings": {}, "note": {}, "trivial": True})
        else:
            results.append({"i": i, "status": "violation", "msg": "the code under test ended the process (exit %s)" % code, "events": {}, "keys": [], "findings": {}, "note": {}, "trivial": True})
    results.sort(key=lambda r: r["i"])
    events = Counter()
    keys, findings = set(), {}
    for r in results:
        events.update(r["events"])
        if not r.get("trivial"):
            keys.update(r["keys"])
        for f, msg in r["findings"].items():
            findings.setdefault(f, msg)
    if before:
        results = [r for r in results if r["i"] in (case, -1)]
    viol = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] == "error"]
    ran = [r for r in results if r["status"] in ("ok", "violation")]
    samples = [jsonable(dict(case=r["i"], **r["note"])) for r in ran if r["note"]][:4]
    cov = {"evaluations": len(ran), "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": samples,
           "events_observed": dict(sorted(events.items())),
           "lines_executed_in_anchored_files": {f: len({l for g, l in lines if g == f}) for f in getattr(mod, "FILES", []) if f.endswith(".py")},
           "slowest_case_s": max([r.get("s", 0) for r in results] or [0]),
           "skipped": sum(r["status"] == "skip" for r in results), "planned": len(idxs),
           "known_findings_seen": sorted(findings)}
    for k, v in getattr(mod, "EXTRA", {}).items():
        cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if case is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmpf = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmpf, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmpf, os.path.join(HERE, "evidence", prop + ".json"))
    for f in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, f)]["what"]))
    print("%s %s seed=%d: %d cases (%d skipped), %d distinct, %d checks, %.1f s"
          % (prop, tier, seed, len(ran), cov["skipped"], len(keys), events["checks"], time.time() - t0))
    if viol:
        rd = os.path.join(HERE, "replay", prop)
        os.makedirs(rd, exist_ok=True)
        for r in viol[:5]:
            print("  case %d: %s" % (r["i"], r["msg"][:600]))
            if r.get("trace"):
                print("\n".join("    " + l for l in r["trace"].splitlines()[-8:]))
        r = viol[0]
        path = os.path.join(rd, "seed%d-case%d.json" % (seed, r["i"]))
        with open(path, "w") as f:
            json.dump(jsonable({"property": prop, "tier": tier, "seed": seed, "case": r["i"], "before": r.get("before", []), "message": r["msg"], "trace": r.get("trace"),
                                "sample": r["note"], "rerun": "bash run.sh %s --replay %s" % (prop, path)}), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        for r in errs[:5]:
            print("  case %d ERROR: %s" % (r["i"], r["msg"]))
        return 2
    if case is None and len(ran) < max(1, int(getattr(mod, "MIN_RAN", 0.3) * len(idxs))):
        print("  too few executions observed: no verdict")
        return 2
    need = getattr(mod, "NEED", ())
    missing = [e for e in need if not events[e]]
    if case is None and missing:
        print("  nothing observed of: %s: no verdict" % ", ".join(missing))
        return 2
    return 0
