"""Runs the sanitized native programs and reads what they report."""
import os
import re
import subprocess
import sys

ASAN = "detect_leaks=0:exitcode=99:halt_on_error=1:abort_on_error=0:allocator_may_return_null=0"
UBSAN = "print_stacktrace=1:exitcode=98:halt_on_error=1"
MEMORY = re.compile(r"AddressSanitizer|(?<!Fortran )\bruntime error: |Fortran runtime error: (Index|Array bound|Dimension|Substring|Array reference|"
                    r"Loop iterates|Attempt to DEALLOCATE|Array dimension)|SIGSEGV|SIGABRT|SIGFPE|SIGBUS|SIGILL|stack smashing|"
                    r"double free|free\(\): invalid|malloc\(\)|corrupt")


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def memory_error(self):
        """The line that tells of a memory error, undefined behaviour or a crash, or None."""
        for line in (self.err + "\n" + self.out).splitlines():
            if MEMORY.search(line) and not line.startswith("name ["):
                if "Fortran runtime error" in line or ": runtime error:" in line or "Sanitizer" in line or "SIG" in line \
                        or "free" in line or "malloc" in line or "smash" in line or "corrupt" in line:
                    return line.strip()[:300]
        if self.rc < 0 or self.rc in (98, 99, 128 + 6, 128 + 7, 128 + 8, 128 + 11):
            return "ended with status %d: %s" % (self.rc, self.err[-300:])
        return None

    @property
    def reported(self):
        """An error was reported in words and by the exit status."""
        return self.rc > 0 and not self.memory_error and bool(
            re.search(r"error", self.err + self.out, re.I))

    def tail(self):
        return ("rc=%d %s" % (self.rc, (self.err.strip() or self.out.strip())[-400:])).replace("\n", " / ")


def dirs(which="fortran"):
    import json
    return json.loads(os.environ["VERIF_DIRS"])[which]


def run(prog, text, cwd, timeout=60, env=None):
    e = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN)
    e.update(env or {})
    r = subprocess.run([prog], input=text.encode(), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if os.environ.get("VERIF_KEEP"):
        with open(os.environ["VERIF_KEEP"], "ab") as f:
            f.write(b"== rc %d\n" % r.returncode + r.stdout + r.stderr)
    return Run(r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace"))


def vdrv(text, cwd, timeout=60):
    return run(os.path.join(dirs(), "vdrv"), text, cwd, timeout)


def parse(out):
    """The reports of the driver, one list of (key, values) per command."""
    groups, cur = [], []
    for line in out.splitlines():
        k, _, rest = line.partition(" ")
        rest = rest.lstrip()
        if rest.startswith("["):
            v = rest[1:rest.rindex("]")] if rest.endswith("]") else None
            if k == "done":
                groups.append((v, cur))
                cur = []
                continue
            if v is not None:
                cur.append((k, v))
            continue
        p = rest.split()
        try:
            n = int(p[0])
            vals = [_num(x) for x in p[1:]]
        except (ValueError, IndexError):
            continue           # log messages of the code
        if len(vals) == n:
            cur.append((k, vals))
    return groups


def _num(x):
    try:
        return int(x)
    except ValueError:
        return float(x)


def line(vals):
    """One line of list-directed input."""
    return " ".join(_txt(v) for v in vals)


def _txt(v):
    if isinstance(v, str):
        return "'" + v.replace("'", "''") + "'"
    if isinstance(v, float):
        return repr(v)
    if hasattr(v, "dtype") and v.dtype.kind == "f":
        return repr(float(v))
    return str(int(v))
