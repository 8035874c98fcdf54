"""Builds what the checks need from /repo's current working tree, in /verif/.build (git-ignored), keyed by content.

py()      -> tree with harmonisation_eiv, tools mirrored to Python 3 and the Cython extensions compiled
fortran() -> directory with the native modules, demo and the drivers of /verif/native compiled with sanitizers
cysan()   -> directory tree in which the Cython extensions are compiled with sanitizers
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
PY = "/opt/venv/bin/python"
SKIP_DIRS = {"build", "__pycache__", ".pytest_cache", ".ipynb_checkpoints", "data", "training"}


class BuildError(Exception):
    pass


def _digest(paths, extra=()):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
                files += [os.path.join(d, f) for f in sorted(fs)
                          if not f.endswith((".pyc", ".so", ".c", ".o", ".nc", ".png"))]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    for e in extra:
        h.update(str(e).encode() + b"\0")
    return h.hexdigest()[:20]


def _run(argv, cwd, log, env=None, timeout=800):
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    r = subprocess.run(argv, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    with open(log, "ab") as f:
        f.write(r.stdout)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(argv)[:200], r.stdout.decode("utf-8", "replace")[-3000:]))


def _cached(kind, key, make):
    os.makedirs(BUILD, exist_ok=True)
    dst = os.path.join(BUILD, kind + "-" + key)
    with open(os.path.join(BUILD, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, ".ok")):
            return dst
        olds = sorted((d for d in os.listdir(BUILD) if d.startswith(kind + "-")),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-6]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = os.path.join(BUILD, "tmp-%s-%d" % (kind, os.getpid()))
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(tmp)
        seed = os.path.join(BUILD, olds[-1]) if olds else None
        try:
            make(tmp, seed)
            open(os.path.join(tmp, ".ok"), "w").close()
            os.rename(tmp, dst)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


def _mirror(tmp, log, seed=None):
    if seed:
        for n in ("harmonisation_eiv", "tools"):
            if os.path.isdir(os.path.join(seed, n)):
                shutil.copytree(os.path.join(seed, n), os.path.join(tmp, n), copy_function=shutil.copyfile,
                                ignore=lambda d, ns: [x for x in ns if x in ("build", "__pycache__") or x.endswith((".so", ".c"))])
        shutil.copyfile(os.path.join(seed, ".state.json"), os.path.join(tmp, ".state.json"))
    _run([PY, "-W", "ignore", os.path.join(HERE, "build_tools/py2tree.py"), REPO, tmp, "harmonisation_eiv", "tools"], tmp, log)


def _pyx():
    pyx = []
    for d, ds, fs in os.walk(os.path.join(REPO, "harmonisation_eiv")):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        pyx += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".pyx", ".pxd")) or f == "setup.py"]
    return pyx


def _extensions(tmp, log, kind, env):
    """Puts the compiled extensions into the mirrored tree at tmp; compiles them only when a .pyx changed."""
    ckey = _digest(_pyx(), ["v5", env])

    def make(etmp, seed):
        _run([PY, "-W", "ignore", os.path.join(HERE, "build_tools/setup_ext.py")], os.path.join(tmp, "harmonisation_eiv"), log, env=env)
        shutil.rmtree(os.path.join(tmp, "harmonisation_eiv", "build"), ignore_errors=True)
        n = 0
        for d, ds, fs in os.walk(os.path.join(tmp, "harmonisation_eiv")):
            for f in fs:
                if f.endswith(".so"):
                    rel = os.path.relpath(os.path.join(d, f), tmp)
                    os.makedirs(os.path.dirname(os.path.join(etmp, rel)), exist_ok=True)
                    shutil.copy2(os.path.join(d, f), os.path.join(etmp, rel))
                    n += 1
        if not n:
            raise BuildError("no extension was built")

    ext = _cached(kind, ckey, make)
    for d, ds, fs in os.walk(ext):
        for f in fs:
            if f.endswith(".so"):
                shutil.copy2(os.path.join(d, f), os.path.join(tmp, os.path.relpath(os.path.join(d, f), ext)))


def _pykey(tag):
    paths = [os.path.join(REPO, "harmonisation_eiv"), os.path.join(REPO, "tools")]
    return _digest(paths, [open(os.path.join(HERE, "build_tools/py2tree.py")).read(), tag])


def py():
    def make(tmp, seed):
        log = os.path.join(tmp, "build.log")
        _mirror(tmp, log, seed)
        _extensions(tmp, log, "ext", {})

    return _cached("py", _pykey("v5"), make)


def cysan():
    """As py(), with the Cython extensions compiled with ASan+UBSan."""
    flags = "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -w"

    def make(tmp, seed):
        log = os.path.join(tmp, "build.log")
        _mirror(tmp, log, seed)
        _extensions(tmp, log, "sanext", {"CFLAGS": flags, "LDFLAGS": "-fsanitize=address,undefined"})

    return _cached("cysan", _pykey("v4s"), make)


SANITIZED = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fcheck=bounds,do,mem", "-fno-omit-frame-pointer"]
PLAIN = ["-O0", "-g"]


def fortran():
    """The native modules and demo with ASan/UBSan and bounds checks, plus /verif/native/*.F90 drivers."""
    return _native("f", SANITIZED)


def plain():
    """The same without sanitizers, for valgrind."""
    return _native("plain", PLAIN)


def _native(kind, options):
    demo = os.path.join(REPO, "harmonisation_meiv_demo")
    paths = [os.path.join(demo, "CMakeLists.txt"), os.path.join(demo, "src/main")]
    paths += [os.path.join(HERE, "native")]
    key = _digest(paths, ["f7"] + options)

    def make(tmp, seed):
        log = os.path.join(tmp, "build.log")
        shutil.copytree(os.path.join(demo, "src/main/fortran/gpl"), os.path.join(tmp, "gpl"))
        # the one configured source file, as cmake would produce it
        fl = os.path.join(demo, "src/main/fortran-filtered/gpl")
        cm = open(os.path.join(demo, "CMakeLists.txt")).read()
        pm = re.search(r"project\(\s*(\S+)\s+VERSION\s+(\S+)", cm)
        known = {"PROJECT_NAME": pm.group(1) if pm else "project", "PROJECT_VERSION": pm.group(2) if pm else "0"}
        for n in ("tag", "url"):
            m = re.search(r"project_%s\(\s*(\S+?)\s*\)" % n, cm)
            known["PROJECT_" + n.upper()] = m.group(1) if m else n

        def var(n):
            return known.get(n, n)
        for f in sorted(os.listdir(fl)):
            t = open(os.path.join(fl, f)).read()
            t = re.sub(r"@([A-Z]\w*)@", lambda m: var(m.group(1)), t)
            open(os.path.join(tmp, "gpl", f), "w").write(t)
        src = sorted(f for f in os.listdir(os.path.join(tmp, "gpl")) if f.endswith(".F90"))
        mods = {}
        uses = {}
        for f in src:
            t = open(os.path.join(tmp, "gpl", f), errors="replace").read()
            for m in re.findall(r"^\s*module\s+(?!procedure\b)(\w+)\s*$", t, re.I | re.M):
                mods[m.lower()] = f
            uses[f] = {m.lower() for m in re.findall(r"^\s*use\s+(\w+)", t, re.I | re.M)}
        order = []
        def visit(f, stack=()):
            if f in order or f in stack:
                return
            for u in sorted(uses[f]):
                if u in mods and mods[u] != f:
                    visit(mods[u], stack + (f,))
            order.append(f)
        for f in src:
            visit(f)
        flags = ["-cpp", "-w", "-ffree-line-length-none", "-I/usr/include"] + options
        import concurrent.futures as cf
        import json
        text = {f: open(os.path.join(tmp, "gpl", f), "rb").read() for f in src}

        def deps(f, acc=None):
            acc = acc if acc is not None else set()
            if f not in acc:
                acc.add(f)
                for u in uses[f]:
                    if u in mods:
                        deps(mods[u], acc)
            return acc

        # A header pulled in by #include counts for every module.
        inc = b"".join(open(os.path.join(tmp, "gpl", f), "rb").read()
                       for f in sorted(os.listdir(os.path.join(tmp, "gpl"))) if not f.endswith(".F90"))
        sig = {f: hashlib.sha256(b"\0".join([text[d] for d in sorted(deps(f))] + [inc, " ".join(flags).encode()])).hexdigest()
               for f in src}
        have = {}
        if seed:
            try:
                have = json.load(open(os.path.join(seed, "objs.json")))
            except (OSError, ValueError):
                pass
        smods = {f: [m for m, g in mods.items() if g == f] for f in src}
        objs = [f[:-4] + ".o" for f in order if f != "demo.F90"]
        todo = []
        for f in order:
            if f == "demo.F90":
                continue
            parts = [f[:-4] + ".o"] + [m + ".mod" for m in smods[f]]
            if have.get(f) == sig[f] and all(os.path.exists(os.path.join(seed, p)) for p in parts):
                for p in parts:
                    shutil.copyfile(os.path.join(seed, p), os.path.join(tmp, p))
            else:
                todo.append(f)
        with cf.ThreadPoolExecutor(8) as ex:
            fut = {}

            def comp(f):
                for u in sorted(uses[f]):
                    if u in mods and mods[u] != f and mods[u] in fut:
                        fut[mods[u]].result()
                _run(["gfortran", *flags, "-c", os.path.join("gpl", f), "-o", f[:-4] + ".o"], tmp, log)

            for f in todo:     # in dependency order, so a worker only waits for work that has begun
                fut[f] = ex.submit(comp, f)
            for f in todo:
                fut[f].result()
        json.dump(sig, open(os.path.join(tmp, "objs.json"), "w"))

        def link(srcf, out):
            _run(["gfortran", *flags, srcf, *objs, "-o", out, "-lnetcdff", "-lnetcdf"], tmp, log)
        jobs = [(os.path.join("gpl", "demo.F90"), "demo")]
        nat = os.path.join(HERE, "native")
        for f in sorted(os.listdir(nat)) if os.path.isdir(nat) else []:
            if f.endswith(".F90"):
                jobs.append((os.path.join(nat, f), f[:-4]))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: link(*j), jobs))
        _run(["gcc", "-shared", "-fPIC", "-O1", os.path.join(nat, "faults.c"), "-o", "faults.so", "-ldl"], tmp, log)

    return _cached(kind, key, make)


if __name__ == "__main__":
    print(py())
    if "all" in sys.argv[1:]:
        print(fortran())
        print(cysan())
        print(plain())
