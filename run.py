"""python run.py CXX [quick|thorough] [--case I] [--seed S] [--replay FILE]   builds from /repo's working tree and runs one check."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
sys.path.insert(0, HERE)
import build  # noqa: E402


def main():
    a = sys.argv[1:]
    name = a.pop(0)
    tier, case, seed, before = os.environ.get("VERIF_TIER", "quick"), None, None, []
    while a:
        x = a.pop(0)
        if x == "--case":
            case = int(a.pop(0))
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--replay":
            d = json.load(open(a.pop(0)))
            case, seed, tier = d["case"], d["seed"], d["tier"]
            before = d.get("before", [])
        else:
            tier = x
    try:
        kinds = json.loads(os.environ.get("VERIF_NEEDS", "null")) or needs(name)
        root = build.py()
        dirs = {"py": root}
        for k in kinds:
            dirs[k] = getattr(build, k)()
    except build.BuildError as e:
        print("build failed: %s" % e)
        return 2
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               VERIF_TREE=root, VERIF_DIRS=json.dumps(dirs), TZ=os.environ.get("VERIF_TZ", "UTC"),
               PYTHONPATH=os.pathsep.join([HERE, os.path.join(HERE, "vlib"), os.path.join(root, "harmonisation_eiv")]))
    env.pop("PYTHONHOME", None)
    code = "import sys,harness\na=(%r,%r,%r,%r,%r)\nb=%r\nsys.exit(harness.main(*a) or (harness.main(*a,before=b) if b else 0))" % (name, tier, root, case, seed, before)
    sys.stdout.flush()
    os.execve(build.PY, [build.PY, "-W", "ignore", "-c", code], env)


def needs(name):
    import re
    t = open(os.path.join(HERE, "checks", name + ".py")).read()
    m = re.search(r"^BUILDS = (\[.*\])$", t, re.M)
    return json.loads(m.group(1).replace("'", '"')) if m else []


sys.exit(main())
