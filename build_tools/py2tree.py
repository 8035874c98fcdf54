"""Mirrors the project's Python 2 code from /repo into a Python 3 tree.

    python py2tree.py SRC DST NAME [NAME ...]

Every file under SRC/NAME is mirrored to DST/NAME: *.py goes through the standard library's lib2to3, anything else is
copied as it is. Only files whose content changed are done again; what has gone from SRC goes from DST. A file that does
not convert or does not compile raises a SyntaxError in DST, too. Exit 1 if there was one."""

import hashlib
import json
import os
import shutil
import sys
import warnings

warnings.simplefilter("ignore")
from lib2to3 import refactor  # noqa: E402
from lib2to3.fixes import fix_asserts, fix_import  # noqa: E402

FIXERS = refactor.get_fixers_from_package("lib2to3.fixes")
# unittest's old names, gone in 3.12 (assertEquals ...); the rest of the optional fixers are off. assertItemsEqual is
# Python 2's name of assertCountEqual, which lib2to3 does not know.
OPTIONAL = ["lib2to3.fixes.fix_asserts"]
fix_asserts.NAMES["assertItemsEqual"] = "assertCountEqual"
fix_asserts.FixAsserts.PATTERN = fix_asserts.FixAsserts.PATTERN.replace(
    "meth=(", "meth=('assertItemsEqual'|", 1
)


def local_import(self, name):
    """As in lib2to3, but knows that a .pyx is a module, too."""
    folder, name = os.path.dirname(self.filename), name.split(".", 1)[0]
    if not name or not os.path.exists(os.path.join(folder, "__init__.py")):
        return False
    return any(os.path.exists(os.path.join(folder, name + ext)) for ext in (".py", ".pyx", os.sep))


fix_import.FixImport.probably_a_local_import = local_import
SKIP_DIRS = {"build", "__pycache__", ".pytest_cache", ".ipynb_checkpoints"}
# What the build and the tests make in DST next to the mirrored files.
SKIP_EXT = (".pyc", ".pyd", ".so", ".c", ".o")

src, dst, names = sys.argv[1], sys.argv[2], sys.argv[3:]
state_file = os.path.join(dst, ".state.json")
with open(__file__, "rb") as f:
    salt = f.read()
try:
    with open(state_file) as f:
        old = json.load(f)
except (OSError, ValueError):
    old = {}



def same(path, data):
    with open(path, "rb") as f:
        return f.read() == data


new, bad, tool, done = {}, [], None, 0
for name in names:
    for folder, dirs, files in os.walk(os.path.join(src, name)):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith(".egg-info"))
        for file in sorted(files):
            if file.endswith(SKIP_EXT):
                continue
            path = os.path.join(folder, file)
            rel = os.path.relpath(path, src)
            out = os.path.join(dst, rel)
            with open(path, "rb") as f:
                data = f.read()
            # The import fixer looks at the neighbours, so their names count too.
            key = salt + data
            if file.endswith(".py"):
                key += "\0".join(dirs + [f for f in sorted(files) if not f.endswith(SKIP_EXT)]).encode()
            digest = hashlib.sha256(key).hexdigest()
            # The tests may write to what is copied (the datasets), so that is compared, too.
            if old.get(rel) == digest and os.path.exists(out) and (file.endswith(".py") or same(out, data)):
                new[rel] = digest
                continue
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if os.path.exists(out):
                os.remove(out)
            done += 1
            if not file.endswith(".py"):
                shutil.copyfile(path, out)
                new[rel] = digest
                continue
            try:
                text = data.decode("utf-8").replace("\r\n", "\n")
                if text.strip():
                    tool = tool or refactor.RefactoringTool(FIXERS + OPTIONAL, {}, explicit=OPTIONAL)
                    text = str(tool.refactor_string(text if text.endswith("\n") else text + "\n", path))
                compile(text, path, "exec")
            except Exception as e:
                print(f"ERROR {path}: {type(e).__name__}: {e}", file=sys.stderr)
                bad.append(rel)
                text = f"raise SyntaxError({f'{path}: {e}'!r})\n"
            else:
                new[rel] = digest
            with open(out, "w", encoding="utf-8") as f:
                f.write(text)

for name in names:
    for folder, dirs, files in os.walk(os.path.join(dst, name), topdown=False):
        for file in files:
            path = os.path.join(folder, file)
            rel = os.path.relpath(path, dst)
            if rel not in new and rel not in bad and not file.endswith(SKIP_EXT) and os.sep + "build" + os.sep not in path:
                os.remove(path)

os.makedirs(dst, exist_ok=True)
with open(state_file, "w") as f:
    json.dump(new, f, indent=0, sort_keys=True)
print(f"{done} file(s) mirrored anew, {len(new)} in all, {len(bad)} bad")
sys.exit(bool(bad))
