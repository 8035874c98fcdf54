"""Runs the project's setup.py (in the current directory) with Cython's language level at 2, as the .pyx are Python 2."""

import sys

from Cython.Compiler import Options

Options.get_directive_defaults()["language_level"] = 2
sys.path.insert(0, "")
sys.argv = ["setup.py", "build_ext", "--inplace"]
with open("setup.py", encoding="utf-8") as f:
    code = compile(f.read(), "setup.py", "exec")
exec(code, {"__name__": "__main__", "__file__": "setup.py"})
