"""Copies /repo/python/xoscar into a scratch directory and compiles its .pyx files there.

usage: /opt/venv/bin/python scratch.py REPO_PYTHON DEST
"""

import os
import shutil
import subprocess
import sys

ONE = r"""
import sys, os
os.chdir(sys.argv[1])
path = sys.argv[2]
import numpy as np
from Cython.Build import cythonize
from setuptools import Extension, Distribution
name = path[:-4].replace(os.sep, ".")
macros = [("CYTHON_FAST_THREAD_STATE", "0")] if sys.version_info >= (3, 11) else []
ext = Extension(name, [path], include_dirs=[np.get_include()], define_macros=macros,
                extra_compile_args=["-O0", "-std=c++11", "-w", "-g0"] )
exts = cythonize([ext], language_level=3, quiet=True)
if exts[0].language != "c++":
    exts[0].extra_compile_args = ["-O0", "-w", "-g0"]
d = Distribution({"name": "x", "ext_modules": exts})
cmd = d.get_command_obj("build_ext")
cmd.inplace = True
cmd.build_temp = "_tmp_" + name
cmd.ensure_finalized()
cmd.run()
"""


def main(src, dest):
    shutil.copytree(
        os.path.join(src, "xoscar"),
        os.path.join(dest, "xoscar"),
        ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__", "*.o", "tests", "third_party"),
    )
    pyx = []
    for r, _, fs in os.walk(os.path.join(dest, "xoscar")):
        for f in fs:
            if f.endswith(".pyx"):
                pyx.append(os.path.relpath(os.path.join(r, f), dest))
    procs = [
        (p, subprocess.Popen([sys.executable, "-c", ONE, dest, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for p in pyx
    ]
    bad = 0
    for p, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode:
            bad = 1
            sys.stderr.write(f"building {p} failed:\n{out.decode(errors='replace')[-3000:]}\n")
    return bad


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2]))
