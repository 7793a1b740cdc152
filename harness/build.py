"""Scratch build of the code under test: a copy of /repo's current sources with
the Cython extensions compiled next to them.  Nothing is written in /repo."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def build(dst, ext=True):
    src = os.path.join(REPO, "src", "pykrige")
    out = os.path.join(dst, "src", "pykrige")
    shutil.copytree(
        src,
        out,
        ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__", "*.pyc", "*.html"),
    )
    if not ext:
        return out
    import numpy

    pyx = sorted(
        os.path.relpath(p, os.path.join(dst, "src"))
        for p in glob.glob(os.path.join(out, "lib", "*.pyx"))
    )
    r = subprocess.run(
        [sys.executable, "-m", "cython", "-3"] + pyx,
        cwd=os.path.join(dst, "src"),
        capture_output=True,
        text=True,
    )
    if r.returncode:
        raise BuildError("cython: " + r.stdout + r.stderr)
    inc = [numpy.get_include(), sysconfig.get_paths()["include"]]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    procs = []
    for p in pyx:
        base = os.path.join(dst, "src", p[:-4])
        procs.append(
            subprocess.Popen(
                ["gcc", "-shared", "-fPIC", "-O1", "-w", "-fwrapv",
                 "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
                + ["-I" + i for i in inc]
                + [base + ".c", "-o", base + suffix, "-lm"],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )
        )
    for p in procs:
        o = p.communicate()[0]
        if p.returncode:
            raise BuildError("gcc: " + o)
    return out
