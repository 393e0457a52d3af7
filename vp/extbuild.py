"""Build caput's Cython extensions from /repo's current sources, on demand, in a scratch dir.

A meta-path finder placed before all others serves lazy stand-ins for the four extension
modules, so that a stale shared object is never used; the real module is compiled from the
current .pyx the first time one of its functions is called.
"""

from __future__ import annotations

import fcntl
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import types

REPO = os.environ.get("VP_REPO", "/repo")
EXTS = {
    "caput.util.truncate": ("caput/util/truncate.pyx", False),
    "caput.algorithms.median.weighted": ("caput/algorithms/median/weighted.pyx", True),
    "caput.astro.coordinates._spherical": ("caput/astro/coordinates/_spherical.pyx", False),
    "caput.algorithms._invert_no_zero._invert_no_zero": (
        "caput/algorithms/_invert_no_zero/_invert_no_zero.pyx",
        False,
    ),
}


def scratch():
    d = os.environ.get("VP_SCRATCH")
    if not d:
        import tempfile

        d = tempfile.mkdtemp(prefix="vp-")
        os.environ["VP_SCRATCH"] = d
        import atexit

        atexit.register(shutil.rmtree, d, True)
    return d


def cythonize(name):
    """Return (directory, generated C/C++ file) for an extension."""
    pyx, cpp = EXTS[name]
    base = os.path.join(scratch(), "ext", name)
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "mod.cpp" if cpp else "mod.c")
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            src = os.path.join(REPO, pyx)
            # Cython reads the source tree; the output goes to the scratch directory
            cmd = [sys.executable, "-m", "cython", "-3" if False else "--no-docstrings", src,
                   "-o", out + ".tmp" + (".cpp" if cpp else ".c"), "-I", REPO,
                   "-I", os.path.dirname(src)]
            if cpp:
                cmd.insert(3, "--cplus")
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError(f"cython failed for {name}:\n{p.stdout}{p.stderr}")
            os.rename(out + ".tmp" + (".cpp" if cpp else ".c"), out)
    return base, out


def includes(name):
    import numpy

    src = os.path.join(REPO, EXTS[name][0])
    return ["-I", numpy.get_include(), "-I", sysconfig.get_path("include"),
            "-I", os.path.dirname(src), "-I", REPO]


def build(name, opt="-O1"):
    base, src = cythonize(name)
    pyx, cpp = EXTS[name]
    so = os.path.join(base, name.rsplit(".", 1)[-1] + sysconfig.get_config_var("EXT_SUFFIX"))
    with open(os.path.join(base, "lock2"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            cc = ["g++", "-std=c++11"] if cpp else ["gcc"]
            flags = ["-fno-math-errno", "-fno-trapping-math", "-fopenmp"]
            cmd = [*cc, opt, "-fPIC", "-shared", "-w", *flags, *includes(name), src, "-o",
                   so + ".tmp"]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError(f"compiling {name} failed:\n{p.stderr[-3000:]}")
            os.rename(so + ".tmp", so)
    return so


def ir(name, opt="-O1", noinline=False):
    """LLVM IR text of the C/C++ which Cython generates for an extension."""
    base, src = cythonize(name)
    cpp = EXTS[name][1]
    out = os.path.join(base, "modn.ll" if noinline else "mod.ll")
    with open(os.path.join(base, "lock3"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            cmd = ["clang++" if cpp else "clang", opt, "-fno-vectorize", "-fno-slp-vectorize",
                   "-fno-unroll-loops", "-fno-math-errno", *(["-fno-inline"] * noinline), "-w", "-S", "-emit-llvm",
                   *includes(name), src, "-o", out + ".tmp"]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError(f"clang failed for {name}:\n{p.stderr[-3000:]}")
            os.rename(out + ".tmp", out)
    with open(out) as f:
        return f.read()


_real = {}


def real(name):
    if name not in _real:
        so = build(name)
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        spec = importlib.util.spec_from_file_location(name, so, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        _real[name] = mod
    return _real[name]


class LazyFunc:
    def __init__(self, mod, name):
        self._mod, self._name = mod, name
        self.__name__ = name
        self.__qualname__ = name
        self.__module__ = mod
        self.__doc__ = None

    def __call__(self, *a, **k):
        return getattr(real(self._mod), self._name)(*a, **k)


class LazyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        pub = self.__dict__["_vp_names"]
        if name in pub:
            return LazyFunc(self.__name__, name)
        return getattr(real(self.__name__), name)


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name in EXTS:
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        m = LazyModule(spec.name)
        src = open(os.path.join(REPO, EXTS[spec.name][0])).read()
        names = re.findall(r"^(?:def|cpdef\s+[\w\[\], ]*?)\s*(\w+)\s*\(", src, re.M)
        m._vp_names = set(names)
        m.__all__ = [n for n in names if not n.startswith("_")]
        m.__file__ = os.path.join(REPO, EXTS[spec.name][0])
        return m

    def exec_module(self, m):
        pass


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
