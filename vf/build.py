"""Builds the extension modules from /repo's current working tree into a scratch folder
and makes `import implicit` use /repo's Python files with those modules.

Runs under /opt/venv/bin/python.  The modules are keyed by the hash of everything that
goes into them (the .pyx, every header / .pxd / .pxi of the package, and the flags), so a
stale module can never be imported."""
import concurrent.futures
import glob
import hashlib
import importlib.abc
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache", "ext"))
DIRECTIVES = "always_allow_keywords=True,binding=True,embedsignature=True,language_level=3"
OPT = ["-O1", "-std=gnu++11", "-fPIC", "-fopenmp", "-w"]
ASAN = ["-O1", "-g1", "-std=gnu++11", "-fPIC", "-fopenmp", "-w", "-fsanitize=address",
        "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]


class BuildError(Exception):
    pass


def modules():
    """{dotted module name: pyx path} for the CPU extension modules of the current tree"""
    out = {}
    for p in sorted(glob.glob(os.path.join(REPO, "implicit", "**", "*.pyx"), recursive=True)):
        rel = os.path.relpath(p, REPO)[:-4]
        if rel.startswith("implicit/gpu/"):
            continue
        out[rel.replace(os.sep, ".")] = p
    return out


def _key(pyx, flags):
    h = hashlib.sha256()
    deps = [pyx]
    for ext in ("h", "hpp", "pxd", "pxi", "cuh"):
        deps += glob.glob(os.path.join(REPO, "implicit", "**", "*." + ext), recursive=True)
    for d in sorted(set(deps)):
        h.update(os.path.relpath(d, REPO).encode())
        with open(d, "rb") as f:
            h.update(f.read())
    h.update(" ".join(flags).encode())
    h.update(DIRECTIVES.encode())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def _build_one(name, pyx, flags):
    import numpy
    key = _key(pyx, flags)
    outdir = os.path.join(CACHE, key)
    base = name.rsplit(".", 1)[-1]
    so = os.path.join(outdir, base + sysconfig.get_config_var("EXT_SUFFIX"))
    if os.path.exists(so):
        return so
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b.", dir=CACHE)
    try:
        cxx = os.path.join(tmp, base + ".cxx")
        r = subprocess.run(
            [os.path.join(os.path.dirname(sys.executable), "cython"), "--cplus", "--include-dir",
             REPO, "--directive", DIRECTIVES, pyx, "--output-file", cxx],
            capture_output=True, text=True, cwd=tmp)
        if r.returncode:
            raise BuildError(f"cython failed on {pyx}:\n{r.stdout}\n{r.stderr}")
        o = os.path.join(tmp, os.path.basename(so))
        r = subprocess.run(
            ["/usr/bin/g++", *flags, "-shared", "-I", REPO, "-I", numpy.get_include(), "-I",
             sysconfig.get_path("include"), "-I", "/usr/include/python3.12", cxx, "-o", o],
            capture_output=True, text=True, cwd=tmp)
        if r.returncode:
            raise BuildError(f"g++ failed on {pyx}:\n{r.stderr[-4000:]}")
        os.unlink(cxx)
        try:
            os.rename(tmp, outdir)
        except OSError:
            if not os.path.exists(so):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def build(flags=None, only=None):
    flags = flags or OPT
    mods = modules()
    if only:
        mods = {k: v for k, v in mods.items() if k in only}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = {m: ex.submit(_build_one, m, p, flags) for m, p in mods.items()}
        return {m: f.result() for m, f in futs.items()}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sos):
        self.sos = sos

    def find_spec(self, name, path=None, target=None):
        if name in self.sos:
            return importlib.util.spec_from_file_location(name, self.sos[name])
        if name.startswith("implicit.gpu._cuda"):
            return None
        return None


def activate(flags=None):
    """build and make `import implicit` resolve to the working tree + the built modules"""
    sys.dont_write_bytecode = True
    sos = build(flags)
    sys.meta_path.insert(0, Finder(sos))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return sos


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(ASAN if "asan" in sys.argv else OPT))
    print("%.1fs" % (time.time() - t))
