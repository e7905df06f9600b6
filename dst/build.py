"""Build what a check needs from the working tree of the repository.

Nothing is written in the repository: the extension modules are compiled in a
scratch copy and kept, by content hash, under /verif/.build.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
EXTS = ("correspond_pixels", "nms")
SRC = (".pyx", ".pxd", ".pxi", ".cc", ".cpp", ".c", ".h", ".hh", ".hpp")


class BuildError(Exception):
    pass


def _sources():
    lib = os.path.join(REPO, "pyEdgeEval", "_lib")
    out = []
    for d, ds, fs in os.walk(lib):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(SRC):
                continue
            if d == lib and f in ("correspond_pixels.cpp", "nms.cpp"):
                continue  # generated by Cython
            out.append(p)
    for f in ("setup.py", "pyproject.toml", "setup.cfg", "pyEdgeEval/info.py"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}
    e.update(HOME="/root", PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             CC="/usr/bin/gcc", CXX="/usr/bin/g++", LANG="C.UTF-8")
    return e


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            data = f.read()
        h.update(os.path.basename(p).encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:24]


def _locked(name, make):
    os.makedirs(BUILD, exist_ok=True)
    final = os.path.join(BUILD, name)
    if os.path.exists(os.path.join(final, "ok")):
        return final
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            return final
        shutil.rmtree(final, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix=name + ".", dir=BUILD)
        try:
            make(tmp)
            open(os.path.join(tmp, "ok"), "w").close()
            os.rename(tmp, final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return final


def build_libsim():
    src = os.path.join(VERIF, "dst", "libsim.c")

    def make(tmp):
        r = subprocess.run(["/usr/bin/gcc", "-shared", "-fPIC", "-O2", "-Wno-nonnull-compare",
                            "-o", os.path.join(tmp, "libsim.so"), src, "-ldl"],
                           env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    return os.path.join(_locked("libsim-" + _hash([src]), make), "libsim.so")


def build_ext():
    """Compile the extensions of the working tree; returns {module: path}."""
    srcs = _sources()

    def make(tmp):
        scratch = tempfile.mkdtemp(prefix="verif-ext-")
        try:
            for p in srcs:
                rel = os.path.relpath(p, REPO)
                os.makedirs(os.path.dirname(os.path.join(scratch, rel)), exist_ok=True)
                shutil.copyfile(p, os.path.join(scratch, rel))
            for d in ("pyEdgeEval", "pyEdgeEval/_lib"):
                open(os.path.join(scratch, d, "__init__.py"), "a").close()
            for f in ("README.md", "requirements.txt", "requirements-dev.txt"):
                if os.path.exists(os.path.join(REPO, f)):
                    shutil.copyfile(os.path.join(REPO, f), os.path.join(scratch, f))
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=scratch, env=_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            made = os.listdir(os.path.join(scratch, "pyEdgeEval", "_lib"))
            for m in EXTS:
                so = [f for f in made if f.startswith(m + ".") and f.endswith(".so")]
                if r.returncode or not so:
                    raise BuildError("extension build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
                shutil.copyfile(os.path.join(scratch, "pyEdgeEval", "_lib", so[0]), os.path.join(tmp, so[0]))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    d = _locked("ext-" + _hash(srcs), make)
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".so"):
            out["pyEdgeEval._lib." + f.split(".")[0]] = os.path.join(d, f)
    # keep the cache small
    keep = sorted((n for n in os.listdir(BUILD) if n.startswith("ext-") and not n.endswith(".lock")),
                  key=lambda n: os.path.getmtime(os.path.join(BUILD, n)))
    if len(keep) > 40:
        for n in keep[:-40]:
            if os.path.join(BUILD, n) != d:
                shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
    return out


if __name__ == "__main__":
    print(build_libsim())
    print(build_ext())
