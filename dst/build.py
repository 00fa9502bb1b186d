"""Compile the C++ part of the repository's *current* working tree into a private extension module.

The object files go to a content-addressed cache outside /repo.  Seams are compiled in from the outside
(`-include seams.hpp`); nothing in /repo is touched.
"""
from __future__ import annotations

import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("DST_REPO", "/repo"))
CACHE = Path(os.environ.get("DST_BUILD", str(HERE.parent / "build")))
CORE_SRC = Path("/opt/deps/mqt_core-2.7.0")
CORE_BUILD = Path("/opt/build/py/_deps/mqt-core-build")


class BuildError(RuntimeError):
    pass


def _run(cmd: list[str]) -> None:
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-2000:] + r.stderr[-6000:])


def _sources() -> list[Path]:
    src = REPO / "src"
    return sorted(src.glob("*.cpp")) + sorted((src / "ecc").glob("*.cpp")) + sorted((src / "python").glob("*.cpp"))


def _headers() -> list[Path]:
    hs = sorted((REPO / "include").rglob("*.hpp")) + sorted((REPO / "src").rglob("*.hpp"))
    hs += sorted((REPO / "include").rglob("*.h"))
    return hs


FLAGS = [
    "-std=c++17", "-O1", "-g0", "-fPIC", "-fvisibility=hidden", "-D_GLIBCXX_ASSERTIONS",
    "-DMQT_CORE_IR_STATIC_DEFINE", "-DZ3_FOUND", "-fno-math-errno", "-fno-stack-protector", "-w",
]

WRAP = ["-Wl,--wrap=time", "-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv",
        "-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv"]


def build_extension(verbose: bool = False) -> Path:
    """Returns the path of a freshly compiled (or content-identical cached) pyqecc extension."""
    CACHE.mkdir(parents=True, exist_ok=True)
    h = hashlib.sha256()
    for f in _headers():
        h.update(str(f.relative_to(REPO)).encode() + b"\0" + f.read_bytes() + b"\0")
    for f in (HERE / "seams.hpp", HERE / "seams.cpp"):
        h.update(f.read_bytes())
    h.update(" ".join(FLAGS).encode())
    hdr = h.hexdigest()
    objs: list[tuple[Path, Path]] = []
    lib_h = hashlib.sha256(hdr.encode())
    for s in [*_sources(), HERE / "seams.cpp"]:
        k = hashlib.sha256(hdr.encode() + str(s.name).encode() + s.read_bytes()).hexdigest()[:24]
        objs.append((s, CACHE / f"obj-{s.stem}-{k}.o"))
        lib_h.update(k.encode())
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    libdir = CACHE / f"lib-{lib_h.hexdigest()[:24]}"
    lib = libdir / f"pyqecc{suffix}"
    with (CACHE / ".lock").open("w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if lib.exists():
            return lib
        inc = [
            f"-I{REPO}/include", f"-I{CORE_SRC}/include/mqt-core", f"-I{CORE_BUILD}/src/ir",
            "-isystem", sysconfig.get_path("include"),
            "-isystem", "/opt/venv/lib/python3.12/site-packages/pybind11/include",
        ]

        def one(so: tuple[Path, Path]) -> None:
            s, o = so
            if o.exists():
                return
            tmp = o.with_suffix(f".{os.getpid()}.tmp.o")
            seam = [] if s.name == "seams.cpp" else ["-include", str(HERE / "seams.hpp")]
            _run(["g++", *FLAGS, *inc, *seam, "-c", str(s), "-o", str(tmp)])
            tmp.rename(o)

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, objs))
        libdir.mkdir(exist_ok=True)
        tmp = libdir / f".tmp{os.getpid()}"
        _run(["g++", "-shared", "-O1", "-flto=auto", "-w", *WRAP, "-o", str(tmp), *[str(o) for _, o in objs],
              str(CORE_BUILD / "src/libmqt-core-python.a"), str(CORE_BUILD / "src/ir/libmqt-core-ir.a")])
        tmp.rename(lib)
        # keep the cache small
        libs = sorted((p for p in CACHE.glob("lib-*")), key=lambda p: p.stat().st_mtime)
        for old in libs[:-4]:
            shutil.rmtree(old, ignore_errors=True)
        obs = sorted((p for p in CACHE.glob("obj-*.o")), key=lambda p: p.stat().st_mtime)
        for old in obs[:-120]:
            old.unlink(missing_ok=True)
    return lib


if __name__ == "__main__":
    print(build_extension())
    sys.exit(0)
