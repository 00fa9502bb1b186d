"""Load the code under test: /repo/src (Python) plus the privately compiled extension."""
from __future__ import annotations

import ctypes
import importlib.machinery
import importlib.util
import os
import sys
import types
from pathlib import Path

from . import build

REPO = build.REPO
_ext: ctypes.CDLL | None = None


def load(with_ext: bool = True) -> None:
    global _ext
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.meta_path[:] = [f for f in sys.meta_path if "Scikit" not in type(f).__name__]
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if not (REPO / "src/mqt/qecc/_version.py").exists():
        v = types.ModuleType("mqt.qecc._version")
        v.version = "1.0.0"
        sys.modules["mqt.qecc._version"] = v
    lib = build.build_extension()
    loader = importlib.machinery.ExtensionFileLoader("mqt.qecc.pyqecc", str(lib))
    spec = importlib.util.spec_from_loader("mqt.qecc.pyqecc", loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules["mqt.qecc.pyqecc"] = mod
    _ext = ctypes.CDLL(str(lib))
    _ext.dst_seed.argtypes = [ctypes.c_uint64]
    _ext.dst_draws.restype = ctypes.c_uint64
    _ext.dst_clock_reads.restype = ctypes.c_uint64
    _ext.dst_set_clock.argtypes = [ctypes.c_int64, ctypes.c_int64]
    _ext.dst_clock_faults.argtypes = [ctypes.c_uint64, ctypes.c_int64, ctypes.c_uint64, ctypes.c_int64]
    _ext.dst_clock_steps.restype = ctypes.c_uint64
    import mqt.qecc  # noqa: F401

    f = Path(sys.modules["mqt.qecc"].__file__).resolve()
    assert f.is_relative_to(REPO.resolve()), f


def ext() -> ctypes.CDLL:
    assert _ext is not None
    return _ext
