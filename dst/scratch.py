"""Per-process scratch directories and file-system faults, confined to a directory the check owns."""
from __future__ import annotations

import contextlib
import os
import shutil
import tempfile
from pathlib import Path

_BASE: Path | None = None


def base() -> Path:
    global _BASE
    if _BASE is None or not str(_BASE).endswith(f"-{os.getpid()}"):
        root = Path(os.environ.get("DST_SCRATCH", tempfile.gettempdir()))
        _BASE = root / f"dst-{os.getpid()}"
    return _BASE


@contextlib.contextmanager
def scratch(cwd: bool = False):
    d = base()
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    old = os.getcwd()
    if cwd:
        os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
