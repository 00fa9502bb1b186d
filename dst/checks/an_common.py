"""Shared parts of the analog-information checks: codes, seams of the noise source, recording of verdicts."""
from __future__ import annotations

import contextlib
import random
import sys
from pathlib import Path

import numpy as np

from dst import gf2

PKG = "mqt.qecc.analog_information_decoding"


@contextlib.contextmanager
def replaced(**funcs):
    """replace functions of the package by name in every module that holds a reference (the seam the imports provide)"""
    import mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding
    import mqt.qecc.analog_information_decoding.simulators.quasi_single_shot_v2
    import mqt.qecc.analog_information_decoding.simulators.simulation  # noqa: F401

    undo = []
    try:
        for name, fn in funcs.items():
            known = {id(getattr(mod, name, None)) for mname, mod in list(sys.modules.items()) if mname.startswith(PKG)} - {id(None)}
            for mname, mod in list(sys.modules.items()):
                if not mname.startswith(PKG):
                    continue
                for alias, val in list(vars(mod).items()):
                    if callable(val) and (alias == name or id(val) in known):
                        undo.append((mod, alias, val))
                        setattr(mod, alias, fn)
        yield
    finally:
        for mod, name, old in undo:
            setattr(mod, name, old)


def original(name: str):
    import importlib

    for sub in ("utils.simulation_utils", "utils.data_utils"):
        mod = importlib.import_module(f"{PKG}.{sub}")
        if hasattr(mod, name):
            return getattr(mod, name)
    raise AttributeError(name)


# ---------------------------------------------------------------- matchable codes: check matrix, logicals that detect, distance

def surface(d: int):
    from dst.checks import sp_common as sp

    return sp.surface(d)


def match_code(spec: dict) -> tuple[np.ndarray, np.ndarray, int]:
    """(check matrix, logicals of the same type, smallest weight of an undetected error that flips a logical)"""
    kind, d = spec["code"], spec["d"]
    if kind in ("rep", "ring"):
        h = gf2.rep(d, kind == "ring").astype(int)
        log = np.zeros((1, d), int)
        log[0, spec.get("rot", 0) % d] = 1
        dist = d
    elif kind == "toric":
        hx, hz = gf2.hgp(gf2.rep(d, True), gf2.rep(d, True))
        lx, _ = gf2.logicals(hx, hz)
        h, log, dist = hx.astype(int), lx.astype(int), d
    elif kind == "surface":
        hx, hz = surface(d)
        lx, _ = gf2.logicals(hx, hz)
        h, log, dist = np.array(hx, int), lx.astype(int), d
    else:
        raise ValueError(kind)
    if spec.get("mix"):
        rng = random.Random(spec["mix"])
        perm = rng.sample(range(h.shape[1]), h.shape[1])
        h, log = h[:, perm], log[:, perm]
        h = h[rng.sample(range(len(h)), len(h))]
    return h, log, dist


def last(path: Path):
    import json

    return json.loads(Path(path).read_text())
