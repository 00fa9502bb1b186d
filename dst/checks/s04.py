"""S04: lookup-table decoding returns a lightest error for every syndrome, whatever was asked before."""
from __future__ import annotations

import random

import numpy as np

from dst import gf2
from dst.checks import sp_common as sp
from dst.core import Outcome, digest

PROPERTY = "S04"
LEVEL = "exploration"
RULE = ("one run = one code (seeded family, qubit order, generators, sometimes redundant ones) and a seeded history of table constructions, single and "
        "batch decodings of both sides on one to two decoder instances, with syndromes of random errors in different integer types; "
        "non-trivial = at least one decoding was compared with the exact minimum weight")
REAL = ["lookup-table decoder, CSS code class"]
STUB = ["noise process: errors and the order of requests drawn by the simulator"]
STATE_MEASURE = "distinct (code, side, syndrome) decoded"
HANG_S = 120
FAMS = [f for f in sp.FAMILIES if f != "hex5"]
SMALL = [f for f in FAMS if f not in ("tetrahedral", "tetrahedral-dual", "hamming", "shor35")]


def budget(tier: str) -> int:
    return 900 if tier == "quick" else 12000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    fam = rng.choice(SMALL) if index % 12 else rng.choice(FAMS)
    if rng.random() < 0.3:
        fam = "random"
    sc = {"family": fam, "rand": rng.getrandbits(30), "mix": rng.choice([0, rng.getrandbits(30), rng.getrandbits(30)]), "redundant": rng.choice([0, 0, 0, 1, 2]),
          "init": [rng.random() < 0.4 for _ in range(rng.choice([1, 1, 2]))], "rs": rng.getrandbits(40), "hist": []}
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(["x", "z", "x", "z", "bx", "bz", "gx", "gz"])
        sc["hist"].append([rng.randrange(len(sc["init"])), k, rng.choice(["int8", "int8", "int64", "uint8", "int32"]), rng.randint(1, 12),
                           rng.choice([1, 2, 3, 99]), rng.getrandbits(30)])
    return sc


_shrink = ("hist",)


def random_code(seed: int):
    """checks of an arbitrary CSS code with a logical qubit: up to one qubit less checks, also only of one side, of any weights"""
    r = random.Random(seed)
    n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 12])
    while True:
        r1 = r.randint(1, n - 1)
        dens = r.choice([0.1, 0.25, 0.5])
        if r.random() < 0.3:  # checks on (almost) separate qubits: heavy lightest errors
            a = np.zeros((r1, n), int)
            for i in range(r1):
                a[i, i] = 1
            for _ in range(r.choice([0, 1, 3])):
                a[r.randrange(r1), r.randrange(n)] ^= 1
            a = a[:, r.sample(range(n), n)]
        else:
            a = np.array([[int(r.random() < dens) for _ in range(n)] for _ in range(r1)])
        a = gf2.rref(a)[0][:gf2.rank(a)] if r.random() < 0.3 else a[[bool(row.any()) for row in a]]
        ra = gf2.rank(a) if len(a) else 0
        if not len(a) or ra >= n:
            continue
        ker = gf2.kernel(a)
        b = np.array([ker[[r.random() < 0.5 for _ in ker]].sum(0) % 2 for _ in range(r.randint(0, max(0, n - ra - 1)))]).reshape(-1, n)
        b = b[[bool(row.any()) for row in b]] if len(b) else b
        if ra + (gf2.rank(b) if len(b) else 0) < n:
            return (a, b) if r.random() < 0.5 else (b, a)


def run(sc: dict) -> Outcome:
    from mqt.qecc.codes import CSSCode
    from mqt.qecc.ft_stateprep import LutDecoder

    out = Outcome()
    rng = random.Random(sc["rs"])
    rand = sc["family"] == "random"
    hx, hz = random_code(sc["rand"]) if rand else sp.matrices(sc)
    n = hx.shape[1]
    for _ in range(sc["redundant"]):
        if len(hx) and (rng.random() < 0.5 or not len(hz)):
            hx = np.vstack([hx, hx[rng.randrange(len(hx))] ^ hx[0]])
        else:
            hz = np.vstack([hz, hz[rng.randrange(len(hz))] ^ hz[-1]])
    _, d, dx, dz = (None, 1, 1, 1) if rand else sp.FAMILIES[sc["family"]]
    code = CSSCode(d, hx.astype(np.int8) if len(hx) else None, hz.astype(np.int8) if len(hz) else None, x_distance=dx, z_distance=dz)
    where = f"{sc['family']} code on {n} qubits (mix {sc['mix']}, {len(hx)} X checks, {len(hz)} Z checks)"
    decs = [LutDecoder(code, init_luts=i) for i in sc["init"]]
    # exact minimum weight of an error with a given syndrome = weight of the coset of the kernel
    minw = {"x": sp.coset_weight(gf2.kernel(hz), n), "z": sp.coset_weight(gf2.kernel(hx), n)}
    hs = {"x": hz, "z": hx}
    for step, (i, op, dt, num, w, seed) in enumerate(sc["hist"]):
        r = np.random.default_rng(seed)
        side = op[-1]
        dec = decs[i % len(decs)]
        if op[0] == "g":
            getattr(dec, f"generate_{side}_lut")()
            continue
        errs = np.zeros((num if op[0] == "b" else 1, n), int)
        for e in errs:
            e[r.choice(n, size=min(n, int(r.integers(0, min(w, n) + 1))), replace=False)] = 1
        syn = (errs @ hs[side].T % 2).astype(dt)
        try:
            if op[0] == "b":
                est = np.asarray(getattr(dec, f"batch_decode_{side}")(syn))
            else:
                est = np.asarray(getattr(dec, f"decode_{side}")(syn[0]))[None]
        except Exception as e:  # noqa: BLE001
            out.bad("failed", f"{where}: request {step} ({op}, {dt}) for the syndrome of an actual error failed with {type(e).__name__}: {e}")
            return out
        if est.shape != errs.shape:
            out.bad("shape", f"{where}: request {step} ({op}): answer of shape {est.shape} for {len(errs)} syndromes on {n} qubits")
            return out
        got = est.astype(int) % 2
        best = minw[side](errs.T)
        for k in range(len(errs)):
            out.states.add(digest([sc["family"], sc["rand"] if rand else sc["mix"], side, syn[k].tolist()]))
            if (hs[side] @ got[k] % 2 != syn[k]).any():
                out.bad("wrong-syndrome", f"{where}: request {step} ({op}): correction {np.nonzero(got[k])[0].tolist()} does not have the {side.upper()}-error "
                                          f"syndrome {syn[k].tolist()}")
                return out
            if got[k].sum() > best[k]:
                out.bad("not-lightest", f"{where}: request {step} ({op}): correction of weight {got[k].sum()} for syndrome {syn[k].tolist()}, "
                                        f"weight {best[k]} suffices")
                return out
        out.add("fault:error-pattern", len(errs))
        out.nontrivial = True
    out.log = digest([sc["hist"], sorted(out.states)])
    return out


def shrink(sc: dict):
    if sc["mix"]:
        yield {**sc, "mix": 0}
    if sc["redundant"]:
        yield {**sc, "redundant": 0}
    if len(sc["init"]) > 1:
        yield {**sc, "init": sc["init"][:1]}
