"""Shared parts of the state-preparation checks: codes, circuit walking, Pauli-frame fault simulation."""
from __future__ import annotations

import random
from functools import lru_cache

import numpy as np
import stim

from dst import gf2


# ---------------------------------------------------------------- codes

def _hex5():
    from mqt.qecc.codes import HexagonalColorCode

    c = HexagonalColorCode(5)
    return c.Hx, c.Hx


def _oct5():
    from mqt.qecc.codes import SquareOctagonColorCode

    c = SquareOctagonColorCode(5)
    return c.Hx, c.Hx


def surface(d: int):
    """rotated surface code"""
    def q(r, c):
        return r * d + c

    hx, hz = [], []
    for r in range(-1, d):
        for c in range(-1, d):
            qs = [q(a, b) for a in (r, r + 1) for b in (c, c + 1) if 0 <= a < d and 0 <= b < d]
            even = (r + c) % 2 == 0
            if len(qs) == 4 or (len(qs) == 2 and ((r in (-1, d - 1) and even) or (c in (-1, d - 1) and not even))):
                row = [int(i in qs) for i in range(d * d)]
                (hx if even else hz).append(row)
    return np.array(hx), np.array(hz)


def _hamming(r: int):
    n = 2**r - 1
    return np.array([[(j + 1) >> i & 1 for j in range(n)] for i in range(r)])


def _tetra():
    hx = _hamming(4)
    hz = gf2.kernel(np.vstack([hx, np.ones((1, 15), int)]))
    return hx, hz


def _shor(a: int = 3, b: int = 3):
    hz = [[int(i in (k * b + j, k * b + j + 1)) for i in range(a * b)] for k in range(a) for j in range(b - 1)]
    hx = [[int(i // b in (k, k + 1)) for i in range(a * b)] for k in range(a - 1)]
    return np.array(hx), np.array(hz)


FAMILIES = {
    # name: (builder, distance, x_distance, z_distance)
    "steane": (lambda: (_hamming(3), _hamming(3)), 3, 3, 3),
    "shor": (lambda: _shor(), 3, 3, 3),
    "shor-dual": (lambda: _shor()[::-1], 3, 3, 3),
    "surface3": (lambda: surface(3), 3, 3, 3),
    "tetrahedral": (_tetra, 3, 7, 3),
    "tetrahedral-dual": (lambda: _tetra()[::-1], 3, 3, 7),
    "hamming": (lambda: (_hamming(4), _hamming(4)), 3, 3, 3),
    "422": (lambda: (np.ones((1, 4), int), np.ones((1, 4), int)), 2, 2, 2),
    "642": (lambda: (np.ones((1, 6), int), np.ones((1, 6), int)), 2, 2, 2),
    "412": (lambda: (np.array([[1, 1, 0, 0], [0, 0, 1, 1]]), np.ones((1, 4), int)), 2, 2, 2),
    "shor24": (lambda: _shor(2, 2), 2, 2, 2),
    "surface2": (lambda: surface(2), 2, 2, 2),
    "shor35": (lambda: _shor(3, 5), 3, 5, 3),
    "hex5": (_hex5, 5, 5, 5),
    "oct5": (_oct5, 5, 5, 5),
}


def matrices(spec: dict):
    """checks of a family member, with permuted qubits and mixed generators"""
    hx, hz = FAMILIES[spec["family"]][0]()
    hx, hz = np.array(hx, int), np.array(hz, int)
    rng = random.Random(spec.get("mix", 0))
    if spec.get("mix"):
        perm = list(range(hx.shape[1]))
        rng.shuffle(perm)
        hx, hz = hx[:, perm], hz[:, perm]
        for m in (hx, hz):
            for _ in range(rng.randint(0, 2 * len(m))):
                if len(m) > 1:
                    a, b = rng.sample(range(len(m)), 2)
                    m[a] ^= m[b]
            order = list(range(len(m)))
            rng.shuffle(order)
            m[:] = m[order]
    return hx, hz


def css_code(spec: dict):
    from mqt.qecc.codes import CSSCode

    hx, hz = matrices(spec)
    _, d, dx, dz = FAMILIES[spec["family"]]
    return CSSCode(d, hx.astype(np.int8), hz.astype(np.int8), x_distance=dx, z_distance=dz)


# ---------------------------------------------------------------- circuits

def ops_of(circ) -> tuple[int, int, list[tuple[str, tuple[int, ...], int]]]:
    """(qubits, classical bits, [(name, qubits, clbit or -1)])"""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    ops = []
    for inst in circ.data:
        name = inst.operation.name
        qs = tuple(qi[q] for q in inst.qubits)
        if name == "barrier":
            continue
        if name == "measure":
            ops.append((name, qs, ci[inst.clbits[0]]))
        elif name in ("h", "cx", "reset", "x", "z", "cz", "id"):
            if name != "id":
                ops.append((name, qs, -1))
        else:
            raise NotImplementedError(f"gate {name} in a state-preparation circuit")
    return len(qi), len(ci), ops


def simulate(n: int, nc: int, ops, rnd: int, prepare=None) -> tuple[list[int | None], stim.TableauSimulator]:
    s = stim.TableauSimulator(seed=rnd)
    s.set_num_qubits(max(n, 1))
    if prepare:
        prepare(s)
    bits: list[int | None] = [None] * nc
    for name, qs, c in ops:
        if name == "measure":
            bits[c] = int(s.measure(qs[0]))
        else:
            {"h": s.h, "cx": s.cx, "reset": s.reset, "x": s.x, "z": s.z, "cz": s.cz}[name](*qs)
    return bits, s


def locations(n: int, ops) -> list[tuple[int, tuple[int, ...], str]]:
    """fault locations (op index after which the fault acts, qubits, kind); index -1 = initialisation"""
    locs = [(-1, (q,), "p1") for q in range(n)]
    for i, (name, qs, _c) in enumerate(ops):
        locs.append((i, qs, "flip" if name == "measure" else "p2" if len(qs) == 2 else "p1"))
    return locs


def frames(n: int, nc: int, ops, faults: list[list[tuple]]) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
    """faults: per trial a list of (op index, ((qubit, 'X'|'Y'|'Z'), ...) or 'flip').  Returns x errors, z errors, bit flips."""
    b = len(faults)
    fx, fz = np.zeros((n, b), bool), np.zeros((n, b), bool)
    fl = np.zeros((nc, b), bool)
    at: dict[int, list] = {}
    for t, fs in enumerate(faults):
        for pos, what in fs:
            at.setdefault(pos, []).append((t, what))

    def inject(pos: int) -> None:
        for t, what in at.get(pos, ()):
            if what == "flip":
                fl[ops[pos][2], t] ^= True
                continue
            for q, p in what:
                if p in "XY":
                    fx[q, t] ^= True
                if p in "ZY":
                    fz[q, t] ^= True

    inject(-1)
    for i, (name, qs, c) in enumerate(ops):
        if name == "h":
            q = qs[0]
            fx[q], fz[q] = fz[q].copy(), fx[q].copy()
        elif name == "cx":
            fx[qs[1]] ^= fx[qs[0]]
            fz[qs[0]] ^= fz[qs[1]]
        elif name == "cz":
            fz[qs[1]] ^= fx[qs[0]]
            fz[qs[0]] ^= fx[qs[1]]
        elif name == "reset":
            fx[qs[0]] = False
            fz[qs[0]] = False
        elif name == "measure":
            fl[c] = fx[qs[0]]  # a later measurement into the same bit replaces the earlier one
            fz[qs[0]] = False
        inject(i)
    return fx, fz, fl


P2 = [(a, b) for a in "IXYZ" for b in "IXYZ" if (a, b) != ("I", "I")]


def rand_fault(rng: random.Random, loc) -> tuple:
    pos, qs, kind = loc
    if kind == "flip":
        return (pos, "flip")
    if kind == "p1":
        return (pos, ((qs[0], rng.choice("XYZ")),))
    a, b = rng.choice(P2)
    return (pos, tuple((q, p) for q, p in zip(qs, (a, b)) if p != "I"))


def all_faults(loc) -> list[tuple]:
    pos, qs, kind = loc
    if kind == "flip":
        return [(pos, "flip")]
    if kind == "p1":
        return [(pos, ((qs[0], p),)) for p in "XYZ"]
    return [(pos, tuple((q, p) for q, p in zip(qs, pp) if p != "I")) for pp in P2]


class CosetWeight:
    """minimum weight of v + rowspace(gens): breadth-first over syndromes of the quotient"""

    def __init__(self, gens: np.ndarray, n: int) -> None:
        gens = np.array(gens, int).reshape(-1, n) % 2
        self.n = n
        self.check = gf2.kernel(gens) if len(gens) else np.eye(n, dtype=int)  # v in rowspace  <=>  check @ v = 0
        r = len(self.check)
        cols = [int("".join(map(str, self.check[:, j])), 2) if r else 0 for j in range(n)]
        self.pw = np.array([1 << (r - 1 - i) for i in range(r)], dtype=np.int64)
        dist = np.full(1 << r, -1, dtype=np.int16)
        dist[0] = 0
        front = np.array([0])
        w = 0
        while len(front):
            w += 1
            nxt = np.unique(np.concatenate([front ^ c for c in cols]))
            nxt = nxt[dist[nxt] < 0]
            dist[nxt] = w
            front = nxt
        self.dist = dist

    def __call__(self, vs: np.ndarray) -> np.ndarray:
        """vs: n x batch"""
        syn = (self.check @ np.asarray(vs, int)) % 2
        return self.dist[self.pw @ syn]


@lru_cache(maxsize=64)
def _cw(key: bytes, rows: int, n: int) -> CosetWeight:
    return CosetWeight(np.frombuffer(key, dtype=np.int64).reshape(rows, n), n)


def coset_weight(gens: np.ndarray, n: int) -> CosetWeight:
    g = np.ascontiguousarray(np.array(gens, dtype=np.int64).reshape(-1, n))
    return _cw(g.tobytes(), len(g), n)
