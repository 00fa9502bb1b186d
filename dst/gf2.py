"""Independent GF(2) linear algebra and a small zoo of codes (owned by the checks, shares no code with /repo)."""
from __future__ import annotations

import random

import numpy as np


def rref(m: np.ndarray) -> tuple[np.ndarray, list[int]]:
    m = (np.array(m, dtype=np.uint8) & 1).copy()
    piv: list[int] = []
    r = 0
    rows, cols = m.shape
    for c in range(cols):
        if r == rows:
            break
        p = np.flatnonzero(m[r:, c])
        if not len(p):
            continue
        p0 = r + int(p[0])
        if p0 != r:
            m[[r, p0]] = m[[p0, r]]
        hit = np.flatnonzero(m[:, c])
        hit = hit[hit != r]
        m[hit] ^= m[r]
        piv.append(c)
        r += 1
    return m, piv


def rank(m) -> int:
    m = np.atleast_2d(np.array(m, dtype=np.uint8))
    return len(rref(m)[1]) if m.size else 0


def in_rowspace(m, v) -> bool:
    m = np.atleast_2d(np.array(m, dtype=np.uint8))
    return rank(np.vstack([m, np.array(v, dtype=np.uint8)])) == rank(m)


def kernel(m) -> np.ndarray:
    r, piv = rref(m)
    n = r.shape[1]
    free = [c for c in range(n) if c not in piv]
    out = np.zeros((len(free), n), dtype=np.uint8)
    for i, f in enumerate(free):
        out[i, f] = 1
        for row, p in enumerate(piv):
            out[i, p] = r[row, f]
    return out


def logicals(hx, hz) -> tuple[np.ndarray, np.ndarray]:
    """basis of X logicals (ker hz / rowspace hx) and Z logicals"""
    def quot(check, stab):
        out = []
        cur = np.array(stab, dtype=np.uint8)
        for v in kernel(check):
            if not in_rowspace(cur, v):
                out.append(v)
                cur = np.vstack([cur, v])
        return np.array(out, dtype=np.uint8).reshape(-1, np.array(check).shape[1])

    return quot(hz, hx), quot(hx, hz)


HAMMING = np.array([[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]], dtype=np.uint8)


def rep(n: int, cyclic: bool) -> np.ndarray:
    h = np.zeros((n if cyclic else n - 1, n), dtype=np.uint8)
    for i in range(h.shape[0]):
        h[i, i] ^= 1
        h[i, (i + 1) % n] ^= 1
    return h


def hgp(a: np.ndarray, b: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
    eye = lambda k: np.eye(k, dtype=np.uint8)  # noqa: E731
    hx = np.hstack([np.kron(a, eye(b.shape[1])), np.kron(eye(a.shape[0]), b.T)]) & 1
    hz = np.hstack([np.kron(eye(a.shape[1]), b), np.kron(a.T, eye(b.shape[0]))]) & 1
    return hx.astype(np.uint8), hz.astype(np.uint8)


def rand_classical(rng: random.Random, maxn: int = 6) -> np.ndarray:
    n = rng.randint(2, maxn)
    m = rng.randint(1, n)
    h = np.zeros((m, n), dtype=np.uint8)
    for i in range(m):
        for c in rng.sample(range(n), rng.randint(1, min(n, 3))):
            h[i, c] = 1
    for c in range(n):
        if not h[:, c].any():
            h[rng.randrange(m), c] = 1
    return h


def block(a: np.ndarray, b: np.ndarray) -> np.ndarray:
    out = np.zeros((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]), dtype=np.uint8)
    out[:a.shape[0], :a.shape[1]] = a
    out[a.shape[0]:, a.shape[1]:] = b
    return out


def code(spec: dict) -> tuple[np.ndarray | None, np.ndarray]:
    """(hx, hz) of a JSON description; hx None for single-sided codes"""
    kind = spec["kind"]
    rng = random.Random(spec.get("seed", 0))
    if kind == "steane":
        hx, hz = HAMMING.copy(), HAMMING.copy()
    elif kind == "toric":
        hx, hz = hgp(rep(spec["d"], True), rep(spec["d2"], True))
    elif kind == "surface":
        hx, hz = hgp(rep(spec["d"], False), rep(spec["d2"], False))
    elif kind == "hgp":
        hx, hz = hgp(rand_classical(rng, spec.get("n", 4)), rand_classical(rng, spec.get("n", 4)))
    elif kind == "ham":
        hx, hz = hgp(HAMMING, rep(spec["d"], bool(spec.get("cyc", 1))))
    elif kind == "blocks":
        a, b = code(spec["a"]), code(spec["b"])
        hz = block(a[1], b[1])
        hx = None if a[0] is None or b[0] is None else block(a[0], b[0])
    elif kind == "classical":
        hx, hz = None, rand_classical(rng, spec.get("n", 8))
    elif kind == "css":
        # random CSS code: rows of hz from a random ldpc matrix, hx from its kernel
        hz = rand_classical(rng, spec.get("n", 7))
        k = kernel(hz)
        if not len(k):
            hz = hz[:1]
            k = kernel(hz)
        m = rng.randint(1, max(1, len(k)))
        hx = k[rng.sample(range(len(k)), min(m, len(k)))] if len(k) else np.ones((1, hz.shape[1]), np.uint8) * 0
        hx = np.array(hx, dtype=np.uint8)
    else:
        raise ValueError(kind)
    if "perm" in spec:
        pr = random.Random(spec["perm"])
        q = list(range(hz.shape[1]))
        pr.shuffle(q)
        hz = hz[:, q]
        r = list(range(hz.shape[0]))
        pr.shuffle(r)
        hz = hz[r]
        if hx is not None:
            hx = hx[:, q]
            r = list(range(hx.shape[0]))
            pr.shuffle(r)
            hx = hx[r]
    return hx, hz


def gen_code(rng: random.Random, big: bool = False, two_sided: bool = False) -> dict:
    k = rng.choice(["steane", "toric", "surface", "hgp", "ham", "blocks", "css"] + ([] if two_sided else ["classical"]))
    mx = 5 if big else 4
    s: dict = {"kind": k}
    if k in ("toric", "surface"):
        s["d"] = rng.randint(2 if rng.random() < 0.3 else 3, mx)
        s["d2"] = s["d"] if rng.random() < 0.5 else rng.randint(2 if rng.random() < 0.3 else 3, mx)
    elif k == "hgp":
        s["seed"] = rng.getrandbits(32)
        s["n"] = rng.randint(3, 5)
    elif k == "ham":
        s["d"] = rng.randint(2, 3)
        s["cyc"] = rng.randint(0, 1)
    elif k in ("classical", "css"):
        s["seed"] = rng.getrandbits(32)
        s["n"] = rng.randint(4, 10)
    elif k == "blocks":
        kinds = ["steane", "surface", "css"]
        s["a"] = small(rng, rng.choice(kinds))
        s["b"] = small(rng, rng.choice(kinds))
    if rng.random() < 0.6:
        s["perm"] = rng.getrandbits(32)
    return s


def small(rng: random.Random, k: str) -> dict:
    s: dict = {"kind": k}
    if k == "surface":
        s["d"] = s["d2"] = rng.randint(2, 3)
    if k == "css":
        s["seed"] = rng.getrandbits(32)
        s["n"] = rng.randint(4, 7)
    return s
