"""C02: lifted product codes are the lifts of their protographs, and construction scripts and shipped files hold the codes their names promise."""
from __future__ import annotations

import builtins
import contextlib
import importlib.util
import io
import os
import random
import re
import resource
import runpy
import shutil
import signal
import sys
from pathlib import Path

import numpy as np

from dst import gf2, load, scratch
from dst.core import Outcome, digest

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("one run = a history of lifted products of seeded protographs, or a run of a construction script killed at a file operation, started again or writing to a full "
        "disk, or one shipped code file; non-trivial = a product with two protographs, a fault, or a shipped file")
REAL = ["lifted product classes, construction scripts, shipped code files, bposd, ldpc, NumPy"]
STUB = ["process death and full disk (file-size limit)", "sizes in the scripts (smaller rings and lifts)"]
STATE_MEASURE = "distinct (protographs, lift) and (script, fault)"
HANG_S = 200
_shrink = ("steps",)
SCRIPTS = "scripts/numerics/code_construct"


class Killed(BaseException):
    pass


def budget(tier: str) -> int:
    return 1500 if tier == "quick" else 20000


def shipped() -> list[str]:
    r = load.REPO
    ex = [p for p in r.glob("examples/**/*.txt") if re.search(r"\[\[\d+,\d+,", p.name)]
    return sorted(str(p.relative_to(r)) for p in [*ex, *r.glob("src/mqt/qecc/analog_information_decoding/codes/*/*_hx.npz")])


def proto(rng: random.Random, m: int, n: int, lift: int) -> list:
    while True:
        p = [[sorted(rng.sample(range(-1, lift + 2), rng.choice([0, 1, 1, 1, 2]))) for _ in range(n)] for _ in range(m)]
        if any(x for row in p for x in row):
            return p


def gen(rng: random.Random, index: int, tier: str) -> dict:
    files = shipped()
    if index < len(files):
        return {"steps": [{"kind": "shipped", "file": files[index]}]}
    steps = []
    if index % 8 == 7:
        for _ in range(rng.choice([1, 2])):
            steps.append({"kind": "script", "script": rng.choice(["toric", "toric", "lp", "hgp", "hgp2"]), "size": rng.randint(2, 5), "lift": rng.randint(1, 3),
                          "seed": [[rng.choice([0, 1, 1]) for _ in range(rng.choice([3, 4]))] for _ in range(2)], "fault": rng.choice(["none", "kill", "full", "full", "torn-input"]), "at": rng.randint(1, 5),
                          "limit": rng.choice([1, 30, 200, 900]), "again": rng.random() < 0.5})
            w = max(map(len, steps[-1]["seed"]))
            steps[-1]["seed"] = [(row + [1] * w)[:w] for row in steps[-1]["seed"]]
        return {"steps": steps}
    for _ in range(rng.choice([1, 2, 2, 3])):
        lift = rng.choice([1, 2, 2, 3, 3, 4, 5])
        a = proto(rng, rng.randint(1, 3), rng.randint(1, 3), lift)
        b = proto(rng, rng.randint(1, 3), rng.randint(1, 3), lift) if rng.random() < 0.7 else None
        steps.append({"kind": "product", "lift": lift, "a": a, "b": b, "bias": rng.random() < 0.6})
    return {"steps": steps}


# ---------------------------------------------------------------- reference

def lifted(p: list, l: int) -> np.ndarray:
    """every shift becomes a cyclic permutation"""
    m, n = len(p), len(p[0])
    out = np.zeros((m * l, n * l), dtype=int)
    for i in range(m):
        for j in range(n):
            for s in p[i][j]:
                for r in range(l):
                    out[i * l + r, j * l + (r + s) % l] ^= 1
    return out


def cells(a: list, b: list, l: int) -> tuple[np.ndarray, np.ndarray]:
    """checks of the lifted product, cell by cell: X check (i, k), Z check (j, h); qubits (j, k) and (i, h)"""
    ma, na, mb, nb = len(a), len(a[0]), len(b), len(b[0])
    n = (na * nb + ma * mb) * l
    left = lambda j, k: (j * nb + k) * l  # noqa: E731
    right = lambda i, h: (na * nb + i * mb + h) * l  # noqa: E731
    hx, hz = np.zeros((ma * nb * l, n), dtype=int), np.zeros((na * mb * l, n), dtype=int)
    for r in range(l):
        for i in range(ma):
            for k in range(nb):
                row = (i * nb + k) * l + r
                for j in range(na):
                    for s in a[i][j]:
                        hx[row, left(j, k) + (r + s) % l] ^= 1
                for h in range(mb):
                    for s in b[h][k]:
                        hx[row, right(i, h) + (r - s) % l] ^= 1
        for j in range(na):
            for h in range(mb):
                row = (j * mb + h) * l + r
                for k in range(nb):
                    for s in b[h][k]:
                        hz[row, left(j, k) + (r + s) % l] ^= 1
                for i in range(ma):
                    for s in a[i][j]:
                        hz[row, right(i, h) + (r - s) % l] ^= 1
    return hx, hz


def same_span(a: np.ndarray, b: np.ndarray) -> bool:
    return a.shape[1] == b.shape[1] and gf2.rank(a) == gf2.rank(b) == gf2.rank(np.vstack([a, b]))


def symplectic(p: np.ndarray, q: np.ndarray) -> np.ndarray:
    n = p.shape[1] // 2
    return (p[:, :n] @ q[:, n:].T + p[:, n:] @ q[:, :n].T) % 2


def module():
    spec = importlib.util.spec_from_file_location("lifted_hgp", load.REPO / SCRIPTS / "lifted_hgp.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def protograph(p: list):
    import ldpc.protograph as pt

    arr = np.empty((len(p), len(p[0])), dtype=object)
    for i, row in enumerate(p):
        for j, x in enumerate(row):
            arr[i, j] = pt.RingOfCirculantsF2(tuple(x))
    return arr.view(pt.array)


def text(p) -> list:
    return [[sorted(int(c) for c in x.coefficients) for x in row] for row in p]


# ---------------------------------------------------------------- runs

def run(sc: dict) -> Outcome:
    out = Outcome()
    events: list = []
    kept: list = []
    with scratch.scratch(cwd=True) as root:
        for i, st in enumerate(sc["steps"]):
            if not {"product": product, "script": script, "shipped": ship}[st["kind"]](st, i, root, out, events, kept):
                break
        for code, hx, hz, desc in kept:  # later constructions leave earlier codes alone
            if (np.array(code.hx) != hx).any() or (np.array(code.hz) != hz).any():
                out.bad("changed", f"{desc}: its checks were changed by later constructions")
                break
    out.log = digest(events)
    return out


def product(st: dict, i: int, root: Path, out: Outcome, events: list, kept: list) -> bool:
    mod = module()
    a, b, l = st["a"], st["b"], st["lift"]
    ref_b = b if b is not None else a
    hx, hz = cells(a, ref_b, l)
    desc = f"construction {i}: lifted product of {a} and {b if b is not None else 'itself'}, lift {l}"
    out.states.add(digest([a, b, l]))
    if not hx.any() or not hz.any():
        return True  # shifts cancel; a code without checks of one type
    pa, pb = protograph(a), protograph(b) if b is not None else None
    args = (l, pa) if pb is None else (l, pa, pb)
    code = mod.LiftedHgp(*args)
    got = np.array(code.hx).astype(int) % 2, np.array(code.hz).astype(int) % 2
    if any(g.shape != w.shape or (g != w).any() for g, w in zip(got, (hx, hz))):
        out.bad("wrong-checks", f"{desc}: {'X' if got[0].shape != hx.shape or (got[0] != hx).any() else 'Z'} checks are not those of the product")
        return False
    n, k = hx.shape[1], hx.shape[1] - gf2.rank(hx) - gf2.rank(hz)
    if (hx @ hz.T % 2).any():
        raise AssertionError("the reference does not commute")
    out.nontrivial |= b is not None
    if code.N != n or code.K != k:
        out.bad("wrong-size", f"{desc}: [[{code.N},{code.K}]] stated, [[{n},{k}]] is true")
        return False
    lx, lz = np.array(code.lx).astype(int), np.array(code.lz).astype(int)
    if k and (lx.shape != (k, n) or lz.shape != (k, n) or (hz @ lx.T % 2).any() or (hx @ lz.T % 2).any() or gf2.rank(lx @ lz.T % 2) != k):
        out.bad("logicals", f"{desc}: logical operators do not generate the {k} logical qubits")
        return False
    parts = [np.array(getattr(code, x)).astype(int) % 2 for x in ("hx1", "hx2", "hz1", "hz2")]
    if (np.hstack(parts[:2]) != hx).any() or (np.hstack(parts[2:]) != hz).any():
        out.bad("wrong-parts", f"{desc}: the parts of the checks do not make up the checks")
        return False
    whole = np.array(code.protograph.to_binary(l)).astype(int) % 2
    if whole.shape != (len(hx) + len(hz), 2 * n) or not same_span(whole, np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])):
        out.bad("wrong-protograph", f"{desc}: the protograph of the code does not lift to its checks")
        return False
    if text(pa) != a or pb is not None and text(pb) != b:
        out.bad("changed", f"{desc}: the construction changed the protographs")
        return False
    kept.append((code, *got, desc))
    events.append([n, k])
    if st["bias"]:
        cut = len(a[0]) * len(ref_b[0]) * l  # Hadamard on the second kind of qubits
        want = np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])
        x, z = want[:, :n].copy(), want[:, n:].copy()
        x[:, cut:], z[:, cut:] = want[:, n + cut:], want[:, cut:n]
        want = np.hstack([x, z])
        bt = mod.BiasTailoredLiftedProduct(*args)
        mine = np.hstack([np.array(bt.hx), np.array(bt.hz)]).astype(int) % 2
        if mine.shape != want.shape or symplectic(mine, mine).any() or not same_span(mine, want):
            out.bad("bias-tailored", f"{desc}: the bias-tailored stabilizers {'do not commute' if symplectic(mine, mine).any() else 'are not the rotated checks'}")
            return False
        if bt.N != n or bt.K != k:
            out.bad("wrong-size", f"{desc}: bias-tailored code [[{bt.N},{bt.K}]] stated, [[{n},{k}]] is true")
            return False
        logical = np.array(bt.l).astype(int) % 2
        if k and (symplectic(logical, mine).any() or gf2.rank(symplectic(logical, logical)) != 2 * k):
            out.bad("logicals", f"{desc}: logical operators of the bias-tailored code do not generate the {k} logical qubits")
            return False
    return True


def name_of(file: str) -> tuple:
    m = re.search(r"\[\[(\d+),(\d+),(\w+)\]\]", file)
    return tuple(int(x) if x.isdigit() else None for x in m.groups())


def ship(st: dict, i: int, root: Path, out: Outcome, events: list, kept: list) -> bool:
    """shipped matrices are those of the code in their name"""
    out.nontrivial = True
    out.states.add(st["file"])
    p = load.REPO / st["file"]
    if p.suffix == ".npz":
        import scipy.sparse as sp

        hx, hz = (np.array(sp.load_npz(str(p).replace("_hx.npz", f"_{s}.npz")).todense()).astype(int) % 2 for s in ("hx", "hz"))
        l = int(re.search(r"l=(\d+)", p.name).group(1))
        want = {16: (544, 80), 21: (714, 100), 30: (1020, 136)}.get(l)
        k = hx.shape[1] - gf2.rank(hx) - gf2.rank(hz)
        if (hx @ hz.T % 2).any() or want and (hx.shape[1], k) != want:
            out.bad("shipped", f"{st['file']}: {'checks do not commute' if (hx @ hz.T % 2).any() else f'[[{hx.shape[1]},{k}]] instead of {want}'}")
            return False
        return True
    n, k, d = name_of(p.name)
    h = np.loadtxt(p, dtype=int, ndmin=2)
    other = Path(str(p).replace("_hx.txt", "_#").replace("_hz.txt", "_hx.txt").replace("_#", "_hz.txt"))
    r = gf2.rank(h)
    if h.shape[1] != n or ((h != 0) & (h != 1)).any():
        out.bad("shipped", f"{st['file']}: {h.shape[1]} qubits")
        return False
    if other.exists():
        h2 = np.loadtxt(other, dtype=int, ndmin=2)
        if (h @ h2.T % 2).any() or n - r - gf2.rank(h2) != k:
            out.bad("shipped", f"{st['file']}: {'checks do not commute' if (h @ h2.T % 2).any() else 'wrong number of logical qubits'}")
            return False
    elif p.name.startswith("toric"):  # as many independent checks of the other type
        if n - 2 * r != k or n != 2 * d * d or (h.sum(axis=1) != 4).any() or (h.sum(axis=0) != 2).any():
            out.bad("shipped", f"{st['file']}: not the checks of a toric code of distance {d}")
            return False
    return True


FILES = {"toric": (SCRIPTS + "/constructToricCodes.py", "."), "lp": (SCRIPTS + "/constructLPcodes.py", "."), "hgp": (SCRIPTS + "/constructHGPcodes.py", "examples"),
         "hgp2": ("scripts/constructHGPcodes.py", ".")}


def attempt(st: dict, work: Path, fault: str) -> tuple:
    """one start of the script: (error, killed)"""
    import ldpc.codes
    import ldpc.protograph as pt

    left = [st["at"]] if fault == "kill" else None
    real = np.savetxt
    ring, to_binary = ldpc.codes.ring_code, pt.array.to_binary

    def savetxt(*a, **k):
        if left is not None:
            left[0] -= 1
            if left[0] == 0:
                raise Killed
        return real(*a, **k)

    def small_ring(d):
        if d > st["size"] + 1:
            raise Killed  # stopped after the small codes
        return ring(d)

    def small_lift(self, *_a, **_k):
        return to_binary(self, st["lift"])

    failed, killed = None, False
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    cwd, path = os.getcwd(), list(sys.path)
    np.savetxt, ldpc.codes.ring_code, pt.array.to_binary = savetxt, small_ring, small_lift
    sys.modules.pop("lifted_hgp", None)
    try:
        os.chdir(work)
        sys.path.insert(0, str(work))
        if fault == "full":
            resource.setrlimit(resource.RLIMIT_FSIZE, (st["limit"], hard))
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path("script.py", run_name="__main__")
    except Killed:
        killed = True
    except Exception as e:  # noqa: BLE001
        failed = e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)
        np.savetxt, ldpc.codes.ring_code, pt.array.to_binary = real, ring, to_binary
        sys.modules.pop("lifted_hgp", None)
        sys.path[:] = path
        os.chdir(cwd)
    return failed, killed


def script(st: dict, i: int, root: Path, out: Outcome, events: list, kept: list) -> bool:  # noqa: PLR0912, PLR0915
    """a construction script on a small input; whatever it leaves under a final name must be true if it reported success"""
    file, seed_dir = FILES[st["script"]]
    desc = f"run {i} of {file} ({st['fault']})"
    work = root / f"w{i}"
    (work / seed_dir).mkdir(parents=True)
    for p in (load.REPO / SCRIPTS).glob("*.py"):
        shutil.copy(p, work)
    shutil.copy(load.REPO / file, work / "script.py")
    seed = np.array(st["seed"])
    np.savetxt(work / seed_dir / "mkmn_24_6_10.txt", seed, fmt="%d")
    fault = st["fault"]
    if fault == "torn-input":
        if not st["script"].startswith("hgp"):
            fault = "none"
        else:
            f = work / seed_dir / "mkmn_24_6_10.txt"
            os.truncate(f, f.stat().st_size - 2)  # the last number is lost
    out.states.add(digest([st["script"], st["size"], st["lift"], st["seed"], fault, st["at"], st["limit"]]))
    failed, killed = attempt(st, work, fault)
    if fault != "none":
        out.add(f"fault:{fault}")
        out.nontrivial = True
    if st.get("again") and fault in ("kill", "full"):  # started again over what the first start left
        desc += ", started again"
        out.add("fault:restart")
        fault = "none"
        failed, killed = attempt(st, work, fault)
    files = sorted(p for p in work.glob("*.txt") if "[[" in p.name)
    events.append([p.name for p in files])
    if failed is not None:
        if fault in ("full", "torn-input"):
            return True  # reported
        if degenerate(st, seed):
            return True
        out.bad("failed", f"{desc}: failed with {type(failed).__name__}: {failed}")
        return False
    if not killed and fault == "torn-input" and seed.shape[0] > 1:
        out.bad("torn-input", f"{desc}: a torn seed file was accepted")
        return False
    if not killed and not files:
        out.bad("missing", f"{desc}: reported success and wrote no code")
        return False
    mats: dict = {}
    for p in files:
        n, k, _d = name_of(p.name)
        try:
            m = np.array([[int(x) for x in line.split()] for line in p.read_text().splitlines()], dtype=int)
        except ValueError as e:
            out.bad("torn-code", f"{desc}: reported success, {p.name} is torn ({e})")
            return False
        if m.ndim != 2 or m.shape[1] != n:
            if killed and p == max(files, key=lambda q: q.stat().st_mtime_ns):
                continue
            out.bad("wrong-code", f"{desc}: {p.name} holds a matrix of shape {m.shape}")
            return False
        mats.setdefault(p.name[:-6], {})[p.name[-6:-4]] = m
    for name, pair in mats.items():
        n, k, d = name_of(name)
        if st["script"] == "toric":
            size = {2 * r * r: r for r in range(2, st["size"] + 2)}.get(n)
            m = next(iter(pair.values()))
            if size is None or k != 2 or d != size or m.shape != (size * size, n) or n - 2 * gf2.rank(m) != 2:
                out.bad("wrong-code", f"{desc}: {name} does not hold the toric code")
                return False
            continue
        if st["script"] == "lp":
            proto_a = [[[x] for x in row] for row in ((0, 11, 7, 12), (1, 8, 1, 8), (11, 0, 4, 8), (6, 2, 4, 12))]
            want = dict(zip(("hx", "hz"), cells(proto_a, proto_a, st["lift"])))
        else:
            want = dict(zip(("hx", "hz"), gf2.hgp(seed, seed)))
            if n != want["hx"].shape[1] and st["script"] == "hgp":
                big = lifted([[[x] for x in row] for row in ((0, 11, 7, 12), (1, 8, 1, 8), (11, 0, 4, 8), (6, 2, 4, 12))], st["lift"])
                want = dict(zip(("hx", "hz"), gf2.hgp(big, big)))
        true_k = want["hx"].shape[1] - gf2.rank(want["hx"]) - gf2.rank(want["hz"])
        if n != want["hx"].shape[1] or k != true_k:
            out.bad("wrong-name", f"{desc}: {name} is named [[{n},{k}]], the code has [[{want['hx'].shape[1]},{true_k}]]")
            return False
        for side, m in pair.items():
            if not same_span(m, want[side]):
                out.bad("wrong-code", f"{desc}: {name}_{side}.txt does not hold the {side[1].upper()} checks of the code")
                return False
    return True


def degenerate(st: dict, seed: np.ndarray) -> bool:
    """codes without logical qubits or without checks are refused by the library"""
    if not st["script"].startswith("hgp"):
        return st["lift"] == 1 and st["script"] == "lp"
    hx, hz = gf2.hgp(seed, seed)
    return hx.shape[1] - gf2.rank(hx) - gf2.rank(hz) == 0 or not (hx.any() and hz.any()) or st["lift"] == 1


def shrink(sc: dict):
    for i, st in enumerate(sc["steps"]):
        if st["kind"] == "product":
            alt = []
            if st["b"] is not None:
                alt.append({**st, "b": None})
            alt += [{**st, "lift": l} for l in range(1, st["lift"])]
            for key in ("a", "b"):
                p = st[key]
                if p is None:
                    continue
                if len(p) > 1:
                    alt.append({**st, key: p[1:]})
                if len(p[0]) > 1:
                    alt.append({**st, key: [r[1:] for r in p]})
            for x in alt:
                yield {**sc, "steps": [x if j == i else y for j, y in enumerate(sc["steps"])]}
