"""A05: constructed product codes are consistent, stored whole and described truly, whatever the distance tool and the disk do."""
from __future__ import annotations

import builtins
import importlib
import itertools
import json
import os
import random
import resource
import shutil
import signal
from pathlib import Path

import numpy as np

from dst import gf2, load, scratch
from dst.core import Outcome, digest

PROPERTY = "A05"
LEVEL = "exploration"
RULE = ("one run = a history of one to three constructions of 3D or 4D product codes of seeded seed codes, with the distance tool simulated and processes killed "
        "at a file operation, started again, or writing to a full disk; non-trivial = a fault was injected or the distances were computed")
REAL = ["3D and 4D product-code constructors, logical operators, saving, the shipped shell scripts, NumPy, SciPy and bash"]
STUB = ["gap: answers the scripts' queries with seeded numbers", "the absolute folder of the 3D constructor, redirected into the scratch folder"]
STATE_MEASURE = "distinct (seed codes, constructor, faults)"
HANG_S = 120
_shrink = ("steps",)
PKG = "mqt.qecc.analog_information_decoding.code_construction."
FOLDER = "analog_information_decoding/code_construction"


class Killed(BaseException):
    pass


def budget(tier: str) -> int:
    return 1500 if tier == "quick" else 20000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        dim = rng.choice([3, 3, 4])
        seeds = []
        for i in range(dim):
            shape = rng.choice([(1, 2), (1, 2), (2, 2), (2, 3), (1, 3), (3, 3), (2, 1)] if dim == 3 else [(1, 2), (1, 2), (1, 2), (2, 2), (2, 3) if i == 0 else (2, 1)])
            seeds.append([[rng.choice([0, 1, 1]) for _ in range(shape[1])] for _ in range(shape[0])] if rng.random() < 0.8
                         else gf2.rep(shape[1] + 1, rng.random() < 0.5).astype(int).tolist() if dim == 3 else [[1, 1], [1, 1]])
        steps.append({"dim": dim, "seeds": seeds, "name": rng.choice(["a", "a", "b"]), "logicals": rng.random() < 0.5, "distance": rng.random() < 0.5,
                      "checks": rng.random() < 0.5, "answers": [rng.randint(1, 99) for _ in range(4)],
                      "tool": rng.choice(["ok", "ok", "ok", "missing", "dies", "dies"]), "cut": rng.choice([rng.randint(1, 30), -1, -2, -3]), "flip": [rng.random(), rng.random()],
                      "fault": rng.choice(["none", "none", "kill", "kill", "full"]), "at": rng.randint(1, 16), "limit": rng.choice([1, 20, 100, 400])})
    return {"steps": steps}


# ---------------------------------------------------------------- reference

def chain(seeds: list, dim: int) -> dict:
    """sizes, number of ones and ranks of the boundary maps of the product of the seed codes' complexes"""
    f = []  # per factor: size in degree 1, in degree 0, rank, ones
    for i, s in enumerate(seeds):
        h = np.array(s)
        m, n = h.shape
        f.append((m, n, gf2.rank(h), int(h.sum())) if i == 1 else (n, m, gf2.rank(h), int(h.sum())))

    def total(parts, q):
        return sum(int(np.prod([p[0] if i in s else p[1] for i, p in enumerate(parts)])) for s in itertools.combinations(range(len(parts)), q)) if 0 <= q <= len(parts) else 0

    size = [total(f, q) for q in range(dim + 1)]
    betti = [total([(a - r, b - r) for a, b, r, _ in f], q) for q in range(dim + 1)]
    ones = [sum(f[i][3] * total([p for j, p in enumerate(f) if j != i], q - 1) for i in range(dim)) for q in range(dim + 1)]
    rank = [0] * (dim + 2)
    for q in range(dim + 1):
        rank[q + 1] = size[q] - rank[q] - betti[q]
    return {"size": size, "betti": betti, "ones": ones, "rank": rank}


GAP = r'''#!/bin/bash
# answers the queries of the shipped scripts
here=$(dirname "$0")
read -r a b c d < "$here/answers"
read -r mode cut < "$here/mode"
out=""
while IFS= read -r line; do
  case "$line" in '#'*) continue;; esac
  case "$line" in Print*) ;; *) continue;; esac
  key=$(printf '%s' "$line" | sed -n 's/^Print("\([^"]*\)".*/\1/p')
  arg=$(printf '%s' "$line" | sed -n 's/^Print("[^"]*", *\([A-Za-z]*([^,)]*\).*/\1/p')
  case "$arg" in
    'DistRandCSS(hx[3]') v=$a;;
    'DistRandCSS(hz[3]') v=$b;;
    'MinimumDistanceLeon(xcode') v=$c;;
    'MinimumDistanceLeon(zcode') v=$d;;
    *) continue;;
  esac
  out="$out$key$v"$'\n'
done
case $mode in
  dies) printf '%s' "${out:0:$cut}"; kill -9 $$;;
  *) printf '%s' "$out";;
esac
'''


# ---------------------------------------------------------------- seams

class Seams:
    """files of the constructors: kill at the n-th operation, redirection of the 3D constructor's absolute folder"""

    def __init__(self, root: Path, kill_at: int | None, mods=()) -> None:
        self.root, self.left, self.undo, self.mods = root, kill_at, [], mods

    def tick(self) -> None:
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                raise Killed

    def where(self, p):
        s = os.fspath(p) if isinstance(p, (str, os.PathLike)) else p
        return str(self.root) + s if isinstance(s, str) and (s == "/codes" or s.startswith("/codes/")) else s

    def __enter__(self):
        import scipy.io

        def wrap(obj, name, fn):
            real = getattr(obj, name)
            for o, x in [(obj, name), *((m, y) for m in self.mods for y, v in list(vars(m).items()) if v is real)]:
                self.undo.append((o, x, real))
                setattr(o, x, fn)

        def first(real, tick=True):
            def f(p, *a, **k):
                if isinstance(p, (str, os.PathLike)) and str(self.where(p)).startswith(str(self.root)) or not str(p).startswith("/"):
                    if tick:
                        self.tick()
                    return real(self.where(p), *a, **k)
                return real(p, *a, **k)
            return f

        import io

        wrap(np, "savetxt", first(np.savetxt))
        wrap(scipy.io, "mmwrite", first(scipy.io.mmwrite))
        wrap(builtins, "open", first(builtins.open, tick=False))
        wrap(io, "open", first(io.open, tick=False))
        wrap(os, "mkdir", first(os.mkdir))
        wrap(os, "stat", first(os.stat, tick=False))
        import subprocess

        run = subprocess.run

        def cmd(args, *a, **k):
            self.tick()
            return run([self.where(x) for x in args] if isinstance(args, (list, tuple)) else args, *a, **k)

        wrap(subprocess, "run", cmd)
        return self

    def __exit__(self, *exc):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)


def run(sc: dict) -> Outcome:
    out = Outcome()
    events = []
    with scratch.scratch(cwd=True) as root:
        tool = root / "tool"
        tool.mkdir()
        for s in (load.REPO / "src/mqt/qecc" / FOLDER).glob("*.sh"):
            shutil.copy(s, root / s.name)
        (tool / "gap").write_text(GAP)
        (tool / "gap").chmod(0o755)
        path = os.environ["PATH"]
        os.environ["PATH"] = f"{tool}:{path}"
        try:
            for i, st in enumerate(sc["steps"]):
                if not step(st, i, root, tool, out, events):
                    break
        finally:
            os.environ["PATH"] = path
    out.log = digest(events)
    return out


def step(st: dict, i: int, root: Path, tool: Path, out: Outcome, events: list) -> bool:  # noqa: PLR0911, PLR0912, PLR0915
    dim = st["dim"]
    mod = importlib.import_module(PKG + ("sparse_code_constructor" if dim == 3 else "code_constructor"))
    ref = chain(st["seeds"], dim)
    desc = f"construction {i}: {dim}D code of the seeds {st['seeds']}"
    if ref["size"][1 if dim == 3 else 2] > 700 or 0 in ref["size"]:
        return True
    if not direct(st, ref, desc, out):
        return False
    out.states.add(digest([dim, st["seeds"], st["logicals"], st["tool"], st["fault"], st["at"]]))
    (tool / "answers").write_text(" ".join(map(str, st["answers"])) + "\n")
    (tool / "mode").write_text(f"{st['tool']} {st['cut']}\n")
    (tool / "gap").chmod(0o755 if st["tool"] != "missing" else 0o644)
    folder = root / ("codes/generated_codes" if dim == 3 else "generated_codes") / st["name"]
    params = folder / "code_params.txt"  # an earlier construction may have used the same name
    before = params.read_bytes() if params.exists() else None

    def go(kill_at=None):
        seeds = [np.array(s) for s in st["seeds"]]
        kw = {"compute_distance": st["distance"], "compute_logicals": st["logicals"]}
        if dim == 4:
            kw["checks"] = st["checks"]
        with Seams(root, kill_at, [mod, importlib.import_module(PKG + "code_constructor")]):
            mod.create_code("hgp", seeds, st["name"], **kw)

    if st["fault"] == "kill":  # a process dies at some file operation; the next one starts from what is on the disk
        out.add("fault:kill")
        out.nontrivial = True
        try:
            go(st["at"])
        except Killed:
            pass
        except Exception as e:  # noqa: BLE001
            if not (st["distance"] and st["tool"] != "ok"):
                out.bad("failed", f"{desc} failed with {type(e).__name__}: {e}")
                return False
    full = st["fault"] == "full"
    failed = None
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        if full:
            out.add("fault:full-disk")
            out.nontrivial = True
            resource.setrlimit(resource.RLIMIT_FSIZE, (st["limit"], hard))
        try:
            go()
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    except Exception as e:  # noqa: BLE001
        failed = e
    finally:
        signal.signal(signal.SIGXFSZ, old)
    tool_bad = st["distance"] and st["tool"] != "ok"
    if st["distance"]:
        out.nontrivial = True
        out.add(f"fault:tool-{st['tool']}")
    if failed is not None:
        events.append(type(failed).__name__)
        if not full and not tool_bad:
            out.bad("failed", f"{desc} failed with {type(failed).__name__}: {failed}")
            return False
        if full:
            return True
    # ---- what is on the disk
    names = ["hx", "hz", "mz"] if dim == 3 else ["hx", "hz", "mx", "mz"]
    if st["logicals"]:
        names += ["lx", "lz"]
    q = 1 if dim == 3 else 2
    n, k = ref["size"][q], ref["betti"][q]
    mats = {}
    for name in names:
        try:
            text = (folder / f"{name}.txt").read_text()
        except OSError as e:
            out.bad("missing", f"{desc}: {name}.txt is missing ({e.strerror}){' although a full disk was not reported' if full else ''}")
            return False
        rows = [[int(v) for v in line.split()] for line in text.splitlines()]
        m = mats[name] = np.array(rows, dtype=int).reshape(len(rows), -1) if rows else np.zeros((0, n), int)
        if full:
            continue
        import scipy.io

        mtx = np.array(scipy.io.mmread(folder / f"{name}.mtx").todense()) if (folder / f"{name}.mtx").exists() else None
        if mtx is None or mtx.shape != m.shape and m.size or (m.size and (mtx != m).any()):
            out.bad("files-differ", f"{desc}: {name}.txt and {name}.mtx hold different matrices")
            return False
    bd = {"hx": (q, False), "hz": (q + 1, True), "mx": (q - 1, False), "mz": (q + 2, True)}
    for name, m in mats.items():
        if name not in bd:
            continue
        d, flip = bd[name]
        want = (ref["size"][d - 1], ref["size"][d])
        want = want[::-1] if flip else want
        if m.shape != want or m.sum() != ref["ones"][d] or ((m != 0) & (m != 1)).any() or gf2.rank(m) != ref["rank"][d]:
            out.bad("wrong-code", f"{desc}: {name} is {m.shape} with {int(m.sum())} ones and rank {gf2.rank(m)}; the product has {want}, {ref['ones'][d]} and {ref['rank'][d]}")
            return False
    for a, b, what in (("hx", "hz", "X and Z checks do not commute"), ("mx", "hx", "a fault-free X read-out violates the X meta checks"),
                       ("mz", "hz", "a fault-free Z read-out violates the Z meta checks")):
        if a in mats and b in mats and (mats[a] @ (mats[b].T if a == "hx" else mats[b]) % 2).any():
            out.bad("inconsistent", f"{desc}: {what}")
            return False
    if st["logicals"]:
        lx, lz, hx, hz = (mats[x] for x in ("lx", "lz", "hx", "hz"))
        if len(lx) != k or len(lz) != k or (k and ((hz @ lx.T % 2).any() or (hx @ lz.T % 2).any() or gf2.rank(lx @ lz.T % 2) != k)):
            out.bad("logicals", f"{desc}: {len(lx)} X and {len(lz)} Z logical operators that do not generate the {k} logical qubits")
            return False
    a, b, c, d = st["answers"]
    want = {"n": n, "k": k}
    if st["distance"]:
        want.update({"dZ": a, "dX": b})
        if dim == 4:
            want.update({"dMX": c, "dMZ": d})
    if dim == 4 and not st["distance"]:
        return True
    if failed is not None:  # the tool failed and this was reported; nothing may claim to describe the code
        if params.exists() and params.read_bytes() != before:
            try:
                got = json.loads(params.read_text())
            except ValueError:
                got = None
            if got is not None and any(got.get(x) != y for x, y in want.items()):
                out.bad("parameters", f"{desc}: the distance tool failed, the stored description says {got}")
                return False
        return True
    try:
        got = json.loads(params.read_text())
    except (OSError, ValueError) as e:
        out.bad("parameters", f"{desc}: no readable description is stored ({e}), distance tool {st['tool']}")
        return False
    events.append(got)
    if tool_bad and st["tool"] == "missing" or any(got.get(x) != y for x, y in want.items()):
        out.bad("parameters", f"{desc}: described as {got}; the code has {want} (distance tool {st['tool']})")
        return False
    return True


def dense(m) -> np.ndarray:
    return np.asarray(m.todense() if hasattr(m, "todense") else m).astype(int) % 2


def direct(st: dict, ref: dict, desc: str, out: Outcome) -> bool:
    """both generators build the product of the complexes, and refuse maps that do not compose to zero"""
    import scipy.sparse as sp

    dim = st["dim"]
    mods = [importlib.import_module(PKG + m) for m in ("sparse_code_constructor", "code_constructor")]
    f = [np.array(s) for s in st["seeds"]]
    f[1] = f[1].T
    # total complex of the first dim - 1 factors, maps written out by cells
    maps = total_complex(f[:-1])
    out.add("direct:" + str(dim))
    for name, mod in zip(("sparse", "dense"), mods):
        conv = sp.csr_matrix if name == "sparse" else np.array
        fn = mod.generate_3d_product_code if dim == 3 else mod.generate_4d_product_code
        res = [dense(m) for m in fn(*[conv(m) for m in maps], conv(f[-1]))]
        for d, m in enumerate(res, 1):
            if m.shape != (ref["size"][d - 1], ref["size"][d]) or m.sum() != ref["ones"][d] or gf2.rank(m) != ref["rank"][d]:
                out.bad("wrong-product", f"{desc}, {name} generator: map {d} is {m.shape} with {int(m.sum())} ones and rank {gf2.rank(m)}; "
                        f"the product has {(ref['size'][d - 1], ref['size'][d])}, {ref['ones'][d]} and {ref['rank'][d]}")
                return False
        for a, b in zip(res, res[1:]):
            if (a @ b % 2).any():
                out.bad("inconsistent", f"{desc}, {name} generator: consecutive maps do not compose to zero")
                return False
        # a damaged map: refused exactly if the maps no longer compose to zero
        bad = [m.copy() for m in maps]
        x, y = int(st["flip"][0] * bad[0].shape[0]), int(st["flip"][1] * bad[0].shape[1])
        bad[0][x, y] ^= 1
        broken = any((a @ b % 2).any() for a, b in zip(bad, bad[1:]))
        try:
            fn(*[conv(m) for m in bad], conv(f[-1]))
            refused = False
        except RuntimeError:
            refused = True
        if refused != broken:
            out.bad("refusal", f"{desc}, {name} generator: maps that {'do not ' if broken else ''}compose to zero are {'refused' if refused else 'accepted'}")
            return False
    return True


def total_complex(f: list) -> list:
    """boundary maps of the total complex of two or three two-term complexes (degree 1 -> degree 0)"""
    k = len(f)
    cells = [[c for s in itertools.combinations(range(k), q) for c in itertools.product(*[[(1 if i in s else 0, j) for j in range(f[i].shape[1 if i in s else 0])] for i in range(k)])]
             for q in range(k + 1)]
    pos = [{c: n for n, c in enumerate(level)} for level in cells]
    maps = []
    for q in range(1, k + 1):
        m = np.zeros((len(cells[q - 1]), len(cells[q])), dtype=int)
        for c, n in pos[q].items():
            for i in range(k):
                if c[i][0]:
                    for r in np.nonzero(f[i][:, c[i][1]])[0]:
                        m[pos[q - 1][c[:i] + ((0, int(r)),) + c[i + 1:]], n] ^= 1
        maps.append(m)
    return maps


def shrink(sc: dict):
    for i, st in enumerate(sc["steps"]):
        for key, val in (("fault", "none"), ("tool", "ok"), ("distance", False), ("logicals", False)):
            if st[key] != val:
                yield {"steps": [{**x, key: val} if j == i else x for j, x in enumerate(sc["steps"])]}
