"""L01: the lights-out MaxSAT decoder over histories of decodes, failed decodes and external-solver faults."""
from __future__ import annotations

import math
import random
import subprocess
from functools import lru_cache
from pathlib import Path

import numpy as np

from dst.core import Outcome, digest
from dst.rebind import popen, rebound
from dst.scratch import scratch

PROPERTY = "L01"
LEVEL = "exploration"
RULE = ("one run = one decoder instance driven through a seeded history of solves (built-in solver, external solver, unsolvable patterns) "
        "with injected solver and file faults; non-trivial = at least one non-zero pattern was decoded and checked")
REAL = ["LightsOut encoding and decoding", "z3 optimiser", "colour-code lattice construction"]
STUB = ["external MaxSAT solver process (records the instance it is handed, fails on demand)"]
STATE_MEASURE = "distinct (problem, pattern, position in history) decodes"
HANG_S = 200
FAULTS = ["solver-missing", "solver-oserror", "solver-killed", "solver-garbage", "output-unwritable", "check-unknown", "check-raises", "unsat"]


def budget(tier: str) -> int:
    return 12000 if tier == "quick" else 150000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    kind = rng.choices(["hexagon3", "square_octagon3", "hexagon5", "square_octagon5", "square_octagon7", "hexagon7", "random"],
                       [4, 4, 3, 3, 1, 1, 8])[0]
    sc: dict = {"kind": kind, "rs": rng.getrandbits(40)}
    if kind == "random":
        n, m = rng.randint(2, 18), rng.randint(1, 9)
        if rng.random() < 0.2:  # two-digit numbers of lights, some of them attached to many switches
            n, m = rng.randint(12, 20), rng.randint(11, 13)
            rows = [sorted(rng.sample(range(n), rng.choice([2, 2, 3, 4, 12 if i < 3 else 5]))) for i in range(m)]
        else:
            rows = [sorted(rng.sample(range(n), rng.randint(2, n))) for _ in range(m)]
        if rng.random() < 0.5:
            for r in rows:
                rng.shuffle(r)
        sc["rows"] = rows
    steps = []
    for _ in range(rng.randint(1, 4 if kind.endswith("7") else 10)):
        st: dict = {"w": rng.choice([0, 1, 1, 2, 2, 3, 5, 8]), "seed": rng.getrandbits(30), "op": "solve"}
        r = rng.random()
        if r < 0.12:
            st["op"] = "external"
        elif r < 0.3:
            st["op"] = rng.choice(FAULTS)
        steps.append(st)
    sc["steps"] = steps
    sc["_shrink"] = ["steps"]
    return sc


@lru_cache(maxsize=8)
def lattice(kind: str):
    from mqt.qecc.cc_decoder import code_from_string

    return code_from_string(kind[:-1], int(kind[-1]))


@lru_cache(maxsize=16)
def leaders(key: tuple, m: int) -> np.ndarray:
    """weight of the lightest switch set per light pattern (-1: unsolvable), breadth first over patterns"""
    dist = np.full(1 << m, -1, dtype=np.int16)
    dist[0] = 0
    front = np.array([0])
    w = 0
    while len(front):
        w += 1
        nxt = np.unique(np.concatenate([front ^ c for c in key])) if key else np.array([], int)
        nxt = nxt[dist[nxt] < 0]
        dist[nxt] = w
        front = nxt
    return dist


class Sub:
    """stands in for the external solver process"""

    def __init__(self) -> None:
        self.mode = "ok"
        self.calls: list[str] = []

    def __call__(self, args, *a, **k):
        text = ""
        for x in args[1:]:
            x = str(x)
            if "wcnf" not in x.split("\n")[0] and "\n" not in x and Path(x).is_file():
                x = Path(x).read_text()
            text += x
        if isinstance(k.get("input"), (str, bytes)):
            text += k["input"] if isinstance(k["input"], str) else k["input"].decode()
        if hasattr(k.get("stdin"), "read"):
            text += k["stdin"].read()
        self.calls.append(text)
        if self.mode == "solver-missing":
            raise FileNotFoundError(2, "No such file or directory", str(args[0]))
        if self.mode == "solver-oserror":
            raise OSError(7, "Argument list too long")
        rc = 0
        if self.mode == "solver-killed":
            rc = -9
        elif self.mode == "solver-garbage" and hasattr(k.get("stdout"), "write"):
            k["stdout"].write("v \x00 s UNKNOWN\n")
        elif self.mode == "external" and hasattr(k.get("stdout"), "write"):
            k["stdout"].write(f"v answer {len(self.calls)}\n")
        return rc


def judged(problem, rng: random.Random, est: list, pat: int, cols: list, m: int) -> str:
    """the decoder's own judgement of a model: does it switch off the lights, how many switches does it use"""
    import z3

    pressed = est if rng.random() < 0.6 else [rng.randrange(2) for _ in est]
    if rng.random() < 0.3:
        pat ^= 1 << rng.randrange(m)
    solver = z3.Solver()
    for var, x in zip(problem.switch_vars, pressed):
        solver.add(var if x else z3.Not(var))
    if solver.check() != z3.sat:
        return "its switches cannot be set freely"
    left = pat
    for q, x in enumerate(pressed):
        left ^= cols[q] if x else 0
    got = bool(problem.validate_model(solver.model(), [bool(pat >> i & 1) for i in range(m)]))
    if got != (left == 0):
        return f"switches {pressed} on lights {pat:b} are {'accepted' if got else 'refused'}"
    if problem.count_switches(solver.model()) != sum(pressed):
        return f"{problem.count_switches(solver.model())} switches counted in {pressed}"
    return ""


def run(sc: dict) -> Outcome:
    import z3

    z3.z3._main_ctx = None  # a fresh solver context per run: ties are broken the same way on every replay
    from mqt.qecc.cc_decoder import decoder

    out = Outcome()
    if sc["kind"] == "random":
        rows = sc["rows"]
        n = max(max(r) for r in rows) + 1
        l2s = {i: list(r) for i, r in enumerate(rows)}
        s2l = {q: [i for i, r in enumerate(rows) if q in r] for q in range(n)}
    else:
        code = lattice(sc["kind"])
        l2s, s2l = code.faces_to_qubits, code.qubits_to_faces
        n = len(s2l)
    m = len(l2s)
    cols = [0] * n
    for i, r in l2s.items():
        for q in r:
            cols[q] |= 1 << i
    dist = leaders(tuple(cols), m)
    problem = decoder.LightsOut({k: list(v) for k, v in l2s.items()}, {k: list(v) for k, v in s2l.items()})
    sub = Sub()
    orig_popen, orig_check = subprocess.Popen, z3.Optimize.check
    fake = popen(sub)
    log = []
    with scratch(cwd=True) as d, rebound((orig_popen, fake)):
        subprocess.Popen = fake
        try:
            problem.preconstruct_z3_instance()
            for k, st in enumerate(sc["steps"]):
                op = st["op"]
                rng = random.Random(st["seed"])
                pat = 0
                for q in rng.sample(range(n), min(st["w"], n)):
                    pat ^= cols[q]
                if op == "unsat":
                    bad = [int(x) for x in np.flatnonzero(dist < 0)]
                    if not bad:
                        op = "solve"
                    else:
                        pat = rng.choice(bad)
                lights = [bool(pat >> i & 1) for i in range(m)]
                where = f"step {k} ({op}) of {[s['op'] for s in sc['steps']]} on {sc['kind']} {sc.get('rows', '')}, lights {lights}"
                sub.mode = op
                external = op in ("external", "solver-missing", "solver-oserror", "solver-killed", "solver-garbage", "output-unwritable")
                if op in FAULTS:
                    out.add(f"fault:{op}")
                if op == "output-unwritable":
                    (d / "solver-out_ms.txt").unlink(missing_ok=True)
                    (d / "solver-out_ms.txt").mkdir(exist_ok=True)
                elif op == "check-unknown":
                    z3.Optimize.check = lambda self, *a: z3.unknown
                elif op == "check-raises":
                    def boom(self, *a):
                        raise z3.Z3Exception("canceled")
                    z3.Optimize.check = boom
                ncalls = len(sub.calls)
                err, res = None, None
                try:
                    res = problem.solve(list(lights), **({"solver_path": "some/dir/ms"} if external else {}))
                except Exception as e:  # noqa: BLE001
                    err = e
                finally:
                    z3.Optimize.check = orig_check
                    if op == "output-unwritable":
                        (d / "solver-out_ms.txt").rmdir()
                log.append([op, pat, None if res is None else list(map(int, res[0])), type(err).__name__])
                if op in ("solver-missing", "solver-oserror", "check-unknown", "check-raises", "unsat"):
                    if err is None:
                        out.bad("silent-failure", f"{where}: no error, returned {res[0]}")
                        break
                    continue
                if op in ("output-unwritable", "solver-killed", "solver-garbage"):
                    continue
                if err is not None:
                    out.bad("decode-failed", f"{where}: {type(err).__name__}: {err}")
                    break
                if op == "external":
                    if len(sub.calls) != ncalls + 1:
                        out.bad("external-not-called", where)
                        break
                    # the instance itself is not judged: z3 numbers the soft clauses of its WCNF dumps wrongly
                    if "wcnf" not in sub.calls[-1]:
                        out.bad("wrong-instance", f"{where}: the solver was handed no MaxSAT instance: {sub.calls[-1][:200]}")
                        break
                    kept = d / "solver-out_ms.txt"
                    if not kept.is_file() or f"v answer {len(sub.calls)}\n" not in kept.read_text(errors="replace"):
                        out.bad("answer-lost", f"{where}: the answer of the solver was not kept")
                        break
                    continue
                est = [int(x) for x in res[0]]
                got = 0
                for q, x in enumerate(est):
                    if x & 1:
                        got ^= cols[q]
                if len(est) != n or any(x not in (0, 1) for x in est) or got != pat:
                    out.bad("wrong-syndrome", f"{where}: {est} does not switch off the lights")
                    break
                if sum(est) != dist[pat]:
                    out.bad("not-minimal", f"{where}: weight {sum(est)}, lightest solution weighs {dist[pat]}")
                    break
                if not all(math.isfinite(float(t)) and float(t) >= 0 for t in res[1:3]):
                    out.bad("negative-time", f"{where}: times {res[1:3]}")
                    break
                if rng.random() < 0.25 and (msg := judged(problem, rng, est, pat, cols, m)):
                    out.bad("validation", f"{where}: {msg}")
                    break
                out.states.add(digest([sc["kind"], sc.get("rows"), pat, k]))
                out.nontrivial = out.nontrivial or pat != 0
                out.add("sim:decodes")
        finally:
            subprocess.Popen, z3.Optimize.check = orig_popen, orig_check
    # equally light solutions may differ between solver versions, never between runs of one build
    out.log = digest(log)
    return out


def shrink(sc: dict):
    for i, st in enumerate(sc["steps"]):
        if st["w"] > 1:
            yield {**sc, "steps": [*sc["steps"][:i], {**st, "w": st["w"] - 1}, *sc["steps"][i + 1:]]}
