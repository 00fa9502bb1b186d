"""S06: the evaluation command simulates exactly the circuit that was asked for, whatever circuits are stored, and prints what it measured."""
from __future__ import annotations

import contextlib
import importlib.util
import io
import os
import random
import re
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np

from dst import gf2, load, procsim, scratch
from dst.checks import s01
from dst.checks import sp_common as sp
from dst.checks.s03 import Seam, installed
from dst.core import Outcome, digest

PROPERTY = "S06"
LEVEL = "exploration"
RULE = ("one run = a seeded history of evaluation commands (code, state, methods, verification, rate, number of errors, gate parallelism) over a folder of stored circuits "
        "from which files are lost, or one sweep over error rates with workers finishing in seeded order; non-trivial = a simulated circuit was judged or a sweep recounted")
REAL = ["evaluation command, stored circuits, synthesis, verification, noisy simulator and decoder, z3", "sweep script under bash with flock"]
STUB = ["quantum device with fault injection", "worker processes (simulated)", "number of shots (scaled down; sampled results of codes with more than 15 qubits are made up)", "GNU parallel: seeded order; python of the sweep script: recorded answers"]
STATE_MEASURE = "distinct (request, stored circuits, simulated circuit)"
HANG_S = 300
_shrink = ("steps",)
FOLDER = "src/mqt/qecc/ft_stateprep/eval"
CODES = {"steane": ("steane", 3, 3, 3), "tetrahedral": ("tetrahedral", 3, 7, 3), "shor": ("shor", 3, 3, 3), "hamming": ("hamming", 3, 3, 3), "carbon": ("carbon", 4, 4, 4),
         "cc_4_8_8": ("cc_4_8_8", 5, 5, 5), "cc_6_6_6": ("cc_6_6_6", 5, 5, 5), "surface3": ("rotated_surface_d3", 3, 3, 3), "surface5": ("rotated_surface_d5", 5, 5, 5)}


def budget(tier: str) -> int:
    return 320 if tier == "quick" else 4000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    if index % 40 == 5:
        return {"steps": [], "sweep": {"rs": rng.getrandbits(40), "args": rng.choice([["steane"], ["surface", "-d", "3", "--plus_state"], ["shor", "--no_ver"]]), "name": rng.choice(["out", "res-1"])}}
    stored = sorted(str(p.relative_to(load.REPO / FOLDER / "circuits")) for p in (load.REPO / FOLDER / "circuits").glob("*/*.qasm"))
    folder = {v[0]: k for k, v in CODES.items()}
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.65:
            f = rng.choice(stored)
            d, name = f.split("/")
            w = name[:-5].split("_")
            st = {"code": folder[d], "zero": w[0] == "zero", "noft": w[1] == "non", "exact": w[3 if w[1] == "non" else 2] == "opt", "ver": "opt" if w[1] == "non" else w[3]}
            st["lost"] = rng.random() < 0.15
        else:
            st = {"code": rng.choice(["steane", "shor", "surface3", "steane", "shor", "surface3", "tetrahedral", "hamming"]), "zero": rng.random() < 0.5, "noft": rng.random() < 0.3,
                  "exact": rng.random() < 0.2, "ver": rng.choice(["heuristic", "opt", "naive"]), "lost": rng.random() < 0.5}
        if st["noft"] and st["ver"] == "opt" and rng.random() < 0.5:
            st["ver"] = rng.choice(["heuristic", "naive"])
        st.update({"p": rng.choice([0.01, 0.05, 0.1, 0.2]), "n": rng.choice([1, 2, 5, 20, 500]), "par": rng.random() < 0.7, "rs": rng.getrandbits(40)})
        steps.append(st)
    return {"steps": steps, "sweep": None}


def argv(st: dict) -> list[str]:
    code = st["code"]
    a = ["estimate"] + (["surface", "-d", code[7:]] if code.startswith("surface") else [code]) + ["-p", str(st["p"])]
    rng = random.Random(st["rs"])
    if not st["zero"]:
        a.append("--plus_state")
    elif rng.random() < 0.3:
        a.append("--zero_state")
    if st["exact"]:
        a.append("--exact_circ")
    elif rng.random() < 0.3:
        a.append("--heuristic_circ")
    if st["ver"] == "heuristic":
        a.append("--heuristic_ver")
    elif st["ver"] == "naive":
        a.append("--naive_ver")
    elif rng.random() < 0.3:
        a.append("--exact_ver")
    if st["noft"]:
        a.append("--no_ver")
    if st["n"] != 500:
        a += ["-n", str(st["n"])]
    if not st["par"]:
        a.append("--no_parallel_gates")
    return a


def run(sc: dict) -> Outcome:
    out = Outcome()
    events: list = []
    with scratch.scratch(cwd=True) as root:
        shutil.copytree(load.REPO / FOLDER / "circuits", root / "circuits")
        for p in (load.REPO / FOLDER).glob("*.py"):
            shutil.copy(p, root)
        if sc["sweep"]:
            sweep(sc["sweep"], root, out, events)
        for i, st in enumerate(sc["steps"]):
            if not step(st, i, root, out, events):
                break
    out.log = digest(events)
    return out


def step(st: dict, i: int, root: Path, out: Outcome, events: list) -> bool:  # noqa: PLR0911, PLR0912, PLR0915
    from qiskit import QuantumCircuit

    from mqt.qecc.ft_stateprep import LutDecoder
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator as Sim

    spec = importlib.util.spec_from_file_location("mqt.qecc.ft_stateprep.eval.estimate_logical_error_rate", root / "estimate_logical_error_rate.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    folder, d, dx, dz = CODES[st["code"]]
    zero = st["zero"]
    name = f"{'zero' if zero else 'plus'}_{'non_ft' if st['noft'] else 'ft'}_{'opt' if st['exact'] else 'heuristic'}" + ("" if st["noft"] else f"_{st['ver']}") + ".qasm"
    file = root / "circuits" / folder / name
    if st["lost"] and file.exists():
        file.unlink()
        out.add("fault:lost-circuit")
    stored = None
    if file.exists():
        stored = sp.ops_of(QuantumCircuit.from_qasm_file(file))
    elif st["code"] in ("carbon", "cc_4_8_8", "cc_6_6_6", "surface5") or (st["code"] in ("tetrahedral", "hamming") and (st["exact"] or st["ver"] == "opt" and not st["noft"])) \
            or (st["exact"] and st["code"] == "surface3"):
        return True  # synthesis takes too long here
    where = f"command {i}: {' '.join(argv(st)[1:])} ({'stored' if stored else 'no stored circuit ' + name})"
    seen: list = []
    orig_rate = Sim.logical_error_rate
    seam = Seam(st["rs"] % 2**30)

    def rate(self, *a, **k):
        full = dict(zip(("shots", "shots_per_batch", "at_least_min_errors", "min_errors"), a), **k)
        asked = dict(full)
        full.setdefault("shots", 1500)
        full.setdefault("shots_per_batch", 500)
        res = orig_rate(self, **full) if self.code.n < 16 else (st["rs"] % 997 / 997, st["rs"] % 991 / 991, st["rs"] % 89, 1500)  # lookup tables of large codes take minutes
        seen.append((self, asked, res))
        return res

    text = io.StringIO()
    old = sys.argv
    failed = None
    with procsim.installed(random.Random(st["rs"])) as psim, installed(seam):
        Sim.logical_error_rate = rate
        luts = {x: getattr(LutDecoder, x) for x in ("generate_x_lut", "generate_z_lut")}
        for x, f in luts.items() if CODES[st["code"]][1] > 4 else ():
            setattr(LutDecoder, x, lambda self, f=f: None)
        sys.argv = argv(st)
        try:
            with contextlib.redirect_stdout(text):
                mod.main()
        except (Exception, SystemExit) as e:  # noqa: BLE001
            failed = e
        finally:
            Sim.logical_error_rate = orig_rate
            for x, f in luts.items():
                setattr(LutDecoder, x, f)
            sys.argv = old
        stuck = psim.stuck
        out.add("sim:virtual-seconds", psim.clock)
        out.add("fault:worker-timeout", stuck)
    if failed is not None:
        events.append(type(failed).__name__)
        if stuck and not stored:
            return True
        if isinstance(failed, NotImplementedError) and not stored and st["code"] == "tetrahedral" and st["ver"] == "naive":
            return True  # heavy checks cannot be flagged for three faults; refused
        out.bad("failed", f"{where}: failed with {type(failed).__name__}: {failed}")
        return False
    if len(seen) != 1:
        out.bad("simulations", f"{where}: {len(seen)} simulations were made")
        return False
    sim, asked, res = seen[0]
    line = text.getvalue().strip().splitlines()
    got = [float(x) for x in line[-1].split(",")] if line and re.fullmatch(r"[-+.e\d,]+", line[-1]) else None
    if got is None or not np.allclose(got, [float(x) for x in res], rtol=1e-6, atol=1e-12):
        out.bad("wrong-report", f"{where}: printed {line[-1:]}, the simulation measured {tuple(map(float, res))}")
        return False
    if abs(sim.p - st["p"]) > 1e-12 or bool(sim.zero_state) != zero or bool(sim.parallel_gates) != st["par"] or asked.get("min_errors", 500) != st["n"] or asked.get("at_least_min_errors", True) is not True:
        out.bad("wrong-simulation", f"{where}: simulated at rate {sim.p} for the {'zero' if sim.zero_state else 'plus'} state, parallel gates {sim.parallel_gates}, {asked.get('min_errors', 500)} errors")
        return False
    if {"shots", "shots_per_batch"} & set(asked):
        out.add("probe:other-shots")
    # ---- the circuit
    hx, hz = reference(st["code"])
    n_data = hx.shape[1]
    mine = [np.array(m).astype(int) % 2 for m in (sim.code.Hx, sim.code.Hz)]
    if any(m.shape[1] != n_data or gf2.rank(np.vstack([m, h])) != gf2.rank(h) or gf2.rank(m) != gf2.rank(h) for m, h in zip(mine, (hx, hz))):
        out.bad("wrong-code", f"{where}: simulated with the checks of another code")
        return False
    lx, lz = gf2.logicals(hx, hz)
    n, nc, ops = sp.ops_of(sim.circ)
    gens = [("X", hx if zero else np.vstack([hx, lx])), ("Z", np.vstack([hz, lz]) if zero else hz)]
    out.nontrivial = True
    out.states.add(digest([argv(st), bool(stored), ops]))
    events.append(ops)
    events.append([float(x) for x in res])
    if stored and (n, nc, ops) != stored:
        out.bad("wrong-circuit", f"{where}: the stored circuit {name} was not the one simulated")
        return False
    if not s01.check_state(n, nc, ops, gens, st["rs"] % 1000, where, "the simulated circuit", out):
        return False
    if st["noft"]:
        if any(o[0] in ("measure", "reset") for o in ops) or n != n_data:
            out.bad("verified", f"{where}: a circuit without verification was asked for, {nc} verification measurements were simulated")
            return False
        return True
    locs = sp.locations(n, ops)
    sets = [[f] for x in locs for f in sp.all_faults(x)]
    fx, fz, fl = sp.frames(n, nc, ops, sets)
    ok = ~fl.any(axis=0) if nc else np.ones(len(sets), bool)
    t = (d - 1) // 2
    kind, err, dist = ("X", fx, dx) if zero else ("Z", fz, dz)
    e = err[:n_data]
    out.add("fault:pauli", len(sets))
    if st["ver"] == "naive":
        syn = ((hz if kind == "X" else hx) @ e % 2).any(axis=0)
        prep_end = next((j for j, o in enumerate(ops) if any(q >= n_data for q in o[1])), len(ops))
        early = np.array([x[0][0] < prep_end and x[0][1] != "flip" and all(q < n_data for q, _p in x[0][1]) for x in sets])
        bad = np.nonzero(ok & syn & early)[0]
    else:
        cw = sp.coset_weight(gens[0][1] if kind == "X" else gens[1][1], n_data)
        max_w = max((dist - 1) // 2, 1) // t
        bad = np.nonzero(ok & (cw(e) > max_w))[0]
    if len(bad):
        out.bad("undetected-error", f"{where}: the fault {sets[bad[0]]} leaves an undetected {kind} error on qubits {np.nonzero(e[:, bad[0]])[0].tolist()}")
        return False
    if st["ver"] != "naive" and t > 1:
        pair, npairs = s01.heavy_pair(e, fl, cw, max_w * 2)
        out.add("probe:pairs-of-faults", npairs)
        if pair:
            out.bad("undetected-error", f"{where}: the faults {sets[pair[0]] + sets[pair[1]]} leave an undetected heavy {kind} error")
            return False
    return True


def reference(code: str):
    """checks of the code, from the stored matrices or the lattice"""
    folder = {"cc_4_8_8": sp._oct5, "cc_6_6_6": sp._hex5}
    if code in folder:
        hx, hz = folder[code]()
        return np.array(hx, int), np.array(hz, int)
    d = load.REPO / "src/mqt/qecc/codes" / CODES[code][0]
    return np.load(d / "hx.npy").astype(int) % 2, np.load(d / "hz.npy").astype(int) % 2


PARALLEL = r'''#!/usr/bin/env python3
import os, random, subprocess, sys
a = sys.argv[1:]
i = a.index(":::")
opts, cmd, vals = [], [], a[i + 1:]
head = a[:i]
while head and head[0].startswith("-"):
    o = head.pop(0)
    if o in ("--load", "-j", "--jobs"):
        head.pop(0)
rng = random.Random(os.environ["DST_RS"])
rng.shuffle(vals)
for v in vals:
    subprocess.run(["bash", "-c", " ".join(head + [v])], check=False)
'''
PYTHON = r'''#!/bin/bash
p="${@: -1}"
echo "$@" >> "$DST_CALLS"
echo "$p" | tr -d '\n'; echo ",0.5,3,$(printf '%s' "$*" | cksum | cut -d' ' -f1)"
'''


def sweep(sw: dict, root: Path, out: Outcome, events: list) -> None:
    """the sweep script: one line per rate, each with the answer of its own evaluation"""
    tool = root / "tool"
    tool.mkdir()
    for name, body in (("parallel", PARALLEL), ("python", PYTHON)):
        (tool / name).write_text(body)
        (tool / name).chmod(0o755)
    shutil.copy(load.REPO / FOLDER / "run_eval_on_code.sh", root / "run.sh")
    env = {**os.environ, "PATH": f"{tool}:{os.environ['PATH']}", "DST_RS": str(sw["rs"]), "DST_CALLS": str(root / "calls")}
    r = subprocess.run(["bash", "run.sh", sw["name"], *sw["args"]], cwd=root, env=env, capture_output=True, text=True, check=False, timeout=120)
    where = f"sweep {sw['name']} {' '.join(sw['args'])}"
    try:
        lines = (root / f"{sw['name']}.csv").read_text().splitlines()
        calls = (root / "calls").read_text().splitlines()
    except OSError as e:
        out.bad("sweep", f"{where}: no results ({e.strerror}): {r.stderr[-300:]}")
        return
    out.nontrivial = True
    out.add("fault:seeded-order", len(lines))
    out.states.add(digest(lines))
    events.append(lines)
    head, rows = lines[0], lines[1:]
    ps = [row.split(" ", 1)[0] for row in rows]
    if head.split() != ["p", "p_l", "acceptance", "errors", "runs"] or len(set(ps)) != len(ps) or len(calls) != len(rows):
        out.bad("sweep", f"{where}: {len(rows)} rows for {len(calls)} evaluations, {len(set(ps))} different rates, header {head!r}")
        return
    if {float(x) for x in ps} < {0.00005, 0.0001, 0.001, 0.01, 0.1, 0.5}:
        out.bad("sweep", f"{where}: rates {sorted(map(float, ps))}")
        return
    for row in rows:
        p, res = row.split(" ", 1)
        want = ["estimate_logical_error_rate.py", *sw["args"], "-p", p]
        sums = [c for c in calls if c.split() == want]
        ck = subprocess.run(["cksum"], input=" ".join(want), capture_output=True, text=True, check=True).stdout.split()[0]
        if len(sums) != 1 or res.replace(",", " ").split() != [p, "0.5", "3", ck]:
            out.bad("sweep", f"{where}: the row of rate {p} reads {res!r}; evaluations for this rate: {sums}")
            return


def shrink(sc: dict):
    for i, st in enumerate(sc["steps"]):
        for key, val in (("par", True), ("n", 500), ("p", 0.1), ("lost", False)):
            if st[key] != val:
                yield {**sc, "steps": [{**x, key: val} if j == i else x for j, x in enumerate(sc["steps"])]}
