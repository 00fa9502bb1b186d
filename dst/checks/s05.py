"""S05: flagged stabilizer measurements: right value fault-free, every dangerous combination of faults raises a flag."""
from __future__ import annotations

import itertools
import random

import numpy as np

from dst.checks import sp_common as sp
from dst.core import Outcome, digest

PROPERTY = "S05"
LEVEL = "exploration"
RULE = ("one run = one flagged measurement of a product of up to 18 Pauli operators of one type on a seeded set of qubits in a seeded stabilizer "
        "state, first without faults, then under seeded sets of at most t circuit faults (all single faults, sampled pairs); "
        "non-trivial = at least one fault set was propagated")
REAL = ["construction of flagged measurement circuits"]
STUB = ["quantum device with fault injection: stabilizer simulator and Pauli-frame simulator owned by the check"]
STATE_MEASURE = "distinct (weight, protection level, type, fault sets of the run)"
HANG_S = 120


def budget(tier: str) -> int:
    return 3000 if tier == "quick" else 40000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    w = index % 18 + 1
    n = w + rng.randint(0, 3)
    stab = rng.sample(range(n), w)
    if rng.random() < 0.5:
        stab.sort()
    t = rng.choices([1, 2, 3, 4], [8, 14, 1, 1])[0]
    return {"w": w, "n": n, "stab": stab, "t": t, "z": rng.random() < 0.5, "before": rng.randint(0, 2), "rs": rng.getrandbits(40),
            "pairs": 4000 if tier == "quick" else 30000}


def run(sc: dict) -> Outcome:
    from mqt.qecc.ft_stateprep import state_prep
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister

    out = Outcome()
    rng = random.Random(sc["rs"])
    q, anc, c = QuantumRegister(sc["n"], "q"), AncillaRegister(2, "a"), ClassicalRegister(2, "c")
    circ = QuantumCircuit(q, anc, c)
    for _ in range(sc["before"]):
        circ.cx(q[0], q[-1]) if sc["n"] > 1 else None
    start = len(circ.data)
    where = f"weight {sc['w']}, protection against {sc['t']} faults, {'Z' if sc['z'] else 'X'} type, qubits {sc['stab']}"
    try:
        state_prep.measure_flagged(circ, np.array(sc["stab"]), anc[1], c[1], sc["t"], z_measurement=sc["z"])
    except NotImplementedError:
        out.add("probe:refused")
        out.log = "refused"
        if sc["t"] <= 2:
            out.bad("refused", f"{where}: refused")
        return out
    except Exception as e:  # noqa: BLE001
        out.bad("failed", f"{where}: construction failed with {type(e).__name__}: {e}")
        return out
    n, nc, ops = sp.ops_of(circ)
    data, a1 = list(range(sc["n"])), circ.qubits.index(anc[1])
    cbit = circ.clbits.index(c[1])
    flags = [o[2] for o in ops if o[0] == "measure" and o[2] != cbit]
    # ---- fault-free: value of the operator, state undisturbed, no flag
    prep: list = []
    for _ in range(4 * sc["n"]):
        k = rng.random()
        prep.append(("h", (rng.choice(data),)) if k < 0.3 else ("s", (rng.choice(data),)) if k < 0.45 else
                    ("cx", tuple(rng.sample(data, 2))) if sc["n"] > 1 else ("h", (0,)))
    seed = rng.getrandbits(30)

    def prepare(s):
        for name, qs in prep:
            getattr(s, name)(*qs)
        return s

    import stim

    def pauli():
        p = stim.PauliString(n)
        for x in sc["stab"]:
            p[x] = "Z" if sc["z"] else "X"
        return p

    eigen = [None]

    def prepare_eigen(s):
        prepare(s)
        eigen[0] = int(s.measure_observable(pauli()))

    bits, s = sp.simulate(n, nc, ops[start:], seed, prepare_eigen)
    if bits[cbit] != eigen[0]:
        out.bad("wrong-value", f"{where}: the operator has value {eigen[0]}, measured {bits[cbit]}")
    if any(bits[f] for f in flags):
        out.bad("false-flag", f"{where}: flags {[bits[f] for f in flags]} without a fault")
    # the eigenstate must be unchanged on the data
    ref = stim.TableauSimulator(seed=seed)
    ref.set_num_qubits(n)
    prepare_eigen(ref)
    for st in ref.canonical_stabilizers():
        if any(st[i] for i in range(sc["n"], n)):
            continue
        if s.peek_observable_expectation(st) != 1:
            out.bad("disturbed", f"{where}: the measured state changed: {st}")
            break
    # an undetermined operator must be projected onto the reported value
    bits2, s2 = sp.simulate(n, nc, ops[start:], seed + 1, prepare)
    if s2.peek_observable_expectation(pauli()) != (-1 if bits2[cbit] else 1) or any(bits2[f] for f in flags):
        out.bad("wrong-projection", f"{where}: the state is not projected onto the measured value")
    if out.violations:
        return out
    # ---- faults
    ops = ops[start:]
    locs = [x for x in sp.locations(n, ops)]
    singles = [f for x in locs for f in sp.all_faults(x)]
    sets: list[list] = [[f] for f in singles]
    if sc["t"] >= 2:
        total = len(singles) * (len(singles) - 1) // 2
        if total <= sc["pairs"]:
            sets += [list(p) for p in itertools.combinations(singles, 2)]
        else:
            for _ in range(sc["pairs"]):
                x, y = rng.sample(locs, 2)
                sets.append([sp.rand_fault(rng, x), sp.rand_fault(rng, y)])
    # an initialisation fault of the ancillas counts; of the data it is an input error
    fx, fz, fl = sp.frames(n, nc, ops, sets)
    quiet = ~fl[flags].any(axis=0) if flags else np.ones(len(sets), bool)
    stab = np.zeros(sc["n"], int)
    stab[sc["stab"]] = 1
    for name, err, gens in (("X", fx, stab if not sc["z"] else None), ("Z", fz, stab if sc["z"] else None)):
        e = err[: sc["n"]]
        wt = e.sum(axis=0)
        if gens is not None:
            wt = np.minimum(wt, (e ^ stab[:, None].astype(bool)).sum(axis=0))
        size = np.array([len(x) for x in sets])
        bad = np.nonzero(quiet & (wt > size))[0]
        if len(bad):
            i = int(bad[0])
            out.bad("unflagged-error", f"{where}: the {len(sets[i])} fault(s) {sets[i]} leave an {name} error on {np.nonzero(e[:, i])[0].tolist()} "
                                       "of larger weight and no flag is raised")
            break
    out.add("fault:pauli", sum(1 for x in sets for f in x if f[1] != "flip"))
    out.add("fault:readout-flip", sum(1 for x in sets for f in x if f[1] == "flip"))
    out.add("sim:fault-sets", len(sets))
    out.add("probe:flagged", float((~quiet).sum()))
    out.nontrivial = True
    out.states.add(digest([sc["w"], sc["t"], sc["z"], sets[-200:]]))
    out.log = digest([len(ops), int(quiet.sum()), int(fx.sum()), int(fz.sum()), eigen])
    return out


def shrink(sc: dict):
    if sc["n"] > sc["w"]:
        yield {**sc, "n": sc["w"], "stab": list(range(sc["w"]))}
    if sc["stab"] != sorted(sc["stab"]):
        yield {**sc, "stab": sorted(sc["stab"])}
    if sc["before"]:
        yield {**sc, "before": 0}
