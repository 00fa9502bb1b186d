"""S01: fault-tolerant state preparation: faults in preparation and verification never leave an undetected heavy error."""
from __future__ import annotations

import itertools
import random
import time

import numpy as np

from dst import gf2, procsim
from dst.checks import sp_common as sp
from dst.core import Outcome, digest

PROPERTY = "S01"
LEVEL = "exploration"
RULE = ("one run = one code (seeded qubit order and generators), target state, synthesis method and verification method; the verified circuit is "
        "executed without faults on the simulated device, then under all single circuit faults and, for distance five, all pairs of faults covered by the method; "
        "non-trivial = fault sets were propagated through a verified circuit")
REAL = ["synthesis of preparation and verification circuits (heuristic, SAT-based, naive), flagged measurements, z3"]
STUB = ["quantum device with fault injection (stabilizer and Pauli-frame simulators owned by the check)",
        "worker processes of the SAT searches (simulated, run in-process)"]
STATE_MEASURE = "distinct (circuit, undetected error cosets)"
HANG_S = 300
FAST = ["steane", "steane", "shor", "shor-dual", "surface3", "surface3", "tetrahedral", "tetrahedral-dual", "hamming", "422", "642", "412",
        "shor24", "surface2", "shor35"]


def budget(tier: str) -> int:
    return 400 if tier == "quick" else 4000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    slow = index % (40 if tier == "quick" else 20) == 7
    fam = rng.choice(["hex5", "oct5"]) if slow else rng.choice(FAST)
    sc = {"family": fam, "mix": rng.choice([0, rng.getrandbits(30)]), "zero": rng.random() < 0.5, "full": rng.random() < 0.6,
          "prep": rng.choice(["heuristic", "heuristic", "heuristic-gates"]), "ver": rng.choice(["heuristic"] * 4 + ["optimal"] * 2 + ["naive"]),
          "cover": rng.choice([10000, 50, 300]), "leaders": rng.random() < 0.6, "rs": rng.getrandbits(40), "detect": rng.random() < 0.1}
    small = sp.FAMILIES[fam][1] == 2 or fam in ("steane",)
    if small and rng.random() < 0.4:
        sc["prep"] = rng.choice(["depth", "gates"])
    if slow:
        sc["full"] = rng.random() < 0.8
        sc["zero"] = rng.random() < 0.4
        sc["ver"] = "heuristic"
        sc["cover"] = 300
        sc["detect"] = False
    if fam in ("tetrahedral", "tetrahedral-dual", "hamming", "shor35") and sc["ver"] == "optimal" and rng.random() < 0.7:
        sc["ver"] = "heuristic"
    return sc


def synthesise(sc: dict, code, out: Outcome):
    from mqt.qecc.ft_stateprep import state_prep as m

    zero = sc["zero"]
    if sc["prep"] == "depth":
        prep = m.depth_optimal_prep_circuit(code, zero_state=zero, max_depth=8)
    elif sc["prep"] == "gates":
        prep = m.gate_optimal_prep_circuit(code, zero_state=zero, max_gates=16)
    else:
        prep = m.heuristic_prep_circuit(code, optimize_depth=sc["prep"] == "heuristic", zero_state=zero)
    return prep


def check_state(n, nc, ops, code_gens, seed, where, what, out: Outcome) -> bool:
    """fault-free: every recorded bit is 0 and all stabilizers of the target state hold"""
    import stim

    bits, s = sp.simulate(n, nc, ops, seed)
    if any(bits):
        out.bad("false-alarm", f"{where}: {what} rejects the fault-free state: bits {bits}")
        return False
    for kind, rows in code_gens:
        for r in rows:
            p = stim.PauliString(n)
            for i in np.nonzero(r)[0]:
                p[int(i)] = kind
            if s.peek_observable_expectation(p) != 1:
                out.bad("wrong-state", f"{where}: {what}: {kind} on qubits {np.nonzero(r)[0].tolist()} is not +1 on the prepared state")
                return False
    return True


def early_locations(n, n_data, ops, locs, zero):
    """fault locations before the first ancilla that verifies errors of the second type is touched"""
    main = "Z" if zero else "X"
    first: dict[int, tuple[int, str]] = {}
    for i, (name, qs, _c) in enumerate(ops):
        for q in qs:
            if q >= n_data and q not in first:
                first[q] = (i, "X" if name == "h" else "Z")
    start = min([i for i, kind in first.values() if kind != main], default=len(ops))
    return [x for x in locs if x[0] < start and all(q < n_data or first.get(q, (start,))[0] < start for q in x[1])]


def heavy_pair(e, fl, cw, limit):
    """two faults whose joint effect (frames are linear) is undetected and heavier than the limit; number of pairs looked at"""
    _, first = np.unique(np.vstack([e, fl]), axis=1, return_index=True)
    groups: dict[bytes, list[int]] = {}
    for i in first:
        groups.setdefault(fl[:, i].tobytes(), []).append(int(i))
    total = 0
    for idx in groups.values():
        for a, i in enumerate(idx[:-1]):
            rest = idx[a + 1:]
            total += len(rest)
            bad = np.nonzero(cw(e[:, rest] ^ e[:, [i]]) > limit)[0]
            if len(bad):
                return (i, rest[int(bad[0])]), total
    return None, total


def run(sc: dict) -> Outcome:
    from mqt.qecc.ft_stateprep import state_prep as m

    out = Outcome()
    rng = random.Random(sc["rs"])
    hx, hz = sp.matrices(sc)
    n_data = hx.shape[1]
    code = sp.css_code(sc)
    _, d, dx, dz = sp.FAMILIES[sc["family"]]
    lx, lz = gf2.logicals(hx, hz)
    zero = sc["zero"]
    gens = [("X", hx if zero else np.vstack([hx, lx])), ("Z", np.vstack([hz, lz]) if zero else hz)]
    where = f"{sc['family']} (mix {sc['mix']}), {'zero' if zero else 'plus'} state, {sc['prep']} preparation, {sc['ver']} verification" + (
        ", full fault tolerance" if sc["full"] else "") + (", error detection" if sc["detect"] else "")
    with procsim.installed(random.Random(sc["rs"] + 1)) as sim:
        try:
            prep = synthesise(sc, code, out)
        except Exception as e:  # noqa: BLE001
            out.bad("failed", f"{where}: synthesis failed with {type(e).__name__}: {e}")
            return out
        if prep is None:
            out.bad("failed", f"{where}: no circuit found although one exists")
            return out
        n, nc, ops = sp.ops_of(prep.circ)
        if not check_state(n, nc, ops, gens, sc["rs"] % 1000, where, "the preparation circuit", out):
            return out
        if sc["detect"]:
            prep.set_error_detection(True)
        try:
            if sc["ver"] == "heuristic":
                circ = m.heuristic_verification_circuit(prep, sc["cover"], sc["leaders"], sc["full"])
            elif sc["ver"] == "optimal":
                circ = m.gate_optimal_verification_circuit(prep, min_timeout=5, max_timeout=20, full_fault_tolerance=sc["full"])
            else:
                circ = m.naive_verification_circuit(prep)
        except NotImplementedError:
            out.add("probe:refused")
            if prep.max_errors <= 2 and max(dx, dz) <= 6:
                out.bad("refused", f"{where}: refused")
            out.log = "refused"
            return out
        except Exception as e:  # noqa: BLE001
            out.bad("failed", f"{where}: verification failed with {type(e).__name__}: {e}")
            return out
        out.add("sim:virtual-seconds", sim.clock)
        out.add("fault:worker-timeout", sim.stuck)
    n, nc, ops = sp.ops_of(circ)
    if circ.qubits[: n_data] != list(circ.qubits)[: n_data]:
        raise AssertionError
    if not check_state(n, nc, ops, gens, sc["rs"] % 1000 + 1, where, "the verified circuit", out):
        return out
    # ---------------- faults
    n_prep = len(sp.ops_of(prep.circ)[2])
    t = max(1, (d - 1) // 2)
    locs = sp.locations(n, ops)
    prep_locs = [x for x in locs if x[0] < n_prep and all(q < n_data for q in x[1])]
    sets = [[f] for x in locs for f in sp.all_faults(x)]
    owner = [x[0:2] for x in locs for _ in sp.all_faults(x)]
    n_single = len(sets)
    fx, fz, fl = sp.frames(n, nc, ops, sets)
    ok = ~fl.any(axis=0) if nc else np.ones(len(sets), bool)
    size = np.array([len(x) for x in sets])
    und = []
    for kind, err, dist in (("X", fx, dx), ("Z", fz, dz)):
        main = (kind == "X") == zero
        if sc["ver"] == "naive":  # claims no more than: what the code's own checks can see at the end of the preparation is rejected
            e = err[:n_data]
            syn = ((hz if kind == "X" else hx) @ e % 2).any(axis=0)
            late = np.array([any(f[0] >= n_prep or (f[0] == -1 and (f[1] == "flip" or f[1][0][0] >= n_data)) for f in x) for x in sets])
            bad = np.nonzero(ok & syn & ~late)[0]
            und.append(int((ok & syn).sum()))
            if len(bad):
                i = int(bad[0])
                out.bad("undetected-error", f"{where}: fault(s) {sets[i]} in the preparation circuit leave a {kind} error on qubits "
                                            f"{np.nonzero(e[:, i])[0].tolist()} that violates checks of the code, yet no measurement reports it", sig=f"naive-{kind}")
                break
            continue
        if not main and not sc["full"]:
            continue
        max_w = max((dist - 1) // 2, 1) // t
        e = err[:n_data]
        cw = sp.coset_weight(gens[0][1] if kind == "X" else gens[1][1], n_data)
        w = cw(e)
        bad = np.nonzero(ok & (w > max_w * size))[0]
        und.append(int((ok & (w > 0)).sum()))
        if len(bad):
            i = int(bad[0])
            where_f = "preparation" if all(f[0] < n_prep for f in sets[i]) else "verification"
            out.bad("undetected-error", f"{where}: fault(s) {sets[i]} in the {where_f} circuit ({n_prep} + {len(ops) - n_prep} operations) leave an undetected {kind} error "
                                        f"on qubits {np.nonzero(e[:, i])[0].tolist()}, reduced weight {int(w[i])}; {len(bad)} of {len(sets)} fault sets do", sig=f"undetected-{kind}-{where_f}")
            break
        if t < 2:
            continue
        # all pairs: of the preparation, and, for the second error type, of everything before the measurements that verify that type
        allowed = {x[0:2] for x in (prep_locs if main else early_locations(n, n_data, ops, locs, zero))}
        cols = [i for i in range(n_single) if owner[i] in allowed]
        pair, npairs = heavy_pair(e[:, cols], fl[:, cols], cw, max_w * 2)
        out.add("probe:pairs-of-faults", npairs)
        if pair:
            i, j = (cols[k] for k in pair)
            v = e[:, i] ^ e[:, j]
            out.bad("undetected-error", f"{where}: faults {sets[i] + sets[j]} ({n_prep} + {len(ops) - n_prep} operations) leave an undetected {kind} error "
                                        f"on qubits {np.nonzero(v)[0].tolist()}, reduced weight {int(cw(v[:, None])[0])}", sig=f"undetected-pair-{kind}")
            break
    out.add("fault:pauli", sum(1 for x in sets for f in x if f[1] != "flip"))
    out.add("fault:readout-flip", sum(1 for x in sets for f in x if f[1] == "flip"))
    out.add("sim:fault-sets", len(sets))
    out.add("probe:detected", float((~ok).sum()))
    out.add(f"probe:family-{sc['family']}")
    out.nontrivial = True
    out.states.add(digest([ops, und]))
    out.log = digest([ops, und, int(ok.sum()), n_single])
    return out


def shrink(sc: dict):
    if sc["mix"]:
        yield {**sc, "mix": 0}
    if sc["prep"] != "heuristic":
        yield {**sc, "prep": "heuristic"}
    if sc["ver"] != "heuristic":
        yield {**sc, "ver": "heuristic"}
    if sc["detect"]:
        yield {**sc, "detect": False}
    if sc["full"]:
        yield {**sc, "full": False}
