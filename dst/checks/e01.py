"""E01: a protected circuit, executed on a fault-free device, behaves like the original circuit."""
from __future__ import annotations

import random

from dst import qsim
from dst.core import Outcome, digest

from . import ecc_common as ec

PROPERTY = "E01"
LEVEL = "exploration"
RULE = ("one run = one seeded logical circuit, encoded through the public entry point with a seeded scheme, correction "
        "frequency and register layout, then executed several times on the simulated device with simulator-owned measurement "
        "randomness; non-trivial = the circuit has at least one gate and was accepted and executed")
REAL = ["C++ ECC framework (all schemes) and its Python entry point, OpenQASM import/export of mqt-core, qiskit import"]
STUB = ["quantum device: stabilizer / dense state-vector simulator owned by the check"]
STATE_MEASURE = "distinct (scheme, frequency, outcome-support) of executed encoded programs"
SCHEMES = ["Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
DESTRUCTIVE = {"Q5Laflamme", "Q7Steane", "Q9Surface", "Q18Surface"}


def budget(tier: str) -> int:
    return 1600 if tier == "quick" else 20000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    scheme = SCHEMES[index % len(SCHEMES)]
    anyg = rng.random() < 0.2
    gateset = list(ec.SUPPORTED[scheme])
    if rng.random() < 0.5:
        gateset = [g for g in gateset if g not in ("t", "tdg")]
    if anyg:
        gateset = gateset + ec.OTHER
    elif rng.random() < 0.3:
        gateset = rng.sample(gateset, rng.randint(1, len(gateset)))
    hasT = any(g in ("t", "tdg", "ccx", "ch", "cs") for g in gateset)
    maxq = {"Q3Shor": 4, "Q18Surface": 2}.get(scheme, 3)
    if hasT:
        maxq = {"Id": 4, "Q3Shor": 4, "Q7Steane": 1 if not anyg else 2}.get(scheme, 3)
    sc = ec.gen_circuit(rng, scheme, gateset, maxq, rng.choice([3, 8, 16]))
    if scheme in ("Id", "Q3Shor", "Q9Shor") and rng.random() < 0.3 and sc["gates"] and sc["meas"]:
        # measurement in the middle of the circuit, then more gates
        q, c = rng.choice(sc["meas"])
        sc["gates"].insert(rng.randrange(len(sc["gates"]) + 1), ["measure", [q, c]])
    sc["fq"] = rng.choice([0, 1, 2, 3, 5, 100, rng.randint(1, 12)])
    if scheme == "Q18Surface" and any(g == "h" for g, _ in sc["gates"]) and sc["fq"] <= len(sc["gates"]):
        sc["fq"] = rng.choice([0, 100])  # corrections between Hadamards: listed finding, probed separately
    sc["via"] = "qiskit" if rng.random() < 0.3 and not any(g == "cs" for g, _ in sc["gates"]) else "file"
    sc["must_accept"] = not anyg
    sc["shots"] = 4
    sc["many"] = rng.random() < 0.15
    sc["seed"] = rng.getrandbits(48)
    if rng.random() < 0.12 and any(g != "barrier" for g, _ in sc["gates"]):
        # no measurement at all: the outcome is in the decoded qubits
        sc.update(read=True, meas=[], gates=[g for g in sc["gates"] if g[0] != "measure"])
    sc["_shrink"] = ["gates", "meas"]
    return sc


def run(sc: dict) -> Outcome:
    out = Outcome()
    text = ec.qasm(sc)
    cregs = sc["cregs"]
    log = [text, sc["scheme"], sc["fq"]]
    try:
        enc = ec.encode(text, sc["scheme"], sc["fq"], sc["via"])
    except ec.Refused as e:
        out.add("probe:refused")
        if sc["must_accept"]:
            out.bad("refused", f"{sc['scheme']} refused a circuit of supported operations: {e}\n{text}")
        out.log = digest(log + [str(e)])
        return out
    log.append(enc)
    if sc.get("read"):
        text, enc, cregs = ec.read_decoded(text, enc, sc)
        out.add("probe:decoded-qubits-read")
    orig_p, possible, rank = ec.support_oracle(text, cregs)
    try:
        p = qsim.parse_qasm(enc)
    except qsim.Unsupported as e:
        out.add("probe:unsupported-by-device")
        out.log = digest(log)
        return out
    except (ValueError, KeyError) as e:
        out.bad("invalid-program", f"{sc['scheme']}: emitted program is invalid: {e}\n{text}")
        out.log = digest(log)
        return out
    for name, size in cregs:
        if p.cregs.get(name, (0, -1))[1] != size:
            out.bad("registers", f"{sc['scheme']}: classical register {name}[{size}] is missing or resized in the encoded program")
            return out
    dense = qsim.needs_dense(p)
    if dense and p.nq > 14 and sc["scheme"] != "Q7Steane" or p.nq > 17 and dense:
        out.add("probe:too-large")
        return out
    shots = 24 + 0 if sc["many"] and not dense else (1 if dense and p.nq > 12 else sc["shots"])
    seen = []
    try:
        for s in range(shots):
            r = qsim.run(p, random.Random(f"{sc['seed']}:{s}"), backend=qsim.DenseBackend(p.nq) if dense else None)
            o = ec.program_outcomes(p, cregs, r.clbits)
            seen.append(o)
            out.add("sim:device_ops", len(p.ops))
            out.add("sim:measurements", len(r.events))
            if not possible(o):
                out.bad("wrong-outcome", f"{sc['scheme']} fq={sc['fq']}: encoded circuit produced {cregs}={o}, which the "
                        f"original circuit can never produce\n{text}")
                break
        if sc["many"] and not dense and not out.violations and not any(g == "measure" for g, _ in sc["gates"]):
            k = rank()
            if k is not None and k <= 4:
                out.add("probe:distribution-checked")
                # 24 shots: probability that a faithful encoding misses a dimension is below 2**-19
                more = 40
                for s in range(shots, more):
                    r = qsim.run(p, random.Random(f"{sc['seed']}:{s}"))
                    seen.append(ec.program_outcomes(p, cregs, r.clbits))
                if ec.affine_rank(seen) < k:
                    out.bad("lost-randomness", f"{sc['scheme']} fq={sc['fq']}: the original outcome has {k} independent random "
                            f"bits, the encoded circuit only {ec.affine_rank(seen)} in {more} executions\n{text}")
    except qsim.Unsupported as e:
        out.add("probe:unsupported-by-device")
        out.note["unsupported"] = str(e)
        out.log = digest(log + [str(e)])
        return out
    out.nontrivial = bool(sc["gates"])
    out.add(f"probe:scheme-{sc['scheme']}")
    out.states.add(digest([sc["scheme"], sc["fq"], sorted(map(tuple, seen))]))
    out.log = digest(log + seen)
    return out


def shrink(sc: dict):
    if sc["via"] != "file":
        yield {**sc, "via": "file"}
    if sc["fq"]:
        yield {**sc, "fq": 0}


def known_class(sc: dict, v: dict) -> str | None:
    if sc["scheme"] == "Q18Surface" and 0 < sc["fq"] <= len(sc["gates"]) and any(g == "h" for g, _ in sc["gates"]):
        return "q18-correction-between-hadamards"
    seen_meas = False
    for g, _ in sc["gates"]:
        if g == "measure":
            seen_meas = True
        elif seen_meas and g != "barrier" and sc["scheme"] in DESTRUCTIVE:
            return "mid-circuit-measurement"
    return None
