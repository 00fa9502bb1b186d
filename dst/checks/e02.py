"""E02: faults that hit a protected circuit, at most one per correction interval, never change the outcome."""
from __future__ import annotations

import random

from dst import qsim
from dst.core import Outcome, digest

from . import ecc_common as ec

PROPERTY = "E02"
LEVEL = "exploration"
RULE = ("one run = one seeded logical circuit, scheme, correction frequency and fault schedule (at most one fault in each "
        "interval between two rounds of correction, on any physical qubit, at any gate boundary of the interval), executed with "
        "simulator-owned measurement randomness; non-trivial = at least one fault actually fired on a program with gates")
REAL = ["C++ ECC framework (all schemes) and its Python entry point, OpenQASM import/export of mqt-core"]
STUB = ["quantum device with fault injection: stabilizer / dense simulator owned by the check"]
STATE_MEASURE = "distinct (scheme, frequency, interval, physical qubit, fault kind) of fired faults"
SCHEMES = ["Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
KINDS = {"Q3Shor": "XR", "Q5Laflamme": "XYZR", "Q7Steane": "XYZR", "Q9Shor": "XYZR", "Q9Surface": "XYZR", "Q18Surface": "X"}


def budget(tier: str) -> int:
    return 3000 if tier == "quick" else 40000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    scheme = SCHEMES[index % len(SCHEMES)]
    gateset = [g for g in ec.SUPPORTED[scheme] if g not in ("t", "tdg") or rng.random() < 0.1]
    if rng.random() < 0.3:
        gateset = rng.sample(gateset, rng.randint(1, len(gateset)))
    hasT = any(g in ("t", "tdg") for g in gateset)
    maxq = {"Q3Shor": 4, "Q18Surface": 2, "Q7Steane": 1 if hasT else 3}.get(scheme, 3)
    sc = ec.gen_circuit(rng, scheme, gateset, maxq, rng.choice([2, 6, 12]))
    if rng.random() < 0.12 and any(g != "barrier" for g, _ in sc["gates"]):
        # no measurement at all: the outcome is in the decoded qubits
        sc.update(read=True, meas=[], gates=[g for g in sc["gates"] if g[0] != "measure"])
    sc["fq"] = rng.choice([0, 1, 2, 3, 4, 100, rng.randint(1, 12)])
    if scheme == "Q18Surface":
        if any(g == "h" for g, _ in sc["gates"]):
            sc["gates"] = [g for g in sc["gates"] if g[0] != "h"]
    ng = len(sc["gates"])
    # correction rounds happen after every fq-th operation and before the first measurement
    faults = []
    fq = sc["fq"] if sc["fq"] > 0 else 10**9
    lo = 0
    p_interval = rng.choice([0.4, 0.8, 1.0])
    while True:
        hi = lo + fq
        # boundary k = after k operations (and after the round of correction that follows operation k, if there is one)
        ks = [[k, "post"] for k in range(lo, min(hi, ng + 1))]
        if lo == 0 and hi <= ng:
            ks.append([hi, "pre"])  # after operation hi, just before the first round
        if rng.random() < p_interval or (not faults and hi > ng):
            faults.append([*rng.choice(ks), rng.choice(KINDS[scheme]), rng.random()])
        lo = hi
        if lo > ng:
            break
    sc["faults"] = faults
    sc["shots"] = 2
    sc["seed"] = rng.getrandbits(48)
    sc["_shrink"] = ["faults"]
    return sc


def _lcp(a: list, b: list) -> int:
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


def _ops(text: str) -> list:
    return [(o.name, o.qubits, o.clbit, o.cond) for o in qsim.parse_qasm(text).ops]


def boundary(sc: dict, k: int, side: str) -> int | None:
    """index of the op of the encoded program at the boundary after k logical operations, found through the API alone: the
    common prefix of the encodings of two circuits which differ from that boundary on"""
    scheme = sc["scheme"]
    pre = sc["gates"][:k]
    alive = list(range(sum(s for _, s in sc["qregs"])))
    # keep the set of used qubits (hence the layout) identical: measure the same qubits, touch every qubit used later
    used = sorted({q for g, qs in sc["gates"] for q in (qs[:1] if g == "measure" else qs) if g != "barrier"})
    tail = [["x", [q]] for q in used] or [["x", [alive[0]]]]
    tail += [g for g in sc["gates"][k:] if g[0] == "barrier"]  # a barrier may count as a use of its qubits
    if side == "post":
        fq, n = sc["fq"], k
        a = {**sc, "gates": pre + tail}
        b = {**sc, "gates": pre + [["z" if g == "x" else g, qs] for g, qs in tail]}
        ea, eb = (_ops(ec.encode(ec.qasm(c), scheme, fq, "file")) for c in (a, b))
        return _lcp(ea, eb)
    # just before the first round: the common prefix of the encodings with that round and without any round
    ea, eb = (_ops(ec.encode(ec.qasm({**sc, "gates": pre + tail}), scheme, f, "file")) for f in (sc["fq"], 10**6))
    return _lcp(ea, eb)


def run(sc: dict) -> Outcome:
    out = Outcome()
    text = ec.qasm(sc)
    cregs = sc["cregs"]
    log: list = [text, sc["scheme"], sc["fq"], sc["faults"]]
    try:
        enc = ec.encode(text, sc["scheme"], sc["fq"], "file")
        mine = _ops(enc)
        if sc.get("read"):
            text, enc, cregs = ec.read_decoded(text, enc, sc)
            out.add("probe:decoded-qubits-read")
        p = qsim.parse_qasm(enc)
        _, possible, _ = ec.support_oracle(text, cregs)
        placed = []
        for k, side, kind, u in sc["faults"]:
            pos = boundary(sc, k, side)
            if pos is None or pos > len(mine):
                continue
            placed.append((pos, kind, int(u * p.nq)))
        placed.sort(key=lambda f: f[0])
    except (ec.Refused, ValueError, KeyError) as e:
        out.bad("refused", f"{sc['scheme']}: supported circuit cannot be encoded: {e}\n{text}")
        return out
    except qsim.Unsupported as e:
        out.add("probe:unsupported-by-device")
        out.log = digest(log + [str(e)])
        return out
    dense = qsim.needs_dense(p)
    outs = []
    try:
        for s in range(sc["shots"] if not (dense and p.nq > 12) else 1):
            r = qsim.run(p, random.Random(f"{sc['seed']}:{s}"), placed, backend=qsim.DenseBackend(p.nq) if dense else None)
            o = ec.program_outcomes(p, cregs, r.clbits)
            outs.append(o)
            out.add("sim:device_ops", len(p.ops))
            for _, kind, _ in placed:
                out.add(f"fault:{'reset' if kind == 'R' else 'pauli-' + kind}")
            if not possible(o):
                out.bad("uncorrected-fault", f"{sc['scheme']} fq={sc['fq']}: faults {placed} (op index, kind, physical qubit), at most "
                        f"one per correction interval, changed the outcome to {cregs}={o}\n{text}")
                break
    except qsim.Unsupported as e:
        out.add("probe:unsupported-by-device")
        out.log = digest(log + [str(e)])
        return out
    out.nontrivial = bool(placed) and bool(sc["gates"])
    out.add("probe:multi-fault-runs", int(len(placed) > 1))
    for (k, side, kind, _), (_, _, q) in zip(sc["faults"], placed):
        out.states.add(f"{sc['scheme']}:{sc['fq']}:{k}:{side}:{q}:{kind}")
    out.log = digest(log + [placed, outs])
    return out
