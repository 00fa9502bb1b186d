"""Shared by the error-correction-framework checks: workload generation, encoding through the public API, comparison."""
from __future__ import annotations

import os
import random
import re
import tempfile
from functools import lru_cache

from dst import qsim

PAULI = ["x", "y", "z"]
CPAULI = ["cx", "cy", "cz"]
# gates every scheme must accept (EccFramework.rst narrowed to what the framework's own functional tests treat as supported)
SUPPORTED = {
    "Id": PAULI + CPAULI + ["h", "s", "sdg", "t", "tdg"],
    "Q3Shor": PAULI + CPAULI + ["s", "sdg", "t", "tdg"],
    "Q5Laflamme": PAULI,
    "Q7Steane": PAULI + CPAULI + ["h", "s", "sdg", "t", "tdg"],
    "Q9Shor": PAULI + CPAULI,
    "Q9Surface": PAULI + ["h"],
    "Q18Surface": PAULI + ["h"],
}
OTHER = ["h", "s", "sdg", "t", "tdg", "cx", "cy", "cz", "swap", "ccx", "ch", "sx", "id", "reset", "cs"]
INV = {"s": "sdg", "sdg": "s", "t": "tdg", "tdg": "t"}
WIDTH = {**{g: 2 for g in ("cx", "cy", "cz", "swap", "ch", "cs")}, "ccx": 3}


def qasm(sc: dict, ngates: int | None = None, extra: list | None = None) -> str:
    t = ['OPENQASM 2.0;', 'include "qelib1.inc";']
    off, names = 0, []
    for name, size in sc["qregs"]:
        t.append(f"qreg {name}[{size}];")
        names += [f"{name}[{i}]" for i in range(size)]
    cnames = []
    for name, size in sc["cregs"]:
        t.append(f"creg {name}[{size}];")
        cnames += [f"{name}[{i}]" for i in range(size)]
    gates = sc["gates"] if ngates is None else sc["gates"][:ngates]
    for g, qs in [*gates, *(extra or [])]:
        if g == "measure":
            t.append(f"measure {names[qs[0]]} -> {cnames[qs[1]]};")
        elif g == "barrier":
            t.append("barrier " + ",".join(names[q] for q in qs) + ";")
        else:
            t.append(f"{g} " + ",".join(names[q] for q in qs) + ";")
    for q, c in sc["meas"]:
        t.append(f"measure {names[q]} -> {cnames[c]};")
    return "\n".join(t) + "\n"


class Refused(Exception):
    pass


@lru_cache(maxsize=512)
def encode(text: str, scheme: str, fq: int, via: str) -> str:
    from mqt.qecc import apply_ecc

    try:
        if via == "qiskit":
            from qiskit import QuantumCircuit

            return apply_ecc(QuantumCircuit.from_qasm_str(text), scheme, fq)["circ"]
        fd, path = tempfile.mkstemp(suffix=".qasm")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(text)
            return apply_ecc(path, scheme, fq)["circ"]
        finally:
            os.unlink(path)
    except (ValueError, RuntimeError) as e:
        raise Refused(str(e)) from e


def gen_circuit(rng: random.Random, scheme: str, gateset: list[str], max_q: int, max_g: int) -> dict:
    nq = rng.randint(1, max_q)
    # quantum registers
    if nq > 1 and rng.random() < 0.25:
        a = rng.randint(1, nq - 1)
        qregs = [["qa", a], ["qb", nq - a]]
        if rng.random() < 0.5:
            qregs = [["qb", a], ["qa", nq - a]]
    else:
        qregs = [["q", nq]]
    # classical registers: sizes and names vary; more or fewer bits than qubits
    nm = rng.randint(1, nq)
    measured = rng.sample(range(nq), nm)
    nc = max(nm, rng.choice([nm, nq, nq + rng.randint(0, 2)]))
    if nc > 1 and rng.random() < 0.4:
        a = rng.randint(1, nc - 1)
        names = rng.choice([["a", "b"], ["zz", "c"], ["m1", "m0"], ["c", "meas"]])
        cregs = [[names[0], a], [names[1], nc - a]]
    else:
        cregs = [["c", nc]]
    cl = list(range(nc)) if rng.random() < 0.4 else rng.sample(range(nc), nc)
    meas = [[q, cl[i]] for i, q in enumerate(measured)]
    if rng.random() < 0.5:
        meas.sort()
    ng = rng.randint(0, max_g)
    idle = set()
    if nq > 1 and rng.random() < 0.2:
        idle = set(rng.sample(range(nq), rng.randint(1, nq - 1)))
    alive = [q for q in range(nq) if q not in idle]
    body: list = []

    def one_gate() -> list:
        for _ in range(50):
            g = rng.choice(gateset)
            w = WIDTH.get(g, 1)
            if w <= len(alive):
                qs = rng.sample(alive, w)
                if g in ("t", "tdg"):
                    return [[g, qs], [g, qs]]  # T in pairs keeps deterministic circuits deterministic
                return [[g, qs]]
        return [["x", [rng.choice(alive)]]]

    mirror = rng.random() < 0.6
    if mirror:
        half = []
        for _ in range(max(1, ng // 2)):
            half += one_gate()
        mid = [[rng.choice(PAULI), [rng.choice(alive)]] for _ in range(rng.randint(0, len(alive)))]
        inv = [[INV.get(g, g), qs] for g, qs in reversed(half) if g != "reset"]
        body = half + mid + inv
        if any(g == "sx" for g, _ in body):
            body = half + mid
    else:
        for _ in range(ng):
            body += one_gate()
    if rng.random() < 0.1 and body:
        body.insert(rng.randrange(len(body) + 1), ["barrier", sorted(rng.sample(range(nq), nq))])
    return {"scheme": scheme, "qregs": qregs, "cregs": cregs, "gates": body, "meas": meas}


def read_decoded(text: str, enc: str, sc: dict) -> tuple[str, str, list]:
    """(original, encoded program, registers) of a circuit without measurements, with all logical qubits read out at the end"""
    used = [q for g, qs in sc["gates"] for q in qs if g != "barrier"]
    n = max(used) + 1 if used else 0
    names = [f"{name}[{i}]" for name, size in sc["qregs"] for i in range(size)]
    reg = re.search(r"^\s*qreg\s+(\w+)\s*\[", enc, re.M).group(1)
    decl = f"creg dst_read[{max(n, 1)}];\n"
    return (text + decl + "".join(f"measure {names[i]} -> dst_read[{i}];\n" for i in range(n)),
            enc.rstrip() + "\n" + decl + "".join(f"measure {reg}[{i}] -> dst_read[{i}];\n" for i in range(n)), [["dst_read", max(n, 1)]])


def program_outcomes(p: qsim.Program, cregs: list, clbits: list[int]) -> list[int]:
    out = []
    for name, size in cregs:
        st, sz = p.cregs[name]
        if sz != size:
            raise ValueError(f"classical register {name} changed its size from {size} to {sz}")
        out += clbits[st:st + sz]
    return out


def support_oracle(text: str, cregs: list):
    """exact membership test for the outcome support of the unencoded circuit, by forced replay of its measurements"""
    p = qsim.parse_qasm(text)
    dense = qsim.needs_dense(p) or any(o.name in ("ccx", "cs", "ch") for o in p.ops)
    last = {}
    for i, o in enumerate(p.ops):
        if o.name == "measure":
            last[o.clbit] = i

    def possible(outcome: list[int]) -> bool:
        b = qsim.DenseBackend(p.nq) if dense else qsim.StabBackend(p.nq)
        # clbits never written stay 0
        flat = {}
        pos = 0
        for name, size in cregs:
            st, _ = p.cregs[name]
            for k in range(size):
                flat[st + k] = outcome[pos]
                pos += 1
        for c, v in flat.items():
            if c not in last and v != 0:
                return False
        class Forced:
            pass
        for i, o in enumerate(p.ops):
            if o.name == "measure":
                want = flat[o.clbit]
                if last[o.clbit] != i:
                    # overwritten later: follow every branch is needless here, outcome of an overwritten bit is free
                    p1 = b.p1(o.qubits[0])
                    if 0.0 < p1 < 1.0:
                        raise qsim.Unsupported("random measurement that is later overwritten")
                    continue
                p1 = b.p1(o.qubits[0])
                if (p1 == 0.0 and want) or (p1 == 1.0 and not want):
                    return False
                if 0.0 < p1 < 1.0:
                    b.project(o.qubits[0], want)
            elif o.name == "reset":
                p1 = b.p1(o.qubits[0])
                if 0.0 < p1 < 1.0:
                    raise qsim.Unsupported("reset of a superposed qubit")
                if p1 == 1.0:
                    b.gate("x", o.qubits)
            elif o.name != "barrier":
                b.gate(o.name, o.qubits)
        return True

    def rank() -> int | None:
        """number of random bits in the outcome (None when not a uniform distribution)"""
        if dense:
            return None
        b = qsim.StabBackend(p.nq)
        r = 0
        for o in p.ops:
            if o.name == "measure":
                if b.p1(o.qubits[0]) == 0.5:
                    r += 1
                    b.project(o.qubits[0], 0)
            elif o.name == "reset":
                return None
            elif o.name != "barrier":
                b.gate(o.name, o.qubits)
        return r

    return p, possible, rank


def affine_rank(rows: list[list[int]]) -> int:
    base = rows[0]
    vecs = [int("".join(str(a ^ b) for a, b in zip(r, base)), 2) if r else 0 for r in rows[1:]]
    rank = 0
    basis: list[int] = []
    for v in vecs:
        for b in basis:
            v = min(v, v ^ b)
        if v:
            basis.append(v)
            rank += 1
    return rank
