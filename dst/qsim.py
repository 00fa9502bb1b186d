"""Simulated quantum device: executes OpenQASM 2 programs with classical control, op by op, under injected faults.

Two interchangeable backends: stabilizer (stim, any size; CCX only where its controls are classical) and a dense state
vector (small circuits with T / CCX).  Measurement randomness is drawn from the simulator's own PRNG.
"""
from __future__ import annotations

import re
from dataclasses import dataclass, field

import numpy as np
import stim


class Unsupported(Exception):
    """the simulated device cannot run this program exactly (a limit of the simulator, never a verdict)"""


@dataclass
class Op:
    name: str
    qubits: tuple[int, ...] = ()
    clbit: int = -1
    cond: tuple[str, int] | None = None
    neg: bool = False


@dataclass
class Program:
    nq: int = 0
    cregs: dict[str, tuple[int, int]] = field(default_factory=dict)  # name -> (start, size), declaration order
    ops: list[Op] = field(default_factory=list)

    @property
    def nc(self) -> int:
        return sum(s for _, s in self.cregs.values())


_GATE = re.compile(r"^([a-zA-Z_][\w]*)\s*(\([^)]*\))?\s+(.*)$")


def parse_qasm(text: str) -> Program:
    p = Program()
    qregs: dict[str, tuple[int, int]] = {}
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"^gate\s[^}]*}", "", text, flags=re.M | re.S)

    def ref(s: str, regs: dict) -> list[int]:
        s = s.strip()
        m = re.match(r"^(\w+)\s*(?:\[\s*(\d+)\s*\])?$", s)
        if not m:
            raise Unsupported(f"operand {s!r}")
        start, size = regs[m.group(1)]
        if m.group(2) is None:
            return list(range(start, start + size))
        i = int(m.group(2))
        if i >= size:
            raise ValueError(f"index out of range: {s}")
        return [start + i]

    for raw in text.split(";"):
        st = raw.strip()
        if not st or st.startswith(("OPENQASM", "include")):
            continue
        cond = None
        m = re.match(r"^if\s*\(\s*(\w+)\s*==\s*(\d+)\s*\)\s*(.*)$", st, flags=re.S)
        if m:
            cond = (m.group(1), int(m.group(2)))
            if cond[0] not in p.cregs:
                raise ValueError(f"condition on unknown register {cond[0]}")
            st = m.group(3).strip()
        if st.startswith("qreg") or st.startswith("creg"):
            m = re.match(r"^(qreg|creg)\s+(\w+)\s*\[\s*(\d+)\s*\]$", st)
            n = int(m.group(3))
            if m.group(1) == "qreg":
                qregs[m.group(2)] = (p.nq, n)
                p.nq += n
            else:
                p.cregs[m.group(2)] = (p.nc, n)
            continue
        if st.startswith("measure"):
            a, b = st[7:].split("->")
            qs, cs = ref(a, qregs), ref(b, p.cregs)
            if len(qs) != len(cs):
                raise ValueError(f"measure size mismatch: {st}")
            p.ops += [Op("measure", (q,), c, cond) for q, c in zip(qs, cs)]
            continue
        if st.startswith("barrier"):
            p.ops.append(Op("barrier"))
            continue
        m = _GATE.match(st)
        if not m:
            raise Unsupported(st)
        name, par, args = m.group(1), m.group(2), m.group(3)
        if par is not None:
            key = (name, par.strip("()").replace(" ", ""))
            name = {("cp", "pi/2"): "cs", ("cp", "-pi/2"): "csdg", ("p", "pi/2"): "s", ("p", "-pi/2"): "sdg", ("p", "pi/4"): "t",
                    ("p", "-pi/4"): "tdg", ("p", "pi"): "z", ("cp", "pi"): "cz", ("cu1", "pi/2"): "cs", ("cu1", "-pi/2"): "csdg"}.get(key)
        if name is None:
            raise Unsupported(f"parametrised gate {st}")
        groups = [ref(a, qregs) for a in args.split(",")]
        width = max(len(g) for g in groups)
        for i in range(width):
            qs = tuple(g[i] if len(g) > 1 else g[0] for g in groups)
            if len(set(qs)) != len(qs):
                raise ValueError(f"duplicate operand: {st}")
            p.ops.append(Op(name, qs, -1, cond))
    return p


ONE = {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "id", "sx", "sxdg"}
TWO = {"cx", "cy", "cz", "swap", "ch"}


class StabBackend:
    def __init__(self, n: int) -> None:
        self.s = stim.TableauSimulator(seed=0)
        self.s.set_num_qubits(n)
        self.one = {"x": self.s.x, "y": self.s.y, "z": self.s.z, "h": self.s.h, "s": self.s.s, "sdg": self.s.s_dag,
                    "sx": self.s.sqrt_x, "sxdg": self.s.sqrt_x_dag}
        self.two = {"cx": self.s.cx, "cy": self.s.cy, "cz": self.s.cz, "swap": self.s.swap}

    def gate(self, name: str, qs: tuple[int, ...]) -> None:
        if name in self.one:
            self.one[name](qs[0])
        elif name in self.two:
            self.two[name](*qs)
        elif name == "id":
            pass
        elif name in ("ccx", "ccz", "mcx"):
            ctrls, tgt = list(qs[:-1]), qs[-1]
            if name == "ccz":
                ctrls, tgt, base = list(qs), None, "z"
            live = []
            for c in ctrls:
                z = self.s.peek_z(c)
                if z == 1:
                    return
                if z == 0:
                    live.append(c)
            if name == "ccz":
                if len(live) == 0:
                    return  # global phase
                if len(live) == 1:
                    self.s.z(live[0])
                elif len(live) == 2:
                    self.s.cz(*live)
                else:
                    raise Unsupported("ccz on superposed controls")
                return
            if not live:
                self.s.x(tgt)
            elif len(live) == 1:
                self.s.cx(live[0], tgt)
            else:
                # controls perfectly correlated?
                if self.s.peek_x(tgt) == 1:
                    return
                raise Unsupported("ccx on superposed controls")
        else:
            raise Unsupported(name)

    def p1(self, q: int) -> float:
        z = self.s.peek_z(q)
        return {1: 0.0, -1: 1.0, 0: 0.5}[z]

    def project(self, q: int, v: int) -> None:
        self.s.postselect_z(q, desired_value=bool(v))


_SQ = 1 / np.sqrt(2)
_M1 = {
    "x": np.array([[0, 1], [1, 0]], complex), "y": np.array([[0, -1j], [1j, 0]]), "z": np.diag([1, -1]).astype(complex),
    "h": np.array([[_SQ, _SQ], [_SQ, -_SQ]], complex), "s": np.diag([1, 1j]), "sdg": np.diag([1, -1j]),
    "t": np.diag([1, np.exp(1j * np.pi / 4)]), "tdg": np.diag([1, np.exp(-1j * np.pi / 4)]),
    "sx": np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2, "sxdg": np.array([[1 - 1j, 1 + 1j], [1 + 1j, 1 - 1j]]) / 2,
}


class DenseBackend:
    def __init__(self, n: int) -> None:
        if n > 20:
            raise Unsupported("too many qubits for the dense backend")
        self.n = n
        self.v = np.zeros((2,) * n, complex)
        self.v[(0,) * n] = 1

    def _apply(self, m: np.ndarray, ctrls: tuple[int, ...], t: int) -> None:
        idx: list = [slice(None)] * self.n
        for c in ctrls:
            idx[c] = 1
        i0, i1 = list(idx), list(idx)
        i0[t], i1[t] = 0, 1
        a, b = self.v[tuple(i0)].copy(), self.v[tuple(i1)].copy()
        self.v[tuple(i0)] = m[0, 0] * a + m[0, 1] * b
        self.v[tuple(i1)] = m[1, 0] * a + m[1, 1] * b

    def gate(self, name: str, qs: tuple[int, ...]) -> None:
        if name == "id":
            return
        if name in _M1:
            self._apply(_M1[name], (), qs[0])
        elif name == "swap":
            self.v = np.ascontiguousarray(np.swapaxes(self.v, qs[0], qs[1]))
        elif name.startswith("mc") and name[2:] in _M1:
            self._apply(_M1[name[2:]], qs[:-1], qs[-1])
        elif name.lstrip("c") in _M1 and len(qs) == 1 + len(name) - len(name.lstrip("c")):
            self._apply(_M1[name.lstrip("c")], qs[:-1], qs[-1])
        else:
            raise Unsupported(name)

    def p1(self, q: int) -> float:
        idx: list = [slice(None)] * self.n
        idx[q] = 1
        p = float(np.sum(np.abs(self.v[tuple(idx)]) ** 2))
        return 0.0 if p < 1e-9 else 1.0 if p > 1 - 1e-9 else p

    def project(self, q: int, v: int) -> None:
        idx: list = [slice(None)] * self.n
        idx[q] = 1 - v
        self.v[tuple(idx)] = 0
        self.v /= np.linalg.norm(self.v)


def needs_dense(p: Program) -> bool:
    return any(o.name in ("t", "tdg", "ch", "cs", "csdg") for o in p.ops)


@dataclass
class Run:
    clbits: list[int]
    fired: int
    events: list


def run(p: Program, rng, faults: list[tuple[int, str, int]] = (), backend=None, flip_meas: frozenset = frozenset(),
        observer=None) -> Run:
    """faults: (position, kind, qubit): applied immediately before op number `position`; kind in X/Y/Z/R (reset)."""
    b = backend or (DenseBackend(p.nq) if needs_dense(p) else StabBackend(p.nq))
    cl = [0] * p.nc
    by_pos: dict[int, list] = {}
    for pos, kind, q in faults:
        by_pos.setdefault(pos, []).append((kind, q))
    fired = 0
    events = []
    starts = p.cregs

    def measure(q: int) -> int:
        p1 = b.p1(q)
        v = int(p1) if p1 in (0.0, 1.0) else int(rng.random() < p1)
        if 0.0 < p1 < 1.0:
            b.project(q, v)
        return v

    for i in range(len(p.ops) + 1):
        for kind, q in by_pos.get(i, ()):
            fired += 1
            if kind == "R":
                if measure(q):
                    b.gate("x", (q,))
            else:
                b.gate(kind.lower(), (q,))
        if i == len(p.ops):
            break
        o = p.ops[i]
        if o.cond is not None:
            st, sz = starts[o.cond[0]]
            if sum(cl[st + k] << k for k in range(sz)) != o.cond[1]:
                continue
        if o.name == "measure":
            v = measure(o.qubits[0])
            if i in flip_meas:
                v ^= 1
            cl[o.clbit] = v
            events.append((i, v))
        elif o.name == "reset":
            if measure(o.qubits[0]):
                b.gate("x", o.qubits)
        elif o.name == "barrier":
            pass
        else:
            b.gate(o.name, o.qubits)
        if observer is not None:
            observer(i, b, cl)
    return Run(cl, fired, events)
