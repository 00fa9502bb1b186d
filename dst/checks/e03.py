"""E03: the noise-aware simulation command, driven end to end with seeded back ends and faults."""
from __future__ import annotations

import contextlib
import io
import itertools
import math
import random
import re
import sys

import numpy as np

from dst import qsim
from dst.core import Outcome, digest
from dst.scratch import scratch

from . import ecc_common as ec

PROPERTY = "E03"
LEVEL = "exploration"
RULE = ("one run = one invocation (repeated with the same seed) of the noise-aware simulation command on a seeded circuit, scheme, "
        "noise model and back end, or of its export mode, or of either under an injected fault; non-trivial = a distribution or an "
        "exported program was compared with the oracle")
REAL = ["command-line wrapper, noise-model construction, C++ ECC framework, qiskit/Aer simulation (seeded)"]
STUB = ["Aer job result in the runs that inject a back-end failure"]
STATE_MEASURE = "distinct printed results"
HANG_S = 120
SCHEMES = ["none", "Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
NOISY1 = ["h", "id", "t", "tdg", "s", "sdg", "rx", "ry", "rz", "u1", "u2", "u3"]


def budget(tier: str) -> int:
    return 1500 if tier == "quick" else 20000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    mode = rng.choices(["ideal", "noise", "export", "fault"], [4, 6, 2, 1])[0]
    sc: dict = {"mode": mode, "seed": rng.choice([0, 1, *[rng.randint(0, 2**31 - 2)] * 8]), "rs": rng.getrandbits(40)}
    if mode == "noise":
        nq = rng.randint(1, 3)
        clifford = rng.random() < 0.35
        api = rng.random() < 0.3  # build the noise model for an in-memory circuit: more gates than the command can load
        g1 = [g for g in (["h", "id", "s", "sdg"] if clifford else NOISY1) if api or g != "id"]
        gates = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if nq >= 3 and r < 0.15 and not clifford and api:
                gates.append(["cswap", rng.sample(range(nq), 3), []])
            elif nq >= 2 and r < 0.45:
                gates.append([rng.choice(["cx", "cx", "swap"] if api else ["cx"]), rng.sample(range(nq), 2), []])
            else:
                g = rng.choice(g1)
                npar = {"rx": 1, "ry": 1, "rz": 1, "u1": 1, "u2": 2, "u3": 3}.get(g, 0)
                gates.append([g, [rng.randrange(nq)], [round(rng.uniform(-3, 3), 3) for _ in range(npar)]])
        model = "".join(rng.choice("BPD" if clifford else "BPDA") for _ in range(rng.choice([1, 1, 2, 3, 4])))
        while math.prod({"B": 2, "P": 2, "D": 4, "A": 1}[c] for c in model) > 16:  # the three-qubit noise has the cube of that many terms
            model = model[:-1]
        sc.update(nq=nq, gates=gates, model=model, p=rng.choice([0.02, 0.1, 0.25, 0.4]), n=rng.choice([1000, 3000]),
                  ecc="none" if api else rng.choice(["none", "none", "Id"]), measured=api or rng.random() < 0.8, api=api,
                  fs=rng.choice(["stabilizer", "statevector"] if clifford else ["statevector", "density_matrix", "none"]),
                  perm=rng.sample(range(nq), nq), _shrink=["gates"])
    else:
        scheme = rng.choice(SCHEMES)
        base = "Id" if scheme == "none" else scheme
        gs = [g for g in ec.SUPPORTED[base] if g not in ("t", "tdg")]
        big = scheme in ("Q3Shor", "Q9Shor")  # non-Clifford programs: state vector only
        maxq = {"Q3Shor": 3, "Q9Shor": 1, "Q18Surface": 2}.get(scheme, 3)
        sc.update(ec.gen_circuit(rng, base, gs, maxq, rng.choice([2, 5, 10])))
        sc["scheme"] = scheme
        sc["fq"] = rng.choice([0, 1, 3, 100])
        if scheme == "Q18Surface" and any(g == "h" for g, _ in sc["gates"]):
            sc["fq"] = 0
        if rng.random() < 0.2:
            sc["meas"] = []
        sc["n"] = rng.choice([20, 100]) if not big else 20
        sc["fs"] = "statevector" if big else rng.choice(["stabilizer", "stabilizer", "none"])
        sc["_shrink"] = ["gates"]
        if mode == "fault":
            sc["fault"] = rng.choice(["backend-error", "backend-partial", "export-full", "export-missing-dir", "input-missing", "input-torn"])
    return sc


# ---------------------------------------------------------------- oracle: density matrices


def mat(g: str, a: list[float]) -> np.ndarray:
    s2 = 1 / math.sqrt(2)
    e = lambda x: complex(math.cos(x), math.sin(x))  # noqa: E731

    def u3(t, p, lam):
        return np.array([[math.cos(t / 2), -e(lam) * math.sin(t / 2)], [e(p) * math.sin(t / 2), e(p + lam) * math.cos(t / 2)]])

    if g == "h":
        return np.array([[s2, s2], [s2, -s2]], complex)
    if g == "id":
        return np.eye(2, dtype=complex)
    if g in ("s", "sdg", "t", "tdg"):
        return np.diag([1, e({"s": 1, "sdg": -1, "t": .5, "tdg": -.5}[g] * math.pi / 2)])
    if g == "rx":
        return u3(a[0], -math.pi / 2, math.pi / 2)
    if g == "ry":
        return u3(a[0], 0, 0)
    if g == "rz":
        return np.diag([e(-a[0] / 2), e(a[0] / 2)])
    if g == "u1":
        return np.diag([1, e(a[0])])
    if g == "u2":
        return u3(math.pi / 2, *a)
    if g == "u3":
        return u3(*a)
    raise ValueError(g)


def kraus(model: str, p: float) -> list[list[np.ndarray]]:
    x, y, z, i = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]), np.eye(2)
    tab = {"B": [math.sqrt(1 - p) * i, math.sqrt(p) * x], "P": [math.sqrt(1 - p) * i, math.sqrt(p) * z],
           "D": [math.sqrt(1 - 3 * p / 4) * i, *(math.sqrt(p / 4) * m for m in (x, y, z))],
           "A": [np.diag([1, math.sqrt(1 - p)]), np.array([[0, math.sqrt(p)], [0, 0]])]}
    return [tab[c] for c in model]


def apply1(rho: np.ndarray, ops: list[np.ndarray], q: int, n: int) -> np.ndarray:
    out = np.zeros_like(rho)
    for m in ops:
        full = np.array([[1.0]])
        for k in reversed(range(n)):  # qubit 0 = least significant
            full = np.kron(full, m if k == q else np.eye(2))
        out = out + full @ rho @ full.conj().T
    return out


def perm_gate(rho: np.ndarray, f, n: int) -> np.ndarray:
    idx = [f(b) for b in range(1 << n)]
    u = np.zeros((1 << n, 1 << n))
    for a, b in enumerate(idx):
        u[b, a] = 1
    return u @ rho @ u.T


def distribution(sc: dict) -> np.ndarray:
    n = sc["nq"]
    rho = np.zeros((1 << n, 1 << n), complex)
    rho[0, 0] = 1
    noise = kraus(sc["model"], sc["p"])

    def swap(b, x, y):
        bx, by = b >> x & 1, b >> y & 1
        return b & ~(1 << x) & ~(1 << y) | bx << y | by << x

    for g, qs, a in sc["gates"]:
        if g == "cx":
            rho = perm_gate(rho, lambda b: b ^ ((b >> qs[0] & 1) << qs[1]), n)
        elif g == "swap":
            rho = perm_gate(rho, lambda b: swap(b, *qs), n)
        elif g == "cswap":
            rho = perm_gate(rho, lambda b: swap(b, qs[1], qs[2]) if b >> qs[0] & 1 else b, n)
        else:
            rho = apply1(rho, [mat(g, a)], qs[0], n)
        for ops in noise:
            for q in qs:
                rho = apply1(rho, ops, q, n)
    d = np.real(np.diag(rho)).clip(0)
    return d / d.sum()


# ---------------------------------------------------------------- running the command


def invoke(argv: list[str]) -> tuple[str, str | None]:
    from mqt.qecc import ecc_qiskit_wrapper as w

    buf = io.StringIO()
    old = sys.argv
    sys.argv = ["ecc_qiskit_wrapper", *argv]
    try:
        with contextlib.redirect_stdout(buf):
            w.main()
        return buf.getvalue(), None
    except (Exception, SystemExit) as e:  # noqa: BLE001
        return buf.getvalue(), f"{type(e).__name__}: {e}"
    finally:
        sys.argv = old


def results(text: str) -> dict[str, float]:
    return {m[1]: float(m[2]) for m in re.finditer(r"State \|([01]*)> probability (\S+)", text)}


def invoke_api(sc: dict) -> tuple[str, str | None]:
    from mqt.qecc import ecc_qiskit_wrapper as w
    from qiskit import QuantumCircuit
    from qiskit_aer import AerSimulator

    c = QuantumCircuit(sc["nq"], sc["nq"])
    for g, qs, a in sc["gates"]:
        if g in ("u1", "u2", "u3"):
            from qiskit.circuit.library import U1Gate, U2Gate, U3Gate

            c.append({"u1": U1Gate, "u2": U2Gate, "u3": U3Gate}[g](*a), qs)
        else:
            getattr(c, g)(*a, *qs)
    for k, q in enumerate(sc["perm"]):
        c.measure(q, k)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            sim = AerSimulator(method=None if sc["fs"] == "none" else sc["fs"], noise_model=w.create_noise_model(sc["model"], sc["p"]))
            res = sim.run(c, shots=sc["n"], seed_simulator=sc["seed"]).result()
            if res.status != "COMPLETED":
                raise RuntimeError(str(res.status))
            w.print_simulation_results(res, sc["n"])
        return buf.getvalue(), None
    except Exception as e:  # noqa: BLE001
        return buf.getvalue(), f"{type(e).__name__}: {e}"


def noise_qasm(sc: dict) -> str:
    t = ["OPENQASM 2.0;", 'include "qelib1.inc";', f"qreg q[{sc['nq']}];", f"creg c[{sc['nq']}];"]
    for g, qs, a in sc["gates"]:
        t.append(g + (f"({','.join(map(str, a))})" if a else "") + " " + ",".join(f"q[{q}]" for q in qs) + ";")
    if sc["measured"]:
        t += [f"measure q[{q}] -> c[{c}];" for c, q in enumerate(sc["perm"])]
    return "\n".join(t) + "\n"


def run(sc: dict) -> Outcome:
    out = Outcome()
    noise = sc["mode"] == "noise"
    text = noise_qasm(sc) if noise else ec.qasm(sc)
    ecc = sc["ecc"] if noise else sc["scheme"]
    where = f"ecc={ecc} fs={sc['fs']}" + (f" model={sc['model']} p={sc['p']}" if noise else f" fq={sc['fq']}") + f"\n{text}"
    args = ["-ecc", ecc, "-fs", sc["fs"], "-n", str(sc["n"]), "-s", str(sc["seed"]), "-f", "in.qasm"]
    args += ["-m", sc["model"], "-p", str(sc["p"])] if noise else ["-fq", str(sc["fq"]), "-p", "0"]
    fault = sc.get("fault")
    if noise and ecc == "Id" and any(g in ("u1", "u2", "u3", "rx", "ry", "rz") for g, _, _ in sc["gates"]):
        args[1] = "none"  # not supported by the encoder
    with scratch(cwd=True) as d:
        (d / "in.qasm").write_text(text)
        if fault:
            return run_fault(sc, args, text, d, out, where)
        if sc["mode"] == "export":
            return run_export(sc, args, text, d, out, where)
        again = (lambda: invoke_api(sc)) if sc.get("api") else (lambda: invoke(args))
        txt, err = again()
        if err is not None:
            if "invalid instructions" in err or "insufficient memory" in err.lower():
                out.add("probe:backend-refused")
                out.log = digest([err])
                return out
            out.bad("refused", f"{err[:400]}\n{where}")
            return out
        txt2, _ = again()
        if txt != txt2:
            out.bad("not-reproducible", f"same seed {sc['seed']}, different output:\n{txt}\n---\n{txt2}\n{where}")
            return out
    res = results(txt)
    out.log = digest(txt)
    out.states.add(out.log)
    n = sc["n"]
    if not res or abs(sum(res.values()) - 1) > 1e-9 or any(abs(v * n - round(v * n)) > 1e-6 or v <= 0 for v in res.values()):
        out.bad("not-a-distribution", f"printed probabilities {res} do not partition {n} shots\n{where}")
        return out
    out.add("sim:shots", n)
    out.nontrivial = True
    if noise:
        dist = distribution(sc)
        nq = sc["nq"]
        want: dict[str, float] = {}
        for b in range(1 << nq):
            bits = [(b >> (sc["perm"][c] if sc["measured"] else c)) & 1 for c in range(nq)]
            want["".join(map(str, reversed(bits)))] = float(dist[b])
        out.add(f"fault:channel-{''.join(sorted(set(sc['model'])))}", n)
        for k in {*want, *res}:
            if k not in want:
                out.bad("wrong-register", f"printed state |{k}> for {nq} qubits\n{where}")
                return out
            p, f = want[k], res.get(k, 0.0)
            if abs(f - p) * n > 6.5 * math.sqrt(n * p * (1 - p)) + 4:
                out.bad("wrong-noise", f"state |{k}> has probability {p:.4f} under the noise model, {f} was printed ({n} shots)\n{where}")
                return out
        return out
    # ideal: every printed state must be possible for the original circuit
    name, size = sc["cregs"][0]
    if sc["meas"]:
        red = {**sc, "meas": [m for m in sc["meas"] if m[1] < size]}
        regs = sc["cregs"]
    else:
        nq = sum(s for _, s in sc["qregs"])
        regs = [["allmeas", nq], *sc["cregs"]]
        red = {**sc, "cregs": regs, "meas": [[i, i] for i in range(nq)]}
        size = nq
    _, possible, _ = ec.support_oracle(ec.qasm(red), regs)
    tot = sum(s for _, s in regs)
    for k in res:
        if len(k) != size or not possible([int(x) for x in reversed(k)] + [0] * (tot - size)):
            out.bad("wrong-outcome", f"noise-free run printed state |{k}>, which the circuit cannot produce\n{where}")
            return out
    return out


def run_export(sc, args, text, d, out, where):
    txt, err = invoke([*args, "-e", "out.qasm"])
    if err is not None:
        out.bad("refused", f"export: {err[:400]}\n{where}")
        return out
    exp = (d / "out.qasm").read_text()
    out.log = digest(exp)
    out.states.add(out.log)
    if results(txt):
        out.bad("simulated", f"export mode printed simulation results\n{where}")
    try:
        p = qsim.parse_qasm(exp)
        if qsim.needs_dense(p) and p.nq > 12:
            out.add("probe:too-large")
            return out
        regs = sc["cregs"] if sc["meas"] else [[n, s] for n, (_, s) in p.cregs.items() if n not in {c for c, _ in sc["cregs"]}][:1]
        if sc["meas"]:
            orig = text
        else:
            nq = sum(s for _, s in sc["qregs"])
            orig = ec.qasm({**sc, "cregs": [[regs[0][0], nq], *sc["cregs"]], "meas": [[i, i] for i in range(nq)]})
        _, possible, _ = ec.support_oracle(orig, regs)
        for s in range(4):
            dense = qsim.needs_dense(p)
            r = qsim.run(p, random.Random(f"{sc['rs']}:{s}"), backend=qsim.DenseBackend(p.nq) if dense else None)
            o = ec.program_outcomes(p, regs, r.clbits)
            if not possible(o):
                out.bad("wrong-export", f"exported program yields {regs}={o}, impossible for the circuit\n{where}")
                return out
        out.nontrivial = True
    except qsim.Unsupported:
        out.add("probe:unsupported-by-device")
    except (ValueError, KeyError, IndexError) as e:
        out.bad("wrong-export", f"exported program is invalid: {e}\n{where}\n{exp[:600]}")
    return out


class FakeResult:
    def __init__(self, real, status):
        self._real, self.status = real, status

    def result(self):
        return self

    def __getattr__(self, k):
        return getattr(self._real, k)


def run_fault(sc, args, text, d, out, where):
    from mqt.qecc import ecc_qiskit_wrapper as w

    f = sc["fault"]
    rng = random.Random(sc["rs"])
    out.add(f"fault:{f}")
    valid_prefix = False
    orig_run = w.AerSimulator.run
    try:
        if f.startswith("backend"):
            st = "ERROR: injected" if f == "backend-error" else "PARTIAL COMPLETED"
            w.AerSimulator.run = lambda self, *a, **k: FakeResult(orig_run(self, *a, **k).result(), st)
        elif f == "export-full":
            args = [*args, "-e", "/dev/full"]
        elif f == "export-missing-dir":
            args = [*args, "-e", "no/such/dir/out.qasm"]
        elif f == "input-missing":
            (d / "in.qasm").unlink()
        elif f == "input-torn":
            cut = rng.randint(1, len(text) - 2)
            (d / "in.qasm").write_text(text[:cut])
            valid_prefix = text[:cut].rstrip().endswith(";")
        txt, err = invoke(args)
    finally:
        w.AerSimulator.run = orig_run
    out.log = digest([f, err is None])
    if not valid_prefix and (err is None or results(txt)):
        out.bad("silent-failure", f"fault {f}: " + ("no error was raised" if err is None else "results were printed") + f"\n{txt}\n{where}")
    out.nontrivial = True
    return out


def shrink(sc: dict):
    if sc["n"] > 100 and sc["mode"] != "noise":
        yield {**sc, "n": 20}
    if sc["mode"] == "noise" and len(sc["model"]) > 1:
        for i in range(len(sc["model"])):
            yield {**sc, "model": sc["model"][:i] + sc["model"][i + 1:]}
