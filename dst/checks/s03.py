"""S03: the noisy state-preparation simulator reports what its shots show and simulates the documented noise."""
from __future__ import annotations

import contextlib
import random

import numpy as np
import stim

from dst import gf2, procsim
from dst.checks import sp_common as sp
from dst.core import Outcome, digest

PROPERTY = "S03"
LEVEL = "exploration"
RULE = ("one run = one (code, target state, bare, verified, ancilla-reusing or arbitrary circuit, idling model) simulator and a seeded history of error-rate changes, "
        "estimations and plots; every batch of samples is recorded, some are replaced by extreme batches, some fail; every answer is recounted, the noise "
        "is compared with an independent model; non-trivial = at least one answer was recounted")
REAL = ["noisy state-preparation simulator, lookup-table decoder, synthesis and verification", "stim sampler (seeded by the simulator)"]
STUB = ["extreme sample batches (nothing accepted, few accepted)", "worker processes of searches", "plot back end (non-interactive)"]
STATE_MEASURE = "distinct (circuit, rate, counts)"
HANG_S = 240
SMALL = ["steane", "shor", "shor-dual", "surface3", "422", "642", "412", "shor24", "surface2"]
SIGMA = 6.5


def budget(tier: str) -> int:
    return 260 if tier == "quick" else 4000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    fam = rng.choice(SMALL)
    sc = {"family": fam, "mix": rng.choice([0, rng.getrandbits(30), rng.getrandbits(30)]), "zero": rng.random() < 0.5, "kind": rng.choice(["verified"] * 5 + ["bare", "reuse", "reuse", "random"]),
          "full": rng.random() < 0.6, "parallel": rng.random() < 0.7, "depthopt": rng.random() < 0.5, "p0": rng.choice([0.0, 0.01, 0.05]),
          "rs": rng.getrandbits(40), "hist": []}
    for _ in range(rng.randint(1, 5)):
        k = rng.choices(["set", "run", "stats", "extreme", "crash", "plot"], [5, 6, 3, 4, 1, 0.5])[0]
        if k == "set":
            sc["hist"].append(["set", rng.choice([0.0, 0.0, 0.002, 0.02, 0.05, 0.1, 0.3])])
        elif k == "run":
            b = rng.choice([1, 7, 100, 1000, 5000])
            sc["hist"].append(["run", rng.choice([b, b * 3, b * 3 + 1, max(1, b // 2), 1]), b, rng.random() < 0.4, rng.choice([1, 3, 50])])
        elif k == "stats":
            sc["hist"].append(["stats", rng.choice([0.01, 0.03, 0.08])])
        elif k == "extreme":
            b = rng.choice([5, 50])
            sc["hist"].append(["extreme", b * rng.choice([1, 2, 5]), b, rng.random() < 0.3, rng.choice([1, 4])])
        elif k == "crash":
            sc["hist"].append(["crash", rng.randint(0, 2)])
        else:
            sc["hist"].append(["plot", [rng.choice([0.04, 0.08, 0.15]) for _ in range(rng.randint(1, 3))]])
    sc["hist"].append(["run", 600, 200, False, 1])
    return sc


_shrink = ("hist",)


class Seam:
    """the sampler behind the simulator"""

    def __init__(self, seed: int) -> None:
        self.seed, self.calls, self.log, self.mode, self.mask = seed, 0, [], None, 0

    def sampler(self, circuit, *_a, **_k):
        seam = self

        class Sampler:
            def __init__(self) -> None:
                self.real = ORIG(circuit, seed=(seam.seed + 7919 * seam.calls) % 2**40)
                self.k = seam.calls
                seam.calls += 1

            def sample(self, shots, *a, **kw):
                if seam.mode and seam.mode[0] == "crash":
                    seam.mode = ("crash", seam.mode[1] - 1)
                    if seam.mode[1] < 0:
                        seam.mode = None
                        raise MemoryError("injected: no memory for the samples")
                res = np.array(self.real.sample(shots, *a, **kw))
                if seam.mode and seam.mode[0] == "extreme":
                    r = np.random.default_rng(seam.seed * 31 + self.k)
                    res = r.random(res.shape) < 0.5
                    n_ver, h, at = seam.mode[1:]
                    res[:, : n_ver] = r.random((shots, n_ver)) < r.choice([0.0, 0.2, 1.0])
                    res[:, at: at + len(h)] = (res[:, -h.shape[1]:] @ h.T % 2).astype(bool)  # read-out consistent with its checks
                seam.log.append(res.copy())
                return res

            def __getattr__(self, name):
                return getattr(self.real, name)

        return Sampler()


ORIG = stim.Circuit.compile_sampler


@contextlib.contextmanager
def installed(seam: Seam):
    stim.Circuit.compile_sampler = lambda self, *a, **k: seam.sampler(self)
    try:
        yield
    finally:
        stim.Circuit.compile_sampler = ORIG


def own_model(n, ops, n_data, hx, hz, zero, p, parallel) -> stim.Circuit:
    """the documented noise, written down independently: layers, initialisation, gates, idling, read-out"""
    c = stim.Circuit()
    f1, f2 = 2 * p / 3, p
    level, layers = {}, []
    for name, qs, cb in ops if parallel else ():
        keys = [("q", q) for q in qs] + ([("c", cb)] if cb >= 0 else [])
        lv = max([level.get(k, -1) for k in keys]) + 1
        for k in keys:
            level[k] = lv
        while len(layers) <= lv:
            layers.append([])
        layers[lv].append((name, qs))
    layers = layers if parallel else [[(name, qs) for name, qs, _cb in ops]]
    live: set[int] = set()
    plus: set[int] = set()
    prev: list[int] = []

    def idle(used):
        for q in sorted(live):
            if q not in used:
                c.append("DEPOLARIZE1", [q], f1)

    for layer in layers:
        if parallel and prev:
            idle(prev)
        prev = []
        for name, qs in layer:
            if name == "h":
                q = qs[0]
                if q in live:
                    c.append("H", [q])
                    c.append("DEPOLARIZE1", [q], f1)
                    prev.append(q)
                    if not parallel:
                        idle([q])
                else:  # preparation in the X basis
                    plus ^= {q}
            elif name == "cx":
                for q in qs:
                    if q not in live:
                        if q in plus:
                            c.append("H", [q])
                            c.append("Z_ERROR", [q], f1)
                            plus.discard(q)
                        else:
                            c.append("X_ERROR", [q], f1)
                        live.add(q)
                c.append("CX", qs)
                c.append("DEPOLARIZE2", qs, f2)
                prev += qs
                if not parallel:
                    idle(qs)
            elif name == "measure":
                c.append("X_ERROR", qs, f1)
                c.append("MR", qs)
                prev += qs
                if not parallel:
                    idle(qs)
                live.discard(qs[0])
            elif name == "reset":
                pass  # measured qubits are reset
            else:
                raise NotImplementedError(name)
    # data qubits that no gate acts on are prepared, too
    for q in range(n_data):
        if q in plus:
            c.append("H", [q])
            c.append("Z_ERROR", [q], f1)
        elif q not in live:
            c.append("X_ERROR", [q], f1)
    anc = n
    for h, basis in ((hx, "X"), (hz, "Z")):
        for row in h:
            c.append("MPP", stim.target_combined_paulis([stim.target_pauli(int(q), basis) for q in np.nonzero(row)[0]]))
    anc += 0
    c.append("M" if zero else "MX", list(range(n_data)))
    return c


def own_circuit(sc, prep, hx, hz):
    """circuits a user may hand in: one or two ancillas used again and again, or any gates on the data qubits"""
    from qiskit import QuantumCircuit

    rng = random.Random(sc["rs"] ^ 0x5EED)
    n = hx.shape[1]
    if sc["kind"] == "random":
        qc = QuantumCircuit(n)
        used = rng.sample(range(n), rng.randint(2, n))
        for _ in range(rng.randint(1, 2 * n)):
            if rng.random() < 0.4:
                qc.h(rng.choice(range(n)))
            else:
                qc.cx(*rng.sample(used, 2))
        return qc
    n_anc = rng.choice([1, 1, 2])
    rows = [(r, "Z") for r in hz] + [(r, "X") for r in hx]
    rows = [rng.choice(rows) for _ in range(rng.randint(1, 5))]
    qc = QuantumCircuit(n + n_anc, len(rows))
    qc.compose(prep.circ, range(n), inplace=True)
    for k, (row, basis) in enumerate(rows):
        a = n + k % n_anc
        qs = [int(q) for q in np.nonzero(row)[0]]
        rng.shuffle(qs)
        if basis == "Z":
            for q in qs:
                qc.cx(q, a)
        else:
            qc.h(a)
            for q in qs:
                qc.cx(a, q)
            qc.h(a)
        qc.measure(a, k)
        if rng.random() < 0.6:
            qc.reset(a)
    return qc


def layered(circ):
    """the operations in the order of the layers of the circuit graph"""
    from qiskit.converters import circuit_to_dag, dag_to_circuit

    ops = []
    for layer in circuit_to_dag(circ).layers():
        for inst in dag_to_circuit(layer["graph"]).data:
            qs = tuple(circ.find_bit(q).index for q in inst.qubits)
            cb = circ.find_bit(inst.clbits[0]).index if inst.clbits else -1
            ops.append((inst.operation.name, qs, cb))
    return [o for o in ops if o[0] not in ("barrier", "id")]


def recount(bits, n_ver, hx, hz, zero, logical, code):
    """(errors, accepted) of one batch of samples"""
    from mqt.qecc.ft_stateprep import LutDecoder

    acc = bits[~bits[:, :n_ver].any(axis=1)]
    if not len(acc):
        return 0, 0
    a, b = len(hx), len(hz)
    syn = (acc[:, n_ver + a: n_ver + a + b] if zero else acc[:, n_ver: n_ver + a]).astype(np.int8)
    data = acc[:, n_ver + a + b:].astype(int)
    dec = LutDecoder(code)
    lut = {}
    errors = 0
    for s, d in zip(syn, data):
        k = s.tobytes()
        if k not in lut:
            lut[k] = np.asarray(dec.decode_x(s) if zero else dec.decode_z(s)).astype(int)
        errors += bool((logical @ (d + lut[k]) % 2).any())
    return errors, len(acc)


def run(sc: dict) -> Outcome:
    import matplotlib

    matplotlib.use("Agg")
    from mqt.qecc.ft_stateprep import state_prep as m
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator as Sim

    out = Outcome()
    hx, hz = sp.matrices(sc)
    n_data = hx.shape[1]
    code = sp.css_code(sc)
    lx, lz = gf2.logicals(hx, hz)
    zero = sc["zero"]
    logical = lz if zero else lx
    with procsim.installed(random.Random(sc["rs"])):
        prep = m.heuristic_prep_circuit(code, optimize_depth=sc["depthopt"], zero_state=zero)
        if sc["kind"] == "verified":
            circ = m.heuristic_verification_circuit(prep, full_fault_tolerance=sc["full"])
        else:
            circ = prep.circ if sc["kind"] == "bare" else own_circuit(sc, prep, hx, hz)
    n, _nc, ops = sp.ops_of(circ)
    n_ver = sum(o[0] == "measure" for o in ops)
    total = n_ver + len(hx) + len(hz) + n_data
    where0 = (f"{sc['family']} (mix {sc['mix']}), {'zero' if zero else 'plus'} state, {sc['kind']} circuit"
              + (", full fault tolerance" if sc["kind"] == "verified" and sc["full"] else "") + f", {'parallel' if sc['parallel'] else 'sequential'} gates")
    seam = Seam(sc["rs"] % 2**30)
    log = []
    with installed(seam):
        try:
            sim = Sim(circ, code=code, zero_state=zero, p=sc["p0"], parallel_gates=sc["parallel"])
        except Exception as e:  # noqa: BLE001
            out.bad("failed", f"{where0}: construction failed with {type(e).__name__}: {e}")
            return out
        p = sc["p0"]
        for step, op in enumerate(sc["hist"]):
            where = f"{where0}, rate {p}, step {step} {op}"
            seam.log.clear()
            seam.mode = None
            if op[0] == "set":
                p = op[1]
                sim.set_p(p)
                continue
            if op[0] == "plot":
                check_plot(sim, seam, op[1], out, where, (n_ver, hx, hz, zero, logical, code))
                p = op[1][-1]
                out.add("probe:plot")
                if out.violations:
                    return out
                continue
            if op[0] == "stats":
                p = op[1]
                sim.set_p(p)
                args = dict(shots=12000, shots_per_batch=12000, at_least_min_errors=False, min_errors=1)
            elif op[0] == "crash":
                seam.mode = ("crash", op[1])
                args = dict(shots=30, shots_per_batch=10, at_least_min_errors=False, min_errors=1)
            else:
                args = dict(shots=op[1], shots_per_batch=op[2], at_least_min_errors=op[3], min_errors=op[4])
                if op[0] == "extreme":
                    seam.mode = ("extreme", n_ver, hz if zero else hx, n_ver + len(hx) if zero else n_ver)
                elif op[3] and p < 0.02:
                    args["at_least_min_errors"] = False
            start_calls = seam.calls
            try:
                p_l, r_a, n_err, n_shots = sim.logical_error_rate(**args)
            except MemoryError:
                if op[0] != "crash":
                    raise
                out.add("fault:sampler-failure")
                continue
            except Exception as e:  # noqa: BLE001
                out.bad("failed", f"{where}: failed with {type(e).__name__}: {e}")
                return out
            if op[0] == "crash" and seam.mode is None:
                out.bad("swallowed", f"{where}: a failing sampler went unnoticed")
                return out
            if any(b.shape[1] != total for b in seam.log):
                out.bad("layout", f"{where}: samples of {seam.log[0].shape[1]} bits, expected {n_ver} verification, {len(hx)}+{len(hz)} check and {n_data} data bits")
                return out
            err = acc = shots = 0
            for b in seam.log:
                e1, a1 = recount(b, n_ver, hx, hz, zero, logical, code)
                err, acc, shots = err + e1, acc + a1, shots + len(b)
            want = ((err / acc if acc else 0.0) / len(lx), acc / shots, err, shots)
            got = (float(p_l), float(r_a), int(n_err), int(n_shots))
            if not np.allclose(got, want, rtol=1e-9, atol=1e-12):
                out.bad("wrong-report", f"{where}: reported (error rate, acceptance, errors, shots) {got}, the samples show {want} "
                                        f"({len(seam.log)} batches)")
                return out
            asked = args["shots"]
            if not args["at_least_min_errors"] and not asked <= shots < asked + min(asked, args["shots_per_batch"]):
                out.bad("wrong-shots", f"{where}: {shots} shots taken for {asked} requested")
                return out
            if args["at_least_min_errors"] and err < args["min_errors"]:
                out.bad("too-few-errors", f"{where}: stopped after {err} errors")
                return out
            if p == 0 and op[0] == "run" and sc["kind"] != "random" and (r_a != 1 or n_err):
                out.bad("noise-at-zero", f"{where}: without noise {r_a} of the shots are accepted and {n_err} logical errors occur")
                return out
            out.nontrivial = True
            out.add("fault:sampled-noise", shots if p else 0)
            if op[0] == "extreme":
                out.add("fault:extreme-batch", len(seam.log))
            log.append(want)
            out.states.add(digest([sc["family"], sc["mix"], p, want]))
            if op[0] == "run":  # the same samples from a fresh simulator must give the same answer
                end = seam.calls
                seam.calls = start_calls
                fresh = Sim(circ, code=code, zero_state=zero, p=p, parallel_gates=sc["parallel"])
                again = tuple(map(float, fresh.logical_error_rate(**args)))
                seam.calls = max(end, seam.calls)
                if not np.allclose(again, got, rtol=1e-9, atol=1e-12):
                    out.bad("history-dependent", f"{where}: reported {got}, a fresh simulator at the same rate and with the same random numbers {again}")
                    return out
            if op[0] == "stats":
                real = np.concatenate(seam.log[:1])
                for order in (ops,) if sc["parallel"] else (layered(circ), ops):  # one gate at a time, in either natural order
                    model = own_model(n, order, n_data, hx, hz, zero, p, sc["parallel"])
                    ref = np.array(ORIG(model, seed=sc["rs"] % 2**30 + 5).sample(60000))
                    bad = compare(real, ref, n_ver, total - n_data)
                    if not bad:
                        break
                if bad:
                    out.bad("wrong-noise", f"{where}: {bad}")
                    return out
                out.add("probe:noise-comparison")
    out.log = digest(log)
    return out


def compare(real, ref, n_ver, n_bits) -> str | None:
    def test(a, b, what):
        n1, n2 = len(a), len(b)
        k1, k2 = int(a.sum()), int(b.sum())
        pool = (k1 + k2) / (n1 + n2)
        sd = np.sqrt(max(pool * (1 - pool), 1e-12) * (1 / n1 + 1 / n2))
        if abs(k1 / n1 - k2 / n2) > SIGMA * sd + 8 / n1:
            return f"{what}: frequency {k1 / n1:.5f} over {n1} shots, the documented noise gives {k2 / n2:.5f}"
        return None

    # the order of verification measurements made in the same step is free
    order1, order2 = (list(np.argsort(b[:, :n_ver].sum(axis=0), kind="stable")) + list(range(n_ver, n_bits)) for b in (real, ref))
    real, ref = real[:, order1 + list(range(n_bits, real.shape[1]))], ref[:, order2 + list(range(n_bits, ref.shape[1]))]
    for j in range(n_bits):
        r = test(real[:, j], ref[:, j], f"measurement {j} ({'verification' if j < n_ver else 'check'})")
        if r:
            return r
    a1, a2 = ~real[:, :n_ver].any(axis=1), ~ref[:, :n_ver].any(axis=1)
    r = test(a1, a2, "acceptance")
    if r:
        return r
    if a1.sum() > 1000:
        return test(real[a1][:, n_ver:n_bits].any(axis=1), ref[a2][:, n_ver:n_bits].any(axis=1), "violated checks among accepted shots")
    return None


def check_plot(sim, seam, ps, out, where, lay) -> None:
    import matplotlib.pyplot as plt

    n_ver, hx, hz, zero, logical, code = lay
    plt.close("all")
    marks = []
    orig = sim.set_p

    def set_p(p):
        marks.append((p, len(seam.log)))
        return orig(p)

    sim.set_p = set_p
    try:
        sim.plot_state_prep(ps, min_errors=3, name="dst")
    except Exception as e:  # noqa: BLE001
        out.bad("failed", f"{where}: plotting failed with {type(e).__name__}: {e}")
        return
    finally:
        del sim.set_p
    axes = plt.gcf().axes
    lines = [ax.lines[0].get_xydata() for ax in axes if ax.lines]
    plt.close("all")
    if [q for q, _ in marks] != list(ps) or len(lines) != 2:
        return  # another way of sweeping the rates
    want = []
    for i, (_q, a) in enumerate(marks):
        b = marks[i + 1][1] if i + 1 < len(marks) else len(seam.log)
        err = acc = shots = 0
        for x in seam.log[a:b]:
            e1, a1 = recount(x, n_ver, hx, hz, zero, logical, code)
            err, acc, shots = err + e1, acc + a1, shots + len(x)
        want.append(((err / acc if acc else 0) / len(gf2.logicals(hx, hz)[0]), acc / shots if shots else 0))
    for k, what in enumerate(("logical error rate", "acceptance rate")):
        exp = np.array([[q, w[k]] for q, w in zip(ps, want)])
        if lines[k].shape != exp.shape or not np.allclose(lines[k], exp, rtol=1e-9):
            out.bad("wrong-plot", f"{where}: plotted {what} {lines[k].tolist()}, the samples show {exp.tolist()}")
            return


def shrink(sc: dict):
    if sc["mix"]:
        yield {**sc, "mix": 0}
    if sc["kind"] != "bare":
        yield {**sc, "kind": "bare"}
    if sc["full"]:
        yield {**sc, "full": False}
