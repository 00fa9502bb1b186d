"""S02: time-limited searches keep their promises under every fate of their worker processes."""
from __future__ import annotations

import itertools
import random
from functools import lru_cache

import numpy as np

from dst import gf2, procsim
from dst.checks import sp_common as sp
from dst.checks.s01 import check_state
from dst.core import Outcome, digest

PROPERTY = "S02"
LEVEL = "exploration"
RULE = ("one run = one optimal search (depth- or gate-optimal preparation, gate-optimal verification) for a small code whose worker processes each get "
        "a seeded fate: duration, time-out, crash, finishing between the time-out and its supervisor's look; the virtual clock advances only by "
        "waiting; the answer is compared with an exhaustive optimum; non-trivial = a search answered and was judged")
REAL = ["search orchestration and supervision, synthesis of preparation circuits and verification measurements, z3"]
STUB = ["worker processes (target runs for real in a forked child; start, end, crash and time-outs are simulated)", "clock of the time-outs"]
STATE_MEASURE = "distinct (worker history of starts, ends, time-outs and crashes; answer)"
HANG_S = 240
VER = ["steane", "steane", "shor", "shor-dual", "surface3", "422", "642", "412", "shor24", "surface2"]


def budget(tier: str) -> int:
    return 500 if tier == "quick" else 8000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    kind = rng.choice(["depth", "gates", "depth", "gates", "ver", "ver"])
    sc = {"kind": kind, "mix": rng.choice([0, rng.getrandbits(30)]), "zero": rng.random() < 0.5, "rs": rng.getrandbits(40),
          "profile": rng.choice(["calm", "calm", "slow", "wild", "race", "crashy"]), "min_timeout": rng.choice([1, 1, 2]),
          "max_timeout": rng.choice([2, 4, 9])}
    if kind == "ver":
        sc["family"] = rng.choice(VER)
        sc["max_anc"] = rng.choice([None, None, None, 1, 2])
        sc["full"] = rng.random() < 0.5
        sc["detect"] = rng.random() < 0.1
        sc["raw"] = rng.random() < 0.5
    else:
        sc["family"] = rng.choice(["random"] * 5 + ["422", "642", "412", "shor24", "surface2", "steane"])
        if kind == "gates" and sc["family"] in ("steane", "642"):
            sc["family"] = "random"
        sc["n"] = rng.randint(2, 6)
        sc["r"] = rng.randint(1, 3)
        sc["min"] = rng.choice([1, 1, 1, 2, 3])
        sc["max"] = rng.choice([2, 6, 8]) if kind == "depth" else rng.choice([3, 7, 10])
        sc["max"] = max(sc["max"], sc["min"])
    return sc


def fate_of(rng: random.Random, sc: dict):
    prof, t = sc["profile"], sc["max_timeout"]

    def fate(_i: int) -> dict:
        k = rng.random()
        if prof == "calm":
            return {"dur": rng.uniform(0, 0.9)}
        if prof == "slow":
            return {"dur": rng.choice([0.2, 1.5, 3.0, t + 1.0])}
        if prof == "race":
            return {"dur": rng.choice([0.5, 1.0, 2.0, t, t + 0.001]), "race": k < 0.7}
        if prof == "crashy":
            return {"dur": rng.uniform(0, 0.9), "crash": k < 0.2}
        return {"dur": rng.choice([0.1, 1.0, 2.5, 50.0]), "race": k < 0.2, "crash": 0.2 <= k < 0.28}

    return fate


# ------------------------------------------------------------ exhaustive references

@lru_cache(maxsize=4000)
def best_gates(cols: tuple[int, ...], r: int, cap: int) -> int | None:
    """fewest column additions that leave exactly r nonzero columns (None: more than cap)"""
    def done(s):
        return sum(1 for c in s if c) == r

    start = tuple(sorted(cols))
    seen, front, k = {start}, [start], 0
    while front and k <= cap:
        if any(done(s) for s in front):
            return k
        nxt = []
        for s in front:
            for i, j in itertools.permutations(range(len(s)), 2):
                if not s[i]:
                    continue
                u = tuple(sorted((*s[:j], s[j] ^ s[i], *s[j + 1:])))
                if u not in seen:
                    seen.add(u)
                    nxt.append(u)
        front, k = nxt, k + 1
    return None


@lru_cache(maxsize=4000)
def best_depth(cols: tuple[int, ...], r: int, cap: int) -> int | None:
    def done(s):
        return sum(1 for c in s if c) == r

    def layers(s):
        def rec(rest, acc):
            if not rest:
                yield tuple(sorted(acc))
                return
            a, *more = rest
            yield from rec(more, (*acc, a))
            for i, b in enumerate(more):
                if a or b:
                    others = more[:i] + more[i + 1:]
                    if a:
                        yield from rec(others, (*acc, a, b ^ a))
                    if b:
                        yield from rec(others, (*acc, a ^ b, b))
        yield from rec(list(s), ())

    start = tuple(sorted(cols))
    seen, front, k = {start}, [start], 0
    while front and k <= cap:
        if any(done(s) for s in front):
            return k
        nxt = []
        for s in front:
            for u in layers(s):
                if u not in seen:
                    seen.add(u)
                    nxt.append(u)
        front, k = nxt, k + 1
    return None


def better_cover(gens: np.ndarray, faults: np.ndarray, anc: int, cnots: int):
    """a set of at most `anc` elements of the group that detects all faults with at most `cnots` CNOTs, or None"""
    r = len(gens)
    elems = []
    for bits in range(1, 1 << r):
        v = np.zeros(gens.shape[1], int)
        for i in range(r):
            if bits >> i & 1:
                v ^= gens[i]
        det = 0
        for k, f in enumerate(faults):
            det |= int(v @ f % 2) << k
        if v.any() and det:
            elems.append((int(v.sum()), det, v))
    full = (1 << len(faults)) - 1
    best: dict[int, tuple[int, np.ndarray]] = {}
    for w, det, v in elems:  # cheapest element per detection pattern
        if det not in best or best[det][0] > w:
            best[det] = (w, v)
    items = sorted(((w, det, v) for det, (w, v) in best.items()), key=lambda x: x[0])
    steps = [0]

    def rec(covered, start, left, budget_):
        steps[0] += 1
        if steps[0] > 400000:
            raise OverflowError
        if covered == full:
            return []
        if not left:
            return None
        low = next(k for k in range(len(faults)) if not covered >> k & 1)
        for w, det, v in items:
            if w > budget_:
                break
            if det >> low & 1:
                res = rec(covered | det, 0, left - 1, budget_ - w)
                if res is not None:
                    return [v, *res]
        return None

    return rec(0, 0, anc, cnots)


def run(sc: dict) -> Outcome:
    out = Outcome()
    rng = random.Random(sc["rs"])
    with procsim.installed(rng, fate_of(random.Random(sc["rs"] ^ 77), sc), effort=3_000_000) as sim:
        (run_ver if sc["kind"] == "ver" else run_prep)(sc, out, sim)
        ev = [e[:2] for e in sim.events]
    if not out.violations:
        if sim.live:
            out.bad("worker-left", f"{out.where}: {len(sim.live)} of {sim.started} workers are still running after the call returned")
        elif sim.started and sim.clock > sim.started * sc["max_timeout"] + 1e-6:
            out.bad("overdue", f"{out.where}: {sim.clock} simulated seconds for {sim.started} workers limited to {sc['max_timeout']} s each")
    for kind in ("join-timeout", "crash", "stuck", "terminated"):
        out.add(f"fault:worker-{kind}", sum(1 for e in sim.events if e[0] == kind))
    out.add("sim:virtual-seconds", sim.clock)
    out.add("sim:workers", sim.started)
    out.states.add(digest([ev, out.answer]))
    out.log = digest([ev, out.answer, round(sim.clock, 6)])
    return out


def disturbed(sim) -> bool:
    return any(e[0] in ("join-timeout", "crash", "stuck", "terminated") for e in sim.events)


def run_prep(sc: dict, out: Outcome, sim) -> None:
    from mqt.qecc.codes import CSSCode
    from mqt.qecc.ft_stateprep import state_prep as m

    out.answer = None
    rng = random.Random(sc["rs"])
    if sc["family"] == "random":
        n, r = sc["n"], min(sc["r"], sc["n"] - 1)
        while True:
            hx = np.array([[rng.randint(0, 1) for _ in range(n)] for _ in range(r)])
            if gf2.rank(hx) == r:
                break
        ker = gf2.kernel(hx)
        hz = ker[: max(1, len(ker) - 1)] if len(ker) > 1 else np.zeros((0, n), int)
        if not len(hz):
            hz = None
        if not sc["zero"] and hz is None:
            sc = {**sc, "zero": True}
        code = CSSCode(1, hx.astype(np.int8), None if hz is None else hz.astype(np.int8))
        hz = np.zeros((0, n), int) if hz is None else hz
    else:
        hx, hz = sp.matrices(sc)
        code = sp.css_code(sc)
    n = hx.shape[1]
    checks = hx if sc["zero"] else hz
    out.where = (f"{sc['family']} {checks.tolist()}, {'zero' if sc['zero'] else 'plus'} state, {sc['kind']}-optimal search from {sc['min']} to {sc['max']}, "
                 f"time-outs {sc['min_timeout']}..{sc['max_timeout']} s, {sc['profile']} workers")
    cols = tuple(int("".join(map(str, checks[:, j])), 2) for j in range(n))
    opt = (best_depth if sc["kind"] == "depth" else best_gates)(cols, len(checks), sc["max"])
    if opt == 0:
        return  # nothing to search for
    fun = m.depth_optimal_prep_circuit if sc["kind"] == "depth" else m.gate_optimal_prep_circuit
    names = {"depth": ("min_depth", "max_depth"), "gates": ("min_gates", "max_gates")}[sc["kind"]]
    try:
        res = fun(code, zero_state=sc["zero"], **{names[0]: sc["min"], names[1]: sc["max"]}, min_timeout=sc["min_timeout"], max_timeout=sc["max_timeout"])
    except Exception as e:  # noqa: BLE001
        out.answer = type(e).__name__
        if any(e_[0] == "crash" for e_ in sim.events):
            out.add("probe:failure-reported")
            out.nontrivial = True
            return
        out.bad("failed", f"{out.where}: failed with {type(e).__name__}: {e}")
        return
    out.nontrivial = True
    if res is None:
        if opt is not None and not disturbed(sim):
            out.bad("missed", f"{out.where}: no circuit found, {opt} suffice and no worker was disturbed")
        return
    lx, lz = gf2.logicals(hx, hz)
    gens = [("X", hx if sc["zero"] else np.vstack([hx, lx])), ("Z", np.vstack([hz, lz]) if sc["zero"] else hz)]
    nq, nc, ops = sp.ops_of(res.circ)
    out.answer = ops
    if not check_state(nq, nc, ops, gens, 1, out.where, "the circuit", out):
        return
    cx = [o[1] for o in ops if o[0] == "cx"]
    level = [0] * nq
    for a, b in cx:
        level[a] = level[b] = max(level[a], level[b]) + 1
    size = max(level) if sc["kind"] == "depth" else len(cx)
    if size > sc["max"]:
        out.bad("too-large", f"{out.where}: {size} exceeds the limit")
    elif opt is not None and size < opt:
        raise AssertionError(f"reference optimum {opt} beaten by {size}")
    elif opt is None:
        raise AssertionError("reference says impossible")
    elif size > opt and not disturbed(sim):
        out.bad("not-optimal", f"{out.where}: {size}, but {opt} suffice and no worker was disturbed")


def run_ver(sc: dict, out: Outcome, sim) -> None:
    from mqt.qecc.ft_stateprep import state_prep as m

    out.answer = None
    hx, hz = sp.matrices(sc)
    code = sp.css_code(sc)
    n = hx.shape[1]
    zero = sc["zero"]
    prep = m.heuristic_prep_circuit(code, zero_state=zero)
    if sc["detect"]:
        prep.set_error_detection(True)
    out.where = (f"{sc['family']} (mix {sc['mix']}), {'zero' if zero else 'plus'} state, gate-optimal verification"
                 + (f" with at most {sc['max_anc']} ancillas" if sc["max_anc"] else "") + f", time-outs {sc['min_timeout']}..{sc['max_timeout']} s, {sc['profile']} workers")
    _, _, ops0 = sp.ops_of(prep.circ)
    if sc["raw"]:
        try:
            layers = m.gate_optimal_verification_stabilizers(prep, zero, sc["min_timeout"], sc["max_timeout"], sc["max_anc"])
        except Exception as e:  # noqa: BLE001
            failed(out, sim, e)
            return
        out.nontrivial = True
        out.answer = [[list(map(int, s)) for s in layer] for layer in layers]
        faults = np.array(prep.compute_fault_set(1, x_errors=zero)).astype(int).reshape(-1, n)
        if not layers:
            if not disturbed(sim) and sc["max_anc"] is None:
                out.bad("missed", f"{out.where}: no measurements found although all checks together suffice and no worker was disturbed")
            elif not disturbed(sim):
                check_missed(sc, out, prep, faults, zero)
            return
        judge_layer(sc, out, sim, prep, faults, [np.array(s, int) for s in layers[0]], zero)
        return
    try:
        circ = m.gate_optimal_verification_circuit(prep, sc["min_timeout"], sc["max_timeout"], sc["max_anc"], sc["full"])
    except Exception as e:  # noqa: BLE001
        failed(out, sim, e)
        return
    out.nontrivial = True
    nq, nc, ops = sp.ops_of(circ)
    out.answer = ops
    lx, lz = gf2.logicals(hx, hz)
    gens = [("X", hx if zero else np.vstack([hx, lx])), ("Z", np.vstack([hz, lz]) if zero else hz)]
    if not check_state(nq, nc, ops, gens, 2, out.where, "the verified circuit", out):
        return
    sets = [[f] for x in sp.locations(nq, ops) for f in sp.all_faults(x)]
    fx, fz, fl = sp.frames(nq, nc, ops, sets)
    ok = ~fl.any(axis=0) if nc else np.ones(len(sets), bool)
    err = (fx if zero else fz)[:n]
    w = sp.coset_weight(gens[0][1] if zero else gens[1][1], n)(err)
    _, d, dx, dz = sp.FAMILIES[sc["family"]]
    max_w = max(((dx if zero else dz) - 1) // 2, 1) // max(1, (d - 1) // 2)
    bad = np.nonzero(ok & (w > max_w))[0]
    if len(bad):
        out.bad("unverified", f"{out.where}: fault {sets[int(bad[0])]} leaves an undetected error of weight {int(w[bad[0]])}; "
                              f"{len(ops) - len(ops0)} verification operations, worker history {[e[:2] for e in sim.events][:12]}")


def failed(out, sim, e) -> None:
    out.answer = type(e).__name__
    if any(x[0] == "crash" for x in sim.events) or isinstance(e, ValueError) and "ancillas" in str(e):
        out.add("probe:failure-reported")
        out.nontrivial = True
        return
    out.bad("failed", f"{out.where}: failed with {type(e).__name__}: {e}")


def check_missed(sc, out, prep, faults, zero) -> None:
    gens = np.array(prep.z_checks if zero else prep.x_checks).astype(int)
    try:
        alt = better_cover(gens, faults, sc["max_anc"], 10**6)
    except OverflowError:
        return
    if alt is not None:
        out.bad("missed", f"{out.where}: no measurements found, {[v.tolist() for v in alt]} suffice and no worker was disturbed")


def judge_layer(sc, out, sim, prep, faults, layer, zero) -> None:
    gens = np.array(prep.z_checks if zero else prep.x_checks).astype(int)
    for s in layer:
        if gf2.rank(np.vstack([gens, s])) != gf2.rank(gens):
            out.bad("not-a-stabilizer", f"{out.where}: measures {s.tolist()}, which is not a product of checks")
            return
    if any(not any(s @ f % 2 for s in layer) for f in faults):
        out.bad("undetected", f"{out.where}: measurements {[s.tolist() for s in layer]} miss a fault")
        return
    if sc["max_anc"] and len(layer) > sc["max_anc"]:
        out.bad("too-many-ancillas", f"{out.where}: {len(layer)} measurements")
        return
    if disturbed(sim) or not len(faults):
        return
    anc, cx = len(layer), int(sum(s.sum() for s in layer))
    try:
        for a, c in ((anc, cx - 1), (anc - 1, cx)):
            alt = better_cover(gens, faults, a, c)
            if alt is not None:
                out.bad("not-optimal", f"{out.where}: {anc} measurements with {cx} CNOTs, but {[v.tolist() for v in alt]} suffice and no worker was disturbed")
                return
    except OverflowError:
        out.add("probe:optimum-unknown")


def shrink(sc: dict):
    if sc["mix"]:
        yield {**sc, "mix": 0}
    if sc["profile"] != "calm":
        yield {**sc, "profile": "calm"}
    if sc.get("full"):
        yield {**sc, "full": False}
    if sc.get("n", 2) > 2 and sc["family"] == "random":
        yield {**sc, "n": sc["n"] - 1}
    if sc.get("r", 1) > 1 and sc["family"] == "random":
        yield {**sc, "r": sc["r"] - 1}
