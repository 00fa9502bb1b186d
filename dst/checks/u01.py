"""U01: histories of decodings on long-lived Union-Find decoder objects."""
from __future__ import annotations

import random

import numpy as np

from dst import gf2, load
from dst.core import Outcome, digest

PROPERTY = "U01"
LEVEL = "exploration"
RULE = ("one run = a seeded history of calls (set code, set growth, reset, one- and two-sided decodings of injected errors, "
        "corrupted syndromes) on one decoder object; every decoding is checked against the code and against a fresh decoder "
        "given the same random draws; non-trivial = at least two decodings with a non-zero syndrome")
REAL = ["C++ Union-Find decoders, code and GF(2) classes, their Python bindings"]
STUB = ["std::random_device (seeded by the simulator)"]
STATE_MEASURE = "distinct (decoder, growth, code, syndrome, estimate)"
HANG_S = 40
SHRINK_S = 150
GROWTH = ["ALL_COMPONENTS", "INVALID_COMPONENTS", "SINGLE_SMALLEST", "SINGLE_RANDOM", "SINGLE_QUBIT_RANDOM"]


def budget(tier: str) -> int:
    return 40000 if tier == "quick" else 400000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    heur = rng.random() < 0.4
    codes = [gf2.gen_code(rng, big=rng.random() < 0.2) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops: list = [["code", 0]]
    gr = GROWTH[:4] if heur else GROWTH
    if rng.random() < 0.8:
        ops.append(["growth", rng.choice(gr)])
    for _ in range(rng.randint(1, 8)):
        x = rng.random()
        if x < 0.12:
            ops.append(["code", rng.randrange(len(codes))])
        elif x < 0.25:
            ops.append(["growth", rng.choice(gr)])
        elif x < 0.32 and heur:
            ops.append(["reset"])
        else:
            kind = rng.choices(["err", "two", "raw"], [6, 3, 1])[0]
            ops.append(["decode", kind, rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 6, 10]), rng.getrandbits(32), rng.getrandbits(40)])
    return {"decoder": "UFHeuristic" if heur else "UFDecoder", "codes": codes, "ops": ops, "_shrink": ["ops"]}


def single_error_claim(dec: str, growth: str, spec: dict) -> bool:
    # in the distance-3 planar code the smallest cluster around an inner qubit already touches both boundaries
    if spec["kind"] not in ("toric", "surface") or min(spec["d"], spec["d2"]) < (3 if spec["kind"] == "toric" else 4):
        return False
    return dec == "UFDecoder" or (growth in GROWTH[:3] and spec["kind"] == "toric")


def run(sc: dict) -> Outcome:
    import mqt.qecc.pyqecc as q

    out = Outcome()
    cls = getattr(q, sc["decoder"])
    mats = [gf2.code(c) for c in sc["codes"]]

    def mk(i):
        hx, hz = mats[i]
        b = hz.astype(bool).tolist()
        return q.Code(b) if hx is None else q.Code(hx.astype(bool).tolist(), b)

    def call(d, syn, seed):
        load.ext().dst_seed(seed)
        d.decode([bool(x) for x in syn])
        r = d.result
        return [int(x) for x in r.estimate], sorted(int(x) for x in r.estim_vec_idxs)

    dec = cls()
    cur = None
    growth = "ALL_COMPONENTS"
    log: list = []
    nz = 0
    for op in sc["ops"]:
        if op[0] == "code":
            cur = op[1]
            dec.set_code(mk(cur))
            continue
        if op[0] == "growth":
            growth = op[1]
            dec.set_growth(getattr(q.GrowthVariant, growth))
            continue
        if cur is None:
            continue
        if op[0] == "reset":
            dec.reset()
            growth = str(dec.growth).split(".")[-1]
            continue
        _, kind, w, es, rs = op
        hx, hz = mats[cur]
        n = hz.shape[1]
        r = random.Random(es)
        if kind == "two" and hx is None:
            kind = "err"
        if kind == "two" and sc["decoder"] == "UFHeuristic" and not hx.any(axis=1).all():
            kind = "err"
        e = np.zeros(n, np.uint8)
        e[r.sample(range(n), min(w, n))] = 1
        code = mk(cur)
        where = f"{sc['decoder']} growth={growth} code={sc['codes'][cur]}"
        if kind == "two":
            ez = np.zeros(n, np.uint8)
            ez[r.sample(range(n), min(r.choice([0, 1, 2, w]), n))] = 1
            full = np.concatenate([e, ez])
            syn = np.concatenate([hz @ e % 2, hx @ ez % 2]).astype(np.uint8)
            got = np.array(code.get_syndrome([bool(x) for x in e], [bool(x) for x in ez])).astype(np.uint8)
        else:
            full = e
            syn = (hz @ e % 2).astype(np.uint8)
            got = np.array(code.get_x_syndrome([bool(x) for x in e])).astype(np.uint8)
        if not np.array_equal(got, syn):
            out.bad("wrong-syndrome", f"{where}: syndrome of {full.tolist()} reported as {got.tolist()}, is {syn.tolist()}")
            break
        out.add("fault:data-bit-flip", int(full.sum()))
        reachable = True
        if kind == "raw" and len(syn):
            k = r.randrange(len(syn))
            syn = syn.copy()
            syn[k] ^= 1
            out.add("fault:syndrome-bit-flip")
            reachable = gf2.in_rowspace(hz.T, syn)
        if syn.any():
            nz += 1
        try:
            est, idx = call(dec, syn, rs)
            fresh = cls()
            fresh.set_code(mk(cur))
            fresh.set_growth(getattr(q.GrowthVariant, growth))
            est2, idx2 = call(fresh, syn, rs)
        except Exception as ex:  # noqa: BLE001
            out.bad("decode-error", f"{where}: decoding syndrome {syn.tolist()} raised {type(ex).__name__}: {ex}")
            break
        log.append([growth, kind, est, idx])
        if kind == "two":
            out.add("probe:two-sided")
        if len(est) != len(full) or (reachable and idx != [i for i, b in enumerate(est) if b]):
            out.bad("malformed-estimate", f"{where}: estimate vector {est} (expected length {len(full)}) and index list {idx} disagree")
            break
        if est != est2 or idx != idx2:
            out.bad("history-dependent", f"{where}: syndrome {syn.tolist()} decoded to {est} after earlier calls, to {est2} by a fresh decoder "
                    "with the same random draws")
            break
        if not syn.any() and any(est):
            out.bad("correction-without-syndrome", f"{where}: zero syndrome decoded to {est}")
            break
        ev = np.array(est, np.uint8)
        if sc["decoder"] == "UFDecoder" and reachable:
            s2 = hz @ ev[:n] % 2
            if kind == "two":
                s2 = np.concatenate([s2, hx @ ev[n:] % 2])
            if not np.array_equal(s2, syn):
                out.bad("syndrome-not-reproduced", f"{where}: estimate {est} for {syn.tolist()} ({kind}) has syndrome {s2.tolist()}")
                break
            out.add("probe:syndrome-reproduced")
        if kind != "raw" and single_error_claim(sc["decoder"], growth, sc["codes"][cur]):
            parts = [(e, ev[:n], hx, hz)] + ([(ez, ev[n:], hz, hx)] if kind == "two" else [])
            for err, es_, stab, chk in parts:
                if err.sum() == 1:
                    out.add("probe:single-error")
                    res = err ^ es_
                    if (chk @ res % 2).any() or not gf2.in_rowspace(stab, res):
                        out.bad("single-error-not-corrected", f"{where}: single error on qubit {int(err.argmax())} 'corrected' by {es_.tolist()}")
                        break
        if out.violations:
            break
        # verdict functions used on the residual
        if hx is not None and kind == "err":
            res = full ^ ev
            if bool(code.is_x_stabilizer([bool(x) for x in res])) != gf2.in_rowspace(hx, res):
                out.bad("wrong-verdict", f"{where}: is_x_stabilizer({res.tolist()}) is wrong")
                break
        if kind == "two":
            res = full ^ ev
            truth = gf2.in_rowspace(hx, res[:n]) and gf2.in_rowspace(hz, res[n:])
            if bool(code.is_stabilizer([bool(x) for x in res])) != truth or bool(code.is_stabilizer(
                    [bool(x) for x in res[:n]], [bool(x) for x in res[n:]])) != truth:
                out.bad("wrong-verdict", f"{where}: is_stabilizer({res.tolist()}) is wrong")
                break
        out.states.add(digest([sc["decoder"], growth, sc["codes"][cur], syn.tolist(), est]))
        out.add("sim:decodings")
    out.nontrivial = nz >= 2
    out.log = digest(log)
    return out


def shrink(sc: dict):
    for i, op in enumerate(sc["ops"]):
        if op[0] == "decode" and op[2] > 1:
            o = [list(x) for x in sc["ops"]]
            o[i][2] -= 1
            yield {**sc, "ops": o}
    for i, c in enumerate(sc["codes"]):
        if "perm" in c:
            cs = [dict(x) for x in sc["codes"]]
            del cs[i]["perm"]
            yield {**sc, "codes": cs}
