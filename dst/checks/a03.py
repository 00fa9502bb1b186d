"""A03: simulated noise follows its channel and is decided by the seed alone."""
from __future__ import annotations

import math
import random

import numpy as np

from dst import gf2, scratch
from dst.checks import an_common as an
from dst.core import Outcome, digest

PROPERTY = "A03"
LEVEL = "exploration"
RULE = ("one run = either a campaign repeated with the same seed after other work in the same process (other simulators, other draws, a campaign killed "
        "midway), or a seeded long sample of one noise source compared with its channel (6 standard deviations); non-trivial = noise was drawn")
REAL = ["noise sources of the analog-information simulators, the three simulators"]
STUB = ["kill: an exception that no handler of the program catches, raised at a sample boundary"]
STATE_MEASURE = "distinct (configuration, seed)"
HANG_S = 120
_shrink = ("between",)
Z = 6.5


def budget(tier: str) -> int:
    return 1000 if tier == "quick" else 8000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    if rng.random() < 0.4:
        return {"kind": rng.choice(["data", "data", "hard", "analog"]), "seed": rng.randrange(2**31), "rs": rng.getrandbits(40), "n": rng.choice([1, 2, 5, 9]), "between": []}
    return {"kind": "repeat", "sim": rng.choice(["ss", "atd", "qss"]), "mode": rng.choice(["hard", "tg"]), "seed": rng.choice([0, 1, 666, rng.randrange(2**31)]),
            "samples": rng.randint(3, 8), "per": rng.choice([0.1, 0.25]), "ser": rng.choice([0.05, 0.2]), "rs": rng.getrandbits(40),
            "between": [[rng.choice(["sim", "sim", "run", "numpy", "noise", "kill"]), rng.getrandbits(30)] for _ in range(rng.randint(0, 4))]}


class Killed(BaseException):
    pass


def make(kind: str, mode: str, seed: int, per: float, ser: float, folder):
    from mqt.qecc import AtdSimulator, QssSimulator
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    hx, hz = gf2.hgp(gf2.rep(3, True), gf2.rep(3, True))
    lx, lz = gf2.logicals(hx, hz)
    hx, hz, lx, lz = (a.astype(np.int32) for a in (hx, hz, lx, lz))
    common = {"codename": "code", "bp_params": BpParams(max_bp_iter=4, osd_method="osd0", osd_order=0), "code_params": {"n": 18, "k": 2, "d": 3},
              "bias": np.array([1.0, 1.0, 1.0]), "seed": seed, "save_interval": 1000}
    if kind == "ss":
        return SingleShotSimulator(per=per, ser=ser, single_stage=True, x_meta=False, z_meta=False, sus_th_depth=2, hx=hx, hz=hz, mx=None, mz=None, lz=lz, lx=lx,
                                   analog_tg=mode == "tg", **common)
    if kind == "atd":
        return AtdSimulator(hx=hx, lx=lx, hz=hz, lz=lz, data_err_rate=per, syndr_err_rate=ser, output_path=str(folder / "atd.json"), **common)
    return QssSimulator(pcm=hx, per=per, ser=ser, logicals=lx, analog_tg=mode == "tg", repetitions=2, rounds=4, outpath=str(folder / "qss.json"), **common)


def campaign(sc: dict, kind: str, mode: str, seed: int, samples: int, folder, kill: int | None = None):
    """(report without times, digest of all noise) of a fresh simulator"""
    stream: list = []

    def tap(name):
        fn = an.original(name)

        def wrapped(*a, **k):
            if kill is not None and len(stream) >= kill:
                raise Killed
            r = fn(*a, **k)
            stream.append([np.array(x, float).tolist() for x in (r if isinstance(r, tuple) else (r,))])
            return r

        return wrapped

    sim = make(kind, mode, seed, sc["per"], sc["ser"], folder)
    try:
        with an.replaced(**{f: tap(f) for f in ("generate_err", "generate_syndr_err", "get_noisy_analog_syndrome")}):
            rep = sim.run(samples)
    except Killed:
        return None
    keep = {k: v for k, v in rep.items() if k.startswith(("x_", "z_")) or k in ("nr_runs",)}
    return {k: float(v) for k, v in keep.items() if isinstance(v, (int, float, np.number))}, digest(stream)


def repeat(sc: dict, out: Outcome) -> None:
    from mqt.qecc.analog_information_decoding.utils import simulation_utils as su

    where = f"{sc['sim']} simulator ({sc['mode']}), seed {sc['seed']}, {sc['samples']} samples"
    rng = random.Random(sc["rs"])
    with scratch.scratch(cwd=True) as folder:
        first = campaign(sc, sc["sim"], sc["mode"], sc["seed"], sc["samples"], folder)
        kept = []
        for what, s in sc["between"]:
            r = random.Random(s)
            if what == "sim":
                kept.append(make(r.choice(["ss", "atd", "qss"]), "tg", s, 0.1, 0.1, folder))
            elif what == "run":
                campaign(sc, r.choice(["ss", "atd", "qss"]), "hard", s, 2, folder)
            elif what == "kill":
                campaign(sc, sc["sim"], sc["mode"], sc["seed"], sc["samples"], folder, kill=r.randint(1, 6))
                out.add("fault:kill")
            elif what == "numpy":
                np.random.random(r.randint(1, 9))  # noqa: NPY002
                random.random()
            else:
                su.generate_syndr_err(np.full(r.randint(1, 9), 0.5))
        again = campaign(sc, sc["sim"], sc["mode"], sc["seed"], sc["samples"], folder)
        other = campaign(sc, sc["sim"], sc["mode"], sc["seed"] + 1 + rng.randrange(1000), sc["samples"], folder)
    out.add("sim:samples", 3 * sc["samples"])
    out.nontrivial = True
    if first != again:
        out.bad("not-reproducible", f"{where}: two campaigns with the same seed in one process differ: {first[0]} and {again[0]}" if first[0] != again[0] else
                f"{where}: two campaigns with the same seed in one process drew different noise")
        return
    if first[1] == other[1]:
        out.bad("seed-ignored", f"{where}: a campaign with another seed drew the same noise")
        return
    out.states.add(digest([sc["sim"], sc["mode"], sc["seed"], sc["samples"]]))
    out.log = digest(first)


def off(count: float, total: float, p: float) -> bool:
    if p <= 0 or p >= 1:
        return count != (total if p >= 1 else 0)
    return abs(count - total * p) > Z * math.sqrt(total * p * (1 - p)) + 2


def noise(sc: dict, out: Outcome) -> None:
    from mqt.qecc.analog_information_decoding.utils import simulation_utils as su

    rng = np.random.default_rng(sc["rs"])
    n, kind = sc["n"], sc["kind"]
    total = 3000
    su.set_seed(sc["seed"])
    if kind == "data":
        ps = rng.random((3, n)) * rng.choice([0.05, 0.3])
        ps[:, rng.random(n) < 0.15] = 0
        ps[int(rng.integers(3))] *= rng.choice([0, 1, 1])
        res = rng.integers(0, 2, (2, n))
        s = np.zeros((2, total, n), int)
        for t in range(total):
            x, z = su.generate_err(n, tuple(np.array(p) for p in ps), [np.array(res[0]), np.array(res[1])])
            s[0, t], s[1, t] = (np.array(x) + res[0]) % 2, (np.array(z) + res[1]) % 2
        for q in range(n):
            kinds = {"X": s[0, :, q] & ~s[1, :, q] & 1, "Y": s[0, :, q] & s[1, :, q], "Z": s[1, :, q] & ~s[0, :, q] & 1}
            for p, (name, v) in zip(ps[:, q], kinds.items()):
                if off(v.sum(), total, p):
                    out.bad("wrong-noise", f"data noise, seed {sc['seed']}: {int(v.sum())} {name} errors on qubit {q} of {n} in {total} draws, its probability is {p:.4f}")
                    return
        flips, p = (s[0] | s[1]), ps.sum(0)
        out.add("fault:data", int(flips.sum()))
    elif kind == "hard":
        p = rng.random(n) * rng.choice([0.1, 0.6])
        p[rng.random(n) < 0.15] = 0
        flips = np.array([su.generate_syndr_err(np.array(p)) for _ in range(total)]).astype(int)
        out.add("fault:measurement", int(flips.sum()))
        for q in range(n):
            if off(flips[:, q].sum(), total, p[q]):
                out.bad("wrong-noise", f"measurement noise, seed {sc['seed']}: {int(flips[:, q].sum())} flips of check {q} in {total} draws, its probability is {p[q]:.4f}")
                return
    else:
        ser = float(rng.choice([0.01, 0.1, 0.3]))
        sigma = su.get_sigma_from_syndr_er(ser)
        back = su.get_error_rate_from_sigma(sigma)
        if abs(back - ser) > 1e-9:
            out.bad("wrong-noise", f"error rate {ser} becomes noise strength {sigma}, which becomes error rate {back}")
            return
        syn = rng.integers(0, 2, n)
        sgn = 1 - 2 * syn
        y = np.array([su.get_noisy_analog_syndrome(np.array(syn), sigma) for _ in range(total)]) * sgn
        hard = np.array([su.get_binary_from_analog(v * sgn) for v in y])
        flips, p = (hard != syn).astype(int), np.full(n, ser)
        out.add("fault:measurement", int(flips.sum()))
        for q in range(n):
            if abs(y[:, q].mean() - 1) > Z * sigma / math.sqrt(total) or abs(y[:, q].std() / sigma - 1) > Z / math.sqrt(2 * total):
                out.bad("wrong-noise", f"analog noise of strength {sigma:.4f}, seed {sc['seed']}: mean {y[:, q].mean():.4f} (expected 1), deviation {y[:, q].std():.4f}")
                return
            if off(flips[:, q].sum(), total, ser):
                out.bad("wrong-noise", f"analog noise, seed {sc['seed']}: {int(flips[:, q].sum())} wrong hard syndromes of check {q} in {total} draws, expected rate {ser}")
                return
        # reliability: values announced with error probability v are wrong in a share v of the cases
        v = su.get_virtual_check_init_vals((y * sgn).flatten(), sigma)
        wrong = flips.flatten()
        for lo, hi in ((0.0, 0.05), (0.05, 0.2), (0.2, 0.5)):
            sel = (v >= lo) & (v < hi)
            if sel.sum() > 50:
                mean = float(v[sel].mean())
                if abs(wrong[sel].mean() - mean) > Z * math.sqrt(mean * (1 - mean) / sel.sum()) + 2 / sel.sum():
                    out.bad("wrong-noise", f"analog noise of strength {sigma:.4f}: values announced with error probability {mean:.4f} on average are wrong in "
                                           f"{wrong[sel].mean():.4f} of {int(sel.sum())} cases")
                    return
    # independence of neighbouring qubits and of successive draws
    for name, a, b, pa, pb in (("neighbouring bits", flips[:, :-1], flips[:, 1:], p[:-1], p[1:]), ("successive draws", flips[:-1], flips[1:], p, p)):
        for q in range(a.shape[1]):
            if off(int((a[:, q] & b[:, q]).sum()), len(a) * 1.0, pa[q] * pb[q]):
                both = int((a[:, q] & b[:, q]).sum())
                out.bad("correlated-noise", f"{kind} noise, seed {sc['seed']}: {both} joint faults of {name} (bit {q}) in {len(a)} draws, independent noise gives "
                                            f"{len(a) * pa[q] * pb[q]:.1f}")
                return
    out.nontrivial = True
    out.states.add(digest([kind, sc["seed"], sc["rs"]]))
    out.add("sim:samples", total)
    out.log = digest(flips.tolist())


def run(sc: dict) -> Outcome:
    out = Outcome()
    if sc["kind"] == "repeat":
        repeat(sc, out)
    else:
        noise(sc, out)
    return out
