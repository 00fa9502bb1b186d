"""A01: sliding-window memory: correctable fault histories are corrected, whatever the window, length and earlier samples."""
from __future__ import annotations

import math
import random

import numpy as np

from dst import scratch
from dst.checks import an_common as an
from dst.core import Outcome, digest

PROPERTY = "A01"
LEVEL = "exploration"
RULE = ("one run = one simulator (seeded code, window length, number of measurement rounds, noise rates, hard or analog syndromes, matching or BP+OSD) "
        "and a history of 2 to 5 samples whose data and measurement faults are placed by the simulator; non-trivial = a sample with faults was decoded")
REAL = ["sliding-window simulator, window construction and overlapping-window decoding, PyMatching, BP+OSD"]
STUB = ["noise source: data faults, measurement faults and analog read-out values placed by the check"]
STATE_MEASURE = "distinct (configuration, fault history)"
HANG_S = 120
_shrink = ("samples",)


def budget(tier: str) -> int:
    return 8000 if tier == "quick" else 80000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    code = rng.choice(["rep", "rep", "ring", "ring", "toric", "surface"])
    d = rng.choice([3, 5, 5, 7]) if code in ("rep", "ring") else rng.choice([2, 3, 3]) if code == "toric" else rng.choice([3, 3, 5])
    rep = rng.choice([2, 4, 4, 6, 6, 8, 10, 12])
    k = rng.randint(0, 8)
    rounds = rep + k * (rep // 2) if rng.random() < 0.6 else rng.randint(1, 4 * rep)
    bias = rng.choice([[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [2.0, 1.0, 0.5], [0.5, 0.1, 3.0]])
    sc = {"code": code, "d": d, "rot": rng.randrange(8), "mix": rng.choice([0, rng.getrandbits(30)]), "rep": rep, "rounds": rounds,
          "side": rng.choice(["X", "Z"]), "bias": bias, "per": rng.choice([0.001, 0.01, 0.05, 0.1, 0.2, 0.4]), "ser": rng.choice([0.0003, 0.003, 0.02, 0.05, 0.1, 0.2]),
          "analog": rng.random() < 0.4, "method": "matching" if rng.random() < 0.7 else "bposd", "samples": []}
    any_ = 4 if sc["method"] == "bposd" else 1
    for _ in range(rng.randint(1, 4)):
        sc["samples"].append([rng.choice(["few", "few", "bursts", "bursts", "none"] + ["any"] * any_), rng.getrandbits(40)])
    return sc


def probabilities(sc: dict) -> tuple[float, float]:
    b = np.array(sc["bias"])
    x, y, z = b / b.sum()
    f = (z + y) if sc["side"] == "X" else (x + y)
    return sc["per"] * f, sc["ser"] * f


def history(sc: dict, kind: str, seed: int, h: list, dist: int, wd: float, wt: float, sigma: float):
    """data faults per round, other-type faults, flips per noisy round, magnitudes per noisy round, correctable?"""
    rng = random.Random(seed)
    m, n = len(h), len(h[0])
    rounds, rep = sc["rounds"], sc["rep"]
    data = [[0] * n for _ in range(rounds)]
    other = [[int(rng.random() < 0.2) for _ in range(n)] for _ in range(rounds)] if rng.random() < 0.5 else [[0] * n for _ in range(rounds)]
    flips = [[0] * m for _ in range(rounds)]
    big = 1.0 + rng.random()
    mags = [[big for _ in range(m)] for _ in range(rounds)]
    half = rep // 2
    if sc["analog"]:
        big = max(big, dist * wd * 1.02 * sigma**2 / 2 / max(1, half - rng.choice([0, 1, 1])))
        spread = rng.choice([0, 0.5, 2])
        mags = [[big * (1 + spread * rng.random()) for _ in range(m)] for _ in range(rounds)]

    def weight(r: int, c: int) -> float:
        return 2 * mags[r][c] / sigma**2 if sc["analog"] else wt

    def place(lo: int, hi: int, limit: float) -> None:
        """faults in rounds lo..hi-1 of a total weight below the limit"""
        total = 0.0
        chain = rng.choice([None, None, "space", "time"])  # scattered, or in a row from qubit to qubit or from round to round
        r, q, c = rng.randrange(lo, hi), rng.randrange(n), rng.randrange(m)
        for _ in range(rng.randint(1, 40)):
            if chain is None:
                r, q, c = rng.randrange(lo, hi), rng.randrange(n), rng.randrange(m)
            elif chain == "space":
                r = min(hi - 1, max(lo, r + rng.choice([0, 0, 0, 0, 1, -1])))
                q = rng.choice([j for i in range(m) if h[i][q] for j in range(n) if h[i][j]] or [q])
            else:
                r = min(hi - 1, max(lo, r + rng.choice([0, 1, 1, -1])))
            noisy = r != rounds - 1
            if noisy and (chain == "time" or rng.random() < (0.1 if chain else 0.6)):
                if sc["analog"] and rng.random() < 0.6 and not flips[r][c]:
                    mags[r][c] = rng.choice([0.01, 0.05, 0.1, mags[r][c]])
                if flips[r][c] or total + weight(r, c) >= limit:
                    continue
                flips[r][c] = 1
                total += weight(r, c)
            else:
                if data[r][q] or total + wd >= limit:
                    continue
                data[r][q] = 1
                total += wd

    limit = 0.5 * dist * wd * 0.99
    ok = True
    if kind == "few":
        place(0, rounds, limit)
    elif kind == "bursts":  # far enough apart for a window without faults
        lo = 0
        while lo < rounds:
            hi = min(rounds, lo + rng.randint(1, rep + 1))
            place(lo, hi, limit)
            lo = hi + rep + half
    elif kind == "any":
        p = rng.choice([0.02, 0.1, 0.3])
        data = [[int(rng.random() < p) for _ in range(n)] for _ in range(rounds)]
        flips = [[int(rng.random() < p) for _ in range(m)] for _ in range(rounds)]
        mags = [[rng.choice([0.01, 0.3, 0.8, 1.2]) for _ in range(m)] for _ in range(rounds)]
        ok = False
    # Matching is exact, so faults of less than half the weight of any undetectable error are corrected, provided that no explanation of the faults
    # in the committed half of a window reaches the open end of the window, i.e., the other half is long enough.
    floor = [min(weight(r, c) for c in range(m)) for r in range(max(0, rounds - 1))]
    ok = ok and all(sum(floor[r:r + half]) >= dist * wd * 1.005 for r in range(len(floor) - half + 1))
    return data, other, flips, mags, ok


class Feed:
    """the noise source of one sample"""

    def __init__(self, sc, data, other, flips, mags) -> None:
        self.sc, self.data, self.other, self.flips, self.mags = sc, data, other, flips, mags
        self.round = -1
        self.final: list = []

    def generate_err(self, nr_qubits, channel_probs, residual_err):
        self.round += 1
        r = min(self.round, len(self.data) - 1)
        mine, oth = np.array(self.data[r], dtype=np.int32), np.array(self.other[r], dtype=np.int32)
        x, z = (oth, mine) if self.sc["side"] == "X" else (mine, oth)
        return (np.array(residual_err[0]) + x) % 2, (np.array(residual_err[1]) + z) % 2

    def generate_syndr_err(self, channel_probs):
        return np.array(self.flips[min(self.round, len(self.flips) - 1)], dtype=np.int32)

    def get_noisy_analog_syndrome(self, perfect_syndr, sigma):
        s = np.where(np.array(perfect_syndr) == 0, 1.0, -1.0)
        if sigma <= 0:
            return s
        r = min(self.round, len(self.flips) - 1)
        return s * np.array(self.mags[r]) * np.where(np.array(self.flips[r]) == 1, -1.0, 1.0)


def run(sc: dict) -> Outcome:
    from mqt.qecc import QssSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    out = Outcome()
    h, log, dist = an.match_code(sc)
    m, n = h.shape
    pd, pt = probabilities(sc)
    wd, wt = math.log((1 - pd) / pd), math.log((1 - pt) / pt)
    sigma = an.original("get_sigma_from_syndr_er")(pt)
    where = (f"{sc['code']} code of distance {dist}, windows of {sc['rep']}, {sc['rounds']} rounds, {'analog' if sc['analog'] else 'hard'} syndromes, "
             f"{sc['method']}, side {sc['side']}, rates {sc['per']}/{sc['ser']}, bias {sc['bias']}")
    params = BpParams(bp_method="msl", max_bp_iter=10, osd_method="osd_cs", osd_order=0)
    tag = digest({k: v for k, v in sc.items() if k != "samples"})
    events = []

    def simulator(folder):
        return QssSimulator(pcm=h.astype(np.int32), per=sc["per"], ser=sc["ser"], logicals=log.astype(np.int32), bias=np.array(sc["bias"]),
                            codename="memory", bp_params=params, code_params={"n": n, "k": len(log), "d": dist}, decoding_method=sc["method"],
                            check_side=sc["side"], seed=1, analog_tg=sc["analog"], repetitions=sc["rep"], rounds=sc["rounds"],
                            outpath=str(folder / "out.json"))

    def sample(sim, feed) -> tuple[bool, list]:
        check = an.original("is_logical_err")

        def spy(logicals, residual_err):
            feed.final.append(np.array(residual_err).astype(int) % 2)
            return check(logicals, residual_err)

        with an.replaced(generate_err=feed.generate_err, generate_syndr_err=feed.generate_syndr_err,
                         get_noisy_analog_syndrome=feed.get_noisy_analog_syndrome, is_logical_err=spy):
            res = sim.run(1)
        count = res["z_success_cnt" if sc["side"] == "X" else "x_success_cnt"]
        return bool(count), feed.final

    with scratch.scratch(cwd=True) as folder:
        sim = simulator(folder)
        for i, (kind, seed) in enumerate(sc["samples"]):
            data, other, flips, mags, correctable = history(sc, kind, seed, h.tolist(), dist, wd, wt, sigma)
            verdicts = []
            for which in ("used", "fresh"):
                if which == "fresh" and i == 0:
                    break
                feed = Feed(sc, data, other, flips, mags)
                try:
                    good, final = sample(sim if which == "used" else simulator(folder), feed)
                except Exception as e:  # noqa: BLE001
                    out.bad("failed", f"{where}: sample {i} ({kind}) failed with {type(e).__name__}: {e}")
                    return out
                if feed.round + 1 != sc["rounds"]:
                    out.bad("rounds", f"{where}: sample {i}: {feed.round + 1} rounds of data noise instead of {sc['rounds']}")
                    return out
                verdicts.append((good, [f.tolist() for f in final]))
            good, final = verdicts[0]
            nd, nf = int(np.sum(data)), int(np.sum(flips[:-1]))
            desc = f"{where}: sample {i} ({nd} data faults, {nf} wrong measurements)"
            if len(verdicts) == 2 and verdicts[0] != verdicts[1]:
                out.bad("history-dependence", f"{desc}: verdict {good} after earlier samples, {verdicts[1][0]} on a fresh simulator")
                return out
            out.states.add(digest([tag, data, flips]))
            out.add("fault:data", nd)
            out.add("fault:measurement", nf)
            out.add("sim:rounds", sc["rounds"])
            out.nontrivial |= nd + nf > 0
            events.append(verdicts[0])
            if len(final) == 1:
                e = np.array(final[0])
                if (h @ e % 2).any():
                    out.bad("outside-code-space", f"{desc}: residual error on qubits {np.nonzero(e)[0].tolist()} violates checks after the perfect last round")
                    return out
                if bool((log @ e % 2).any()) == good:
                    out.bad("verdict", f"{desc}: residual error on qubits {np.nonzero(e)[0].tolist()} reported as {'success' if good else 'failure'}")
                    return out
            if sc["method"] == "matching" and correctable and not good:
                out.bad("not-corrected", f"{desc}: correctable faults (data {[(r, q) for r in range(sc['rounds']) for q in range(n) if data[r][q]]}, measurements "
                                         f"{[(r, c) for r in range(sc['rounds'] - 1) for c in range(m) if flips[r][c]]}) left a logical error")
                return out
    out.log = digest(events)
    return out


def shrink(sc: dict):
    if sc["mix"]:
        yield {**sc, "mix": 0}
    if sc["rounds"] > 1:
        yield {**sc, "rounds": sc["rounds"] - max(1, sc["rep"] // 2)} if sc["rounds"] > sc["rep"] // 2 else {**sc, "rounds": 1}
    if sc["d"] > 3:
        yield {**sc, "d": sc["d"] - 2}
