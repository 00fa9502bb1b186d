"""A02: reports of the analog-information simulators equal a recount, and their decoders are told the read-out and its true reliability."""
from __future__ import annotations

import json
import math
import os
import random
import resource

import numpy as np

from dst import gf2, scratch
from dst.checks import an_common as an
from dst.core import Outcome, digest

PROPERTY = "A02"
LEVEL = "exploration"
RULE = ("one run = one simulator (single-shot, analog Tanner graph or quasi-single-shot; seeded code, channel, bias, decoding mode) and one or two "
        "campaigns whose noise is drawn by the check, some killed between samples or with a full disk; every decoder call is compared with a "
        "reference model and the report with a recount; non-trivial = a campaign with faults was reported")
REAL = ["the three simulators, their set-up of decoders and channels, reports and result files, BP+OSD decoder"]
STUB = ["noise source (values drawn by the check and handed to the simulator)", "disk: writes fail beyond a file-size limit",
        "kill: an exception that no handler of the program catches, raised at a sample boundary"]
STATE_MEASURE = "distinct (configuration, noise)"
HANG_S = 120
_shrink = ("campaigns",)
TOL = 1e-9


def budget(tier: str) -> int:
    return 8000 if tier == "quick" else 60000


# ---------------------------------------------------------------- scenarios

def codes(spec: dict):
    """(Hx, Hz) with redundant checks on most, Hx and Hz different as matrices"""
    kind = spec["code"]
    rng = random.Random(spec["mix"])
    if kind == "toric2":
        hx, hz = gf2.hgp(gf2.rep(2, True), gf2.rep(2, True))
    elif kind == "toric3":
        hx, hz = gf2.hgp(gf2.rep(3, True), gf2.rep(3, True))
    elif kind == "cyl":
        hx, hz = gf2.hgp(gf2.rep(3, True), gf2.rep(2, False))
    elif kind == "surface":
        hx, hz = an.surface(3)
    else:
        hx, hz = gf2.hgp(gf2.rand_classical(rng, 3), gf2.rand_classical(rng, 3))
    hx, hz = np.array(hx, dtype=np.int32), np.array(hz, dtype=np.int32)
    perm = rng.sample(range(hx.shape[1]), hx.shape[1])
    hx, hz = hx[:, perm], hz[:, perm]
    if spec["dup"]:
        hx = np.vstack([hx, hx[0] ^ hx[-1] if len(hx) > 1 and (hx[0] ^ hx[-1]).any() else hx[0]])
        hz = np.vstack([hz, hz[0]])
    return hx, hz


def gen(rng: random.Random, index: int, tier: str) -> dict:
    sim = rng.choice(["ss", "ss", "atd", "qss"])
    bias = rng.choice([[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [3.0, 1.0, 0.5], [0.2, 0.1, 2.0], ["inf", 0.0, 0.0], [0.0, "inf", 0.0], [0.0, 0.0, "inf"], [1.0, 0.0, 1.0]])
    sc = {"sim": sim, "code": rng.choice(["toric2", "toric3", "cyl", "surface", "hgp"]), "mix": rng.getrandbits(30), "dup": rng.random() < 0.4,
          "per": rng.choice([0.03, 0.1, 0.2, 0.3]), "ser": rng.choice([0.02, 0.1, 0.25]), "bias": bias, "mode": rng.choice(["hard", "tg", "tg", "info"]),
          "xmeta": rng.random() < 0.5, "zmeta": rng.random() < 0.5, "single": rng.random() < 0.5, "logicals": rng.random() < 0.6,
          "depth": rng.choice([0, 1, 2, 3]), "rep": rng.choice([2, 4, 4, 6]), "rounds": rng.randint(1, 11), "side": rng.choice(["X", "Z"]),
          "sigma": rng.choice([None, 0.4, 0.8]), "save": rng.choice([1, 2, 3, 5, 1000]), "precision": rng.choice([1e-9, 0.5, 0.9]),
          "k": rng.choice([1, 1, 2, 5]), "osd": rng.choice(["osd0", "osd_cs"]), "bp": rng.choice(["msl", "msl", "product_sum"]), "campaigns": []}
    if sim == "ss" and rng.random() < 0.15:
        sc["ser"] = 0.0
    if sim == "qss" and sc["mode"] == "info":
        sc["mode"] = "tg"
    if sim != "ss" and "inf" in bias:
        sc["bias"] = [1.0, 1.0, 1.0]
    for _ in range(rng.choice([1, 1, 2])):
        sc["campaigns"].append([rng.randint(1, 9), rng.choice(["", "", "", "", "kill", "disk"]), rng.randrange(9), rng.choice([0, 40, 300]), rng.getrandbits(40)])
    if sim == "atd":
        sc["alone"] = [rng.choice(["ser", "sigma", "both", "neither"]), rng.getrandbits(30)]
    sc.update(iters=rng.choice([2, 8, 8, 30]), order=rng.choice([0, 1, 2]), scale=rng.choice([0.5, 0.75, 1.0]))
    return sc


class Killed(BaseException):
    pass


# ---------------------------------------------------------------- recorded seams

class Spy:
    """the BP+OSD decoder, real, with its calls recorded"""

    log: list = []
    made: list = []

    def __init__(self, *args, **kw) -> None:
        if args:
            kw = {**dict(zip(("parity_check_matrix",), args)), **kw}
        object.__setattr__(self, "_pcm", np.array(kw["parity_check_matrix"].todense() if hasattr(kw["parity_check_matrix"], "todense")
                                                  else kw["parity_check_matrix"]).astype(int))
        object.__setattr__(self, "_real", Spy.real(**kw))
        Spy.made.append(self._real)

    def decode(self, syndrome):
        pri = np.array(self._real.channel_probs, dtype=float)
        syn = np.array(syndrome, dtype=float)
        res = self._real.decode(np.array(syndrome))
        Spy.log.append((self._pcm, pri, syn, np.array(res).astype(int), int(self._real.iter)))
        return res

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __setattr__(self, name, value) -> None:
        setattr(self._real, name, value)


class Noise:
    """draws the noise, records what was asked for"""

    def __init__(self, seed: int) -> None:
        self.rng = np.random.default_rng(seed)
        self.events: list = []  # ("err", probs, residual, x, z) / ("hard", probs, e) / ("analog", perfect, sigma, y)
        self.kill_after = None
        self.n_err = 0

    def generate_err(self, nr_qubits, channel_probs, residual_err):
        self.n_err += 1
        if self.kill_after is not None and self.n_err > self.kill_after:
            raise Killed
        px, py, pz = (np.array(c, dtype=float) for c in channel_probs)
        u = self.rng.random(nr_qubits)
        isz, isx, isy = u < pz, (u >= pz) & (u < pz + px), (u >= pz + px) & (u < px + py + pz)
        res = [np.array(r).astype(int) for r in residual_err]
        x, z = (res[0] + (isx | isy)) % 2, (res[1] + (isz | isy)) % 2
        self.events.append(("err", (px, py, pz), res, x, z))
        return x.astype(np.int32), z.astype(np.int32)

    def generate_syndr_err(self, channel_probs):
        p = np.array(channel_probs, dtype=float)
        e = (self.rng.random(p.shape) < p).astype(np.int32)
        self.events.append(("hard", p, e))
        return e.copy()

    def get_noisy_analog_syndrome(self, perfect_syndr, sigma):
        s = np.where(np.array(perfect_syndr) == 0, 1.0, -1.0)
        y = s + sigma * self.rng.standard_normal(s.shape)
        self.events.append(("analog", np.array(perfect_syndr).astype(int), float(sigma), y))
        return y.copy()


# ---------------------------------------------------------------- reference model

def close(a, b) -> bool:
    a, b = np.array(a, float), np.array(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= TOL + 1e-6 * np.abs(b)))


def split(rate: float, bias) -> tuple[float, float, float]:
    if "inf" in bias:
        return tuple(rate * (b == "inf") for b in bias)
    t = sum(bias)
    return tuple(rate * b / t for b in bias)


def sigma_of(p: float) -> float:
    from scipy.special import erfcinv

    return 0.0 if p == 0 else float(1 / math.sqrt(2) / erfcinv(2 * p))


def virt(y, sigma: float):
    if sigma <= 0:
        return np.zeros(len(y))
    return 1 / (np.exp(np.minimum(2 * np.abs(y) / sigma**2, 700)) + 1)


class Mismatch(Exception):
    pass


class Calls:
    """the recorded decoder calls of one campaign, consumed by the reference model"""

    def __init__(self, log) -> None:
        self.log, self.used = log, [False] * len(log)
        self.low = 0

    def take(self, what: str, pcm, priors, syn):
        """next unused call on this matrix; must have these priors and this syndrome"""
        while self.low < len(self.log) and self.used[self.low]:
            self.low += 1
        first = ""
        for i in range(self.low, len(self.log)):
            if self.used[i] or self.log[i][0].shape != pcm.shape or (self.log[i][0] != pcm).any():
                continue
            _, p, s, res, it = self.log[i]
            if s.shape != np.shape(syn) or (s != np.array(syn, float)).any():
                first = first or f"{what}: the decoder got the syndrome {s.tolist()}, the read-out gives {np.array(syn).tolist()}"
            elif not close(p, priors):
                j = int(np.argmax(np.abs(np.array(p) - priors))) if len(p) == len(priors) else -1
                first = first or f"{what}: the decoder was told error probability {p[j]:.6g} for its column {j} of {len(p)}, the noise gives {priors[j]:.6g}"
            else:
                self.used[i] = True
                return res, it
            if i > self.low + 8:  # calls of one round may come in any order
                break
        if first:
            raise Mismatch(first)
        raise Mismatch(f"{what}: no decoder call on the expected matrix of shape {pcm.shape}")


class Model:
    order = "xz"  # in which the sides are read out

    def __init__(self, sc: dict) -> None:
        self.sc = sc
        self.hx, self.hz = codes(sc)
        self.n = self.hx.shape[1]
        self.lx, self.lz = gf2.logicals(self.hx, self.hz)
        self.d = split(sc["per"], sc["bias"])
        self.s = split(sc["ser"], sc["bias"])
        # x errors are seen by Hz and vice versa
        self.h = {"x": self.hz, "z": self.hx}
        self.pd = {"x": self.d[0] + self.d[1], "z": self.d[2] + self.d[1]}
        self.ps = {"x": self.s[0] + self.s[1], "z": self.s[2] + self.s[1]}
        self.meta = {"x": gf2.kernel(self.hz.T).astype(int), "z": gf2.kernel(self.hx.T).astype(int)}
        self.log = {"x": self.lz, "z": self.lx}
        self.stab = {"x": self.hx, "z": self.hz}

    def err(self, ev, residual, what):
        if ev[0] != "err":
            raise Mismatch(f"{what}: expected data noise, the simulator drew {ev[0]}")
        for p, q, t in zip(ev[1], self.d, "xyz"):
            if not close(p, np.full(self.n, q)):
                raise Mismatch(f"{what}: {t} noise drawn with probability {p[0]:.6g}, the channel has {q:.6g}")
        if residual is not None:
            for side, a, b in zip("xz", ev[2], residual):
                if b is not None and (a != b).any():
                    raise Mismatch(f"{what}: starts from residual {side} error {np.nonzero(a)[0].tolist()} instead of {np.nonzero(b)[0].tolist()}")
        return {"x": ev[3], "z": ev[4]}

    def readout(self, events, perfect, side, analog, what, sigma=None):
        """(hard syndrome, analog values or None)"""
        p = self.ps[side]
        if analog:
            ev = events.pop(0)
            want = sigma_of(p) if sigma is None else sigma
            if ev[0] != "analog" or not np.array_equal(ev[1], perfect) or not close(ev[2], want):
                raise Mismatch(f"{what}: analog read-out of {ev[1].tolist() if ev[0] == 'analog' else ev[0]} with strength {ev[2] if ev[0] == 'analog' else '-'}, "
                               f"expected {perfect.tolist()} with {want:.6g}")
            return (ev[3] <= 0).astype(int), ev[3]
        ev = events.pop(0)
        if ev[0] != "hard" or not close(ev[1], np.full(len(perfect), p)):
            raise Mismatch(f"{what}: wrong measurements drawn with {ev[1] if ev[0] == 'hard' else ev[0]}, expected probability {p:.6g} for {len(perfect)} checks")
        return (perfect + ev[2]) % 2, None

    def logical(self, side, e, by_rows=False) -> bool:
        if by_rows:
            return not gf2.in_rowspace(self.stab[side], e)
        return bool((self.log[side] @ e % 2).any())

    # single shot
    def ss(self, events, calls: Calls, i: int):
        sc = self.sc
        analog = sc["mode"] in ("tg", "info")
        res = [np.zeros(self.n, int), np.zeros(self.n, int)]
        its = [0, 0]  # of the last noisy round
        for r in range(sc["depth"]):
            what = f"sample {i}, round {r}"
            e = self.err(events.pop(0), res, what)
            dec = {}
            ro = {}
            for side in self.order:
                perfect = self.h[side] @ e[side] % 2
                if analog or sc["ser"] > 0:
                    ro[side] = self.readout(events, perfect, side, analog, f"{what}, {side} errors")
                else:
                    ro[side] = (perfect, None)
            for side in "xz":
                h, (hard, y) = self.h[side], ro[side]
                m = h.shape[0]
                data = np.full(self.n, self.pd[side])
                has_meta = sc["zmeta"] if side == "x" else sc["xmeta"]
                w = f"{what}, {side} errors"
                eye = np.eye(m, dtype=int)
                v = virt(y, sigma_of(self.ps[side])) if sc["mode"] == "tg" else None
                if sc["single"] and has_meta:
                    mm = self.meta[side]
                    pcm = np.block([[h, eye], [np.zeros((len(mm), self.n), int), mm]])
                    pri = np.r_[data, v if v is not None else np.full(m, self.ps[side])]
                    out, it = calls.take(w, pcm, pri, np.r_[hard, mm @ hard % 2])
                else:
                    if has_meta:
                        mm = self.meta[side]
                        rep, _ = calls.take(f"{w}, syndrome repair", mm, np.full(m, self.ps[side]), mm @ hard % 2)
                        hard = (hard + rep) % 2
                    if v is not None:
                        out, it = calls.take(w, np.hstack([h, eye]), np.r_[data, v], hard)
                    else:
                        out, it = calls.take(w, h, data, hard)
                its["xz".index(side)] = it
                dec[side] = out[: self.n]
            res = [(e["x"] + dec["x"]) % 2, (e["z"] + dec["z"]) % 2]
        what = f"sample {i}, final round"
        e = self.err(events.pop(0), res, what)
        ok = []
        for side in "xz":
            out, _ = calls.take(f"{what}, {side} errors", self.h[side], np.full(self.n, self.pd[side]), self.h[side] @ e[side] % 2)
            ok.append(not self.logical(side, (e[side] + out) % 2, by_rows=not sc["logicals"]))
        return ok, its

    # analog Tanner graph
    def atd(self, events, calls: Calls, i: int):
        what = f"sample {i}"
        e = self.err(events.pop(0), [np.zeros(self.n, int)] * 2, what)
        ok, its = [], []
        ro = {side: self.readout(events, self.h[side] @ e[side] % 2, side, True, f"{what}, {side} errors") for side in self.order}
        for side in "xz":
            h = self.h[side]
            hard, y = ro[side]
            out, it = calls.take(f"{what}, {side} errors", np.hstack([h, np.eye(len(h), dtype=int)]),
                                 np.r_[np.full(self.n, self.pd[side]), virt(y, sigma_of(self.ps[side]))], hard)
            ok.append(not self.logical(side, (e[side] + out[: self.n]) % 2))
            its.append(it)
        return ok, its

    # sliding window
    def qss(self, events, calls: Calls, i: int):
        sc = self.sc
        side = "z" if sc["side"] == "X" else "x"
        h = self.h[side]
        m, rep, half = len(h), sc["rep"], sc["rep"] // 2
        analog = sc["mode"] == "tg"
        pcm = np.zeros((m * rep, (self.n + m) * rep), int)
        for t in range(rep):
            pcm[t * m:(t + 1) * m, t * self.n:(t + 1) * self.n] = h
            pcm[t * m:(t + 1) * m, rep * self.n + t * m: rep * self.n + (t + 1) * m] = np.eye(m, dtype=int)
            if t:
                pcm[t * m:(t + 1) * m, rep * self.n + (t - 1) * m: rep * self.n + t * m] = np.eye(m, dtype=int)
        e = np.zeros(self.n, int)
        cols, vals = [], []
        its = 0
        for r in range(sc["rounds"]):
            what = f"sample {i}, round {r}"
            ev = self.err(events.pop(0), [e if side == "x" else None, e if side == "z" else None], what)
            e = ev[side]
            perfect = h @ e % 2
            last = r == sc["rounds"] - 1
            if last:
                hard, y = perfect, np.where(perfect == 0, 1.0, -1.0)
                if events and events[0][0] == "analog" and events[0][2] == 0.0:
                    events.pop(0)
            else:
                hard, y = self.readout(events, perfect, side, analog, what)
            fill = rep - len(cols) if last else 1
            cols += [hard] * fill
            vals += [y] * fill
            if len(cols) < rep:
                continue
            diff = [cols[0], *[(a + b) % 2 for a, b in zip(cols[1:], cols)]]
            pri = np.full((self.n + m) * rep, self.pd[side])
            pri[rep * self.n:] = np.concatenate([virt(v, sigma_of(self.ps[side])) for v in vals]) if analog else self.ps[side]
            if last:
                pri[-m:] = 1e-15
            out, it = calls.take(f"{what}, window decoding", pcm, pri, np.concatenate(diff))
            its += it
            space = out[: self.n * rep].reshape(rep, self.n)
            c = space.sum(0) % 2 if last else space[:half].sum(0) % 2
            e = (e + c) % 2
            cols = [(s + h @ c) % 2 for s in cols[half:]]
            vals = vals[half:]
        bad = self.logical(side, e)
        return [not bad], [its / sc["rounds"]]


# ---------------------------------------------------------------- run

def make(sc, model: Model, folder):
    from mqt.qecc import AtdSimulator, QssSimulator
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    bias = np.array([np.inf if b == "inf" else b for b in sc["bias"]], dtype=float)
    params = BpParams(bp_method=sc["bp"], max_bp_iter=sc["iters"], osd_method=sc["osd"], osd_order=0 if sc["osd"] == "osd0" else sc["order"], ms_scaling_factor=sc["scale"])
    cp = {"n": model.n, "k": sc["k"], "d": 2}
    common = {"codename": "code", "bp_params": params, "code_params": cp, "save_interval": sc["save"], "eb_precision": sc["precision"], "bias": bias, "seed": 7}
    hx, hz = model.hx.copy(), model.hz.copy()
    lx, lz = model.lx.astype(np.int32), model.lz.astype(np.int32)
    if sc["sim"] == "ss":
        return SingleShotSimulator(per=sc["per"], ser=sc["ser"], single_stage=sc["single"], x_meta=sc["xmeta"], z_meta=sc["zmeta"], sus_th_depth=sc["depth"],
                                   hx=hx, hz=hz, mx=model.meta["z"].astype(np.int32) if sc["xmeta"] else None,
                                   mz=model.meta["x"].astype(np.int32) if sc["zmeta"] else None, lz=lz if sc["logicals"] else None,
                                   lx=lx if sc["logicals"] else None, analog_info=sc["mode"] == "info", analog_tg=sc["mode"] == "tg", **common)
    if sc["sim"] == "atd":
        return AtdSimulator(hx=hx, lx=lx, hz=hz, lz=lz, data_err_rate=sc["per"], syndr_err_rate=None if sc["sigma"] else sc["ser"], sigma=sc["sigma"],
                            output_path=str(folder / "atd.json"), **common)
    return QssSimulator(pcm=hx if sc["side"] == "X" else hz, per=sc["per"], ser=sc["ser"], logicals=lx if sc["side"] == "X" else lz, check_side=sc["side"],
                        analog_tg=sc["mode"] == "tg", repetitions=sc["rep"], rounds=sc["rounds"], outpath=str(folder / "qss.json"), **common)


def rates(ok: int, runs: int, k: int):
    ler = 1 - ok / runs
    eb = math.sqrt(max(0.0, (1 - ler) * ler) / runs)
    wer = 1 - (1 - ler) ** (1 / k)
    web = 0.0 if ler >= 1 else eb * (1 - ler) ** (1 / k - 1) / k
    return ler, eb, wer, web


def wrong_iterations(report, sim: str, made) -> str:
    """are the reported average iterations those the decoders made?"""
    names = {"qss": [["avg_bp_iterations"]], "atd": [["x_bp_iterations"], ["z_bp_iterations"]],
             "ss": [["avg_x_bp_iters", "avg_x_bp_iter"], ["avg_z_bp_iters", "avg_z_bp_iter"]]}[sim]
    for keys, want in zip(names, made):
        got = [report[k] for k in keys if k in report]
        if not got or any(abs(g - want) > 1e-9 for g in got):
            return f"{keys[0]} reported as {got}, the decoder made {want} iterations per sample on average"
    return ""


def alone(sc, model: Model, params, how: str, seed: int) -> str:
    """the analog Tanner graph decoder used on its own"""
    from mqt.qecc import AnalogTannergraphDecoder

    rng = np.random.default_rng(seed)
    h, p = model.hz, float(rng.choice([0.02, 0.1, 0.3]))
    sigma = sigma_of(p)
    given = {"ser": {"ser": p}, "sigma": {"sigma": sigma}, "both": {"ser": p, "sigma": sigma}, "neither": {}}[how]
    channel = rng.choice([0.01, 0.1, 0.2], model.n)
    Spy.log = []
    try:
        dec = AnalogTannergraphDecoder(pcm=h.copy(), bp_params=params, error_channel=channel.copy(), **given)
    except ValueError as e:
        return "" if how in ("both", "neither") else f"decoder alone with {given} refused: {e}"
    if how in ("both", "neither"):
        return f"decoder alone accepted {how} of noise strength and error rate"
    calls = Calls(Spy.log)
    for i in range(2):
        y = np.where(h @ (rng.random(model.n) < 0.1) % 2, -1.0, 1.0) + sigma * rng.standard_normal(len(h))
        res = dec.decode(y.copy())
        calls.log, calls.used = Spy.log, calls.used + [False] * (len(Spy.log) - len(calls.used))
        try:
            got, _ = calls.take(f"decoder alone with {given}, call {i}", np.hstack([h, np.eye(len(h), dtype=int)]), np.r_[channel, virt(y, sigma)], (y <= 0).astype(int))
        except Mismatch as e:
            return str(e)
        if not np.array_equal(np.array(res).astype(int), got):
            return "decoder alone: what it returns is not what BP+OSD decoded"
    return ""


def wrong_subject(report, sc, model: Model) -> str:
    """does the report say which experiment it is about?"""
    ser = sc["ser"]
    want = {"code_N": model.n, "code_K": sc["k"], "pers": sc["per"], "sers": ser}
    if sc["sim"] == "atd":
        want.update({f"{side}_sigma": sigma_of(model.ps[side]) for side in "xz"})
    for key, value in want.items():
        if key in report and (not isinstance(report[key], (int, float)) or abs(report[key] - value) > 1e-6 * abs(value)):
            return f"{key} reported as {report[key]}, the campaign used {value}"
    return ""


def report_matches(rep: dict, sides, counts, runs: int, k: int) -> str:
    if rep.get("nr_runs") != runs:
        return f"{rep.get('nr_runs')} runs reported, {runs} made"
    for side, c in zip(sides, counts):
        got = [rep.get(f"{side}_{x}") for x in ("success_cnt", "ler", "ler_eb", "wer", "wer_eb")]
        want = [c, *rates(c, runs, k)]
        for name, a, b in zip(("successes", "logical error rate", "its error bar", "word error rate", "its error bar (word)"), got, want):
            if a is None or not math.isfinite(a) or abs(a - b) > 1e-9:
                return f"{side} {name} is {a}, a recount of {runs} samples gives {b}"
    return ""


def run(sc: dict) -> Outcome:
    out = Outcome()
    model = Model(sc)
    if sc["sim"] == "atd" and sc["sigma"]:
        p = 0.5 * math.erfc(1 / (math.sqrt(2) * sc["sigma"]))
        model.s = split(p, sc["bias"])
        model.ps = {"x": model.s[0] + model.s[1], "z": model.s[2] + model.s[1]}
    if (model.meta["x"].shape[0] == 0 and sc["zmeta"]) or (model.meta["z"].shape[0] == 0 and sc["xmeta"]):
        sc = {**sc, "zmeta": sc["zmeta"] and len(model.meta["x"]) > 0, "xmeta": sc["xmeta"] and len(model.meta["z"]) > 0}
        model.sc = sc
    if not len(model.lx):
        out.add("probe:no-logical-qubit")
        out.log = "trivial"
        return out
    if model.hx.shape == model.hz.shape and (model.hx == model.hz).all():
        out.log = "same"
        return out
    sides = ["x", "z"] if sc["sim"] != "qss" else ["z" if sc["side"] == "X" else "x"]
    mode = {"hard": "hard", "tg": "analog Tanner graph", "info": "analog information"}[sc["mode"]]
    where = {"ss": f"single-shot ({'one stage' if sc['single'] else 'two stages'}, {mode}, meta checks {'x' * sc['xmeta']}{'z' * sc['zmeta']}, depth {sc['depth']}, "
                   f"{'with' if sc['logicals'] else 'without'} logicals)",
             "atd": f"analog Tanner graph decoding (sigma {sc['sigma']})",
             "qss": f"sliding window ({mode}, window {sc['rep']}, {sc['rounds']} rounds, side {sc['side']})"}[sc["sim"]]
    where += f" on {sc['code']} code with {model.n} qubits, rates {sc['per']}/{sc['ser']}, bias {sc['bias']}"
    tag = digest({k: v for k, v in sc.items() if k != "campaigns"})
    logs = []
    from ldpc import bposd_decoder

    Spy.real = staticmethod(bposd_decoder)
    Spy.log, Spy.made = [], []
    with scratch.scratch(cwd=True) as folder, an.replaced(bposd_decoder=Spy):
        try:
            sim = make(sc, model, folder)
        except Exception as e:  # noqa: BLE001
            out.bad("failed", f"{where}: set-up failed with {type(e).__name__}: {e}")
            return out
        if sc.get("alone"):
            msg = alone(sc, model, sim.bp_params, *sc["alone"])
            out.add("probe:decoder-alone")
            if msg:
                out.bad("wrong-decoding", f"{where}: {msg}")
                return out
        asked = [{"msl": "minimum_sum_log"}.get(sc["bp"], sc["bp"]), sc["iters"], {"osd0": "osd_0"}.get(sc["osd"], sc["osd"]), 0 if sc["osd"] == "osd0" else sc["order"], sc["scale"]]
        for dec in Spy.made:
            got = [dec.bp_method, dec.max_iter, dec.osd_method, dec.osd_order, dec.ms_scaling_factor]
            if got != asked:
                out.bad("decoder-parameters", f"{where}: a decoder was made with (method, iterations, OSD, order, scaling) = {got}, requested {asked}")
                return out
        file = sim.outfile
        for ci, (samples, fault, pos, limit, seed) in enumerate(sc["campaigns"]):
            noise = Noise(seed)
            iters = np.zeros(len(sides))
            Spy.log = []
            per_sample = sc["depth"] + 1 if sc["sim"] == "ss" else sc["rounds"] if sc["sim"] == "qss" else 1
            if fault == "kill":
                noise.kill_after = (pos % samples) * per_sample
            if os.path.exists(file) and fault != "":
                os.unlink(file)
            report, failure = None, None
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            try:
                with an.replaced(generate_err=noise.generate_err, generate_syndr_err=noise.generate_syndr_err,
                                 get_noisy_analog_syndrome=noise.get_noisy_analog_syndrome):
                    if fault == "disk":
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                    report = sim.run(samples)
            except Killed:
                failure = "killed"
            except Exception as e:  # noqa: BLE001
                failure = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            desc = f"{where}: campaign {ci} of {samples} samples"
            if fault:
                out.add("fault:kill" if fault == "kill" else "fault:disk-full")
            if failure is not None and failure != "killed" and not (fault == "disk" and isinstance(failure, OSError)):
                out.bad("failed", f"{desc} failed with {type(failure).__name__}: {failure}")
                return out
            # replay on the model
            wrong: list = []
            for order in ("xz", "zx"):  # the sides may be read out in either order
                model.order = order
                events, calls = list(noise.events), Calls(Spy.log)
                verdicts = []
                iters = np.zeros(len(sides))
                try:
                    while events and not (failure is not None and len(verdicts) == noise.n_err // per_sample):
                        ok, its = getattr(model, sc["sim"])(events, calls, len(verdicts))
                        verdicts.append(ok)
                        iters += its
                    break
                except Mismatch as e:
                    wrong.append(("wrong-decoding", f"{desc}: {e}"))
                except IndexError:
                    wrong.append(("rounds", f"{desc}: sample {len(verdicts)} ended early"))
            if len(wrong) == 2:
                out.bad(*wrong[0])
                return out
            if not all(calls.used) and failure is None:
                out.bad("rounds", f"{desc}: {len(calls.used) - sum(calls.used)} decoder calls beyond those of {len(verdicts)} samples")
                return out
            runs = len(verdicts)
            out.states.add(digest([tag, samples, seed]))
            out.add("sim:samples", runs)
            out.add("fault:data", sum(int((e[3] != e[2][0]).sum() + (e[4] != e[2][1]).sum()) for e in noise.events if e[0] == "err"))
            out.add("fault:measurement", sum(int(e[2].sum()) for e in noise.events if e[0] == "hard") +
                    sum(int(((e[3] <= 0).astype(int) != e[1]).sum()) for e in noise.events if e[0] == "analog"))
            counts = [sum(v[j] for v in verdicts) for j in range(len(sides))]
            logs.append([runs, counts, str(type(failure))])

            def converged(n: int) -> bool:
                good = True
                for j in range(len(sides)):
                    _, _, wer, web = rates(sum(v[j] for v in verdicts[:n]), n, sc["k"])
                    good &= web != 0 and web / wer < sc["precision"]
                return good

            if failure is None:
                out.nontrivial = True
                if runs != samples and not converged(runs):
                    out.bad("stopped-early", f"{desc}: stopped after {runs} samples, not converged to {sc['precision']}")
                    return out
                step = sc["save"]
                checkpoints = [n for n in range(1, runs) if (n % step == 0 if sc["sim"] == "ss" else (n - 1) % step == 0)]
                # a tie with the precision may go either way
                if any(converged(n) for n in checkpoints) and abs(sc["precision"] - 0.5) > 1e-9:
                    n = next(n for n in checkpoints if converged(n))
                    out.bad("not-stopped", f"{desc}: converged to {sc['precision']} after {n} samples, went on for {runs}")
                    return out
                msg = report_matches(report, sides, counts, runs, sc["k"])
                if msg:
                    out.bad("wrong-report", f"{desc}: {msg}")
                    return out
                msg = wrong_iterations(report, sc["sim"], iters / runs) or wrong_subject(report, sc, model)
                if msg:
                    out.bad("wrong-report", f"{desc}: {msg}")
                    return out
            # the file
            try:
                with open(file, encoding="utf-8") as f:
                    stored = json.loads(f.read())
            except (OSError, ValueError) as e:
                stored = e
            if failure is None:
                if isinstance(stored, Exception):
                    out.bad("lost-results", f"{desc} ended normally, but its result file cannot be read: {stored}")
                    return out
                msg = report_matches(stored, sides, counts, runs, sc["k"]) or wrong_iterations(stored, sc["sim"], iters / runs) or wrong_subject(stored, sc, model)
                if msg:
                    out.bad("wrong-file", f"{desc}: result file: {msg}")
                    return out
            elif failure == "killed" and runs > sc["save"]:
                if isinstance(stored, Exception):
                    out.bad("lost-results", f"{desc}, killed after {runs} samples: nothing of them is stored although results are saved every {sc['save']}: {stored}")
                    return out
                n = stored.get("nr_runs", 0)
                msg = f"{n} samples" if not runs - sc["save"] <= n <= runs else report_matches(
                    stored, sides, [sum(v[j] for v in verdicts[:n]) for j in range(len(sides))], n, sc["k"])
                if msg:
                    out.bad("wrong-file", f"{desc}, killed after {runs} samples, saved every {sc['save']}: result file: {msg}")
                    return out
                out.add("probe:checkpoint-read-after-kill")
            if failure is not None:  # a killed or failed process does not go on
                break
    out.log = digest(logs)
    return out


def shrink(sc: dict):
    for i, c in enumerate(sc["campaigns"]):
        if c[0] > 1:
            yield {**sc, "campaigns": [*sc["campaigns"][:i], [c[0] - 1, *c[1:]], *sc["campaigns"][i + 1:]]}
    if sc["depth"] > 1:
        yield {**sc, "depth": sc["depth"] - 1}
    if sc["dup"]:
        yield {**sc, "dup": False}
