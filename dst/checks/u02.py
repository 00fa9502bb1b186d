"""U02: the Union-Find simulation driver under a virtual clock, seeded noise and I/O faults."""
from __future__ import annotations

import itertools
import json
import math
import random
import time

import numpy as np

from dst import gf2, load
from dst.core import Outcome, digest
from dst.scratch import scratch

PROPERTY = "U02"
LEVEL = "exploration"
RULE = ("one run = one seeded simulation campaign (word error rates or average runtimes) on a seeded code under a virtual clock; "
        "the reports are recounted from the recorded histories; non-trivial = at least four decodings were recorded")
REAL = ["C++ decoding simulator, Union-Find decoders, code import, report files"]
STUB = ["std::random_device, system clock, steady clock, time() (simulator-owned)", "full disk: report path linked to /dev/full"]
STATE_MEASURE = "distinct report contents"
HANG_S = 60


def budget(tier: str) -> int:
    return 20000 if tier == "quick" else 300000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    mode = "avg" if rng.random() < 0.4 else "wer"
    sc = {"mode": mode, "decoder": rng.choice(["UF_HEURISTIC", "ORIGINAL_UF"]), "seed": rng.getrandbits(40),
          "k": rng.randint(1, 4), "clock": [rng.randint(0, 2_000_000_000), rng.randint(1, 40), rng.choice([0, 0, 7, 50])],
          "step": [rng.choice([0, 0, 2, 3, 5]), rng.choice([-3600, 3600, -5, 86400])],
          "raw": rng.random() < 0.9, "stats": rng.random() < 0.9}
    if mode == "wer":
        sc["codes"] = [gf2.gen_code(rng, two_sided=True)]
        d = rng.choice([16, 32, 64])
        a = rng.choice([0, 1, 1, 2, rng.randint(0, d // 4)])
        st = rng.randint(1, 3)
        cnt = rng.randint(1, 4)
        sc["rates"] = [a / d, (a + st * cnt) / d - rng.choice([0, 0.5]) / d, st / d]
        sc["runs"] = rng.choice([1, 2, 3, 5, 8, 20])
    else:
        sc["codes"] = []
        for i in range(rng.randint(1, 3)):
            c = gf2.gen_code(rng)
            sc["codes"].append(c)
        sc["rates"] = [rng.choice([0, 0.01, 0.05, 0.1, 0.3, 1.0])]
        sc["runs"] = rng.randint(1, 4)
        sc["samples"] = rng.randint(1, 5)
    sc["fault"] = rng.choice([None] * 7 + ["full-raw", "full-stats", "missing-dir", "bad-code"])
    return sc


def bits(s: str) -> list[int]:
    s = s.strip("[]")
    return [int(x) for x in s.split(",")] if s else []


def load_stream(text: str) -> list:
    dec = json.JSONDecoder()
    out = []
    i = 0
    while True:
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            return out
        v, i = dec.raw_decode(text, i)
        out.append(v)


def run(sc: dict) -> Outcome:
    import mqt.qecc.pyqecc as q

    out = Outcome()
    ext = load.ext()
    t0, tick, jit = sc["clock"]
    ext.dst_set_clock(t0 * 10**9, tick * 10**6)
    ext.dst_clock_faults(sc["seed"], jit * 10**6, sc["step"][0], sc["step"][1] * 10**9)
    ext.dst_seed(sc["seed"])
    date = time.strftime("%d-%m-%Y", time.localtime(t0))
    if time.strftime("%d-%m-%Y", time.localtime(t0 + 4000)) != date:
        t0 -= 8000
        ext.dst_set_clock(t0 * 10**9, tick * 10**6)
        ext.dst_clock_faults(sc["seed"], jit * 10**6, sc["step"][0], sc["step"][1] * 10**9)
        date = time.strftime("%d-%m-%Y", time.localtime(t0))
    fault = sc["fault"]
    dtype = getattr(q.DecoderType, sc["decoder"])
    where = f"{sc['mode']} {sc['decoder']} rates={sc['rates']} runs={sc['runs']}"
    log: list = []
    with scratch() as d:
        sub = d / "nowhere" if fault == "missing-dir" else d
        raw, stats = sub / "raw", sub / "stats"
        fraw, fstats = d / f"raw-{date}.json", d / f"stats-{date}.json"
        armed = False
        if fault == "full-raw" and sc["raw"]:
            fraw.symlink_to("/dev/full")
            armed = True
        if fault == "full-stats" and sc["stats"]:
            fstats.symlink_to("/dev/full")
            armed = True
        if fault == "missing-dir" and (sc["raw"] or sc["stats"]):
            armed = True
        mats = [gf2.code(c) for c in sc["codes"]]
        p = sc["rates"][0]
        try:
            if sc["mode"] == "wer":
                hx, hz = mats[0]
                code = q.Code(hx.astype(bool).tolist(), hz.astype(bool).tolist())
                code.k = sc["k"]
                if fault == "bad-code":
                    fault = None
                q.DecodingSimulator.simulate_wer(str(raw) if sc["raw"] else "", str(stats) if sc["stats"] else "", sc["rates"][0],
                                                 sc["rates"][1], sc["runs"], code, sc["rates"][2], dtype)
            else:
                (d / "codes").mkdir()
                for i, (_, hz) in enumerate(mats):
                    (d / "codes" / f"c{i}.txt").write_text("\n".join(" ".join(map(str, r)) for r in hz.tolist()) + "\n")
                if fault == "bad-code":
                    (d / "codes" / "c9.txt").write_text("\n")
                    armed = True
                q.DecodingSimulator.simulate_avg_runtime(str(raw) if sc["raw"] else "", str(stats) if sc["stats"] else "", p, sc["runs"],
                                                         str(d / "codes"), sc["samples"], dtype)
            raised = None
        except Exception as e:  # noqa: BLE001
            raised = f"{type(e).__name__}: {e}"
        out.add("sim:virtual_clock_reads", ext.dst_clock_reads())
        out.add("fault:clock-step", ext.dst_clock_steps())
        if armed:
            out.add(f"fault:{fault}")
            if raised is None:
                out.bad("silent-failure", f"{where}: fault {fault} but the campaign finished as if its report were complete")
            out.log = digest([fault, raised is None])
            return out
        if raised is not None:
            out.bad("raised", f"{where} codes={sc['codes']}: {raised}")
            return out

        def doc(f, stream=False):
            try:
                t = f.read_text()
                return load_stream(t) if stream else json.loads(t)
            except (OSError, ValueError) as e:
                out.bad("invalid-report", f"{where}: report {f.name.split('-')[0]}: {e}")
                return None

        rawd = doc(fraw) if sc["raw"] else None
        statd = doc(fstats, sc["mode"] == "avg") if sc["stats"] else None
        if out.violations:
            return out

        def entry(e, hx, hz, p, judged):
            err, syn = np.array(bits(e["error"]), np.uint8), np.array(bits(e["syndrome"]), np.uint8)
            est = np.array(bits(e["decodingResult"]["estimate"]), np.uint8)
            n = hz.shape[1]
            if len(err) != n or len(est) != n or e["codeSize"] != n or abs(e["physicalErrRate"] - p) > 1e-5 * max(p, 1e-3):
                return f"record {e} does not describe a decoding at rate {p} on {n} qubits"
            if (hz @ err % 2).tolist() != syn.tolist():
                return f"recorded syndrome {syn.tolist()} is not that of the recorded error {err.tolist()}"
            if sc["decoder"] == "ORIGINAL_UF" and (hz @ est % 2).tolist() != syn.tolist():
                return f"recorded estimate {est.tolist()} does not reproduce the syndrome"
            if judged:
                ok = gf2.in_rowspace(hx, err ^ est)
                if (e["decodingStatus"] == "success") != ok:
                    return f"status {e['decodingStatus']} but error {err.tolist()} and estimate {est.tolist()} " + ("differ by a stabilizer" if ok else "do not differ by a stabilizer")
            # the clock is read before and after the decoding: between one and a few ticks of virtual time
            t = e["decodingResult"]["decodingTime(ms)"]
            if not tick - 1 <= t <= 4 * (tick + jit):
                return f"decoding time {t} ms reported although about {tick}-{tick + jit} ms of simulated time passed"
            return None

        def noise(errs, p):
            a = np.array(errs)
            m, s = a.size, int(a.sum())
            out.add("fault:data-bit-flip", s)
            out.add("sim:decodings", len(errs))
            sd = math.sqrt(m * p * (1 - p))
            if abs(s - m * p) > 6.5 * sd + 1e-9 + (3 if 0 < p < 1 else 0):
                out.bad("noise", f"{where}: {s} of {m} bits flipped at physical error rate {p}")

        ndec = 0
        if sc["mode"] == "wer":
            hx, hz = mats[0]
            exp = []
            x = sc["rates"][0]
            while x < sc["rates"][1]:
                exp.append(x)
                x += sc["rates"][2]
            if rawd is not None and (len(rawd) != len(exp) or any(abs(float(k) - e) > 2e-6 for k, e in zip(sorted(rawd), exp))):
                out.bad("missing-rates", f"{where}: report has rates {sorted(rawd)}, campaign ran {exp}")
            if statd is not None and not out.violations:
                runs = statd["runs"]
                if len(runs) != len(exp):
                    out.bad("missing-rates", f"{where}: statistics for {len(runs)} of {len(exp)} rates")
                for r, p in zip(runs, exp):
                    data = r["run"]["data"]
                    if len(data) != sc["runs"] or abs(r["run"]["physicalErrRate"] - p) > 1e-5:
                        out.bad("lost-records", f"{where}: {len(data)} records at rate {r['run']['physicalErrRate']} (expected {sc['runs']} at {p})")
                        break
                    for e in data:
                        ndec += 1
                        m = entry(e, hx, hz, p, True)
                        if m:
                            out.bad("untrue-record", f"{where}: {m}")
                            break
                    if out.violations:
                        break
                    noise([bits(e["error"]) for e in data], p)
                    if rawd is not None:
                        fails = sum(e["decodingStatus"] != "success" for e in data)
                        wer = [v for k, v in rawd.items() if abs(float(k) - p) < 2e-6][0]
                        if abs(wer - fails / sc["runs"] / sc["k"]) > 1e-9:
                            out.bad("rate-not-recount", f"{where}: word error rate {wer} at {p}, recorded failures {fails}/{sc['runs']} (k={sc['k']})")
                            break
                log = [rawd, [[(e["error"], e["decodingResult"]["estimate"]) for e in r["run"]["data"]] for r in runs]]
            else:
                log = [rawd]
        else:
            sizes = [m[1].shape[1] for m in mats]
            if rawd is not None:
                keys = sorted(k.rsplit("/", 1)[-1] for k in rawd)
                if keys != [f"c{i}.txt" for i in range(len(mats))] or any(
                        sorted(v) != sorted(str(j) for j in range(sc["runs"])) for v in rawd.values()):
                    out.bad("missing-rates", f"{where}: report covers {rawd}")
            if statd is not None and not out.violations:
                per = sc["runs"] * sc["samples"]
                if len(statd) != per * len(mats):
                    out.bad("lost-records", f"{where}: {len(statd)} records of {per * len(mats)} decodings")
                else:
                    groups = [statd[i * per:(i + 1) * per] for i in range(len(mats))]
                    # codes are visited in directory order: find an assignment of groups to codes that explains every record
                    why = [[next((m for m in (entry(e, None, mm[1], p, False) for e in g) if m), None) for mm in mats] for g in groups]
                    perms = list(itertools.permutations(range(len(mats))))
                    if not any(all(why[a][b] is None for a, b in enumerate(pm)) for pm in perms):
                        best = min(perms, key=lambda pm: sum(why[a][b] is not None for a, b in enumerate(pm)))
                        out.bad("untrue-record", f"{where}: {next(why[a][b] for a, b in enumerate(best) if why[a][b])}")
                    for g in groups:
                        ndec += len(g)
                        noise([bits(e["error"]) for e in g], p)
                    if not out.violations and rawd is not None:
                        avgs = [tuple(v[str(j)] for j in range(sc["runs"])) for v in rawd.values()]
                        want = list(tuple(sum(e["decodingResult"]["decodingTime(ms)"] for e in g[j * sc["samples"]:(j + 1) * sc["samples"]])
                                            / sc["samples"] for j in range(sc["runs"])) for g in groups)
                        if not any(all(abs(a - b) < 1 for x, y in zip(avgs, perm) for a, b in zip(x, y))
                                   for perm in itertools.permutations(want)):
                            out.bad("rate-not-recount", f"{where}: average runtimes {avgs}, recorded decodings give {want}")
            log = [sorted((k.rsplit("/", 1)[-1], sorted(v.items())) for k, v in (rawd or {}).items()),
                   [(e["error"], e["decodingResult"]["estimate"]) for e in statd or []]]
    out.nontrivial = ndec >= 4
    out.states.add(digest(log))
    out.log = digest(log)
    return out


def shrink(sc: dict):
    if sc["runs"] > 1:
        yield {**sc, "runs": sc["runs"] // 2}
    if len(sc["codes"]) > 1:
        yield {**sc, "codes": sc["codes"][:-1]}
    if sc["mode"] == "wer" and sc["rates"][1] - sc["rates"][0] > 1.5 * sc["rates"][2]:
        yield {**sc, "rates": [sc["rates"][0], sc["rates"][1] - sc["rates"][2], sc["rates"][2]]}
    if sc.get("samples", 1) > 1:
        yield {**sc, "samples": sc["samples"] - 1}
