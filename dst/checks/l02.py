"""L02: colour-code decoding campaigns: reports equal a recount of the history, under file, solver and clock faults."""
from __future__ import annotations

import contextlib
import io
import json
import math
import random
import resource
import subprocess
import sys
import time
from pathlib import Path

import numpy as np

from dst import gf2
from dst.core import Outcome, digest
from dst.rebind import popen, rebound
from dst.scratch import scratch

PROPERTY = "L02"
LEVEL = "exploration"
RULE = ("one run = a seeded history of invocations of the colour-code decoding command sharing one results directory, with a virtual clock, "
        "simulator-owned randomness and injected disk and solver faults; non-trivial = at least one report was recounted")
REAL = ["command line, campaign loop, lights-out decoder with z3, tensor-network campaign (qecsim)", "file system (scratch directory)"]
STUB = ["clock (virtual)", "numpy random generator seeding", "external MaxSAT solver process"]
STATE_MEASURE = "distinct reports"
HANG_S = 240


def budget(tier: str) -> int:
    return 2500 if tier == "quick" else 30000


RATES = [0.0, 0.01, 0.05, 0.1, 0.2, 0.5, 1.0, 0.00001, 0.00004, 0.10001, 0.10004, 0.05003, 0.0123]


def gen(rng: random.Random, index: int, tier: str) -> dict:
    runs = []
    base = rng.sample(RATES, 2)
    for _ in range(rng.randint(1, 6)):
        d = rng.choice([3, 3, 3, 5])
        r = {"d": d, "p": rng.choice([*base, rng.choice(RATES), round(rng.uniform(0, 0.3), 5)]),
             "n": rng.randint(1, 40 if d == 3 else 12), "type": rng.choice(["hexagon", "square_octagon"]), "decoder": "maxsat", "solver": "z3"}
        k = rng.random()
        if k < 0.12:
            r["decoder"] = "tn"
            r["n"] = rng.randint(1, 6)
        elif k < 0.25:
            r["solver"] = rng.choice(["./bin/ms1", "ms2"])
        if rng.random() < 0.2:
            r["fault"] = rng.choice(["disk-full", "dir-is-file", "solver-dies", "decode-fails"])
            r["cut"] = rng.randint(0, 150)
        runs.append(r)
    return {"runs": runs, "rs": rng.getrandbits(40), "nested": rng.random() < 0.5, "_shrink": ["runs"]}


class Clock:
    def __init__(self, rng):
        self.rng, self.t = rng, 1000.0

    def __call__(self):
        self.t += self.rng.choice([1e-4, 1e-3, 0.02, 0.5, 3.0])
        return self.t

    def ns(self):
        return int(self() * 1e9)


def key(r: dict) -> tuple:
    return ("tn", r["d"], r["p"]) if r["decoder"] == "tn" else ("maxsat", r["type"], r["d"], r["p"], r["solver"].split("/")[-1])


def matches(r: dict, data: dict) -> bool:
    if r["decoder"] == "tn":
        return "n_run" in data and data.get("error_probability") == r["p"] and tuple(data["n_k_d"])[-1] == r["d"]
    return "n_run" not in data and data.get("p") == r["p"] and data.get("distance") == r["d"] and data.get("lattice") == r["type"]


def snapshot(path: Path) -> dict[str, str]:
    return {f.name: f.read_text() for f in sorted(path.iterdir())} if path.is_dir() else {}


def run(sc: dict) -> Outcome:
    import z3

    z3.z3._main_ctx = None  # a fresh solver context per run: ties are broken the same way on every replay
    from mqt.qecc.cc_decoder import ColorCode, cli, decoder

    out = Outcome()
    rng = random.Random(sc["rs"])
    orig = (np.random.default_rng, subprocess.Popen, decoder.LightsOut.solve, ColorCode.get_syndrome, time.perf_counter, time.time,
            time.monotonic)
    clock = Clock(random.Random(sc["rs"] + 1))
    ctr = [0]

    def rng_seam(seed=None, *a, **k):
        if seed is None:
            ctr[0] += 1
            seed = [sc["rs"], ctr[0]]
        return orig[0](seed, *a, **k)

    seq0 = np.random.SeedSequence

    def seq_seam(entropy=None, *a, **k):
        if entropy is None:
            ctr[0] += 1
            entropy = [sc["rs"], ctr[0], 7]
        return seq0(entropy, *a, **k)

    solves: list = []
    errors: list = []
    fail_at = [None]

    def solve(self, lights, *a, **k):
        if fail_at[0] is not None and len(solves) == fail_at[0]:
            raise RuntimeError("injected: solver gave up")
        given = [bool(x) for x in lights]
        t0 = clock.t
        res = orig[2](self, lights, *a, **k)
        solves.append((given, [int(x) for x in res[0]], float(res[1]), float(res[2]), clock.t - t0))
        return res

    def get_syndrome(self, e):
        if len(np.shape(e)) == 1:
            errors.append((self, np.array(e, dtype=int).copy()))
        return orig[3](self, e)

    ext = [0, False]

    def sub(args, *a, **k):
        ext[0] += 1
        clock()
        if ext[1]:
            raise OSError(2, "injected: cannot execute solver")
        return 0

    log: list = []
    flips = trials = 0
    exp_flips = var_flips = 0.0
    fake = popen(sub)
    with scratch(cwd=True) as d, rebound((orig[0], rng_seam), (seq0, seq_seam), (orig[1], fake), *((t, clock) for t in orig[4:])):
        res_dir = Path("res/a/b") if sc["nested"] else Path("res")
        np.random.default_rng, np.random.SeedSequence, subprocess.Popen = rng_seam, seq_seam, fake
        decoder.LightsOut.solve, ColorCode.get_syndrome = solve, get_syndrome
        time.perf_counter = time.time = time.monotonic = clock
        last: dict[tuple, dict | None] = {}
        try:
            for i, r in enumerate(sc["runs"]):
                solves.clear()
                errors.clear()
                np.random.seed(rng.getrandbits(31))
                ext[:] = [0, False]
                fault = r.get("fault")
                rd = res_dir
                fail_at[0] = None
                if fault == "decode-fails" and r["decoder"] == "maxsat":
                    fail_at[0] = r["cut"] % r["n"]
                elif fault == "decode-fails":
                    fault = "disk-full"
                if fault == "solver-dies":
                    if r["decoder"] != "maxsat" or r["solver"] == "z3":
                        fault = "disk-full"
                    else:
                        ext[1] = True
                if fault == "dir-is-file":
                    rd = d / "plainfile"
                    rd.write_text("x")
                where = f"run {i} {r} of {len(sc['runs'])}"
                begin = clock.t
                argv = ["cc-decoder", str(r["d"]), repr(r["p"]), "--type", r["type"], "--nr_sims", str(r["n"]), "--results_dir", str(rd),
                        "--decoder", r["decoder"], "--solver", r["solver"]]
                before = snapshot(res_dir)
                old = sys.argv
                sys.argv = argv
                lim = resource.getrlimit(resource.RLIMIT_FSIZE)
                err = None
                try:
                    if fault == "disk-full":
                        resource.setrlimit(resource.RLIMIT_FSIZE, (r["cut"], lim[1]))
                    with contextlib.redirect_stdout(io.StringIO()):
                        cli.cli()
                except BaseException as e:  # noqa: BLE001
                    err = e
                finally:
                    sys.argv = old
                    resource.setrlimit(resource.RLIMIT_FSIZE, lim)
                after = snapshot(res_dir)
                log.append([r["d"], r["p"], type(err).__name__, sorted(after)])
                changed = [n for n in {*before, *after} if before.get(n) != after.get(n)]
                if fault:
                    out.add(f"fault:{fault}")
                    if err is None:
                        out.bad("silent-failure", f"{where}: fault {fault} but the command succeeded")
                        return out
                    hurt = [k for k in last if last[k] is not None and not any(_same(last[k], t) for t in after.values())]
                    if any(k != key(r) for k in hurt):
                        out.bad("damaged-other", f"{where}: the failing run damaged the reports of other settings {hurt}")
                        return out
                    if hurt or changed:
                        last[key(r)] = None
                        for n in changed:  # the torn report of the failed run
                            (res_dir / n).unlink(missing_ok=True)
                    continue
                if err is not None:
                    out.bad("failed", f"{where}: {type(err).__name__}: {err}")
                    return out
                try:
                    parsed = {n: json.loads(t) for n, t in after.items()}
                except ValueError as e:
                    out.bad("bad-json", f"{where}: {e}")
                    return out
                # a repeated run may reproduce the very same report
                cand = [n for n in changed if n in parsed and matches(r, parsed[n])] or [n for n in parsed if matches(r, parsed[n])]
                if len(changed) > 1 or not cand:
                    out.bad("wrong-report", f"{where}: files changed {changed}, none of the reports describes this run: { {n: str(v)[:200] for n, v in parsed.items()} }")
                    return out
                data = parsed[cand[0]]
                msg = check_tn(r, data) if r["decoder"] == "tn" else check_maxsat(r, data, solves, errors, ext[0], out)
                if not msg and r["decoder"] != "tn" and (data["preconstr_time"] < 0 or (clock.t > begin and data["preconstr_time"] > clock.t - begin - sum(x[4] for x in solves) + 1e-6)):
                    msg = f"the set-up is said to have taken {data['preconstr_time']} s of {clock.t - begin} s (virtual)"
                if msg:
                    out.bad("wrong-report", f"{where}: {msg}\nreport: {data}")
                    return out
                out.nontrivial = True
                out.add("sim:decodes", r["n"])
                out.states.add(digest(sorted((k, str(v)) for k, v in data.items() if "time" not in k)))
                last[key(r)] = data
                gone = [k for k, v in last.items() if v is not None and not any(_same(v, t) for t in after.values())]
                if gone:
                    out.bad("lost-report", f"{where}: the report of an earlier run with different settings {gone} is gone; files: {sorted(after)}")
                    return out
                if r["decoder"] == "maxsat":
                    for _, e in errors:
                        flips += int(e.sum())
                        trials += len(e)
                        exp_flips += r["p"] * len(e)
                        var_flips += r["p"] * (1 - r["p"]) * len(e)
                else:
                    nq = data["n_k_d"][0]
                    flips += data["error_weight_total"]
                    exp_flips += r["p"] * nq * r["n"]
                    var_flips += r["p"] * (1 - r["p"]) * nq * r["n"]
                log.append(sorted((k, str(v)) for k, v in data.items() if k != "wall_time"))
        finally:
            np.random.default_rng, subprocess.Popen, decoder.LightsOut.solve, ColorCode.get_syndrome = orig[:4]
            np.random.SeedSequence = seq0
            time.perf_counter, time.time, time.monotonic = orig[4:7]
    if abs(flips - exp_flips) > 6.5 * math.sqrt(var_flips) + 1e-6 + (3 if var_flips else 0):
        out.bad("wrong-rate", f"{flips} bits flipped in {sc['runs']}, the requested rates give {exp_flips:.1f} +- {math.sqrt(var_flips):.1f}")
    out.add("sim:virtual-seconds", clock.t - 1000.0)
    out.log = digest(log)
    return out


def _same(data: dict, text: str) -> bool:
    try:
        return json.loads(text) == data
    except ValueError:
        return False


def close(a, b) -> bool:
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_tn(r: dict, data: dict) -> str | None:
    if data["n_run"] != r["n"]:
        return f"{data['n_run']} runs, {r['n']} requested"
    if data["n_success"] + data["n_fail"] != data["n_run"] or not close(data["logical_failure_rate"], data["n_fail"] / data["n_run"]):
        return "success, failure and rate do not add up"
    if "6.6.6" not in data["code"] or "flip" not in data["error_model"].lower():
        return "wrong code or error model"
    return None


def check_maxsat(r: dict, data: dict, solves: list, errors: list, ext: int, out: Outcome) -> str | None:
    n = r["n"]
    if len(solves) != n:
        return f"{len(solves)} decodes, {n} requested"
    fails, min_wt = 0, -1
    known = len(errors) == n
    if not known:
        out.add("probe:errors-not-observed")
    for i, (lights, est, _, _, _) in enumerate(solves):
        if not known:
            break
        code, e = errors[i]
        h = np.array(code.H) & 1
        if [bool(x) for x in h @ e % 2] != lights:
            return f"sample {i}: decoded {lights}, the error {e} has another syndrome"
        if est:
            res = (e + np.array(est)) % 2
            if not gf2.in_rowspace(h, res):
                fails += 1
                w = int(res.sum())
                min_wt = w if min_wt < 0 else min(min_wt, w)
    if r["solver"] != "z3" and ext != n:
        return f"the external solver ran {ext} times for {n} samples"
    if known:
        ler = fails / n
        if len(data["logical_error_rates"]) != 1 or not close(data["logical_error_rates"][0], ler):
            return f"logical error rate {data['logical_error_rates']}, recount {fails}/{n}"
        if not close(data["logical_error_rate_ebs"][0], math.sqrt((1 - ler) * ler / n)):
            return f"error bar {data['logical_error_rate_ebs']} for rate {ler}"
        if data["min_wts_logical_err"] != [min_wt]:
            return f"minimum weight {data['min_wts_logical_err']}, recount {min_wt}"
    c, s = sum(x[2] for x in solves) / n, sum(x[3] for x in solves) / n
    if not close(data["avg_constr_time"], c) or not close(data["avg_solve_time"], s) or not close(data["avg_total_time"], c + s):
        return f"average times {data['avg_constr_time']}, {data['avg_solve_time']}, {data['avg_total_time']}; recount {c}, {s}, {c + s}"
    if any(x[4] > 0 and (x[2] < 0 or x[3] < 0 or x[2] + x[3] > x[4] + 1e-9) for x in solves):
        return "a decode's times exceed the elapsed (virtual) time"
    return None


def shrink(sc: dict):
    for i, r in enumerate(sc["runs"]):
        if r["n"] > 1:
            yield {**sc, "runs": [*sc["runs"][:i], {**r, "n": r["n"] // 2}, *sc["runs"][i + 1:]]}
        if r.get("fault"):
            yield {**sc, "runs": [*sc["runs"][:i], {k: v for k, v in r.items() if k != "fault"}, *sc["runs"][i + 1:]]}
