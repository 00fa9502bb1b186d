"""Simulation driver: seeded scenarios, parallel execution with watchdog, minimisation, replay, known findings, evidence.

A *check module* (dst/checks/<id>.py) provides
    PROPERTY, RULE, LEVEL, REAL (components run for real), STUB (components stubbed)
    budget(tier) -> int                         number of scenarios
    gen(rng, index, tier) -> dict               JSON scenario: workload, schedule, faults, sub-seeds (everything)
    run(scenario) -> Outcome                    pure function of scenario and code under test
    shrink(scenario) -> iterable of scenarios   smaller candidates (optional)
One VERIF_SEED decides everything: scenario i is gen(Random(sha256(seed, property, i))).
"""
from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


def derive(*parts) -> int:
    return int.from_bytes(hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()[:8], "big")


def digest(obj) -> str:
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


@dataclass
class Outcome:
    """result of one simulated run"""

    violations: list[dict] = field(default_factory=list)  # {"kind":..., "detail":..., "sig":...}
    stats: dict[str, float] = field(default_factory=dict)  # summed over runs
    states: set[str] = field(default_factory=set)  # distinct states / interleavings reached (hashes)
    nontrivial: bool = False
    log: str = ""  # digest of the event log: the run's identity, for the determinism check
    note: dict = field(default_factory=dict)  # extra, for the sample

    def bad(self, kind: str, detail: str, sig: str = "") -> None:
        self.violations.append({"kind": kind, "detail": detail[:2000], "sig": sig or kind})

    def add(self, key: str, n: float = 1) -> None:
        self.stats[key] = self.stats.get(key, 0) + n

    def to_json(self) -> dict:
        return {"violations": self.violations, "stats": self.stats, "states": sorted(self.states),
                "nontrivial": self.nontrivial, "log": self.log, "note": self.note}


class HarnessError(RuntimeError):
    pass


def scenario_for(mod, seed: int, index: int, tier: str) -> dict:
    return mod.gen(random.Random(derive(seed, mod.PROPERTY, index)), index, tier)


@contextlib.contextmanager
def silence():
    """the code under test prints (Python, C++ and solver output); keep stdout for verdicts"""
    sys.stdout.flush()
    so, se = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if os.environ.get("DST_DEBUG") is None:
        os.dup2(null, 2)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old
        os.dup2(so, 1)
        os.dup2(se, 2)
        for fd in (so, se, null):
            os.close(fd)


def run_one(mod, sc: dict) -> dict:
    from dst import load

    with silence():
        try:
            out = mod.run(sc)
        except Exception as e:
            # an exception of the code under test that the check did not expect is a violation; so is a result of it that the check cannot
            # evaluate (wrong type, shape or missing entries); anything else is trouble of the check itself
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if Path(f.filename).is_relative_to(load.REPO / "src")]
            if not inside and not isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
                raise
            out = Outcome(nontrivial=True)
            if not inside:
                mine = [f for f in tb if "/dst/" in f.filename] or tb
                out.bad("unusable-result", f"a result cannot be evaluated: {type(e).__name__}: {e} ({Path(mine[-1].filename).name}:{mine[-1].lineno} `{mine[-1].line}`)",
                        f"unusable-{type(e).__name__}")
                return out.to_json()
            out.bad("failed", f"unexpected {type(e).__name__} in {inside[-1].name}: {e}", f"failed-{type(e).__name__}-{inside[-1].name}")
    return out.to_json()


# ---------------------------------------------------------------- worker pool


def _worker(mod, rfd: int, wfd: int) -> None:
    r, w = os.fdopen(rfd, "r"), os.fdopen(wfd, "w")
    for line in r:
        sc = json.loads(line)
        try:
            res = run_one(mod, sc)
        except BaseException as e:  # noqa: BLE001
            res = {"harness_error": "".join(traceback.format_exception(e))[-4000:]}
        w.write(json.dumps(res, default=str) + "\n")
        w.flush()
    os._exit(0)


class Worker:
    def __init__(self, mod) -> None:
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                os.setpgid(0, 0)
                _worker(mod, a, d)
            finally:
                os._exit(3)
        os.close(a)
        os.close(d)
        self.w = os.fdopen(b, "w")
        self.r = c
        self.buf = b""
        self.job: tuple[int, dict] | None = None
        self.t0 = 0.0

    def submit(self, i: int, sc: dict) -> None:
        self.job = (i, sc)
        self.t0 = time.monotonic()
        self.w.write(json.dumps(sc) + "\n")
        self.w.flush()

    def read(self) -> dict | None:
        """None: not complete yet; raises EOFError when the worker died"""
        chunk = os.read(self.r, 1 << 20)
        if not chunk:
            raise EOFError
        self.buf += chunk
        if b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            return json.loads(line)
        return None

    def kill(self) -> int:
        with contextlib.suppress(OSError):
            os.killpg(self.pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(self.pid, signal.SIGKILL)
        st = 0
        with contextlib.suppress(ChildProcessError):
            _, st = os.waitpid(self.pid, 0)
        with contextlib.suppress(OSError):
            self.w.close()
        with contextlib.suppress(OSError):
            os.close(self.r)
        return st


def pool_run(mod, jobs, nworkers: int, hang_s: float, deadline: float, on_result) -> None:
    """jobs: iterator of (index, scenario); on_result(index, scenario, result) -> bool (continue?)"""
    workers: list[Worker] = []
    it = iter(jobs)
    done = False
    try:
        live = True
        while live:
            # feed
            while len(workers) < nworkers and not done:
                workers.append(Worker(mod))
            for wk in workers:
                if wk.job is None and not done:
                    if time.monotonic() > deadline:
                        done = True
                        break
                    try:
                        i, sc = next(it)
                    except StopIteration:
                        done = True
                        break
                    wk.submit(i, sc)
            busy = [wk for wk in workers if wk.job is not None]
            if not busy:
                break
            rl, _, _ = select.select([wk.r for wk in busy], [], [], 1.0)
            for wk in list(busy):
                res = None
                if wk.r in rl:
                    try:
                        res = wk.read()
                    except EOFError:
                        i, sc = wk.job
                        st = wk.kill()
                        workers.remove(wk)
                        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                        if sig == signal.SIGKILL:  # ended by the sandbox's memory guard: no verdict
                            res = {"harness_error": "worker was killed (memory guard?)"}
                        else:
                            res = {"violations": [{"kind": "process-crash", "sig": "process-crash",
                                                   "detail": f"process executing the run died (status {st}, signal {sig})"}],
                                   "stats": {}, "states": [], "nontrivial": True, "log": "", "note": {}}
                        live = on_result(i, sc, res)
                        if not live:
                            return
                        continue
                    if res is None:
                        continue
                    i, sc = wk.job
                    wk.job = None
                    live = on_result(i, sc, res)
                    if not live:
                        return
                elif time.monotonic() - wk.t0 > hang_s:
                    i, sc = wk.job
                    wk.kill()
                    workers.remove(wk)
                    res = {"violations": [{"kind": "no-progress", "sig": "no-progress",
                                           "detail": f"run made no progress: still going after {hang_s:.0f}s of real time"}],
                           "stats": {}, "states": [], "nontrivial": True, "log": "", "note": {}}
                    live = on_result(i, sc, res)
                    if not live:
                        return
    finally:
        for wk in workers:
            wk.kill()


# ---------------------------------------------------------------- isolated execution (replay, minimisation)


def run_isolated(mod, sc: dict, hang_s: float) -> dict:
    box: list[dict] = []

    def cb(_i, _sc, res):
        box.append(res)
        return False

    pool_run(mod, [(0, sc)], 1, hang_s, time.monotonic() + 1e9, cb)
    return box[0]


def generic_shrink(sc: dict):
    """delete elements of every list stored under a key listed in sc['_shrink'] (ddmin-style)"""
    for key in sc.get("_shrink", []):
        lst = sc.get(key)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        step = n
        while step >= 1:
            for a in range(0, n, step):
                cand = dict(sc)
                cand[key] = lst[:a] + lst[a + step:]
                if len(cand[key]) < n:
                    yield cand
            step //= 2


def minimise(mod, sc: dict, kind: str, hang_s: float, budget_s: float, known: list[dict]) -> tuple[dict, int]:
    t_end = time.monotonic() + budget_s
    tried = 0
    shr = getattr(mod, "shrink", None)
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        cands = list(shr(sc)) if shr else []
        cands += list(generic_shrink(sc))
        for cand in cands:
            if time.monotonic() > t_end:
                break
            tried += 1
            try:
                res = run_isolated(mod, cand, hang_s)
            except Exception:  # noqa: BLE001
                continue
            if any(v["kind"] == kind and matches_known(mod, cand, v, known) is None for v in res.get("violations", [])):
                sc = cand
                improved = True
                break
    return sc, tried


# ---------------------------------------------------------------- known findings


def load_known(prop: str) -> list[dict]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [e for e in json.loads(f.read_text()).get("findings", []) if e["property"] == prop]


def matches_known(mod, sc: dict, v: dict, known: list[dict]) -> dict | None:
    """an open finding excuses a violation only if the check module itself recognises the exact failing class"""
    fn = getattr(mod, "known_class", None)
    if fn is None:
        return None
    cls = fn(sc, v)
    for e in known:
        if cls is not None and e["class"] == cls:
            return e
    return None


# ---------------------------------------------------------------- main


def main(argv: list[str] | None = None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--digests", help="internal: print the event-log digests of these comma-separated run indices")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.monotonic()
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "dst", *(argv if argv is not None else sys.argv[1:])])
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "RAYON_NUM_THREADS", "QISKIT_NUM_PROCS"):
        os.environ.setdefault(k, "1")
    from . import load

    load.load()
    mod = importlib.import_module(f"dst.checks.{args.property.lower()}")
    assert mod.PROPERTY == args.property
    if hasattr(mod, "setup"):
        with silence():
            mod.setup()
    hang_s = float(getattr(mod, "HANG_S", 120))

    if args.digests is not None:
        for i in [int(x) for x in args.digests.split(",")]:
            res = run_one(mod, scenario_for(mod, args.seed, i, args.tier))
            print(f"DIGEST {i} {res['log']} {digest(res['violations'])}")
        return 0

    if args.replay:
        rep = json.loads(Path(args.replay).read_text())
        res = run_isolated(mod, rep["scenario"], hang_s)
        if "harness_error" in res:
            print(res["harness_error"])
            return 2
        if res["violations"]:
            for v in res["violations"]:
                print(f"  {v['kind']}: {v['detail']}")
            print(f"VIOLATION property={args.property} replay={args.replay}")
            return 1
        print("replay: no violation")
        return 0

    known = load_known(args.property)
    ok = True
    # 1. probe every listed finding with its pinned scenario
    known_hits: dict[str, int] = {}
    for e in known:
        res = run_isolated(mod, e["scenario"], hang_s)
        if res.get("violations") and all(matches_known(mod, e["scenario"], v, [e]) for v in res["violations"]):
            print(f"KNOWN-FINDING: property={args.property} {e['what']}")
            known_hits[e["class"]] = 0

    # 2. seeded search
    total = args.runs if args.runs is not None else mod.budget(args.tier)
    wall_cap = float(getattr(mod, "WALL_S", {}).get(args.tier, 420 if args.tier == "quick" else 3000))
    deadline = t0 + wall_cap
    agg = {"stats": {}, "states": set(), "nontrivial": set(), "n": 0, "logs": {}}
    samples: list = []
    found: list[tuple[int, dict, dict]] = []
    harness: list[str] = []

    def on_result(i: int, sc: dict, res: dict) -> bool:
        nonlocal ok
        if "harness_error" in res:
            harness.append(f"run {i}: {res['harness_error']}")
            return len(harness) < 3
        agg["n"] += 1
        for k, v in res["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["states"].update(res["states"])
        if res["nontrivial"]:
            agg["nontrivial"].add(digest(sc))
        agg["logs"][i] = (res["log"], digest(res["violations"]))
        if len(samples) < 3 and res["nontrivial"]:
            s = json.dumps(sc, default=str)
            samples.append({"run": i, "scenario": sc if len(s) < 6000 else s[:6000] + "...", "note": res["note"]})
        bad = []
        for v in res["violations"]:
            e = matches_known(mod, sc, v, known)
            if e is None:
                bad.append(v)
            else:
                known_hits[e["class"]] = known_hits.get(e["class"], 0) + 1
        if bad:
            ok = False
            found.append((i, sc, bad[0]))
            return False
        return True

    jobs = ((i, scenario_for(mod, args.seed, i, args.tier)) for i in range(total))
    pool_run(mod, jobs, args.workers, hang_s, deadline, on_result)
    search_wall = time.monotonic() - t0

    rc = 0
    viol_out = []
    if found:
        i, sc, v = min(found, key=lambda t: t[0])
        print(f"run {i} (VERIF_SEED={args.seed}): {v['kind']}: {v['detail']}")
        small, tried = minimise(mod, sc, v["kind"], hang_s, float(getattr(mod, "SHRINK_S", 90)), known)
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        path = rd / f"{args.property}-{digest(small)}.json"
        path.write_text(json.dumps({"property": args.property, "seed": args.seed, "run": i, "kind": v["kind"],
                                    "detail": v["detail"], "minimiser_attempts": tried, "scenario": small}, indent=1))
        r = subprocess.run([sys.executable, "-m", "dst", args.property, "--replay", str(path)], cwd=VERIF,
                           capture_output=True, text=True)
        print(r.stdout.strip()[-1500:])
        print(f"minimised in {tried} attempts; replay in a fresh process "
              + ("reproduces" if r.returncode == 1 else f"did NOT reproduce (exit {r.returncode}); original scenario kept"))
        if r.returncode != 1:
            path.write_text(json.dumps({"property": args.property, "seed": args.seed, "run": i, "kind": v["kind"],
                                        "detail": v["detail"], "scenario": sc}, indent=1))
        rel = path.relative_to(VERIF)
        print(f"VIOLATION property={args.property} replay={rel}")
        viol_out.append({"run": i, "kind": v["kind"], "detail": v["detail"], "replay": str(rel)})
        rc = 1
    elif harness:
        print("HARNESS ERROR\n" + "\n".join(harness))
        return 2

    # 3. determinism: re-execute a sample in fresh interpreters under other hash seeds and compare event logs
    det = {"rerun": 0, "mismatches": 0, "hash_seeds": []}
    if rc == 0 and agg["logs"] and not args.no_evidence:
        idx = sorted(agg["logs"])
        idx = idx[:: max(1, len(idx) // int(getattr(mod, "DET_RUNS", 12)))][: int(getattr(mod, "DET_RUNS", 12))]
        for hs in ("1", "4242"):
            env = {**os.environ, "PYTHONHASHSEED": hs}
            part = idx[0::2] if hs == "1" else idx[1::2]
            if not part:
                continue
            try:
                r = subprocess.run([sys.executable, "-m", "dst", args.property, "--tier", args.tier, "--seed",
                                    str(args.seed), "--digests", ",".join(map(str, part))], cwd=VERIF, env=env,
                                   capture_output=True, text=True, timeout=200)
            except subprocess.TimeoutExpired:
                continue
            det["hash_seeds"].append(hs)
            for line in r.stdout.splitlines():
                if line.startswith("DIGEST"):
                    _, i, lg, vd = line.split(" ")
                    det["rerun"] += 1
                    if (lg, vd) != agg["logs"][int(i)]:
                        det["mismatches"] += 1
                        det.setdefault("mismatching_runs", []).append(int(i))

    wall = time.monotonic() - t0
    cov = {
        "evaluations": agg["n"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": mod.RULE,
        "samples": samples,
        "runs_per_hour": round(agg["n"] / max(search_wall, 1e-3) * 3600),
        "seeds": agg["n"],
        "faults_injected": {k[6:]: v for k, v in sorted(agg["stats"].items()) if k.startswith("fault:")},
        "probes": {k[6:]: v for k, v in sorted(agg["stats"].items()) if k.startswith("probe:")},
        "simulated": {k[4:]: round(v, 3) for k, v in sorted(agg["stats"].items()) if k.startswith("sim:")},
        "distinct_states": len(agg["states"]),
        "state_measure": getattr(mod, "STATE_MEASURE", "hash of the event log of a run"),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "determinism": det,
        "planned_runs": total,
        "stopped_by_wall_cap": bool(agg["n"] < total and rc == 0),
    }
    known_note = [f"{k}: {n} further hits" for k, n in known_hits.items()]
    ev = {"property": args.property, "tier": args.tier, "seed": args.seed, "level": mod.LEVEL, "coverage": cov,
          "wall_s": round(wall, 1), "violations": len(viol_out)}
    if viol_out:
        cov["violation"] = viol_out
    if known_note:
        cov["known_findings"] = known_note
    if getattr(mod, "ASSUMPTIONS", None):
        ev["assumptions"] = mod.ASSUMPTIONS
    if not args.no_evidence:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{args.property}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{args.property} [{args.tier}] seed={args.seed}: {agg['n']}/{total} runs, {len(agg['states'])} distinct states, "
          f"{sum(v for k, v in agg['stats'].items() if k.startswith('fault:')):.0f} faults injected, "
          f"determinism {det['rerun'] - det['mismatches']}/{det['rerun']}, {wall:.0f}s: {'ok' if rc == 0 else 'VIOLATED'}")
    return rc
