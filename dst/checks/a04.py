"""A04: the result store of a simulation campaign: many processes claim and write result files, some die, and the merged data is the sum of what they left."""
from __future__ import annotations

import builtins
import contextlib
import io
import json
import os
import random
import threading
from pathlib import Path

import numpy as np

from dst import gf2, scratch
from dst.checks import a02
from dst.core import Outcome, digest

PROPERTY = "A04"
LEVEL = "exploration"
RULE = ("one run = 2-7 simulated processes that claim result files and run real simulators, interleaved by a seeded scheduler at every file-system call, some "
        "killed at an arbitrary call or with a torn write and restarted, some merging meanwhile; afterwards every file and the merged data are "
        "recounted; non-trivial = at least two processes claimed a file for the same parameters, or one died")
REAL = ["claiming of result files", "the three simulators and their result files", "merging and loading of results", "file system (scratch directory)"]
STUB = ["process scheduling (a seeded scheduler runs one process at a time and switches at file-system calls)", "process death (at a chosen call, the file being "
        "written cut at a chosen byte)", "order in which a directory lists its files"]
STATE_MEASURE = "distinct interleavings (sequence of process and file-system call)"
HANG_S = 60


def budget(tier: str) -> int:
    return 5000 if tier == "quick" else 60000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    kind = rng.choice(["two", "two", "x", "z", "xz"])
    sets = [{"per": rng.choice([0.05, 0.1, 0.2]), "ser": rng.choice([0.05, 0.1, 0.2]), "mode": "hard"} for _ in range(rng.choice([1, 1, 2, 3]))]
    procs = []
    for _ in range(rng.randint(2, 7)):
        sim = rng.choice(["ss", "ss", "atd"]) if kind == "two" else rng.choice(["qss", "qss", "qss", "ss", "atd"])
        die = rng.choice([None, None, None, rng.randrange(12)])
        procs.append({"sim": sim, "set": rng.randrange(len(sets)), "side": rng.choice("xz") if kind == "xz" else kind if kind in "xz" else "x", "samples": rng.randint(1, 6),
                      "save": rng.choice([1, 2, 50]), "die": die, "tear": rng.choice([None, 0.0, rng.random()]) if die is not None else None,
                      "restart": rng.random() < 0.5, "seed": rng.getrandbits(30), "id": rng.choice([0, 0, 0, 1])})
    return {"kind": kind, "sets": sets, "procs": procs, "k": rng.choice([1, 2, 4]), "name": rng.choice(["code", "16_4_6", "lp.v2", "bb 72"]),
            "from": rng.choice(["abs", "rel", "up", "parent"]), "slash": rng.random() < 0.3, "during": rng.random() < 0.4, "foreign": rng.random() < 0.3,
            "kill_merge": rng.choice([None, None, rng.random()]), "meta": [rng.random() < 0.5, rng.random() < 0.5], "depth": rng.choice([0, 1, 3]),
            "rs": rng.getrandbits(40)}


class Killed(BaseException):
    pass


# ---------------------------------------------------------------- simulated processes

class Proc:
    def __init__(self, world, fn, die=None, tear=None) -> None:
        self.world, self.fn, self.die, self.tear = world, fn, die, tear
        self.go, self.ready = threading.Semaphore(0), threading.Semaphore(0)
        self.done, self.died, self.result, self.error = False, False, None, None
        self.calls, self.doomed, self.op = 0, None, "start"
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.dst = self
        self.thread.start()

    def _main(self) -> None:
        self.go.acquire()
        try:
            self.result = self.fn(self)
            if self.doomed:  # died right after its last write
                self._cut()
                self.died, self.result = True, None
        except Killed:
            self.died = True
        except Exception as e:  # noqa: BLE001
            self.error = e
        self.done = True
        self.ready.release()

    def _cut(self) -> None:
        with contextlib.suppress(OSError):
            n = os.path.getsize(self.doomed)
            os.truncate(self.doomed, int(n * self.tear))

    def step(self) -> None:
        """runs until its next file-system call or its end"""
        self.go.release()
        self.ready.acquire()

    def call(self, op: str, path, real):
        if self.world.atomic or isinstance(path, int) or not str(path).startswith((self.world.root, "results")):
            return real()
        self.op = op
        self.ready.release()
        self.go.acquire()
        if self.doomed:
            self.world.atomic = True
            try:
                self._cut()
            finally:
                self.world.atomic = False
            raise Killed
        self.calls += 1
        if self.die is not None and self.calls > self.die:
            if op == "write" and self.tear is not None:
                self.doomed = os.path.abspath(path)
                return real()
            if op == "write":
                real().close()  # opened for writing, nothing written
            raise Killed
        return real()


class World:
    """a file system shared by simulated processes; installs the seam while they run"""

    OS = ("stat", "lstat", "mkdir", "open", "utime", "rename", "replace", "unlink", "link", "listdir", "scandir", "remove")

    def __init__(self, rng, root) -> None:
        self.rng, self.root, self.atomic = rng, str(root), False
        self.procs: list[Proc] = []
        self.trace: list = []

    @contextlib.contextmanager
    def installed(self):
        undo = []

        def hook(mod, name, label):
            orig = getattr(mod, name)

            def wrapped(path, *a, **k):
                p = getattr(threading.current_thread(), "dst", None)
                if p is None or p.done:
                    return orig(path, *a, **k)
                op = label
                if label == "io":
                    mode = k.get("mode", a[0] if a else "r")
                    op = "write" if any(c in mode for c in "wax+") else "read"
                res = p.call(op, path, lambda: orig(path, *a, **k))
                if name == "listdir":
                    res = list(res)
                    self.rng.shuffle(res)
                return res

            undo.append((mod, name, orig))
            setattr(mod, name, wrapped)

        for name in self.OS:
            hook(os, name, name)
        hook(io, "open", "io")
        hook(builtins, "open", "io")
        try:
            yield
        finally:
            for mod, name, orig in undo:
                setattr(mod, name, orig)

    def start(self, fn, die=None, tear=None) -> Proc:
        p = Proc(self, fn, die, tear)
        self.procs.append(p)
        return p

    def run(self, on_end) -> None:
        last = None
        while True:
            live = [p for p in self.procs if not p.done]
            if not live:
                return
            p = last if last in live and self.rng.random() < 0.3 else self.rng.choice(live)
            last = p
            p.step()
            self.trace.append([self.procs.index(p), p.op if not p.done else "end"])
            if p.done:
                on_end(p)


# ---------------------------------------------------------------- the campaign

_HX, _HZ = gf2.hgp(gf2.rep(2, True), gf2.rep(2, True))
_LX, _LZ = gf2.logicals(_HX, _HZ)
_HX, _HZ, _LX, _LZ = (a.astype(np.int32) for a in (_HX, _HZ, _LX, _LZ))


def outpath(sc: dict, w: dict) -> str:
    from mqt.qecc.analog_information_decoding.utils.data_utils import create_outpath

    s = sc["sets"][w["set"]]
    kw = {"codename": sc["name"], "bias": [1.0, 1.0, 1.0], "data_err_rate": s["per"], "identifier": w["id"], "x_meta": sc["meta"][0], "z_meta": sc["meta"][1]}
    if w["sim"] == "qss":
        return create_outpath(syndr_err_rate=s["ser"], repetitions=2, rounds=3, **kw)
    return create_outpath(sigma=s["ser"], sus_th_depth=sc["depth"], single_stage=True, **kw)


def worker(sc: dict, w: dict):
    from mqt.qecc import AtdSimulator, QssSimulator
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams

    def body(proc):
        s = sc["sets"][w["set"]]
        common = {"codename": sc["name"], "bp_params": BpParams(max_bp_iter=2, osd_method="osd0", osd_order=0), "code_params": {"n": 8, "k": sc["k"], "d": 2},
                  "bias": np.array([1.0, 1.0, 1.0]), "seed": w["seed"], "save_interval": w["save"], "eb_precision": 1e-9}
        proc.claimed = None
        if w["sim"] == "ss":
            proc.sim = SingleShotSimulator(per=s["per"], ser=s["ser"], single_stage=True, x_meta=sc["meta"][0], z_meta=sc["meta"][1], sus_th_depth=sc["depth"],
                                           hx=_HX, hz=_HZ, mx=np.array([[1, 1, 1, 1]], dtype=np.int32), mz=np.array([[1, 1, 1, 1]], dtype=np.int32), lz=_LZ, lx=_LX,
                                           **common)
        else:
            path = outpath(sc, w)
            if w["sim"] == "atd":
                proc.sim = AtdSimulator(hx=_HX, lx=_LX, hz=_HZ, lz=_LZ, data_err_rate=s["per"], sigma=s["ser"] + 0.3, output_path=path, **common)
            else:
                h, lg = (_HX, _LX) if w["side"] == "z" else (_HZ, _LZ)
                proc.sim = QssSimulator(pcm=h, per=s["per"], ser=s["ser"], logicals=lg, analog_tg=False, repetitions=2, rounds=3, outpath=path,
                                        check_side="X" if w["side"] == "z" else "Z", **common)
        proc.claimed = os.path.abspath(proc.sim.outfile)
        return proc.sim.run(w["samples"])

    return body


SIDES = {"two": "xz", "x": "x", "z": "z", "xz": "xz"}


def parse(path):
    """content of a result file if it is intact"""
    try:
        with open(path, encoding="utf-8") as f:
            d = json.load(f)
    except (OSError, ValueError):
        return None
    return d if isinstance(d, dict) else None


def compare(entry: dict, files: list, kind: str, k: int) -> str:
    """'' if a merged entry is the sum of the intact files"""
    for side in SIDES[kind]:
        part = [f for f in files if f"{side}_success_cnt" in f]
        if not part:
            if kind == "xz" and f"{side}_success_cnt" in entry:
                return f"{side} results are merged, no intact file has any"
            continue
        runs, ok = sum(f["nr_runs"] for f in part), sum(f[f"{side}_success_cnt"] for f in part)
        key = f"{side}_runs" if kind == "xz" else "nr_runs"
        want = {key: runs, f"{side}_success_cnt": ok, **{f"{side}_{x}": v for x, v in zip(("ler", "ler_eb", "wer", "wer_eb"), a02.rates(ok, runs, k))}}
        for name, v in want.items():
            if name not in entry or not np.isfinite(entry[name]) or abs(entry[name] - v) > 1e-9:
                return f"{name} is {entry.get(name)}, the {len(part)} intact files with {side} results add up to {v}"
    return ""


def run(sc: dict) -> Outcome:  # noqa: PLR0911, PLR0912, PLR0915
    from mqt.qecc.analog_information_decoding.utils import data_utils as du

    out = Outcome()
    rng = random.Random(sc["rs"])
    merge = getattr(du, {"two": "merge_json_files", "x": "merge_json_files_x", "z": "merge_json_files_z", "xz": "merge_json_files_xz"}[sc["kind"]])
    where = f"{len(sc['procs'])} processes on {len(sc['sets'])} parameter sets"
    with scratch.scratch(cwd=True) as folder:
        folder = Path(os.path.realpath(folder))
        world = World(rng, folder)
        workers: list = []
        merges: list = []

        def launch(w):
            p = world.start(worker(sc, w), w["die"], w["tear"])
            p.w, p.at_end = w, None
            workers.append(p)

        def store() -> list[Path]:
            return sorted({Path(p.claimed).parent.parent for p in workers if getattr(p, "claimed", None)})

        def merging(path):
            def body(proc):
                proc.before = [q for q in workers if q.done and not q.died and q.error is None]
                return merge(path)

            return body

        def on_end(p) -> None:
            if p in workers:
                if p.died:
                    out.add("fault:process-killed")
                    if p.doomed:
                        out.add("fault:torn-write")
                    if p.w["restart"]:
                        out.add("fault:restart")
                        launch({**p.w, "die": None, "tear": None, "seed": p.w["seed"] + 1})
                elif sc["during"] and not merges and store():
                    target = store()[0]
                    m = world.start(merging(str(target)))
                    m.target = target
                    merges.append(m)

        for w in sc["procs"]:
            launch(w)
        with world.installed():
            world.run(on_end)
        out.add("sim:fs-calls", len(world.trace))
        out.add("sim:processes", len(world.procs))
        out.states.add(digest(world.trace))
        # what the processes say
        for i, p in enumerate(world.procs):
            if p.error is not None:
                out.bad("failed", f"{where}: process {i} failed with {type(p.error).__name__}: {p.error}", f"failed-{type(p.error).__name__}")
                return out
        claimed: dict = {}
        for i, p in enumerate(workers):
            if p.claimed is None:
                continue
            if p.claimed in claimed:
                out.bad("claimed-twice", f"{where}: processes {claimed[p.claimed]} and {i} were both given {os.path.relpath(p.claimed, folder)}")
                return out
            claimed[p.claimed] = i
            q = sc["sets"][p.w["set"]]
            for j, p2 in enumerate(workers[:i]):
                if p2.claimed is None or p2.w["sim"] != p.w["sim"]:
                    continue
                same = sc["sets"][p2.w["set"]] == q
                if (os.path.dirname(p.claimed) == os.path.dirname(p2.claimed)) != same:
                    out.bad("wrong-folder", f"{where}: processes {j} and {i} with {'equal' if same else 'different'} parameters were given "
                            f"{os.path.relpath(p2.claimed, folder)} and {os.path.relpath(p.claimed, folder)}")
                    return out
                out.nontrivial |= same
            out.nontrivial |= p.died
            got = parse(p.claimed)
            sides = SIDES["two"] if p.w["sim"] != "qss" else p.w["side"]
            if not p.died:
                rep = p.result
                if rep["nr_runs"] != p.w["samples"]:
                    out.bad("lost-samples", f"{where}: process {i} made {rep['nr_runs']} samples instead of {p.w['samples']}")
                    return out
                keys = ["nr_runs", *(f"{s}_success_cnt" for s in sides)]
                if got is None or [got.get(x) for x in keys] != [rep[x] for x in keys]:
                    out.bad("lost-results", f"{where}: process {i} reported {[rep[x] for x in keys]}, its file {os.path.relpath(p.claimed, folder)} "
                            f"holds {'nothing readable' if got is None else [got.get(x) for x in keys]}")
                    return out
            elif got is not None and not 0 < got["nr_runs"] <= p.w["samples"]:
                out.bad("lost-results", f"{where}: the file of process {i} holds {got['nr_runs']} samples of {p.w['samples']}")
                return out
        # a merge that ran while others were writing
        def entries(target: Path):
            with open(target.parent / f"{target.name}.json", encoding="utf-8") as f:
                return json.load(f)

        for m in merges:
            try:
                data = entries(m.target)
            except (OSError, ValueError) as e:
                out.bad("merge-failed", f"{where}: merge during the campaign left no readable {m.target.name}.json: {e}")
                return out
            for side in SIDES[sc["kind"]]:
                mine = [p for p in workers if p.claimed and Path(p.claimed).parent.parent == m.target and (p.w["sim"] != "qss" or p.w["side"] == side)]
                low = sum(p.w["samples"] for p in mine if p in m.before)
                high = sum(p.w["samples"] for p in mine)
                total = sum(e.get(f"{side}_runs" if sc["kind"] == "xz" else "nr_runs", 0) for e in data if f"{side}_success_cnt" in e)
                if not low <= total <= high:
                    out.bad("wrong-merge", f"{where}: merge during the campaign counted {total} samples for {side}, {low} were complete when it started and {high} were made")
                    return out
            out.add("probe:merge-during-campaign")
        # the merge at the end
        for target in store():
            if sc["foreign"]:
                sub = sorted(p for p in target.iterdir() if p.is_dir())[0]
                (sub / "notes.txt").write_text("{}", encoding="utf-8")
                (target / "empty").mkdir(exist_ok=True)
                (target / "readme.md").write_text("x", encoding="utf-8")
            wanted = []
            for sub in sorted(p for p in target.iterdir() if p.is_dir()):
                files = [d for d in map(parse, sorted(sub.glob("*.json"))) if d is not None]
                files = [f for f in files if any(f"{s}_success_cnt" in f for s in SIDES[sc["kind"]])]
                if files:
                    wanted.append(files)
            out.add("sim:files-merged", sum(map(len, wanted)))
            cwd = {"abs": folder, "rel": folder, "up": target.parent.parent, "parent": target.parent}[sc["from"]]
            path = str(target) if sc["from"] == "abs" else os.path.relpath(target, cwd)
            path += "/" if sc["slash"] else ""
            os.chdir(cwd)
            try:
                done = world.start(lambda _p, path=path: merge(path))
                with world.installed():
                    world.run(lambda _p: None)
                if done.error is not None:
                    out.bad("merge-failed", f"{where}: merge of {path} failed with {type(done.error).__name__}: {done.error}", f"merge-failed-{type(done.error).__name__}")
                    return out
                merged = target.parent / f"{target.name}.json"
                if not merged.exists():
                    out.bad("merge-failed", f"{where}: merge of {path} (from {os.path.relpath(cwd, folder)}) wrote no {os.path.relpath(merged, folder)}")
                    return out
                if sc["kill_merge"] is not None and sc["kind"] == "two":
                    os.truncate(merged, int(merged.stat().st_size * sc["kill_merge"]))
                    out.add("fault:torn-merge")
                    ask = str(merged) if sc["from"] == "abs" else os.path.relpath(merged, cwd)
                    try:
                        data = du.load_data([ask])
                    except Exception as e:  # noqa: BLE001
                        out.bad("merge-failed", f"{where}: loading torn merged data failed with {type(e).__name__}: {e}")
                        return out
                    data = data[0] if data else None
                else:
                    data = du.load_data([str(merged)])[0]
            finally:
                os.chdir(folder)
            if not isinstance(data, list) or len(data) != len(wanted):
                out.bad("wrong-merge", f"{where}: {len(data) if isinstance(data, list) else data} data points merged, {len(wanted)} folders have intact results")
                return out
            msgs = [[compare(e, files, sc["kind"], sc["k"]) for e in data] for files in wanted]
            owner: dict = {}  # data point -> folder; one data point per folder, in any order

            def place(i, tried, msgs=msgs, owner=owner) -> bool:
                for j, m in enumerate(msgs[i]):
                    if not m and j not in tried:
                        tried.add(j)
                        if j not in owner or place(owner[j], tried):
                            owner[j] = i
                            return True
                return False

            for i, files in enumerate(wanted):
                if not place(i, set()):
                    near = next((j for j, e in enumerate(data) if e.get("pers") == files[0].get("pers")), 0)
                    msg = msgs[i][near] or next((m for m in msgs[i] if m), "two folders have one data point")
                    out.bad("wrong-merge", f"{where}: merged {sc['kind']} data: {msg}")
                    return out
        for p in workers:  # merging changes no result file
            if p.claimed and not p.died:
                got = parse(p.claimed)
                if got is None or got["nr_runs"] != p.result["nr_runs"]:
                    out.bad("lost-results", f"{where}: {os.path.relpath(p.claimed, folder)} was damaged by the merge")
                    return out
    out.log = digest([world.trace, [p.result is None or float(p.result.get("nr_runs", 0)) for p in workers]])
    return out


def shrink(sc: dict):
    n = len(sc["procs"])
    for i in range(n):
        if n > 1:
            yield {**sc, "procs": sc["procs"][:i] + sc["procs"][i + 1:]}
    for key, v in (("during", False), ("foreign", False), ("kill_merge", None), ("slash", False), ("from", "abs"), ("name", "code"), ("depth", 1)):
        if sc[key] != v:
            yield {**sc, key: v}
    for i, w in enumerate(sc["procs"]):
        for key, v in (("samples", 1), ("die", None), ("restart", False)):
            if w[key] != v and (key != "die" or w["die"] is not None):
                yield {**sc, "procs": sc["procs"][:i] + [{**w, key: v, **({"tear": None} if key == "die" else {})}] + sc["procs"][i + 1:]}
