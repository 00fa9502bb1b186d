"""L03: result plots draw every stored result once, at its own rate and distance, whatever the order and completeness of the files."""
from __future__ import annotations

import contextlib
import io
import json
import os
import pathlib
import random
import re
import sys
import warnings
from pathlib import Path

import numpy as np

from dst.core import Outcome, digest
from dst.scratch import scratch

PROPERTY = "L03"
LEVEL = "exploration"
RULE = ("one run = the plot command over the files of one to three simulated campaigns (maxsat, tensor network or solver comparison) that were interrupted at a seeded point, "
        "listed in a seeded order, possibly with a torn file or a figure that cannot be saved; non-trivial = the curves of a figure were compared with the stored results")
REAL = ["plot command, Matplotlib, SciPy fit"]
STUB = ["order of directory listings", "result files (simulated campaigns)", "saving of the figure in most runs"]
STATE_MEASURE = "distinct (campaign, listing order)"
HANG_S = 120
_shrink = ("files",)


def budget(tier: str) -> int:
    return 900 if tier == "quick" else 15000


def law(v, b0, b1, b2, mu, pth):
    p, d = v
    x = (p - pth) * d ** (1 / mu)
    return b0 + b1 * x + b2 * x**2


def gen(rng: random.Random, index: int, tier: str) -> dict:
    mode = rng.choice(["maxsat", "maxsat", "tn", "comparison"])
    ds = rng.sample([3, 5, 7, 9, 11] if mode != "comparison" else [5, 13, 17, 19, 21], rng.randint(2, 4))
    step = rng.choice([0.01, 0.005])
    ps = sorted({round(step * i + 1e-3 * (mode == "tn") * (i % 2), 4) for i in range(1, int(0.15 / step))} | {0.001, 0.02, 0.05, 0.08, 0.13, 0.021, 0.051, 0.081, 0.111, 0.131, 0.01})
    if mode != "maxsat":
        ps = sorted(rng.sample(ps, rng.randint(3, len(ps))))
    pth, mu, b = rng.uniform(0.094, 0.106), rng.uniform(1, 2), [rng.uniform(0.12, 0.3), rng.uniform(0.5, 2), rng.uniform(0, 0.6)]
    files = []
    for s in range(rng.randint(1, 2) if mode == "comparison" else 1):
        for d in ds:
            for p in ps:
                ler = float(law((p, d), *b, mu, pth))
                n = rng.randint(1, 1000)
                if mode == "tn":
                    r = {"n_k_d": [(3 * d * d + 1) // 4, 1, d], "error_probability": p, "physical_error_rate": round(p + rng.uniform(-4e-4, 4e-4), 6), "logical_failure_rate": round(rng.random(), 5),
                         "wall_time": round(rng.uniform(0.1, 50), 4), "n_run": n, "code": f"Color 6.6.6 {d}", "n_fail": 1}
                else:
                    r = {"lattice": "hexagon", "distance": d, "p": p, "logical_error_rates": [ler], "logical_error_rate_ebs": [round(rng.uniform(1e-4, 1e-2), 6)],
                         "preconstr_time": 0.1, "avg_constr_time": 1.0, "avg_solve_time": 2.0, "avg_total_time": round(rng.uniform(1, 1e5), 3), "min_wts_logical_err": [rng.choice([-1, d, d + 2])]}
                files.append([["z3", "ms1"][s] if mode == "comparison" else "", f"code=hexagon,distance={d},p={p},solver=x.json" if mode != "tn" else f"distance={d},p={p}.json", r])
    cut = None
    rng2 = random.Random(rng.getrandbits(30))
    if rng.random() < 0.6:  # the campaign was stopped: some results do not exist
        keep = rng.choice([0.5, 0.8, 0.95])
        files = [f for f in files if rng2.random() < keep]
    if rng.random() < 0.12 and files:
        cut = [rng.randrange(len(files)), rng.random()]
    return {"mode": mode, "files": files, "order": rng.getrandbits(30), "cut": cut, "save": rng.choice(["stub"] * 10 + ["real", "full"]), "true": [*b, mu, pth],
            "default": rng.random() < 0.3}


def curves(fig) -> list[tuple[str, list]]:
    """(label, points) of everything drawn with a label"""
    res = []
    for ax in fig.axes:
        boxed = set()
        for c in ax.containers:
            if type(c).__name__ == "ErrorbarContainer":
                line, _caps, bars = c.lines
                if line is not None:
                    boxed.add(id(line))
                xs, ys = (np.asarray(v, float).tolist() for v in line.get_data()) if line is not None else ([], [])
                eb = []
                for col in bars:
                    eb = [(float(seg[1][1]) - float(seg[0][1])) / 2 for seg in col.get_segments()]
                res.append((c.get_label(), [list(z) for z in zip(xs, ys, eb)]))
        for line in ax.lines:
            if id(line) in boxed or str(line.get_label()).startswith("_"):
                continue
            xs, ys = (np.asarray(v, float).tolist() for v in line.get_data())
            res.append((line.get_label(), [list(z) for z in zip(xs, ys)]))
    return res


def close(a, b) -> bool:
    return len(a) == len(b) and all(len(x) == len(y) and np.allclose(x, y, rtol=1e-9, atol=1e-12) for x, y in zip(a, b))


def expected(mode: str, files: list) -> list[tuple[str, str, list]]:
    """(label pattern, what, points) every figure must show"""
    res = []
    rs = [f[2] for f in files]
    if mode == "tn":
        for d in sorted({r["n_k_d"][2] for r in rs}):
            mine = [r for r in rs if r["n_k_d"][2] == d]
            res.append((rf"\D*{d}", f"failure rates of distance {d}", sorted([r["physical_error_rate"], r["logical_failure_rate"]] for r in mine)))
            res.append((rf"\D*{d}", f"times of distance {d}", sorted([r["error_probability"], r["wall_time"] / r["n_run"] * 1e6] for r in mine)))
        for p in (0.001, 0.021, 0.051, 0.081, 0.111):
            mine = sorted([r["n_k_d"][2], r["wall_time"] / r["n_run"] * 1e6] for r in rs if r["error_probability"] == p)
            if mine:
                res.append((f"p={p}", f"times at rate {p}", mine))
        return res
    if mode == "comparison":
        for s in sorted({f[0] for f in files}):
            rs = [f[2] for f in files if f[0] == s]
            for d in (17, 21):
                mine = sorted([r["p"], r["avg_total_time"]] for r in rs if r["distance"] == d)
                if mine:
                    res.append((rf".*{s}.*\b{d}", f"times of solver {s} for distance {d}", mine))
            for p in (0.001, 0.051, 0.131):
                mine = sorted([r["distance"], r["avg_total_time"]] for r in rs if r["p"] == p)
                if mine:
                    res.append((rf"p={p}\b.*" + ("z3.*" if s == "z3" else ""), f"times of solver {s} at rate {p}", mine))
        return res
    for d in sorted({r["distance"] for r in rs}):
        mine = sorted(([r["p"], r["logical_error_rates"][0], r["logical_error_rate_ebs"][0]] for r in rs if r["distance"] == d))
        res.append((rf"\D*{d}", f"error rates of distance {d}", mine))
        res.append((rf"\D*{d}", f"times of distance {d}", sorted([r["p"], r["avg_total_time"]] for r in rs if r["distance"] == d)))
    for p in (0.001, 0.02, 0.05, 0.08, 0.13):
        mine = sorted([r["distance"], r["avg_total_time"]] for r in rs if r["p"] == p)
        if mine:
            res.append((rf"p={p}", f"times at rate {p}", mine))
    mine = sorted([r["distance"], r["logical_error_rates"][0]] for r in rs if r["p"] == 0.01)
    if mine:
        res.append((r"p=0\.01", "error rates over the distance at rate 0.01", mine))
    return res


def fits(files: list, true: list) -> bool:
    """the fit is well conditioned: it finds the simulated threshold whatever the order of the data"""
    from scipy.optimize import curve_fit

    pts = [(f[2]["p"], f[2]["distance"], f[2]["logical_error_rates"][0]) for f in files if 0.06 < f[2]["p"] < 0.13]
    for s in range(4):
        random.Random(s).shuffle(pts)
        try:
            popt, _ = curve_fit(law, (np.array([x[0] for x in pts]), np.array([x[1] for x in pts])), [x[2] for x in pts], maxfev=10000)
        except (RuntimeError, TypeError):
            return False
        if abs(popt[-1] - true[-1]) > 1e-6:
            return False
    return True


class Shuffled:
    """directory listings in a seeded order"""

    def __init__(self, root: str, seed: int) -> None:
        self.root, self.seed, self.undo = root, seed, []

    def mix(self, xs: list) -> list:
        xs = sorted(xs, key=str)
        random.Random(self.seed).shuffle(xs)
        return xs

    def __enter__(self):
        glob, rglob, it, ls, walk, scan = pathlib.Path.glob, pathlib.Path.rglob, pathlib.Path.iterdir, os.listdir, os.walk, os.scandir

        def w(top, *a, **k):
            for d, dirs, files in walk(top, *a, **k):
                dirs[:] = self.mix(dirs)
                yield d, dirs, self.mix(files)

        for obj, name, fn in ((pathlib.Path, "glob", lambda p, *a, **k: iter(self.mix(glob(p, *a, **k)))), (pathlib.Path, "rglob", lambda p, *a, **k: iter(self.mix(rglob(p, *a, **k)))),
                              (pathlib.Path, "iterdir", lambda p: iter(self.mix(it(p)))), (os, "listdir", lambda *a: self.mix(ls(*a))), (os, "walk", w)):
            self.undo.append((obj, name, getattr(obj, name)))
            setattr(obj, name, fn)
        return self

    def __exit__(self, *exc):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)


def run(sc: dict) -> Outcome:  # noqa: PLR0911, PLR0912, PLR0915
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt

    from mqt.qecc.cc_decoder import plots

    out = Outcome()
    mode, files = sc["mode"], sc["files"]
    if not files:
        return out
    saved: list = []
    judge_fit = False
    if mode == "maxsat":
        pts = [f for f in files if 0.06 < f[2]["p"] < 0.13]
        if len({f[2]["distance"] for f in pts}) < 2 or len({f[2]["distance"] for f in files}) < 2 or not fits(files, sc["true"]):
            return out  # too few points for a threshold
        judge_fit = True
    with scratch(cwd=True) as root:
        for s, name, r in files:
            d = Path("res") / s
            d.mkdir(parents=True, exist_ok=True)
            (d / name).write_text(json.dumps(r))
        torn = None
        if sc["cut"] and sc["cut"][0] < len(files):
            s, name, r = files[sc["cut"][0]]
            torn = Path("res") / s / name
            t = json.dumps(r)
            torn.write_text(t[: int(sc["cut"][1] * len(t))])
            out.add("fault:torn-result")
        out.add("fault:shuffled-listing")
        target = Path("results.pdf" if sc["default"] else "fig.pdf")
        orig = (plt.savefig, matplotlib.figure.Figure.savefig)

        def save(where, *a, **k):
            saved.append((str(where), curves(plt.gcf())))
            if sc["save"] == "real":
                return orig[0](where, *a, **k)
            if sc["save"] == "full":
                raise OSError(28, "injected: no space left on device")
            return None

        plt.close("all")
        plt.savefig = save
        argv, sys.argv = sys.argv, ["plots", "res", "--mode", mode, *([] if sc["default"] else ["--results_file", str(target)])]
        text, failed = io.StringIO(), None
        matplotlib.figure.Figure.savefig = lambda self, where, *a, **k: (plt.figure(self.number), save(where))[1] if sc["save"] != "real" else orig[1](self, where, *a, **k)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(text), Shuffled(str(root), sc["order"]):
                warnings.simplefilter("ignore")
                plots.main()
        except (Exception, SystemExit) as e:  # noqa: BLE001
            failed = e
        finally:
            sys.argv = argv
            plt.savefig, matplotlib.figure.Figure.savefig = orig
            plt.close("all")
        where = f"{mode} plot of {len(files)} results, listing order {sc['order']}" + (", one file torn" if torn else "")
        if sc["save"] == "full" and saved:
            out.add("fault:full-disk")
            if failed is None:
                out.bad("swallowed", f"{where}: the figure could not be saved and nothing was reported")
            return out
        if torn is not None:
            out.nontrivial = True
            if failed is not None:
                return out
            files = [f for i, f in enumerate(files) if i != sc["cut"][0]]  # drawn without the torn file
            judge_fit = False
        elif failed is not None:
            out.bad("failed", f"{where}: failed with {type(failed).__name__}: {failed}")
            return out
        if len(saved) != 1 or Path(saved[0][0]) != target or (sc["save"] == "real" and not target.exists()):
            out.bad("not-saved", f"{where}: saved as {[s for s, _ in saved]}, asked for {target}")
            return out
    drawn = saved[0][1]
    want = expected(mode, files)
    out.nontrivial = True
    out.states.add(digest([mode, [f[1] for f in files], sc["order"]]))
    out.add("probe:curves", len(want))
    for label, what, pts in want:
        if not any(re.fullmatch(label, lab) and close(pts, got) for lab, got in drawn):
            near = [got for lab, got in drawn if re.fullmatch(label, lab)]
            out.bad("wrong-curve", f"{where}: no curve shows the {what} {pts[:6]}; curves with that label: {[n[:6] for n in near][:4]}")
            return out
    for lab, got in drawn:
        if not got:
            continue
        if not any(re.fullmatch(label, lab) and (close(pts, got) or close(pts, unordered(got))) for label, _w, pts in want) and not any(close([q[:len(got[0])] for q in pts], sorted(got)) for _l, _w, pts in want):
            out.bad("wrong-curve", f"{where}: the curve {lab!r} shows {got[:6]}, which no stored results give")
            return out
    if judge_fit:
        m = re.findall(r"threshold:\s*(\S+)", text.getvalue())
        if not m or any(abs(float(v) - sc["true"][-1]) > 1e-4 for v in m):
            out.bad("threshold", f"{where}: threshold {m} printed, the results were drawn from the law with threshold {sc['true'][-1]}")
            return out
        out.add("probe:threshold")
    out.log = digest([drawn, text.getvalue()])
    return out


def unordered(pts: list) -> list:
    return sorted(pts)
