"""C01: codes as Pauli memories: syndromes, logical verdicts, parameters and equality agree with a device that stores a state in the code."""
from __future__ import annotations

import itertools
import random

import numpy as np
import stim

from dst import gf2
from dst.core import Outcome, digest

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("one run = one code (random stabilizer code with signs, CSS family, named code, colour code or bivariate bicycle code) holding a random logical state "
        "on a simulated device through a history of Pauli faults, stabilizers and logical operations, or a seeded corruption of a definition; "
        "non-trivial = a fault was injected or a corrupted definition offered")
REAL = ["stabilizer, CSS, colour and bivariate bicycle codes: construction, syndromes, verdicts, equality, validation"]
STUB = ["the device: a stabilizer simulator that measures the generators"]
STATE_MEASURE = "distinct (code, accumulated error)"
HANG_S = 120
_shrink = ("steps",)
NAMED = {"steane": (7, 1, 3), "tetrahedral": (15, 1, 3), "hamming": (15, 7, 3), "shor": (9, 1, 3), "carbon": (12, 2, 4), "surface3": (9, 1, 3), "surface5": (25, 1, 5),
         "golay": (23, 1, 7), "surface": (9, 1, 3)}
BB = {72: (12, 6), 90: (8, 10), 108: (8, 10), 144: (12, 12), 288: (12, 18)}


def budget(tier: str) -> int:
    return 20000 if tier == "quick" else 150000


def gen(rng: random.Random, index: int, tier: str) -> dict:
    kind = rng.choice(["stab", "stab", "stab", "css", "css", "css", "named", "color", "bad", "bad"])
    if index % 200 == 7:
        kind = "bb"
    sc = {"kind": kind, "seed": rng.getrandbits(40), "steps": [[rng.choice(["fault", "fault", "fault", "burst", "stab", "log", "prep"]), rng.getrandbits(30)]
                                                                for _ in range(rng.randint(1, 8))]}
    if kind == "named":
        sc["name"] = rng.choice(list(NAMED))
    elif kind == "color":
        sc["name"] = [rng.choice(["hex", "oct"]), rng.choice([3, 3, 5, 5, 7])]
    elif kind == "bb":
        sc["name"] = rng.choice([72, 72, 90, 108, 144, 288]) if tier == "thorough" else rng.choice([72, 90, 108])
    elif kind in ("css", "bad"):
        sc["name"] = rng.choice(["rand", "rand", "onlyx", "onlyz", "dup", "selfdual"])
        sc["dtype"] = rng.choice(["int8", "int64", "uint8", "int32"])
    return sc


# ---------------------------------------------------------------- device

def pauli(x, z) -> stim.PauliString:
    return stim.PauliString.from_numpy(xs=np.array(x, bool), zs=np.array(z, bool))


class Device:
    """n data qubits holding a random state of the code with these (signed) stabilizers"""

    def __init__(self, gens: list[stim.PauliString], rng: random.Random) -> None:
        self.gens = gens
        self.n = len(gens[0])
        self.t = stim.Tableau.from_stabilizers(gens, allow_redundant=True, allow_underconstrained=True)
        self.inv = self.t.inverse()
        self.sim = stim.TableauSimulator(seed=rng.getrandbits(30))
        self.sim.set_inverse_tableau(self.inv)
        # rank: how many of the tableau's outputs are stabilizers
        self.r = gf2.rank(np.array([np.concatenate(g.to_numpy()).astype(int) for g in gens]))
        self.k = self.n - self.r
        for i in range(self.r, self.n):  # a random logical state
            if rng.random() < 0.5:
                self.sim.do_pauli_string(self.t.x_output(i))
        self.acc = stim.PauliString(self.n)

    def apply(self, p: stim.PauliString) -> None:
        self.sim.do_pauli_string(p)
        self.acc = p * self.acc

    def read(self) -> list[int]:
        return [(1 - self.sim.peek_observable_expectation(g)) // 2 for g in self.gens]

    def harmless(self, p: stim.PauliString) -> bool:
        """acts as a number on every state of the code"""
        return all(p.commutes(g) for g in self.gens) and all(p.commutes(self.t.x_output(i)) and p.commutes(self.t.z_output(i)) for i in range(self.r, self.n))

    def logical(self, rng: random.Random) -> stim.PauliString:
        p = stim.PauliString(self.n)
        for i in range(self.r, self.n):
            if rng.random() < 0.6:
                p = p * (self.t.x_output(i) if rng.random() < 0.5 else self.t.z_output(i))
        return p

    def element(self, rng: random.Random) -> stim.PauliString:
        p = stim.PauliString(self.n)
        for g in self.gens:
            if rng.random() < 0.4:
                p = p * g
        return p


def draw(rng: random.Random, dev: Device, what: str) -> stim.PauliString:
    n = dev.n
    if what == "stab":
        return dev.element(rng)
    if what == "log":
        return dev.logical(rng) * dev.element(rng)
    p = ["I"] * n
    for q in rng.sample(range(n), min(n, 1 if what == "fault" else rng.randint(2, 4))):
        p[q] = rng.choice("XYZ")
    return stim.PauliString("".join(p))


def text(p: stim.PauliString) -> str:
    return str(stim.PauliString("".join("IXYZ"[x] for x in p)))[1:].replace("_", "I")


def given(rng: random.Random, p: stim.PauliString):
    """a Pauli as a user writes it: string with or without sign, or binary vector"""
    sign = "-" if p.sign.real < 0 else rng.choice(["", "", "+"])
    if rng.random() < 0.5:
        return sign + text(p)
    xs, zs = p.to_numpy()
    return np.concatenate([xs, zs, [p.sign.real < 0]]).astype(rng.choice([np.int8, np.int64]))


# ---------------------------------------------------------------- stabilizer codes

def random_tableau(rng: random.Random, n: int) -> stim.Tableau:
    t = stim.Tableau(n)
    for _ in range(6 * n):
        g = rng.choice(["H", "S", "CX", "CX", "X", "Z", "SQRT_X"])
        t.append(stim.Tableau.from_named_gate(g), rng.sample(range(n), 2 if g == "CX" else 1) if n > 1 or g != "CX" else [0]) if not (g == "CX" and n == 1) else None
    return t


def mixed(rng: random.Random, gens: list) -> list:
    g = list(gens)
    for _ in range(3 * len(g)):
        i, j = rng.randrange(len(g)), rng.randrange(len(g))
        if i != j:
            g[i] = g[i] * g[j]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        a, b = rng.choice(g), rng.choice(g)
        g.append(a * b if a != b or rng.random() < 0.3 else a)
    rng.shuffle(g)
    return g


def written(rng: random.Random, gens: list):
    if rng.random() < 0.6:
        return [("-" if p.sign.real < 0 else rng.choice(["", "", "", "+"])) + text(p) for p in gens]
    rows = [np.concatenate([*p.to_numpy(), [p.sign.real < 0]]).astype(int) for p in gens]
    return np.array(rows, dtype=rng.choice([np.int8, np.int64]))


def stab(sc: dict, rng: random.Random, out: Outcome) -> None:
    from mqt.qecc.codes import StabilizerCode

    n = rng.randint(1, 8)
    t = random_tableau(rng, n)
    r = rng.randint(1, n)
    base = [t.z_output(i) for i in range(r)]
    gens = mixed(rng, base)
    desc = f"code generated by {[('-' if p.sign.real < 0 else '') + text(p) for p in gens]}"
    kw = {}
    if r < n and rng.random() < 0.5:
        m = rng.randint(1, n - r)
        pick = rng.sample(range(r, n), m)
        lx, lz = [t.x_output(i) for i in pick], [t.z_output(i) for i in pick]
        rng.shuffle(lz)
        kw = {"Lx": written(rng, lx), "Lz": written(rng, lz), "distance": rng.choice([None, 1, 3])}
    try:
        code = StabilizerCode(written(rng, gens), **kw)
    except Exception as e:  # noqa: BLE001
        out.bad("refused", f"{desc}{' with logical operators' if kw else ''} refused with {type(e).__name__}: {e}")
        return
    dev = Device(gens, rng)
    if code.distance != (kw.get("distance") or 1):
        out.bad("parameters", f"{desc}: distance {code.distance}, given {kw.get('distance')}")
        return
    if (code.n, code.k) != (n, n - r):
        out.bad("parameters", f"{desc}: n, k = {code.n}, {code.k}, the device has {n} qubits and {n - r} logical ones")
        return
    back = list(code.stabs_as_pauli_strings())
    if [stim.PauliString(b) for b in back] != gens:
        out.bad("text", f"{desc}: written as {back}")
        return
    for what, seed in sc["steps"]:
        srng = random.Random(seed)
        if what == "prep":  # the memory is prepared anew
            dev = Device(gens, srng)
            continue
        p = draw(srng, dev, what)
        dev.apply(p)
        out.add(f"fault:{what}")
        out.nontrivial = True
        want = dev.read()
        e = given(srng, dev.acc if dev.acc.sign.imag == 0 else dev.acc * 1j)
        try:
            got = np.array(code.get_syndrome(e)).astype(int).tolist()
        except Exception as ex:  # noqa: BLE001
            out.bad("failed", f"{desc}: syndrome of {text(dev.acc)} failed with {type(ex).__name__}: {ex}")
            return
        out.states.add(digest([desc, text(dev.acc)]))
        if got != want:
            out.bad("syndrome", f"{desc}: error {text(dev.acc)} has syndrome {got}, the device reads {want}")
            return
        q = dev.acc * draw(srng, dev, srng.choice(["stab", "stab", "log", "fault"]))
        q = q if q.sign.imag == 0 else q * 1j
        a = dev.acc if dev.acc.sign.imag == 0 else dev.acc * 1j
        same = dev.harmless(a * q)
        try:
            ok = code.stabilizer_equivalent(given(srng, a), given(srng, q))
        except Exception as ex:  # noqa: BLE001
            out.bad("failed", f"{desc}: equivalence of {text(a)} and {text(q)} failed with {type(ex).__name__}: {ex}")
            return
        if bool(ok) != same:
            out.bad("equivalence", f"{desc}: {a} and {q} are {'' if ok else 'not '}called equivalent; on the device they {'act alike' if same else 'differ'}")
            return
    # equality and hashing
    other = StabilizerCode(written(rng, mixed(rng, base)))
    if code != other or hash(code) != hash(other):
        out.bad("equality", f"{desc}: {'not equal to' if code != other else 'hash differs from'} the code generated by {other.stabs_as_pauli_strings()}, the same group")
        return
    diff = list(base)
    i = rng.randrange(r)
    how = rng.choice(["sign", "drop", "swap"])
    if how == "sign":
        diff[i] = -diff[i]
    elif how == "drop" and r > 1:
        diff.pop(i)
    else:
        diff[i] = t.x_output(i)
    try:
        eq = code == StabilizerCode(written(rng, mixed(rng, diff)))
    except Exception as e:  # noqa: BLE001
        out.bad("failed", f"{desc}: comparison failed with {type(e).__name__}: {e}")
        return
    if eq:
        out.bad("equality", f"{desc}: equal to the code generated by {[str(d).replace('_', 'I') for d in diff]}, a different group")


# ---------------------------------------------------------------- CSS codes

def matrices(sc: dict, rng: random.Random):
    """(Hx or None, Hz or None) of a random CSS code"""
    kind = sc["name"]
    n = rng.randint(2, 10)
    if kind in ("onlyx", "onlyz"):
        h = np.array([[rng.randint(0, 1) for _ in range(n)] for _ in range(rng.randint(1, n))])
        h = h[h.any(1)]
        h = h if len(h) else np.ones((1, n), int)
        return (h, None) if kind == "onlyx" else (None, h)
    if kind == "selfdual":
        h = np.array([[1, 1, 1, 1, 0, 0, 0], [1, 0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 1, 1, 0]]) if rng.random() < 0.5 else np.ones((1, rng.choice([2, 4, 6])), int)
        hx, hz = h.copy(), h.copy()
        perm = rng.sample(range(h.shape[1]), h.shape[1])
        hx, hz = hx[:, perm], hz[:, perm]
        if rng.random() < 0.5:
            hz = remix(rng, hz)
        if rng.random() < 0.3:
            hx = np.vstack([hx, hx[0]])
        if rng.random() < 0.3 and len(hz) > 1:
            hz = np.vstack([hz[:-1], hz[0]])  # spans less than Hx, with as many rows
        return hx, hz
    t = random_cnot(rng, n)
    a = rng.randint(1, n - 1)
    b = rng.randint(1, n - a)
    hx, hz = t[0][:a], t[1][a:a + b]
    hx, hz = remix(rng, hx), remix(rng, hz)
    if kind == "dup":
        if rng.random() < 0.7:
            hx = np.vstack([hx, hx[rng.randrange(len(hx))]])
        if rng.random() < 0.7:
            hz = np.vstack([hz, (hz[0] + hz[-1]) % 2 if len(hz) > 1 else hz[0]])
    return hx, hz


def random_cnot(rng, n):
    """images of X_i and of Z_i under a random CNOT circuit"""
    x, z = np.eye(n, dtype=int), np.eye(n, dtype=int)
    for _ in range(4 * n):
        c, t = rng.sample(range(n), 2)
        x[:, t] ^= x[:, c]
        z[:, c] ^= z[:, t]
    return x, z


def remix(rng, h):
    h = h.copy()
    for _ in range(3 * len(h)):
        i, j = rng.randrange(len(h)), rng.randrange(len(h))
        if i != j:
            h[i] ^= h[j]
    return h


def light(h: np.ndarray, stabs: np.ndarray, rng: random.Random, tries: int) -> tuple[int, list]:
    """lightest undetected error that is no stabilizer found: exact for small kernels, else information sets"""
    n = h.shape[1]
    ker = gf2.kernel(h)
    chk = gf2.kernel(stabs) if len(stabs) else np.eye(n, dtype=int)
    if len(ker) <= 12:
        vs = (np.array(list(itertools.product((0, 1), repeat=len(ker))), dtype=np.uint8) @ ker.astype(np.uint8)) % 2
        good = ((vs.astype(int) @ chk.T) % 2).any(1)
        if not good.any():
            return 0, []
        w = vs.sum(1)
        w[~good] = 255
        i = int(np.argmin(w))
        return int(w[i]), vs[i].tolist()
    best = (n + 1, [])
    for _ in range(tries):
        perm = np.array(rng.sample(range(n), n))
        red = gf2.rref(ker[:, perm])[0][: len(ker)]
        rows = np.zeros_like(red)
        rows[:, perm] = red
        w = rows.sum(1)
        good = ((rows @ chk.T) % 2).any(1)
        for i in np.nonzero(good)[0]:
            if w[i] < best[0]:
                best = (int(w[i]), rows[i].tolist())
    return best


def css(sc: dict, rng: random.Random, out: Outcome) -> None:  # noqa: PLR0911, PLR0912, PLR0915
    from mqt.qecc import codes as mc

    kind, claimed = sc["kind"], None
    try:
        if kind == "named":
            name = sc["name"]
            args = ("Surface", int(name[-1])) if name[-1].isdigit() else (rng.choice([name, name.title(), name.upper()]),)
            code = mc.CSSCode.from_code_name(*args)
            desc, claimed = f"code {args}", NAMED[name]
        elif kind == "color":
            lat, d = sc["name"]
            code = (mc.HexagonalColorCode if lat == "hex" else mc.SquareOctagonColorCode)(d)
            desc, claimed = f"{lat} colour code of distance {d}", ((3 * d * d + 1) // 4 if lat == "hex" else (d * d - 1) // 2 + d, 1, d)
        elif kind == "bb":
            code = mc.construct_bb_code(sc["name"])
            desc, claimed = f"bivariate bicycle code {sc['name']}", (sc["name"], *BB[sc["name"]])
        else:
            hx, hz = matrices(sc, rng)
            desc = f"CSS code Hx={None if hx is None else hx.tolist()} Hz={None if hz is None else hz.tolist()}"
            code = mc.CSSCode(rng.choice([1, 2, 3]), Hx=None if hx is None else hx.astype(sc["dtype"]), Hz=None if hz is None else hz.astype(sc["dtype"]))
    except Exception as e:  # noqa: BLE001
        out.bad("refused", f"{sc.get('name')} {kind}: construction failed with {type(e).__name__}: {e}")
        return
    gx, gz = np.array(code.Hx, int).reshape(-1, code.n), np.array(code.Hz, int).reshape(-1, code.n)
    n = code.n
    if kind == "css" and ((hx is not None and (gx.shape != hx.shape or (gx != hx).any())) or (hz is not None and (gz.shape != hz.shape or (gz != hz).any()))):
        out.bad("text", f"{desc}: the check matrices were changed")
        return
    # the checks as a user writes them on the device
    gens = [stim.PauliString(s) for s in [*code.x_checks_as_pauli_strings(), *code.z_checks_as_pauli_strings()]]
    if gens != [pauli(r, np.zeros(n)) for r in gx] + [pauli(np.zeros(n), r) for r in gz]:
        out.bad("text", f"{desc}: checks written as {[str(g) for g in gens]}")
        return
    dev = Device(gens, rng)
    if code.k != dev.k or (claimed and (n, code.k) != claimed[:2]):
        out.bad("parameters", f"{desc}: n, k = {n}, {code.k}; {claimed[:2] if claimed else (n, dev.k)} expected")
        return
    # logical operators: undetected, independent, complete
    lx, lz = np.array(code.Lx, int).reshape(-1, n), np.array(code.Lz, int).reshape(-1, n)
    if len(lx) != code.k or len(lz) != code.k or (gz @ lx.T % 2).any() or (gx @ lz.T % 2).any() or (code.k and gf2.rank(lx @ lz.T % 2) != code.k):
        out.bad("logicals", f"{desc}: logical operators Lx={lx.tolist()} Lz={lz.tolist()} do not generate {code.k} logical qubits")
        return
    if [stim.PauliString(s) for s in code.x_logicals_as_pauli_strings()] != [pauli(r, np.zeros(n)) for r in lx] or \
       [stim.PauliString(s) for s in code.z_logicals_as_pauli_strings()] != [pauli(np.zeros(n), r) for r in lz]:
        out.bad("text", f"{desc}: logical operators written as {code.x_logicals_as_pauli_strings()} {code.z_logicals_as_pauli_strings()}")
        return
    dual = gf2.rank(gx) == gf2.rank(gz) == gf2.rank(np.vstack([gx, gz]))
    if bool(code.is_self_dual()) != dual:
        out.bad("self-dual", f"{desc}: called {'' if code.is_self_dual() else 'not '}self-dual")
        return
    if claimed:  # no undetected fault of fewer qubits than the distance is harmful
        for side, h, s, d in (("X", gz, gx, code.x_distance), ("Z", gx, gz, code.z_distance)):
            w, e = light(h, s, rng, 40 if n < 100 else 5)
            out.add("fault:undetected-searched")
            if w < d or d < claimed[2] or (len(gf2.kernel(h)) <= 12 and w != d) or code.distance != claimed[2]:
                out.bad("distance", f"{desc}: {side} distance {d} (distance {code.distance}) claimed, an undetected {side} error on {np.nonzero(e)[0].tolist()} "
                                    f"changes the state ({w} qubits)")
                return
    color = kind == "color"
    acc = [np.zeros(n, int), np.zeros(n, int)]
    for what, seed in sc["steps"]:
        srng = random.Random(seed)
        if what == "prep":
            dev = Device(gens, srng)
            acc = [np.zeros(n, int), np.zeros(n, int)]
            continue
        p = draw(srng, dev, what)
        dev.apply(p)
        out.add(f"fault:{what}")
        out.nontrivial = True
        xs, zs = (np.array(v, int) for v in dev.acc.to_numpy())
        acc = [xs, zs]
        out.states.add(digest([desc, xs.tolist(), zs.tolist()]))
        read = dev.read()
        rx, rz = read[: len(gx)], read[len(gx):]
        dt = srng.choice([np.int8, np.int64, np.uint8])
        ex, ez = xs.astype(dt), zs.astype(dt)
        gotx, gotz = np.array(code.get_x_syndrome(ez)).astype(int).tolist(), np.array(code.get_z_syndrome(ex)).astype(int).tolist()
        if gotx != rx or gotz != rz:
            out.bad("syndrome", f"{desc}: error X{np.nonzero(xs)[0].tolist()} Z{np.nonzero(zs)[0].tolist()} has syndromes {gotx} and {gotz}, the device reads {rx} and {rz}")
            return
        if not color:
            got = np.array(code.get_syndrome(np.concatenate([xs, zs, [0]]) if srng.random() < 0.5 else text(dev.acc))).astype(int).tolist()
            if got != read:
                out.bad("syndrome", f"{desc}: error {text(dev.acc)} has syndrome {got}, the device reads {read}")
                return
        elif np.array(code.get_syndrome(ex)).astype(int).tolist() != rz:
            out.bad("syndrome", f"{desc}: X error on {np.nonzero(xs)[0].tolist()} has another syndrome than the device's {rz}")
            return
        zero = np.zeros(n)
        for side, e, sx, logical, stab_, equal in (
                ("X", ex, rz, code.check_if_logical_x_error, code.check_if_x_stabilizer, code.stabilizer_eq_x_error),
                ("Z", ez, rx, code.check_if_logical_z_error, code.check_if_z_stabilizer, code.stabilizer_eq_z_error)):
            op = pauli(e, zero) if side == "X" else pauli(zero, e)
            trivial = dev.harmless(op)
            if bool(stab_(e)) != trivial:
                out.bad("verdict", f"{desc}: {side} error on {np.nonzero(e)[0].tolist()} is {'no ' if trivial else 'a '}stabilizer according to the code, not on the device")
                return
            if not any(sx):  # in the code space: logical exactly if it is not harmless
                if bool(logical(e)) == trivial:
                    out.bad("verdict", f"{desc}: undetected {side} error on {np.nonzero(e)[0].tolist()} {'does not change' if trivial else 'changes'} the stored state, "
                                       f"called {'' if logical(e) else 'not '}logical")
                    return
                if color and side == "X" and bool(code.check_if_logical_error(e)) == trivial:
                    out.bad("verdict", f"{desc}: undetected error on {np.nonzero(e)[0].tolist()} {'does not change' if trivial else 'changes'} the stored state, "
                                       f"called {'' if code.check_if_logical_error(e) else 'not '}logical")
                    return
            q = draw(srng, dev, srng.choice(["stab", "log", "fault"]))
            qe = np.array(q.to_numpy()[0 if side == "X" else 1], int)
            f = (e.astype(int) + qe) % 2
            same = dev.harmless(pauli(qe, zero) if side == "X" else pauli(zero, qe))
            if bool(equal(e, f.astype(dt))) != same:
                out.bad("equivalence", f"{desc}: {side} errors on {np.nonzero(e)[0].tolist()} and {np.nonzero(f)[0].tolist()} are called "
                                       f"{'different' if same else 'equivalent'}")
                return
    if kind == "css" and hx is not None and hz is not None:
        other = mc.CSSCode(1, Hx=remix(rng, hx[rng.sample(range(len(hx)), len(hx))]), Hz=remix(rng, hz))
        if code != other or hash(code) != hash(other):
            out.bad("equality", f"{desc}: {'not equal to' if code != other else 'hash differs from'} a code with the same checks in another order")
            return
        swapped = mc.CSSCode(1, Hx=hz, Hz=hx)
        if (code == swapped) != dual:
            out.bad("equality", f"{desc}: {'equal to' if code == swapped else 'not equal to'} the code with Hx and Hz exchanged")
    elif kind in ("named", "color"):
        again = type(code)(sc["name"][1]) if color else mc.CSSCode.from_code_name(*args)
        if code != again or hash(code) != hash(again):
            out.bad("equality", f"{desc}: built twice, not equal")


# ---------------------------------------------------------------- corrupted definitions

def bad(sc: dict, rng: random.Random, out: Outcome) -> None:
    from mqt.qecc.codes import CSSCode, StabilizerCode

    out.nontrivial = True
    if rng.random() < 0.3:
        hx, hz = matrices(sc, rng)
        if hx is None or hz is None:
            hx = hz = hx if hz is None else hz
        hx, hz = hx.copy(), hz.copy()
        m = rng.choice([hx, hz])
        if rng.random() < 0.7:
            m[rng.randrange(len(m)), rng.randrange(m.shape[1])] ^= 1
        d, xd, zd = rng.randint(1, 3), rng.choice([None, 1, 2, 3, 4]), rng.choice([None, 1, 2, 3, 4])
        valid = not (hx @ hz.T % 2).any() and min(d if xd is None else xd, d if zd is None else zd) >= d
        if rng.random() < 0.1:  # not the same qubits
            hx = np.hstack([hx, np.zeros((len(hx), 1), int)])
            valid = False
        desc = f"CSS code Hx={hx.tolist()} Hz={hz.tolist()} with distances {d}, {xd}, {zd}"
        make = lambda: CSSCode(d, Hx=hx.astype(sc["dtype"]), Hz=hz.astype(sc["dtype"]), x_distance=xd, z_distance=zd)  # noqa: E731
    else:
        n = rng.randint(2, 6)
        t = random_tableau(rng, n)
        r = rng.randint(1, n)
        gens = mixed(rng, [t.z_output(i) for i in range(r)])
        m = rng.randint(0, n - r)
        pick = rng.sample(range(r, n), m)
        lx, lz = [t.x_output(i) for i in pick], [t.z_output(i) for i in pick]
        dist = rng.choice([None, 1, 3])
        what = rng.choice(["none", "flip", "flip", "contradict", "letter", "width", "logical", "logical", "logical", "drop", "distance"])
        if what == "flip":
            i = rng.randrange(len(gens))
            q = rng.randrange(n)
            gens[i] = real_sign(gens[i] * one(n, q, rng.choice("XYZ")))
        elif what == "contradict":
            gens.insert(rng.randrange(len(gens) + 1), -real_sign(rng.choice(gens) * (rng.choice(gens) if rng.random() < 0.5 else stim.PauliString(n))))
        elif what == "logical" and m:
            tgt = rng.choice([lx, lz])
            i = rng.randrange(m)
            mul = rng.choice([one(n, rng.randrange(n), rng.choice("XYZ")), t.z_output(rng.randrange(r)), t.x_output(rng.randrange(r)),
                              *(t.x_output(j) for j in pick), *(t.z_output(j) for j in pick)])
            tgt[i] = real_sign(tgt[i] * mul)
            if rng.random() < 0.2:
                tgt[i] = rng.choice(tgt)
        elif what == "drop" and m:
            rng.choice([lx, lz]).pop()
        elif what == "distance":
            dist = rng.choice([0, -1])
        valid = dist is None or dist > 0
        valid &= all(a.commutes(b) for a in gens for b in gens)
        if valid:
            try:
                stim.Tableau.from_stabilizers([g for g in gens if g.weight or g.sign.real < 0] or [stim.PauliString(n)], allow_redundant=True, allow_underconstrained=True)
            except ValueError:
                valid = False
        if any(g.weight == 0 and g.sign.real < 0 for g in gens):
            valid = False
        ops = [*lx, *lz]
        if ops:
            valid &= all(a.commutes(g) for a in ops for g in gens)
            valid &= all(a.commutes(b) for s in (lx, lz) for a in s for b in s)
            anti = np.array([[not a.commutes(b) for b in lz] for a in lx], int).reshape(len(lx), len(lz))
            valid &= len(lx) == len(lz) and bool((anti.sum(0) == 1).all() and (anti.sum(1) == 1).all())
        kw = {"distance": dist}
        for name, s in (("Lx", lx), ("Lz", lz)):
            if s:
                kw[name] = written(rng, s)
        g = written(rng, gens)
        if what in ("letter", "width"):  # one of the generators is no Pauli on the same qubits
            g = [str(p).replace("_", "I") for p in gens]
            i = rng.randrange(len(g))
            if what == "letter":
                j = rng.randrange(1, n + 1)
                g[i] = g[i][:j] + rng.choice("AxQ+ -01") + g[i][j + 1:]
            else:
                g[i] = g[i] + rng.choice("IXZ") if rng.random() < 0.5 else g[i][:-1]
            valid &= what == "width" and len(g) == 1 and not ops
            if what == "width" and len(g) == 1:
                return  # another code, nothing to compare
        desc = f"generators {[str(p).replace('_', 'I') for p in gens]}, Lx={[str(p).replace('_', 'I') for p in lx]}, Lz={[str(p).replace('_', 'I') for p in lz]}, distance {dist}" + (
            f" written as {g}" if what in ("letter", "width") else "")
        make = lambda: StabilizerCode(g, **kw)  # noqa: E731
    out.states.add(digest(desc))
    out.add("fault:corrupt-definition" if not valid else "probe:valid-definition")
    try:
        make()
    except ValueError as e:
        if valid:
            out.bad("refused", f"{desc}: a valid definition was refused: {e}")
    except Exception as e:  # noqa: BLE001
        out.bad("failed", f"{desc}: failed with {type(e).__name__}: {e}")
    else:
        if not valid:
            out.bad("accepted", f"{desc}: an invalid definition was accepted")


def one(n: int, q: int, p: str) -> stim.PauliString:
    return stim.PauliString("I" * q + p + "I" * (n - q - 1))


def real_sign(p: stim.PauliString) -> stim.PauliString:
    return p if p.sign.imag == 0 else p * 1j


def run(sc: dict) -> Outcome:
    out = Outcome()
    rng = random.Random(sc["seed"])
    {"stab": stab, "bad": bad}.get(sc["kind"], css)(sc, rng, out)
    out.add("sim:steps", len(sc["steps"]))
    out.log = digest([sorted(out.states), [v["kind"] for v in out.violations]])
    return out


def shrink(sc: dict):
    if sc["kind"] == "color" and sc["name"][1] > 3:
        yield {**sc, "name": [sc["name"][0], sc["name"][1] - 2]}
