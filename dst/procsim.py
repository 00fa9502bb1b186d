"""Simulated worker processes with a virtual clock.

`installed()` replaces the process primitives of the `multiprocess` package.  A started process runs its target for real in a forked
child (so memory isolation and result transport are those of a real process) but *when* it finishes, whether it crashes and whether it
races with its supervisor is decided by the simulator; joining costs virtual time only.

Solver effort is bounded by z3's deterministic resource counter: a worker that exceeds it is a worker that never finishes.
"""
from __future__ import annotations

import contextlib
import os
import select
import signal
import time

from dst.rebind import rebound

REAL_CAP_S = 250.0
EFFORT = 8_000_000  # z3 resource units, about two seconds
EXIT_STUCK = 77


class WorkerStuck(RuntimeError):
    pass


class Sim:
    def __init__(self, rng, fate=None, effort=EFFORT) -> None:
        self.rng = rng
        self.effort = effort
        self.stuck = 0
        self.fate = fate or (lambda _i: {"dur": 0.5})
        self.clock = 0.0
        self.started = 0
        self.live: list[Proc] = []
        self.events: list = []
        self.shared: list = []


_SIM: Sim | None = None


class SharedList(list):
    pass


class SharedDict(dict):
    pass


class FakeManager:
    def __init__(self, *_a, **_k) -> None:
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self) -> None:
        pass

    def list(self, *a):
        o = SharedList(*a)
        _SIM.shared.append(o)
        return o

    def dict(self, *a, **k):
        o = SharedDict(*a, **k)
        _SIM.shared.append(o)
        return o

    def Queue(self, *_a):  # noqa: N802
        return FakeQueue()


class FakeQueue:
    def __init__(self, *_a) -> None:
        self.items = SharedList()
        _SIM.shared.append(self.items)

    def put(self, x, *_a, **_k) -> None:
        self.items.append(x)

    put_nowait = put

    def get(self, block=True, timeout=None):
        import queue

        if not self.items:
            for p in list(_SIM.live):
                p.join(timeout)
        if not self.items:
            raise queue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False, 0)

    def empty(self) -> bool:
        return not self.items

    def close(self) -> None:
        pass

    def join_thread(self) -> None:
        pass


class Proc:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None) -> None:
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.exitcode = None
        self.started = False
        self.name, self.daemon = name or "sim-process", daemon
        self.pid = None
        self.end = None

    # -- lifecycle
    def start(self) -> None:
        s = _SIM
        self.index = s.started
        s.started += 1
        self.fate = s.fate(self.index)
        self.started = True
        self.pid = 100000 + self.index
        self.end = s.clock + self.fate["dur"]
        s.live.append(self)
        s.events.append(("start", self.index, round(s.clock, 6)))

    def _finish(self) -> bool:
        """the simulated process reaches its end (virtual time already accounted for); False if it never does"""
        s = _SIM
        if self not in s.live:
            return True
        if self.fate.get("crash"):
            s.live.remove(self)
            self.exitcode = -9
            s.events.append(("crash", self.index))
            return True
        if self.end == float("inf"):
            return False
        kind, payload = run_forked(self.target, self.args, self.kwargs, s.shared, s.effort)
        if kind == "stuck":
            self.end = float("inf")
            s.stuck += 1
            s.events.append(("stuck", self.index))
            return False
        s.live.remove(self)
        if kind == "ok":
            for o, new in zip(s.shared, payload):
                o.clear()
                o.extend(new) if isinstance(o, list) else o.update(new)
            self.exitcode = 0
        else:
            self.exitcode = 1
        s.events.append(("end", self.index, kind))
        return True

    def join(self, timeout=None) -> None:
        s = _SIM
        if self not in s.live:
            return
        if timeout is not None and s.clock + timeout < self.end:
            s.clock += timeout
            s.events.append(("join-timeout", self.index))
            if self.fate.get("race"):  # finishes between the time-out and the supervisor's next look
                self._finish()
            return
        start, end = s.clock, self.end
        if end == float("inf") or not self._finish():
            if timeout is None:
                raise WorkerStuck("waited without a time limit for a worker that never finishes")
            s.clock = start + timeout
            return
        s.clock = max(s.clock, end)

    def is_alive(self) -> bool:
        if self in _SIM.live and self.end <= _SIM.clock:
            self._finish()
        return self in _SIM.live

    def terminate(self) -> None:
        if self in _SIM.live:
            _SIM.live.remove(self)
            self.exitcode = -15
            _SIM.events.append(("terminated", self.index))

    kill = terminate

    def close(self) -> None:
        pass


def bounded_check(orig, effort):
    def check(self, *a):
        import z3

        self.set("rlimit", effort)
        res = orig(self, *a)
        if res == z3.unknown:
            os._exit(EXIT_STUCK)
        return res

    return check


def run_forked(target, args, kwargs, shared, effort=EFFORT):
    import dill
    import z3

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            for cls in (z3.Solver, z3.Optimize):
                cls.check = bounded_check(cls.check, effort)
            target(*args, **kwargs)
            data = dill.dumps([list(o) if isinstance(o, list) else dict(o) for o in shared])
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    t_end = time.monotonic() + REAL_CAP_S
    try:
        while True:
            if not select.select([r], [], [], max(0.0, t_end - time.monotonic()))[0]:
                os.kill(pid, signal.SIGKILL)
                raise WorkerStuck
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        with contextlib.suppress(ChildProcessError):
            _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == EXIT_STUCK:
        return "stuck", None
    if st != 0:
        return "error", None
    return "ok", dill.loads(buf)


@contextlib.contextmanager
def installed(rng, fate=None, effort=EFFORT):
    global _SIM
    import multiprocess
    import z3

    import mqt.qecc.ft_stateprep.state_prep  # noqa: F401

    z3.z3._main_ctx = None
    names = ("Process", "Manager", "Queue", "SimpleQueue")
    orig = {k: getattr(multiprocess, k) for k in names}
    ctx0 = multiprocess.get_context
    old = _SIM
    _SIM = Sim(rng, fate, effort)
    multiprocess.Process, multiprocess.Manager, multiprocess.Queue, multiprocess.SimpleQueue = Proc, FakeManager, FakeQueue, FakeQueue
    multiprocess.get_context = lambda *_a: multiprocess
    fakes = {"Process": Proc, "Manager": FakeManager, "Queue": FakeQueue, "SimpleQueue": FakeQueue}
    try:
        with rebound(*((v, fakes[k]) for k, v in orig.items())):
            yield _SIM
    finally:
        for k, v in orig.items():
            setattr(multiprocess, k, v)
        multiprocess.get_context = ctx0
        _SIM = old

