"""Seams that hold however the code under test imports a function: every module-level reference is replaced, and put back."""
from __future__ import annotations

import contextlib
import io
import os
import subprocess
import sys


@contextlib.contextmanager
def rebound(*pairs, prefix: str = "mqt."):
    """replace objects by stand-ins wherever a module of the code under test refers to them by a name of its own"""
    undo = []
    for mname, mod in list(sys.modules.items()):
        if mod is None or not mname.startswith(prefix):
            continue
        for name, val in list(vars(mod).items()):
            for old, new in pairs:
                if val is old:
                    undo.append((mod, name, val))
                    setattr(mod, name, new)
    try:
        yield
    finally:
        for mod, name, val in reversed(undo):
            setattr(mod, name, val)


class Sink:
    """what a program prints, sent to a text file, binary file or file descriptor"""

    def __init__(self, to) -> None:
        self.to = to

    def write(self, text: str) -> None:
        if isinstance(self.to, int):
            if self.to >= 0:
                os.write(self.to, text.encode())
        elif self.to is not None:
            try:
                self.to.write(text)
            except TypeError:
                self.to.write(text.encode())


def popen(program):
    """a stand-in for `subprocess.Popen` (and all helpers built on it) that runs `program(args, stdout=..., stdin=..., input=...) -> return code`"""

    class Popen:
        def __init__(self, args, *_a, **k) -> None:
            self.args, self.k, self.returncode, self.pid = args, k, None, 1
            self.text = bool(k.get("text") or k.get("universal_newlines") or k.get("encoding") or k.get("errors"))
            self.out = io.StringIO() if k.get("stdout") == subprocess.PIPE else k.get("stdout")
            self.stdin = io.StringIO() if k.get("stdin") == subprocess.PIPE else None
            self.stdout = self.stderr = None
            if self.stdin is None:
                self.go(None)

        def go(self, given) -> None:
            if isinstance(given, bytes):
                given = given.decode()
            if self.stdin is not None and not given:
                given = self.stdin.getvalue()
            self.returncode = program(self.args, **{**self.k, "stdout": Sink(self.out), "input": given, "stdin": self.k.get("stdin") if self.stdin is None else None})
            if self.k.get("stdout") == subprocess.PIPE:
                text = self.out.getvalue()
                self.stdout = io.StringIO(text) if self.text else io.BytesIO(text.encode())
            if self.k.get("stderr") == subprocess.PIPE:
                self.stderr = io.StringIO() if self.text else io.BytesIO()

        def communicate(self, input=None, timeout=None):  # noqa: A002, ARG002
            if self.returncode is None:
                self.go(input)
            return (self.stdout.read() if self.stdout else None), (self.stderr.read() if self.stderr else None)

        def wait(self, timeout=None):  # noqa: ARG002
            self.communicate() if self.returncode is None else None
            return self.returncode

        def poll(self):
            return self.returncode

        def kill(self) -> None:
            pass

        terminate = kill

        def __enter__(self):
            return self

        def __exit__(self, *_a) -> None:
            self.wait()

    return Popen
