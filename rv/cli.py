"""Runs commands of the docket CLI inside a simulation.

A command parses its options, then hands a coroutine to asyncio.run.  Here the
first invocation captures that coroutine, which then runs on the simulated
machine of the command; a second invocation is given its result, and prints
what the command prints after it.
"""

from __future__ import annotations

import asyncio
import io
import logging
import os
import sys
from contextlib import contextmanager
from typing import Any, Iterator

from rv.sim import current_proc
from rv.world import World


class _Captured(BaseException):
    pass


class _Stdout(io.TextIOBase):
    """What each simulated process prints, apart from the others."""

    def __init__(self, real: Any) -> None:
        self.real, self.parts = real, {}

    def write(self, text: str) -> int:
        p = current_proc.get(None)
        if p is not None and p.name in self.parts:
            self.parts[p.name].append(text)
        return len(text)

    def flush(self) -> None:
        pass

    def isatty(self) -> bool:
        return False


class Command:
    """code: 0, or the exception that ended it; out: all it printed"""

    def __init__(self, args: tuple[str, ...]) -> None:
        self.args, self.out, self.error, self.done = args, "", None, False
        self.handlers: dict[int, Any] = {}
        self.proc: Any = None
        self.t0 = self.t1 = 0.0

    @property
    def ok(self) -> bool:
        return self.done and self.error is None

    def __repr__(self) -> str:
        return f"docket {' '.join(map(repr, self.args))} -> {'ok' if self.ok else repr(self.error)}: {self.out[-900:]!r}"


class Cli:
    def __init__(self, w: World) -> None:
        self.w, self.n = w, 0

    @contextmanager
    def installed(self) -> Iterator["Cli"]:
        from docket.docket import Docket
        init = Docket.__init__
        loop = asyncio.get_running_loop()
        root = logging.getLogger()
        before = sys.stdout, os.environ.get("COLUMNS"), list(root.handlers), root.level, dict(os.environ)

        def redirected(self, *args, **kw):
            args = list(args)
            if len(args) > 1 and str(args[1]).startswith("redis://"):
                args[1] = "memory://sim"
            if str(kw.get("url", "")).startswith("redis://"):
                kw["url"] = "memory://sim"
            init(self, *args, **kw)

        def add_signal_handler(sig, callback, *args):
            p = current_proc.get(None)
            for c in self.commands:
                if c.proc is p:
                    c.handlers[int(sig)] = lambda: callback(*args)

        def remove_signal_handler(sig):
            return True
        self.commands: list[Command] = []
        self.stdout = _Stdout(sys.stdout)
        Docket.__init__ = redirected
        loop.add_signal_handler, loop.remove_signal_handler = add_signal_handler, remove_signal_handler
        sys.stdout = self.stdout
        os.environ.update(COLUMNS="2000", TERM="dumb", LINES="40")
        try:
            yield self
        finally:
            Docket.__init__ = init
            del loop.add_signal_handler, loop.remove_signal_handler
            sys.stdout = before[0]
            root.handlers[:] = before[2]
            root.setLevel(before[3])
            for k in ("COLUMNS", "TERM", "LINES"):
                os.environ.pop(k, None)
                if k in before[4]:
                    os.environ[k] = before[4][k]

    def _invoke(self, args: tuple[str, ...], run: Any) -> Any:
        import typer
        from docket.cli import app
        real = asyncio.run
        asyncio.run = run
        try:
            typer.main.get_command(app).main(args=list(args), standalone_mode=False, prog_name="docket")
        finally:
            asyncio.run = real

    def start(self, *args: Any) -> Command:
        """Start a command; it runs in the background."""
        self.n += 1
        cmd = Command(tuple(map(str, args)))
        cmd.proc = self.w.sim.proc(f"cli{self.n}")
        cmd.t0 = self.w.sim.wallclock()
        self.commands.append(cmd)
        parts = self.stdout.parts[cmd.proc.name] = []

        async def whole() -> None:
            try:
                coro: list[Any] = []

                def capture(c, **kw):
                    coro.append(c)
                    raise _Captured()
                try:
                    self._invoke(cmd.args, capture)
                except _Captured:
                    parts.clear()
                if coro:
                    result = await coro[0]
                    inner = list(parts)

                    def given(c, **kw):
                        c.close()
                        if inner:
                            parts.append("".join(inner))
                        return result
                    parts.clear()
                    self._invoke(cmd.args, given)
            except Exception as e:
                cmd.error = e
            finally:
                cmd.out = "".join(parts)
                cmd.t1 = self.w.sim.wallclock()
                cmd.done = True
        cmd.task = self.w.sim.spawn(cmd.proc, whole())
        return cmd

    async def __call__(self, *args: Any) -> Command:
        cmd = self.start(*args)
        await asyncio.wait({cmd.task})
        return cmd


def tables(out: str) -> list[dict[str, Any]]:
    """The tables in a command's output: their titles, headings and rows
    (of cells; a cell is the list of its lines)."""
    found, title, cur = [], [], None
    for line in out.splitlines():
        s = line.rstrip()
        if s.startswith("┏"):
            cur = dict(title=[x for x in title if x], head=None, rows=[])
            title = []
        elif s.startswith("┃"):
            cur["head"] = [x.strip() for x in s.strip("┃").split("┃")]
        elif s.startswith("│"):
            cur["rows"].append([x.strip() for x in s[1:-1].split("│")])
        elif s.startswith("└"):
            found.append(cur)
            cur = None
        elif cur is None:
            title.append(s.strip())
    return found
