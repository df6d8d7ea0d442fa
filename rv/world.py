"""Workload helpers: simulated worker processes, clients and task recording."""

from __future__ import annotations

import asyncio
import traceback
from contextlib import asynccontextmanager
from datetime import datetime, timedelta, timezone
from typing import Any, AsyncIterator, Callable, Iterable

from .case import Case
from .sim import Proc, Sim, current_proc

FINAL = {"completed", "failed", "cancelled"}


def sec(x: float) -> timedelta:
    return timedelta(seconds=x)


def utc(t: float) -> datetime:
    return datetime.fromtimestamp(t, timezone.utc)


class WorkerHandle:
    def __init__(self, name: str) -> None:
        self.name = name
        self.gen = 0
        self.proc: Proc | None = None
        self.worker: Any = None
        self.run_task: asyncio.Task[Any] | None = None
        self.ready = asyncio.Event()
        self.done = asyncio.Event()
        self.stop_requested = False
        self.supervisor: asyncio.Task[Any] | None = None
        self.exits: list[tuple[float, str]] = []

    @property
    def alive(self) -> bool:
        return self.proc is not None and self.proc.alive and not self.done.is_set()


class World:
    def __init__(self, case: Case, sim: Sim, *, name: str = "dk", tasks: Iterable[Callable] = (),
                 docket_kw: dict | None = None, worker_kw: dict | None = None) -> None:
        self.case, self.sim, self.name = case, sim, name
        self.tasks = list(tasks)
        self.docket_kw = dict(docket_kw or {})
        self.worker_kw = dict(
            redelivery_timeout=sec(4), minimum_check_interval=sec(0.2),
            scheduling_resolution=sec(0.2), reconnection_delay=sec(0.5), concurrency=5)
        self.worker_kw.update(worker_kw or {})
        self.workers: dict[str, WorkerHandle] = {}
        self.runs = 0

    # -- dockets -----------------------------------------------------------
    def make_docket(self, *, tasks: Iterable[Callable] | None = None, **kw: Any) -> Any:
        from docket import Docket

        d = Docket(**{"name": self.name, "url": "memory://sim", **self.docket_kw, **kw})
        for t in self.tasks if tasks is None else tasks:
            d.register(t)
        return d

    @asynccontextmanager
    async def client(self, **kw: Any) -> AsyncIterator[Any]:
        async with self.make_docket(**kw) as d:
            yield d

    async def on(self, proc: Proc, coro: Any) -> Any:
        t = self.sim.spawn(proc, coro)
        await asyncio.wait({t})
        if t.cancelled():
            raise ProcDied(proc.name)
        return t.result()

    # -- workers -----------------------------------------------------------
    async def start_worker(self, name: str, *, restart: float | None = 0.5, same_name: bool = False,
                           setup: Callable[[Proc, int], None] | None = None,
                           mode: str = "forever", tasks: Iterable[Callable] | None = None,
                           docket_kw: dict | None = None, wait: bool = True,
                           body: Callable[[Any], Any] | None = None,
                           worker_name: str | None = None,
                           **kw: Any) -> WorkerHandle:
        h = WorkerHandle(name)
        if worker_name is not None:
            kw["name"] = worker_name
        self.workers[name] = h
        h.supervisor = asyncio.ensure_future(
            self._supervise(h, restart, same_name, setup, mode, tasks, docket_kw or {}, body, kw))
        if wait:
            w = asyncio.ensure_future(h.ready.wait())
            await asyncio.wait({w, h.supervisor}, return_when=asyncio.FIRST_COMPLETED)
            w.cancel()
        return h

    async def _supervise(self, h: WorkerHandle, restart, same_name, setup, mode, tasks, docket_kw, body, kw) -> None:
        while True:
            proc = self.sim.proc(f"{h.name}" if h.gen == 0 else f"{h.name}.{h.gen}")
            if setup is not None:
                setup(proc, h.gen)
            wname = h.name if same_name or h.gen == 0 else f"{h.name}.{h.gen}"
            h.proc = proc
            t = self.sim.spawn(proc, self._worker_main(h, wname, mode, tasks, docket_kw, body, kw))
            await asyncio.wait({t})
            if t.cancelled() or not proc.alive:
                how = "killed"
            elif t.exception() is not None:
                how = f"died: {t.exception()!r}"
            else:
                how = t.result()
            h.exits.append((self.sim.now(), how))
            self.sim.log("worker_gone", worker=wname, how=how, stop_requested=h.stop_requested)
            h.gen += 1
            if restart is None or h.stop_requested or mode != "forever":
                h.done.set()
                return
            await asyncio.sleep(restart)
            if h.stop_requested:
                h.done.set()
                return

    async def _worker_main(self, h: WorkerHandle, wname: str, mode: str, tasks, docket_kw, body, kw) -> str:
        from docket import Worker

        try:
            async with self.make_docket(tasks=tasks, **docket_kw) as d:
                async with Worker(d, **{"name": wname, **self.worker_kw, **kw}) as w:
                    h.worker = w
                    if body is not None:
                        h.ready.set()
                        await body(w)
                        return "returned"
                    coro = {"forever": w.run_forever, "until_finished": w.run_until_finished}[mode]()
                    h.run_task = asyncio.ensure_future(coro)
                    h.ready.set()
                    try:
                        await h.run_task
                    except asyncio.CancelledError:
                        if not h.run_task.done():
                            h.run_task.cancel()
                            raise
                    return "returned"
        except Exception as e:  # a dying worker process; the supervisor restarts it
            return "died: " + "".join(traceback.format_exception(e))[-1500:]

    async def stop_worker(self, name: str, timeout: float | None = None) -> bool:
        """SIGTERM: cancel run_forever, as Worker.run's signal handler does."""
        h = self.workers[name]
        h.stop_requested = True
        self.sim.log("stop_requested", worker=name)
        if h.run_task is not None and not h.run_task.done():
            h.run_task.cancel()
        try:
            await asyncio.wait_for(h.done.wait(), timeout)
            return True
        except asyncio.TimeoutError:
            return False

    def kill_worker(self, name: str) -> None:
        h = self.workers[name]
        if h.proc is not None:
            self.sim.kill(h.proc)

    # -- recording ---------------------------------------------------------
    @asynccontextmanager
    async def running(self, tag: Any, **f: Any) -> AsyncIterator[int]:
        self.runs += 1
        run = self.runs
        self.sim.log("start", tag=tag, run=run, **f)
        try:
            yield run
        except asyncio.CancelledError:
            self.sim.log("end", tag=tag, run=run, outcome="cancelled", **f)
            raise
        except BaseException as e:
            self.sim.log("end", tag=tag, run=run, outcome="failed", error=repr(e), **f)
            raise
        else:
            self.sim.log("end", tag=tag, run=run, outcome="ok", **f)

    def events(self, kind: str, **match: Any) -> list[Any]:
        return [e for e in self.sim.events if e["kind"] == kind and all(e.get(k) == v for k, v in match.items())]

    def starts(self, tag: Any) -> list[Any]:
        return self.events("start", tag=tag)

    def ends(self, tag: Any, outcome: str | None = None) -> list[Any]:
        m = {"outcome": outcome} if outcome else {}
        return self.events("end", tag=tag, **m)

    # -- waiting -----------------------------------------------------------
    async def until(self, cond: Callable[[], bool], timeout: float, step: float = 0.1) -> bool:
        end = self.sim.now() + timeout
        while self.sim.now() < end:
            if cond():
                return True
            await asyncio.sleep(step)
        return cond()

    async def drained(self, docket: Any, timeout: float, step: float = 0.5) -> bool:
        end = self.sim.now() + timeout
        while True:
            snap = await docket.snapshot()
            if snap.total_tasks == 0:
                return True
            if self.sim.now() > end:
                return False
            await asyncio.sleep(step)

    def raw_keys(self) -> dict[str, str]:
        """Store contents, read directly (no simulated network)."""
        keys = self.sim.server.call("keys", ("*",))
        return {k.decode(): "" for k in keys}

    # -- worker-death bookkeeping -------------------------------------------
    def unexpected_worker_exits(self) -> list[Any]:
        return [e for e in self.events("worker_gone") if not e.stop_requested and e.how != "killed"]


class ProcDied(Exception):
    pass


def intervals(w: World, **match: Any) -> list[tuple[float, float, Any]]:
    """(start, end, start_event) of every task run; runs cut short by a crash of
    their process end at the crash."""
    ends = {e.run: e.t for e in w.events("end")}
    crash: dict[str, float] = {}
    for e in w.sim.events:
        if e["kind"] == "crash":
            crash[e["who"]] = e.t
    out = []
    for s in w.events("start", **match):
        out.append((s.t, ends.get(s.run, crash.get(s.proc, float("inf"))), s))
    return out


def max_overlap(iv: list[tuple[float, float, Any]]) -> tuple[int, Any]:
    pts = []
    for a, b, e in iv:
        pts.append((a, 1, e))
        if b != float("inf"):
            pts.append((b, -1, e))
    # an end and a start at one instant do not overlap
    pts.sort(key=lambda p: (p[0], p[1]))
    n = best = 0
    at = None
    for t, d, e in pts:
        n += d
        if n > best:
            best, at = n, e
    return best, at


def delivered(name: str, result: Any) -> int:
    """Messages handed to a worker by this command's reply."""
    if name == "xreadgroup" and result:
        return sum(len(m) for _, m in result)
    if name == "xautoclaim" and result:
        return len(result[1])
    return 0


def fault_after_delivery(sim: Sim, proc: Proc, k: int, action: str, nth: int = 1) -> None:
    """Arm a fault at the k-th command this process issues after its nth
    delivery.  action: crash-before | crash-after | fail-before | fail-after"""
    state = {"n": 0}

    def hook(p: Proc, name: str, args: Any, kwargs: Any, result: Any) -> None:
        if p is proc and state["n"] < nth and delivered(name, result):
            state["n"] += 1
            if state["n"] == nth:
                kind, _, when = action.partition("-")
                if kind == "crash":
                    proc.crash_at = (proc.ncmd + k, when)
                else:
                    proc.fail_at[proc.ncmd + k] = when

    sim.command_hooks.append(hook)


async def add_safely(w: World, sim: Sim, op: Callable[[], Any], tries: int = 1) -> tuple[str, Any]:
    """('ok', execution) | ('unknown', error): a scheduling call under faults."""
    from redis.exceptions import ConnectionError as RCE

    err: Any = None
    for _ in range(tries):
        try:
            return "ok", await op()
        except (RCE, OSError) as e:
            err = e
            await asyncio.sleep(0.05)
    return "unknown", err
