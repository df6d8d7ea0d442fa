"""Deterministic simulation substrate for docket.

The real docket code, the real asyncio machinery and the real in-memory Redis
backend (burner_redis, Rust) run unmodified, under

* a *virtual clock* shared by Python and Rust (LD_PRELOAD shim, shim/vclock.c):
  when nothing is runnable the clock jumps to the next timer;
* a *recording network*: every Redis command issued by a simulated process goes
  through SimRedis, which adds seeded latency, executes the command atomically
  against the one real server, records it, and can inject connection errors,
  lost replies, partitions, stalls and process crashes at exact command points.

Monitors never look at docket internals: they see the event log (API calls and
returns, task-body events, Redis commands) and, at the end, server state.
"""

from __future__ import annotations

import asyncio
import contextvars
import ctypes
import functools
import re
import hashlib
import heapq
import logging
import os
import queue as _queue
import random
import selectors
import sys
import traceback
from collections import Counter, defaultdict, deque
from typing import Any, Callable

NS = 1_000_000_000

_lib = ctypes.CDLL(None)
try:
    _lib.vclock_enable.argtypes = [ctypes.c_int64, ctypes.c_int64]
    _lib.vclock_advance.argtypes = [ctypes.c_int64]
    _lib.vclock_offset.restype = ctypes.c_int64
    _lib.vclock_real_mono.restype = ctypes.c_int64
    HAVE_VCLOCK = True
except AttributeError:  # shim not preloaded
    HAVE_VCLOCK = False


def real_mono() -> float:
    return _lib.vclock_real_mono() / NS


class Quiescent(BaseException):
    """Nothing is runnable and no timer is pending: the simulation is stuck."""


class WallTimeout(BaseException):
    """The scenario used more real time than it was given."""


class VirtualSelector(selectors.BaseSelector):
    def __init__(self) -> None:
        self._real = selectors.DefaultSelector()
        self.iterations = 0
        self.wall_deadline: float | None = None
        self.allow_real_wait = 0  # >0: a real thread owes us a wakeup

    def register(self, *a: Any, **k: Any) -> Any:
        return self._real.register(*a, **k)

    def unregister(self, *a: Any, **k: Any) -> Any:
        return self._real.unregister(*a, **k)

    def modify(self, *a: Any, **k: Any) -> Any:
        return self._real.modify(*a, **k)

    def get_map(self) -> Any:
        return self._real.get_map()

    def get_key(self, f: Any) -> Any:
        return self._real.get_key(f)

    def close(self) -> None:
        self._real.close()

    def select(self, timeout: float | None = None) -> Any:
        self.iterations += 1
        if self.iterations & 0x3FF == 0 and self.wall_deadline is not None:
            if real_mono() > self.wall_deadline:
                raise WallTimeout()
        if self.allow_real_wait:
            return self._real.select(0.05)
        if timeout is None:
            events = self._real.select(0)
            if events:
                return events
            raise Quiescent()
        if timeout > 0:
            _lib.vclock_advance(int(timeout * NS) + 100)
        else:
            _lib.vclock_advance(2000)  # each loop turn costs 2us of virtual time
        if self.iterations & 0xFF == 0:
            return self._real.select(0)
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self) -> None:
        self.vselector = VirtualSelector()
        super().__init__(self.vselector)


@functools.lru_cache(None)
def redis_glob(pattern: bytes) -> "re.Pattern[bytes]":
    """Redis's own matching of patterns: ? * [abc] [^a-z] and \\ to escape."""
    out, i = b"", 0
    while i < len(pattern):
        ch = pattern[i:i + 1]
        if ch == b"*":
            out += b".*"
        elif ch == b"?":
            out += b"."
        elif ch == b"\\" and i + 1 < len(pattern):
            i += 1
            out += re.escape(pattern[i:i + 1])
        elif ch == b"[" and b"]" in pattern[i + 1:]:
            j = pattern.index(b"]", i + 1)
            inner = pattern[i + 1:j]
            neg = inner[:1] == b"^"
            inner = inner[1:] if neg else inner
            if inner:
                out += b"[" + (b"^" if neg else b"") + inner.replace(b"\\", b"\\\\").replace(b"[", b"\\[") + b"]"
            else:
                out += b"(?!)"
            i = j
        else:
            out += re.escape(ch)
        i += 1
    return re.compile(out, re.DOTALL)


current_proc: contextvars.ContextVar["Proc"] = contextvars.ContextVar("sim_proc")


class Proc:
    """A simulated OS process: an owner of tasks and of Redis connections."""

    def __init__(self, sim: "Sim", name: str) -> None:
        self.sim = sim
        self.name = name
        self.alive = True
        self.tasks: set[asyncio.Task[Any]] = set()
        self.ncmd = 0
        # crash plan: (command ordinal, 'before'|'after')
        self.crash_at: tuple[int, str] | None = None
        # one-shot fault plan: {ordinal: 'before'|'after'}
        self.fail_at: dict[int, str] = {}
        self.down_until = 0.0  # monotonic; commands raise ConnectionError
        self.stall_until = 0.0  # commands freeze until then
        self.p_fail_before = 0.0
        self.p_fail_after = 0.0
        # only these commands are subject to p_fail_* (None = all)
        self.fail_cmds: set[str] | None = None
        self.fail_pred: Any = None    # (name, args) -> may this command fail?
        self.block_epoch = 0
        self.epoch = 0  # bumped on disconnection; breaks pubsubs
        self.lat_min, self.lat_max = sim.lat_min, sim.lat_max
        self.spike_p, self.spike_max = sim.spike_p, sim.spike_max
        self.pubsub_extra = 0.0

    def latency(self) -> float:
        r = self.sim.rng
        if self.spike_p and r.random() < self.spike_p:
            return r.uniform(self.lat_max, self.spike_max)
        return self.lat_min * (self.lat_max / self.lat_min) ** r.random()


class SimDead(asyncio.CancelledError):
    pass


def _conn_error(msg: str) -> Exception:
    import redis.exceptions

    return redis.exceptions.ConnectionError(msg)


PUBLISHERS = {"eval", "evalsha", "publish", "execute_pipeline"}
WAKERS = {
    "eval", "evalsha", "xadd", "execute_pipeline", "xclaim", "xautoclaim",
    "xgroup_create",
}


class Server:
    """The one real Redis (burner) of a simulation; commands are executed
    synchronously, i.e. atomically at one virtual instant."""

    def __init__(self, sim: "Sim") -> None:
        import burner_redis

        self.sim = sim
        self.loop = asyncio.SelectorEventLoop()
        self.r = _REAL_BURNER()
        self.waiters: list[asyncio.Event] = []
        self.subs: list["SimPubSub"] = []
        self.pubsub = burner_redis.PubSub(self.r)
        self.exact: set[bytes] = set()
        self.run(self._setup_router())
        self.marker = 0

    async def _setup_router(self) -> None:
        await self.pubsub.psubscribe("*")

    def route(self, channel: bytes) -> None:
        """The in-memory backend delivers what scripts publish to exact
        subscriptions only, so the router follows the channels in use."""
        if channel not in self.exact:
            self.exact.add(channel)
            self.run(self.pubsub.subscribe(channel))

    def run(self, coro: Any) -> Any:
        outer = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        try:
            return self.loop.run_until_complete(coro)
        finally:
            asyncio._set_running_loop(outer)

    async def _invoke(self, name: str, args: Any, kwargs: Any) -> Any:
        return await getattr(self.r, name)(*args, **kwargs)

    def call(self, cmd: str, args: tuple = (), kwargs: dict | None = None) -> Any:
        try:
            result = self.run(self._invoke(cmd, args, kwargs or {}))
        finally:
            if cmd in PUBLISHERS:
                self._drain_pubsub()
            if cmd in WAKERS:
                for ev in self.waiters:
                    ev.set()
        return result

    def _drain_pubsub(self) -> None:
        """Barrier: everything published so far is routed before we return."""
        self.marker += 1
        tag = str(self.marker).encode()
        self.run(self._invoke("publish", ("__sim_marker__", tag), {}))
        q = self.pubsub._queue
        while True:
            try:
                raw = q.get()
            except _queue.Empty:
                raise RuntimeError("pub/sub router lost a message")
            if raw.get("type") not in ("pmessage", "message"):
                continue
            if raw["type"] == "pmessage" and raw["channel"] in self.exact:
                continue
            if raw["channel"] == b"__sim_marker__":
                if raw["data"] == tag:
                    return
                continue
            self.sim.on_publish(raw["channel"], raw["data"])
            for sub in list(self.subs):
                sub._offer(raw["channel"], raw["data"])

    def close(self) -> None:
        try:
            self.run(self.pubsub.aclose())
            self.run(self.r.aclose())
        finally:
            self.loop.close()


class SimPubSub:
    def __init__(self, sim: "Sim") -> None:
        self.sim = sim
        self.proc = current_proc.get()
        self.epoch = self.proc.epoch
        self.channels: dict[bytes, None] = {}
        self.patterns: dict[bytes, None] = {}
        self.inbox: deque[tuple[float, dict[str, Any]]] = deque()
        self.wake = asyncio.Event()
        self.last_due = 0.0
        self.lost = False

    @property
    def subscribed(self) -> bool:
        return bool(self.channels or self.patterns)

    @staticmethod
    def _enc(v: Any) -> bytes:
        return v if isinstance(v, bytes) else str(v).encode()

    def _put(self, msg: dict[str, Any]) -> None:
        loop = self.sim.loop
        due = loop.time() + self.proc.latency() + self.proc.pubsub_extra
        due = max(due, self.last_due)
        self.last_due = due
        self.inbox.append((due, msg))
        loop.call_at(due, self.wake.set)

    def _offer(self, channel: bytes, data: bytes) -> None:
        if not self.proc.alive or self.epoch != self.proc.epoch or self.lost:
            return
        if channel in self.channels:
            self._put({"type": "message", "pattern": None, "channel": channel, "data": data})
        for p in self.patterns:
            if redis_glob(p).fullmatch(channel):
                self._put({"type": "pmessage", "pattern": p, "channel": channel, "data": data})

    async def _sub(self, kind: str, table: str, names: tuple[Any, ...]) -> None:
        await self.sim.gate(self.proc, kind)
        self._check()
        for n in names:
            b = self._enc(n)
            getattr(self, table)[b] = None
            if kind == "subscribe":
                self.sim.server.route(b)
            self._put({"type": kind, "pattern": None, "channel": b, "data": len(self.channels) + len(self.patterns)})
        if self not in self.sim.server.subs:
            self.sim.server.subs.append(self)
        await self.sim.post(self.proc, kind)

    def _check(self) -> None:
        if not self.proc.alive:
            raise SimDead()
        if self.epoch != self.proc.epoch or self.lost:
            self.lost = False
            if not self.subscribed:
                self.epoch = self.proc.epoch  # fresh connection
            else:
                raise _conn_error("pubsub connection lost")

    async def subscribe(self, *names: Any, **_: Any) -> None:
        await self._sub("subscribe", "channels", names)

    async def psubscribe(self, *names: Any, **_: Any) -> None:
        await self._sub("psubscribe", "patterns", names)

    async def unsubscribe(self, *names: Any) -> None:
        for n in [self._enc(x) for x in names] or list(self.channels):
            self.channels.pop(n, None)

    async def punsubscribe(self, *names: Any) -> None:
        for n in [self._enc(x) for x in names] or list(self.patterns):
            self.patterns.pop(n, None)

    async def get_message(self, ignore_subscribe_messages: bool = False, timeout: float | None = 0.0) -> Any:
        loop = self.sim.loop
        if timeout and self.sim.pubsub_coarse:
            # long simulations: poll less often (a message still wakes us at once)
            timeout = max(timeout, self.sim.pubsub_coarse)
        deadline = None if timeout is None else loop.time() + timeout
        while True:
            self._check()
            now = loop.time()
            while self.inbox and self.inbox[0][0] <= now + 1e-9:
                _, msg = self.inbox.popleft()
                if ignore_subscribe_messages and msg["type"] in ("subscribe", "psubscribe"):
                    continue
                return msg
            if deadline is not None and now >= deadline:
                if timeout == 0.0:
                    await asyncio.sleep(0)
                return None
            self.wake.clear()
            waiter = self.wake.wait()
            try:
                if deadline is None:
                    await waiter
                else:
                    await asyncio.wait_for(waiter, deadline - now)
            except asyncio.TimeoutError:
                pass

    async def listen(self) -> Any:
        while self.subscribed:
            msg = await self.get_message(timeout=None)
            if msg is not None:
                yield msg

    async def aclose(self) -> None:
        self.channels.clear()
        self.patterns.clear()
        if self in self.sim.server.subs:
            self.sim.server.subs.remove(self)

    close = aclose
    reset = aclose

    async def __aenter__(self) -> "SimPubSub":
        return self

    async def __aexit__(self, *a: Any) -> None:
        await self.aclose()


class _PipelineClient:
    """What burner's Pipeline sees as its client."""

    def __init__(self, sr: "SimRedis") -> None:
        self._sr = sr

    def __getattr__(self, name: str) -> Any:
        return getattr(self._sr, name)


class SimRedis:
    """Drop-in for burner_redis.BurnerRedis inside a simulation."""

    def __init__(self, *a: Any, **k: Any) -> None:
        self._sim = Sim.current
        assert self._sim is not None, "SimRedis outside a simulation"

    def pubsub(self, *a: Any, **k: Any) -> SimPubSub:
        return SimPubSub(self._sim)

    def pipeline(self, *a: Any, **k: Any) -> Any:
        import burner_redis

        return burner_redis.Pipeline(_PipelineClient(self))

    def lock(self, name: str, timeout: Any = None, sleep: float = 0.1, blocking: bool = True,
             blocking_timeout: Any = None, **_: Any) -> Any:
        import burner_redis

        return burner_redis.Lock(self, name, timeout=timeout, sleep=sleep, blocking=blocking,
                                 blocking_timeout=blocking_timeout)

    def register_script(self, script: Any) -> Any:
        import burner_redis

        return burner_redis.Script(self, script)

    async def scan_iter(self, match: Any = None, count: Any = None, _type: Any = None) -> Any:
        for key in await self.keys(match if match is not None else "*"):
            yield key

    async def _hmget(self, key: Any, keys: Any, *more: Any) -> list[Any]:
        fields = [*keys, *more] if isinstance(keys, (list, tuple)) else [keys, *more]
        found = await self.hgetall(key)
        return [found.get(SimPubSub._enc(f)) for f in fields]

    async def aclose(self) -> None:
        pass

    close = aclose

    async def __aenter__(self) -> "SimRedis":
        return self

    async def __aexit__(self, *a: Any) -> None:
        pass

    def __getattr__(self, name: str) -> Any:
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "hmget" and not hasattr(_REAL_BURNER, name):
            return self._hmget
        if not hasattr(_REAL_BURNER, name):
            raise AttributeError(name)
        sim = self._sim

        async def command(*args: Any, **kwargs: Any) -> Any:
            return await sim.command(name, args, kwargs)

        command.__name__ = name
        return command


_REAL_BURNER: Any = None


def install() -> None:
    """Route docket's in-memory backend through the simulated network."""
    global _REAL_BURNER
    import burner_redis

    if _REAL_BURNER is None:
        _REAL_BURNER = burner_redis.BurnerRedis
        burner_redis.BurnerRedis = SimRedis  # type: ignore


class Event(dict):
    __slots__ = ()

    def __getattr__(self, k: str) -> Any:
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Sim:
    current: "Sim | None" = None

    def __init__(self, seed: Any, *, epoch: float = 1_893_456_000.0, lat_min: float = 1e-4,
                 lat_max: float = 3e-3, spike_p: float = 0.0, spike_max: float = 0.2,
                 record_commands: bool = False, pubsub_coarse: float = 0.0) -> None:
        self.seed = seed
        self.pubsub_coarse = pubsub_coarse
        # periods of background chores, by dotted name: drawn out in simulations of days
        self.constants: dict[str, float] = {}
        self.rng = random.Random(str(seed))
        self.epoch = epoch
        self.lat_min, self.lat_max = lat_min, lat_max
        self.spike_p, self.spike_max = spike_p, spike_max
        self.events: list[Event] = []
        self.commands = 0
        self.cmd_hash = hashlib.blake2b(digest_size=8)
        self.faults: Counter[str] = Counter()
        self.record_commands = record_commands
        self.command_log: list[tuple[float, str, str, str]] = []
        self.command_hooks: list[Callable[[Proc, str, tuple, dict, Any], None]] = []
        self.publish_hooks: list[Callable[[bytes, bytes], None]] = []
        self.unhandled: list[str] = []
        self.procs: dict[str, Proc] = {}
        self.extra: dict[str, Any] = {}

    # -- running ---------------------------------------------------------
    def run(self, main: Callable[["Sim"], Any], wall: float = 60.0) -> Any:
        install()
        random.seed(str(self.seed))
        _lib.vclock_enable(int(self.epoch * NS), 100_000_000 * NS)
        Sim.current = self
        self.loop = VirtualLoop()
        self.loop.vselector.wall_deadline = real_mono() + wall
        self.loop.set_task_factory(self._task_factory)
        self.loop.set_exception_handler(self._on_loop_exception)
        self.server = Server(self)
        self.t0 = self.loop.time()
        root = self.proc("driver")
        ctx = contextvars.copy_context()
        ctx.run(current_proc.set, root)
        try:
            asyncio.set_event_loop(self.loop)
            task = self.loop.create_task(main(self), context=ctx)
            return self.loop.run_until_complete(task)
        finally:
            self._shutdown()

    def _shutdown(self) -> None:
        try:
            for p in self.procs.values():
                p.alive = False
            for _ in range(30):
                pending = [t for t in asyncio.all_tasks(self.loop)]
                if not pending:
                    break
                for t in pending:
                    t.cancel()
                self.loop.call_soon(self.loop.stop)
                try:
                    self.loop.run_forever()
                except (Quiescent, WallTimeout):
                    break
            try:
                self.loop.run_until_complete(self.loop.shutdown_asyncgens())
            except BaseException:
                pass
        finally:
            self.server.close()
            self.loop.close()
            asyncio.set_event_loop(None)
            Sim.current = None

    def _on_loop_exception(self, loop: Any, context: dict[str, Any]) -> None:
        exc = context.get("exception")
        if isinstance(exc, asyncio.CancelledError):
            return
        self.unhandled.append(f"{context.get('message')}: {exc!r}")

    def _task_factory(self, loop: Any, coro: Any, **kw: Any) -> asyncio.Task[Any]:
        ctx = kw.get("context")
        t = asyncio.Task(coro, loop=loop, **kw)
        try:
            p = ctx.get(current_proc) if ctx is not None else current_proc.get()
        except LookupError:
            p = None
        if p is not None:
            p.tasks.add(t)
            t.add_done_callback(p.tasks.discard)
            if not p.alive:
                t.cancel()
        return t

    # -- processes -------------------------------------------------------
    def proc(self, name: str) -> Proc:
        p = Proc(self, name)
        self.procs[name] = p
        return p

    def spawn(self, proc: Proc, coro: Any, name: str | None = None) -> asyncio.Task[Any]:
        ctx = contextvars.copy_context()
        ctx.run(current_proc.set, proc)
        task = self.loop.create_task(coro, context=ctx, name=name or proc.name)
        task.add_done_callback(lambda t: self._spawn_done(proc, t))
        return task

    def _spawn_done(self, proc: Proc, t: asyncio.Task[Any]) -> None:
        if proc.alive and not t.cancelled() and t.exception() is not None:
            self.unhandled.append(
                f"{t.get_name()}: " + "".join(traceback.format_exception(t.exception()))[-3000:]
            )

    def kill(self, proc: Proc) -> None:
        """SIGKILL: no further command of this process reaches the server and
        no further event of it is recorded."""
        if not proc.alive:
            return
        self.log("crash", who=proc.name)
        self.faults["crash"] += 1
        proc.alive = False
        self._reap(proc, 60)

    def _reap(self, proc: Proc, rounds: int) -> None:
        live = [t for t in proc.tasks if not t.done()]
        if not live or rounds <= 0:
            return
        try:
            me = asyncio.current_task()
        except RuntimeError:
            me = None
        for t in live:
            if t is not me:
                t.cancel()
        self.loop.call_later(0.001, self._reap, proc, rounds - 1)

    def disconnect(self, proc: Proc, duration: float) -> None:
        """Drop this process's connections for a while."""
        self.log("disconnect", who=proc.name, duration=duration)
        self.faults["disconnect"] += 1
        proc.epoch += 1
        proc.down_until = self.loop.time() + duration
        for s in self.server.subs:
            if s.proc is proc:
                s.wake.set()
        for ev in self.server.waiters:
            ev.set()

    def drop(self, proc: Proc, pubsub: bool = False, blocking: bool = False) -> None:
        """Drop only those connections of a process; new ones can be made."""
        self.log("drop", who=proc.name, pubsub=pubsub, blocking=blocking)
        self.faults["drop"] += 1
        if pubsub:
            for s in self.server.subs:
                if s.proc is proc:
                    s.lost = True
                    s.wake.set()
        if blocking:
            proc.block_epoch += 1
            for ev in self.server.waiters:
                ev.set()

    def stall(self, proc: Proc, duration: float) -> None:
        self.log("stall", who=proc.name, duration=duration)
        self.faults["stall"] += 1
        proc.stall_until = max(proc.stall_until, self.loop.time() + duration)

    # -- time ------------------------------------------------------------
    def now(self) -> float:
        return self.loop.time() - self.t0

    def wallclock(self) -> float:
        return self.epoch + _lib.vclock_offset() / NS

    # -- event log -------------------------------------------------------
    def log(self, kind: str, **fields: Any) -> Event | None:
        try:
            p = current_proc.get()
        except LookupError:
            p = None
        if p is not None and not p.alive:
            return None
        ev = Event(kind=kind, i=len(self.events), t=self.wallclock(),
                   proc=p.name if p is not None else "?", **fields)
        self.events.append(ev)
        return ev

    def on_publish(self, channel: bytes, data: bytes) -> None:
        for h in self.publish_hooks:
            h(channel, data)

    # -- network ---------------------------------------------------------
    async def gate(self, proc: Proc, name: str, args: tuple = ()) -> str | None:
        """Request path.  Returns a pending 'after' action, if any."""
        if not proc.alive:
            raise SimDead()
        await asyncio.sleep(proc.latency())
        while proc.stall_until > self.loop.time():
            await asyncio.sleep(proc.stall_until - self.loop.time())
        if not proc.alive:
            raise SimDead()
        proc.ncmd += 1
        n = proc.ncmd
        if proc.down_until > self.loop.time():
            self.faults["refused"] += 1
            raise _conn_error("connection refused (simulated outage)")
        after: str | None = None
        if proc.crash_at is not None and n >= proc.crash_at[0]:
            if proc.crash_at[1] == "before":
                self.kill(proc)
                raise SimDead()
            after = "crash"
        plan = proc.fail_at.pop(n, None)
        if plan is None and (proc.p_fail_before or proc.p_fail_after):
            if (proc.fail_cmds is None or name in proc.fail_cmds) and (proc.fail_pred is None or proc.fail_pred(name, args)):
                x = self.rng.random()
                if x < proc.p_fail_before:
                    plan = "before"
                elif x < proc.p_fail_before + proc.p_fail_after:
                    plan = "after"
        if plan == "before":
            self.faults["conn_error_before"] += 1
            raise _conn_error("connection lost before request (simulated)")
        if plan == "after":
            after = "reply_lost"
        return after

    async def post(self, proc: Proc, name: str, after: str | None = None) -> None:
        if after == "crash":
            self.kill(proc)
            raise SimDead()
        if after == "reply_lost":
            self.faults["reply_lost"] += 1
            await asyncio.sleep(proc.latency())
            raise _conn_error("connection lost awaiting reply (simulated)")
        await asyncio.sleep(proc.latency())
        if not proc.alive:
            raise SimDead()

    async def command(self, name: str, args: tuple, kwargs: dict) -> Any:
        proc = current_proc.get()
        block = kwargs.get("block")
        if name in ("xreadgroup", "xread") and "block" in kwargs:
            return await self._blocking(proc, name, args, kwargs, block)
        after = await self.gate(proc, name, args)
        err: BaseException | None = None
        result: Any = None
        try:
            result = self.server.call(name, args, kwargs)
        except Exception as e:
            err = e
        self._note(proc, name, args, kwargs, result)
        await self.post(proc, name, after)
        if err is not None:
            raise err
        return result

    async def _blocking(self, proc: Proc, name: str, args: tuple, kwargs: dict, block: Any) -> Any:
        if block and self.pubsub_coarse and name == "xread":
            block = max(block, self.pubsub_coarse * 1000)
        kwargs = {**kwargs, "block": None}
        after = await self.gate(proc, name, args)
        epoch = proc.epoch, proc.block_epoch
        deadline = None if block is None else self.loop.time() + (block / 1000 if block else 1e9)
        while True:
            result = self.server.call(name, args, kwargs)
            if result or deadline is None or self.loop.time() >= deadline:
                break
            ev = asyncio.Event()
            self.server.waiters.append(ev)
            try:
                await asyncio.wait_for(ev.wait(), max(0.0, deadline - self.loop.time()))
            except asyncio.TimeoutError:
                pass
            finally:
                self.server.waiters.remove(ev)
            if not proc.alive:
                raise SimDead()
            if (proc.epoch, proc.block_epoch) != epoch:
                raise _conn_error("connection lost during blocking read (simulated)")
        if result:
            self._note(proc, name, args, kwargs, result)
        await self.post(proc, name, after)
        return result

    def _note(self, proc: Proc, name: str, args: tuple, kwargs: dict, result: Any) -> None:
        self.commands += 1
        sha = args[0][:6] if name == "evalsha" and args else ""
        self.cmd_hash.update(f"{proc.name}:{name}:{sha};".encode())
        if self.record_commands:
            self.command_log.append((self.wallclock(), proc.name, name, _short(args, kwargs)))
        for h in self.command_hooks:
            h(proc, name, args, kwargs, result)

    def history_hash(self) -> str:
        """Identity of the interleaving: order of (process, command) plus events."""
        h = self.cmd_hash.copy()
        for e in self.events:
            h.update(f"{e['kind']}:{e['proc']}:{e.get('key', '')};".encode())
        return h.hexdigest()


def _short(args: tuple, kwargs: dict) -> str:
    def s(v: Any) -> str:
        r = repr(v)
        return r if len(r) < 90 else r[:87] + "..."

    return ", ".join([s(a) for a in args] + [f"{k}={s(v)}" for k, v in kwargs.items()])
