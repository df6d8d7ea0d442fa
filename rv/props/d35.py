"""D35: generated keys."""
import asyncio
import os
import random
import sys
import threading
import uuid

from rv import sim as S
from rv.world import World, sec, utc

HYPER = 0x3FFF + 1       # keys that can be told apart in one reading of the clock


def judge(c, keys, where, ordered=True):
    for k in keys:
        if isinstance(k, str):
            try:
                u = uuid.UUID(k)
            except ValueError:
                c.violation("not-a-uuid", f"{where}: {k!r}")
                return
            c.check(str(u) == k, "canonical", lambda: f"{where}: {k}")
        else:
            u = k
        if not (isinstance(u, uuid.UUID) and u.version == 7 and u.variant == uuid.RFC_4122):
            c.violation("not-version-7", f"{where}: {k} has version {u.version}, variant {u.variant}")
            return
    c.count("keys", len(keys))
    if ordered:
        c.count("ordered", len(keys))
        for a, b in zip(keys, keys[1:]):
            if not str(a) < str(b):
                c.violation("order", f"{where}: {b} was made after {a}")
                return


class Clock:
    """The wall clock of this process, under control."""

    def __init__(self, t):
        S._lib.vclock_enable(int(t * 1e9), 100_000_000_000_000)

    def move(self, ns):
        S._lib.vclock_advance(int(ns))

    def off(self):
        S._lib.vclock_disable()


def epoch(r):
    # (not one an earlier case may have had in this very process)
    return r.randint(1, 10**6) * 16 + r.choice([2.0, 15.999999999, 16.0, 1e9, 1767225599.9999999, 1767225600.0, 2**31 - 1, 2**32 - 0.5, 4e9, 7.9e9])


def sequence(c):
    r = c.rng
    from docket._uuid7 import uuid7
    seen = set()
    clock = Clock(epoch(r))
    made = []
    try:
        run = []
        total = 0
        for _ in range(r.randint(3, 60)):
            how = r.choice(["stop", "ns", "tick", "ms", "coarse", "s", "16s", "year", "back", "boundary"])
            step = dict(stop=0, ns=r.randint(1, 50), tick=r.randint(50, 300), ms=10**6, coarse=15_625_000, s=10**9, boundary=16 * 10**9 // 2**r.choice([16, 28, 12]),
                        year=365 * 86400 * 10**9, back=-r.choice([1, 100, 10**6, 10**9, 3600 * 10**9]))
            step["16s"] = 16 * 10**9
            if how == "back":
                made.append(run)
                run = []
                if clock_at(clock) + step["back"] / 1e9 < 0:
                    continue
            clock.move(step[how])
            n = r.choice([1, 2, 5, 40, 300])
            n = min(n, 8000 - total)
            total += n
            for _ in range(n):
                run.append(uuid7())
            if r.random() < 0.1:
                random.seed(0)          # nobody else's business
        made.append(run)
    finally:
        clock.off()
    for i, run in enumerate(made):
        judge(c, run, f"run {i}")
        seen.update(run)
    c.check(len(seen) == sum(map(len, made)), "repeated", lambda: f"{sum(map(len, made))} made, {len(seen)} different ones")
    c.nontrivial = True
    c.hashes.append(c.seed)
    c.sample = f"{len(seen)} keys in {len(made)} stretches between backward steps of the clock"


def clock_at(clock):
    import time
    return time.time()


def standstill(c):
    """As many as the format can tell apart while the clock stands still, twice that many unique."""
    r = c.rng
    from docket._uuid7 import uuid7
    clock = Clock(epoch(r))
    try:
        clock.move(1000)
        keys = [uuid7() for _ in range(HYPER)]
        more = [uuid7() for _ in range(2000)]
        clock.move(-10**9)
        back = [uuid7() for _ in range(2000)]
        clock.move(10**9)
        again = [uuid7() for _ in range(HYPER)]
    finally:
        clock.off()
    judge(c, keys, "standing still")
    judge(c, again, "standing still again")
    judge(c, more + back, "beyond", ordered=False)
    everything = keys + more + back + again
    c.check(len(set(everything)) == len(everything), "repeated", lambda: f"{len(everything)} made, {len(set(everything))} different ones")
    c.nontrivial = True
    c.hashes.append(c.seed)
    c.sample = f"{len(keys)} in order, {len(everything)} unique while the clock stood still, twice"


def threads(c):
    r = c.rng
    from docket._uuid7 import uuid7
    n = r.choice([2, 4, 8])
    m = 3000 if c.thorough else 1200
    frozen = r.random() < 0.3
    old = sys.getswitchinterval()
    out = [[] for _ in range(n)]
    clock = Clock(epoch(r))
    barrier = threading.Barrier(n)

    def one(keys):
        barrier.wait()
        for _ in range(m):
            if not frozen:
                clock.move(300)        # (lets go of the interpreter lock)
            keys.append(uuid7())
    try:
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=one, args=(k,)) for k in out]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        clock.off()
    for i, keys in enumerate(out):
        judge(c, keys, f"thread {i} of {n}", ordered=not frozen)
    every = [k for keys in out for k in keys]
    c.check(len(set(every)) == len(every), "repeated", lambda: f"{len(every)} made by {n} threads, {len(set(every))} different ones")
    c.nontrivial = True
    c.hashes.append(c.seed)
    c.sample = f"{len(every)} keys by {n} threads, clock {'standing still' if frozen else 'running'}"


def processes(c):
    """Forked children share everything, including the state of random, and the clock stands still."""
    r = c.rng
    from docket._uuid7 import uuid7
    n = r.choice([2, 4, 8])
    m = r.choice([1, 50, 500])
    clock = Clock(epoch(r))
    try:
        prefix = [uuid7() for _ in range(r.choice([0, 3]))]
        pipes = []
        for _ in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    random.seed(7)
                    with os.fdopen(wr, "w") as f:
                        f.write("\n".join(str(uuid7()) for _ in range(m)))
                finally:
                    os._exit(0)
            os.close(wr)
            pipes.append((pid, rd))
        out = []
        for pid, rd in pipes:
            with os.fdopen(rd) as f:
                out.append(f.read().split())
            os.waitpid(pid, 0)
    finally:
        clock.off()
    every = [str(p) for p in prefix]
    for i, keys in enumerate(out):
        c.check(len(keys) == m, "child", f"{len(keys)} instead of {m}")
        judge(c, keys, f"process {i}")
        every += keys
    c.check(len(set(every)) == len(every), "repeated", lambda: f"{len(every)} made by {n} processes, {len(set(every))} different ones")
    c.nontrivial = True
    c.hashes.append(c.seed)
    c.sample = f"{len(every)} keys by {n} forked processes at one moment"


def dockets(c):
    """Through the API: add, agenda, several clients."""
    r = c.rng
    sim = c.sim()

    async def main(sim):
        from docket import Agenda
        w = World(c, sim)

        async def f(x):
            async with w.running(x):
                pass
        w.tasks.append(f)
        per = {}

        async def one(i):
            async with w.client() as d:
                keys = per.setdefault(i, [])
                for _ in range(r.randint(2, 12)):
                    how = r.choice(["add", "many", "agenda", "later"])
                    if how == "add":
                        keys.append((await d.add(f)(i)).key)
                    elif how == "later":
                        keys.append((await d.add("f", when=utc(sim.wallclock() + 5))(i)).key)
                    elif how == "many":
                        calls = [d.add(f) for _ in range(r.randint(2, 30))]
                        got = await asyncio.gather(*(x(i) for x in calls))
                        keys += [e.key for e in got]
                    else:
                        a = Agenda()
                        for _ in range(r.randint(1, 10)):
                            a.add(f)(i)
                        keys += [e.key for e in await a.scatter(d, over=sec(3))]
                c.check(all(isinstance(k, str) for k in keys), "type", "")
        n = r.randint(1, 4)
        await asyncio.gather(*(one(i) for i in range(n)))
        every = []
        for i, keys in per.items():
            judge(c, keys, f"client {i}")
            every += keys
        c.check(len(set(every)) == len(every), "repeated", lambda: f"{len(every)} made by {n} clients, {len(set(every))} different ones")
        async with w.client() as d:
            s = await d.snapshot()
            c.check({x.key for x in [*s.future, *s.running]} == set(every), "docket", lambda: f"{s.total_tasks} of {len(every)} are there")
        c.nontrivial = True
        c.sample = f"{len(every)} keys given by {n} clients"
    c.run(sim, main)


DIRECTED = [standstill]
GENERATORS = [(sequence, 5), (standstill, 1), (threads, 2), (processes, 2), (dockets, 2)]
