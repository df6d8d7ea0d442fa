"""D29: a worker uses its whole concurrency and never more."""
import asyncio
import math
from collections import Counter

from rv.world import World, intervals, max_overlap, sec, utc


class Boom(Exception):
    pass


class Places:
    """Online: no worker has a free place for longer than it may while messages
    wait to be delivered."""

    def __init__(self, c, sim, limits):
        self.c, self.sim, self.limits = c, sim, limits
        self.since = {}
        self.polling = set()
        self.worst = 0.0
        self.filled = 0
        self.last = None
        sim.command_hooks.append(self.on)

    def on(self, proc, name, args, kwargs, result):
        if proc.name in self.limits and name == "xreadgroup":
            self.polling.add(proc.name)
        self.look()

    def look(self):
        call, now = self.sim.server.call, self.sim.now()
        try:
            n = call("xlen", (b"dk:stream",), {})
            pending = call("xpending", (b"dk:stream", b"docket-workers"), {}) if n else None
        except Exception:
            return
        held = {}
        if pending and pending.get("consumers"):
            for x in pending["consumers"]:
                held[x["name"].decode() if isinstance(x["name"], bytes) else x["name"]] = int(x["pending"])
        waiting = n - sum(held.values())
        for w, (conc, limit) in self.limits.items():
            if w not in self.polling:
                continue
            if waiting > 0 and held.get(w, 0) < conc:
                since = self.since.setdefault(w, now)
                self.worst = max(self.worst, now - since)
                self.c.check(now - since <= limit, "idle", lambda: f"{w} has held {held.get(w, 0)} of {conc} for {now - since:.3f} s (allowed {limit:.3f}) while {waiting} waited, at {now:.3f}")
                if now - since > limit:
                    self.since[w] = now + 1e9
            else:
                if w in self.since:
                    del self.since[w]
                    self.filled += 1

    def drop(self, w):
        self.limits.pop(w, None)
        self.since.pop(w, None)


def mixed(c):
    r = c.rng
    lat = r.choice([0.0005, 0.002, 0.006])
    sim = c.sim(lat_max=lat)
    nw = r.choice([1, 1, 2, 3])
    concs = [r.choice([1, 1, 2, 3, 4, 5, 10]) for _ in range(nw)]
    interval = r.choice([0.05, 0.2, 0.5])
    redel = r.choice([1.0, 3.0])
    crash = nw > 1 and r.random() < 0.5

    async def main(sim):
        from docket import ConcurrencyLimit, Cooldown, Depends, RateLimit, Retry, Timeout
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), minimum_check_interval=sec(interval), scheduling_resolution=sec(0.05)))

        async def run(tag, dur, how="ok"):
            async with w.running(tag):
                await asyncio.sleep(dur)
                if how == "fail":
                    raise Boom(tag)

        async def plain(tag: str, dur: float, how: str):
            await run(tag, dur, how)

        async def retried(tag: str, dur: float, how: str, retry: Retry = Retry(attempts=3)):
            await run(tag, dur, how)

        async def timed(tag: str, dur: float, how: str, timeout: Timeout = Timeout(sec(0.25))):
            await run(tag, dur, how)

        async def limited(tag: str, dur: float, how: str, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=2)):
            await run(tag, dur, how)

        async def rated(tag: str, dur: float, how: str, limit: RateLimit = RateLimit(2, per=sec(0.3))):
            await run(tag, dur, how)

        async def cooled(tag: str, dur: float, how: str, limit: Cooldown = Cooldown(sec(0.2))):
            await run(tag, dur, how)

        async def bad():
            raise Boom("dependency")

        async def slow():
            await asyncio.sleep(0.3)

        async def broken(tag: str, dur: float, how: str, x=Depends(bad)):
            await run(tag, dur, how)

        async def preparing(tag: str, dur: float, how: str, x=Depends(slow)):
            await run(tag, dur, how)
        fns = [plain, plain, plain, retried, timed, limited, rated, cooled, broken, preparing]
        w.tasks += [*dict.fromkeys(fns)]
        # fetching, then two look-ups per message, one after the other
        slack = {f"w{j}": 0.05 + 8 * lat * (2 + 2 * concs[j]) for j in range(nw)}
        places = Places(c, sim, {f"w{j}": (concs[j], interval + slack[f"w{j}"]) for j in range(nw)})
        weights = r.choice([[fns[0]], fns, [plain, limited], [plain, retried, broken], fns])
        durs = r.choice([[0], [0.01, 1.0], [0, 0.02, 0.3, 1.5], [0.6]])
        async with w.client() as d:
            n = r.choice([5, 20, 60]) if not c.thorough else r.choice([5, 20, 60, 150])
            before = r.random() < 0.5

            async def submit():
                for j in range(n):
                    f = r.choice(weights)
                    kw = dict(key=f"t{j}")
                    if r.random() < 0.3:
                        kw["when"] = utc(sim.wallclock() + r.choice([0.2, 1.0]))
                    await d.add(f, **kw)(f"t{j}", r.choice(durs), r.choice(["ok", "ok", "fail"]))
                    if r.random() < 0.1:
                        await asyncio.sleep(r.choice([0.1, 0.5]))
            if before:
                await submit()
            for j in range(nw):
                await w.start_worker(f"w{j}", restart=None, concurrency=concs[j])
            s = asyncio.ensure_future(submit()) if not before else None
            if crash:
                k = r.randrange(nw)
                await w.until(lambda: [e for e in w.events("start") if e.proc == f"w{k}"], 3)
                await asyncio.sleep(r.uniform(0, 1))
                places.drop(f"w{k}")
                w.kill_worker(f"w{k}")
            if s:
                await s
            t0 = sim.now()
            ok = await w.drained(d, 60 + n)
            c.check(ok, "not-drained", lambda: f"{sim.now() - t0} s later {[t for t in range(n) if not w.ends(f't{t}')]}")
        for j in range(nw):
            places.drop(f"w{j}")
            if not (crash and j == k):
                await w.stop_worker(f"w{j}", 10)
        most = 0
        for j in range(nw):
            ivs = [x for x in intervals(w) if x[2].proc == f"w{j}"]
            m = max_overlap(ivs)[0]
            most = max(most, m / concs[j])
            c.check(m <= concs[j], "overcommitted", lambda: f"w{j} ran {m} tasks at once, its concurrency is {concs[j]}")
            c.count("judged_runs", len(ivs))
            c.count("full", m == concs[j])
        c.count("filled", places.filled)
        c.nontrivial = places.filled > 3 and most == 1
        c.sample = f"{nw} workers of concurrency {concs}, {n} tasks, polling every {interval} s: {places.filled} times a free place was filled, at worst after {places.worst:.3f} s"

    c.run(sim, main)


def takeover(c):
    """Redeliveries and new deliveries at once."""
    r = c.rng
    sim = c.sim(lat_max=0.001)
    conc = r.choice([2, 3, 5, 8])
    interval = 0.1

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(1.0), concurrency=conc, minimum_check_interval=sec(interval), scheduling_resolution=sec(0.05)))

        async def plain(tag: str, dur: float):
            async with w.running(tag):
                await asyncio.sleep(dur)
        w.tasks.append(plain)
        async with w.client() as d:
            await w.start_worker("w0", restart=None)
            held = r.randint(1, conc)
            for j in range(held):
                await d.add(plain, key=f"h{j}")(f"h{j}", 1.0)
            await w.until(lambda: all(w.starts(f"h{j}") for j in range(held)), 2)
            w.kill_worker("w0")
            await asyncio.sleep(r.choice([1.05, 1.5]))
            n = r.randint(1, 3 * conc)
            for j in range(n):
                await d.add(plain, key=f"t{j}")(f"t{j}", r.choice([0.3, 1.0]))
            # now both are due
            places = Places(c, sim, {"w1": (conc, interval + 0.05 + 0.02 * conc)})
            t0 = sim.now()
            await w.start_worker("w1", restart=None)
            c.check(await w.drained(d, 30 + n), "not-drained", "")
            took = sim.now() - t0
            places.drop("w1")
        await w.stop_worker("w1", 10)
        ivs = [x for x in intervals(w) if x[2].proc == "w1"]
        m = max_overlap(ivs)[0]
        c.check(m <= conc, "overcommitted", lambda: f"w1 ran {m} tasks at once, its concurrency is {conc}")
        c.check(m == min(conc, n + held), "idle", lambda: f"w1 ran at most {m} of {n + held} ready tasks at once, its concurrency is {conc}")
        c.check(took <= math.ceil((n + held) / conc) * (1.0 + interval + 0.3) + 1.6, "idle", lambda: f"{n}+{held} tasks of at most 1 s, {conc} at once, took {took} s")
        c.count("judged_runs", len(ivs))
        c.count("takeovers")
        c.count("full", m == conc)
        c.count("filled", places.filled)
        c.nontrivial = n + held > conc
        c.sample = f"{held} tasks of a dead worker and {n} new ones on one of concurrency {conc}: at most {m} at once"

    c.run(sim, main)


GENERATORS = [(mixed, 3), (takeover, 1)]
