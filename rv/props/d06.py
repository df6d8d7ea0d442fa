"""D06: without crashes every attempt of every task runs exactly once."""
import asyncio

from rv.world import World, intervals, max_overlap, sec, utc


def make(w):
    from docket import ConcurrencyLimit, Perpetual, Retry, Timeout

    async def plain(tag: str, dur: float):
        async with w.running((tag, 1), key=tag):
            await asyncio.sleep(dur)

    async def busy(tag: str, dur: float):
        """Finishes in many small steps."""
        async with w.running((tag, 1), key=tag):
            for _ in range(20):
                await asyncio.sleep(dur / 20)

    async def flaky(tag: str, dur: float, fails: int, retry: Retry = Retry(attempts=4, delay=sec(0.2))):
        async with w.running((tag, retry.attempt), key=tag):
            await asyncio.sleep(dur)
            if retry.attempt <= fails:
                raise ValueError(tag)

    async def chain(tag: str, dur: float, left: int, p: Perpetual = Perpetual(every=sec(0.3))):
        async with w.running((tag, left), key=tag):
            await asyncio.sleep(dur)
            p.perpetuate(tag, dur, left - 1)
            if left <= 1:
                p.cancel()

    async def limited(tag: str, dur: float, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=2)):
        async with w.running((tag, 1), key=tag):
            await asyncio.sleep(dur)

    async def timed(tag: str, dur: float, t: Timeout = Timeout(sec(30))):
        async with w.running((tag, 1), key=tag):
            await asyncio.sleep(dur)
    fns = dict(plain=plain, busy=busy, flaky=flaky, chain=chain, limited=limited, timed=timed)
    w.tasks += list(fns.values())
    return fns


def _run(c, rolling):
    r = c.rng
    redel = r.choice([0.6, 1.0, 2.0, 4.0])
    sim = c.sim(lat_max=r.choice([0.003, 0.015]), spike_p=r.choice([0, 0.02]), spike_max=redel / 6)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([1, 2, 4, 10]),
                                         minimum_check_interval=sec(r.choice([0.02, 0.2])), scheduling_resolution=sec(r.choice([0.02, 0.2]))))
        fns = make(w)
        nw = r.randint(1, 4)
        for i in range(nw):
            await w.start_worker(f"w{i}", wait=False)
        expect = {}
        async with w.client() as d:
            async def adder(j):
                for i in range(r.randint(4, 9)):
                    key = f"k{j}.{i}"
                    kind = r.choice(list(fns))
                    long = r.random() < 0.3
                    dur = r.uniform(1.2, 4) * redel if long else r.choice([0, 0.001, 0.02, 0.3])
                    when = None if r.random() < 0.6 else utc(sim.wallclock() + r.uniform(-1, 3))
                    if kind == "flaky":
                        f = r.randint(0, 4)
                        args, want = (key, dur, f), list(range(1, min(f, 3) + 2))
                    elif kind == "chain":
                        n = r.randint(1, 4)
                        args, want = (key, dur, n), list(range(1, n + 1))
                    else:
                        args, want = (key, dur), [1]
                    expect[key] = (kind, dur, want)
                    await d.add(fns[kind], when=when, key=key)(*args)
                    await asyncio.sleep(r.choice([0, 0, 0.01, 0.3]))
            adders = asyncio.gather(*[adder(j) for j in range(r.randint(1, 3))])
            gens = 0
            if rolling:
                # rolling restarts: workers are asked to stop and replaced
                for _ in range(r.randint(2, 6)):
                    await asyncio.sleep(r.uniform(0, 1.5))
                    name = r.choice([n for n, h in w.workers.items() if not h.stop_requested])
                    gens += 1
                    if r.random() < 0.6:
                        await w.start_worker(f"x{gens}", wait=False)
                    w.workers[name].stop_requested = True
                    asyncio.ensure_future(w.stop_worker(name))
                    if not any(not h.stop_requested for h in w.workers.values()):
                        await asyncio.sleep(r.uniform(0, 1))
                        await w.start_worker(f"y{gens}", wait=False)
                    c.count("stops")
            await adders
            total = sum(d_[1] * len(d_[2]) + 0.5 for d_ in expect.values())
            ok = await w.drained(d, total + 8 * redel + 15)
            await asyncio.sleep(3 * redel)

            def hist(key):
                return [(e.kind, e.tag[1], e.get("outcome"), e.proc, round(e.t - sim.epoch, 3)) for e in sim.events if e.get("key") == key] + \
                    [(e.kind, e.get("worker"), round(e.t - sim.epoch, 3)) for e in sim.events if e.kind in ("stop_requested", "worker_gone")][:8]
            c.check(ok, "not-finished", lambda: f"still outstanding: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            for key, (kind, dur, want) in expect.items():
                for n in want:
                    st = w.starts((key, n))
                    c.check(len(st) == 1, "not-once", lambda: f"{key} ({kind}, {dur:.2f}s, redelivery {redel}s) run {n} of {want} was executed {len(st)} times; {hist(key)}")
                extra = {e.tag for e in w.events("start", key=key)} - {(key, n) for n in want}
                c.check(not extra, "not-once", lambda: f"{key} ({kind}) also ran {extra}; {hist(key)}")
                n, at = max_overlap(intervals(w, key=key))
                c.check(n <= 1, "parallel", lambda: f"{key} ran twice at a time; {hist(key)}")
                if dur > redel:
                    c.count("long_tasks")
            c.check(not w.unexpected_worker_exits(), "worker-died", lambda: f"{w.unexpected_worker_exits()[:1]}")
            for h in w.workers.values():
                if h.stop_requested:
                    c.check(h.done.is_set(), "never-stopped", lambda: f"worker {h.name} was asked to stop and is still running")
        c.nontrivial = nw > 1 or rolling
        c.sample = f"{nw} workers, redelivery {redel}s, {len(expect)} tasks, {c.stats['stops']} graceful stops, {c.stats['long_tasks']} long tasks"
    c.run(sim, main)


def steady(c):
    _run(c, False)


def rolling(c):
    _run(c, True)


def wide(c):
    """Workers holding many long tasks at once keep hold of every one."""
    r = c.rng
    redel = r.choice([0.6, 1.0, 2.0])
    conc = r.choice([12, 30, 70, 130])
    sim = c.sim(lat_max=0.003)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=conc,
                                         minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))

        async def long(tag: int, dur: float):
            async with w.running(tag):
                await asyncio.sleep(dur)
        w.tasks.append(long)
        nw = r.randint(1, 3)
        await w.start_worker("w0")
        n = int(conc * r.uniform(0.8, 1.4))
        async with w.client() as d:
            durs = [r.uniform(1.2, 3) * redel for _ in range(n)]
            for i in range(0, n, 20):
                await asyncio.gather(*[d.add(long, key=f"k{j}")(j, durs[j]) for j in range(i, min(i + 20, n))])
            # others that would gladly take what isn't held
            for i in range(1, nw):
                await w.start_worker(f"w{i}", wait=False)
            if r.random() < 0.3:
                await asyncio.sleep(r.uniform(0, redel))
                w.workers["w0"].stop_requested = True
                asyncio.ensure_future(w.stop_worker("w0"))
                await w.start_worker("x0", wait=False)
            ok = await w.drained(d, 8 * redel + 15)
            await asyncio.sleep(2 * redel)
            c.check(ok, "not-finished", lambda: f"still outstanding: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            for i in range(n):
                st = w.starts(i)
                c.check(len(st) == 1, "not-once", lambda: f"task {i} of {n} ({durs[i]:.2f}s, redelivery {redel}s, concurrency {conc}, {nw} workers) ran {len(st)} times: {[(round(e.t - sim.epoch, 3), e.proc) for e in st]}")
            c.count("long_tasks", n)
        c.nontrivial = True
        c.sample = f"wide: {n} long tasks, concurrency {conc}, {nw} workers, redelivery {redel}"
    c.run(sim, main)


GENERATORS = [(steady, 4), (rolling, 6), (wide, 1)]
