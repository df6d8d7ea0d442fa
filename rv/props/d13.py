"""D13: a concurrency limit is never exceeded."""
import asyncio
from typing import Annotated

from rv.world import World, fault_after_delivery, intervals, max_overlap, sec, utc


def tasks(w, limit):
    """Return {name: (function, group function)} for every way to declare a limit."""
    from docket import ConcurrencyLimit, Retry, Timeout

    async def body(tag, g, dur, how, attempt=1):
        async with w.running(tag, g=g):
            try:
                await asyncio.sleep(dur)
            except asyncio.CancelledError:
                if how == "slowcancel":
                    await asyncio.sleep(0.3)
                raise
            if how == "fail" or (how == "retry" and attempt < 3):
                raise ValueError(how)

    async def whole(tag: str, v: int, dur: float, how: str,
                    lim: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=limit)):
        await body(tag, "whole", dur, how)

    async def by_arg(tag: str, v: int, dur: float, how: str,
                     lim: ConcurrencyLimit = ConcurrencyLimit("v", limit)):
        await body(tag, f"v{v}", dur, how)

    async def annotated(tag: str, u: Annotated[int, ConcurrencyLimit(limit)], dur: float, how: str):
        await body(tag, f"u{u}", dur, how)

    async def scoped(tag: str, v: int, dur: float, how: str,
                     lim: ConcurrencyLimit = ConcurrencyLimit("v", limit, scope="sc")):
        await body(tag, f"sc{v}", dur, how)

    async def retrying(tag: str, v: int, dur: float, how: str,
                       lim: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=limit),
                       retry: Retry = Retry(attempts=3, delay=sec(0.1))):
        await body(tag, "retrying", dur, how, retry.attempt)

    async def timed(tag: str, v: int, dur: float, how: str,
                    lim: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=limit),
                    timeout: Timeout = Timeout(sec(0.8))):
        await body(tag, "timed", dur, how)
    fns = [whole, by_arg, annotated, scoped, retrying, timed]
    w.tasks += fns
    return {f.__name__: f for f in fns}


def check_limit(c, w, sim, limit):
    groups = {e.g for e in w.events("start")}
    for g in groups:
        iv = intervals(w, g=g)
        n, at = max_overlap(iv)
        c.check(n <= limit, "limit-exceeded", lambda: f"group {g}: {n} running at {at.t - sim.epoch:.4f} with a limit of {limit}: "
                + "; ".join(f"{e.tag} on {e.proc} {a-sim.epoch:.4f}..{b-sim.epoch:.4f}" for a, b, e in iv if a <= at.t <= b))
        if n == limit:
            c.count("groups_at_limit")
    return groups


def load(c, faults):
    r = c.rng
    limit = r.choice([1, 1, 2, 3])
    redel = r.choice([0.8, 1.5, 3.0])
    sim = c.sim(lat_max=r.choice([0.002, 0.02, 0.05]))
    names = r.sample(["whole", "by_arg", "annotated", "scoped", "retrying", "timed"], r.randint(1, 3))
    long_p = r.choice([0, 0.1])

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([3, 10])))
        fns = tasks(w, limit)
        horizon = sim.now() + 8

        def setup(proc, gen):
            if not faults or sim.now() > horizon:
                return
            if r.random() < 0.6:
                fault_after_delivery(sim, proc, r.randint(1, 30), "crash-" + r.choice(["before", "after"]), nth=r.randint(1, 4))

        for i in range(r.randint(2, 4)):
            await w.start_worker(f"w{i}", setup=setup, wait=False, restart=r.choice([0.05, 0.5, 2]))
        async with w.client() as d:
            keys = []
            n = r.randint(10, 26)
            for i in range(n):
                f = fns[r.choice(names)]
                how = r.choice(["ok", "ok", "fail", "retry", "slowcancel"])
                dur = redel * r.choice([1.5, 5.5]) if r.random() < long_p else r.choice([0, 0.05, 0.2, 0.5, 1.2])
                when = None if r.random() < 0.7 else utc(sim.wallclock() + r.uniform(0, 2))
                key = f"k{i}"
                keys.append(key)
                await d.add(f, when=when, key=key)(key, r.choice([1, 2]), dur, how)
                if r.random() < 0.3:
                    await asyncio.sleep(r.uniform(0, 0.5))
                if r.random() < 0.2:
                    async def later(k=r.choice(keys), t=r.uniform(0, 2)):
                        await asyncio.sleep(t)
                        await d.cancel(k)
                    asyncio.ensure_future(later())
                if r.random() < 0.1:
                    k = r.choice(keys)
                    await d.replace(f, when=utc(sim.wallclock() + r.choice([0, 0.3])), key=k)(k, r.choice([1, 2]), dur, how)
            await w.drained(d, 20 + 12 * redel)
            await asyncio.sleep(1)
        groups = check_limit(c, w, sim, limit)
        c.nontrivial = bool(c.stats["groups_at_limit"])
        c.sample = f"limit {limit}, {names}, redelivery {redel}s, {n} tasks, groups {sorted(groups)}, faults={faults}"
    c.run(sim, main)


def calm(c):
    load(c, False)


def crashes(c):
    load(c, True)


def independent(c):
    """Different values and scopes do not limit each other."""
    r = c.rng
    limit = r.choice([1, 2])
    sim = c.sim()

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=30))
        fns = tasks(w, limit)
        await w.start_worker("w0")
        await w.start_worker("w1")
        names = ["whole", "by_arg", "annotated", "scoped"]
        async with w.client() as d:
            t0 = sim.now()
            for nm in names:
                for v in ([0] if nm == "whole" else [1, 2, 3]):
                    for i in range(limit):
                        tag = f"{nm}-{v}-{i}"
                        if nm == "annotated" and r.random() < 0.5:
                            await d.add(fns[nm], key=tag)(tag=tag, u=v, dur=5, how="ok")
                        else:
                            await d.add(fns[nm], key=tag)(tag, v, 5, "ok")
            await asyncio.sleep(3)
            want = limit * 10
            got = len(w.events("start"))
            c.check(got == want, "cross-limited", lambda: f"{got} of {want} independent tasks are running after 3 s; missing: {[(nm, v, i) for nm in names for v in ([0] if nm=='whole' else [1,2,3]) for i in range(limit) if not w.starts(f'{nm}-{v}-{i}')]}")
            await asyncio.sleep(4)
        check_limit(c, w, sim, limit)
        c.nontrivial = True
        c.sample = f"{want} independent tasks, limit {limit} each, run at once"
    c.run(sim, main)


GENERATORS = [(calm, 4), (crashes, 4), (independent, 1)]
