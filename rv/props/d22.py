"""D22: nothing is left of finished work, and nothing outstanding expires."""
import asyncio
import re
from typing import Annotated

from rv.world import World, sec, utc

PERMANENT = re.compile(r"^dk:(stream|strikes|queue|workers|worker-tasks:.*|task-workers:.*)$")


def define(w, plan):
    from docket import ConcurrencyLimit, Cooldown, Debounce, Perpetual, Progress, RateLimit, Retry, Timeout

    async def body(tag, n=1):
        p = plan[tag]
        async with w.running(tag, attempt=n, token=p.get("token")):
            await asyncio.sleep(p["dur"])
            if n <= p.get("fails", 0):
                raise ValueError(tag)
        return (tag, "x" * p.get("size", 1))

    async def plain(tag: str, progress: Progress = Progress()):
        await progress.increment(3)
        r = await body(tag)
        await progress.set_message("nearly")
        return r

    async def nothing(tag: str):
        await body(tag)

    async def retried(tag: str, retry: Retry = Retry(attempts=3, delay=sec(0.3))):
        return await body(tag, retry.attempt)

    async def at_once(tag: str, progress: Progress = Progress(), retry: Retry = Retry(attempts=3)):
        await progress.set_total(7)
        return await body(tag, retry.attempt)

    async def timed(tag: str, progress: Progress = Progress(), timeout: Timeout = Timeout(sec(0.2))):
        await progress.increment()
        return await body(tag)

    async def chain(tag: str, n: int = 1, perpetual: Perpetual = Perpetual(every=sec(0.3))):
        if n >= plan[tag].get("rounds", 2):
            perpetual.cancel()
        perpetual.perpetuate(tag, n + 1)
        return await body(tag, n)

    async def limited(tag: str, who: str, progress: Progress = Progress(), limit: ConcurrencyLimit = ConcurrencyLimit("who", max_concurrent=1)):
        await progress.increment()
        return await body(tag)

    async def global_limit(tag: str, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=2)):
        return await body(tag)

    async def rated(tag: str, rate: RateLimit = RateLimit(2, per=sec(0.5))):
        return await body(tag)

    async def rate_drop(tag: str, who: Annotated[str, RateLimit(1, per=sec(0.5), drop=True)]):
        return await body(tag)

    async def cool(tag: str, who: Annotated[str, Cooldown(sec(0.6))]):
        return await body(tag)

    async def settled(tag: str, deb: Debounce = Debounce(sec(0.3))):
        return await body(tag)

    async def both(tag: str, who: str, cd: Cooldown = Cooldown(sec(0.4)), limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
        return await body(tag)
    fns = {f.__name__: f for f in (plain, nothing, retried, at_once, timed, chain, limited, global_limit, rated, rate_drop, cool, settled, both)}
    w.tasks += list(fns.values())
    return fns


WHO = {"limited", "rate_drop", "cool", "both"}


def aftermath(c):
    r = c.rng
    lat = r.choice([0.001, 0.004])
    sim = c.sim(lat_max=lat)
    crashes = r.random() < 0.25
    ttl = r.choice([1, 2, 5])

    async def main(sim):
        plan = {}
        w = World(c, sim, docket_kw=dict(execution_ttl=sec(ttl)),
                  worker_kw=dict(redelivery_timeout=sec(1.0), concurrency=r.choice([2, 10]), minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05), schedule_automatic_tasks=r.random() < 0.5))
        fns = define(w, plan)
        some = set(r.sample(sorted(fns), r.randint(2, 7)))
        unknown = r.random() < 0.3

        def setup(proc, gen):
            if crashes and sim.now() < 4 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(20, 200), r.choice(["before", "after"]))
        nw = r.randint(1, 3)
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=False)
        strikes = r.random() < 0.4


        async def stranger(tag: str): ...
        async with w.client() as d, w.client(tasks=[*w.tasks, stranger]) as e:
            if strikes:
                await d.strike("plain", "tag", "==", "k1")
                await d.strike("chain")
                if r.random() < 0.5:
                    await d.restore("chain")
            n = r.choice([4, 10, 25])
            keys = [f"k{j}" for j in range(n)]
            for k in keys:
                plan[k] = dict(dur=r.choice([0, 0, 0.05, 0.5]), fails=r.choice([0, 0, 1, 5]), rounds=r.randint(1, 3), size=r.choice([1, 2000]))
            jobs = []

            async def act(d, k):
                x = r.random()
                name = r.choice(sorted(some))
                args = (k, r.choice("ab")) if name in WHO else (k,)
                when = r.choice([None, None, -1, 0.05, 0.4, 1.5])
                when = None if when is None else utc(sim.wallclock() + when)
                if x < 0.5:
                    await d.add(fns[name], when=when, key=k)(*args)
                    c.count("added")
                elif x < 0.7:
                    await d.replace(fns[name], when or utc(sim.wallclock()), k)(*args)
                    c.count("replaced")
                elif x < 0.85:
                    await d.cancel(k)
                    c.count("cancelled")
                elif x < 0.88:
                    c.count("cleared", await d.clear())
                elif x < 0.92 and unknown:
                    await e.add(stranger, when=when, key=k)(k)
                    c.count("unknown_tasks")
                elif x < 0.94 and name != "chain":
                    await d.add(fns[name], when=when, key=k)("misfit", 1, 2, 3, 4)
                else:
                    ex = await d.get_execution(k)
                    if ex is not None:
                        async def wait():
                            try:
                                await ex.get_result(timeout=sec(r.choice([0.2, 2])))
                            except Exception:
                                pass
                        jobs.append(asyncio.ensure_future(wait()))
                        if r.random() < 0.5:
                            async def listen():
                                async for _ in ex.subscribe():
                                    pass
                            t = asyncio.ensure_future(listen())
                            asyncio.get_running_loop().call_later(r.uniform(0, 2), t.cancel)
            for _ in range(r.randint(n, 4 * n)):
                await act(r.choice([d, e]), r.choice(keys))
                await asyncio.sleep(r.choice([0, 0, 0.01, 0.1]))
            ok = await w.drained(d, 90)
            c.check(ok, "not-finished", lambda: f"{sorted(w.raw_keys())[:12]}")
            for j in jobs:
                await asyncio.wait({j})
            rest = r.random() < 0.5
            if rest:
                for i in range(nw):
                    await w.stop_worker(f"w{i}", 30)
            await asyncio.sleep(ttl + 14)
            left = sorted(k for k in w.raw_keys() if not PERMANENT.match(k))
            full = lambda: f"{left}; " + "; ".join(f"{k}: {_dump(sim, k)}" for k in left[:5]) + "; " + str([(x.kind, x.get('tag'), x.get('attempt'), round(x.t - sim.epoch, 3)) for x in sim.events if any(k.endswith(str(x.get('tag'))) for k in left)][:12])
            c.check(not left, "left-behind", full)
            if not strikes:
                c.check("dk:strikes" not in w.raw_keys(), "left-behind", "a strike list without strikes")
            if "dk:queue" in w.raw_keys():
                k = sim.server.call("zrange", ("dk:queue", 0, -1))
                c.check(not k, "queue-left", lambda: f"{k}")
            if "dk:stream" in w.raw_keys():
                k = sim.server.call("xlen", ("dk:stream",))
                c.check(k == 0, "messages-left", lambda: f"{k} messages: {sim.server.call('xrange', ('dk:stream',))}")
                pend = sim.server.call("xpending", ("dk:stream", "docket-workers"))
                cnt = pend["pending"] if isinstance(pend, dict) else pend[0]
                # (a crashed worker's claim to a message that has been deleted since goes
                # with the next XAUTOCLAIM of a real server, the in-memory one keeps it)
                c.check(cnt == 0 or crashes, "pending-left", lambda: f"{pend}")
            if rest and not crashes:
                # (the in-memory store keeps sorted sets that have become empty)
                left = [k for k in w.raw_keys() if k not in ("dk:stream", "dk:strikes", "dk:queue") and (not re.match("dk:(workers$|task-workers:)", k) or sim.server.call("zcard", (k,)))]
                c.check(not left, "workers-left", lambda: f"all workers have stopped: {left}")
            if strikes:
                k = sim.server.call("xlen", ("dk:strikes",))
                c.check(k in (2, 3), "strikes", f"{k}")
            c.count("finished", len({(x.tag, x.run) for x in w.events("end")}))
        c.nontrivial = c.stats["finished"] > 3
        c.sample = f"{n} keys, {nw} workers, ttl {ttl}s, crashes={crashes}, tasks {sorted(some)}; {dict(c.stats)}"
    c.run(sim, main)


def _dump(sim, k):
    for cmd in ("hgetall", "zrange", "xrange", "get", "smembers"):
        try:
            return sim.server.call(cmd, (k, 0, -1) if cmd == "zrange" else (k,))
        except Exception:
            pass
    return "?"


def patience(c):
    """Nothing that is outstanding expires, whatever the key has been used for."""
    r = c.rng
    sim = c.sim(lat_max=0.002)
    ttl = r.choice([1, 1, 2])
    far = r.random() < 0.5        # nobody works during the wait

    async def main(sim):
        plan = {}
        w = World(c, sim, docket_kw=dict(execution_ttl=sec(ttl)),
                  worker_kw=dict(redelivery_timeout=sec(3.0), concurrency=30, minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))
        fns = define(w, plan)
        from docket import Retry

        async def late_retry(tag: str, retry: Retry = Retry(attempts=2, delay=sec(ttl + 4))):
            async with w.running(tag, attempt=retry.attempt, token=plan[tag]["token"]):
                if retry.attempt == 1:
                    raise ValueError(tag)
            return tag
        w.tasks.append(late_retry)
        await w.start_worker("w0", restart=0.1)
        if r.random() < 0.4:
            await w.start_worker("w1", restart=0.1)
        async with w.client() as d:
            struck = r.random() < 0.3
            if struck:
                await d.strike("nothing", "tag", "==", "struck")
            keys = [f"k{j}" for j in range(r.randint(2, 8))]
            final = {}

            async def live(k):
                plan[k] = dict(dur=0, fails=0, rounds=2, token="old")
                # earlier lives of the key
                for _ in range(r.randint(0, 3)):
                    how = r.choice(["complete", "fail", "cancel", "clear-ish", "replace", "retry", "running-replace"])
                    plan[k].update(dur=0, fails=0)
                    if how == "complete":
                        ex = await d.add(fns["plain"], key=k)(k)
                        await _over(ex)
                    elif how == "fail":
                        plan[k]["fails"] = 1
                        ex = await d.add(fns["plain"], key=k)(k)
                        await _over(ex)
                    elif how == "cancel":
                        await d.add(fns["plain"], key=k, when=utc(sim.wallclock() + r.choice([0, 30])))(k)
                        await d.cancel(k)
                    elif how == "replace":
                        await d.add(fns["plain"], key=k, when=utc(sim.wallclock() + 20))(k)
                        ex = await d.replace(fns["plain"], utc(sim.wallclock() + r.choice([0, 0.2])), k)(k)
                        await _over(ex)
                    elif how == "retry":
                        plan[k]["fails"] = r.choice([1, 3])
                        ex = await d.add(fns["retried"], key=k)(k)
                        await _over(ex)
                    elif how == "running-replace":
                        plan[k]["dur"] = 0.4
                        await d.add(fns["plain"], key=k)(k)
                        await asyncio.sleep(0.2)
                        c.count("running_replaced")
                        break
                    await asyncio.sleep(r.choice([0, 0.01, 0.3, ttl - 0.2, ttl + 0.3]))
                    c.count("lives")
                plan[k].update(token="new", fails=0, dur=0.05)
                wait = r.choice([300, 5000, 10 ** 6]) if far else ttl + r.choice([2, 6, 15])
                t = sim.wallclock() + wait
                what = r.choice(["wait", "wait", "replace-wait", "long", "late-retry"]) if not far else r.choice(["wait", "replace-wait"])
                if plan[k]["dur"] and how_running(k):
                    what = "replace-wait"
                plan[k]["what"] = what
                if what == "wait":
                    for _ in range(60):
                        ex = await d.add(fns["plain"], key=k, when=utc(t))(k)
                        if ex.when is not None and abs(ex.when.timestamp() - t) < 1e-3:
                            got = await d.get_execution(k)
                            if got and abs(got.when.timestamp() - t) < 1e-3 and got.state.value == "scheduled":
                                break
                        await asyncio.sleep(0.1)
                elif what == "replace-wait":
                    await d.replace(fns["plain"], utc(t), k)(k)
                elif what == "long":
                    plan[k]["dur"] = wait
                    await _again(d, fns["plain"], k)
                elif what == "late-retry":
                    await _again(d, late_retry, k)
                final[k] = t

            def how_running(k):
                return any(e.tag == k for e in w.events("start")) and len(w.starts(k)) > len(w.ends(k))
            await asyncio.gather(*(live(k) for k in keys))
            if far:
                await w.stop_worker("w0", 20)
                if "w1" in w.workers:
                    await w.stop_worker("w1", 20)
            last = max(final.values())
            mark = sim.wallclock()
            # look every now and then
            for _ in range(6):
                await asyncio.sleep(max(0.1, (last - mark) / 7))
                for k in keys:
                    if sim.wallclock() < final[k] - 0.5 and plan[k]["what"] != "late-retry":
                        ex = await d.get_execution(k)
                        want = "running" if plan[k]["what"] == "long" else "scheduled"
                        c.count("peeks")
                        c.check(ex is not None and ex.state.value == want, "expired", lambda: f"{k} ({plan[k]}) is {want}, and reported {ex and ex.state}; ttl {ttl}; now {sim.wallclock() - sim.epoch:.2f}, due {final[k] - sim.epoch:.2f}; {[(e.kind, e.token, round(e.t - sim.epoch, 3)) for e in sim.events if e.get('tag') == k]}")
            if far:
                await asyncio.sleep(max(0, last - sim.wallclock()) + 0.5)
                await w.start_worker("w9", restart=0.1)
            await asyncio.sleep(max(0, last - sim.wallclock()))
            ok = await w.drained(d, 40)
            c.check(ok, "not-finished", lambda: f"{sorted(w.raw_keys())[:12]}")
            await asyncio.sleep(0.3)
            for k in keys:
                hist = lambda: f"{k} {plan[k]}: {[(e.kind, e.get('attempt'), e.token, round(e.t - sim.epoch, 3)) for e in sim.events if e.get('tag') == k and e.kind in ('start', 'end')]}, due {final[k] - sim.epoch:.3f}, ttl {ttl}"
                runs = [e for e in w.ends(k, "ok") if e.token == "new" and e.t >= final[k] - (0 if plan[k]["what"] != "late-retry" else 100)]
                c.check(len(runs) == 1, "lost", hist)
            if struck:
                plan["struck"] = dict(dur=0)
                await d.add(fns["nothing"], key="struck")("struck")
                await asyncio.sleep(0.5)
                c.check(not w.starts("struck"), "strike-expired", "")
            await asyncio.sleep(ttl + 12)
            left = sorted(k for k in w.raw_keys() if not PERMANENT.match(k))
            c.check(not left, "left-behind", lambda: f"{left}")
        c.nontrivial = c.stats["peeks"] > 0
        c.sample = f"{len(keys)} keys, ttl {ttl}s, nobody at work={far}: {[(k, plan[k]['what'], round(final[k] - sim.epoch, 1)) for k in keys]}"

    async def _over(ex):
        try:
            await ex.get_result(timeout=sec(15))
        except Exception:
            pass

    async def _again(d, fn, k):
        for _ in range(100):
            ex = await d.get_execution(k)
            if ex is None or ex.state.value in ("completed", "failed", "cancelled"):
                await d.add(fn, key=k)(k)
                return
            await asyncio.sleep(0.1)
    c.run(sim, main)


GENERATORS = [(aftermath, 2), (patience, 1)]
