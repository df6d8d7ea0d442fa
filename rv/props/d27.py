"""D27: workers ride out outages of the store."""
import asyncio
from collections import Counter

from rv.world import World, max_overlap, sec, utc


def outages(c):
    """Outages while tasks sleep or the worker idles; then everything works again."""
    r = c.rng
    lat = r.choice([0.001, 0.004])
    sim = c.sim(lat_max=lat)
    reconn = r.choice([0.1, 0.5, 1.0])
    redel = r.choice([2.0, 4.0])
    nw = r.choice([1, 1, 1, 2])
    conc = r.choice([2, 4])
    every = 0.4

    async def main(sim):
        from docket import ConcurrencyLimit, Perpetual
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=conc, reconnection_delay=sec(reconn)))
        go = {}
        tasks = set()

        async def sleeper(tag: str):
            async with w.running(tag):
                await go.setdefault(tag, asyncio.Event()).wait()

        async def quick(tag: str):
            async with w.running(tag):
                pass

        async def struck(tag: str):
            async with w.running(tag):
                pass

        async def struck_before(tag: str):
            async with w.running(tag):
                pass

        async def limited(tag: str, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            async with w.running(tag):
                await go.setdefault(tag, asyncio.Event()).wait()

        async def auto(perpetual: Perpetual = Perpetual(every=sec(every), automatic=True)):
            async with w.running("auto"):
                pass
        early = nw == 1 and r.random() < 0.3
        w.tasks += [sleeper, quick, struck, struck_before, limited]
        with_auto = not early and r.random() < 0.5
        if with_auto:
            w.tasks.append(auto)

        def quiet():
            """Nothing of a task is on its way between worker and store."""
            over = {e.run for e in w.events("end")}
            going = sum(1 for e in w.events("start") if e.run not in over)
            return sim.server.call("xlen", (b"dk:stream",), {}) == going

        async def outage(name, kinds=("all", "all", "all", "pubsub", "blocking")):
            p = w.workers[name].proc
            if not await w.until(quiet, 10, 0.0005):
                return False
            kind = r.choice(kinds)
            d = r.choice([0, 0.01, 0.1, r.uniform(0, 1), r.uniform(0, 0.7 * redel if nw > 1 else 8)])
            c.count("outages")
            if kind == "all":
                sim.disconnect(p, d)
                return d
            sim.drop(p, pubsub=kind == "pubsub", blocking=kind == "blocking")
            c.count(f"drop_{kind}")
            return 0.0

        async with w.client(heartbeat_interval=sec(0.25)) as d:
            async def add(fn, tag, **kw):
                tasks.add(tag)
                await d.add(fn, key=tag, **kw)(tag)
            hb = dict(docket_kw=dict(heartbeat_interval=sec(0.25)))
            if early:
                # during start-up, after a few commands
                after = r.randint(0, 12)
                dur = r.choice([0, 0.05, 1.0, 3.0])

                async def body(worker):
                    p = w.workers["w0"].proc
                    base = p.ncmd
                    done = []

                    def hook(q, *a):
                        if q is p and not done and p.ncmd - base >= after:
                            done.append(1)
                            sim.disconnect(p, dur)
                    if after == 0:
                        sim.disconnect(p, dur)
                    else:
                        sim.command_hooks.append(hook)
                    t = w.workers["w0"].run_task = asyncio.ensure_future(worker.run_forever())
                    try:
                        await t
                    except asyncio.CancelledError:
                        if not t.done():
                            t.cancel()
                            raise
                await w.start_worker("w0", restart=None, body=body, **hb)
                c.count("outages")
                c.count("early")
                await asyncio.sleep(dur + 0.5)
            else:
                for j in range(nw):
                    await w.start_worker(f"w{j}", restart=None, **hb)
                await asyncio.sleep(0.5)
            names = [f"w{j}" for j in range(nw)]
            if with_auto:
                await w.until(lambda: len(w.starts("auto")) > 1, 5)
            base_subs = {n: sum(1 for s in sim.server.subs if s.proc is w.workers[n].proc and s.subscribed) for n in names} if not early else None
            # -- outages ---------------------------------------------------------
            held = []
            connected = due2 = None
            rounds = r.randint(0, 2) if early else r.randint(1, 3)
            for k in range(rounds):
                if r.random() < 0.6:
                    for j in range(r.randint(1, conc * nw)):
                        tag = f"s{k}.{j}"
                        held.append(tag)
                        await add(sleeper, tag)
                    await w.until(lambda: all(w.starts(t) for t in held), 10)
                    c.check(all(w.starts(t) for t in held), "idle", lambda: f"{[t for t in held if not w.starts(t)]} not started for 10 s, round {k}")
                if k == rounds - 1:
                    due2 = sim.wallclock() + 14
                    await add(struck_before, "x2", when=utc(due2))
                last = 0.0
                for j in range(r.randint(1, 3)):
                    n = r.choice(names)
                    x = await outage(n)
                    if x is not False:
                        last = max(last, sim.now() + x)
                    await asyncio.sleep(r.choice([0, 0.01, 0.1, reconn, reconn + 0.02, r.uniform(0, 3)]))
                if k == rounds - 1:
                    await d.strike("struck_before")
                await asyncio.sleep(max(0, last - sim.now()))
                connected = sim.wallclock()
                # connected again
                if held and r.random() < 0.6:
                    await asyncio.sleep(1.3)
                    tag = r.choice(held)
                    t0 = sim.wallclock()
                    await d.cancel(tag)
                    await w.until(lambda: w.ends(tag), 2)
                    e = w.ends(tag)
                    c.check(e and e[0].outcome == "cancelled" and e[0].t - t0 < 1.0, "deaf", lambda: f"{tag} cancelled {t0}, {1.3} s after the last outage; ended {e and dict(e[0])}")
                    c.count("cancelled_after")
                    held.remove(tag)
                for t in held:
                    go.setdefault(t, asyncio.Event()).set()
                await w.until(lambda: all(w.ends(t) for t in held), 5)
                c.check(all(w.ends(t) and w.ends(t)[0].outcome == "ok" for t in held), "interrupted", lambda: f"{[(t, [dict(e) for e in w.ends(t)]) for t in held]}")
                held.clear()
                t0 = sim.wallclock()
                await add(quick, f"q{k}")
                await add(quick, f"f{k}", when=utc(t0 + 0.3))
                bound = reconn + 2.5
                await w.until(lambda: w.starts(f"q{k}") and w.starts(f"f{k}"), bound + 5, 0.01)
                for t in (f"q{k}", f"f{k}"):
                    s = w.starts(t)
                    c.check(s and s[0].t - t0 < bound, "idle", lambda: f"{t} added {t0} after outages, started {s and s[0].t}")
                    c.count("resumed")
                await asyncio.sleep(r.choice([0, 0.3]))
            # -- all as before ---------------------------------------------------
            await asyncio.sleep(2.5)
            t0 = sim.wallclock()
            await d.cancel("nothing")
            # capacity
            tags = [f"cap{j}" for j in range(conc * nw)]
            for t in tags:
                await add(sleeper, t)
            await w.until(lambda: all(w.starts(t) for t in tags), 1.2, 0.01)
            c.check(all(w.starts(t) for t in tags), "idle", lambda: f"{len([t for t in tags if w.starts(t)])} of {len(tags)} started within 1.2 s")
            by = Counter(w.starts(t)[0].proc for t in tags if w.starts(t))
            c.check(all(v <= conc for v in by.values()), "overcommitted", lambda: f"{by}, concurrency {conc}")
            # cancellation
            for t in tags[:nw]:
                await d.cancel(t)
            await w.until(lambda: all(w.ends(t) for t in tags[:nw]), 1.0)
            c.check(all(w.ends(t) and w.ends(t)[0].outcome == "cancelled" for t in tags[:nw]), "deaf", lambda: f"running {tags[:nw]} cancelled, 1 s later {[[dict(e) for e in w.ends(t)] for t in tags[:nw]]}")
            for t in tags:
                go.setdefault(t, asyncio.Event()).set()
            await w.until(lambda: all(w.ends(t) for t in tags), 3)
            # strikes
            await add(struck, "x1", when=utc(sim.wallclock() + 1.2))
            await d.strike("struck")
            await asyncio.sleep(2.2)
            c.check(not w.starts("x1"), "strike-missed", "a strike after the outages isn't obeyed")
            c.count("strikes")
            if connected is not None and connected + 1.5 < due2:
                await asyncio.sleep(max(0, due2 + 1 - sim.wallclock()))
                c.check(not w.starts("x2"), "strike-missed", "a strike during the outages isn't obeyed")
                c.count("strikes")
            # waiting for a slot
            for t in ("l1", "l2", "l3"):
                await add(limited, t)
                await asyncio.sleep(0.3)
            on = [t for t in ("l1", "l2", "l3") if w.starts(t)]
            c.check(on == ["l1"], "idle", lambda: f"{on} running, one at a time allowed")
            await d.cancel("l2")
            await asyncio.sleep(0.8)
            t0 = sim.wallclock()
            for t in ("l1", "l2", "l3"):
                go.setdefault(t, asyncio.Event()).set()
            await w.until(lambda: w.starts("l3"), 10)
            s = w.starts("l3")
            c.check(s and s[0].t - t0 < 1.0 and not w.starts("l2"), "waiter-kept", lambda: f"slot given back {t0}, the cancelled first waiter kept the second until {s and s[0].t}")
            # listed
            ws = {x.name for x in await d.workers()}
            c.check(set(names) <= ws, "unlisted", lambda: f"{names} running, listed {ws}")
            if base_subs:
                now = {n: sum(1 for s in sim.server.subs if s.proc is w.workers[n].proc and s.subscribed) for n in names}
                c.check(now == base_subs, "listeners", lambda: f"subscriptions before {base_subs}, now {now}")
                c.count("listeners")
            if with_auto:
                t0 = sim.wallclock()
                await asyncio.sleep(3)
                times = [e.t for e in w.starts("auto")]
                gaps = [b - a for a, b in zip(times, times[1:])]
                c.check(all(g > every - 0.05 for g in gaps), "duplicated", lambda: f"automatic task every {every} s started after {min(gaps)}")
                late = [t for t in times if t > t0]
                c.check(len(late) >= 3, "severed", lambda: f"automatic task every {every} s started {len(late)} times in 3 s after the outages; at {times}")
                c.count("auto", len(late))
            c.check(not any(sum(1 for e in w.starts(t)) > 1 for t in tasks), "duplicated", lambda: f"{[(t, len(w.starts(t))) for t in tasks if len(w.starts(t)) > 1]}")
            c.check(with_auto or await w.drained(d, 20), "not-drained", lambda: f"{sim.now()}")
            gone = w.unexpected_worker_exits()
            c.check(not gone, "worker-exited", lambda: f"{gone}")
        for n in names:
            c.check(await w.stop_worker(n, 10), "did-not-stop", n)
        c.nontrivial = c.stats["outages"] > 0 and w.runs > 5
        c.sample = f"{nw} workers, {c.stats['outages']} outages ({'one during start-up' if early else f'{rounds} rounds'}), reconnection {reconn} s: {w.runs} runs"

    c.run(sim, main)


POLLING = {"xreadgroup", "xautoclaim", "psubscribe", "xclaim", "xread", "zremrangebyscore", "zcount", "xlen", "zcard", "sadd"}


def infrastructure(name, args):
    """Commands by which a worker polls, listens, schedules and reports."""
    if name in POLLING:
        return True
    if name == "execute_pipeline":
        return args[0][0][0] in ("xlen", "zremrangebyscore", "zrem")
    if name == "evalsha":
        n = int(args[1])
        return n == 2 and {a if isinstance(a, str) else a.decode() for a in args[2:4]} == {"dk:queue", "dk:stream"}
    return False


def flaky(c):
    """A bad connection while traffic goes on."""
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.001, 0.004]))
    nw = r.choice([1, 2, 3])
    redel = 3.0
    p_before, p_after = r.choice([(0.02, 0.02), (0.1, 0.05), (0.3, 0.2), (0, 0.2), (0.2, 0)])

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([1, 3, 8]), reconnection_delay=sec(r.choice([0.05, 0.3]))))
        from docket import Retry

        async def plain(tag: str, dur: float):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def retried(tag: str, dur: float, retry: Retry = Retry(attempts=3, delay=sec(0.1))):
            async with w.running(tag, attempt=retry.attempt):
                await asyncio.sleep(dur)
                if retry.attempt < 3:
                    raise ValueError
        w.tasks += [plain, retried]
        jobs = {}
        async with w.client() as d:
            for j in range(nw):
                await w.start_worker(f"w{j}", restart=None)
            await asyncio.sleep(0.3)
            procs = [w.workers[f"w{j}"].proc for j in range(nw)]
            for p in procs:
                p.fail_pred = infrastructure
                p.p_fail_before, p.p_fail_after = p_before, p_after
            for j in range(r.randint(10, 40)):
                tag = f"t{j}"
                dur = r.choice([0, 0.01, 0.2, 0.7])
                f = r.choice([plain, plain, retried])
                jobs[tag] = f
                await d.add(f, key=tag, when=r.choice([None, utc(sim.wallclock() + r.uniform(0, 2))]))(tag, dur)
                await asyncio.sleep(r.choice([0, 0.05, 0.3]))
            await asyncio.sleep(r.choice([0, 2]))
            for p in procs:
                p.p_fail_before = p.p_fail_after = 0
            t0 = sim.now()
            ok = await w.drained(d, redel + 12 + 1.5 * len(jobs))
            c.check(ok, "idle", lambda: f"{[t for t in jobs if not w.ends(t)]} outstanding {sim.now() - t0} s after the connection got good again")
            for t, f in jobs.items():
                n = len(w.starts(t))
                want = 3 if f is retried else 1
                c.check(n == want, "duplicated" if n > want else "idle", lambda: f"{t} {f.__name__} ran {n} times: {[dict(e) for e in w.starts(t)]}")
            gone = w.unexpected_worker_exits()
            c.check(not gone, "worker-exited", lambda: f"{gone}")
            await asyncio.sleep(2)
            t1 = sim.wallclock()
            await d.add(plain, key="last")("last", 5.0)
            await w.until(lambda: w.starts("last"), 2)
            c.check(w.starts("last") and w.starts("last")[0].t - t1 < 1.0, "idle", "a new task isn't started")
            await asyncio.sleep(0.3)
            await d.cancel("last")
            await w.until(lambda: w.ends("last"), 2)
            c.check(w.ends("last") and w.ends("last")[0].outcome == "cancelled", "deaf", "a running task isn't cancelled")
        for p in list(w.workers):
            c.check(await w.stop_worker(p, 10), "did-not-stop", p)
        f = sim.faults["conn_error_before"] + sim.faults["reply_lost"]
        c.count("failed_commands", f)
        c.nontrivial = f > 3
        c.sample = f"{nw} workers, {len(jobs)} tasks, {f} failed commands of polling, listening, scheduling and reporting"

    c.run(sim, main)


GENERATORS = [(outages, 3), (flaky, 1)]
