"""D26: shutting a worker down finishes what it runs and strands nothing."""
import asyncio

from rv.world import FINAL, World, max_overlap, sec, utc


class Boom(Exception):
    pass


def stop(c):
    r = c.rng
    lat = r.choice([0.001, 0.004, 0.01])
    sim = c.sim(lat_max=lat)
    redel = r.choice([0.6, 2.0])
    nw = r.choice([1, 1, 2, 3])
    conc = r.choice([1, 3, 8])

    async def main(sim):
        from docket import ConcurrencyLimit, Retry, Timeout
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=conc, minimum_check_interval=sec(r.choice([0.03, 0.2])), scheduling_resolution=sec(0.05)))

        async def plain(tag: str, dur: float, how: str):
            async with w.running(tag):
                await asyncio.sleep(dur)
                if how == "fail":
                    raise Boom(tag)
            return tag

        async def retried(tag: str, dur: float, how: str, retry: Retry = Retry(attempts=2, delay=sec(0.1))):
            async with w.running(tag, attempt=retry.attempt):
                await asyncio.sleep(dur)
                if how == "fail" and retry.attempt == 1:
                    raise Boom(tag)
            return tag

        async def timed(tag: str, dur: float, how: str, timeout: Timeout = Timeout(sec(5))):
            async with w.running(tag):
                await asyncio.sleep(dur)
            return tag

        async def limited(tag: str, dur: float, how: str, limit: ConcurrencyLimit = ConcurrencyLimit("how", 2)):
            async with w.running(tag):
                await asyncio.sleep(dur)
            return tag
        fns = [plain, retried, timed, limited]
        w.tasks += fns
        jobs, handles = {}, {}
        async with w.client() as d:
            for j in range(nw):
                await w.start_worker(f"w{j}", restart=None)
            n = r.choice([1, 4, 10, 25])
            stop_at = {}

            async def stop_one(name, after, command):
                h = w.workers[name]
                if command is not None:
                    base = h.proc.ncmd
                    await w.until(lambda: h.proc.ncmd - base >= command, 3, 0.0007)
                else:
                    await asyncio.sleep(after)
                stop_at[name] = sim.wallclock()
                c.check(await w.stop_worker(name, 30), "did-not-stop", f"{name} was asked to stop 30 s ago")
                stop_at[name, "gone"] = sim.wallclock()
            stops = []
            for j in range(r.choice([1, nw])):
                stops.append(asyncio.ensure_future(stop_one(f"w{j}", r.uniform(0, 2), r.choice([None, r.randint(0, 90)]))))
            for j in range(n):
                tag = f"t{j}"
                fn = r.choice(fns)
                dur = r.choice([0, 0, 0.02, 0.3, 2.2 * redel])
                jobs[tag] = dict(fn=fn, dur=dur, how=r.choice(["ok", "ok", "fail"]))
                at = r.choice([None, None, utc(sim.wallclock() + r.uniform(0, 1))])
                handles[tag] = await d.add(fn, key=tag, when=at)(tag, dur, jobs[tag]["how"])
                if r.random() < 0.2:
                    await asyncio.sleep(r.uniform(0, 0.2))
            await asyncio.gather(*stops)
            late = r.choice([0, 0.1, 1])
            await asyncio.sleep(late)
            await w.start_worker("z", restart=None)
            took = 3 * redel + sum(j["dur"] + 0.3 for j in jobs.values()) + 12
            await w.until(lambda: all(w.ends(t) for t in jobs), took, 0.1)
            await w.drained(d, took, 0.2)
            await asyncio.sleep(0.3)
            # -- judge
            slack = 0.05 + 30 * lat
            for name, ts in list(stop_at.items()):
                if not isinstance(name, str):
                    continue
                mine = [e for e in w.events("start") if e.proc == name]
                after = [e for e in mine if e.t > ts + slack]
                c.check(not after, "started-more", lambda: f"{name} was asked to stop at {ts - sim.epoch:.3f} and started {[(e.tag, round(e.t - sim.epoch, 3)) for e in after]}")
                c.count("running_at_stop", sum(1 for e in mine if not any(x.run == e.run and x.t < ts for x in w.events("end"))))
                ends = [x.t for x in w.events("end") if x.proc == name]
                gone = stop_at[name, "gone"]
                c.check(not ends or gone >= max(ends), "left-early", name)
                # a limit's or a retry's bookkeeping follows the last end
                c.check(gone <= max([ts, *ends]) + 0.5 + 40 * lat, "lingers", lambda: f"{name} was asked to stop at {ts - sim.epoch:.2f}, its last task ended at {max([ts, *ends]) - sim.epoch:.2f}, it stopped at {gone - sim.epoch:.2f}")
            for tag, job in jobs.items():
                s, e = w.starts(tag), w.ends(tag)
                want = 2 if job["fn"] is retried and job["how"] == "fail" else 1
                text = lambda: f"{tag} {job['fn'].__name__} {job['dur']} {job['how']}: {[(x.proc, round(x.t - sim.epoch, 3)) for x in s]}, {[(x.outcome, round(x.t - sim.epoch, 3)) for x in e]}; stops {({k: round(v - sim.epoch, 3) for k, v in stop_at.items()})}"
                c.check(len(s) == want, "lost" if len(s) < want else "duplicated", text)
                outcome = ["failed", "ok"] if want == 2 else ["failed"] if job["how"] == "fail" and job["fn"] is plain else ["ok"]
                c.check([x.outcome for x in e] == outcome, "not-normally", text)
                for a, b in zip(s, e):
                    c.check(b.t - a.t >= job["dur"] - 1e-6, "cut-short", text)
                try:
                    value = await handles[tag].get_result(timeout=sec(2))
                except BaseException as x:
                    value = x
                ok = value == tag if outcome[-1] == "ok" else isinstance(value, Boom)
                c.check(ok, "outcome", lambda: f"{text()}: reported as {value!r}")
                c.count("judged")
        c.check(not w.unexpected_worker_exits(), "worker-died", lambda: str(w.unexpected_worker_exits()[0].how)[-500:])
        c.nontrivial = c.stats["running_at_stop"] > 0
        c.sample = f"{nw} workers (concurrency {conc}, redelivery {redel} s), {n} tasks; stopped at {({k: round(v - sim.epoch, 2) for k, v in stop_at.items()})}"
    c.run(sim, main)


def finished(c):
    """Running until finished: back exactly when nothing is outstanding."""
    r = c.rng
    lat = r.choice([0.001, 0.004])
    sim = c.sim(lat_max=lat)
    nw = r.choice([1, 1, 2, 3])
    poll = r.choice([0.03, 0.2])
    redel = 3.0

    async def main(sim):
        from docket import ConcurrencyLimit, CurrentDocket, Perpetual, RateLimit, Retry
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([1, 3, 8]), minimum_check_interval=sec(poll), scheduling_resolution=sec(0.05)))
        unsure = set()
        due = {}      # tag -> (number of runs to come, latest due)

        async def plain(tag: str, dur: float, d=CurrentDocket()):
            async with w.running(tag):
                await asyncio.sleep(dur)
                if r.random() < 0.2 and len(due) < 40:
                    await more(d)

        async def failing(tag: str, dur: float, retry: Retry = Retry(attempts=3, delay=sec(0.6))):
            async with w.running(tag):
                await asyncio.sleep(dur)
                raise Boom(tag)

        async def limited(tag: str, dur: float, limit: ConcurrencyLimit = ConcurrencyLimit("dur", 1)):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def rated(tag: str, dur: float, limit: RateLimit = RateLimit(1, per=sec(0.5))):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def again(tag: str, dur: float, p: Perpetual = Perpetual(every=sec(0.4))):
            async with w.running(tag):
                await asyncio.sleep(dur)
            if len(w.starts(tag)) >= 3:
                p.cancel()
        fns = dict(plain=(plain, 1), failing=(failing, 3), limited=(limited, 1), rated=(rated, 1), again=(again, 3))
        w.tasks += [f for f, n in fns.values()]

        async def more(d):
            tag = f"t{len(due)}"
            fn, runs = fns[r.choice(list(fns))]
            after = r.choice([0, 0, 0.3, 1.5, 4])
            due[tag] = (runs, fn.__name__)
            unsure.add(tag)     # until the docket has confirmed it
            await d.add(fn, key=tag, when=utc(sim.wallclock() + after) if after else None)(tag, r.choice([0, 0.05, 0.4]))
            unsure.discard(tag)

        async with w.client() as d:
            for _ in range(r.choice([0, 1, 3, 12])):
                await more(d)
            outsider = r.random() < 0.3
            crash = r.random() < 0.25
            if outsider or crash:
                def setup(proc, gen):
                    if crash:
                        proc.crash_at = (proc.ncmd + r.randint(10, 60), r.choice(["before", "after"]))
                await w.start_worker("other", restart=None, setup=setup)
                await asyncio.sleep(r.uniform(0, 0.3))
            back = {}

            async def wait(j):
                await w.start_worker(f"w{j}", restart=None, mode="until_finished")
                await w.workers[f"w{j}"].done.wait()
                back[j] = sim.wallclock()
            began = sim.wallclock()
            waits = [asyncio.ensure_future(wait(j)) for j in range(nw)]
            done, late = await asyncio.wait(waits, timeout=100)
            c.check(not late, "never-returns", lambda: f"{len(late)} workers still run 100 s later; {due}; store {[k for k in w.raw_keys() if 'runs' not in k]}")
            if crash and not w.events("worker_gone", worker="other"):
                w.kill_worker("other")
            for tag, (runs, name) in due.items():
                n = len(w.starts(tag))
                c.check(n == runs or (crash and (n == runs + 1 or n == 0 and tag in unsure)), "outstanding", lambda: f"{tag} ({name}) ran {n} times, {runs} expected")
            if due and not late:
                last = max(e.t for e in w.events("end"))
                killed = max([0, *(e.t for e in w.events("worker_gone", worker="other"))])
                for j, t in back.items():
                    c.check(t >= last - 1e-6, "too-early", lambda: f"w{j} returned at {t - sim.epoch:.3f}, the last task ended at {last - sim.epoch:.3f}")
                    # whoever parked behind a limit may have left a helper behind,
                    # and a dead worker's message has to come back first
                    grace = 2 * poll + 0.5 + 60 * lat + (2 * redel + 11 if killed else 0)
                    c.check(t <= max(last, began) + grace, "too-late", lambda: f"w{j} returned at {t - sim.epoch:.3f}, the last task ended at {last - sim.epoch:.3f}; {due}")
                c.count("returned", len(back))
        c.nontrivial = len(due) > 1
        c.count("outstanding", len(due))
        c.sample = f"{nw} workers until finished, {len(due)} tasks {sorted({x[1] for x in due.values()})}, another worker: {outsider or crash}, crashing: {crash}"
    c.run(sim, main)


def at_most(c):
    """At most N runs of the listed keys, and no trace of them afterwards."""
    r = c.rng
    sim = c.sim(lat_max=0.002)

    async def main(sim):
        from docket import ConcurrencyLimit, Perpetual, RateLimit, Retry
        w = World(c, sim, worker_kw=dict(concurrency=r.choice([1, 4]), minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05)))

        async def always(tag: str, dur: float, p: Perpetual = Perpetual(every=sec(r.choice([0, 0.3])))):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def failing(tag: str, dur: float, p: Perpetual = Perpetual(every=sec(0.2))):
            async with w.running(tag):
                raise Boom(tag)

        async def once(tag: str, dur: float):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def retried(tag: str, dur: float, retry: Retry = Retry(attempts=4, delay=sec(0.1))):
            async with w.running(tag):
                raise Boom(tag)

        async def limited(tag: str, dur: float, p: Perpetual = Perpetual(every=sec(0.1)), limit: ConcurrencyLimit = ConcurrencyLimit("dur", 1)):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def rated(tag: str, dur: float, p: Perpetual = Perpetual(), limit: RateLimit = RateLimit(2, per=sec(1))):
            async with w.running(tag):
                pass
        fns = dict(always=always, failing=failing, once=once, retried=retried, limited=limited, rated=rated)
        w.tasks += list(fns.values())
        async with w.client() as d:
            bound, kinds = {}, {}
            for j in range(r.randint(1, 5)):
                k = f"k{j}"
                kinds[k] = r.choice(list(fns))
                if kinds[k] in ("once", "retried"):
                    if r.random() < 0.5:
                        bound[k] = r.choice([0, 1, 2])
                else:
                    bound[k] = r.choice([0, 1, 2, 5])
                await d.add(fns[kinds[k]], key=k, when=r.choice([None, utc(sim.wallclock() + 0.4)]))(k, r.choice([0, 0.05]))
            repeat = r.choice([1, 1, 2])
            before = {}

            async def body(worker):
                for _ in range(repeat):
                    before.update({k: len(w.starts(k)) for k in kinds})
                    await worker.run_at_most(bound)
                    judge()
                    if repeat > 1:
                        for k in kinds:
                            await worker.docket.add(fns[kinds[k]], key=k)(k, 0.05)

            def judge():
                for k, kind in kinds.items():
                    n = len(w.starts(k)) - before[k]
                    natural = {"once": 1, "retried": 4}.get(kind, 10 ** 9)
                    want = min(natural, bound.get(k, natural))
                    c.check(n == want, "count", lambda: f"{k} ({kind}) listed with {bound.get(k)} ran {n} times, of {natural if natural < 10**9 else 'endless'}")
                    c.count("counted")
                for k in kinds:
                    if k in bound and (kinds[k] not in ("once", "retried")):
                        left = [x for x in w.raw_keys() if x in (f"dk:{k}", f"dk:known:{k}", f"dk:stream-id:{k}")]
                        q = [x.decode() for x in sim.server.call("zrange", ("dk:queue", 0, -1))]
                        c.check(not left and k not in q and not sim.server.call("xlen", ("dk:stream",)), "trace", lambda: f"{k}: {left}, queue {q}, stream {sim.server.call('xlen', ('dk:stream',))}")
            await w.start_worker("w", restart=None, body=body, wait=False)
            ok = await w.until(lambda: w.workers["w"].done.is_set(), 60, 0.1)
            c.check(ok, "never-returns", lambda: f"{kinds} {bound}: {({k: len(w.starts(k)) for k in kinds})}")
            if ok:
                c.check(w.workers["w"].exits[-1][1] == "returned", "failed", lambda: str(w.workers["w"].exits)[-600:])
        c.nontrivial = True
        c.sample = f"at most {bound} of {kinds}"
    c.run(sim, main)


DIRECTED = []
GENERATORS = [(stop, 3), (finished, 2), (at_most, 1)]
