"""D23: clearing a docket removes all waiting work and nothing else."""
import asyncio

from rv.world import World, sec, utc


def clearing(c):
    r = c.rng
    lat = r.choice([0.001, 0.004, 0.015])
    sim = c.sim(lat_max=lat)
    lag = 14 * lat + 0.03
    crashes = r.random() < 0.2
    wide = r.random() < 0.25

    async def main(sim):
        from docket import ConcurrencyLimit, Perpetual, Retry
        from docket.execution import ExecutionCancelled
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(1.5), concurrency=r.choice([1, 3, 10]), minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05)))
        plan, taken = {}, {}

        def watch(p, name, args, kwargs, result):
            # when workers took a task: it counts as started from then on, even
            # if a moment later the admission check puts it back in a queue
            if name in ("evalsha", "eval"):
                for a in args:
                    if isinstance(a, str) and a.startswith('{"type": "state", "key": "') and '"state": "running"' in a:
                        taken.setdefault(a.split('"')[7], []).append(sim.wallclock())
        sim.command_hooks.append(watch)

        async def body(tag, n, hold, life=0):
            async with w.running(tag, attempt=n, life=life):
                await asyncio.sleep(hold)
                w.sim.log("outcome", tag=tag, attempt=n, life=life)

        async def plain(tag: str, hold: float, life: int = 0):
            await body(tag, 1, hold, life)
            return tag

        async def retried(tag: str, hold: float, retry: Retry = Retry(attempts=3, delay=sec(0.4))):
            await body(tag, retry.attempt, hold)
            if retry.attempt < 3:
                raise ValueError(tag)
            return tag

        async def chain(tag: str, hold: float, n: int = 1, perpetual: Perpetual = Perpetual(every=sec(0.4))):
            perpetual.perpetuate(tag, hold, n + 1)
            if n == 3:
                perpetual.cancel()
            await body(tag, n, hold)
            return tag

        async def limited(tag: str, hold: float, who: str, life: int = 0, limit: ConcurrencyLimit = ConcurrencyLimit("who", max_concurrent=1)):
            await body(tag, 1, hold, life)
            return tag
        fns = dict(plain=plain, retried=retried, chain=chain, limited=limited)
        w.tasks += list(fns.values())

        def setup(proc, gen):
            if crashes and sim.now() < 3 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(15, 120), r.choice(["before", "after"]))
        nw = r.choice([0, 1, 1, 2, 3])
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=False)
        dockets, gate, holders = [], asyncio.Event(), []
        for i in range(2):
            got = asyncio.Event()

            async def hold(got=got):
                async with w.client() as d:
                    dockets.append(d)
                    got.set()
                    await gate.wait()
            holders.append(sim.spawn(sim.proc(f"c{i}"), hold()))
            await got.wait()
        procs = [sim.procs[f"c{i}"] for i in range(2)]
        struck = r.random() < 0.3
        if struck:
            await w.on(procs[0], dockets[0].strike("plain", "tag", "==", "struck"))

        async def add(i, tag, life=0):
            p = plan[tag]
            when = None if p["at"] is None else utc(sim.wallclock() + p["at"])
            t0 = sim.wallclock()
            args = (tag, p["hold"], *(["x"] if p["kind"] == "limited" else []))
            if life:
                p["life"] = life
                ex = await w.on(procs[i], dockets[i].replace(fns[p["kind"]], when or utc(t0), tag)(*args, life=life))
            else:
                ex = await w.on(procs[i], dockets[i].add(fns[p["kind"]], key=tag, when=when)(*args))
            p["added"] = (t0, sim.wallclock())
            return ex
        seq = [0]
        renew = r.random() < 0.5

        def fresh():
            tag = f"t{seq[0]}"
            seq[0] += 1
            plan[tag] = dict(kind=r.choice(["plain", "plain", "plain", "retried", "chain", "limited"]), hold=r.choice([0, 0.05, 0.3, 0.9]),
                             at=r.choice([None, None, -1, 0.05, 0.5, 2, 5, 86400]))
            return tag
        n = r.choice([60, 130]) if wide else r.randint(3, 25)
        tags = [fresh() for _ in range(n)]
        handles = {}

        async def put(batch, i, pace):
            for tag in batch:
                handles[tag] = await add(i, tag)
                if pace:
                    await asyncio.sleep(r.uniform(0, pace))
                again = r.choice(batch)
                if renew and batch is first and again in handles and plan[again]["kind"] in ("plain", "limited") and r.random() < 0.3:
                    plan[again]["at"] = r.choice([None, None, -1, 0.05, 0.5, 2, 5, 86400])
                    handles[again] = await add(i, again, life=plan[again].get("life", 0) + 1)
                    c.count("replaced")
        cut = r.randint(0, n)
        first = tags[:cut]
        await put(first, 0, r.choice([0, 0, 0.05]))
        await asyncio.sleep(r.choice([0, 0.01, 0.1, 0.5, 1.2]))
        # clear once, twice in a row, or from two clients at once, perhaps while more is being added
        results = []

        async def clear(i, delay):
            await asyncio.sleep(delay)
            t0 = sim.wallclock()
            k = await w.on(procs[i], dockets[i].clear())
            results.append((t0, sim.wallclock(), k))
        jobs = [clear(1, r.choice([0, r.uniform(0, 0.2)]))]
        if r.random() < 0.3:
            jobs.append(clear(0, r.choice([0, r.uniform(0, 0.2), 1])))
        late = asyncio.ensure_future(put(tags[cut:], 0, r.choice([0, 0.02]))) if r.random() < 0.5 else None
        await asyncio.gather(*jobs)
        if late is None and nw == 0:
            s = await w.on(procs[1], dockets[1].snapshot())
            c.check(s.total_tasks == 0, "still-listed", lambda: f"clear() returned {results}, and yet {s.future} {s.running}")
        if late is None:
            await put(tags[cut:], 1, 0)
        else:
            await late
        last = max(x[1] for x in results)
        # anything that was certainly waiting when the (first) clear() was called and had not started when it returned must never start
        await asyncio.sleep(3 + 2 * lag)
        if nw == 0:
            await w.start_worker("w9", restart=0.1, wait=False)

        # what is far in the future is finished by now only if it was cleared
        far = {t for t in tags if plan[t]["at"] == 86400}
        end = sim.now() + 90
        snap = None
        while sim.now() < end:
            snap = await w.on(procs[0], dockets[0].snapshot())
            if not snap.running and {e.key for e in snap.future} <= far:
                break
            await asyncio.sleep(0.5)
        else:
            c.check(False, "not-finished", lambda: f"{snap}")
        await asyncio.sleep(2)
        outstanding = {e.key for e in snap.future}

        def hist(tag):
            return (f"{tag} {plan[tag]} added {[round(x - sim.epoch, 4) for x in plan[tag]['added']]}; clear() {[(round(a - sim.epoch, 4), round(b - sim.epoch, 4), k) for a, b, k in results]}: "
                    + str([(e.kind, e.get('attempt'), round(e.t - sim.epoch, 4)) for e in sim.events if e.get('tag') == tag][:12]))
        total = dict(plain=1, limited=1, retried=3, chain=3)
        cleared = 0
        for tag in tags:
            p = plan[tag]
            st = w.events("start", tag=tag, life=p.get("life", 0))
            done = len({e.attempt for e in w.events("outcome", tag=tag, life=p.get("life", 0))})
            want = total[p["kind"]]
            a0, a1 = p["added"]
            inwin = any(a1 < t0 for t0, t1, k in results)
            ex = await w.on(procs[0], dockets[0].get_execution(tag))
            state = ex.state.value if ex else None
            if tag in outstanding:
                c.check(not inwin, "not-removed", lambda: f"still waiting after a clear(); {hist(tag)}")
                continue
            if done < want:
                # the instance that was waiting has been removed
                cleared += 1
                c.count("cleared")
                p["gone"] = True
                ok = any(a0 <= t1 for t0, t1, k in results)
                c.check(ok, "lost", lambda: f"a task added after clear() never ran to its end; {hist(tag)}")
                c.check(state == "cancelled", "state", lambda: f"reported {state} after it was cleared; {hist(tag)}")
            else:
                c.count("finished")
                c.check(state == "completed", "state", lambda: f"reported {state}; {hist(tag)}")
                if not st or all(e.t > t1 + lag and not crashes for e in st for t1 in [results[0][1]] if a1 < results[0][0]):
                    t0, t1, _ = results[0]
                    c.check(a1 >= t0 or any(t0 - lag <= x <= t1 for x in taken.get(tag, [])), "started-anyway", lambda: hist(tag) + f"; taken {[round(x - sim.epoch, 4) for x in taken.get(tag, [])]}")
            if p["at"] == 86400:
                c.check(not st, "early", lambda: hist(tag))
            # a run that was under way during a clear() ends normally
            for e in st:
                for t0, t1, k in results:
                    if e.t < t0 and not crashes:
                        fin = [x for x in w.ends(tag) if x.run == e.run]
                        if fin and fin[0].t > t0:
                            c.count("running_at_clear")
                            c.check(fin[0].outcome != "cancelled", "interrupted", lambda: hist(tag))
                        c.check(bool(fin), "interrupted", lambda: hist(tag))
            if not crashes:
                c.check(len(st) == len({e.attempt for e in st}), "repeated", lambda: hist(tag))
        said = sum(k for _, _, k in results)
        c.check(said == cleared, "count", lambda: f"clear() returned {[k for _, _, k in results]}; {cleared} tasks were removed: {[t for t in tags if plan[t].get('gone')]}; {[hist(t) for t in tags][:6]}")
        # somebody waiting for a task that was removed isn't left hanging
        gone = [t for t in tags if plan[t].get("gone")]
        for tag in r.sample(gone, min(3, len(gone))):
            try:
                got = await w.on(procs[0], handles[tag].get_result(timeout=sec(5)))
                c.check(False, "waiter", lambda: f"{got!r}; {hist(tag)}")
            except ExecutionCancelled:
                pass
            except Exception as e:
                c.check(False, "waiter", lambda: f"{e!r}; {hist(tag)}")
        # everything can be used again
        again = r.sample(gone, min(len(gone), 15)) + r.sample([t for t in tags if t not in gone and t not in outstanding], min(4, n - len(gone) - len(outstanding)))
        before = {t: len(w.starts(t)) for t in again}
        for tag in again:
            plan[tag]["at"] = r.choice([None, 0.3])
            plan[tag]["kind"] = "plain"
            plan[tag]["hold"] = 0
            await add(r.randint(0, 1), tag)
            c.count("readded")
        await w.until(lambda: all(len(w.starts(t)) > before[t] for t in again), 20)
        await asyncio.sleep(1)
        for tag in again:
            k = len(w.starts(tag)) - before[tag]
            c.check(k == 1 or (crashes and k > 1), "reuse", lambda: f"scheduled again after clear(), the key ran {k} times; {hist(tag)}")
        if struck:
            b = len(w.starts("struck"))
            plan["struck"] = dict(kind="plain", hold=0, at=None)
            await add(0, "struck")
            await asyncio.sleep(1)
            c.check(len(w.starts("struck")) == b, "strikes-lost", "a strike made before clear() no longer holds")
        # a second clear() empties what is left
        k = await w.on(procs[1], dockets[1].clear())
        c.check(k == len(outstanding), "second-count", lambda: f"{k} removed, {outstanding} were left")
        s = await w.on(procs[1], dockets[1].snapshot())
        c.check(s.total_tasks == 0, "still-listed", lambda: f"{s}")
        gate.set()
        for h in holders:
            await asyncio.wait({h})
        c.nontrivial = c.stats["cleared"] > 0
        c.sample = f"{n} tasks, {nw} workers, clear() -> {[k for _, _, k in results]}, {c.stats['running_at_clear']} running meanwhile"
    c.run(sim, main)


GENERATORS = [(clearing, 1)]
