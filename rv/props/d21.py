"""D21: progress reported by a task is what observers see."""
import asyncio

from rv.world import World, sec, utc

MESSAGES = [None, "", "halfway", "ünï \"quoted\" \\ \n", "x" * 300, "0", "None"]


def reports(c):
    r = c.rng
    lat = r.choice([0.001, 0.005, 0.02])
    sim = c.sim(lat_max=lat)
    crashes = r.random() < 0.2
    lag = 40 * lat + 0.02

    async def main(sim):
        from docket import CurrentExecution, Execution, Perpetual, Progress, Retry
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(1.5), concurrency=r.choice([2, 20]), minimum_check_interval=sec(0.03), scheduling_resolution=sec(0.03)))
        plan, model, seen_in_task = {}, {}, []

        async def work(tag, attempt, progress):
            p = plan[tag]
            me = (tag, attempt, w.runs)
            state = [0, 100, None]
            ops = model.setdefault(tag, [])
            run = dict(attempt=attempt, ops=[], start=sim.wallclock(), end=None, done=False)
            ops.append(run)

            def commit(t0):
                run["ops"].append((t0, sim.wallclock(), tuple(state)))
                here = (progress.current if progress.current is not None else 0, progress.total, progress.message)
                c.check(here == tuple(state), "in-task", lambda: f"{tag} attempt {attempt} reported {state} and reads back {here}; {run['ops'][-4:]}")
            async with w.running(tag, attempt=attempt):
                try:
                    here = (progress.current or 0, progress.total, progress.message)
                    c.check(here == (0, 100, None), "not-fresh", lambda: f"{tag} attempt {attempt} begins with progress {here}; earlier {model[tag][:-1]}")
                    for _ in range(p["n"]):
                        await asyncio.sleep(r.choice([0, 0.01, 0.05]))
                        t0 = sim.wallclock()
                        x = r.random()
                        if x < 0.5:
                            k = r.choice([1, 1, 2, 10, 1000])
                            state[0] += k
                            run["next"] = tuple(state)
                            await (progress.increment() if k == 1 and r.random() < 0.7 else progress.increment(k))
                        elif x < 0.75:
                            state[1] = r.choice([1, 5, 100, 10 ** 6])
                            run["next"] = tuple(state)
                            await progress.set_total(state[1])
                        else:
                            state[2] = r.choice(MESSAGES)
                            run["next"] = tuple(state)
                            await progress.set_message(state[2])
                        commit(t0)
                    if r.random() < 0.2:
                        for bad in (progress.set_total(0), progress.increment(0), progress.increment(-1)):
                            try:
                                await bad
                                c.check(False, "accepted-nonsense", f"{tag}: an impossible report was accepted")
                            except ValueError:
                                pass
                    await asyncio.sleep(r.choice([0, 0.1]))
                    if attempt < p["until"]:
                        raise ValueError("again")
                    run["done"] = True
                finally:
                    run["end"] = sim.wallclock()

        async def plain(tag: str, progress: Progress = Progress()):
            await work(tag, 1, progress)

        async def retried(tag: str, progress: Progress = Progress(), retry: Retry = Retry(attempts=3, delay=sec(0.05))):
            await work(tag, retry.attempt, progress)

        async def handle(tag: str, me: Execution = CurrentExecution()):
            await work(tag, 1, me.progress)

        async def chain(tag: str, n: int, progress: Progress = Progress(), perpetual: Perpetual = Perpetual(every=sec(0.3))):
            if n >= plan[tag]["until"]:
                perpetual.cancel()
            perpetual.perpetuate(tag, n + 1)
            await work(tag, n, progress)
        kinds = dict(plain=plain, retried=retried, handle=handle, chain=chain)
        w.tasks += list(kinds.values())

        def setup(proc, gen):
            if crashes and sim.now() < 2 and r.random() < 0.6:
                proc.crash_at = (proc.ncmd + r.randint(30, 250), r.choice(["before", "after"]))
        nw = r.randint(1, 3)
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup)
        dockets, holders, gate = [], [], asyncio.Event()
        for i in range(2):
            got = asyncio.Event()

            async def hold(got=got):
                async with w.client() as d:
                    dockets.append(d)
                    got.set()
                    await gate.wait()
            holders.append(sim.spawn(sim.proc(f"c{i}"), hold()))
            await got.wait()
        procs = [sim.procs[f"c{i}"] for i in range(2)]

        def expected(tag, t0, t1):
            """The states that may have been read between t0 and t1."""
            out = set()
            runs = model.get(tag, [])
            # claimed, but the function has not begun
            if not any(x["start"] < t0 - lag and (x["end"] is None or x["end"] > t1 + lag) for x in runs):
                out.add((0, 100, None))
            for k, run in enumerate(runs):
                begin = run["start"] - lag
                prev = (begin, begin, (0, 100, None))
                states = [prev] + run["ops"]
                for j, (a, b, s) in enumerate(states):
                    until = states[j + 1][1] if j + 1 < len(states) else (runs[k + 1]["start"] + lag if k + 1 < len(runs) else 1e18)
                    if a <= t1 and until >= t0:
                        out.add(s)
                # an operation that is under way
                if run.get("next") and (not run["ops"] or run["next"] != run["ops"][-1][2]):
                    out.add(run["next"])
            return out

        async def looker(i, tag, until):
            while sim.wallclock() < until:
                await asyncio.sleep(r.uniform(0, 0.2))
                t0 = sim.wallclock()
                e = await w.on(procs[i], dockets[i].get_execution(tag))
                t1 = sim.wallclock()
                if e is None:
                    continue
                got = (e.progress.current, e.progress.total, e.progress.message)
                c.count("lookups")
                runs = model.get(tag, [])
                text = lambda: f"lookup of {tag} {t0 - sim.epoch:.4f}-{t1 - sim.epoch:.4f} ({e.state}) reads {got}; reported {[(x['attempt'], round(x['start'] - sim.epoch, 4), x['end'] and round(x['end'] - sim.epoch, 4), [(round(o[1] - sim.epoch, 4), o[2]) for o in x['ops']]) for x in runs]}"
                if got[0] is None:
                    # no record: not started, or over
                    mid = any(x["start"] < t0 - lag and (x["end"] is None or x["end"] > t1 + lag) for x in runs)
                    c.check(got == (None, 100, None), "lookup", text)
                    c.check(not mid, "lookup-lost", text)
                else:
                    c.check(got in expected(tag, t0, t1), "lookup", text)
                    if runs and runs[-1]["done"] and plan[tag]["kind"] != "chain" and runs[-1]["end"] < t0 - lag and not crashes:
                        c.check(False, "lookup-after-end", text)

        async def subscriber(i, tag, whole):
            e = await w.on(procs[i], dockets[i].get_execution(tag))
            if e is None:
                return
            log = dict(tag=tag, events=[], live=None, whole=whole)
            ready = asyncio.Event()

            async def consume():
                source = e.subscribe(ready=ready) if whole else e.progress.subscribe(ready=ready)
                async for ev in source:
                    if ev["type"] == "progress":
                        c.check(ev["key"] == tag, "wrong-key", lambda: f"subscriber of {tag} got {ev}")
                        log["events"].append((sim.wallclock(), (ev["current"], ev["total"], ev["message"])))
            t = sim.spawn(procs[i], consume())
            rd = asyncio.ensure_future(ready.wait())
            await asyncio.wait({rd, t}, timeout=10, return_when=asyncio.FIRST_COMPLETED)
            rd.cancel()
            if ready.is_set():
                log["live"] = sim.wallclock() + (0 if whole else lag)
                subs.append(log)
            await stop.wait()
            t.cancel()
        subs, stop = [], asyncio.Event()

        async def one(j):
            tag = f"k{j}"
            kind = r.choice(list(kinds))
            plan[tag] = dict(kind=kind, n=r.choice([0, 1, 5, 15]), until=r.randint(1, 3) if kind in ("retried", "chain") else 1)
            i = j % 2
            at = sim.wallclock() + r.choice([-1, 0.05, 0.5])
            args = (tag, 1) if kind == "chain" else (tag,)
            await w.on(procs[i], dockets[i].add(kinds[kind], key=tag, when=utc(at))(*args))
            until = max(at, sim.wallclock()) + 3
            jobs = [looker(r.randint(0, 1), tag, until) for _ in range(r.randint(1, 2))]
            for _ in range(r.randint(1, 3)):
                async def later(delay=r.choice([0, 0, r.uniform(0, 1)])):
                    await asyncio.sleep(delay)
                    await subscriber(r.randint(0, 1), tag, r.random() < 0.6)
                asyncio.ensure_future(later())
            await asyncio.gather(*jobs)
        n = r.randint(2, 7)
        await asyncio.gather(*(one(j) for j in range(n)))
        ok = await w.drained(dockets[0], 30)
        c.check(ok, "not-finished", lambda: f"{w.raw_keys()}")
        await asyncio.sleep(lag + 0.5)
        stop.set()
        left = [k for k in w.raw_keys() if ":progress:" in k]
        c.check(not left, "left-behind", lambda: f"all tasks have finished, but {left} remain")
        for log in subs:
            tag, live = log["tag"], log["live"]
            want = [(o[1], o[2]) for x in model[tag] for o in x["ops"]]
            sure = [s for t, s in want if t > live + lag]
            got = [s for t, s in log["events"]]
            c.count("sub_events", len(got))
            text = lambda: f"subscriber of {tag} ({'execution' if log['whole'] else 'progress'}, live {live - sim.epoch:.4f}) got {[(round(t - sim.epoch, 4), s) for t, s in log['events']]}, reported {[(round(t - sim.epoch, 4), s) for t, s in want]}"
            # everything since it was live, in order, once
            if not crashes:
                c.check(not sure or got[-len(sure):] == sure, "sub-sequence", text)
                lead = [s for t, s in log["events"] if t > live + lag]
                c.check(len(lead) <= len([1 for t, s in want if t > live]), "sub-extra", text)
            known = {s for t, s in want} | {(0, 100, None), (None, 100, None)} | {x["next"] for x in model[tag] if x.get("next")}
            c.check(set(got) <= known, "sub-invented", text)
        gate.set()
        for h in holders:
            await asyncio.wait({h})
        c.nontrivial = c.stats["lookups"] > 5 and c.stats["sub_events"] > 5
        c.sample = f"{n} tasks, {nw} workers, {c.stats['lookups']} lookups, {c.stats['sub_events']} events"
    c.run(sim, main)


def together(c):
    """Parts of a task that report at the same time, also from elsewhere: nothing they report is lost."""
    r = c.rng
    lat = r.choice([0.001, 0.01, 0.05])
    sim = c.sim(lat_max=lat, spike_p=r.choice([0, 0.1]), spike_max=0.2)

    async def main(sim):
        from docket import CurrentDocket, CurrentExecution, Docket, Execution, Progress, Retry
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(4), concurrency=20, minimum_check_interval=sec(0.03), scheduling_resolution=sec(0.03)))
        plan, sums, finals = {}, {}, {}

        async def parts(tag, docket, key, mine):
            p = plan[tag]
            sums[tag] = 0
            handles = [mine]
            for _ in range(p["handles"]):
                handles.append((await docket.get_execution(key)).progress)

            async def part():
                h = r.choice(handles)
                for _ in range(r.randint(1, 4)):
                    await asyncio.sleep(r.choice([0, 0, lat, 3 * lat]))
                    k = r.choice([1, 1, 2, 50])
                    # what has been asked for is the most that can be seen
                    sums[tag] += k
                    await h.increment(k)
                    c.count("increments")
                    if r.random() < 0.2:
                        await h.set_message(r.choice(["a", None, "b"]))
            await asyncio.gather(*(part() for _ in range(p["parts"])))
            seen = (await docket.get_execution(key)).progress.current
            finals[tag] = seen
            c.check(seen == sums[tag], "lost-increments", lambda: f"{tag}: increments by {p['parts']} parts through {len(handles)} handles add up to {sums[tag]}, but progress says {seen}")
            for h in handles:
                await h.sync()
                c.check(h.current == sums[tag], "handle", lambda: f"{tag}: a handle says {h.current}, not {sums[tag]}")

        async def spread(tag: str, docket: Docket = CurrentDocket(), progress: Progress = Progress(), me: Execution = CurrentExecution(), retry: Retry = Retry(attempts=3)):
            async with w.running(tag, attempt=retry.attempt):
                await parts(tag, docket, me.key, me.progress)
                if retry.attempt < plan[tag]["until"]:
                    raise ValueError("again")

        async def helper(tag: str, key: str, k: int, docket: Docket = CurrentDocket()):
            e = await docket.get_execution(key)
            await e.progress.increment(k)
            helped[key].append(k)

        async def led(tag: str, docket: Docket = CurrentDocket(), progress: Progress = Progress(), me: Execution = CurrentExecution()):
            helped[me.key] = []
            amounts = [r.choice([1, 3, 10]) for _ in range(plan[tag]["parts"])]
            async with w.running(tag):
                hs = [await docket.add(helper)(tag, me.key, k) for k in amounts]
                await asyncio.gather(*(progress.increment(5) for _ in range(2)), *(h.get_result(timeout=sec(20)) for h in hs))
                e = await docket.get_execution(me.key)
                finals[tag] = e.progress.current
                c.count("increments", len(amounts) + 2)
                c.check(e.progress.current == 10 + sum(amounts), "lost-increments", lambda: f"{tag}: it and its helpers reported {10 + sum(amounts)}, but progress says {e.progress.current}")
        helped = {}
        w.tasks += [spread, helper, led]
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}")
        async with w.client() as d:
            for j in range(r.randint(1, 4)):
                tag = f"k{j}"
                plan[tag] = dict(parts=r.randint(2, 12), handles=r.choice([0, 1, 3]), until=r.choice([1, 1, 2]))
                await d.add(r.choice([spread, spread, led]), key=tag)(tag)
                await asyncio.sleep(r.choice([0, 0.1]))

            async def watch(tag):
                last = None
                while not w.ends(tag):
                    e = await d.get_execution(tag)
                    x = e and e.progress.current
                    n = len(w.starts(tag))
                    if x is not None and last is not None and last[1] == n and len(w.starts(tag)) == n:
                        c.check(x >= last[0], "went-down", lambda: f"{tag}: progress went from {last[0]} to {x}")
                        c.count("watched")
                    last = (x, n) if x is not None else None
                    await asyncio.sleep(0.02)
            if all(p["until"] == 1 for p in plan.values()):
                await asyncio.gather(*(asyncio.wait_for(watch(t), 60) for t in plan))
            ok = await w.drained(d, 60)
            c.check(ok, "not-finished", lambda: f"{w.raw_keys()}")
            c.check(set(finals) == set(plan), "not-run", lambda: f"{finals} of {plan}")
            left = [k for k in w.raw_keys() if ":progress:" in k]
            c.check(not left, "left-behind", lambda: f"all tasks have finished, but {left} remain")
        c.nontrivial = c.stats["increments"] > 3
        c.sample = f"{plan}: {c.stats['increments']} increments at once"
    c.run(sim, main)


GENERATORS = [(reports, 4), (together, 1)]
