"""D24: snapshots and worker listings tell the truth."""
import asyncio

from rv.world import World, sec, utc


def snapshots(c, n=None):
    r = c.rng
    lat = r.choice([0.001, 0.003])
    sim = c.sim(lat_max=lat)
    crashes = n is None and r.random() < 0.2
    redel = r.choice([1.0, 4.0])

    async def main(sim):
        from docket import Retry
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([1, 3, 10]), minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05)))
        gate = {}

        async def body(tag, n=1):
            async with w.running(tag, attempt=n):
                gate.setdefault(tag, asyncio.Event())
                await gate[tag].wait()

        async def slow(tag: str, a, *, b=None):
            await body(tag)

        async def quick(tag: str, a, *, b=None):
            async with w.running(tag, attempt=1):
                pass

        async def retried(tag: str, a, *, b=None, retry: Retry = Retry(attempts=3, delay=sec(1000))):
            async with w.running(tag, attempt=retry.attempt):
                raise ValueError(tag)
        fns = dict(slow=slow, quick=quick, retried=retried)
        w.tasks += list(fns.values())
        nw = r.choice([0, 1, 2, 3]) if n is None else 1

        def setup(proc, gen):
            if crashes and sim.now() < 1.5 and r.random() < 0.6:
                proc.crash_at = (proc.ncmd + r.randint(15, 80), r.choice(["before", "after"]))
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=False)
        model = {}       # key -> what was scheduled
        many = n or r.choice([0, 1, 6, 20, 60])
        async with w.client() as d, w.client(tasks=[]) as stranger:
            for j in range(many):
                k = f"k{j}"
                name = r.choice(["slow", "quick", "retried"]) if n is None else "slow"
                at = None if n or r.random() < 0.4 else sim.wallclock() + r.choice([-5, 0.1, 1.0, 50, 90000])
                args, kw = (k, r.choice([1, (2, "x"), None, b"\x00"])), r.choice([{}, {"b": [1]}])
                t = sim.wallclock()
                await d.add(fns[name], key=k, when=None if at is None else utc(at))(*args, **kw)
                model[k] = dict(name=name, at=t if at is None else at, args=args, kw=kw, slack=0.2 if at is None else 1e-5)
                if n is None and r.random() < 0.15:
                    x = r.choice(list(model))
                    if not w.starts(x) and model[x]["at"] > sim.wallclock() + 2 and model[x].get("over") is None:
                        if r.random() < 0.5:
                            await d.cancel(x)
                            model[x]["over"] = "cancelled"
                        else:
                            at = sim.wallclock() + 70
                            await d.replace(slow, utc(at), x)(x, "new")
                            model[x].update(name="slow", at=at, args=(x, "new"), kw={}, slack=1e-5)
                if n is None and r.random() < 0.3:
                    await asyncio.sleep(r.choice([0.01, 0.2]))
            for round in range(1 if n else r.randint(1, 3)):
                # come to rest
                await asyncio.sleep(3 + (redel + 1 if crashes else 0))
                if round:
                    for tag in list(gate):
                        if r.random() < 0.5:
                            gate[tag].set()
                    await asyncio.sleep(1.5)
                if sim.now() < 10 and r.random() < 0.5 and n is None:
                    await asyncio.sleep(2 * redel)         # leases are renewed meanwhile
                now = sim.wallclock()
                started = {x.tag: x for x in w.events("start")}
                ended = {x.run for x in w.events("end")}
                dead = {e["who"]: e["t"] for e in w.events("crash")}
                running, future, over = {}, {}, set()
                for k, m in model.items():
                    s = started.get(k)
                    if m.get("over"):
                        over.add(k)
                    elif s is None:
                        future[k] = m
                    elif s.run not in ended and s.proc not in dead:
                        running[k] = s
                    elif s.run in ended and m["name"] == "retried" and s.attempt < 3:
                        future[k] = dict(m, attempt=s.attempt + 1, at=[x.t for x in w.ends(k)][-1] + 1000, slack=0.05)
                    elif s.run in ended:
                        over.add(k)
                    else:
                        future[k] = dict(m, limbo=True)         # its worker is dead, not taken over yet
                for who, docket in (("client", d), ("stranger", stranger)):
                    snap = await docket.snapshot()
                    c.count("snapshots")
                    got_r = [x.key for x in snap.running]
                    got_f = [x.key for x in snap.future]
                    text = lambda: f"{who} after {sim.now():.1f}s: running {sorted(got_r)[:20]}, future {sorted(got_f)[:20]}, total {snap.total_tasks}; expected running {sorted(running)[:20]}, future {sorted(future)[:20]}"
                    c.check(len(set(got_r + got_f)) == len(got_r + got_f), "twice", text)
                    # finished by a worker that died before it could say so
                    # (or taken over, together with it, by one that is too busy to look at it yet)
                    ghosts = {x.key for x in snap.running if x.key in over and dead}
                    c.check((set(got_r) | set(got_f)) - ghosts == set(running) | set(future), "members", lambda: f"differ in {sorted((set(got_r) | set(got_f)) ^ (set(running) | set(future)))[:10]}: " + text())
                    c.check(snap.total_tasks == len(running) + len(future) + len(ghosts), "total", text)
                    # held by a dead worker, not taken over yet, or taken over by a busy one
                    limbo = {k for k, m in future.items() if m.get("limbo")} | {x.key for x in snap.running if x.key in future and dead}
                    c.check(set(got_r) - limbo - ghosts == set(running), "running", text)
                    for x in list(snap.running) + list(snap.future):
                        m = future.get(x.key) or model.get(x.key)
                        if m is None:
                            continue
                        what = (x.function_name, x.args, x.kwargs)
                        c.check(what == (m["name"], list(m["args"]), m["kw"]) or what == (m["name"], m["args"], m["kw"]), "content", lambda: f"{x.key} listed as {what}, scheduled as {m}")
                        c.check(abs(x.when.timestamp() - m["at"]) <= m["slack"] or crashes and x.key in limbo or (x.key in running and m["name"] == "retried"), "when", lambda: f"{x.key} listed for {x.when.timestamp() - sim.epoch:.6f}, scheduled for {m['at'] - sim.epoch:.6f}")
                        if x.key in future and "attempt" in m and x.key not in limbo:
                            c.check(x.attempt == m["attempt"], "attempt", lambda: f"{x.key} listed as attempt {x.attempt}, is {m['attempt']}")
                    for x in snap.running:
                        s = running.get(x.key)
                        if s is None:
                            continue
                        c.count("running_listed")
                        c.check(x.worker == s.proc, "worker", lambda: f"{x.key} runs on {s.proc}, listed with {x.worker}")
                        c.check(s.t - 20 * lat - 0.1 <= x.started.timestamp() <= s.t + 20 * lat + 0.01, "since", lambda: f"{x.key} started at {s.t - sim.epoch:.3f}, listed with {x.started.timestamp() - sim.epoch:.3f}")
                        c.check(x.state.value == "running", "state", lambda: f"{x.key}: {x.state}")
                    c.count("future_listed", len(snap.future))
                c.check(sim.wallclock() - now < 60, "slow", "")
            for tag in gate:
                gate[tag].set()
        c.nontrivial = c.stats["running_listed"] + c.stats["future_listed"] > 2
        c.sample = f"{many} tasks, {nw} workers, {c.stats['snapshots']} snapshots: {c.stats['running_listed']} running, {c.stats['future_listed']} future entries judged"
    c.run(sim, main)


def backlog(c):
    """More than a thousand messages in the stream."""
    snapshots(c, n=c.rng.choice([1010, 1100]))


def listings(c):
    r = c.rng
    lat = r.choice([0.001, 0.005])
    sim = c.sim(lat_max=lat)
    hb = r.choice([0.3, 1.0])
    missed = r.choice([2, 3, 5])
    hidden = r.random() < 0.5

    async def main(sim):
        w = World(c, sim, docket_kw=dict(heartbeat_interval=sec(hb), missed_heartbeats=missed),
                  worker_kw=dict(minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))

        def make(name):
            async def f(tag: str, dur: float = 0.0):
                async with w.running(tag):
                    await asyncio.sleep(dur)
            f.__name__ = name
            return f
        fns = {n: make(n) for n in ("alpha", "beta", "gamma", "delta:x")}
        life = {}       # worker name -> list of [up since, gone since, how, tasks]
        builtin = {"trace", "fail", "sleep"}
        lag = 12 * lat + 0.03
        t_end = sim.wallclock() + r.choice([4, 8, 15])
        outages = []

        async def one(i):
            name = f"w{i}"
            tasks = {n for n in fns if r.random() < 0.5}
            await asyncio.sleep(r.choice([0, 0, r.uniform(0, 3)]))
            while sim.wallclock() < t_end:
                rec = dict(since=None, gone=None, stopping=None, how=None, tasks=tasks | builtin)
                life.setdefault(name, []).append(rec)
                h = await w.start_worker(name, restart=None, same_name=True, tasks=[fns[t] for t in sorted(tasks)])
                rec["since"] = sim.wallclock()
                await asyncio.sleep(r.uniform(0.1, 6))
                how = r.choice(["stop", "kill", "cut", "stay", "grow"])
                if how == "grow":
                    more = fns[r.choice(sorted(fns))]
                    h.worker.docket.register(more)
                    rec["grown"] = (sim.wallclock(), more.__name__)
                    await asyncio.sleep(r.uniform(0.1, 3))
                    how = r.choice(["stop", "kill"])
                if how == "cut":
                    span = r.uniform(0.1, 2.5) * hb * missed
                    outages.append((name, sim.wallclock(), sim.wallclock() + span))
                    sim.disconnect(h.proc, span)
                    await asyncio.sleep(span + 2.5 + hb)
                    how = r.choice(["stop", "kill"])
                if how == "stop":
                    rec["stopping"] = sim.wallclock()
                    await w.stop_worker(name, 20)
                    rec["gone"], rec["how"] = sim.wallclock(), "stop"
                elif how == "kill":
                    rec["stopping"] = rec["gone"] = sim.wallclock()
                    rec["how"] = "kill"
                    w.kill_worker(name)
                    await asyncio.wait({h.supervisor})
                if how == "stay":
                    await asyncio.sleep(max(0, t_end - sim.wallclock()) + 1)
                    return
                await asyncio.sleep(r.choice([0.05, 1, hb * missed + 1]))

        async def look(d):
            while sim.wallclock() < t_end:
                await asyncio.sleep(r.uniform(0.02, 0.6))
                t0 = sim.wallclock()
                how = r.choice(["workers", "task_workers", "snapshot"])
                task = r.choice(sorted(fns) + ["trace"])
                if how == "workers":
                    got = await d.workers()
                elif how == "snapshot":
                    got = (await d.snapshot()).workers
                else:
                    got = await d.task_workers(task)
                t1 = sim.wallclock()
                c.count("listings")
                names = [x.name for x in got]
                text = lambda: f"{how}({task if how == 'task_workers' else ''}) at {t0 - sim.epoch:.3f}-{t1 - sim.epoch:.3f} lists {[(x.name, sorted(x.tasks)) for x in got]}; workers: { {n: [(z['since'] and round(z['since'] - sim.epoch, 3), z['stopping'] and round(z['stopping'] - sim.epoch, 3), z['gone'] and round(z['gone'] - sim.epoch, 3), z['how'], sorted(z['tasks']), z.get('grown')) for z in v] for n, v in life.items()} }; outages {[(n, round(a - sim.epoch, 3), round(b - sim.epoch, 3)) for n, a, b in outages]}"
                c.check(len(set(names)) == len(names), "twice", text)
                c.check(set(names) <= set(life), "unknown", text)
                for n, lives in life.items():
                    z = lives[-1]
                    cut = [b for m, a, b in outages if m == n and a < t1 and b > (z["since"] or 0)]
                    if z["since"] is not None and z["since"] < t0 - lag - (hb if z.get("x") else 0) and z["stopping"] is None:
                        # alive (an outage may hide it while it lasts and until it has reconnected)
                        # (a heartbeat that falls into the outage is repeated one interval later)
                        if t0 > z["since"] + hb + lag and not any(t0 < b + hb + 1 + lag for b in cut):
                            want = task in z["tasks"] or how != "task_workers"
                            if want:
                                c.count("alive_judged")
                                c.check(n in names, "missing", lambda: f"{n} is alive, and not listed: {text()}")
                        for x in got:
                            if x.name == n and t0 > z["since"] + hb + lag and not cut:
                                grown = z.get("grown")
                                ok = set(x.tasks) - {"_safeguard_wake"} == z["tasks"]
                                if grown:
                                    ok = set(x.tasks) - {"_safeguard_wake"} == z["tasks"] | {grown[1]} or (ok and t0 < grown[0] + hb + lag)
                                c.check(ok, "tasks", lambda: f"{n} is listed with {sorted(x.tasks)}, knows {sorted(z['tasks'])}: {text()}")
                    elif z["gone"] is not None and t0 > z["gone"]:
                        if z["how"] == "stop":
                            c.count("stopped_judged")
                            c.check(n not in names, "ghost", lambda: f"{n} has exited: {text()}")
                        elif t0 > z["gone"] + hb * missed + lag:
                            c.count("dead_judged")
                            c.check(n not in names, "ghost", lambda: f"{n} is dead: {text()}")
                    if how == "task_workers" and n in names and all(task not in y["tasks"] and y.get("grown", (0, ""))[1] != task for y in lives):
                        c.check(False, "can't", lambda: f"{n} never knew {task}: {text()}")
        async with w.client(tasks=[]) as d:
            jobs = [asyncio.ensure_future(one(i)) for i in range(r.randint(1, 5))]
            await asyncio.gather(look(d), look(d))
            for j in jobs:
                await asyncio.wait({j})
        c.nontrivial = c.stats["alive_judged"] > 3
        c.sample = f"{len(life)} workers, heartbeat {hb}s, {missed} may be missed: {c.stats['listings']} listings, {c.stats['alive_judged']} alive, {c.stats['stopped_judged']} stopped, {c.stats['dead_judged']} dead judged"
    c.run(sim, main)


DIRECTED = [backlog]
GENERATORS = [(snapshots, 1), (listings, 1)]
