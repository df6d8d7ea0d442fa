"""D10: automatic perpetual tasks are always kept scheduled, exactly once."""
import asyncio

from rv.world import World, fault_after_delivery, intervals, max_overlap, sec

RESEED = 60


def _run(c, trouble):
    """trouble: None | 'crash' | 'sever'"""
    r = c.rng
    redel = r.choice([1.0, 3.0])
    poll = 0.1
    sim = c.sim(lat_max=r.choice([0.003, 0.02]), pubsub_coarse=0.5)

    async def main(sim):
        from docket import Perpetual
        w = World(c, sim, docket_kw=dict(heartbeat_interval=sec(5)),
                  worker_kw=dict(redelivery_timeout=sec(redel), minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        every, autos, late_ones = {}, [], []

        def define(name, ev, dur, fails):
            async def auto(p: Perpetual = Perpetual(every=sec(ev), automatic=True)):
                async with w.running(name):
                    await asyncio.sleep(dur)
                    if r.random() < fails:
                        raise ValueError(name)
            auto.__name__ = name
            every[name] = ev
            return auto
        for i in range(r.randint(1, 3)):
            ev = r.choice([0.4, 1.0, 3.0, 7.0])
            autos.append(define(f"auto{i}", ev, r.choice([0, 0.05, 0.3]), r.choice([0, 0, 0.4])))

        async def manual(p: Perpetual = Perpetual(every=sec(0.5))):
            async with w.running("manual"):
                pass

        async def other(tag: str):
            async with w.running(tag):
                await asyncio.sleep(0.1)
        common = [manual, other]
        up = {}     # worker name -> [[from, to]] intervals of a knowing worker being up

        def ready(name):
            up.setdefault(name, []).append([sim.wallclock(), None])

        def gone(name):
            if up.get(name) and up[name][-1][1] is None:
                up[name][-1][1] = sim.wallclock()

        def setup(proc, gen):
            base = proc.name.split(".")[0]
            if trouble == "crash" and sim.now() < 30 and r.random() < 0.8:
                if r.random() < 0.4:
                    proc.crash_at = (r.randint(5, 40), r.choice(["before", "after"]))      # while starting up
                elif r.random() < 0.5:
                    fault_after_delivery(sim, proc, r.randint(1, 10), r.choice(["crash-before", "crash-after"]), r.randint(1, 3))
                else:
                    proc.crash_at = (r.randint(40, 900), r.choice(["before", "after"]))
            if outage:
                # the store fails just when the automatic tasks are looked after
                def failing(name, args, t0=sim.now()):
                    return outage[0] <= sim.now() - t0 <= outage[1] and "perpetual" in str(args)[:200]
                proc.fail_pred, proc.p_fail_before = failing, 1.0
        outage = (50, 75) if trouble == "sever" and r.random() < 0.4 else None
        names = [f"w{i}" for i in range(r.randint(1, 4))]
        severed = {}     # task -> moments its chain may have been cut

        async def launch(name, **kw):
            await w.start_worker(name, tasks=common + autos, wait=True, setup=setup, **kw)
            ready(name)
        # all together, or staggered
        await asyncio.gather(*[launch(n, restart=0.3 if trouble == "crash" else None, concurrency=r.choice([12, 20])) for n in names])
        if trouble is None and r.random() < 0.5:
            # tasks registered while the workers start up
            new = define("late_one", 1.0, 0, 0)
            await asyncio.sleep(r.uniform(0, 0.08))
            for n in names:
                w.workers[n].worker.docket.register(new)
            autos.append(new)
            late_ones.append("late_one")
            severed["late_one"] = [sim.wallclock()]
        c.check(not w.unexpected_worker_exits() or trouble == "crash", "worker-died", lambda: w.unexpected_worker_exits()[0].how[-300:])
        async with w.client(tasks=common + autos) as d:
            n_restart = r.randint(0, 5) if trouble is None else 0
            for k in range(r.randint(0, 6)):
                await d.add(other, key=f"o{k}")(f"o{k}")
            horizon = r.uniform(15, 30) if trouble != "sever" else r.uniform(20, 90)
            end = sim.now() + horizon
            while sim.now() < end:
                await asyncio.sleep(r.uniform(0.3, 6))
                if trouble is None and n_restart and r.random() < 0.6:
                    # a rolling restart: a new one comes up before (or after) an old one goes
                    n_restart -= 1
                    new = f"r{n_restart}"
                    old = r.choice([n for n in w.workers if w.workers[n].alive])
                    first_up = r.random() < 0.7
                    if first_up:
                        await launch(new, restart=None)
                    gone(old)
                    await w.stop_worker(old)
                    if not first_up:
                        await launch(new, restart=None)
                if trouble == "sever":
                    x = r.random()
                    t = r.choice(autos).__name__
                    if x < 0.35:
                        severed.setdefault(t, []).append(sim.wallclock())
                        await d.cancel(t)
                        severed[t].append(sim.wallclock())
                    elif x < 0.55 and "old" not in w.workers:
                        # a worker that doesn't know them swallows runs for a while
                        for a in autos:
                            severed.setdefault(a.__name__, []).append(sim.wallclock())
                        await w.start_worker("old", tasks=common, restart=None, concurrency=20)
                        await asyncio.sleep(r.uniform(0.5, 8))
                        await w.stop_worker("old")
                        for a in autos:
                            severed.setdefault(a.__name__, []).append(sim.wallclock())
                    elif x < 0.7 and len(autos) < 5:
                        # a task registered after the workers started
                        new = define(f"late{len(autos)}", 2.0, 0, 0)
                        for n in names:
                            w.workers[n].worker.docket.register(new)
                        autos.append(new)
                        late_ones.append(new.__name__)
                        severed.setdefault(new.__name__, []).append(sim.wallclock())
            if trouble == "sever":
                await asyncio.sleep(max(RESEED + 3, 140 - sim.now() if outage else 0))
            elif trouble == "crash":
                await asyncio.sleep(max(0, 31 - sim.now()) + RESEED + 12 + redel)
            t_end = sim.wallclock()
            for n in list(w.workers):
                gone(n)
            c.check(not w.events("start", tag="manual"), "not-automatic", "a perpetual task that isn't automatic was scheduled by a worker")
            crashes = [e.t for e in w.events("crash")]
            dead = {e["who"]: e.t for e in w.events("crash")}
            # moments at which some knowing worker was up, merged
            spans = sorted((a, b) for iv in up.values() for a, b in iv)
            merged = []
            for a, b in spans:
                if merged and a <= merged[-1][1]:
                    merged[-1][1] = max(merged[-1][1], b)
                else:
                    merged.append([a, b])
            for fn in autos:
                name, ev = fn.__name__, every[fn.__name__]
                runs = intervals(w, tag=name)
                st = [e for _, _, e in runs]

                def hist(at):
                    return f"{name} every {ev}s, around {at-sim.epoch:.3f}: runs {[(round(a-sim.epoch,3), round(b-sim.epoch,3), e.proc) for a, b, e in runs if abs(a-at) < 4*ev+12][:12]}; crashes {[round(x-sim.epoch,3) for x in crashes]}, severed {[round(x-sim.epoch,2) for x in severed.get(name, [])]}"
                n, at = max_overlap(runs)
                c.check(n <= 1, "two-chains", lambda: "two runs at once; " + hist(at.t))
                for (a, ae, x), (b, _, y) in zip(runs, runs[1:]):
                    c.count("gaps")
                    broken = any(a - 0.1 <= s <= b for s in severed.get(name, [])) or (severed.get(name) and any(s0 <= b and a <= s1 for s0, s1 in zip(severed[name][::2], severed[name][1::2])))
                    redone = x.proc in dead and a <= dead[x.proc] <= b and dead[x.proc] < ae + 11
                    if not broken and not redone:
                        c.check(b - a >= ev - 3e-3, "shifted", lambda: f"started again after {b-a:.3f}s; " + hist(b))
                        slack = 2 * poll + 0.5
                        covered = any(s0 <= a and b <= s1 for s0, s1 in merged)
                        # a run delivered to a worker that was just stopping comes back after the redelivery timeout
                        if any(a <= e.t <= b for e in w.events("stop_requested")):
                            slack += redel + 1
                        near_crash = any(a - 11 <= t <= b for t in crashes)   # an abandoned lock lasts 10 s
                        if covered and not near_crash:
                            c.check(b - a <= max(ev, ae - a) + slack, "shifted", lambda: f"started again only after {b-a:.3f}s; " + hist(b))
                # scheduled at all: in every stretch with a knowing worker there is a run
                for s0, s1 in merged:
                    in_trouble = trouble == "crash" and bool(crashes)
                    bound = ev + 1.5 + 2 * poll
                    if severed.get(name):
                        bound = (2 if outage else 1) * RESEED + ev + 3
                    if trouble is None and w.events("stop_requested"):
                        bound += redel + 1
                    if in_trouble:
                        bound = RESEED + 10 + redel + ev + 3
                    s0 = max(s0, severed[name][0]) if name in late_ones else s0
                    if s1 <= s0:
                        continue
                    pts = [s0] + [a for a, _, _ in runs if s0 <= a <= s1] + [s1]
                    for p, q in zip(pts, pts[1:]):
                        c.check(q - p <= bound, "not-scheduled", lambda: f"no run for {q-p:.1f}s although a worker that knows it was up (allowed: {bound:.1f}s); " + hist(p))
            c.count("automatic_tasks", len(autos))
            c.count("severed", sum(len(x) for x in severed.values()))
        for n in list(w.workers):
            h = w.workers[n]
            h.stop_requested = True
            if h.run_task is not None:
                h.run_task.cancel()
        c.nontrivial = c.stats["gaps"] > 5
        c.sample = f"{trouble}: {len(names)} workers, tasks {[(f.__name__, every[f.__name__], len(w.starts(f.__name__))) for f in autos]}, crashes {len(crashes)}, severed { {k: [round(x-sim.epoch,1) for x in v] for k, v in severed.items()} }"
    c.run(sim, main)


def calm(c):
    _run(c, None)


def crashing(c):
    _run(c, "crash")


def severed(c):
    _run(c, "sever")


GENERATORS = [(calm, 2), (crashing, 2), (severed, 2)]
