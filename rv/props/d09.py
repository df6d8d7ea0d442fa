"""D09: a perpetual chain has exactly one next run, at its interval."""
import asyncio

from rv.world import World, intervals, max_overlap, sec, utc


def _run(c, crashes):
    r = c.rng
    redel = r.choice([0.8, 2.0])
    lat = 0.003
    sim = c.sim(lat_max=lat)
    poll = 0.05

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=30, minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        from docket import Perpetual
        every = {}
        fns = {}
        stop = {"all": False}

        def define(i, ev):
            async def chain(tag: str, n: int, opt: str, p: Perpetual = Perpetual(every=sec(ev))):
                async with w.running(tag, n=n, opt=opt) as run:
                    step = plan[tag].get(n, {})
                    dur = step.get("dur", 0)
                    if dur:
                        await asyncio.sleep(dur)
                    ask = None
                    if step.get("after") is not None:
                        p.after(sec(step["after"]))
                        ask = sim.wallclock() + step["after"]
                    if step.get("at") is not None:
                        p.at(utc(sim.wallclock() + step["at"]))
                        ask = sim.wallclock() + step["at"]
                    if step.get("keep"):
                        nxt = (n, opt)          # same arguments again
                    else:
                        nxt = (n + 1, opt + "x" if len(opt) < 5 else "o")
                        p.perpetuate(tag, nxt[0], opt=nxt[1])
                    last = step.get("stop") or stop["all"]
                    if last:
                        p.cancel()
                    sim.log("asked", tag=tag, run=run, nxt=nxt, ask=ask, last=bool(last))
                    if step.get("fail"):
                        raise ValueError(tag)
            chain.__name__ = f"chain{i}"
            fns[i] = chain
            every[i] = ev
            w.tasks.append(chain)
        for i, ev in enumerate([0, 0.2, 0.5, 1.0]):
            define(i, ev)

        def setup(proc, gen):
            if crashes and sim.now() < 6 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(10, 150), r.choice(["before", "after"]))
        plan = {}
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=False)
        kinds = {}
        cancelled = {}
        async with w.client() as d:
            for j in range(r.randint(2, 5)):
                key = f"p{j}"
                i = kinds[key] = r.randrange(len(fns))
                steps = plan[key] = {}
                for n in range(1, 200):
                    if r.random() < 0.5:
                        s = steps[n] = {}
                        if r.random() < 0.5:
                            s["dur"] = r.choice([0.01, 0.1, 0.3, 0.7, 1.3 * redel if n % 4 == 0 else 0.05])
                        if r.random() < 0.15:
                            s["after"] = r.choice([0, 0.05, 0.4, 0.9])
                        elif r.random() < 0.1:
                            s["at"] = r.choice([-1, 0.3])
                        if r.random() < 0.3:
                            s["fail"] = True
                    if every[i] == 0 and "after" not in steps.get(n, {}):
                        steps.setdefault(n, {}).setdefault("dur", 0.05)
                if r.random() < 0.3:
                    steps[r.randint(1, 6)] = {"stop": True, "fail": r.random() < 0.3}
                await d.add(fns[i], when=utc(sim.wallclock() + r.choice([0, 0.3])), key=key)(key, 1, opt="o")
            await asyncio.sleep(r.uniform(3, 7))
            for key in plan:
                if r.random() < 0.4:
                    await d.cancel(key)
                    cancelled[key] = sim.wallclock()
                    await asyncio.sleep(r.uniform(0, 0.3))
            if crashes:
                await asyncio.sleep(max(0, 7 - sim.now()) + redel + 1)
            n_before = {k: len(w.starts(k)) for k in plan}
            await asyncio.sleep(2.5 + (redel if crashes else 0))
            stop["all"] = True
            ok = await w.drained(d, 20 + 3 * redel)
            c.check(ok, "not-ended", lambda: f"still outstanding although every chain cancels itself: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            quiet = len(w.events("start"))
            await asyncio.sleep(2 + redel)
            c.check(len(w.events("start")) == quiet, "ran-after-end", lambda: f"runs continue after every chain ended: {[(e.tag, e.n) for e in w.events('start')[quiet:]][:4]}")
            asked = {e.run: e for e in w.events("asked")}
            endt = {e.run: e for e in w.events("end")}
            dead = {e["who"]: e.t for e in w.events("crash")}
            for key in plan:
                ev = every[kinds[key]]
                st = w.starts(key)

                def hist(at=None):
                    rows = [(e.kind, e.get("n"), round(e.t - sim.epoch, 3), e.proc, e.get("outcome", "")) for e in sim.events if e.get("tag") == key and e.kind in ("start", "end")]
                    if at is not None:
                        rows = [x for x in rows if abs(x[2] - (at - sim.epoch)) < 2.5]
                    return f"{key} every {ev}s, cancelled {key in cancelled and round(cancelled[key]-sim.epoch, 3)}: {rows[-14:]}"
                n, at = max_overlap(intervals(w, tag=key))
                c.check(n <= 1, "parallel", lambda: f"two runs at once; {hist(at.t)}")
                for a, b in zip(st, st[1:]):
                    x = asked.get(a.run)
                    if a.run not in endt or endt[a.run].outcome == "cancelled":
                        if a.proc not in dead:
                            # interrupted by cancel: nothing may follow
                            c.check(False, "ran-after-end", lambda: f"a run followed an interrupted one; {hist(b.t)}")
                        else:
                            c.check((b.n, b.opt) == (a.n, a.opt), "arguments", lambda: f"after a crash run {(a.n, a.opt)} was followed by {(b.n, b.opt)}; {hist(b.t)}")
                        continue
                    if x is None:
                        continue
                    redone = (b.n, b.opt) == (a.n, a.opt) and (b.n, b.opt) != x.nxt
                    if redone:
                        # repeated instead of followed up: only when its worker crashed before it could schedule
                        # the next one (it may have to wait for the key's lock, abandoned by another crash, up to 10 s)
                        c.check(a.proc in dead and endt[a.run].t <= dead[a.proc] <= b.t and dead[a.proc] - endt[a.run].t < 11, "repeated", lambda: f"run {a.n} was repeated; {hist(b.t)}")
                        continue
                    c.check(not x.last, "ran-after-end", lambda: f"a run followed one that cancelled the chain; {hist(b.t)}")
                    c.check((b.n, b.opt) == x.nxt, "arguments", lambda: f"run {(a.n, a.opt)} asked for {x.nxt}, next run got {(b.n, b.opt)}; {hist(b.t)}")
                    due = x.ask if x.ask is not None else a.t + ev
                    c.count("gaps")
                    c.check(b.t >= due - 2e-3, "early", lambda: f"run {b.n} was due {due-sim.epoch:.4f} and started {b.t-sim.epoch:.4f}; {hist(b.t)}")
                    if not crashes:
                        bound = max(due, endt[a.run].t) + 2 * poll + 0.15
                        c.check(b.t <= bound, "late", lambda: f"run {b.n} was due {due-sim.epoch:.4f} and started only {b.t-sim.epoch:.4f}; {hist(b.t)}")
                last = st[-1] if st else None
                over = any(x.last for x in w.events("asked", tag=key) if endt.get(x.run) is not None)
                if key in cancelled:
                    late = [e for e in st if e.t > cancelled[key] + 0.15]
                    c.check(not late, "ran-after-end", lambda: f"runs after the chain was cancelled; {hist(late[0].t)}")
                else:
                    c.check(over, "chain-lost", lambda: f"the chain stopped by itself after {len(st)} runs; {hist(last.t if last else 0)}")
                c.count("runs", len(st))
        c.nontrivial = c.stats["gaps"] > 10
        c.sample = f"chains {[(k, every[kinds[k]], len(w.starts(k))) for k in plan]}, cancelled {list(cancelled)}, crashes {len(w.events('crash'))}"
    c.run(sim, main)


def calm(c):
    _run(c, False)


def crashing(c):
    _run(c, True)


GENERATORS = [(calm, 1), (crashing, 1)]
