"""D02: nothing starts early; due tasks start promptly."""
import asyncio
from datetime import timedelta, timezone
from zoneinfo import ZoneInfo

from rv.world import World, sec, utc

EPS = 2e-6


def _bound(w, extra=0.0):
    k = w.worker_kw
    return (k["scheduling_resolution"] + k["minimum_check_interval"]).total_seconds() + 0.25 + extra


def due_times(c):
    r = c.rng
    sim = c.sim()
    n, nw = r.choice([20, 60, 120]), r.randint(1, 4)
    backlog = r.choice([0, 0, 50, 400])
    res, chk = r.choice([0.05, 0.25, 1.0]), r.choice([0.05, 0.25, 0.7])

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=200, scheduling_resolution=sec(res), minimum_check_interval=sec(chk)))

        async def job(tag: int):
            async with w.running(tag):
                await asyncio.sleep(r.choice([0, 0.1]))
        w.tasks.append(job)
        start_workers_late = r.random() < 0.3
        async def workers():
            for i in range(nw):
                await w.start_worker(f"w{i}")
        if not start_workers_late:
            await workers()
        ready_at = sim.wallclock()
        async with w.client() as d:
            for b in range(backlog):
                await d.add(job, when=utc(sim.wallclock() + 3600 + b), key=f"far{b}")(-b - 1)
            base = sim.wallclock() + 1
            whens, called, accepted = {}, {}, {}
            equal = base + r.uniform(0, 5)
            async def add(i):
                style = r.random()
                if style < 0.1:
                    t = base - r.choice([1, 3600, 86400 * 400])
                elif style < 0.25:
                    t = equal
                elif style < 0.4:
                    t = equal + r.randint(-3, 3) * 1e-6
                elif style < 0.5:
                    t = sim.wallclock() + r.uniform(-0.003, 0.006)
                else:
                    t = base + r.uniform(0, 8)
                when = utc(t)
                tz = r.choice([timezone.utc, timezone(timedelta(hours=-11, minutes=-30)), ZoneInfo("Europe/Berlin"), ZoneInfo("America/St_Johns")])
                when = when.astimezone(tz)
                whens[i] = when.timestamp()
                called[i] = sim.wallclock()
                await d.add(job, when=when, key=f"t{i}")(i)
                accepted[i] = sim.wallclock()
            for i in range(0, n, 5):
                await asyncio.gather(*[add(j) for j in range(i, min(i + 5, n))])
                await asyncio.sleep(r.choice([0, 0.02, 0.1]))
            if start_workers_late:
                await asyncio.sleep(r.uniform(0, 4))
                await workers()
                ready_at = sim.wallclock()
            end = max(max(whens.values()), sim.wallclock()) + _bound(w) + 1
            await asyncio.sleep(max(0, end - sim.wallclock()))
            bound = _bound(w)
            for i in range(n):
                s = w.starts(i)
                for e in s:
                    c.check(e.t >= whens[i] - EPS, "early", lambda: f"task {i} due at {whens[i]-sim.epoch:.6f} started {whens[i]-e.t:.6f}s early")
                ref = max(whens[i], accepted[i], ready_at)
                late = (s[0].t if s else sim.wallclock()) - ref
                c.check(bool(s) and late <= bound, "late",
                        lambda: f"task {i} due {whens[i]-sim.epoch:.3f} accepted {accepted[i]-sim.epoch:.3f} workers ready {ready_at-sim.epoch:.3f} {'started' if s else 'not started'} {late:.3f}s late; bound {bound:.3f}, backlog {backlog}, {nw} workers")
            far = [e for e in w.events("start") if e.tag < 0]
            c.check(not far, "early", lambda: f"{len(far)} tasks due in an hour started already")
        c.nontrivial = True
        c.sample = f"due_times: {n} tasks, {nw} workers, backlog {backlog}, resolution {res}, check {chk}, late workers {start_workers_late}"
    c.run(sim, main)


def rescheduled(c):
    """Retries, repetitions and replacements obey their own times."""
    r = c.rng
    sim = c.sim()
    from docket import CurrentExecution, Execution, Perpetual, Retry

    rd, every = r.choice([0.0, 0.3, 1.7]), r.choice([0.2, 0.9, 2.5])
    nw = r.randint(1, 3)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=50))
        due = {}

        async def flaky(tag: str, retry: Retry = Retry(attempts=4, delay=sec(rd))):
            async with w.running(tag, attempt=retry.attempt):
                await asyncio.sleep(r.choice([0, 0.2]))
                due[tag, retry.attempt + 1] = sim.wallclock() + rd
                raise ValueError("x")

        async def chain(tag: str, n: int, perpetual: Perpetual = Perpetual(every=sec(every))):
            async with w.running(tag, attempt=n):
                due[tag, n + 1] = sim.wallclock() + every - 0.05
                if n >= 5:
                    perpetual.cancel()
                    due.pop((tag, n + 1))
                else:
                    x = r.random()
                    if x < 0.3:
                        dt = r.uniform(0.1, 3)
                        perpetual.after(sec(dt))
                        due[tag, n + 1] = sim.wallclock() + dt
                    elif x < 0.5:
                        t = sim.wallclock() + r.uniform(0.1, 3)
                        perpetual.at(utc(t))
                        due[tag, n + 1] = t
                    perpetual.perpetuate(tag, n + 1)
                await asyncio.sleep(r.choice([0, 0.1]))

        async def once(tag: str, n: int):
            async with w.running(tag, attempt=n):
                pass
        w.tasks += [flaky, chain, once]
        for i in range(nw):
            await w.start_worker(f"w{i}")
        async with w.client() as d:
            reps = {}
            for i in range(4):
                await d.add(flaky, key=f"f{i}")(f"f{i}")
                await d.add(chain, key=f"c{i}")(f"c{i}", 1)
            async def repl(i):
                key = f"r{i}"
                await d.add(once, when=utc(sim.wallclock() + r.uniform(0.5, 3)), key=key)(key, 0)
                for k in range(1, r.randint(2, 4)):
                    await asyncio.sleep(r.uniform(0, 0.4))
                    t = sim.wallclock() + r.uniform(0.2, 4)
                    due[key, k] = t
                    reps[key] = (k, t)
                    await d.replace(once, when=utc(t), key=key)(key, k)
            await asyncio.gather(*[repl(i) for i in range(8)])
            await asyncio.sleep(18)
            bound = _bound(w)
            for e in w.events("start"):
                t = due.get((e.tag, e.attempt))
                if t is None:
                    continue
                c.check(e.t >= t - EPS, "early", lambda: f"{e.tag} #{e.attempt} was to start at {t-sim.epoch:.4f} but started at {e.t-sim.epoch:.4f}")
                c.check(e.t <= t + bound + 0.5, "late", lambda: f"{e.tag} #{e.attempt} due at {t-sim.epoch:.4f} started at {e.t-sim.epoch:.4f}, {e.t-t:.3f}s late")
            for key, (k, t) in reps.items():
                c.check(any(e.attempt == k for e in w.starts(key)), "late", lambda: f"{key}: replacement {k} due {t-sim.epoch:.3f} never started")
            for i in range(4):
                c.check(len(w.starts(f"f{i}")) == 4, "late", lambda: f"f{i} started {len(w.starts(f'f{i}'))} of 4 attempts")
                c.check(len(w.starts(f"c{i}")) == 5, "late", lambda: f"c{i} started {len(w.starts(f'c{i}'))} of 5 runs in time")
        c.nontrivial = True
        c.sample = f"rescheduled: retry delay {rd}, every {every}, {nw} workers"
    c.run(sim, main)


def scheduler_loss(c):
    """Promptness needs only one healthy worker: others crash, stall or lose
    their connection while tasks come due."""
    r = c.rng
    sim = c.sim()
    n = 40

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=100, redelivery_timeout=sec(30)))

        async def job(tag: int):
            async with w.running(tag):
                pass
        w.tasks.append(job)
        await w.start_worker("good")
        bad = []
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"bad{i}", restart=None, concurrency=1)
            bad.append(f"bad{i}")
        async with w.client() as d:
            whens = {}
            for i in range(n):
                whens[i] = sim.wallclock() + r.uniform(0.1, 6)
                await d.add(job, when=utc(whens[i]), key=f"t{i}")(i)
            acc = sim.wallclock()
            for b in bad:
                async def hurt(b=b):
                    await asyncio.sleep(r.uniform(0, 4))
                    p = w.workers[b].proc
                    x = r.random()
                    if x < 0.4:
                        w.kill_worker(b)
                    elif x < 0.7:
                        sim.stall(p, r.uniform(1, 3))
                    else:
                        sim.disconnect(p, r.uniform(1, 3))
                asyncio.ensure_future(hurt())
            await asyncio.sleep(9)
            bound = _bound(w)
            late = []
            for i in range(n):
                s = w.starts(i)
                for e in s:
                    c.check(e.t >= whens[i] - EPS, "early", lambda: f"task {i} started {whens[i]-e.t:.6f}s early")
                if not s or s[0].t > max(whens[i], acc) + bound:
                    late.append(i)
            # a hurt worker (concurrency 1) may hold at most the message it was
            # just handed, plus one more handed to it in the same instant
            c.check(len(late) <= 2 * len(bad), "late", lambda: f"{len(late)} of {n} due tasks were late although a healthy worker with free capacity was up: {late}")
        c.nontrivial = True
        c.sample = f"scheduler_loss: {len(bad)} bad workers"
    c.run(sim, main)


GENERATORS = [(due_times, 3), (rescheduled, 2), (scheduler_loss, 1)]
