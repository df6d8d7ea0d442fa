"""D12: a timeout stops a task that overruns and never disturbs one that does not."""
import asyncio

from rv.world import World, sec


class Own(Exception):
    def __eq__(self, o):
        return isinstance(o, Own) and self.args == o.args

    __hash__ = Exception.__hash__


def timeouts(c):
    r = c.rng
    poll = 0.05
    sim = c.sim(lat_max=0.003)

    async def main(sim):
        from docket import CurrentDocket, Depends, Progress, Retry, Timeout
        from contextlib import asynccontextmanager
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(r.choice([0.5, 2])), concurrency=30, minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        plan, fns = {}, {}
        lock = asyncio.Lock()

        @asynccontextmanager
        async def resource():
            box = []
            try:
                yield box
            finally:
                sim.log("teardown", tag=box[0] if box else None)

        async def wait(kind, dur, d, tag):
            if kind == "sleep":
                await asyncio.sleep(dur)
            elif kind == "event":
                try:
                    await asyncio.wait_for(asyncio.Event().wait(), dur)
                except asyncio.TimeoutError:
                    pass
            elif kind == "lock":
                end = asyncio.get_running_loop().time() + dur
                async with lock:
                    await asyncio.sleep(max(0, end - asyncio.get_running_loop().time()))
            elif kind == "spin":
                end = asyncio.get_running_loop().time() + dur
                while asyncio.get_running_loop().time() < end:
                    await asyncio.sleep(0.01)
            elif kind == "redis":
                end = asyncio.get_running_loop().time() + dur
                while asyncio.get_running_loop().time() < end:
                    async with d.redis() as redis:
                        await redis.get("dk:nothing")
                        await asyncio.sleep(0.005)
            elif kind == "subtask":
                await asyncio.gather(asyncio.sleep(dur), asyncio.sleep(dur / 2))
            elif kind == "shielded":
                await asyncio.shield(asyncio.sleep(dur))

        def define(i, base, attempts):
            async def task(tag: str, box=Depends(resource), timeout: Timeout = Timeout(sec(base)), retry: Retry = Retry(attempts=attempts, delay=sec(0.02)), d=CurrentDocket()):
                box.append(tag)
                p = plan[tag]
                loop = asyncio.get_running_loop()
                deadline = sim.wallclock() + base
                try:
                    async with w.running(tag, attempt=retry.attempt) as run:
                        for kind, dur, ext in p["steps"]:
                            await wait(kind, dur, d, tag)
                            if ext is not None and sim.wallclock() < deadline:
                                timeout.extend() if ext == "base" else timeout.extend(sec(ext))
                                deadline += base if ext == "base" else ext
                                sim.log("deadline", tag=tag, run=run, at=deadline)
                                left = timeout.remaining().total_seconds()
                                c.check(abs(left - (deadline - sim.wallclock())) < 2e-3, "remaining", lambda: f"remaining() says {left} with {deadline - sim.wallclock()} left")
                        if p["end"] == "own-timeout":
                            raise asyncio.TimeoutError(tag)
                        if p["end"] == "inner-timeout":
                            await asyncio.wait_for(asyncio.sleep(99), 0)
                        if p["end"] == "error":
                            raise Own(tag)
                finally:
                    cut = True
                    try:
                        if p["cleanup"]:
                            await asyncio.sleep(p["cleanup"])
                        cut = False
                    finally:
                        sim.log("cleaned", tag=tag, run=run, cut=cut)
                return p["value"]
            task.__name__ = f"task{i}"
            fns[task.__name__] = task
            return base, attempts
        decl = [define(i, b, a) for i, (b, a) in enumerate([(0.05, 1), (0.3, 1), (0.3, 3), (1.0, 1), (1.0, 2), (2.5, 1)])]
        w.tasks += list(fns.values())
        for i in range(r.randint(1, 2)):
            await w.start_worker(f"w{i}")
        async with w.client() as d:
            execs = {}
            for j in range(r.randint(8, 20)):
                tag = f"k{j}"
                i = r.randrange(len(decl))
                base, _ = decl[i]
                steps, total, allowed = [], 0.0, base
                for _ in range(r.choice([1, 1, 2, 3, 5])):
                    dur = base * r.choice([0, 0.1, 0.5, 0.9, 0.9, 0.999, 1.0, 1.001, 1.05, 2.0])
                    ext = r.choice([None, None, "base", base * r.choice([0.1, 0.5, 3]), 0])
                    steps.append((r.choice(["sleep", "sleep", "event", "lock", "spin", "redis", "subtask", "shielded"]), dur, ext))
                plan[tag] = dict(i=i, steps=steps, end=r.choice(["ok", "ok", "ok", "error", "own-timeout", "inner-timeout"]),
                                 cleanup=r.choice([0, 0, 0.02, 0.2]), value=r.choice([None, 1, {"a": [tag]}, tag]))
                execs[tag] = await d.add(fns[f"task{i}"], key=tag)(tag)
                await asyncio.sleep(r.choice([0, 0, 0.2]))
            ok = await w.drained(d, 200)
            c.check(ok, "not-finished", lambda: f"still outstanding: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:5]}")
            for tag, e in execs.items():
                p = plan[tag]
                base, attempts = decl[p["i"]]
                st, en = w.starts(tag), {x.run: x for x in w.events("end", tag=tag)}
                cleaned = {x.run: x for x in w.events("cleaned", tag=tag)}
                info = lambda: f"timeout {base}s, {attempts} attempt(s), plan {p}, runs {[(x.attempt, round(x.t-sim.epoch,4), x.run in en and (round(en[x.run].t-sim.epoch,4), en[x.run].outcome)) for x in st]}, extensions {[(x.run, round(x.at-sim.epoch,4)) for x in w.events('deadline', tag=tag)]}"
                last = None
                for s in st:
                    x = en.get(s.run)
                    if x is None:
                        c.check(False, "no-end", info)
                        continue
                    dl = [y.at for y in w.events("deadline", tag=tag, run=s.run)]
                    deadline = dl[-1] if dl else s.t + base
                    c.count("attempts")
                    interrupted = x.outcome == "cancelled"
                    if interrupted:
                        c.count("timed_out")
                        c.check(x.t >= deadline - 1e-3, "too-early", lambda: f"interrupted {deadline-x.t:.4f}s before its deadline: {info()}")
                    c.check(x.t <= deadline + 0.02, "too-late", lambda: f"still running {x.t-deadline:.4f}s after its deadline: {info()}")
                    c.check(s.run in cleaned, "no-cleanup", lambda: f"clean-up code did not run: {info()}")
                    # a deadline that passes during the clean-up counts as well
                    y = cleaned.get(s.run)
                    cut = y is not None and y.cut
                    if cut:
                        c.check(not interrupted and deadline - 1e-3 <= y.t <= deadline + 0.02, "cleanup-cut", lambda: f"clean-up cut short at {y.t-sim.epoch:.4f}: {info()}")
                    last = "timeout" if interrupted or cut else p["end"]
                for s in st[:-1]:
                    x = en.get(s.run)
                    good = x is not None and x.outcome == "ok" and p["end"] == "ok" and not (s.run in cleaned and cleaned[s.run].cut)
                    c.check(not good, "disturbed", lambda: f"an attempt that finished in time was not accepted: {info()}")
                c.check(len(st) == attempts or last == "ok", "retries", lambda: f"{len(st)} attempts: {info()}")
                n_down = len(w.events("teardown", tag=tag))
                c.check(n_down == len(st), "teardown", lambda: f"dependency torn down {n_down} times: {info()}")
                try:
                    got = ("ok", await e.get_result(timeout=sec(2)))
                except BaseException as err:
                    got = (type(err).__name__, err)
                await e.sync()
                if last == "ok":
                    c.check(got == ("ok", p["value"]) and e.state.value == "completed", "result", lambda: f"result is {got!r}, state {e.state}: {info()}")
                elif last == "error":
                    c.check(got == ("Own", Own(tag)) and e.state.value == "failed", "result", lambda: f"result is {got!r}, state {e.state}: {info()}")
                elif last in ("own-timeout", "inner-timeout", "timeout"):
                    good = got[0] == "TimeoutError" and e.state.value == "failed"
                    if last == "own-timeout":
                        good = good and got[1].args == (tag,)
                    if last == "timeout":
                        good = good and "exceeded" in str(got[1])
                    c.check(good, "result", lambda: f"{last}, but result is {got!r}, state {e.state}: {info()}")
        c.nontrivial = c.stats["timed_out"] > 0 and c.stats["attempts"] > c.stats["timed_out"]
        c.sample = f"{len(plan)} tasks, {c.stats['attempts']} attempts, {c.stats['timed_out']} interrupted by their timeout"
    c.run(sim, main)


GENERATORS = [(timeouts, 1)]
