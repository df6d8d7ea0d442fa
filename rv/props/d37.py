"""D37: the assertions of docket.testing hold exactly when what they say is so."""
import asyncio

from rv.world import World, sec, utc


class Eq:
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Eq) and self.x == other.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return f"Eq({self.x})"


VALUES = [1, 1.0, True, "1", "a", (1, 2), [1, 2], None, b"a", {"k": 1}, Eq(3), float("nan"), ""]


def same(a, b):
    return a is b or a == b or (a != a and b != b)


def assertions(c):
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.001, 0.003]))

    async def main(sim):
        from docket import Agenda, testing
        w = World(c, sim, worker_kw=dict(concurrency=60, minimum_check_interval=sec(0.2), scheduling_resolution=sec(0.2)))
        gates = {}

        def define(name):
            async def f(*args, **kwargs):
                async with w.running(str(len(w.events("start")))):
                    gates[name] = asyncio.Event()
                    if name == "slow":
                        await gates[name].wait()
            f.__name__ = name
            return f
        fns = {n: define(n) for n in ("slow", "quick", "other", "quick_too")}
        w.tasks += list(fns.values())
        waiting, running = {}, {}

        async def agree(d, what, want, coro):
            try:
                await coro
                got = None
            except AssertionError as e:
                got = str(e)
            except Exception as e:
                c.violation("raised", f"{what}: {e!r}")
                return
            c.count("assertions")
            c.count("holding" if want else "failing")
            c.check((got is None) == want, "verdict", lambda: f"{what} {'passed' if got is None else 'failed: ' + got}; waiting: {waiting}, running: {running}")
            if got is not None and not want:
                # what it says of the docket's content is so
                for k, m in waiting.items():
                    if what.startswith(("scheduled", "none")):
                        c.check(repr(k) in got and m["fn"] in got, "message", lambda: f"{what}: {got}; waiting: {waiting}")

        async with w.client(tasks=list(fns.values())) as d, w.client(tasks=[]) as stranger:
            working = False
            for step in range(r.randint(2, 9)):
                for _ in range(r.randint(0, 4)):
                    key = f"k{r.randint(0, 9)}"
                    fn = r.choice(list(fns))
                    args = tuple(r.choice(VALUES) for _ in range(r.randint(0, 2)))
                    kw = {n: r.choice(VALUES) for n in r.sample(["a", "b", "key", "function"], r.randint(0, 2))}
                    at = None if r.random() < 0.4 else sim.wallclock() + r.choice([12, 1000, 10**6])
                    new = dict(fn=fn, args=args, kw=kw, at=at)
                    how = r.choice(["add", "add", "add", "replace", "cancel", "agenda"])
                    if key in running or working and key in waiting and (waiting[key]["at"] or 0) - sim.wallclock() < 1:
                        continue            # (what becomes of what runs, or just ran, is the matter of others)
                    if how == "add":
                        await d.add(r.choice([fn, fns[fn]]), key=key, when=None if at is None else utc(at))(*args, **kw)
                        waiting.setdefault(key, new)
                    elif how == "replace":
                        await d.replace(fns[fn], utc(sim.wallclock() if at is None else at), key)(*args, **kw)
                        waiting[key] = new
                    elif how == "cancel":
                        await d.cancel(key)
                        waiting.pop(key, None)
                    else:
                        agenda = Agenda()
                        mine = sim.wallclock() + 50000
                        agenda.add(fns[fn])(*args, **kw)
                        for e in await agenda.scatter(d, start=utc(mine), over=sec(1000)):
                            waiting[e.key] = dict(new, at=mine)
                if not working and r.random() < 0.25:
                    await w.start_worker("w0")
                    working = True
                await asyncio.sleep(r.choice([1, 1, 1, 8]) if working else r.choice([0, 1]))
                while working and any(m["at"] is not None and -1 < sim.wallclock() - m["at"] < 1 for m in waiting.values()):
                    await asyncio.sleep(0.7)
                if working:
                    for k, m in list(waiting.items()):
                        if m["at"] is None or m["at"] <= sim.wallclock():
                            del waiting[k]
                            if m["fn"] == "slow":
                                running[k] = m
                for _ in range(r.randint(1, 6)):
                    who = r.choice([d, d, stranger])
                    pool = list(waiting.items()) + list(running.items())
                    like = r.choice(pool) if pool and r.random() < 0.7 else None
                    fn = like[1]["fn"] if like and r.random() < 0.9 else r.choice(list(fns))
                    crit = {}
                    if r.random() < 0.5:
                        crit["key"] = like[0] if like and r.random() < 0.8 else f"k{r.randint(0, 9)}"
                    if r.random() < 0.5:
                        crit["args"] = like[1]["args"] if like and r.random() < 0.8 else tuple(r.choice(VALUES) for _ in range(r.randint(0, 2)))
                    if r.random() < 0.5:
                        kw = dict(like[1]["kw"]) if like and r.random() < 0.8 else {n: r.choice(VALUES) for n in r.sample(["a", "b"], r.randint(0, 2))}
                        if kw and r.random() < 0.4:
                            kw.pop(r.choice(list(kw)))
                        if r.random() < 0.15:
                            kw["b"] = r.choice(VALUES)
                        crit["kwargs"] = kw
                    if any(x != x for x in [*crit.get("args", ()), *crit.get("kwargs", {}).values()]):
                        continue            # not a number: nothing is equal to it
                    hits = [k for k, m in waiting.items() if m["fn"] == fn and crit.get("key", k) == k and ("args" not in crit or m["args"] == crit["args"])
                            and all(n in m["kw"] and m["kw"][n] == v for n, v in crit.get("kwargs", {}).items())]
                    f = r.choice([fn, fns[fn]])
                    await agree(d, f"scheduled {fn} {crit}", bool(hits), testing.assert_task_scheduled(who, f, **crit))
                    await agree(d, f"not scheduled {fn} {crit}", not hits, testing.assert_task_not_scheduled(who, f, **crit))
                    of = [m for m in waiting.values() if m["fn"] == fn]
                    n = max(0, len(of) + r.choice([0, 0, 0, 1, -1]))
                    await agree(d, f"{n} of {fn}", n == len(of), testing.assert_task_count(who, f, count=n))
                    n = max(0, len(waiting) + r.choice([0, 0, 0, 1, -1]))
                    await agree(d, f"{n} in all", n == len(waiting), testing.assert_task_count(who, count=n))
                    await agree(d, "none", not waiting, testing.assert_no_tasks(who))
        c.nontrivial = c.stats["holding"] > 0 and c.stats["failing"] > 0
        c.sample = f"{len(waiting)} waiting, {len(running)} running: {c.stats['holding']} held, {c.stats['failing']} failed"
        for n in list(w.workers):
            w.workers[n].stop_requested = True
            if w.workers[n].run_task is not None:
                w.workers[n].run_task.cancel()
    c.run(sim, main)


GENERATORS = [(assertions, 1)]
