"""D25: dockets that share a store do not interfere with each other."""
import asyncio
from typing import Annotated

from rv.world import World, sec, utc

PAIRS = [("app", "app2"), ("app", "app-x"), ("a*", "ab"), ("a?c", "abc"), ("[ab]", "a"), ("x[12]", "x1"), ("app", "app:mail"),
         ("app:mail", "app:mail:eu"), ("dk", "DK"), ("q", "q "), ("ünï", "ünï2"), ("a\\b", "ab"), ("jobs", "*"), ("{t}", "t"), ("a.b", "a-b"), ("1", "11")]


class Boom(Exception):
    pass


def functions(w, period):
    from docket import ConcurrencyLimit, Cooldown, CurrentDocket, CurrentExecution, CurrentWorker, Debounce, Perpetual, RateLimit
    c, sim = w.case, w.sim

    def mine(home, key, d, worker, e):
        c.check(d.name == home and worker.docket.name == home and e.key == key, "strayed", lambda: f"{key} of docket {home!r} runs on a worker of {worker.docket.name!r}, with docket {d.name!r}, as {e.key}")
        c.count("runs")

    async def plain(home: str, key: str, dur: float, kind: str, d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        await e.progress.set_total(10)
        await e.progress.increment(1 + len(home) % 7)
        async with w.running((home, key)):
            await asyncio.sleep(dur)
        return (home, key)

    async def lim(home: str, key: str, v: int, dur: float, limit: ConcurrencyLimit = ConcurrencyLimit("v", 1), d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            await asyncio.sleep(dur)

    async def scoped(home: str, key: str, v: int, dur: float, limit: ConcurrencyLimit = ConcurrencyLimit("v", 1, scope="s"), d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            await asyncio.sleep(dur)

    async def rate(home: str, key: str, limit: RateLimit = RateLimit(1, per=sec(60)), d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            pass

    async def cool(home: str, key: str, limit: Cooldown = Cooldown(sec(60)), d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            pass

    async def settle(home: str, key: str, limit: Debounce = Debounce(sec(0.5)), d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            pass

    async def rate_v(home: str, key: str, rv: Annotated[int, RateLimit(1, per=sec(60))], d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            pass

    async def cool_v(home: str, key: str, cv: Annotated[int, Cooldown(sec(60))], d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            pass

    async def settle_v(home: str, key: str, sv: Annotated[int, Debounce(sec(0.5))], d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            pass

    async def lim_v(home: str, key: str, lv: Annotated[int, ConcurrencyLimit(1)], dur: float, d=CurrentDocket(), worker=CurrentWorker(), e=CurrentExecution()):
        mine(home, key, d, worker, e)
        async with w.running((home, key)):
            await asyncio.sleep(dur)

    async def auto(again: Perpetual = Perpetual(every=sec(period), automatic=True), d=CurrentDocket(), worker=CurrentWorker()):
        c.check(worker.docket.name == d.name, "strayed", "automatic task")
        async with w.running((d.name, "auto")):
            pass
    return [plain, lim, scoped, rate, cool, settle, rate_v, cool_v, settle_v, lim_v, auto]


def two(c):
    r = c.rng
    names = list(r.choice(PAIRS))
    r.shuffle(names)
    sim = c.sim(lat_max=r.choice([0.001, 0.003]))
    period = r.choice([0.5, 1.0])

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=20, minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05), redelivery_timeout=sec(2)))
        fns = functions(w, period)
        plain, lim, scoped, rate, cool, settle, rate_v, cool_v, settle_v, lim_v, auto = fns
        with_auto = {n: r.random() < 0.5 for n in names}
        tasks = {n: fns if with_auto[n] else fns[:-1] for n in names}
        count = {n: r.choice([1, 1, 2]) for n in names}
        started = {}
        for i, n in enumerate(names):
            for j in range(count[n]):
                await w.start_worker(f"{i}-{j}", restart=None, docket_kw=dict(name=n), tasks=tasks[n], worker_name=f"w{j}" if r.random() < 0.5 else None)
            started[n] = sim.wallclock()
        fates = {}
        keys = [f"k{j}" for j in range(r.randint(3, 7))] + ["stream", "queue"][:r.choice([0, 2])]
        clearing = r.choice([None, None, *names])
        async with w.client(name=names[0], tasks=fns) as d0, w.client(name=names[1], tasks=fns) as d1, w.client(name=names[0], tasks=fns) as other:
            ds = dict(zip(names, (d0, d1)))
            handles = {}
            await asyncio.sleep(0.3)
            t0 = sim.wallclock()

            async def script(n):
                d = ds[n]
                twin = other if n == names[0] else d     # another participant of the same docket
                for k in r.sample(keys, len(keys)):
                    fate = r.choice(["now", "now", "later", "cancel-later", "cancel-running", "struck", "replaced", "running"])
                    fates[n, k] = dict(fate=fate, due=None)
                    kind = f"{fate}"
                    at = t0 + 4 + r.uniform(0, 1) if fate in ("later", "cancel-later", "struck", "replaced") else None
                    dur = {"cancel-running": 30, "running": 2.5}.get(fate, r.choice([0, 0.2]))
                    who = r.choice([d, twin])
                    handles[n, k] = await who.add(plain, key=k, when=None if at is None else utc(at))(n, k, dur, kind)
                    fates[n, k]["due"] = at or sim.wallclock()
                    if r.random() < 0.3:
                        await asyncio.sleep(r.uniform(0, 0.3))
                # limits: each docket has the full allowance for itself
                for f, extra in ((lim, (1, 2.0)), (scoped, (1, 2.0)), (rate, ()), (cool, ()), (settle, ()), (rate_v, (1,)), (cool_v, (1,)), (settle_v, (1,)), (lim_v, (1, 2.0))):
                    k = f"{f.__name__}:1" if r.random() < 0.3 else f.__name__
                    await r.choice([d, twin]).add(f, key=k)(n, k, *extra)
                    fates[n, k] = dict(fate="limited", due=sim.wallclock())
            await asyncio.gather(*(script(n) for n in names))
            await asyncio.sleep(max(0, 1.5 - (sim.wallclock() - t0)))
            # while both are busy: listings
            for n in names:
                for d in [ds[n]] + ([other] if n == names[0] else []):
                    snap = await d.snapshot()
                    for e in [*snap.future, *snap.running]:
                        home = e.kwargs.get("home", e.args[0] if e.args else n)
                        c.check(home == n, "listed", lambda: f"the snapshot of {n!r} lists {e.key} of {home!r}")
                    c.check({e.name for e in snap.workers} <= {h.worker.name for x, h in w.workers.items() if names[int(x[0])] == n}, "workers", lambda: f"{n!r} lists the workers {[e.name for e in snap.workers]}")
                    c.check(len(snap.workers) == len({h.worker.name for x, h in w.workers.items() if names[int(x[0])] == n}), "workers-missing", lambda: f"{n!r} lists {[e.name for e in snap.workers]}")
                    future = {e.key for e in snap.future if not e.key.startswith(("auto", "__"))}
                    want = {k for (m, k), f in fates.items() if m == n and f["due"] > t0 + 3}
                    c.check(want <= future, "unlisted", lambda: f"{n!r} lists {future}, lacks {want - future}")
                    c.count("snapshots")
            # interfere
            for n in r.sample(names, 2):
                for k in r.sample(keys, len(keys)):
                    f = fates[n, k]
                    if f["fate"] in ("cancel-later", "cancel-running"):
                        f["cancelled"] = sim.wallclock()
                        await r.choice([ds[n], other if n == names[0] else ds[n]]).cancel(k)
                    elif f["fate"] == "replaced":
                        at = t0 + 5.5
                        await ds[n].replace(plain, key=k, when=utc(at))(n, k, 0.1, "replaced")
                        f["due"] = at
                if any(fates[n, k]["fate"] == "struck" for k in keys):
                    await ds[n].strike(plain, "kind", "==", "struck")
                for k in keys:
                    e = await ds[n].get_execution(k)
                    if e is not None and e.args:
                        c.check(e.args[0] == n, "looked-up", lambda: f"get_execution({k!r}) on {n!r} gives the task of {e.args[0]!r}")
                        c.count("lookups")
                        if fates[n, k]["fate"] in ("running",) and w.starts((n, k)):
                            await e.progress.sync()
                            c.check(e.progress.current == 1 + len(n) % 7, "progress", lambda: f"{k} on {n!r}: progress {e.progress.current}, reported {1 + len(n) % 7}")
            if clearing:
                await asyncio.sleep(max(0, 3.0 - (sim.wallclock() - t0)))
                await ds[clearing].clear()
                for (n, k), f in fates.items():
                    if n == clearing and f["due"] > t0 + 3.5 and f["fate"] in ("later", "replaced", "struck"):
                        f["fate"] = "cleared"
                await asyncio.sleep(0.05)
            end = t0 + 9
            await asyncio.sleep(max(0, end - sim.wallclock()))
            for (n, k), f in sorted(fates.items()):
                s, e = w.starts((n, k)), w.ends((n, k))
                text = lambda: f"{k} of {n!r} (beside {[x for x in names if x != n][0]!r}): {f['fate']}, due {f['due'] - t0:.2f}, ran {[round(x.t - t0, 2) for x in s]}, {[x.outcome for x in e]}; cleared {clearing!r}"
                if f["fate"] in ("now", "later", "running", "replaced", "limited"):
                    c.check(len(s) == 1 and [x.outcome for x in e] == ["ok"], "not-once", text)
                    if len(s) == 1:
                        slack = 1.6 if k.startswith("settle") else 1.0
                        c.check(f["due"] - 0.01 <= s[0].t <= f["due"] + slack, "late", text)
                    if f["fate"] != "limited":
                        try:
                            value = await handles[n, k].get_result(timeout=sec(1))
                        except BaseException as x:
                            value = x
                        c.check(value == (n, k), "result", lambda: f"{text()}: its result is {value!r}")
                elif f["fate"] == "cancel-running":
                    c.check(len(s) == 1 and len(e) == 1 and e[0].outcome == "cancelled" and f["cancelled"] <= e[0].t <= f["cancelled"] + 1, "not-cancelled", text)
                else:
                    c.check(not s, "ran-anyway", text)
                c.count("fates")
            for n in names:
                s = [x.t for x in w.starts((n, "auto"))]
                if with_auto[n] and clearing != n:
                    gaps = [b - a for a, b in zip(s, s[1:])]
                    c.check(s and s[0] - started[n] < 1.0 and all(abs(g - period) < 0.4 for g in gaps) and sim.wallclock() - s[-1] < period + 0.5, "auto", lambda: f"automatic task of {n!r} every {period}: {[round(x - t0, 2) for x in s]}")
                    c.count("auto")
                elif not with_auto[n]:
                    c.check(not s, "auto-strayed", n)
        c.check(not w.unexpected_worker_exits(), "worker-died", lambda: str(w.unexpected_worker_exits()[0].how)[-500:])
        c.nontrivial = True
        c.sample = f"{names}: {len(fates)} tasks, cleared {clearing!r}, fates {sorted({f['fate'] for f in fates.values()})}"
    c.run(sim, main)


def colon(c):
    """A key of docket "app" that begins with what a longer name adds."""
    sim = c.sim()

    async def main(sim):
        w = World(c, sim)
        fns = functions(w, 1)[:-1]
        async with w.client(name="app", tasks=fns) as a, w.client(name="app:mail", tasks=fns) as b:
            at = utc(sim.wallclock() + 3)
            await b.add(fns[0], key="7", when=at)("app:mail", "7", 0, "x")
            await a.add(fns[0], key="mail:7", when=at)("app", "mail:7", 0, "x")
            for i, n in enumerate(("app", "app:mail")):
                await w.start_worker(f"{i}", restart=None, docket_kw=dict(name=n), tasks=fns)
            await asyncio.sleep(5)
            ok = len(w.starts(("app", "mail:7"))) == 1 and len(w.starts(("app:mail", "7"))) == 1
            del c.violations[:]
            c.check(ok, "colon-key-meets-longer-name", lambda: f"task 'mail:7' of docket 'app' and task '7' of docket 'app:mail', both due later: {[(e.tag) for e in w.events('start')]} ran")
            c.nontrivial = True
    c.run(sim, main)


DIRECTED = [colon]
GENERATORS = [(two, 1)]
