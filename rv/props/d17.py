"""D17: debounce fires once per burst, after the burst has settled."""
import asyncio
from typing import Annotated

from rv.world import World, sec, utc


def bursts(c, S=1):
    r = c.rng
    lat = r.choice([0.001, 0.003])
    poll = 0.02 * S
    sim = c.sim(lat_max=lat, pubsub_coarse=poll if S > 1 else 0)
    if S > 1:
        sim.constants["docket.worker.AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS"] = 60 * S
    crashes = S == 1 and r.random() < 0.25
    cancels = not crashes and r.random() < 0.4
    redel = 0.6 * S

    async def main(sim):
        from docket import Debounce, Retry
        w = World(c, sim, docket_kw={} if S == 1 else dict(heartbeat_interval=sec(S), execution_ttl=sec(900 * S)), worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([10, 50]), minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        plan, defs = {}, {}

        async def body(tag, attempt=1):
            p = plan[tag]
            async with w.running(tag, scope=p["scope"], attempt=attempt):
                await asyncio.sleep(p["dur"])
                if p["fail"] and attempt == 1:
                    raise ValueError(tag)

        def add(fn, name, settle, scope):
            fn.__name__ = name
            defs[name] = (fn, settle, scope)
            w.tasks.append(fn)
        s1, s2, s3 = (r.choice([0.4, 0.7, 1.5]) * S for _ in range(3))

        async def per_task(tag: str, who: str, deb: Debounce = Debounce(sec(s1))):
            await body(tag)
        add(per_task, "per_task", s1, lambda who: "per_task")

        async def per_value(tag: str, who: Annotated[str, Debounce(sec(s2))]):
            await body(tag)
        add(per_value, "per_value", s2, lambda who: ("who", who))

        async def scoped(tag: str, who: str, deb: Debounce = Debounce(sec(s3), scope="group")):
            await body(tag)
        add(scoped, "scoped", s3, lambda who: "group-scoped")

        async def elsewhere(tag: str, whom: Annotated[str, Debounce(sec(s3), scope="elsewhere")] = "dave"):
            await body(tag)
        add(elsewhere, "elsewhere", s3, lambda who: ("elsewhere", who))
        names = r.sample(sorted(defs), r.randint(1, 3))

        def setup(proc, gen):
            if crashes and sim.now() < 4 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(20, 150), r.choice(["before", "after"]))
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=not crashes)
        async with w.client() as d:
            execs, come, gone = {}, {}, {}
            for j in range(r.randint(4, 40)):
                tag = f"k{j}"
                name = r.choice(names)
                fn, settle, scope = defs[name]
                who = r.choice(["alice", "bob", "1"])
                plan[tag] = dict(name=name, scope=scope(who), dur=r.choice([0, 0, 0.05, 0.3]), fail=r.random() < 0.1)
                when = None if r.random() < 0.7 else utc(sim.wallclock() + r.choice([0.1 * S, 0.5 * S, settle]))
                a = d.add(fn, key=tag, when=when)
                kw = {"whom" if name == "elsewhere" else "who": who}
                if name == "elsewhere" and who == "1":
                    plan[tag]["scope"], kw = ("elsewhere", "dave"), {}
                    execs[tag] = await a(tag)
                else:
                    execs[tag] = await (a(tag, **kw) if r.random() < 0.5 else a(tag, who))
                come[tag] = max(sim.wallclock(), when.timestamp() if when else 0)
                await asyncio.sleep(r.choice([0, 0, 0.03 * S, 0.3 * S, settle * 0.5, settle * 0.97, settle * 1.5, settle * 3]))
                if cancels and r.random() < 0.3:
                    x = r.choice(sorted(execs))
                    gone.setdefault(x, sim.wallclock())
                    await d.cancel(x)
            ok = await w.drained(d, 60 * S, 0.5 * S)
            c.check(ok, "stranded", lambda: f"tasks left: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            dead = {e["who"] for e in w.events("crash")}
            tol = 6 * lat + 4e-3
            lag = 4 * poll + 60 * lat + 0.1 * S
            for scope in {p["scope"] for p in plan.values()}:
                tags = sorted((t for t in plan if plan[t]["scope"] == scope), key=come.get)
                settle = defs[plan[tags[0]]["name"]][1]
                st = sorted((e for e in w.events("start") if e.scope == scope), key=lambda e: e.t)
                T = lambda x: round(x - sim.epoch, 3)
                show = lambda: f"settle {settle}s, scope {scope}: came up {[(T(come[t]), t) for t in tags]}, starts {[(T(e.t), e.tag) for e in st]}, cancels {sorted((T(x), t) for t, x in gone.items() if t in tags)}, crashes {[T(e.t) for e in w.events('crash')]}"
                for t in tags:
                    await execs[t].sync()
                    state = execs[t].state.value
                    runs = [e for e in st if e.tag == t]
                    if not runs:
                        c.count("dropped")
                        c.check(state == "cancelled", "state", lambda: f"{t} did not run and is reported {state}; " + show())
                    elif t not in gone and not any(e.proc in dead for e in runs):
                        want = "failed" if plan[t]["fail"] else "completed"
                        c.check(state == want, "state", lambda: f"{t} ran and is reported {state}; " + show())
                last = come[tags[-1]]
                if dead:
                    if not gone:
                        c.check(any(e.t >= last - tol for e in st), "no-run", lambda: "nothing ran after the last submission; " + show())
                    continue
                c.check(len({e.tag for e in st}) == len(st), "repeated", lambda: "a task ran twice; " + show())
                for e in st:
                    c.count("fired")
                    hot = [t for t in tags if e.t - settle + tol < come[t] and come[t] + lag < e.t and gone.get(t, 1e99) > come[t] + lag]
                    c.check(not hot, "unsettled", lambda: f"{e.tag} ran at {T(e.t)} although {hot} came up less than the settle time before; " + show())
                # bursts certain to be apart, and gaps that may or may not have been
                group, maybe = [tags[0]], 0
                groups = []
                for a, b in zip(tags, tags[1:]):
                    gap = come[b] - come[a]
                    if gap > settle + 2 * lag:
                        groups.append((group, maybe))
                        group, maybe = [], 0
                    elif gap > settle - lag:
                        maybe += 1
                    group.append(b)
                groups.append((group, maybe))
                for i, (g, maybe) in enumerate(groups):
                    c.count("bursts")
                    lo = come[g[0]] - tol
                    hi = come[groups[i + 1][0][0]] if i + 1 < len(groups) else 1e99
                    mine = [e for e in st if lo <= e.t < hi]
                    touched = [t for t in g if t in gone]
                    c.check(len(mine) <= 1 + maybe + len(touched), "fired-twice", lambda: f"burst {g} fired {len(mine)} times; " + show())
                    # a cancelled task may have been the one meant to run
                    settled = [t for t in g if t not in gone]
                    if touched and not (settled and come[g[-1]] > max(gone[t] for t in touched) + lag and g[-1] not in gone):
                        continue
                    c.check(bool(mine), "never-fired", lambda: f"burst {g} never fired; " + show())
                    if mine:
                        due = come[g[-1]] + settle
                        c.check(mine[-1].t <= due + lag, "late", lambda: f"burst {g} fired {mine[-1].t - due:.3f}s after it had settled; " + show())
        c.nontrivial = c.stats["dropped"] > 0 and c.stats["fired"] + c.stats["starts"] > 1
        c.sample = f"{len(plan)} submissions of {names}, {c.stats['bursts']} bursts, {c.stats['fired']} runs"
    c.run(sim, main)


def long(c):
    """The same over days: nothing may depend on the windows being short."""
    bursts(c, c.rng.choice([3600, 40_000, 100_000, 1_000_000]) + c.rng.random())


GENERATORS = [(bursts, 5), (long, 1)]
