"""D16: a cooldown runs the first of a burst and drops the rest."""
import asyncio
from typing import Annotated

from rv.world import World, sec, utc


def cooldowns(c, S=1):
    r = c.rng
    lat = r.choice([0.001, 0.003])
    poll = 0.02 * S
    sim = c.sim(lat_max=lat, pubsub_coarse=poll if S > 1 else 0)
    if S > 1:
        sim.constants["docket.worker.AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS"] = 60 * S
    crashes = S == 1 and r.random() < 0.3
    redel = r.choice([0.6, 1.0]) * S

    async def main(sim):
        from docket import ConcurrencyLimit, Cooldown, Retry
        w = World(c, sim, docket_kw={} if S == 1 else dict(heartbeat_interval=sec(S), execution_ttl=sec(900 * S)), worker_kw=dict(redelivery_timeout=sec(redel), concurrency=50, minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        plan, defs = {}, {}

        async def body(tag, attempt=1):
            p = plan[tag]
            async with w.running(tag, scope=p["scope"], attempt=attempt):
                await asyncio.sleep(p["dur"])
                if p["fail"]:
                    raise ValueError(tag)

        def add(fn, name, window, scope):
            fn.__name__ = name
            defs[name] = (fn, window, scope)
            w.tasks.append(fn)
        windows = [x * S for x in (0.15, 0.4, 1.0, 3.0)]
        x = r.choice(windows)

        async def per_task(tag: str, who: str, cool: Cooldown = Cooldown(sec(x))):
            await body(tag)
        add(per_task, "per_task", x, lambda who: "per_task")
        y = r.choice(windows)

        async def per_value(tag: str, who: Annotated[str, Cooldown(sec(y))]):
            await body(tag)
        add(per_value, "per_value", y, lambda who: ("who", who))
        z = r.choice(windows)

        async def shared_a(tag: str, who: str, cool: Cooldown = Cooldown(sec(z), scope="group")):
            await body(tag)

        async def other_scope(tag: str, whom: Annotated[str, Cooldown(sec(z), scope="elsewhere")] = "dave"):
            await body(tag)
        add(shared_a, "shared_a", z, lambda who: "group-a")
        add(other_scope, "other_scope", z, lambda who: ("elsewhere", who))

        async def held(tag: str, who: str, cool: Cooldown = Cooldown(sec(z)), conc: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            await body(tag)
        add(held, "held", z, lambda who: "held")

        async def retried(tag: str, who: str, cool: Cooldown = Cooldown(sec(x)), retry: Retry = Retry(attempts=2, delay=sec(2 * x))):
            await body(tag, retry.attempt)
        add(retried, "retried", x, lambda who: "retried")
        names = r.sample(sorted(defs), r.randint(1, 4))

        def setup(proc, gen):
            if crashes and sim.now() < 3 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(20, 120), r.choice(["before", "after"]))
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=not crashes)
        async with w.client() as d:
            execs, come = {}, {}
            for j in range(r.randint(5, 35)):
                tag = f"k{j}"
                name = r.choice(names)
                fn, window, scope = defs[name]
                who = r.choice(["alice", "bob", "alice:1", "1"])
                plan[tag] = dict(name=name, scope=scope(who), dur=r.choice([0, 0, 0.05, 0.3]), fail=name == "retried" and r.random() < 0.5, who=who)
                when = None if r.random() < 0.7 else utc(sim.wallclock() + r.choice([0.1, 0.5]) * S)
                a = d.add(fn, key=tag, when=when)
                style = r.random()
                if name == "other_scope":
                    if who == "1":
                        plan[tag]["scope"] = ("elsewhere", "dave")
                        execs[tag] = await a(tag)
                    else:
                        execs[tag] = await (a(tag, whom=who) if style < 0.5 else a(tag, who))
                else:
                    execs[tag] = await (a(tag, who) if style < 0.5 else a(tag, who=who))
                come[tag] = max(sim.wallclock(), when.timestamp() if when else 0)
                await asyncio.sleep(r.choice([0, 0, 0.03 * S, 0.3 * S, window, window * 0.98]))
            ok = await w.drained(d, 60 * S, 0.5 * S)
            c.check(ok, "stranded", lambda: f"tasks left: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            dead = {e["who"]: e.t for e in w.events("crash")}
            tol = 6 * lat + 3e-3
            lag = 3 * poll + 60 * lat + 0.1 * S + (25 if crashes else 0)
            for scope in {p["scope"] for p in plan.values()}:
                tags = [t for t in plan if plan[t]["scope"] == scope]
                window = defs[plan[tags[0]]["name"]][1]
                st = sorted((e for e in w.events("start") if e.scope == scope), key=lambda e: e.t)
                ends = {e.run: e for e in w.events("end")}
                show = lambda: f"window {window}s, scope {scope}: starts {[(round(e.t-sim.epoch,4), e.tag, e.attempt) for e in st][:12]}, came up {sorted((round(come[t]-sim.epoch,4), t) for t in tags)[:14]}, crashes {[round(x-sim.epoch,3) for x in dead.values()]}"
                first = {}
                for e in st:
                    first.setdefault((e.tag, e.attempt), e)
                for i, b in enumerate(st):
                    if first[b.tag, b.attempt] is not b:
                        continue  # taken over from a worker that died: it is still the same admission
                    # a repeat of a dead worker's task doesn't open a new window
                    prev = [e for e in st[:i] if first[e.tag, e.attempt] is e]
                    if prev:
                        c.count("pairs")
                        a = prev[-1]
                        c.check(b.t - a.t >= window - tol, "too-close", lambda: f"{a.tag} and {b.tag} started {b.t-a.t:.4f}s apart; " + show())
                for t in tags:
                    runs = w.starts(t)
                    await execs[t].sync()
                    state = execs[t].state.value
                    if plan[t]["name"] == "held" and not runs:
                        c.check(state == "cancelled", "state", lambda: f"{t} did not run and is reported {state}; " + show())
                        c.check(bool(st), "none-ran", lambda: "no task of the burst ran; " + show())
                        continue
                    if not runs:
                        c.count("dropped")
                        c.check(state == "cancelled", "state", lambda: f"{t} did not run and is reported {state}; " + show())
                        near = any(come[t] - window - tol <= e.t <= come[t] + lag for e in st)
                        # a worker that died between being admitted and starting leaves its window behind
                        if not near and any(come[t] - window - tol <= x <= come[t] + lag for x in dead.values()):
                            near = True
                        c.check(near, "dropped-first", lambda: f"{t} was dropped although nothing ran in the window before it; " + show())
                    else:
                        c.count("ran")
                        fin = {a: [ends[e.run].outcome for e in runs if e.attempt == a and e.run in ends] for a in {e.attempt for e in runs}}
                        done = any("ok" in v for v in fin.values())
                        if plan[t]["fail"]:
                            c.check(state in ("failed", "cancelled"), "state", lambda: f"{t} failed and is reported {state}; " + show())
                        elif not done and any(e.proc in dead for e in runs) and any(e.tag != t and e.t > runs[0].t for e in st):
                            c.count("given_up")  # its window was over and another's had begun when it was taken over
                        else:
                            c.check(done and state == "completed", "lost", lambda: f"{t} was admitted but did not complete ({fin}, reported {state}); " + show())
        c.nontrivial = c.stats["dropped"] > 0 and c.stats["ran"] > 1
        c.sample = f"{len(plan)} tasks of {names}, {c.stats['ran']} ran, {c.stats['dropped']} dropped"
    c.run(sim, main)


def long(c):
    """The same over days: nothing may depend on the windows being short."""
    cooldowns(c, c.rng.choice([3600, 40_000, 100_000, 1_000_000]) + c.rng.random())


GENERATORS = [(cooldowns, 5), (long, 1)]
