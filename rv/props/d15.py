"""D15: rate limits are never exceeded; excess tasks are deferred (or dropped), not lost."""
import asyncio
from typing import Annotated

from rv.world import World, sec, utc


def _define(w, r, sim, S):
    """Rate-limited tasks of every form -> {name: (fn, limit, per, drop, scope of (name, value))}"""
    from docket import ConcurrencyLimit, RateLimit, Retry
    out = {}
    n_form = 0

    async def body(tag, scope, dur, fail):
        async with w.running(tag, scope=scope):
            await asyncio.sleep(dur)
            if fail and w.case.rng.random() < 0.5:
                raise ValueError(tag)

    def add(fn, name, limit, per, drop, scope):
        fn.__name__ = name
        out[name] = (fn, limit, per, drop, scope)
        w.tasks.append(fn)
    for k in range(3):
        limit, per, drop = r.choice([1, 2, 3, 5]), r.choice([0.2, 0.5, 1.0, 2.5]) * S, r.random() < 0.3
        form = r.choice(["task", "arg", "scope", "retry", "conc"])
        name = f"{form}{k}"
        rl = lambda **kw: RateLimit(limit, per=sec(per), drop=drop, **kw)
        if form == "task":
            def mk(rl):
                async def f(tag: str, who: str, dur: float, rate: RateLimit = rl()):
                    await body(tag, name_of(tag), dur, False)
                return f
            add(mk(rl), name, limit, per, drop, lambda v, n=name: n)
        elif form == "arg":
            def mk(rl, pname):
                async def f(tag: str, who: Annotated[str, rl()], dur: float):
                    await body(tag, name_of(tag), dur, False)
                return f
            add(mk(rl, name), name, limit, per, drop, lambda v, n=name: (n, v))
            # parameter limits are shared by name and value within a docket: make the parameter unique
            out[name][0].__defaults__ = None
        elif form == "scope":
            def mk(rl, s):
                async def f(tag: str, who: str, dur: float, rate: RateLimit = rl(scope=s)):
                    await body(tag, name_of(tag), dur, False)
                return f
            add(mk(rl, f"sc{k}"), name, limit, per, drop, lambda v, n=name: n)
        elif form == "retry":
            def mk(rl):
                async def f(tag: str, who: str, dur: float, rate: RateLimit = rl(), retry: Retry = Retry(attempts=3, delay=sec(0))):
                    await body(tag, name_of(tag), dur, True)
                return f
            add(mk(rl), name, limit, per, drop, lambda v, n=name: n)
        else:
            # admitted by the rate, then held back by a concurrency limit: that uses up nothing
            def mk(rl):
                async def f(tag: str, who: str, dur: float, rate: RateLimit = rl(), conc: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
                    await body(tag, name_of(tag), dur, False)
                return f
            add(mk(rl), name, limit, per, drop, lambda v, n=name: n)
    scopes = {}

    def name_of(tag):
        return scopes[tag]
    return out, scopes


def limits(c, S=1):
    r = c.rng
    lat = r.choice([0.001, 0.003])
    poll = 0.02 * S
    sim = c.sim(lat_max=lat, pubsub_coarse=poll if S > 1 else 0)
    if S > 1:
        sim.constants["docket.worker.AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS"] = 60 * S
    crashes = S == 1 and r.random() < 0.25
    redel = 1.0 * S

    async def main(sim):
        w = World(c, sim, docket_kw={} if S == 1 else dict(heartbeat_interval=sec(S), execution_ttl=sec(900 * S)), worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([2, 50]), minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        defs, scopes = _define(w, r, sim, S)
        args_seen = set()
        names = list(defs)
        # only one parameter-limited task per case (their keys are shared by parameter name)
        arg_forms = [n for n in names if n.startswith("arg")]
        names = [n for n in names if n not in arg_forms[1:]]

        def setup(proc, gen):
            if crashes and sim.now() < 4 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(20, 200), r.choice(["before", "after"]))
        nw = r.randint(1, 3)
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=not crashes)
        async with w.client() as d:
            execs, added, call = {}, {}, {}
            for j in range(r.randint(5, 40)):
                tag = f"k{j}"
                name = r.choice(names)
                fn, limit, per, drop, scope = defs[name]
                who = r.choice(["alice", "bob"])
                dur = r.choice([0, 0, 0.05, 0.3])
                scopes[tag] = scope(who)
                call[tag] = (name, who)
                when = None if r.random() < 0.7 else utc(sim.wallclock() + r.choice([0.1, 0.5, 1.0]) * S)
                added[tag] = max(sim.wallclock(), when.timestamp() if when else 0)
                how = d.add(fn, key=tag, when=when)
                if r.random() < 0.5:
                    execs[tag] = await how(tag, who, dur)
                else:
                    execs[tag] = await how(tag, who=who, dur=dur)
                await asyncio.sleep(r.choice([0, 0, 0, 0.05, 0.3]) * S)
            by_scope = {}
            for tag in execs:
                by_scope.setdefault(scopes[tag], []).append(tag)
            rounds = max(3 * len(t) / defs[call[t[0]][0]][1] + 1 for t in by_scope.values())
            horizon = rounds * (2.5 * S + 6 * poll + 0.4 * S) + 10 * S + (20 if crashes else 0)
            ok = await w.drained(d, horizon, 0.5 * S)
            c.check(ok, "stranded", lambda: f"tasks still waiting after {horizon:.0f}s: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            dead = {e["who"] for e in w.events("crash")}
            tol = 6 * lat + 2e-3
            for sc, tags in by_scope.items():
                name = call[tags[0]][0]
                fn, limit, per, drop, _ = defs[name]
                st = sorted((e for e in w.events("start") if e.scope == sc), key=lambda e: e.t)
                show = lambda at: f"limit {limit} per {per}s ({name}, drop={drop}, scope {sc}): starts {[(round(e.t-sim.epoch,4), e.tag, e.proc) for e in st if abs(e.t-at) < 2*per + 0.2][:16]}"
                for i in range(limit, len(st)):
                    c.count("windows")
                    gap = st[i].t - st[i - limit].t
                    c.check(gap >= per - tol, "exceeded", lambda: f"{limit+1} starts within {gap:.4f}s; " + show(st[i].t))
                for tag in tags:
                    runs = w.starts(tag)
                    await execs[tag].sync()
                    state = execs[tag].state.value
                    if runs:
                        c.check(state in ("completed", "failed") or drop and name.startswith("retry") or crashes, "state", lambda: f"{tag} ran and is reported {state}; " + show(runs[0].t))
                    elif drop:
                        c.count("dropped")
                        c.check(state == "cancelled", "state", lambda: f"{tag} was dropped but is reported {state}")
                        # it must have come up at a moment when the window was full
                        if not crashes:
                            a, b = added[tag], added[tag] + (0.15 * S + 3 * poll + 30 * lat if w.workers["w0"].worker.concurrency > 2 else 30 * S)
                            full = any(sum(1 for e in st if t - per - tol <= e.t <= t + tol) >= limit for t in [a + tol, b] + [e.t for e in st if a <= e.t <= b])
                            if name.startswith("conc"):
                                full = True
                            c.check(full, "dropped-early", lambda: f"{tag} came up at {a-sim.epoch:.3f} and was dropped although the window had room; " + show(a))
                    else:
                        c.check(False, "lost", lambda: f"{tag} never ran, reported {state}; " + show(added[tag]))
                if not drop and not crashes and len(st) == len(tags) and w.workers["w0"].worker.concurrency > 2 and not name.startswith("conc"):
                    # work-conserving: a task that waits starts soon after the window has room
                    for i, e in enumerate(st):
                        room = st[i - limit].t + per if i >= limit else 0
                        due = max(added[e.tag], room)
                        waiting = [t for t in tags if added[t] <= due and w.starts(t)[0].t >= e.t]
                        base = max([min((added[t] for t in waiting), default=due), room])
                        c.count("waits")
                        bound = base + 4 * poll + 60 * lat + 0.1 * S
                        c.check(e.t <= bound, "late", lambda: f"the start at {e.t-sim.epoch:.4f} could have happened at {base-sim.epoch:.4f}; " + show(e.t))
        c.nontrivial = c.stats["windows"] > 0
        c.sample = f"{len(execs)} tasks on {[(n, defs[n][1:4]) for n in names]}, {nw} workers: {c.stats['windows']} full windows, {c.stats['dropped']} dropped"
    c.run(sim, main)


def long(c):
    """The same over days: nothing may depend on the windows being short."""
    limits(c, c.rng.choice([3600, 40_000, 100_000, 1_000_000]) + c.rng.random())


GENERATORS = [(limits, 5), (long, 1)]
