"""D18: strikes block exactly what they match, everywhere, until restored."""
import asyncio
import operator
import pickle

from rv.world import World, sec, utc

OPS = {"==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge, "<": operator.lt, "<=": operator.le,
       "between": lambda v, s: s[0] <= v <= s[1]}
PARAMS = {"alpha": ["tag", "who", "n"], "beta": ["tag", "who", "level"], "gamma": ["tag", "n", "extra", "more"]}


def matches(struck, name, call):
    """call: every parameter of the task (defaults included) -> value"""
    for fn, param, op, value in struck:
        if fn is not None and fn != name:
            continue
        if param is None:
            return True
        if param in call:
            try:
                if OPS[op](call[param], value):
                    return True
            except (TypeError, ValueError):
                pass
    return False


def _instruction(r):
    fn = r.choice([None, "alpha", "beta", "gamma"])
    if fn is not None and r.random() < 0.35:
        return (fn, None, "==", None)
    param = r.choice(["who", "n", "level", "extra", "more"])
    op = r.choice(list(OPS))
    if op == "between":
        value = tuple(sorted([r.randint(0, 9), r.randint(0, 9)]))
    elif param in ("who", "extra") and r.random() < 0.8:
        value = r.choice(["ann", "bob", "cyd"])
    else:
        value = r.randint(0, 9)
    return (fn, param, op, value)


def _call(r, name):
    """-> (args, kwargs, bound) without the leading tag"""
    who = r.choice(["ann", "bob", "cyd", 3, None])
    n = r.choice([0, 2, 5, 9, "ann"])
    if name == "alpha":
        style = r.randint(0, 2)
        if style == 0:
            return (who,), {}, dict(who=who, n=5)
        if style == 1:
            return (who, n), {}, dict(who=who, n=n)
        return (), dict(who=who, n=n), dict(who=who, n=n)
    if name == "beta":
        kw = {"level": n} if r.random() < 0.6 else {}
        return (who,), kw, dict(who=who, level=kw.get("level", 2))
    kw = {k: v for k, v in (("extra", who), ("more", n)) if r.random() < 0.5}
    return (n,), kw, dict(n=n, **kw)


def strikes(c):
    r = c.rng
    lat = r.choice([0.001, 0.003])
    sim = c.sim(lat_max=lat)
    outages = r.random() < 0.3
    crashes = r.random() < 0.3
    poll = 0.03

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(0.6), concurrency=20, minimum_check_interval=sec(poll), scheduling_resolution=sec(poll),
                                         schedule_automatic_tasks=r.random() < 0.5))

        async def alpha(tag: str, who, n=5):
            async with w.running(tag):
                await asyncio.sleep(0.01)

        async def beta(tag: str, who, *, level=2):
            async with w.running(tag):
                await asyncio.sleep(0.01)

        async def gamma(tag: str, n, **options):
            async with w.running(tag):
                await asyncio.sleep(0.01)
        fns = dict(alpha=alpha, beta=beta, gamma=gamma)
        w.tasks += fns.values()

        def setup(proc, gen):
            if crashes and r.random() < 0.6 and sim.now() < 10:
                proc.crash_at = (proc.ncmd + r.randint(30, 300), r.choice(["before", "after"]))
        for i in range(r.randint(1, 2)):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup)
        procs = [sim.proc(f"client{i}") for i in range(r.randint(2, 3))]
        clients = []
        gate = asyncio.Event()
        opened = [asyncio.Event() for _ in procs]

        async def hold(i):
            async with w.client() as d:
                clients.append((procs[i], d))
                opened[i].set()
                await gate.wait()
        holders = [sim.spawn(p, hold(i)) for i, p in enumerate(procs)]
        for e in opened:
            await e.wait()
        async with w.client() as observer:
            issued = []
            lag = 0.15 + 40 * lat

            def struck():
                """What the log of instructions says is in effect, by its own order."""
                out = set()
                for _, m in sim.server.call("xrange", ("dk:strikes",)):
                    m = {bytes(m[i]): bytes(m[i + 1]) for i in range(0, len(m), 2)} if isinstance(m, list) else m
                    key = (m.get(b"function", b"").decode() or None, m.get(b"parameter", b"").decode() or None,
                           m[b"operator"].decode(), pickle.loads(m[b"value"]))
                    if m[b"direction"] == b"strike":
                        out.add(key)
                    else:
                        out.discard(key)
                return out

            async def issue(p, d, restore, ins):
                fn, param, op, value = ins
                f = fns[fn] if fn and r.random() < 0.5 else fn
                try:
                    if param is None:
                        await w.on(p, d.restore(f) if restore else d.strike(f))
                    else:
                        await w.on(p, (d.restore if restore else d.strike)(f, param, op, value))
                except Exception as e:
                    c.check("onnection" in repr(e) or "onnection" in type(e).__name__, "instruction-failed", lambda: repr(e))
            pending = {}
            n = 0
            if r.random() < 0.1:
                p, d = clients[0]
                for i in range(130):
                    await issue(p, d, False, (None, "who", "==", f"nobody{i}"))
            for _ in range(r.randint(3, 8)):
                # tasks waiting for their time while strikes change
                for _ in range(r.randint(0, 4)):
                    name = r.choice(list(fns))
                    args, kw, bound = _call(r, name)
                    tag = f"p{n}"
                    n += 1
                    at = sim.wallclock() + r.choice([0.3, 1.2, 3])
                    try:
                        e = await w.on(clients[0][0], clients[0][1].add(fns[name], key=tag, when=utc(at))(tag, *args, **kw))
                    except Exception:
                        continue
                    pending[tag] = (name, bound, at, e, matches(struck(), name, {"tag": tag, **bound}))
                    c.check((e.disposition.value == "struck") == pending[tag][4], "decision",
                            lambda: f"{name}{bound} is {e.disposition.value} with {struck()} in effect")
                burst = []
                for _ in range(r.randint(1, 4)):
                    ins = r.choice(issued) if issued and r.random() < 0.55 else _instruction(r)
                    issued.append(ins)
                    p, d = r.choice(clients)
                    restore = r.random() < 0.45
                    if r.random() < 0.4:
                        burst.append(asyncio.ensure_future(issue(p, d, restore, ins)))
                    else:
                        await issue(p, d, restore, ins)
                if outages and r.random() < 0.6:
                    for p in procs:
                        if r.random() < 0.5:
                            sim.disconnect(p, r.choice([0, 0.3, 1.0]))
                    for h in w.workers.values():
                        if h.proc and r.random() < 0.4:
                            sim.disconnect(h.proc, r.choice([0, 0.3, 1.0]))
                    await asyncio.sleep(0.1)
                if burst:
                    await asyncio.wait(burst)
                changed = sim.wallclock()
                await asyncio.sleep(lag + (2.2 if outages else 0))
                now = struck()
                c.count("states", 1)
                crew = list(clients)
                late = r.random() < 0.5
                for i in range(len(crew) + late):
                    if i < len(crew):
                        p, d = crew[i]
                    else:
                        p = sim.proc(f"late{n}")
                        d = None

                    async def trial(d):
                        nonlocal n
                        for _ in range(r.randint(2, 6)):
                            name = r.choice(list(fns))
                            args, kw, bound = _call(r, name)
                            tag = f"k{n}"
                            n += 1
                            want = matches(now, name, {"tag": tag, **bound})
                            how = r.choice(["add", "add", "replace"])
                            t0 = utc(sim.wallclock())
                            e = await (d.add(fns[name], key=tag) if how == "add" else d.replace(fns[name], t0, tag))(tag, *args, **kw)
                            c.count("struck" if want else "free")
                            c.check((e.disposition.value == "struck") == want, "decision",
                                    lambda: f"{'late joiner' if i >= len(crew) else procs[i].name}: {name}{bound} is {e.disposition.value} with {now} in effect")
                            trials.append((tag, name, bound, want))

                    async def join():
                        async with w.client() as d:
                            await d.wait_for_strikes_loaded()
                            await trial(d)
                    trials = []
                    await w.on(p, trial(d) if d is not None else join())
                    await asyncio.sleep(0.2 + (2.5 if outages else 0) + (1.5 if crashes else 0))
                    for tag, name, bound, want in trials:
                        got = w.starts(tag)
                        c.check(bool(got) != want, "worker-decision", lambda: f"{tag}={name}{bound} {'ran' if got else 'did not run'} with {now} in effect; worker {[e.who for e in w.events('crash')]}")
                if r.random() < 0.5:
                    # a worker that starts after the strikes, on work that was accepted before them
                    lifted = [x for x in now]
                    name = r.choice(list(fns))
                    args, kw, bound = _call(r, name)
                    tag = f"s{n}"
                    n += 1
                    if not matches(now, name, {"tag": tag, **bound}):
                        for h in list(w.workers.values()):
                            h.stop_requested = True
                            w.kill_worker(h.name)
                        await asyncio.sleep(0.3)
                        e = await w.on(*(lambda pd: (pd[0], pd[1].add(fns[name], key=tag)(tag, *args, **kw)))(clients[0]))
                        hit = r.random() < 0.7
                        ins = (name, None, "==", None)
                        if hit:
                            await issue(*clients[0], False, ins)
                            issued.append(ins)
                        nm = f"x{n}"
                        await w.start_worker(nm, restart=0.1, setup=setup)
                        await asyncio.sleep(0.4 + (2.5 if outages else 0) + (1.5 if crashes else 0))
                        got = w.starts(tag)
                        c.count("fresh_worker")
                        want = ins in struck()
                        c.check(bool(got) != want, "fresh-worker", lambda: f"a worker started after the strike {'ran' if got else 'did not run'} {tag}={name}{bound}")
                        await e.sync()
                        if want:
                            c.check(e.state.value == "cancelled", "state", lambda: f"{tag} was struck and is reported {e.state.value}")
                            await issue(*clients[0], True, ins)
                        changed = sim.wallclock()
                        await asyncio.sleep(lag + (2.2 if outages else 0))
                        now = struck()
                # pending ones that came due while nothing changed
                quiet = sim.wallclock()
                for tag, (name, bound, at, e, refused) in list(pending.items()):
                    if at > quiet - 0.3 - (2.5 if crashes or outages else 0):
                        continue
                    del pending[tag]
                    got = w.starts(tag)
                    if refused:
                        c.check(not got, "refused-ran", lambda: f"{tag} was refused but ran")
                        continue
                    await e.sync()
                    c.count("pending")
                    c.check(e.state.value in ("completed", "cancelled"), "state", lambda: f"{tag} is {e.state.value} after its time")
                    c.check(bool(got) == (e.state.value == "completed"), "state", lambda: f"{tag} {'ran' if got else 'did not run'} and is reported {e.state.value}")
                    if at > changed + lag and not crashes and not outages:
                        want = matches(now, name, {"tag": tag, **bound})
                        c.check(bool(got) != want, "worker-decision", lambda: f"pending {tag}={name}{bound} {'ran' if got else 'did not run'} with {now} in effect")
            gate.set()
            for h in holders:
                await asyncio.wait({h})
        c.nontrivial = c.stats["struck"] > 1 and c.stats["free"] > 1
        c.sample = f"{len(issued)} instructions, {c.stats['struck']} struck and {c.stats['free']} free calls, {c.stats['pending']} pending"
    c.run(sim, main)


def slow_start(c):
    """A worker that starts while there is a long list of strikes to load."""
    r = c.rng
    sim = c.sim(lat_min=0.001, lat_max=r.choice([0.002, 0.02]), spike_p=0.15, spike_max=0.4)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(3), concurrency=20, minimum_check_interval=sec(0.03), scheduling_resolution=sec(0.03)))

        async def alpha(tag: str, who: str):
            async with w.running(tag):
                pass
        w.tasks.append(alpha)
        async with w.client() as d:
            for i in range(r.choice([5, 120, 250, 450])):
                sim.server.call("xadd", ("dk:strikes", {b"direction": b"strike", b"parameter": b"who", b"operator": b"==", b"value": pickle.dumps(f"nobody{i}")}))
            want = {}
            for i in range(r.randint(1, 5)):
                who = r.choice(["ann", "bob"])
                e = await d.add(alpha, key=f"k{i}", when=utc(sim.wallclock() + r.choice([0, 0.05, 0.3, 1])))(f"k{i}", who)
                want[f"k{i}"] = (who, e)
            await d.strike("alpha", "who", "==", "ann")
            await asyncio.sleep(0.2)
            await w.start_worker("w0", restart=None, schedule_automatic_tasks=r.random() < 0.5)
            await asyncio.sleep(8)
            for tag, (who, e) in want.items():
                await e.sync()
                ran = bool(w.starts(tag))
                c.count("struck" if who == "ann" else "free")
                c.check(ran == (who == "bob"), "fresh-worker", lambda: f"{tag} for {who} {'ran' if ran else 'did not run'} on a worker started after ann was struck")
                c.check(e.state.value == ("completed" if who == "bob" else "cancelled"), "state", lambda: f"{tag} for {who} is reported {e.state.value}")
        c.nontrivial = c.stats["struck"] > 0
        c.sample = "a worker starting into a list of strikes"
    c.run(sim, main)


def struck_and_replaced(c):
    """A struck task on its way to the worker is replaced by one that is not struck."""
    r = c.rng
    lat = r.choice([0.002, 0.01, 0.04])
    sim = c.sim(lat_max=lat)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(2), concurrency=20, minimum_check_interval=sec(0.03), scheduling_resolution=sec(0.03)))

        async def alpha(tag: str, who: str):
            async with w.running(tag, who=who):
                await asyncio.sleep(0.01)
        w.tasks.append(alpha)
        await w.start_worker("w0", restart=None)
        async with w.client() as a:
            tags = {}
            for i in range(r.randint(3, 10)):
                at = sim.wallclock() + r.uniform(0.4, 0.8)
                await a.add(alpha, key=f"k{i}", when=utc(at))(f"k{i}", "ann")
                tags[f"k{i}"] = at
            await a.strike("alpha", "who", "==", "ann")

            async def one(tag, at):
                await asyncio.sleep(max(0, at - sim.wallclock() + r.uniform(-0.02, 0.12)))
                later = sim.wallclock() + 0.7
                await a.replace(alpha, utc(later), tag)(tag, "bob")
                for _ in range(3):
                    e = await a.add(alpha, key=tag)(tag, "cyd")
                    c.check(e.disposition.value != "scheduled", "added-twice", lambda: f"{tag} was accepted again while its replacement was waiting")
                    await asyncio.sleep(r.uniform(0, 0.1))
                    e = await a.get_execution(tag)
                    c.check(e is not None and e.state.value == "scheduled", "state", lambda: f"the replacement of {tag} is reported {e and e.state.value}")
                c.count("struck")
            await asyncio.gather(*(one(t, at) for t, at in tags.items()))
            await w.drained(a, 20)
            for t in tags:
                ran = [e["who"] for e in w.starts(t)]
                c.check(ran.count("bob") == 1 and "cyd" not in ran, "replacement", lambda: f"{t} ran for {ran}")
        c.nontrivial = c.stats["struck"] > 2
        c.sample = f"{len(tags)} struck tasks replaced around their delivery"
    c.run(sim, main)


GENERATORS = [(strikes, 6), (slow_start, 2), (struck_and_replaced, 2)]
