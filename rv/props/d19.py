"""D19: waiting for a result always ends, with that task's own outcome."""
import asyncio
import datetime as dt
import decimal

from rv.world import World, sec, utc


class Odd:
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Odd and other.x == self.x

    def __repr__(self):
        return f"Odd({self.x})"


class Fault(Exception):
    pass


VALUES = [None, 0, "", False, [], {}, "text", b"\x00\xff", 3.5, (1, "two"), {"a": [1, {2: 3}]}, Odd(3), [Odd(1), None],
          decimal.Decimal("1.10"), dt.timedelta(seconds=3), {1, 2}, float("inf"), "ünï\n{}", 10 ** 30, [b"x"] * 20]
class Lock:
    """Doesn't serialise."""
    def __reduce__(self):
        raise TypeError("cannot pickle this")

    def __repr__(self):
        return "Lock()"


class Mute(Exception):
    def __str__(self):
        raise RuntimeError("no words")


AWKWARD = [lambda: ValueError(Lock()), lambda: Mute("x")]
FAULTS = [lambda: ValueError("bad", 3), lambda: KeyError("key"), lambda: Fault("one", {"two": 2}), lambda: RuntimeError(), lambda: TimeoutError("mine"),
          lambda: ExceptionGroup("many", [ValueError("a"), KeyError("b")]), lambda: OSError(5, "io"), lambda: Exception("ünï\n")]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, BaseExceptionGroup):
        return a.message == b.message and len(a.exceptions) == len(b.exceptions) and all(same(x, y) for x, y in zip(a.exceptions, b.exceptions))
    if isinstance(a, BaseException):
        return a.args == b.args
    return a == b


def results(c):
    r = c.rng
    lat = r.choice([0.001, 0.004, 0.02])
    sim = c.sim(lat_max=lat)
    crashes = r.random() < 0.2
    poll = 0.03

    async def main(sim):
        from docket import ExecutionCancelled, Retry
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(1), concurrency=20, minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        plan = {}

        async def body(tag, life, attempt=1):
            p = plan[tag, life]
            async with w.running(tag, life=life):
                await asyncio.sleep(p["dur"])
                if attempt < p["until"]:
                    raise Fault("try again")
                if p["fault"] is not None:
                    raise p["fault"]()
                return p["value"]

        async def plain(tag: str, life: int):
            return await body(tag, life)

        async def retried(tag: str, life: int, retry: Retry = Retry(attempts=3, delay=sec(0.05))):
            return await body(tag, life, retry.attempt)
        w.tasks += [plain, retried]

        def setup(proc, gen):
            if crashes and r.random() < 0.6 and sim.now() < 3:
                proc.crash_at = (proc.ncmd + r.randint(30, 200), r.choice(["before", "after"]))
        await w.start_worker("w0", restart=0.1, setup=setup)
        await w.start_worker("w1", restart=0.1, setup=setup)
        dockets = []
        gate = asyncio.Event()
        holders = []
        for i in range(2):
            ev = asyncio.Event()

            async def hold(ev=ev):
                async with w.client() as d:
                    dockets.append(d)
                    ev.set()
                    await gate.wait()
            holders.append(sim.spawn(sim.proc(f"c{i}"), hold()))
            await ev.wait()
        procs = [sim.procs[f"c{i}"] if isinstance(sim.procs, dict) else next(p for p in sim.procs if p.name == f"c{i}") for i in range(2)]
        final = {}   # (tag, life) -> time its outcome was settled

        async def waiter(i, tag, life, handle, limit):
            p = plan[tag, life]
            t0 = sim.now()
            kw = {}
            if limit is not None:
                kw = {"timeout": sec(limit)} if r.random() < 0.5 else {"deadline": utc(sim.wallclock() + limit)}

            async def ask():
                if handle is not None:
                    return await handle.get_result(**kw)
                e = await dockets[i].get_execution(tag)
                return await e.get_result(**kw)
            try:
                got = ("value", await w.on(procs[i], ask()))
            except asyncio.CancelledError:
                raise
            except BaseException as e:
                got = ("raise", e)
            t1 = sim.now()
            c.count("waits")
            cancelled = p.get("cancelled")
            text = lambda: f"{tag} ({p}) waited {t0:.3f}-{t1:.3f} {'with limit %s' % limit if limit is not None else ''}: got {got!r}; ended {[(round(e.t - sim.epoch, 3), e.outcome) for e in w.events('end') if e.tag == tag and e['life'] == life]}"
            fin = final.get((tag, life))
            lag = 30 * lat + 0.05
            timed_out = got[0] == "raise" and type(got[1]) is TimeoutError and "Timeout waiting" in str(got[1])
            if timed_out:
                c.count("limits")
                c.check(limit is not None, "timeout-without-limit", text)
                c.check(limit is None or limit - 1e-6 <= t1 - t0 <= limit + lag, "limit-missed", text)
                done = [e.t - sim.epoch for e in w.events("end") if e.tag == tag and e["life"] == life and e.outcome in ("ok",)]
                if done and not crashes and not cancelled and not p["awkward"]:
                    c.check(t1 < max(done[0], t0) + lag, "late", text)
                return
            if limit is not None:
                c.check(t1 - t0 <= limit + lag, "limit-missed", text)
            want_cancel = cancelled is not None
            if got[0] == "raise" and isinstance(got[1], ExecutionCancelled):
                c.check(want_cancel, "cancelled?", text)
                c.count("saw_cancelled")
                c.check(not want_cancel or t1 <= max(cancelled - sim.epoch, t0) + lag + p["dur"] * 0, "late", text) if want_cancel else None
                return
            if p["awkward"]:
                # can't be kept: some exception has to do, but an exception it is
                c.check(got[0] == "raise", "wrong-outcome", text)
                c.count("saw_awkward")
            elif p["fault"] is not None:
                c.check(got[0] == "raise" and same(got[1], p["fault"]()), "wrong-exception", text)
                c.count("saw_exception")
            else:
                c.check(got[0] == "value" and (got[1] != got[1] or same(got[1], p["value"])), "wrong-value", text)
                c.count("saw_value")
            ends = [e.t - sim.epoch for e in w.events("end") if e.tag == tag and e["life"] == life]
            c.check(bool(ends), "before-it-ran", text)
            if ends and not crashes:
                c.check(t1 <= max(ends[-1], t0) + lag, "late", text)
        waits = []
        n_tasks = r.randint(3, 12)

        async def one(j):
            tag = f"k{j}"
            lives = r.choice([1, 1, 2])
            over = False
            for life in range(lives):
                retry = r.random() < 0.3
                p = plan[tag, life] = dict(dur=r.choice([0, 0, 0.005, 0.02, 0.2]), until=r.randint(1, 3) if retry else 1,
                                           value=r.choice(VALUES), fault=r.choice(FAULTS) if r.random() < 0.3 else None, awkward=r.random() < 0.12)
                if p["awkward"]:
                    if r.random() < 0.5:
                        p["value"], p["fault"] = Lock(), None
                    else:
                        p["fault"] = r.choice(AWKWARD)
                d = r.choice(dockets)
                i = dockets.index(d)
                fn = retried if retry else plain
                at = sim.wallclock() + r.choice([-1, -1, 0.05, 0.3])
                if at < sim.wallclock():
                    at = sim.wallclock()
                h = await w.on(procs[i], (d.replace(fn, key=tag, when=utc(at)) if over else d.add(fn, key=tag, when=utc(at)))(tag, life))
                c.check(h.disposition.value == "scheduled", "refused", lambda: f"{tag} life {life}: {h.disposition}")
                span = max(0, at - sim.wallclock()) + p["dur"] * p["until"] + 0.1 * p["until"] + 20 * lat
                over = life + 1 < lives and r.random() < 0.5
                if over:
                    # what waits for the next one mustn't see how this one ends
                    p["dur"] = r.choice([0.02, 0.2, 0.4])
                    await asyncio.sleep(r.uniform(0, max(0, at - sim.wallclock()) + p["dur"] * p["until"] * 0.9 + 10 * lat))
                    c.count("replaced")
                    continue
                mine = []
                shared = h
                for _ in range(r.randint(1, 5)):
                    async def later(delay=r.uniform(0, span * 1.3), k=r.randint(0, 1), limit=None if r.random() < 0.7 else r.uniform(0, span)):
                        await asyncio.sleep(delay)
                        nonlocal shared
                        own = None
                        if k == i and r.random() < 0.4:
                            own, shared = shared, None
                        await waiter(k, tag, life, own, limit)
                    mine.append(asyncio.ensure_future(later()))
                if r.random() < 0.2:
                    await asyncio.sleep(r.uniform(0, span))
                    p["cancelled"] = 1e99
                    await w.on(procs[i], d.cancel(tag))
                    p["cancelled"] = sim.wallclock()
                hung = (await asyncio.wait(mine, timeout=span + (30 if crashes else 4)))[1]
                c.check(not hung, "hangs", lambda: f"{len(hung)} waiting for {tag} life {life} ({p}) still wait; state {sim.server.call('hgetall', (f'dk:runs:{tag}',))}")
                for x in hung:
                    x.cancel()
                for x in mine:
                    if x.done() and not x.cancelled():
                        x.result()
                if life + 1 < lives:
                    # an interrupted run may still be finishing
                    await asyncio.sleep(p["dur"] + 0.3)
                    await w.until(lambda: sim.server.call("hget", (f"dk:runs:{tag}", "state")) not in (b"running", b"queued", b"scheduled"), 30)
        await asyncio.gather(*(one(j) for j in range(n_tasks)))
        gate.set()
        for h in holders:
            await asyncio.wait({h})
        c.nontrivial = c.stats["waits"] > 3
        c.sample = f"{n_tasks} tasks, {c.stats['waits']} waits: {c.stats['saw_value']} values, {c.stats['saw_exception']} exceptions, {c.stats['saw_cancelled']} cancelled, {c.stats['limits']} limits"
    c.run(sim, main)


GENERATORS = [(results, 1)]
