"""D14: tasks held back by a concurrency limit always get their turn."""
import asyncio

from rv.world import FINAL, World, fault_after_delivery, sec, utc


def tasks(w, limit):
    from docket import ConcurrencyLimit, Retry, Timeout

    async def body(tag, dur, how, attempt=9):
        async with w.running(tag):
            await asyncio.sleep(dur)
            if how == "fail" or (how == "retry" and attempt < 2):
                raise ValueError(how)

    async def lim(tag: str, v: int, dur: float, how: str, c: ConcurrencyLimit = ConcurrencyLimit("v", limit)):
        await body(tag, dur, how)

    async def limt(tag: str, v: int, dur: float, how: str, c: ConcurrencyLimit = ConcurrencyLimit("v", limit, scope="t"),
                   timeout: Timeout = Timeout(sec(1.0))):
        await body(tag, dur, how)

    async def limr(tag: str, v: int, dur: float, how: str, c: ConcurrencyLimit = ConcurrencyLimit("v", limit, scope="r"),
                   retry: Retry = Retry(attempts=2, delay=sec(0.1))):
        await body(tag, dur, how, retry.attempt)
    fns = [lim, limt, limr]
    w.tasks += fns
    return {f.__name__: f for f in fns}


def slots_left(w, sim):
    return [k for k in w.raw_keys() if ":concurrency:" in k]


def mix(c, faults):
    """Random mix with cancels and replaces; everything not cancelled must run."""
    r = c.rng
    limit = r.choice([1, 1, 2, 3])
    redel = r.choice([1.0, 2.0])
    sim = c.sim(lat_max=r.choice([0.002, 0.02]))
    kinds = r.choice([["lim"], ["limr"], ["lim", "limt", "limr"]])

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=r.choice([2, 5, 10])))
        fns = tasks(w, limit)
        fault_end = sim.now() + 7

        def setup(proc, gen):
            if faults == "none" or sim.now() > fault_end:
                return
            x = r.random()
            if x < 0.5:
                act = r.choice(["crash-before", "crash-after"]) if faults == "crash" else r.choice(["fail-before", "fail-after"])
                fault_after_delivery(sim, proc, r.randint(1, 16), act, nth=r.randint(1, 5))
            elif x < 0.6 and faults == "conn":
                async def cut():
                    await asyncio.sleep(r.uniform(0.5, 4))
                    if proc.alive and sim.now() < fault_end:
                        sim.disconnect(proc, r.uniform(0.05, 2))
                asyncio.ensure_future(cut())
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}", setup=setup, wait=False, restart=r.choice([0.05, 0.5]))
        live = {}
        async with w.client() as d:
            n = r.randint(6, 18)
            maxdur = 0
            for i in range(n):
                key = f"k{i}"
                kind = r.choice(kinds)
                how = r.choice(["ok", "ok", "ok", "fail", "retry"])
                dur = r.choice([0, 0.05, 0.3, 0.8, 2.5 * redel])
                maxdur += dur + 0.5
                x = await d.add(fns[kind], key=key)(key, r.choice([1, 1, 2]), dur, how)
                live[key] = key
                if r.random() < 0.25:
                    await asyncio.sleep(r.uniform(0, 0.5))
                if r.random() < 0.2:
                    k = r.choice(list(live))
                    await d.cancel(k)
                    live.pop(k)
                elif r.random() < 0.15:
                    k = r.choice(list(live))
                    tag = f"{k}'"
                    await d.replace(fns[kind], when=utc(sim.wallclock() + r.choice([0, 0.4])), key=k)(tag, r.choice([1, 2]), dur, how)
                    live[k] = tag
            end = max(sim.now(), fault_end) + maxdur + 8 * redel + 5
            def had_turn(k, t):
                if w.ends(t):
                    return True
                # a lost connection during set-up fails the task: that was its turn
                h = sim.server.call("hgetall", (f"{d.prefix}:runs:{k}",))
                return faults == "conn" and h.get(b"state") == b"failed" and b"resolve dependencies" in h.get(b"error", b"")
            ok = await w.until(lambda: all(had_turn(k, t) for k, t in live.items()), end - sim.now(), 0.5)
            def where():
                out = []
                for k, t in live.items():
                    if not w.ends(t):
                        out.append((k, t, len(w.starts(t)), sim.server.call("hgetall", (f"{d.prefix}:runs:{k}",))))
                return f"{out}; store: {sorted(x for x in w.raw_keys() if ':runs:' not in x)}; exits {[(round(e.t-sim.epoch,2), e.worker, e.how[-80:]) for e in w.events('worker_gone')]}"
            c.check(ok, "stranded", lambda: f"limit {limit}: never ran {where()}")
            if ok:
                await w.drained(d, 8 * redel + 5)
                await asyncio.sleep(5 * redel)
                left = slots_left(w, sim)
                c.check(not left, "slot-leak", lambda: f"slot or waiter records remain at rest: {left}")
        parked = sum(1 for e in sim.events if e["kind"] == "start")
        c.nontrivial = True
        c.sample = f"limit {limit}, {kinds}, {n} tasks, faults={faults}, {parked} starts"
    c.run(sim, main)


def no_faults(c):
    mix(c, "none")


def crashes(c):
    mix(c, "crash")


def conn(c):
    mix(c, "conn")


def order(c):
    """Waiting tasks start promptly when a slot frees, in waiting order."""
    r = c.rng
    limit = r.choice([1, 2])
    sim = c.sim(lat_max=0.003)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(4), concurrency=r.choice([4, 20])))
        fns = tasks(w, limit)
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}")
        async with w.client() as d:
            end_how = r.choice(["ok", "fail", "timeout", "cancel"])
            kind = "limt" if end_how == "timeout" else "lim"
            n = r.randint(3, 7)
            durs = [30 if end_how in ("timeout", "cancel") else r.uniform(1.6, 2.4) for _ in range(limit)]
            for i in range(limit):
                await d.add(fns[kind], key=f"h{i}")(f"h{i}", 1, durs[i], "fail" if end_how == "fail" else "ok")
            await asyncio.sleep(0.15)
            keys = []
            for i in range(n):
                keys.append(f"q{i}")
                await d.add(fns[kind], key=f"q{i}")(f"q{i}", 1, 0.2, "ok")
                await asyncio.sleep(r.uniform(0.09, 0.15))
            drop = None
            if r.random() < 0.5:
                drop = r.choice(keys)
                await d.cancel(drop)
            if end_how == "cancel":
                for i in range(limit):
                    await d.cancel(f"h{i}")
            await asyncio.sleep(4 + n * 0.5)
            free = sorted([e.t for e in w.events("end")])
            q = [k for k in keys if k != drop]
            got = [e.tag for e in w.events("start") if e.tag in q]
            c.check(sorted(got) == sorted(q), "not-prompt", lambda: f"holders ended {end_how}; waiting {q}, dropped {drop}; started {got} well after the slots were free")
            if limit == 1:
                c.check(got == q, "order", lambda: f"waited in order {q}, started in order {got} (holders ended {end_how}, cancelled {drop})")
            # each waiter starts within 0.6 s of a slot being freed for it
            st = [e.t for e in w.events("start") if e.tag in q]
            for k, t in enumerate(st):
                if k < len(free):
                    c.check(t - free[k] <= 0.6, "not-prompt", lambda: f"slot freed at {free[k]-sim.epoch:.3f} was only used at {t-sim.epoch:.3f}")
        c.nontrivial = True
        c.sample = f"{n} waiters behind {limit} holders ending by {end_how}, cancelled waiter {drop}"
    c.run(sim, main)


def lone_crash(c):
    """Everything parked behind a dead, cancelled holder; no other task arrives."""
    r = c.rng
    redel = r.choice([1.0, 2.0])
    sim = c.sim()

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel)))
        fns = tasks(w, 1)
        await w.start_worker("w0", restart=None)
        await w.start_worker("w1")
        async with w.client() as d:
            await d.add(fns["lim"], key="h")("h", 1, 30, "ok")
            await w.until(lambda: bool(w.starts("h")), 5, 0.01)
            n = r.randint(1, 4)
            for i in range(n):
                await d.add(fns["lim"], key=f"q{i}")(f"q{i}", 1, 0.1, "ok")
            await asyncio.sleep(r.uniform(0, 2.2 * redel))
            holder = w.starts("h")[0].proc
            for h in list(w.workers.values()):
                if h.proc.name == holder:
                    w.kill_worker(h.name)
                    if h.name == "w1":
                        pass
            await asyncio.sleep(r.uniform(0, 0.3))
            end = r.choice(["cancel", "replace", "strike"])
            if end == "cancel":
                await d.cancel("h")
            elif end == "strike":
                await d.strike(fns["lim"], "tag", "==", "h")
            else:
                await d.replace(fns["lim"], when=utc(sim.wallclock() + 60), key="h")("h2", 1, 0, "ok")
            await asyncio.sleep(6 * redel + 12)   # includes a lock the dead one may have held
            left = [f"q{i}" for i in range(n) if not w.ends(f"q{i}", "ok")]
            c.check(not left, "stranded", lambda: f"holder's worker died and the holder was ended by {end}; still waiting after {6*redel+12}s: {left}; store {sorted(x for x in w.raw_keys() if ':runs:' not in x)}")
        c.nontrivial = True
        c.sample = f"{n} waiters behind a holder whose worker died (holder then: {end})"
    c.run(sim, main)


def cancelled_on_the_edge(c):
    """Cancellations landing while slots are taken or given back; no deaths, so
    nothing has to wait for anything to lapse."""
    r = c.rng
    sim = c.sim(lat_min=0.002, lat_max=r.choice([0.006, 0.02, 0.05]))

    async def main(sim):
        limit = r.choice([1, 1, 2])
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(120), minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05)))
        fns = tasks(w, limit)
        for i in range(r.choice([1, 2])):
            await w.start_worker(f"w{i}", restart=None)
        async with w.client() as d:
            await asyncio.sleep(0.3)
            n = r.randint(2, 8)
            cancelled = set()
            last_try = {}        # key -> outcome of its last attempt to take a slot

            def hook(p, name, args, kwargs, result):
                if name == "evalsha" and args[1] == 4 and b":concurrency:" in (args[2] if isinstance(args[2], bytes) else str(args[2]).encode()) and str(args[5]).startswith("dk:runs:"):
                    last_try[str(args[5])[8:]] = result
            sim.command_hooks.append(hook)
            later = []

            async def cancel(k, when, after):
                await w.until(lambda: when == "added" or bool(w.starts(k) if when == "started" else w.ends(k)), 20, 0.001)
                await asyncio.sleep(after)
                await d.cancel(k)
            name = r.choice(["lim", "limt"])
            span = sim.lat_max if hasattr(sim, "lat_max") else 0.05
            for i in range(n):
                k = f"k{i}"
                dur = r.choice([0, 0, 0.05, 0.3])
                if r.random() < 0.5 and i < n - 1:
                    cancelled.add(k)
                    how = r.choice(["added", "added", "started"])
                    later.append(asyncio.ensure_future(cancel(k, how, r.uniform(0, 0.3) if how == "added" else r.uniform(0, dur + 0.05))))
                await d.add(fns[name], key=k)(k, 1, dur, r.choice(["ok", "fail"]))
            await asyncio.gather(*later)
            took = n * (0.3 + 0.4) + 5
            await w.until(lambda: all(w.ends(f"k{i}") for i in range(n) if f"k{i}" not in cancelled), took, 0.1)
            left = [f"k{i}" for i in range(n) if f"k{i}" not in cancelled and not w.ends(f"k{i}")]
            if any(last_try.get(k) in (0, -1) for k in cancelled):
                # one withdrawn while waiting may have just been offered the slot,
                # which the others are offered again a redelivery timeout later
                c.count("withdrawn_waiting")
                c.nontrivial = False
                return
            c.check(not left, "leaked", lambda: f"still waiting {took} s after the last cancellation, with nothing running: {left}; cancelled {sorted(cancelled)}; {slots_left(w, sim)}")
            await asyncio.sleep(1)
            c.check(bool(left) or not slots_left(w, sim), "slots-left", lambda: str(slots_left(w, sim)))
            c.count("edge", len(cancelled))
            c.nontrivial = bool(cancelled)
        c.sample = f"{n} tasks, limit {limit}, cancelled {sorted(cancelled)}"
    c.run(sim, main)


GENERATORS = [(cancelled_on_the_edge, 3), (no_faults, 3), (crashes, 4), (conn, 2), (order, 2), (lone_crash, 2)]
