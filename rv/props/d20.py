"""D20: a task's reported state follows its real life cycle and ends correctly.

Three things are compared: what task bodies and callers saw happen (truth), what
the store holds after each command (its history), and what lookups and
subscribers reported."""
import asyncio

from rv.world import FINAL, World, sec, utc

LEGAL = {
    None: {"scheduled", "queued"},
    "scheduled": {"queued", "cancelled"},
    "queued": {"running", "cancelled"},
    "running": {"completed", "failed", "cancelled"},
}


class Err(Exception):
    pass


def cycle(c):
    r = c.rng
    lat = r.choice([0.001, 0.005, 0.02])
    sim = c.sim(lat_max=lat)
    crashes = r.random() < 0.25
    poll = r.choice([0.03, 0.1])
    lag = 40 * lat + 0.02

    async def main(sim):
        from docket import ConcurrencyLimit, ExecutionState, Perpetual, Retry, Timeout
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(1.5), concurrency=r.choice([3, 20]), minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        plan = {}

        async def body(tag, attempt=1):
            p = plan[tag]
            async with w.running(tag, attempt=attempt):
                await asyncio.sleep(p["dur"])
                if attempt < p["until"] or p["fail"]:
                    raise Err(f"{tag} number {attempt}")

        async def plain(tag: str):
            await body(tag)

        async def retried(tag: str, retry: Retry = Retry(attempts=3, delay=sec(0.1))):
            await body(tag, retry.attempt)

        async def hasty(tag: str, retry: Retry = Retry(attempts=3)):
            await body(tag, retry.attempt)

        async def limited(tag: str, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            await body(tag)

        async def timed(tag: str, timeout: Timeout = Timeout(sec(0.25))):
            await body(tag)

        async def chain(tag: str, n: int, perpetual: Perpetual = Perpetual(every=sec(0.3))):
            if n >= plan[tag]["until"]:
                perpetual.cancel()
            perpetual.perpetuate(tag, n + 1)
            await body(tag, n)
        kinds = dict(plain=plain, retried=retried, hasty=hasty, limited=limited, timed=timed, chain=chain)
        w.tasks += list(kinds.values())

        def setup(proc, gen):
            if crashes and sim.now() < 3 and r.random() < 0.6:
                proc.crash_at = (proc.ncmd + r.randint(20, 200), r.choice(["before", "after"]))
        nw = r.randint(1, 3)
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup)
        dockets, holders, gate = [], [], asyncio.Event()
        for i in range(2):
            got = asyncio.Event()

            async def hold(got=got):
                async with w.client() as d:
                    dockets.append(d)
                    got.set()
                    await gate.wait()
            holders.append(sim.spawn(sim.proc(f"c{i}"), hold()))
            await got.wait()
        procs = [sim.procs[f"c{i}"] for i in range(2)]

        # the store's history of every watched key
        hist, kept = {}, {}

        def look(tag):
            h = sim.server.call("hgetall", (f"dk:runs:{tag}",)) or {}
            if not h:
                return (None,)
            g = lambda k: (h.get(k) or b"").decode()
            return (g(b"state"), int(g(b"generation") or 0), g(b"worker"), g(b"started_at"))

        def watch(proc, name, args, kwargs, result):
            if name in ("hgetall", "xreadgroup", "xautoclaim", "hget", "set", "get"):
                return
            for tag, hs in hist.items():
                now = look(tag)
                if now[:2] != hs[-1][1][:2] or (now[0] == "running" and now != hs[-1][1]):
                    hs.append((sim.wallclock(), now))
        sim.command_hooks.append(watch)
        lookups, subs = [], {}

        async def looker(i, tag, until):
            while sim.wallclock() < until:
                await asyncio.sleep(r.uniform(0, 0.25))
                t0 = sim.wallclock()
                e = await w.on(procs[i], dockets[i].get_execution(tag))
                lookups.append((tag, t0, sim.wallclock(), e.state.value if e else None, e.worker if e else None, e.error if e else None, e.started_at.timestamp() if e and e.started_at else None))

        async def subscriber(i, tag, until):
            e = await w.on(procs[i], dockets[i].get_execution(tag))
            if e is None:
                return
            log = dict(tag=tag, events=[], live=None)
            ready = asyncio.Event()
            subs.setdefault(tag, []).append(log)

            async def consume():
                async for ev in e.subscribe(ready=ready):
                    if ev["type"] == "state":
                        c.check(ev["key"] == tag, "wrong-key", lambda: f"subscriber of {tag} got {ev}")
                        log["events"].append((sim.wallclock(), ExecutionState(ev["state"]).value, ev))
            t = sim.spawn(procs[i], consume())
            rd = asyncio.ensure_future(ready.wait())
            await asyncio.wait({rd, t}, timeout=10, return_when=asyncio.FIRST_COMPLETED)
            rd.cancel()
            log["live"] = sim.wallclock() if ready.is_set() else None
            await asyncio.sleep(max(0, until - sim.wallclock()))
            t.cancel()

        async def one(j):
            tag = f"k{j}"
            kind = r.choice(list(kinds))
            p = plan[tag] = dict(kind=kind, dur=r.choice([0, 0.004, 0.05, 0.2, 0.4]), fail=r.random() < 0.25, cancel=None, accepted=None,
                                 until=r.randint(1, 3) if kind in ("retried", "hasty", "chain") else 1)
            if kind == "chain" and p["fail"]:
                p["fail"] = False
            d, i = dockets[j % 2], j % 2
            hist[tag] = [(sim.wallclock(), (None,))]
            at = sim.wallclock() + r.choice([-1, -1, 0.02, 0.4, 1])
            args = (tag, 1) if kind == "chain" else (tag,)
            h = await w.on(procs[i], d.add(kinds[kind], key=tag, when=utc(at))(*args))
            p["accepted"] = sim.wallclock()
            c.check(h.disposition.value == "scheduled", "refused", lambda: f"{tag}: {h.disposition}")
            until = max(at, sim.wallclock()) + 3 + (9 if crashes else 0)
            jobs = []
            for _ in range(r.randint(1, 2)):
                jobs.append(asyncio.ensure_future(looker(r.randint(0, 1), tag, until)))
            for _ in range(r.randint(1, 3)):
                async def later(delay=r.choice([0, 0, r.uniform(0, 1.5)]), k=r.randint(0, 1)):
                    await asyncio.sleep(delay)
                    await subscriber(k, tag, until)
                jobs.append(asyncio.ensure_future(later()))
            if r.random() < 0.25:
                await asyncio.sleep(r.uniform(0, max(0, at - sim.wallclock()) + p["dur"] + 0.2))
                p["cancel"] = [sim.wallclock(), None]
                await w.on(procs[i], d.cancel(tag))
                p["cancel"][1] = sim.wallclock()
                c.count("cancels")
            done = (await asyncio.wait(jobs))[0]
            for x in done:
                x.result()
            if r.random() < 0.4 and hist[tag][-1][1][0] in FINAL:
                await again(tag, i, d)

        async def again(tag, i, d):
            """A new life of a finished key starts from scratch."""
            seen = hist.pop(tag)
            kept[tag] = seen
            old = seen[-1][1]
            key, life = tag, tag + "'"
            plan[life] = dict(kind="plain", dur=r.choice([0.05, 0.3]), fail=r.random() < 0.5, cancel=None, until=1)
            at = sim.wallclock() + r.choice([-1, 0.3])
            h = await w.on(procs[i], d.add(plain, key=key, when=utc(at))(life))
            c.check(h.disposition.value == "scheduled", "refused", lambda: f"{key} again: {h.disposition}")
            t0 = sim.wallclock()
            states = []
            while sim.wallclock() < max(at, t0) + 1.5:
                e = await w.on(procs[i], d.get_execution(key))
                states.append((e.state.value, e.worker, e.error, e.started_at and e.started_at.timestamp(), e.completed_at and e.completed_at.timestamp()))
                await asyncio.sleep(r.uniform(0.01, 0.1))
            text = lambda: f"{key} was {old}, scheduled again at {t0 - sim.epoch:.3f} for {at - sim.epoch:.3f} ({plan[life]}): lookups {states[:40]}"
            order = dict(scheduled=0, queued=1, running=2, completed=3, failed=3, cancelled=3)
            seq = [order[x[0]] for x in states]
            c.check(seq == sorted(seq), "again-step", text)
            c.check(states[-1][0] == ("failed" if plan[life]["fail"] else "completed"), "again-end", text)
            for st, worker, error, started, completed in states:
                c.check((error is not None) == (st == "failed"), "again-error", text)
                c.check(started is None or started >= t0 - 0.5, "again-stale", text)
                c.check(completed is None or completed >= t0 - 0.5, "again-stale", text)
                c.check((completed is not None) == (order[st] == 3), "again-stale", text)
                c.check((worker is not None) == (order[st] >= 2), "again-stale", text)
            c.count("second_lives")
        n = r.randint(3, 8)
        await asyncio.gather(*(one(j) for j in range(n)))
        gate.set()
        for h in holders:
            await asyncio.wait({h})
        hist.update(kept)
        judge(c, w, sim, plan, hist, lookups, subs, lag, crashes)
        c.nontrivial = c.stats["lookups"] > 10 and c.stats["sub_events"] > 5
        c.sample = f"{n} tasks, {nw} workers: {c.stats['lookups']} lookups, {c.stats['sub_events']} events to subscribers, {c.stats['states']} state changes"
    c.run(sim, main)


def judge(c, w, sim, plan, hist, lookups, subs, lag, crashes):
    for tag, hs in hist.items():
        p = plan[tag]
        kind = p["kind"]
        off = lambda t: round(t - sim.epoch, 4)
        runs = []
        for e in w.starts(tag):
            end = next((x for x in w.ends(tag) if x.run == e.run), None)
            runs.append((e.t, end.t if end else None, e.proc, end.outcome if end else None, e.attempt))
        text = lambda: f"{tag} ({p}): history {[(off(t), *s) for t, s in hs]}; runs {[(off(a), b and off(b), *x) for a, b, *x in runs]}"
        # legal steps
        for (t0, a), (t1, b) in zip(hs, hs[1:]):
            c.count("states")
            if b[0] is None:
                c.check(False, "vanished", text)
                continue
            if a[0] is None:
                c.check(b[0] in LEGAL[None], "step", lambda: f"{a}->{b} {text()}")
                continue
            new_gen = b[1] > a[1]
            c.check(b[1] >= a[1], "step", lambda: f"generation went back {a}->{b} {text()}")
            if new_gen:
                # rescheduled by itself: a retry, repetition, parking or waking
                ok = b[0] in ("scheduled", "queued") and a[0] not in ("completed", "failed", "cancelled")
                c.check(ok, "step", lambda: f"{a}->{b} {text()}")
            elif a[0] == b[0] == "running":
                c.check(crashes, "step", lambda: f"claimed twice {a}->{b} {text()}")
            elif a[0] == "cancelled" and b[0] in FINAL and p["cancel"] and any(s <= p["cancel"][1] and (e is None or e >= p["cancel"][0] - lag) for s, e, *_ in runs):
                pass    # asked to stop while it ran, but it ended by itself
            else:
                c.check(b[0] in LEGAL.get(a[0], ()), "step", lambda: f"{a}->{b} {text()}")
        # while it runs, the store says so, and by whom
        state_at = lambda t: [s for x, s in hs if x <= t + 1e-9][-1]
        for s, e, proc, outcome, attempt in runs:
            st = state_at(s)
            if p["cancel"] and p["cancel"][0] <= s + lag:
                continue
            c.check(st[0] == "running" and st[2] == proc, "not-running", lambda: f"run {attempt} starts while the state is {st}; {text()}")
        # and says running only around a run
        if kind != "limited" and not crashes:
            for (t, s), nxt in zip(hs, hs[1:] + [None]):
                if s[0] == "running":
                    c.check(any(t - 1e-6 <= a <= t + lag for a, *_ in runs) or p["cancel"], "phantom-run", lambda: f"running at {off(t)}; {text()}")
        # the end
        last = hs[-1][1][0]
        ends = [x for x in runs if x[1] is not None]
        if p["cancel"] is not None:
            lastend = ends[-1] if ends else None
            if not runs:
                c.check(last == "cancelled", "end", lambda: f"cancelled before it ran; {text()}")
            elif lastend is None or lastend[3] == "cancelled":
                c.check(last in ("cancelled", "failed") if kind == "timed" else last == "cancelled", "end", text)
            elif kind != "chain":
                # it ended by itself: before the cancellation, or in spite of it
                c.check(last in ("cancelled", {"ok": "completed", "failed": "failed"}[lastend[3]]), "end", text)
        else:
            timeout = kind == "timed" and p["dur"] > 0.25
            want = "failed" if p["fail"] or timeout else "completed"
            c.check(last == want, "end", text)
        fin = {s[0] for _, s in hs}
        # lookups
        for lt, t0, t1, state, worker, error, started in lookups:
            if lt != tag:
                continue
            c.count("lookups")
            possible = {s for x, s in hs if t0 <= x <= t1} | {state_at(t0)}
            names = {s[0] for s in possible}
            c.check(state in names, "lookup", lambda: f"lookup {off(t0)}-{off(t1)} says {state}; {text()}")
            if state == "running":
                c.check(any(s[2] == worker for s in possible), "lookup-worker", lambda: f"lookup {off(t0)}-{off(t1)} says run by {worker}; {text()}")
                near = [a for a, *_ in runs if started is not None and started - 1e-3 <= a <= started + lag]
                c.check(started is not None and (near or kind == "limited" or crashes or p["cancel"]), "started-at", lambda: f"lookup {off(t0)}-{off(t1)} says started {started and off(started)}; {text()}")
            if state == "failed" and not (kind == "timed" and p["dur"] > 0.25):
                c.check(error is not None and any(f"{tag} number {x[4]}" in error for x in ends), "error", lambda: f"lookup says error {error!r}; {text()}")
                c.check(error is not None and error.startswith("Err: "), "error", lambda: f"lookup says error {error!r}; {text()}")
            if state in ("completed", "cancelled"):
                c.check(error is None, "error", lambda: f"lookup says {state} with error {error!r}; {text()}")
        # subscribers
        for log in subs.get(tag, ()):
            evs = log["events"]
            c.count("sub_events", len(evs))
            c.check(log["live"] is not None and bool(evs), "never-live", lambda: f"subscriber of {tag} got nothing")
            if log["live"] is None or not evs:
                continue
            sub = lambda: f"subscriber live {off(log['live'])} got {[(off(t), s, e.get('worker'), e.get('generation')) for t, s, e in evs]}; {text()}"
            news = [s for t, s, e in evs if not (s in FINAL and e.get("generation") is not None and e["generation"] < hs[-1][1][1])]
            c.check(bool(news) and news[-1] == last, "sub-end", sub)
            live = log["live"]
            # from the moment it's live: exactly the changes that follow, in order
            tail = [(x, s) for x, s in hs if x > live]
            got = [(t, s, e) for t, s, e in evs if t > live]
            g = 0
            if tail:
                want = [s[0] for _, s in tail]
                seq = []
                for t, s, e in got:
                    gen = e.get("generation")
                    cur = max((x[1] for tt, x in hs if tt <= t and len(x) > 1), default=0)
                    if s in FINAL and gen is not None and gen < cur:
                        continue   # the end of a run that has been rescheduled
                    seq.append(s)
                # the events that were on their way as it went live come first
                lead = len(seq) - len(want)
                c.check(lead >= 0 and seq[lead:] == want, "sub-sequence", lambda: f"expected to end with {want}; {sub()}")
                early = [s for x, s in hs if x > live - lag and x <= live]
                c.check(lead <= len(early) + 1, "sub-repeated", sub)
            for t, s, e in evs:
                if s == "running" and "worker" in e and e["worker"]:
                    c.check(any(h[1][0] == "running" and h[1][2] == e["worker"] for h in hs), "sub-worker", sub)
                if s == "failed" and kind != "timed":
                    c.check(e.get("error") and tag in e["error"], "sub-error", sub)


GENERATORS = [(cycle, 1)]
