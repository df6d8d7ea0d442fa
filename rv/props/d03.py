"""D03: one live task per key; a second add changes nothing."""
import asyncio

from rv.world import World, sec, utc


def _tasks(w, r):
    from docket import ConcurrencyLimit, Retry

    async def plain(tag: str, dur: float):
        async with w.running(tag):
            await asyncio.sleep(dur)

    async def flaky(tag: str, dur: float, retry: Retry = Retry(attempts=3, delay=sec(0.4))):
        async with w.running(tag, attempt=retry.attempt):
            await asyncio.sleep(dur)
            if retry.attempt < 3:
                raise ValueError("again")

    async def hasty(tag: str, dur: float, retry: Retry = Retry(attempts=3)):
        async with w.running(tag, attempt=retry.attempt):
            await asyncio.sleep(dur)
            if retry.attempt < 3:
                raise ValueError("again")

    async def limited(tag: str, dur: float, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
        async with w.running(tag):
            await asyncio.sleep(dur)
    w.tasks += [plain, flaky, limited, hasty]
    return plain, flaky, limited, hasty


def _race(c, kinds, keys, ttl=None):
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.003, 0.02]))
    nw = r.randint(1, 3)
    slack = 0.6

    async def main(sim):
        w = World(c, sim, docket_kw={} if ttl is None else dict(execution_ttl=sec(ttl)),
                  worker_kw=dict(concurrency=r.choice([1, 3, 10]), minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))
        plain, flaky, limited, hasty = _tasks(w, r)
        fns = {"plain": plain, "flaky": flaky, "limited": limited, "hasty": hasty}
        for i in range(nw):
            await w.start_worker(f"w{i}")
        adds = []
        async def adder(j):
            p = sim.proc(f"c{j}")
            async def go():
                async with w.make_docket() as d:
                    for i in range(r.randint(6, 14)):
                        key = r.choice(keys)
                        kind = r.choice(kinds)
                        tag = f"{key}/{j}.{i}"
                        dur = r.choice([0, 0.05, 0.3, 0.9])
                        when = None if r.random() < 0.6 else sim.wallclock() + r.choice([-1, 0.001, 0.3, 1.2])
                        t0 = sim.wallclock()
                        x = await d.add(fns[kind], when=when and utc(when), key=key)(tag, dur)
                        adds.append(dict(key=key, tag=tag, kind=kind, t0=t0, t1=sim.wallclock(), when=when, disp=x.disposition.value))
                        await asyncio.sleep(r.choice([0, 0.01, 0.2, 0.5, 1.0]) * r.random())
            t = sim.spawn(p, go())
            await asyncio.wait({t})
            if t.exception():
                raise t.exception()
        await asyncio.gather(*[adder(j) for j in range(r.randint(2, 5))])
        async with w.client() as d:
            ok = await w.drained(d, 60)
            c.check(ok, "stuck", "accepted tasks are still outstanding after 60 s")
            await asyncio.sleep(1)
            # a quiet key is always accepted again and runs
            for key in keys:
                x = await d.add(plain, key=key)(f"{key}/again", 0)
                c.check(x.disposition.value == "scheduled", "refused", lambda: f"{key}: add refused although nothing is outstanding")
            await asyncio.sleep(2)
            for key in keys:
                c.check(len(w.ends(f"{key}/again", "ok")) == 1, "refused", lambda: f"{key}: final add ran {len(w.ends(f'{key}/again','ok'))} times")
        fin = {}
        for a in adds:
            runs = w.starts(a["tag"])
            ends = w.ends(a["tag"])
            if a["disp"] != "scheduled":
                c.check(not runs, "refused-ran", lambda: f"{a} was refused but its arguments ran")
                continue
            want = 3 if a["kind"] in ("flaky", "hasty") else 1
            c.check(len(runs) == want and len(w.ends(a["tag"], "ok")) == 1, "accepted-run-count",
                    lambda: f"{a}: ran {len(runs)} times, expected {want}; {[(e.kind, round(e.t-sim.epoch,3)) for e in sim.events if e.get('tag')==a['tag']]}")
            fin[a["tag"]] = max([e.t for e in ends], default=float("inf"))
            if a["when"] and runs:
                c.check(runs[0].t >= a["when"] - 2e-6, "early", lambda: f"{a} started at {runs[0].t}")
        by = {}
        for a in adds:
            by.setdefault(a["key"], []).append(a)
        for key, l in by.items():
            acc = sorted((a for a in l if a["disp"] == "scheduled"), key=lambda a: (w.starts(a["tag"])[0].t if w.starts(a["tag"]) else a["t1"]))
            for a, b in zip(acc, acc[1:]):
                c.check(fin[a["tag"]] <= b["t1"] + 1e-6, "two-live",
                        lambda: f"{key}: {b['tag']} ({b['kind']}) was accepted at {b['t1']-sim.epoch:.4f} while accepted {a['tag']} ({a['kind']}, accepted {a['t1']-sim.epoch:.4f}, first start {w.starts(a['tag'])[0].t-sim.epoch if w.starts(a['tag']) else None}) only finished at {fin[a['tag']]-sim.epoch:.4f}")
            for x in l:
                if x["disp"] == "scheduled":
                    continue
                live = any(a["t0"] <= x["t1"] and fin[a["tag"]] + slack >= x["t0"] for a in acc)
                c.check(live, "refused-free", lambda: f"{x} was refused but no accepted task of that key was live then; accepted: {[(a['tag'], round(a['t0']-sim.epoch,3), round(fin[a['tag']]-sim.epoch,3)) for a in acc]}")
        c.count("adds", len(adds))
        c.count("refused", sum(a["disp"] != "scheduled" for a in adds))
        c.nontrivial = any(a["disp"] != "scheduled" for a in adds)
        c.sample = f"{kinds} keys={keys} ttl={ttl}: {len(adds)} adds, {sum(a['disp']!='scheduled' for a in adds)} refused"
    c.run(sim, main)


def plain_race(c):
    _race(c, ["plain"], ["k"] if c.rng.random() < 0.5 else ["k1", "k2", "key with space:{x}"])


def mixed_race(c):
    _race(c, ["plain", "flaky"], ["k1", "k2"])


def hasty_race(c):
    """Retries without a delay, on few places: they queue behind other tasks."""
    _race(c, ["plain", "hasty"], ["k1", "k2", "k3"])


def limited_race(c):
    _race(c, ["limited"], ["a", "b", "cc"])


def no_retention_race(c):
    _race(c, ["plain", "flaky"], ["k1", "k2"], ttl=0)


def cancel_then_add(c):
    """After cancel returned, the next add is accepted and runs - exactly it."""
    r = c.rng
    sim = c.sim()
    ttl = r.choice([0, 2, 900])

    async def main(sim):
        w = World(c, sim, docket_kw=dict(execution_ttl=sec(ttl)), worker_kw=dict(minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))
        plain, flaky, limited, hasty = _tasks(w, r)
        await w.start_worker("w0")
        await w.start_worker("w1")
        async with w.client() as d, w.client() as d2:
            async def line(j):
                key = f"q{j}"
                for i in range(5):
                    tag = f"{key}.{i}"
                    when = r.choice([None, 0.0, 0.3, 10])
                    x = await d.add(plain, when=None if when is None else utc(sim.wallclock() + when), key=key)(tag, r.choice([0, 0.2, 2]))
                    if not c.check(x.disposition.value == "scheduled", "refused", lambda: f"{tag} refused although its key was cancelled or finished before"):
                        return
                    await asyncio.sleep(r.choice([0, 0.005, 0.1, 0.35]))
                    await r.choice([d, d2]).cancel(key)
                tag = f"{key}.last"
                ahead = r.choice([0, ttl + 4])
                x = await d.add(plain, when=utc(sim.wallclock() + ahead), key=key)(tag, 0.1)
                c.check(x.disposition.value == "scheduled", "refused", lambda: f"{tag} refused after a cancel")
                await asyncio.sleep(ahead + 4)
                c.check(len(w.starts(tag)) == 1, "accepted-run-count", lambda: f"{tag} (retention {ttl}s, scheduled {ahead}s ahead after cancels) started {len(w.starts(tag))} times")
            await asyncio.gather(*[line(j) for j in range(4)])
        c.nontrivial = True
        c.sample = f"cancel_then_add retention {ttl}"
    c.run(sim, main)


GENERATORS = [(plain_race, 2), (mixed_race, 2), (hasty_race, 2), (limited_race, 1), (no_retention_race, 1), (cancel_then_add, 1)]
