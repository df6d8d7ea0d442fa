"""D07: work of a dead worker is picked up within the redelivery timeout."""
import asyncio

from rv.world import World, sec, utc


def takeover(c):
    r = c.rng
    redel = r.choice([0.5, 1.0, 2.5, 6.0])
    poll = r.choice([0.05, 0.2])
    lat = r.choice([0.003, 0.015])
    sim = c.sim(lat_max=lat)
    lone = r.random() < 0.3       # a single worker, restarted under its own name

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=40, minimum_check_interval=sec(poll), scheduling_resolution=sec(0.1)))
        tries = {}

        async def work(tag: str, dur: float):
            tries[tag] = tries.get(tag, 0) + 1
            async with w.running(tag):
                # what ran on a dead worker ends quickly the second time
                await asyncio.sleep(dur if tries[tag] == 1 else min(dur, 0.1))
        w.tasks.append(work)
        held = {}     # proc name -> {key: time handed over}

        def hook(p, name, args, kwargs, result):
            msgs = []
            if name == "xreadgroup" and result:
                msgs = [m for _, ms in result for m in ms]
            elif name == "xautoclaim" and result:
                msgs = result[1]
            for m in msgs:
                if m[1]:
                    held.setdefault(p.name, {})[m[1][b"key"].decode()] = sim.wallclock()
        sim.command_hooks.append(hook)
        nw = 1 if lone else r.randint(2, 4)
        restart_after = r.choice([0.05, 0.3]) if lone else None

        for i in range(nw):
            await w.start_worker(f"w{i}", restart=restart_after, same_name=lone)
        deaths = []
        async with w.client() as d:
            n = r.randint(6, 20)
            durs = {}

            async def adder():
                for i in range(n):
                    key = f"k{i}"
                    durs[key] = r.choice([0, 0.05, 0.4, 1.0, 2.2 * redel, 6])
                    when = None if r.random() < 0.7 else utc(sim.wallclock() + r.uniform(0, 2))
                    await d.add(work, when=when, key=key)(key, durs[key])
                    await asyncio.sleep(r.choice([0, 0.02, 0.3]))
            adding = asyncio.ensure_future(adder())
            for _ in range(r.randint(1, max(1, nw - 1)) if not lone else 2):
                await asyncio.sleep(r.uniform(0.05, 2.0))
                alive = [h for h in w.workers.values() if h.proc and h.proc.alive and not h.done.is_set()]
                if not alive or (len(alive) < 2 and not lone):
                    break
                h = r.choice(alive)
                if r.random() < 0.5:
                    # die at one particular command of its own
                    h.proc.crash_at = (h.proc.ncmd + r.randint(1, 25), r.choice(["before", "after"]))
                    p = h.proc
                    await w.until(lambda: not p.alive, 3, 0.001)
                    if p.alive:
                        w.kill_worker(h.name)
                else:
                    p = h.proc
                    w.kill_worker(h.name)
                deaths.append((p.name, sim.wallclock()))
            await adding
            await asyncio.sleep(redel + 8 + 2 * redel)
            ok = await w.drained(d, 30)
            c.check(ok, "stranded", lambda: f"work left after {deaths}: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:5]}")
            crash = {e["who"]: e.t for e in sim.events if e["kind"] == "crash"}
            slack = poll + (restart_after or 0) + 0.1 + 40 * lat
            for who, t in crash.items():
                for key, t0 in held.get(who, {}).items():
                    fin = [e for e in w.ends(key) if e.t <= t]
                    if fin:
                        # (finished by a worker that died before it could say so: may be repeated)
                        if fin[-1].proc == who and t - fin[-1].t > 0.05 + 10 * lat:
                            late = [e for e in w.starts(key) if e.t > fin[-1].t]
                            c.check(not late, "rerun", lambda: f"{key} finished {t-fin[-1].t:.3f}s before its worker {who} died, and was run again")
                        continue
                    # another worker may have received it already
                    nxt = [e for e in w.starts(key) if e.t > t]
                    elsewhere = [e for e in w.starts(key) if e.t <= t and e.proc != who and e.t > t0]
                    if elsewhere:
                        continue
                    c.count("taken_over")
                    c.check(bool(nxt), "lost", lambda: f"{key} was held by {who} when it died and never ran again")
                    if nxt:
                        # the taker itself may die and hand it on; judge the first handover
                        takers = [(p, h[key]) for p, h in held.items() if p != who and key in h and h[key] >= t]
                        first = min([x for _, x in takers] + [nxt[0].t])
                        c.check(first - t <= redel + slack, "late", lambda: f"{key} held by {who}, which died at {t-sim.epoch:.3f}, was handed on only {first-t:.3f}s later (redelivery timeout {redel}s, polling {poll}s)")
                        # a worker is declared dead only after the timeout
                        c.check(first - t0 >= redel - 0.002, "stolen", lambda: f"{key} was handed to {who} at {t0-sim.epoch:.3f} and taken away at {first-sim.epoch:.3f}, before the timeout of {redel}s")
            # tasks held by live workers are left alone
            dead = set(crash)
            for key in durs:
                st = w.starts(key)
                for a, b in zip(st, st[1:]):
                    c.check(a.proc in dead, "stolen", lambda: f"{key} ran on live worker {a.proc} from {a.t-sim.epoch:.3f} and was started again by {b.proc} at {b.t-sim.epoch:.3f}")
                c.check(len(w.ends(key, "ok")) >= 1, "lost", lambda: f"{key} never finished")
        c.nontrivial = c.stats["taken_over"] > 0
        c.sample = f"{nw} workers, redelivery {redel}s, deaths {[(a, round(b-sim.epoch,2)) for a,b in deaths]}, {c.stats['taken_over']} tasks taken over"
    c.run(sim, main)


GENERATORS = [(takeover, 1)]
