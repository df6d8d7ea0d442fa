"""D01: accepted tasks are never lost, under crashes and connection faults."""
import asyncio

from rv.world import (FINAL, World, add_safely, fault_after_delivery, sec, utc)


def _mk(w_ref, sim, spec):
    from docket import Perpetual, Retry
    from docket.dependencies import ExponentialRetry  # noqa: F401

    async def plain(tag: str, dur: float):
        async with w_ref[0].running(tag):
            await asyncio.sleep(dur)

    seen = {}

    async def flaky(tag: str, dur: float, fails: int, retry: Retry = Retry(attempts=4, delay=sec(0.3))):
        async with w_ref[0].running(tag, attempt=retry.attempt):
            await asyncio.sleep(dur)
            if retry.attempt <= fails:
                raise ValueError(f"boom {tag}")

    async def chain(tag: str, left: int, perpetual: Perpetual = Perpetual(every=sec(0.4))):
        async with w_ref[0].running(tag, left=left):
            await asyncio.sleep(0.05)
            if left <= 1:
                perpetual.cancel()
            else:
                perpetual.perpetuate(tag, left - 1)

    return plain, flaky, chain


def _oracle(c, w, sim, docket, accepted, drained):
    c.check(drained, "stranded", lambda: f"work is still outstanding long after all faults ended: {sorted(k for k in w.raw_keys() if ':runs:' not in k)}")


async def _final_states(c, w, docket, accepted, dump):
    for key, kind in accepted.items():
        ok = w.ends(key, "ok")
        if kind[0] == "flaky" and kind[1] >= 4:
            n = {e.attempt for e in w.ends(key, "failed")}
            c.check(n == {1, 2, 3, 4}, "lost", lambda: f"{key}: failing task with 4 attempts ran attempts {sorted(n)} to their end; {dump(key)}")
        elif kind[0] == "chain":
            got = {e.left for e in ok}
            c.check(got == set(range(1, kind[1] + 1)), "lost", lambda: f"{key}: chain of {kind[1]} completed only {sorted(got)}; {dump(key)}")
        else:
            c.check(bool(ok), "lost", lambda: f"{key} ({kind}) was accepted but never ran to completion; {dump(key)}")
        e = await docket.get_execution(key)
        st = e.state.value if e is not None else None
        c.check(st in FINAL, "not-final", lambda: f"{key} ({kind}) ended in state {st}; {dump(key)}")


def _dump(w):
    def dump(key):
        return "events: " + "; ".join(
            f"{e.t - w.sim.epoch:.3f} {e.kind} {e.proc} {e.get('outcome', '')}" for e in w.sim.events
            if e.get("tag") == key or e.kind in ("crash", "disconnect", "stall", "worker_gone"))[-900:]
    return dump


def storm(c):
    """Random crashes, refused and dropped connections, lost replies, stalls."""
    r = c.rng
    sim = c.sim(spike_p=r.choice([0, 0, 0.02]), spike_max=r.choice([0.1, 0.6]))
    nw = r.randint(2, 3)
    fault_end = r.uniform(8, 14)
    redel = r.choice([1.0, 2.0, 3.0])
    client_faulty = r.random() < 0.6

    async def main(sim):
        ref = [None]
        plain, flaky, chain = _mk(ref, sim, None)
        w = ref[0] = World(c, sim, tasks=[plain, flaky, chain], worker_kw=dict(redelivery_timeout=sec(redel)))
        def setup(proc, gen):
            if sim.now() > fault_end:
                return
            x = r.random()
            if x < 0.45:
                fault_after_delivery(sim, proc, r.randint(1, 14), "crash-" + r.choice(["before", "after"]), nth=r.randint(1, 4))
            elif x < 0.6:
                proc.crash_at = (r.randint(1, 120), r.choice(["before", "after"]))
            elif x < 0.8:
                proc.p_fail_before, proc.p_fail_after = r.choice([(0.02, 0.02), (0.0, 0.06), (0.06, 0.0)])
                async def heal():
                    await asyncio.sleep(max(0, fault_end - sim.now()))
                    proc.p_fail_before = proc.p_fail_after = 0
                asyncio.ensure_future(heal())
            if r.random() < 0.3:
                async def cut():
                    await asyncio.sleep(r.uniform(0.2, 4))
                    if proc.alive and sim.now() < fault_end:
                        if r.random() < 0.6:
                            sim.disconnect(proc, r.uniform(0.05, 3))
                        else:
                            sim.stall(proc, r.uniform(0.2, 2 * redel))
                asyncio.ensure_future(cut())
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=r.uniform(0.1, 1.5), same_name=r.random() < 0.4, setup=setup, wait=False)
        accepted = {}
        async with w.client() as d:
            async def adder(j):
                p = sim.proc(f"c{j}")
                if client_faulty:
                    p.p_fail_before, p.p_fail_after = 0.04, 0.04
                    if r.random() < 0.3:
                        p.crash_at = (r.randint(3, 60), r.choice(["before", "after"]))
                async def run():
                    async with w.make_docket() as cd:
                        for i in range(r.randint(4, 10)):
                            key = f"k{j}-{i}"
                            when = None if r.random() < 0.5 else utc(sim.wallclock() + r.uniform(-1, 5))
                            kind = r.choice(["plain", "plain", "flaky", "chain"])
                            if kind == "plain":
                                dur = r.choice([0, 0.01, 0.3, 1.5 * redel])
                                k, op = ("plain", dur), lambda: cd.add(plain, when=when, key=key)(key, dur)
                            elif kind == "flaky":
                                f = r.choice([1, 2, 3, 4])
                                k, op = ("flaky", f), lambda: cd.add(flaky, when=when, key=key)(key, 0.05, fails=f)
                            else:
                                n = r.randint(2, 4)
                                k, op = ("chain", n), lambda: cd.add(chain, when=when, key=key)(key, n)
                            use_replace = r.random() < 0.2
                            if use_replace and kind == "plain":
                                op = lambda: cd.replace(plain, when=when or utc(sim.wallclock()), key=key)(key, dur)
                            st, e = await add_safely(w, sim, op, tries=r.choice([1, 3]))
                            if st == "ok":
                                accepted[key] = k
                            await asyncio.sleep(r.choice([0, 0.05, 0.5]))
                t = sim.spawn(p, run())
                await asyncio.wait({t})
                if not t.cancelled() and t.exception() is not None and p.alive and not client_faulty:
                    raise t.exception()
            await asyncio.gather(*[adder(j) for j in range(2)])
            await asyncio.sleep(max(0.0, fault_end - sim.now()))
            for h in w.workers.values():
                if h.proc:
                    h.proc.crash_at = None
                    h.proc.fail_at.clear()
            sim.command_hooks.clear()
            drained = await w.drained(d, 40 + 8 * redel)
            _oracle(c, w, sim, d, accepted, drained)
            await _final_states(c, w, d, accepted, _dump(w))
            c.count("accepted", len(accepted))
            c.nontrivial = bool(sum(sim.faults.values())) and len(accepted) > 3
            c.sample = f"storm: {nw} workers, redelivery {redel}s, {len(accepted)} accepted, faults {dict(sim.faults)}, exits {[x[1][:40] for h in w.workers.values() for x in h.exits][:4]}"
    c.run(sim, main)


def crash_points(c):
    """One worker is hit by one fault at the k-th command after a delivery, for
    consecutive k; a second worker survives."""
    r = c.rng
    base = (c.index // 2) % 6 * 5
    kind = r.choice(["plain", "flaky", "chain", "future"])
    for k in range(base + 1, base + 6):
        for action in ("crash-before", "crash-after", r.choice(["fail-before", "fail-after"])):
            _one_point(c, kind, k, action, r.choice([1, 2]))


def _one_point(c, kind, k, action, nth):
    sim = c.sim()

    async def main(sim):
        ref = [None]
        plain, flaky, chain = _mk(ref, sim, None)
        w = ref[0] = World(c, sim, tasks=[plain, flaky, chain], worker_kw=dict(redelivery_timeout=sec(1)))
        async with w.client() as d:
            def setup(proc, gen):
                if gen == 0:
                    fault_after_delivery(sim, proc, k, action, nth)
            await w.start_worker("victim", restart=0.5, setup=setup)
            accepted = {}
            if kind == "plain":
                for i in range(2):
                    await d.add(plain, key=f"p{i}")(f"p{i}", 0.1)
                    accepted[f"p{i}"] = ("plain", 0.1)
                    await asyncio.sleep(0.02)
            elif kind == "future":
                for i in range(3):
                    await d.add(plain, when=utc(sim.wallclock() + 0.3 * i), key=f"p{i}")(f"p{i}", 0.1)
                    accepted[f"p{i}"] = ("plain", 0.1)
            elif kind == "flaky":
                await d.add(flaky, key="f")("f", 0.02, 2)
                accepted["f"] = ("flaky", 2)
            else:
                await d.add(chain, key="c")("c", 3)
                accepted["c"] = ("chain", 3)
            await asyncio.sleep(0.3)
            await w.start_worker("other")
            await asyncio.sleep(1.5)
            drained = await w.drained(d, 25)
            _oracle(c, w, sim, d, accepted, drained)
            await _final_states(c, w, d, accepted, _dump(w))
            c.count("accepted", len(accepted))
            c.count("points")
            if sum(sim.faults.values()):
                c.nontrivial = True
            c.sample = f"crash_points: {kind}, {action} at command {k} after delivery {nth}"
    c.run(sim, main)


GENERATORS = [(storm, 1), (crash_points, 1)]


def key_history(c):
    """Keys that already have a history (finished, cancelled, failed) are reused
    for work far in the future: longer than any retention of the old record."""
    r = c.rng
    sim = c.sim()
    ttl = r.choice([0, 2, 5])

    async def main(sim):
        ref = [None]
        plain, flaky, chain = _mk(ref, sim, None)
        w = ref[0] = World(c, sim, tasks=[plain, flaky, chain], docket_kw=dict(execution_ttl=sec(ttl)))
        await w.start_worker("w0")
        await w.start_worker("w1")
        async with w.client() as d:
            expect = {}
            async def one(i):
                key = f"h{i}"
                gen = 0
                for step in range(r.randint(1, 3)):
                    how = r.choice(["run", "fail", "cancel", "replace"])
                    if how == "run":
                        await d.add(plain, key=key)(f"{key}.{gen}", 0.1)
                    elif how == "fail":
                        await d.add(flaky, key=key)(f"{key}.{gen}", 0.0, 4)
                    elif how == "replace":
                        await d.replace(plain, when=utc(sim.wallclock() + 0.2), key=key)(f"{key}.{gen}", 0.1)
                    else:
                        await d.add(plain, when=utc(sim.wallclock() + 30), key=key)(f"{key}.{gen}", 0.1)
                        await asyncio.sleep(r.uniform(0, 0.5))
                        await d.cancel(key)
                    gen += 1
                    await asyncio.sleep(3 if how == "fail" else r.uniform(0.6, 1.5))
                delay = r.choice([0.5, ttl + r.uniform(0.5, 6), 3 * ttl + 7])
                op = d.replace if r.random() < 0.4 else d.add
                tag = f"{key}.last"
                kw = dict(when=utc(sim.wallclock() + delay), key=key)
                x = await op(plain, **kw)(tag, r.choice([0.1, ttl + 2]))
                if x.disposition.value == "scheduled":
                    expect[tag] = (key, delay)
            await asyncio.gather(*[one(i) for i in range(6)])
            await asyncio.sleep(3 * ttl + 8)
            drained = await w.drained(d, 30)
            _oracle(c, w, sim, d, expect, drained)
            for tag, (key, delay) in expect.items():
                c.check(bool(w.ends(tag, "ok")), "lost",
                        lambda: f"{key}: re-scheduled {delay:.1f}s ahead (retention {ttl}s) after an earlier life, never ran; {_dump(w)(tag)}")
            c.count("accepted", len(expect))
            c.nontrivial = True
            c.sample = f"key_history: retention {ttl}s, re-scheduled keys {expect}"
    c.run(sim, main)


GENERATORS = [(storm, 2), (crash_points, 2), (key_history, 1)]
