"""D04: replacing a task leaves exactly the replacement to run."""
import asyncio
from typing import Any

from rv.world import World, sec, utc


def make_tasks(w):
    from docket import ConcurrencyLimit, Perpetual, Retry, Timeout

    async def body(tag, dur, how, attempt=1):
        async with w.running(tag, attempt=attempt):
            await asyncio.sleep(dur)
            if how == "fail" or how == f"retry{attempt}":
                raise ValueError(tag)
            return tag

    async def plain(tag: str, dur: float, how: str) -> Any:
        return await body(tag, dur, how)

    async def retrying(tag: str, dur: float, how: str, retry: Retry = Retry(attempts=3, delay=sec(0.4))) -> Any:
        return await body(tag, dur, how, retry.attempt)

    async def perpetual(tag: str, dur: float, how: str, p: Perpetual = Perpetual(every=sec(0.4))) -> Any:
        if how == "stop":
            p.cancel()
        return await body(tag, dur, how)

    async def limited(tag: str, dur: float, how: str, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)) -> Any:
        return await body(tag, dur, how)

    async def timed(tag: str, dur: float, how: str, t: Timeout = Timeout(sec(0.5))) -> Any:
        return await body(tag, dur, how)
    fns = dict(plain=plain, retrying=retrying, perpetual=perpetual, limited=limited, timed=timed)
    w.tasks += list(fns.values())
    return fns


def pick_call(r, kind):
    how = r.choice(["ok", "ok", "fail"])
    if kind == "retrying":
        how = r.choice(["ok", "retry1", "fail"])
    if kind == "perpetual":
        how = r.choice(["ok", "fail", "stop"])
    return r.choice([0, 0.05, 0.3, 0.9, 2.0]), how


def expect(kind, how):
    """(runs, final state, result kind) of an undisturbed task."""
    if kind == "retrying":
        return {"ok": (1, "completed"), "retry1": (2, "completed"), "fail": (3, "failed")}[how]
    return (1, "failed" if how == "fail" else "completed")


def _run(c, kinds, clients, slack_lat, final_kinds, redelivery=4.0):
    r = c.rng
    lat = r.choice([0.003, 0.01])
    sim = c.sim(lat_max=lat, spike_p=0.0)
    slack = 30 * lat + 0.05

    async def main(sim):
        concurrency = r.choice([2, 40])
        w = World(c, sim, worker_kw=dict(concurrency=concurrency, redelivery_timeout=sec(redelivery),
                                         minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))
        fns = make_tasks(w)
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}")

        async def line(key, j):
            ops = []

            async def op(d, kind, call, tag, when, what):
                t0 = sim.wallclock()
                if what == "replace":
                    x = await d.replace(fns[kind], when=utc(when), key=key)(tag, *call)
                else:
                    x = await d.add(fns[kind], when=utc(when), key=key)(tag, *call)
                ops.append(dict(tag=tag, kind=kind, call=call, when=when, t0=t0, t1=sim.wallclock(), what=what,
                                ok=x.disposition.value == "scheduled", x=x))
            n = r.randint(2, 6)
            ds = [w.make_docket() for _ in range(clients)]
            for d in ds:
                await d.__aenter__()
            for i in range(n):
                final = i == n - 1
                kind = r.choice(final_kinds if final else kinds)
                call = pick_call(r, kind)
                when = sim.wallclock() + r.choice([-5, 0, 0.002, 0.15, 0.6])
                if final:
                    call = (r.choice([0, 0.2]), call[1] if kind != "timed" else "ok")
                    when = sim.wallclock() + r.choice([-1, 0, 0.3, 1.5, 3.0])
                if not final and clients > 1 and r.random() < 0.5:
                    await asyncio.gather(*[
                        op(d, k, pick_call(r, k), f"{key}/{i}.{q}", when + r.choice([0, 0.1]), "replace")
                        for q, d in enumerate(ds) for k in [r.choice(kinds)]])
                else:
                    await op(r.choice(ds), kind, call, f"{key}/{i}", when, "add" if i == 0 and r.random() < 0.7 else "replace")
                if not final:
                    await asyncio.sleep(r.choice([0, 0.002, 0.01, 0.1, 0.31, 0.5, 1.0]) * r.uniform(0.8, 1.2))
            last = ops[-1]
            dist = max(0, last["when"] - sim.wallclock())
            await asyncio.sleep(dist + 4.5)
            if last["kind"] == "perpetual" and last["call"][1] != "stop":
                await ds[0].cancel(key)
                await asyncio.sleep(0.5)
            def trail():
                return "history: " + "; ".join(
                    [f"{o['what']} {o['tag']} {o['kind']}{o['call']} when {o['when']-sim.epoch:.3f} at {o['t1']-sim.epoch:.3f}{'' if o['ok'] else ' refused'}" for o in ops]
                    + [f"{e.t-sim.epoch:.3f} {e.kind} {e.tag} {e.get('outcome','')}" for e in sim.events if str(e.get('tag', '')).startswith(key + "/")][-14:])
            # nothing of a replaced schedule starts after the replace returned
            for a, b in zip(ops, ops[1:]):
                if not b["ok"] or b["t0"] < a["t1"]:
                    continue
                late = [e for e in w.starts(a["tag"]) if e.t > b["t1"] + slack]
                c.check(not late, "old-started", lambda: f"{a['tag']} ({a['kind']} {a['call']}) was replaced by {b['tag']} at {b['t1']-sim.epoch:.4f} but started at {[round(e.t-sim.epoch,4) for e in late]}")
            starts = w.starts(last["tag"])
            runs, state = expect(last["kind"], last["call"][1])
            if last["kind"] == "perpetual" and last["call"][1] != "stop":
                c.check(len(starts) >= 5, "replacement-runs", lambda: f"replacement {last['tag']} (perpetual every 0.4 s) ran {len(starts)} times in 4.5 s; {trail()}")
            else:
                c.check(len(starts) == runs, "replacement-runs", lambda: f"replacement {last['tag']} ({last['kind']} {last['call']}) started {len(starts)} times, expected {runs}; {trail()}")
                x = await ds[0].get_execution(key)
                got = x.state.value if x else None
                c.check(got == state, "replacement-state", lambda: f"replacement {last['tag']} ({last['kind']} {last['call']}) ended {state}, reported {got}; {trail()}")
                if x and got == state:
                    try:
                        res = await x.get_result(timeout=sec(2))
                    except ValueError as e:
                        res = e
                    except Exception as e:
                        res = repr(e)
                    want = last["tag"]
                    ok = (res == want) if state == "completed" else (isinstance(res, ValueError) and str(res) == want)
                    if last["kind"] == "perpetual":
                        ok = True
                    c.check(ok, "replacement-result", lambda: f"result read for {last['tag']} is {res!r}; {trail()}")
            if starts:
                t = starts[0].t
                c.check(t >= last["when"] - 2e-6, "early", lambda: f"{last['tag']} at {last['when']-sim.epoch} started {t-sim.epoch}")
                bound = max(last["when"], last["t1"]) + 0.8
                if last["kind"] != "limited" and concurrency == 40:
                    c.check(t <= bound, "late", lambda: f"replacement {last['tag']} due {last['when']-sim.epoch:.3f}, placed {last['t1']-sim.epoch:.3f}, started only {t-sim.epoch:.3f}; {trail()}")

            for d in ds:
                await d.__aexit__(None, None, None)
            c.count("replaces", len(ops) - 1)
            return trail()
        out = await asyncio.gather(*[line(f"k{j}", j) for j in range(r.randint(2, 4))])
        # a predecessor's retry or repetition never outlives the replacement
        await asyncio.sleep(3)
        n0 = len(w.events("start"))
        await asyncio.sleep(3)
        c.check(len(w.events("start")) == n0, "old-started", lambda: f"tasks still start long after every key finished: {[(e.tag, round(e.t-sim.epoch, 2)) for e in w.events('start')[n0:]][:5]}")
        c.check(not w.unexpected_worker_exits(), "worker-died", lambda: f"{w.unexpected_worker_exits()[:1]}")
        c.nontrivial = True
        c.sample = out[0][:500]
    c.run(sim, main)


def plain(c):
    _run(c, ["plain"], 1, 1, ["plain"])


def chains(c):
    _run(c, ["plain", "retrying", "perpetual", "timed"], 1, 1, ["plain", "retrying", "perpetual", "timed"])


def limited(c):
    _run(c, ["limited", "plain"], 1, 1, ["limited", "plain"])


def concurrent(c):
    _run(c, ["plain", "retrying", "perpetual"], 3, 1, ["plain", "retrying"])


GENERATORS = [(plain, 2), (chains, 4), (limited, 2), (concurrent, 2)]
