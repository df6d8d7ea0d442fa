"""D05: cancelling a pending task means it never runs; running ones are interrupted."""
import asyncio

from rv.world import World, sec, utc


def make_tasks(w):
    from docket import ConcurrencyLimit, Perpetual, RateLimit, Retry

    async def body(tag, dur, how="ok"):
        async with w.running(tag):
            try:
                await asyncio.sleep(dur)
            except asyncio.CancelledError:
                w.sim.log("interrupted", tag=tag)
                raise
            if how == "fail":
                raise ValueError(tag)

    async def plain(tag: str, dur: float):
        await body(tag, dur)

    async def retrying(tag: str, dur: float, retry: Retry = Retry(attempts=4, delay=sec(0.5))):
        await body(tag, dur, "fail")

    async def perpetual(tag: str, dur: float, p: Perpetual = Perpetual(every=sec(0.5))):
        await body(tag, dur)

    async def limited(tag: str, dur: float, c: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=2)):
        await body(tag, dur)

    async def rated(tag: str, dur: float, c: RateLimit = RateLimit(2, per=sec(1))):
        await body(tag, dur)
    fns = dict(plain=plain, retrying=retrying, perpetual=perpetual, limited=limited, rated=rated)
    w.tasks += list(fns.values())
    return fns


def random_cancels(c):
    r = c.rng
    lat = r.choice([0.003, 0.02])
    sim = c.sim(lat_max=lat)
    slack = 40 * lat + 0.05
    ttl = r.choice([900, 900, 0, 3])
    kinds = r.choice([["plain"], ["plain", "retrying"], ["perpetual", "plain"], ["limited", "plain"], ["rated", "plain"], ["plain", "retrying", "perpetual", "limited", "rated"]])

    async def main(sim):
        w = World(c, sim, docket_kw=dict(execution_ttl=sec(ttl)),
                  worker_kw=dict(concurrency=r.choice([3, 10]), minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))
        fns = make_tasks(w)
        for i in range(r.randint(1, 3)):
            await w.start_worker(f"w{i}")
        recs = []

        async def one(d, i):
            await asyncio.sleep(r.uniform(0, 2))
            kind = r.choice(kinds)
            key, tag = f"k{i}", f"k{i}"
            when = sim.wallclock() + r.choice([-1, 0, 0.05, 0.4, 1.5])
            dur = r.choice([0, 0.02, 0.3, 1.0, 6])
            await d.add(fns[kind], when=utc(when), key=key)(tag, dur)
            rec = dict(key=key, tag=tag, kind=kind, when=when, dur=dur, cancel=None)
            recs.append(rec)
            if r.random() < 0.7 or kind == "perpetual":
                wait = r.choice([0, 0.001, 0.004, 0.01, 0.1, 0.4, 0.5, 0.6, 1.1])
                if r.random() < 0.5:
                    wait = max(0, when - sim.wallclock() + r.choice([-0.005, 0, 0.002, 0.005, 0.05, 0.1]))
                await asyncio.sleep(wait)
                rec["c0"] = sim.wallclock()
                before = [(e.tag, e.run) for e in w.events("start") if e.tag == tag]
                open_runs = {run for _, run in before} - {e.run for e in w.ends(tag)}
                rec["open"] = open_runs
                await d.cancel(key)
                rec["cancel"] = sim.wallclock()
                if r.random() < 0.4:
                    x = await d.get_execution(key)
                    if ttl > 0:
                        done = w.ends(tag, "ok") or (w.ends(tag, "failed") and kind != "retrying")
                        c.check(x is not None and (x.state.value == "cancelled" or bool(done)), "not-cancelled",
                                lambda: f"{tag} ({kind}) reported {x.state.value if x else None} right after cancel returned")
        async with w.client() as d, w.client() as d2:
            n = r.randint(8, 25)
            bystanders = [f"b{i}" for i in range(6)]
            for b in bystanders:
                await d.add(fns["plain"], when=utc(sim.wallclock() + r.uniform(0, 3)), key=b)(b, r.choice([0.1, 2]))
            await asyncio.gather(*[one(r.choice([d, d2]), i) for i in range(n)])
            await asyncio.sleep(9)
            await w.drained(d, 20 + n)
            for rec in recs:
                tag, kind = rec["tag"], rec["kind"]
                st, en = w.starts(tag), w.ends(tag)
                if rec["cancel"] is None:
                    if kind != "retrying":
                        c.check(len(w.ends(tag, "ok")) == 1, "bystander", lambda: f"{tag} ({kind}) was not cancelled but completed {len(w.ends(tag,'ok'))} times ({[(e.outcome) for e in en]})")
                    continue
                late = [e for e in st if e.t > rec["cancel"] + slack]
                c.check(not late, "ran-after-cancel", lambda: f"{tag} ({kind}, due {rec['when']-sim.epoch:.3f}, retention {ttl}) was cancelled at {rec['c0']-sim.epoch:.4f}..{rec['cancel']-sim.epoch:.4f} but started at {[round(e.t-sim.epoch,4) for e in late]}")
                for run in rec["open"]:
                    e = next((e for e in en if e.run == run), None)
                    c.check(e is not None and (e.outcome == "cancelled" or e.t <= rec["cancel"] + slack) and e.t <= rec["cancel"] + 1.0, "not-interrupted",
                            lambda: f"{tag} ({kind}) was running when cancelled at {rec['cancel']-sim.epoch:.4f}; run ended {e and (e.outcome, round(e.t-sim.epoch,4))}")
                    c.count("cancelled_running")
                if not st:
                    c.count("cancelled_pending")
                if ttl > 100:
                    x = await d.get_execution(rec["key"])
                    got = x.state.value if x else None
                    finished = any(e.outcome in ("ok", "failed") and e.t >= rec["c0"] - slack for e in en) or (en and en[-1].outcome == "ok" and kind in ("plain", "limited", "rated")) or (kind == "retrying" and len(en) == 4)
                    c.check(got == "cancelled" or finished, "not-cancelled", lambda: f"{tag} ({kind}) cancelled at {rec['c0']-sim.epoch:.4f}, reported {got}; runs {[(e.outcome, round(e.t-sim.epoch,4)) for e in en]}")
            for b in bystanders:
                c.check(len(w.ends(b, "ok")) == 1, "bystander", lambda: f"bystander {b} completed {len(w.ends(b,'ok'))} times, {[(e.kind, e.get('outcome')) for e in sim.events if e.get('tag')==b]}")
            interrupted = {e.tag for e in w.events("interrupted")}
            ok = {x["tag"] for x in recs if x["cancel"] is not None}
            c.check(interrupted <= ok, "bystander", lambda: f"interrupted although never cancelled: {interrupted - ok}")
            gone = w.unexpected_worker_exits()
            c.check(not gone, "worker-died", lambda: f"a worker stopped: {gone[0]}")
            # every key is usable again
            for rec in recs:
                x = await d.add(fns["plain"], key=rec["key"])(rec["tag"] + "'", 0)
                c.check(x.disposition.value == "scheduled", "key-blocked", lambda: f"{rec['key']} cannot be added again")
            await asyncio.sleep(3)
            for rec in recs:
                c.check(len(w.ends(rec["tag"] + "'", "ok")) == 1, "key-blocked", lambda: f"{rec['key']} did not run again: {rec}")
        c.nontrivial = bool(c.stats["cancelled_running"] or c.stats["cancelled_pending"])
        c.sample = f"{kinds}, {n} tasks, {c.stats['cancelled_running']} cancelled running, {c.stats['cancelled_pending']} pending, retention {ttl}"
    c.run(sim, main)


def edges(c):
    """Cancel aimed at a particular command boundary of the worker's handling."""
    r = c.rng
    sim = c.sim(lat_max=0.002)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=3, minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1)))
        fns = make_tasks(w)
        await w.start_worker("w0")
        worker_proc = w.workers["w0"].proc
        async with w.client() as d:
            strike = r.random() < 0.25
            if strike:
                await d.strike("plain", "tag", "==", "x-struck")
            for i in range(8):
                key = f"e{i}"
                kind = r.choice(["plain", "retrying", "perpetual", "limited"])
                k = r.randint(0, 12)
                hit = asyncio.Event()
                base = worker_proc.ncmd
                state = {"n": None}

                def hook(p, name, args, kwargs, result, state=state, k=k, hit=hit):
                    from rv.world import delivered
                    if p is worker_proc:
                        if state["n"] is None:
                            if delivered(name, result):
                                state["n"] = 0
                        else:
                            state["n"] += 1
                        if state["n"] is not None and state["n"] >= k:
                            hit.set()
                sim.command_hooks.append(hook)
                dur = r.choice([0, 0.05, 1.0])
                tag = "x-struck" if strike and kind == "plain" else key
                if strike and kind == "plain":
                    d.strike_list.task_strikes.clear() if hasattr(d.strike_list, "task_strikes") else None
                await d.add(fns[kind], key=key)(tag, dur)
                try:
                    await asyncio.wait_for(hit.wait(), 1.5)
                except asyncio.TimeoutError:
                    pass
                sim.command_hooks.remove(hook)
                await d.cancel(key)
                t = sim.wallclock()
                await asyncio.sleep(r.choice([0, 0, 1.5]))
                if r.random() < 0.5:
                    tag2 = key + "'"
                    x = await d.add(fns["plain"], key=key)(tag2, r.choice([0, 0.3]))
                    c.check(x.disposition.value == "scheduled", "key-blocked", lambda: f"{key} refused after cancel at boundary {k}")
                    await asyncio.sleep(1.5)
                    c.check(len(w.ends(tag2, "ok")) == 1, "readded-disturbed", lambda: f"{key} ({kind}) was cancelled at boundary {k} and added again; the new task's runs ended {[e.outcome for e in w.ends(tag2)]} of {len(w.starts(tag2))} starts")
                else:
                    await asyncio.sleep(1.5)
                    got = await d.get_execution(key)
                    en = w.ends(key)
                    fin = [e for e in en if e.t <= t + 0.1 and e.outcome in ("ok", "failed")]
                    c.check(got is not None and (got.state.value == "cancelled" or (fin and (kind in ("plain", "limited") or fin[-1].t > t - 0.05))), "not-cancelled",
                            lambda: f"{key} ({kind} {dur}) cancelled at boundary {k}: reported {got and got.state.value}; {[(e.outcome, round(e.t-t,4)) for e in en]}")
                late = [e for e in w.starts(key) if e.t > t + 0.1]
                c.check(not late, "ran-after-cancel", lambda: f"{key} ({kind}) cancelled at boundary {k} still started {[round(e.t-t,4) for e in late]} later")
            gone = w.unexpected_worker_exits()
            c.check(not gone, "worker-died", lambda: f"worker stopped after a cancel: {gone[0]}")
            await d.add(fns["plain"], key="alive")("alive", 0)
            await asyncio.sleep(1)
            c.check(len(w.ends("alive", "ok")) == 1, "worker-died", lambda: "the worker no longer runs tasks")
        c.nontrivial = True
        c.count("boundaries", 8)
        c.sample = "8 cancels at chosen command boundaries of the worker"
    c.run(sim, main)


def anew(c):
    """Cancel a running task and add another with its key at once; the message
    for the worker is slower than the store."""
    r = c.rng
    sim = c.sim(lat_max=0.002)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(concurrency=6, minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.1)))
        fns = make_tasks(w)
        procs = []
        for j in range(r.randint(1, 2)):
            await w.start_worker(f"w{j}")
            procs.append(w.workers[f"w{j}"].proc)
            procs[-1].pubsub_extra = r.choice([0, 0.003, 0.02, 0.1])
        late = max(p.pubsub_extra for p in procs)
        async with w.client() as d:
            for i in range(6):
                key = f"a{i}"
                kind = r.choice(["plain", "retrying", "perpetual", "limited"])
                await d.add(fns[kind], key=key)(f"{key}.0", 5)
                await w.until(lambda: w.starts(f"{key}.0"), 3)
                n = r.randint(1, 3)
                for k in range(1, n + 1):
                    await asyncio.sleep(r.choice([0, 0, 0.004, 0.03]))
                    await d.cancel(key)
                    t = sim.wallclock()
                    x = await d.add(fns["plain"], key=key)(f"{key}.{k}", 0.4 if k == n else 5)
                    c.check(x.disposition.value == "scheduled", "key-blocked", lambda: f"{key} refused after being cancelled")
                await asyncio.sleep(2.5)
                last = f"{key}.{n}"
                c.check(len(w.ends(last, "ok")) == 1, "readded-disturbed",
                        lambda: f"{key} ({kind}) was cancelled {n} times and added again each time, messages taking {late} s: the runs of the last task ended {[e.outcome for e in w.ends(last)]} of {len(w.starts(last))}")
                for k in range(n):
                    going = {e.run for e in w.starts(f"{key}.{k}")} - {e.run for e in w.ends(f"{key}.{k}")}
                    c.check(not going and not w.ends(f"{key}.{k}", "ok"), "not-interrupted", lambda: f"{key}.{k} goes on {sim.wallclock() - t} s after {key} was cancelled")
                x = await d.get_execution(key)
                c.check(x is not None and x.state.value == "completed", "readded-disturbed", lambda: f"{last} is reported {x and x.state.value}")
                c.count("anew", n)
        gone = w.unexpected_worker_exits()
        c.check(not gone, "worker-died", lambda: f"a worker stopped: {gone[0]}")
        c.nontrivial = True
        c.sample = f"{c.stats['anew']} tasks cancelled while running and added anew at once, messages taking {late} s"
    c.run(sim, main)


GENERATORS = [(anew, 1), (random_cancels, 3), (edges, 2)]
