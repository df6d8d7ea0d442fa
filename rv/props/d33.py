"""D33: counters and spans add up to what really happened."""
import asyncio
import threading
from collections import Counter
from typing import Annotated, Any

from rv.sim import current_proc
from rv.telemetry import Telemetry, totals
from rv.world import World, sec, utc

MS = 1e-3


def ledger(c):
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.001, 0.005]))
    disturbed = r.random() < 0.3    # partitions: redeliveries while workers live

    async def main(sim, tele):
        from opentelemetry import trace
        from opentelemetry.trace import SpanKind, StatusCode

        from docket import (ConcurrencyLimit, Cooldown, CurrentExecution, Debounce, Depends, Perpetual, RateLimit, Retry, Timeout)
        tracer = trace.get_tracer("user")
        w = World(c, sim, worker_kw=dict(concurrency=r.choice([2, 6]), redelivery_timeout=sec(2.0)))
        plan = {}
        helpers = []
        sim.publish_hooks.append(lambda ch, data: b":cancel:__safeguard__" in ch and helpers.append(ch))

        claimed = {}     # by the server's own account

        def watch(proc, name, args, kwargs, result):
            if name in ("xautoclaim", "xreadgroup") and result:
                for _, messages in [(0, result[1])] if name == "xautoclaim" else result:
                    for _, fields in messages:
                        if fields:
                            claimed.setdefault((proc, fields[b"key"].decode(), int(fields.get(b"generation", 0))), []).append(name == "xautoclaim")
        sim.command_hooks.append(watch)

        async def body(tag, e):
            p = plan[tag]
            span = trace.get_current_span().get_span_context()
            ways = set(claimed.get((current_proc.get(), e.key, e.generation), ()))
            again = ways.pop() if len(ways) == 1 else "either" if ways else "?"
            async with w.running(tag, attempt=e.attempt, redelivered=again, says=e.redelivered, f=e.function_name, span=span.span_id, gen=e.generation):
                p["n"] = p.get("n", 0) + 1
                await asyncio.sleep(p["dur"])
                if p["how"] == "raise" or p["how"] == "raise-once" and p["n"] == 1:
                    raise ValueError(f"boom {tag}")
                if p["how"] == "cancel-itself":
                    raise asyncio.CancelledError()
            return threading.Lock() if p["how"] == "unpicklable" else tag

        async def plain(tag: str, e=CurrentExecution()):
            return await body(tag, e)

        async def retried(tag: str, e=CurrentExecution(), retry: Retry = Retry(attempts=3, delay=sec(0.1))):
            return await body(tag, e)

        async def timed(tag: str, e=CurrentExecution(), timeout: Timeout = Timeout(sec(0.2))):
            return await body(tag, e)

        async def repeated(tag: str, e=CurrentExecution(), perpetual: Perpetual = Perpetual(every=sec(0.15))):
            p = plan[tag]
            if p.get("n", 0) + 1 >= p["times"]:
                perpetual.cancel()
                sim.log("last", tag=tag)
            return await body(tag, e)

        async def limited(tag: str, e=CurrentExecution(), limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
            return await body(tag, e)

        async def rated(tag: str, e=CurrentExecution(), limit: RateLimit = RateLimit(2, per=sec(0.5))):
            return await body(tag, e)

        async def cooled(tag: str, e=CurrentExecution(), limit: Cooldown = Cooldown(sec(0.5))):
            return await body(tag, e)

        async def debounced(tag: str, e=CurrentExecution(), limit: Debounce = Debounce(sec(0.2))):
            return await body(tag, e)

        async def unfit(tag: str, e=CurrentExecution()):
            return await body(tag, e)

        async def broken():
            raise KeyError("factory")

        async def dependent(tag: str, e=CurrentExecution(), x=Depends(broken)):
            return await body(tag, e)

        from contextlib import asynccontextmanager

        @asynccontextmanager
        async def untidy():
            yield 1
            raise OSError("teardown")

        async def torn(tag: str, e=CurrentExecution(), x=Depends(untidy)):
            return await body(tag, e)

        async def struck(tag: str, e=CurrentExecution()):
            return await body(tag, e)

        fns = [plain, retried, timed, repeated, limited, rated, cooled, debounced, unfit, dependent, torn, struck]
        names = [f.__name__ for f in fns]
        w.tasks += fns
        gates = {"limited", "rated", "cooled", "debounced"}
        calls = Counter()
        scheduled = Counter()
        replaced_at = []
        roots = {}
        async with w.client() as d:
            started_before = r.random() < 0.7

            async def start():
                for i in range(r.randint(1, 2)):
                    await w.start_worker(f"w{i}")
            if started_before:
                await start()
            execs = {}
            strike_at = None
            for j in range(r.randint(10, 30)):
                tag = f"k{j}"
                f = r.choice([plain, plain, retried, retried, timed, repeated, limited, rated, cooled, debounced, unfit, dependent, torn, struck, struck])
                plan[tag] = p = dict(f=f.__name__, dur=r.choice([0, 0.05, 0.3, 0.6]), how=r.choice(["ok", "ok", "ok", "raise", "raise-once"]), times=r.randint(1, 4))
                if f in (plain, retried) and r.random() < 0.15:
                    p["how"] = r.choice(["unpicklable", "cancel-itself"])
                args = (tag,)
                if f is unfit:
                    args = (tag, 1, 2, 3)
                kw = dict(key=tag)
                if r.random() < 0.3:
                    kw["when"] = utc(sim.wallclock() + r.choice([0.2, 0.7]))
                with tracer.start_as_current_span(f"root {tag}") as root:
                    roots[tag] = root.get_span_context()
                    e = execs[tag] = await d.add(f, **kw)(*args)
                    calls["add" if e.disposition.value != "struck" else "struck"] += 1
                    calls["add", f.__name__] += e.disposition.value != "struck"
                    calls["struck", f.__name__] += e.disposition.value == "struck"
                    scheduled[f.__name__] += e.disposition.value == "scheduled"
                    if r.random() < 0.1:
                        e2 = await d.add(f, **kw)(*args)
                        calls["add" if e2.disposition.value != "struck" else "struck"] += 1
                        calls["add", f.__name__] += e2.disposition.value != "struck"
                        calls["struck", f.__name__] += e2.disposition.value == "struck"
                        scheduled[f.__name__] += e2.disposition.value == "scheduled"
                        p["again"] = e2.disposition.value
                x = r.random()
                if x < 0.12:
                    p["cancelled"] = True

                    async def cancel(tag=tag, after=r.choice([0, 0.03, 0.25])):
                        await asyncio.sleep(after)
                        calls["cancel"] += 1
                        sim.log("cancelling", tag=tag)
                        await d.cancel(tag)
                        sim.log("cancelled", tag=tag)
                    asyncio.ensure_future(cancel())
                elif x < 0.24 and f is plain or x < 0.5 and f is repeated:
                    p["replaced"] = True

                    async def replace(tag=tag, f=f, after=r.choice([0, 0.03, 0.1, 0.25])):
                        await asyncio.sleep(after)
                        sim.log("replacing", tag=tag)
                        with tracer.start_as_current_span(f"root2 {tag}"):
                            e = await d.replace(f, utc(sim.wallclock() + r.choice([0, 0.3])), tag)(tag)
                        sim.log("replaced", tag=tag)
                        calls["replace", f.__name__] += e.disposition.value == "scheduled"
                        scheduled[f.__name__] += e.disposition.value == "scheduled"
                    asyncio.ensure_future(replace())
                if j == 5 and r.random() < 0.5:
                    strike_at = sim.now()
                    await d.strike("struck")
                    await asyncio.sleep(r.choice([0, 0.5]))
                await asyncio.sleep(r.choice([0, 0, 0.1]))
                if disturbed and r.random() < 0.2 and w.workers:
                    h = w.workers[r.choice(list(w.workers))]
                    if h.proc is not None:
                        sim.stall(h.proc, r.choice([1.0, 3.0]))
            if not started_before:
                await start()
            await asyncio.sleep(1.0)
            ok = await w.drained(d, 60)
            await asyncio.sleep(1.5)
            ok = ok and await w.drained(d, 60)
            c.check(ok, "not-drained", lambda: f"{[ (t, plan[t]) for t in plan if not w.ends(t)]}")
            final = {}
            for tag, e in execs.items():
                await e.sync()
                final[tag] = e.state.value
        for n_ in list(w.workers):
            await w.stop_worker(n_, 20)
        if w.unexpected_worker_exits():
            c.count("deaths")   # not this property's business
            return
        def cancels(tag):
            return [(a.t, b.t) for a, b in zip(w.events("cancelling", tag=tag), w.events("cancelled", tag=tag))]

        late = 4.0 if disturbed else 0.1     # a stalled worker's outcomes
        early = 4.0 if disturbed else 0.05   # a stalled worker heeds a cancellation late
        points = tele.metrics()
        T = totals(points, "docket.task")
        G = totals(points)
        W = totals(points, "docket.task", "docket.worker")
        spans = tele.spans()
        consumers = [s for s in spans if s.kind == SpanKind.CONSUMER]
        by_id = {s.context.span_id: s for s in spans}

        def m(name, f=None):
            return T[("docket_tasks_" + name, f)] if f else G[("docket_tasks_" + name,)]
        runs = w.events("start")
        ended = {e.run: e for e in w.events("end")}
        facts = lambda f: {"runs": [(s.tag, s.attempt, ended.get(s.run) and ended[s.run].outcome, final.get(s.tag)) for s in runs if s.f == f], "plan": {t: p for t, p in plan.items() if p["f"] == f}, "counters": {k[0]: v for k, v in T.items() if k[1] == f}}
        for f in names:
            st = [s for s in runs if s.f == f]
            info = lambda: f"{f}: {facts(f)}"
            c.count("ledgers")
            started = m("started", f)
            sp = [s for s in consumers if s.name == f]
            took = sum(v[1] for (n_, a, v) in points if n_ == "docket_task_duration" and a.get("docket.task") == f)
            ran = sum(ended[s.run].t - s.t for s in st if s.run in ended)
            c.check(ran - 0.001 <= took <= ran + (1e9 if disturbed else 0.2) * max(1, started), "duration-sum", lambda: f"{took} recorded, {ran} run; " + info())
            c.check(started == m("completed", f), "balance", info)
            c.check(m("running", f) == 0, "running", info)
            dur = T[("docket_task_duration", f)] if ("docket_task_duration", f) in T else 0
            c.check(dur == started, "durations", info)
            c.check(len(sp) == started, "span-per-execution", lambda: f"{len(sp)} spans; " + info())
            outs = Counter(ended[s.run].outcome for s in st if s.run in ended)
            okay = failed = 0
            fuzzy = 0
            for s in st:
                en = ended.get(s.run)
                if en is None:
                    continue
                tag, p = s.tag, plan[s.tag]
                # cancelled as its outcome was being recorded?
                cl = cancels(tag)
                if any(en.t - early <= b and a <= en.t + late for a, b in cl) and (en.outcome != "cancelled" or f == "timed"):
                    fuzzy += 1
                elif p["how"] == "unpicklable" and (disturbed or p.get("replaced")):
                    fuzzy += 1   # nobody needs the result of a superseded one
                if en.outcome == "ok" and p["how"] != "unpicklable" and f != "torn":
                    okay += 1
                elif en.outcome in ("ok", "failed"):
                    failed += 1
                elif en.outcome == "cancelled" and f == "timed" and not any(s.t - early <= b and a <= en.t + late for a, b in cl):
                    failed += 1   # the timeout
            failed += started - len(st) if f in ("unfit", "dependent") else 0
            c.check(okay - fuzzy <= m("succeeded", f) <= okay + fuzzy, "succeeded", lambda: f"{okay} succeeded, {fuzzy} cancelled on the edge; " + info())
            c.check(failed - fuzzy <= m("failed", f) <= failed + fuzzy, "failed", lambda: f"{failed} failed, {fuzzy} cancelled on the edge; " + info())
            if f not in gates and f not in ("unfit", "dependent"):
                c.check(started == len(st), "started", info)
            else:
                c.check(started >= len(st), "started", info)
            if not disturbed:
                c.check(m("redelivered", f) == 0, "redelivered", info)
            else:
                rd = sum(1 for s in st if s.redelivered is True)
                c.check(all(s.redelivered != "?" for s in st), "delivered", info)
                either = sum(1 for s in st if s.redelivered == "either")
                c.check(rd <= m("redelivered", f) <= rd + either if f not in gates and f not in ("unfit", "dependent") else m("redelivered", f) >= rd, "redelivered", lambda: f"{rd} redelivered; " + info())
                c.count("redelivered", rd)
            c.check(m("added", f) == calls["add", f], "added", lambda: f"{calls['add', f]} added; " + info())
            struck_w = T[("docket_tasks_stricken", f)]
            if f == "struck":
                accepted = lambda t, p: (execs[t].disposition.value == "scheduled") + (p.get("again") == "scheduled")
                never = sum(max(0, accepted(t, p) - len(w.starts(t))) for t, p in plan.items() if p["f"] == f and not p.get("cancelled"))
                gone = sum(1 for t, p in plan.items() if p["f"] == f and p.get("cancelled"))
                c.check(calls["struck", f] + never <= struck_w <= calls["struck", f] + never + gone or disturbed, "stricken", lambda: f"{calls['struck', f]} skipped, {never} never ran, {gone} maybe; " + info())
                c.count("struck", struck_w)
            else:
                c.check(struck_w == 0, "stricken", info)
            if f == "retried" and not disturbed:
                again = sum(1 for s in st if s.attempt > 1)
                withdrawn = sum(1 for t, p in plan.items() if p["f"] == f and p.get("cancelled"))
                c.check(again <= m("retried", f) <= again + withdrawn, "retried", lambda: f"{again} retries ran, {withdrawn} cancelled; " + info())
                c.count("retries", again)
            elif f != "retried":
                c.check(m("retried", f) == 0, "retried", info)
            if f == "repeated" and not disturbed:
                lasts = len(w.events("last"))
                cut = sum(1 for s in st if s.run in ended and ended[s.run].outcome == "cancelled")
                goes_on = len(st) - lasts - sum(1 for s in st if s.run in ended and ended[s.run].outcome == "cancelled" and not any(l.t >= s.t - 0.001 and l.t <= s.t + 0.001 and l.tag == s.tag for l in w.events("last")))
                sup = sum(v for (n_, a, v) in points if n_ == "docket_tasks_superseded" and a.get("docket.task") == f and a.get("docket.where") == "on_complete")
                c.check(goes_on - fuzzy <= m("perpetuated", f) + sup <= goes_on, "perpetuated", lambda: f"{goes_on} runs to be followed by another, {sup} superseded; " + info())
                # superseded ones: replaced while running
                certain = possible = 0
                for s in st:
                    en = ended.get(s.run)
                    if en is None or en.outcome == "cancelled" or any(abs(l.t - s.t) < 0.001 and l.tag == s.tag for l in w.events("last")):
                        continue
                    for a, b in zip(w.events("replacing", tag=s.tag), w.events("replaced", tag=s.tag)):
                        if s.t < a.t and b.t < en.t:
                            certain += 1
                        elif b.t > s.t - 0.05 and a.t < en.t + 0.05:
                            possible += 1
                    possible += any(en.t - early <= b and a <= en.t + late for a, b in cancels(s.tag))
                c.check(certain <= sup <= certain + possible, "superseded", lambda: f"{certain} certainly and {possible} possibly replaced while running, {sup} counted; " + info())
                c.count("repeats", goes_on)
                c.count("superseded", sup)
            elif f != "repeated":
                c.check(m("perpetuated", f) == 0, "perpetuated", info)
            if f not in ("repeated",):
                c.check(m("replaced", f) == calls["replace", f], "replaced", info)
            # per worker
            for n_ in {s.proc for s in st}:
                if f not in gates and f not in ("unfit", "dependent"):
                    mine = sum(1 for s in st if s.proc == n_)
                    c.check(W[("docket_tasks_started", f, n_)] == mine, "started-by-worker", lambda: f"{n_} started {mine}; " + info())
        # those of the helpers of waiting tasks are counted too
        c.check(T[("docket_tasks_cancelled", None)] == calls["cancel"] + len(helpers), "cancel-calls", lambda: f"{calls['cancel']} cancellations, counted {T[('docket_tasks_cancelled', None)]}")
        # -- spans -----------------------------------------------------------------
        seen_spans = Counter(s.span for s in runs)
        for s in runs:
            x = by_id.get(s.span)
            en = ended.get(s.run)
            if not c.check(x is not None and x.kind == SpanKind.CONSUMER and seen_spans[s.span] == 1, "span-of-run", lambda: f"{dict(s)} ran in {x}"):
                continue
            c.count("spans")
            info = lambda: f"run {dict(s)}, end {en and dict(en)}, plan {plan[s.tag]}, final {final.get(s.tag)}, span {x.name} {dict(x.attributes)} {x.status.status_code} {x.status.description}"
            a = x.attributes
            c.check(x.name == s.f and a.get("docket.task") == s.f and a.get("docket.key") == s.tag and a.get("docket.attempt") == s.attempt and a.get("docket.worker") == s.proc and a.get("docket.name") == "dk", "span-attributes", info)
            if en is None:
                continue
            c.check(x.start_time / 1e9 <= s.t + MS and x.end_time / 1e9 >= en.t - MS, "span-time", lambda: info() + f" {x.start_time} {x.end_time}")
            p = plan[s.tag]
            if any(en.t - early <= b and a <= en.t + late for a, b in cancels(s.tag)) and (en.outcome != "cancelled" or s.f == "timed") or p["how"] == "unpicklable" and (disturbed or p.get("replaced")):
                continue
            bad = en.outcome == "failed" or en.outcome == "ok" and (p["how"] == "unpicklable" or s.f == "torn") or s.f == "timed" and en.outcome == "cancelled" and not any(s.t - early <= b and a <= en.t + late for a, b in cancels(s.tag))
            want = StatusCode.ERROR if bad else StatusCode.OK
            c.check(x.status.status_code == want, "span-status", info)
            if en.outcome == "failed" and p["how"].startswith("raise") and s.f not in ("timed", "torn"):
                c.check(x.status.description == f"boom {s.tag}", "span-description", info)
        for x in consumers:
            a = x.attributes
            f = a.get("docket.task")
            if f in ("unfit", "dependent"):
                c.check(x.status.status_code == StatusCode.ERROR, "span-status", lambda: f"{x.name} {dict(a)} {x.status.status_code}")
            if f not in names:
                continue
            tag = a["docket.key"]
            if len(x.links) != 1:
                c.check(False, "link", lambda: f"span {x.name} {dict(a)} has {len(x.links)} links; plan {plan[tag]}")
                continue
            # follow the links to the scheduling
            y, hops = x, 0
            while y is not None and y.kind == SpanKind.CONSUMER and len(y.links) == 1 and hops < 60:
                y = by_id.get(y.links[0].context.span_id)
                if y is not None:
                    z = y
                    # a span within an execution (a repetition is scheduled there)
                    while z is not None and z.kind != SpanKind.CONSUMER and z.parent is not None and not z.name.startswith("root"):
                        z = by_id.get(z.parent.span_id)
                    y = z
                hops += 1
            okl = y is not None and y.name in (f"root {tag}", f"root2 {tag}")
            c.check(okl, "link", lambda: f"span {x.name} {dict(a)}: links lead to {y and y.name} after {hops} hops; plan {plan[tag]}")
            c.count("links")
        c.nontrivial = len(runs) >= 10 and len({s.f for s in runs}) >= 4
        c.sample = f"{len(plan)} tasks, {len(runs)} runs, {len(consumers)} execution spans, disturbed={disturbed}, counters { {k[0][13:]: v for k, v in G.items() if k[0].startswith('docket_tasks')} }"

    with Telemetry() as tele:
        c.run(sim, lambda s: main(s, tele))


GENERATORS = [(ledger, 1)]
