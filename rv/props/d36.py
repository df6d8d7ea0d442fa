"""D36: the command line does to a docket what it says, and shows what is there."""
import asyncio
import re
import sys
import types
from datetime import datetime, timedelta

from rv.cli import Cli, tables
from rv.props.d18 import OPS, matches
from rv.world import World, intervals, max_overlap, sec, utc

ODD = ["a[/x]", "order[abc]", "customer:key:1", "[bold]", "plain", "ünï ✓", "k[/]", "back\\slash", "job [1]", "a:email:7", "'quoted'", "[red]x[/red]", "x\\"]


def module(name, **members):
    m = types.ModuleType(name)
    for k, v in members.items():
        setattr(m, k, v)
    sys.modules[name] = m


def span(text):
    """'0:00:10.5' or '1 day, 2:00:00' -> seconds"""
    m = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)", text)
    return None if m is None else int(m[1] or 0) * 86400 + int(m[2]) * 3600 + int(m[3]) * 60 + float(m[4])


def says(text, at, now):
    """Does a column of a table give this moment?"""
    if text.startswith("in "):
        s = span(text[3:])
        return s is not None and abs(now + s - at) < 0.2 and s <= 1800.2
    if text.endswith(" ago"):
        s = span(text[:-4])
        return s is not None and abs(now - s - at) < 0.2 and s <= 1800.2
    if text.startswith("at "):
        try:
            d = datetime.strptime(text[3:], "%Y-%m-%d %H:%M:%S %z").timestamp()
        except ValueError:
            return False
        return -0.2 <= at - d <= 1.2 and abs(at - now) >= 1799
    return False


def board(c):
    """snapshot, workers and clear, beside what is going on"""
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.001, 0.003]), pubsub_coarse=0.5)
    name = r.choice(["dk", "d[/k]", "jobs:eu", "a:key:b"])

    async def main(sim):
        w = World(c, sim, docket_kw=dict(name=name), worker_kw=dict(minimum_check_interval=sec(15), scheduling_resolution=sec(15)))

        def define(fn_name):
            async def f(tag: str, dur: float):
                async with w.running(tag, fn=fn_name):
                    await asyncio.sleep(dur)
            f.__name__ = fn_name
            return f
        fns = [define(f"{x}_task") for x in ("alpha", "beta", "gamma")]
        module("rv_cli_tasks", everything=fns)
        known = {}
        with Cli(w).installed() as cli:
            for i in range(r.randint(0, 3)):
                mine = r.sample(fns, r.randint(1, 3))
                wname = r.choice([f"w{i}", f"host[{'abc'[i]}]#{i}", f"w:{i}:key:x"])
                known[wname] = mine
                await w.start_worker(f"w{i}", restart=None, worker_name=wname, tasks=mine, concurrency=r.randint(1, 4))
            async with w.client(tasks=fns) as d:
                plan = {}
                for j in range(r.randint(0, 14)):
                    key = r.choice(ODD) + (f"-{j}" if r.random() < 0.8 else "")
                    if key in plan:
                        continue
                    # every function some worker lacks would be lost there: immediate ones only if all know it
                    ready = [f for f in fns if known and all(f in m for m in known.values())]
                    late = not ready or r.random() < 0.5
                    f = r.choice(fns if late else ready)
                    soon = [100, 1000.5, 1799] if f in ready or not known else [9000]
                    at = sim.wallclock() + r.choice([*soon, 9000, 90000.25, 500000]) if late else None
                    plan[key] = dict(fn=f.__name__, at=at or sim.wallclock(), late=late)
                    await d.add(f, key=key, when=None if at is None else utc(at))(key, 3000)
                await asyncio.sleep(r.choice([5, 5, 20, 20, 100, 2000]))
                where = ["--docket", name]
                for _ in range(r.randint(1, 3)):
                    now = sim.wallclock()
                    running = {e.tag: e for e in w.events("start") if not any(x.run == e.run for x in w.events("end"))}
                    waiting = {k for k in plan if k not in running}
                    ends = {e.tag for e in w.events("end")}
                    waiting -= ends
                    stats = r.random() < 0.5
                    x = await cli("snapshot", *where, *(["--tasks", "rv_cli_tasks:everything"] if r.random() < 0.7 else []), *(["--stats"] if stats else []))
                    c.count("snapshots")
                    c.check(x.ok, "failed", lambda: f"keys {sorted(plan)}: {x!r}")
                    if x.ok:
                        ts = tables(x.out)
                        c.check(len(ts) == (2 if stats and (running or waiting) else 1), "tables", lambda: repr(x))
                        t = ts[0]
                        rows = {row[2]: row for row in t["rows"]}
                        c.check(sorted(row[2] for row in t["rows"]) == sorted([*running, *waiting]), "snapshot", lambda: f"shows {sorted(row[2] for row in t['rows'])}, there are running {sorted(running)} and waiting {sorted(waiting)}")
                        for k in set(rows) & set(plan):
                            row, p = rows[k], plan[k]
                            c.check(row[1] == p["fn"], "snapshot", lambda: f"{k} is shown as {row}, its function is {p['fn']}")
                            c.check(says(row[0], p["at"], now), "snapshot-time", lambda: f"{k} is shown as {row}, it is due at {p['at'] - now:.2f} from now")
                            if k in running:
                                e = running[k]
                                worker = next(n for n, h in zip(known, w.workers.values()) if h.proc.name == e.proc)
                                c.check(row[3] == worker and says(row[4], e.t, now), "snapshot-running", lambda: f"{k} is shown as {row}, it has run on {worker} for {now - e.t:.2f}s")
                            else:
                                c.check(row[3] == "" and row[4] == "", "snapshot-running", lambda: f"{k} waits, and is shown as {row}")
                        text = " ".join(t["title"])
                        c.check(repr(name) in text and f"{len(known)} workers, {len(running)}/{len(running) + len(waiting)} running" in text, "summary", lambda: f"{t['title']}: there are {len(known)} workers, {len(running)} running, {len(waiting)} waiting on {name}")
                        if len(ts) > 1:
                            by = {}
                            for k in [*running, *waiting]:
                                by.setdefault(plan[k]["fn"], []).append(k)
                            got = {row[0]: row for row in ts[1]["rows"]}
                            want = {f: [str(len(ks)), str(sum(k in running for k in ks)), str(sum(k in waiting for k in ks))] for f, ks in by.items()}
                            c.check({f: row[1:4] for f, row in got.items()} == want, "stats", lambda: f"{got}: there are {want}")
                            totals = [int(row[1]) for row in ts[1]["rows"]]
                            c.check(totals == sorted(totals, reverse=True), "stats", lambda: f"the functions with the most tasks come first: {totals}")
                            for f, row in got.items():
                                due = [plan[k]["at"] for k in by.get(f, []) if k in waiting]
                                c.check((says(row[4], min(due), now) and says(row[5], max(due), now)) if due else row[4:] == ["", ""], "stats", lambda: f"{row}: waiting ones are due {sorted(x - now for x in due)}")
                    x = await cli("workers", "ls", *where)
                    f = r.choice(fns).__name__
                    y = await cli("workers", "for-task", f, *where)
                    for z, want in ((x, known), (y, {n: m for n, m in known.items() if any(g.__name__ == f for g in m)})):
                        c.check(z.ok, "failed", lambda: repr(z))
                        if z.ok:
                            t = tables(z.out)
                            shown = {}
                            for row in t[0]["rows"] if t else []:
                                if row[0]:
                                    cur = shown.setdefault(row[0], [])
                                    s = span(row[1].removesuffix(" ago"))
                                    c.check(s is not None and -0.1 < s < 15, "workers", lambda: f"live worker {row[0]} is shown as last seen {row[1]}")
                                cur.append(row[2])
                            own = {"trace", "fail", "sleep"}
                            c.check({n: set(v) - own for n, v in shown.items()} == {n: {g.__name__ for g in m} for n, m in want.items()}, "workers", lambda: f"{z.args} shows {shown}, there are { {n: [g.__name__ for g in m] for n, m in want.items()} }")
                            c.count("listings")
                    await asyncio.sleep(r.choice([1, 100]))
                running = {e.tag: e for e in w.events("start") if not any(x.run == e.run for x in w.events("end"))}
                waiting = {k for k in plan if k not in running and not w.ends(k)}
                x = await cli("clear", *where)
                c.check(x.ok and x.out.strip() == f"Cleared {len(waiting)} tasks from docket '{name}'", "clear", lambda: f"{len(waiting)} tasks were waiting ({sorted(waiting)}): {x!r}")
                snap = await d.snapshot()
                c.check({e.key for e in snap.running} == set(running) and not snap.future, "clear", lambda: f"left after clearing: {snap.running} {snap.future}")
            for n in list(w.workers):
                w.workers[n].stop_requested = True
                if w.workers[n].run_task is not None:
                    w.workers[n].run_task.cancel()
        c.nontrivial = bool(plan)
        c.sample = f"{name}: {len(plan)} tasks, workers {list(known)}, {c.stats['snapshots']} snapshots"
    c.run(sim, main)


def _delay(r):
    n, m, h = r.randint(0, 75), r.randint(0, 90), r.choice([0, 1, 1, 2, 3])
    return r.choice([(f"{n}", n), (f"{n}s", n), (f"{m}m", m * 60), (f"{h}h", h * 3600), (f"{m}:{n:02}", m * 60 + n), (f"{h:02}:{m:02}:{n:02}", h * 3600 + m * 60 + n)])


def adding(c):
    """tasks trace/fail/sleep, run by the worker command"""
    r = c.rng
    sim = c.sim(lat_max=0.003, pubsub_coarse=20)
    sim.constants["docket.worker.AUTOMATIC_PERPETUAL_RESEED_INTERVAL_SECONDS"] = 6000

    async def main(sim):
        w = World(c, sim, docket_kw=dict(heartbeat_interval=sec(60), execution_ttl=timedelta(days=30)))
        name = r.choice(["dk", "docket", "x:y"])
        where = [] if name == "docket" and r.random() < 0.5 else ["--docket", name]
        # the retention is a matter of each handle: what the commands add has the default one
        seen = {}
        with Cli(w).installed() as cli:
            wk = ["--scheduling-resolution", "1:00", "--minimum-check-interval", "60s"]
            for_ever = r.random() < 0.5
            stop = None
            if for_ever:
                stop = cli.start("worker", *where, *wk, "--name", "fred[x]")
            plan = {}
            async with w.client(name=name) as d:
                for j in range(r.randint(1, 6)):
                    kind = r.choice(["trace", "fail", "sleep"])
                    text, s = r.choice([("0", 0), _delay(r)])
                    opts = ["--delay", text] if s or r.random() < 0.5 else []
                    arg = r.choice([[], [r.choice(["hello", "-", "[/x] é", "a:email:b", ""])]]) if kind != "sleep" else r.choice([[], ["0"], ["2.5"], ["7"]])
                    t0 = sim.wallclock()
                    x = await cli("tasks", kind, *where, *opts, *arg)
                    m = re.fullmatch(r"Added (\w+) task '([^']+)' to the docket '(.+)'", x.out.strip())
                    if not c.check(x.ok and m is not None and m[1] == kind and m[3] == name and m[2] not in plan, "add", lambda: repr(x)):
                        continue
                    e = await d.get_execution(m[2])
                    if not c.check(e is not None, "add", lambda: f"the docket doesn't know {m[2]}: {x!r}"):
                        continue
                    value = arg[0] if arg else "Howdy!"
                    want = (float(arg[0]) if arg else 1,) if kind == "sleep" else (value,)
                    c.check(e.function_name == kind and e.args == want and not e.kwargs and abs(e.when.timestamp() - t0 - s) < 0.1, "add", lambda: f"{x!r} added {e.function_name}{e.args}{e.kwargs} for {e.when.timestamp() - t0:.3f} s from now")
                    plan[m[2]] = dict(kind=kind, due=t0 + s, arg=want[0])
                    await asyncio.sleep(r.choice([0, 3]))
                last = max([p["due"] for p in plan.values()], default=0)
                if not for_ever:
                    x = cli.start("worker", *where, *wk, "--until-finished")
                    while not x.done and sim.wallclock() < last + 300:
                        seen.update({k: e for k in plan if (e := await d.get_execution(k)) is not None})
                        await asyncio.sleep(100)
                    await asyncio.wait({x.task}, timeout=100)
                    c.check(x.ok, "until-finished", lambda: f"{sim.wallclock() - last:.0f} s after the last task was due: {x!r}")
                    if not x.done:
                        cli.w.sim.kill(x.proc)
                else:
                    while sim.wallclock() < last + 200:
                        seen.update({k: e for k in plan if (e := await d.get_execution(k)) is not None})
                        await asyncio.sleep(100)
                for k, p in plan.items():
                    now = await d.get_execution(k)
                    seen[k] = now if now is not None else seen.get(k)
                    e = seen[k]
                    want = "failed" if p["kind"] == "fail" else "completed"
                    if not c.check(e is not None and e.state.value == want, "outcome", lambda: f"{p}: {e and e.state}"):
                        continue
                    c.count("done")
                    c.check(-0.01 <= e.started_at.timestamp() - p["due"] <= 125, "when", lambda: f"{p} started {e.started_at.timestamp() - p['due']:.2f} s after its time")
                    if for_ever:
                        c.check(e.worker == "fred[x]", "name", lambda: f"ran on {e.worker}")
                    if p["kind"] == "sleep":
                        took = (e.completed_at - e.started_at).total_seconds()
                        c.check(abs(took - p["arg"]) < 0.2, "slept", lambda: f"{p} took {took:.2f} s")
                    if p["kind"] == "fail":
                        c.check(str(p["arg"]) in (e.error or ""), "message", lambda: f"{p}: {e.error!r}")
                if stop is not None:
                    c.check(not stop.done, "worker-ended", lambda: repr(stop))
                    stop.handlers[15]()
                    await asyncio.wait({stop.task}, timeout=15)
                    c.check(stop.ok, "terminate", lambda: f"15 s after SIGTERM: {stop!r}")
        c.nontrivial = bool(plan)
        c.sample = f"{[(p['kind'], round(p['due'] - sim.epoch), p['arg']) for p in plan.values()]}, {'for ever' if for_ever else 'until finished'}"
    c.run(sim, main)


TYPED = [("str", str, ["ann", "http://x:80", "a:b", ""]), ("int", int, ["5", "-1", "0"]), ("float", float, ["2.5", "5"]), ("bool", lambda v: v.lower() == "true", ["true", "False", "TRUE"]),
         ("datetime.timedelta", lambda v: timedelta(seconds=int(v)), ["10", "600"])]


def striking(c):
    """strike and restore, as seen by the workers"""
    r = c.rng
    sim = c.sim(lat_max=0.003, pubsub_coarse=0.3)

    async def main(sim):
        w = World(c, sim, worker_kw=dict(minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1), concurrency=50))

        async def alpha(tag: str, v, n=5):
            async with w.running(tag):
                pass

        async def beta(tag: str, n):
            async with w.running(tag):
                pass
        w.tasks += [alpha, beta]
        struck, shown = [], []
        with Cli(w).installed() as cli:
            for i in range(r.randint(1, 2)):
                await w.start_worker(f"w{i}", restart=None)
            async with w.client() as d:
                for j in range(r.randint(2, 8)):
                    if struck and r.random() < 0.4:
                        words, rule = r.choice(struck)
                        struck.remove((words, rule))
                        verb = "restore"
                    else:
                        verb = "strike"
                        fn = r.choice(["alpha", "beta", "*", ""])
                        if fn in ("alpha", "beta") and r.random() < 0.3:
                            words, rule = [fn], (fn, None, "==", None)
                        else:
                            param = r.choice(["v", "n"])
                            op = r.choice([o for o in OPS if o != "between"])
                            typ, make, texts = r.choice(TYPED)
                            text = r.choice(texts)
                            bare = typ == "str" and ":" not in text and r.random() < 0.5
                            words = [fn, param, op, text if bare else f"{typ}:{text}"]
                            rule = (fn if fn in ("alpha", "beta") else None, param, op, make(text))
                        if any(x[1] == rule and type(x[1][3]) is type(rule[3]) or x[1][:3] == rule[:3] and x[1][3] == rule[3] for x in struck):
                            continue
                        struck.append((words, rule))
                    x = await cli(verb, "--docket", "dk", "--", *words)
                    shown.append((verb, *words))
                    c.count("instructions")
                    text = words[0] if len(words) == 1 else f"{rule[0] or '(all tasks)'} {rule[1]} {rule[2]} {rule[3]!r}"
                    c.check(x.ok and x.out.strip() == f"{'Striking' if verb == 'strike' else 'Restoring'} {text}", "command", lambda: repr(x))
                    await asyncio.sleep(0.5)
                    calls = {}
                    for k in range(r.randint(1, 6)):
                        tag = f"k{j}.{k}"
                        v = r.choice(["ann", "http://x:80", "a:b", "", 5, 2.5, True, timedelta(seconds=10), 0])
                        if r.random() < 0.5:
                            n = r.choice([None, 5, 0, 7])
                            await d.add(alpha, key=tag)(tag, v, **({} if n is None else {"n": n}))
                            calls[tag] = ("alpha", dict(tag=tag, v=v, n=5 if n is None else n))
                        else:
                            await d.add(beta, key=tag)(tag, v)
                            calls[tag] = ("beta", dict(tag=tag, n=v))
                    await asyncio.sleep(1.5)
                    for tag, (fn, call) in calls.items():
                        want = not matches([rule for _, rule in struck], fn, call)
                        c.count("blocked" if not want else "free")
                        c.check(len(w.starts(tag)) == want, "struck", lambda: f"{fn}{call} {'ran' if w.starts(tag) else 'did not run'} after {shown}")
                x = await cli(r.choice(["strike", "restore"]), "--docket", "dk", r.choice(["*", ""]))
                c.check(x.error is not None, "everything", lambda: f"neither function nor parameter: {x!r}")
        c.nontrivial = c.stats["blocked"] > 0 and c.stats["free"] > 0
        c.sample = str(shown)
    c.run(sim, main)


def watching(c):
    """watch shows a task until it is over, however it ends"""
    r = c.rng
    sim = c.sim(lat_max=0.003, pubsub_coarse=0.2)

    async def main(sim):
        from docket import Progress
        w = World(c, sim, worker_kw=dict(minimum_check_interval=sec(0.1), scheduling_resolution=sec(0.1), concurrency=50))
        errors = ["nope", "unexpected [/b] here", "[red]", "a:email:b"]

        async def job(tag: str, steps: list, total: int, error: str, p=Progress()):
            async with w.running(tag):
                if total:
                    await p.set_total(total)
                for pause, n, message in steps:
                    await asyncio.sleep(pause)
                    if n:
                        await p.increment(n)
                    if message:
                        await p.set_message(message)
                if error:
                    raise ValueError(error)
        w.tasks.append(job)
        over, cases = {}, {}
        with Cli(w).installed() as cli:
            await w.start_worker("w0", restart=None, worker_name=r.choice(["w0", "h[ost]#1"]))
            async with w.client() as d:
                async def one(j):
                    key = f"{r.choice(ODD)}-{j}"     # never ends with a backslash
                    start = r.choice([0, 0, 2, 7])
                    steps = [(r.choice([0.1, 0.5, 1.5, 4]), r.choice([0, 1, 2]), r.choice([None, None, "half[/x]way"])) for _ in range(r.randint(0, 5))]
                    total = r.choice([0, 12, 40])
                    error = r.choice(["", "", *errors])
                    fate = r.choice(["end", "end", "end", "cancel-waiting", "cancel-running"])
                    if fate == "cancel-waiting":
                        start = 60
                    if fate == "cancel-running":
                        steps, start = [(30, 0, None)], 0
                    await d.add(job, key=key, when=utc(sim.wallclock() + start) if start else None)(key, steps, total, error)
                    look = r.choice([0, 0, 1, 5])
                    await asyncio.sleep(look)
                    x = cli.start("watch", key, "--docket", "dk", "--url", "redis://sim:6379/0")
                    if fate.startswith("cancel"):
                        await asyncio.sleep(r.choice([0, 0.5, 3]))
                        if fate == "cancel-running":
                            while not w.starts(key):
                                await asyncio.sleep(0.1)
                        t = sim.wallclock()
                        await d.cancel(key)
                    limit = sim.wallclock() + start + sum(s[0] for s in steps) + 10 if fate == "end" else sim.wallclock() + 8
                    await asyncio.wait({x.task}, timeout=limit - sim.wallclock())
                    e = w.ends(key)
                    ended = t if fate != "end" else (e[0].t if e else None)
                    want = "CANCELLED" if fate != "end" else "FAILED" if error else "COMPLETED"
                    text = lambda: f"{key} ({fate}, due after {start}, steps {steps}, total {total}, error {error!r}, ended {ended and round(ended - x.t0, 2)} s after the watch began): {x!r}, watched for {x.t1 - x.t0:.2f} s"
                    if not c.check(x.ok, "watch", text):
                        return
                    c.count("watched")
                    c.check(ended is not None and x.t1 >= ended - 0.01, "gave-up", text)
                    c.check(ended is None or x.t1 <= max(ended, x.t0) + 2.5, "lingered", text)
                    flat = [line.strip() for line in x.out.splitlines()]
                    c.check(f"Task: {key}" in flat, "shows", text)
                    c.check(f"State: {want}" in flat, "state", text)
                    if w.starts(key) and want != "CANCELLED":
                        c.check(f"Worker: {w.workers['w0'].worker.name}" in flat, "worker", text)
                    if want == "FAILED":
                        c.check(any(line.startswith("Error:") and error in line for line in flat), "error", text)
                    done = sum(s[1] for s in steps)
                    if total and done and want != "CANCELLED" and x.t0 < w.starts(key)[0].t:
                        m = re.search(r"(\d+)%", x.out)
                        c.count("bars")
                        c.check(m is not None and abs(int(m[1]) - 100 * min(done, total) / total) <= 1, "progress", text)
                await asyncio.gather(*[one(j) for j in range(r.randint(1, 5))])
                x = await cli("watch", "nobody[/x]", "--docket", "dk", "--url", "redis://sim:6379/0")
                c.check(x.ok and "not found" in x.out, "unknown", lambda: repr(x))
        c.nontrivial = c.stats["watched"] > 0
        c.sample = f"{c.stats['watched']} watched, {c.stats['bars']} with progress"
    c.run(sim, main)


def working(c):
    """the worker command takes its options to heart"""
    r = c.rng
    sim = c.sim(lat_max=0.003)

    async def main(sim):
        w = World(c, sim)

        async def job(tag: str, dur: float):
            async with w.running(tag):
                await asyncio.sleep(dur)

        async def stray(tag: str, dur: float):
            pass

        from docket import Perpetual

        async def tick(again: Perpetual = Perpetual(every=sec(1), automatic=True)):
            async with w.running("tick"):
                pass

        async def catch(*args, **kwargs):
            async with w.running("caught"):
                w.sim.log("caught", args=args, kwargs=kwargs)
        module("rv_cli_more", everything=[job, tick], rest=[], catch=catch)
        conc = r.choice([1, 2, 5])
        redel = r.choice([("3", 3), ("2s", 2), ("0:04", 4), ("00:00:03", 3)])
        name = r.choice(["n1", "n[a]"])
        auto, fallback, until = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
        opts = ["worker", "--docket", "dk", "--tasks", "rv_cli_more:everything", "--tasks", "docket.tasks:standard_tasks", "--concurrency", conc, "--redelivery-timeout", redel[0], "--name", name,
                "--scheduling-resolution", "1s", "--minimum-check-interval", "1", "--reconnection-delay", "2s"]
        if not auto or until:
            opts += ["--no-schedule-automatic-tasks"]
            auto = False
        if fallback:
            opts += ["--fallback-task", "rv_cli_more:catch"]
        if until:
            opts += ["--until-finished"]
        with Cli(w).installed() as cli:
            async with w.client(tasks=[job, stray]) as d:
                n = r.randint(1, 8)
                for j in range(n):
                    await d.add(job, key=f"k{j}", when=None if r.random() < 0.6 else utc(sim.wallclock() + r.choice([1, 3])))(f"k{j}", r.choice([0.2, 1.5, 3]))
                strays = r.randint(0, 2)
                for j in range(strays):
                    await d.add(stray, key=f"s{j}")(f"s{j}", dur=j)
                x = cli.start(*opts)
                await asyncio.sleep(2)
                if not x.done:
                    names = {i.name for i in await d.workers()}
                    c.check(names == {name}, "name", lambda: f"{names}: {x!r}")
                crash = r.random() < 0.4 and not x.done
                if crash:
                    at = sim.wallclock()
                    held = [e for e in w.events("start", tag=None) or []]
                    held = [e for e in w.events("start") if e.tag.startswith("k") and not any(y.run == e.run for y in w.events("end"))]
                    sim.kill(x.proc)
                    x = cli.start(*opts)
                await asyncio.sleep(35)
                for j in range(n):
                    ok = w.ends(f"k{j}", "ok")
                    c.check(len(ok) == 1, "ran", lambda: f"k{j} completed {len(ok)} times; {x!r}")
                over, e = max_overlap([i for i in intervals(w) if i[2].tag.startswith("k")])
                c.check(over <= conc, "concurrency", lambda: f"{over} at once with --concurrency {conc}")
                if crash:
                    for e in held:
                        again = [y for y in w.starts(e.tag) if y.t > at]
                        c.count("taken_over")
                        c.check(bool(again) and redel[1] * 0.7 - 1 <= again[0].t - at <= redel[1] + 4 + n * 3 / conc, "redelivery", lambda: f"{e.tag} was taken over {again and again[0].t - at} s after the crash, with --redelivery-timeout {redel[0]}")
                got = [(y.args, y.kwargs) for y in w.events("caught")]
                c.check(len(got) >= strays if fallback else not got, "fallback", lambda: f"{strays} strays, {got}")
                if fallback:
                    c.check({(a, k["dur"]) for (a,), k in got} == {(f"s{j}", j) for j in range(strays)}, "fallback", lambda: f"{got}")
                ticks = len(w.starts("tick"))
                c.check(ticks > 3 if auto else ticks == 0, "automatic", lambda: f"automatic tasks {auto}: {ticks} runs; {x!r}")
                if until:
                    c.check(x.ok, "until-finished", lambda: f"long after the last task: {x!r}")
                else:
                    c.check(not x.done, "ended", lambda: repr(x))
                    await d.add(job, key="final")("final", 3)
                    await asyncio.sleep(2)
                    t = sim.wallclock()
                    x.handlers[r.choice([2, 15])]()
                    await asyncio.wait({x.task}, timeout=20)
                    e = w.ends("final", "ok")
                    c.check(x.ok and len(e) == 1 and e[0].t <= x.t1 <= max(e[0].t, t) + 5, "terminate", lambda: f"signalled while final ran: final ended {[y.t - t for y in w.ends('final')]}, the worker after {x.t1 - t:.2f} s: {x!r}")
        c.nontrivial = True
        c.sample = f"{' '.join(map(str, opts[1:]))}: {n} tasks, {strays} strays, crash {crash}"
    c.run(sim, main)


GENERATORS = [(board, 4), (adding, 2), (striking, 3), (watching, 3), (working, 3)]
