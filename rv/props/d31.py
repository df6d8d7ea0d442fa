"""D31: scattering an agenda."""
import asyncio
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from rv.world import World, sec, utc

ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns"]
US = timedelta(microseconds=1)


def pick_window(r, now):
    over = r.choice([US, timedelta(microseconds=r.randint(2, 999)), timedelta(milliseconds=r.randint(1, 2000)),
                     timedelta(seconds=r.uniform(0.1, 30)), timedelta(minutes=r.uniform(1, 90)), timedelta(hours=24), timedelta(days=r.uniform(1, 40)), timedelta(days=3650)])
    kind = r.choice(["none", "now", "past", "future", "dst", "fixed"])
    if kind == "none":
        start = None
    elif kind == "now":
        start = now
    elif kind == "past":
        start = now - timedelta(seconds=r.uniform(0.001, 1e6))
    elif kind == "future":
        start = now + timedelta(seconds=r.uniform(0.001, 1e7))
    elif kind == "dst":
        z = ZoneInfo(r.choice(ZONES[1:]))
        # shortly before the next change of the clocks there
        t = now.replace(minute=0, second=0, microsecond=0)
        for _ in range(24 * 370):
            if (t + timedelta(hours=1)).astimezone(z).utcoffset() != t.astimezone(z).utcoffset():
                break
            t += timedelta(hours=1)
        start = (t - timedelta(seconds=r.uniform(0, 3 * 3600))).astimezone(z)
        over = r.choice([over, timedelta(hours=r.uniform(1, 48))])
    else:
        start = (now + timedelta(seconds=r.uniform(-1e4, 1e5))).astimezone(timezone(timedelta(minutes=r.randint(-800, 800))))
    jitter = r.choice([None, None, timedelta(0), US, over / 7, over, over * 3, timedelta(seconds=5)])
    return over, start, jitter


def scatter(c):
    r = c.rng
    sim = c.sim(epoch=r.choice([1767225600.0, 1772800000.0, 1761300000.0, 1780000000.5]))

    async def main(sim):
        from docket import Agenda
        w = World(c, sim, worker_kw=dict(concurrency=50, scheduling_resolution=sec(0.05), minimum_check_interval=sec(0.05)))

        def make(name):
            async def f(a=None, *, b=None, tag=None):
                async with w.running(tag, a=a, b=b, name=name):
                    pass
            f.__name__ = name
            return f
        one, two, three = make("one"), make("two"), make("three")
        twin = make("one")         # another function of the same name, registered as "twin"
        twin_name = "twin"
        real = {}

        def register(d):
            d.register(one)
            d.register(three, names=["three", "drei"])
            d.register(two)

        w.tasks += []
        nw = r.choice([0, 0, 1])
        async with w.make_docket() as d, w.make_docket() as seen:
            register(d)
            others = {}
            for j in range(r.choice([0, 0, 3])):      # there's something on the docket already
                e = await d.add(two, when=utc(sim.wallclock() + r.uniform(100, 1e6)), key=f"k{r.randint(0, 6)}")(a="before", tag=f"before{j}")
                if e.disposition.value == "scheduled":
                    others[e.key] = e
            fixed = {k: (e.when, "two", [], {"a": "before", "tag": e.kwargs["tag"]}) for k, e in others.items()}
            expected = dict(fixed)
            all_keys = set(fixed)
            serial = 0
            end = sim.wallclock()
            for batch in range(r.choice([1, 1, 2, 3])):
                n = r.choice([0, 1, 2, 3, r.randint(4, 30), r.choice([50, 150, 400]) if r.random() < 0.3 else 7])
                agenda = Agenda()
                entries = []
                for i in range(n):
                    serial += 1
                    f = r.choice([one, two, three, "one", "two", "three", "drei"])
                    key = None if r.random() < 0.6 else f"k{r.randint(0, 2 * n + 2)}"
                    args, kw = r.choice([((), {}), ((i,), {}), ((), {"a": i}), ((i,), {"b": [i]})])
                    kw = dict(kw, tag=f"t{serial}")
                    agenda.add(f, key=key)(*args, **kw) if key is not None or r.random() < 0.5 else agenda.add(f)(*args, **kw)
                    entries.append((f if isinstance(f, str) else f.__name__, args, kw, key))
                c.check(len(agenda) == n, "len", lambda: f"{len(agenda)} != {n}")
                bad = r.random() < 0.15
                if bad:
                    over, start, jitter = pick_window(r, utc(sim.wallclock()))
                    how = r.choice(["zero", "negative", "unknown"])
                    if how == "zero":
                        over = timedelta(0)
                    elif how == "negative":
                        over = -over
                    else:
                        agenda.add("unheard-of")(1)
                    if how == "unknown" or n >= 0:
                        before = sim.server.call("keys", ("*",))
                        try:
                            await agenda.scatter(d, over=over, start=start, jitter=jitter)
                            c.violation("accepted", f"an agenda with {how} was accepted")
                        except (ValueError, KeyError) as e:
                            c.count("refused")
                            c.check(isinstance(e, KeyError) == (how == "unknown"), "error", repr(e))
                        s = await seen.snapshot()
                        got = {x.key for x in [*s.future, *s.running]}
                        c.check(got == all_keys, "not-atomic", lambda: f"refused ({how}), and yet {len(got)} instead of {len(all_keys)} tasks are there")
                    continue
                for repeat in range(r.choice([1, 1, 2])):
                    over, start, jitter = pick_window(r, utc(sim.wallclock()))
                    t0 = sim.wallclock()
                    kwargs = {}
                    if start is not None:
                        kwargs["start"] = start
                    if jitter is not None:
                        kwargs["jitter"] = jitter
                    handles = await agenda.scatter(d, over=over, **kwargs)
                    t1 = sim.wallclock()
                    c.count("scattered")
                    c.count("entries", n)
                    if not c.check(len(handles) == n, "handles", lambda: f"{len(handles)} handles for {n} tasks"):
                        break
                    if n == 0:
                        continue
                    # "now" is somewhere between t0 and t1
                    s = start.astimezone(timezone.utc) if start is not None else utc(t0)
                    slop = timedelta(seconds=max(0.0, t1 - t0) if start is None else 0) + US
                    text = lambda: f"n={n}, over={over}, start={start}, jitter={jitter}: whens {[str(h.when) for h in handles[:4]]}...{handles[-1].when}"
                    J = abs(jitter) if jitter else timedelta(0)
                    for i, (h, (name, args, kw, key)) in enumerate(zip(handles, entries)):
                        ideal = s + (over / 2 if n == 1 else over * i / (n - 1))
                        low, high = max(ideal - J, s), max(ideal + J, s) + slop
                        if not c.check(low - US <= h.when <= high + US, "spacing", lambda: f"entry {i} is {h.when.astimezone(timezone.utc)}, between {low} and {high} expected: " + text()):
                            break
                        c.check(h.when >= (start or s - US), "before-start", text)
                        if not J and start is not None:
                            c.check(h.when <= s + over + US, "after-end", text)
                        c.check((h.function_name, list(h.args), h.kwargs) == (name, list(args), kw), "handle", lambda: f"handle {i} is for {h.function_name}{h.args}{h.kwargs}, entry was {name}{args}{kw}")
                        c.check(key is None or h.key == key, "key", lambda: f"handle {i} has key {h.key}, was given {key}")
                        if h.key in all_keys:
                            c.check(h.disposition.value == "already_scheduled", "disposition", lambda: f"{h.key}: {h.disposition}")
                            c.count("known_keys")
                        else:
                            c.check(h.disposition.value == "scheduled", "disposition", lambda: f"{h.key}: {h.disposition}")
                            expected[h.key] = (h.when, name, list(args), kw)
                            all_keys.add(h.key)
                            end = max(end, h.when.timestamp())
                    for a, b in zip(handles, handles[1:]):
                        if not J:
                            c.check(a.when <= b.when, "order", text)
                    fresh = [h.key for h, e in zip(handles, entries) if e[3] is None]
                    c.check(len(set(fresh)) == len(fresh), "generated", text)
            snap = await seen.snapshot()
            got = {}
            for x in [*snap.future, *snap.running]:
                c.check(x.key not in got, "twice", x.key)
                got[x.key] = (x.when, x.function_name, list(x.args), x.kwargs)
            diff = {k: (got.get(k), expected.get(k)) for k in set(got) | set(expected) if got.get(k) is None or expected.get(k) is None or got[k][1:] != expected[k][1:] or abs(got[k][0] - expected[k][0]) > timedelta(milliseconds=1) * (1 if got[k] in snap.future else 1)}
            c.check(not diff, "docket", lambda: f"on the docket (got, expected): {list(diff.items())[:3]}")
            # ... and they run, each once
            if nw and end < sim.wallclock() + 200:
                async def body(worker):
                    register(worker.docket)
                    await worker.run_forever()
                h = await w.start_worker("w0", restart=None, body=body)
                await asyncio.sleep(max(0, end - sim.wallclock()) + 3)
                by = {}
                for x in w.events("start"):
                    by.setdefault(x.tag, []).append(x)
                for k, (when, name, args, kw) in expected.items():
                    if when.timestamp() > end:
                        continue
                    xs = by.get(kw["tag"], [])
                    mine = sorted(z[0].timestamp() for z in expected.values() if z[3]["tag"] == kw["tag"])
                    c.check(len(xs) == len(mine), "runs", lambda: f"{k} ran {len(xs)} times, not {len(mine)}")
                    for x, due in zip(xs, mine):
                        c.check(x.t >= due - 1e-3, "early", lambda: f"{k} due {due} ran at {x.t}")
                        real_name = "three" if name == "drei" else name
                        c.check(x.name == real_name and x.a == (args[0] if args else kw.get("a")) and x.b == kw.get("b"), "content", lambda: f"{k} ran as {dict(x)}, expected {name}{args}{kw}")
                w.kill_worker("w0")
        c.nontrivial = c.stats["entries"] > 1
        c.sample = f"{c.stats['scattered']} agendas with {c.stats['entries']} entries scattered, {c.stats['known_keys']} keys known already, {c.stats['refused']} refused, {c.stats['starts']} ran"
    c.run(sim, main)


def namesakes(c):
    """Functions registered under names of their own, on docket and worker."""
    sim = c.sim()
    r = c.rng

    async def main(sim):
        from docket import Agenda
        w = World(c, sim)
        ran = []

        def make(x):
            async def handler(a):
                async with w.running(a, x=x):
                    ran.append((x, a))
            return handler
        fns = {f"name{i}": make(f"name{i}") for i in range(r.randint(2, 4))}

        async def body(worker):
            for n, f in fns.items():
                worker.docket.register(f, names=[n])
            await worker.run_forever()
        await w.start_worker("w0", restart=None, body=body)
        async with w.make_docket() as d:
            for n, f in fns.items():
                d.register(f, names=[n])
            agenda = Agenda()
            want = []
            for i in range(r.randint(2, 9)):
                n = r.choice(sorted(fns))
                agenda.add(n)(i)
                want.append((n, i))
            await agenda.scatter(d, over=sec(2))
            await asyncio.sleep(4)
            c.check(sorted(ran) == sorted(want), "namesakes", lambda: f"scattered {want}, ran {ran}")
        w.kill_worker("w0")
        c.nontrivial = True
        c.count("scattered")
    c.run(sim, main)


DIRECTED = [namesakes]
GENERATORS = [(scatter, 9), (namesakes, 1)]
