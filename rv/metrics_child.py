"""One process with docket's metrics and healthcheck servers, some work to be
counted, and scrapers.  Reads a seed, prints what was seen as JSON."""
import asyncio
import http.client
import json
import logging
import random
import re
import socket
import sys
import threading
import time
from collections import Counter
from datetime import timedelta

logging.disable(logging.CRITICAL)
seed = sys.argv[1]
r = random.Random(seed)
violations, stats = [], Counter()


def violation(sig, msg):
    if sum(v["sig"] == sig for v in violations) < 2:
        violations.append({"sig": sig, "msg": msg[:1500]})


def check(ok, sig, msg):
    stats["checks"] += 1
    if not ok:
        violation(sig, msg() if callable(msg) else msg)
    return ok


# -- the ledger: all that docket hands to its instruments ------------------------
from docket import instrumentation as I  # noqa: E402

lock = threading.Lock()
begun, done = Counter(), Counter()          # counters and up/down counters: {(name, labels): sum}
gauges, records = {}, {}
shown = set()                               # all that was ever in a scrape
COUNTERS, LEVELS, GAUGES, HISTOGRAMS = set(), set(), set(), set()


def text_of(v):
    return v if isinstance(v, str) else json.dumps(v, default=str)


def labels_of(attributes):
    return tuple(sorted((re.sub(r"[^a-zA-Z0-9]+", "_", k), text_of(v)) for k, v in (attributes or {}).items()))


def watch(instrument):
    name = instrument._name
    kind = type(instrument).__name__.lower()
    if "updown" in kind:
        LEVELS.add(name)
    elif "counter" in kind:
        COUNTERS.add(name)
    elif "histogram" in kind:
        HISTOGRAMS.add(name)
    else:
        GAUGES.add(name)
    for method in ("add", "record", "set"):
        real = getattr(instrument, method, None)
        if real is None:
            continue

        def wrapped(amount, attributes=None, *a, _real=real, _m=method, **kw):
            k = (name, labels_of(attributes))
            with lock:
                if _m == "add":
                    begun[k] += amount
                elif _m == "record":
                    records.setdefault(k, [[], []])[0].append(amount)
            _real(amount, attributes, *a, **kw)
            with lock:
                if _m == "add":
                    done[k] += amount
                elif _m == "record":
                    records[k][1].append(amount)
                else:
                    gauges[k] = amount
        setattr(instrument, method, wrapped)


for v in list(vars(I).values()):
    if hasattr(v, "_name") and any(hasattr(v, m) for m in ("add", "record", "set")):
        watch(v)


# -- reading an exposition, strictly -----------------------------------------------
SAMPLE = re.compile(r'([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{((?:[a-zA-Z_][a-zA-Z0-9_]*="(?:[^"\\\n]|\\["\\n])*",?)*)\})? (\S+)( \d+)?')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\["\\n])*)"')
ESC = {"\\\\": "\\", '\\"': '"', "\\n": "\n"}


def read(text):
    """{(name, labels): value}; complains about what the format forbids"""
    out, seen, current, family = {}, set(), None, None
    types = {}
    check(text.endswith("\n"), "format", lambda: f"no final newline: {text[-80:]!r}")
    for line in text.split("\n"):
        if not line:
            continue
        if line.startswith("# "):
            _, what, name, *rest = line.split(" ", 3)
            if what in ("HELP", "TYPE"):
                if name.startswith("docket") or name.startswith("target"):
                    check((what, name) not in seen, "declared-twice", lambda: f"a second # {what} for {name}")
                seen.add((what, name))
                if what == "TYPE":
                    types[name] = rest[0]
            continue
        m = SAMPLE.fullmatch(line)
        if not check(m is not None, "format", lambda: f"not a sample: {line!r}"):
            continue
        name = m[1]
        labels = [(k, re.sub(r'\\["\\n]', lambda e: ESC[e[0]], v)) for k, v in LABEL.findall(m[2] or "")]
        check(len({k for k, _ in labels}) == len(labels), "format", lambda: f"a label twice: {line!r}")
        key = (name, tuple(sorted(labels)))
        check(key not in out, "sample-twice", lambda: f"{line!r} and {out[key]}")
        out[key] = float(m[3])
        stats["samples"] += 1
    for t, k in ((COUNTERS, "counter"), (LEVELS, "gauge"), (GAUGES, "gauge"), (HISTOGRAMS, "histogram")):
        for n in t:
            full = {"counter": f"{n}_total", "gauge": n, "histogram": f"{n}_seconds"}[k]
            if any(x[0].startswith(full) and x[0] in (full, full + "_count") for x in out):
                check(types.get(full) == k, "type", lambda: f"{full} is declared as {types.get(full)}")
    return out


def get(port, path="/metrics"):
    h = http.client.HTTPConnection("127.0.0.1", port, timeout=30)
    try:
        h.request("GET", path)
        a = h.getresponse()
        return a.status, a.read().decode()
    finally:
        h.close()


BOUNDS = [0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000]


def compare(got, lo, hi, exact, where):
    """Counters against the ledger as it was before and after the scrape."""
    mine = {k: v for k, v in got.items() if k[0].startswith("docket_")}
    shown.update(mine)
    for k, n in hi.items():
        if k[0] in COUNTERS:
            s = (f"{k[0]}_total", k[1])
            v = got.get(s, 0.0)
            check(lo.get(k, 0) <= v <= n and (s in got or not lo.get(k, 0)), "counter", lambda: f"{where}: {s} is {got.get(s)}, {lo.get(k, 0)} to {n} were counted")
            mine.pop(s, None)
            stats["counters"] += 1
    if not exact:
        return
    for k, n in hi.items():
        if k[0] in LEVELS:
            check(got.get(k) == n, "level", lambda: f"{where}: {k} is {got.get(k)}, the changes add up to {n}")
            mine.pop(k, None)
            stats["levels"] += 1
    for k, n in gauges.items():
        # (the SDK shows a gauge once per value it is given)
        check(got.get(k, n) == n, "gauge", lambda: f"{where}: {k} is {got.get(k)}, the last value was {n}")
        mine.pop(k, None)
        stats["gauges"] += 1
    for (name, labels), (_, values) in records.items():
        full = f"{name}_seconds"
        stats["histograms"] += 1
        n = mine.pop((f"{full}_count", labels), None)
        check(n == len(values), "histogram", lambda: f"{where}: {full}_count of {labels} is {n} for {len(values)} records")
        s = mine.pop((f"{full}_sum", labels), None)
        check(s is not None and abs(s - sum(values)) <= 1e-6 * max(1, abs(sum(values))), "histogram", lambda: f"{where}: {full}_sum of {labels} is {s}, not {sum(values)}")
        buckets = {dict(k[1])["le"]: v for k, v in mine.items() if k[0] == f"{full}_bucket" and tuple(x for x in k[1] if x[0] != "le") == labels}
        mine = {k: v for k, v in mine.items() if not (k[0] == f"{full}_bucket" and tuple(x for x in k[1] if x[0] != "le") == labels)}
        check(buckets.pop("+Inf", None) == len(values), "histogram", lambda: f"{where}: the last bucket of {full} {labels}: {buckets}")
        check(sorted(map(float, buckets)) == BOUNDS, "histogram", lambda: f"{where}: buckets {sorted(map(float, buckets))}")
        for le, v in buckets.items():
            check(v == sum(x <= float(le) for x in values), "histogram", lambda: f"{where}: {v} of {full} {labels} are up to {le}, recorded {sorted(values)}")
    mine = {k: v for k, v in mine.items() if not k[0].endswith("_created")}
    check(not mine, "made-up", lambda: f"{where}: nobody recorded {sorted(mine.items())[:5]}")


ODD = ["plain", 'quo"ted', "back\\slash", "new\nline", "ünï ✓", "a{b}", "x,y=\"z\"", "", "a\\nb", "le", "percent%|pipe"]


async def work():
    from docket import Docket, ExponentialRetry, Perpetual, Retry, Worker

    def make(i):
        how = r.choice(["ok", "fail", "slow", "retry", "tick"])
        left = r.randint(1, 4)
        if how == "ok":
            async def f(n: int):
                pass
        elif how == "fail":
            async def f(n: int):
                raise ValueError(n)
        elif how == "slow":
            async def f(n: int):
                await asyncio.sleep(0.05)
        elif how == "retry":
            async def f(n: int, retry: Retry = Retry(attempts=3, delay=timedelta(0))):
                raise ValueError(n)
        else:
            async def f(n: int, again: Perpetual = Perpetual(every=timedelta(milliseconds=20))):
                nonlocal left
                left -= 1
                if left <= 0:
                    again.cancel()
        f.__name__ = f"{how} {r.choice(ODD)} {i}" if r.random() < 0.7 else f"{how}_{i}"
        return f
    # durations of all sizes, as if tasks took that long
    for name in r.sample(["long", "longer", 'lo"ng', "länger"], r.randint(0, 3)):
        for _ in range(r.randint(1, 12)):
            r.choice([I.TASK_DURATION, I.TASK_PUNCTUALITY]).record(r.choice([0, 4.999, 5, 5.0001, 10, 75, 100.5, 9999, 10000, 10001, 1e6, r.uniform(0, 12000), r.expovariate(0.05)]), {"docket.name": "direct", "docket.task": name})
    for i in range(r.randint(1, 2)):
        fns = [make(j) for j in range(r.randint(1, 4))]
        async with Docket(f"{r.choice(ODD)}{i}-{seed}", url=f"memory://m{i}", execution_ttl=timedelta(0) if r.random() < 0.3 else timedelta(minutes=15)) as d:
            for f in fns:
                d.register(f)
            if r.random() < 0.4:
                await d.strike(r.choice(fns), "n", "==", r.randint(0, 5))
            for n in range(r.randint(0, 25)):
                f = r.choice(fns)
                key = f"{r.choice(ODD)}{r.randint(0, 12)}"
                act = r.random()
                if act < 0.7:
                    await d.add(f, key=key)(r.randint(0, 5))
                elif act < 0.85:
                    from datetime import datetime, timezone
                    await d.replace(f, when=datetime.now(timezone.utc) + timedelta(milliseconds=r.choice([0, 100])), key=key)(r.randint(0, 5))
                else:
                    await d.cancel(key)
                if r.random() < 0.3:
                    await asyncio.sleep(0.01)
            for j in range(r.randint(1, 2)):
                async with Worker(d, name=f"{r.choice(ODD)}-{j}", minimum_check_interval=timedelta(milliseconds=20), scheduling_resolution=timedelta(milliseconds=20)) as w:
                    await asyncio.wait_for(w.run_until_finished(), 40)


def scraper(port, stop, i, rr):
    last = {}
    while not stop.is_set():
        with lock:
            lo = Counter(done)
        try:
            status, text = get(port)
        except OSError as e:
            return violation("unreachable", f"scraper {i}: {e!r}")
        with lock:
            hi = Counter(begun)
        stats["scrapes"] += 1
        if not check(status == 200, "status", lambda: f"{status}: {text[:300]}"):
            return
        got = read(text)
        compare(got, lo, hi, False, f"scraper {i}")
        for k, v in last.items():
            if k[0].endswith("_total"):
                check(got.get(k, -1) >= v, "went-back", lambda: f"scraper {i}: {k} was {v}, is {got.get(k)}")
        last = got
        time.sleep(rr.choice([0, 0, 0.01, 0.05]))


def prober(port, stop, i, rr):
    while not stop.is_set():
        t = time.monotonic()
        try:
            status, text = get(port, rr.choice(["/", "/health", "/ready?x=1"]))
        except OSError as e:
            return violation("unhealthy", f"prober {i} after {time.monotonic() - t:.1f} s: {e!r}")
        stats["probes"] += 1
        check((status, text) == (200, "OK"), "unhealthy", lambda: f"{status} {text!r}")
        time.sleep(rr.choice([0, 0.02, 0.1]))


def free():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def dawdle():
    """Threads lose the processor at random lines of the exporter."""
    p = r.choice([0.01, 0.03, 0.1])

    def local(frame, event, arg):
        if event == "line" and random.random() < p:
            stats["delays"] += 1
            time.sleep(random.choice([0, 0.0005, 0.002]))
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.endswith("_prometheus_exporter.py"):
            return local
    threading.settrace(trace)


def main():
    mport, hport = free(), free()
    with I.metrics_server("127.0.0.1", mport), I.healthcheck_server("127.0.0.1", hport):
        stop = threading.Event()
        threads = [threading.Thread(target=scraper, args=(mport, stop, i, random.Random(f"{seed}{i}"))) for i in range(r.choice([1, 2, 4, 6]))]
        threads += [threading.Thread(target=prober, args=(hport, stop, i, random.Random(f"{seed}h{i}"))) for i in range(r.randint(1, 3))]
        idle = None
        if r.random() < 0.5:
            # somebody who connects, and says nothing
            idle = [socket.create_connection(("127.0.0.1", p)) for p in (mport, hport)]
        if r.random() < 0.5:
            sys.setswitchinterval(1e-4)
        if r.random() < 0.7:
            dawdle()
        for t in threads:
            t.start()
        try:
            asyncio.run(work())
        finally:
            stop.set()
            for t in threads:
                t.join(60)
                check(not t.is_alive(), "unhealthy", "a request is still not answered")
        for n in range(8):
            answers = []
            many = r.choice([1, 2, 4, 8])
            together = threading.Barrier(many)

            def one():
                together.wait(30)
                answers.append(get(mport))
            ts = [threading.Thread(target=one) for _ in range(many)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
            check(len(answers) == len(ts), "unreachable", "a last scrape failed")
            for status, text in answers:
                stats["scrapes"] += 1
                if check(status == 200, "status", lambda: f"{status}: {text[:300]}"):
                    compare(read(text), done, done, True, f"last scrapes ({len(ts)} at once)")
        for k in gauges:
            check(k in shown, "gauge", f"{k} was never shown")
        for s in idle or []:
            s.close()
    for port in (mport, hport):
        try:
            get(port)
            violation("still-there", "a server answers after its time")
        except OSError:
            pass


try:
    main()
    error = None
except Exception:
    import traceback
    error = traceback.format_exc()
print(json.dumps(dict(violations=violations, stats=stats, error=error, ledger=len(done) + len(records))))
