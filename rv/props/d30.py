"""D30: a task receives the arguments it was given."""
import asyncio
import collections
import dataclasses
import datetime as dt
import decimal
import enum
import fractions
import ipaddress
import pathlib
import types
import uuid

from rv.world import World, add_safely, fault_after_delivery, sec, utc


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class Flag(enum.IntFlag):
    A = 1
    B = 2


@dataclasses.dataclass
class Point:
    x: object
    y: object = None


Pair = collections.namedtuple("Pair", "left right")


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Sub(dict):
    pass


class Slotted:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class Text(str):
    pass


def canon(v, seen=None):
    """A text that tells apart all values we care to tell apart."""
    seen = {} if seen is None else seen
    t = type(v)
    name = f"{t.__module__}.{t.__name__}"
    if v is None or t in (bool, int, bytes, bytearray, complex, range, slice, decimal.Decimal, fractions.Fraction, uuid.UUID, dt.timedelta, dt.date, dt.time, Color, Flag, type(Ellipsis), type):
        return f"{name}({v!r})"
    if t is float:
        return f"float({v!r})"
    if isinstance(v, str):
        return f"{name}({str.__repr__(v)})"
    if t is dt.datetime:
        return f"datetime({v!r},{v.utcoffset()},{v.fold})"
    if id(v) in seen:
        return f"<{seen[id(v)]}>"
    seen[id(v)] = len(seen)
    if isinstance(v, tuple):
        return f"{name}({','.join(canon(x, seen) for x in v)})"
    if isinstance(v, (list, collections.deque)):
        return f"{name}[{','.join(canon(x, seen) for x in v)}]"
    if isinstance(v, dict):
        return f"{name}{{{','.join(canon(k, seen) + ':' + canon(x, seen) for k, x in v.items())}}}{vars(v) if t is Sub else ''}"
    if isinstance(v, (set, frozenset)):
        return f"{name}{{{','.join(sorted(canon(x) for x in v))}}}"
    if isinstance(v, types.FunctionType):
        return f"function({v(3)})"
    if isinstance(v, BaseException):
        return f"{name}({canon(v.args, seen)})"
    if t is Slotted:
        return f"{name}({canon(v.a, seen)})"
    if hasattr(v, "__dict__") and not isinstance(v, (pathlib.PurePath, dt.tzinfo, ipaddress.IPv4Address)):
        return f"{t.__name__}({canon(vars(v), seen)})"
    return f"{name}({v!r})"


def value(r, depth=3):
    flat = [
        lambda: None, lambda: r.random() < 0.5, lambda: r.randint(-5, 5), lambda: r.getrandbits(r.choice([8, 63, 64, 65, 300])) * r.choice([1, -1]),
        lambda: r.choice([0.0, -0.0, 1.5, float("inf"), float("-inf"), 1e-320, r.random()]), lambda: float("nan"), lambda: 1 + 2j,
        lambda: r.choice(["", "x", "é😀", "a\x00b", "\ud800", "line\nline\r\n\t", '"quoted"', "\\", "{}", "%s", "None", "1", "true", " ", "x" * 3000, Text("t")]),
        lambda: r.choice([b"", b"\x00\xff", b"text", bytes(range(256)), bytearray(b"ba"), r.randbytes(2000)]),
        lambda: r.choice([Color.RED, Color.BLUE, Flag.A | Flag.B, Ellipsis, range(2, 9, 3), slice(1, None, 2), decimal.Decimal("1.10"), fractions.Fraction(1, 3)]),
        lambda: r.choice([dt.timedelta(microseconds=1), dt.datetime(2024, 2, 29, 12), dt.datetime.fromtimestamp(r.random() * 2e9, dt.timezone.utc), dt.datetime(2026, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=5, minutes=45))), dt.date(1, 1, 1), dt.time(23, 59, 59, 999999)]),
        lambda: uuid.UUID(int=r.getrandbits(128)), lambda: pathlib.PurePosixPath("/a/../b"), lambda: ipaddress.IPv4Address("10.0.0.1"),
        lambda: ValueError("no", 3), lambda: (lambda n, k=r.randint(0, 9): n + k), lambda: r.choice([int, Point, dict]),
    ]
    if depth == 0 or r.random() < 0.35:
        return r.choice(flat)()
    n = r.choice([0, 1, 2, 4])
    sub = lambda: value(r, depth - 1)
    key = lambda: r.choice([r.randint(0, 99), f"k{r.randint(0, 99)}", (1, r.randint(0, 9)), None, b"k", 1.5, True, frozenset({1})])
    kind = r.choice(["list", "tuple", "dict", "set", "frozenset", "point", "pair", "plain", "deque", "sub", "slotted", "local", "cycle", "shared", "closure"])
    if kind == "list":
        return [sub() for _ in range(n)]
    if kind == "tuple":
        return tuple(sub() for _ in range(n))
    if kind == "dict":
        return {key(): sub() for _ in range(n)}
    if kind == "set":
        return {key() for _ in range(n)}
    if kind == "frozenset":
        return frozenset(key() for _ in range(n))
    if kind == "point":
        return Point(sub(), sub())
    if kind == "pair":
        return Pair(sub(), sub())
    if kind == "plain":
        return Plain(a=sub(), b=sub())
    if kind == "deque":
        return collections.deque([sub()])
    if kind == "sub":
        d = Sub(a=sub())
        d.extra = 3
        return d
    if kind == "slotted":
        return Slotted(sub())
    if kind == "local":
        class Local:
            def __init__(self, v):
                self.v = v
        return Local(sub())
    if kind == "cycle":
        x = [sub()]
        x.append(x)
        return x
    if kind == "shared":
        x = [sub()]
        return {"a": x, "b": x}
    base = r.randint(0, 99)
    return lambda n: n * base


def mutate(v, depth=0):
    """Change whatever can be changed in place."""
    if depth > 4:
        return
    if isinstance(v, list):
        for x in v[:3]:
            if x is not v:
                mutate(x, depth + 1)
        v.append("mutated")
    elif isinstance(v, dict):
        for x in list(v.values())[:3]:
            mutate(x, depth + 1)
        v["mutated"] = True
    elif isinstance(v, (set,)):
        v.add("mutated")
    elif isinstance(v, bytearray):
        v.extend(b"mutated")
    elif isinstance(v, collections.deque):
        v.append("mutated")
    elif isinstance(v, tuple):
        for x in v:
            mutate(x, depth + 1)
    elif isinstance(v, Plain):
        v.mutated = True
    elif isinstance(v, (Point,)):
        mutate(v.x, depth + 1)
        v.y = "mutated"
    elif isinstance(v, Slotted):
        v.a = "mutated"


KEYS = ["a b", "line\nbreak", '"q"', "{x}", "*", "[a-z]", "nul\x00x", "é😀", "a:b:c", "y" * 4000, "%s%d", "\\", "'", ";", "\t", "1", "-1", "None", "true", "../x", "a,b", "?", "$", "\x7f\x01", "Ω" * 300]
NAMES = ["a", "key", "when", "function", "self", "args", "kwargs", "attempt", "message", "docket", "execution", "generation", "ünïcode", "class", "name"]


def arguments(c):
    r = c.rng
    crash = r.random() < 0.25
    sim = c.sim(lat_max=r.choice([0.001, 0.005]))

    async def main(sim):
        from docket import Agenda, ConcurrencyLimit, Perpetual, RateLimit, Retry, Timeout
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(2), minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05), concurrency=r.choice([1, 5, 20])))
        meddle = r.random() < 0.7

        async def body(tag, args, kw, n=1):
            async with w.running(tag, got=canon([args, kw]), n=n):
                await asyncio.sleep(r.choice([0, 0, 0.05]))
                if meddle:
                    mutate(args)
                    mutate(kw)

        async def plain(tag, /, *args, **kwargs):
            await body(tag, args, kwargs)

        async def timed(tag, /, *args, timeout: Timeout = Timeout(sec(50)), **kwargs):
            await body(tag, args, kwargs)

        async def retried(tag, /, *args, retry: Retry = Retry(attempts=3, delay=sec(0.1)), **kwargs):
            await body(tag, args, kwargs, retry.attempt)
            if retry.attempt < 3:
                raise ValueError("again")

        async def at_once(tag, /, *args, retry: Retry = Retry(attempts=3), **kwargs):
            await body(tag, args, kwargs, retry.attempt)
            if retry.attempt < 3:
                raise ValueError("again")

        async def limited(tag, /, *args, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1), **kwargs):
            await body(tag, args, kwargs)

        async def limited_retry(tag, /, *args, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1), retry: Retry = Retry(attempts=2), **kwargs):
            await body(tag, args, kwargs, retry.attempt)
            if retry.attempt < 2:
                raise ValueError("again")

        async def rated(tag, /, *args, rate: RateLimit = RateLimit(2, per=sec(0.5)), **kwargs):
            await body(tag, args, kwargs)

        repeats = {}

        async def repeated(tag, /, *args, again: Perpetual = Perpetual(every=sec(0.1)), **kwargs):
            repeats[tag] = repeats.get(tag, 0) + 1
            async with w.running(tag, got=canon([args, kwargs]), n=1):
                if repeats[tag] >= 3:
                    again.cancel()

        async def changed(tag, /, *args, again: Perpetual = Perpetual(every=sec(0.1)), **kwargs):
            repeats[tag] = repeats.get(tag, 0) + 1
            async with w.running(tag, got=canon([args, kwargs]), n=1):
                if repeats[tag] >= 2:
                    again.cancel()
                else:
                    given, gkw = next_args[tag]
                    again.perpetuate(tag, *given, **gkw)
        next_args = {}

        async def default(tag, a=("default", [1]), *, b={"d": 1}):
            await body(tag, (a,), dict(b=b))
        fns = dict(plain=plain, timed=timed, retried=retried, at_once=at_once, limited=limited, limited_retry=limited_retry, rated=rated, repeated=repeated, changed=changed)
        w.tasks += list(fns.values())

        def setup(proc, gen):
            if crash and gen == 0:
                fault_after_delivery(sim, proc, r.randint(1, 12), r.choice(["crash-before", "crash-after"]), nth=r.randint(1, 3))
        for i in range(r.choice([1, 1, 2, 3])):
            await w.start_worker(f"w{i}", restart=0.2, setup=setup, wait=False)
        expect = {}
        n = r.choice([4, 10, 25])
        keys = r.sample(KEYS, min(n, 12)) + [None] * n
        async with w.client() as d:
            for j in range(n):
                tag = f"t{j}"
                name = r.choice(sorted(fns))
                if crash and name in ("repeated", "changed"):
                    name = "plain"
                args = tuple(value(r) for _ in range(r.choice([0, 1, 1, 3])))
                kw = {k: value(r) for k in r.sample(NAMES, r.choice([0, 0, 1, 3]))}
                if name == "changed":
                    next_args[tag] = (tuple(value(r) for _ in range(2)), {k: value(r) for k in r.sample([x for x in NAMES if x != "self"], 2)})
                want = canon([args, kw])
                key = keys[j]
                how = r.choice(["add", "add", "later", "name", "replace", "replaced", "agenda", "past"])
                f = fns[name]
                when = utc(sim.wallclock() + r.choice([0.05, 0.5, 2]))
                if how == "add":
                    e = await d.add(f, key=key)(tag, *args, **kw)
                elif how == "past":
                    e = await d.add(f, key=key, when=utc(sim.wallclock() - 3))(tag, *args, **kw)
                elif how == "later":
                    e = await d.add(f, when=when, key=key)(tag, *args, **kw)
                elif how == "name":
                    e = await d.add(name, when=r.choice([None, when]), key=key)(tag, *args, **kw)
                elif how == "replace":
                    e = await d.replace(r.choice([f, name]), when, key or f"r{j}")(tag, *args, **kw)
                elif how == "replaced":
                    await d.add(plain, when=utc(sim.wallclock() + 500), key=key or f"r{j}")("not me", *[value(r)], **{"a": 1, "other": value(r)})
                    e = await d.replace(f, when, key or f"r{j}")(tag, *args, **kw)
                else:
                    a = Agenda()
                    a.add(r.choice([f, name]), key=key)(tag, *args, **kw)
                    e = (await a.scatter(d, over=sec(1)))[0]
                c.check(canon([e.args[1:], e.kwargs]) == want, "handle", lambda: f"{tag}: the handle says {canon([e.args[1:], e.kwargs])[:300]}, given {want[:300]}")
                if meddle and r.random() < 0.6:
                    mutate(args)
                    mutate(kw)
                expect[tag] = (name, how, key, want)
                if r.random() < 0.3:
                    await asyncio.sleep(0.3)
            t = sim.now()
            await w.until(lambda: len({x.tag for x in w.events("end")}) == n, 40)
            await w.drained(d, 60)
        for tag, (name, how, key, want) in expect.items():
            xs = w.starts(tag)
            c.check(bool(xs), "never", lambda: f"{tag} ({name}, {how}, key {key!r}) did not run: {w.unexpected_worker_exits()[:1]}")
            for i, x in enumerate(xs):
                w2 = want
                if name == "changed" and i:
                    given = next_args[tag]
                    w2 = canon([given[0], given[1]])
                c.check(x.got == w2, "differs", lambda: f"{tag} ({name}, {how}, key {key!r}) run {i + 1}, attempt {x.n} got {x.got[:500]}, given {w2[:500]}")
                c.count("compared")
                c.count(f"attempt{x.n}")
            need = dict(retried=3, at_once=3, limited_retry=2, repeated=3, changed=2).get(name, 1)
            c.check(len(xs) >= need, "runs", lambda: f"{tag} ({name}, {how}, key {key!r}) ran {len(xs)} times, not {need}")
        c.check(not w.starts("not me"), "not-me", "a replaced task ran")
        c.check(not w.unexpected_worker_exits(), "worker-died", lambda: str(w.unexpected_worker_exits()[0].how)[-600:])
        c.nontrivial = c.stats["compared"] > 2
        c.sample = f"{n} tasks, {c.stats['compared']} runs compared, {len(w.events('crash'))} crashes" + (", meddling" if meddle else "")
    c.run(sim, main)


def aliases(c):
    """Different functions of one name, registered under names of their own."""
    r = c.rng
    sim = c.sim(lat_max=0.003)

    async def main(sim):
        from docket import ConcurrencyLimit, Perpetual, RateLimit, Retry
        w = World(c, sim, worker_kw=dict(minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05)))
        count = {}

        def make(name, kind):
            if kind == "plain":
                async def handler(tag, a):
                    async with w.running(tag, name=name, a=a):
                        pass
            elif kind == "retry":
                async def handler(tag, a, retry: Retry = Retry(attempts=3, delay=sec(r.choice([0, 0.1])))):
                    async with w.running(tag, name=name, a=a):
                        if retry.attempt < 3:
                            raise ValueError
            elif kind == "perpetual":
                async def handler(tag, a, again: Perpetual = Perpetual(every=sec(0.2))):
                    async with w.running(tag, name=name, a=a):
                        count[tag] = count.get(tag, 0) + 1
                        if count[tag] >= 3:
                            again.cancel()
            elif kind == "limited":
                async def handler(tag, a, limit: ConcurrencyLimit = ConcurrencyLimit(max_concurrent=1)):
                    async with w.running(tag, name=name, a=a):
                        await asyncio.sleep(0.05)
            else:
                async def handler(tag, a, limit: RateLimit = RateLimit(1, per=sec(0.3))):
                    async with w.running(tag, name=name, a=a):
                        pass
            return handler
        fns = {}
        for i in range(r.randint(2, 5)):
            kind = r.choice(["plain", "retry", "perpetual", "limited", "rated"])
            fns[f"{kind}-{i}"] = make(f"{kind}-{i}", kind)

        def register(d):
            for n, f in fns.items():
                d.register(f, names=[n])

        async def body(worker):
            register(worker.docket)
            await worker.run_forever()
        for i in range(r.choice([1, 2])):
            await w.start_worker(f"w{i}", restart=0.3, body=body)
        expect = {}
        async with w.client() as d:
            register(d)
            for j in range(r.randint(2, 10)):
                name = r.choice(sorted(fns))
                tag, a, key = f"t{j}", [j], f"k{j}"
                how = r.choice(["add", "later", "replace", "again"])
                if how == "add":
                    await d.add(name, key=key)(tag, a)
                elif how == "later":
                    await d.add(name, key=key, when=utc(sim.wallclock() + 0.4))(tag, a=a)
                else:
                    if how == "again":
                        await d.add(r.choice(sorted(fns)), key=key, when=utc(sim.wallclock() + 9))(tag, "not me")
                    await d.replace(name, utc(sim.wallclock() + 0.4), key)(tag, a)
                expect[tag] = (name, a)
            await asyncio.sleep(1)
            await w.drained(d, 20)
            await asyncio.sleep(1)
        for tag, (name, a) in expect.items():
            xs = w.starts(tag)
            need = 3 if name.startswith(("retry", "perpetual")) else 1
            c.count("compared", len(xs))
            c.check(len(xs) == need and all((x.name, x.a) == (name, a) for x in xs), "alias", lambda: f"{tag} is {name}({a}), ran as {[(x.name, x.a) for x in xs]}")
        c.nontrivial = c.stats["compared"] > 2
    c.run(sim, main)


RESERVED = ["queue", "stream", "workers", "strikes", "results", "perpetual:lock", "runs:x", "known:x", "stream-id:x", "progress:x", "worker-tasks:w0", "task-workers:plain", "cancel:x", "state:x", "known:x:lock", "concurrency:x"]


def reserved(c, text, how):
    """Keys that look like names the docket uses itself."""
    sim = c.sim()

    async def main(sim):
        w = World(c, sim)

        async def plain(tag, a):
            async with w.running(tag, got=a):
                pass
        w.tasks.append(plain)
        sig = f"reserved:{how}:{text}"
        async with w.client() as d:
            await w.start_worker("w0", restart=0.2)
            await d.strike("nothing")
            await asyncio.sleep(0.5)
            await d.add(plain, key="x", when=utc(sim.wallclock() + 2))("x", 1)
            await d.add(plain, key="y", when=utc(sim.wallclock() - 2))("y", 1)
            await asyncio.sleep(0.3)
            when = utc(sim.wallclock() + 1)
            try:
                if how == "now":
                    await d.add(plain, key=text)(text, 2)
                elif how == "later":
                    await d.add(plain, key=text, when=when)(text, 2)
                elif how == "replace":
                    await d.replace(plain, when, text)(text, 2)
                elif how == "clear":
                    await d.add(plain, key=text, when=when)(text, 2)
                    c.check(await d.clear() in (2, 3), sig, "cleared a different number of tasks")
                    await asyncio.sleep(0.5)
                    await d.add(plain, key=text, when=when)(text, 2)
                    await d.add(plain, key="x")("x", 1)
                else:
                    await d.cancel(text)
            except Exception as e:
                c.violation(sig, f"{how} with the key {text!r}: {e!r}")
            await asyncio.sleep(6)
            await d.add(plain, key="after", when=utc(sim.wallclock() + 0.1))("after", 3)
            await asyncio.sleep(3)
        for tag, n in [("x", 1), ("y", 1), *([(text, 2)] if how != "cancel" else []), ("after", 3)]:
            xs = w.starts(tag)
            if not (len(xs) == 1 and xs[0].got == n) and not c.violations:
                c.violation(sig, f"{how} with the key {text!r}: task {tag!r} ran {len(xs)} times {[x.got for x in xs]}")
        c.nontrivial = True
        c.count("reserved")
    c.run(sim, main)


def _reserved(text, how):
    f = lambda c: reserved(c, text, how)
    f.__name__ = "reserved"
    return f


DIRECTED = [_reserved(t, h) for t in RESERVED for h in ("now", "later", "replace", "cancel", "clear")]
GENERATORS = [(arguments, 6), (aliases, 1)]
