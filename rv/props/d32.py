"""D32: tasks a worker doesn't know, or can't call, are dealt with on their own."""
import asyncio
import random
import threading
import typing
from datetime import timedelta
from typing import Annotated, Any

from rv.world import World, sec


class Unreadable:
    """Pickles anywhere; comes back nowhere but where it was made."""

    def __init__(self, where="loads"):
        self.where = where

    def __reduce__(self):
        return _explode, (self.where,)


def _explode(where):
    raise {"loads": ImportError, "attr": AttributeError, "value": ValueError, "key": KeyError}[where](where)


class BadRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


class BadLen:
    def __len__(self):
        raise RuntimeError("no length")


class NoHash:
    __hash__ = None

    def __init__(self, n=1):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, NoHash) and self.n == o.n


class Ambiguous:
    """Compares like an array: elementwise, without a truth value."""

    def __eq__(self, o):
        return Truthless()

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = object.__hash__


class Truthless:
    def __bool__(self):
        raise ArithmeticError("ambiguous")


class Falsy(Exception):
    def __len__(self):
        return 0


class NoStr(Exception):
    def __str__(self):
        raise RuntimeError("no str")


class NoPickle(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        self.lock = threading.Lock()


def signatures(w, sim, note):
    """Tasks with every shape of signature, all well-formed; each with a call
    and what the body should see."""
    from docket import CurrentExecution, Depends, Logged, Progress, TaskKey

    async def bare_list(tag: str, x: typing.List, y: typing.Callable = None, z: typing.Type = int) -> None:
        await note(tag, x, y, z)

    async def empty_tuple(tag: str, x: "tuple[()]" = ()) -> None:
        await note(tag, x)

    async def mutable_default(tag: str, x: list = [], y: dict = {}) -> None:
        await note(tag, x, y)

    async def unhashable_object(tag: str, x: NoHash = NoHash(3)) -> None:
        await note(tag, x)

    async def unhashable_annotation(tag: str, x: Annotated[int, {"a": []}] = 3) -> None:
        await note(tag, x)

    async def rest(tag: str, *more: Any, loud: Annotated[Any, Logged] = None, **others: Any) -> None:
        await note(tag, more, loud, others)

    async def positional(tag: str, x: Any = 1, /, y: Any = 2, *, z: Any = 3) -> None:
        await note(tag, x, y, z)

    async def unlogged(tag: str, x: Annotated[Any, Logged], y: Annotated[Any, Logged(length_only=True)] = None) -> None:
        await note(tag, type(x).__name__, type(y).__name__)

    async def unannotated(tag, x, y=BadRepr):
        await note(tag, x)

    async def undefined(tag: "str", x: "NoSuchThing" = 1, y: "typing.Nope" = 2) -> None:  # noqa: F821
        await note(tag, x, y)

    async def with_dependencies(tag: str, key: str = TaskKey(), x: list = [], progress: Progress = Progress(), e=CurrentExecution()) -> None:
        await note(tag, key, x)

    async def compared(tag: str, x: Any) -> None:
        await note(tag, type(x).__name__)

    n = NoHash(7)
    return [
        (bare_list, ([1, 2],), {}, ([1, 2], None, int)),
        (empty_tuple, (), {}, ((),)),
        (mutable_default, (), {}, ([], {})),
        (mutable_default, ([1],), {"y": {"a": 1}}, ([1], {"a": 1})),
        (unhashable_object, (), {}, (NoHash(3),)),
        (unhashable_object, (n,), {}, (NoHash(7),)),
        (unhashable_annotation, (4,), {}, (4,)),
        (rest, (1, "a", None, []), {"loud": 5, "other": 6}, ((1, "a", None, []), 5, {"other": 6})),
        (rest, (), {}, ((), None, {})),
        (positional, (5,), {"z": 8}, (5, 2, 8)),
        (positional, (5, 6), {}, (5, 6, 3)),
        (unlogged, (BadRepr(), BadLen()), {}, ("BadRepr", "BadLen")),
        (unlogged, (3, 4), {}, ("int", "int")),
        (unannotated, ({},), {}, ({},)),
        (undefined, (2,), {}, (2, 2)),
        (compared, (Ambiguous(),), {}, ("Ambiguous",)),
        (with_dependencies, (), {}, "key"),
    ]


ILL = [((), {}), ((1, 2, 3, 4, 5), {}), ((), {"nope": 1}), ((1,), {"tag": "twice"}), ((1,), {"b": 2, "c": 3}), ((1, 2), {"b": 3}), ((), {"b": 1})]

OUTCOMES = ["return", "return", "raise", "falsy", "nostr", "nopickle", "surrogate", "unpicklable-result", "group", "nested", "stop"]


def trouble(kind, tag):
    if kind == "raise":
        raise ValueError(tag)
    if kind == "falsy":
        raise Falsy(tag)
    if kind == "nostr":
        raise NoStr(tag)
    if kind == "nopickle":
        raise NoPickle(tag)
    if kind == "surrogate":
        raise ValueError("caf\udce9 " + tag)
    if kind == "group":
        raise ExceptionGroup("several", [ValueError(tag), KeyError(tag)])
    if kind == "nested":
        try:
            raise NoStr(tag)
        except NoStr as e:
            raise ValueError(tag) from e
    if kind == "stop":
        raise StopAsyncIteration(tag)
    return threading.Lock() if kind == "unpicklable-result" else tag


def strangers(c):
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.002, 0.01]), spike_p=r.choice([0, 0.02]))

    async def main(sim):
        from docket import (CurrentDocket, CurrentExecution, CurrentWorker, Depends, ExponentialRetry, Perpetual,
                            Retry, TaskKey, Timeout)
        w = World(c, sim, worker_kw=dict(concurrency=r.choice([2, 5, 10])))
        seen = {}
        plan = {}

        async def note(tag, *what):
            seen.setdefault(tag, []).append(what)
            async with w.running(tag):
                await asyncio.sleep(r.choice([0, 0.01]))

        async def plain(tag: str):
            async with w.running(tag):
                await asyncio.sleep(plan[tag].get("dur", 0))
                return trouble(plan[tag]["how"], tag)

        async def picky(tag: str, b: int = 1):
            async with w.running(tag):
                pass

        async def retried(tag: str, retry: Retry = Retry(attempts=2, delay=sec(0.05))):
            async with w.running(tag, attempt=retry.attempt):
                if plan[tag]["how"] == "endless-delay":
                    retry.after(timedelta.max)
                return trouble(plan[tag]["how"], tag)

        async def repeated(tag: str, perpetual: Perpetual = Perpetual(every=sec(0.2))):
            async with w.running(tag):
                how = plan[tag]["how"]
                if how == "unpicklable-arguments":
                    perpetual.perpetuate(threading.Lock())
                elif how == "far-future":
                    perpetual.every = timedelta.max
                else:
                    perpetual.cancel()
                return trouble(how, tag)

        shapes = signatures(w, sim, note)
        known = {plain, picky, retried, repeated} | {f for f, *_ in shapes}
        # Tasks the clients know, and only some of the workers
        foreign = []
        for i in range(3):
            async def stranger(tag: str = "?", x: Any = None, y: Any = None, **kw: Any):
                async with w.running(tag, by="itself"):
                    return ["itself", tag]
            stranger.__name__ = f"stranger{i}"
            foreign.append(stranger)

        async def resource():
            return "resource"

        def fallback_of(name, kind):
            if kind is None:
                return None
            calls = {}

            async def fallback(*args, e=CurrentExecution(), key=TaskKey(), d=CurrentDocket(), worker=CurrentWorker(), res=Depends(resource), **kwargs):
                tag = key
                sim.log("fallback", tag=tag, name=e.function_name, args=args, kwargs=kwargs, key=e.key, worker=worker.name, attempt=e.attempt, res=res, docket=d.name)
                async with w.running(tag, by="fallback", attempt=e.attempt):
                    await asyncio.sleep(plan[tag].get("dur", 0))
                    return trouble(plan[tag]["how"], tag)

            async def fallback_retried(*args, e=CurrentExecution(), key=TaskKey(), d=CurrentDocket(), worker=CurrentWorker(), res=Depends(resource), retry: Retry = Retry(attempts=3, delay=sec(0.05)), **kwargs):
                sim.log("fallback", tag=key, name=e.function_name, args=args, kwargs=kwargs, key=e.key, worker=worker.name, attempt=e.attempt, res=res, docket=d.name)
                async with w.running(key, by="fallback", attempt=e.attempt):
                    if e.attempt < 3:
                        raise ValueError("again")
                    return trouble(plan[key]["how"], key)
            return fallback if kind == "plain" else fallback_retried

        crash = r.random() < 0.25
        kinds = {}
        knows = {}
        for i in range(r.randint(1, 3)):
            name = f"w{i}"
            knows[name] = {f for f in foreign if r.random() < 0.3}
            kinds[name] = r.choice([None, "plain", "plain", "retry"])
            if i == 0:
                knows[name] = set(foreign[:0])
            tasks = [*known, *knows[name]]
            await w.start_worker(name, tasks=sorted(tasks, key=lambda f: f.__name__), fallback_task=fallback_of(name, kinds[name]), same_name=True)
        everyone = [*sorted(known, key=lambda f: f.__name__), *foreign]
        execs, kind_of = {}, {}
        async with w.client(tasks=everyone) as d:
            if r.random() < 0.4:
                # a condition that nothing here meets, or can be compared with
                await d.strike(None, "x", r.choice(["==", "<", "between"]), -12345)
                await asyncio.sleep(1.0)
            n = r.randint(15, 40)
            if crash:
                async def killer():
                    for _ in range(2):
                        await asyncio.sleep(r.uniform(0.1, 2.0))
                        w.kill_worker(r.choice(list(w.workers)))
                asyncio.ensure_future(killer())
            for j in range(n):
                tag = f"k{j}"
                how = r.choice(OUTCOMES)
                dur = r.choice([0, 0, 0.05, 0.5])
                when = sim.wallclock() + r.choice([0.3, 1.0]) if r.random() < 0.3 else None
                kw = dict(key=tag)
                if when is not None:
                    from rv.world import utc
                    kw["when"] = utc(when)
                kind = r.choice(["plain", "plain", "shape", "shape", "stranger", "stranger", "stranger", "ill", "unreadable", "retried", "repeated"])
                plan[tag] = p = dict(kind=kind, how=how, dur=dur)
                if kind == "plain":
                    execs[tag] = await d.add(plain, **kw)(tag)
                elif kind == "shape":
                    f, a, k, want = r.choice(shapes)
                    p.update(f=f.__name__, want=want if want != "key" else (tag, []))
                    execs[tag] = await d.add(f, **kw)(tag, *a, **k)
                elif kind == "stranger":
                    f = r.choice(foreign)
                    a = r.choice([(), (tag,), (tag, [1, 2]), (tag, {"a": None}, "b")])
                    k = r.choice([{}, {"z": 1}, {"z": [tag], "execution": "mine"}, {"args": 3, "name": 4}])
                    if not a:
                        k = {**k, "tag": tag}
                    p.update(f=f.__name__, a=a, k=k)
                    execs[tag] = await d.add(r.choice([f, f.__name__]), **kw)(*a, **k)
                elif kind == "ill":
                    a, k = r.choice(ILL)
                    p.update(a=a, k=k)
                    f = picky
                    if r.random() < 0.3:
                        f, a, k = retried, (), {}  # fails on every attempt
                    execs[tag] = await d.add(f, **kw)(*a, **k)
                elif kind == "unreadable":
                    f = r.choice([plain, picky, retried, repeated, foreign[0]])
                    p["f"] = f.__name__
                    where = r.choice(["loads", "attr", "value", "key"])
                    execs[tag] = await (d.add(f, **kw)(Unreadable(where)) if r.random() < 0.5 else d.add(f, **kw)(tag, b=[Unreadable(where)]))
                elif kind == "retried":
                    if r.random() < 0.2:
                        p["how"] = "endless-delay"
                    execs[tag] = await d.add(retried, **kw)(tag)
                else:
                    p["how"] = r.choice(["unpicklable-arguments", "far-future", *OUTCOMES])
                    execs[tag] = await d.add(repeated, **kw)(tag)
                await asyncio.sleep(r.choice([0, 0, 0.05]))
            finished = {}

            async def states():
                for tag, e in execs.items():
                    if tag in finished:
                        continue
                    await e.sync()
                    if e.state.value in ("completed", "failed", "cancelled"):
                        finished[tag] = e
                return len(finished) == len(execs)
            end = sim.now() + (60 if crash else 30)
            while sim.now() < end and not await states():
                await asyncio.sleep(0.5)
            c.check(not w.unexpected_worker_exits(), "worker-exit", lambda: f"a worker stopped: {[e.how[-400:] for e in w.unexpected_worker_exits()]}; plans {plan}")
            for tag, e in execs.items():
                p = plan[tag]
                st = w.starts(tag)
                info = lambda: f"{tag}: {p}, state {e.state}, error {e.error!r}, runs {[(s.proc, s.get('by'), s.get('attempt')) for s in st]}, workers {kinds} knowing {({n: [f.__name__ for f in s] for n, s in knows.items()})}"
                if not c.check(tag in finished, "not-finished", info):
                    continue
                c.count("finished")
                kind, how = p["kind"], p["how"]
                once = 1 if not crash else None
                bad = how not in ("return",)
                state = e.state.value
                if kind in ("plain", "shape"):
                    c.check(len(st) == 1 if once else len(st) >= 1, "runs", info)
                if kind == "plain":
                    c.check(state == ("failed" if bad else "completed"), "state", info)
                elif kind == "shape":
                    c.check(state == "completed", "state", info)
                    c.check(all(x == p["want"] for x in seen.get(tag, [])) and seen.get(tag), "arguments", lambda: info() + f" saw {seen.get(tag)}")
                elif kind == "ill":
                    c.count("ill_formed")
                    c.check(state == "failed" and not st and e.error and "TypeError" in e.error, "ill-formed", info)
                elif kind == "unreadable":
                    c.count("unreadable")
                    c.check(state == "failed" and not st and bool(e.error), "unreadable", info)
                elif kind == "retried":
                    if how == "endless-delay":
                        c.check(state == "failed" and (len(st) == 1 or crash), "retried", info)
                    elif how != "return":
                        c.check(state == "failed" and ([s.attempt for s in st] == [1, 2] or crash), "retried", info)
                    else:
                        c.check(state == "completed" and (len(st) == 1 or crash), "retried", info)
                elif kind == "repeated":
                    c.check(state == ("failed" if bad else "completed") and (len(st) == 1 or crash), "repeated", info)
                elif kind == "stranger":
                    by_fb = w.events("fallback", tag=tag)
                    c.count("unknown")
                    for x in by_fb:
                        c.check((x.name, x.args, x.kwargs, x.key, x.res, x.docket) == (p["f"], p["a"], p["k"], tag, "resource", "dk"), "fallback-call", lambda: info() + f" fallback got {dict(x)}")
                    for s in st:
                        wn = s.proc.split(".")[0]
                        itself = p["f"] in {f.__name__ for f in knows[wn]}
                        c.check((s.by == "itself") == itself, "who", info)
                    if crash:
                        continue
                    if not st:
                        # the default fallback drops it
                        c.check(None in kinds.values() and state == "completed", "dropped", info)
                        continue
                    if st[0].by == "itself":
                        c.check(len(st) == 1 and state == "completed", "state", info)
                    else:
                        if all(k == "plain" for k in kinds.values()) and not any(knows.values()):
                            c.check([s.attempt for s in st] == [1], "fallback-runs", info)
                        if all(k == "retry" for k in kinds.values()) and not any(knows.values()):
                            c.check([s.attempt for s in st] == ([1, 2, 3]), "fallback-runs", info)
                        # a retry may end up with a worker that knows it, or drops it
                        last = st[-1]
                        if last.by == "fallback" and (kinds[last.proc.split(".")[0]] == "plain" or last.attempt == 3):
                            c.check(state == ("failed" if bad else "completed"), "state", info)
            # the workers go on with what they know
            probes = {}
            for i in range(4):
                plan[f"p{i}"] = dict(kind="plain", how="return", dur=0)
                probes[f"p{i}"] = await d.add(plain, key=f"p{i}")(f"p{i}")
            c.check(await w.until(lambda: all(w.ends(t, "ok") for t in probes), 10 if crash else 3), "probe", lambda: f"workers no longer run what they know: {[t for t in probes if not w.ends(t, 'ok')]}, plans {plan}")
            await asyncio.sleep(6)
            for tag in execs:
                if plan[tag]["kind"] != "retried" and not crash and plan[tag]["kind"] != "stranger":
                    c.check(len(w.starts(tag)) <= 1, "repeats", lambda: f"{tag}: {plan[tag]} ran {len(w.starts(tag))} times")
            left = {k for k in w.raw_keys() if ":known:" in k or ":parked:" in k or k.endswith(":queue")}
            ms = sim.server.call("xlen", ("dk:stream",)) if "dk:stream" in w.raw_keys() else 0
            c.check(ms == 0, "leftover", lambda: f"{ms} messages left, {left}")
        c.nontrivial = len({p["kind"] for p in plan.values()}) >= 4
        c.sample = f"{n} tasks on {len(kinds)} workers, fallbacks {kinds}, kinds {sorted({p['kind'] for p in plan.values()})}"

    c.run(sim, main)


GENERATORS = [(strangers, 1)]
