"""D28: dependencies are set up and torn down around each run."""
import asyncio
import inspect
from contextlib import asynccontextmanager, contextmanager
from typing import Annotated

from rv.world import World, sec, utc


class Boom(Exception):
    pass


def signature(fn, params, annotations={}):
    fn.__signature__ = inspect.Signature([inspect.Parameter(n, k, default=d, annotation=annotations.get(n, inspect.Parameter.empty)) for n, k, d in params])
    fn.__annotations__ = dict(annotations)
    return fn


P, K, E = inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY, inspect.Parameter.empty


def graphs(c):
    r = c.rng
    sim = c.sim(lat_max=r.choice([0.001, 0.004]))

    async def main(sim):
        from docket import ConcurrencyLimit, CurrentDocket, CurrentExecution, CurrentWorker, Depends, Retry, Shared, TaskArgument, TaskKey, Timeout
        from docket.dependencies import Dependency
        w = World(c, sim, worker_kw=dict(minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05), concurrency=r.choice([2, 8])))
        scopes = {}          # id(execution) -> (number, execution)
        rec = {}             # scope -> list of (what, node, detail)
        shared = {}          # worker -> list of (what, node, detail)
        serial = [0]

        def scope(execution):
            if id(execution) not in scopes:
                scopes[id(execution)] = (len(scopes), execution)
                rec[len(scopes) - 1] = []
            return scopes[id(execution)][0]

        def inject(what, kw):
            """Judge the injected values, return the scope."""
            e = kw["execution_"]
            s = scope(e)
            tag = e.kwargs.get("tag") if "tag" in e.kwargs else e.args[0]
            c.check(kw["tag"] == tag and kw["key_"] == e.key == f"key-{tag}", "injected", lambda: f"{what} of {e.key} (tag {tag}) got tag {kw['tag']}, key {kw['key_']}")
            from rv.sim import current_proc
            c.check(kw["worker_"].name == current_proc.get().name and kw["docket_"] is kw["worker_"].docket, "injected-worker", lambda: f"{what} of {e.key} on {current_proc.get().name} got worker {kw['worker_'].name}")
            c.count("injections")
            return s, e

        def context():
            return [("execution_", K, CurrentExecution()), ("key_", K, TaskKey()), ("worker_", K, CurrentWorker()), ("docket_", K, CurrentDocket())]

        nodes = []

        def make_node(i):
            name = f"n{i}"
            kind = r.choice(["fn", "async", "cm", "acm", "acm"])
            children = r.sample(range(i), r.randint(0, min(i, 3))) if i else []
            slow = r.choice([0, 0, 0.01, 0.05])
            params = [("tag", K, TaskArgument("tag", optional=True)), ("fail", K, TaskArgument("fail", optional=True)), *context(), *((f"n{j}", K, Depends(nodes[j])) for j in children)]
            if shareds and r.random() < 0.4:
                params.append(("s", K, Shared(r.choice(shareds))))

            def begin(kw):
                s, e = inject(name, kw)
                serial[0] += 1
                token = (name, s, serial[0])
                rec[s].append(("setup", name, {k: v for k, v in kw.items() if k[0] == "n"}))
                if kw.get("s"):
                    c.check(kw["s"][1] == kw["worker_"].name, "shared-other", str(kw["s"]))
                return s, token

            def ready(s, token, kw):
                if kw["fail"] == name:
                    rec[s].append(("failed", name, None))
                    raise Boom(f"{name} for {kw['tag']}")
                rec[s].append(("ready", name, token))

            if kind == "fn":
                def f(**kw):
                    s, token = begin(kw)
                    ready(s, token, kw)
                    return token
            elif kind == "async":
                async def f(**kw):
                    s, token = begin(kw)
                    await asyncio.sleep(slow)
                    ready(s, token, kw)
                    return token
            elif kind == "cm":
                def f(**kw):
                    s, token = begin(kw)
                    ready(s, token, kw)
                    try:
                        yield token
                    finally:
                        rec[s].append(("down", name, None))
            else:
                async def f(**kw):
                    s, token = begin(kw)
                    await asyncio.sleep(slow)
                    ready(s, token, kw)
                    try:
                        yield token
                    finally:
                        rec[s].append(("down", name, None))
                        await asyncio.sleep(slow)
            f.__name__ = name
            signature(f, params)
            f = contextmanager(f) if kind == "cm" else asynccontextmanager(f) if kind == "acm" else f
            kinds[name] = kind
            return f

        kinds = {}
        shareds = []
        fail_shared = r.choice([0, 0, 1, 2])

        def make_shared(i):
            name = f"s{i}"
            kind = r.choice(["fn", "async", "cm", "acm"])
            slow = r.choice([0, 0.02, 0.2])
            params = [("worker_", K, CurrentWorker())]
            if i and r.random() < 0.6:
                params.append(("s", K, Shared(shareds[i - 1])))

            def begin(kw):
                lg = shared.setdefault(kw["worker_"].name, [])
                lg.append(("setup", name, kw.get("s")))
                if i == 0 and sum(1 for x in lg if x[:2] == ("setup", name)) <= fail_shared:
                    lg.append(("failed", name, None))
                    raise Boom(name)
                serial[0] += 1
                return lg, (name, kw["worker_"].name, serial[0])
            if kind == "fn":
                def f(**kw):
                    lg, token = begin(kw)
                    lg.append(("ready", name, token))
                    return token
            elif kind == "async":
                async def f(**kw):
                    await asyncio.sleep(slow)
                    lg, token = begin(kw)
                    lg.append(("ready", name, token))
                    return token
            elif kind == "cm":
                def f(**kw):
                    lg, token = begin(kw)
                    lg.append(("ready", name, token))
                    yield token
                    lg.append(("down", name, sim.now()))
            else:
                async def f(**kw):
                    lg, token = begin(kw)
                    await asyncio.sleep(slow)
                    lg.append(("ready", name, token))
                    yield token
                    await asyncio.sleep(slow)
                    lg.append(("down", name, sim.now()))
            f.__name__ = name
            signature(f, params)
            kinds[name] = kind
            return contextmanager(f) if kind == "cm" else asynccontextmanager(f) if kind == "acm" else f
        for i in range(r.choice([0, 0, 1, 2])):
            shareds.append(make_shared(i))
        for i in range(r.randint(1, 7)):
            nodes.append(make_node(i))

        class Custom(Dependency):
            async def __aenter__(self):
                from docket.dependencies import current_execution
                s = scope(current_execution.get())
                rec[s].append(("setup", "custom", {}))
                rec[s].append(("ready", "custom", ("custom", s, 0)))
                return ("custom", s, 0)

            async def __aexit__(self, *exc):
                from docket.dependencies import current_execution
                rec[scope(current_execution.get())].append(("down", "custom", None))
        kinds["custom"] = "acm"

        class Guard(Dependency):
            """Declared on a parameter; bound to its value in each execution."""
            def __init__(self, label, bound=None):
                self.label, self.bound = label, bound

            def bind_to_parameter(self, name, value):
                return Guard(self.label, (name, value))

            async def __aenter__(self):
                from docket.dependencies import current_execution
                e = current_execution.get()
                s = scope(e)
                tag = e.kwargs.get("tag") if "tag" in e.kwargs else e.args[0]
                value = {"tag": tag, "how": jobs[tag]["how"]}.get(self.bound[0])
                c.check(self.bound[1] == value, "bound-value", f"guard {self.label} of {tag} got {self.bound}, expected {value}")
                rec[s].append(("setup", self.label, {}))
                await asyncio.sleep(r.choice([0, 0.01]))
                if jobs[tag]["fail"] == self.label:
                    rec[s].append(("failed", self.label, None))
                    raise Boom(f"{self.label} for {tag}")
                rec[s].append(("ready", self.label, ("guard", s, 0)))

            async def __aexit__(self, *exc):
                from docket.dependencies import current_execution
                rec[scope(current_execution.get())].append(("down", self.label, None))
        kinds.update(g0="acm", g1="acm")

        fns = {}
        uses = {}
        overrides = {}
        for i in range(r.randint(1, 3)):
            name = f"task{i}"
            own = r.sample(range(len(nodes)), r.randint(1, min(4, len(nodes))))
            extra = r.choice([None, None, "timeout", "retry", "limit", "retry+timeout"])
            params = [("tag", P, E), ("fail", P, None), ("how", P, "ok"), *context(), *((f"n{j}", K, Depends(nodes[j])) for j in own)]
            if shareds and r.random() < 0.7:
                params.insert(3, ("s", K, Shared(r.choice(shareds))))
            if r.random() < 0.5:
                params.insert(3, ("custom", K, Custom()))
            if extra and "timeout" in extra:
                params.insert(3, ("timeout", K, Timeout(sec(0.5))))
            if extra and "retry" in extra:
                params.append(("retry", K, Retry(attempts=2)))
            if extra == "limit":
                params.append(("limit", K, ConcurrencyLimit("how", max_concurrent=1)))

            annotations = {}
            if r.random() < 0.5:
                annotations = {p: Annotated[str, Guard(f"g{k}")] for k, p in enumerate(r.sample(["tag", "how"], r.randint(1, 2)))}
            overrides[name] = [p[0] for p in params if p[0][0] == "n"] if r.random() < 0.5 else []

            def make(name, params, annotations):
                async def f(*args, **kw):
                    b = f.__signature__.bind(*args, **kw)
                    b.apply_defaults()
                    kw = b.arguments
                    s, e = inject(name, kw)
                    rec[s].append(("body", name, {k: v for k, v in kw.items() if k[0] == "n" or k == "custom"}))
                    if "s" in kw:
                        c.check(kw["s"][1] == kw["worker_"].name, "shared-other", str(kw["s"]))
                    c.check(not [k for k in kw if k.startswith("__")], "extra", str(list(kw)))
                    async with w.running(kw["tag"], attempt=e.attempt):
                        try:
                            if kw["how"] == "ok":
                                await asyncio.sleep(r.choice([0, 0.01, 0.1]))
                            elif kw["how"] == "raise":
                                await asyncio.sleep(r.choice([0, 0.02]))
                                raise ValueError(kw["tag"])
                            else:
                                await asyncio.sleep(1.5)
                        finally:
                            rec[s].append(("done", name, None))
                    return kw["tag"]
                f.__name__ = name
                return signature(f, params, annotations)
            fns[name] = make(name, params, annotations)
            uses[name] = [p[0] for p in params] + [a.__metadata__[0].label for a in annotations.values()]
        w.tasks += list(fns.values())
        wdeps = None
        if r.random() < 0.4:
            js = r.sample(range(len(nodes)), r.randint(1, min(2, len(nodes))))
            wdeps = [Depends(nodes[j]) for j in js] if r.random() < 0.5 else {f"w{j}": Depends(nodes[j]) for j in js}
        workers = [f"w{i}" for i in range(r.choice([1, 1, 2]))]
        for n in workers:
            await w.start_worker(n, restart=None, dependencies=wdeps)
        jobs = {}
        async with w.client() as d:
            handles = {}
            for j in range(r.choice([2, 6, 15])):
                tag = f"t{j}"
                name = r.choice(sorted(fns))
                fail = r.choice([None, None, None, f"n{r.randrange(len(nodes))}", "g0"])
                how = r.choice(["ok", "ok", "raise", "long"])
                given = {n: ("given", tag, n) for n in overrides[name] if r.random() < 0.4}
                jobs[tag] = dict(name=name, fail=fail, how=how, cancelled=None, given=given)
                call = r.choice([((tag, fail, how), {}), ((tag,), dict(fail=fail, how=how)), ((), dict(tag=tag, fail=fail, how=how))])
                handles[tag] = await d.add(fns[name], key=f"key-{tag}", when=r.choice([None, utc(sim.wallclock() + 0.2)]))(*call[0], **call[1], **given)

                async def later(tag, after):
                    await asyncio.sleep(after)
                    await d.cancel(f"key-{tag}")
                if r.random() < 0.25:
                    jobs[tag]["cancelled"] = asyncio.ensure_future(later(tag, r.choice([0.005, 0.05, 0.3, 1.0])))
                if r.random() < 0.3:
                    await asyncio.sleep(r.choice([0.01, 0.3]))
            early = r.random() < 0.3
            if early:
                await asyncio.sleep(r.uniform(0.05, 1))
            else:
                await w.drained(d, 60, 0.3)
            await asyncio.sleep(0.2)
            for n in workers:
                w.workers[n].stop_requested = True
            stopped = [asyncio.ensure_future(w.stop_worker(n, 60)) for n in workers]
            for x in stopped:
                c.check(await x, "stuck", "a worker did not stop")
            for t, job in jobs.items():
                if job["cancelled"]:
                    await asyncio.wait({job["cancelled"]})
            # -- judge ---------------------------------------------------
            per_tag = {}
            for s, e in scopes.values():
                lg = rec[s]
                if e.key.startswith("__safeguard__:"):
                    continue
                tag = e.kwargs.get("tag") if "tag" in e.kwargs else e.args[0]
                job = jobs[tag]
                per_tag.setdefault(tag, []).append((s, e))
                text = lambda: f"{tag} ({job['name']}, fail={job['fail']}, {job['how']}, attempt {e.attempt}): {[x[:2] for x in lg]}"
                c.count("scopes")
                where = {}
                for i, (what, node, detail) in enumerate(lg):
                    where.setdefault((what, node), []).append(i)
                tokens = {node: detail for what, node, detail in lg if what == "ready"}
                body = [i for i, x in enumerate(lg) if x[0] == "body"]
                done = [i for i, x in enumerate(lg) if x[0] == "done"]
                failed = {x[1] for x in lg if x[0] == "failed"}
                c.check(len(body) <= 1 and len(done) == len(body), "body", text)
                for (what, node), at in where.items():
                    if node not in failed:
                        c.check(len(at) == 1, "twice", lambda: f"{what} {node} {len(at)} times: " + text())
                for what, node, detail in lg:
                    if what in ("setup", "body"):
                        for n, token in (detail or {}).items():
                            if what == "body" and n in job["given"]:
                                c.check(token == job["given"][n], "override", lambda: f"{n} was given explicitly, got {token}: " + text())
                                continue
                            c.check(token == tokens.get(n), "other-value", lambda: f"{node} got {token} for {n}, this execution's is {tokens.get(n)}: " + text())
                if body:
                    c.check(not failed, "ran-anyway", text)
                    setups = [x[1] for x in lg[:body[0]] if x[0] == "ready"]
                    need = {n for n in uses[job["name"]] if n[0] in "ng" or n == "custom"} - set(job["given"])
                    c.check(need <= set(setups), "not-ready", lambda: f"needs {need}: " + text())
                    c.check(all(x[0] not in ("setup", "ready") for x in lg[body[0]:]), "late-setup", text)
                    c.check(all(x[0] != "down" for x in lg[:done[0]]), "down-early", text)
                # those with a teardown: each once, in reverse
                ups = [x[1] for x in lg if x[0] == "ready" and kinds[x[1]] in ("cm", "acm")]
                downs = [x[1] for x in lg if x[0] == "down"]
                c.check(downs == ups[::-1], "teardown", lambda: f"set up {ups}, torn down {downs}: " + text())
                c.count("teardowns", len(downs))
                if failed:
                    c.count("failures")
            for tag, job in jobs.items():
                if early or job["cancelled"] or tag not in per_tag:
                    if not early and not job["cancelled"]:
                        # only a failing worker-wide dependency leaves no trace of its own
                        try:
                            leaves = await handles[tag].get_result(timeout=sec(1))
                        except BaseException as x:
                            leaves = flatten(x)
                        broken = any(x[0] == "failed" for lg in shared.values() for x in lg)
                        c.check(broken and isinstance(leaves, list) and any(isinstance(x, Boom) and str(x) == "s0" for x in leaves), "never", lambda: f"{tag} was never taken up, its outcome is {leaves}")
                    continue
                last = max((e for s, e in per_tag[tag]), key=lambda e: e.attempt)
                outcome = None
                try:
                    outcome = ("value", await handles[tag].get_result(timeout=sec(1)))
                except BaseException as x:
                    outcome = ("error", x)
                bodies = [1 for s, e in per_tag[tag] for x in rec[s] if x[0] == "body"]
                failed = {x[1] for s, e in per_tag[tag] if e.attempt == last.attempt for x in rec[s] if x[0] == "failed"}
                if failed:
                    leaves = flatten(outcome[1]) if outcome[0] == "error" else []
                    c.check(any(isinstance(x, Boom) and str(x).startswith(tuple(failed)) for x in leaves), "wrong-error", lambda: f"{tag}: {failed} failed, and the outcome is {outcome}")
                    c.check(last.attempt > 1 or not bodies, "ran-anyway", tag)
                if not failed:
                    broken = any(x[0] == "failed" for lg in shared.values() for x in lg) and any(isinstance(x, Boom) and str(x) == "s0" for x in flatten(outcome[1]))
                    timed = "timeout" in uses[job["name"]]
                    ok = outcome == ("value", tag) if job["how"] == "ok" or job["how"] == "long" and not timed else outcome[0] == "error" and isinstance(outcome[1], ValueError if job["how"] == "raise" else TimeoutError)
                    c.check(ok or broken, "outcome", lambda: f"{tag} ({job}) should have run its function and ended accordingly, its outcome is {outcome}")
                    c.count("outcomes")
            # shared ones
            for worker, lg in shared.items():
                text = lambda: f"{worker}: {[x[:2] for x in lg]}"
                ups = [x for x in lg if x[0] == "ready"]
                names = [x[1] for x in ups]
                c.check(len(set(names)) == len(names), "shared-twice", text)
                tokens = {x[1]: x[2] for x in ups}
                for what, node, detail in lg:
                    if what == "setup" and detail is not None:
                        c.check(tokens.get(detail[0]) == detail, "shared-value", text)
                cms = [n for n in names if kinds[n] in ("cm", "acm")]
                downs = [x for x in lg if x[0] == "down"]
                c.check([x[1] for x in downs] == cms[::-1], "shared-teardown", text)
                ends = [x.t - sim.epoch if x.t > 1e6 else x.t for x in w.events("end") if x.proc == worker]
                c.count("shared_setups", len(ups))
                for x in downs:
                    c.check(not ends or x[2] >= max(e.t for e in w.events("end") if e.proc == worker) - sim_base(sim), "shared-early", text)
        c.check(not w.unexpected_worker_exits(), "worker-died", lambda: str(w.unexpected_worker_exits()[0].how)[-500:])
        c.nontrivial = c.stats["scopes"] > 1 and c.stats["teardowns"] > 0
        c.sample = f"{len(nodes)} dependencies, {len(shareds)} shared, {len(fns)} functions, {c.stats['scopes']} executions, {c.stats['teardowns']} teardowns, {c.stats['failures']} failing"
    c.run(sim, main)


def sim_base(sim):
    return sim.wallclock() - sim.now()


def flatten(e):
    if isinstance(e, BaseExceptionGroup):
        return [y for x in e.exceptions for y in flatten(x)]
    return [e]


DIRECTED = []
GENERATORS = [(graphs, 1)]
