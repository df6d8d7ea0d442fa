"""D08: retries: count, numbering, delay, end."""
import asyncio

from rv.world import World, intervals, max_overlap, sec, utc


class Boom(Exception):
    def __eq__(self, o):
        return isinstance(o, Boom) and self.args == o.args

    __hash__ = Exception.__hash__


def make(w, r, sim):
    from docket import ExponentialRetry, Retry, CurrentExecution, TaskKey

    async def attempt(tag, n, script, args):
        """script: {attempt: what}; anything else succeeds."""
        async with w.running(tag, attempt=n, args=args):
            what = script.get(n, script.get(-1, "ok"))
            if isinstance(what, tuple) and what[0] == "sleep":
                await asyncio.sleep(what[1])
                what = what[2]
            w.sim.log("outcome", tag=tag, attempt=n, what=what)
            return what

    fns, decl = {}, {}
    for i, (attempts, delay) in enumerate([(1, 0), (2, 0), (3, 0.25), (5, 0.02), (None, 0.15), (4, 1.1)]):
        async def fixed(tag: str, script: dict, extra: list, *, kw: dict, retry: Retry = Retry(attempts=attempts, delay=sec(delay)),
                        ex=CurrentExecution(), key: str = TaskKey()):
            assert key == tag and ex.key == tag and ex.attempt == retry.attempt
            what = await attempt(tag, retry.attempt, script, (list(extra), dict(kw)))
            extra.append("mutated")
            kw["mutated"] = 1
            if what == "fail":
                raise Boom(tag, retry.attempt)
            if isinstance(what, tuple):
                if what[0] == "after":
                    retry.after(sec(what[1]))
                if what[0] == "at":
                    retry.at(utc(sim.wallclock() + what[1]))
            return (tag, retry.attempt)
        fixed.__name__ = f"fixed{i}"
        fns[fixed.__name__], decl[fixed.__name__] = fixed, (attempts, lambda n, d=delay: d)
    for i, (attempts, lo, hi) in enumerate([(6, 0.05, 0.4), (4, 0.2, 10), (None, 0.1, 0.3), (90, 0.001, 0.02), (None, 0.0, 0.05), (75, 1e-6, 0.01)]):
        async def expo(tag: str, script: dict, extra: list, *, kw: dict,
                       retry: Retry = ExponentialRetry(attempts=attempts, minimum_delay=sec(lo), maximum_delay=sec(hi))):
            what = await attempt(tag, retry.attempt, script, (list(extra), dict(kw)))
            extra.append("mutated")
            kw["mutated"] = 1
            if what == "fail":
                raise Boom(tag, retry.attempt)
            if isinstance(what, tuple):
                if what[0] == "after":
                    retry.after(sec(what[1]))
                if what[0] == "at":
                    retry.at(utc(sim.wallclock() + what[1]))
            return (tag, retry.attempt)
        expo.__name__ = f"expo{i}"

        def backoff(n, lo=lo, hi=hi):
            from fractions import Fraction
            return min(float(Fraction(str(lo)) * 2 ** (n - 1)) if n < 200 else 1e9, hi) if lo else 0.0
        fns[expo.__name__], decl[expo.__name__] = expo, (attempts, backoff)
    w.tasks += list(fns.values())
    return fns, decl


def _run(c, crashes):
    r = c.rng
    redel = r.choice([1.0, 2.0])
    lat = 0.003
    sim = c.sim(lat_max=lat)
    poll = 0.05

    async def main(sim):
        w = World(c, sim, worker_kw=dict(redelivery_timeout=sec(redel), concurrency=20, minimum_check_interval=sec(poll), scheduling_resolution=sec(poll)))
        fns, decl = make(w, r, sim)
        nw = r.randint(1, 3)

        def setup(proc, gen):
            if crashes and sim.now() < 6 and r.random() < 0.7:
                proc.crash_at = (proc.ncmd + r.randint(10, 120), r.choice(["before", "after"]))
        for i in range(nw):
            await w.start_worker(f"w{i}", restart=0.1, setup=setup, wait=False)
        plan = {}
        async with w.client() as d:
            for i in range(r.randint(3, 7)):
                key = f"k{i}"
                name = r.choice(list(fns))
                attempts, delay = decl[name]
                script = {}
                big = attempts is not None and attempts > 50
                top = attempts if attempts is not None else r.choice([1, 3, 8, 70 if name == "expo4" else 12])
                last = r.choice([top, top, r.randint(1, top)])   # attempts that fail
                if attempts is None:
                    last = top
                for n in range(1, last + 1):
                    x = r.random()
                    if x < 0.6 or big:
                        script[n] = "fail"
                    elif x < 0.75:
                        script[n] = ("after", r.choice([0, 0.01, 0.3, 0.9]))
                    elif x < 0.85:
                        script[n] = ("at", r.choice([-3, 0, 0.4]))
                    else:
                        script[n] = ("sleep", r.choice([0.1, 0.5, 1.3 * redel]), "fail")
                runs = last + 1 if (attempts is None or last < attempts) else attempts
                ok = runs > last
                args = ([i, {"a": (1, 2)}], {"n": i, "s": "x"})
                plan[key] = (name, script, runs, ok, args)
                when = None if r.random() < 0.6 else utc(sim.wallclock() + r.uniform(0, 1))
                x = await d.add(fns[name], when=when, key=key)(key, script, list(args[0]), kw=dict(args[1]))
                plan[key] += (x,)
            await asyncio.sleep(5)
            done = await w.drained(d, 60)
            c.check(done, "not-finished", lambda: f"still outstanding: {sorted(x for x in w.raw_keys() if ':runs:' not in x)[:6]}")
            await asyncio.sleep(2 + redel)
            for key, (name, script, runs, ok, args, x) in plan.items():
                attempts, delay = decl[name]
                st = w.starts(key)

                def hist():
                    return f"{key} {name} (attempts={attempts}) script {str(script)[:200]}: " + str([(e.kind, e.attempt, round(e.t - sim.epoch, 3), e.get('outcome', '')) for e in sim.events if e.get('tag') == key and e.kind in ('start', 'end')][-12:])
                nums = [e.attempt for e in st]
                if crashes:
                    distinct = sorted(set(nums))
                    c.check(distinct == list(range(1, runs + 1)), "count", lambda: f"attempts made {distinct}, expected 1..{runs}; {hist()}")
                    c.check(nums == sorted(nums), "numbering", lambda: f"attempt numbers {nums}; {hist()}")
                else:
                    c.check(nums == list(range(1, runs + 1)), "count", lambda: f"attempt numbers {nums}, expected 1..{runs}; {hist()}")
                n, _ = max_overlap(intervals(w, tag=key))
                c.check(n <= 1, "parallel", lambda: f"two attempts at once; {hist()}")
                c.check(all(e.args == args for e in st), "arguments", lambda: f"an attempt got other arguments: {[e.args for e in st]} instead of {args}")
                ends = {}
                for e in w.ends(key):
                    ends.setdefault(e.attempt, e)
                for e in st:
                    if e.attempt == 1 or e.attempt - 1 not in ends:
                        continue
                    if any(p is not e and p.attempt == e.attempt and p.t < e.t for p in st):
                        continue
                    prev = [x for x in w.ends(key) if x.attempt == e.attempt - 1 and x.t <= e.t]
                    if not prev:
                        continue
                    prev = prev[-1] if len(prev) == 1 else prev[0]
                    what = script.get(e.attempt - 1)
                    if isinstance(what, tuple) and what[0] == "sleep":
                        what = what[2]
                    if isinstance(what, tuple):
                        want = max(0, what[1])
                        tol = 1e-3      # computed inside the body
                    else:
                        want, tol = delay(e.attempt - 1), 3e-6
                    gap = e.t - prev.t
                    c.count("delays")
                    c.check(gap >= want - tol, "early", lambda: f"attempt {e.attempt} came {gap:.4f}s after the failure, declared delay {want}; {hist()}")
                    if not crashes:
                        c.check(gap <= want + 2 * poll + 0.15, "late", lambda: f"attempt {e.attempt} came only {gap:.4f}s after the failure, declared delay {want}; {hist()}")
                y = await d.get_execution(key)
                got = y.state.value if y else None
                c.check(got == ("completed" if ok else "failed"), "final-state", lambda: f"reported {got}; {hist()}")
                try:
                    res = await x.get_result(timeout=sec(5))
                except BaseException as e:
                    res = e
                if ok:
                    c.check(res == (key, runs), "result", lambda: f"result {res!r}; {hist()}")
                elif script[runs] == "fail" or script[runs][0] == "sleep":
                    c.check(isinstance(res, Boom) and res.args == (key, runs), "result", lambda: f"expected the last attempt's exception, got {res!r}; {hist()}")
                else:
                    c.check(type(res).__name__ == "ForcedRetry", "result", lambda: f"expected ForcedRetry, got {res!r}; {hist()}")
                c.count("attempts", len(st))
        c.nontrivial = c.stats["delays"] > 0
        c.sample = f"{nw} workers, crashes={crashes}, {[(k, p[0], p[2], p[3]) for k, p in plan.items()]}"
    c.run(sim, main)


def calm(c):
    _run(c, False)


def crashing(c):
    _run(c, True)


GENERATORS = [(calm, 2), (crashing, 1)]
