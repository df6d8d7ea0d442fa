"""D11: cron tasks run once at every matching time and at no other."""
import asyncio
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from rv.world import World, intervals, max_overlap, sec

# --- an independent reading of cron expressions ------------------------------
KEYWORDS = {"@yearly": "0 0 1 1 *", "@annually": "0 0 1 1 *", "@monthly": "0 0 1 * *", "@weekly": "0 0 * * 0",
            "@daily": "0 0 * * *", "@midnight": "0 0 * * *", "@hourly": "0 * * * *"}
DAYS = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"]


def field(text, lo, hi, names=()):
    out = set()
    for part in text.split(","):
        body, _, step = part.partition("/")
        if body == "*":
            a, b = lo, hi
        else:
            a, _, b = body.partition("-")
            a = names.index(a) if a in names else int(a)
            b = (names.index(b) if b in names else int(b)) if b else (hi if step else a)
        out |= set(range(a, b + 1, int(step or 1)))
    return out


class Matcher:
    def __init__(self, expr):
        m, h, dom, mon, dow = KEYWORDS.get(expr, expr).split()
        self.m, self.h = field(m, 0, 59), field(h, 0, 23)
        self.dom, self.mon = field(dom, 1, 31), field(mon, 1, 12)
        self.dow = {x % 7 for x in field(dow, 0, 7, DAYS)}
        self.either = dom[0] != "*" and dow[0] != "*"

    def __call__(self, d):
        if d.minute not in self.m or d.hour not in self.h or d.month not in self.mon:
            return False
        a, b = d.day in self.dom, (d.weekday() + 1) % 7 in self.dow
        return (a or b) if self.either else (a and b)


def expected(expr, tz, t0, t1):
    """(required groups, optional instants): a wall-clock time that occurs twice
    is one group; one that is skipped may be made up for right after the gap."""
    m = Matcher(expr)
    groups, optional, gaps = {}, [], []
    t = int(t0 // 60) * 60
    while t <= t1:
        local = datetime.fromtimestamp(t, timezone.utc).astimezone(tz)
        if m(local):
            groups.setdefault(local.replace(tzinfo=None, fold=0), []).append(t)
        before = datetime.fromtimestamp(t - 60, timezone.utc).astimezone(tz)
        jump = local.utcoffset() - before.utcoffset()
        if jump > timedelta(0):
            gaps.append(t)
            wall = before.replace(tzinfo=None) + timedelta(minutes=1)
            while wall < local.replace(tzinfo=None):
                if m(wall):
                    optional.append(t)
                    optional.append(t + (wall - (before.replace(tzinfo=None) + timedelta(minutes=1))).total_seconds())
                wall += timedelta(minutes=1)
        t += 60
    return groups, optional, gaps


def at(tz, *ymdhm):
    return datetime(*ymdhm, tzinfo=ZoneInfo(tz)).timestamp()


NY, BER, LHI, CHA, UTC, SYD, KTM = "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Pacific/Chatham", "UTC", "Australia/Sydney", "Asia/Kathmandu"
MINUTELY = ["* * * * *", "*/2 * * * *", "*/7 * * * *", "0-59/5 * * * *", "1,2,3,17 * * * *", "*/15 * * * *", "59 * * * *", "@hourly", "30 * * * *"]
DST = [(NY, (2030, 3, 10, 0, 30)), (NY, (2030, 11, 3, 0, 10)), (BER, (2030, 3, 31, 0, 40)), (BER, (2030, 10, 27, 1, 20)),
       (LHI, (2030, 4, 7, 0, 30)), (LHI, (2030, 10, 6, 0, 30)), (SYD, (2030, 10, 6, 0, 20)), (SYD, (2030, 4, 7, 0, 50)), (CHA, (2030, 4, 7, 1, 30))]
DST_EXPR = ["*/10 * * * *", "30 * * * *", "15,45 * * * *", "30 1 * * *", "30 2 * * *", "0 3 * * *", "0 * * * *", "*/30 1-3 * * *", "45 1 * * 0", "0 2 * * *", "10 4 * * *"]
SLOW = [("0 0 * * *", UTC, (2030, 2, 26, 20, 0), 6), ("@daily", KTM, (2030, 12, 29, 1, 0), 6), ("0 9 * * 1-5", NY, (2030, 3, 7, 0, 0), 8),
        ("@monthly", BER, (2030, 1, 30, 0, 0), 65), ("0 0 31 * *", UTC, (2030, 1, 27, 0, 0), 66), ("0 0 29 2 *", UTC, (2032, 2, 27, 0, 0), 4),
        ("15 6 1,15 * *", SYD, (2030, 5, 28, 0, 0), 40), ("0 12 13 * FRI", UTC, (2030, 9, 10, 0, 0), 12), ("@weekly", NY, (2030, 10, 30, 0, 0), 20),
        ("@yearly", UTC, (2030, 12, 30, 0, 0), 4), ("0 4 * * SUN", LHI, (2030, 4, 3, 0, 0), 12), ("30 23 28-31 * *", UTC, (2030, 2, 25, 0, 0), 10),
        ("0 */6 * * *", BER, (2030, 3, 29, 0, 0), 4), ("5 0 * 3 *", NY, (2030, 2, 27, 0, 0), 6), ("0 8 * * 7", UTC, (2030, 6, 6, 0, 0), 18)]


def _run(c, jobs, epoch, span, res, outages, durs, automatic=True):
    r = c.rng
    sim = c.sim(epoch=epoch, lat_max=0.005, pubsub_coarse=max(0.5, res))

    async def main(sim):
        from docket import Cron
        w = World(c, sim, docket_kw=dict(heartbeat_interval=sec(max(20, 50 * res))),
                  worker_kw=dict(schedule_automatic_tasks=automatic, redelivery_timeout=sec(max(4, 5 * res)), minimum_check_interval=sec(res), scheduling_resolution=sec(res)))
        spec = {}

        def define(i, expr, tz, dur, p_fail):
            async def cron(cron: Cron = Cron(expr, tz=ZoneInfo(tz) if tz else timezone.utc, automatic=automatic)):
                async with w.running(f"cron{i}"):
                    d = r.choice(dur)
                    if d:
                        await asyncio.sleep(d)
                    if r.random() < p_fail:
                        raise ValueError
            cron.__name__ = f"cron{i}"
            w.tasks.append(cron)
            spec[f"cron{i}"] = (expr, ZoneInfo(tz or "UTC"))
            return cron
        fns = [define(i, e, tz, durs, r.choice([0, 0, 0.3])) for i, (e, tz) in enumerate(jobs)]
        down = []
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            await w.start_worker(f"w{i}", restart=None)
        async with w.client() as d:
            added = {}
            if not automatic:
                for fn in fns:
                    added[fn.__name__] = sim.wallclock()
                    await d.add(fn, key=fn.__name__)()
            gen = 0
            for a, b in outages:
                await asyncio.sleep(max(0, epoch + a - sim.wallclock()))
                t = sim.wallclock()
                live = [x for x in w.workers if w.workers[x].alive]
                hard = r.random() < 0.3 and not any(x[1] == float("inf") for x in intervals(w))
                for x in live:
                    if hard:
                        w.workers[x].stop_requested = True
                        w.kill_worker(x)
                    else:
                        await w.stop_worker(x)
                await asyncio.sleep(max(0, epoch + b - sim.wallclock()))
                for i in range(n):
                    gen += 1
                    await w.start_worker(f"g{gen}", restart=None)
                down.append((t - 1, sim.wallclock()))
            await asyncio.sleep(max(0, epoch + span - sim.wallclock()))
            t_end = sim.wallclock()
            lag = 2 * res + 0.3
            for name, (expr, tz) in spec.items():
                groups, optional, gaps = expected(expr, tz, epoch - 60, t_end)
                instants = sorted({t for g in groups.values() for t in g} | set(optional))
                runs = intervals(w, tag=name)

                def hist(t):
                    show = lambda x: datetime.fromtimestamp(x, timezone.utc).astimezone(tz).strftime("%m-%d %H:%M:%S%z")
                    return (f"cron {expr!r} in {tz.key}, near {show(t)}: matching {[show(x) for x in instants if abs(x-t) < span/3][:8]}, "
                            f"ran {[show(a) for a, _, _ in runs if abs(a-t) < span/3][:8]}, down {[(show(a), show(b)) for a, b in down]}")
                k, e = max_overlap(runs)
                c.check(k <= 1, "parallel", lambda: "two runs at once; " + hist(e.t))
                used = {}
                first_after = {min((a for a, _, _ in runs if a > b - 0.5), default=None): b for _, b in down}
                for j, (a, ae, ev) in enumerate(runs):
                    if a - epoch < 5 and not automatic and j == 0:
                        continue   # the one started by hand
                    c.count("cron_runs")
                    hit = [x for x in instants if x - 1e-3 <= a <= x + lag]
                    if not hit:
                        # the one occurrence that was scheduled when all workers went down is late
                        late = a in first_after and a - first_after[a] < max(lag, 5 * res + 5)
                        c.check(late, "wrong-time", lambda: f"ran at {datetime.fromtimestamp(a, tz)}, which does not match; " + hist(a))
                        continue
                    c.check(hit[-1] not in used or len([x for x in optional if x == hit[-1]]) > 0, "twice", lambda: "ran twice for one matching time; " + hist(a))
                    used[hit[-1]] = a
                for wall, ts in groups.items():
                    if ts[0] < epoch + 2 or ts[-1] > t_end - lag:
                        continue
                    if any(x0 - lag <= t <= x1 + lag for t in ts for x0, x1 in down):
                        continue
                    # a run that is still going on (or only just recorded) skips it
                    if any(a < t <= ae + lag for t in ts for a, ae, _ in runs if not (t - 1e-3 <= a <= t + lag)):
                        continue
                    c.count("occurrences")
                    # cronsim itself mishandles gaps that aren't whole hours (known finding)
                    odd = tz.key == LHI and any(t <= o + 3600 for t in ts for o in gaps if o <= t)
                    c.check(any(t in used for t in ts), "missed-after-half-hour-gap" if odd else "missed", lambda: f"did not run at {wall}; " + hist(ts[0]))
        for h in w.workers.values():
            h.stop_requested = True
            if h.run_task is not None:
                h.run_task.cancel()
        c.nontrivial = c.stats["occurrences"] > 0
        c.sample = f"{jobs} from {datetime.fromtimestamp(epoch, timezone.utc)} for {span/3600:.1f} h, {n} workers, down {[(round(a-epoch), round(b-epoch)) for a, b in down]}: {c.stats['cron_runs']} runs"
    c.run(sim, main, wall=120)


def minutely(c):
    r = c.rng
    tz, when = r.choice([(UTC, (2030, 1, 1, 0, 0)), (NY, (2030, 6, 30, 23, 50)), (KTM, (2031, 12, 31, 23, 40)), (BER, (2032, 2, 28, 23, 45)), (UTC, (2032, 2, 29, 23, 50))])
    epoch = at(tz, *when) + r.uniform(0, 600)
    if r.random() < 0.3:
        epoch = at(tz, *when) + r.choice([59.9, 60.0, 60.05, 119.999])
    jobs = [(r.choice(MINUTELY), r.choice([tz, None])) for _ in range(r.randint(1, 3))]
    span = r.uniform(500, 900)
    outages = []
    if r.random() < 0.5:
        a = r.uniform(60, 300)
        outages.append((a, a + r.choice([0.05, 5, 70, 260])))
        if r.random() < 0.4:
            outages.append((outages[0][1] + r.uniform(30, 130), outages[0][1] + r.uniform(135, 200)))
    _run(c, jobs, epoch, span, r.choice([0.5, 2]), outages, r.choice([[0], [0, 1, 20], [0, 0, 70], [1, 150], [59.95, 60.0, 60.02]]), automatic=r.random() < 0.8)


def dst(c):
    r = c.rng
    tz, when = r.choice(DST)
    epoch = at(tz, *when) + r.uniform(0, 1500)
    jobs = [(e, tz) for e in r.sample(DST_EXPR, r.randint(2, 4))]
    span = 4 * 3600
    outages = []
    if r.random() < 0.3:
        a = r.uniform(600, 9000)
        outages.append((a, a + r.choice([60, 1800, 4000])))
    _run(c, jobs, epoch, span, 40, outages, r.choice([[0], [0, 30], [0, 900]]))


def calendar(c):
    r = c.rng
    expr, tz, when, days = r.choice(SLOW)
    epoch = at(tz, *when) + r.uniform(0, 7200)
    outages = []
    if r.random() < 0.3:
        a = r.uniform(1, days * 0.5) * 86400
        outages.append((a, a + r.choice([3600, 86400, 2.5 * 86400])))
    # coarse polling keeps months affordable
    _run(c, [(expr, tz)], epoch, days * 86400, 600 if days < 25 else 3600, outages, r.choice([[0], [0, 600]]), automatic=False)


GENERATORS = [(minutely, 3), (dst, 2), (calendar, 2)]
