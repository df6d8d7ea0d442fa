"""A docket and its workers on servers of all kinds, over real connections.
Reads a seed, prints what was seen as JSON."""
import asyncio
import json
import logging
import os
import random
import shutil
import socket
import ssl
import sys
import tempfile
import time
from collections import Counter
from datetime import datetime, timedelta, timezone
from urllib.parse import quote

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
os.environ["SSL_CERT_FILE"] = os.path.join(HERE, "tls", "cert.pem")
logging.disable(logging.CRITICAL)

from redis.crc import key_slot  # noqa: E402
from redis.exceptions import ConnectionError as RCE, LockError, NoScriptError, TimeoutError as RTE  # noqa: E402

from rv.resp import Data, Family, Lab, Node, b2s  # noqa: E402

seed, mode = sys.argv[1], sys.argv[2]
r = random.Random(seed)
violations, stats = [], Counter()
sec = lambda s: timedelta(seconds=s)


def violation(sig, msg):
    if sum(v["sig"] == sig for v in violations) < 2:
        violations.append({"sig": sig, "msg": msg[:1500]})


# (the last two: asyncio's ways of saying that a transport was closed meanwhile)
LOST = (RCE, RTE, OSError, LockError, NoScriptError, TypeError, AttributeError)


def check(ok, sig, msg):
    stats["checks"] += 1
    if not ok:
        violation(sig, msg() if callable(msg) else msg)
    return ok


def v6():
    try:
        with socket.socket(socket.AF_INET6) as s:
            s.bind(("::1", 0))
        return True
    except OSError:
        return False


HAVE6 = v6()
lab = Lab()
scratch = tempfile.mkdtemp(prefix="rv-net-")
nodes, sentinels, decoys = [], [], []
ODD = ["secret", "p@ss", "a:b/c?d#e", "per%cent%41", "pl+us", "späße", "sp ace", "&=;", "x" * 60]


def tls_context():
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(os.path.join(HERE, "tls", "cert.pem"), os.path.join(HERE, "tls", "key.pem"))
    return ctx


def bracket(h):
    return f"[{h}]" if ":" in h else h


def up(node):
    lab.do(node.up())
    return node


class Setup:
    """The servers of this case and the URL to reach them."""

    def __init__(self):
        self.kind = kind = mode if mode != "any" else r.choice(["standalone"] * 6 + ["unix"] * 2 + ["sentinel"] * 7 + ["cluster"] * 5)
        self.tls = kind != "unix" and r.random() < 0.3
        ctx = tls_context() if self.tls else None
        s = "rediss" if self.tls else "redis"
        user = r.choice([None, "default", "app", "us:er@x"])
        password = r.choice(ODD)
        self.users = users = None if user is None else {user: password}
        cred = "" if user is None else (":" if user == "default" and r.random() < 0.5 else quote(user, safe="") + ":") + quote(password, safe="") + "@"
        self.db = 0 if kind == "cluster" else r.choice([0, 0, 3, 11])
        host = r.choice(["127.0.0.1", "localhost"] + (["::1"] if HAVE6 else []))
        bind = "127.0.0.1" if host == "localhost" else host
        self.name = r.choice(["docket", "my-docket", "a{b}c" if kind != "cluster" else "abc", "with:colon"])
        opts = []
        self.client_name = None
        if kind != "cluster" and r.random() < 0.5:
            self.client_name = "me-" + str(r.randint(0, 99))
            opts.append(f"client_name={self.client_name}")
        if r.random() < 0.3 and kind != "cluster":
            opts.append("socket_connect_timeout=4")
        if r.random() < 0.3 and kind != "cluster":
            opts.append("max_connections=300")
        if kind == "standalone":
            plain = r.random() < 0.25 and not self.tls
            if plain:
                # the default port, on an address of our own
                bind = host = f"127.{r.randint(2, 250)}.{r.randint(1, 250)}.{os.getpid() % 250 + 1}"
            nodes.append(up(Node(lab, "standalone", bind, 6379 if plain else 0, users=users, tls=ctx)))
            path = r.choice([f"/{self.db}"] + ([""] if not self.db else []))
            if self.db and r.random() < 0.3:
                path = ""
                opts.append(f"db={self.db}")
            self.url = f"{s}://{cred}{bracket(host)}" + ("" if plain else f":{nodes[0].port}") + path
        elif kind == "unix":
            path = os.path.join(scratch, "redis.sock")
            nodes.append(up(Node(lab, "standalone", unix=path, users=users)))
            self.url = f"unix://{cred}{path}"
            if self.db:
                opts.append(f"db={self.db}")
        elif kind == "sentinel":
            # the address the Sentinels give, for TLS one that the certificate is for
            nodes.append(up(Node(lab, "standalone", "127.0.0.1", users=users, tls=ctx)))
            decoys.append(up(Node(lab, "standalone", "127.0.0.1", users=None, tls=ctx)))
            service = r.choice(["mymaster", "my-service", "m.1"])
            master = lambda: ("127.0.0.1", nodes[-1].port, "master")
            other = lambda: ("127.0.0.1", decoys[0].port, "master")
            susers = None
            if r.random() < 0.4:
                suser = r.choice(["default", "guard", "wä:ch@ter"])
                susers = {suser: r.choice(ODD)}
                if suser != "default":
                    opts.append("sentinel_username=" + quote(suser, safe=""))
                opts.append("sentinel_password=" + quote(susers[suser], safe=""))
            states = ["ok"] + [r.choice(["ok", "down", "ignorant", "thinks-down"]) for _ in range(r.choice([0, 1, 2, 3]))]
            r.shuffle(states)
            members = []
            for i, st in enumerate(states):
                host = r.choice(["127.0.0.1", "localhost"] + (["::1"] if HAVE6 else []))
                bind = "127.0.0.1" if host == "localhost" else host
                plain = not self.tls and r.random() < 0.25
                if plain:
                    bind = host = f"127.{r.randint(2, 250)}.{100 + i}.{os.getpid() % 250 + 1}"
                n = Node(lab, "sentinel", bind, 26379 if plain else 0, users=susers, tls=ctx)
                n.masters = {
                    "ok": lambda: {service: master(), service + "2": other(), "x": other()},
                    "down": dict,
                    "ignorant": lambda: {service + "2": other()},
                    "thinks-down": lambda: {service: ("127.0.0.1", decoys[0].port, "master,s_down,o_down"), service + "2": other()},
                }[st]
                up(n)
                if st == "down":
                    lab.do(n.down())
                else:
                    sentinels.append(n)
                members.append(bracket(host) + ("" if plain else f":{n.port}"))
            if r.random() < 0.3:
                opts.append(f"db={self.db + 1}")          # the path decides
            if r.random() < 0.3 and user is not None:
                opts.append("username=stray&password=stray")   # so do the credentials in front
            self.states = states
            self.url = f"{s}+sentinel://{cred}{','.join(members)}/{service}" + (f"/{self.db}" if self.db or r.random() < 0.5 else "")
        else:
            fam = Family()
            for i in range(r.choice([1, 3, 3, 5])):
                fam.nodes.append(Node(lab, "cluster", "127.0.0.1", users=users, tls=ctx, family=fam))
            # (bound in turn)
            nodes.extend(up(n) for n in fam.nodes)
            fam.split(r.sample(range(1, 16384), len(fam.nodes) - 1))
            self.family = fam
            self.url = f"{s}+cluster://{cred}127.0.0.1:{r.choice(nodes).port}" + r.choice(["", "/0"])
        r.shuffle(opts)
        if opts:
            self.url += "?" + "&".join(opts)


async def patiently(op, tries=60):
    """An operation by a client that tries again while its server is away."""
    for i in range(tries):
        try:
            return await op()
        except LOST as e:
            if i == tries - 1:
                raise
            stats["retried_ops"] += 1
            await asyncio.sleep(0.1)


def lost(e):
    if isinstance(e, BaseExceptionGroup):
        return all(map(lost, e.exceptions))
    return isinstance(e, LOST) or type(e).__module__.startswith("redis.")


class Spoiled(Exception):
    """The task itself met the fault."""


async def result(e, tries=60):
    for i in range(tries):
        try:
            return await e.get_result(timeout=sec(25))
        except LOST:
            await patiently(e.sync)
            if e.state.value == "failed" and shaky:
                raise Spoiled
            if i == tries - 1:
                raise
        stats["retried_ops"] += 1
        await asyncio.sleep(0.1)


shaky = False


async def main(setup, faults, idle, every):
    global shaky
    # (Sentinels asked at the same time are tried in each other's order)
    # (a script loaded into every node in turn may be forgotten by one before it's used)
    shaky = bool(faults) or bool(every) and setup.kind == "cluster" or setup.kind == "sentinel" and len(setup.states) > 1
    from docket import ConcurrencyLimit, CurrentExecution, Docket, ExecutionCancelled, Progress, Retry, Worker
    from docket.dependencies import Perpetual
    runs = []
    cancelled = []

    async def echo(tag: str, value):
        runs.append(tag)
        return value

    async def boom(tag: str):
        runs.append(tag)
        raise ValueError(tag)

    async def flaky(tag: str, retry: Retry = Retry(attempts=3, delay=sec(0.05))):
        runs.append(tag)
        if retry.attempt < 3:
            raise ValueError(tag)
        return retry.attempt

    async def limited(tag: str, who: str, limit: ConcurrencyLimit = ConcurrencyLimit("who", max_concurrent=1)):
        runs.append(tag)
        busy.append(who)
        try:
            check(busy.count(who) == 1 or bool(faults), "limit", lambda: f"{tag}: {busy} at once")
            await asyncio.sleep(0.05)
        finally:
            busy.remove(who)
        return tag

    async def steps(tag: str, n: int, dur: float, progress: Progress = Progress()):
        runs.append(tag)
        await progress.set_total(n)
        for i in range(n):
            await asyncio.sleep(dur)
            await progress.increment()
            await progress.set_message(f"step {i + 1}")
        return n

    async def forever(tag: str):
        runs.append(tag)
        try:
            await asyncio.sleep(60)
        except asyncio.CancelledError:
            cancelled.append(tag)
            raise

    async def again(tag: str, perpetual: Perpetual = Perpetual(every=sec(0.05))):
        runs.append(tag)
        if runs.count(tag) >= 4:
            perpetual.cancel()

    async def struck(tag: str, kind: str):
        runs.append(tag)
    busy = []
    tasks = [echo, boom, flaky, limited, steps, forever, again, struck]

    def docket():
        d = Docket(setup.name, url=setup.url, heartbeat_interval=sec(0.3), execution_ttl=sec(30))
        for t in tasks:
            d.register(t)
        return d
    workers = []
    run_tasks = []
    stop_faults = asyncio.Event()
    faulting = None
    state = f"{setup.kind}{' tls' if setup.tls else ''} {setup.url} faults {faults}"
    t_begin = time.monotonic()
    for attempt in range(4):
        try:
            async with asyncio.timeout(15):
                async with docket() as d, d.redis() as c:
                    await c.get("x")
            break
        except Exception as e:
            last = e
    else:
        check(False, "unreachable", lambda: f"{last!r}"[-600:] + f"; {state}")
        return state, 0
    async with docket() as d, docket() as wd:
        async with Worker(wd, name="w0", concurrency=5, minimum_check_interval=sec(0.05), scheduling_resolution=sec(0.05), redelivery_timeout=sec(1.0), reconnection_delay=sec(0.2)) as w:
            async def on_and_on():
                while True:
                    try:
                        return await w.run_forever()
                    except Exception:
                        # (one whose task ended with a lost connection does)
                        if not shaky:
                            raise
                        stats["worker_ended"] += 1
                        await asyncio.sleep(0.2)
            run = asyncio.ensure_future(on_and_on())
            if idle:
                await quiet(d, echo, forever, steps, state)
            faulting = asyncio.ensure_future(disturb(setup, every, stop_faults))
            jobs = {}
            n = r.choice([5, 15, 30])

            async def one(i):
                tag = f"t{i}"
                what = r.choice(["echo", "echo", "boom", "flaky", "limited", "steps", "forever", "again", "replaced", "withdrawn"])
                at = datetime.now(timezone.utc) + sec(r.choice([0, 0, 0.2]))
                value = r.choice([1, "x", None, {"a": [1, 2]}, b"\x00\xff", 2.5, "ü" * 100, "y" * 70000])
                stats[what] += 1
                limit = sec(25)
                if what == "echo":
                    e = await patiently(lambda: d.add(echo, when=at, key=tag)(tag, value))
                    got = await result(e)
                    check(got == value, "result", lambda: f"{tag}: {str(got)[:80]} instead of {str(value)[:80]}; {state}")
                elif what == "boom":
                    e = await patiently(lambda: d.add(boom, when=at, key=tag)(tag))
                    try:
                        got = await result(e)
                    except ValueError as err:
                        got = str(err)
                    check(got == tag, "exception", lambda: f"{tag}: {got}; {state}")
                elif what == "flaky":
                    e = await patiently(lambda: d.add(flaky, when=at, key=tag)(tag))
                    got = await result(e)
                    check(got == 3, "retries", lambda: f"{tag}: {got}; {state}")
                elif what == "limited":
                    e = await patiently(lambda: d.add(limited, when=at, key=tag)(tag, r.choice("ab")))
                    got = await result(e)
                    check(got == tag, "result", lambda: f"{tag}: {got}; {state}")
                elif what == "steps":
                    e = await patiently(lambda: d.add(steps, when=datetime.now(timezone.utc) + sec(0.4), key=tag)(tag, 4, 0.05))
                    events = []

                    async def follow():
                        async for ev in e.subscribe():
                            events.append(ev)
                            if ev["type"] == "state" and ev["state"].value in ("completed", "failed"):
                                return
                    try:
                        await asyncio.wait_for(follow(), 25)
                    except LOST:
                        check(shaky, "subscription", lambda: f"{tag}; {state}")
                    else:
                        if not shaky and events[0]["type"] == "state" and events[0]["state"].value == "scheduled":
                            stats["followed"] += 1
                            seen = [ev["current"] for ev in events if ev["type"] == "progress" and ev["current"] is not None]
                            check(seen[-1:] == [4] and seen == sorted(seen), "progress", lambda: f"{tag}: {seen} seen; {state}")
                            check([ev["message"] for ev in events if ev["type"] == "progress"][-1] == "step 4", "message", lambda: f"{tag}: {events}; {state}")
                    got = await result(e)
                    check(got == 4, "result", lambda: f"{tag}: {got}; {state}")
                elif what == "forever":
                    e = await patiently(lambda: d.add(forever, key=tag)(tag))
                    while tag not in runs:
                        await asyncio.sleep(0.02)
                    await asyncio.sleep(0.05)
                    t0 = time.monotonic()
                    # best effort: repeated while connections come and go
                    while True:
                        await patiently(lambda: d.cancel(tag))
                        for _ in range(100):
                            if tag in cancelled:
                                break
                            await asyncio.sleep(0.02)
                        if tag in cancelled or not faults or time.monotonic() - t0 > 20:
                            break
                    check(tag in cancelled, "cancel", lambda: f"{tag} goes on {time.monotonic() - t0:.1f} s after it was cancelled; {state}")
                    try:
                        got = await result(e)
                        got = ("value", got)
                    except ExecutionCancelled:
                        got = "cancelled"
                    check(got == "cancelled", "cancelled", lambda: f"{tag}: {got}; {state}")
                elif what == "again":
                    await patiently(lambda: d.add(again, when=at, key=tag)(tag))
                    t0 = time.monotonic()
                    while runs.count(tag) < 4 and time.monotonic() - t0 < 25:
                        await asyncio.sleep(0.02)
                    check(runs.count(tag) >= 4, "perpetual", lambda: f"{tag} ran {runs.count(tag)} times; {state}")
                elif what == "replaced":
                    later = datetime.now(timezone.utc) + sec(3 if faults else 1.0)
                    await patiently(lambda: d.add(echo, when=later, key=tag)("old " + tag, 1))
                    e = await patiently(lambda: d.replace(echo, datetime.now(timezone.utc) + sec(0.1), tag)(tag, 2))
                    early = datetime.now(timezone.utc) < later
                    got = await result(e)
                    check(got == 2 and ("old " + tag not in runs or not early), "replaced", lambda: f"{tag}: {got}, runs {[x for x in runs if tag in x]}; {state}")
                else:
                    later = datetime.now(timezone.utc) + sec(4 if faults else 0.5)
                    await patiently(lambda: d.add(echo, when=later, key=tag)("gone " + tag, 1))
                    await patiently(lambda: d.cancel(tag))
                    early = datetime.now(timezone.utc) < later
                    await asyncio.sleep(max(0, (later - datetime.now(timezone.utc)).total_seconds()) + 0.4)
                    check("gone " + tag not in runs or not early, "ran", lambda: f"{tag} was cancelled; {state}")
                if not faults and not stats["worker_ended"] and not (shaky and setup.kind == "cluster"):
                    want = {"echo": 1, "boom": 1, "flaky": 3, "limited": 1, "steps": 1, "forever": 1, "again": 4, "replaced": 1, "withdrawn": 0}[what]
                    check(runs.count(tag) == want, "run-count", lambda: f"{tag} ({what}) ran {runs.count(tag)} times; {state}")
            jobs = [asyncio.ensure_future(asyncio.wait_for(one(i), 90)) for i in range(n)]
            # strikes reach everyone
            if r.random() < 0.6:
                await patiently(lambda: d.strike("struck", "kind", "==", "bad"))
                await asyncio.sleep(3.0 if shaky else 0.4)
                e = await patiently(lambda: wd.add(struck, key="s1")("s1", "bad"))
                check(e.disposition.value == "struck", "strike", lambda: f"{e.disposition} after a strike; {state}")
                e = await patiently(lambda: wd.add(struck, key="s2")("s2", "good"))
                try:
                    await result(e)
                except Spoiled:
                    runs.append("s2")
                check(runs.count("s2") >= 1 and "s1" not in runs, "struck-runs", lambda: f"{runs}; {state}")
                stats["strikes"] += 1
            for j in await asyncio.gather(*jobs, return_exceptions=True):
                if isinstance(j, Spoiled):
                    stats["spoiled"] += 1
                elif isinstance(j, BaseException) and shaky and lost(j):
                    stats["lost"] += 1
                elif isinstance(j, BaseException):
                    import traceback
                    check(False, "failed", lambda: f"{state}: {''.join(traceback.format_exception(j))[-900:]}")
            snap = await patiently(lambda: d.snapshot())
            stop_faults.set()
            await faulting
            for i in range(5):
                # and now that all is well again
                e = await patiently(lambda: d.add(echo, key=f"after{i}")(f"after{i}", i))
                try:
                    check(await result(e) == i, "result", lambda: f"after{i}; {state}")
                    break
                except Spoiled:
                    await asyncio.sleep(0.3)
            else:
                check(False, "no-recovery", state)
            if not faults:
                check([x.name for x in snap.workers] == ["w0"], "workers", lambda: f"{snap.workers}; {state}")
            later = datetime.now(timezone.utc) + sec(1000)
            for i in range(3):
                await patiently(lambda: d.add(echo, when=later, key=f"c{i}")("c", i))
            got = await patiently(lambda: d.clear())
            check(got == 3 or bool(faults), "clear", lambda: f"{got} cleared; {state}")
            check(not run.done(), "worker-ended", lambda: f"{run}; {state}")
            run.cancel()
            await asyncio.wait({run}, timeout=20)
            check(run.done(), "worker-hangs", state)
            stats["tasks"] += n
            if run.done() and not run.cancelled() and run.exception():
                check(False, "worker-failed", lambda: f"{run.exception()!r}; {state}")
    return state, n


async def quiet(d, echo, forever, steps, state):
    """Long waits on silent connections."""
    e = await d.add(echo, when=datetime.now(timezone.utc) + sec(7.0), key="late")("late", 42)
    await asyncio.sleep(1.0)
    before = {n.id: n.opened for n in nodes}
    t0 = time.monotonic()
    seen = []

    async def follow():
        async for ev in e.subscribe():
            seen.append(ev)
            if ev["type"] == "state" and ev["state"].value == "completed":
                return
    following = asyncio.ensure_future(follow())
    got = await e.get_result(timeout=sec(20))
    took = time.monotonic() - t0
    await asyncio.wait({following}, timeout=5)
    check(following.done() and not following.exception(), "idle-subscription", lambda: f"{following} after {took:.1f}s, {seen}; {state}")
    check(got == 42 and took > 5, "idle-result", lambda: f"{got} after {took:.1f}s; {state}")
    grown = sum(n.opened - before[n.id] for n in nodes)
    stats["idle"] += 1
    stats["grown"] += grown
    check(grown <= 20, "reconnects", lambda: f"{grown} new connections during {took:.1f}s without much to do; {state}")


async def disturb(setup, faults, stop):
    """Failovers, lost connections, forgotten scripts."""
    for what in faults:
        try:
            await asyncio.wait_for(stop.wait(), r.uniform(0.1, 0.6))
            return
        except asyncio.TimeoutError:
            pass
        stats[what] += 1
        if what == "flush":
            for n in nodes:
                n.scripts.clear()
        elif what == "drop":
            for n in list(nodes):
                await lab.ado(n.drop(r.choice([0.3, 1.0]), random.Random(r.random())))
        elif what == "restart":
            n = r.choice(nodes)
            await lab.ado(n.down())
            n.scripts.clear()
            await asyncio.sleep(r.uniform(0.05, 0.5))
            await lab.ado(n.up())
        elif what == "failover":
            old = nodes[-1]
            new = Node(lab, "standalone", "127.0.0.1", data=old.data, users=old.users, tls=old.tls)
            how = r.choice(["demoted", "demoted-dropping", "dead"])
            stats["failover-" + how] += 1
            await lab.ado(new.up())
            old.readonly = True
            if how == "dead":
                await lab.ado(old.down())
            elif how == "demoted-dropping":
                await lab.ado(old.drop())
            await asyncio.sleep(r.choice([0, 0.3]))       # until the Sentinels know
            nodes.append(new)
            if how == "demoted":
                # (a replica that was a master drops its blocked clients, at least)
                await lab.ado(old.drop())
            setup.moved = time.monotonic() - lab.t0


def judge(setup, faults, state, n):
    every = nodes + sentinels + decoys
    if any(v["sig"] == "unreachable" for v in violations):
        return
    deadline = time.monotonic() + 3
    while any(x.connections for x in every) and time.monotonic() < deadline:
        time.sleep(0.02)
    for x in every:
        what = "sentinel" if x in sentinels else "server"
        check(not x.connections or bool(faults) and x in sentinels, "left-open", lambda: f"{len(x.connections)} connections to a {what} left open, last commands {[c.last for c in x.connections][:5]}; {state}")
        for kind, detail, t in x.notes:
            if kind == "unknown-command":
                raise RuntimeError(f"the server of this check doesn't know {detail}")
            if kind in ("moved",) or kind == "readonly" and faults:
                continue
            check(False, kind, lambda: f"{what}: {detail}; {state}")
    check(not any(x.opened for x in decoys), "wrong-server", lambda: f"another service's master was contacted; {state}")
    used = Counter()
    for x in nodes:
        used.update(x.dbs)
        stats["commands"] += sum(x.seen.values())
        stats["connections"] += x.opened
    stats["asked"] += sum(x.asked for x in sentinels)
    stats["sentinels"] += len(sentinels)
    check(set(used) == {setup.db}, "database", lambda: f"databases used: {dict(used)}, named: {setup.db}; {state}")
    check(sum(used.values()) > 20, "no-work", lambda: f"{dict(used)}; {state}")
    if setup.client_name:
        names = {m for x in nodes for m in x.names}
        check(names == {setup.client_name}, "options", lambda: f"client_name: {names}; {state}")
    if setup.kind == "cluster":
        moved = [m for x in nodes for m in x.notes if m[0] == "moved"]
        check(not moved or bool(faults), "moved", lambda: f"{moved[:3]}; {state}")
        for x in nodes:
            async def written():
                return await x.data.db(0).keys("*")
            keys = lab.do(written())
            stats["keys"] += len(keys)
            stray = [b2s(k) for k in keys if setup.family.owner(key_slot(k)) is not x]
            check(not stray, "stray-keys", lambda: f"{stray[:5]} written on the wrong node; {state}")
    if not faults:
        most = sum(x.most for x in nodes)
        opened = sum(x.opened for x in nodes)
        stats["most"] = max(stats["most"], most)
        bound = 60 + 4 * n
        check(opened <= bound * (len(nodes) if setup.kind == "cluster" else 1), "connections", lambda: f"{opened} connections opened, {most} at once, for {n} tasks; {state}")


error = None
state = ""
try:
    setup = Setup()
    faults = []
    if mode == "any" and r.random() < 0.6:
        # (how redis-py's cluster client gets over lost connections is its own affair)
        kinds = ["flush"] if setup.kind == "cluster" else ["flush", "flush", "drop", "restart"] + (["failover"] * 4 if setup.kind == "sentinel" else [])
        faults = [r.choice(kinds) for _ in range(r.choice([1, 2, 3]))]
    hard = [f for f in faults if f != "flush"]
    loop_state, n = asyncio.run(asyncio.wait_for(main(setup, hard, "idle" in sys.argv[3:], faults), 120))
    judge(setup, hard, loop_state, n)
    state = loop_state
except BaseException:
    import traceback
    error = traceback.format_exc()[-2500:] + "\n" + repr(lab.errors[:3])
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print(json.dumps(dict(error=error, violations=violations, stats=stats, state=state, errors=lab.errors[:3])), flush=True)
os._exit(0)
