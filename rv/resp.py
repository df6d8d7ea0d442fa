"""A Redis server to connect to: speaks RESP on real sockets, keeps its data in
in-memory backends, and plays a standalone server, a Sentinel, or a node of a
cluster.  Runs in a thread of its own and notes all that goes on."""
import asyncio
import os
import re
import socket
import ssl
import threading
import time
from collections import Counter

from redis.crc import key_slot


class S(str):
    """A simple string."""


class Err(Exception):
    pass


def num(x):
    return float(x.decode())


def b2s(x):
    return x.decode("utf-8", "surrogateescape") if isinstance(x, bytes) else x


class Data:
    """What a server holds: one backend per database, and the subscriptions."""

    def __init__(self):
        self.dbs = {}
        self.subscribers = set()      # connections, of all the nodes that share this
        self.scripts = {}             # of this server: forgotten by flush
        self.arrived = asyncio.Event()
        self.lock = asyncio.Lock()

    def db(self, n):
        if n not in self.dbs:
            import burner_redis
            self.dbs[n] = burner_redis.BurnerRedis()
        return self.dbs[n]

    def wake(self):
        self.arrived.set()
        self.arrived = asyncio.Event()


def glob(pattern):
    out, i = "", 0
    while i < len(pattern):
        ch = pattern[i]
        if ch == "\\" and i + 1 < len(pattern):
            i += 1
            out += re.escape(pattern[i])
        elif ch == "*":
            out += ".*"
        elif ch == "?":
            out += "."
        elif ch == "[" and "]" in pattern[i:]:
            j = pattern.index("]", i)
            out += pattern[i:j + 1]
            i = j
        else:
            out += re.escape(ch)
        i += 1
    return re.compile(out + r"\Z", re.S)


WRITES = set("SET SETEX DEL UNLINK EXPIRE PEXPIRE HSET HDEL HINCRBY SADD SREM ZADD ZREM ZREMRANGEBYSCORE XADD XACK XAUTOCLAIM XCLAIM XREADGROUP XTRIM XDEL XGROUP EVAL EVALSHA LPUSH RPUSH LPOP RPOP PERSIST".split())
# position of the keys: (first, last, step)
KEYS = {n: (1, 1, 1) for n in "GET SET SETEX TTL PTTL TYPE EXPIRE PEXPIRE PERSIST HGET HGETALL HDEL HINCRBY HSET HEXISTS HVALS HMGET HLEN HKEYS SADD SREM SMEMBERS SCARD SISMEMBER ZADD ZREM ZCARD ZRANGE ZRANGEBYSCORE ZREMRANGEBYSCORE ZSCORE ZCOUNT XADD XACK XAUTOCLAIM XCLAIM XRANGE XREVRANGE XLEN XTRIM XDEL XPENDING LPUSH RPUSH LPOP RPOP LLEN LRANGE INCR DECR INCRBY GETDEL".split()}
KEYS.update({n: (1, -1, 1) for n in "DEL UNLINK EXISTS MGET".split()})
KEYS.update({"XINFO": (2, 2, 1), "XGROUP": (2, 2, 1)})
MOVABLE = {"XREAD", "XREADGROUP", "EVAL", "EVALSHA"}


def keys_of(cmd, a):
    """a: the arguments, without the command"""
    if cmd in ("EVAL", "EVALSHA"):
        return a[2:2 + int(a[1])]
    if cmd in ("XREAD", "XREADGROUP"):
        up = [x.upper() for x in a]
        i = up.index(b"STREAMS") + 1
        return a[i:i + (len(a) - i) // 2]
    if cmd in KEYS:
        first, last, step = KEYS[cmd]
        return a[first - 1:(len(a) if last == -1 else last)]
    return []


class Connection:
    def __init__(self, node, reader, writer):
        self.node, self.reader, self.writer = node, reader, writer
        self.proto, self.db, self.user = 2, 0, None
        self.channels, self.patterns = {}, {}
        self.queue = None             # MULTI
        self.name = None
        self.n = 0
        self.last = None

    # -- replies
    def enc(self, v, out):
        if v is None:
            out.append(b"_\r\n" if self.proto == 3 else b"$-1\r\n")
        elif isinstance(v, S):
            out.append(b"+" + v.encode() + b"\r\n")
        elif isinstance(v, Exception):
            t = str(v).splitlines()[0] if str(v) else "ERR"
            if not re.match(r"[A-Z]+ ", t):
                t = "ERR " + t
            out.append(b"-" + t.encode() + b"\r\n")
        elif isinstance(v, bool):
            out.append(b":%d\r\n" % v)
        elif isinstance(v, int):
            out.append(b":%d\r\n" % v)
        elif isinstance(v, float):
            t = repr(v).encode()
            t = t[:-2] if t.endswith(b".0") else t
            out.append(b"," + t + b"\r\n" if self.proto == 3 else b"$%d\r\n%s\r\n" % (len(t), t))
        elif isinstance(v, (bytes, str)):
            t = v.encode() if isinstance(v, str) else v
            out.append(b"$%d\r\n" % len(t) + t + b"\r\n")
        elif isinstance(v, dict):
            if self.proto == 3:
                out.append(b"%%%d\r\n" % len(v))
            else:
                out.append(b"*%d\r\n" % (2 * len(v)))
            for k, x in v.items():
                self.enc(k, out)
                self.enc(x, out)
        elif isinstance(v, (set, frozenset)):
            out.append((b"~%d\r\n" if self.proto == 3 else b"*%d\r\n") % len(v))
            for x in v:
                self.enc(x, out)
        elif isinstance(v, (list, tuple)):
            out.append(b"*%d\r\n" % len(v))
            for x in v:
                self.enc(x, out)
        else:
            raise TypeError(type(v))

    def send(self, v):
        out = []
        self.enc(v, out)
        try:
            self.writer.write(b"".join(out))
        except Exception:
            pass

    def push(self, items):
        out = [(b">%d\r\n" if self.proto == 3 else b"*%d\r\n") % len(items)]
        for x in items:
            self.enc(x, out)
        try:
            self.writer.write(b"".join(out))
        except Exception:
            pass

    # -- requests
    async def read(self):
        line = await self.reader.readline()
        if not line:
            return None
        if not line.startswith(b"*"):
            self.node.note("garbage", self, line[:40])
            return None
        parts = []
        for _ in range(int(line[1:])):
            head = await self.reader.readline()
            n = int(head[1:])
            parts.append((await self.reader.readexactly(n + 2))[:-2])
        return parts

    async def serve(self):
        try:
            while True:
                parts = await self.read()
                if not parts:
                    return
                cmd = parts[0].decode().upper()
                self.n += 1
                self.last = cmd
                if self.node.delay:
                    await asyncio.sleep(self.node.delay(cmd))
                try:
                    v = await self.dispatch(cmd, parts[1:])
                except Err as e:
                    v = e
                if v is not NOTHING:
                    if self.node.cut and self.node.cut(self, cmd, "after"):
                        return
                    self.send(v)
                    await self.writer.drain()
        except (ConnectionError, asyncio.IncompleteReadError, ssl.SSLError):
            pass

    async def dispatch(self, cmd, a):
        node = self.node
        if cmd == "HELLO":
            proto = int(a[0]) if a else self.proto
            i = 1
            while i < len(a):
                if a[i].upper() == b"AUTH":
                    self.auth(a[i + 1], a[i + 2])
                    i += 3
                elif a[i].upper() == b"SETNAME":
                    self.name = b2s(a[i + 1])
                    i += 2
                else:
                    raise Err("ERR syntax")
            if node.users is not None and self.user is None:
                raise Err("NOAUTH HELLO must be called with the client already authenticated")
            self.proto = proto
            return {b"server": b"redis", b"version": b"7.4.0", b"proto": proto, b"id": id(self) % 10 ** 6, b"mode": node.mode.encode(), b"role": b"master", b"modules": []}
        if cmd == "AUTH":
            self.auth(*(a if len(a) == 2 else [b"default", a[0]]))
            return S("OK")
        if cmd == "QUIT":
            return S("OK")
        if node.users is not None and self.user is None:
            node.note("unauthenticated", self, cmd)
            raise Err("NOAUTH Authentication required.")
        node.seen[cmd] += 1
        if cmd in ("PING",):
            if (self.channels or self.patterns) and self.proto == 2:
                self.push([b"pong", a[0] if a else b""])
                return NOTHING
            return a[0] if a else S("PONG")
        if cmd == "CLIENT":
            sub = a[0].upper()
            if sub == b"SETNAME":
                self.name = b2s(a[1])
            if sub == b"GETNAME":
                return self.name
            if sub == b"ID":
                return id(self) % 10 ** 6
            if sub in (b"SETINFO", b"SETNAME", b"NO-EVICT", b"NO-TOUCH"):
                return S("OK")
            raise Err("ERR unknown subcommand")
        if cmd == "SELECT":
            if node.mode == "cluster" and int(a[0]):
                raise Err("ERR SELECT is not allowed in cluster mode")
            self.db = int(a[0])
            return S("OK")
        if cmd == "INFO":
            return b"# Server\r\nredis_version:7.4.0\r\nredis_mode:%s\r\nrole:master\r\n" % node.mode.encode()
        if cmd == "ROLE":
            return [b"slave" if node.readonly else b"master", 0, []]
        if node.mode == "sentinel":
            return self.sentinel(cmd, a)
        if cmd == "COMMAND":
            return self.command(a)
        if cmd == "CLUSTER":
            return self.cluster(a)
        if cmd in ("READONLY", "READWRITE", "ASKING"):
            return S("OK")
        if cmd == "MULTI":
            self.queue = []
            return S("OK")
        if cmd == "DISCARD":
            self.queue = None
            return S("OK")
        if cmd in ("WATCH", "UNWATCH"):
            return S("OK")
        if cmd == "EXEC":
            queue, self.queue = self.queue, None
            async with node.data.lock:
                out = []
                for c, x in queue:
                    try:
                        out.append(await self.run(c, x, True))
                    except Err as e:
                        out.append(e)
            node.data.wake()
            return out
        self.where(cmd, a)
        if self.queue is not None:
            self.queue.append((cmd, a))
            return S("QUEUED")
        if cmd in ("XREAD", "XREADGROUP"):
            return await self.blocking(cmd, a)
        if node.cut and node.cut(self, cmd, "before"):
            raise ConnectionResetError
        async with node.data.lock:
            v = await self.run(cmd, a)
        if cmd in WRITES:
            node.data.wake()
        return v

    def auth(self, user, password):
        user, password = b2s(user), b2s(password)
        if self.node.users is None:
            self.node.note("needless-auth", self, (user, password))
            raise Err("ERR AUTH <password> called without any password configured for the default user.")
        if self.node.users.get(user) != password:
            self.node.note("wrong-auth", self, (user, password))
            raise Err("WRONGPASS invalid username-password pair or user is disabled.")
        self.user = user

    def where(self, cmd, a):
        """Is this the place for it?"""
        node = self.node
        keys = keys_of(cmd, a)
        if keys:
            node.dbs[self.db] += 1
        if node.readonly and cmd in WRITES:
            node.note("readonly", self, cmd)
            raise Err("READONLY You can't write against a read only replica.")
        if node.mode == "cluster" and keys:
            slots = {key_slot(k) for k in keys}
            if len(slots) > 1:
                node.note("crossslot", self, (cmd, [b2s(k) for k in keys]))
                raise Err("CROSSSLOT Keys in request don't hash to the same slot")
            slot = slots.pop()
            owner = node.family.owner(slot)
            if owner is not node:
                node.note("moved", self, (cmd, [b2s(k) for k in keys]))
                raise Err(f"MOVED {slot} {owner.host}:{owner.port}")

    def sentinel(self, cmd, a):
        node = self.node
        if cmd != "SENTINEL":
            raise Err(f"ERR unknown command '{cmd}'")
        node.asked += 1
        sub = a[0].upper()
        masters = node.masters()          # name -> (host, port, flags)

        def state(name):
            host, port, flags = masters[name]
            return {"name": name, "ip": host, "port": str(port), "runid": "x" * 40, "flags": flags, "link-pending-commands": "0", "link-refcount": "1", "last-ping-sent": "0", "last-ok-ping-reply": "100", "last-ping-reply": "100", "down-after-milliseconds": "5000", "info-refresh": "1000", "role-reported": "master", "role-reported-time": "1000", "config-epoch": "1", "num-slaves": "1", "num-other-sentinels": "2", "quorum": "2", "failover-timeout": "60000", "parallel-syncs": "1"}
        if sub == b"MASTERS":
            return [state(n) for n in masters]
        if sub == b"MASTER":
            return state(b2s(a[1]))
        if sub in (b"SLAVES", b"REPLICAS"):
            return []
        if sub == b"GET-MASTER-ADDR-BY-NAME":
            m = masters.get(b2s(a[1]))
            return m and [m[0], str(m[1])]
        raise Err("ERR unknown subcommand")

    def command(self, a):
        if a and a[0].upper() == b"GETKEYS":
            return list(keys_of(a[1].decode().upper(), a[2:]))
        if a and a[0].upper() == b"DOCS":
            return {}
        if a and a[0].upper() == b"COUNT":
            return len(KEYS)
        out = []
        for n, (first, last, step) in sorted(KEYS.items()):
            out.append([n.lower(), -2, [S("write" if n in WRITES else "readonly")], first, last, step, [], [], [], []])
        for n in sorted(MOVABLE):
            out.append([n.lower(), -3, [S("write"), S("movablekeys")], 0, 0, 0, [], [], [], []])
        for n in ("ping", "publish", "subscribe", "psubscribe", "script", "cluster", "command", "info", "client", "select", "auth"):
            out.append([n, -1, [S("fast")], 0, 0, 0, [], [], [], []])
        return out

    def cluster(self, a):
        fam = self.node.family
        sub = a[0].upper()
        if fam is None:
            raise Err("ERR This instance has cluster support disabled")
        if sub == b"SLOTS":
            return [[lo, hi, [n.host, n.port, n.id, []]] for n, (lo, hi) in fam.ranges]
        if sub == b"SHARDS":
            return [{b"slots": [lo, hi], b"nodes": [{b"id": n.id, b"port": n.port, b"ip": n.host, b"endpoint": n.host, b"role": b"master", b"replication-offset": 1, b"health": b"online"}]} for n, (lo, hi) in fam.ranges]
        if sub == b"NODES":
            return "".join(f"{n.id} {n.host}:{n.port}@{n.port + 10000} master - 0 0 1 connected {lo}-{hi}\n" for n, (lo, hi) in fam.ranges)
        if sub == b"MYID":
            return self.node.id
        if sub == b"KEYSLOT":
            return key_slot(a[1])
        if sub == b"INFO":
            return "cluster_state:ok\r\ncluster_slots_assigned:16384\r\n"
        raise Err("ERR unknown subcommand")

    async def blocking(self, cmd, a):
        up = [x.upper() for x in a[:8]]
        limit = None
        if b"BLOCK" in up:
            ms = int(a[up.index(b"BLOCK") + 1])
            limit = time.monotonic() + ms / 1000 if ms else float("inf")
        if cmd == "XREAD" and b"$" in a:
            # what is last by now
            i = [x.upper() for x in a].index(b"STREAMS") + 1
            n = (len(a) - i) // 2
            a = list(a)
            for j in range(i + n, len(a)):
                if a[j] == b"$":
                    last = await self.node.data.db(self.db).xrevrange(a[j - n], count=1)
                    a[j] = last[0][0] if last else b"0-0"
        while True:
            if self.node.closing or self.reader.at_eof():
                raise ConnectionResetError
            arrived = self.node.data.arrived
            async with self.node.data.lock:
                v = await self.run(cmd, a)
            if v or limit is None:
                return v
            left = limit - time.monotonic()
            if left <= 0:
                return None
            try:
                await asyncio.wait_for(arrived.wait(), min(left, 0.2))
            except asyncio.TimeoutError:
                pass

    async def run(self, cmd, a, in_multi=False):
        node = self.node
        r = node.data.db(self.db)
        try:
            if cmd in ("EVAL", "EVALSHA"):
                return await self.script(r, cmd, a)
            f = getattr(self, "c_" + cmd.lower(), None)
            if f is not None:
                return await f(r, *a)
            return await r.eval("return redis.call(unpack(ARGV))", 0, cmd, *a)
        except Err:
            raise
        except Exception as e:
            t = str(e).splitlines()[0] if str(e) else type(e).__name__
            if "unknown command" in t:
                node.note("unknown-command", self, cmd)
            t = re.sub(r"^runtime error: ", "", t)
            raise Err(t if re.match(r"[A-Z]+ ", t) else "ERR " + t)

    # -- scripts
    async def script(self, r, cmd, a):
        import hashlib
        scripts = self.node.scripts
        if cmd == "EVALSHA":
            sha = b2s(a[0]).lower()
            if sha not in scripts:
                raise Err("NOSCRIPT No matching script. Please use EVAL.")
        else:
            sha = hashlib.sha1(a[0]).hexdigest()
            scripts[sha] = a[0]
        text = b2s(scripts[sha])
        # what scripts publish reaches our own subscribers
        text = text.replace("'PUBLISH'", "'RPUSH', '__published__'").replace('"PUBLISH"', "'RPUSH', '__published__'")
        text = text.replace("'publish'", "'RPUSH', '__published__'").replace('"publish"', "'RPUSH', '__published__'")
        n = int(a[1])
        v = await r.eval(text, n, *a[2:])
        published = await r.lrange("__published__", 0, -1)
        if published:
            await r.delete("__published__")
            for i in range(0, len(published), 2):
                self.node.publish(published[i], published[i + 1])
        if isinstance(v, bytes) and v == b"OK":
            return S("OK")
        return v

    async def c_script(self, r, sub, *a):
        import hashlib
        sub = sub.upper()
        if sub == b"LOAD":
            sha = hashlib.sha1(a[0]).hexdigest()
            self.node.scripts[sha] = a[0]
            return sha
        if sub == b"EXISTS":
            return [int(b2s(x) in self.node.scripts) for x in a]
        if sub == b"FLUSH":
            self.node.scripts.clear()
            return S("OK")
        raise Err("ERR unknown subcommand")

    # -- pub/sub
    async def c_publish(self, r, channel, message):
        return self.node.publish(channel, message)

    async def c_subscribe(self, r, *channels):
        self.node.data.subscribers.add(self)
        for ch in channels:
            self.channels[ch] = True
            self.push([b"subscribe", ch, len(self.channels) + len(self.patterns)])
        return NOTHING

    async def c_psubscribe(self, r, *patterns):
        self.node.data.subscribers.add(self)
        for p in patterns:
            self.patterns[p] = glob(b2s(p))
            self.push([b"psubscribe", p, len(self.channels) + len(self.patterns)])
        return NOTHING

    async def c_unsubscribe(self, r, *channels):
        for ch in channels or list(self.channels) or [None]:
            self.channels.pop(ch, None)
            self.push([b"unsubscribe", ch, len(self.channels) + len(self.patterns)])
        return NOTHING

    async def c_punsubscribe(self, r, *patterns):
        for p in patterns or list(self.patterns) or [None]:
            self.patterns.pop(p, None)
            self.push([b"punsubscribe", p, len(self.channels) + len(self.patterns)])
        return NOTHING

    # -- keys
    async def c_set(self, r, key, value, *opts):
        kw, i, get = {}, 0, False
        while i < len(opts):
            o = opts[i].upper().decode()
            if o in ("EX", "PX", "EXAT", "PXAT"):
                kw[o.lower()] = int(opts[i + 1])
                i += 1
            elif o in ("NX", "XX", "KEEPTTL"):
                kw[o.lower()] = True
            elif o == "GET":
                get = True
            i += 1
        v = await r.set(key, value, **kw, **({"get": True} if get else {}))
        if get:
            return v
        return S("OK") if v else None

    async def c_setex(self, r, key, ttl, value):
        await r.setex(key, int(ttl), value)
        return S("OK")

    async def c_mget(self, r, *keys):
        return await r.mget(list(keys))

    async def c_unlink(self, r, *keys):
        return await r.delete(*keys)

    async def c_ttl(self, r, key):
        return await r.ttl(key)

    async def c_keys(self, r, pattern):
        return await r.keys(pattern)

    async def c_scan(self, r, cursor, *opts):
        up = [o.upper() for o in opts]
        pattern = opts[up.index(b"MATCH") + 1] if b"MATCH" in up else b"*"
        return [b"0", await r.keys(pattern)]

    async def c_hgetall(self, r, key):
        return await r.hgetall(key)

    async def c_hmget(self, r, key, *fields):
        return [await r.hget(key, f) for f in fields]

    async def c_smembers(self, r, key):
        return set(await r.smembers(key))

    async def c_scard(self, r, key):
        return len(await r.smembers(key))

    def scored(self, v):
        if self.proto == 3:
            return [[m, float(s)] for m, s in v]
        return [x for m, s in v for x in (m, float(s))]

    async def c_zrange(self, r, key, lo, hi, *opts):
        up = [o.upper() for o in opts]
        if b"BYSCORE" in up:
            v = await r.zrangebyscore(key, b2s(lo), b2s(hi), withscores=b"WITHSCORES" in up)
        else:
            v = await r.zrange(key, int(lo), int(hi), withscores=b"WITHSCORES" in up)
        if b"REV" in up:
            v = list(reversed(v))
        return self.scored(v) if b"WITHSCORES" in up else v

    async def c_zrangebyscore(self, r, key, lo, hi, *opts):
        up = [o.upper() for o in opts]
        kw = {}
        if b"LIMIT" in up:
            i = up.index(b"LIMIT")
            kw = dict(start=int(opts[i + 1]), num=int(opts[i + 2]))
        v = await r.zrangebyscore(key, b2s(lo), b2s(hi), withscores=b"WITHSCORES" in up, **kw)
        return self.scored(v) if b"WITHSCORES" in up else v

    async def c_zscore(self, r, key, m):
        v = await r.zscore(key, m)
        return None if v is None else float(v)

    async def c_zcount(self, r, key, lo, hi):
        return await r.zcount(key, b2s(lo), b2s(hi))

    # -- streams
    def entries(self, v):
        return [[i, None if f is None else [x for k, y in f.items() for x in (k, y)]] for i, f in v]

    def streams(self, v):
        if not v:
            return None
        if isinstance(v, dict):
            v = list(v.items())
        if self.proto == 3:
            return {k: self.entries(e) for k, e in v}
        return [[k, self.entries(e)] for k, e in v]

    async def c_xadd(self, r, key, *a):
        return await r.eval("return redis.call(unpack(ARGV))", 0, "XADD", key, *a)

    async def c_xread(self, r, *a):
        up = [x.upper() for x in a]
        i = up.index(b"STREAMS") + 1
        names = a[i:i + (len(a) - i) // 2]
        ids = a[i + len(names):]
        count = int(a[up.index(b"COUNT") + 1]) if b"COUNT" in up[:i] else None
        return self.streams(await r.xread({k: b2s(v) for k, v in zip(names, ids)}, count=count))

    async def c_xreadgroup(self, r, *a):
        up = [x.upper() for x in a]
        i = up.index(b"STREAMS") + 1
        names = a[i:i + (len(a) - i) // 2]
        ids = a[i + len(names):]
        count = int(a[up.index(b"COUNT") + 1]) if b"COUNT" in up[:i] else None
        self.node.claims += 1
        return self.streams(await r.xreadgroup(groupname=b2s(a[1]), consumername=b2s(a[2]), streams={k: b2s(v) for k, v in zip(names, ids)}, count=count))

    async def c_xrange(self, r, key, lo, hi, *opts):
        count = int(opts[1]) if opts else None
        return self.entries(await r.xrange(key, b2s(lo), b2s(hi), count=count))

    async def c_xgroup(self, r, sub, key, group, *a):
        if sub.upper() == b"CREATE":
            await r.xgroup_create(key, group, id=b2s(a[0]), mkstream=b"MKSTREAM" in [x.upper() for x in a])
            return S("OK")
        raise Err("ERR unknown subcommand")

    async def c_xautoclaim(self, r, key, group, consumer, idle, start, *opts):
        up = [o.upper() for o in opts]
        count = int(opts[up.index(b"COUNT") + 1]) if b"COUNT" in up else None
        v = await r.xautoclaim(key, group, consumer, int(idle), b2s(start), count=count)
        return [v[0], self.entries(v[1]), list(v[2]) if len(v) > 2 else []]

    async def c_xclaim(self, r, key, group, consumer, idle, *rest):
        ids = [x for x in rest if re.fullmatch(rb"\d+-\d+", x)]
        up = [x.upper() for x in rest]
        kw = {}
        if b"IDLE" in up:
            kw["idle"] = int(rest[up.index(b"IDLE") + 1])
        v = await r.xclaim(key, group, consumer, int(idle), ids, **kw)
        return self.entries(v)

    async def c_xpending(self, r, key, group, *a):
        if not a:
            v = await r.xpending(key, group)
            return [v["pending"], v.get("min"), v.get("max"), [[x["name"], str(x["pending"])] for x in v.get("consumers") or []]]
        kw = {}
        a = list(a)
        if a[0].upper() == b"IDLE":
            kw["idle"] = int(a[1])
            a = a[2:]
        if len(a) > 3:
            kw["consumername"] = b2s(a[3])
        v = await r.xpending_range(key, group, b2s(a[0]), b2s(a[1]), int(a[2]), **kw)
        v = [{b2s(k): y for k, y in x.items()} for x in v]
        return [[x["message_id"], x["consumer"], x["time_since_delivered"], x["times_delivered"]] for x in v]

    async def c_xtrim(self, r, key, kind, *a):
        a = [x for x in a if x not in (b"~", b"=")]
        return await r.xtrim(key, **({"maxlen": int(a[0])} if kind.upper() == b"MAXLEN" else {"minid": b2s(a[0])}))

    async def c_xinfo(self, r, sub, key, *a):
        sub = sub.upper()
        v = await (r.xinfo_groups(key) if sub == b"GROUPS" else r.xinfo_consumers(key, a[0]) if sub == b"CONSUMERS" else r.xinfo_stream(key))
        return v


NOTHING = object()


class Node:
    """One listening server."""

    def __init__(self, lab, mode="standalone", host="127.0.0.1", port=0, data=None, users=None, tls=None, unix=None, family=None):
        self.lab, self.mode, self.host, self.port, self.users, self.tls, self.unix, self.family = lab, mode, host, port, users, tls, unix, family
        self.data = data or Data()
        self.scripts = {}
        self.readonly = False
        self.closing = False
        self.connections = set()
        self.opened = 0
        self.most = 0
        self.claims = 0
        self.asked = 0
        self.seen, self.dbs = Counter(), Counter()
        self.notes = []
        self.names = set()
        self.delay = None
        self.cut = None
        self.masters = dict
        self.id = os.urandom(20).hex()
        self.server = None

    def note(self, what, conn, detail):
        if len(self.notes) < 200:
            self.notes.append((what, detail, time.monotonic() - self.lab.t0))

    def publish(self, channel, message):
        n = 0
        sets = [m.data.subscribers for m in self.family.nodes] if self.family else [self.data.subscribers]
        for conn in {c for s in sets for c in s}:
            if channel in conn.channels:
                n += 1
                conn.push([b"message", channel, message])
            for p, rx in conn.patterns.items():
                if rx.match(b2s(channel)):
                    n += 1
                    conn.push([b"pmessage", p, channel, message])
        return n

    async def accept(self, reader, writer):
        conn = Connection(self, reader, writer)
        conn.task = asyncio.current_task()
        self.connections.add(conn)
        self.opened += 1
        self.most = max(self.most, len(self.connections))
        try:
            if not self.closing:
                await conn.serve()
        except asyncio.CancelledError:
            pass
        finally:
            if conn.name:
                self.names.add(conn.name)
            self.connections.discard(conn)
            self.data.subscribers.discard(conn)
            try:
                writer.transport.abort()
            except Exception:
                pass

    async def up(self):
        self.closing = False
        if self.unix:
            self.server = await asyncio.start_unix_server(self.accept, self.unix)
        else:
            self.server = await asyncio.start_server(self.accept, self.host, self.port, ssl=self.tls, reuse_address=True)
            self.port = self.server.sockets[0].getsockname()[1]

    async def drop(self, share=1.0, rng=None):
        for c in list(self.connections):
            if rng is None or rng.random() < share:
                c.task.cancel()

    async def down(self):
        self.closing = True
        if self.server:
            self.server.close()
        await self.drop()


class Family:
    """A cluster."""

    def __init__(self):
        self.nodes, self.ranges = [], []

    def split(self, cuts):
        edges = [0] + sorted(cuts) + [16384]
        self.ranges = [(n, (edges[i], edges[i + 1] - 1)) for i, n in enumerate(self.nodes)]

    def owner(self, slot):
        return next(n for n, (lo, hi) in self.ranges if lo <= slot <= hi)


class Lab:
    """The thread in which the servers run."""

    def __init__(self):
        self.t0 = time.monotonic()
        self.loop = asyncio.new_event_loop()
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.errors = []
        self.loop.set_exception_handler(lambda loop, ctx: self.errors.append(repr(ctx.get("exception") or ctx.get("message"))))
        self.thread.start()

    def _main(self):
        asyncio.set_event_loop(self.loop)
        self.loop.run_forever()

    def do(self, coro, timeout=20):
        return asyncio.run_coroutine_threadsafe(coro, self.loop).result(timeout)

    async def ado(self, coro):
        return await asyncio.wrap_future(asyncio.run_coroutine_threadsafe(coro, self.loop))
