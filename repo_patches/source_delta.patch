From be4865cb46a81488a9d7f4e85037f1c80f556859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 01/70] fix: snapshot() with running tasks on the in-memory
 backend

burner-redis returns the XPENDING field names as bytes, so Docket.snapshot()
raised KeyError('message_id') whenever a message had been delivered.
---
 src/docket/_docket_snapshot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..24f309f 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -3,7 +3,7 @@
 from contextlib import AbstractAsyncContextManager
 from dataclasses import dataclass
 from datetime import datetime, timedelta, timezone
-from typing import TYPE_CHECKING, Collection, Sequence, cast
+from typing import TYPE_CHECKING, Any, Collection, Sequence, cast
 
 import redis.exceptions
 
@@ -167,9 +167,15 @@ class DocketSnapshotMixin:
 
         total_tasks = total_stream_messages + total_schedule_messages
 
-        pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
-            pending["message_id"]: pending for pending in pending_messages
-        }
+        # redis-py names the XPENDING fields with str, but the in-memory backend
+        # leaves them as bytes
+        pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {}
+        for entry in pending_messages:
+            pending: Any = {
+                field.decode() if isinstance(field, bytes) else field: value
+                for field, value in entry.items()
+            }
+            pending_lookup[pending["message_id"]] = pending
 
         # Import here to avoid circular import
         from .docket import Docket
-- 
2.43.0


From 7b846c226a8fb4450ae2c518c9dfb4ea3a5564e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 02/70] fix: a re-scheduled key no longer inherits the TTL of
 its earlier life

Scheduling under a key that had already finished, failed or been cancelled
left the execution_ttl expiry on the runs hash.  When the new schedule was
further away than that, the hash expired first, the claim was treated as
superseded and the accepted task was silently dropped.
---
 src/docket/execution.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..645f675 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -103,6 +103,18 @@ async def _schedule(
         end
     end
 
+    -- Increment the generation counter in a fresh runs hash.  The existing hash
+    -- may be left over from an earlier, finished life of this key, in which
+    -- case it carries that life's outcome and, worse, its TTL: if it expired
+    -- before the new schedule is claimed, the claim would be taken for a stale
+    -- one and the task lost.  (The in-memory backend has no PERSIST.)
+    local function start_generation()
+        local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+        redis.call('DEL', runs_key)
+        redis.call('HSET', runs_key, 'generation', new_gen)
+        return new_gen
+    end
+
     -- Handle rescheduling from stream: atomically ACK the original message and
     -- re-route the task.  Prevents both task loss (ACK before reschedule) and
     -- duplicate execution (reschedule before ACK with slow reschedule causing
@@ -116,7 +128,7 @@ async def _schedule(
         redis.call('XDEL', stream_key, reschedule_message_id)
 
         -- Increment generation counter
-        local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+        local new_gen = start_generation()
         if generation_index then
             message[generation_index] = tostring(new_gen)
         end
@@ -197,7 +209,7 @@ async def _schedule(
     end
 
     -- Increment generation counter
-    local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+    local new_gen = start_generation()
     if generation_index then
         message[generation_index] = tostring(new_gen)
     end
-- 
2.43.0


From 88aab8e78100426b9ffd1cba3dd3d79d6684c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 03/70] fix: cancelling wins over a message that is already on
 its way

A task that had become due, or whose message a worker had already read,
still ran after Docket.cancel() returned, because claiming did not look at
the cancelled state.  Also set the tombstone's expiry inside the cancel
script: as separate commands, the EXPIRE or DEL could hit the record of a task scheduled
under the same key in between, and with execution_ttl=0 dropping the
generation counter let the cancelled run finish off its successor.
---
 src/docket/docket.py    | 32 ++++++++++++++++++++++++--------
 src/docket/execution.py | 10 ++++++++++
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..94eb5f6 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -63,6 +63,11 @@ logger: logging.Logger = logging.getLogger(__name__)
 tracer: trace.Tracer = trace.get_tracer(__name__)
 
 
+# With execution_ttl=0, how long to remember the generation of a task that was
+# cancelled while a worker may have been holding its message.
+CANCELLED_IN_FLIGHT_TTL_SECONDS = 60
+
+
 @redis_script
 async def _cancel_task(
     redis: RedisClient,
@@ -76,6 +81,8 @@ async def _cancel_task(
     progress_key: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    ttl_seconds: Arg[int],
+    in_flight_ttl_seconds: Arg[int],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -113,6 +120,21 @@ async def _cancel_task(
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
     end
 
+    -- Apply TTL or delete the tombstone based on execution_ttl.  This has to
+    -- happen in here: a separate EXPIRE or DEL could hit the record of a task
+    -- that was scheduled under this key in the meantime.
+    if ttl_seconds > 0 then
+        redis.call('EXPIRE', runs_key, ttl_seconds)
+    elseif current_state == 'queued' or current_state == 'running' then
+        -- execution_ttl=0 means no observability, but a worker may be holding
+        -- this task's message.  Keep the generation counter for a while, so
+        -- that whatever that worker does can't be mistaken for the doing of
+        -- a task scheduled under this key from now on.
+        redis.call('EXPIRE', runs_key, in_flight_ttl_seconds)
+    else
+        redis.call('DEL', runs_key)
+    end
+
     return 'OK'
     """
     ...
@@ -766,16 +788,10 @@ class Docket(DocketSnapshotMixin):
             progress_key=self.key(f"progress:{key}"),
             task_key=key,
             completed_at=completed_at,
+            ttl_seconds=int(self.execution_ttl.total_seconds()),
+            in_flight_ttl_seconds=CANCELLED_IN_FLIGHT_TTL_SECONDS,
         )
 
-        # Apply TTL or delete tombstone based on execution_ttl
-        if self.execution_ttl:
-            ttl_seconds = int(self.execution_ttl.total_seconds())
-            await redis.expire(task_runs_key, ttl_seconds)
-        else:
-            # execution_ttl=0 means no observability - delete tombstone immediately
-            await redis.delete(task_runs_key)
-
     async def strike(
         self,
         function: Callable[P, Awaitable[R]] | str | None = None,
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 645f675..23a6b8b 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -297,6 +297,16 @@ async def _claim(
         end
     end
 
+    -- A task that was cancelled after its message was queued or delivered must
+    -- not start: cancelling can't take back a message a worker already holds.
+    if redis.call('HGET', runs_key, 'state') == 'cancelled' then
+        if message_id ~= '' then
+            redis.call('XACK', stream_key, worker_group_name, message_id)
+            redis.call('XDEL', stream_key, message_id)
+        end
+        return 'SUPERSEDED'
+    end
+
     -- Update execution state to running
     redis.call('HSET', runs_key,
         'state', 'running',
-- 
2.43.0


From eb1ea0f008040677c5fa09fe4b4e176dc48caf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 04/70] fix: snapshot() copes with tasks its docket doesn't
 know

While any concurrency-limited task is waiting, the queue holds an internal
safeguard task that only workers have registered, so Docket.snapshot() raised
ValueError in every other process.
---
 src/docket/_docket_snapshot.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 24f309f..dd9fe9c 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -14,6 +14,11 @@ if TYPE_CHECKING:
     from .docket import RedisMessage, RedisMessageID, RedisStreamPendingMessage
 
 
+async def _unregistered_task(*args: Any, **kwargs: Any) -> None:
+    """Stands in, for display, for tasks that this docket doesn't know, like the
+    internal ones that workers schedule for themselves."""
+
+
 @dataclass
 class WorkerInfo:
     name: str
@@ -41,6 +46,7 @@ class RunningExecution(Execution):
             attempt=execution.attempt,
             trace_context=execution.trace_context,
             redelivered=execution.redelivered,
+            function_name=execution.function_name,
         )
         self.state: ExecutionState = execution.state
         self.started_at: datetime | None = execution.started_at
@@ -183,7 +189,9 @@ class DocketSnapshotMixin:
         docket = cast(Docket, self)
 
         for message_id, message in stream_messages:
-            execution = await Execution.from_message(docket, message)
+            execution = await Execution.from_message(
+                docket, message, fallback_task=_unregistered_task
+            )
             if message_id in pending_lookup:
                 worker_name = pending_lookup[message_id]["consumer"].decode()
                 started = now - timedelta(
@@ -194,7 +202,9 @@ class DocketSnapshotMixin:
                 future.append(execution)  # pragma: no cover
 
         for message in queued_messages:
-            execution = await Execution.from_message(docket, message)
+            execution = await Execution.from_message(
+                docket, message, fallback_task=_unregistered_task
+            )
             future.append(execution)
 
         workers = await self.workers()
-- 
2.43.0


From 04e414193ac2a284f7d8a7519a9ce2d5d8f4caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 05/70] fix: a parked concurrency waiter is tied to the
 schedule that parked it

An add() for a parked key was accepted as a new task although the key was
already scheduled, and a waiter left behind by a replace() or by a cancel()
followed by an add() could be forwarded in place of the new schedule (or the
delayed cancel cleanup could tear the new waiter down).
---
 src/docket/dependencies/_concurrency.py | 45 ++++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..e9d387f 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -128,8 +128,10 @@ async def _acquire_or_park(
 
     -- Record the waiter's location so the dependency's cancel subscriber can
     -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- Setting 'known' makes a docket.add() for the same key dedup against it.
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
@@ -220,15 +222,21 @@ async def _release_and_wake(
             -- else -- 'cancelled', a missing runs hash (DELed by a cancel with
             -- execution_ttl=0), or any other terminal state -- means the task
             -- has been superseded and must not be revived.  Drop the waiter
-            -- entry without forwarding.
+            -- entry without forwarding.  The same goes for an entry that isn't
+            -- the recorded one: its task was replaced, or cancelled and added
+            -- again, and whatever is scheduled now is not this waiter.
             local current_state = redis.call('HGET', runs_key, 'state')
+            local current_waiter = redis.call('HGET', runs_key, 'waiter_entry_id')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if current_state ~= 'scheduled' or current_waiter ~= waiter_id then
                 redis.call('XDEL', waiters_stream, waiter_id)
-                -- Cancelled/superseded waiter: drop its safeguard backstop too.
-                redis.call('ZREM', queue_key, safeguard_key)
-                redis.call('DEL', parked_prefix .. safeguard_key)
-                redis.call('DEL', runs_prefix .. safeguard_key)
+                -- Cancelled/superseded waiter: drop its safeguard backstop too,
+                -- unless it serves a successor that is parked by now.
+                if current_state ~= 'scheduled' or not current_waiter then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
             else
                 local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
                 for i = 1, #fields, 2 do
@@ -337,12 +345,15 @@ async def _scavenge_and_wake(
 
         -- Skip cancelled/superseded waiters: drop the entry without forwarding.
         local current_state = redis.call('HGET', runs_key, 'state')
+        local current_waiter = redis.call('HGET', runs_key, 'waiter_entry_id')
         local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
+        if current_state ~= 'scheduled' or current_waiter ~= waiter_id then
             redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+            if current_state ~= 'scheduled' or not current_waiter then
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
+            end
         else
             local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
             for i = 1, #fields, 2 do
@@ -387,12 +398,18 @@ async def _cancel_cleanup(
     progress_key: Key[str],
     runs_key: Key[str],
     waiter_entry_id: Arg[str],
-) -> None:
+) -> int:
     """
     -- Atomically tear down a cancelled task's waiter footprint.  Invoked
     -- by ConcurrencyLimit's pubsub-driven cancel subscriber after
     -- Docket.cancel flips the task to 'cancelled'.
 
+    -- The cancellation is old news if the task has been scheduled again since.
+    local state = redis.call('HGET', runs_key, 'state')
+    if state and state ~= 'cancelled' then
+        return 0
+    end
+
     redis.call('XDEL', waiters_stream, waiter_entry_id)
     if redis.call('XLEN', waiters_stream) == 0 then
         redis.call('DEL', waiters_stream)
@@ -404,6 +421,8 @@ async def _cancel_cleanup(
     redis.call('DEL', progress_key)
 
     redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+    return 1
     """
     ...
 
@@ -741,13 +760,15 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 return
             waiter_stream = waiter_stream_b.decode()
             waiter_entry_id = waiter_entry_id_b.decode()
-            await _cancel_cleanup(
+            cleaned_up = await _cancel_cleanup(
                 redis,
                 waiters_stream=waiter_stream,
                 progress_key=f"{docket.prefix}:progress:{task_key}",
                 runs_key=runs_key,
                 waiter_entry_id=waiter_entry_id,
             )
+        if not cleaned_up:
+            return
         # Drop the safeguard task this waiter scheduled at park time.
         # Cancelling routes through the same cancel pubsub we're subscribed
         # to, but the resulting cleanup callback for the safeguard's own
-- 
2.43.0


From 3a39b7473cc9910f8477a1f41c6281753cff5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 06/70] fix: cancelled waiters don't use up the capacity a
 freed slot hands on

---
 src/docket/dependencies/_concurrency.py | 96 +++++++++++++------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index e9d387f..3eb935a 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -199,9 +199,13 @@ async def _release_and_wake(
         end
     end
 
+    -- Dropped entries don't use up capacity, so keep going until it is filled.
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity > 0 then
+    while capacity > 0 do
         local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
+        end
         for _, entry in ipairs(entries) do
             local waiter_id = entry[1]
             local fields = entry[2]
@@ -259,6 +263,7 @@ async def _release_and_wake(
 
                 local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
                 redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                capacity = capacity - 1
             end
         end
     end
@@ -322,59 +327,62 @@ async def _scavenge_and_wake(
         redis.call('ZREM', slots_key, s)
     end
 
+    -- Dropped entries don't use up capacity, so keep going until it is filled.
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity == 0 then
-        return 0
-    end
-
     local woken = 0
-    local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
-    for _, entry in ipairs(entries) do
-        local waiter_id = entry[1]
-        local fields = entry[2]
-
-        local waiter_task_key
-        for i = 1, #fields, 2 do
-            if fields[i] == 'key' then
-                waiter_task_key = fields[i + 1]
-                break
-            end
+    while capacity > 0 do
+        local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
         end
+        for _, entry in ipairs(entries) do
+            local waiter_id = entry[1]
+            local fields = entry[2]
 
-        local runs_key = runs_prefix .. waiter_task_key
-
-        -- Skip cancelled/superseded waiters: drop the entry without forwarding.
-        local current_state = redis.call('HGET', runs_key, 'state')
-        local current_waiter = redis.call('HGET', runs_key, 'waiter_entry_id')
-        local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' or current_waiter ~= waiter_id then
-            redis.call('XDEL', waiters_stream, waiter_id)
-            if current_state ~= 'scheduled' or not current_waiter then
-                redis.call('ZREM', queue_key, safeguard_key)
-                redis.call('DEL', parked_prefix .. safeguard_key)
-                redis.call('DEL', runs_prefix .. safeguard_key)
-            end
-        else
-            local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+            local waiter_task_key
             for i = 1, #fields, 2 do
-                if fields[i] == 'generation' then
-                    fields[i + 1] = tostring(new_gen)
+                if fields[i] == 'key' then
+                    waiter_task_key = fields[i + 1]
+                    break
                 end
             end
 
-            local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
-            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+            local runs_key = runs_prefix .. waiter_task_key
 
-            -- Cancel the safeguard task this waiter scheduled on park.
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+            -- Skip cancelled/superseded waiters: drop the entry without forwarding.
+            local current_state = redis.call('HGET', runs_key, 'state')
+            local current_waiter = redis.call('HGET', runs_key, 'waiter_entry_id')
+            local safeguard_key = '__safeguard__:' .. waiter_task_key
+            if current_state ~= 'scheduled' or current_waiter ~= waiter_id then
+                redis.call('XDEL', waiters_stream, waiter_id)
+                if current_state ~= 'scheduled' or not current_waiter then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
+            else
+                local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+                for i = 1, #fields, 2 do
+                    if fields[i] == 'generation' then
+                        fields[i + 1] = tostring(new_gen)
+                    end
+                end
+
+                local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
+                redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+                -- Cancel the safeguard task this waiter scheduled on park.
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
 
-            local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
-            redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
-            woken = woken + 1
+                local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
+                redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                woken = woken + 1
+                capacity = capacity - 1
+            end
         end
     end
 
-- 
2.43.0


From 1e952f4c2fe113fda5edf2c37323a81493d7961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 07/70] fix: a retry doesn't undo a replacement or cancellation
 made meanwhile

---
 src/docket/dependencies/_retry.py | 14 +++++++++++-
 src/docket/execution.py           | 38 +++++++++++++++++++++++++++++--
 src/docket/worker.py              |  8 +++++--
 3 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..8d4824e 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -98,6 +98,8 @@ class Retry(FailureHandler["Retry"]):
 
     async def handle_failure(self, execution: Execution, outcome: TaskOutcome) -> bool:
         """Handle failure by scheduling a retry if attempts remain."""
+        from ..execution import Disposition
+
         assert outcome.exception
 
         if self.attempts is not None and execution.attempt >= self.attempts:
@@ -109,7 +111,17 @@ class Retry(FailureHandler["Retry"]):
         # branch handles the ACK+XDEL of the failed message when message_id is
         # set; replace=True keeps correct behavior in the (otherwise
         # impossible) case where message_id is None.
-        await execution.schedule(replace=True, reschedule_message=execution.message_id)
+        disposition = await execution.schedule(
+            replace=True, reschedule_message=execution.message_id
+        )
+        if disposition is Disposition.SUPERSEDED:
+            await execution.mark_as_cancelled()
+            logger.info(
+                "↬ [%s] %s (superseded)",
+                format_duration(outcome.duration.total_seconds()),
+                execution.call_repr(),
+            )
+            return True
 
         worker = current_worker.get()
         TASKS_RETRIED.add(1, {**worker.labels(), **execution.general_labels()})
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 23a6b8b..2e0b0a9 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -72,12 +72,24 @@ async def _schedule(
     reschedule_message_id: Arg[bytes],
     worker_group_name: Arg[str],
     state_payload: Arg[str],
+    predecessor_generation: Arg[int],
     message: Args[dict[bytes, bytes]],
 ) -> bytes | str:
     """
     -- TODO: Remove known_key / parked_key / queue_key / stream_id_key
     -- handling in v0.14.0 (legacy key locations).
 
+    -- A follow-up that an execution schedules for itself (a retry, the next run
+    -- of a perpetual task) only takes effect while that execution is current:
+    -- it must not undo a replacement or a cancellation made in the meantime.
+    if predecessor_generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > predecessor_generation
+            or redis.call('HGET', runs_key, 'state') == 'cancelled' then
+            return 'SUPERSEDED'
+        end
+    end
+
     -- Extract message fields
     local message = {}
     local function_name = nil
@@ -468,6 +480,11 @@ class Disposition(enum.Enum):
     STRUCK = "struck"
     """A strike rule blocked the call before any Redis state was touched."""
 
+    SUPERSEDED = "superseded"
+    """The task was meant to follow up on an execution of the same key (a retry or
+    the next run of a perpetual task), but that execution has been replaced or
+    cancelled in the meantime; this attempt was a no-op."""
+
 
 class Execution:
     """Represents a task execution with state management and progress tracking.
@@ -676,7 +693,10 @@ class Execution:
         return [trace.Link(initiating_context)] if initiating_context.is_valid else []
 
     async def schedule(
-        self, replace: bool = False, reschedule_message: "RedisMessageID | None" = None
+        self,
+        replace: bool = False,
+        reschedule_message: "RedisMessageID | None" = None,
+        successor_of: "Execution | None" = None,
     ) -> Disposition:
         """Schedule this task atomically in Redis.
 
@@ -700,12 +720,17 @@ class Execution:
             reschedule_message: If provided, atomically acknowledges and deletes
                     this stream message ID before rescheduling the task to the queue.
                     Used when a task needs to be rescheduled from an active stream message.
+            successor_of: If provided, only schedules this task while that execution
+                    hasn't been replaced or cancelled.  Rescheduling from a stream
+                    message implies this for the execution itself.
 
         Returns:
             ``Disposition.SCHEDULED`` if the task was placed on the queue/stream,
             or ``Disposition.ALREADY_SCHEDULED`` if a task with the same key was
             already known and ``replace=False`` (in which case the existing
-            schedule is preserved and no local state changes are published).
+            schedule is preserved and no local state changes are published), or
+            ``Disposition.SUPERSEDED`` if the execution to follow up on isn't
+            current anymore (in which case nothing is changed either).
             Sets ``self.disposition`` to the same value.
         """
         message: dict[bytes, bytes] = self.as_message()
@@ -735,6 +760,8 @@ class Execution:
             }
         )
 
+        predecessor = self if reschedule_message else successor_of
+
         async with self.docket.redis() as redis:
             # Lock per task key to prevent race conditions between concurrent operations
             async with redis.lock(f"{known_task_key}:lock", timeout=10):
@@ -754,9 +781,16 @@ class Execution:
                     reschedule_message_id=reschedule_message or b"",
                     worker_group_name=self.docket.worker_group_name,
                     state_payload=state_payload,
+                    predecessor_generation=(
+                        predecessor.generation if predecessor else 0
+                    ),
                     message=message,
                 )
 
+        if reply in (b"SUPERSEDED", "SUPERSEDED"):
+            self.disposition = Disposition.SUPERSEDED
+            return self.disposition
+
         if reply in (b"EXISTS", "EXISTS"):
             # An existing schedule for this key remains untouched; leave local
             # state alone and do not publish a misleading state event.
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..9817880 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -73,7 +73,7 @@ from .docket import (
     RedisMessageID,
     RedisReadGroupResponse,
 )
-from .execution import TaskFunction, compact_signature, get_signature
+from .execution import Disposition, TaskFunction, compact_signature, get_signature
 from .instrumentation import (
     QUEUE_DEPTH,
     REDIS_DISRUPTIONS,
@@ -712,7 +712,11 @@ class Worker:
                             extra=log_context,
                         )
                         e.execution.when = datetime.now(timezone.utc) + delay
-                        await e.execution.schedule(reschedule_message=message_id)
+                        disposition = await e.execution.schedule(
+                            reschedule_message=message_id
+                        )
+                        if disposition is Disposition.SUPERSEDED:
+                            await e.execution.mark_as_cancelled()
                     else:
                         logger.debug(
                             "⏭ Task %s blocked by admission control, dropping",
-- 
2.43.0


From 0a66041125006c849896c7d8ff9f164b8501ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 08/70] fix: concurrency waiters always have a live safeguard
 and never undo a replacement

The safeguard was added only after the task had parked (a crash in between
left a waiter nothing would wake), fired once although slots may go stale
later, and was lost to a connection error.  Parking also overwrote a
replacement or cancellation that arrived between claim and park.
---
 src/docket/dependencies/_concurrency.py | 130 ++++++++++++++++--------
 1 file changed, 85 insertions(+), 45 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 3eb935a..02b398d 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -22,6 +22,7 @@ from ._base import (
     current_execution,
     current_worker,
 )
+from ._retry import Retry
 
 logger = logging.getLogger("docket.dependencies")
 
@@ -59,6 +60,8 @@ async def _acquire_or_park(
     worker_group_name: Arg[str],
     state_channel: Arg[str],
     state_payload: Arg[str],
+    may_park: Arg[bool],
+    generation: Arg[int],
     message: Args[dict[bytes, bytes]],
 ) -> int:
     """
@@ -66,7 +69,17 @@ async def _acquire_or_park(
     -- atomically.  Returns 1 if acquired (task should run), 0 if parked
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
-    -- so the worker takes no further action).
+    -- so the worker takes no further action).  Without may_park, 0 means no
+    -- slot was free and nothing has been changed.  Returns -1, changing nothing,
+    -- if the task was replaced or cancelled since it was claimed: parking it
+    -- would undo that.
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > generation
+            or redis.call('HGET', runs_key, 'state') == 'cancelled' then
+            return -1
+        end
+    end
 
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
@@ -96,6 +109,10 @@ async def _acquire_or_park(
         end
     end
 
+    if not may_park then
+        return 0
+    end
+
     -- Park: ACK the main-stream message, re-XADD the payload into the waiter
     -- stream.  Doing this here, atomically with the acquire check, keeps a
     -- concurrent slot release from missing us in the gap between "blocked" and
@@ -584,8 +601,6 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         message: dict[bytes, bytes] = execution.as_message()
         propagate.inject(message, setter=message_setter)
 
-        current_time = datetime.now(timezone.utc).timestamp()
-        stale_threshold = current_time - redelivery_timeout.total_seconds()
         key_ttl = max(
             MINIMUM_TTL_SECONDS,
             int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),
@@ -599,54 +614,61 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         park_state_payload = json.dumps(
             {"type": "state", "key": execution.key, "state": "scheduled"}
         )
-        async with docket.redis() as redis:
-            result = await _acquire_or_park(
-                redis,
-                slots_key=concurrency_key,
-                waiters_stream=waiters_stream,
-                stream_key=docket.stream_key,
-                runs_key=execution._redis_key,
-                max_concurrent=self.max_concurrent,
-                task_key=execution.key,
-                current_time=current_time,
-                is_redelivery=execution.redelivered,
-                stale_threshold=stale_threshold,
-                key_ttl=key_ttl,
-                message_id=execution.message_id,
-                worker_group_name=docket.worker_group_name,
-                state_channel=f"{docket.prefix}:state:{execution.key}",
-                state_payload=park_state_payload,
-                message=message,
-            )
 
-        if not bool(result):  # pragma: no branch
-            logger.debug(
-                "⏳ Task %s parked on waiter stream %s",
-                execution.key,
-                waiters_stream,
-            )
+        async def acquire_or_park(may_park: bool) -> int:
+            current_time = datetime.now(timezone.utc).timestamp()
+            stale_threshold = current_time - redelivery_timeout.total_seconds()
+            async with docket.redis() as redis:
+                return await _acquire_or_park(
+                    redis,
+                    slots_key=concurrency_key,
+                    waiters_stream=waiters_stream,
+                    stream_key=docket.stream_key,
+                    runs_key=execution._redis_key,
+                    max_concurrent=self.max_concurrent,
+                    task_key=execution.key,
+                    current_time=current_time,
+                    is_redelivery=execution.redelivered,
+                    stale_threshold=stale_threshold,
+                    key_ttl=key_ttl,
+                    message_id=execution.message_id,
+                    worker_group_name=docket.worker_group_name,
+                    state_channel=f"{docket.prefix}:state:{execution.key}",
+                    state_payload=park_state_payload,
+                    may_park=may_park,
+                    generation=execution.generation,
+                    message=message,
+                )
+
+        result = await acquire_or_park(may_park=False)
+        if result == 0:
             # Schedule a safeguard task to backstop the normal release path.
-            # If a holder releases first, this becomes a no-op when it runs;
-            # otherwise it scavenges any stale slots and wakes the waiters.
+            # A wake through the release path removes it again; otherwise it
+            # scavenges any stale slots and wakes the waiters.  It has to be in
+            # place before the task parks: a worker dying between the two would
+            # leave a waiter that nothing may ever wake.
             safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.add(
+            await docket.replace(
                 _safeguard_wake,
                 when=datetime.now(timezone.utc) + redelivery_timeout,
                 key=safeguard_key,
             )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-            # A wake-on-release may have fired between the park script
-            # returning and the docket.add above.  Its safeguard ZREM was a
-            # no-op (the safeguard hadn't been added yet), and we'd leak
-            # the safeguard into the future queue -- preventing
-            # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we've already been forwarded back to
-            # the main stream, cancel the leftover safeguard.
-            async with docket.redis() as redis:
-                state = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "state"
-                )
-            if state != b"scheduled":
+
+            result = await acquire_or_park(may_park=True)
+            if result == 1:
                 await docket.cancel(safeguard_key)
+
+        if result == -1:
+            logger.debug("↬ Task %s (superseded)", execution.key)
+            await execution.mark_as_cancelled()
+            raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
+
+        if result == 0:
+            logger.debug(
+                "⏳ Task %s parked on waiter stream %s",
+                execution.key,
+                waiters_stream,
+            )
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
         # Acquired.  Start heartbeating the slot and register the release
@@ -850,7 +872,11 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         return self._concurrency_key
 
 
-async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
+async def _safeguard_wake(
+    waiter_stream: str,
+    max_concurrent: int,
+    retry: Retry = Retry(attempts=None, delay=timedelta(seconds=1)),
+) -> None:
     """Recover a waiter stream that the normal release path may not reach.
 
     Scheduled by ``ConcurrencyLimit.__aenter__`` as a future-queue task
@@ -867,10 +893,12 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
 
     This is the dependency-owned recovery for the "burst then idle"
     pathology.  No background loop, no central registry: each park
-    schedules its own backstop.
+    schedules its own backstop, which keeps coming back for as long as its
+    task is parked: the slots may only go stale later.
     """
     docket = current_docket.get()
     worker = current_worker.get()
+    execution = current_execution.get()
 
     if not waiter_stream.endswith(":waiters"):  # pragma: no cover
         return
@@ -894,3 +922,15 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
             state_prefix=f"{docket.prefix}:state:",
             parked_prefix=f"{docket.prefix}:",
         )
+
+        waiter_key = execution.key.removeprefix("__safeguard__:")
+        parked = await redis.hexists(  # type: ignore[misc]
+            docket.runs_key(waiter_key), "waiter_entry_id"
+        )
+
+    if parked:
+        await docket.replace(
+            _safeguard_wake,
+            when=datetime.now(timezone.utc) + redelivery_timeout,
+            key=execution.key,
+        )(waiter_stream=waiter_stream, max_concurrent=max_concurrent)
-- 
2.43.0


From 37a864a6e6c8257230ccfda30bd1953bc253073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 09/70] fix: cancelling or replacing a due task takes its
 message back off the stream

---
 src/docket/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 9817880..3afcce5 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -203,9 +203,10 @@ async def _stream_due_tasks(
                 )
                 redis.call('DEL', hash_key)
 
-                -- Set run state to queued
+                -- Set run state to queued, and remember the message, so that
+                -- cancelling or replacing the task takes it back
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From a59b323a12fcfe5f281eb5458b5ea5098cfaf9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 10/70] fix: a task scheduled for later keeps the trace context
 it was scheduled with

---
 src/docket/worker.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3afcce5..62560ee 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,15 +192,9 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                local message_id = redis.call('XADD', stream_key, '*',
-                    'key', task['key'],
-                    'when', task['when'],
-                    'function', task['function'],
-                    'args', task['args'],
-                    'kwargs', task['kwargs'],
-                    'attempt', task['attempt'],
-                    'generation', task['generation'] or '0'
-                )
+                -- Pass on every field: besides the task itself, the message
+                -- carries the trace context of whoever scheduled it
+                local message_id = redis.call('XADD', stream_key, '*', unpack(task_data))
                 redis.call('DEL', hash_key)
 
                 -- Set run state to queued, and remember the message, so that
-- 
2.43.0


From fcac711ec2ab607742ada974b406b6b2eb4b3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 11/70] fix: Cron never schedules a time that has passed or
 skips one that hasn't

---
 src/docket/dependencies/_cron.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index abb99c8..74964aa 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -99,13 +99,24 @@ class Cron(Perpetual):
         return cron
 
     def next_time(self) -> datetime:
-        """Return the next matching cron time from the underlying iterator."""
-        return next(self._iterator)
+        """Return the next matching cron time that is still in the future.
+
+        Times that went by since the iterator was created (before the task ran,
+        or during a run that took longer than the schedule's interval) are skipped.
+        """
+        now = datetime.now(timezone.utc)
+        when = next(self._iterator)
+        while when <= now:
+            when = next(self._iterator)
+        return when
 
     @property
     def initial_when(self) -> datetime:
-        """Return the next cron time for initial scheduling."""
-        return self.next_time()
+        """Return the next cron time for initial scheduling.
+
+        This may be asked for repeatedly, so it doesn't use up our own iterator.
+        """
+        return Cron(self.expression, tz=self.tz).next_time()
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
         """Handle completion by scheduling the next execution at the exact cron time.
-- 
2.43.0


From 199afbf55c95890a1538a7550f4b31510460e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 12/70] fix: the next run of a perpetual task never undoes a
 replacement or cancellation

---
 src/docket/dependencies/_perpetual.py | 41 ++++++++++++++-------------
 src/docket/docket.py                  |  8 +++++-
 src/docket/execution.py               |  8 ++++++
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..f296e56 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -100,14 +100,31 @@ class Perpetual(CompletionHandler["Perpetual"]):
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
         """Handle completion by scheduling the next execution."""
+        from ..execution import Disposition, scheduling_successor_of
+
         if self.cancelled:
-            docket = current_docket.get()
-            async with docket.redis() as redis:
-                await docket._cancel(redis, execution.key)
+            # Nothing of ours is scheduled; if the key is, it's a replacement
             return False
 
-        if await execution.is_superseded():
-            worker = current_worker.get()
+        docket = current_docket.get()
+        worker = current_worker.get()
+
+        if self._next_when:
+            when = self._next_when
+        else:
+            now = datetime.now(timezone.utc)
+            when = max(now, now + self.every - outcome.duration)
+
+        token = scheduling_successor_of.set(execution)
+        try:
+            successor = await docket.replace(execution.function, when, execution.key)(
+                *self.args,
+                **self.kwargs,
+            )
+        finally:
+            scheduling_successor_of.reset(token)
+
+        if successor.disposition is Disposition.SUPERSEDED:
             TASKS_SUPERSEDED.add(
                 1,
                 {
@@ -123,20 +140,6 @@ class Perpetual(CompletionHandler["Perpetual"]):
             )
             return True
 
-        docket = current_docket.get()
-        worker = current_worker.get()
-
-        if self._next_when:
-            when = self._next_when
-        else:
-            now = datetime.now(timezone.utc)
-            when = max(now, now + self.every - outcome.duration)
-
-        await docket.replace(execution.function, when, execution.key)(
-            *self.args,
-            **self.kwargs,
-        )
-
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
         if outcome.exception:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index 94eb5f6..4955875 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -43,6 +43,7 @@ from .execution import (
     Disposition,
     Execution,
     TaskFunction,
+    scheduling_successor_of,
 )
 from .instrumentation import (
     TASKS_ADDED,
@@ -564,9 +565,14 @@ class Docket(DocketSnapshotMixin):
                     return execution
 
                 # Schedule atomically (includes state record write)
-                await execution.schedule(replace=True)
+                await execution.schedule(
+                    replace=True, successor_of=scheduling_successor_of.get()
+                )
                 span.set_attribute("docket.disposition", execution.disposition.value)
 
+            if execution.disposition is Disposition.SUPERSEDED:
+                return execution
+
             TASKS_REPLACED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_CANCELLED.add(1, {**self.labels(), **execution.general_labels()})
             TASKS_SCHEDULED.add(1, {**self.labels(), **execution.general_labels()})
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 2e0b0a9..62fed87 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -5,6 +5,7 @@ import inspect
 import json
 import logging
 from contextlib import contextmanager
+from contextvars import ContextVar
 from datetime import datetime, timedelta, timezone
 from typing import (
     TYPE_CHECKING,
@@ -486,6 +487,13 @@ class Disposition(enum.Enum):
     cancelled in the meantime; this attempt was a no-op."""
 
 
+# Set while an execution schedules its own next run through Docket.replace, which
+# then only takes effect if that execution hasn't been superseded.
+scheduling_successor_of: ContextVar["Execution | None"] = ContextVar(
+    "scheduling_successor_of", default=None
+)
+
+
 class Execution:
     """Represents a task execution with state management and progress tracking.
 
-- 
2.43.0


From 2b2c4136e46aab8d0d28fc07c0edb2111e5e0e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 13/70] fix: a worker finishing its tasks keeps renewing their
 leases

---
 src/docket/worker.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 62560ee..7158e9d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -771,7 +771,7 @@ class Worker:
                         name=f"{self.docket.name} - scheduler",
                     )
                     infra.create_task(
-                        self._renew_leases(redis, active_tasks),
+                        self._renew_leases(redis, active_tasks, session.stopping),
                         name=f"{self.docket.name} - lease renewal",
                     )
                     self._heartbeat_task = asyncio.create_task(
@@ -839,7 +839,16 @@ class Worker:
             self._heartbeat_task = None
             await self._remove_heartbeat()
             if active_tasks:
+                # Hold on to the messages of the tasks we're still finishing, or
+                # another worker would start them again
+                drained = asyncio.Event()
+                renewal = asyncio.create_task(
+                    self._renew_leases(redis, active_tasks, drained),
+                    name=f"{self.docket.name} - lease renewal while draining",
+                )
                 await asyncio.gather(*active_tasks, return_exceptions=True)
+                drained.set()
+                await asyncio.gather(renewal, return_exceptions=True)
                 await process_completed_tasks()
             if self._processing_session is session:
                 self._processing_session = None
@@ -887,21 +896,18 @@ class Worker:
         self,
         redis: Redis,
         active_messages: dict[asyncio.Task[None], RedisMessageID],
+        stopping: asyncio.Event,
     ) -> None:
         """Periodically renew leases on stream messages.
 
         Calls XCLAIM with idle=0 to reset the message's idle time, preventing
         XAUTOCLAIM from reclaiming it while we're still processing.
         """
-        session = self._processing_session
-        if session is None:
-            return  # pragma: no cover
-
         # Renew leases 4 times per redelivery_timeout period
         renewal_interval = self.redelivery_timeout.total_seconds() / 4
 
-        while not session.stopping.is_set():  # pragma: no branch
-            if await _wait_for_event(session.stopping, renewal_interval):
+        while not stopping.is_set():  # pragma: no branch
+            if await _wait_for_event(stopping, renewal_interval):
                 return
 
             message_ids = list(active_messages.values())
-- 
2.43.0


From 43604a71b0661ed156b4566ca96557520a32c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 14/70] fix: a worker survives a cancellation arriving while a
 task is being claimed or recorded

Cancelling a task outside the part of _execute that handles it left a cancelled
asyncio task behind; awaiting it ended the worker's loop without an error.
---
 src/docket/worker.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 7158e9d..57ca191 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -690,9 +690,17 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                if self._tasks_by_key.get(execution.key) is task:
+                    del self._tasks_by_key[execution.key]
                 try:
                     await task
+                except asyncio.CancelledError:
+                    if not task.cancelled():
+                        raise  # pragma: no cover - we are the one cancelled
+                    # The cancellation arrived while the task was being claimed
+                    # or its outcome was being recorded.
+                    await execution.mark_as_cancelled()
+                    continue
                 except AdmissionBlocked as e:
                     if e.handled:
                         # The admission gate already handled the task --
-- 
2.43.0


From 8b07d470b5b55b11d43dc744ec4c9ea8e4fe61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 15/70] fix: the result of a superseded execution doesn't
 overwrite its replacement's

---
 src/docket/worker.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 57ca191..9539552 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1146,7 +1146,12 @@ class Worker:
                     else:
                         # No handler or handler didn't handle - normal completion
                         result_key = None
-                        if result is not None and self.docket.execution_ttl:
+                        if (
+                            result is not None
+                            and self.docket.execution_ttl
+                            # A replacement's result is stored under the same key
+                            and not await execution.is_superseded()
+                        ):
                             # Serialize and store result
                             pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
                             # Base64-encode for JSON serialization
@@ -1227,7 +1232,10 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
-                    if self.docket.execution_ttl:
+                    if (
+                        self.docket.execution_ttl
+                        and not await execution.is_superseded()
+                    ):
                         pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
-- 
2.43.0


From 79f4b1eaa56521e4e7a9200ccd109bab7f7ec3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 16/70] fix: exponential backoff doesn't overflow after many
 attempts

---
 src/docket/dependencies/_retry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 8d4824e..93481c3 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -216,12 +216,14 @@ class ExponentialRetry(Retry):
         retry.attempt = execution.attempt
 
         if execution.attempt > 1:
-            backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
-
-            if calculated_delay > self.maximum_delay:
-                retry.delay = self.maximum_delay
-            else:
-                retry.delay = calculated_delay
+            retry.delay = min(self.delay, self.maximum_delay)
+            for _ in range(execution.attempt - 1):
+                if not timedelta(0) < retry.delay < self.maximum_delay:
+                    break
+                # Compare before doubling, which may exceed what timedelta can hold
+                if retry.delay > self.maximum_delay / 2:
+                    retry.delay = self.maximum_delay
+                else:
+                    retry.delay *= 2
 
         return retry
-- 
2.43.0


From 485ad78f3d2854bb424a017155256818c42ebe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 17/70] fix: every attempt of a task gets the arguments it was
 scheduled with

A task that modifies a mutable argument and then fails was retried with the
modified argument, though not if the attempt was redelivered.
---
 src/docket/execution.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 62fed87..8b9aaa3 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -532,6 +532,10 @@ class Execution:
         self._generation = generation
         self.message_id = message_id
 
+        # The arguments as they came in from a message, which is what any message
+        # for a further attempt carries: the task may modify its arguments.
+        self._serialized_arguments: tuple[bytes, bytes] | None = None
+
         # True once the stream message identified by ``message_id`` has been
         # XACKed (by ``_terminal``, ``_claim`` on SUPERSEDED, or ``_schedule``
         # when re-routing this same message).  The worker uses this as a
@@ -612,12 +616,16 @@ class Execution:
             yield
 
     def as_message(self) -> Message:
+        serialized_args, serialized_kwargs = self._serialized_arguments or (
+            cloudpickle.dumps(self.args),
+            cloudpickle.dumps(self.kwargs),
+        )
         return {
             b"key": self.key.encode(),
             b"when": self.when.isoformat().encode(),
             b"function": self.function_name.encode(),
-            b"args": cloudpickle.dumps(self.args),
-            b"kwargs": cloudpickle.dumps(self.kwargs),
+            b"args": serialized_args,
+            b"kwargs": serialized_kwargs,
             b"attempt": str(self.attempt).encode(),
             b"generation": str(self.generation).encode(),
         }
@@ -653,6 +661,7 @@ class Execution:
             generation=int(message.get(b"generation", b"0")),
             message_id=message_id,
         )
+        instance._serialized_arguments = (message[b"args"], message[b"kwargs"])
         await instance.sync()
         return instance
 
-- 
2.43.0


From e9ce057fba545d394e80dda30877d50bb5fa34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 18/70] fix: tasks may be registered while automatic perpetual
 tasks are scheduled

---
 src/docket/worker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 9539552..08b69c0 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -978,7 +978,8 @@ class Worker:
                     timeout=AUTOMATIC_PERPETUAL_LOCK_TIMEOUT_SECONDS,
                     blocking=False,
                 ):
-                    for task_function in self.docket.tasks.values():
+                    # Tasks may be registered while we're at it
+                    for task_function in list(self.docket.tasks.values()):
                         perpetual = get_single_dependency_parameter_of_type(
                             task_function, Perpetual
                         )
-- 
2.43.0


From 903cfe3123784d367eac25b075532182023ea9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 19/70] fix: a task with a timeout keeps a TimeoutError it
 raised itself

---
 src/docket/dependencies/_timeout.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..bfff348 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -91,6 +91,11 @@ class Timeout(Runtime["Timeout"]):
                     )
                 except asyncio.TimeoutError:
                     continue
+
+            if not timed_out:
+                # It finished just as we stopped waiting, or the TimeoutError was
+                # its own
+                return task.result()
         finally:
             if not task.done():
                 timeout_reason = (
-- 
2.43.0


From a27519aa95732e98d2cee7e8b8f2222b7b57fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 20/70] fix: parameter-bound dependencies see arguments that
 were passed by position

---
 src/docket/dependencies/_resolution.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..6f3021f 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -9,6 +9,7 @@ from typing import TYPE_CHECKING, Any, AsyncGenerator, TypeVar
 from uncalled_for import (
     FailedDependency,
     get_annotation_dependencies,
+    get_signature,
 )
 
 from ._base import (
@@ -159,6 +160,24 @@ def detect_single_conflicts(
     return conflicts
 
 
+def _argument_value(
+    execution: Execution, parameter_name: str, arguments: Mapping[str, Any]
+) -> Any:
+    """The value a parameter has in this execution, however it was passed."""
+    if parameter_name in execution.kwargs:
+        return execution.kwargs[parameter_name]
+    if parameter_name in arguments:
+        return arguments[parameter_name]
+    signature = get_signature(execution.function)
+    try:
+        bound = signature.bind_partial(*execution.args, **execution.kwargs)
+    except TypeError:
+        # The call doesn't fit the function, which will fail when it's called
+        return None
+    bound.apply_defaults()
+    return bound.arguments.get(parameter_name)
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -208,8 +227,8 @@ async def resolved_dependencies(
 
                 annotations = get_annotation_dependencies(execution.function)
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
+                    argument_value = _argument_value(
+                        execution, parameter_name, arguments
                     )
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
-- 
2.43.0


From e9c8e97be35ff858678578e01c4f9cc9e958d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 21/70] fix: a rate limit gives back the slot of the execution
 that was blocked, and counts every admission

---
 src/docket/dependencies/_ratelimit.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..f8f5239 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -12,6 +12,7 @@ import time
 from datetime import timedelta
 from types import TracebackType
 from typing import Any
+from uuid import uuid4
 
 from .._lua import Arg, Key, redis_script
 from .._redis import RedisClient
@@ -100,8 +101,9 @@ class RateLimit(Dependency["RateLimit"]):
         self.scope = scope
         self._argument_name: str | None = None
         self._argument_value: Any = None
-        self._ratelimit_key: str | None = None
-        self._member: str | None = None
+        # What each execution that is underway has recorded; as a default
+        # parameter, one instance is shared by all of them
+        self._admitted: dict[int, tuple[str, str]] = {}
 
     def bind_to_parameter(self, name: str, value: Any) -> RateLimit:
         bound = RateLimit(self.limit, per=self.per, drop=self.drop, scope=self.scope)
@@ -124,7 +126,8 @@ class RateLimit(Dependency["RateLimit"]):
         window_ms = int(self.per.total_seconds() * 1000)
         now_ms = int(time.time() * 1000)
         ttl_ms = window_ms * 2
-        member = f"{execution.key}:{now_ms}"
+        # The same key may come up repeatedly within a millisecond
+        member = f"{execution.key}:{now_ms}:{uuid4()}"
 
         async with docket.redis() as redis:
             result = await _ratelimit(
@@ -141,8 +144,7 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
+            self._admitted[id(execution)] = (ratelimit_key, member)
             return self
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
@@ -162,9 +164,10 @@ class RateLimit(Dependency["RateLimit"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if exc_type is not None and self._member is not None:
-            if issubclass(exc_type, AdmissionBlocked):
-                assert self._ratelimit_key is not None
-                docket = current_docket.get()
-                async with docket.redis() as redis:
-                    await redis.zrem(self._ratelimit_key, self._member)
+        admitted = self._admitted.pop(id(current_execution.get()), None)
+        if admitted is None or exc_type is None:
+            return
+        if issubclass(exc_type, AdmissionBlocked):
+            docket = current_docket.get()
+            async with docket.redis() as redis:
+                await redis.zrem(*admitted)
-- 
2.43.0


From 514cf6ee098ec1a00d17ba2101216be1bfd66bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 22/70] fix: a task isn't dropped by the cooldown window it
 opened itself

---
 src/docket/dependencies/_cooldown.py | 51 +++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index b72d22c..ea739c4 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -10,9 +10,27 @@ from datetime import timedelta
 from types import TracebackType
 from typing import Any
 
+from .._lua import Arg, Key, redis_script
+from .._redis import RedisClient
 from ._base import AdmissionBlocked, Dependency, current_docket, current_execution
 
 
+@redis_script
+async def _release_cooldown(
+    redis: RedisClient,
+    *,
+    cooldown_key: Key[str],
+    identity: Arg[str],
+) -> int:
+    """
+    if redis.call('GET', cooldown_key) == identity then
+        return redis.call('DEL', cooldown_key)
+    end
+    return 0
+    """
+    ...
+
+
 class Cooldown(Dependency["Cooldown"]):
     """Execute first, drop duplicates within window.
 
@@ -44,22 +62,30 @@ class Cooldown(Dependency["Cooldown"]):
         bound._argument_value = value
         return bound
 
+    def _cooldown_key(self) -> str:
+        scope = self.scope or current_docket.get().name
+        if self._argument_name is not None:
+            return f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
+        return f"{scope}:cooldown:{current_execution.get().function_name}"
+
+    def _identity(self) -> str:
+        execution = current_execution.get()
+        return f"{execution.key}:{execution.generation}"
+
     async def __aenter__(self) -> Cooldown:
         execution = current_execution.get()
         docket = current_docket.get()
 
-        scope = self.scope or docket.name
-        if self._argument_name is not None:
-            cooldown_key = (
-                f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
-            )
-        else:
-            cooldown_key = f"{scope}:cooldown:{execution.function_name}"
+        cooldown_key = self._cooldown_key()
+        identity = self._identity()
 
         window_ms = int(self.window.total_seconds() * 1000)
 
         async with docket.redis() as redis:
-            acquired = await redis.set(cooldown_key, 1, nx=True, px=window_ms)
+            acquired = await redis.set(cooldown_key, identity, nx=True, px=window_ms)
+            if not acquired and execution.redelivered:
+                # The worker that ran it died: the window is its own
+                acquired = await redis.get(cooldown_key) == identity.encode()
 
         if not acquired:
             raise AdmissionBlocked(
@@ -76,4 +102,11 @@ class Cooldown(Dependency["Cooldown"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        pass
+        if exc_type is not None and issubclass(exc_type, AdmissionBlocked):
+            # Another admission rule held it back, so it didn't run after all
+            async with current_docket.get().redis() as redis:
+                await _release_cooldown(
+                    redis,
+                    cooldown_key=self._cooldown_key(),
+                    identity=self._identity(),
+                )
-- 
2.43.0


From f3f0f91d8787142358399980cad0919d426e8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 23/70] fix: a debounce whose surviving task was cancelled
 fires again

---
 src/docket/dependencies/_debounce.py | 48 +++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 3c10695..67c5f28 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -14,6 +14,7 @@ from typing import Any
 
 from .._lua import Arg, Key, redis_script
 from .._redis import RedisClient
+from ..execution import ExecutionState
 from ._base import AdmissionBlocked, Dependency, current_docket, current_execution
 
 _ACTION_PROCEED = 1
@@ -28,17 +29,19 @@ async def _debounce(
     winner_key: Key[str],
     seen_key: Key[str],
     execution_key: Arg[str],
+    finished_winner: Arg[str],
     settle_ms: Arg[int],
     now_ms: Arg[int],
     ttl_ms: Arg[int],
-) -> list[int]:
+) -> list[Any]:
     """
     -- Atomic debounce decision.  Returns ``[action, remaining_ms]`` where
     -- action is one of PROCEED/RESCHEDULE/DROP (see constants above).
 
     local winner = redis.call('GET', winner_key)
 
-    if not winner then
+    -- A winner that was cancelled or dropped will never return to proceed
+    if not winner or winner == finished_winner then
         -- No winner: I become winner, record last_seen = now
         redis.call('SET', winner_key, execution_key, 'PX', ttl_ms)
         redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
@@ -67,7 +70,7 @@ async def _debounce(
     -- Someone else is the winner: update last_seen and refresh TTLs
     redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
     redis.call('PEXPIRE', winner_key, ttl_ms)
-    return {3, 0}
+    return {3, 0, winner}
     """
     ...
 
@@ -126,16 +129,29 @@ class Debounce(Dependency["Debounce"]):
         now_ms = int(time.time() * 1000)
         ttl_ms = settle_ms * 10
 
+        # The winner is known by its execution record, to tell whether it's alive
+        runs_key = docket.runs_key(execution.key)
+        finished_winner = ""
+
         async with docket.redis() as redis:
-            result = await _debounce(
-                redis,
-                winner_key=winner_key,
-                seen_key=seen_key,
-                execution_key=execution.key,
-                settle_ms=settle_ms,
-                now_ms=now_ms,
-                ttl_ms=ttl_ms,
-            )
+            while True:
+                result = await _debounce(
+                    redis,
+                    winner_key=winner_key,
+                    seen_key=seen_key,
+                    execution_key=runs_key,
+                    finished_winner=finished_winner,
+                    settle_ms=settle_ms,
+                    now_ms=now_ms,
+                    ttl_ms=ttl_ms,
+                )
+                if result[0] != _ACTION_DROP:
+                    break
+
+                winner = result[2].decode()
+                if await self._is_outstanding(redis, winner):
+                    break
+                finished_winner = winner
 
         action = result[0]
         remaining_ms = result[1]
@@ -155,6 +171,14 @@ class Debounce(Dependency["Debounce"]):
         # DROP
         raise AdmissionBlocked(execution, reason=reason, reschedule=False)
 
+    async def _is_outstanding(self, redis: RedisClient, runs_key: str) -> bool:
+        state: bytes | None = await redis.hget(runs_key, "state")  # type: ignore[misc]
+        return state is not None and ExecutionState(state.decode()) not in (
+            ExecutionState.COMPLETED,
+            ExecutionState.FAILED,
+            ExecutionState.CANCELLED,
+        )
+
     async def __aexit__(
         self,
         exc_type: type[BaseException] | None,
-- 
2.43.0


From 165588c7e377b25a4fa351214af878e5978c9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 24/70] fix: task strikes and parameter strikes of one task
 don't undo each other

---
 src/docket/strikelist.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..9f804ef 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -169,6 +169,7 @@ class StrikeList:
 
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
+    _stricken_tasks: set[str]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -196,6 +197,7 @@ class StrikeList:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
         self.parameter_strikes = {}
+        self._stricken_tasks = set()
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
@@ -385,7 +387,7 @@ class StrikeList:
 
         # Check if the entire task is stricken (without parameter conditions)
         task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self._stricken_tasks:
             return True
 
         signature = get_signature(execution.function)
@@ -481,10 +483,8 @@ class StrikeList:
             parameter_strikes.add((strike.operator, strike.value))
 
         elif strike.function:
-            try:
-                task_strikes = self.task_strikes[strike.function]
-            except KeyError:
-                task_strikes = self.task_strikes[strike.function] = {}
+            self._stricken_tasks.add(strike.function)
+            self.task_strikes.setdefault(strike.function, {})
 
         elif strike.parameter:  # pragma: no branch
             try:
@@ -514,17 +514,12 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self._stricken_tasks:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
-            try:
-                task_strikes = self.task_strikes[restore.function]
-            except KeyError:
-                return
-
-            # If there are no parameter strikes, this was a full task strike
-            if not task_strikes:
+            self._stricken_tasks.discard(restore.function)
+            if not self.task_strikes.get(restore.function):
                 self.task_strikes.pop(restore.function, None)
 
         elif restore.parameter:  # pragma: no branch
-- 
2.43.0


From 8f14795149ddcb2a6183f416bf64718955ee8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 25/70] fix: strikes issued at the same time take effect in the
 same order everywhere, and an unreadable one doesn't hold up the rest

---
 src/docket/strikelist.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 9f804ef..eaf65cd 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -126,6 +126,12 @@ class Restore(StrikeInstruction):
     direction: Literal["strike", "restore"] = "restore"
 
 
+def _stream_position(message_id: bytes | str) -> tuple[int, int]:
+    text = message_id.decode() if isinstance(message_id, bytes) else message_id
+    milliseconds, _, sequence = text.partition("-")
+    return int(milliseconds), int(sequence)
+
+
 MinimalStrike = tuple[Operator, Hashable]
 ParameterStrikes = dict[str, set[MinimalStrike]]
 TaskStrikes = dict[str, ParameterStrikes]
@@ -174,6 +180,7 @@ class StrikeList:
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
     _strikes_loaded: asyncio.Event | None
+    _last_read: tuple[int, int]
     _stack: AsyncExitStack
 
     def __init__(
@@ -202,6 +209,7 @@ class StrikeList:
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
         self._strikes_loaded = None
+        self._last_read = (0, 0)
 
     @property
     def prefix(self) -> str:
@@ -241,6 +249,7 @@ class StrikeList:
         assert not self._redis.is_connected, "StrikeList is not reentrant"
         await self._stack.enter_async_context(self._redis)
 
+        self._last_read = (0, 0)
         self._strikes_loaded = asyncio.Event()
         self._stack.callback(lambda: setattr(self, "_strikes_loaded", None))
 
@@ -304,9 +313,11 @@ class StrikeList:
             )
 
         async with self._redis.client() as r:
-            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+            message_id = await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
 
-        self.update(instruction)
+        # The monitor may have read it already, and later ones that override it
+        if _stream_position(message_id) > self._last_read:
+            self.update(instruction)
 
     async def strike(
         self,
@@ -595,7 +606,13 @@ class StrikeList:
         for _, messages in streams:
             for message_id, message in messages:
                 last_id = message_id
-                instruction = StrikeInstruction.from_message(message)
+                self._last_read = _stream_position(message_id)
+                try:
+                    instruction = StrikeInstruction.from_message(message)
+                except Exception:
+                    # Mustn't keep us from the instructions that follow
+                    logger.exception("Ignoring unreadable strike %r", message_id)
+                    continue
                 self.update(instruction)
                 logger.info(
                     "%s %r",
-- 
2.43.0


From 379f96e6593b5eb617ea2bdda0503c53022f9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 26/70] fix: a worker knows the strikes in effect before it
 starts tasks

---
 src/docket/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 08b69c0..5eecbbf 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -768,6 +768,8 @@ class Worker:
                     if stopping.is_set():
                         session.stopping.set()
                         return
+                    # Not to start tasks that have been struck
+                    await self.docket.wait_for_strikes_loaded()
                     if self.schedule_automatic_tasks:
                         await self._schedule_all_automatic_perpetual_tasks()
                         infra.create_task(
-- 
2.43.0


From 1a47b97d206c1dd3ceaf57b9a13ec400339b6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 27/70] fix: dropping a struck task never frees the key of the
 task that replaced it

---
 src/docket/execution.py |  2 ++
 src/docket/worker.py    | 17 +++++------------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 8b9aaa3..2e7bfc0 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -409,6 +409,8 @@ async def _terminal(
         hset_args[#hset_args + 1] = ARGV[i + 1]
     end
     redis.call('HSET', runs_key, unpack(hset_args))
+    -- A task that was struck ends without having been claimed
+    redis.call('HDEL', runs_key, 'known', 'stream_id')
 
     if ttl_seconds > 0 then
         redis.call('EXPIRE', runs_key, ttl_seconds)
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 5eecbbf..3076553 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1013,17 +1013,6 @@ class Worker:
             return True
         return (await redis.hget(runs_key, "state")) == b"running"
 
-    async def _delete_known_task(self, redis: Redis, execution: Execution) -> None:
-        logger.debug("Deleting known task", extra=self._log_context())
-        # Delete known/stream_id from runs hash to allow task rescheduling
-        runs_key = self.docket.runs_key(execution.key)
-        await redis.hdel(runs_key, "known", "stream_id")
-
-        # TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup
-        known_task_key = self.docket.known_task_key(execution.key)
-        stream_id_key = self.docket.stream_id_key(execution.key)
-        await redis.delete(known_task_key, stream_id_key)
-
     async def _execute(self, execution: Execution) -> None:
         log_context = {**self._log_context(), **execution.specific_labels()}
         counter_labels = {**self.labels(), **execution.general_labels()}
@@ -1032,7 +1021,11 @@ class Worker:
 
         if self.docket.strike_list.is_stricken(execution):
             async with self.docket.redis() as redis:
-                await self._delete_known_task(redis, execution)
+                # TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup
+                await redis.delete(
+                    self.docket.known_task_key(execution.key),
+                    self.docket.stream_id_key(execution.key),
+                )
 
             await execution.mark_as_cancelled()
             logger.warning("🗙 %s", call, extra=log_context)
-- 
2.43.0


From 43cff36a8d706d5326e78b564ae0984d4a04ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 28/70] fix: waiters learn about tasks that end while they
 subscribe or are cancelled before they start

subscribe() read the state, then subscribed: a task ending in between was never
noticed and get_result() waited forever.  docket.cancel() of a task that wasn't
running published nothing at all, leaving get_result() waiting.
---
 src/docket/docket.py    | 16 +++++++++
 src/docket/execution.py | 76 +++++++++++++++++++++++++++++------------
 2 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 4955875..ad9e892 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -42,6 +43,7 @@ from ._uuid7 import uuid7
 from .execution import (
     Disposition,
     Execution,
+    ExecutionState,
     TaskFunction,
     scheduling_successor_of,
 )
@@ -80,8 +82,10 @@ async def _cancel_task(
     stream_id_key: Key[str],
     runs_key: Key[str],
     progress_key: Key[str],
+    state_channel: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    state_payload: Arg[str],
     ttl_seconds: Arg[int],
     in_flight_ttl_seconds: Arg[int],
 ) -> bytes:
@@ -119,6 +123,9 @@ async def _cancel_task(
     local current_state = redis.call('HGET', runs_key, 'state')
     if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+        if current_state then
+            redis.call('PUBLISH', state_channel, state_payload)
+        end
     end
 
     -- Apply TTL or delete the tombstone based on execution_ttl.  This has to
@@ -792,8 +799,17 @@ class Docket(DocketSnapshotMixin):
             stream_id_key=self.stream_id_key(key),
             runs_key=task_runs_key,
             progress_key=self.key(f"progress:{key}"),
+            state_channel=self.key(f"state:{key}"),
             task_key=key,
             completed_at=completed_at,
+            state_payload=json.dumps(
+                {
+                    "type": "state",
+                    "key": key,
+                    "state": ExecutionState.CANCELLED.value,
+                    "completed_at": completed_at,
+                }
+            ),
             ttl_seconds=int(self.execution_ttl.total_seconds()),
             in_flight_ttl_seconds=CANCELLED_IN_FLIGHT_TTL_SECONDS,
         )
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 2e7bfc0..047b5ee 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -402,6 +402,10 @@ async def _terminal(
         end
     end
 
+    -- Docket.cancel announces the end of the tasks it cancels itself
+    local announced = state == 'cancelled'
+        and redis.call('HGET', runs_key, 'state') == 'cancelled'
+
     -- Build HSET args: state + completed_at + any extras
     local hset_args = {'state', state, 'completed_at', completed_at}
     for i = extra_fields_start, #ARGV, 2 do
@@ -418,7 +422,9 @@ async def _terminal(
         redis.call('DEL', runs_key)
     end
 
-    redis.call('PUBLISH', state_channel, state_payload)
+    if not announced then
+        redis.call('PUBLISH', state_channel, state_payload)
+    end
     redis.call('DEL', progress_key)
     if message_id ~= '' then
         redis.call('XACK', stream_key, worker_group_name, message_id)
@@ -1192,8 +1198,51 @@ class Execution:
         # First, emit the current state
         await self.sync()
 
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
+        state_event = self._state_event()
+        yield state_event
+
+        progress_event = self._progress_event()
+        yield progress_event
+
+        # Then subscribe to real-time updates
+        state_channel = self.docket.key(f"state:{self.key}")
+        progress_channel = self.docket.key(f"progress:{self.key}")
+        acknowledged: set[bytes] = set()
+        caught_up: dict[str, Mapping[str, Any]] = {}
+        async with self.docket._pubsub() as pubsub:
+            await pubsub.subscribe(state_channel, progress_channel)
+            async for message in pubsub.listen():  # pragma: no cover
+                if message["type"] == "subscribe":
+                    acknowledged.add(message["channel"])
+                    if len(acknowledged) < 2:
+                        continue
+                    acknowledged.clear()
+
+                    # Catch up on what happened before the subscription was live
+                    await self.sync()
+                    if (state := self._state_event()) != state_event:
+                        state_event = state
+                        yield state
+                    if (progress := self._progress_event()) != progress_event:
+                        progress_event = progress
+                        yield progress
+                    caught_up = {"state": state, "progress": progress}
+                    if ready is not None:
+                        ready.set()
+
+                if message["type"] == "message":
+                    message_data = json.loads(message["data"])
+                    if message_data["type"] == "state":
+                        message_data["state"] = ExecutionState(message_data["state"])
+                    # What we've already caught up on may have been published since
+                    # we subscribed
+                    known = caught_up.pop(message_data["type"], {})
+                    if message_data.items() <= known.items():
+                        continue
+                    yield message_data
+
+    def _state_event(self) -> StateEvent:
+        return {
             "type": "state",
             "key": self.key,
             "state": self.state,
@@ -1206,9 +1255,8 @@ class Execution:
             "error": self.error,
         }
 
-        yield initial_state
-
-        progress_event: ProgressEvent = {
+    def _progress_event(self) -> ProgressEvent:
+        return {
             "type": "progress",
             "key": self.key,
             "current": self.progress.current,
@@ -1219,22 +1267,6 @@ class Execution:
             else None,
         }
 
-        yield progress_event
-
-        # Then subscribe to real-time updates
-        state_channel = self.docket.key(f"state:{self.key}")
-        progress_channel = self.docket.key(f"progress:{self.key}")
-        async with self.docket._pubsub() as pubsub:
-            await pubsub.subscribe(state_channel, progress_channel)
-            if ready is not None:
-                ready.set()
-            async for message in pubsub.listen():  # pragma: no cover
-                if message["type"] == "message":
-                    message_data = json.loads(message["data"])
-                    if message_data["type"] == "state":
-                        message_data["state"] = ExecutionState(message_data["state"])
-                    yield message_data
-
 
 def compact_signature(signature: inspect.Signature) -> str:
     parameters: list[str] = []
-- 
2.43.0


From e8c8844a17ab7c2114d15720740b46bd40641769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 29/70] fix: get_result() of a replacement isn't fooled by the
 end of the task it replaced

---
 src/docket/_execution_progress.py |  4 +++-
 src/docket/execution.py           | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 13cae8d..fe3cfd5 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -10,6 +10,7 @@ from typing import (
     AsyncGenerator,
     Generator,
     Literal,
+    NotRequired,
     TypedDict,
 )
 
@@ -17,7 +18,7 @@ from ._lua import Arg, Args, Key, redis_script
 from ._redis import RedisClient
 
 from ._telemetry import suppress_instrumentation
-from typing_extensions import Self
+from typing_extensions import NotRequired, Self
 
 if TYPE_CHECKING:
     from .docket import Docket
@@ -68,6 +69,7 @@ class StateEvent(TypedDict):
     started_at: str | None
     completed_at: str | None
     error: str | None
+    generation: NotRequired[int]
 
 
 class ExecutionProgress:
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 047b5ee..24584f2 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -538,6 +538,7 @@ class Execution:
         self._trace_context = trace_context
         self._redelivered = redelivered
         self._generation = generation
+        self._synced_generation = 0
         self.message_id = message_id
 
         # The arguments as they came in from a message, which is what any message
@@ -940,11 +941,12 @@ class Execution:
 
         # Pre-build the terminal-state payload; the Lua publishes it on both
         # the success and supersession paths.
-        state_payload_data: dict[str, str] = {
+        state_payload_data: dict[str, str | int] = {
             "type": "state",
             "key": self.key,
             "state": state.value,
             "completed_at": completed_at,
+            "generation": self._generation,
         }
         if error:
             state_payload_data["error"] = error
@@ -1066,8 +1068,15 @@ class Execution:
             try:
 
                 async def wait_for_completion():
+                    current_generation: int | None = None
                     async for event in self.subscribe():  # pragma: no branch
+                        if current_generation is None:
+                            current_generation = self._synced_generation
                         if event["type"] == "state":
+                            generation = event.get("generation", current_generation)
+                            if generation < current_generation:
+                                # The end of a task this one has replaced
+                                continue
                             state = ExecutionState(event["state"])
                             if state in terminal_states:
                                 # Sync to get latest data including result key
@@ -1143,6 +1152,7 @@ class Execution:
                     self.result_key = (
                         data[b"result_key"].decode() if b"result_key" in data else None
                     )
+                    self._synced_generation = int(data.get(b"generation", 0))
                 else:
                     # No data exists - reset to defaults
                     self.state = ExecutionState.SCHEDULED
@@ -1151,6 +1161,7 @@ class Execution:
                     self.completed_at = None
                     self.error = None
                     self.result_key = None
+                    self._synced_generation = 0
 
         # Sync progress data
         await self.progress.sync()
-- 
2.43.0


From df4d7287b8b188c0ecbb5a6309a42c40eb42cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 30/70] fix: an exception that can't be serialized or printed
 fails its task, not the worker

---
 src/docket/worker.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3076553..20c3de5 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1189,8 +1189,12 @@ class Worker:
                 duration = log_context["duration"] = time.time() - start
                 TASKS_FAILED.add(1, counter_labels)
 
-                span.record_exception(e)
-                span.set_status(Status(StatusCode.ERROR, str(e)))
+                try:
+                    message = str(e)
+                    span.record_exception(e)
+                except Exception:
+                    message = "(unprintable)"
+                span.set_status(Status(StatusCode.ERROR, message))
 
                 outcome = TaskOutcome(
                     duration=timedelta(seconds=duration),
@@ -1232,19 +1236,28 @@ class Worker:
                         self.docket.execution_ttl
                         and not await execution.is_superseded()
                     ):
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
-                        # Base64-encode for JSON serialization
-                        encoded_exception = base64.b64encode(pickled_exception).decode(
-                            "ascii"
-                        )
-                        result_key = execution.key
-                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
-                        await self.docket.result_storage.put(
-                            result_key, {"data": encoded_exception}, ttl=ttl_seconds
-                        )
+                        try:
+                            pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        except Exception:
+                            logger.warning(
+                                "Can't serialize the exception of %s",
+                                call,
+                                exc_info=True,
+                                extra=log_context,
+                            )
+                        else:
+                            # Base64-encode for JSON serialization
+                            encoded_exception = base64.b64encode(
+                                pickled_exception
+                            ).decode("ascii")
+                            result_key = execution.key
+                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                            await self.docket.result_storage.put(
+                                result_key, {"data": encoded_exception}, ttl=ttl_seconds
+                            )
 
                     # Mark execution as failed with error message
-                    error_msg = f"{type(e).__name__}: {str(e)}"
+                    error_msg = f"{type(e).__name__}: {message}"
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From 84807ca367f442f1b004b830772ae9edf7bc5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 31/70] fix: each execution reports to its own progress

Progress as a default parameter is one object for all executions of the task:
concurrent ones all reported to the progress of the one that started last.
---
 src/docket/dependencies/_progress.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..84bf1dc 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -33,9 +33,10 @@ class Progress(Dependency["Progress"]):
         self._progress: ExecutionProgress | None = None
 
     async def __aenter__(self) -> Progress:
-        execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # As a default parameter, this instance is shared by all executions
+        progress = Progress()
+        progress._progress = current_execution.get().progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From 8f75b17860e10571cae0b07895620799c68a27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 32/70] fix: a cancellation that arrives after a task ended
 doesn't change its outcome

---
 src/docket/execution.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 24584f2..1c206d4 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -402,9 +402,20 @@ async def _terminal(
         end
     end
 
+    local current_state = redis.call('HGET', runs_key, 'state')
+
+    -- A cancellation that arrives after the end doesn't change it
+    if state == 'cancelled'
+        and (current_state == 'completed' or current_state == 'failed') then
+        if message_id ~= '' then
+            redis.call('XACK', stream_key, worker_group_name, message_id)
+            redis.call('XDEL', stream_key, message_id)
+        end
+        return 'OK'
+    end
+
     -- Docket.cancel announces the end of the tasks it cancels itself
-    local announced = state == 'cancelled'
-        and redis.call('HGET', runs_key, 'state') == 'cancelled'
+    local announced = state == 'cancelled' and current_state == 'cancelled'
 
     -- Build HSET args: state + completed_at + any extras
     local hset_args = {'state', state, 'completed_at', completed_at}
-- 
2.43.0


From 9357f9e715b2933efb5ff05b4ee76f6bde6aab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 33/70] fix: a new attempt doesn't begin with the previous
 attempt's progress message

---
 src/docket/execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 1c206d4..8b058b2 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -910,6 +910,8 @@ class Execution:
         self.started_at = started_at
         self.progress.current = 0
         self.progress.total = 100
+        self.progress.message = None
+        self.progress.updated_at = None
 
         return True
 
-- 
2.43.0


From 46319dec6424211467c4f80307f392b27e74ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 34/70] fix: clear() removes exactly the waiting tasks, and
 their keys can be used again

---
 src/docket/docket.py | 189 ++++++++++++++++++++++++++++++-------------
 1 file changed, 133 insertions(+), 56 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad9e892..6b7e534 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -71,6 +71,131 @@ tracer: trace.Tracer = trace.get_tracer(__name__)
 CANCELLED_IN_FLIGHT_TTL_SECONDS = 60
 
 
+@redis_script
+async def _clear_waiting_tasks(
+    redis: RedisClient,
+    *,
+    stream_key: Key[str],
+    queue_key: Key[str],
+    docket_prefix: Arg[str],
+    completed_at: Arg[str],
+    ttl_seconds: Arg[int],
+) -> int:
+    """
+    -- See _stream_due_tasks in worker.py
+    local function json_escape(s)
+        s = s:gsub('\\\\', '\\\\\\\\')
+        s = s:gsub('"', '\\\\"')
+        s = s:gsub('\\n', '\\\\n')
+        s = s:gsub('\\r', '\\\\r')
+        s = s:gsub('\\t', '\\\\t')
+        return s
+    end
+
+    local cleared = 0
+
+    -- End a waiting task, wherever it is.  A worker may be holding its message
+    -- already: it will find that it can't claim the task anymore.
+    local function cancel(key)
+        local runs_key = docket_prefix .. ':runs:' .. key
+
+        redis.call('ZREM', queue_key, key)
+        -- TODO: Remove in next breaking release (v0.14.0) - legacy key locations
+        redis.call(
+            'DEL',
+            docket_prefix .. ':' .. key,
+            docket_prefix .. ':known:' .. key,
+            docket_prefix .. ':stream-id:' .. key
+        )
+        if redis.call('HGET', runs_key, 'state') ~= 'running' then
+            -- Of an earlier attempt
+            redis.call('DEL', docket_prefix .. ':progress:' .. key)
+        end
+
+        local message_id = redis.call('HGET', runs_key, 'stream_id')
+        if message_id then
+            redis.call('XDEL', stream_key, message_id)
+        end
+
+        local state = redis.call('HGET', runs_key, 'state')
+        if state ~= 'queued' and state ~= 'scheduled' then
+            return
+        end
+
+        redis.call('HDEL', runs_key, 'known', 'stream_id')
+        redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+        if ttl_seconds > 0 then
+            redis.call('EXPIRE', runs_key, ttl_seconds)
+        else
+            redis.call('DEL', runs_key)
+        end
+        redis.call(
+            'PUBLISH',
+            docket_prefix .. ':state:' .. key,
+            '{"type":"state","key":"' .. json_escape(key)
+                .. '","state":"cancelled","completed_at":"' .. completed_at .. '"}'
+        )
+    end
+
+    local function clear(key)
+        -- A task that waits for a ConcurrencyLimit is represented by the
+        -- safeguard that will wake it up.  Safeguards without such a task have
+        -- some tidying up to do, and then they are gone, too.
+        if string.sub(key, 1, 14) == '__safeguard__:' then
+            local waiter = string.sub(key, 15)
+            local waiter_runs_key = docket_prefix .. ':runs:' .. waiter
+            local waiters_stream = redis.call('HGET', waiter_runs_key, 'waiter_stream')
+            if not waiters_stream
+                or redis.call('HGET', waiter_runs_key, 'state') ~= 'scheduled' then
+                return
+            end
+            redis.call(
+                'XDEL',
+                waiters_stream,
+                redis.call('HGET', waiter_runs_key, 'waiter_entry_id')
+            )
+            if redis.call('XLEN', waiters_stream) == 0 then
+                redis.call('DEL', waiters_stream)
+            end
+            redis.call('HDEL', waiter_runs_key, 'waiter_stream', 'waiter_entry_id')
+            cancel(waiter)
+            cleared = cleared + 1
+        else
+            cleared = cleared + 1
+        end
+        cancel(key)
+    end
+
+    for _, key in ipairs(redis.call('ZRANGE', queue_key, 0, -1)) do
+        clear(key)
+    end
+
+    -- A message stays in the stream while its task runs; only those of tasks
+    -- that have not started are up for removal (and those waiting for a
+    -- ConcurrencyLimit, even if their safeguard happens to be at work).
+    for _, entry in ipairs(redis.call('XRANGE', stream_key, '-', '+')) do
+        for i = 1, #entry[2], 2 do
+            if entry[2][i] == 'key' then
+                local key = entry[2][i + 1]
+                local runs_key = docket_prefix .. ':runs:' .. key
+                local message_id = redis.call('HGET', runs_key, 'stream_id')
+                if redis.call('HEXISTS', runs_key, 'state') == 0 then
+                    -- From before tasks had a record of their runs
+                    redis.call('XDEL', stream_key, entry[1])
+                    clear(key)
+                elseif message_id == entry[1]
+                    or string.sub(key, 1, 14) == '__safeguard__:' then
+                    clear(key)
+                end
+            end
+        end
+    end
+
+    return cleared
+    """
+    ...
+
+
 @redis_script
 async def _cancel_task(
     redis: RedisClient,
@@ -887,59 +1012,11 @@ class Docket(DocketSnapshotMixin):
             attributes=self.labels(),
         ):
             async with self.redis() as redis:
-                async with redis.pipeline() as pipeline:
-                    # Get counts before clearing
-                    pipeline.xlen(self.stream_key)
-                    pipeline.zcard(self.queue_key)
-                    pipeline.zrange(self.queue_key, 0, -1)
-
-                    stream_count: int
-                    queue_count: int
-                    scheduled_keys: list[bytes]
-                    stream_count, queue_count, scheduled_keys = await pipeline.execute()
-
-                # Get keys from stream messages before trimming
-                stream_keys: list[str] = []
-                if stream_count > 0:
-                    # Read all messages from the stream
-                    messages = await redis.xrange(self.stream_key, "-", "+")
-                    for message_id, fields in messages:
-                        # Extract the key field from the message
-                        if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
-
-                async with redis.pipeline() as pipeline:
-                    # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
-                    pipeline.delete(self.queue_key)
-
-                    # Clear parked task data and known task keys for scheduled tasks
-                    for key_bytes in scheduled_keys:
-                        task_key = key_bytes.decode()
-                        pipeline.delete(self.parked_task_key(task_key))
-                        pipeline.delete(self.known_task_key(task_key))
-                        pipeline.delete(self.stream_id_key(task_key))
-
-                        # Handle runs hash: set TTL or delete based on execution_ttl
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    # Handle runs hash for immediate tasks from stream
-                    for task_key in stream_keys:
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    await pipeline.execute()
-
-                    total_cleared = stream_count + queue_count
-                    return total_cleared
+                return await _clear_waiting_tasks(
+                    redis,
+                    stream_key=self.stream_key,
+                    queue_key=self.queue_key,
+                    docket_prefix=self.prefix,
+                    completed_at=datetime.now(timezone.utc).isoformat(),
+                    ttl_seconds=int(self.execution_ttl.total_seconds()),
+                )
-- 
2.43.0


From 9eae9b9cdb53846238df4736d6f1a560c7b7f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 35/70] fix: snapshots list all tasks of a long backlog, and
 when long-running ones really started

---
 src/docket/_docket_snapshot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index dd9fe9c..747b45d 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -1,5 +1,6 @@
 """Snapshot and worker tracking mixin for Docket."""
 
+import sys
 from contextlib import AbstractAsyncContextManager
 from dataclasses import dataclass
 from datetime import datetime, timedelta, timezone
@@ -129,10 +130,10 @@ class DocketSnapshotMixin:
                     self.worker_group_name,
                     min="-",
                     max="+",
-                    count=1000,
+                    count=sys.maxsize,
                 )
 
-                pipeline.xrange(self.stream_key, "-", "+", count=1000)
+                pipeline.xrange(self.stream_key, "-", "+")
 
                 pipeline.zrange(self.queue_key, 0, -1)
 
@@ -197,6 +198,9 @@ class DocketSnapshotMixin:
                 started = now - timedelta(
                     milliseconds=pending_lookup[message_id]["time_since_delivered"]
                 )
+                if execution.state == ExecutionState.RUNNING and execution.started_at:
+                    # A lease that is renewed counts as a delivery
+                    started = min(started, execution.started_at)
                 running.append(RunningExecution(execution, worker_name, started))
             else:
                 future.append(execution)  # pragma: no cover
-- 
2.43.0


From e7eabc482139b808792419c4f6d9666edd19e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 36/70] fix: a worker is listed with the tasks it knows, not
 those of an earlier one of its name

---
 src/docket/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 20c3de5..79b5008 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1320,6 +1320,8 @@ class Worker:
                                 pipeline.zremrangebyscore(task_workers_set, 0, oldest)
                                 pipeline.zadd(task_workers_set, {self.name: now})
 
+                            # An earlier worker of this name may have known others
+                            pipeline.delete(self.worker_tasks_set(self.name))
                             pipeline.sadd(self.worker_tasks_set(self.name), *task_names)
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
-- 
2.43.0


From 4ac39058de4eea1d61c48bc619eb6964b78996da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 37/70] fix: an agenda fills exactly its window, however many
 tasks it has

---
 src/docket/agenda.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index 2b95f98..4412edd 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -168,8 +168,9 @@ class Agenda:
         else:
             # Distribute tasks evenly across the window
             # For n tasks, we want n points from start to start+over inclusive
-            interval = over / (task_count - 1)
-            schedule_times = [start + interval * i for i in range(task_count)]
+            schedule_times = [
+                start + over * i / (task_count - 1) for i in range(task_count)
+            ]
 
         # Apply jitter if specified
         if jitter:
-- 
2.43.0


From ba4058ceb62ca8dda511994b10cf5ab15f665793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 38/70] fix: an agenda's window is real time, also across
 changes of daylight saving time

---
 src/docket/agenda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index 4412edd..a74e267 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -159,6 +159,9 @@ class Agenda:
         if start is None:
             start = datetime.now(timezone.utc)
 
+        # The window is a span of real time, even if the clocks change during it
+        start = start.astimezone(timezone.utc)
+
         # Calculate even distribution over the time period
         task_count = len(self._tasks)
 
-- 
2.43.0


From c2a3fce298dbdaed2d285e42a3a3d694606ab21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 39/70] fix: an agenda schedules tasks under the name they were
 added by

---
 src/docket/agenda.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index a74e267..ccd90ee 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -190,10 +190,10 @@ class Agenda:
                 jittered_times.append(jittered_time)
             schedule_times = jittered_times
 
-        # Validate and resolve every task first, so an unregistered name fails
+        # Validate every task first, so an unregistered name fails
         # before we schedule anything.
         planned: list[
-            tuple[TaskFunction, tuple[Any, ...], dict[str, Any], str, datetime]
+            tuple[TaskFunction | str, tuple[Any, ...], dict[str, Any], str, datetime]
         ] = []
         for (task_func, args, kwargs, explicit_key), schedule_time in zip(
             self._tasks, schedule_times
@@ -201,19 +201,16 @@ class Agenda:
             if isinstance(task_func, str):
                 if task_func not in docket.tasks:
                     raise KeyError(f"Task '{task_func}' is not registered")
-                resolved_func = docket.tasks[task_func]
-            else:
-                if task_func not in docket.tasks.values():
-                    docket.register(task_func)
-                resolved_func = task_func
+            elif task_func not in docket.tasks.values():
+                docket.register(task_func)
 
             key = explicit_key if explicit_key is not None else str(uuid7())
-            planned.append((resolved_func, args, kwargs, key, schedule_time))
+            planned.append((task_func, args, kwargs, key, schedule_time))
 
         # Schedule each task; if one fails partway, earlier ones stay scheduled.
         executions: list[Execution] = []
-        for resolved_func, args, kwargs, key, schedule_time in planned:
-            scheduler = docket.add(resolved_func, when=schedule_time, key=key)
+        for task_func, args, kwargs, key, schedule_time in planned:
+            scheduler = docket.add(task_func, when=schedule_time, key=key)
             executions.append(await scheduler(*args, **kwargs))
 
         return executions
-- 
2.43.0


From f99e680040a7fd9c5ecc88f76e976cd5f8f0a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 40/70] fix: tasks whose keys look like the docket's own Redis
 keys don't clash with these

---
 src/docket/docket.py | 30 ++++++++++++++++++++++++++++--
 src/docket/worker.py |  6 +++++-
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 6b7e534..a2eeadb 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -70,6 +70,28 @@ tracer: trace.Tracer = trace.get_tracer(__name__)
 # cancelled while a worker may have been holding its message.
 CANCELLED_IN_FLIGHT_TTL_SECONDS = 60
 
+# What the names of the docket's own Redis keys start with.  The data of tasks
+# whose keys do, too, is parked out of their way.
+RESERVED_KEY_SEGMENTS = {
+    "concurrency",
+    "cooldown",
+    "debounce",
+    "known",
+    "parked",
+    "perpetual",
+    "progress",
+    "queue",
+    "ratelimit",
+    "results",
+    "runs",
+    "stream",
+    "stream-id",
+    "strikes",
+    "task-workers",
+    "worker-tasks",
+    "workers",
+}
+
 
 @redis_script
 async def _clear_waiting_tasks(
@@ -99,11 +121,13 @@ async def _clear_waiting_tasks(
     local function cancel(key)
         local runs_key = docket_prefix .. ':runs:' .. key
 
-        redis.call('ZREM', queue_key, key)
+        if redis.call('ZREM', queue_key, key) == 1
+            and redis.call('DEL', docket_prefix .. ':parked:' .. key) == 0 then
+            redis.call('DEL', docket_prefix .. ':' .. key)
+        end
         -- TODO: Remove in next breaking release (v0.14.0) - legacy key locations
         redis.call(
             'DEL',
-            docket_prefix .. ':' .. key,
             docket_prefix .. ':known:' .. key,
             docket_prefix .. ':stream-id:' .. key
         )
@@ -860,6 +884,8 @@ class Docket(DocketSnapshotMixin):
         return self.key(f"known:{task_key}")
 
     def parked_task_key(self, task_key: str) -> str:
+        if task_key.partition(":")[0] in RESERVED_KEY_SEGMENTS:
+            return self.key(f"parked:{task_key}")
         return self.key(task_key)
 
     def stream_id_key(self, task_key: str) -> str:
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 79b5008..0c77d12 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -183,7 +183,11 @@ async def _stream_due_tasks(
         local tasks = redis.call('ZRANGEBYSCORE', queue_key, 0, now_timestamp)
 
         for i, key in ipairs(tasks) do
-            local hash_key = docket_prefix .. ":" .. key
+            -- See Docket.parked_task_key
+            local hash_key = docket_prefix .. ":parked:" .. key
+            if redis.call('EXISTS', hash_key) == 0 then
+                hash_key = docket_prefix .. ":" .. key
+            end
             local task_data = redis.call('HGETALL', hash_key)
 
             if #task_data > 0 then
-- 
2.43.0


From dcb70fd2eb9e0d3bf4359c479ce22b9dbab22e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 41/70] fix: a perpetual task registered under a name of its
 own keeps it

---
 src/docket/dependencies/_perpetual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index f296e56..7895f0e 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -115,9 +115,14 @@ class Perpetual(CompletionHandler["Perpetual"]):
             now = datetime.now(timezone.utc)
             when = max(now, now + self.every - outcome.duration)
 
+        # The name it goes by on this docket isn't necessarily the function's
+        function = execution.function
+        if docket.tasks.get(execution.function_name) is function:
+            function = execution.function_name
+
         token = scheduling_successor_of.set(execution)
         try:
-            successor = await docket.replace(execution.function, when, execution.key)(
+            successor = await docket.replace(function, when, execution.key)(
                 *self.args,
                 **self.kwargs,
             )
-- 
2.43.0


From 292f066539fae5459668139f55cf088fa50304c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 42/70] fix: automatic tasks are scheduled under the names they
 are registered by

---
 src/docket/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 0c77d12..6ef4a99 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -985,7 +985,7 @@ class Worker:
                     blocking=False,
                 ):
                     # Tasks may be registered while we're at it
-                    for task_function in list(self.docket.tasks.values()):
+                    for task_name, task_function in list(self.docket.tasks.items()):
                         perpetual = get_single_dependency_parameter_of_type(
                             task_function, Perpetual
                         )
@@ -1001,7 +1001,7 @@ class Worker:
                             if await self._automatic_perpetual_is_live(redis, key):
                                 continue
                             await self.docket.add(
-                                task_function, when=perpetual.initial_when, key=key
+                                task_name, when=perpetual.initial_when, key=key
                             )()
             except LockError:  # pragma: no cover
                 return
-- 
2.43.0


From 49a2ec9268965114d88c11627a16529ee67b61af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 43/70] fix: a cancellation while taking or giving back a
 concurrency slot doesn't leak it

---
 src/docket/dependencies/_concurrency.py | 51 ++++++++++++++++---------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 02b398d..20a8102 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -640,23 +640,29 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                     message=message,
                 )
 
-        result = await acquire_or_park(may_park=False)
-        if result == 0:
-            # Schedule a safeguard task to backstop the normal release path.
-            # A wake through the release path removes it again; otherwise it
-            # scavenges any stale slots and wakes the waiters.  It has to be in
-            # place before the task parks: a worker dying between the two would
-            # leave a waiter that nothing may ever wake.
-            safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.replace(
-                _safeguard_wake,
-                when=datetime.now(timezone.utc) + redelivery_timeout,
-                key=safeguard_key,
-            )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-
-            result = await acquire_or_park(may_park=True)
-            if result == 1:
-                await docket.cancel(safeguard_key)
+        try:
+            result = await acquire_or_park(may_park=False)
+            if result == 0:
+                # Schedule a safeguard task to backstop the normal release path.
+                # A wake through the release path removes it again; otherwise it
+                # scavenges any stale slots and wakes the waiters.  It has to be in
+                # place before the task parks: a worker dying between the two would
+                # leave a waiter that nothing may ever wake.
+                safeguard_key = f"__safeguard__:{execution.key}"
+                await docket.replace(
+                    _safeguard_wake,
+                    when=datetime.now(timezone.utc) + redelivery_timeout,
+                    key=safeguard_key,
+                )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
+
+                result = await acquire_or_park(may_park=True)
+                if result == 1:
+                    await docket.cancel(safeguard_key)
+        except asyncio.CancelledError:
+            # The slot may well have been taken before the cancellation arrived,
+            # and nothing else would give it back.
+            await limit._release_and_wake()
+            raise
 
         if result == -1:
             logger.debug("↬ Task %s (superseded)", execution.key)
@@ -806,7 +812,16 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         await docket.cancel(f"__safeguard__:{task_key}")
 
     async def _release_and_wake(self) -> None:
-        """Release this task's slot and hand freed capacity to waiters."""
+        """Release this task's slot and hand freed capacity to waiters, even if the
+        task is cancelled meanwhile."""
+        release = asyncio.ensure_future(self._release_slot())
+        try:
+            await asyncio.shield(release)
+        except asyncio.CancelledError:
+            await release
+            raise
+
+    async def _release_slot(self) -> None:
         assert self._concurrency_key and self._task_key and self._redelivery_timeout
 
         docket = current_docket.get()
-- 
2.43.0


From d992695cde36691cf68438510b7a1538be614b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 44/70] fix: cancellations of dockets whose names contain glob
 characters reach their own workers only

---
 src/docket/dependencies/_concurrency.py | 2 +-
 src/docket/docket.py                    | 8 ++++++++
 src/docket/worker.py                    | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 20a8102..303a12e 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -747,7 +747,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = docket.cancel_channel_pattern
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index a2eeadb..76042d4 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,6 +1,7 @@
 import importlib
 import json
 import logging
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -899,6 +900,13 @@ class Docket(DocketSnapshotMixin):
         """Return the Redis pub/sub channel for cancellation signals for a task."""
         return self.key(f"cancel:{task_key}")
 
+    @property
+    def cancel_channel_pattern(self) -> str:
+        """Return the pattern matching the cancellation channels of this docket's
+        tasks, and no other docket's, whatever its name is."""
+        escaped = re.sub(r"([*?\[\]\\])", r"\\\1", self.prefix)
+        return f"{escaped}:cancel:*"
+
     @property
     def results_collection(self) -> str:
         """Return the collection name for result storage."""
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 6ef4a99..a9fbcc8 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1376,7 +1376,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = self.docket.cancel_channel_pattern
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
-- 
2.43.0


From 97b1b27ecda7e696454d66a40b1550fa22a8e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 45/70] fix: run_at_most doesn't count runs that admission
 control held back

---
 src/docket/worker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index a9fbcc8..53f7b40 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1177,6 +1177,9 @@ class Worker:
                 # `start_as_current_span` doesn't leave these executions tagged
                 # ERROR in tracing backends.
                 span.set_status(Status(StatusCode.OK))
+                if execution.key in self._execution_counts:
+                    # It hasn't run after all
+                    self._execution_counts[execution.key] -= 1
                 raise
             except asyncio.CancelledError:
                 # Task was cancelled externally via docket.cancel()
-- 
2.43.0


From 4ba6f5b1240b40cba2dae227af9f9214f911d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 46/70] fix: a task with an unhashable default doesn't stop its
 workers

---
 src/docket/annotations.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 03c7380..1eac90d 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -12,10 +12,15 @@ class Annotation(abc.ABC):
 
     @classmethod
     def annotated_parameters(cls, signature: inspect.Signature) -> Mapping[str, Self]:
-        key = (cls, signature)
-        if key in cls._cache:
+        key: tuple[type[Self], inspect.Signature] | None = (cls, signature)
+        try:
+            cached = cls._cache.get(key)
+        except TypeError:
+            # A default or an annotation that isn't hashable
+            key = cached = None
+        if cached is not None:
             CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
-            return cls._cache[key]
+            return cached
 
         annotated: dict[str, Self] = {}
 
@@ -34,7 +39,8 @@ class Annotation(abc.ABC):
                 elif isinstance(arg_type, type) and issubclass(arg_type, cls):
                     annotated[param_name] = arg_type()
 
-        cls._cache[key] = annotated
+        if key is not None:
+            cls._cache[key] = annotated
         CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
         return annotated
 
-- 
2.43.0


From 6f39c04d8c835904e2051ab1bceb11836f4bb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 47/70] fix: a task annotated with a bare generic doesn't stop
 workers from starting

---
 src/docket/execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 8b058b2..b47abce 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1305,7 +1305,8 @@ def compact_signature(signature: inspect.Signature) -> str:
         if parameter.annotation is not parameter.empty:
             annotation = parameter.annotation
             if hasattr(annotation, "__origin__"):
-                annotation = annotation.__args__[0]
+                # Bare generics, like typing.List, have no arguments
+                annotation = next(iter(getattr(annotation, "__args__", ())), annotation)
 
             type_name = getattr(annotation, "__name__", str(annotation))
             parameter_definition = f"{parameter.name}: {type_name}"
-- 
2.43.0


From 1c2d7aa68cebe57826b860da3b9387528c99b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 48/70] fix: logged calls show the arguments marked for
 logging, wherever they bind

---
 src/docket/execution.py | 45 +++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index b47abce..bbf1b7e 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -707,20 +707,43 @@ class Execution:
 
         signature = get_signature(self.function)
         logged_parameters = Logged.annotated_parameters(signature)
-        parameter_names = list(signature.parameters.keys())
 
-        for i, argument in enumerate(self.args[: len(parameter_names)]):
-            parameter_name = parameter_names[i]
-            if logged := logged_parameters.get(parameter_name):
-                arguments.append(logged.format(argument))
-            else:
-                arguments.append("...")
+        def formatted(parameter: inspect.Parameter | None, argument: Any) -> str:
+            logged = logged_parameters.get(parameter.name) if parameter else None
+            if logged is None:
+                return "..."
+            try:
+                return logged.format(argument)
+            except Exception:
+                return "(unprintable)"
+
+        # The parameters that positional and keyword arguments end up in, which
+        # aren't simply those in the same position or of the same name when
+        # there are *args, keyword-only, or positional-only ones
+        positional: list[inspect.Parameter] = []
+        keyword: dict[str, inspect.Parameter] = {}
+        remaining: inspect.Parameter | None = None
+        for parameter in signature.parameters.values():
+            if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+                remaining = parameter
+            if parameter.kind in (
+                inspect.Parameter.POSITIONAL_ONLY,
+                inspect.Parameter.POSITIONAL_OR_KEYWORD,
+            ):
+                positional.append(parameter)
+            if parameter.kind in (
+                inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                inspect.Parameter.KEYWORD_ONLY,
+            ):
+                keyword[parameter.name] = parameter
+
+        for i, argument in enumerate(self.args[: len(signature.parameters)]):
+            parameter = positional[i] if i < len(positional) else remaining
+            arguments.append(formatted(parameter, argument))
 
         for parameter_name, argument in self.kwargs.items():
-            if logged := logged_parameters.get(parameter_name):
-                arguments.append(f"{parameter_name}={logged.format(argument)}")
-            else:
-                arguments.append(f"{parameter_name}=...")
+            parameter = keyword.get(parameter_name)
+            arguments.append(f"{parameter_name}={formatted(parameter, argument)}")
 
         return f"{function_name}({', '.join(arguments)}){{{self.key}}}"
 
-- 
2.43.0


From ca4d2b7a61ff76134da68a5b1449812458101592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 49/70] fix: a failing comparison of a strike doesn't log the
 task's argument

---
 src/docket/strikelist.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index eaf65cd..b2b5baa 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -435,30 +435,30 @@ class StrikeList:
         try:
             match operator:
                 case "==":
-                    return value == strike_value
+                    return bool(value == strike_value)
                 case "!=":
-                    return value != strike_value
+                    return bool(value != strike_value)
                 case ">":
-                    return value > strike_value
+                    return bool(value > strike_value)
                 case ">=":
-                    return value >= strike_value
+                    return bool(value >= strike_value)
                 case "<":
-                    return value < strike_value
+                    return bool(value < strike_value)
                 case "<=":
-                    return value <= strike_value
+                    return bool(value <= strike_value)
                 case "between":  # pragma: no branch
                     lower, upper = strike_value
-                    return lower <= value <= upper
+                    return bool(lower <= value <= upper)
                 case _:  # pragma: no cover
                     raise ValueError(f"Unknown operator: {operator}")
-        except (ValueError, TypeError):
+        except Exception:
             # If we can't make the comparison due to incompatible types, just log the
-            # error and assume the task is not stricken
+            # error and assume the task is not stricken.  Arguments aren't for the log.
             logger.warning(
-                "Incompatible type for strike condition: %r %s %r",
+                "Incompatible type for strike condition: %r %s %s",
                 strike_value,
                 operator,
-                value,
+                type(value).__name__,
                 exc_info=True,
             )
             return False
-- 
2.43.0


From ecb9566cdb53cea3ee8734c5dda45d69f6d08a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 50/70] fix: a task whose arguments can't be read fails by
 itself, without its worker

---
 src/docket/execution.py | 20 ++++++++++++++++++--
 src/docket/worker.py    |  5 +++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index bbf1b7e..3edacf7 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -556,6 +556,9 @@ class Execution:
         # for a further attempt carries: the task may modify its arguments.
         self._serialized_arguments: tuple[bytes, bytes] | None = None
 
+        # Why the arguments couldn't be read from the message, if they couldn't
+        self._unreadable: Exception | None = None
+
         # True once the stream message identified by ``message_id`` has been
         # XACKed (by ``_terminal``, ``_claim`` on SUPERSEDED, or ``_schedule``
         # when re-routing this same message).  The worker uses this as a
@@ -658,6 +661,7 @@ class Execution:
         redelivered: bool = False,
         fallback_task: TaskFunction | None = None,
         message_id: "RedisMessageID | None" = None,
+        allow_unreadable: bool = False,
     ) -> Self:
         function_name = message[b"function"].decode()
         if not (function := docket.tasks.get(function_name)):
@@ -667,11 +671,22 @@ class Execution:
                 )
             function = fallback_task
 
+        args: tuple[Any, ...] = ()
+        kwargs: dict[str, Any] = {}
+        unreadable: Exception | None = None
+        try:
+            args = cloudpickle.loads(message[b"args"])
+            kwargs = cloudpickle.loads(message[b"kwargs"])
+        except Exception as error:
+            if not allow_unreadable:
+                raise
+            unreadable = error
+
         instance = cls(
             docket=docket,
             function=function,
-            args=cloudpickle.loads(message[b"args"]),
-            kwargs=cloudpickle.loads(message[b"kwargs"]),
+            args=args,
+            kwargs=kwargs,
             key=message[b"key"].decode(),
             when=datetime.fromisoformat(message[b"when"].decode()),
             attempt=int(message[b"attempt"].decode()),
@@ -682,6 +697,7 @@ class Execution:
             message_id=message_id,
         )
         instance._serialized_arguments = (message[b"args"], message[b"kwargs"])
+        instance._unreadable = unreadable
         await instance.sync()
         return instance
 
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 53f7b40..834edf9 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -676,6 +676,7 @@ class Worker:
                 redelivered=is_redelivery,
                 fallback_task=self.fallback_task,
                 message_id=message_id,
+                allow_unreadable=True,
             )
 
             task = asyncio.create_task(
@@ -1074,6 +1075,10 @@ class Worker:
             links=execution.incoming_span_links(),
         ) as span:
             try:
+                if execution._unreadable is not None:
+                    # Arguments of a type that this worker doesn't have, say
+                    raise execution._unreadable
+
                 async with resolved_dependencies(self, execution) as dependencies:
                     dependency_failures = {
                         k: v
-- 
2.43.0


From 19c76c9e2982ae3ec5dc9f04c601450b9f7e9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 51/70] fix: an error message with lone surrogates doesn't stop
 its worker

---
 src/docket/execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 3edacf7..51d29ad 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -981,6 +981,8 @@ class Execution:
         # Build the optional HSET fields
         extra_fields: list[str] = []
         if error:
+            # Text from outside may have lone surrogates, which don't encode
+            error = error.encode("utf-8", "backslashreplace").decode("utf-8")
             extra_fields.extend(["error", error])
         if result_key is not None:
             extra_fields.extend(["result_key", result_key])
-- 
2.43.0


From cd436defc3fc2b5133b450073c0ec4b2b35c0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 52/70] fix: a failing handler of a failed task doesn't stop
 its worker

---
 src/docket/dependencies/_perpetual.py |  2 +-
 src/docket/dependencies/_retry.py     |  2 +-
 src/docket/worker.py                  | 23 ++++++++++++++++++-----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7895f0e..afbd7e1 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -147,7 +147,7 @@ class Perpetual(CompletionHandler["Perpetual"]):
 
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
-        if outcome.exception:
+        if outcome.exception is not None:
             logger.error(
                 "↩ [%s] %s",
                 format_duration(outcome.duration.total_seconds()),
diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 93481c3..76752ef 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -100,7 +100,7 @@ class Retry(FailureHandler["Retry"]):
         """Handle failure by scheduling a retry if attempts remain."""
         from ..execution import Disposition
 
-        assert outcome.exception
+        assert outcome.exception is not None
 
         if self.attempts is not None and execution.attempt >= self.attempts:
             return False
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 834edf9..c8e133f 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -15,6 +15,7 @@ from datetime import datetime, timedelta, timezone
 from types import TracebackType
 from typing import (
     Any,
+    Awaitable,
     Generator,
     Mapping,
     Sequence,
@@ -39,7 +40,7 @@ from ._lua import Arg, Key, redis_script
 from ._redis import RedisClient
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
-from redis.exceptions import ConnectionError, LockError, ResponseError
+from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
 from typing_extensions import Self
 
 from .dependencies import (
@@ -1217,8 +1218,8 @@ class Worker:
                 failure_handler = get_single_dependency_of_type(
                     dependencies, FailureHandler
                 )
-                if failure_handler and await failure_handler.handle_failure(
-                    execution, outcome
+                if failure_handler and await self._handled(
+                    failure_handler.handle_failure(execution, outcome), call
                 ):
                     # Handler took responsibility (scheduled retry, logged, recorded metrics)
                     # Don't mark as failed - task is being retried
@@ -1228,8 +1229,8 @@ class Worker:
                     completion_handler = get_single_dependency_of_type(
                         dependencies, CompletionHandler
                     )
-                    if completion_handler and await completion_handler.on_complete(
-                        execution, outcome
+                    if completion_handler and await self._handled(
+                        completion_handler.on_complete(execution, outcome), call
                     ):
                         # Handler took responsibility (rescheduled, logged, recorded metrics)
                         pass
@@ -1276,6 +1277,18 @@ class Worker:
                 TASKS_COMPLETED.add(1, counter_labels)
                 TASK_DURATION.record(duration, counter_labels)
 
+    async def _handled(self, handling: Awaitable[bool], call: str) -> bool:
+        """Whether the handler of a failed task took responsibility for it, which
+        it hasn't if it failed itself."""
+        try:
+            return await handling
+        except RedisError:
+            # Not its fault; the task will be redelivered
+            raise
+        except Exception:
+            logger.exception("Error handling the outcome of %s", call)
+            return False
+
     def _startup_log(self) -> None:
         logger.info("Starting worker %r with the following tasks:", self.name)
         for task_name, task in self.docket.tasks.items():
-- 
2.43.0


From 667d344b167be7ea2d0e137b8c30083030bf5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 53/70] fix: unknown tasks with arguments called execution or
 logger are dropped, too

---
 src/docket/worker.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index c8e133f..fcade15 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -135,14 +135,12 @@ class _ProcessingSession:
     cancellation_ready: asyncio.Event
 
 
-async def default_fallback_task(
-    *args: Any,
-    execution: Execution = CurrentExecution(),
-    logger: logging.LoggerAdapter[logging.Logger] = TaskLogger(),
-    **kwargs: Any,
-) -> None:
+async def default_fallback_task(*args: Any, **kwargs: Any) -> None:
     """Default fallback that logs a warning and completes the task."""
-    logger.warning(
+    # Not parameters, because the task may have arguments of any name
+    execution = await cast(Any, CurrentExecution()).__aenter__()
+    task_logger = await cast(Any, TaskLogger()).__aenter__()
+    task_logger.warning(
         "Unknown task %r received - dropping. "
         "Register via CLI (--tasks your.module:tasks) or API (docket.register(func)).",
         execution.function_name,
-- 
2.43.0


From e2c438751477c2c13065809daf698c06c3b292da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 54/70] fix: blocked tasks don't log the values of their
 arguments

---
 src/docket/dependencies/_concurrency.py | 10 +++++-----
 src/docket/dependencies/_cooldown.py    |  4 +++-
 src/docket/dependencies/_debounce.py    |  6 +++++-
 src/docket/dependencies/_ratelimit.py   |  6 +++++-
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 303a12e..ec0b8c4 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -465,7 +465,8 @@ class ConcurrencyBlocked(AdmissionBlocked):
         self.concurrency_key = concurrency_key
         self.max_concurrent = max_concurrent
         self._waiter_key = f"{concurrency_key}:waiters"
-        reason = f"concurrency limit ({max_concurrent} max) on {concurrency_key}"
+        # Without the key's argument, which isn't necessarily one to be logged
+        reason = f"concurrency limit ({max_concurrent} max)"
         super().__init__(execution, reason=reason, handled=True)
 
 
@@ -671,9 +672,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
 
         if result == 0:
             logger.debug(
-                "⏳ Task %s parked on waiter stream %s",
+                "⏳ Task %s parked, waiting for a concurrency slot",
                 execution.key,
-                waiters_stream,
             )
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
@@ -870,8 +870,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 # Lease renewal is best-effort; if it fails, the slot will eventually
                 # be scavenged as stale and the task can be redelivered
                 logger.warning(
-                    "Concurrency lease renewal failed for %s",
-                    self._concurrency_key,
+                    "Concurrency lease renewal failed for task %s",
+                    self._task_key,
                     exc_info=True,
                 )
 
diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index ea739c4..2f76fcf 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -90,7 +90,9 @@ class Cooldown(Dependency["Cooldown"]):
         if not acquired:
             raise AdmissionBlocked(
                 execution,
-                reason=f"cooldown ({self.window}) on {cooldown_key}",
+                # Without the argument, which isn't necessarily one to be logged
+                reason=f"cooldown ({self.window}) on "
+                f"{self._argument_name or execution.function_name}",
                 reschedule=False,
             )
 
diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 67c5f28..e4bdd0e 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -159,7 +159,11 @@ class Debounce(Dependency["Debounce"]):
         if action == _ACTION_PROCEED:
             return self
 
-        reason = f"debounce ({self.settle}) on {base_key}"
+        # Without the argument, which isn't necessarily one to be logged
+        reason = (
+            f"debounce ({self.settle}) on "
+            f"{self._argument_name or execution.function_name}"
+        )
 
         if action == _ACTION_RESCHEDULE:
             raise AdmissionBlocked(
diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index f8f5239..ae6eeb6 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -147,7 +147,11 @@ class RateLimit(Dependency["RateLimit"]):
             self._admitted[id(execution)] = (ratelimit_key, member)
             return self
 
-        reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
+        # Without the argument, which isn't necessarily one to be logged
+        reason = (
+            f"rate limit ({self.limit}/{self.per}) on "
+            f"{self._argument_name or execution.function_name}"
+        )
 
         if self.drop:
             raise AdmissionBlocked(execution, reason=reason, reschedule=False)
-- 
2.43.0


From 71bef42aad1cf032329e3082de0954bd11b5e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 55/70] fix: a task that fails after its function returned
 doesn't count as a success

---
 src/docket/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index fcade15..c1fbe1c 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1130,9 +1130,6 @@ class Worker:
                         )
 
                     duration = log_context["duration"] = time.time() - start
-                    TASKS_SUCCEEDED.add(1, counter_labels)
-
-                    span.set_status(Status(StatusCode.OK))
 
                     # Check for completion handler (e.g., Perpetual)
                     completion_handler = get_single_dependency_of_type(
@@ -1174,6 +1171,10 @@ class Worker:
                             call,
                             extra=log_context,
                         )
+
+                # Only now that nothing can fail it any more
+                TASKS_SUCCEEDED.add(1, counter_labels)
+                span.set_status(Status(StatusCode.OK))
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
-- 
2.43.0


From 8a0962f081bcfc06c8ffb6c24e988e8030537cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 56/70] fix: tasks put off by admission control keep their link
 to the span that scheduled them

---
 src/docket/worker.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index c1fbe1c..e0b5da2 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -32,7 +32,7 @@ if sys.version_info < (3, 11):
 else:
     from asyncio import TaskGroup  # pragma: no cover
 
-from opentelemetry import trace
+from opentelemetry import context, trace
 from opentelemetry.trace import Status, StatusCode, Tracer
 
 from ._cancellation import CANCEL_MSG_CLEANUP, cancel_task
@@ -719,9 +719,16 @@ class Worker:
                             extra=log_context,
                         )
                         e.execution.when = datetime.now(timezone.utc) + delay
-                        disposition = await e.execution.schedule(
-                            reschedule_message=message_id
+                        # It keeps its link to the span that scheduled it
+                        token = context.attach(
+                            e.execution.trace_context or context.get_current()
                         )
+                        try:
+                            disposition = await e.execution.schedule(
+                                reschedule_message=message_id
+                            )
+                        finally:
+                            context.detach(token)
                         if disposition is Disposition.SUPERSEDED:
                             await e.execution.mark_as_cancelled()
                     else:
-- 
2.43.0


From 11a4766a5365790b7ac8758c9bd40dc4555319dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 57/70] fix: an outage while automatic tasks are scheduled at
 start-up doesn't end the worker

---
 src/docket/worker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index e0b5da2..dd1340d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -782,7 +782,11 @@ class Worker:
                     # Not to start tasks that have been struck
                     await self.docket.wait_for_strikes_loaded()
                     if self.schedule_automatic_tasks:
-                        await self._schedule_all_automatic_perpetual_tasks()
+                        try:
+                            await self._schedule_all_automatic_perpetual_tasks()
+                        except ConnectionError as error:
+                            # As from the polling below
+                            disconnect = error
                         infra.create_task(
                             self._reseed_automatic_perpetual_tasks_loop(),
                             name=f"{self.docket.name} - automatic perpetual reseed",
@@ -801,8 +805,10 @@ class Worker:
                     )
                     has_work: bool = True
                     while (
-                        forever or has_work or active_tasks
-                    ) and not stopping.is_set():
+                        (forever or has_work or active_tasks)
+                        and disconnect is None
+                        and not stopping.is_set()
+                    ):
                         await process_completed_tasks()
                         available_slots = self.concurrency - len(active_tasks)
                         if available_slots <= 0:
-- 
2.43.0


From c618b507716d9c6f55cee6e6ee69ca5cb9c37fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 58/70] fix: tasks can be cancelled while their worker drains

---
 src/docket/worker.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index dd1340d..0453633 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -873,9 +873,19 @@ class Worker:
                     self._renew_leases(redis, active_tasks, drained),
                     name=f"{self.docket.name} - lease renewal while draining",
                 )
+                # They can still be cancelled
+                self._processing_session = session = _ProcessingSession(
+                    stopping=drained,
+                    cancellation_ready=asyncio.Event(),
+                )
+                listener = asyncio.create_task(
+                    self._cancellation_listener(),
+                    name=f"{self.docket.name} - cancellation listener while draining",
+                )
                 await asyncio.gather(*active_tasks, return_exceptions=True)
                 drained.set()
                 await asyncio.gather(renewal, return_exceptions=True)
+                await cancel_task(listener, CANCEL_MSG_CLEANUP)
                 await process_completed_tasks()
             if self._processing_session is session:
                 self._processing_session = None
-- 
2.43.0


From 3750edadca565f4dfb04fe955dbaedef2586ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 59/70] fix: the listener for cancelled waiters reconnects

---
 src/docket/dependencies/_concurrency.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index ec0b8c4..6f3de82 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -747,6 +747,18 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
+        while True:
+            try:
+                return await cls._listen_for_cancellations(docket)
+            except Exception:
+                logger.warning(
+                    "Error listening for cancelled waiters, reconnecting...",
+                    exc_info=True,
+                )
+                await asyncio.sleep(1)
+
+    @classmethod
+    async def _listen_for_cancellations(cls, docket: "Docket") -> None:
         pattern = docket.cancel_channel_pattern
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
-- 
2.43.0


From 28907b58e5ce7de50d02646fc83b03640dd86324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 60/70] fix: cancelled waiters are cleaned up on the in-memory
 backend, too

---
 src/docket/dependencies/_concurrency.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 6f3de82..1b74a4f 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -801,9 +801,9 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         """
         runs_key = f"{docket.prefix}:runs:{task_key}"
         async with docket.redis() as redis:
-            waiter_stream_b, waiter_entry_id_b = await redis.hmget(  # type: ignore[misc]
-                runs_key, "waiter_stream", "waiter_entry_id"
-            )
+            # The in-memory backend has no HMGET
+            waiter_stream_b = await redis.hget(runs_key, "waiter_stream")
+            waiter_entry_id_b = await redis.hget(runs_key, "waiter_entry_id")
             if not waiter_stream_b or not waiter_entry_id_b:
                 return
             waiter_stream = waiter_stream_b.decode()
-- 
2.43.0


From 48489017cb53a5974dd0be1e479d9c1fcb477432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 61/70] fix: a late cancellation message doesn't cancel a task
 added anew with the key

---
 src/docket/worker.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 0453633..b9f9593 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -310,6 +310,8 @@ class Worker:
         self._stack.callback(lambda: delattr(self, "_execution_counts"))
         self._tasks_by_key: dict[TaskKey, asyncio.Task[None]] = {}
         self._stack.callback(lambda: delattr(self, "_tasks_by_key"))
+        self._task_executions: dict[asyncio.Task[None], Execution] = {}
+        self._stack.callback(lambda: delattr(self, "_task_executions"))
 
         # The heartbeat task is owned by each processing attempt, not the
         # Worker context.  It starts only after that attempt can claim work.
@@ -611,7 +613,7 @@ class Worker:
         self._processing_session = session
         stopping = self._worker_stopping
         active_tasks: dict[asyncio.Task[None], RedisMessageID] = {}
-        task_executions: dict[asyncio.Task[None], Execution] = {}
+        task_executions = self._task_executions = {}
         available_slots = self.concurrency
         log_context = self._log_context()
 
@@ -1458,7 +1460,27 @@ class Worker:
         data = message["data"]
         key: TaskKey = data.decode() if isinstance(data, bytes) else data
 
-        if task := self._tasks_by_key.get(key):  # pragma: no branch
+        tasks = {
+            task: execution
+            for task, execution in self._task_executions.items()
+            if execution.key == key
+        }
+        if not tasks:
+            return
+
+        # The message may be from before the key was scheduled anew
+        record: dict[bytes, bytes] = {}
+        try:
+            async with self.docket.redis() as redis:
+                record = await redis.hgetall(self.docket.runs_key(key))
+        except ConnectionError:
+            pass
+        generation = int(record.get(b"generation", 0))
+        alive = record.get(b"state") in (b"scheduled", b"queued", b"running")
+
+        for task, execution in tasks.items():
+            if alive and 0 < generation <= execution.generation:
+                continue
             logger.info(
                 "Cancelling running task %r",
                 key,
-- 
2.43.0


From 833ec104be3f8641be2129bfa09f86cc2434194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 62/70] fix: watching a task goes on through quiet seconds

---
 src/docket/cli/_support.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 582dd00..4e5ddcd 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -35,16 +35,27 @@ async def iterate_with_timeout(
     """
     import asyncio
 
+    pending: "asyncio.Future[dict[str, Any]] | None" = None
     try:
         while True:
-            try:
-                yield await asyncio.wait_for(iterator.__anext__(), timeout=timeout)
-            except asyncio.TimeoutError:
-                # Yield None to signal timeout, allowing caller to handle polling
+            if pending is None:
+                pending = asyncio.ensure_future(iterator.__anext__())
+            done, _ = await asyncio.wait({pending}, timeout=timeout)
+            if not done:
+                # Yield None to signal timeout, allowing caller to handle polling.
+                # The iterator goes on waiting: cancelling it would end it.
                 yield None
+                continue
+            finished, pending = pending, None
+            try:
+                item = finished.result()
             except StopAsyncIteration:
                 break
+            yield item
     finally:
+        if pending is not None:
+            pending.cancel()
+            await asyncio.wait({pending})
         await iterator.aclose()
 
 
-- 
2.43.0


From 895d6221ffb5252b6c0d356c5fde586e393c14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 63/70] fix: typed values on the command line may contain
 colons

---
 src/docket/cli/_support.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 4e5ddcd..c0a1c4e 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -174,7 +174,8 @@ def interpret_python_value(value: str | None) -> Any:
     if value is None:
         return None
 
-    type, _, value = value.rpartition(":")
+    # the value itself may contain colons, as in "str:customer:123"
+    type, _, value = value.partition(":") if ":" in value else ("", "", value)
     if not type:
         # without a type hint, we assume the value is a string
         return value
-- 
2.43.0


From b4c2a26da39cd530a244b335faa5173d7f657b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 64/70] fix: the worker command can be told not to schedule
 automatic tasks

---
 src/docket/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index 0683961..687200f 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -155,7 +155,7 @@ def worker(
     schedule_automatic_tasks: Annotated[
         bool,
         typer.Option(
-            "--schedule-automatic-tasks",
+            "--schedule-automatic-tasks/--no-schedule-automatic-tasks",
             help="Schedule automatic tasks",
         ),
     ] = True,
-- 
2.43.0


From 16220c6b12fc448561aea6c5d6f88f2ec795dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 65/70] fix: watching a task ends when it is cancelled

---
 src/docket/cli/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index 687200f..f7743b3 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -678,7 +678,13 @@ def watch(
                 ExecutionState.RUNNING: "blue",
                 ExecutionState.COMPLETED: "green",
                 ExecutionState.FAILED: "red",
+                ExecutionState.CANCELLED: "magenta",
             }
+            terminal_states = (
+                ExecutionState.COMPLETED,
+                ExecutionState.FAILED,
+                ExecutionState.CANCELLED,
+            )
 
             # Load initial snapshot
             await execution.sync()
@@ -755,6 +761,8 @@ def watch(
                     )
                 elif current_state == ExecutionState.FAILED:
                     info_lines.append("[red bold]✗ Task failed[/red bold]")
+                elif current_state == ExecutionState.CANCELLED:
+                    info_lines.append("[magenta bold]✗ Task cancelled[/magenta bold]")
 
                 info_section = "\n".join(info_lines)
 
@@ -776,7 +784,7 @@ def watch(
             layout = create_display_layout()
 
             # If already in terminal state, display once and exit
-            if current_state in (ExecutionState.COMPLETED, ExecutionState.FAILED):
+            if current_state in terminal_states:
                 console.print(layout)
                 return
 
@@ -830,10 +838,7 @@ def watch(
                         live.update(layout)
 
                         # Exit if terminal state reached
-                        if current_state in (
-                            ExecutionState.COMPLETED,
-                            ExecutionState.FAILED,
-                        ):
+                        if current_state in terminal_states:
                             break
 
                     elif event["type"] == "progress":
-- 
2.43.0


From 5055c7d1383a5ef06fceda3507281f6cf2d11974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 66/70] fix: the command line shows keys, names and errors with
 brackets as they are

---
 src/docket/cli/__init__.py | 34 +++++++++++++++++++---------------
 src/docket/cli/_support.py | 10 ++++++----
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index f7743b3..f924f36 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -9,6 +9,7 @@ import typer
 from rich.console import Console
 from rich.layout import Layout
 from rich.live import Live
+from rich.markup import escape
 from rich.progress import (
     BarColumn,
     Progress,
@@ -18,6 +19,7 @@ from rich.progress import (
     TaskID,
 )
 from rich.table import Table
+from rich.text import Text
 
 from docket import __version__, tasks
 from docket.cli._support import (
@@ -567,7 +569,7 @@ def snapshot(
             f"{len(snapshot.running)}/{snapshot.total_tasks} running"
         ),
     ]
-    table = Table(title="\n".join(summary_lines))
+    table = Table(title=Text("\n".join(summary_lines)))
     table.add_column("When", style="green")
     table.add_column("Function", style="cyan")
     table.add_column("Key", style="cyan")
@@ -577,17 +579,17 @@ def snapshot(
     for execution in snapshot.running:
         table.add_row(
             relative(execution.when),
-            execution.function_name,
-            execution.key,
-            execution.worker,
+            Text(execution.function_name),
+            Text(execution.key),
+            Text(execution.worker),
             relative(execution.started),
         )
 
     for execution in snapshot.future:
         table.add_row(
             relative(execution.when),
-            execution.function_name,
-            execution.key,
+            Text(execution.function_name),
+            Text(execution.key),
             "",
             "",
         )
@@ -623,7 +625,7 @@ def snapshot(
                     latest_queued = relative(counts.latest_queued)
 
                 stats_table.add_row(
-                    func_name,
+                    Text(func_name),
                     str(counts.total),
                     str(counts.running),
                     str(counts.queued),
@@ -662,14 +664,14 @@ def watch(
         async with Docket(docket_name, url) as docket:
             execution = await docket.get_execution(key)
             if not execution:
-                console = Console()
+                console = Console(emoji=False)
                 console.print(
-                    f"[red]Error:[/red] Task with key '{key}' not found or function not registered",
+                    f"[red]Error:[/red] Task with key '{escape(key)}' not found or function not registered",
                     style="bold",
                 )
                 return
 
-            console = Console()
+            console = Console(emoji=False)
 
             # State colors for display
             state_colors = {
@@ -704,7 +706,7 @@ def watch(
             progress_message = execution.progress.message
 
             active_progress = Progress(
-                TextColumn("[bold blue]{task.description}"),
+                TextColumn("{task.description}", style="bold blue", markup=False),
                 BarColumn(bar_width=None),  # Auto width
                 TaskProgressColumn(),
                 TimeElapsedColumn(),
@@ -736,8 +738,8 @@ def watch(
 
                 # Build info lines
                 info_lines = [
-                    f"[bold]Task:[/bold] {key}",
-                    f"[bold]Docket:[/bold] {docket_name}",
+                    f"[bold]Task:[/bold] {escape(key)}",
+                    f"[bold]Docket:[/bold] {escape(docket_name)}",
                 ]
 
                 # Add state with color
@@ -748,11 +750,13 @@ def watch(
 
                 # Add worker if available
                 if worker_name:  # pragma: no branch
-                    info_lines.append(f"[bold]Worker:[/bold] {worker_name}")
+                    info_lines.append(f"[bold]Worker:[/bold] {escape(worker_name)}")
 
                 # Add error if failed
                 if error_message:
-                    info_lines.append(f"[red bold]Error:[/red bold] {error_message}")
+                    info_lines.append(
+                        f"[red bold]Error:[/red bold] {escape(error_message)}"
+                    )
 
                 # Add completion status
                 if current_state == ExecutionState.COMPLETED:
diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index c0a1c4e..40aabb8 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -14,6 +14,7 @@ from typing import Any, Collection
 import typer
 from rich.console import Console
 from rich.table import Table
+from rich.text import Text
 
 from docket.docket import DocketSnapshot, WorkerInfo
 
@@ -268,7 +269,8 @@ def print_workers(
 ) -> None:
     sorted_workers = sorted(workers, key=lambda w: w.last_seen, reverse=True)
 
-    table = Table(title=f"Workers in Docket: {docket_name}")
+    # names are shown as they are, even if they look like markup
+    table = Table(title=Text(f"Workers in Docket: {docket_name}"))
 
     table.add_column("Name", style="cyan")
     table.add_column("Last Seen", style="green")
@@ -280,14 +282,14 @@ def print_workers(
         time_ago = now - worker.last_seen
 
         tasks = [
-            f"[bold]{task}[/bold]" if task == highlight_task else task
+            Text(task, style="bold" if task == highlight_task else "")
             for task in sorted(worker.tasks)
         ]
 
         table.add_row(
-            worker.name,
+            Text(worker.name),
             f"{time_ago} ago",
-            "\n".join(tasks) if tasks else "(none)",
+            Text("\n").join(tasks) if tasks else "(none)",
         )
 
     console = Console()
-- 
2.43.0


From 6dedd8222e0638c0cb4c846220e79a9e52809b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 67/70] fix: concurrent scrapes of the metrics each get a whole
 answer

---
 src/docket/_prometheus_exporter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/docket/_prometheus_exporter.py b/src/docket/_prometheus_exporter.py
index 3e65995..01dfceb 100644
--- a/src/docket/_prometheus_exporter.py
+++ b/src/docket/_prometheus_exporter.py
@@ -27,6 +27,7 @@ from itertools import chain
 from json import dumps
 from logging import getLogger
 from re import UNICODE, compile
+from threading import Lock
 from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
 
 from prometheus_client.core import (
@@ -201,6 +202,7 @@ class _CustomCollector:
         self._metrics_datas: Deque[MetricsData] = deque()
         self._disable_target_info = disable_target_info
         self._target_info: InfoMetricFamily | None = None
+        self._lock = Lock()
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data."""
@@ -208,6 +210,11 @@ class _CustomCollector:
 
     def collect(self) -> Iterable[PrometheusMetric]:
         """Collect metrics for Prometheus exposition."""
+        # Scrapes may come in at the same time, and each needs an answer of its own
+        with self._lock:
+            return self._collect()
+
+    def _collect(self) -> Iterable[PrometheusMetric]:
         if self._callback is not None:
             self._callback()  # type: ignore[operator]
 
@@ -230,8 +237,7 @@ class _CustomCollector:
                 self._metrics_datas.popleft(), metric_family_id_metric_family
             )
 
-            if metric_family_id_metric_family:
-                yield from metric_family_id_metric_family.values()
+        return list(metric_family_id_metric_family.values())
 
     def _translate_to_prometheus(
         self,
-- 
2.43.0


From 38dc374d3e388a7f8c7e8352824ec498e467bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 68/70] fix: a metric is declared once in a scrape, whatever
 labels its data points have

---
 src/docket/_prometheus_exporter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/docket/_prometheus_exporter.py b/src/docket/_prometheus_exporter.py
index 01dfceb..fbc6087 100644
--- a/src/docket/_prometheus_exporter.py
+++ b/src/docket/_prometheus_exporter.py
@@ -237,7 +237,17 @@ class _CustomCollector:
                 self._metrics_datas.popleft(), metric_family_id_metric_family
             )
 
-        return list(metric_family_id_metric_family.values())
+        # A metric is declared once, whatever labels its data points have
+        metric_families: Dict[str, PrometheusMetric] = {}
+        for metric_family in metric_family_id_metric_family.values():
+            if metric_family.name in metric_families:
+                metric_families[metric_family.name].samples.extend(
+                    metric_family.samples
+                )
+            else:
+                metric_families[metric_family.name] = metric_family
+
+        return list(metric_families.values())
 
     def _translate_to_prometheus(
         self,
-- 
2.43.0


From 4098ddd1cca86e278e6ff4947cb84b216b6eb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 69/70] fix: an idle connection doesn't block the healthcheck
 for others

---
 src/docket/instrumentation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/docket/instrumentation.py b/src/docket/instrumentation.py
index 77ffeea..66d7df4 100644
--- a/src/docket/instrumentation.py
+++ b/src/docket/instrumentation.py
@@ -169,7 +169,7 @@ def healthcheck_server(
         yield
         return
 
-    from http.server import BaseHTTPRequestHandler, HTTPServer
+    from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
 
     class HealthcheckHandler(BaseHTTPRequestHandler):
         def do_GET(self):
@@ -182,7 +182,8 @@ def healthcheck_server(
             # Suppress access logs from the webserver
             pass
 
-    server = HTTPServer((host, port), HealthcheckHandler)
+    # one client that says nothing mustn't keep the others waiting
+    server = ThreadingHTTPServer((host, port), HealthcheckHandler)
     with server:
         Thread(target=server.serve_forever, daemon=True).start()
 
-- 
2.43.0


From 4a30cae9a1594fab2c9d083049c4d4717a647b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 70/70] fix: a cluster's pub/sub connection decodes the URL's
 credentials

---
 src/docket/_redis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 1d15c66..1720c34 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -36,7 +36,7 @@ from typing import (
     overload,
     runtime_checkable,
 )
-from urllib.parse import ParseResult, urlparse, urlunparse
+from urllib.parse import ParseResult, unquote, urlparse, urlunparse
 
 from redis.asyncio import ConnectionPool, Redis
 from redis.asyncio.client import PubSub
@@ -796,8 +796,8 @@ class RedisConnection:
         return ConnectionPool(
             host=node.host,
             port=int(node.port),
-            username=self._parsed.username,
-            password=self._parsed.password,
+            username=unquote(self._parsed.username or "") or None,
+            password=unquote(self._parsed.password or "") or None,
             connection_class=SSLConnection
             if self._parsed.scheme == "rediss+cluster"
             else Connection,
-- 
2.43.0

