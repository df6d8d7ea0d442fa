"""Source of properties.jsonl: python3 tools/gen_properties.py"""
import json, os
S = "src/docket/"
D = S + "dependencies/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe) or ["task bodies", "Docket / Execution / Worker API", "Redis command stream"],
            "hook_needed": None,
        },
    })


p("D01", "An accepted task is never lost: it runs to completion at least once",
  "Once scheduling a task has returned successfully, and unless that task is later cancelled, replaced, cleared, struck or dropped by its own admission rule, its function is run until it returns or exhausts its retries, provided some worker eventually stays up. "
  "This holds whatever workers crash at whatever point, whatever connections are refused, dropped, or lose a reply, and however workers are restarted. "
  "Once the backlog has drained nothing is left stranded: no task remains outstanding and every accepted task is reported in a final state.",
  "crash_points fault_sequences schedules histories",
  "for every sequence of worker crashes, connection failures and restarts, at every command boundary, and every mix of immediate and future tasks",
  "The tests kill at most one worker, at one hand-picked place; loss needs a crash or a lost reply between two particular commands of scheduling, delivery, claiming, rescheduling or acknowledging.",
  [S + "execution.py", S + "worker.py", S + "docket.py"],
  [("atomic schedule script", S + "execution.py _schedule"), ("due-task mover", S + "worker.py _stream_due_tasks"),
   ("redelivery of unacknowledged messages", S + "worker.py Worker._worker_loop"), ("atomic terminal+ack", S + "execution.py _terminal")],
  [("stream / queue / parked hashes", "every outstanding task is in exactly one of them", S + "docket.py")])

p("D02", "No task starts before its time, and due tasks start promptly",
  "A task scheduled for a future moment never starts before that moment, whichever worker picks it up and however often it was rescheduled; this includes retries, perpetual repetitions and replaced schedules. "
  "When a worker is up with free capacity, a due task starts within the worker's scheduling resolution plus polling interval (plus network latency), no matter how large the backlog of future tasks or how many workers share the docket.",
  "schedules histories configurations",
  "for every set of due times (past, equal, future, microseconds apart), worker count, polling configuration and interleaving of schedulers",
  "Tests check a single delayed task with a tolerance; early starts or a stuck future queue need several schedulers, equal timestamps, or a rescheduling path.",
  [S + "execution.py", S + "worker.py"],
  [("immediate-or-parked decision", S + "execution.py Execution.schedule"), ("due-task mover", S + "worker.py _stream_due_tasks"),
   ("scheduler loop", S + "worker.py Worker._scheduler_loop")])

p("D03", "A key has at most one live task; adding it again changes nothing",
  "Of any number of concurrent attempts to add a task under one key, exactly one is accepted while that key's task is scheduled, queued, waiting for admission, waiting for a retry, or running; the others report that it was already scheduled, their arguments never run, and the accepted schedule is unchanged. "
  "Each accepted attempt runs exactly its own arguments. "
  "As soon as the key's task has finished (or was cancelled), the next add under the key is accepted again and runs.",
  "schedules histories inputs",
  "for every interleaving of adders with the life cycle of the task under that key, for immediate and future schedules, retries and concurrency-limited tasks",
  "Tests add twice in sequence; the guarantee is about adds racing delivery, claiming, parking, rescheduling and finishing.",
  [S + "execution.py", S + "docket.py", D + "_concurrency.py"],
  [("existence check inside the schedule script", S + "execution.py _schedule"), ("known marker cleared at claim", S + "execution.py _claim"),
   ("rescheduling sets the marker", S + "execution.py _schedule reschedule branch")],
  [("known field", "key has a pending schedule", "runs hash"), ("generation", "schedule counter", "runs hash")])

p("D04", "Replacing a task leaves exactly the replacement to run",
  "After replacing the task under a key, the previous schedule never starts any more, and the replacement runs exactly once with its own function, arguments and time (unless replaced or cancelled in turn); of several replacements the last one wins. "
  "If the previous task was already running when it was replaced, that run may finish, but whatever it then does (return, fail, retry, repeat) neither cancels, duplicates, delays nor overwrites the replacement or its outcome.",
  "schedules histories",
  "for every interleaving of replacements with delivery, parking, claiming, running, retrying, repeating and finishing of the earlier schedules of that key",
  "Tests replace a task that is quietly waiting; the hard cases are stale deliveries, running predecessors that retry or repeat, and parked predecessors.",
  [S + "execution.py", S + "docket.py", D + "_retry.py", D + "_perpetual.py", D + "_concurrency.py"],
  [("generation counter and supersession check at claim", S + "execution.py _claim"), ("supersession check at terminal write", S + "execution.py _terminal"),
   ("replacement branch removes old placement", S + "execution.py _schedule")])

p("D05", "Cancelling a pending task means it never runs; running ones are interrupted",
  "Once cancelling a task that has not started has returned, the task never starts, whether it was waiting for its time, already due, queued for delivery, waiting for a retry or parked by an admission rule, and it is reported as cancelled. "
  "Cancelling a running task interrupts that task's function (and only that one) unless it finishes first, and it ends up reported as cancelled. "
  "Cancellation never stops or disturbs the worker or other tasks, and the key can be scheduled again afterwards.",
  "schedules histories",
  "for every moment of the task's life at which the cancellation may land, including the instants between becoming due, delivery, claim, dependency resolution, running and finishing",
  "Tests cancel a long-waiting task and a long-running one; the windows between scheduler, delivery, claim and start are never hit deliberately.",
  [S + "docket.py", S + "worker.py", S + "execution.py", D + "_concurrency.py"],
  [("cancel script", S + "docket.py _cancel_task"), ("cancellation listener", S + "worker.py Worker._cancellation_listener"),
   ("cancel subscriber for parked waiters", D + "_concurrency.py ConcurrencyLimit._cancel_subscriber")])

p("D06", "Without crashes every task runs exactly once, never twice at a time",
  "As long as workers stay up and connected, every accepted task (each attempt of it) is executed exactly once, on exactly one worker, even if it runs much longer than the redelivery timeout or the worker is shutting down gracefully while it runs. "
  "A task that has finished is never executed again.",
  "schedules configurations histories",
  "for every number of workers, concurrency setting, redelivery timeout and mix of task durations (shorter and much longer than the redelivery timeout), and every interleaving of polling, lease renewal, shutdown and completion",
  "Tests run one or two workers with short tasks; duplicates need several workers reclaiming around lease-renewal and acknowledgement instants.",
  [S + "worker.py", S + "execution.py"],
  [("lease renewal", S + "worker.py Worker._renew_leases"), ("reclaim only idle messages", S + "worker.py get_redeliveries"),
   ("ack with terminal write", S + "execution.py _terminal")])

p("D07", "Work of a dead worker is picked up by others within the redelivery timeout",
  "When a worker dies, every task it was running or had already been handed is started again by the surviving workers no later than the redelivery timeout (plus polling interval) after its last sign of life, given free capacity; tasks it had already finished are not rerun. "
  "Tasks held by workers that are alive are left alone.",
  "crash_points configurations schedules",
  "for every crash point of a worker relative to fetching, claiming, running, renewing and finishing tasks, and every redelivery timeout and number of survivors",
  "A test simulates one abandoned message; the bound and the no-rerun side need crashes at every step with several survivors.",
  [S + "worker.py"],
  [("autoclaim", S + "worker.py get_redeliveries"), ("lease renewal", S + "worker.py Worker._renew_leases")])

p("D08", "Retries happen exactly as declared: count, numbering, delay and end",
  "A failing task that declares retries is attempted again, with the same key and arguments and consecutive attempt numbers, until it succeeds or has been attempted as many times as declared (forever if unlimited); no attempt follows a success or the last allowed attempt, after which it is reported failed with the last exception. "
  "Each further attempt starts no earlier than the declared delay (the fixed delay, the delay or moment the task asked for, or an exponential backoff that doubles from its minimum and never exceeds its maximum) and promptly after it, for any number of attempts. "
  "Interrupted or redelivered attempts do not consume an attempt.",
  "histories inputs crash_points",
  "for every retry configuration, pattern of failures, explicit delay request, attempt number and worker crash",
  "Tests use two or three attempts on one worker; overflow of the backoff, crash in the middle of rescheduling, and interplay with other features are not sampled.",
  [D + "_retry.py", S + "execution.py", S + "worker.py"],
  [("failure handler", D + "_retry.py Retry.handle_failure"), ("backoff", D + "_retry.py ExponentialRetry.__aenter__"),
   ("atomic ack+reschedule", S + "execution.py _schedule reschedule branch")])

p("D09", "A perpetual task always has exactly one next run, at its interval",
  "After each run of a perpetual task, successful or failed, exactly one next run of it exists, with the same or the newly chosen arguments, at the requested time or one interval after the previous start, never earlier, and never two runs in parallel; this survives worker crashes and restarts. "
  "The chain ends only if the task cancels itself, is cancelled, or is replaced by something else, and then no further run happens.",
  "schedules crash_points histories",
  "for every interval, duration, outcome, self-chosen next time or arguments, number of workers, crash point and concurrent replace or cancel",
  "Tests count a few iterations on one worker; breaking or doubling the chain needs a crash or a competing operation around completion.",
  [D + "_perpetual.py", S + "worker.py", S + "execution.py"],
  [("completion handler", D + "_perpetual.py Perpetual.on_complete"), ("replace script", S + "execution.py _schedule")])

p("D10", "Automatic perpetual tasks are always kept scheduled, exactly once",
  "While at least one worker that knows an automatic perpetual task is running, that task is scheduled without anybody adding it, exactly one chain of it exists however many workers start, crash or restart together, and its chain is re-established within about a minute if it was ever severed (for example because it was cancelled or swallowed by a worker that does not know it). "
  "Starting or restarting workers never shifts or duplicates a chain that is alive.",
  "schedules crash_points histories configurations",
  "for every number of simultaneously starting workers, crash point during startup, and way of severing the chain",
  "Tests start one worker, sometimes two; the seeding lock, its expiry on crash and re-seeding under races are not explored.",
  [S + "worker.py", D + "_perpetual.py"],
  [("seeding under a lock", S + "worker.py Worker._schedule_all_automatic_perpetual_tasks"), ("periodic re-seed", S + "worker.py Worker._reseed_automatic_perpetual_tasks_loop")])

p("D11", "Cron tasks run once at every matching time and at no other time",
  "A cron task runs exactly once for each wall-clock time its expression matches in its time zone while a worker is up (across daylight-saving changes, month ends and any run duration shorter than the gap), at that time and never at a time that does not match. "
  "After an outage, or a run that overlaps the next matching times, it continues with a matching time that is still in the future and does not catch up on or repeat missed ones.",
  "inputs histories crash_points",
  "for every cron expression, time zone, start moment, run duration, failure pattern and worker restart",
  "Tests check a handful of expressions with a patched clock; they cannot sample the calendar, run days of schedule, or combine it with slow runs and restarts.",
  [D + "_cron.py", D + "_perpetual.py", S + "worker.py"],
  [("next matching time", D + "_cron.py Cron.next_time"), ("completion handler", D + "_cron.py Cron.on_complete")])

p("D12", "A timeout stops a task that overruns, and never disturbs one that does not",
  "A task with a timeout that is still running when its deadline (including extensions it asked for) passes is interrupted promptly and counts as failed with a timeout error, whatever it is waiting on; its clean-up code runs, and declared retries apply. "
  "A task that finishes before its deadline keeps exactly its own result or exception, and an extension granted before the deadline is always honoured.",
  "inputs schedules",
  "for every timeout, duration, extension pattern and coincidence of finishing, failing, being cancelled and timing out",
  "Tests use one overrunning and one fast task; the coincidences at the deadline need a controlled clock.",
  [D + "_timeout.py", S + "worker.py"],
  [("deadline loop", D + "_timeout.py Timeout.run")])

p("D13", "A concurrency limit is never exceeded",
  "At no moment do more tasks governed by one concurrency limit (per task, per argument value, or per shared scope) run at the same time than the limit allows, across all workers, however long they run, however they end, and however workers crash or tasks are redelivered, as long as workers that run such tasks can reach the store to renew their hold. "
  "Tasks with different argument values or scopes do not limit each other.",
  "schedules crash_points configurations",
  "for every number of workers, limit, argument distribution, duration relative to the redelivery timeout, cancellation, failure, retry and crash",
  "Tests use a handful of tasks on one or two workers; over-admission needs races of acquire, release, scavenging, renewal and redelivery.",
  [D + "_concurrency.py", S + "worker.py"],
  [("acquire-or-park script", D + "_concurrency.py _acquire_or_park"), ("slot lease renewal", D + "_concurrency.py ConcurrencyLimit._renew_lease_loop"),
   ("release script", D + "_concurrency.py _release_and_wake")],
  [("slots zset", "task key -> last renewal", D + "_concurrency.py")])

p("D14", "Tasks held back by a concurrency limit always get their turn",
  "Every task that had to wait for a concurrency slot runs once slots become free: promptly after a holder finishes, fails, times out or is cancelled, in waiting order (unless a newly arriving task takes the freed slot first), and within a few redelivery timeouts if holders or the worker that should have woken it crashed at any point, or if the waiting task first in line was withdrawn just as it was offered the slot, even if no further task ever arrives. "
  "Cancelling or replacing one waiting task never strands the others, and slots of finished or dead tasks are not leaked.",
  "schedules crash_points histories",
  "for every interleaving of waiting, releasing, cancelling, replacing and crashing, with no outside traffic to rescue a lost wake-up",
  "Tests have traffic and no crashes; a lost wake-up shows only if the one wake-up meant for a waiter is missed in an otherwise idle system.",
  [D + "_concurrency.py", S + "worker.py"],
  [("wake on release", D + "_concurrency.py _release_and_wake"), ("safeguard task", D + "_concurrency.py _safeguard_wake"),
   ("waiter stream", D + "_concurrency.py _acquire_or_park")])

p("D15", "A rate limit is never exceeded and excess tasks are deferred, not lost",
  "Within any window of the declared length, no more executions governed by one rate limit (per task, per argument value, or shared scope) start than declared, across all workers. "
  "Excess tasks are dropped if the limit says so and otherwise all run later, as soon as the window allows; tasks with different argument values (however the argument was passed) or different scopes do not limit each other.",
  "schedules inputs configurations",
  "for every limit, window, burst shape, worker count, and way of passing the governed argument",
  "Tests fire a few tasks at one worker; the sliding-window bound is over every window position and interleaving.",
  [D + "_ratelimit.py", S + "worker.py", D + "_resolution.py"],
  [("sliding-window script", D + "_ratelimit.py _ratelimit"), ("reschedule on block", S + "worker.py process_completed_tasks")])

p("D16", "Cooldown runs the first of a burst and drops the rest, per window and value",
  "Under a cooldown, of all executions governed by it (per task, per argument value, or shared scope) that come up within a window after one was admitted none runs, and the first to come up after the window runs; so runs are never closer than the window. "
  "The first of any burst always runs, dropped tasks are reported as cancelled, and different argument values (however passed) or scopes are independent.",
  "schedules inputs configurations",
  "for every window, burst shape, worker count, and way of passing the governed argument",
  "Tests send two tasks in sequence on one worker.",
  [D + "_cooldown.py", D + "_resolution.py", S + "worker.py"],
  [("set-if-absent with expiry", D + "_cooldown.py Cooldown.__aenter__")])

p("D17", "Debounce fires once per burst, only after the burst has settled",
  "Under a debounce, a burst of submissions (per task, per argument value, or shared scope) produces exactly one run, and that run starts no earlier than the settle time after the last submission of the burst came up and promptly thereafter. "
  "Every later burst again produces exactly one run, and different argument values (however passed) or scopes are independent.",
  "schedules inputs configurations",
  "for every settle time, burst shape and length, worker count, and way of passing the governed argument",
  "Tests send a few submissions to one worker; ordering of submissions against the returning winner across workers is not explored.",
  [D + "_debounce.py", D + "_resolution.py", S + "worker.py"],
  [("winner / last-seen script", D + "_debounce.py _debounce"), ("reschedule on block", S + "worker.py process_completed_tasks")])

p("D18", "Strikes block exactly the matching tasks, everywhere, until restored",
  "A strike on a task, a parameter condition, or both blocks every task it matches and no other: a matching task is neither accepted nor started once the strike is known, wherever it was issued, including by processes that start later, and a matching pending task is reported cancelled instead of running. "
  "Restoring a strike undoes exactly that strike, leaving others in effect. "
  "Any sequence of strikes and restores leads all participants to the same decisions, equal to those given by the set of strikes not yet restored.",
  "histories inputs schedules",
  "for every sequence of strike and restore instructions over tasks, parameters, operators and values, and every task call, on every participant",
  "Tests check single strikes; interactions of task-wide and parameter strikes, and convergence of late joiners, are a matter of all sequences.",
  [S + "strikelist.py", S + "docket.py", S + "worker.py"],
  [("strike stream", S + "strikelist.py StrikeList._monitor_strikes"), ("matching", S + "strikelist.py StrikeList._matches_task_or_parameter_strike"),
   ("check on add / execute", S + "docket.py, worker.py Worker._execute")])

p("D19", "Waiting for a result always ends, with that task's own outcome",
  "Waiting for a task's result returns exactly the value its function returned, or raises an exception equal to the one it finally failed with, or raises that it was cancelled, for any serialisable value and for any number of waiters that start waiting before, while or after the task runs and on any process. "
  "The wait ends promptly once the task is in its final state, and a wait with a time limit ends by that limit with a timeout error.",
  "schedules inputs",
  "for every instant at which a waiter may start relative to the task's completion, every outcome and value",
  "Tests wait on a task whose completion is far from the subscription; the lost-notification window is a few instructions wide.",
  [S + "execution.py", S + "worker.py", S + "_result_store.py"],
  [("subscribe then wait", S + "execution.py Execution.get_result"), ("terminal publish", S + "execution.py _terminal")])

p("D20", "A task's reported state follows its real life cycle and ends correctly",
  "The state reported for a task (by lookup or by subscription) always reflects its life cycle: scheduled or queued before it starts, running with the right worker and start time while it runs, and completed, failed (with its error) or cancelled afterwards, matching what actually happened; it only moves along legal steps and a final state never changes unless the key is scheduled again. "
  "A live subscriber sees every change, in order, with no change missing, repeated or contradicting a lookup.",
  "schedules histories",
  "for every interleaving of scheduling, delivery, retry, parking, completion, cancellation and rescheduling with readers and subscribers",
  "Tests look at states at a few rest points; illegal or missing transitions hide between them.",
  [S + "execution.py", S + "worker.py", S + "docket.py", D + "_concurrency.py"],
  [("state written and published in one script", S + "execution.py _schedule/_claim/_terminal"), ("queued event", S + "worker.py _stream_due_tasks")])

p("D21", "Progress reported by a task is what observers see",
  "Progress reads back exactly what the running task reported: the sum of its increments, the latest total and message, on any process; a new run of the same key starts from zero, and no progress record remains once the task has finished. "
  "A live subscriber receives every update in order, and none of another task.",
  "histories schedules",
  "for every sequence of progress calls, concurrent reporters, readers, retries and reruns of a key",
  "Tests make a few calls in one process; concurrency of increments and leftovers of earlier runs are not sampled.",
  [S + "_execution_progress.py", S + "execution.py", D + "_progress.py"],
  [("atomic write+publish", S + "_execution_progress.py _progress_write"), ("reset at claim", S + "execution.py _claim")])

p("D22", "Finished work leaves nothing behind once its retention has passed",
  "After tasks have finished, been cancelled, dropped, replaced or superseded and the retention time (plus any admission window) has passed, the store holds no record of them: its size is bounded by the outstanding work, the workers and the strikes, not by the history of tasks. "
  "Conversely no record of a task that is still outstanding expires, however far in the future it is scheduled and whatever happened earlier under its key.",
  "histories configurations schedules",
  "for every mix of task features, outcomes and retention settings (including none), and every history of a key",
  "The tests' leak checker looks at one short test at a time; leaks and premature expiry need particular orders of cancel, replace, retry and park, and time passing.",
  [S + "execution.py", S + "docket.py", D + "_concurrency.py", S + "_result_store.py"],
  [("expiry at terminal write", S + "execution.py _terminal"), ("expiry at cancel", S + "docket.py Docket._cancel")])

p("D23", "Clearing a docket removes all waiting work and nothing else",
  "Clearing a docket removes every task that is waiting (future or due) so that it never starts, returns how many were removed, and leaves running tasks to finish with their normal outcome. "
  "Afterwards the docket is fully usable: any key, including those just cleared, can be scheduled again and runs.",
  "schedules histories",
  "for every mix of waiting and running tasks and every interleaving with workers and adders",
  "Tests clear a docket without running workers or reuse of keys.",
  [S + "docket.py"],
  [("clear", S + "docket.py Docket.clear")])

p("D24", "Snapshots and worker listings tell the truth",
  "At rest, a snapshot lists every outstanding task exactly once, as running (with the worker that runs it) or as future (with its key, function, arguments and time), and its total equals their number. "
  "The worker listings contain every live worker with the tasks it can run within a heartbeat of its start, never a worker that exited cleanly, and no crashed worker once the allowed heartbeats are missed.",
  "histories crash_points",
  "for every mix of outstanding tasks, worker starts, stops and crashes",
  "Tests snapshot small static dockets and one or two workers.",
  [S + "_docket_snapshot.py", S + "worker.py"],
  [("snapshot", S + "_docket_snapshot.py DocketSnapshotMixin.snapshot"), ("heartbeat", S + "worker.py Worker._heartbeat")])

p("D25", "Dockets that share a store do not interfere with each other",
  "Dockets with different names on one store are fully independent: tasks, keys, results, progress, strikes, cancellations, clearing, admission limits, snapshots, workers and automatic tasks of one never affect or appear in another. "
  "All participants that use the same name share one docket.",
  "histories configurations",
  "for every pair of docket names (including ones that are prefixes of each other) and every mix of operations on both",
  "Tests use one docket at a time.",
  [S + "docket.py", S + "_redis.py", D + "_concurrency.py", D + "_ratelimit.py", D + "_cooldown.py", D + "_debounce.py"],
  [("key prefixing", S + "docket.py Docket.key"), ("cancel pattern subscription", S + "worker.py Worker._cancellation_listener")])

p("D26", "Shutting a worker down finishes what it runs and strands nothing",
  "A worker asked to stop lets the tasks it is running finish normally and reports their outcome, starts nothing new, and then stops; work it had not started is run by other workers, or later, without being lost or duplicated. "
  "Running until finished returns exactly when nothing is outstanding, and running at most N times runs each listed key no more than N times, and no less if there is that much to run, and then returns leaving nothing of them scheduled.",
  "schedules histories configurations",
  "for every instant at which the stop request may arrive relative to polling, claiming, running and finishing, on any number of workers",
  "Tests stop idle or almost idle workers.",
  [S + "worker.py"],
  [("shutdown drain", S + "worker.py Worker._worker_loop"), ("work check", S + "worker.py check_for_work"), ("iteration bound", S + "worker.py Worker.run_at_most")])

p("D27", "A worker rides out store outages and resumes by itself",
  "If a worker's connection to the store is refused or drops while it polls, it does not exit: tasks it was running are allowed to finish, it reconnects after its reconnection delay, and it goes on processing, listening for cancellations and strikes, scheduling due tasks and sending heartbeats as before. "
  "The tasks it was running can be cancelled all the while, and once they have ended no outage of any length or frequency has made a worker that is still running deaf, idle or duplicated.",
  "fault_sequences schedules",
  "for every pattern of outages relative to the worker's polling, listening, scheduling, heartbeat and start-up",
  "Tests inject one error at one call.",
  [S + "worker.py", S + "strikelist.py", D + "_concurrency.py"],
  [("reconnect loop", S + "worker.py Worker._run"), ("listener reconnect", S + "worker.py Worker._cancellation_listener"), ("strike monitor", S + "strikelist.py StrikeList._monitor_strikes")])

p("D28", "Dependencies are set up and torn down exactly once around each run",
  "For every execution each of its dependencies (nested ones included) is resolved exactly once before the function runs, shared by all who need it, and torn down exactly once, in reverse order, after the function has finished, whether it returned, failed, timed out or was cancelled; worker-wide shared ones are set up once per worker and torn down when it stops. "
  "Injected values are those of that very execution (arguments, key, attempt, docket, worker), never of one running concurrently. "
  "If a dependency fails, the function does not run, those already set up are torn down, and the task fails with that error.",
  "programs schedules",
  "for every graph of dependencies, failure point, outcome, and interleaving of concurrent executions on one worker",
  "Tests check specific small graphs, one task at a time.",
  [D + "_resolution.py", D + "_functional.py", D + "_contextual.py", S + "worker.py"],
  [("resolution stack", D + "_resolution.py resolved_dependencies"), ("per-execution cache", D + "_functional.py _Depends")])

p("D29", "A worker runs up to its concurrency at once and never more",
  "At no moment does a worker run more tasks than its configured concurrency, whatever mix of new deliveries, redeliveries, retries and blocked tasks it handles. "
  "It does use that capacity: while enough tasks are ready it fills every free place within its polling interval, and a slow, failing or blocked task never keeps the others from running.",
  "schedules configurations",
  "for every concurrency, worker count, backlog and mix of durations, failures and admission blocks",
  "Tests check the maximum on one batch of equal tasks.",
  [S + "worker.py"],
  [("slot accounting", S + "worker.py Worker._worker_loop")])

p("D30", "A task receives exactly the arguments it was given",
  "The function runs with positional and keyword arguments equal in value and type to those passed when scheduling, for every serialisable value (and under every key text), whether it runs at once, later, after retries, redelivery, waiting for admission, or repetition; by function or by registered name. "
  "Mutating the arguments after scheduling, or in an earlier attempt, does not change what a later attempt receives.",
  "inputs histories",
  "for every argument structure, key text, way of scheduling, and path the task takes through the system",
  "Tests pass a few ints and strings.",
  [S + "execution.py", S + "worker.py", D + "_concurrency.py", S + "docket.py"],
  [("message encoding", S + "execution.py Execution.as_message/from_message"), ("due-task mover", S + "worker.py _stream_due_tasks")])

p("D31", "An agenda scatters all its tasks evenly inside the window",
  "Scattering an agenda schedules every task in it exactly once, in order, evenly spaced over exactly the requested window (a single one in its middle), with any jitter bounded as requested and never before the window's start, and returns one handle per task. "
  "An invalid request (unknown task, empty window) schedules nothing, and scattering again with explicit keys adds no duplicates.",
  "inputs",
  "for every agenda size and content, window, start, jitter and existing docket content",
  "Tests check small agendas; rounding, order and bounds are over all sizes and windows.",
  [S + "agenda.py"],
  [("scatter", S + "agenda.py Agenda.scatter")])

p("D32", "Tasks a worker does not know are handled by the fallback, not fatal",
  "A task whose name is not registered with the worker that receives it is given to that worker's fallback with its original name, key, arguments and the usual dependencies, and is then finished like any other task; it neither stops the worker, nor blocks, repeats or affects tasks the worker knows. "
  "The same holds for a task that is known but goes wrong in an unusual way: a call that does not fit its function, arguments that cannot be read back, a result or error that cannot be stored, a handler of its failure that fails itself; whatever its function's signature, it fails alone.",
  "histories inputs",
  "for every mix of known, unknown and ill-formed tasks and workers with different registrations",
  "Tests send one unknown task.",
  [S + "worker.py", S + "execution.py"],
  [("fallback lookup", S + "execution.py Execution.from_message"), ("default fallback", S + "worker.py default_fallback_task")])

p("D33", "Metrics and traces add up to what really happened",
  "Over any period that ends at rest, the counters agree with the executions that happened: every start is counted once and balanced by exactly one completion, completions split into successes, failures and cancellations as they occurred, retries, repetitions, strikes, redeliveries and supersessions are each counted once, and the number currently running returns to zero. "
  "Each execution yields one span carrying its task, key and attempt, linked to the trace that scheduled it, with a status that matches its outcome.",
  "histories schedules",
  "for every mix of outcomes, retries, admission blocks, cancellations, strikes and replacements, on any number of workers",
  "Tests assert one counter call per mocked scenario; conservation is a property of whole histories.",
  [S + "worker.py", S + "docket.py", S + "instrumentation.py", D + "_retry.py", D + "_perpetual.py"],
  [("counters around execution", S + "worker.py Worker._execute"), ("trace context propagation", S + "execution.py Execution.schedule")])

p("D34", "Only arguments marked as loggable ever appear in logs and spans",
  "Values of task arguments that are not explicitly marked as loggable never appear in anything the library logs or attaches to traces and metrics, at any level, on any path: scheduling, starting, retrying, repeating, failing, striking, blocking, cancelling, or superseding. "
  "Marked ones appear as declared (full, or only their length).",
  "inputs histories",
  "for every signature, mix of marked and unmarked, positional, keyword and default arguments, and every path through the system",
  "Tests check the formatting helper on a few signatures.",
  [S + "annotations.py", S + "execution.py", S + "worker.py"],
  [("call rendering", S + "execution.py Execution.call_repr"), ("annotation", S + "annotations.py Logged")])

p("D35", "Generated keys are unique and sort by creation time",
  "Tasks scheduled without a key get keys that have the form of version-7 UUIDs and never repeat within or across processes, whatever the clock does. "
  "Within one process their order is the order of creation as long as the clock does not step back, even when many (up to 16,384, what the format has room for) are made while it stands still.",
  "schedules histories inputs",
  "for every rate of generation, thread interleaving and movement of the clock",
  "Tests draw a few keys with a running clock.",
  [S + "_uuid7.py", S + "docket.py"],
  [("generator", S + "_uuid7.py")])

p("D36", "The command line does what it says and shows what is there",
  "The commands act on the docket exactly as the library calls they stand for: `tasks trace/fail/sleep` add one task with the given arguments, due after the given delay; `strike` and `restore` block and free exactly the tasks that match the given function, parameter, operator and (typed) value; `clear` removes all waiting tasks and says how many; `worker` runs tasks with the given concurrency, redelivery timeout, name, fallback and automatic tasks, ends by itself with --until-finished, and on SIGTERM or SIGINT finishes what it runs, then ends. "
  "`snapshot` (with its statistics), `workers ls` and `workers for-task` show every waiting and running task and every live worker, and no other, whatever their keys and names contain. "
  "`watch` follows a task until it has completed, failed or been cancelled, neither giving up before nor lingering after, and shows how it ended.",
  "schedules histories inputs",
  "for every state of the docket, every key, name, value and duration the commands accept, and every way and moment a watched task ends",
  "The CLI tests need a real Redis, run each command once in a subprocess, and look for one word in its output.",
  [S + "cli/__init__.py", S + "cli/_support.py", S + "worker.py", S + "tasks.py"],
  [("commands", S + "cli/__init__.py"), ("watch loop", S + "cli/_support.py iterate_with_timeout"), ("values", S + "cli/_support.py interpret_python_value"), ("worker entry point", S + "worker.py Worker.run")])

p("D37", "Test assertions pass exactly when they are true",
  "assert_task_scheduled passes exactly when some task waiting to run matches the function, key, positional arguments and (as a subset) keyword arguments given, assert_task_not_scheduled exactly when none does, assert_task_count exactly when the number waiting (in all, or of the function) is the one given, assert_no_tasks exactly when none waits. "
  "Tasks that are running, finished, cancelled or replaced don't count; future and immediate ones do. A failed assertion raises AssertionError that names what waits; asking changes nothing.",
  "histories inputs",
  "for every content of the docket (scheduled, replaced, cancelled, run in part by a worker) and every combination of criteria, asked by a docket that registered the tasks or not",
  "Tests try each helper on one or two tasks nothing ran.",
  [S + "testing.py", S + "_docket_snapshot.py"],
  [("assertions", S + "testing.py"), ("matching", S + "testing.py _matches_criteria")])

p("D38", "Scrapes add up, and the healthcheck answers",
  "Every scrape of the metrics endpoint is a well-formed Prometheus exposition (each metric declared once with its type, no sample twice, label values escaped) whose counters are between what had been counted when it was asked for and when it was answered, "
  "and which, once all is quiet, agrees with everything docket counted: counters and levels per label set, histogram counts, sums and cumulative buckets. This holds for every scraper when several ask at once, and whatever dockets, workers and tasks are called. "
  "The healthcheck endpoint answers 200 OK to everyone while the worker lives, also next to clients that connect and say nothing.",
  "schedules histories inputs",
  "for every interleaving of scrapes, counting and the worker's life, every name, and every combination of label sets",
  "One test scrapes once and looks for a line.",
  [S + "_prometheus_exporter.py", S + "instrumentation.py"],
  [("exporter", S + "_prometheus_exporter.py _CustomCollector"), ("servers", S + "instrumentation.py metrics_server, healthcheck_server")])

p("D39", "A docket works the same on every kind of server its URL can name",
  "Whatever server a docket's URL names (standalone, TLS, a Unix socket, a master found through Sentinels, a cluster; with any user, password, database, host, default or given port and connection options), "
  "adding, replacing, cancelling, running, retrying, limiting, striking, following, awaiting, clearing and snapshots work as on any other: on the named server and in the named database only, never on another service's master, "
  "with the credentials of the URL decoded and given to the servers they're for, Sentinels asked in turn until one knows the master, every key of a docket in one slot of a cluster, and a new master followed after a failover. "
  "Servers that forget their scripts or drop connections are recovered from; reads that wait in silence don't end early; and once a docket and its worker are closed, no connection of theirs stays open.",
  "schedules histories inputs crash-points",
  "for every URL of the documented forms, every state of the Sentinels and every point at which a server drops, restarts or is replaced",
  "The tests use one server without credentials; those for Sentinel and clusters need servers that are rarely there, and parse a few URLs.",
  [S + "_redis.py", S + "_redis_sentinel.py", S + "_lua.py"],
  [("connections", S + "_redis.py RedisConnection"), ("sentinel", S + "_redis_sentinel.py parse_sentinel_url, OwnedSentinelConnectionPool")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
