"""Source of rv/checks.json: python3 tools/gen_checks.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
SEEDED = "Each case is one seeded execution (own workload, worker count, latencies, fault plan), simulated in virtual time; "


def c(i, quick, thorough, rule, reach, show=(), level="exploration", **kw):
    C[i] = {"level": level, "rule": SEEDED + rule, "count": {"quick": quick, "thorough": thorough},
            "reach": reach, "show": ["starts", "ends", "checks", "crashs", *show], **kw}


FE = "fault_enumeration"
c("D01", 260, 6000, "non-trivial when accepted tasks had to survive a fault (crash, refused connection, lost reply) that actually happened.",
  {"starts": 200, "crashs": 50, "distinct_nontrivial": 30}, level=FE)
c("D02", 220, 5000, "non-trivial when tasks with future due times were started.", {"starts": 500, "distinct_nontrivial": 30})
c("D03", 70, 1600, "non-trivial when several clients scheduled the same key.", {"starts": 100, "distinct_nontrivial": 20})
c("D04", 350, 8000, "non-trivial when keys were replaced repeatedly at random moments of their life.", {"replaces": 500, "distinct_nontrivial": 50}, ["replaces"])
c("D05", 280, 6500, "non-trivial when pending or running tasks were cancelled.", {"cancelled_running": 100, "cancelled_pending": 100, "distinct_nontrivial": 50}, ["cancelled_running", "cancelled_pending"])
c("D06", 130, 3200, "non-trivial when tasks outlived the redelivery timeout or a worker was stopped gracefully while running them.", {"starts": 500, "distinct_nontrivial": 30})
c("D07", 380, 9000, "non-trivial when a worker died holding tasks.", {"starts": 500, "crashs": 50, "distinct_nontrivial": 50}, level=FE)
c("D08", 190, 4500, "non-trivial when tasks were attempted repeatedly.", {"starts": 500, "distinct_nontrivial": 30}, level=FE)
c("D09", 170, 4000, "non-trivial when more than ten gaps between consecutive runs of chains were judged.", {"gaps": 500, "distinct_nontrivial": 50}, ["gaps"], level=FE)
c("D10", 50, 1300, "non-trivial when chains of automatic tasks were judged across worker starts, crashes and severed chains.", {"starts": 100, "gaps": 100, "distinct_nontrivial": 20}, ["gaps"], level=FE)
c("D11", 90, 2300, "non-trivial when cron runs were compared with an independent calendar.", {"distinct_nontrivial": 30}, ["occurrences", "cron_runs"])
c("D12", 500, 12000, "non-trivial when attempts with a deadline were judged.", {"starts": 300, "timed_out": 50, "distinct_nontrivial": 100}, ["attempts", "timed_out"])
c("D13", 280, 7000, "non-trivial when tasks of one limit contended for its slots.", {"starts": 500, "crashs": 50, "distinct_nontrivial": 50}, level=FE)
c("D14", 420, 10000, "non-trivial when tasks had to wait for slots.", {"starts": 500, "crashs": 50, "distinct_nontrivial": 50}, level=FE)
c("D15", 170, 4400, "non-trivial when admissions of one limit were counted over sliding windows.", {"starts": 300, "windows": 100, "distinct_nontrivial": 40}, ["windows", "dropped"], level=FE)
c("D16", 160, 4200, "non-trivial when bursts had tasks that ran and tasks that were dropped.", {"starts": 300, "dropped": 100, "distinct_nontrivial": 40}, ["pairs", "dropped", "ran"], level=FE)
c("D17", 125, 3300, "non-trivial when bursts of submissions were followed to the run they lead to.", {"fired": 150, "dropped": 100, "distinct_nontrivial": 40}, ["bursts", "fired", "dropped"], level=FE)
c("D18", 165, 4400, "non-trivial when tasks came up while strikes matching some of them were in effect.", {"struck": 100, "free": 100, "distinct_nontrivial": 40}, ["struck", "free", "pending", "fresh_worker"])
c("D19", 700, 17000, "non-trivial when several waiters asked for outcomes before, while and after tasks ran.", {"saw_value": 500, "saw_exception": 100, "saw_cancelled": 50, "distinct_nontrivial": 100}, ["waits", "saw_value", "saw_exception", "saw_cancelled", "saw_awkward", "limits", "replaced"], level=FE)
c("D20", 210, 5500, "non-trivial when lookups and live subscribers were compared with what the tasks really went through.", {"starts": 500, "lookups": 500, "sub_events": 500, "distinct_nontrivial": 50}, ["lookups", "sub_events"], level=FE)
c("D21", 220, 6500, "non-trivial when progress was looked up and subscribed to while tasks reported it.", {"starts": 500, "lookups": 500, "sub_events": 500, "distinct_nontrivial": 50}, ["lookups", "sub_events"], level=FE)
c("D22", 130, 4500, "non-trivial when the store was searched after all sorts of tasks had ended, or outstanding tasks were followed beyond the retention time.", {"starts": 500, "distinct_nontrivial": 50}, ["added", "replaced", "cancelled", "peeks", "lives"], level=FE)
c("D23", 200, 7000, "non-trivial when clear() removed waiting tasks.", {"cleared": 500, "running_at_clear": 30, "distinct_nontrivial": 50}, ["cleared", "finished", "running_at_clear", "readded"], level=FE)
c("D24", 180, 6000, "non-trivial when snapshots listed several tasks or living workers were looked for in listings.", {"snapshots": 100, "running_listed": 100, "future_listed": 500, "alive_judged": 200, "stopped_judged": 20, "dead_judged": 20, "distinct_nontrivial": 50}, ["snapshots", "running_listed", "future_listed", "listings", "alive_judged", "stopped_judged", "dead_judged"])
c("D31", 1200, 40000, "non-trivial when agendas with several entries were scattered.", {"scattered": 500, "entries": 5000, "refused": 50, "starts": 100, "distinct_nontrivial": 100}, ["scattered", "entries", "known_keys", "refused"])
c("D35", 1500, 40000, "non-trivial when keys were generated under a controlled clock.", {"keys": 1000000, "distinct_nontrivial": 100}, ["keys", "ordered"])
c("D36", 200, 5000, "non-trivial when commands were run on a docket with tasks, workers or strikes.", {"snapshots": 30, "instructions": 50, "watched": 30, "distinct_nontrivial": 60}, ["snapshots", "listings", "instructions", "watched"])
c("D37", 300, 8000, "non-trivial when some assertions held and some failed.", {"assertions": 1000, "holding": 300, "failing": 300, "distinct_nontrivial": 100}, ["assertions", "holding", "failing"])
c("D38", 40, 500, "non-trivial when counters were compared and the healthcheck answered.", {"scrapes": 300, "probes": 200, "distinct_nontrivial": 30}, ["scrapes", "samples", "counters", "probes", "delays"])
c("D39", 60, 650, "non-trivial when more than a hundred commands reached the servers.", {"commands": 30000, "connections": 1500, "asked": 200, "keys": 200, "idle": 3, "distinct_nontrivial": 40}, ["commands", "connections", "asked", "keys", "failover", "drop", "restart", "flush", "idle", "strikes"], level=FE)
c("D30", 800, 24000, "non-trivial when the arguments of several runs were compared with those given.", {"compared": 5000, "crashs": 50, "attempt3": 300, "reserved": 70, "distinct_nontrivial": 300}, ["compared", "attempt2", "attempt3", "reserved"], level=FE)
c("D28", 550, 20000, "non-trivial when several executions were followed and dependencies torn down.", {"scopes": 2000, "injections": 5000, "teardowns": 2000, "failures": 200, "shared_setups": 200, "distinct_nontrivial": 200}, ["scopes", "injections", "teardowns", "failures", "shared_setups"])
c("D25", 140, 5500, "non-trivial when two dockets were busy with the same keys on one store.", {"runs": 1000, "fates": 1000, "snapshots": 200, "lookups": 400, "distinct_nontrivial": 80}, ["runs", "fates", "snapshots", "lookups", "auto"])
c("D26", 520, 20000, "non-trivial when tasks were running as a worker was stopped, or several tasks were outstanding as workers ran until finished.", {"judged": 1500, "running_at_stop": 200, "returned": 150, "counted": 100, "distinct_nontrivial": 150}, ["judged", "running_at_stop", "returned", "outstanding", "counted"], level=FE)

c("D32", 170, 5500, "non-trivial when at least four kinds of tasks, known, unknown, ill-formed, unreadable or oddly failing, met on the same workers.", {"finished": 2500, "unknown": 500, "ill_formed": 150, "unreadable": 150, "distinct_nontrivial": 100}, ["finished", "unknown", "ill_formed", "unreadable"])
c("D33", 700, 26000, "non-trivial when at least ten runs of at least four kinds of tasks were balanced against the counters and spans.", {"ledgers": 5000, "spans": 6000, "links": 6000, "retries": 300, "repeats": 300, "superseded": 10, "struck": 300, "redelivered": 20, "distinct_nontrivial": 300}, ["ledgers", "spans", "links", "retries", "repeats", "superseded", "struck", "redelivered"])
c("D34", 500, 20000, "non-trivial when tasks with marked and unmarked arguments went through the system.", {"emissions": 100000, "secrets": 10000, "marked": 3000, "spans": 8000, "warnings": 3000, "distinct_nontrivial": 300}, ["emissions", "secrets", "marked", "start_lines", "spans", "warnings"], level=FE)

c("D27", 250, 8000, "non-trivial when the worker's connections failed several times and everything it does was tried afterwards.", {"outages": 400, "resumed": 100, "cancelled_after": 50, "strikes": 50, "listeners": 50, "failed_commands": 100, "distinct_nontrivial": 100}, ["outages", "early", "drop_pubsub", "drop_blocking", "cancelled_after", "resumed", "strikes", "auto", "listeners", "failed_commands"], level=FE)
c("D29", 380, 12000, "non-trivial when free places were filled from a backlog and some worker was full.", {"filled": 1000, "full": 150, "judged_runs": 5000, "takeovers": 50, "distinct_nontrivial": 150}, ["filled", "full", "judged_runs", "takeovers"])

for _i in range(1, 36):   # not yet described
    C.setdefault(f"D{_i:02d}", dict(level="exploration", rule="x", count=dict(quick=100, thorough=1000), reach={}, unclaimed="its monitor is not built yet"))

if __name__ == "__main__":
    json.dump(C, open(os.path.join(HERE, "rv/checks.json"), "w"), indent=1)
    print(len(C), "checks")
