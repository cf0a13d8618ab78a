#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.
Usage: gen.py [IDs that have a check...]; the list of claimed ids is CLAIMED."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
OVER = {"crash points": "crash_points", "fault sequences": "fault_sequences", "interleavings": "schedules"}

def prop(id, title, statement, over, qtext, why, files, mech, observe, tech, note, level="exploration", state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=sorted({OVER.get(o, o) for o in over}), qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, level=level, state=state or [], hook=hook))

TRUST = " Trusts the fake MySQL server's log (arrival and reply order per connection), the scenario generator and the reference model in /verif/harness."

prop("C01", "Clients execute exactly their assigned statements, in order",
 "Every client executes all statements of the trx files assigned to it, in assignment order (repeats included) and file order, one at a time on its own MySQL session, over and over as whole iterations, until a limit, an error or the end of the runtime stops it. The text MySQL receives is the statement as written (after data substitution), sent as a prepared statement if and only if it is marked prepared, with `copies: N` repeating it N times in place and `idle: T` letting the client wait T before it. No other statement is sent in between.",
 ["programs", "schedules", "configurations"], "all sets of trx files and modifiers, all workload assignments, all interleavings of clients and server reply delays",
 "The existing tests that execute statements need a MySQL server and are skipped; the others check parsed structures for a handful of files and never observe what a running client sends.",
 ["client/client.go", "workload/workload.go", "trx/trx.go"],
 [("per-client statement copy", "workload.Allocator.Clients"), ("critical loop", "client.Client.Run"), ("statement parsing and copies", "trx.File.statements")],
 ["statements received by the MySQL server, per connection"],
 "runtime monitoring: trace-specification checker over the fake MySQL server's per-session event log of the real binary",
 "Thousands of random stages run end to end with the real finch binary; the trace checker compares every received statement with the model." + TRUST)

prop("C02", "Execution groups and stages are sequential, their clients concurrent",
 "Contiguous client groups with the same name form one execution group; execution groups run strictly one after the other in workload order, and stages strictly one after the other in command-line order, a disabled stage not at all. Within the running execution group, exactly the configured number of clients of every client group execute, all at the same time.",
 ["schedules", "configurations"], "all workloads and command lines, all completion orders of clients",
 "Unit tests check the allocation of groups for a few workloads but nothing runs them; overlap of groups or stages depends on the schedule of client completions.",
 ["stage/stage.go", "workload/workload.go", "compute/server.go"],
 [("stage run loop", "stage.Stage.Run"), ("group formation", "workload.Allocator.Groups"), ("stage loop", "compute.Server.Run")],
 ["global order of statements received by the MySQL server"],
 "runtime monitoring: ordering checker over the server's global event log plus a barrier fault injected in the server that only concurrent clients can pass",
 "Decided on random workloads under random reply delays; the barrier makes missing concurrency visible without timing assumptions (30 s bound)." + TRUST)

prop("C03", "Iteration limits are exact",
 "iter stops each client after exactly N iterations, iter-clients stops the clients of a client group after exactly N iterations in total, and iter-exec-group stops the clients of an execution group after exactly N iterations in total, no matter how the clients interleave. When limits are combined none is ever exceeded and no client stops until one of its limits is used up. A client group with a DDL trx and no iter runs one iteration per client.",
 ["schedules", "configurations"], "all limit values and combinations, client counts and interleavings",
 "Existing tests only check that limits are copied into clients; the counting is a concurrent shared counter that only executions exercise.",
 ["client/client.go", "workload/workload.go"],
 [("shared iteration counters", "client.Client.Run"), ("counter sharing", "workload.Allocator.Clients")],
 ["iterations counted in the statements received by the MySQL server"],
 "runtime monitoring: conservation counter over the server's event log under random delays",
 "Exact counts for each limit kind; for combinations an upper bound for every limit and a lower bound." + TRUST)

prop("C19", "Omitted workload parts are allocated as documented",
 "If the workload, a client group's trx list, name, client count or iterations are omitted, Finch runs what the documentation says: no workload means DML trx in order in one client, each DDL trx alone, once, in its own execution group; no trx means all trx in order; clients default to 1; iterations to 1 with DDL and unlimited without; contiguous unnamed DML client groups form one execution group and DDL breaks it.",
 ["configurations"], "all combinations of omitted fields, trx kinds and client groups",
 "The unit tests cover about ten hand-written workloads and compare internal structures; nothing checks what is executed for other combinations.",
 ["workload/workload.go", "trx/trx.go", "stage/stage.go"],
 [("auto allocation", "workload.Allocator.AutoAssign and Groups"), ("DDL detection", "trx.File.statements")],
 ["structure of the execution observed by the MySQL server"],
 "runtime monitoring: executed structure compared with a reference model of the documented defaults",
 "Random partial workloads executed end to end." + TRUST)

CLAIMED = ["C01", "C02", "C03", "C19"]

# ---------------------------------------------------------------------------
exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), (p["id"], fn)
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"], "level": p["level"], "level_note": p["note"],
    } for p in P if p["id"] in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": "check still being built"} for p in P if p["id"] not in CLAIMED],
    "notes": "No hooks in /repo: every observation point is outside the process (MySQL wire protocol, HTTP, files, output) or a public API of a package. 'fix:' commits in /repo repair genuine defects, listed in known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=2)
    f.write("\n")
