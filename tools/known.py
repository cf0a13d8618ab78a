#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: fixed lines with the hash of each fix: commit in /repo."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
]
FIXED = {
    "do not take iterations from other clients when client stops": ("C03", "a client whose iter was used up took one more iteration from iter-clients and iter-exec-group (and one whose iter-clients was used up one from iter-exec-group), so the other clients completed fewer iterations than both their own limits and the shared limit allow"),
    "apply iter-exec-group to all client groups in execution group": ("C03", "iter-exec-group set in one client group limited only the clients of that client group, not the execution group"),
 "do not use connection that timed out while connecting": ("C03", "a connection established just when the connect timeout elapsed was used although the driver had closed it: the first statement failed and an iteration was lost"),
 "reconnect when connection is lost while setting it up": ("C05", "a connection lost during USE or while preparing statements (or timed out just when established) stopped the client for good"),
 "give @PREV the format of its previous key": ("C24", "with several @PREV in one statement, all had the format of the last one, so other ranges were corrupted in the statement"),
 "bind all interfaces with --server 0": ("C18", "--server 0, documented to bind all interfaces, failed"),
 "do not panic on modifier without value": ("C23", "SQL modifiers idle, rows, copies and save-insert-id without a value panicked"),
 "do not keep old error counts when copying stats": ("C15", "Stats.Copy kept error codes of the previous content"),
 "do not report min 0 when combined stats have no events": ("C15", "combining stats without events made the minimum 0"),
 "report right percentiles when several are in the same bucket or not sorted": ("C15", "percentiles that fall in one bucket, or not listed in ascending order, were 0 or wrong"),
 "do not lose stats or race with clients when collecting stats": ("C15", "events recorded during a swap were lost or raced with the collector"),
 "parse percentiles like P999 as documented": ("C15", "P999 was rejected instead of meaning 99.9"),
 "do not wait for or report final stats that are already reported": ("C16", "Stop waited for the timeout, or reported again, after the last interval was already reported"),
 "do not mix stats of different intervals when remote stats are late": ("C16", "late remote stats were reported in the interval of other instances"),
 "do not collect another interval while the last is waiting for remote stats": ("C16", "Stop collected one more local interval while the last was waiting for remotes, which forced an incomplete report"),
 "do not count stats twice when a remote instance sends them again": ("C16", "stats sent again by a remote (retry) were counted twice, and completed the interval without another instance's stats"),
 "do not reconnect on duplicate key error": ("C05", "error 1062 (duplicate key), documented as handled without reconnecting, made the client reconnect"),
 "do not run disabled stages": ("C02", "a stage with disable: true was executed"),
 "end the MySQL session when a client closes its connection": ("C05", "on reconnect the pooled session of the failed connection was reused, so nothing was reconnected"),
 "mark trx boundary when first or last statement is idle time": ("C06", "a trx whose first or last statement is idle did not count as a trx: trx scope values were wrong and clients panicked (Stats index -1)"),
 "execute ROLLBACK when last statement in trx returns an error": ("C05", "no ROLLBACK when the last statement of a trx returned lock wait timeout or read-only"),
 "prepare statements again after reconnect": ("C05", "after a reconnect prepared statements were executed as plain text or not at all"),
 "handle errors that occur while reading rows": ("C05", "errors in the middle of a result set were ignored or stopped the client"),
 "copy global scope data generators": ("C08", "global scope data keys had no generator: their values were missing from the statement"),
 "call stage and global scope data generators once, not every time but the first": ("C08", "the first implicit use of a stage scope key had no value"),
 "identify clients across groups in exec-group and workload scope": ("C07", "clients with the same number in different client or execution groups were mixed up"),
 "do not call data generator shared by clients concurrently": ("C07", "a generator shared by clients was called without the lock: duplicate or stale values, data race"),
 "do not use the previous stage's generators for stage scope data keys": ("C08", "a stage scope key used the generator configured in an earlier stage"),
 "do not mix up data keys when one name is a prefix of another": ("C11", "@id_100 was replaced as @id followed by _100"),
 "match whole data keys when making CSV data keys row scoped": ("C11", "in a CSV substitution @a was mistaken for @ab, so rows repeated values or keys were corrupted"),
 "do not interpret % in SQL statements as a format verb": ("C11", "LIKE 'a%' reached MySQL as LIKE 'a%!'(NOVERB)"),
 "do not panic on rows modifier with zero (no limit)": ("C12", "-- rows: 0 panicked"),
 "do not change idle time duration to a number": ("C11", "-- idle: 5ms became 5000000s, -- idle: 5m was rejected"),
 "interpolate whole param names, not prefixes of longer names": ("C18", "$params.ab was interpolated as $params.a followed by b"),
 "convert only whole human-readable numbers, including decimal ones": ("C18", "5.1GB became 5.1000000000; names containing digits and k, m, g, b were changed (t1m became t1000000)"),
 "make uniform int distribution include max and not favor min": ("C09", "int never returned max and returned min far too often when min > 1"),
 "keep normal int distribution between min and max": ("C09", "int with dist normal returned the mean even if outside [min, max]"),
 "do not panic or return NaN from int-gaps with fewer than 2 values": ("C09", "int-gaps panicked or returned the minimum int64"),
 "reject size and step less than 1 in integer generators": ("C09", "size 0 or negative gave reversed ranges that never advance, step 0 a constant"),
 "do not save date and time columns in Go format": ("C10", "saved date and time columns had Go's format (2024-01-02 03:04:05 +0000 UTC)"),
 "use NULL, not <nil>, when saved column is NULL": ("C10", "a saved NULL was put into later statements as <nil>"),
 "do not race when clients save columns in a shared data key": ("C10", "clients that save columns into a data key shared by them raced"),
 "allow @PREV in CSV substitution": ("C11", "@PREV inside a CSV substitution was rejected as not configured"),
 "expand each CSV substitution in a statement, not all like the first": ("C11", "the second CSV substitution of a statement was replaced by a copy of the first"),
 "analyze tables of the database in database-size limit": ("C12", "a database-size limit ran ANALYZE TABLE with an unqualified table name, in whatever database the connection used"),
 "sum size of all tables in database-size limit": ("C12", "a database-size limit read the size of one table, not of the database"),
 "accept database-qualified table name in table-size limit": ("C12", "table-size with a qualified table name (db.t) found no table, so the limit was never reached"),
 "stop clients waiting for rate limit or idle time when runtime elapses": ("C04", "a client waiting for its turn under a low QPS or TPS limit, or sleeping in an idle statement, did not stop when runtime elapsed"),
 "limit rate of exec group when set in any of its client groups": ("C13", "qps-exec-group and tps-exec-group were ignored unless set in the first client group of the exec group"),
 "do not override stats of stage with stats of base config": ("C18", "stats.freq and stats.report of a stage file were replaced by those of _all.yaml"),
 "override all params with --param": ("C18", "--param was ignored if _all.yaml has no params, and it did not override params of the stage file"),
 "do not interpolate values of variables again": ("C18", "a param or environment variable with $ in its value was interpolated again (or rejected) when used as ${name}"),
 "interpolate params used by other params first": ("C18", "params that use other params were interpolated in random order, so some kept a literal $params.name"),
 "interpolate params and human-readable numbers in iter limits": ("C18", "iter, iter-clients, and iter-exec-group did not accept params or numbers like 1k, although documented"),
 "interpolate params in mysql hostname and socket": ("C18", "params in mysql.hostname and mysql.socket were not interpolated"),
 "do not wait forever when compute instances is zero": ("C04", "finch hung when compute.instances was 0 (a documented value)"),
 "do not use newline at end of password file as part of password": ("C20", "the newline at the end of a password file became part of the password"),
 "use TLS config from my.cnf": ("C20", "ssl-ca, ssl-cert, and ssl-key in my.cnf were ignored: connections were not encrypted"),
 "do not panic on invalid DSN": ("C23", "finch panicked (nil pointer) on an invalid DSN"),
 "do not send empty body when retrying a request": ("C17", "a retried request to the server had an empty body: a boot error became a successful boot, stats were lost"),
 "do not cancel request before reading response": ("C17", "long responses (stage config, trx files) could fail because the request was cancelled before they were read"),
 "do not wait forever for lost clients when stopping a stage": ("C17", "the server hung forever when stopping a stage with a lost client"),
 "do not wait forever for lost clients when terminated": ("C17", "after CTRL-C the server busy-waited forever for a lost client (until forced to exit with an error)"),
 "end test of remote instances with --test": ("C17", "remote instances hung with --test; the next stage waited forever for them"),
 "do not assign client that gave up waiting to a stage": ("C17", "a request that the client had given up on (timeout) joined the next stage in its place, and both waited forever"),
 "let client join stage after a client failed to boot": ("C17", "after a client failed to boot no other client could join the stage"),
 "let client boot again when it did not receive the stage": ("C17", "a client that lost the response to GET /boot, or restarted while booting, could never join the stage"),
 "do not mix up trx files with the same base name on clients": ("C17", "trx files a/x.sql and b/x.sql overwrote each other on clients"),
 "do not collect stats on clients when disabled": ("C17", "clients collected and printed stats of a stage with stats disabled"),
 "do not wait forever for remote instances when not a server": ("C23", "a stage that needs remote instances waited forever if finch was not run with --server"),
 "let client retry boot ack when it did not receive the response": ("C17", "a client whose boot acknowledgement was received but not answered gave up, and the server waited for it forever"),
 "let client retry run when it did not receive the signal": ("C17", "a client that did not receive the response to GET /run gave up, and the server waited for it forever"),
 "execute statement with idle modifier after idle time": ("C01", "a statement after an idle modifier was never executed"),
 "data race on stage done when remote instances boot": ("C21", "stage.done was written and read under different locks while clients boot"),
 "data race on clients of stage when remote instances boot": ("C21", "the map of clients of a stage was read without lock while another client joined"),
 "report last stats of remote instances when there is no local instance": ("C14", "with disable-local, the last interval was lost if not all instances were still running, and reporters were not stopped"),
 "do not count a remote instance twice when it retries concurrently": ("C17", "concurrent retries of POST /boot or POST /run were counted twice, so a stage started or ended without an instance, and the state of an instance was accessed without lock"),
 "accept IPv6 host without brackets and port in my.cnf": ("C20", "host=::1 and port in my.cnf made an invalid address"),
 "connect with TLS to a socket when my.cnf has a port": ("C20", "with a socket, TLS and a port in my.cnf every connection failed"),
 "end CSV substitution at the first end of comment": ("C11", "a comment after a CSV substitution became part of its template"),
}
exec(open(os.path.join(ROOT, "tools", "known_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "known_more.py")) else None
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = ["# known: property=<id> key=<key> <what fails>          a genuine defect that is not repaired; reported, not an alarm",
       "# fixed: property=<id> <commit> <what failed>          a genuine defect repaired by a fix: commit; suppresses nothing"]
for p, k, w in KNOWN:
    out.append(f"known: property={p} key={k} {w}")
for l in log:
    h, m = l.split(" ", 1)
    if not m.startswith("fix: "):
        continue
    m = m[5:]
    if m not in FIXED:
        print("not recorded:", m)
        continue
    p, w = FIXED[m]
    out.append(f"fixed: property={p} {h} {w}")
open(os.path.join(ROOT, "known_findings.txt"), "w").write("\n".join(out) + "\n")
