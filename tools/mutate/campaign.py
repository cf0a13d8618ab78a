#!/usr/bin/env python3
"""campaign.py MUTS.jsonl RESULTS.jsonl -jN [-sK/M] [-all]: applies each mutant to a private copy of /repo (mount namespace),
runs the stable tests, and the checks of /verif in fast mode until one reports a violation."""
import sys, os, json, subprocess, shutil, random, time, threading, queue
muts, out = sys.argv[1], sys.argv[2]
NJ = next((int(a[2:]) for a in sys.argv if a.startswith("-j")), 3)
LIM = next((int(a[2:]) for a in sys.argv if a.startswith("-n")), 10**9)
SEED = next((a[2:] for a in sys.argv if a.startswith("-s")), "1")
ALL = ["C%02d" % i for i in range(1, 25)]
FIRST = {
 "client/client.go": "C01 C05 C03 C04 C14 C10 C12 C13 C06", "limit/rate.go": "C13", "limit/data.go": "C12", "stage/stage.go": "C02 C04 C14 C03 C01",
 "workload/workload.go": "C19 C03 C13 C01 C02 C06 C07 C14 C10", "trx/trx.go": "C11 C10 C06 C23 C12 C01 C18 C08 C19", "data/scope.go": "C06 C07 C08 C10",
 "data/column.go": "C10", "data/integer.go": "C09 C23", "data/id.go": "C09 C23", "data/string.go": "C09 C23", "data/generator.go": "C24 C09 C23 C11 C06",
 "finch.go": "C07 C06 C18 C05 C08 C17", "config/config.go": "C18 C23 C20", "config/file.go": "C18 C23 C20 C19", "dbconn/factory.go": "C20 C05", "dbconn/mycnf.go": "C20",
 "stats/collector.go": "C16 C14 C15", "stats/stats.go": "C15 C14 C16 C22", "stats/csv.go": "C22 C16 C23", "stats/stdout.go": "C22 C16", "stats/reporter.go": "C24 C22 C23 C16", "stats/remote.go": "C17 C16 C14",
 "compute/api.go": "C17 C21", "compute/client.go": "C17 C16", "compute/server.go": "C17 C02 C04 C08", "proto/proto.go": "C17 C16", "boot/boot.go": "C18 C04 C17 C23", "boot/cmdline.go": "C18 C23",
}
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)["ID"])
L = [json.loads(l) for l in open(muts)]
seen = set(); todo = []
for m in L:
    k = (m["File"], m["Start"], m["End"], m["New"])
    if k in seen: continue
    seen.add(k)
    o = m["Old"].strip()
    if o in ("err != nil", "err == nil") and m["Op"] in ("if-true",): continue
    src = open("/repo/"+m["File"]).read()
    pre = src.encode()[max(0, m["Start"]-6):m["Start"]].decode(errors="ignore")
    if m["Op"] == "op" and m["New"] == "==" and pre.strip().endswith("err"): continue
    todo.append(m)
random.Random(SEED).shuffle(todo)
todo = [m for m in todo if m["ID"] not in done][:LIM]
print(len(todo), "mutants"); sys.stdout.flush()
lock = threading.Lock()
base = json.load(open("/opt/vp/BASELINE.json"))
b = base.get("stable") or base.get("passed") or base
STABLE = set(b if isinstance(b, list) else list(b))
def worker(w, q):
    t = f"/tmp/mw{os.getpid()}-{w}"
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.run(f"cp -a /repo {t}/repo && mkdir {t}/verif && cp -a /verif/harness /verif/*.sh /verif/known_findings.txt {t}/verif/", shell=True, check=True)
    def ns(cmd, timeout, env=""):
        try:
            r = subprocess.run(["unshare", "-Urmpfn", "--kill-child", "bash", "-c", f"ip link set lo up; mount --bind {t}/repo /repo; mount --bind {t}/verif /verif; mount -t proc proc /proc; cd /verif; . /opt/vp/env.sh; {env} {cmd}"], capture_output=True, text=True, timeout=timeout)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as e:
            return 99, "timeout"
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = f"{t}/repo/{m['File']}"
        orig = open(p, "rb").read()
        res = dict(m); t0 = time.time()
        try:
            open(p, "wb").write(orig[:m["Start"]] + m["New"].encode() + orig[m["End"]:])
            rc, o = ns("cd /repo && go build ./... ", 300)
            if rc: res["result"] = "nobuild"
            else:
                rc, o = ns(f"bash /opt/vp/test.sh {t}/t.json", 300)
                got = json.load(open(f"{t}/t.json")) if os.path.exists(f"{t}/t.json") else {}
                if os.path.exists(f"{t}/t.json"): os.remove(f"{t}/t.json")
                ps = got.get("passed", got); ps = set(ps if isinstance(ps, list) else [k for k, v in ps.items() if v in (True, "pass", "passed")])
                if STABLE - ps: res["result"] = "tests"
                else:
                    rc, o = ns("bash build.sh", 600)
                    if rc: res["result"] = "harness-nobuild"; res["out"] = o[-500:]
                    else:
                        order = FIRST.get(m["File"], "").split()
                        order += [c for c in ALL if c not in order and c not in ("C21","C23")] + [c for c in ("C23","C21") if c not in order]
                        if "-first" in sys.argv: order = FIRST.get(m["File"], "").split() or order
                        res["result"] = "SURVIVED"
                        for c in order:
                            rc, o = ns(f".build/check {c}", 900, f"VERIF_FAST_OUT={t}/v.json VERIF_FAST=1 VERIF_SEED=1 VERIF_TIER=quick")
                            if rc == 1:
                                os.makedirs(out + ".d", exist_ok=True)
                                if os.path.exists(f"{t}/v.json"): shutil.copy(f"{t}/v.json", f"{out}.d/{m['ID'].replace('/','_')}.json")
                                res["result"] = c; res["first"] = c == order[0]
                                res["out"] = next((l for l in o.splitlines() if l.startswith("  [")), "")[:300]
                                break
                            if rc: res.setdefault("odd", []).append([c, rc, o[-300:]])
        finally:
            open(p, "wb").write(orig)
        res["t"] = round(time.time()-t0)
        with lock:
            open(out, "a").write(json.dumps(res)+"\n")
    shutil.rmtree(t, ignore_errors=True)
q = queue.Queue()
for m in todo: q.put(m)
ths = [threading.Thread(target=worker, args=(i, q)) for i in range(NJ)]
[x.start() for x in ths]; [x.join() for x in ths]
