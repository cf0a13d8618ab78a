#!/usr/bin/env python3
"""seed.py FILE.py...: plants bugs. Each FILE.py defines bug(id, property, needs, breaks, edits, main=.. | pkg=.., test=.., race=False).
Makes /verif/seeded/<id>/ and confirms: patch compiles, stable tests pass, demo passes without and fails with it (in a scratch copy bind: /repo itself, undone)."""
import sys, os, subprocess, json, shutil, re, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = ORIG = "/verif"
ORIG = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): return sh("git -C /repo status --porcelain -uno").stdout == ""
RES = []
def bug(id, property, needs, breaks, edits, main=None, pkg=None, test=None, race=False, checks=None):
    if ONLY and id not in ONLY: return
    if not WORKER:
        JOBS.append((FILE, id)); return
    d = f"{ROOT}/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert clean(), "/repo is dirty"
    try:
        for path, old, new in edits:
            s = open("/repo/"+path).read()
            if s.count(old) != 1:
                print(id, "EDIT does not match once:", path, s.count(old), repr(old)); shutil.rmtree(d); return
            open("/repo/"+path, "w").write(s.replace(old, new))
        orig = {p: set(l.strip() for l in sh(f"git -C {ORIG} show be94405:{p}").stdout.splitlines()) for p, _, _ in edits}
        if not any(l.startswith("-") and not l.startswith("---") and l[1:].strip() in orig[p] for p, _, _ in edits for l in sh(f"git -C /repo diff -- {p}").stdout.splitlines()):
            print(id, "changes no original line"); shutil.rmtree(d); return
        open(d+"/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if main is not None:
            shutil.copy(ROOT+"/tools/demo/demo_e2e.sh", d+"/demo.sh")
            s = open(ROOT+"/harness/fakemysql/server.go").read()
            s = re.sub(r"(?m)^package fakemysql", "package main", s)
            open(d+"/fakemysql.go","w").write(s)
            shutil.copy(ROOT+"/tools/demo/lib.go.txt", d+"/lib.go")
            open(d+"/main.go","w").write(main)
            open(d+"/go.mod","w").write("module demo\n\ngo 1.22\n")
        else:
            s = open(ROOT+"/tools/demo/demo_pkg.sh").read().replace("PKG", pkg).replace("FLAGS ", "-race " if race else "")
            open(d+"/demo.sh","w").write(s)
            open(d+"/demo_test.go","w").write(test)
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d+"/meta.json","w"), indent=1)
        r = sh(f"bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-{id}.json")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(f"/tmp/seed-{id}.json"))
        ok = stable(base, got)
        dem = sh(f"timeout 280 bash {d}/demo.sh")
        caught = {}
        for c in (checks or [property]) if not NOCHECK else []:
            rr = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh {c}")
            v = [l for l in rr.stdout.splitlines() if l.startswith("VIOLATION property="+c)]
            caught[c] = (rr.returncode, len(v), next((l.strip() for l in rr.stdout.splitlines() if l.startswith("  [")), "")[:150])
    finally:
        sh("git -C /repo checkout -- .")
    cl = sh(f"timeout 280 bash {d}/demo.sh")
    good = ok and dem.returncode not in (0,2) and cl.returncode == 0
    print(id, property, "tests", ok, "demo patched", dem.returncode, "clean", cl.returncode, "OK" if good else "REJECTED", "checks", caught)
    if not good: print((dem.stdout+dem.stderr)[-600:], "\n--clean--\n", (cl.stdout+cl.stderr)[-600:])
    sys.stdout.flush()
def stable(base, got):
    b = base.get("stable") or base.get("passed") or base
    names = b if isinstance(b, list) else [k for k in b]
    p = got.get("passed", got)
    p = set(p if isinstance(p, list) else [k for k, v in p.items() if v in (True, "pass", "passed")])
    miss = [n for n in names if n not in p]
    if miss: print("missing tests:", miss[:5])
    return not miss
MAIN = '''package main

import (
	"fmt"
	"strings"
	"time"
)

var _ = fmt.Sprint
var _ = strings.Join
var _ = time.Now

'''
A = sys.argv[1:]
WORKER = "--worker" in A
NOCHECK = "-n" in A
NJ = next((int(a[2:]) for a in A if a.startswith("-j")), 2)
ONLY = [a for a in A if not a.endswith(".py") and not a.startswith("-")]
JOBS = []
def run(job):
    f, id = job
    t = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"cp -a /repo {t}/repo && cp -a /verif {t}/verif")
        o = sh(f"unshare -Urm bash -c 'mount --bind {t}/repo /repo && mount --bind {t}/verif /verif && cd /verif && exec python3 tools/seed.py --worker {f} {id} {'-n' if NOCHECK else ''}'")
        print((o.stdout+o.stderr).strip()); sys.stdout.flush()
        if " OK " in o.stdout and os.path.isdir(f"{t}/verif/seeded/{id}"):
            shutil.rmtree(f"{ROOT}/seeded/{id}", ignore_errors=True)
            shutil.copytree(f"{t}/verif/seeded/{id}", f"{ROOT}/seeded/{id}")
    finally:
        shutil.rmtree(t, ignore_errors=True)
for FILE in A:
    if FILE.endswith(".py"):
        FILE = os.path.abspath(FILE)
        exec(open(FILE).read())
if not WORKER:
    with ThreadPoolExecutor(NJ) as ex: list(ex.map(run, JOBS))
