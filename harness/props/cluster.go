package props

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C17",
		Rule:        "one finch --server and up to five --client processes, each behind a recording and fault-injecting HTTP proxy, run one to three stages that need random numbers of instances with or without the local one, with trx files of all sizes and contents: every stage is executed by exactly the configured number of instances, each executing all of it exactly as written, none before all have booted, stages strictly in order, and all processes end. faults: requests delayed, lost, duplicated and responses lost (never more than the client's retries allow), clients that fail to boot or are killed while booting and come back. stop: CTRL-C of the server or of a client while running or booting, server killed, --test; non-trivial: a stage ran on at least one remote instance; distinct by stages, faults and order of requests",
		Assumptions: []string{"instances are told apart by the MySQL user of each process's own my.cnf and by the name its proxy gives it; all run on this machine"},
		Floor:       20,
		Parts: []kit.Part{
			{Name: "cluster", Quick: 60, Thorough: 2500, Par: 4, Run: func(t *kit.T) { clusterCase(t, false) }},
			{Name: "faults", Quick: 60, Thorough: 3000, Par: 4, Run: func(t *kit.T) { clusterCase(t, true) }},
			{Name: "stop", Quick: 40, Thorough: 1500, Par: 4, Run: clusterStopCase},
			{Name: "api", Quick: 400, Thorough: 3000, Par: 2, Run: apiCase},
		},
	})
}

type csStage struct {
	tag       string
	instances int
	local     bool
	remotes   int
	want      map[string]int // statements that one instance executes
	total     int
	disabled  bool
}

// csMake makes a stage for a cluster.
func csMake(r *kit.Rand, k, slots int, infinite bool) (*kit.Stage, *csStage, map[string]string) {
	cs := &csStage{tag: fmt.Sprintf("/*s%d*/", k), want: map[string]int{}, local: true}
	st := &kit.Stage{File: fmt.Sprintf("st%d.yaml", k), Name: kit.Pick(r, "", fmt.Sprintf("stage-%d", k), "same")}
	dir := fmt.Sprintf("d%d/", k)
	st.File = dir + st.File
	st.MySQL = map[string]string{"hostname": "{{ADDR}}", "mycnf": "my.cnf"}
	cs.remotes = r.Int(1, slots)
	if r.P(0.12) {
		cs.remotes = 0
	}
	cs.instances = cs.remotes + 1
	if cs.remotes > 0 && r.P(0.35) {
		cs.local = false
		cs.instances = cs.remotes
	}
	st.Compute = map[string]string{"instances": fmt.Sprint(cs.instances)}
	if r.P(0.3) {
		st.Compute["instances"] = fmt.Sprintf("%q", fmt.Sprint(cs.instances))
	}
	if !cs.local {
		st.Compute["disable-local"] = "true"
		if cs.instances == 1 && r.P(0.5) {
			delete(st.Compute, "instances")
		}
	} else if cs.instances == 1 && r.P(0.5) {
		st.Compute = nil
	}
	switch r.IntN(4) {
	case 0:
		st.Stats = map[string]interface{}{"disable": "true"}
	case 1:
		st.Stats = map[string]interface{}{"freq": kit.Pick(r, "50ms", "200ms", "1s")}
	case 2:
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{"csv": {"file": fmt.Sprintf("{{DIR}}/server/stats%d.csv", k)}, "stdout": {"combined": "yes"}}}
	}
	if r.P(0.15) {
		st.Disable = true
		cs.disabled = true
	}
	if r.P(0.3) {
		st.Runtime = "60s"
	}
	files := map[string]string{}
	for i := r.Int(1, 3); i > 0; i-- {
		f := kit.TrxFile{File: fmt.Sprintf("t%d.sql", i)} // the same names in all stages
		if r.P(0.3) {
			f.File = fmt.Sprintf("sub%d/t.sql", i) // the same base name
			f.Name = fmt.Sprintf("trx%d", i)
		}
		n := r.Int(1, 4)
		if r.P(0.1) {
			n = r.Int(20, 60) // large file
		}
		for j := 0; j < n; j++ {
			sql := fmt.Sprintf("%s %s %d.%d", kit.Pick(r, "SELECT", "UPDATE", "INSERT", "DELETE"), cs.tag, i, j)
			switch r.IntN(6) {
			case 0:
				sql += " '100%' \"é日本\" \\n `x`"
			case 1:
				sql += " <b>&amp;</b> + %20 ?a=b&c=d"
			case 2:
				if n > 10 {
					sql += " '" + strings.Repeat("abcdefghij ", r.Int(100, 3000)) + "'"
				}
			case 3:
				sql = "SELECT " + sql
			}
			f.Stmts = append(f.Stmts, kit.Stmt{SQL: sql})
		}
		st.Trx = append(st.Trx, f)
	}
	count := func(f kit.TrxFile, n int) {
		for _, s := range f.Stmts {
			cs.want[s.SQL] += n
			cs.total += n
		}
	}
	nEG := r.Int(1, 3)
	for e := 0; e < nEG; e++ {
		c := r.Int(1, 3)
		it := r.Int(1, 4)
		g := kit.CG{Clients: fmt.Sprint(c), Iter: fmt.Sprint(it), Group: fmt.Sprintf("g%d", e)}
		if infinite && e == nEG-1 {
			g.Iter = ""
		}
		for _, f := range st.Trx {
			if r.P(0.6) || f.File == st.Trx[0].File {
				g.Trx = append(g.Trx, f.TrxName())
				count(f, c*it)
			}
		}
		st.Workload = append(st.Workload, g)
	}
	files[st.File] = st.YAML()
	for _, f := range st.Trx {
		files[dir+f.File] = f.Text()
	}
	files[dir+"my.cnf"] = "[client]\nuser=local\n"
	return st, cs, files
}

// userOf maps connections to the user that made them.
func userOf(evs []fm.Event) map[int]string {
	m := map[int]string{}
	for _, e := range evs {
		if e.Kind == "connect" {
			m[e.Conn] = e.User
		}
	}
	return m
}

// csRun is the execution of one stage by one process.
type csRun struct {
	got         map[string]int
	n           int
	first, last int64
	firstAt     time.Duration
	lastAt      time.Duration
}

// csRuns groups statements by stage and user.
func csRuns(evs []fm.Event, stages []*csStage) []map[string]*csRun {
	users := userOf(evs)
	runs := make([]map[string]*csRun, len(stages))
	for i := range runs {
		runs[i] = map[string]*csRun{}
	}
	for _, e := range evs {
		if e.Kind != "query" && e.Kind != "execute" {
			continue
		}
		for i, s := range stages {
			if !strings.Contains(e.SQL, s.tag) {
				continue
			}
			u := users[e.Conn]
			x := runs[i][u]
			if x == nil {
				x = &csRun{got: map[string]int{}, first: e.Seq, firstAt: e.At}
				runs[i][u] = x
			}
			x.got[e.SQL]++
			x.n++
			x.last, x.lastAt = e.Seq, e.At
		}
	}
	return runs
}

func clusterCase(t *kit.T, faults bool) {
	r := t.R
	slots := r.Int(1, 4)
	c := &kit.Cluster{Files: map[string]string{}, Slots: slots, Timeout: 75 * time.Second, ByEnv: r.P(0.2)}
	nStages := r.Int(1, 3)
	var stages []*csStage
	remote := 0
	for k := 0; k < nStages; k++ {
		st, cs, files := csMake(r, k, slots, false)
		for f, s := range files {
			c.Files[f] = s
		}
		c.Args = append(c.Args, st.File)
		stages = append(stages, cs)
		if !cs.disabled {
			remote += cs.remotes
		}
	}
	if r.P(0.3) {
		c.Slots += r.Int(1, 2) // more clients than needed
	}
	test := r.P(0.12)
	if test {
		c.Args = append([]string{"--test"}, c.Args...)
	}
	j := jitter(r.Uint64(), 0.4, 4*time.Millisecond)
	c.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		rep := okReply(ev)
		if ev.Kind == "query" || ev.Kind == "execute" {
			rep.Delay = j(ev)
		}
		return rep
	}
	seed := r.Uint64()
	bootFail := map[string]bool{} // client processes that cannot boot
	if faults {
		pFault := kit.Pick(r, 0.1, 0.3, 0.5)
		kinds := kit.Pick(r, "all", "all", "delay", "drop", "resp", "dup")
		last := map[string]bool{} // not twice in a row
		killed := map[int]bool{}  // one process of the slot was killed while booting
		pKill := kit.Pick(r, 0, 0, 0.15)
		var lock = make(chan struct{}, 1)
		c.Fault = func(slot int, method, path string, n int) kit.Fault {
			lock <- struct{}{}
			defer func() { <-lock }()
			rr := kit.NewRand(seed, fmt.Sprintf("%d %s %s %d", slot, method, path, n))
			key := fmt.Sprintf("%d %s %s", slot, method, path)
			if method == "GET" && (path == "/boot" || path == "/file") && !killed[slot] && rr.P(pKill) {
				killed[slot] = true
				return kit.Fault{Kill: true, DropReq: rr.P(0.3)}
			}
			if last[key] || !rr.P(pFault) {
				last[key] = false
				return kit.Fault{}
			}
			last[key] = true
			k := kinds
			if k == "all" {
				k = kit.Pick(rr, "delay", "drop", "resp", "dup")
			}
			switch k {
			case "drop":
				return kit.Fault{DropReq: true}
			case "resp":
				return kit.Fault{DropResp: true}
			case "dup":
				return kit.Fault{Dup: true, Delay: time.Duration(rr.IntN(30)) * time.Millisecond}
			}
			return kit.Fault{Delay: time.Duration(rr.IntN(120)) * time.Millisecond}
		}
		if r.P(0.35) { // some processes cannot boot, others are killed while booting
			c.ClientFiles = func(slot, n int) map[string]string {
				rr := kit.NewRand(seed, fmt.Sprintf("boot %d %d", slot, n))
				if n%2 == 1 && rr.P(0.5) {
					return map[string]string{"my.cnf": ""}
				}
				return nil
			}
			for s := 1; s <= c.Slots; s++ {
				for n := 1; n < 20; n++ {
					if c.ClientFiles(s, n) != nil {
						bootFail[fmt.Sprintf("c%dr%d", s, n)] = true
					}
				}
			}
		}
	}
	res := t.RunCluster(c, "cluster")
	if res == nil {
		return
	}
	fail := func(key, what string) { t.Fail(key, what, c.Detail(res)) }
	if res.Exit != 0 {
		fail("exit", fmt.Sprintf("server exit code %d", res.Exit))
		return
	}
	runs := csRuns(res.Events, stages)
	booted := map[string]time.Duration{}
	for _, q := range res.Reqs {
		if q.Method == "POST" && q.Path == "/boot" && q.Body == "" {
			if _, ok := booted[q.Proc]; !ok {
				booted[q.Proc] = q.At
			}
		}
	}
	ran := map[string]int{}
	var prevLast int64
	for i, s := range stages {
		if test || s.disabled {
			if len(runs[i]) > 0 {
				fail("executed", fmt.Sprintf("statements of stage %d were executed (disabled %t, --test %t)", i+1, s.disabled, test))
				return
			}
			continue
		}
		var users []string
		for u := range runs[i] {
			users = append(users, u)
		}
		sort.Strings(users)
		if len(users) != s.instances {
			fail("instances", fmt.Sprintf("stage %d was executed by %d instances %v, expected %d", i+1, len(users), users, s.instances))
			return
		}
		if _, ok := runs[i]["local"]; ok != s.local {
			fail("local", fmt.Sprintf("stage %d executed by the local instance: %t, expected %t", i+1, ok, s.local))
			return
		}
		var first, last int64 = 1 << 62, 0
		firstAt := time.Duration(1 << 62)
		for _, u := range users {
			x := runs[i][u]
			ran[u]++
			if bootFail[u] {
				fail("boot-failed", "client "+u+" could not boot but executed statements")
				return
			}
			for sql, n := range s.want {
				if x.got[sql] != n {
					fail("statements", fmt.Sprintf("instance %s executed statement %d times in stage %d, expected %d: %s", u, x.got[sql], i+1, n, kit.Tail(sql, 200)))
					return
				}
			}
			if x.n != s.total {
				for sql := range x.got {
					if s.want[sql] == 0 {
						fail("statements", fmt.Sprintf("instance %s executed a statement that is not in stage %d: %s", u, i+1, kit.Tail(sql, 200)))
						return
					}
				}
			}
			first, last, firstAt = min(first, x.first), max(last, x.last), min(firstAt, x.firstAt)
		}
		for _, u := range users {
			if u == "local" {
				continue
			}
			at, ok := booted[u]
			if !ok {
				fail("boot", "client "+u+" executed statements but did not report that it booted")
				return
			}
			if firstAt < at {
				fail("barrier", fmt.Sprintf("stage %d: first statement at %v before instance %s had booted at %v", i+1, firstAt, u, at))
				return
			}
		}
		if first <= prevLast {
			fail("stage-order", fmt.Sprintf("stage %d started before the last statement of the stage before", i+1))
			return
		}
		prevLast = last
		t.Count("stages", 1)
		t.Count("instances", len(users))
	}
	for u, n := range ran {
		if u != "local" && n > 1 {
			fail("once", fmt.Sprintf("client process %s executed %d stages", u, n))
			return
		}
	}
	// every client that had a stage ended by itself
	for _, cp := range res.Clients {
		if cp.Killed && c17Booted(res, cp) {
			fail("client-hang", "client "+cp.Name+" did not end after its stage")
			return
		}
		if ran[cp.Name] > 0 && cp.Exit != 0 && !cp.Killed {
			fail("client-exit", fmt.Sprintf("client %s exit code %d", cp.Name, cp.Exit))
			return
		}
	}
	if test {
		boots := 0
		for _, q := range res.Reqs {
			if q.Method == "POST" && q.Path == "/boot" && q.Body == "" && q.Status == 200 {
				boots++
			}
		}
		if boots < remote {
			fail("test-boot", fmt.Sprintf("--test: %d remote instances booted, expected %d", boots, remote))
			return
		}
	}
	order := []string{}
	nf := 0
	for _, q := range res.Reqs {
		order = append(order, fmt.Sprintf("%d%s%s", q.Slot, q.Method, q.Path))
		if q.Fault != (kit.Fault{}) {
			nf++
			t.Count("fault"+strings.ReplaceAll(faultKind(q.Fault), " ", "_"), 1)
		}
	}
	t.Eval(fmt.Sprintf("%d %v %s", nStages, c.Args, strings.Join(order, ",")), remote > 0)
	t.Sample(map[string]interface{}{"stages": nStages, "slots": c.Slots, "faults": nf, "requests": len(res.Reqs), "statements": len(res.Events), "users": ran})
}

func faultKind(f kit.Fault) string {
	switch {
	case f.Kill:
		return " client killed"
	case f.DropReq:
		return " request lost"
	case f.DropResp:
		return " response lost"
	case f.Dup:
		return " duplicated"
	}
	return " delayed"
}

// c17Booted: the process reported that it booted.
func c17Booted(res *kit.ClusterResult, cp *kit.ClientProc) bool {
	for _, q := range res.Reqs {
		if q.Proc == cp.Name && q.Method == "POST" && q.Path == "/boot" {
			return true
		}
	}
	return false
}

// clusterStopCase stops the server, a client, or kills the server.
func clusterStopCase(t *kit.T) {
	r := t.R
	slots := r.Int(1, 3)
	c := &kit.Cluster{Files: map[string]string{}, Slots: slots, Timeout: 40 * time.Second, Once: true}
	mode := kit.Pick(r, "server", "server", "client", "kill", "booting")
	st, cs, files := csMake(r, 0, slots, mode != "client")
	for cs.remotes == 0 || cs.disabled {
		st, cs, files = csMake(r, 0, slots, mode != "client")
	}
	if mode == "booting" { // wait for more clients than there are
		st.Compute = map[string]string{"instances": fmt.Sprint(slots + 2)}
		files[st.File] = st.YAML()
		cs.remotes = slots
	}
	_, cs2, files2 := csMake(r, 1, slots, false)
	for f, s := range files2 {
		c.Files[f] = s
	}
	for f, s := range files {
		c.Files[f] = s
	}
	c.Args = append(c.Args, st.File, "d1/st1.yaml")
	if mode == "client" {
		c.Args = c.Args[:1]
	}
	stages := []*csStage{cs, cs2}
	j := jitter(r.Uint64(), 0.4, 3*time.Millisecond)
	slow := mode == "client"
	c.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		rep := okReply(ev)
		if ev.Kind == "query" || ev.Kind == "execute" {
			rep.Delay = time.Millisecond + j(ev)
			if slow {
				rep.Delay += 10 * time.Millisecond
			}
		}
		return rep
	}
	wait := time.Duration(r.Int(0, 2500)) * time.Millisecond
	if mode == "client" {
		wait = time.Duration(r.Int(0, 100)) * time.Millisecond
	}
	victim := r.Int(1, cs.remotes)
	var stopAt time.Duration
	var victimName string
	stopped := make(chan struct{})
	var once sync.Once // During runs again if the port was taken
	c.During = func(c *kit.Cluster) {
		defer once.Do(func() { close(stopped) })
		// wait until the stage runs on all instances
		users := map[string]bool{}
		for {
			select {
			case <-c.Server.Done:
				return
			case <-time.After(5 * time.Millisecond):
			}
			evs := c.Srv.Events()
			uo := userOf(evs)
			for _, e := range evs {
				if e.Kind == "query" || mode == "booting" {
					users[uo[e.Conn]] = true
				}
			}
			n := 0
			for u := range users {
				if u != "local" {
					n++
				}
			}
			if n >= cs.remotes {
				break
			}
		}
		time.Sleep(wait)
		stopAt = c.Srv.Since()
		switch mode {
		case "server", "booting":
			c.Server.Signal(os.Interrupt)
		case "kill":
			c.Server.Signal(syscall.SIGKILL)
		case "client":
			n := 0
			for _, cp := range c.Procs() {
				if users[cp.Name] {
					n++
					if n == victim {
						victimName = cp.Name
						cp.Proc.Signal(os.Interrupt)
					}
				}
			}
		}
	}
	res := t.RunCluster(c, "stop-"+mode)
	if res == nil {
		return
	}
	<-stopped
	timed := func(key, what string) { t.FailTimed(key, what, c.Detail(res)) }
	runs := csRuns(res.Events, stages)
	if mode != "client" && len(runs[1]) > 0 {
		t.Fail("stop-next", "the next stage ran although the server was stopped", c.Detail(res))
		return
	}
	lastAt := time.Duration(0)
	for _, x := range runs[0] {
		lastAt = max(lastAt, x.lastAt)
	}
	switch mode {
	case "server", "booting":
		if d := res.EndAt - stopAt; d > 7500*time.Millisecond+endSlack {
			timed("stop-server", fmt.Sprintf("server ended %v after CTRL-C", d))
			return
		}
		if res.Exit != 0 {
			t.Fail("stop-exit", fmt.Sprintf("server exit code %d after CTRL-C", res.Exit), c.Detail(res))
			return
		}
		if mode == "booting" && len(runs[0]) > 0 {
			t.Fail("stop-booting", "statements were executed although not all instances had booted", c.Detail(res))
			return
		}
		if d := lastAt - stopAt; d > 6*time.Second {
			timed("stop-clients", fmt.Sprintf("clients executed statements %v after CTRL-C of the server", d))
			return
		}
	case "kill":
		if d := lastAt - stopAt; d > 8*time.Second {
			timed("kill-clients", fmt.Sprintf("clients executed statements %v after the server was lost", d))
			return
		}
	case "client":
		if res.Exit != 0 {
			t.Fail("client-exit", fmt.Sprintf("server exit code %d after CTRL-C of a client", res.Exit), c.Detail(res))
			return
		}
		for u, x := range runs[0] {
			if u != victimName && x.n != cs.total {
				t.Fail("client-others", fmt.Sprintf("instance %s executed %d statements, expected %d, after CTRL-C of client %s", u, x.n, cs.total, victimName), c.Detail(res))
				return
			}
			if u == victimName && x.lastAt > stopAt+endSlack {
				timed("client-stop", fmt.Sprintf("client executed statements %v after its CTRL-C", x.lastAt-stopAt))
				return
			}
		}
		if len(runs[0]) != cs.instances {
			t.Fail("client-others", fmt.Sprintf("stage was executed by %d instances, expected %d", len(runs[0]), cs.instances), c.Detail(res))
			return
		}
	}
	for _, cp := range res.Clients {
		if cp.Killed && mode != "booting" && c17Booted(res, cp) {
			timed("client-hang", "client "+cp.Name+" did not end")
			return
		}
	}
	t.Count("stop_"+mode, 1)
	t.Eval(fmt.Sprintf("%s %v %d %v", mode, wait, cs.remotes, c.Args), true)
}
