package props

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C04",
		Rule:        "runtime: random stages with a stage runtime, client group runtimes, several execution groups, and clients that are busy, waiting for a slow reply, a rate limit, an idle statement or a reconnect when it elapses: every client is active until its runtime and sends nothing after it, the next execution group starts, and finch exits 0. sigint: CTRL-C at a random moment of such stages (no runtime) including a stalled MySQL: nothing is sent afterwards, later stages do not run, finch exits within its fail-safe of 7.5 s (with exit code 0 once clients run). test: --test or FINCH_TEST executes no statement of any stage; non-trivial: clients were active when stopped; distinct by statement interleaving",
		Assumptions: []string{"time bounds have a slack of 1.5 s for a busy machine (4 s for the exit when final statistics are reported)"},
		Floor:       40,
		Parts: []kit.Part{
			{Name: "runtime", Quick: 260, Thorough: 6000, Par: 4, Run: runtimeCase},
			{Name: "sigint", Quick: 240, Thorough: 6000, Par: 4, Run: sigintCase},
			{Name: "test", Quick: 300, Thorough: 6000, Par: 4, Run: testCase},
		},
	})
}

const endSlack = 1500 * time.Millisecond

type endCG struct {
	db      string
	clients int
	iter    int
	runtime time.Duration
	kind    string // busy, idle, qps, tps, slow, reconnect
}

// endStage makes a stage whose clients have no end but a runtime.
func endStage(r *kit.Rand, tag string, withRuntime bool) (*kit.Stage, [][]*endCG, time.Duration) {
	st := &kit.Stage{Name: "s" + tag, File: "s" + tag + ".yaml"}
	st.Stats = map[string]interface{}{"disable": "true"}
	if r.P(0.4) {
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{"stdout": {"percentiles": "P99"}}}
		if r.P(0.5) {
			st.Stats["freq"] = kit.Pick(r, "100ms", "250ms", "1s")
		}
	}
	if r.P(0.15) {
		st.Compute = map[string]string{"instances": kit.Pick(r, "0", "1", "\"1\"")}
	}
	var stageRT time.Duration
	nEG := kit.Pick(r, 1, 1, 2, 3)
	if withRuntime && (r.P(0.7) || nEG == 1) {
		stageRT = time.Duration(r.Int(200, 1200)) * time.Millisecond
		st.Runtime = stageRT.String()
	}
	var egs [][]*endCG
	n := 0
	for eg := 0; eg < nEG; eg++ {
		var cgs []*endCG
		for i := r.Int(1, 2); i > 0; i-- {
			c := &endCG{db: fmt.Sprintf("d%s_%d", tag, n), clients: r.Int(1, 4), kind: kit.Pick(r, "busy", "busy", "idle", "qps", "tps", "slow", "reconnect")}
			if withRuntime && (stageRT == 0 || r.P(0.5)) {
				c.runtime = time.Duration(r.Int(100, 800)) * time.Millisecond
				if stageRT > 0 && r.P(0.2) {
					c.runtime += stageRT
				}
			}
			w := kit.CG{Db: c.db, Clients: fmt.Sprint(c.clients), Group: fmt.Sprintf("g%d", eg)}
			if c.runtime > 0 {
				w.Runtime = c.runtime.String()
			}
			tx := kit.TrxFile{File: fmt.Sprintf("t%s_%d.sql", tag, n)}
			tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: kit.Pick(r, "BEGIN", "SELECT 1", "INSERT INTO t VALUES (1)") + " /*a*/"})
			if r.P(0.5) {
				tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: "SELECT 2 /*p*/", Mods: []string{"prepare"}})
			}
			switch c.kind {
			case "idle":
				tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: "SELECT 3 /*i*/", Mods: []string{"idle: " + kit.Pick(r, "30s", "1h", "9s")}})
			case "qps":
				switch r.IntN(3) {
				case 0:
					w.QPS = "1"
				case 1:
					w.QPSClients = "1"
				case 2:
					w.QPSExecGroup = "1"
				}
				if r.P(0.3) {
					w.QPS, w.QPSClients = "1", "1"
				}
			case "tps":
				tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: "BEGIN /*b*/"})
				w.TPS = "1"
			case "slow":
				tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: kit.Pick(r, "SELECT 4", "UPDATE t SET a=1") + " /*slow*/", Mods: kit.Pick(r, nil, []string{"prepare"})})
			case "reconnect":
				tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: "SELECT 5 /*drop*/"})
			}
			tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: kit.Pick(r, "COMMIT", "SELECT 6", "DELETE FROM t") + " /*z*/"})
			w.Trx = []string{tx.File}
			st.Trx = append(st.Trx, tx)
			st.Workload = append(st.Workload, w)
			cgs = append(cgs, c)
			n++
		}
		egs = append(egs, cgs)
	}
	return st, egs, stageRT
}

// endHandler answers the marks of endStage.
func endHandler(r *kit.Rand) fm.Handler {
	seed := r.Uint64()
	slow := time.Duration(kit.Pick(r, 300, 3000, 12000)) * time.Millisecond
	j := jitter(r.Uint64(), 0.5, 3*time.Millisecond)
	return func(s *fm.Server, ev *fm.Event) fm.Reply {
		rep := okReply(ev)
		if ev.Kind != "query" && ev.Kind != "execute" {
			return rep
		}
		rep.Delay = j(ev)
		rr := kit.NewRand(seed, fmt.Sprint(ev.Seq))
		if strings.Contains(ev.SQL, "/*slow*/") && rr.P(0.3) {
			rep.Delay = slow
		}
		if strings.Contains(ev.SQL, "/*drop*/") && rr.P(0.4) {
			return fm.Reply{Drop: true}
		}
		return rep
	}
}

func runtimeCase(t *kit.T) {
	r := t.R
	st, egs, stageRT := endStage(r, "1", true)
	// bound of the whole run
	var bound time.Duration
	for _, cgs := range egs {
		var m time.Duration
		for _, c := range cgs {
			m = max(m, c.runtime)
		}
		for _, c := range cgs {
			if c.runtime == 0 {
				m = stageRT
			}
		}
		bound += m
	}
	if stageRT > 0 {
		bound = min(bound, stageRT)
	}
	sc := (&kit.Scenario{Handler: endHandler(r), Timeout: bound + 20*time.Second}).Add(st)
	goesOn := r.P(0.35)
	if goesOn { // Finch goes on after this stage
		const next = 700 * time.Millisecond
		sc.Add(&kit.Stage{Name: "s2", File: "s2.yaml", Runtime: next.String(), Stats: map[string]interface{}{"disable": "true"},
			Trx:      []kit.TrxFile{{File: "t2.sql", Stmts: []kit.Stmt{{SQL: "SELECT 7 /*next*/", Mods: []string{"idle: 20ms"}}}}},
			Workload: []kit.CG{{Clients: "1", Db: "dnext"}}})
		bound += next
		sc.Timeout += next
	}
	res := t.RunOK(sc, "runtime")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("runtime:exit", fmt.Sprintf("finch failed (exit %d): %s", res.Exit, kit.Tail(res.Out, 500)), det)
		return
	}
	var ping, first time.Duration = -1, -1
	for _, e := range res.Events {
		if e.Kind == "ping" && ping < 0 {
			ping = e.At
		}
		if e.Kind == "connect" && ping >= 0 && first < 0 {
			first = e.At
		}
	}
	if ping < 0 || first < 0 {
		t.FailTimed("runtime:clients", "no client connected", det)
		return
	}
	ss := sessions(res.Events)
	by := map[string][]*session{}
	for _, s := range ss {
		by[s.db] = append(by[s.db], s)
	}
	active := false
	start := ping    // earliest possible start of the exec group
	startHi := first // latest possible start
	stop := time.Duration(1 << 60)
	if stageRT > 0 {
		stop = ping + stageRT // earliest possible stage end
	}
	late := time.Duration(1 << 60)
	if stageRT > 0 {
		late = first + stageRT // latest possible stage end
	}
	if goesOn {
		// Once the next stage executes statements, each client of the stage before
		// has at most one statement on the way.
		began := time.Duration(-1)
		after := map[int]int{}
		for _, e := range res.Events {
			if e.Kind != "query" && e.Kind != "execute" || strings.HasPrefix(e.SQL, "USE ") {
				continue
			}
			if strings.Contains(e.SQL, "/*next*/") {
				if began < 0 {
					began = e.At
				}
			} else if began >= 0 {
				if after[e.Conn]++; after[e.Conn] > 1 {
					t.Fail("runtime:overlap", fmt.Sprintf("connection %d executed %q %.3f s after the next stage began", e.Conn, e.SQL, (e.At-began).Seconds()), det)
					return
				}
			}
		}
		if began < 0 {
			t.FailTimed("runtime:next", "the next stage did not run", det)
			return
		}
	}
	// Clients of an execution group that only the stage runtime ends: no later
	// execution group runs at all.
	over := false
	for k, cgs := range egs {
		if stageRT == 0 {
			break
		}
		for _, c := range cgs {
			for _, s := range by[c.db] {
				if !over {
					break
				}
				for _, x := range s.all {
					if x.Kind == "query" && !strings.HasPrefix(x.SQL, "USE ") || x.Kind == "execute" {
						t.Fail("runtime:group", fmt.Sprintf("execution group %d executed %q, but the stage runtime %s ended execution group %d", k+1, x.SQL, stageRT, k), det)
						return
					}
				}
			}
		}
		for _, c := range cgs {
			over = over || c.runtime == 0 || c.runtime >= stageRT
		}
	}
	lastStmt := time.Duration(0)
	for k, cgs := range egs {
		if k > 0 && (stageRT > 0 && start+50*time.Millisecond > stop) {
			// the stage may be over already
			break
		}
		var next, nextHi time.Duration
		var groupFirst time.Duration = -1
		for _, c := range cgs {
			for _, s := range by[c.db] {
				if groupFirst < 0 || s.all[0].At < groupFirst {
					groupFirst = s.all[0].At
				}
			}
		}
		for _, c := range cgs {
			cs := by[c.db]
			// deadline of these clients is in [early, end]
			early, end := stop, late
			if c.runtime > 0 {
				early = min(early, start+c.runtime)
				if groupFirst >= 0 {
					end = min(end, groupFirst+c.runtime)
				}
			}
			nextHi = max(nextHi, end)
			room := stop - startHi
			if c.runtime > 0 {
				room = min(room, c.runtime)
			}
			if len(cs) < c.clients && room > 700*time.Millisecond {
				t.FailTimed("runtime:clients", fmt.Sprintf("exec group %d: %d of %d clients of %s ran", k+1, len(cs), c.clients, c.db), det)
				return
			}
			// a client that reconnects has several sessions; the last of each client counts
			var lastEnd time.Duration
			ends := []time.Duration{}
			for _, s := range cs {
				e := s.all[len(s.all)-1]
				prev := time.Duration(-1)
				for _, x := range s.all {
					if x.Kind == "query" || x.Kind == "execute" || x.Kind == "prepare" {
						lastStmt = max(lastStmt, x.At)
						if x.At > end+endSlack {
							t.FailTimed("runtime:late", fmt.Sprintf("client of %s (runtime %s, stage runtime %s) sent %q %.3f s after its runtime elapsed", c.db, c.runtime, stageRT, x.SQL, (x.At-end).Seconds()), det)
							return
						}
						// The next exec group starts after this client has stopped.
						// A client's last statement can reach the server later than
						// that, but it has the response to all others.
						if prev >= 0 {
							next = max(next, prev)
						}
						prev = x.At
					}
				}
				ends = append(ends, e.At)
				lastEnd = max(lastEnd, e.At)
			}
			if len(cs) > 0 && c.kind != "reconnect" {
				for i, e := range ends {
					if e < early-5*time.Millisecond {
						t.Fail("runtime:early", fmt.Sprintf("client of %s (connection %d; runtime %s, stage runtime %s) stopped at least %.3f s before its runtime elapsed", c.db, cs[i].conn, c.runtime, stageRT, (early-e).Seconds()), det)
						return
					}
				}
				active = true
			}
			t.Count("clients_stopped", len(cs))
		}
		if next > start {
			start = next
		}
		startHi = max(startHi, nextHi)
	}
	// server time of exit: process wall from its start, which is before ping
	if res.Wall > first+bound+4*time.Second {
		t.FailTimed("runtime:exit", fmt.Sprintf("finch ran for %.1f s, runtime limits add up to %s", res.Wall.Seconds(), bound), det)
		return
	}
	if res.EndAt < ping+min(bound, stop-ping)-5*time.Millisecond && ping < time.Second && stageRT > 0 && len(egs) == 1 && egs[0][0].runtime == 0 {
		t.Fail("runtime:short", fmt.Sprintf("finch exited after %.3f s, runtime %s", res.EndAt.Seconds(), stageRT), det)
		return
	}
	t.Eval(interleaving(res.Events), active)
	t.Sample(map[string]interface{}{"stage": st.YAML(), "wall": res.Wall.String()})
}

func sigintCase(t *kit.T) {
	r := t.R
	st, egs, _ := endStage(r, "1", r.P(0.1))
	for i := range st.Workload {
		st.Workload[i].Runtime = ""
	}
	st.Runtime = kit.Pick(r, "", "", "1h")
	st2, _, _ := endStage(r, "2", false)
	stall := ""
	if r.P(0.25) {
		stall = kit.Pick(r, "ping", "connect", "prepare", "reject", "use")
	}
	h0 := endHandler(r)
	gate := r.Int(1, 30) // signal when this many statements arrived
	var mu sync.Mutex
	n := 0
	hit := make(chan struct{})
	var once sync.Once
	fire := func() { once.Do(func() { close(hit) }) }
	pings := 0
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		mu.Lock()
		if ev.Kind == "ping" {
			pings++
		}
		if ev.Kind == "query" && strings.HasPrefix(ev.SQL, "USE ") {
			if stall == "use" {
				fire()
				mu.Unlock()
				return fm.Reply{Delay: 20 * time.Second}
			}
		} else if ev.Kind == "query" || ev.Kind == "execute" {
			n++
			if n >= gate {
				fire()
			}
		}
		if ev.Kind == stall && (stall == "ping" || stall == "prepare") {
			fire()
			mu.Unlock()
			return fm.Reply{Delay: 20 * time.Second}
		}
		mu.Unlock()
		return h0(s, ev)
	}
	sc := (&kit.Scenario{Handler: h, Timeout: 40 * time.Second}).Add(st).Add(st2)
	if stall == "reject" || stall == "connect" {
		sc.Reject = func(n int) int {
			if n == 1 {
				return 0 // connection test
			}
			fire()
			return map[string]int{"reject": 2, "connect": 1}[stall]
		}
	}
	after := time.Duration(kit.Pick(r, 0, 0, 5, 50, 300)) * time.Millisecond
	twice := r.P(0.2)
	sigAt := time.Duration(-1)
	done := make(chan struct{})
	sc.During = func(p *kit.Proc) {
		defer close(done)
		select {
		case <-hit:
		case <-time.After(10 * time.Second):
		case <-p.Done:
			return
		}
		time.Sleep(after)
		mu.Lock()
		sigAt = p.Server.Since()
		mu.Unlock()
		p.Signal(os.Interrupt)
		if twice {
			time.Sleep(20 * time.Millisecond)
			p.Signal(os.Interrupt)
		}
	}
	res := t.RunOK(sc, "sigint")
	if res == nil {
		return
	}
	<-done
	det := kit.Detail(sc, res)
	if sigAt < 0 {
		t.FailTimed("sigint:exit", fmt.Sprintf("finch exited by itself (exit %d): %s", res.Exit, kit.Tail(res.Out, 300)), det)
		return
	}
	det["signal_at"] = sigAt.String()
	took := res.EndAt - sigAt
	if took > 9*time.Second {
		t.FailTimed("sigint:slow", fmt.Sprintf("finch exited %.1f s after CTRL-C, fail-safe is 7.5 s", took.Seconds()), det)
		return
	}
	running := stall != "ping"
	stats := st.Stats["disable"] == nil
	if running {
		limit := 2500 * time.Millisecond
		if stats {
			limit = 5 * time.Second
		}
		if res.Exit != 0 {
			t.Fail("sigint:code", fmt.Sprintf("exit code %d after CTRL-C: %s", res.Exit, kit.Tail(res.Out, 300)), det)
			return
		}
		if took > limit {
			t.FailTimed("sigint:slow", fmt.Sprintf("finch exited %.1f s after CTRL-C while clients were running", took.Seconds()), det)
			return
		}
	}
	for _, e := range res.Events {
		if (e.Kind == "query" || e.Kind == "execute" || e.Kind == "prepare" || e.Kind == "connect") && e.At > sigAt+endSlack {
			t.FailTimed("sigint:late", fmt.Sprintf("%s %q received %.3f s after CTRL-C", e.Kind, e.SQL, (e.At-sigAt).Seconds()), det)
			return
		}
		if strings.HasPrefix(e.DB, "d2_") || strings.Contains(e.SQL, "`d2_") {
			t.Fail("sigint:stage", fmt.Sprintf("the next stage ran after CTRL-C: %q", e.SQL), det)
			return
		}
	}
	if pings > 1 {
		t.Fail("sigint:stage", "the next stage was prepared after CTRL-C", det)
		return
	}
	_ = egs
	t.Count("signals", 1)
	t.Eval(stall+interleaving(res.Events), len(sessions(res.Events)) > 0)
	t.Sample(map[string]interface{}{"stage": st.YAML(), "signal_at": sigAt.String(), "took": took.String(), "stall": stall})
}

func testCase(t *kit.T) {
	r := t.R
	sc := &kit.Scenario{Handler: func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }, Timeout: 30 * time.Second}
	n := r.Int(1, 4)
	enabled := 0
	for i := 0; i < n; i++ {
		st, _, _ := endStage(r, fmt.Sprint(i), r.P(0.5))
		if r.P(0.2) {
			st.Disable = true
		} else {
			enabled++
		}
		sc.Add(st)
	}
	switch r.IntN(4) {
	case 0:
		sc.Env = []string{"FINCH_TEST=" + kit.Pick(r, "true", "1")}
	case 1:
		sc.Args = append([]string{"--test"}, sc.Args...)
	case 2:
		sc.Args = append(sc.Args, "--test")
	case 3:
		sc.Args = append(sc.Args, "--test", "--debug")
	}
	res := t.RunOK(sc, "test")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("test:exit", fmt.Sprintf("exit code %d with --test: %s", res.Exit, kit.Tail(res.Out, 300)), det)
		return
	}
	conn := 0
	for _, e := range res.Events {
		if e.Kind == "query" && !strings.HasPrefix(e.SQL, "USE ") || e.Kind == "execute" {
			t.Fail("test:executed", fmt.Sprintf("%q executed with --test", e.SQL), det)
			return
		}
		if e.Kind == "ping" {
			conn++
		}
	}
	if conn < enabled {
		t.Fail("test:connect", fmt.Sprintf("%d connections to MySQL tested with --test, %d stages", conn, enabled), det)
		return
	}
	t.Eval(strings.Join(sc.Args, " ")+fmt.Sprint(sc.Files), enabled > 0)
}
