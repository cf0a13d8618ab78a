package props

import (
	"fmt"
	"sort"
	"strings"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C13",
		Rule:        "random stages with QPS and TPS limits at any combination of levels (stage, exec group, client group, client), several execution groups, client groups and clients, trx with and without explicit transactions, prepared and text statements, idle statements and delays; every window of the server's log is checked against each limit: statements whose client got its previous reply after the window's start cannot exceed rate times window plus the tokens that limiters can hold; non-trivial: a limit had at least 10 statements in its scope; distinct by limits and statement interleaving",
		Assumptions: []string{"a limiter may hold one token and each combination of two limits up to three (the allowance grows with the number of combined limits, not with time)", "a single limit is reached to at least 15% (protects against starvation, not against slowness)"},
		Floor:       60,
		Parts: []kit.Part{
			{Name: "rates", Quick: 280, Thorough: 8000, Par: 4, Run: ratesCase},
		},
	})
}

type rLimit struct {
	name string
	rate int
	tps  bool
	ands int                   // combinations that descend from this limiter
	in   func(s *session) bool // session is in the limit's scope
	each bool                  // applies to each session by itself
}

type rEvent struct {
	prev, at time.Duration
}

// worstWindow returns the largest excess of events over rate*window.
func worstWindow(evs []rEvent, rate int) (excess float64, n int, from, to time.Duration) {
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	step := 1 + len(evs)/300
	for i := 0; i < len(evs); i += step {
		t1 := evs[i].prev
		c := 0
		for _, e := range evs {
			if e.prev < t1 {
				continue
			}
			c++
			if x := float64(c) - float64(rate)*(e.at-t1).Seconds(); x > excess {
				excess, n, from, to = x, c, t1, e.at
			}
		}
	}
	return
}

func ratesCase(t *kit.T) {
	r := t.R
	rate := func(p float64) int {
		if !r.P(p) {
			return 0
		}
		return kit.Pick(r, 5, 10, 20, 30, 50, 100, 200, 400, 1000)
	}
	params := map[string]string{}
	str := func(n int) string {
		if n == 0 {
			return kit.Pick(r, "", "", "0")
		}
		switch r.IntN(4) {
		case 0:
			k := fmt.Sprintf("rate%d", n)
			params[k] = fmt.Sprint(n)
			return kit.Pick(r, "$params."+k, "${params."+k+"}")
		case 1:
			if n == 1000 {
				return kit.Pick(r, "1k", "1,000", "1KB")
			}
		}
		return fmt.Sprint(n)
	}
	st := &kit.Stage{Name: "s", Stats: map[string]interface{}{"disable": "true"}, Params: params}
	runtime := time.Duration(r.Int(600, 1500)) * time.Millisecond
	st.Runtime = runtime.String()
	isTPS := r.P(0.5)
	plain := r.P(0.2) // one limit only: also check that it is reached
	p := 0.35
	qs, ts := 0, 0
	if !plain {
		qs, ts = rate(p), 0
		if isTPS {
			ts = rate(p)
		}
	}
	st.QPS, st.TPS = str(qs), str(ts)
	type cg struct {
		db      string
		clients int
		q, qc   int
		t, tc   int
	}
	var lims []*rLimit
	nEG := kit.Pick(r, 1, 1, 1, 2)
	if plain {
		nEG = 1
	}
	totalQ, totalT := 0, 0 // combinations below the stage limit
	dbs := 0
	begins := map[string]bool{}
	var plainLimit *rLimit
	for eg := 0; eg < nEG; eg++ {
		qe, te := 0, 0
		nCG := r.Int(1, 3)
		if plain {
			nCG = 1
		} else {
			qe = rate(p)
			if isTPS {
				te = rate(p)
			}
		}
		setAt := r.IntN(nCG)
		var cgs []*cg
		egQ, egT := 0, 0 // combinations below the exec group limit
		for i := 0; i < nCG; i++ {
			c := &cg{db: fmt.Sprintf("d%d", dbs), clients: r.Int(1, 6)}
			dbs++
			if !plain {
				c.q, c.qc = rate(p), rate(p)
				if isTPS {
					c.t, c.tc = rate(p), rate(p)
				}
			} else {
				v := kit.Pick(r, 20, 50, 100)
				lim := &rLimit{rate: v}
				switch r.IntN(8) {
				case 0:
					st.QPS, lim.name, qs = fmt.Sprint(v), "stage qps", v
				case 1:
					qe, lim.name = v, "exec group qps"
				case 2:
					c.qc, lim.name = v, "client group qps"
				case 3:
					c.q, lim.name, lim.each = v, "client qps", true
				case 4:
					st.TPS, lim.name, lim.tps, ts = fmt.Sprint(v), "stage tps", true, v
				case 5:
					te, lim.name, lim.tps = v, "exec group tps", true
				case 6:
					c.tc, lim.name, lim.tps = v, "client group tps", true
				case 7:
					c.t, lim.name, lim.each, lim.tps = v, "client tps", true, true
				}
				isTPS = lim.tps
				lim.in = func(*session) bool { return true }
				plainLimit = lim
			}
			w := kit.CG{Group: fmt.Sprintf("g%d", eg), Db: c.db, Clients: fmt.Sprint(c.clients),
				QPS: str(c.q), QPSClients: str(c.qc), TPS: str(c.t), TPSClients: str(c.tc)}
			if i == setAt {
				w.QPSExecGroup, w.TPSExecGroup = str(qe), str(te)
			}
			// exec groups run one after another, so each but the last needs its own end
			if nEG > 1 {
				w.Runtime = (runtime / time.Duration(nEG)).String()
			}
			tx := kit.TrxFile{File: fmt.Sprintf("t%d.%d.sql", eg, i)}
			n := r.Int(1, 5)
			bx := -1
			if isTPS {
				bx = r.IntN(n)
			}
			for j := 0; j < n; j++ {
				mark := fmt.Sprintf(" /* r%d.%d.%d */", eg, i, j)
				var s kit.Stmt
				if j == bx || isTPS && r.P(0.15) {
					s.SQL = kit.Pick(r, "BEGIN", "begin", "START TRANSACTION", "Start transaction read only") + mark
					begins[s.SQL] = true
				} else {
					s.SQL = kit.Pick(r, "SELECT 1", "INSERT INTO t VALUES (1)", "COMMIT", "UPDATE t SET a=1", "SET a=2", "ROLLBACK") + mark
				}
				if r.P(0.3) {
					s.Mods = append(s.Mods, "prepare")
				}
				tx.Stmts = append(tx.Stmts, s)
				if r.P(0.05) {
					tx.Stmts = append(tx.Stmts, kit.Stmt{SQL: "SELECT 2", Mods: []string{"idle: 5ms"}})
				}
			}
			st.Trx = append(st.Trx, tx)
			w.Trx = []string{tx.File}
			st.Workload = append(st.Workload, w)
			cgs = append(cgs, c)
		}
		// combinations: one for each pair of limits that are both set
		comb := func(stage, e int, f func(c *cg) (int, int), total, eTotal *int) (per []int) {
			chain := stage > 0 || e > 0
			if stage > 0 && e > 0 {
				*total++
			}
			for _, c := range cgs {
				cc, c1 := f(c)
				n := 0
				if chain && cc > 0 {
					*total++
					*eTotal++
				}
				if c1 > 0 && (chain || cc > 0) {
					n = c.clients
				}
				*total += n
				*eTotal += n
				per = append(per, n)
			}
			return
		}
		perQ := comb(qs, qe, func(c *cg) (int, int) { return c.qc, c.q }, &totalQ, &egQ)
		perT := comb(ts, te, func(c *cg) (int, int) { return c.tc, c.t }, &totalT, &egT)
		if plain {
			continue
		}
		inEG := func(s *session) bool {
			for _, c := range cgs {
				if c.db == s.db {
					return true
				}
			}
			return false
		}
		lims = append(lims, &rLimit{name: fmt.Sprintf("exec group %d qps", eg), rate: qe, ands: egQ + 1, in: inEG},
			&rLimit{name: fmt.Sprintf("exec group %d tps", eg), rate: te, ands: egT + 1, in: inEG, tps: true})
		for i, c := range cgs {
			in := func(s *session) bool { return s.db == c.db }
			lims = append(lims, &rLimit{name: c.db + " qps-clients", rate: c.qc, ands: perQ[i] + 1, in: in},
				&rLimit{name: c.db + " tps-clients", rate: c.tc, ands: perT[i] + 1, in: in, tps: true},
				&rLimit{name: c.db + " qps", rate: c.q, ands: 1, in: in, each: true},
				&rLimit{name: c.db + " tps", rate: c.t, ands: 1, in: in, each: true, tps: true})
		}
	}
	all := func(*session) bool { return true }
	if plain {
		lims = append(lims, plainLimit)
	} else {
		lims = append(lims, &rLimit{name: "stage qps", rate: qs, ands: totalQ, in: all}, &rLimit{name: "stage tps", rate: ts, ands: totalT, in: all, tps: true})
	}
	j := jitter(r.Uint64(), kit.Pick(r, 0, 0.3), 4*time.Millisecond)
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		rep := okReply(ev)
		if ev.Kind == "query" || ev.Kind == "execute" {
			rep.Delay = j(ev)
		}
		return rep
	}
	sc := (&kit.Scenario{Handler: h, MaxEvents: 1000000}).Add(st)
	res := t.RunOK(sc, "rates")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("rates:exit", fmt.Sprintf("finch failed (exit %d): %s", res.Exit, kit.Tail(res.Out, 500)), det)
		return
	}
	ss := sessions(res.Events)
	var sig strings.Builder
	judged := false
	for _, l := range lims {
		if l.rate == 0 {
			continue
		}
		var pools [][]rEvent
		var pool []rEvent
		for _, s := range ss {
			if !l.in(s) {
				continue
			}
			if l.each {
				pool = nil
			}
			prev := time.Duration(-1)
			for _, e := range s.all {
				switch e.Kind {
				case "query", "execute":
					if !strings.HasPrefix(e.SQL, "USE ") && (!l.tps || begins[e.SQL]) && prev >= 0 {
						pool = append(pool, rEvent{prev, e.At})
					}
				case "stmtclose", "quit", "disconnect":
					continue // no reply
				}
				if e.DoneAt > 0 {
					prev = e.DoneAt
				}
			}
			if l.each {
				pools = append(pools, pool)
			}
		}
		if !l.each {
			pools = append(pools, pool)
		}
		for _, evs := range pools {
			excess, n, from, to := worstWindow(evs, l.rate)
			allow := float64(4 + 3*l.ands)
			t.Count("windows_judged", len(evs))
			if len(evs) >= 10 {
				judged = true
			}
			fmt.Fprintf(&sig, "%s=%d:%d,", l.name, l.rate, len(evs))
			if excess > allow {
				t.FailTimed("rates:exceeded", fmt.Sprintf("%s: limit %d/s, but %d statements in %.3f s (allowed: %.1f)", l.name, l.rate, n, (to-from).Seconds(), float64(n)-excess+allow), det)
				return
			}
			// reached?
			if l == plainLimit && len(ss) > 0 {
				if want := float64(l.rate) * runtime.Seconds() * 0.15; float64(len(evs)) < want-2 {
					t.FailTimed("rates:starved", fmt.Sprintf("%s: limit %d/s, but only %d statements in %s", l.name, l.rate, len(evs), runtime), det)
					return
				}
				t.Count("reached", 1)
			}
		}
	}
	t.Eval(sig.String()+interleaving(res.Events), judged)
	t.Sample(map[string]interface{}{"stage": st.YAML(), "limits": sig.String()})
}
