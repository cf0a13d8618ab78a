package props

import (
	"fmt"
	"strings"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C01",
		Rule:        "random stages (1-4 trx files, random statement kinds, prepared or not, copies, multi-line; 1-4 client groups, any trx order with repeats; iteration limits) run end to end against the logging fake MySQL with random reply delays; non-trivial: at least one client executed two or more statements; distinct by stage text and observed interleaving",
		Assumptions: []string{"the fake MySQL server's arrival order per connection is the order the client sent", "one connection is one client (no errors are injected in this check)"},
		Floor:       100,
		Parts:       []kit.Part{{Name: "order", Quick: 3000, Thorough: 60000, Par: 3, Run: c01}},
	})
	kit.Register(&kit.Check{
		ID:    "C02",
		Rule:  "random multi-group, multi-stage command lines; a barrier in the server holds each client at its first statement until every client of its execution group is executing, which decides concurrency; non-trivial: more than one client or group; distinct by stage text and observed interleaving",
		Floor: 100,
		Parts: []kit.Part{{Name: "groups", Quick: 2500, Thorough: 50000, Par: 3, Run: c02}, {Name: "stages", Quick: 600, Thorough: 10000, Par: 3, Run: c02stages}},
	})
	kit.Register(&kit.Check{
		ID:    "C03",
		Rule:  "random combinations of iter, iter-clients and iter-exec-group over 1-4 client groups under random reply delays; the iterations each client, client group and execution group completed are counted in the server log; burst: 3 to 24 clients use up a limit of thousands of iterations without any delay, so that they count at the same moment; non-trivial: a shared limit with two or more clients; distinct by limits and observed interleaving",
		Floor: 100,
		Parts: []kit.Part{{Name: "limits", Quick: 4000, Thorough: 80000, Par: 3, Run: c03}, {Name: "burst", Quick: 60, Thorough: 2000, Par: 2, Run: c03burst}},
	})
	kit.Register(&kit.Check{
		ID:    "C19",
		Rule:  "stages that leave out workload, trx lists, group names, client counts and iterations in every mix, with DDL and DML trx; the executed structure (groups, order, clients, iterations, trx) must be the documented default; non-trivial: something was auto-allocated; distinct by stage text",
		Floor: 100,
		Parts: []kit.Part{{Name: "auto", Quick: 2500, Thorough: 50000, Par: 3, Run: c19}, {Name: "autoassign", Quick: 600, Thorough: 10000, Par: 3, Run: c19none}},
	})
}

func handler(t *kit.T, b *barrier, p float64, max time.Duration) fm.Handler {
	j := jitter(t.R.Uint64(), p, max)
	return func(s *fm.Server, ev *fm.Event) fm.Reply {
		if b != nil {
			b.at(ev)
		}
		r := okReply(ev)
		if ev.Kind == "query" || ev.Kind == "execute" {
			r.Delay = j(ev)
		}
		return r
	}
}

func c01(t *kit.T) {
	m := genWork(t.R, workOpts{maxStmts: 5, maxIter: 4, ddl: t.R.P(0.3), limits: t.R.P(0.3)})
	sc := (&kit.Scenario{Handler: handler(t, nil, 0.2, 2*time.Millisecond)}).Add(m.st)
	r := t.RunOK(sc, "order")
	if r == nil {
		return
	}
	det := func() map[string]interface{} {
		d := kit.Detail(sc, r)
		d["model"] = describe(m)["model"]
		return d
	}
	if r.Exit != 0 {
		t.Fail("order:exit", fmt.Sprintf("finch exited with status %d", r.Exit), det())
		return
	}
	groups, bad := m.byCG(sessions(r.Events))
	if bad != "" {
		t.Fail("order:stray", bad, det())
		return
	}
	n := 0
	for cg, ss := range groups {
		for _, s := range ss {
			k, bad := checkSeq(s, cg.seq)
			if bad != "" {
				t.Fail("order:seq", bad, det())
				return
			}
			if len(s.stmts) > n {
				n = len(s.stmts)
			}
			t.Count("iterations", k)
			t.Count("statements", len(s.stmts))
		}
	}
	for _, cg := range m.cgs {
		if len(groups[cg]) == 0 {
			t.Fail("order:missing", fmt.Sprintf("client group %s executed nothing", cg.db), det())
		}
	}
	t.Distinct("interleavings", interleaving(r.Events))
	t.Eval(m.st.YAML()+interleaving(r.Events), n >= 2)
	t.Sample(map[string]interface{}{"stage": m.st.YAML(), "events": kit.EventLines(r.Events, 20)})
}

// checkGroups verifies that exec groups ran one after another in order, and
// returns the last event of the stage.
func checkGroups(m *mStage, groups map[*mCG][]*session, after int64) (int64, string) {
	last := after
	for i, eg := range m.egs {
		end := last
		for _, cg := range eg {
			for _, s := range groups[cg] {
				for _, e := range s.stmts {
					if e.Seq < last {
						return 0, fmt.Sprintf("execution group %d (client group %s) sent %q (event %d) before everything earlier finished (event %d)", i+1, cg.db, e.SQL, e.Seq, last)
					}
					if e.Done > end {
						end = e.Done
					}
				}
			}
		}
		last = end
	}
	return last, ""
}

func clientCount(ss []*session) int {
	n := 0
	for _, s := range ss {
		if len(s.stmts) > 0 {
			n++
		}
	}
	return n
}

func c02(t *kit.T) {
	m := genWork(t.R, workOpts{maxStmts: 3, maxIter: 3, ddl: t.R.P(0.3)})
	b := newBarrier(m)
	sc := (&kit.Scenario{Handler: handler(t, b, 0.3, 3*time.Millisecond), Timeout: 200 * time.Second}).Add(m.st)
	r := t.RunOK(sc, "groups")
	if r == nil {
		return
	}
	if len(b.late) > 0 {
		t.Fail("groups:concurrency", strings.Join(b.late, "; "), kit.Detail(sc, r))
		return
	}
	groups, bad := m.byCG(sessions(r.Events))
	if bad == "" {
		_, bad = checkGroups(m, groups, 0)
	}
	clients := 0
	if bad == "" {
		for _, cg := range m.cgs {
			clients += cg.clients
			if n := clientCount(groups[cg]); n != cg.clients {
				bad = fmt.Sprintf("client group %s: %d clients executed, %d configured", cg.db, n, cg.clients)
			}
		}
	}
	if bad == "" && r.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", r.Exit)
	}
	if bad != "" {
		d := kit.Detail(sc, r)
		d["model"] = describe(m)["model"]
		t.Fail("groups:order", bad, d)
		return
	}
	t.Count("clients", clients)
	t.Count("exec_groups", len(m.egs))
	t.Distinct("interleavings", interleaving(r.Events))
	t.Eval(m.st.YAML()+interleaving(r.Events), clients > 1)
	t.Sample(map[string]interface{}{"stage": m.st.YAML(), "events": kit.EventLines(r.Events, 15)})
}

func c02stages(t *kit.T) {
	n := t.R.Int(2, 4)
	var ms []*mStage
	sc := &kit.Scenario{Handler: handler(t, nil, 0.2, 2*time.Millisecond)}
	all := ""
	for i := 0; i < n; i++ {
		m := genWork(t.R, workOpts{tag: fmt.Sprintf("s%d", i), maxStmts: 3, maxIter: 2, ddl: t.R.P(0.2)})
		m.st.Disable = t.R.P(0.25)
		if t.R.P(0.3) {
			m.st.File = fmt.Sprintf("d%d/%s", i, m.st.File)
			// trx paths are relative to the stage file's directory
			sub := &kit.Scenario{}
			sub.Add(m.st)
			if sc.Files == nil {
				sc.Files = map[string]string{}
			}
			for fn, c := range sub.Files {
				if fn != m.st.File {
					fn = fmt.Sprintf("d%d/%s", i, fn)
				}
				sc.Files[fn] = c
			}
			sc.Args = append(sc.Args, m.st.File)
		} else {
			sc.Add(m.st)
		}
		all += m.st.YAML()
		ms = append(ms, m)
	}
	r := t.RunOK(sc, "stages")
	if r == nil {
		return
	}
	var last int64
	for i, m := range ms {
		var mine []*session
		for _, s := range sessions(r.Events) {
			if strings.HasPrefix(s.db, fmt.Sprintf("s%dcg", i)) {
				mine = append(mine, s)
			}
		}
		groups, bad := m.byCG(mine)
		if bad == "" && m.st.Disable {
			if len(mine) > 0 {
				bad = fmt.Sprintf("stage %d is disabled but executed", i+1)
			}
		} else if bad == "" {
			for _, cg := range m.cgs {
				for _, s := range groups[cg] {
					k, b := checkSeq(s, cg.seq)
					if b == "" && k != cg.iter {
						b = fmt.Sprintf("stage %d client group %s: a client completed %d iterations, iter is %d", i+1, cg.db, k, cg.iter)
					}
					if b != "" {
						bad = b
					}
				}
				if k := clientCount(groups[cg]); k != cg.clients && bad == "" {
					bad = fmt.Sprintf("stage %d client group %s: %d clients executed, %d configured", i+1, cg.db, k, cg.clients)
				}
			}
			if bad == "" {
				last, bad = checkGroups(m, groups, last)
			}
		}
		if bad == "" && r.Exit != 0 {
			bad = fmt.Sprintf("exit status %d", r.Exit)
		}
		if bad != "" {
			t.Fail("stages:order", bad, kit.Detail(sc, r))
			return
		}
	}
	t.Count("stages", n)
	t.Eval(all, true)
}

func c03(t *kit.T) {
	m := genWork(t.R, workOpts{maxStmts: 2, maxIter: 8, limits: true, noPrep: t.R.P(0.5)})
	sc := (&kit.Scenario{Handler: handler(t, nil, 0.25, 2*time.Millisecond)}).Add(m.st)
	r := t.RunOK(sc, "limits")
	if r == nil {
		return
	}
	groups, bad := m.byCG(sessions(r.Events))
	shared := false
	key := "limits:count"
	if bad == "" {
		for _, eg := range m.egs {
			egTotal := 0
			egLimit := eg[0].iterEG
			short := ""
			var its [][]int
			for _, cg := range eg {
				var per []int
				total := 0
				for _, s := range groups[cg] {
					k, b := checkSeq(s, cg.seq)
					if b != "" {
						bad = b
						break
					}
					if cg.iter > 0 && k > cg.iter {
						bad = fmt.Sprintf("client group %s: a client completed %d iterations, iter is %d", cg.db, k, cg.iter)
					}
					per = append(per, k)
					total += k
				}
				if len(per) > cg.clients {
					bad = fmt.Sprintf("client group %s: %d clients, %d configured", cg.db, len(per), cg.clients)
				}
				// own is what the limits of the client group allow its clients together
				own := 1 << 30
				if cg.iter > 0 {
					own = cg.iter * cg.clients
				}
				if cg.iterCl > 0 {
					own = min(own, cg.iterCl)
				}
				if total > own {
					bad = fmt.Sprintf("client group %s completed %d iterations: iter is %d for each of %d clients, iter-clients %d", cg.db, total, cg.iter, cg.clients, cg.iterCl)
				}
				if total < own {
					short = fmt.Sprintf("client group %s completed only %d iterations: iter is %d for each of %d clients, iter-clients %d", cg.db, total, cg.iter, cg.clients, cg.iterCl)
				}
				if (cg.iterCl > 0 || cg.iterEG > 0) && cg.clients > 1 {
					shared = true
				}
				if cg.iterCl > 0 && cg.iter > 0 && cg.clients > 1 && cg.iterCl < cg.iter*cg.clients || egLimit > 0 && own < 1<<30 {
					t.Count("combined_limits", 1)
				}
				egTotal += total
				its = append(its, per)
			}
			if egLimit > 0 && egTotal > egLimit {
				bad = fmt.Sprintf("execution group completed %d iterations, iter-exec-group is %d (per client: %v)", egTotal, egLimit, its)
			}
			// no client stops until one of its limits is used up
			if bad == "" && short != "" && (egLimit == 0 || egTotal < egLimit) {
				bad = fmt.Sprintf("%s; execution group %d, iter-exec-group is %d (per client: %v)", short, egTotal, egLimit, its)
			}
			t.Distinct("splits", fmt.Sprint(its))
		}
	}
	if bad == "" && r.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", r.Exit)
	}
	if bad != "" {
		d := kit.Detail(sc, r)
		d["model"] = describe(m)["model"]
		t.Fail(key, bad, d)
		return
	}
	t.Distinct("interleavings", interleaving(r.Events))
	t.Eval(fmt.Sprint(describe(m)["model"])+interleaving(r.Events), shared)
	t.Sample(describe(m))
}

func c19(t *kit.T) {
	m := genWork(t.R, workOpts{maxStmts: 2, maxIter: 2, ddl: true, auto: true})
	var b *barrier
	if len(m.st.Workload) > 0 {
		b = newBarrier(m)
	}
	sc := (&kit.Scenario{Handler: handler(t, b, 0.2, time.Millisecond), Timeout: 200 * time.Second}).Add(m.st)
	r := t.RunOK(sc, "auto")
	if r == nil {
		return
	}
	judgeAuto(t, m, b, sc, r)
}

func judgeAuto(t *kit.T, m *mStage, b *barrier, sc *kit.Scenario, r *kit.Result) {
	bad := ""
	if b != nil && len(b.late) > 0 {
		bad = strings.Join(b.late, "; ")
	}
	groups, bad2 := m.byCG(sessions(r.Events))
	if bad == "" {
		bad = bad2
	}
	if bad == "" {
		_, bad = checkGroups(m, groups, 0)
	}
	if bad == "" {
		for _, cg := range m.cgs {
			if n := clientCount(groups[cg]); n != cg.clients {
				bad = fmt.Sprintf("client group %s %v: %d clients executed, expected %d", cg.db, cg.trx, n, cg.clients)
			}
			for _, s := range groups[cg] {
				k, b := checkSeq(s, cg.seq)
				if b == "" && k != cg.iter {
					b = fmt.Sprintf("client group %s %v: %d iterations, expected %d", cg.db, cg.trx, k, cg.iter)
				}
				if b != "" && bad == "" {
					bad = b
				}
			}
		}
	}
	if bad == "" && r.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", r.Exit)
	}
	if bad != "" {
		d := kit.Detail(sc, r)
		d["model"] = describe(m)["model"]
		t.Fail("auto:structure", bad, d)
		return
	}
	t.Eval(m.st.YAML(), true)
	t.Sample(describe(m))
}

// c19none: no workload section. DDL trx run alone, one client, once; runs of
// DML trx share one client, forever: a DML run is ended by a rows limit so that
// the stage terminates.
func c19none(t *kit.T) {
	r := t.R
	m := &mStage{st: &kit.Stage{}}
	n := r.Int(1, 5)
	var cur *mCG
	for i := 0; i < n; i++ {
		ddl := r.P(0.45)
		tag := fmt.Sprintf("A%d", i)
		tf, ms := genTrx(r, tag, r.Int(1, 2), ddl, false)
		if ddl {
			cg := &mCG{clients: 1, iter: 1, seq: ms, trx: []string{tag}, ddl: true}
			m.egs = append(m.egs, []*mCG{cg})
			m.cgs = append(m.cgs, cg)
			cur = nil
		} else {
			if cur == nil {
				cur = &mCG{clients: 1}
				m.egs = append(m.egs, []*mCG{cur})
				m.cgs = append(m.cgs, cur)
			}
			cur.seq = append(cur.seq, ms...)
			cur.trx = append(cur.trx, tag)
		}
		m.st.Trx = append(m.st.Trx, tf)
	}
	// end each DML run after a known number of iterations: the limited write is
	// the last statement of the run's last trx
	for gi := range m.egs {
		cg := m.egs[gi][0]
		if cg.ddl {
			continue
		}
		iters := r.Int(1, 4)
		cg.iter = iters
		lastTrx := cg.trx[len(cg.trx)-1]
		for i := range m.st.Trx {
			if strings.HasSuffix(m.st.Trx[i].File, lastTrx+".sql") {
				sql := fmt.Sprintf("INSERT INTO lim VALUES (1) /*%s.lim*/", lastTrx)
				m.st.Trx[i].Stmts = append(m.st.Trx[i].Stmts, kit.Stmt{SQL: sql, Mods: []string{fmt.Sprintf("rows: %d", iters)}})
				cg.seq = append(cg.seq, mStmt{sql: sql})
			}
		}
	}
	sc := (&kit.Scenario{Handler: handler(t, nil, 0.1, time.Millisecond)}).Add(m.st)
	res := t.RunOK(sc, "autoassign")
	if res == nil {
		return
	}
	// The rows limit stops the client at the limited write of the next iteration,
	// after the statements before it: drop that documented tail.
	groups, bad := m.byCG(sessions(res.Events))
	if bad == "" {
		for cg, ss := range groups {
			if cg.ddl {
				continue
			}
			for _, s := range ss {
				if want := cg.iter*len(cg.seq) + len(cg.seq) - 1; len(s.stmts) == want {
					for i, e := range s.stmts[cg.iter*len(cg.seq):] {
						if e.SQL != cg.seq[i].sql {
							bad = fmt.Sprintf("tail statement %d: %q, expected %q", i, e.SQL, cg.seq[i].sql)
						}
					}
					s.stmts = s.stmts[:cg.iter*len(cg.seq)]
				} else {
					bad = fmt.Sprintf("DML run %v: %d statements, expected %d (rows limit after %d iterations)", cg.trx, len(s.stmts), want, cg.iter)
				}
			}
		}
	}
	if bad != "" {
		d := kit.Detail(sc, res)
		d["model"] = describe(m)["model"]
		t.Fail("autoassign:structure", bad, d)
		return
	}
	evs := res.Events
	_ = evs
	bad2 := ""
	if _, bad2 = checkGroups(m, groups, 0); bad2 != "" {
		t.Fail("autoassign:order", bad2, kit.Detail(sc, res))
		return
	}
	for _, cg := range m.cgs {
		if c := clientCount(groups[cg]); c != 1 {
			t.Fail("autoassign:clients", fmt.Sprintf("client group %v: %d clients executed, expected 1", cg.trx, c), kit.Detail(sc, res))
			return
		}
		for _, s := range groups[cg] {
			k, b := checkSeq(s, cg.seq)
			if b != "" || k != cg.iter {
				t.Fail("autoassign:iters", fmt.Sprintf("%s %d iterations, expected %d", b, k, cg.iter), kit.Detail(sc, res))
				return
			}
		}
	}
	t.Eval(m.st.YAML(), true)
}

// c03burst: many clients use up a shared limit as fast as they can, so that
// they often count at the same moment.
func c03burst(t *kit.T) {
	r := t.R
	st := &kit.Stage{File: "stage.yaml", Name: "burst", Trx: []kit.TrxFile{{File: "a.sql", Stmts: []kit.Stmt{{SQL: kit.Pick(r, "DO 1", "SELECT 1", "UPDATE t SET a=1")}}}}}
	eg := r.P(0.5)
	limit := r.Int(4000, 10000)
	groups := r.Int(1, 3)
	want := map[string]int{}
	clients := 0
	for i := 0; i < groups; i++ {
		db := fmt.Sprintf("cg%d", i)
		c := r.Int(3, 8)
		g := kit.CG{Db: db, Group: "g", Clients: fmt.Sprint(c)}
		if eg {
			g.IterExecGroup = fmt.Sprint(limit)
		} else {
			want[db] = limit / groups
			g.IterClients = fmt.Sprint(limit / groups)
		}
		clients += c
		st.Workload = append(st.Workload, g)
	}
	sc := (&kit.Scenario{Handler: func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }, MaxEvents: 60000, Timeout: 100 * time.Second}).Add(st)
	res := t.RunOK(sc, "burst")
	if res == nil {
		return
	}
	got, total := map[string]int{}, 0
	for _, s := range sessions(res.Events) {
		got[s.db] += len(s.stmts)
		total += len(s.stmts)
	}
	bad := ""
	if eg && total != limit {
		bad = fmt.Sprintf("execution group completed %d iterations, iter-exec-group is %d", total, limit)
	}
	for db, n := range want {
		if got[db] != n {
			bad = fmt.Sprintf("client group %s completed %d iterations, iter-clients is %d", db, got[db], n)
		}
	}
	if bad == "" && res.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", res.Exit)
	}
	if bad != "" {
		t.Fail("burst:count", bad, map[string]interface{}{"stage": st.YAML(), "output": kit.Tail(res.Out, 2000), "per client group": got})
		return
	}
	t.Count("iterations_counted", total)
	il := interleaving(res.Events[:min(len(res.Events), 3000)])
	t.Distinct("interleavings", il)
	t.Eval(st.YAML()+il, true)
}
