package props

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	of := func(name string, quick, thorough int, run func(*kit.T)) kit.Part {
		return kit.Part{Name: name, Quick: quick, Thorough: thorough, Par: 2, Sanitize: true, Run: run}
	}
	kit.Register(&kit.Check{
		ID:          "C21",
		Rule:        "the finch binary built with the race detector runs stress stages (many clients sharing data keys, row and size limits, rates, statistics and reporters, with errors, strange results and lost connections, ended by iterations, runtime or CTRL-C), clusters with faults between server and clients, and the random workloads of the other checks; generators and the statistics collector run in a race-instrumented harness too; no data race report, Go panic, fatal error or hang; non-trivial: two or more clients executed statements; distinct by statements and their order between clients",
		Assumptions: []string{"the race detector sees the memory accesses of the executions that happened", "a data race of statistics is not counted in a run in which finch warned that clients did not stop and statistics are not accurate"},
		Floor:       200,
		Parts: []kit.Part{
			of("stress", 160, 6000, stressCase),
			of("cluster", 12, 600, func(t *kit.T) { clusterCase(t, false) }),
			of("cluster-faults", 16, 900, func(t *kit.T) { clusterCase(t, true) }),
			of("cluster-stop", 10, 500, clusterStopCase),
			of("cluster-stats", 10, 500, func(t *kit.T) { c14cluster(t, "retries") }),
			of("api", 80, 3000, apiCase),
			of("groups", 80, 3000, c02),
			of("limits", 80, 3000, c03),
			of("faults", 80, 3000, c05),
			of("scopes", 80, 3000, func(t *kit.T) { scopeCase(t, "multi") }),
			of("onetime", 80, 3000, func(t *kit.T) { scopeCase(t, "onetime") }),
			of("columns", 60, 3000, columnsCase),
			of("rows", 80, 3000, rowsCase),
			of("size", 40, 2000, sizeCase),
			of("rates", 24, 1500, ratesCase),
			of("stats", 40, 2000, c14local),
			of("runtime", 24, 1500, runtimeCase),
			of("sigint", 24, 1500, sigintCase),
			{Name: "generators", Quick: 200, Thorough: 10000, Race: true, Sanitize: true, Run: c09conc},
			{Name: "collector", Quick: 40, Thorough: 2000, Par: 4, Race: true, Sanitize: true, Run: c15collector},
			{Name: "combine", Quick: 200, Thorough: 10000, Race: true, Sanitize: true, Run: func(t *kit.T) { c16(t, false) }},
		},
	})
}

// stressStage is a stage in which many clients share as much as they can.
func stressStage(r *kit.Rand, k int) (*kit.Stage, bool) {
	tag := fmt.Sprintf("s%d", k)
	st := &kit.Stage{File: tag + ".yaml", Name: tag}
	scopes := []string{"statement", "trx", "iter", "client", "client-group", "exec-group", "workload", "stage", "global", "value", "row"}
	gens := []func() kit.DataKey{
		func() kit.DataKey { return kit.DataKey{Generator: "int", Params: map[string]string{"max": "1000"}} },
		func() kit.DataKey {
			return kit.DataKey{Generator: "int", Params: map[string]string{"max": "1000", "dist": "normal"}}
		},
		func() kit.DataKey { return kit.DataKey{Generator: "auto-inc"} },
		func() kit.DataKey { return kit.DataKey{Generator: "xid"} },
		func() kit.DataKey { return kit.DataKey{Generator: "client-id"} },
		func() kit.DataKey {
			return kit.DataKey{Generator: "int-gaps", Params: map[string]string{"min": "1", "max": "1000", "p": "20"}}
		},
		func() kit.DataKey {
			return kit.DataKey{Generator: "int-range", Params: map[string]string{"min": "1", "max": "1000", "size": "10"}}
		},
		func() kit.DataKey {
			return kit.DataKey{Generator: "int-range-seq", Params: map[string]string{"begin": "1", "end": "1000", "size": "10"}}
		},
		func() kit.DataKey {
			return kit.DataKey{Generator: "str-fill-az", Params: map[string]string{"len": "20"}}
		},
	}
	nT := r.Int(1, 3)
	for i := 0; i < nT; i++ {
		f := kit.TrxFile{File: fmt.Sprintf("%st%d.sql", tag, i)}
		var singles, all []string
		for d := r.Int(1, 4); d > 0; d-- {
			dk := gens[r.IntN(len(gens))]()
			dk.Name = fmt.Sprintf("%sd%d_%d", tag, i, d)
			dk.Scope = kit.Pick(r, scopes...)
			f.Data = append(f.Data, dk)
			if !strings.HasPrefix(dk.Generator, "int-range") && dk.Scope != "row" {
				singles = append(singles, "@"+dk.Name)
			}
			if dk.Scope != "row" {
				all = append(all, dk.Name)
			} else {
				f.Data = f.Data[:len(f.Data)-1]
			}
		}
		ref := func() string {
			if len(singles) == 0 {
				return "7"
			}
			return kit.Pick(r, singles...) + kit.Pick(r, "", "", "()")
		}
		begin := r.P(0.4)
		if begin {
			f.Stmts = append(f.Stmts, kit.Stmt{SQL: "BEGIN"})
		}
		saved := false
		for n := r.Int(1, 5); n > 0; n-- {
			var s kit.Stmt
			id := fmt.Sprintf("/*%s.%d.%d*/", tag, i, n)
			switch r.IntN(6) {
			case 0:
				s.SQL = "SELECT c " + id + " FROM t WHERE id=" + ref()
			case 1:
				s.SQL = "INSERT INTO t " + id + " VALUES (" + ref() + ", " + ref() + ")"
				if r.P(0.5) {
					s.Mods = append(s.Mods, fmt.Sprintf("rows: %d", r.Int(20, 400)))
				}
			case 2:
				s.SQL = "INSERT INTO t " + id + " VALUES /*!csv 5 (" + ref() + ", " + ref() + ")*/"
			case 3:
				s.SQL = "UPDATE t SET a=" + ref() + " " + id
				if r.P(0.3) {
					s.Mods = append(s.Mods, kit.Pick(r, "table-size: t 2MB", "database-size: db1 2MB"))
				}
			case 4:
				s.SQL = "SELECT c " + id + " FROM t"
				s.Mods = append(s.Mods, fmt.Sprintf("save-columns: @%sc%d_%d", tag, i, n))
				f.Stmts = append(f.Stmts, s)
				s = kit.Stmt{SQL: fmt.Sprintf("UPDATE t SET b=1 %s WHERE c=@%sc%d_%d", id, tag, i, n)}
				saved = true
			case 5:
				s.SQL = "INSERT INTO t " + id + " VALUES (" + ref() + ")"
				s.Mods = append(s.Mods, fmt.Sprintf("save-insert-id: @%si%d_%d", tag, i, n))
				f.Stmts = append(f.Stmts, s)
				s = kit.Stmt{SQL: fmt.Sprintf("DELETE FROM t %s WHERE c=@%si%d_%d", id, tag, i, n)}
				saved = true
			}
			if r.P(0.4) {
				s.Mods = append(s.Mods, "prepare")
			}
			if r.P(0.1) && !saved {
				s.Mods = append(s.Mods, fmt.Sprintf("copies: %d", r.Int(2, 3)))
			}
			if r.P(0.06) {
				s.Mods = append(s.Mods, "idle: 1ms")
			}
			f.Stmts = append(f.Stmts, s)
		}
		for _, n := range all { // data keys must be used
			f.Stmts = append(f.Stmts, kit.Stmt{SQL: fmt.Sprintf("SELECT 1 /*%s.%d.u*/ FROM t WHERE x IN (@%s)", tag, i, n)})
		}
		if begin {
			f.Stmts = append(f.Stmts, kit.Stmt{SQL: kit.Pick(r, "COMMIT", "ROLLBACK")})
		}
		st.Trx = append(st.Trx, f)
	}
	for i := range st.Trx { // ranges are two values
		for j, s := range st.Trx[i].Stmts {
			for _, d := range st.Trx[i].Data {
				if strings.HasPrefix(d.Generator, "int-range") && strings.HasSuffix(s.SQL, " IN (@"+d.Name+")") {
					st.Trx[i].Stmts[j].SQL = strings.Replace(s.SQL, "IN (@"+d.Name+")", "BETWEEN @"+d.Name+" AND @"+d.Name, 1)
				}
			}
		}
	}
	endless := r.P(0.5)
	nEG := r.Int(1, 2)
	for e := 0; e < nEG; e++ {
		for c := r.Int(1, 3); c > 0; c-- {
			g := kit.CG{Group: fmt.Sprintf("g%d", e), Clients: fmt.Sprint(kit.Pick(r, 1, 2, 4, 8, 16)), Db: kit.Pick(r, "", "db1")}
			lim := func(dst *string, p float64, xs ...string) {
				if r.P(p) {
					*dst = kit.Pick(r, xs...)
				}
			}
			if !endless || e < nEG-1 {
				switch r.IntN(3) {
				case 0:
					g.Iter = fmt.Sprint(r.Int(1, 30))
				case 1:
					g.IterClients = fmt.Sprint(r.Int(1, 200))
				case 2:
					g.IterExecGroup = fmt.Sprint(r.Int(1, 200))
					g.Iter = "200"
				}
			}
			lim(&g.QPS, 0.15, "500", "2,000")
			lim(&g.QPSClients, 0.15, "1k", "4,000")
			lim(&g.QPSExecGroup, 0.15, "1k", "4,000")
			lim(&g.TPS, 0.1, "200")
			lim(&g.TPSClients, 0.1, "800")
			lim(&g.TPSExecGroup, 0.1, "800")
			g.DisableStats = r.P(0.1)
			for _, f := range st.Trx {
				if r.P(0.7) {
					g.Trx = append(g.Trx, f.TrxName())
				}
			}
			if len(g.Trx) == 0 {
				g.Trx = []string{st.Trx[0].TrxName()}
			}
			st.Workload = append(st.Workload, g)
		}
	}
	// all client groups of an execution group have the same shared limit
	for i := range st.Workload {
		for j := range st.Workload[:i] {
			if st.Workload[i].Group == st.Workload[j].Group {
				st.Workload[i].IterExecGroup = st.Workload[j].IterExecGroup
				st.Workload[i].QPSExecGroup = st.Workload[j].QPSExecGroup
				st.Workload[i].TPSExecGroup = st.Workload[j].TPSExecGroup
				if st.Workload[i].IterExecGroup != "" && st.Workload[i].Iter == "" {
					st.Workload[i].Iter = "200"
				}
				break
			}
		}
	}
	if !endless {
		for i := range st.Workload {
			if g := &st.Workload[i]; g.Iter == "" && g.IterClients == "" && g.IterExecGroup == "" {
				g.Iter = "20"
			}
		}
	}
	st.Runtime = fmt.Sprintf("%dms", r.Int(200, 1200))
	if r.P(0.2) {
		st.QPS = "3,000"
	}
	if r.P(0.1) {
		st.TPS = "1k"
	}
	rep := map[string]map[string]string{}
	if r.P(0.6) {
		rep["csv"] = map[string]string{"file": "{{DIR}}/" + tag + ".csv"}
	}
	if r.P(0.6) {
		rep["stdout"] = map[string]string{"each-instance": "yes", "combined": "yes"}
	}
	st.Stats = map[string]interface{}{}
	if len(rep) > 0 {
		st.Stats["report"] = rep
	}
	if r.P(0.8) {
		st.Stats["freq"] = fmt.Sprintf("%dms", kit.Pick(r, 1, 5, 20, 100))
	}
	return st, endless
}

func stressCase(t *kit.T) {
	r := t.R
	sc := &kit.Scenario{Timeout: 100 * time.Second}
	for k := r.Int(1, 2); k > 0; k-- {
		st, _ := stressStage(r, k)
		sc.Add(st)
	}
	seed := r.Uint64()
	pErr, pDrop, pOdd := kit.Pick(r, 0, 0.01, 0.1), kit.Pick(r, 0, 0, 0.003), kit.Pick(r, 0, 0, 0.02)
	j := jitter(r.Uint64(), kit.Pick(r, 0.0, 0.05), 5*time.Millisecond)
	sc.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" || strings.HasPrefix(ev.SQL, "USE ") {
			return fm.Reply{}
		}
		rr := kit.NewRand(seed, fmt.Sprint(ev.Seq))
		if strings.Contains(ev.SQL, "information_schema") {
			return fm.Reply{Cols: []fm.Col{{Name: "s", Type: fm.TInt}}, Rows: [][]interface{}{{int64(rr.Int(0, 3<<20))}}}
		}
		rep := okReply(ev)
		rep.Delay = j(ev)
		switch {
		case rr.P(pDrop):
			return fm.Reply{Drop: true}
		case rr.P(pErr):
			return fm.Reply{ErrCode: kit.Pick(rr, uint16(1062), 1205, 1213, 1317, 1054, 1105, 1290, 1836, 1046, 2013, 4031), ErrMsg: "injected"}
		case rr.P(pOdd): // results that the statement does not call for
			switch rr.IntN(5) {
			case 0:
				return fm.Reply{Affected: 3, InsertID: 1 << 60}
			case 1:
				return fm.Reply{Cols: []fm.Col{{Name: "a", Type: fm.TInt}}}
			case 2:
				return fm.Reply{Cols: []fm.Col{{Name: "a", Type: fm.TStr}, {Name: "b", Type: fm.TDatetime}}, Rows: [][]interface{}{{nil, nil}}}
			case 3:
				return fm.Reply{Cols: []fm.Col{{Name: "a", Type: fm.TStr}}, Rows: [][]interface{}{{strings.Repeat("x", 100000)}}}
			case 4:
				return fm.Reply{Cols: []fm.Col{{Name: "a", Type: fm.TInt}}, Rows: [][]interface{}{{int64(1)}, {int64(2)}, {nil}}, RowsErr: 1317}
			}
		}
		return rep
	}
	if r.P(0.25) {
		d := time.Duration(r.Int(20, 1200)) * time.Millisecond
		sc.During = func(p *kit.Proc) {
			select {
			case <-time.After(d):
				p.Signal(syscall.SIGINT)
			case <-p.Done:
			}
		}
	}
	prof := ""
	if r.P(0.15) {
		sc.Args = append(sc.Args, "--debug")
	}
	if r.P(0.15) {
		prof = "cpu.out"
		sc.Args = append(sc.Args, "--cpu-profile", prof)
	}
	res := t.RunOK(sc, "stress")
	if res == nil {
		return
	}
	if prof != "" {
		if _, ok := res.Dir[prof]; !ok {
			t.Fail("stress:profile", "--cpu-profile "+prof+" made no file", kit.Detail(sc, res))
		}
	}
	t.Count(fmt.Sprintf("stress_exit_%d", res.Exit), 1)
	if res.Exit == 1 && os.Getenv("VERIF_SHOW") != "" {
		fmt.Fprintln(os.Stderr, kit.Tail(res.Out, 400))
	}
	t.Sample(map[string]interface{}{"files": sc.Files, "exit": res.Exit, "statements": len(res.Events)})
}
