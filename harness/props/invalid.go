package props

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C23",
		Rule:        "random valid stages (one to three, in one or several directories, several trx files, data keys, modifiers, groups, params) made invalid in one random way out of about 100 (file, YAML, field values, params, workload, trx file, modifiers, data keys, data generators, reporters, mysql options, command line) in a random stage, run normally or with --test: finch must end with an error, without a crash or hang, without a statement of that or a later stage, and without any statement at all if the error is in the stage file or params; mutate: the files of such stages with one to six random textual edits (bytes, tokens, lines deleted, inserted, duplicated, moved between files), run with --test or run and stopped with CTRL-C: no crash, no hang, and no statement if finch rejects the only stage; some runs of the first part are repeated without the defect, which must be accepted; non-trivial: every rejected config; distinct by kind of defect, stage and shape of the other stages",
		Assumptions: []string{"errors which only the trx files, data generators, reporters or MySQL connection can show are found when their stage is prepared, after earlier stages ran"},
		Floor:       150,
		Parts: []kit.Part{
			{Name: "invalid", Quick: 2600, Thorough: 60000, Par: 4, Run: invalidCase},
			{Name: "mutate", Quick: 2600, Thorough: 80000, Par: 4, Run: mutateCase},
		},
	})
}

// invStage makes a valid stage. Every statement carries the stage's tag.
func invStage(r *kit.Rand, k int) *kit.Stage {
	dir := ""
	if r.P(0.4) {
		dir = fmt.Sprintf("d%d/", k)
	}
	tag := fmt.Sprintf("/*s%d*/", k)
	st := &kit.Stage{File: fmt.Sprintf("%sst%d.yaml", dir, k), Params: map[string]string{"n": "3", "word": "w"}}
	if r.P(0.5) {
		st.Name = fmt.Sprintf("stage%d", k)
	}
	st.MySQL = map[string]string{"hostname": "{{ADDR}}", "username": "u", "password": "p"}
	if r.P(0.3) {
		st.Db = "db"
		st.MySQL["db"] = "db"
	}
	if r.P(0.3) {
		st.Runtime = kit.Pick(r, "30s", "5m", "1h", "1m30s", "0.5h", "1m0.5s", "90000ms")
	}
	if r.P(0.3) {
		st.QPS = "100000"
	}
	switch r.IntN(4) {
	case 0:
		st.Stats = map[string]interface{}{"disable": "true"}
	case 1:
		st.Stats = map[string]interface{}{"freq": kit.Pick(r, "5s", "5m", "1h", "1m30s"), "report": map[string]map[string]string{"stdout": {"percentiles": "P99,P999"}}}
	case 2:
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{"csv": {"file": "{{DIR}}/" + fmt.Sprintf("out%d.csv", k)}}}
	}
	for i := r.Int(1, 3); i > 0; i-- {
		f := kit.TrxFile{File: fmt.Sprintf("t%d_%d.sql", k, i)}
		if r.P(0.3) {
			f.Name = fmt.Sprintf("trx%d_%d", k, i)
		}
		p := fmt.Sprintf("%c%d", 'a'+i, k)
		f.Data = []kit.DataKey{
			{Name: "int" + p, Generator: "int", Params: map[string]string{"max": "$params.n"}},
			{Name: "rng" + p, Generator: "int-range", Params: map[string]string{"max": "1k", "size": "10"}, Scope: kit.Pick(r, "", "trx")},
			{Name: "inc" + p, Generator: "auto-inc", Scope: kit.Pick(r, "", "client", "iter", "global", "stage")},
			{Name: "col" + p, Generator: "column", Params: map[string]string{"quote-value": "no"}, Scope: "iter"},
		}
		f.Stmts = []kit.Stmt{
			{SQL: "BEGIN " + tag},
			{SQL: "SELECT 1 " + tag + " WHERE a = @int" + p, Mods: kit.Pick(r, nil, []string{"prepare"})},
			{SQL: "SELECT 2 " + tag + " WHERE a BETWEEN @rng" + p + " AND @PREV", Mods: []string{"save-columns: @col" + p}},
			{SQL: "UPDATE t SET a = @inc" + p + " " + tag + " WHERE b = @col" + p},
			{SQL: "INSERT INTO t VALUES " + tag + " /*!csv 2 (1, @inc" + p + ")*/"},
			{SQL: "COMMIT " + tag},
		}
		st.Trx = append(st.Trx, f)
	}
	if r.P(0.7) {
		for i := r.Int(1, 3); i > 0; i-- {
			c := kit.CG{Clients: "2", Iter: "2", Runtime: kit.Pick(r, "", "", "20s", "2m", "1h5m", "40000ms"), Group: kit.Pick(r, "g", "g", fmt.Sprintf("h%d", i))}
			for _, f := range st.Trx {
				c.Trx = append(c.Trx, f.TrxName())
			}
			st.Workload = append(st.Workload, c)
		}
		// unique group names must be consecutive
		seen := map[string]bool{}
		last := ""
		for i := range st.Workload {
			g := st.Workload[i].Group
			if g != last && seen[g] {
				g = fmt.Sprintf("u%d", i)
				st.Workload[i].Group = g
			}
			seen[g], last = true, g
		}
	} else {
		st.Workload = []kit.CG{{Clients: "1", Iter: "1"}}
	}
	return st
}

const (
	invLoad    = 1 // found before anything runs
	invPrepare = 2 // found when the stage is prepared
)

// defect makes stage st (k-th) of a scenario invalid. It edits the stage, or
// returns a function that edits the files once written.
type defect struct {
	name  string
	phase int
	edit  func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func()
}

func invDefects() []defect {
	var ds []defect
	add := func(name string, phase int, edit func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func()) {
		ds = append(ds, defect{name, phase, edit})
	}
	stage := func(name string, phase int, edit func(r *kit.Rand, st *kit.Stage)) {
		add(name, phase, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() { edit(r, st); return nil })
	}
	text := func(name string, phase int, edit func(r *kit.Rand, s string) string) { // of the stage file
		add(name, phase, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
			return func() { sc.Files[st.FileName()] = edit(r, sc.Files[st.FileName()]) }
		})
	}
	cg := func(r *kit.Rand, st *kit.Stage) *kit.CG { return &st.Workload[r.IntN(len(st.Workload))] }
	file := func(r *kit.Rand, st *kit.Stage) *kit.TrxFile { return &st.Trx[r.IntN(len(st.Trx))] }

	// --- stage file
	add("missing stage file", invLoad, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
		return func() { delete(sc.Files, st.FileName()) }
	})
	text("bad yaml", invLoad, func(r *kit.Rand, s string) string {
		return kit.Pick(r, s+"\n  trx: [\n", s+"\n\t\tbad\n", "stage: [1, 2", strings.Replace(s, "  trx:", " trx:", 1), s+"  - x\n")
	})
	text("unknown field", invLoad, func(r *kit.Rand, s string) string {
		switch r.IntN(5) {
		case 0:
			return strings.Replace(s, "  trx:\n", "  trxs: 1\n  trx:\n", 1)
		case 1:
			return strings.Replace(s, "  mysql:\n", "  mysql:\n    host: x\n", 1)
		case 2:
			return strings.Replace(s, "  workload:\n    - ", "  workload:\n    - threads: 4\n      ", 1)
		case 3:
			return strings.Replace(s, "  trx:\n    - ", "  trx:\n    - filename: x\n      ", 1)
		}
		return strings.Replace(s, "stage:\n", "extra: 1\nstage:\n", 1)
	})
	text("wrong type", invLoad, func(r *kit.Rand, s string) string {
		switch r.IntN(3) {
		case 0:
			return strings.Replace(s, "  mysql:\n", "  disable: maybe\n  mysql:\n", 1)
		case 1:
			return strings.Replace(s, "  trx:\n", "  compute: 3\n  trx:\n", 1)
		}
		return strings.Replace(s, "  workload:\n    - ", "  workload:\n    - disable-stats: 5 apples\n      ", 1)
	})
	text("duplicate field", invLoad, func(r *kit.Rand, s string) string {
		return strings.Replace(s, "  trx:\n", "  params: {}\n  trx:\n", 1)
	})
	text("empty file", invLoad, func(r *kit.Rand, s string) string { return kit.Pick(r, "", "stage:\n", "stage: {}\n", "# nothing\n") })
	stage("no trx", invLoad, func(r *kit.Rand, st *kit.Stage) { st.Trx = nil })
	stage("missing trx file", invLoad, func(r *kit.Rand, st *kit.Stage) {
		f := *file(r, st)
		f.File = kit.Pick(r, "missing.sql", "no/such/dir/t.sql")
		st.Trx = append(st.Trx, kit.TrxFile{})
		copy(st.Trx[1:], st.Trx)
		st.Trx[0] = kit.TrxFile{File: f.File, Name: "xx"}
	})
	stage("no trx file name", invLoad, func(r *kit.Rand, st *kit.Stage) { st.Trx = append(st.Trx, kit.TrxFile{Name: "zz"}) })
	stage("bad runtime", invLoad, func(r *kit.Rand, st *kit.Stage) {
		v := kit.Pick(r, "5", "abc", "-1s", "0", "0s", "1d", "-0.5s", "1s2")
		if r.P(0.5) {
			st.Runtime = v
		} else {
			cg(r, st).Runtime = v
		}
	})
	stage("bad freq", invLoad, func(r *kit.Rand, st *kit.Stage) {
		st.Stats = map[string]interface{}{"freq": "\"" + kit.Pick(r, "5", "abc", "-1s", "0", "0s", "1d") + "\""}
	})
	for _, field := range []string{"clients", "iter", "iter-clients", "iter-exec-group", "qps", "qps-clients", "qps-exec-group", "tps", "tps-clients", "tps-exec-group", "stage qps", "stage tps", "instances"} {
		field := field
		stage("bad "+field, invLoad, func(r *kit.Rand, st *kit.Stage) {
			v := kit.Pick(r, "abc", "-1", "1.5", "1 2", "0x10", "1e3", "99999999999999999999", "5s", "--", "4294967296")
			if v == "1.5" || v == "1 2" || v == "99999999999999999999" {
				v = kit.Pick(r, "abc", "-5", "ten", "1x", "+1")
			}
			c := cg(r, st)
			switch field {
			case "clients":
				c.Clients = v
			case "iter":
				c.Iter = v
			case "iter-clients":
				c.IterClients = v
			case "iter-exec-group":
				c.IterExecGroup = v
			case "qps":
				c.QPS = v
			case "qps-clients":
				c.QPSClients = v
			case "qps-exec-group":
				c.QPSExecGroup = v
			case "tps":
				c.TPS = v
			case "tps-clients":
				c.TPSClients = v
			case "tps-exec-group":
				c.TPSExecGroup = v
			case "stage qps":
				st.QPS = v
			case "stage tps":
				st.TPS = v
			case "instances":
				st.Compute = map[string]string{"instances": "\"" + v + "\""}
			}
		})
	}
	// --- params
	for _, ref := range []string{"$params.nope", "${params.nope}", "$sys.NOPE", "$FINCH_NO_SUCH_ENV", "${FINCH_NO_SUCH_ENV}", "$params.N", "$param.n"} {
		ref := ref
		stage("undefined "+ref, invLoad, func(r *kit.Rand, st *kit.Stage) {
			c := cg(r, st)
			f := file(r, st)
			d := &f.Data[r.IntN(len(f.Data))]
			my := func(key string) func() { return func() { st.MySQL[key] = kit.Pick(r, ref, "x"+ref) } }
			set := func(p *string) func() { return func() { *p = ref } }
			fields := []func(){
				set(&st.Name), set(&st.Runtime), set(&st.QPS), set(&st.TPS),
				set(&c.Db), set(&c.Clients), set(&c.Iter), set(&c.IterClients), set(&c.IterExecGroup), set(&c.Runtime), set(&c.Group),
				set(&c.QPS), set(&c.QPSClients), set(&c.QPSExecGroup), set(&c.TPS), set(&c.TPSClients), set(&c.TPSExecGroup),
				func() { // the workload names it by its file, as if it had no name
					for i := range st.Workload {
						c := &st.Workload[i]
						c.Trx = append([]string(nil), c.Trx...)
						for j := range c.Trx {
							if c.Trx[j] == f.TrxName() {
								c.Trx[j] = f.File
							}
						}
					}
					f.Name = ref
				},
				set(&f.File), set(&d.Generator), set(&d.Scope),
				my("db"), my("dsn"), my("hostname"), my("socket"), my("mycnf"), my("username"), my("password"), my("password-file"), my("timeout-connect"),
				func() { st.MySQL["tls"] = "{" + kit.Pick(r, "ca", "cert", "key") + ": \"" + ref + "\"}" },
				func() { d.Params = map[string]string{kit.Pick(r, "max", "min", "unused"): ref} },
				func() {
					st.Stats = map[string]interface{}{"report": map[string]map[string]string{"stdout": {kit.Pick(r, "percentiles", "combined"): ref}}}
				},
				func() { st.Stats = map[string]interface{}{"freq": "\"" + ref + "\""} },
				func() { st.Compute = map[string]string{"instances": "\"" + ref + "\""} },
				func() { st.Params["bad"] = ref },
				func() {
					if len(c.Trx) == 0 {
						c.Iter = ref
						return
					}
					c.Trx = append([]string{}, c.Trx...)
					c.Trx[r.IntN(len(c.Trx))] = ref
				},
			}
			i := r.IntN(len(fields))
			if n, err := strconv.Atoi(os.Getenv("VERIF_FIELD")); err == nil { // for debugging
				i = n
			}
			fields[i]()
		})
	}
	stage("circular params", invLoad, func(r *kit.Rand, st *kit.Stage) {
		switch r.IntN(3) {
		case 0:
			st.Params["c1"] = "${params.c1}"
		case 1:
			st.Params["c1"], st.Params["c2"] = "${params.c2}", "${params.c1}"
		case 2:
			st.Params["c1"], st.Params["c2"], st.Params["c3"] = "x${params.c2}", "${params.c3}y", "$params.c1"
		}
	})
	// --- data keys in the stage file
	stage("bad scope", invLoad, func(r *kit.Rand, st *kit.Stage) {
		f := file(r, st)
		f.Data[r.IntN(len(f.Data))].Scope = kit.Pick(r, "Trx", "query", "transaction", "all", "client_group", "execgroup", "none", "TRX")
	})
	stage("no generator", invLoad, func(r *kit.Rand, st *kit.Stage) {
		f := file(r, st)
		f.Data[r.IntN(len(f.Data))].Generator = ""
	})
	stage("scope mismatch", invLoad, func(r *kit.Rand, st *kit.Stage) {
		f := kit.TrxFile{File: "mm.sql", Data: []kit.DataKey{{Name: st.Trx[0].Data[0].Name, Generator: "int", Scope: "client"}}, Raw: "SELECT @" + st.Trx[0].Data[0].Name + "\n"}
		st.Trx = append(st.Trx, f)
	})
	// --- workload
	stage("groups aba", invLoad, func(r *kit.Rand, st *kit.Stage) {
		c := st.Workload[0]
		a, b, d := c, c, c
		a.Group, b.Group, d.Group = "A", kit.Pick(r, "B", "a"), "A"
		st.Workload = []kit.CG{a, b, d}
		if r.P(0.3) {
			e := c
			e.Group = "C"
			st.Workload = []kit.CG{a, b, e, e, d}
		}
	})
	stage("unknown trx in workload", invLoad, func(r *kit.Rand, st *kit.Stage) {
		if len(st.Workload[0].Trx) == 0 {
			st.Workload[0].Trx = []string{st.Trx[0].TrxName()}
		}
		c := cg(r, st)
		c.Trx = append([]string(nil), c.Trx...)
		bad := kit.Pick(r, "nope", strings.ToUpper(c.Trx[0])+"X", strings.TrimSuffix(c.Trx[0], "l")+"_")
		if r.P(0.5) {
			c.Trx = append(c.Trx, bad)
		} else {
			c.Trx[r.IntN(len(c.Trx))] = bad
		}
	})
	stage("mixed trx assignment", invLoad, func(r *kit.Rand, st *kit.Stage) {
		a := kit.CG{Clients: "1", Iter: "1", Trx: []string{st.Trx[0].TrxName()}}
		b := kit.CG{Clients: "1", Iter: "1"}
		st.Workload = []kit.CG{a, b}
		if r.P(0.5) {
			st.Workload = []kit.CG{b, a}
		}
		if r.P(0.3) {
			st.Workload = append(st.Workload, a)
		}
	})
	// --- command line
	add("no stage file", invLoad, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
		return func() {
			var args []string
			for _, a := range sc.Args {
				if !strings.HasSuffix(a, ".yaml") {
					args = append(args, a)
				}
			}
			sc.Args = args
		}
	})
	add("unknown option", invLoad, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
		return func() {
			bad := kit.Pick(r, "--nope", "--instances=2", "-z", "--test=maybe", "--debugging")
			if r.P(0.5) {
				sc.Args = append(sc.Args, bad)
			} else {
				sc.Args = append([]string{bad}, sc.Args...)
			}
		}
	})
	add("option without value", invLoad, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
		return func() { sc.Args = append(sc.Args, kit.Pick(r, "--dsn", "--database", "-D", "--server", "--client")) }
	})
	add("bad DSN", invPrepare, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
		st.MySQL = map[string]string{"dsn": kit.Pick(r, "user@tcp(127.0.0.1", "not a dsn", "tcp(127.0.0.1:3306)", "u:p@", "u@tcp({{ADDR}})/?timeout=abc", "u@nonet({{ADDR}})/", "u@tcp({{ADDR}})/?tls=nope")}
		return nil
	})
	stage("no such mycnf", invPrepare, func(r *kit.Rand, st *kit.Stage) { st.MySQL["mycnf"] = "{{DIR}}/no.cnf" })
	stage("no such password file", invPrepare, func(r *kit.Rand, st *kit.Stage) {
		delete(st.MySQL, "password")
		st.MySQL["password-file"] = "{{DIR}}/no.pw"
	})
	text("no such TLS file", invPrepare, func(r *kit.Rand, s string) string {
		return strings.Replace(s, "  mysql:\n", "  mysql:\n    tls:\n      ca: \"{{DIR}}/no.pem\"\n", 1)
	})
	stage("no MySQL", invPrepare, func(r *kit.Rand, st *kit.Stage) { st.MySQL["hostname"] = "127.0.0.1:1" })
	text("no server for remotes", invPrepare, func(r *kit.Rand, s string) string {
		return strings.Replace(s, "  trx:\n", "  compute:\n    "+kit.Pick(r, "instances: 2", "instances: 5", "disable-local: true")+"\n  trx:\n", 1)
	})
	// --- reporters
	stage("unknown reporter", invPrepare, func(r *kit.Rand, st *kit.Stage) {
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{kit.Pick(r, "stdot", "json", "CSV"): {"percentiles": "P99"}}}
		if r.P(0.3) {
			st.Stats["report"].(map[string]map[string]string)["stdout"] = map[string]string{}
		}
	})
	stage("bad percentile", invPrepare, func(r *kit.Rand, st *kit.Stage) {
		rep := kit.Pick(r, "stdout", "csv")
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{rep: {"percentiles": kit.Pick(r, "P101.5", "abc", "P99,", "P99,Px", ",", "99%", "P-1", "P95 P99", "P100.1")}}}
	})
	add("existing CSV file", invPrepare, func(r *kit.Rand, st *kit.Stage, sc *kit.Scenario) func() {
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{"csv": {"file": "{{DIR}}/have.csv"}}}
		return func() { sc.Files["have.csv"] = "old\n" }
	})
	stage("CSV file in no directory", invPrepare, func(r *kit.Rand, st *kit.Stage) {
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{"csv": {"file": "{{DIR}}/no/dir/x.csv"}}}
	})
	// --- data generators
	gen := func(name string, g string, ps ...map[string]string) {
		stage("generator "+name, invPrepare, func(r *kit.Rand, st *kit.Stage) {
			d := &file(r, st).Data[0]
			d.Generator, d.Params = g, kit.Pick(r, ps...)
		})
	}
	m := func(kv ...string) map[string]string {
		o := map[string]string{}
		for i := 0; i < len(kv); i += 2 {
			o[kv[i]] = kv[i+1]
		}
		return o
	}
	gen("unknown", "integer", m(), m("max", "5"))
	gen("wrong case", "Int", m())
	gen("int", "int", m("min", "x"), m("max", "5.x"), m("min", "10", "max", "5"), m("max", ""), m("dist", "normal", "mean", "abc"))
	gen("int-gaps", "int-gaps", m("p", "0"), m("p", "101"), m("p", "-1"), m("min", "7", "max", "5"), m("p", "x"))
	gen("int-range", "int-range", m("size", "0"), m("size", "-5"), m("min", "10", "max", "10"), m("min", "5", "max", "4"), m("min", "1", "max", "10", "size", "100"), m("size", "z"))
	gen("int-range-seq", "int-range-seq", m("size", "0"), m("begin", "10", "end", "5"), m("begin", "1", "end", "10", "size", "100"), m("begin", "q"))
	gen("auto-inc", "auto-inc", m("step", "0"), m("step", "-1"), m("start", "-1"), m("start", "x"), m("step", "2.x"))
	gen("str-fill-az", "str-fill-az", m("len", "0"), m("len", "-1"), m("len", "x"))
	gen("client-id", "client-id", m("ids", "nope"), m("ids", "client,nope"), m("ids", "conn,,client"))
	// --- trx files
	trx := func(name string, edit func(r *kit.Rand, f *kit.TrxFile)) {
		stage("trx file: "+name, invPrepare, func(r *kit.Rand, st *kit.Stage) { edit(r, file(r, st)) })
	}
	trx("empty", func(r *kit.Rand, f *kit.TrxFile) {
		f.Raw = kit.Pick(r, "\n", "\n\n\n", "-- EOF\nSELECT 1\n", "-- prepare\n", "   \n")
	})
	trx("unconfigured key", func(r *kit.Rand, f *kit.TrxFile) {
		key := kit.Pick(r, "@nope", "@NOPE", "@int", "@"+f.Data[0].Name+"x", "@nope()")
		s := &f.Stmts[kit.Pick(r, 1, 3, 4)]
		if strings.Contains(s.SQL, "csv 2 (") && r.P(0.6) {
			s.SQL = strings.Replace(s.SQL, "csv 2 (", "csv 2 ("+key+", ", 1)
		} else {
			s.SQL += " AND z = " + key
		}
	})
	trx("key without config", func(r *kit.Rand, f *kit.TrxFile) { f.Data = f.Data[r.Int(1, 2):] })
	trx("@PREV first", func(r *kit.Rand, f *kit.TrxFile) {
		f.Stmts[1].SQL = kit.Pick(r, "SELECT @PREV", "SELECT @PREV, @PREV", "SELECT @PREV, @"+f.Data[0].Name, "SELECT @PREV()")
	})
	trx("column not referenced", func(r *kit.Rand, f *kit.TrxFile) {
		switch r.IntN(3) {
		case 0:
			f.Stmts[3].SQL = "UPDATE t SET a = 1"
		case 1:
			f.Stmts[1].Mods = append(f.Stmts[1].Mods, "save-columns: @unused")
		case 2:
			f.Stmts = f.Stmts[:3]
		}
	})
	trx("column saved twice", func(r *kit.Rand, f *kit.TrxFile) {
		m := f.Stmts[2].Mods[0]
		switch r.IntN(3) {
		case 0:
			f.Stmts[1].Mods = append(f.Stmts[1].Mods, m)
		case 1:
			f.Stmts[2].Mods = append(f.Stmts[2].Mods, m)
		case 2:
			f.Stmts[4].Mods = append(f.Stmts[4].Mods, strings.Replace(m, "save-columns", "save-insert-id", 1))
		}
	})
	trx("save-insert-id on SELECT", func(r *kit.Rand, f *kit.TrxFile) {
		f.Stmts[2].Mods[0] = strings.Replace(f.Stmts[2].Mods[0], "save-columns", "save-insert-id", 1)
	})
	mods := func(name string, ms ...string) {
		trx("modifier "+name, func(r *kit.Rand, f *kit.TrxFile) {
			i := kit.Pick(r, 1, 3, 4)
			if r.P(0.3) { // a statement that nothing else depends on
				f.Stmts = append(f.Stmts, kit.Stmt{SQL: "SELECT 9"})
				i = len(f.Stmts) - 1
			}
			s := &f.Stmts[i]
			s.Mods = append(append([]string(nil), s.Mods...), kit.Pick(r, ms...))
			if r.P(0.2) {
				s.Mods = append([]string{"prepare"}, s.Mods...)
			}
		})
	}
	mods("unknown", "nope", "prepares", "save-column: @x", "Prepare", "rows-limit: 5", "idle-time: 5s", "copy: 3", "table-sizes t 5", "EOFx", "EOF1")
	mods("idle", "idle: 5", "idle: abc", "idle: 5 s", "idle: 1d")
	mods("idle without value", "idle", "idle:")
	mods("rows", "rows: abc", "rows: -1", "rows: 5 x", "rows: 1.5e", "rows: 5 -1")
	mods("rows without value", "rows", "rows:")
	mods("table-size", "table-size: t", "table-size: t 5 6", "table-size", "table-size: t abc", "table-size: t 5XB", "table-size: t -5")
	mods("database-size", "database-size: d", "database-size:", "database-size: d lots")
	mods("save-insert-id without column", "save-insert-id", "save-insert-id:")
	mods("copies", "copies: abc", "copies: -1", "copies: 1.x", "copies: 3s")
	mods("copies without value", "copies", "copies:")
	mods("undefined param", "rows: $params.nope", "idle: ${params.nope}", "copies: $params.nope", "table-size: t $FINCH_NO_SUCH_ENV")
	trx("CSV", func(r *kit.Rand, f *kit.TrxFile) {
		n := kit.Pick(r, "99999999999", "99999999999999999999", "4294967296")
		f.Stmts[4].SQL = strings.Replace(f.Stmts[4].SQL, "csv 2 ", "csv "+n+" ", 1)
	})
	trx("line too long", func(r *kit.Rand, f *kit.TrxFile) {
		f.Stmts[1].SQL += " /*" + strings.Repeat("x", 70000) + "*/"
	})
	return ds
}

var invAll = invDefects()

func invalidCase(t *kit.T) {
	r := t.R
	n := r.Int(1, 3)
	k := r.IntN(n)
	d := invAll[r.IntN(len(invAll))]
	if s := os.Getenv("VERIF_DEFECT"); s != "" { // for debugging
		for _, x := range invAll {
			if x.name == s {
				d = x
			}
		}
	}
	build := func(r *kit.Rand, bad bool) *kit.Scenario {
		sc := &kit.Scenario{Files: map[string]string{}, Timeout: 40 * time.Second}
		var stages []*kit.Stage
		for i := 0; i < n; i++ {
			stages = append(stages, invStage(r, i))
		}
		dr := kit.NewRand(r.Uint64(), "defect")
		var edit func()
		if bad {
			edit = d.edit(dr, stages[k], sc)
		}
		for _, st := range stages {
			dir := ""
			if i := strings.LastIndex(st.File, "/"); i >= 0 {
				dir = st.File[:i+1]
			}
			sc.Files[st.FileName()] = st.YAML()
			for _, f := range st.Trx {
				if strings.HasPrefix(f.File, "missing") || strings.HasPrefix(f.File, "no/") || f.File == "" {
					continue
				}
				sc.Files[dir+f.File] = f.Text()
			}
			sc.Args = append(sc.Args, st.FileName())
		}
		if edit != nil {
			edit()
		}
		sc.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }
		return sc
	}
	seed := r.Uint64()
	test := r.P(0.3)
	sc := build(kit.NewRand(seed, "s"), true)
	if test {
		sc.Args = append([]string{"--test"}, sc.Args...)
	}
	if d.name == "option without value" && test {
		test = false
		sc.Args = sc.Args[1:]
	}
	res := t.RunOK(sc, d.name)
	if res == nil {
		return
	}
	if res.Exit == 0 {
		t.Fail("accepted:"+d.name, fmt.Sprintf("finch accepted an invalid config (%s in stage %d of %d) and exited 0", d.name, k+1, n), kit.Detail(sc, res))
		return
	}
	if strings.TrimSpace(res.Out) == "" {
		t.Fail("silent:"+d.name, "finch exited with an error but printed nothing", kit.Detail(sc, res))
		return
	}
	ran := 0
	for _, e := range res.Events {
		if e.Kind != "query" && e.Kind != "execute" {
			continue
		}
		for i := 0; i < n; i++ {
			if !strings.Contains(e.SQL, fmt.Sprintf("/*s%d*/", i)) {
				continue
			}
			ran++
			if i >= k || d.phase == invLoad || test {
				t.Fail("executed:"+d.name, fmt.Sprintf("finch executed a statement of stage %d of %d although the config is invalid (%s in stage %d, --test %t): %s", i+1, n, d.name, k+1, test, e.SQL), kit.Detail(sc, res))
				return
			}
		}
	}
	t.Eval(fmt.Sprintf("%s|%d/%d|%t|%d", d.name, k, n, test, len(sc.Files)), true)
	t.Count("rejected", 1)
	t.Count("statements_of_earlier_stages", ran)
	t.Distinct("defects", d.name)
	if r.P(0.2) { // without the defect it is accepted
		ok := build(kit.NewRand(seed, "s"), false)
		if test {
			ok.Args = append([]string{"--test"}, ok.Args...)
		}
		res := t.RunOK(ok, "valid")
		if res == nil {
			return
		}
		if res.Exit != 0 {
			t.Fail("valid", "finch rejected a valid config", kit.Detail(ok, res))
			return
		}
		t.Count("valid_twins", 1)
	}
	t.Sample(map[string]interface{}{"defect": d.name, "stage": k + 1, "of": n, "test": test, "output": kit.Tail(res.Out, 300)})
}

// mutateText makes one random edit. It inserts no digits or unit letters: a
// huge number of clients or rows is valid.
func mutateText(r *kit.Rand, s string, other string) string {
	lines := strings.Split(s, "\n")
	switch r.IntN(9) {
	case 0: // delete bytes
		if len(s) > 0 {
			i := r.IntN(len(s))
			j := min(len(s), i+r.Int(1, 6))
			return s[:i] + s[j:]
		}
	case 1, 2: // insert a token
		i := r.IntN(len(s) + 1)
		return s[:i] + kit.Pick(r, "@", "$", "${", "}", ":", "-- ", "\n", "\n\n", "()", "/*!csv", "*/", "\"", "'", "%", "%d", "\t", " ", "é", "\x00", "@PREV", "@", "-", "--", ",", "[", "]", "{}", "null", "~", "!!", "&a", "*a", "|", ">", "#", "/*!copy-number*/", "$params.n", "x") + s[i:]
	case 3: // delete a line
		i := r.IntN(len(lines))
		return strings.Join(append(append([]string{}, lines[:i]...), lines[i+1:]...), "\n")
	case 4: // duplicate a line elsewhere
		i, j := r.IntN(len(lines)), r.IntN(len(lines)+1)
		out := append([]string{}, lines[:j]...)
		out = append(out, lines[i])
		return strings.Join(append(out, lines[j:]...), "\n")
	case 5: // swap lines
		i, j := r.IntN(len(lines)), r.IntN(len(lines))
		lines[i], lines[j] = lines[j], lines[i]
		return strings.Join(lines, "\n")
	case 6: // a line of another file
		ol := strings.Split(other, "\n")
		j := r.IntN(len(lines) + 1)
		out := append([]string{}, lines[:j]...)
		out = append(out, ol[r.IntN(len(ol))])
		return strings.Join(append(out, lines[j:]...), "\n")
	case 7: // truncate
		return s[:r.IntN(len(s)+1)]
	case 8: // drop the value of a line
		i := r.IntN(len(lines))
		if k := strings.Index(lines[i], ":"); k >= 0 {
			lines[i] = lines[i][:k+1] + kit.Pick(r, "", " ", " {}", " []", " x", " \"\"", " -", " [[]]", " {a: b}")
		} else if k := strings.IndexByte(lines[i], ' '); k >= 0 {
			lines[i] = lines[i][:k]
		}
		return strings.Join(lines, "\n")
	}
	return s
}

func mutateCase(t *kit.T) {
	r := t.R
	sc := &kit.Scenario{Files: map[string]string{}, Timeout: 40 * time.Second}
	st := invStage(r, 0)
	st.File = "st.yaml"
	st.QPS = kit.Pick(r, "", "500")
	if rep, ok := st.Stats["report"].(map[string]map[string]string); ok && rep["csv"] != nil { // an edited path could be anywhere
		rep["csv"] = map[string]string{"percentiles": "P99"}
	}
	if r.P(0.5) {
		st.Trx[0].Stmts[3].Mods = []string{kit.Pick(r, "rows: 100", "table-size: t 5", "copies: 3", "idle: 1ms", "save-insert-id: @iid")}
		if st.Trx[0].Stmts[3].Mods[0] == "save-insert-id: @iid" {
			st.Trx[0].Stmts[4].SQL += " /*@iid*/"
		}
	}
	sc.Add(st)
	var names []string
	for _, n := range append([]string{"st.yaml"}, trxFiles(st)...) {
		names = append(names, n)
	}
	for i := r.Int(1, 6); i > 0; i-- {
		n := names[r.IntN(len(names))]
		sc.Files[n] = mutateText(r, sc.Files[n], sc.Files[names[r.IntN(len(names))]])
	}
	sc.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }
	test := r.P(0.6)
	if test {
		sc.Args = append([]string{"--test"}, sc.Args...)
	} else {
		sc.During = func(p *kit.Proc) {
			select {
			case <-p.Done:
			case <-time.After(500 * time.Millisecond):
				p.Signal(os.Interrupt)
			}
		}
	}
	res := t.RunOK(sc, "mutated")
	if res == nil {
		return
	}
	for _, e := range res.Events {
		if (e.Kind == "query" || e.Kind == "execute") && strings.Contains(e.SQL, "/*s0*/") {
			if test {
				t.Fail("mutated:executed", "--test executed a statement: "+e.SQL, kit.Detail(sc, res))
				return
			}
			if res.Exit != 0 && !strings.Contains(res.Out, "Caught CTRL-C") {
				t.Fail("mutated:executed", "finch exited with an error but executed statements of the only stage: "+e.SQL, kit.Detail(sc, res))
				return
			}
		}
	}
	outcome := "accepted"
	if res.Exit != 0 {
		outcome = "rejected"
	}
	t.Count("mutated_"+outcome, 1)
	key := ""
	for _, n := range names {
		key += sc.Files[n] + "|"
	}
	t.Eval(key, true)
}

func trxFiles(st *kit.Stage) []string {
	var fs []string
	for _, f := range st.Trx {
		fs = append(fs, f.File)
	}
	return fs
}
