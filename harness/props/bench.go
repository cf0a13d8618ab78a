package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

// The benchmarks that ship with Finch, executed as they are (only durations
// and sizes are scaled down) against a server that keeps their tables. The
// oracle is a hand-written program of each benchmark.

// bStmt is one statement of a program. {x} is an integer, {'x} a string;
// {=x} and {'=x} must have the value that x has already.
type bStmt struct {
	text   string
	prep   bool
	rows   int    // CSV: this many rows
	row    string //   of this form, after text
	rng    map[string][2]int64
	length map[string]int
	uniq   []string // values never seen before in the run
	save   []string // saved from the last row of the reply; "#id" is the insert id
	aff    int      // rows that it writes
	aux    bool     // limit check of this statement may come first
	toks   []bTok
	row0   []bTok
	sqlPS  string
	re     *regexp.Regexp
}

type bTok struct {
	lit      string
	name     string
	str, ref bool
}

var reBTok = regexp.MustCompile(`\{('?)(=?)([a-z_0-9A-Z]+)\}`)

func bToks(s string) []bTok {
	var out []bTok
	last := 0
	for _, m := range reBTok.FindAllStringSubmatchIndex(s, -1) {
		out = append(out, bTok{lit: s[last:m[0]], name: s[m[6]:m[7]], str: m[3] > m[2], ref: m[5] > m[4]})
		last = m[1]
	}
	return append(out, bTok{lit: s[last:]})
}

func (b *bStmt) compile() *bStmt {
	b.toks = bToks(b.text)
	ps := func(ts []bTok) string {
		o := ""
		for _, t := range ts {
			o += t.lit
			if t.name != "" {
				o += "?"
			}
		}
		return o
	}
	b.sqlPS = ps(b.toks)
	if b.rows > 0 {
		b.row0 = bToks(b.row)
		one := ps(b.row0)
		b.sqlPS += one + strings.Repeat(", "+one, b.rows-1)
		return b
	}
	e := "^"
	for _, t := range b.toks {
		e += regexp.QuoteMeta(t.lit)
		if t.name != "" {
			if t.str {
				e += `'([^']*)'`
			} else {
				e += `(-?\d+)`
			}
		}
	}
	b.re = regexp.MustCompile(e + "$")
	return b
}

type bProg struct {
	name    string
	clients int
	stmts   []*bStmt
	iter    int           // >0: iterations in total
	limit   int           // statement where a limit stops it, else -1
	upto    func() string // end condition
	// observed
	sess  map[int]*bSess
	iters int
	wrote map[int]int // statement -> rows written
	first int64
	last  int64
}

type bSess struct {
	conn  int
	prog  *bProg
	pos   int
	v     map[string]string
	prep  map[string]int
	roll  bool // a ROLLBACK must follow
	dead  bool
	steps int
	done  int64 // reply to its latest statement
}

type bench struct {
	name     string
	files    map[string]string
	args     []string
	phases   [][]*bProg
	seen     map[string]string // unique values
	handler  fm.Handler
	extra    func() string
	noFaults bool
}

func benchFiles(name string) map[string]string {
	files := map[string]string{}
	root := filepath.Join("/repo", "benchmarks", name)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(root, p)
			files[rel] = string(b)
		}
		return nil
	})
	files["_all.yaml"] += "\nmysql:\n  hostname: {{ADDR}}\n"
	return files
}

// paras returns the statements of a file without modifiers.
func paras(s string) []string {
	var out []string
	cur := ""
	for _, l := range append(strings.Split(s, "\n"), "") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "-- ") {
			continue
		}
		if l == "" {
			if cur != "" {
				out = append(out, strings.TrimSpace(cur))
			}
			cur = ""
			continue
		}
		cur += l + " "
	}
	return out
}

func human(r *kit.Rand, n int) string {
	s := []string{strconv.Itoa(n)}
	if n >= 1000 && n < 1000000 {
		s = append(s, fmt.Sprintf("%d,%03d", n/1000, n%1000))
	}
	if n%1000 == 0 && n > 0 {
		s = append(s, fmt.Sprintf("%dk", n/1000), fmt.Sprintf("%dK", n/1000))
	}
	return kit.Pick(r, s...)
}

// bText is a statement with its parameters filled in.
func bText(e *fm.Event) string {
	if e.Kind != "execute" || len(e.Args) > 50 {
		return e.SQL
	}
	p := strings.Split(e.SQL, "?")
	if len(p) != len(e.Args)+1 {
		return e.SQL
	}
	o := p[0]
	for i, a := range e.Args {
		if s, ok := a.(string); ok {
			o += "'" + s + "'"
		} else {
			o += fmt.Sprint(a)
		}
		o += p[i+1]
	}
	return o
}

var reBTable = regexp.MustCompile(`^INSERT INTO (\S+)`)

func runBench(t *kit.T) {
	r := t.R
	b := &bench{seen: map[string]string{}}
	switch t.I % 5 {
	case 0:
		benchIntro(r, b)
	case 1:
		benchSysbench(r, b)
	case 2:
		benchAurora(r, b)
	case 3:
		benchJcole(r, b)
	case 4:
		benchXfer(r, b)
	}
	for _, ph := range b.phases {
		for _, p := range ph {
			p.sess = map[int]*bSess{}
			p.wrote = map[int]int{}
			for _, s := range p.stmts {
				s.compile()
			}
		}
	}
	sigint := time.Duration(0)
	if r.P(0.15) {
		sigint = time.Duration(r.Int(50, 700)) * time.Millisecond
	}
	test := r.P(0.05)
	args := append([]string{"-D", "finch"}, b.args...)
	if test {
		args = append([]string{"--test"}, args...)
	}
	faults := 0.0
	if !b.noFaults && r.P(0.4) {
		faults = 0.01
	}
	maxDelay := kit.Pick(r, 0, 300, 1500)
	rr := &lockedRand{r: kit.NewRand(t.Seed, "bench-h")}
	last := b.phases[len(b.phases)-1]
	inLast := func(sql string) bool { // faults only where only the runtime ends the clients
		for _, ph := range b.phases[:len(b.phases)-1] {
			for _, p := range ph {
				for _, s := range p.stmts {
					if s.re != nil && s.re.MatchString(sql) {
						return false
					}
				}
			}
		}
		for _, p := range last {
			for i, s := range p.stmts {
				if p.iter == 0 && p.limit < 0 && i > 0 && s.re != nil && !s.prep && s.re.MatchString(sql) {
					return true
				}
			}
		}
		return false
	}
	var mu sync.Mutex
	sc := &kit.Scenario{Files: b.files, Args: args, Timeout: 60 * time.Second, MaxEvents: 300000,
		Handler: func(s *fm.Server, ev *fm.Event) fm.Reply {
			if ev.Kind != "query" && ev.Kind != "execute" {
				return fm.Reply{}
			}
			d := time.Duration(rr.n(maxDelay+1)) * time.Microsecond
			if faults > 0 && rr.p(faults) && inLast(ev.SQL) {
				switch rr.n(3) {
				case 0:
					return fm.Reply{ErrCode: 1213, ErrMsg: "Deadlock", Delay: d}
				case 1:
					return fm.Reply{ErrCode: 1205, ErrMsg: "Lock wait timeout", Delay: d}
				default:
					return fm.Reply{Drop: true, Delay: d}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			rep := fm.Reply{}
			if b.handler != nil {
				rep = b.handler(s, ev)
			}
			if rep.Affected == 0 && len(rep.Cols) == 0 {
				if reBTable.MatchString(ev.SQL) {
					rep.Affected = 1
					for _, ph := range b.phases {
						for _, p := range ph {
							for _, st := range p.stmts {
								if st.rows > 0 && st.sqlPS == ev.SQL {
									rep.Affected = uint64(st.rows)
								}
							}
						}
					}
				} else if strings.HasPrefix(ev.SQL, "SELECT") {
					rep.Cols = []fm.Col{{Name: "c", Type: fm.TStr}}
					rep.Rows = [][]interface{}{{"v"}}
				}
			}
			rep.Delay = d
			return rep
		}}
	if sigint > 0 {
		sc.During = func(p *kit.Proc) {
			select {
			case <-time.After(sigint):
				p.Signal(syscall.SIGINT)
			case <-p.Done:
			}
		}
	}
	res := t.RunOK(sc, "bench")
	if res == nil {
		return
	}
	fail := func(key, f string, a ...interface{}) {
		d := kit.Detail(sc, res)
		d["benchmark"] = b.name
		t.Fail("bench:"+b.name+":"+key, b.name+": "+fmt.Sprintf(f, a...), d)
	}
	if res.Exit != 0 {
		// CTRL-C before Finch handles signals kills it
		if sigint > 0 && len(res.Events) == 0 {
			return
		}
		fail("exit", "exit code %d", res.Exit)
		return
	}
	t.Count("bench_"+b.name, 1)
	b.check(t, res, test, sigint > 0, faults > 0, fail)
}

func (b *bench) check(t *kit.T, res *kit.Result, test, sigint, faults bool, fail func(key, f string, a ...interface{})) {
	sess := map[int]*bSess{}
	db := map[int]string{}
	n := 0
	for i := range res.Events {
		e := &res.Events[i]
		switch e.Kind {
		case "connect":
			db[e.Conn] = e.DB
		case "prepare", "query", "execute":
			if test {
				if e.Kind != "prepare" && !strings.HasPrefix(e.SQL, "USE ") {
					fail("test", "--test executed a statement: %s", kit.Clip(e.SQL, 200))
					return
				}
				continue
			}
			s := sess[e.Conn]
			if s == nil && e.Kind == "query" && strings.HasPrefix(e.SQL, "USE ") {
				db[e.Conn] = strings.Trim(e.SQL[4:], "` ")
				continue
			}
			if db[e.Conn] != "finch" {
				fail("db", "session %d has default database %q, not that of -D, when it executes %s", e.Conn, db[e.Conn], kit.Clip(e.SQL, 200))
				return
			}
			if s == nil {
				p := b.program(e)
				if p == nil {
					fail("unknown", "session %d begins with a statement of no benchmark program: %s: %s", e.Conn, e.Kind, kit.Clip(e.SQL, 300))
					return
				}
				s = &bSess{conn: e.Conn, prog: p, v: map[string]string{}, prep: map[string]int{}}
				sess[e.Conn] = s
				p.sess[e.Conn] = s
			}
			p := s.prog
			if p.first == 0 {
				p.first = e.Seq
			}
			// When the runtime ends, a client does not wait for its last reply,
			// so its last statement proves nothing.
			if p.iter > 0 || p.limit >= 0 {
				p.last = max(p.last, e.Done)
			} else {
				p.last = max(p.last, s.done)
			}
			s.done = e.Done
			n++
			if w := b.step(s, e); w != "" {
				fail("stmt", "%s, session %d: %s", p.name, e.Conn, w)
				return
			}
		}
	}
	if test {
		t.Eval(b.name+"-test", true)
		return
	}
	sig := b.name
	var prevLast int64
	prevName := ""
	for _, ph := range b.phases {
		var last int64
		for _, p := range ph {
			if p.first == 0 {
				if !sigint {
					fail("missing", "%s was not executed", p.name)
					return
				}
				continue
			}
			if p.first < prevLast {
				fail("order", "%s started before %s ended", p.name, prevName)
				return
			}
			if p.last > last {
				last = p.last
			}
			sig += fmt.Sprintf(" %s:%d/%d", p.name, len(p.sess), p.iters)
			t.Count("bench_iterations", p.iters)
			if sigint {
				continue
			}
			if len(p.sess) > p.clients && !faults || (len(p.sess) < p.clients && p.iter == 0) {
				fail("clients", "%s was executed by %d clients, expected %d", p.name, len(p.sess), p.clients)
				return
			}
			if p.iter > 0 && p.iters != p.iter {
				fail("iter", "%s: %d iterations, expected %d", p.name, p.iters, p.iter)
				return
			}
			for _, s := range p.sess {
				if p.iter > 0 && s.pos != 0 || p.limit >= 0 && s.pos != p.limit {
					fail("end", "%s: session %d ended before statement %d of %d", p.name, s.conn, s.pos+1, len(p.stmts))
					return
				}
			}
			if p.upto != nil {
				if w := p.upto(); w != "" {
					fail("total", "%s: %s", p.name, w)
					return
				}
			}
		}
		if last > 0 {
			prevLast = last
			prevName = ph[0].name
		}
	}
	if b.extra != nil {
		if w := b.extra(); w != "" {
			fail("extra", "%s", w)
			return
		}
	}
	t.Count("bench_statements", n)
	t.Eval(sig, n > 10)
}

func (b *bench) program(e *fm.Event) *bProg {
	for _, ph := range b.phases {
		for _, p := range ph {
			anyPrep := false
			for _, s := range p.stmts {
				if s.prep {
					anyPrep = true
					if e.Kind == "prepare" && s.sqlPS == e.SQL {
						return p
					}
				}
			}
			if !anyPrep && e.Kind == "query" && p.stmts[0].re.MatchString(e.SQL) {
				return p
			}
		}
	}
	return nil
}

var reBAux = regexp.MustCompile(`^(SELECT DATABASE\(\)$|ANALYZE TABLE xfers$|SELECT COALESCE\(.*information_schema)`)

func (b *bench) step(s *bSess, e *fm.Event) string {
	p := s.prog
	if e.Kind == "prepare" {
		if s.steps > 0 {
			return "prepared after it began to execute: " + kit.Clip(e.SQL, 200)
		}
		known := false
		for _, st := range p.stmts {
			known = known || st.prep && st.sqlPS == e.SQL
		}
		s.prep[e.SQL]++
		if !known || s.prep[e.SQL] > 1 {
			return fmt.Sprintf("prepared %d times (known: %t): %s", s.prep[e.SQL], known, kit.Clip(e.SQL, 200))
		}
		return ""
	}
	if s.dead {
		return "executed after its connection was dropped"
	}
	if s.roll {
		s.roll = false
		if e.SQL != "ROLLBACK" {
			return "no ROLLBACK after error 1205 but " + kit.Clip(e.SQL, 200)
		}
		return ""
	}
	st := p.stmts[s.pos]
	if st.aux && reBAux.MatchString(e.SQL) {
		return ""
	}
	s.steps++
	if st.prep != (e.Kind == "execute") {
		return fmt.Sprintf("statement %d: %s sent by %s", s.pos+1, kit.Clip(e.SQL, 200), e.Kind)
	}
	if s.pos == 0 {
		s.v = map[string]string{}
	}
	set := func(v map[string]string, k bTok, val string) string {
		if k.ref {
			if v[k.name] != val {
				return fmt.Sprintf("statement %d: %s is %q, expected %q: %s", s.pos+1, k.name, kit.Clip(val, 80), kit.Clip(v[k.name], 80), kit.Clip(e.SQL, 200))
			}
			return ""
		}
		v[k.name] = val
		if l, ok := st.length[k.name]; ok && len(val) != l {
			return fmt.Sprintf("statement %d: %s has %d characters, expected %d", s.pos+1, k.name, len(val), l)
		}
		if g, ok := st.rng[k.name]; ok {
			n, err := strconv.ParseInt(val, 10, 64)
			if err != nil || n < g[0] || n > g[1] {
				return fmt.Sprintf("statement %d: %s is %s, expected %d to %d", s.pos+1, k.name, val, g[0], g[1])
			}
		}
		for _, u := range st.uniq {
			if u == k.name {
				w := fmt.Sprintf("session %d", s.conn)
				if o, ok := b.seen[u+"="+val]; ok {
					return fmt.Sprintf("statement %d: value %s of %s was used already (%s)", s.pos+1, val, u, o)
				}
				b.seen[u+"="+val] = w
			}
		}
		return ""
	}
	if st.rows > 0 {
		if e.SQL != st.sqlPS {
			return fmt.Sprintf("statement %d is %s, expected %s", s.pos+1, kit.Clip(e.SQL, 300), kit.Clip(st.sqlPS, 300))
		}
		per := len(st.row0) - 1
		if len(e.Args) != per*st.rows {
			return fmt.Sprintf("statement %d has %d values, expected %d", s.pos+1, len(e.Args), per*st.rows)
		}
		for i := 0; i < st.rows; i++ {
			row := map[string]string{}
			for j := 0; j < per; j++ {
				a := e.Args[i*per+j]
				if _, str := a.(string); str != st.row0[j].str {
					return fmt.Sprintf("row %d: %s is %v (%T)", i+1, st.row0[j].name, a, a)
				}
				if w := set(row, st.row0[j], fmt.Sprint(a)); w != "" {
					return fmt.Sprintf("row %d: %s", i+1, w)
				}
			}
		}
	} else {
		txt := bText(e)
		m := st.re.FindStringSubmatch(txt)
		if m == nil || st.prep && e.SQL != st.sqlPS {
			return fmt.Sprintf("statement %d is %s, expected the form %s", s.pos+1, kit.Clip(txt, 400), kit.Clip(st.text, 400))
		}
		for j, k := range st.toks {
			if k.name != "" {
				if w := set(s.v, k, m[j+1]); w != "" {
					return w
				}
			}
		}
	}
	switch {
	case e.Reply.Drop:
		s.dead = true
		return ""
	case e.Reply.ErrCode == 1205:
		s.roll = true
		s.pos = 0
		return ""
	case e.Reply.ErrCode != 0:
		s.pos = 0
		return ""
	}
	for i, k := range st.save {
		if k == "#id" {
			s.v["xfer_id"] = fmt.Sprint(e.Reply.InsertID)
		} else if len(e.Reply.Rows) > 0 {
			s.v[k] = fmt.Sprint(e.Reply.Rows[len(e.Reply.Rows)-1][i])
		}
	}
	p.wrote[s.pos] += int(e.Reply.Affected)
	s.pos++
	if s.pos == len(p.stmts) {
		s.pos = 0
		p.iters++
	}
	return ""
}

func scaled(files map[string]string, name, re, repl string) {
	x := regexp.MustCompile(re)
	if !x.MatchString(files[name]) {
		panic("benchmark file " + name + " has no " + re)
	}
	files[name] = x.ReplaceAllString(files[name], repl)
}

func ddlProg(name string, text ...string) *bProg {
	p := &bProg{name: name, clients: 1, iter: 1, limit: -1}
	for _, s := range text {
		p.stmts = append(p.stmts, &bStmt{text: s})
	}
	return p
}

func benchIntro(r *kit.Rand, b *bench) {
	b.name = "intro"
	b.files = benchFiles("intro")
	scaled(b.files, "read-only.yaml", `runtime: \d+s`, fmt.Sprintf("runtime: %dms", r.Int(200, 500)))
	scaled(b.files, "row-lock.yaml", `runtime: \d+s`, fmt.Sprintf("runtime: %dms", r.Int(200, 500)))
	rows := r.Int(1, 1500)
	scaled(b.files, "insert-rows.sql", `rows: 100,000`, "rows: "+human(r, rows))
	az := map[string]int{"c": 100}
	ins := &bProg{name: "insert-rows", clients: 1, limit: 0, stmts: []*bStmt{{text: "INSERT INTO finch.t1 (id, n, c) VALUES ({id}, {n}, {'c})", rng: map[string][2]int64{"id": {1, int64(rows)}, "n": {1, 100000}}, length: az, uniq: []string{"id", "c"}}}}
	ins.upto = func() string { return exactly("rows", ins.wrote[0], rows, rows) }
	all := int64(100000)
	ro := &bProg{name: "read-only", clients: 4, limit: -1, stmts: []*bStmt{{text: "SELECT n, c FROM finch.t1 WHERE id = {id}", rng: map[string][2]int64{"id": {1, all}}}}}
	lock := &bProg{name: "row-lock", clients: 4, limit: -1, stmts: []*bStmt{{text: "BEGIN"}, {text: "SELECT c FROM finch.t1 WHERE id = {id} FOR UPDATE", rng: map[string][2]int64{"id": {1, 1000}}},
		{text: "UPDATE finch.t1 SET n = n + 1 WHERE id = {=id}"}, {text: "COMMIT"}}}
	b.phases = [][]*bProg{{ddlProg("schema", paras(b.files["schema.sql"])...)}, {ins}}
	b.args = []string{"setup.yaml"}
	if r.P(0.7) {
		b.args = append(b.args, "read-only.yaml")
		b.phases = append(b.phases, []*bProg{ro})
	}
	if r.P(0.7) {
		b.args = append(b.args, "row-lock.yaml")
		b.phases = append(b.phases, []*bProg{lock})
	}
}

func exactly(what string, got, lo, hi int) string {
	if got < lo || got > hi {
		return fmt.Sprintf("%d %s, expected %d to %d", got, what, lo, hi)
	}
	return ""
}

func sbWrite(rows int, tbl string, trng map[string][2]int64) []*bStmt {
	id := [2]int64{1, int64(rows)}
	m := map[string][2]int64{"id": id}
	first := map[string][2]int64{"id": id}
	ref := "sbtest1"
	if tbl != "" {
		first["tableNo"] = trng["tableNo"]
		ref = "sbtest{=tableNo}"
		tbl = "sbtest{tableNo}"
	} else {
		tbl = "sbtest1"
	}
	return []*bStmt{{text: "BEGIN"},
		{text: "UPDATE " + tbl + " SET k=k+1 WHERE id={id}", rng: first},
		{text: "UPDATE " + ref + " SET c={'c} WHERE id={id}", rng: m, length: map[string]int{"c": 119}, uniq: []string{"c"}},
		{text: "DELETE FROM " + ref + " WHERE id={del_id}", rng: map[string][2]int64{"del_id": id}},
		{text: "INSERT INTO " + ref + " (id, k, c, pad) VALUES ({=del_id}, {k}, {'c}, {'pad})", rng: map[string][2]int64{"k": {1, 65536}}, length: map[string]int{"c": 119, "pad": 59}, uniq: []string{"c", "pad"}},
		{text: "COMMIT"}}
}

func sbInsert(tbl string) *bStmt {
	return &bStmt{text: "INSERT INTO " + tbl + " VALUES ", rows: 1000, row: "(NULL, {k}, {'c}, {'pad})", prep: true,
		rng: map[string][2]int64{"k": {1, 65536}}, length: map[string]int{"c": 119, "pad": 59}, uniq: []string{"c", "pad"}}
}

func benchSysbench(r *kit.Rand, b *bench) {
	b.name = "sysbench"
	b.files = benchFiles("sysbench")
	for _, f := range []string{"read-only.yaml", "write-only.yaml"} {
		scaled(b.files, f, `runtime: \d+s`, fmt.Sprintf("runtime: %dms", r.Int(200, 500)))
	}
	rows := r.Int(1, 4) * 1000
	if r.P(0.3) {
		rows = r.Int(200, 3500)
	}
	if rows == 10000 || r.P(0.1) {
		rows = 10000 // the default
	} else {
		b.args = append(b.args, "-p", "rows="+human(r, rows))
	}
	ins := &bProg{name: "insert-rows", clients: 1, limit: 0, stmts: []*bStmt{sbInsert("sbtest1")}}
	ins.upto = func() string { n := (rows + 999) / 1000 * 1000; return exactly("rows", ins.wrote[0], n, n) }
	rng := func(tail string, sel string) *bStmt {
		return &bStmt{text: "SELECT " + sel + " FROM sbtest1 WHERE id BETWEEN {a} AND {z}" + tail, prep: true, rng: map[string][2]int64{"a": {1, int64(rows)}, "z": {1, int64(rows)}}}
	}
	ro := &bProg{name: "read-only", clients: 1, limit: -1, stmts: []*bStmt{{text: "BEGIN"}}}
	for i := 0; i < 10; i++ {
		ro.stmts = append(ro.stmts, &bStmt{text: "SELECT c FROM sbtest1 WHERE id={id}", prep: true, rng: map[string][2]int64{"id": {1, int64(rows)}}})
	}
	ro.stmts = append(ro.stmts, rng("", "c"), rng("", "SUM(k)"), rng(" ORDER BY c", "c"), rng(" ORDER BY c", "DISTINCT c"), &bStmt{text: "COMMIT", prep: true})
	wo := &bProg{name: "write-only", clients: 1, limit: -1, stmts: sbWrite(rows, "", nil)}
	b.args = append(b.args, "setup.yaml")
	b.phases = [][]*bProg{{ddlProg("schema", paras(b.files["trx/schema.sql"])...)}, {ins}, {ddlProg("secondary-index", paras(b.files["trx/secondary-index.sql"])...)}}
	if r.P(0.7) {
		b.args = append(b.args, "read-only.yaml")
		b.phases = append(b.phases, []*bProg{ro})
	}
	if r.P(0.7) {
		b.args = append(b.args, "write-only.yaml")
		b.phases = append(b.phases, []*bProg{wo})
	}
}

func benchAurora(r *kit.Rand, b *bench) {
	b.name = "aurora"
	b.files = benchFiles("aurora")
	scaled(b.files, "write-only.yaml", `runtime: \d+s`, fmt.Sprintf("runtime: %dms", r.Int(200, 500)))
	tables, rows, clients := r.Int(2, 6), r.Int(1, 3)*1000, r.Int(1, 12)
	if r.P(0.3) {
		rows = r.Int(100, 2500)
	}
	b.args = []string{"-p", "rows=" + human(r, rows), "-p", "tables=" + human(r, tables), "-p", "clients=" + human(r, clients), "-p", "instances=1"}
	create := paras(b.files["trx/create-tables.sql"])[0]
	var ddl []string
	ins := &bProg{name: "insert-rows", clients: 1, limit: 0}
	for i := 1; i <= tables; i++ {
		n := strconv.Itoa(i)
		ddl = append(ddl, strings.Replace(create, "/*!copy-number*/", n, 1))
		ins.stmts = append(ins.stmts, sbInsert("sbtest"+n))
	}
	for i := 1; i <= tables; i++ {
		ins.stmts = append(ins.stmts, &bStmt{text: fmt.Sprintf("ANALYZE TABLE sbtest%d", i)})
	}
	ins.upto = func() string {
		n := (rows + 999) / 1000 * 1000
		for i := 0; i < tables; i++ {
			if w := exactly(fmt.Sprintf("rows in table %d", i+1), ins.wrote[i], n, n); w != "" {
				return w
			}
		}
		return ""
	}
	wo := &bProg{name: "write-only", clients: clients, limit: -1, stmts: sbWrite(rows, "t", map[string][2]int64{"tableNo": {1, int64(tables)}})}
	b.args = append(b.args, "setup.yaml")
	b.phases = [][]*bProg{{ddlProg("create-tables", ddl...)}, {ins}}
	if r.P(0.8) {
		b.args = append(b.args, "write-only.yaml")
		b.phases = append(b.phases, []*bProg{wo})
	}
}

func benchJcole(r *kit.Rand, b *bench) {
	b.name = "jcole"
	b.files = benchFiles("jcole-bug-97001")
	per, iters, before := r.Int(1, 60), r.Int(1, 60), r.Int(1, 300)
	scaled(b.files, "insert-rows.sql", `csv 5000`, fmt.Sprintf("csv %d", per))
	scaled(b.files, "setup.yaml", `iter-clients: 200`, "iter-clients: "+human(r, iters))
	scaled(b.files, "before.yaml", `iter: 1000`, "iter: "+human(r, before))
	ins := &bProg{name: "insert-rows", clients: 4, iter: iters, limit: -1, stmts: []*bStmt{{text: "INSERT INTO t (id, other_id, covered_column, non_covered_column) VALUES ", rows: per, row: "({n}, {=n} % 1000, {=n}, {=n})", prep: true,
		rng: map[string][2]int64{"n": {1, int64(per * iters)}}, uniq: []string{"n"}}}}
	get := paras(b.files["get-1-row.sql"])[0]
	bef := &bProg{name: "before", clients: 1, iter: before, limit: -1, stmts: []*bStmt{{text: get}}}
	shift := ddlProg("shift", paras(b.files["shift-rows.sql"])...)
	aft := &bProg{name: "after", clients: 1, iter: 2, limit: -1, stmts: []*bStmt{{text: get}}}
	b.args = []string{"setup.yaml"}
	b.phases = [][]*bProg{{ddlProg("schema", paras(b.files["schema.sql"])...)}, {ins}}
	// before and after execute the same statement: one of them per run
	if r.P(0.5) {
		b.args = append(b.args, "before.yaml")
		b.phases = append(b.phases, []*bProg{bef})
	} else {
		b.args = append(b.args, "after.yaml")
		b.phases = append(b.phases, []*bProg{shift}, []*bProg{aft})
	}
}

func benchXfer(r *kit.Rand, b *bench) {
	b.name = "xfer"
	b.files = benchFiles("xfer")
	scaled(b.files, "xfer.yaml", `runtime: \d+s`, fmt.Sprintf("runtime: %dms", r.Int(300, 700)))
	setup := r.P(0.6)
	cust := r.Int(120, 1500)
	lower := r.Int(1, cust/2)
	upper := r.Int(cust/2+1, cust)
	active := r.Int(1, 100)
	clients := r.Int(1, 8)
	maxBytes := r.Int(100, 3000) * 1000
	b.args = []string{"-p", "customers=" + human(r, cust), "-p", "lower=" + human(r, lower), "-p", "upper=" + human(r, upper), "-p", "active=" + human(r, active), "-p", "xfers-size=" + kit.Pick(r, fmt.Sprintf("%dkB", maxBytes/1000), fmt.Sprintf("%d", maxBytes))}
	if r.P(0.2) {
		clients = runtime.NumCPU()
	} else {
		b.args = append(b.args, "-p", fmt.Sprintf("clients=%d", clients))
	}
	// tables
	type c struct{ token, country string }
	custs := []c{}
	bal := map[string][]string{} // c_token -> b_tokens
	balID := map[string]int64{}
	cents := map[int64]int64{}
	var nBal, xrows, nXfer int64
	addBal := func(ct, bt string) {
		nBal++
		bal[ct] = append(bal[ct], bt)
		balID[bt] = nBal
		cents[nBal] = int64(len(bal[ct])) * 100
	}
	if !setup {
		for i := 0; i < cust; i++ {
			k := fmt.Sprintf("c%05d", i)
			custs = append(custs, c{k, "USA"})
			for j := 0; j < 3; j++ {
				addBal(k, fmt.Sprintf("b%05d-%d", i, j))
			}
		}
	}
	rr := &lockedRand{r: kit.NewRand(uint64(r.Int(1, 1<<30)), "xfer")}
	re := func(s string) *regexp.Regexp { return regexp.MustCompile(s) }
	reC := re(`^INSERT INTO customers VALUES \(NULL, '([^']*)', '([^']*)'`)
	reB := re(`\(NULL, '([^']*)', '([^']*)', 1, `)
	re2 := re(`^SELECT c_token, country FROM customers WHERE id=(\d+)`)
	re3 := re(`^SELECT b_token FROM balances WHERE c_token='([^']*)'`)
	re4 := re(`^SELECT c_token FROM customers WHERE id BETWEEN (\d+) AND`)
	re7 := re(`^SELECT id, version FROM balances WHERE b_token='([^']*)'`)
	str := func(vs ...interface{}) fm.Reply {
		rep := fm.Reply{}
		for _, v := range vs {
			ty := fm.TStr
			if _, ok := v.(int64); ok {
				ty = fm.TInt
			}
			rep.Cols = append(rep.Cols, fm.Col{Name: "c", Type: ty})
		}
		rep.Rows = [][]interface{}{vs}
		return rep
	}
	stopped := 0 // size checks that reported the limit
	checks := 0
	b.handler = func(_ *fm.Server, ev *fm.Event) fm.Reply {
		q := ev.SQL
		if strings.HasPrefix(q, "INSERT INTO xfers VALUES (NULL, ?") {
			xrows += 1000
			return fm.Reply{Affected: 1000}
		}
		txt := bText(ev)
		switch {
		case q == "SELECT DATABASE()":
			return str("finch")
		case strings.HasPrefix(q, "SELECT COALESCE("):
			checks++
			if int(xrows*450) >= maxBytes {
				stopped++
			}
			return str(xrows * 450)
		case reC.MatchString(txt):
			m := reC.FindStringSubmatch(txt)
			custs = append(custs, c{m[1], m[2]})
			return fm.Reply{Affected: 1, InsertID: uint64(len(custs))}
		case strings.HasPrefix(txt, "INSERT INTO balances"):
			for _, m := range reB.FindAllStringSubmatch(txt, -1) {
				addBal(m[2], m[1])
			}
			return fm.Reply{Affected: 3}
		case re2.MatchString(q):
			id, _ := strconv.Atoi(re2.FindStringSubmatch(q)[1])
			if id >= 1 && id <= len(custs) {
				return str(custs[id-1].token, custs[id-1].country)
			}
			return fm.Reply{Cols: str("", "").Cols}
		case re4.MatchString(q):
			id, _ := strconv.Atoi(re4.FindStringSubmatch(q)[1])
			id += rr.n(101)
			if id > len(custs) {
				id = len(custs)
			}
			if id >= 1 {
				return str(custs[id-1].token)
			}
			return fm.Reply{Cols: str("").Cols}
		case re3.MatchString(q):
			bs := bal[re3.FindStringSubmatch(q)[1]]
			if len(bs) > 0 {
				return str(bs[rr.n(len(bs))])
			}
			return fm.Reply{Cols: str("").Cols}
		case re7.MatchString(q):
			return str(balID[re7.FindStringSubmatch(q)[1]], int64(rr.n(1000)))
		case strings.HasPrefix(q, "INSERT INTO xfers"):
			nXfer++
			return fm.Reply{Affected: 1, InsertID: uint64(900000 + nXfer)}
		}
		return fm.Reply{}
	}
	insC := &bProg{name: "insert-cust-bal", clients: 2, limit: 1, stmts: []*bStmt{{text: "BEGIN"},
		{text: "INSERT INTO customers VALUES (NULL, {'c_token}, 'USA', {'c1}, {'c2}, {'c3}, 1, NOW(), NOW())", prep: true, uniq: []string{"c_token", "c1", "c2", "c3"}, length: map[string]int{"c_token": 20, "c1": 20, "c2": 50, "c3": 75}},
		{text: "INSERT INTO balances VALUES (NULL, {'b1}, {'=c_token}, 1, 100, 'USA', {'x1}, {'x2}, 1, NOW(), NOW()), (NULL, {'b2}, {'=c_token}, 1, 200, 'USA', {'=x1}, {'=x2}, 1, NOW(), NOW()), (NULL, {'b3}, {'=c_token}, 1, 300, 'USA', {'=x1}, {'=x2}, 1, NOW(), NOW())",
			prep: true, uniq: []string{"b1", "b2", "b3", "x1", "x2"}, length: map[string]int{"b1": 20, "b2": 20, "b3": 20, "x1": 30, "x2": 50}},
		{text: "COMMIT"}}}
	insC.stmts[2].text = strings.ReplaceAll(insC.stmts[2].text, "'USA'", "'USD'")
	insC.upto = func() string {
		if len(bal) != len(custs) || nBal != int64(3*len(custs)) {
			return fmt.Sprintf("%d customers, %d of them with balances, %d balances", len(custs), len(bal), nBal)
		}
		return exactly("customers", insC.wrote[1], cust, cust+1)
	}
	insX := &bProg{name: "insert-xfers", clients: 2, limit: 0, stmts: []*bStmt{{text: "INSERT INTO xfers VALUES ", rows: 1000, prep: true, aux: true,
		row:  "(NULL, {'x_token}, 0, 'USD', {'s_token}, {'r_token}, 1, {'c1}, {'c2}, {'c3}, NULL, NULL, NULL, 0, 0, NOW(), NOW())",
		uniq: []string{"x_token", "s_token", "r_token", "c1", "c2"}, length: map[string]int{"x_token": 20, "c1": 10, "c2": 50, "c3": 5}}}}
	insX.stmts[0].uniq = []string{"x_token", "s_token", "r_token", "c2"}
	insX.upto = func() string {
		if stopped == 0 {
			return fmt.Sprintf("stopped at %d bytes, before the table was seen to have reached %d", xrows*450, maxBytes)
		}
		if need := (maxBytes + 449999) / 450000; int(xrows/1000) > need+12 {
			return fmt.Sprintf("%d statements, %d reach the limit", xrows/1000, need)
		}
		return ""
	}
	lo, hi := int64(lower), int64(upper)
	ids := map[string]bool{}
	xf := &bProg{name: "xfer", clients: clients, limit: -1, stmts: []*bStmt{{text: "BEGIN"},
		{text: "SELECT c_token, country FROM customers WHERE id={sender_id} -- 2", rng: map[string][2]int64{"sender_id": {lo, hi}}, save: []string{"sender_token", "country"}},
		{text: "SELECT b_token FROM balances WHERE c_token={'=sender_token} LIMIT 1 -- 3", save: []string{"sbt"}},
		{text: "SELECT c_token FROM customers WHERE id BETWEEN {rid} AND {=rid}+100 AND country={'=country} LIMIT 1 -- 4", rng: map[string][2]int64{"rid": {lo, hi}}, save: []string{"receiver_token"}},
		{text: "SELECT b_token FROM balances WHERE c_token={'=receiver_token} LIMIT 1 -- 5", save: []string{"rbt"}},
		{text: "INSERT INTO xfers VALUES (NULL, {'x_token}, 100, 'USD', {'=sbt}, {'=rbt}, 1, {'c1}, {'c2}, {'c3}, NOW(), NULL, NULL, 1, 0, NOW(), NOW()) -- 6", uniq: []string{"x_token", "c1", "c2"}, length: map[string]int{"x_token": 20, "c1": 25, "c2": 75, "c3": 10}, save: []string{"#id"}},
		{text: "SELECT id, version FROM balances WHERE b_token={'=sbt} FOR UPDATE -- 7", save: []string{"sbid"}},
		{text: "UPDATE balances SET cents=cents-100, version=version+1 WHERE id={=sbid} -- 8"},
		{text: "SELECT id, version FROM balances WHERE b_token={'=rbt} FOR UPDATE -- 9", save: []string{"rbid"}},
		{text: "UPDATE balances SET cents=cents+100, version=version+1 WHERE id={=rbid} -- 10"},
		{text: "UPDATE xfers SET t2=NOW(), c3='DONE' WHERE id={=xfer_id} -- 11"},
		{text: "COMMIT"}}}
	base := b.handler
	b.handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		if m := re2.FindStringSubmatch(ev.SQL); m != nil {
			ids[m[1]] = true
		}
		return base(s, ev)
	}
	b.extra = func() string {
		size := upper - lower + 1
		max := int(float64(size) * float64(active) / 100)
		if max < 1 {
			max = 1
		}
		if len(ids) > max {
			l := []string{}
			for k := range ids {
				l = append(l, k)
			}
			sort.Strings(l)
			return fmt.Sprintf("%d different senders, but %d%% of %d customers are active: %v", len(ids), active, size, l)
		}
		return ""
	}
	if setup {
		b.args = append(b.args, "setup.yaml")
		b.phases = [][]*bProg{{ddlProg("schema", paras(b.files["trx/schema.sql"])...)}, {insC, insX}}
	}
	if !setup || r.P(0.8) {
		b.args = append(b.args, "xfer.yaml")
		b.phases = append(b.phases, []*bProg{xf})
	}
}

type lockedRand struct {
	mu sync.Mutex
	r  *kit.Rand
}

func (l *lockedRand) n(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.IntN(n)
}

func (l *lockedRand) p(p float64) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.P(p)
}

func init() {
	kit.Register(&kit.Check{
		ID: "C25", Level: "exploration",
		Rule: "A case executes the setup and benchmark stages of one of the five shipped benchmarks with random params; it is non-trivial if the server received more than 10 statements. Every statement of every session is matched with the program of the benchmark; equality of values, ranges, lengths, uniqueness, rows written, clients, order of the parts and the end are checked.",
		Assumptions: []string{
			"durations and numbers of rows in the benchmark files are scaled down; nothing else is changed",
			"the fake server answers as MySQL would with the tables that the benchmark filled",
		},
		Floor: 200,
		Parts: []kit.Part{{Name: "benchmarks", Quick: 500, Thorough: 8000, Par: 4, Run: runBench}},
	})
}
