package props

import (
	"fmt"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

// ---- random workloads and their executable model ---------------------------

type mStmt struct {
	sql     string // as the server must see it (after USE)
	prepare bool
	copied  bool // by copies: not the first one
	sel     bool
	idle    time.Duration // before the statement
}

type mCG struct {
	db                   string
	clients              int
	iter, iterCl, iterEG int
	seq                  []mStmt
	trx                  []string
	ddl                  bool
	group                string
	explicitTrx          bool
}

type mStage struct {
	st  *kit.Stage
	egs [][]*mCG // exec groups in order
	cgs []*mCG   // workload order
}

type workOpts struct {
	tag      string
	limits   bool // random combinations of limits instead of iter only
	auto     bool // leave out as much as possible (auto-allocation)
	maxStmts int
	maxIter  int
	ddl      bool
	delays   bool
	stats    map[string]interface{}
	single   bool // one client group per exec group, one client
	noPrep   bool
}

var writeVerbs = []string{"INSERT INTO t VALUES (%d)", "UPDATE t SET a=%d", "DELETE FROM t WHERE a=%d", "REPLACE INTO t VALUES (%d)"}
var plainVerbs = []string{"SET x=%d", "DO %d", "CALL p(%d)"}

// genTrx makes a random trx file whose every statement is unique text.
func genTrx(r *kit.Rand, tag string, n int, ddl bool, noPrep bool) (kit.TrxFile, []mStmt) {
	tf := kit.TrxFile{File: tag + ".sql"}
	if r.P(0.4) {
		tf.Name = "N" + tag
	}
	if r.P(0.2) {
		tf.File = "trx/" + tag + ".sql"
		if tf.Name == "" {
			tf.Name = tag + ".sql" // base file name is the documented default; make it explicit half of the time
			if r.P(0.5) {
				tf.Name = ""
			}
		}
	}
	var ms []mStmt
	inTrx := false
	add := func(sql string, sel bool) {
		st := kit.Stmt{SQL: sql}
		m := mStmt{sql: sql, sel: sel}
		if !noPrep && !strings.HasPrefix(sql, "BEGIN") && !strings.HasPrefix(sql, "COMMIT") && r.P(0.3) {
			st.Mods = append(st.Mods, kit.Pick(r, "prepare", "prepared"))
			m.prepare = true
		}
		if r.P(0.15) { // several lines: joined by one blank
			parts := strings.SplitN(sql, " ", 2)
			if len(parts) == 2 {
				st.SQL = parts[0] + "\n   " + parts[1] + "  "
			}
		}
		if r.P(0.06) {
			m.idle = time.Duration(r.Int(5, 9)) * time.Millisecond
			mod := "idle: " + m.idle.String()
			if r.P(0.4) {
				mod += "\n" // a blank line between the modifier and the statement
			}
			if r.P(0.5) {
				st.Mods = append(st.Mods, mod)
			} else {
				st.Mods = append([]string{mod}, st.Mods...)
			}
		}
		copies := 1
		if r.P(0.1) {
			copies = r.Int(2, 3)
			st.Mods = append(st.Mods, fmt.Sprintf("copies: %d", copies))
		}
		tf.Stmts = append(tf.Stmts, st)
		for i := 0; i < copies; i++ {
			m.copied = i > 0
			ms = append(ms, m)
		}
	}
	for i := 0; i < n; i++ {
		mark := fmt.Sprintf(" /*%s.%d*/", tag, i)
		switch {
		case ddl && i == 0:
			add(kit.Pick(r, "CREATE TABLE", "DROP TABLE", "ALTER TABLE", "RENAME TABLE", "TRUNCATE TABLE")+" t"+mark, false)
		case r.P(0.35):
			add(fmt.Sprintf("SELECT %d", i)+mark, true)
		case r.P(0.5):
			add(fmt.Sprintf(kit.Pick(r, writeVerbs...), i)+mark, false)
		case r.P(0.4):
			add(fmt.Sprintf(kit.Pick(r, plainVerbs...), i)+mark, false)
		default:
			if inTrx {
				add(kit.Pick(r, "COMMIT", "commit")+mark, false)
			} else {
				add(kit.Pick(r, "BEGIN", "START TRANSACTION", "begin")+mark, false)
			}
			inTrx = !inTrx
		}
	}
	return tf, ms
}

func s0(n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprint(n)
}

func genWork(r *kit.Rand, o workOpts) *mStage {
	m := &mStage{st: &kit.Stage{File: o.tag + "stage.yaml", Name: o.tag + "stage", Stats: o.stats}}
	nTrx := r.Int(1, 4)
	stmts := map[string][]mStmt{}
	isDDL := map[string]bool{}
	var order []string
	for i := 0; i < nTrx; i++ {
		ddl := o.ddl && r.P(0.3)
		tf, ms := genTrx(r, fmt.Sprintf("%sT%d", o.tag, i), r.Int(1, o.maxStmts), ddl, o.noPrep)
		m.st.Trx = append(m.st.Trx, tf)
		name := tf.Name
		if name == "" {
			name = tf.File[strings.LastIndex(tf.File, "/")+1:]
		}
		stmts[name] = ms
		isDDL[name] = ddl
		order = append(order, name)
	}
	fill := func(cg *mCG) {
		for _, n := range cg.trx {
			cg.seq = append(cg.seq, stmts[n]...)
			cg.ddl = cg.ddl || isDDL[n]
		}
		if cg.ddl && cg.iter == 0 {
			cg.iter = 1
		}
	}
	if o.auto && r.P(0.35) && allDDL(isDDL) { // no workload at all (terminates only if everything is DDL)
		for _, n := range order {
			cg := &mCG{clients: 1, iter: 1, trx: []string{n}}
			fill(cg)
			m.cgs = append(m.cgs, cg)
			m.egs = append(m.egs, []*mCG{cg})
		}
		return m
	}
	nCG := r.Int(1, 4)
	explicitTrx := r.P(0.6)
	gname := 0
	var prev *mCG
	for i := 0; i < nCG; i++ {
		cg := &mCG{db: fmt.Sprintf("%scg%d", o.tag, i), clients: r.Int(1, 4), explicitTrx: explicitTrx}
		if o.single {
			cg.clients = 1
		}
		w := kit.CG{Db: cg.db}
		if cg.clients != 1 || r.P(0.5) {
			w.Clients = fmt.Sprint(cg.clients)
		}
		if explicitTrx {
			k := r.Int(1, 4)
			for j := 0; j < k; j++ {
				cg.trx = append(cg.trx, order[r.IntN(len(order))]) // any order, repeats
			}
			w.Trx = cg.trx
		} else {
			cg.trx = order
		}
		hasDDL := false
		for _, n := range cg.trx {
			hasDDL = hasDDL || isDDL[n]
		}
		mode := 0
		if o.limits {
			mode = r.IntN(7)
		}
		it := r.Int(1, o.maxIter)
		switch mode {
		case 0:
			cg.iter = it
		case 1:
			cg.iterCl = r.Int(1, o.maxIter*2)
		case 2:
			cg.iterEG = r.Int(1, o.maxIter*2)
		case 3:
			cg.iter, cg.iterCl = it, r.Int(1, o.maxIter*2)
		case 4:
			cg.iter, cg.iterEG = it, r.Int(1, o.maxIter*2)
		case 5:
			cg.iterCl, cg.iterEG = r.Int(1, o.maxIter*2), r.Int(1, o.maxIter*2)
		case 6:
			cg.iter, cg.iterCl, cg.iterEG = it, r.Int(1, o.maxIter*2), r.Int(1, o.maxIter*2)
		}
		if hasDDL && r.P(0.6) && mode == 0 {
			cg.iter = 0 // documented: auto-allocated 1
		}
		w.Iter, w.IterClients, w.IterExecGroup = s0(cg.iter), s0(cg.iterCl), s0(cg.iterEG)
		fill(cg)
		// exec groups: contiguous client groups with the same name
		same := false
		if o.single {
			gname++
			cg.group = fmt.Sprintf("g%d", gname)
		} else if r.P(map[bool]float64{true: 0.3, false: 0.6}[o.auto]) {
			if prev != nil && prev.group != "" && r.P(0.5) {
				cg.group = prev.group
				same = true
			} else if prev != nil && strings.HasPrefix(prev.group, "g") && r.P(0.2) {
				cg.group = "G" + prev.group[1:] // names are case-sensitive
			} else {
				gname++
				cg.group = fmt.Sprintf("g%d", gname)
			}
		} else {
			same = prev != nil && prev.group == "" && !prev.ddl && !cg.ddl
		}
		w.Group = cg.group
		// one value of iter-exec-group per exec group (it's undocumented what two values
		// mean), set in all of its client groups or only in some
		if same {
			eg := m.egs[len(m.egs)-1]
			switch first := eg[0]; {
			case first.iterEG == cg.iterEG:
			case first.iterEG == 0 && r.P(0.4):
				for _, o := range eg {
					o.iterEG = cg.iterEG
				}
			default:
				if cg.iter == 0 && cg.iterCl == 0 && first.iterEG == 0 {
					cg.iter = it
				}
				cg.iterEG = first.iterEG
				w.Iter, w.IterExecGroup = s0(cg.iter), s0(cg.iterEG)
			}
			for _, o := range m.st.Workload[len(m.st.Workload)-len(eg):] {
				if o.IterExecGroup != "" && w.IterExecGroup != "" && r.P(0.4) {
					w.IterExecGroup = "" // set in another client group
				}
			}
			m.egs[len(m.egs)-1] = append(m.egs[len(m.egs)-1], cg)
		} else {
			m.egs = append(m.egs, []*mCG{cg})
		}
		m.cgs = append(m.cgs, cg)
		m.st.Workload = append(m.st.Workload, w)
		prev = cg
	}
	return m
}

func allDDL(m map[string]bool) bool {
	for _, v := range m {
		if !v {
			return false
		}
	}
	return true
}

// ---- replies ----------------------------------------------------------------

func isSelect(sql string) bool {
	return strings.HasPrefix(strings.ToUpper(strings.TrimSpace(sql)), "SELECT")
}

func okReply(ev *fm.Event) fm.Reply {
	if isSelect(ev.SQL) {
		return fm.Reply{Cols: []fm.Col{{Name: "a", Type: fm.TInt}}, Rows: [][]interface{}{{int64(1)}}}
	}
	return fm.Reply{Affected: 1, InsertID: uint64(ev.Seq)}
}

// jitter delays replies to diversify interleavings, deterministically per event.
func jitter(seed uint64, p float64, max time.Duration) func(ev *fm.Event) time.Duration {
	return func(ev *fm.Event) time.Duration {
		r := kit.NewRand(seed, fmt.Sprint(ev.Seq, ev.Conn))
		if r.P(p) {
			return time.Duration(r.Int64N(int64(max)))
		}
		return 0
	}
}

// ---- per-connection view -----------------------------------------------------

type session struct {
	conn  int
	db    string // from USE or connect
	stmts []fm.Event
	preps []fm.Event
	all   []fm.Event
	user  string
}

// sessions splits the log by connection; connections that only pinged (the
// connection test) are left out.
func sessions(evs []fm.Event) []*session {
	by := map[int]*session{}
	var out []*session
	for _, e := range evs {
		s := by[e.Conn]
		if s == nil {
			s = &session{conn: e.Conn}
			by[e.Conn] = s
			out = append(out, s)
		}
		s.all = append(s.all, e)
		switch e.Kind {
		case "connect":
			s.db = e.DB
			s.user = e.User
		case "initdb":
			s.db = e.DB
		case "prepare":
			s.preps = append(s.preps, e)
		case "query":
			if strings.HasPrefix(e.SQL, "USE ") {
				s.db = strings.Trim(strings.TrimPrefix(e.SQL, "USE "), "` ")
				continue
			}
			s.stmts = append(s.stmts, e)
		case "execute":
			s.stmts = append(s.stmts, e)
		}
	}
	keep := out[:0]
	for _, s := range out {
		ping, idle := false, true
		for _, e := range s.all {
			ping = ping || e.Kind == "ping"
			idle = idle && (e.Kind == "connect" || e.Kind == "quit" || e.Kind == "disconnect")
		}
		if ping && len(s.stmts) == 0 {
			continue
		}
		if idle && s.all[len(s.all)-1].Kind == "disconnect" {
			continue // timed out while connecting (the client tries again), or nothing to do
		}
		keep = append(keep, s)
	}
	return keep
}

func interleaving(evs []fm.Event) string {
	var b strings.Builder
	for _, e := range evs {
		if e.Kind == "query" || e.Kind == "execute" {
			fmt.Fprintf(&b, "%d,", e.Conn)
		}
	}
	return b.String()
}

// checkSeq verifies that a session is whole iterations of seq, in order, and
// returns the number of iterations.
func checkSeq(s *session, seq []mStmt) (int, string) {
	for i, e := range s.stmts {
		want := seq[i%len(seq)]
		if e.SQL != want.sql {
			return 0, fmt.Sprintf("connection %d statement %d (iteration %d): expected %q, server received %q", s.conn, i+1, i/len(seq)+1, want.sql, e.SQL)
		}
		if want.prepare != (e.Kind == "execute") {
			return 0, fmt.Sprintf("connection %d statement %d %q: prepared=%v but the server received it as %q", s.conn, i+1, e.SQL, want.prepare, e.Kind)
		}
		if i > 0 && e.Seq < s.stmts[i-1].Done {
			return 0, fmt.Sprintf("connection %d: statement %d was sent before statement %d returned", s.conn, i+1, i)
		}
		if i > 0 && want.idle > 0 && e.At-s.stmts[i-1].DoneAt < want.idle-2*time.Millisecond {
			return 0, fmt.Sprintf("connection %d: statement %d was sent %v after statement %d returned, before its idle time %v had passed", s.conn, i+1, e.At-s.stmts[i-1].DoneAt, i, want.idle)
		}
	}
	if len(s.stmts)%len(seq) != 0 {
		return 0, fmt.Sprintf("connection %d: %d statements is not a whole number of iterations of %d statements (stopped mid-iteration without any limit or error)", s.conn, len(s.stmts), len(seq))
	}
	return len(s.stmts) / len(seq), ""
}

// byCG assigns sessions to client groups: by the group's default database, or
// by the first statement.
func (m *mStage) byCG(ss []*session) (map[*mCG][]*session, string) {
	out := map[*mCG][]*session{}
	for _, s := range ss {
		var cg *mCG
		for _, c := range m.cgs {
			if c.db != "" && c.db == s.db {
				cg = c
			}
		}
		if cg == nil && len(s.stmts) > 0 {
			for _, c := range m.cgs {
				if c.db == "" && c.seq[0].sql == s.stmts[0].SQL {
					cg = c
				}
			}
		}
		if cg == nil {
			if len(s.stmts) == 0 {
				continue
			}
			return nil, fmt.Sprintf("connection %d (database %q) does not belong to any client group: first statement %q", s.conn, s.db, s.stmts[0].SQL)
		}
		out[cg] = append(out[cg], s)
	}
	return out, ""
}

func describe(m *mStage) map[string]interface{} {
	d := map[string]interface{}{"stage": m.st.YAML()}
	var egs []string
	for i, eg := range m.egs {
		for _, c := range eg {
			egs = append(egs, fmt.Sprintf("eg%d clients=%d iter=%d iter-clients=%d iter-exec-group=%d trx=%v stmts=%d", i+1, c.clients, c.iter, c.iterCl, c.iterEG, c.trx, len(c.seq)))
		}
	}
	d["model"] = egs
	return d
}

// barrier lets a handler hold every client of an exec group at its first
// statement until all of them are there.
type barrier struct {
	mu   sync.Mutex
	want map[string]int // db -> eg total key
	eg   map[string]int
	need []int
	seen []map[int]bool
	ch   []chan struct{}
	late []string
	db   map[int]string
}

func newBarrier(m *mStage) *barrier {
	b := &barrier{eg: map[string]int{}, db: map[int]string{}}
	for i, eg := range m.egs {
		n := 0
		for _, c := range eg {
			b.eg[c.db] = i
			n += c.clients
		}
		b.need = append(b.need, n)
		b.seen = append(b.seen, map[int]bool{})
		b.ch = append(b.ch, make(chan struct{}))
	}
	return b
}

// at blocks connection conn (of database db) until its exec group is complete.
func (b *barrier) at(ev *fm.Event) {
	b.mu.Lock()
	if ev.Kind == "query" && strings.HasPrefix(ev.SQL, "USE ") {
		b.db[ev.Conn] = strings.Trim(strings.TrimPrefix(ev.SQL, "USE "), "` ")
		b.mu.Unlock()
		return
	}
	eg, ok := b.eg[b.db[ev.Conn]]
	if !ok || b.seen[eg][ev.Conn] || (ev.Kind != "query" && ev.Kind != "execute") {
		b.mu.Unlock()
		return
	}
	b.seen[eg][ev.Conn] = true
	if len(b.seen[eg]) == b.need[eg] {
		close(b.ch[eg])
	}
	ch := b.ch[eg]
	b.mu.Unlock()
	select {
	case <-ch:
	case <-time.After(30 * time.Second):
		b.mu.Lock()
		b.late = append(b.late, fmt.Sprintf("execution group %d: only %d of %d clients were executing at the same time", eg+1, len(b.seen[eg]), b.need[eg]))
		b.mu.Unlock()
	}
}
