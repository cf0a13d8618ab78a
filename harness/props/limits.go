package props

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C12",
		Rule:        "random stages whose INSERT, UPDATE and other statements (single and CSV, text and prepared, copies) have rows, table-size and database-size limits alone and combined, with one or several clients and client groups, random affected rows, recoverable errors and delays, against a fake information_schema whose sizes change only on ANALYZE TABLE of the right table; the log is checked against exact counters (one client) or happens-before bounds (several clients); non-trivial: a limit stopped a client; distinct by stage text and counters at the stop",
		Assumptions: []string{"table sizes in information_schema are refreshed by ANALYZE TABLE only, as with MySQL 8 defaults", "a size limit may be exceeded by five checks per client (it is documented as checked periodically)"},
		Floor:       100,
		Parts: []kit.Part{
			{Name: "rows", Quick: 3000, Thorough: 60000, Par: 4, Run: rowsCase},
			{Name: "size", Quick: 1500, Thorough: 30000, Par: 4, Run: sizeCase},
		},
	})
}

type lStmt struct {
	mark  string
	sql   string // as MySQL receives it
	limit int    // remaining rows; 0: none
	prep  bool
	per   int // most rows affected
}

func rowsCase(t *kit.T) {
	r := t.R
	nt := r.Int(1, 2)
	type lTrx struct {
		name string
		seq  []*lStmt
	}
	st := &kit.Stage{Name: "s", Stats: map[string]interface{}{"disable": "true"}, Params: map[string]string{"rows": "1k", "few": "30"}}
	var trxs []*lTrx
	perOf := map[string]int{}
	zero := r.P(0.3)  // some statements affect fewer rows
	anyLimit := false // at least one limit in each trx, so that every client stops
	for i := 0; i < nt; i++ {
		tx := &lTrx{name: fmt.Sprintf("t%d.sql", i)}
		tf := kit.TrxFile{File: tx.name}
		n := r.Int(1, 4)
		lim := r.IntN(n)
		for j := 0; j < n; j++ {
			mark := fmt.Sprintf("L%d.%d", i, j)
			s := &lStmt{mark: mark, per: 1, prep: r.P(0.35)}
			var mods []string
			if s.prep {
				mods = append(mods, "prepare")
			}
			raw := ""
			copies := 1
			limited := j == lim || r.P(0.2)
			if limited || r.P(0.5) {
				if r.P(0.5) {
					s.per = kit.Pick(r, 2, 5, 10)
					raw = fmt.Sprintf("INSERT INTO t /*%s*/ VALUES /*!csv %d (1,'x')*/", mark, s.per)
					var rows []string
					for k := 0; k < s.per; k++ {
						rows = append(rows, "(1,'x')")
					}
					s.sql = fmt.Sprintf("INSERT INTO t /*%s*/ VALUES %s", mark, strings.Join(rows, ", "))
				} else {
					raw = kit.Pick(r, "INSERT INTO t VALUES (1)", "UPDATE t SET a=1", "REPLACE INTO t VALUES (2)", "DELETE FROM t LIMIT 1", "LOAD DATA x") + " /*" + mark + "*/"
					s.sql = raw
				}
				if limited {
					anyLimit = true
					max, off := r.Int(1, 60), 0
					txt := fmt.Sprint(max)
					switch r.IntN(6) {
					case 0:
						max, txt = 30, kit.Pick(r, "$params.few", "${params.few}")
					case 1:
						if s.per == 10 && nt == 1 {
							max, txt = 1000, kit.Pick(r, "1k", "1,000", "$params.rows", "1KB")
						}
					case 2, 3:
						off = r.Int(0, max+2)
						txt += fmt.Sprintf(" %d", off)
					}
					s.limit = max - off
					if s.limit <= 0 {
						s.limit = -1 // nothing left
					}
					mods = append(mods, kit.Pick(r, "rows: ", "rows ")+txt)
				}
				if r.P(0.15) {
					copies = r.Int(2, 3)
					mods = append(mods, fmt.Sprintf("copies: %d", copies))
				}
			} else {
				raw = kit.Pick(r, "SELECT 1", "BEGIN", "COMMIT", "SET x=1") + " /*" + mark + "*/"
				s.sql = raw
			}
			kit.Shuffle(r, mods)
			tf.Stmts = append(tf.Stmts, kit.Stmt{SQL: raw, Mods: mods})
			for c := 0; c < copies; c++ { // every copy is its own statement with its own limit
				cp := *s
				tx.seq = append(tx.seq, &cp)
			}
			perOf[mark] = s.per
		}
		st.Trx = append(st.Trx, tf)
		trxs = append(trxs, tx)
	}
	_ = anyLimit
	// client groups of one execution group share the limits of the statements they share
	single := r.P(0.5)
	type lCG struct {
		db      string
		clients int
		iter    int
		seq     []*lStmt
	}
	var cgs []*lCG
	nCG := 1
	if !single {
		nCG = r.Int(1, 2)
	}
	total := 0
	for i := 0; i < nCG; i++ {
		c := &lCG{db: fmt.Sprintf("d%d", i), clients: 1}
		if !single {
			c.clients = r.Int(1, 5)
		}
		total += c.clients
		var names []string
		if r.P(0.5) {
			for _, tx := range trxs {
				names = append(names, tx.name)
				c.seq = append(c.seq, tx.seq...)
			}
		} else {
			tx := kit.Pick(r, trxs...)
			names = append(names, tx.name)
			c.seq = append(c.seq, tx.seq...)
		}
		if r.P(0.15) {
			c.iter = r.Int(1, 20)
		}
		st.Workload = append(st.Workload, kit.CG{Db: c.db, Clients: fmt.Sprint(c.clients), Iter: s0(c.iter), Trx: names, Group: "g"})
		cgs = append(cgs, c)
	}
	aseed := r.Uint64()
	j := jitter(r.Uint64(), 0.2, time.Millisecond)
	faults := kit.Pick(r, 0, 0, 0.05)
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" || strings.HasPrefix(ev.SQL, "USE ") || ev.SQL == "ROLLBACK" {
			return fm.Reply{}
		}
		rr := kit.NewRand(aseed, fmt.Sprint(ev.Seq))
		rep := okReply(ev)
		if m := reLMark.FindStringSubmatch(ev.SQL); m != nil && len(rep.Cols) == 0 {
			rep.Affected = uint64(perOf[m[1]])
			if zero && rr.P(0.4) {
				rep.Affected = uint64(rr.Int(0, perOf[m[1]]))
			}
			if rr.P(faults) {
				return fm.Reply{ErrCode: kit.Pick(rr, uint16(1213), uint16(1062)), ErrMsg: "x"}
			}
		}
		rep.Delay = j(ev)
		return rep
	}
	sc := (&kit.Scenario{Handler: h}).Add(st)
	res := t.RunOK(sc, "rows")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("rows:exit", fmt.Sprintf("finch failed (exit %d): %s", res.Exit, kit.Tail(res.Out, 500)), det)
		return
	}
	ss := sessions(res.Events)
	if len(ss) > total {
		t.Fail("rows:sessions", fmt.Sprintf("%d sessions, expected %d", len(ss), total), det)
		return
	}
	// all executions of each limited statement, over all clients
	type exec struct {
		ev   fm.Event
		next int64 // Seq of the next event on the same connection (the reply was processed before)
	}
	by := map[*lStmt][]exec{}
	type at struct {
		cg   *lCG
		s    *session
		st   *lStmt // statement before which the client stopped
		last int64  // Seq of the first event after the last statement
		done int64  // Done of the last statement
		n    int
	}
	var stops []at
	var checks []struct {
		st   *lStmt
		prev int64 // Done of the previous event on the connection
		ev   fm.Event
		conn int
	}
	count := map[string]int{}
	for _, s := range ss {
		var cg *lCG
		for _, c := range cgs {
			if c.db == s.db {
				cg = c
			}
		}
		if cg == nil {
			t.Fail("rows:session", fmt.Sprintf("connection %d has database %q", s.conn, s.db), det)
			return
		}
		count[cg.db]++
		i, iters := 0, 0
		nextOf := func(seq int64) int64 {
			for _, e := range s.all {
				if e.Seq > seq {
					return e.Seq
				}
			}
			return 1 << 60
		}
		var lastDone int64
		for _, e := range s.all {
			if e.Kind == "connect" || e.Kind == "prepare" || e.Kind == "query" && strings.HasPrefix(e.SQL, "USE ") {
				lastDone = e.Done
			}
		}
		lastDone = 0
		for _, e := range s.stmts {
			st := cg.seq[i]
			if e.SQL != st.sql || st.prep != (e.Kind == "execute") {
				t.Fail("rows:sequence", fmt.Sprintf("connection %d: expected %q (prepared %v), received %s %q", s.conn, st.sql, st.prep, e.Kind, e.SQL), det)
				return
			}
			if st.limit != 0 {
				by[st] = append(by[st], exec{e, nextOf(e.Seq)})
				checks = append(checks, struct {
					st   *lStmt
					prev int64
					ev   fm.Event
					conn int
				}{st, lastDone, e, s.conn})
			}
			lastDone = e.Done
			if e.Reply.ErrCode != 0 {
				i = 0
				iters++
				continue
			}
			i++
			if i == len(cg.seq) {
				i = 0
				iters++
			}
		}
		a := at{cg: cg, s: s, st: cg.seq[i], n: len(s.stmts), done: lastDone}
		if len(s.stmts) > 0 {
			a.last = nextOf(s.stmts[len(s.stmts)-1].Seq)
		}
		if i == 0 && cg.iter > 0 && iters == cg.iter {
			continue // stopped by the iteration limit
		}
		if cg.iter > 0 && iters > cg.iter {
			t.Fail("rows:iter", fmt.Sprintf("connection %d: %d iterations, limit %d", s.conn, iters, cg.iter), det)
			return
		}
		stops = append(stops, a)
	}
	for _, c := range cgs {
		if count[c.db] != c.clients {
			t.Fail("rows:clients", fmt.Sprintf("%d clients of %s ran, expected %d", count[c.db], c.db, c.clients), det)
			return
		}
	}
	sum := func(st *lStmt, pred func(x exec) bool) int {
		n := 0
		for _, x := range by[st] {
			if x.ev.Reply.ErrCode == 0 && pred(x) {
				n += int(x.ev.Reply.Affected)
			}
		}
		return n
	}
	stopped := 0
	var sig strings.Builder
	for _, a := range stops {
		if a.st.limit == 0 {
			t.Fail("rows:stop", fmt.Sprintf("connection %d stopped before %q, which has no limit, after %d statements", a.s.conn, a.st.sql, a.n), det)
			return
		}
		stopped++
		// the counter can be no more than what MySQL had replied when the client went away
		left := a.last
		if left == 0 {
			left = 1 << 60
		}
		n := sum(a.st, func(x exec) bool { return x.ev.Done < left })
		if a.st.limit > 0 && n < a.st.limit {
			t.Fail("rows:early", fmt.Sprintf("connection %d stopped before %q although only %d of %d rows were affected", a.s.conn, a.st.sql, n, a.st.limit), det)
			return
		}
		fmt.Fprintf(&sig, "%s=%d,", a.st.mark, n)
	}
	for _, c := range checks {
		// rows whose count certainly happened before this client checked the limit:
		// the client that got the reply sent its next request before this client got its previous reply
		n := sum(c.st, func(x exec) bool {
			if x.ev.Conn == c.conn {
				return x.ev.Done <= c.prev
			}
			return x.next <= c.prev
		})
		if c.st.limit < 0 || n >= c.st.limit {
			t.Fail("rows:late", fmt.Sprintf("connection %d executed %q (event %d) although %d rows were affected before, limit %d", c.conn, c.ev.SQL, c.ev.Seq, n, max(c.st.limit, 0)), det)
			return
		}
	}
	for st := range by {
		n := sum(st, func(exec) bool { return true })
		if st.limit > 0 && n >= st.limit+total*st.per {
			t.Fail("rows:overshoot", fmt.Sprintf("%q affected %d rows, limit %d with %d clients of %d rows", st.sql, n, st.limit, total, st.per), det)
			return
		}
	}
	t.Count("clients_stopped_by_limit", stopped)
	t.Count("limit_checks", len(checks))
	t.Eval(st.YAML()+sc.Files["t0.sql"]+sig.String(), stopped > 0)
	t.Distinct("stops", sig.String())
	t.Sample(map[string]interface{}{"files": sc.Files, "stops": sig.String()})
}

var reLMark = regexp.MustCompile(`/\*([LZ][\d.]+)\*/`)

// ---- size limits -------------------------------------------------------------

type fakeTable struct {
	db, name string
	view     bool
	bytes    uint64 // true size
	stat     uint64 // as information_schema shows it
	idx      int    // tenths of it that are indexes
}

type fakeIS struct {
	mu    sync.Mutex
	tabs  []*fakeTable
	conn  map[int]string // database of each connection
	seen  map[*fakeTable][]fm.Event
	bad   string
	nAnal int
	nSize int
	nVal  int
}

func (f *fakeIS) find(db, name string) *fakeTable {
	for _, x := range f.tabs {
		if x.db == db && x.name == name {
			return x
		}
	}
	return nil
}

var reSchema = regexp.MustCompile("(?i)table_schema\\s*=\\s*['\"]([^'\"]*)['\"]")
var reTabName = regexp.MustCompile("(?i)table_name\\s*=\\s*['\"]([^'\"]*)['\"]")
var reFrom = regexp.MustCompile("(?i)^SHOW\\s+FULL\\s+TABLES(?:\\s+(?:FROM|IN)\\s+`?([\\w-]+)`?)?")

// handle answers the queries of size limits; ok is false for other statements.
func (f *fakeIS) handle(ev *fm.Event) (rep fm.Reply, ok bool) {
	u := strings.ToUpper(ev.SQL)
	switch {
	case strings.HasPrefix(u, "USE "):
		f.conn[ev.Conn] = strings.Trim(ev.SQL[4:], "` ")
		return fm.Reply{}, true
	case strings.HasPrefix(u, "SELECT DATABASE()"):
		var v interface{}
		if d := f.conn[ev.Conn]; d != "" {
			v = d
		}
		return fm.Reply{Cols: []fm.Col{{Name: "d", Type: fm.TStr}}, Rows: [][]interface{}{{v}}}, true
	case reFrom.MatchString(ev.SQL):
		db := reFrom.FindStringSubmatch(ev.SQL)[1]
		if db == "" {
			db = f.conn[ev.Conn]
		}
		rep := fm.Reply{Cols: []fm.Col{{Name: "t", Type: fm.TStr}, {Name: "Table_type", Type: fm.TStr}}}
		for _, x := range f.tabs {
			if x.db == db {
				ty := "BASE TABLE"
				if x.view {
					ty = "VIEW"
				}
				rep.Rows = append(rep.Rows, []interface{}{x.name, ty})
			}
		}
		return rep, true
	case strings.HasPrefix(u, "ANALYZE "):
		f.nAnal++
		list := strings.TrimSpace(ev.SQL[strings.Index(u, "TABLE")+5:])
		rep := fm.Reply{Cols: []fm.Col{{Name: "Table", Type: fm.TStr}, {Name: "Op", Type: fm.TStr}, {Name: "Msg_type", Type: fm.TStr}, {Name: "Msg_text", Type: fm.TStr}}}
		if list == "" {
			return fm.Reply{ErrCode: 1064, ErrMsg: "You have an error in your SQL syntax near ''"}, true
		}
		for _, n := range strings.Split(list, ",") {
			n = strings.ReplaceAll(strings.TrimSpace(n), "`", "")
			db := f.conn[ev.Conn]
			if i := strings.IndexByte(n, '.'); i >= 0 {
				db, n = n[:i], n[i+1:]
			}
			if db == "" {
				return fm.Reply{ErrCode: 1046, ErrMsg: "No database selected"}, true
			}
			if x := f.find(db, n); x != nil {
				if !x.view {
					x.stat = x.bytes
				}
				rep.Rows = append(rep.Rows, []interface{}{db + "." + n, "analyze", "status", "OK"})
			} else {
				rep.Rows = append(rep.Rows, []interface{}{db + "." + n, "analyze", "Error", "Table doesn't exist"})
			}
		}
		return rep, true
	case strings.Contains(u, "INFORMATION_SCHEMA"):
		f.nSize++
		var db, name string
		if m := reSchema.FindStringSubmatch(ev.SQL); m != nil {
			db = m[1]
		}
		if m := reTabName.FindStringSubmatch(ev.SQL); m != nil {
			name = m[1]
		}
		rep := fm.Reply{Cols: []fm.Col{{Name: "bytes", Type: fm.TDecimal}}}
		var rows []sqlRow
		for _, x := range f.tabs {
			if db != "" && x.db != db || name != "" && x.name != name {
				continue
			}
			if x.view {
				rows = append(rows, sqlRow{"data_length": nil, "index_length": nil, "data_free": nil, "table_rows": nil})
				continue
			}
			idx := int64(x.stat) / 10 * int64(x.idx)
			data, n := int64(x.stat)-idx, int64(x.stat)/20
			free := int64(4 << 20)
			rows = append(rows, sqlRow{"data_length": &data, "index_length": &idx, "data_free": &free, "table_rows": &n})
		}
		vals, ok := evalSelect(ev.SQL, rows)
		if !ok {
			// not understood: answer the size of all tables
			var sum int64
			for _, r := range rows {
				if d := r["data_length"]; d != nil {
					sum += *d + *r["index_length"]
				}
			}
			vals = []*int64{&sum}
		} else {
			f.nVal += len(vals)
		}
		for _, v := range vals {
			rep.Rows = append(rep.Rows, []interface{}{sqlVal(v)})
		}
		return rep, true
	}
	return fm.Reply{}, false
}

func sizeCase(t *kit.T) {
	r := t.R
	f := &fakeIS{conn: map[int]string{}, seen: map[*fakeTable][]fm.Event{}}
	home := kit.Pick(r, "app", "bench", "d-1", "appDB")
	other := "other"
	add := func(db, name string, view bool, bytes uint64) *fakeTable {
		x := &fakeTable{db: db, name: name, view: view, bytes: bytes, stat: bytes, idx: r.IntN(10)}
		f.tabs = append(f.tabs, x)
		return x
	}
	// tables: the target, neighbours (base tables and views) and decoys of the same name
	target := kit.Pick(r, "t", "t", "Tab_1")
	var others []*fakeTable
	n := r.Int(0, 3)
	for i := 0; i < n; i++ {
		others = append(others, add(home, kit.Pick(r, "a", "z")+fmt.Sprint(i), false, uint64(r.Int(0, 3000))))
	}
	if r.P(0.5) {
		add(home, "aview", true, 0)
	}
	tgt := add(home, target, false, uint64(r.Int(0, 1000)))
	if r.P(0.3) {
		add(home, "zview", true, 0)
	}
	if r.P(0.6) {
		add(other, target, false, kit.Pick(r, uint64(0), uint64(1)<<50))
		add(other, "big", false, uint64(1)<<51)
	}
	kit.Shuffle(r, f.tabs)
	dbLimit := r.P(0.5)
	qualified := r.P(0.4)
	defaultDb := home
	if (dbLimit || qualified) && r.P(0.5) {
		defaultDb = kit.Pick(r, other, "")
	}
	ref := target
	if defaultDb != home {
		ref = "`" + home + "`." + target
		if !strings.Contains(home, "-") {
			ref = home + "." + target
		}
	}
	initial := tgt.bytes
	if dbLimit {
		for _, x := range others {
			initial += x.bytes
		}
	}
	step := uint64(r.Int(50, 5000))
	need := r.Int(1, 40)
	limit := initial + step*uint64(need)
	txt := fmt.Sprint(limit)
	switch r.IntN(4) {
	case 0: // human readable
		limit = (limit/1000 + 1) * 1000
		txt = fmt.Sprintf("%dkB", limit/1000)
	case 1:
		limit = (limit/1024 + 1) * 1024
		txt = fmt.Sprintf("%dKiB", limit/1024)
	case 2:
		txt = "$params.size"
	}
	if r.P(0.1) { // already larger
		limit, txt = initial/2+1, fmt.Sprint(initial/2+1)
	}
	mod := "table-size: " + target + " " + txt
	if qualified && !dbLimit {
		mod = "table-size: " + home + "." + target + " " + txt
	}
	if dbLimit {
		mod = "database-size: " + home + " " + txt
	}
	var mods []string
	prep := r.P(0.3)
	if prep {
		mods = append(mods, "prepare")
	}
	mods = append(mods, mod)
	rows := 0
	if r.P(0.3) { // combined: whichever limit is reached first
		rows = r.Int(1, 60)
		mods = append(mods, fmt.Sprintf("rows: %d", rows))
	}
	kit.Shuffle(r, mods)
	ins := "INSERT INTO " + ref + " /*Z1*/ VALUES (1)"
	tf := kit.TrxFile{File: "t.sql", Stmts: []kit.Stmt{{SQL: ins, Mods: mods}}}
	if r.P(0.3) {
		tf.Stmts = append([]kit.Stmt{{SQL: "BEGIN"}}, append(tf.Stmts, kit.Stmt{SQL: "COMMIT"})...)
	}
	clients := kit.Pick(r, 1, 1, 2, 4)
	st := &kit.Stage{Name: "s", Stats: map[string]interface{}{"disable": "true"}, Trx: []kit.TrxFile{tf},
		Params:   map[string]string{"size": fmt.Sprint(limit)},
		Workload: []kit.CG{{Clients: fmt.Sprint(clients), Db: defaultDb, Trx: []string{"t.sql"}}}}
	aseed := r.Uint64()
	inserts := 0
	type sample struct {
		seq   int64
		total uint64
	}
	var hist []sample // size of what is limited after each insert
	j := jitter(r.Uint64(), 0.1, time.Millisecond)
	runaway := false
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" {
			return fm.Reply{}
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		if rep, ok := f.handle(ev); ok {
			return rep
		}
		rep := okReply(ev)
		if strings.Contains(ev.SQL, "/*Z1*/") {
			inserts++
			rr := kit.NewRand(aseed, fmt.Sprint(ev.Seq))
			tgt.bytes += step/2 + uint64(rr.Int64N(int64(step)))
			tot := tgt.bytes
			if dbLimit {
				for _, x := range others {
					tot += x.bytes
				}
			}
			hist = append(hist, sample{ev.Seq, tot})
			if inserts > 2000 { // the limit does not work; do not run forever
				runaway = true
				return fm.Reply{ErrCode: 1062, ErrMsg: "x", Delay: time.Second}
			}
		}
		rep.Delay = j(ev)
		return rep
	}
	sc := (&kit.Scenario{Handler: h, Timeout: 60 * time.Second, During: func(p *kit.Proc) {
		for {
			select {
			case <-p.Done:
				return
			case <-time.After(50 * time.Millisecond):
			}
			f.mu.Lock()
			x := runaway
			f.mu.Unlock()
			if x {
				p.Cmd.Process.Kill()
				return
			}
		}
	}}).Add(st)
	res := t.RunOK(sc, "size")
	if res == nil {
		return
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	det := kit.Detail(sc, res)
	if runaway {
		t.Fail("size:runaway", fmt.Sprintf("%d rows inserted and still running: %s, limit %d bytes, reached %d bytes", inserts, mod, limit, hist[len(hist)-1].total), det)
		return
	}
	if res.Exit != 0 {
		t.Fail("size:exit", fmt.Sprintf("finch failed (exit %d): %s", res.Exit, kit.Tail(res.Out, 500)), det)
		return
	}
	// reached is the number of inserts when the size or row limit was reached
	size := initial
	if len(hist) > 0 {
		size = hist[len(hist)-1].total
	}
	byRows := rows > 0 && inserts >= rows
	if size < limit && !byRows {
		t.Fail("size:early", fmt.Sprintf("stopped after %d inserts at %d bytes, before the limit of %d bytes (%s): %s", inserts, size, limit, mod, kit.Tail(res.Out, 600)), det)
		return
	}
	reached := -1
	if initial >= limit {
		reached = 0
	}
	for i := range hist {
		if reached < 0 && hist[i].total >= limit {
			reached = i + 1
		}
	}
	over := 0
	if reached >= 0 {
		over = inserts - reached
		if over > 6*clients {
			t.Fail("size:late", fmt.Sprintf("%d inserts after %d bytes were reached (%s, %d clients): %d bytes", over, limit, mod, clients, size), det)
			return
		}
	}
	if rows > 0 && inserts >= rows+clients {
		t.Fail("size:rows", fmt.Sprintf("%d rows inserted, limit %d with %d clients", inserts, rows, clients), det)
		return
	}
	t.Count("size_checks", f.nSize)
	t.Count("size_expressions_evaluated", f.nVal)
	t.Count("inserts", inserts)
	t.Eval(fmt.Sprint(sc.Files, inserts), true)
	t.Distinct("overshoot", fmt.Sprint(over))
	t.Sample(map[string]interface{}{"files": sc.Files, "limit": limit, "inserts": inserts, "size": size})
}
