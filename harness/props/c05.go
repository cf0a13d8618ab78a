package props

import (
	"fmt"
	"regexp"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C05",
		Level:       "exploration",
		Rule:        "random single-client groups whose statements are answered with injected MySQL errors (every documented code plus others), dropped connections, errors in the middle of a result set, refused reconnects, connections lost while default database and prepared statements are set up, and failing ROLLBACK, at random execution points, and connections that take about as long as a client waits for one; in parallel groups, the clients that do not fail must finish, and the next execution group must wait for them; the concatenated session log of each client is checked against the documented recovery automaton; non-trivial: at least one fault was injected; distinct by (fault code, fault point, statement kind, position in trx) sequence",
		Assumptions: []string{"one client per client group, identified by the group's default database", "single-statement and multi-statement trx files alike count as 'in a trx' for ROLLBACK"},
		Floor:       100,
		Parts:       []kit.Part{{Name: "faults", Quick: 3000, Thorough: 40000, Par: 24, Run: c05}, {Name: "slow-connect", Quick: 600, Thorough: 6000, Par: 64, Run: slowConnect}, {Name: "siblings", Quick: 1500, Thorough: 20000, Par: 3, Run: c05siblings}},
	})
}

// fault is one injected failure at the nth statement of a client.
type fault struct {
	code   uint16 // 0 with drop
	drop   bool
	rows   bool // SELECT: the error comes after the first row
	rbFail bool // the ROLLBACK that follows (if any) fails
	reject int  // connection attempts refused afterwards
	used   bool
}

var contCodes = []uint16{1062, 1205, 1213, 1290, 1317, 1836}
var rollbackCodes = map[uint16]bool{1205: true, 1290: true, 1836: true}
var otherCodes = []uint16{1046, 1064, 1146, 1054, 1105, 1366, 1406, 3024, 1180, 1292, 1451, 4031}
var ddlFatal = []uint16{1050, 1051, 1054, 1060, 1091, 1105}

func isCont(c uint16) bool {
	for _, x := range contCodes {
		if x == c {
			return true
		}
	}
	return false
}

func c05(t *kit.T) {
	r := t.R
	m := genWork(r, workOpts{maxStmts: 5, maxIter: 5, single: true, ddl: r.P(0.2)})
	// plan: client group db -> statement number (0-based, over the client's life) -> fault
	plan := map[string]map[int]*fault{}
	for _, cg := range m.cgs {
		plan[cg.db] = map[int]*fault{}
		k := r.Int(0, 4)
		for i := 0; i < k; i++ {
			n := r.IntN(max(1, len(cg.seq)*cg.iter))
			f := &fault{}
			switch r.IntN(8) {
			case 0, 1, 2:
				f.code = kit.Pick(r, contCodes...)
			case 3:
				f.drop = true
			case 4:
				f.code = 1062
			default:
				f.code = kit.Pick(r, otherCodes...)
			}
			f.rbFail = r.P(0.08)
			if r.P(0.3) {
				f.reject = r.Int(1, 2)
			}
			f.rows = !f.drop && r.P(0.3)
			plan[cg.db][n] = f
		}
	}
	var mu sync.Mutex
	connDB := map[int]string{}
	count := map[string]int{}
	pendingRB := map[int]bool{}
	rejects := 0
	injected := map[int64]*fault{} // event seq -> fault
	setup := map[int]bool{}        // n-th USE or prepare of the run is lost
	nSetup, lostSetup := 0, 0
	if r.P(0.35) {
		for i, n := 0, r.Int(1, 5); i < n; i++ {
			setup[r.IntN(4*len(m.cgs)+4)] = true
		}
	}
	inst := jitter(r.Uint64(), 0.1, time.Millisecond)
	isDDL := func(sql string) bool {
		w := strings.ToUpper(strings.Fields(sql)[0])
		return w == "ALTER" || w == "CREATE" || w == "DROP" || w == "RENAME" || w == "TRUNCATE"
	}
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		mu.Lock()
		defer mu.Unlock()
		use := ev.Kind == "query" && strings.HasPrefix(ev.SQL, "USE ")
		if use || ev.Kind == "prepare" {
			nSetup++
			if setup[nSetup-1] {
				lostSetup++
				return fm.Reply{Drop: true}
			}
		}
		if use {
			connDB[ev.Conn] = strings.Trim(strings.TrimPrefix(ev.SQL, "USE "), "` ")
			return fm.Reply{}
		}
		if ev.Kind != "query" && ev.Kind != "execute" {
			return fm.Reply{}
		}
		if ev.SQL == "ROLLBACK" {
			if pendingRB[ev.Conn] {
				pendingRB[ev.Conn] = false
				return fm.Reply{ErrCode: 1105, ErrMsg: injMsg(ev.Seq)}
			}
			return fm.Reply{}
		}
		db := connDB[ev.Conn]
		n := count[db]
		count[db]++
		rep := okReply(ev)
		rep.Delay = inst(ev)
		f := plan[db][n]
		if f == nil {
			return rep
		}
		if isDDL(ev.SQL) {
			// only codes whose treatment on DDL is unambiguous
			if !f.drop && !isCont(f.code) {
				f.code = ddlFatal[n%len(ddlFatal)]
			}
		}
		f.used = true
		injected[ev.Seq] = f
		rejects += f.reject
		pendingRB[ev.Conn] = f.rbFail
		if f.drop {
			return fm.Reply{Drop: true}
		}
		if f.rows && isSelect(ev.SQL) {
			rep.RowsErr, rep.ErrMsg = f.code, injMsg(ev.Seq)
			return rep
		}
		return fm.Reply{ErrCode: f.code, ErrMsg: injMsg(ev.Seq)}
	}
	tested := false
	reject := func(n int) int {
		mu.Lock()
		defer mu.Unlock()
		if !tested { // the connection test
			tested = true
			return 0
		}
		if rejects > 0 {
			rejects--
			return 1 + n%2
		}
		return 0
	}
	sc := (&kit.Scenario{Handler: h, Reject: reject}).Add(m.st)
	res := t.RunOK(sc, "faults")
	if res == nil {
		return
	}
	// one client per group: its life is the sessions of its database in order
	byDB := map[string][]*session{}
	for _, s := range sessions(res.Events) {
		byDB[s.db] = append(byDB[s.db], s)
	}
	key := ""
	bad := ""
	for _, cg := range m.cgs {
		if bad == "" {
			bad = c05client(t, cg, byDB[cg.db], injected, isDDL, &key, res.Out)
		}
	}
	if bad == "" && res.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", res.Exit)
	}
	if bad != "" {
		d := kit.Detail(sc, res)
		d["model"] = describe(m)["model"]
		t.Fail("faults:recovery", bad, d)
		return
	}
	t.Count("faults_injected", len(injected)+lostSetup)
	t.Count("connections_lost_in_setup", lostSetup)
	t.Eval(key, len(injected) > 0)
	t.Sample(map[string]interface{}{"stage": m.st.YAML(), "fault_sequence": key})
}

// injMsg marks the error message of one event.
func injMsg(seq int64) string { return fmt.Sprintf("injected-%d-error", seq) }

var reMark = regexp.MustCompile(`/\*\S+\*/`)

// reported is empty if the error of event e, which ended a connection or a
// client, is in the output with its code and its statement.
func reported(t *kit.T, out string, e fm.Event, code uint16, sql string) string {
	msg := injMsg(e.Seq)
	for _, line := range strings.Split(out, "\n") {
		if !strings.Contains(line, msg) {
			continue
		}
		t.Count("errors_reported", 1)
		if !strings.Contains(line, fmt.Sprint(code)) {
			return fmt.Sprintf("error %d on %q is reported without its code: %s", code, sql, line)
		}
		// the statement may be left out, but no other one may be named
		mark := reMark.FindString(sql)
		for _, m := range reMark.FindAllString(line, -1) {
			if m != mark {
				return fmt.Sprintf("error %d on %q is reported with another statement: %s", code, sql, line)
			}
		}
		return ""
	}
	return fmt.Sprintf("error %d on %q ended a connection or a client, but the error (%q) is nowhere in the output", code, sql, msg)
}

// c05client checks the life of one client against the recovery automaton.
func c05client(t *kit.T, cg *mCG, ss []*session, injected map[int64]*fault, isDDL func(string) bool, key *string, out string) string {
	// flatten into (session index, event)
	type step struct {
		si int
		e  fm.Event
	}
	var steps []step
	for i, s := range ss {
		for _, e := range s.stmts {
			steps = append(steps, step{i, e})
		}
	}
	preps := 0
	for _, m := range cg.seq {
		if m.prepare && !m.copied {
			preps++
		}
	}
	for _, s := range ss {
		if len(s.stmts) > 0 && len(s.preps) != preps {
			return fmt.Sprintf("client of %s: %d statements prepared in connection %d, expected %d (copies share one prepared statement)", cg.db, len(s.preps), s.conn, preps)
		}
	}
	pos := 0
	iter := 0
	stmt := 0
	sess := -1
	needNew := true // next statement must be on a session newer than sess
	started := false
	for {
		// start of an iteration
		if stmt == 0 {
			if iter == cg.iter {
				break
			}
			iter++
		}
		if pos >= len(steps) {
			return fmt.Sprintf("client of %s stopped after %d statements, in iteration %d of %d at statement %d: nothing told it to stop", cg.db, len(steps), iter, cg.iter, stmt+1)
		}
		st := steps[pos]
		want := cg.seq[stmt]
		if st.e.SQL != want.sql {
			return fmt.Sprintf("client of %s: statement %d of its life: expected %q (iteration %d), server received %q on connection %d", cg.db, pos+1, want.sql, iter, st.e.SQL, st.e.Conn)
		}
		if want.prepare != (st.e.Kind == "execute") {
			return fmt.Sprintf("client of %s: %q received as %s, prepared=%v", cg.db, want.sql, st.e.Kind, want.prepare)
		}
		if st.e.Reply.ErrCode == 1243 {
			return fmt.Sprintf("client of %s executed a statement that is not prepared in its session", cg.db)
		}
		if needNew {
			if st.si <= sess {
				return fmt.Sprintf("client of %s: after a reconnect error it kept using connection %d", cg.db, st.e.Conn)
			}
			if started {
				// the old session must be over before the new one starts executing
				old := ss[sess]
				lastOld := old.all[len(old.all)-1]
				if lastOld.Kind != "quit" && lastOld.Kind != "disconnect" {
					return fmt.Sprintf("client of %s: connection %d is still open after its client reconnected", cg.db, old.conn)
				}
			}
			sess = st.si
			needNew = false
		} else if st.si != sess {
			return fmt.Sprintf("client of %s changed connection (%d) although no error asked for a reconnect", cg.db, st.e.Conn)
		}
		started = true
		pos++
		f := injected[st.e.Seq]
		if f == nil {
			stmt = (stmt + 1) % len(cg.seq)
			continue
		}
		where := fmt.Sprintf("%d", f.code)
		if f.drop {
			where = "drop"
		}
		kind := strings.Fields(st.e.SQL)[0]
		*key += fmt.Sprintf("%s/%s/%d/%d/%v;", where, kind, stmt, len(cg.seq), f.rbFail)
		t.Distinct("fault_points", fmt.Sprintf("%s %s first=%v last=%v prep=%v rows=%v", where, kind, stmt == 0, stmt == len(cg.seq)-1, want.prepare, f.rows))
		stmt = 0
		if isDDL(st.e.SQL) && (f.drop || !isCont(f.code)) {
			if pos < len(steps) {
				return fmt.Sprintf("client of %s kept executing after error %s on DDL %q", cg.db, where, st.e.SQL)
			}
			if !f.drop {
				return reported(t, out, st.e, f.code, st.e.SQL)
			}
			return ""
		}
		if !f.drop && isCont(f.code) {
			if rollbackCodes[f.code] {
				if pos >= len(steps) || steps[pos].e.SQL != "ROLLBACK" || steps[pos].si != sess {
					return fmt.Sprintf("client of %s: no ROLLBACK after error %d on %q", cg.db, f.code, st.e.SQL)
				}
				failed := steps[pos].e.Reply.ErrCode != 0
				pos++
				if failed {
					if pos < len(steps) {
						return fmt.Sprintf("client of %s kept executing after its ROLLBACK failed", cg.db)
					}
					return reported(t, out, steps[pos-1].e, 1105, st.e.SQL)
				}
			}
			continue
		}
		if !f.drop {
			if bad := reported(t, out, st.e, f.code, st.e.SQL); bad != "" {
				return "client of " + cg.db + ": " + bad
			}
		}
		needNew = true
	}
	if pos < len(steps) {
		return fmt.Sprintf("client of %s executed %q after its %d iterations", cg.db, steps[pos].e.SQL, cg.iter)
	}
	return ""
}

// slowConnect: connections take about as long as a client waits for one
// (500 ms), so that some time out at the last moment, or are refused or lost
// while being set up. No client loses an iteration by this.
func slowConnect(t *kit.T) {
	r := t.R
	m := genWork(r, workOpts{maxStmts: 3, maxIter: 3, single: true})
	seed := r.Uint64()
	var mu sync.Mutex
	nConn := 0
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "connect" {
			return okReply(ev)
		}
		mu.Lock()
		nConn++
		n := nConn
		mu.Unlock()
		if n == 1 { // connection test
			return fm.Reply{}
		}
		q := kit.NewRand(seed, fmt.Sprint(ev.Conn))
		if !q.P(0.6) {
			return fm.Reply{}
		}
		return fm.Reply{Delay: 496*time.Millisecond + time.Duration(q.IntN(5000))*time.Microsecond}
	}
	sc := (&kit.Scenario{Handler: h}).Add(m.st)
	res := t.RunOK(sc, "slow-connect")
	if res == nil {
		return
	}
	byDB := map[string][]*session{}
	for _, s := range sessions(res.Events) {
		byDB[s.db] = append(byDB[s.db], s)
	}
	key, bad := "", ""
	for _, cg := range m.cgs {
		if bad == "" {
			bad = c05client(t, cg, byDB[cg.db], nil, func(string) bool { return false }, &key, "")
		}
	}
	if bad == "" && res.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", res.Exit)
	}
	if bad != "" {
		d := kit.Detail(sc, res)
		d["model"] = describe(m)["model"]
		t.Fail("slow-connect:lost", bad, d)
		return
	}
	used := len(sessions(res.Events))
	t.Count("slow_connections", nConn-1)
	t.Count("connections_used", used)
	t.Eval(fmt.Sprint(seed), nConn-1 > used)
}

// c05siblings: a client that stops because of an error (its ROLLBACK fails, or
// DDL fails) stops alone: the other clients of its client group and execution
// group finish their iterations, and the next execution group waits for them.
func c05siblings(t *kit.T) {
	r := t.R
	m := genWork(r, workOpts{maxStmts: 3, maxIter: 4, ddl: r.P(0.2)})
	type plan struct {
		n    int // fail at the n-th statement sent with this database
		code uint16
	}
	plans := map[string][]plan{}
	for i, k := 0, r.Int(1, 3); i < k; i++ {
		cg := m.cgs[r.IntN(len(m.cgs))]
		p := plan{n: r.IntN(max(1, cg.clients*len(cg.seq)*max(1, cg.iter))), code: kit.Pick(r, uint16(1205), 1290, 1836)}
		plans[cg.db] = append(plans[cg.db], p)
	}
	var mu sync.Mutex
	connDB := map[int]string{}
	count := map[string]int{}
	fail := map[int]bool{}    // connection: its ROLLBACK fails
	stopped := map[int]bool{} // connections of clients that must have stopped
	inst := jitter(r.Uint64(), 0.4, 3*time.Millisecond)
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		mu.Lock()
		defer mu.Unlock()
		if ev.Kind == "query" && strings.HasPrefix(ev.SQL, "USE ") {
			connDB[ev.Conn] = strings.Trim(strings.TrimPrefix(ev.SQL, "USE "), "` ")
			return fm.Reply{}
		}
		if ev.Kind != "query" && ev.Kind != "execute" {
			return fm.Reply{}
		}
		if ev.SQL == "ROLLBACK" {
			if fail[ev.Conn] {
				return fm.Reply{ErrCode: 1105, ErrMsg: injMsg(ev.Seq)}
			}
			return fm.Reply{}
		}
		db := connDB[ev.Conn]
		n := count[db]
		count[db]++
		rep := okReply(ev)
		rep.Delay = inst(ev)
		for _, p := range plans[db] {
			if p.n == n {
				stopped[ev.Conn] = true
				w := strings.ToUpper(strings.Fields(ev.SQL)[0])
				switch w {
				case "ALTER", "CREATE", "DROP", "RENAME", "TRUNCATE":
					return fm.Reply{ErrCode: 1105, ErrMsg: injMsg(ev.Seq)}
				}
				fail[ev.Conn] = true
				return fm.Reply{ErrCode: p.code, ErrMsg: injMsg(ev.Seq)}
			}
		}
		return rep
	}
	sc := (&kit.Scenario{Handler: h, Timeout: 100 * time.Second}).Add(m.st)
	res := t.RunOK(sc, "siblings")
	if res == nil {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	groups := map[*mCG][]*session{}
	all := sessions(res.Events)
	for _, cg := range m.cgs {
		for _, s := range all {
			if s.db == cg.db {
				groups[cg] = append(groups[cg], s)
			}
		}
	}
	bad := ""
	run := 0
	for _, cg := range m.cgs {
		n := 0
		for _, s := range groups[cg] {
			if len(s.stmts) == 0 {
				continue
			}
			n++
			for i, e := range s.stmts {
				if e.SQL == "ROLLBACK" && fail[s.conn] && i == len(s.stmts)-1 {
					continue
				}
				if bad == "" && e.SQL != cg.seq[i%len(cg.seq)].sql {
					bad = fmt.Sprintf("client group %s connection %d: statement %d is %q, expected %q", cg.db, s.conn, i+1, e.SQL, cg.seq[i%len(cg.seq)].sql)
				}
			}
			if stopped[s.conn] {
				continue
			}
			run++
			if want := cg.iter * len(cg.seq); bad == "" && len(s.stmts) != want {
				bad = fmt.Sprintf("client group %s connection %d: %d statements executed, expected %d (%d iterations): it was cut short by the error of another client", cg.db, s.conn, len(s.stmts), want, cg.iter)
			}
		}
		if bad == "" && n != cg.clients {
			bad = fmt.Sprintf("client group %s: %d clients executed, %d configured", cg.db, n, cg.clients)
		}
	}
	if bad == "" {
		_, bad = checkGroups(m, groups, 0)
	}
	if bad == "" && res.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", res.Exit)
	}
	if bad != "" {
		d := kit.Detail(sc, res)
		d["model"] = describe(m)["model"]
		d["stopped connections"] = fmt.Sprint(stopped)
		t.Fail("siblings:cut", bad, d)
		return
	}
	t.Count("clients_stopped_by_error", len(stopped))
	t.Count("clients_that_went_on", run)
	t.Eval(m.st.YAML()+interleaving(res.Events), len(stopped) > 0 && run > 0)
}
