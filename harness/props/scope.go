package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C06",
		Rule:        "random stages whose statements use auto-inc and xid data keys with value, row (CSV), statement, trx, iter and client scope, implicit and explicit calls, in prepared and plain statements, repeated trx and copies, with injected recoverable errors and reconnects; every value MySQL receives is compared with a model of the documented scope; non-trivial: a scope iteration with two or more uses; distinct by stage text and fault sequence",
		Assumptions: []string{"auto-inc values are start+step*n for call n of one generator, which makes the number of calls of each generator instance visible"},
		Floor:       100,
		Parts:       []kit.Part{{Name: "single", Quick: 2500, Thorough: 60000, Par: 4, Run: func(t *kit.T) { scopeCase(t, "single") }}},
	})
	kit.Register(&kit.Check{
		ID:          "C07",
		Rule:        "random stages with several clients, client groups and execution groups sharing auto-inc and xid data keys with client-group, exec-group and workload scope under random reply delays; generated values of each shared instance must be exactly 1..K without duplicates, one per client iteration (plus explicit calls), monotonic in real time; non-trivial: an instance used by two or more clients; distinct by stage text and observed value order",
		Assumptions: []string{"client identity is the MySQL connection (no reconnects in this check)"},
		Floor:       100,
		Parts:       []kit.Part{{Name: "multi", Quick: 2500, Thorough: 60000, Par: 4, Run: func(t *kit.T) { scopeCase(t, "multi") }}},
	})
	kit.Register(&kit.Check{
		ID:          "C08",
		Rule:        "random command lines of one to three stages using auto-inc and xid data keys with stage and global scope, implicit and explicit calls, several clients and groups; implicit uses all see the one value generated (or the latest explicit call), explicit calls number 1..K without duplicates, global keys keep their value across stages and stage keys start anew; non-trivial: two or more uses; distinct by stage text and observed value order",
		Assumptions: []string{"client identity is the MySQL connection (no reconnects in this check)"},
		Floor:       100,
		Parts:       []kit.Part{{Name: "onetime", Quick: 2500, Thorough: 60000, Par: 4, Run: func(t *kit.T) { scopeCase(t, "onetime") }}},
	})
}

type dKey struct {
	name, gen, scope string // scope as written ("" = default)
	start, step      int
	csv              bool // only used in CSV substitutions
}

func (k *dKey) eff() string {
	if k.scope != "" {
		return k.scope
	}
	if k.csv {
		return "row"
	}
	return "statement"
}

type dPiece struct {
	lit      string
	key      *dKey
	explicit bool
}

type dStmt struct {
	pieces  []dPiece // in the order MySQL receives them
	raw     string   // as written in the trx file
	mods    []string
	prepare bool
	sel     bool
	rowLit  string
	kind    string
}

type dTrx struct {
	file, name string
	stmts      []*dStmt // copies expanded
	written    []*dStmt
	keys       map[string]*dKey
}

type dCG struct {
	stage, eg, cg int
	db            string
	clients, iter int
	trx           []*dTrx
	seq           []*dStmt
	pos           []int // trx position of each statement in seq
	runlevel      string
}

type dRun struct {
	stages []*kit.Stage
	cgs    []*dCG
	keys   []*dKey
}

func genDStmt(r *kit.Rand, mark string, keys, csvKeys []*dKey) *dStmt {
	s := &dStmt{}
	lit := func(x string) {
		s.raw += x
		if n := len(s.pieces); n > 0 && s.pieces[n-1].key == nil {
			s.pieces[n-1].lit += x
			return
		}
		s.pieces = append(s.pieces, dPiece{lit: x})
	}
	ref := func(k *dKey, ex bool) {
		s.raw += "@" + k.name
		if ex {
			s.raw += "()"
		}
		s.pieces = append(s.pieces, dPiece{key: k, explicit: ex})
	}
	if len(csvKeys) > 0 && r.P(0.4) {
		n := r.Int(1, 4)
		lit("INSERT INTO t /*" + mark + "*/ VALUES ")
		head := s.pieces
		rawHead := s.raw
		s.pieces, s.raw = nil, ""
		lit("(")
		cols := r.Int(1, 4)
		if r.P(0.2) {
			cols = r.Int(5, 9)
		}
		for c := 0; c < cols; c++ {
			if c > 0 {
				lit(kit.Pick(r, ", ", ","))
			}
			switch {
			case r.P(0.15):
				lit(kit.Pick(r, "NULL", "'x'", "7"))
			case r.P(0.2) && len(keys) > 0:
				// a default-scope key used inside and outside CSV is ambiguous
				if k := kit.Pick(r, keys...); k.scope != "" {
					ref(k, r.P(0.3))
				} else {
					lit("8")
				}
			default:
				ref(kit.Pick(r, csvKeys...), r.P(0.2))
			}
		}
		lit(")")
		row, rawRow := s.pieces, s.raw
		// documented: the first occurrence in the row of a row-scoped key is an explicit call
		seen := map[*dKey]bool{}
		for i := range row {
			k := row[i].key
			if k == nil || k.eff() != "row" {
				continue
			}
			if !seen[k] {
				row[i].explicit = true
			}
			seen[k] = true
		}
		s.pieces, s.raw = head, rawHead
		for i := 0; i < n; i++ {
			if i > 0 {
				lit(", ")
			}
			for _, p := range row {
				if p.key == nil {
					lit(p.lit)
				} else {
					s.pieces = append(s.pieces, p)
				}
			}
		}
		s.raw = rawHead + fmt.Sprintf("/*!csv %d %s*/", n, rawRow)
		if r.P(0.3) {
			lit(" ON DUPLICATE KEY UPDATE a=1 /*z*/")
		}
	} else {
		verb := kit.Pick(r, "SELECT c FROM t WHERE", "UPDATE t SET", "DELETE FROM t WHERE", "REPLACE INTO t SET", "CALL p /**/")
		s.sel = strings.HasPrefix(verb, "SELECT")
		lit(verb + " /*" + mark + "*/ ")
		n := r.Int(0, 4)
		if len(keys) == 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			lit(fmt.Sprintf("c%d=", i))
			ref(kit.Pick(r, keys...), r.P(0.25))
			lit(kit.Pick(r, ",", " ", " AND ", "\n", "%"))
		}
		lit("1")
	}
	if r.P(0.35) {
		s.prepare = true
		s.mods = append(s.mods, "prepare")
	}
	// several lines become one, joined by a blank
	for i := range s.pieces {
		s.pieces[i].lit = strings.ReplaceAll(s.pieces[i].lit, "\n", " ")
	}
	return s
}

func genDRun(r *kit.Rand, class string) *dRun {
	d := &dRun{}
	names := []string{"a", "a1", "ab", "a_b", "a-b", "id", "id_1", "id_100", "X", "d9", "aa", "b2"}
	kit.Shuffle(r, names)
	var scopes []string
	switch class {
	case "single":
		scopes = []string{"value", "", "statement", "trx", "iter", "client"}
	case "multi":
		scopes = []string{"client-group", "exec-group", "workload"}
	case "onetime":
		scopes = []string{"stage", "global"}
	}
	mk := func(scope string, csv bool) *dKey {
		k := &dKey{name: names[len(d.keys)], gen: "auto-inc", scope: scope, step: 1, csv: csv}
		if r.P(0.3) {
			k.start, k.step = r.Int(0, 1000), r.Int(1, 7)
		}
		if r.P(0.2) {
			k.gen = "xid"
		}
		d.keys = append(d.keys, k)
		return k
	}
	var keys, csvKeys []*dKey
	for i := r.Int(1, 4); i > 0; i-- {
		keys = append(keys, mk(kit.Pick(r, scopes...), false))
	}
	if class != "single" && r.P(0.2) {
		keys = append(keys, mk("iter", false))
	}
	if r.P(0.4) {
		for i := kit.Pick(r, 1, 2, 2, 6); i > 0; i-- {
			sc := kit.Pick(r, "", "row")
			if class != "single" && r.P(0.6) {
				sc = kit.Pick(r, scopes...)
			}
			csvKeys = append(csvKeys, mk(sc, true))
		}
	}
	nStages := 1
	if class == "onetime" {
		nStages = kit.Pick(r, 1, 1, 2, 2, 3)
	} else if r.P(0.1) {
		nStages = 2
	}
	for sn := 0; sn < nStages; sn++ {
		st := &kit.Stage{File: fmt.Sprintf("s%d.yaml", sn), Name: fmt.Sprintf("s%d", sn), Stats: map[string]interface{}{"disable": "true"}}
		var trxs []*dTrx
		for tn := r.Int(1, 3); tn > 0; tn-- {
			tx := &dTrx{file: fmt.Sprintf("s%dt%d.sql", sn, tn), keys: map[string]*dKey{}}
			tx.name = tx.file
			for n := r.Int(1, 4); n > 0; n-- {
				s := genDStmt(r, fmt.Sprintf("%d.%d.%d", sn, tn, n), keys, csvKeys)
				copies := 1
				if r.P(0.12) {
					copies = r.Int(2, 3)
					s.mods = append(s.mods, fmt.Sprintf("copies: %d", copies))
				}
				tx.written = append(tx.written, s)
				for i := 0; i < copies; i++ {
					tx.stmts = append(tx.stmts, s)
				}
				for _, p := range s.pieces {
					if p.key != nil {
						tx.keys[p.key.name] = p.key
					}
				}
			}
			tf := kit.TrxFile{File: tx.file}
			for _, s := range tx.written {
				tf.Stmts = append(tf.Stmts, kit.Stmt{SQL: s.raw, Mods: s.mods})
			}
			ks := []string{}
			for k := range tx.keys {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, n := range ks {
				k := tx.keys[n]
				dk := kit.DataKey{Name: k.name, Generator: k.gen, Scope: k.scope}
				if k.gen == "auto-inc" && (k.start != 0 || k.step != 1) {
					dk.Params = map[string]string{"start": fmt.Sprint(k.start), "step": fmt.Sprint(k.step)}
				}
				tf.Data = append(tf.Data, dk)
			}
			st.Trx = append(st.Trx, tf)
			trxs = append(trxs, tx)
		}
		nEG := r.Int(1, 2)
		id := 0
		for eg := 0; eg < nEG; eg++ {
			for cg := 0; cg < r.Int(1, 2); cg++ {
				c := &dCG{stage: sn, eg: eg, cg: id, db: fmt.Sprintf("s%dcg%d", sn, id), clients: r.Int(1, 3), iter: r.Int(1, 5)}
				id++
				if class == "single" && r.P(0.6) {
					c.clients = 1
				}
				for k := r.Int(1, 3); k > 0; k-- {
					tx := kit.Pick(r, trxs...)
					for range tx.stmts {
						c.pos = append(c.pos, len(c.trx))
					}
					c.trx = append(c.trx, tx)
					c.seq = append(c.seq, tx.stmts...)
				}
				w := kit.CG{Clients: fmt.Sprint(c.clients), Iter: fmt.Sprint(c.iter), Db: c.db, Group: fmt.Sprintf("g%d", eg)}
				for _, tx := range c.trx {
					w.Trx = append(w.Trx, tx.name)
				}
				st.Workload = append(st.Workload, w)
				d.cgs = append(d.cgs, c)
			}
		}
		d.stages = append(d.stages, st)
	}
	return d
}

// extract returns the data values of a received statement, in order.
func (s *dStmt) extract(e *fm.Event) ([]string, string) {
	var vals []string
	if s.prepare {
		if e.Kind != "execute" {
			return nil, "statement with -- prepare was not executed as a prepared statement: " + e.SQL
		}
		want := ""
		for _, p := range s.pieces {
			if p.key == nil {
				want += p.lit
			} else {
				want += "?"
			}
		}
		if e.SQL != want {
			return nil, fmt.Sprintf("expected prepared statement %q, received %q", want, e.SQL)
		}
		for _, a := range e.Args {
			vals = append(vals, fmt.Sprint(a))
		}
		n := 0
		for _, p := range s.pieces {
			if p.key != nil {
				n++
			}
		}
		if len(vals) != n {
			return nil, fmt.Sprintf("prepared statement %q executed with %d values, expected %d", e.SQL, len(vals), n)
		}
		return vals, ""
	}
	if e.Kind != "query" {
		return nil, "statement without -- prepare received as " + e.Kind + ": " + e.SQL
	}
	rest := e.SQL
	for i, p := range s.pieces {
		if p.key == nil {
			if !strings.HasPrefix(rest, p.lit) {
				return nil, fmt.Sprintf("expected %q at %q in %q (as written: %q)", p.lit, rest, e.SQL, s.raw)
			}
			rest = rest[len(p.lit):]
			continue
		}
		_ = i
		q := p.key.gen == "xid"
		if q {
			if !strings.HasPrefix(rest, "'") {
				return nil, fmt.Sprintf("value of @%s is not quoted in %q", p.key.name, e.SQL)
			}
			rest = rest[1:]
		}
		j := 0
		for j < len(rest) && (rest[j] >= '0' && rest[j] <= '9' || q && rest[j] >= 'a' && rest[j] <= 'v') {
			j++
		}
		if j == 0 {
			return nil, fmt.Sprintf("no value for @%s at %q in %q (as written: %q)", p.key.name, rest, e.SQL, s.raw)
		}
		vals = append(vals, rest[:j])
		rest = rest[j:]
		if q {
			if !strings.HasPrefix(rest, "'") {
				return nil, fmt.Sprintf("value of @%s is not quoted in %q", p.key.name, e.SQL)
			}
			rest = rest[1:]
		}
	}
	if rest != "" {
		return nil, fmt.Sprintf("unexpected %q at the end of %q", rest, e.SQL)
	}
	return vals, ""
}

type dObs struct {
	client  string
	idx     int
	seq     int64
	prev    int64 // Done of the client's previous statement
	gen     bool  // certainly generated by this use
	val     string
	n       int // auto-inc call number
	context string
}

type dInst struct {
	key  *dKey
	id   string
	obs  []dObs
	n    int
	last int
	val  string
}

func (k *dKey) callNo(v string) int {
	x, err := strconv.Atoi(v)
	if err != nil || (x-k.start)%k.step != 0 {
		return -1
	}
	return (x - k.start) / k.step
}

func scopeCase(t *kit.T, class string) {
	r := t.R
	d := genDRun(r, class)
	// faults for single-client scopes
	type fkey struct {
		db string
		n  int
	}
	faults := map[fkey]uint16{}
	if class == "single" && r.P(0.6) {
		for _, c := range d.cgs {
			for k := r.Int(0, 2); k > 0; k-- {
				n := r.IntN(len(c.seq) * c.iter * c.clients)
				code := kit.Pick(r, uint16(1213), 1317)
				if c.clients == 1 && r.P(0.4) {
					code = kit.Pick(r, uint16(1205), 1290, 1105, 1366)
				}
				faults[fkey{c.db, n}] = code
			}
		}
	}
	var mu sync.Mutex
	connDB := map[int]string{}
	cnt := map[string]int{}
	j := jitter(r.Uint64(), 0.25, 1500*time.Microsecond)
	injected := 0
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		mu.Lock()
		defer mu.Unlock()
		if ev.Kind == "query" && strings.HasPrefix(ev.SQL, "USE ") {
			connDB[ev.Conn] = strings.Trim(strings.TrimPrefix(ev.SQL, "USE "), "` ")
			return fm.Reply{}
		}
		if ev.Kind != "query" && ev.Kind != "execute" {
			return fm.Reply{}
		}
		rep := okReply(ev)
		rep.Delay = j(ev)
		if ev.SQL == "ROLLBACK" {
			return rep
		}
		db := connDB[ev.Conn]
		n := cnt[db]
		cnt[db]++
		if code := faults[fkey{db, n}]; code != 0 {
			injected++
			return fm.Reply{ErrCode: code, ErrMsg: "injected", Delay: rep.Delay}
		}
		return rep
	}
	sc := &kit.Scenario{Handler: h}
	for _, st := range d.stages {
		sc.Add(st)
	}
	res := t.RunOK(sc, "scope")
	if res == nil {
		return
	}
	bad, key, multi, nontrivial := judgeScopes(t, d, res)
	if bad == "" && res.Exit != 0 {
		bad = fmt.Sprintf("exit status %d", res.Exit)
	}
	if bad != "" {
		t.Fail("scope:"+class, bad, kit.Detail(sc, res))
		return
	}
	if class != "single" {
		nontrivial = multi
	}
	t.Count("faults_injected", injected)
	text := ""
	for _, st := range d.stages {
		text += st.YAML()
		for _, tf := range st.Trx {
			text += tf.Text()
		}
	}
	t.Eval(text+key, nontrivial)
	t.Sample(map[string]interface{}{"stage": d.stages[0].YAML(), "trx": d.stages[0].Trx[0].Text(), "events": kit.EventLines(res.Events, 12)})
}

func judgeScopes(t *kit.T, d *dRun, res *kit.Result) (bad, key string, multi, nontrivial bool) {
	byDB := map[string][]*session{}
	for _, s := range sessions(res.Events) {
		byDB[s.db] = append(byDB[s.db], s)
	}
	shared := map[string]*dInst{}
	callVals := map[string]string{} // inst#call -> xid value
	xidSeen := map[string]string{}  // xid value -> inst#call
	var order []string
	for _, cg := range d.cgs {
		ss := byDB[cg.db]
		delete(byDB, cg.db)
		var lives [][]fm.Event
		if cg.clients == 1 {
			var l []fm.Event
			for _, s := range ss {
				l = append(l, s.stmts...)
			}
			lives = [][]fm.Event{l}
		} else {
			for _, s := range ss {
				lives = append(lives, s.stmts)
			}
			if len(lives) != cg.clients {
				return fmt.Sprintf("client group %s: %d clients executed, expected %d", cg.db, len(lives), cg.clients), "", false, false
			}
		}
		for ci, life := range lives {
			client := fmt.Sprintf("%s/%d", cg.db, ci)
			insts := map[string]*dInst{}
			latest := map[string]struct {
				iter int
				val  string
			}{}
			stmtNo, trxNo, iter, conn := 0, 0, 0, 1
			p := 0 // position in seq
			idx := 0
			var prevDone int64
			for li := 0; li < len(life); li++ {
				e := &life[li]
				if e.SQL == "ROLLBACK" {
					prevDone = e.Done
					continue
				}
				if p == 0 {
					iter++
				}
				if p == 0 || cg.pos[p] != cg.pos[p-1] {
					trxNo++
				}
				stmtNo++
				s := cg.seq[p]
				where := fmt.Sprintf("client %s iteration %d statement %d (%q)", client, iter, p+1, s.raw)
				vals, b := s.extract(e)
				if b != "" {
					return where + ": " + b, "", false, false
				}
				vi, occ := 0, 0
				for _, pc := range s.pieces {
					if pc.key == nil {
						continue
					}
					k, v := pc.key, vals[vi]
					vi++
					occ++
					idx++
					ctx := fmt.Sprintf("%s: @%s (%s scope, use %d, explicit=%v, prepared=%v)", where, k.name, k.eff(), occ, pc.explicit, s.prepare)
					t.Distinct("scope_uses", fmt.Sprintf("%s %s expl=%v prep=%v occ=%d", k.eff(), k.gen, pc.explicit, s.prepare, min(occ, 3)))
					t.Count("values_checked", 1)
					cur := 0
					id := ""
					class := 1
					switch k.eff() {
					case "value":
						id = fmt.Sprintf("%s|%d|%d", client, p, occ)
					case "row", "statement":
						id, cur = fmt.Sprintf("%s|%d", client, p), stmtNo
					case "trx":
						id, cur = fmt.Sprintf("%s|%d", client, cg.pos[p]), trxNo
					case "iter":
						id, cur = client, iter
					case "client":
						id, cur = client, conn
					case "client-group":
						id, class = cg.db, 2
					case "exec-group":
						id, class = fmt.Sprintf("s%d.eg%d", cg.stage, cg.eg), 2
					case "workload":
						id, class = fmt.Sprintf("s%d", cg.stage), 2
					case "stage":
						id, class = fmt.Sprintf("s%d", cg.stage), 3
					case "global":
						id, class = "global", 3
					}
					id = "@" + k.name + " of " + k.eff() + " " + id
					if class == 1 {
						in := insts[id]
						if in == nil {
							in = &dInst{key: k, id: id}
							insts[id] = in
						}
						if k.eff() == "value" || pc.explicit || cur > in.last {
							in.n++
							in.last = cur
						} else {
							nontrivial = true
						}
						call := fmt.Sprintf("%s#%d", id, in.n)
						if k.gen == "auto-inc" {
							if want := fmt.Sprint(k.start + k.step*in.n); v != want {
								return fmt.Sprintf("%s: expected %s (call %d of this generator), received %s", ctx, want, in.n, v), "", false, false
							}
						} else {
							if was, ok := callVals[call]; ok && was != v {
								return fmt.Sprintf("%s: expected the value %s already generated in this scope iteration, received %s", ctx, was, v), "", false, false
							}
							if was, ok := xidSeen[v]; ok && was != call {
								return fmt.Sprintf("%s: value %s was already returned for %s: a new value was due", ctx, v, was), "", false, false
							}
							callVals[call] = v
							xidSeen[v] = call
						}
						continue
					}
					in := shared[id]
					if in == nil {
						in = &dInst{key: k, id: id}
						shared[id] = in
					}
					o := dObs{client: client, idx: idx, seq: e.Seq, prev: prevDone, val: v, context: ctx, gen: pc.explicit}
					if k.gen == "auto-inc" {
						if o.n = k.callNo(v); o.n < 1 {
							return fmt.Sprintf("%s: received %s, which the generator (start %d step %d) never returns", ctx, v, k.start, k.step), "", false, false
						}
					}
					if class == 2 {
						l, ok := latest[id]
						if pc.explicit || !ok || l.iter < iter {
							o.gen = true
							l.iter, l.val = iter, v
							latest[id] = l
							in.obs = append(in.obs, o)
						} else if l.val != v {
							return fmt.Sprintf("%s: expected %s, the value of this client iteration, received %s", ctx, l.val, v), "", false, false
						} else {
							nontrivial = true
						}
					} else {
						in.obs = append(in.obs, o)
					}
				}
				prevDone = e.Done
				p++
				if e.Reply.ErrCode != 0 {
					conn++
					p = 0
				}
				if p == len(cg.seq) {
					p = 0
				}
			}
			if p != 0 || iter != cg.iter {
				return fmt.Sprintf("client %s stopped in iteration %d of %d at statement %d", client, iter, cg.iter, p), "", false, false
			}
		}
	}
	for db := range byDB {
		if db != "" {
			return "statements on unexpected database " + db, "", false, false
		}
	}
	ids := []string{}
	for id := range shared {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		in := shared[id]
		b, k, m := in.judge()
		if b != "" {
			return b, "", false, false
		}
		multi = multi || m
		order = append(order, k)
		t.Distinct("shared_value_orders", id+k)
	}
	return "", strings.Join(order, ";"), multi, nontrivial
}

// judge checks the values observed from one shared generator instance.
func (in *dInst) judge() (bad, key string, multi bool) {
	k := in.key
	oneTime := k.eff() == "stage" || k.eff() == "global"
	clients := map[string]bool{}
	genBy := map[string]*dObs{}
	first := ""
	maxN := 0
	for i := range in.obs {
		o := &in.obs[i]
		clients[o.client] = true
		if o.n > maxN {
			maxN = o.n
		}
		if !o.gen {
			continue
		}
		if p := genBy[o.val]; p != nil {
			return fmt.Sprintf("%s: value %s was generated twice:\n %s\n %s", in.id, o.val, p.context, o.context), "", false
		}
		genBy[o.val] = o
	}
	if oneTime {
		for i := range in.obs {
			o := &in.obs[i]
			if o.gen || genBy[o.val] != nil {
				continue
			}
			if first == "" {
				first = o.val
				if k.gen == "auto-inc" && o.n != 1 {
					return fmt.Sprintf("%s: implicit use received %s, which is neither the first value nor one of an explicit call: %s", in.id, o.val, o.context), "", false
				}
			} else if first != o.val {
				return fmt.Sprintf("%s: implicit uses received %s and %s without an explicit call: %s", in.id, first, o.val, o.context), "", false
			}
		}
	}
	total := len(genBy)
	if first != "" {
		total++
	}
	if k.gen == "auto-inc" && maxN != total {
		return fmt.Sprintf("%s: the generator was called %d times for %d scope iterations (last: %s)", in.id, maxN, total, in.obs[len(in.obs)-1].context), "", false
	}
	// real-time order: a use that ended before another was computed saw an older
	// (implicit: not newer) value
	if k.gen == "auto-inc" {
		obs := in.obs
		if len(obs) > 400 {
			obs = obs[:400]
		}
		for i := range obs {
			for j := range obs {
				a, b := &obs[i], &obs[j]
				before := a.client == b.client && a.idx < b.idx || a.client != b.client && a.seq < b.prev
				if !before {
					continue
				}
				if a.n > b.n || a.n == b.n && b.gen {
					return fmt.Sprintf("%s: value %s seen before %s, which was requested later:\n %s\n %s", in.id, a.val, b.val, a.context, b.context), "", false
				}
			}
		}
	}
	var sb strings.Builder
	for _, o := range in.obs {
		fmt.Fprintf(&sb, "%s:%d,", o.client, o.n)
	}
	return "", sb.String(), len(clients) > 1
}
