package props

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C10",
		Rule:        "random stages of several clients whose trx files save columns of multi-row result sets and insert ids (integers, decimals, doubles, strings, NULL, dates; text and prepared) and use them in later text, prepared and CSV statements of the same trx or, with iter scope, of later trx, under random delays, recoverable errors and reconnects; every use is compared with the last row (insert id) that the server's log shows for the latest execution of the saving statement in that session; non-trivial: at least one saved value used; distinct by stage text and value sequence",
		Assumptions: []string{"result sets have at least one row (an empty result set has no documented value)"},
		Floor:       100,
		Parts:       []kit.Part{{Name: "columns", Quick: 5000, Thorough: 100000, Par: 4, Run: columnsCase}},
	})
}

type cKey struct {
	name  string
	cfg   int // 0 not in the stage file, 1 column without params, 2 quote-value no, 3 yes
	scope string
	prod  *cStmt
	col   int // -1: insert id
}

// quoted is 0 no, 1 yes, 2 either
func (k *cKey) quoted() int { return []int{0, 2, 0, 1}[k.cfg] }

type cStmt struct {
	mark    string
	raw     string
	mods    []string
	pieces  []cPiece
	prepare bool
	// producer
	types []byte
	keys  []*cKey // per column; nil = _
	insID *cKey
}

type cPiece struct {
	lit string
	key *cKey
}

var reCMark = regexp.MustCompile(`/\*(P\d+)\*/`)

func columnsCase(t *kit.T) {
	r := t.R
	nkeys := 0
	names := []string{"a", "a1", "ab", "a_b", "a-b", "id", "id_1", "id_100", "X", "d9", "q", "qq", "k", "k0", "last_id", "s", "s_s", "s1"}
	kit.Shuffle(r, names)
	prods := map[string]*cStmt{}
	np := 0
	mkKey := func(scope string) *cKey {
		if nkeys >= len(names) {
			return nil
		}
		k := &cKey{name: names[nkeys], cfg: kit.Pick(r, 0, 1, 2, 2, 3), scope: scope}
		if scope != "" && k.cfg == 0 {
			k.cfg = 2
		}
		nkeys++
		return k
	}
	type cTrx struct {
		file string
		st   []*cStmt
		keys map[string]*cKey
	}
	mkProducer := func(scope string) *cStmt {
		np++
		s := &cStmt{mark: fmt.Sprintf("P%d", np), prepare: r.P(0.4)}
		if s.prepare {
			s.mods = append(s.mods, "prepare")
		}
		if r.P(0.4) {
			k := mkKey(scope)
			if k == nil {
				return nil
			}
			k.prod, k.col = s, -1
			s.insID = k
			s.mods = append(s.mods, "save-insert-id: @"+k.name)
			s.raw = kit.Pick(r, "INSERT INTO t VALUES (1)", "REPLACE INTO t SET a=1", "INSERT INTO t\nVALUES (2)") + " /*" + s.mark + "*/"
		} else {
			n := r.Int(1, 4)
			cols := []string{}
			any := false
			for i := 0; i < n; i++ {
				s.types = append(s.types, kit.Pick(r, fm.TInt, fm.TInt, fm.TStr, fm.TStr, fm.TDouble, fm.TDatetime, fm.TDate, fm.TTimestamp, fm.TDecimal))
				var k *cKey
				if r.P(0.7) || (i == n-1 && !any) {
					k = mkKey(scope)
				}
				s.keys = append(s.keys, k)
				if k != nil {
					k.prod, k.col, any = s, i, true
					cols = append(cols, "@"+k.name)
				} else {
					cols = append(cols, "_")
				}
			}
			if !any {
				return nil
			}
			s.mods = append(s.mods, kit.Pick(r, "save-columns: ", "save-columns ")+strings.Join(cols, kit.Pick(r, ", ", ",  ")))
			s.raw = "SELECT c FROM t /*" + s.mark + "*/"
		}
		s.pieces = []cPiece{{lit: strings.ReplaceAll(s.raw, "\n", " ")}}
		prods[s.mark] = s
		return s
	}
	nc := 0
	mkConsumer := func(keys []*cKey, all bool) *cStmt {
		nc++
		s := &cStmt{prepare: r.P(0.35)}
		if s.prepare {
			s.mods = append(s.mods, "prepare")
		}
		lit := func(x string) { s.raw += x; s.pieces = append(s.pieces, cPiece{lit: x}) }
		ref := func(k *cKey) { s.raw += "@" + k.name; s.pieces = append(s.pieces, cPiece{key: k}) }
		verb := kit.Pick(r, "SELECT c FROM t WHERE", "UPDATE t SET b=1 WHERE", "DELETE FROM t WHERE", "CALL p")
		lit(fmt.Sprintf("%s /*C%d*/ ", verb, nc))
		ks := keys
		if !all {
			ks = nil
			for i := r.Int(1, 4); i > 0; i-- {
				ks = append(ks, kit.Pick(r, keys...))
			}
		}
		for i, k := range ks {
			lit(fmt.Sprintf("c%d=", i))
			ref(k)
			lit(kit.Pick(r, " AND ", ",", " ", "%", "  "))
		}
		lit("1")
		return s
	}
	mkCSV := func(keys []*cKey) *cStmt {
		nc++
		s := &cStmt{prepare: r.P(0.35)}
		if s.prepare {
			s.mods = append(s.mods, "prepare")
		}
		head := fmt.Sprintf("INSERT INTO t /*C%d*/ VALUES ", nc)
		n := r.Int(1, 3)
		var row []cPiece
		rowRaw := ""
		add := func(p cPiece) {
			row = append(row, p)
			if p.key != nil {
				rowRaw += "@" + p.key.name
			} else {
				rowRaw += p.lit
			}
		}
		add(cPiece{lit: "("})
		for i := r.Int(1, 3); i > 0; i-- {
			add(cPiece{key: kit.Pick(r, keys...)})
			add(cPiece{lit: ", "})
		}
		add(cPiece{lit: "7)"})
		s.raw = head + fmt.Sprintf("/*!csv %d %s*/", n, rowRaw)
		s.pieces = append(s.pieces, cPiece{lit: head})
		for i := 0; i < n; i++ {
			if i > 0 {
				s.pieces = append(s.pieces, cPiece{lit: ", "})
			}
			s.pieces = append(s.pieces, row...)
		}
		return s
	}

	nTrx := r.Int(1, 3)
	var trxs []*cTrx
	var iterKeys []*cKey // keys with iter scope of earlier trx
	for i := 0; i < nTrx; i++ {
		tx := &cTrx{file: fmt.Sprintf("t%d.sql", i), keys: map[string]*cKey{}}
		var mine, unused []*cKey
		scope := ""
		if r.P(0.35) {
			scope = kit.Pick(r, "trx", "iter", "iter")
		}
		for n := r.Int(2, 6); n > 0; n-- {
			var s *cStmt
			switch {
			case len(mine) == 0 || r.P(0.3):
				s = mkProducer(scope)
				if s == nil {
					continue
				}
				if s.insID != nil {
					mine, unused = append(mine, s.insID), append(unused, s.insID)
				}
				for _, k := range s.keys {
					if k != nil {
						mine, unused = append(mine, k), append(unused, k)
					}
				}
			case r.P(0.2):
				ok := []*cKey{}
				for _, k := range mine {
					if k.cfg != 0 { // a CSV needs the key in the stage file
						ok = append(ok, k)
					}
				}
				if len(ok) == 0 {
					continue
				}
				s = mkCSV(ok)
			default:
				s = mkConsumer(append(append([]*cKey{}, mine...), iterKeys...), false)
				if r.P(0.15) {
					s.mods = append(s.mods, "copies: 2")
					tx.st = append(tx.st, s)
				}
			}
			tx.st = append(tx.st, s)
		}
		for _, s := range tx.st {
			for _, p := range s.pieces {
				for j, k := range unused {
					if k == p.key {
						unused = append(unused[:j], unused[j+1:]...)
						break
					}
				}
			}
		}
		if len(unused) > 0 { // every saved column must be referenced
			tx.st = append(tx.st, mkConsumer(unused, true))
		}
		if len(tx.st) == 0 {
			s := mkProducer("")
			if s == nil {
				return
			}
			var ks []*cKey
			for _, k := range append(s.keys, s.insID) {
				if k != nil {
					ks = append(ks, k)
				}
			}
			tx.st = append(tx.st, s, mkConsumer(ks, true))
			mine = ks
		}
		for _, k := range mine {
			tx.keys[k.name] = k
			if k.scope == "iter" {
				iterKeys = append(iterKeys, k)
			}
		}
		trxs = append(trxs, tx)
	}
	st := &kit.Stage{Name: "s", Stats: map[string]interface{}{"disable": "true"}}
	for _, tx := range trxs {
		tf := kit.TrxFile{File: tx.file}
		var prev *cStmt
		for _, s := range tx.st {
			if s == prev {
				continue // copy
			}
			prev = s
			tf.Stmts = append(tf.Stmts, kit.Stmt{SQL: s.raw, Mods: s.mods})
		}
		var ns []string
		for n := range tx.keys {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			k := tx.keys[n]
			if k.cfg == 0 {
				continue
			}
			d := kit.DataKey{Name: n, Generator: "column", Scope: k.scope}
			switch k.cfg {
			case 2:
				d.Params = map[string]string{"quote-value": kit.Pick(r, "no", "false")}
			case 3:
				d.Params = map[string]string{"quote-value": kit.Pick(r, "yes", "true", "on")}
			}
			tf.Data = append(tf.Data, d)
		}
		st.Trx = append(st.Trx, tf)
	}
	// every client executes all trx once per iteration, in order
	type grp struct {
		db            string
		clients, iter int
	}
	var groups []grp
	for i := r.Int(1, 2); i > 0; i-- {
		g := grp{fmt.Sprintf("g%d", i), r.Int(1, 4), r.Int(1, 5)}
		groups = append(groups, g)
		st.Workload = append(st.Workload, kit.CG{Clients: fmt.Sprint(g.clients), Iter: fmt.Sprint(g.iter), Db: g.db})
	}
	var seq []*cStmt
	for _, tx := range trxs {
		seq = append(seq, tx.st...)
	}

	// replies
	vseed := r.Uint64()
	j := jitter(r.Uint64(), 0.3, 2*time.Millisecond)
	faultP := kit.Pick(r, 0, 0, 0.05, 0.15)
	budget := int64(30)
	var mu sync.Mutex
	h := func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" || strings.HasPrefix(ev.SQL, "USE ") || ev.SQL == "ROLLBACK" {
			return fm.Reply{}
		}
		rr := kit.NewRand(vseed, fmt.Sprint(ev.Seq))
		rep := okReply(ev)
		if m := reCMark.FindStringSubmatch(ev.SQL); m != nil {
			p := prods[m[1]]
			if p.insID != nil {
				rep = fm.Reply{Affected: 1, InsertID: uint64(kit.Pick(rr, ev.Seq, ev.Seq+100000, ev.Seq<<33, 0))}
			} else {
				rep = fm.Reply{}
				for _, ty := range p.types {
					rep.Cols = append(rep.Cols, fm.Col{Name: "c", Type: ty})
				}
				for n := kit.Pick(rr, 1, 1, 2, 3, 5); n > 0; n-- {
					var row []interface{}
					for _, ty := range p.types {
						row = append(row, randColVal(rr, ty, ev.Seq))
					}
					rep.Rows = append(rep.Rows, row)
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		rep.Delay = j(ev)
		if budget > 0 && rr.P(faultP) {
			budget--
			switch rr.IntN(4) {
			case 0:
				return fm.Reply{ErrCode: 1213, ErrMsg: "deadlock"}
			case 1:
				return fm.Reply{ErrCode: 1205, ErrMsg: "lock wait"}
			case 2:
				if len(rep.Rows) > 0 {
					rep.RowsErr = 1317
					return rep
				}
				return fm.Reply{ErrCode: 1317, ErrMsg: "interrupted"}
			case 3:
				if budget%5 == 0 {
					return fm.Reply{Drop: true}
				}
			}
		}
		return rep
	}
	sc := (&kit.Scenario{Handler: h}).Add(st)
	res := t.RunOK(sc, "columns")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("columns:exit", fmt.Sprintf("finch failed (exit %d) on a valid stage: %s", res.Exit, kit.Tail(res.Out, 500)), det)
		return
	}
	used := 0
	iters := 0
	var sig strings.Builder
	for _, s := range sessions(res.Events) {
		cur := map[*cStmt]fm.Reply{}
		i := 0
		for _, e := range s.stmts {
			if e.SQL == "ROLLBACK" {
				continue
			}
			st := seq[i]
			if i == 0 {
				cur = map[*cStmt]fm.Reply{}
				iters++
			}
			if st.prepare != (e.Kind == "execute") {
				t.Fail("columns:sequence", fmt.Sprintf("connection %d: expected statement %q (prepared=%v), received %s %q", s.conn, st.raw, st.prepare, e.Kind, e.SQL), det)
				return
			}
			n, msg := st.match(&e, cur)
			if msg != "" {
				t.Fail("columns:value", fmt.Sprintf("connection %d event %d: %s", s.conn, e.Seq, msg), det)
				return
			}
			used += n
			fmt.Fprintf(&sig, "%d.%d,", s.conn, i)
			if e.Reply.ErrCode != 0 || e.Reply.RowsErr != 0 {
				i = 0
				continue
			}
			if e.Reply.Drop {
				break
			}
			if st.types != nil || st.insID != nil {
				cur[st] = e.Reply
			}
			i = (i + 1) % len(seq)
		}
	}
	want := 0
	for _, g := range groups {
		want += g.clients * g.iter
	}
	if iters != want {
		t.Fail("columns:iterations", fmt.Sprintf("%d iterations executed, expected %d", iters, want), det)
	}
	t.Count("saved_values_used", used)
	t.Eval(sc.Files["stage.yaml"]+sig.String(), used > 0)
	t.Distinct("interleavings", interleaving(res.Events))
	t.Sample(map[string]interface{}{"files": sc.Files, "values_used": used})
}

func randColVal(r *kit.Rand, ty byte, seq int64) interface{} {
	if r.P(0.12) {
		return nil
	}
	switch ty {
	case fm.TInt:
		return kit.Pick(r, seq, -seq, int64(0), seq<<35, int64(9223372036854775807), int64(-9223372036854775808))
	case fm.TDouble:
		return kit.Pick(r, float64(seq)+0.5, -float64(seq)/3, 0.0, 1e-9*float64(seq), 1e18*float64(seq))
	case fm.TDecimal:
		return fmt.Sprintf("%d.%06d", seq, r.IntN(1000000))
	case fm.TDate:
		return fmt.Sprintf("20%02d-%02d-%02d", r.IntN(40), r.Int(1, 12), r.Int(1, 28))
	case fm.TDatetime, fm.TTimestamp:
		s := fmt.Sprintf("20%02d-%02d-%02d %02d:%02d:%02d", r.IntN(40), r.Int(1, 12), r.Int(1, 28), r.IntN(24), r.IntN(60), r.IntN(60))
		if r.P(0.3) {
			s += fmt.Sprintf(".%06d", r.IntN(1000000))
		}
		return s
	}
	return kit.Pick(r, fmt.Sprintf("v%d", seq), fmt.Sprintf("%d", seq), "", fmt.Sprintf("a%%d %d%%", seq), fmt.Sprintf("ü@a %d @id", seq),
		strings.Repeat("x", r.Int(1, 700))+fmt.Sprint(seq), fmt.Sprintf("x?%d", seq), fmt.Sprintf("$params.a %d", seq))
}

// match compares a received statement with the saved values; it returns the
// number of values used.
func (s *cStmt) match(e *fm.Event, cur map[*cStmt]fm.Reply) (int, string) {
	var keys []*cKey
	sql := ""
	for _, p := range s.pieces {
		if p.key != nil {
			keys = append(keys, p.key)
			sql += "?"
		} else {
			sql += p.lit
		}
	}
	val := func(k *cKey) (interface{}, byte, string) {
		rep, ok := cur[k.prod]
		if !ok {
			return nil, 0, "harness: @" + k.name + " used before it is saved"
		}
		if k.col < 0 {
			return int64(rep.InsertID), fm.TInt, ""
		}
		return rep.Rows[len(rep.Rows)-1][k.col], k.prod.types[k.col], ""
	}
	if s.prepare {
		if e.SQL != sql {
			return 0, fmt.Sprintf("expected prepared statement %q, received %q", sql, e.SQL)
		}
		if len(e.Args) != len(keys) {
			return 0, fmt.Sprintf("%d parameters, expected %d in %q", len(e.Args), len(keys), e.SQL)
		}
		for i, k := range keys {
			v, ty, msg := val(k)
			if msg != "" {
				return 0, msg
			}
			if !sameVal(e.Args[i], v, ty) {
				return 0, fmt.Sprintf("@%s (parameter %d of %q) is %v (%T) but the last row saved %v", k.name, i+1, e.SQL, e.Args[i], e.Args[i], v)
			}
		}
		return len(keys), ""
	}
	// text: literal parts exact, values in canonical or equivalent form
	var alts [][]string
	for _, p := range s.pieces {
		if p.key == nil {
			alts = append(alts, []string{p.lit})
			continue
		}
		v, ty, msg := val(p.key)
		if msg != "" {
			return 0, msg
		}
		alts = append(alts, textForms(v, ty, p.key.quoted()))
	}
	if !matchAlts(e.SQL, alts) {
		return 0, fmt.Sprintf("received %q, expected one of the forms %q (from %q)", e.SQL, alts, s.raw)
	}
	return len(keys), ""
}

func matchAlts(s string, alts [][]string) bool {
	if len(alts) == 0 {
		return s == ""
	}
	for _, a := range alts[0] {
		if a == "\x00float" { // any number equal to the next alternative
			continue
		}
		if strings.HasPrefix(s, a) && matchAlts(s[len(a):], alts[1:]) {
			return true
		}
	}
	return false
}

func textForms(v interface{}, ty byte, quoted int) []string {
	var forms []string
	switch x := v.(type) {
	case nil:
		if quoted == 0 {
			return []string{"NULL"}
		}
		return []string{"NULL", "'NULL'", "''"}
	case float64:
		forms = []string{fmt.Sprint(x), strconv.FormatFloat(x, 'f', -1, 64), strconv.FormatFloat(x, 'e', -1, 64), strconv.FormatFloat(x, 'g', -1, 64), strconv.FormatFloat(x, 'E', -1, 64)}
	default:
		s := fmt.Sprint(x)
		forms = []string{s}
		switch ty {
		case fm.TDate:
			forms = append(forms, s+" 00:00:00", s+" 00:00:00.000000")
		case fm.TDatetime, fm.TTimestamp:
			if strings.Contains(s, ".") {
				forms = append(forms, strings.TrimRight(strings.TrimRight(s, "0"), "."))
			} else {
				forms = append(forms, s+".000000")
			}
		}
	}
	var out []string
	if quoted != 1 {
		out = append(out, forms...)
	}
	if quoted != 0 {
		for _, f := range forms {
			out = append(out, "'"+f+"'", `"`+f+`"`)
		}
	}
	return out
}

func sameVal(got, want interface{}, ty byte) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	if f, ok := want.(float64); ok {
		g, err := strconv.ParseFloat(fmt.Sprint(got), 64)
		return err == nil && g == f
	}
	for _, f := range textForms(want, ty, 0) {
		if fmt.Sprint(got) == f {
			return true
		}
	}
	return false
}
