package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:    "C11",
		Rule:  "random trx files (several lines, blank lines, tabs, CRLF, comments, hints, quotes, %, ?, backslashes, unicode, modifiers with params and human-readable numbers, copies and copy-number, CSV with 1 to 300 rows, -- EOF) whose data keys use every built-in generator in text and prepared statements; every statement MySQL receives is compared with the text written: literal parts byte for byte, each data key a value of its own generator in the documented form, in place; non-trivial: a statement with a data key, substitution or special text; distinct by statement text and received text",
		Floor: 100,
		Parts: []kit.Part{
			{Name: "render", Quick: 6000, Thorough: 120000, Par: 4, Run: renderCase},
		},
	})
}

type rKey struct {
	name, gen, scope string
	params           map[string]string
	n                int // number of values
	check            func(vals []string, prepared bool) string
}

type rPiece struct {
	lit string
	key *rKey // first value of key
	nth int   // value number (0: the key, 1..: @PREV)
}

type rStmt struct {
	pieces []rPiece
	copies int
	prep   bool
	copyNo bool
	multi  bool
}

const copyMark = "\x01COPY\x01"

var reQuotedAz = regexp.MustCompile(`^'[A-Za-z]*'$`)
var reXid = regexp.MustCompile(`^'[0-9a-v]{20}'$`)

func intVal(s string) (int64, bool) {
	v, err := strconv.ParseInt(s, 10, 64)
	return v, err == nil && strconv.FormatInt(v, 10) == s
}

func genRKeys(r *kit.Rand) []*rKey {
	names := []string{"a", "a1", "a11", "ab", "a_b", "a-b", "id", "id_1", "id_100", "X", "d9", "PREV1", "last_updated", "k", "kk"}
	kit.Shuffle(r, names)
	var keys []*rKey
	for i := r.Int(1, 5); i > 0; i-- {
		k := &rKey{name: names[i], params: map[string]string{}, n: 1}
		k.scope = kit.Pick(r, "", "", "statement", "trx", "value", "iter", "client-group", "stage", "global", "workload")
		inRange := func(min, max int64) func([]string, bool) string {
			return func(v []string, _ bool) string {
				x, ok := intVal(v[0])
				if !ok || x < min || x > max {
					return fmt.Sprintf("not an integer in [%d, %d]", min, max)
				}
				return ""
			}
		}
		switch kit.Pick(r, "int", "int", "int-gaps", "auto-inc", "str-fill-az", "str-fill-az", "xid", "int-range", "int-range-seq", "client-id", "client-ids") {
		case "int":
			k.gen = "int"
			min, max := int64(1), int64(100000)
			if r.P(0.7) {
				min = int64(r.Int(0, 1000))
				max = min + int64(r.Int(1, 100000))
				k.params["min"], k.params["max"] = fmt.Sprint(min), fmt.Sprint(max)
				if r.P(0.3) {
					k.params["max"] = fmt.Sprintf("%dk", max/1000+1)
					max = (max/1000 + 1) * 1000
				}
			}
			if r.P(0.2) {
				k.params["dist"] = "normal"
			}
			k.check = inRange(min, max)
		case "int-gaps":
			k.gen = "int-gaps"
			k.params["min"], k.params["max"], k.params["p"] = "10", "1,000", "20"
			k.check = inRange(10, 1000)
		case "auto-inc":
			k.gen = "auto-inc"
			k.check = inRange(1, 1<<40)
		case "str-fill-az":
			k.gen = "str-fill-az"
			n := kit.Pick(r, 1, 2, 16, 119, 255, 1000)
			k.params["len"] = fmt.Sprint(n)
			k.check = func(v []string, prepared bool) string {
				if prepared {
					if len(v[0]) != n || !reQuotedAz.MatchString("'"+v[0]+"'") {
						return fmt.Sprintf("not %d letters", n)
					}
					return ""
				}
				if len(v[0]) != n+2 || !reQuotedAz.MatchString(v[0]) {
					return fmt.Sprintf("not %d quoted letters", n)
				}
				return ""
			}
		case "xid":
			k.gen = "xid"
			k.check = func(v []string, prepared bool) string {
				x := v[0]
				if prepared {
					x = "'" + x + "'"
				}
				if !reXid.MatchString(x) {
					return "not a (quoted) xid"
				}
				return ""
			}
		case "int-range", "int-range-seq":
			k.gen = kit.Pick(r, "int-range", "int-range-seq")
			size := int64(r.Int(1, 50))
			k.params["size"] = fmt.Sprint(size)
			var lo, hi int64 = 1, 100000
			if k.gen == "int-range" {
				k.params["min"], k.params["max"] = "1", "1,000"
				hi = 1000 + size
			} else {
				k.params["begin"], k.params["end"] = "100", "5000"
				lo, hi = 100, 5000
			}
			k.n = 2
			k.check = func(v []string, _ bool) string {
				a, ok1 := intVal(v[0])
				b, ok2 := intVal(v[1])
				if !ok1 || !ok2 || a > b || b-a+1 > size || a < lo || b > hi {
					return fmt.Sprintf("not an ordered range of %d in [%d, %d]", size, lo, hi)
				}
				return ""
			}
		case "client-id":
			k.gen = "client-id"
			k.check = inRange(1, 1)
		case "client-ids":
			k.gen = "client-id"
			k.n = r.Int(1, 3)
			ids := []string{"client", "client-group", "exec-group"}[:k.n]
			k.params["ids"] = strings.Join(ids, ",")
			k.check = func(v []string, _ bool) string {
				for _, x := range v {
					if x != "1" {
						return "not the ids of the only client (1)"
					}
				}
				return ""
			}
		}
		keys = append(keys, k)
	}
	return keys
}

var litTokens = []string{
	"c", "a.b", "`t`", "`weird %s name`", "'a%'", "'100%'", "\"x y\"", "%", "%d", "%v", "%!s(MISSING)", "(", ")", ",", "=", "<>", ">=",
	"'it''s'", `'a\'b'`, `\`, "/* c */", "/*+ NO_INDEX */", "/*!40101 SET */", "ü", "日本", "'?'", "1", "1k", "1,000", "5m", "0.5", "1e3", ";", "#x", "$x",
	"NULL", "AND", "'$params.p'", "  ", "\t", "--x", "{}", "[]", "&", "|", "^", "~", "LIKE '%a_%'", "'''", "1.5GB", ":x", "*", "!", "'-- '",
}

func renderCase(t *kit.T) {
	r := t.R
	keys := genRKeys(r)
	var text strings.Builder
	nl := "\n"
	if r.P(0.15) {
		nl = "\r\n"
	}
	params := map[string]string{"p": "xyz", "two": "2", "three": "3", "big": "1,000,000", "pp": "zz"}
	var stmts []*rStmt
	usedKeys := map[string]*rKey{}
	special := 0
	n := r.Int(1, 5)
	iters := r.Int(1, 3)
	for i := 0; i < n; i++ {
		s := &rStmt{copies: 1}
		var raw strings.Builder
		verb := kit.Pick(r, "SELECT", "select", "INSERT", "UPDATE", "DELETE", "SET", "CALL", "REPLACE", "WITH x", "(SELECT", "EXPLAIN")
		lit := func(x string) {
			if strings.HasPrefix(x, "%") && strings.HasSuffix(raw.String(), "%") {
				x = "x" + x // %% is an escape sequence
			}
			raw.WriteString(x)
			s.pieces = append(s.pieces, rPiece{lit: x})
		}
		lit(fmt.Sprintf("%s /*S%d*/ ", verb, i))
		s.prep = r.P(0.35)
		words := r.Int(0, 12)
		var avail []*rKey
		for _, k := range keys {
			avail = append(avail, k)
		}
		ref := func(k *rKey, ex bool) []rPiece {
			usedKeys[k.name] = k
			special++
			raw.WriteString("@" + k.name)
			if ex {
				raw.WriteString("()")
			}
			ps := []rPiece{{key: k}}
			for v := 1; v < k.n; v++ {
				sep := kit.Pick(r, " AND ", ", ", ",")
				raw.WriteString(sep + "@PREV")
				ps = append(ps, rPiece{lit: sep}, rPiece{key: k, nth: v})
			}
			return ps
		}
		nokey := r.P(0.25)
		for w := 0; w < words; w++ {
			switch {
			case !nokey && r.P(0.4):
				s.pieces = append(s.pieces, ref(kit.Pick(r, avail...), r.P(0.1))...)
				after := kit.Pick(r, " ", ",", ")", ";", "%", "'", "+", " ", " ")
				if s.prep && after == "'" {
					after = "+"
				}
				lit(after)
			default:
				tok := kit.Pick(r, litTokens...)
				if s.prep && (strings.Contains(tok, "'") && strings.Count(tok, "'")%2 == 1 || tok == "\\" || strings.Contains(tok, `\`)) {
					tok = "x" // the server must be able to find the parameters
				}
				lit(tok + " ")
			}
			if r.P(0.15) { // new line: joined by one blank, outer blanks trimmed
				trimTail(s) // trailing blanks of a line are trimmed, then one blank is added
				raw.WriteString(kit.Pick(r, nl, "  "+nl, nl+"\t", nl+"   "))
				s.pieces = append(s.pieces, rPiece{lit: " "})
				lit(kit.Pick(r, "x", "WHERE", "(", ",") + " ")
			}
		}
		for ncsv := kit.Pick(r, 0, 0, 0, 1, 1, 2); ncsv > 0; ncsv-- { // CSV
			rows := kit.Pick(r, 1, 2, 3, 5, 40, 300)
			save := s.pieces
			rawSave := raw.String()
			raw.Reset()
			s.pieces = nil
			lit("(")
			for c := r.Int(1, 3); c > 0; c-- {
				k := kit.Pick(r, avail...)
				if k.scope == "" { // used outside a CSV too: ambiguous
					lit(kit.Pick(r, "7", "'%'", "NULL", "'ü'", "$1", "${x}"))
				} else {
					s.pieces = append(s.pieces, ref(k, false)...)
				}
				lit(kit.Pick(r, ", ", ","))
			}
			lit("1)")
			row, rowRaw := s.pieces, raw.String()
			raw.Reset()
			raw.WriteString(rawSave)
			raw.WriteString(fmt.Sprintf("/*!csv %d %s*/", rows, rowRaw))
			s.pieces = save
			for j := 0; j < rows; j++ {
				if j > 0 {
					s.pieces = append(s.pieces, rPiece{lit: ", "})
				}
				s.pieces = append(s.pieces, row...)
			}
			special++
			if r.P(0.4) {
				lit(" ON DUPLICATE KEY UPDATE x=1 /* z */")
			}
		}
		copies := ""
		if r.P(0.2) {
			switch r.IntN(5) {
			case 0:
				s.copies, copies = 2, kit.Pick(r, "$params.two", "${params.two}", "2")
			case 1:
				s.copies, copies = 3, kit.Pick(r, "$params.three", "${params.three}", "3")
			case 2:
				s.copies, copies = 1, "1"
			default:
				s.copies = r.Int(2, 6)
				copies = fmt.Sprint(s.copies)
			}
			if s.copies > 1 && r.P(0.6) {
				s.copyNo = true
				for k := kit.Pick(r, 1, 1, 2, 3); k > 0; k-- {
					raw.WriteString(" t/*!copy-number*/_x")
					s.pieces = append(s.pieces, rPiece{lit: " t" + copyMark + "_x"})
				}
				special++
			}
		}
		trimTail(s)
		var mods []string
		if s.prep {
			mods = append(mods, kit.Pick(r, "prepare", "prepared"))
		}
		if copies != "" {
			mods = append(mods, kit.Pick(r, "copies: ", "copies:  ")+copies)
		}
		if r.P(0.15) && verb != "SELECT" && verb != "select" {
			mods = append(mods, kit.Pick(r, "rows: $params.big", "rows: ${params.big}", "rows: 1m", "rows: 1,000,000", "rows: 0"))
		}
		kit.Shuffle(r, mods)
		for _, m := range mods {
			text.WriteString(kit.Pick(r, "-- ", "--  ", "  -- ") + m + nl)
		}
		text.WriteString(kit.Pick(r, "", "", "  ", "\t") + raw.String() + nl)
		if i < n-1 || r.P(0.5) {
			text.WriteString(kit.Pick(r, nl, nl+nl, "   "+nl, "\t"+nl+nl))
		}
		stmts = append(stmts, s)
	}
	if r.P(0.2) {
		text.WriteString(kit.Pick(r, nl, "") + "-- EOF" + nl + "THIS IS NOT SQL @undefined" + nl)
		special++
	}
	tf := kit.TrxFile{File: "t.sql", Raw: text.String()}
	for _, k := range keys {
		if usedKeys[k.name] != nil {
			tf.Data = append(tf.Data, kit.DataKey{Name: k.name, Generator: k.gen, Scope: k.scope, Params: k.params})
		}
	}
	st := &kit.Stage{Name: "s", Params: params, Stats: map[string]interface{}{"disable": "true"}, Trx: []kit.TrxFile{tf},
		Workload: []kit.CG{{Clients: "1", Iter: fmt.Sprint(iters), Trx: []string{"t.sql"}}}}
	sc := (&kit.Scenario{Timeout: 60 * time.Second, Handler: func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" {
			return fm.Reply{}
		}
		return okReply(ev)
	}}).Add(st)
	res := t.RunOK(sc, "render")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("render:exit", fmt.Sprintf("finch failed (exit %d) on a valid trx file: %s", res.Exit, kit.Tail(res.Out, 800)), det)
		return
	}
	ss := sessions(res.Events)
	if len(ss) != 1 {
		t.Fail("render:sessions", fmt.Sprintf("%d sessions, expected 1", len(ss)), det)
		return
	}
	var got []fm.Event
	got = ss[0].stmts
	i := 0
	for it := 0; it < iters; it++ {
		for sn, s := range stmts {
			for c := 1; c <= s.copies; c++ {
				if i >= len(got) {
					t.Fail("render:missing", fmt.Sprintf("iteration %d: statement %d copy %d was not received", it+1, sn+1, c), det)
					return
				}
				if msg := s.match(&got[i], c, t); msg != "" {
					t.Fail("render:text", fmt.Sprintf("iteration %d statement %d copy %d: %s", it+1, sn+1, c, msg), det)
					return
				}
				i++
			}
		}
	}
	if i != len(got) {
		t.Fail("render:extra", fmt.Sprintf("received statement that is not in the trx file: %q", got[i].SQL), det)
		return
	}
	// one prepared statement per prepared statement; with copies of the same text, one for all
	want := 0
	for _, s := range stmts {
		if s.prep {
			if s.copyNo {
				want += s.copies
			} else {
				want++
			}
		}
	}
	if len(ss[0].preps) != want {
		t.Fail("render:prepares", fmt.Sprintf("%d statements were prepared, expected %d (prepare on copies makes a single prepared statement)", len(ss[0].preps), want), det)
		return
	}
	t.Count("statements", len(got))
	t.Eval(text.String(), special > 0)
	t.Sample(map[string]interface{}{"trx": kit.Tail(text.String(), 2000), "received": kit.EventLines(got, 5)})
}

// trimTail removes trailing blanks of the text so far.
func trimTail(s *rStmt) {
	for i := len(s.pieces) - 1; i >= 0; i-- {
		if s.pieces[i].key != nil {
			return
		}
		s.pieces[i].lit = strings.TrimRight(s.pieces[i].lit, " \t")
		if s.pieces[i].lit != "" {
			return
		}
	}
}

func (s *rStmt) match(e *fm.Event, copyNo int, t *kit.T) string {
	if s.prep != (e.Kind == "execute") {
		return fmt.Sprintf("prepared=%v but received as %s: %q", s.prep, e.Kind, e.SQL)
	}
	if s.prep {
		want := ""
		var ks []rPiece
		for _, p := range s.pieces {
			if p.key != nil {
				want += "?"
				ks = append(ks, p)
			} else {
				want += strings.ReplaceAll(p.lit, copyMark, fmt.Sprint(copyNo))
			}
		}
		if e.SQL != want {
			return diffText(want, e.SQL)
		}
		if len(e.Args) != len(ks) {
			return fmt.Sprintf("%d parameters, expected %d: %q", len(e.Args), len(ks), e.SQL)
		}
		for i := 0; i < len(ks); i += ks[i].key.n {
			k := ks[i].key
			var vals []string
			for j := 0; j < k.n; j++ {
				vals = append(vals, fmt.Sprint(e.Args[i+j]))
			}
			if msg := k.check(vals, true); msg != "" {
				return fmt.Sprintf("@%s (%s) has parameters %v: %s", k.name, k.gen, vals, msg)
			}
			t.Count("data_values", k.n)
		}
		return ""
	}
	rest := e.SQL
	var vals []string
	var cur *rKey
	flush := func() string {
		if cur != nil {
			if len(vals) != cur.n {
				return ""
			}
			if msg := cur.check(vals, false); msg != "" {
				return fmt.Sprintf("@%s (%s) is %v: %s in %q", cur.name, cur.gen, vals, msg, kit.Tail(e.SQL, 600))
			}
			t.Count("data_values", cur.n)
		}
		cur, vals = nil, nil
		return ""
	}
	for _, p := range s.pieces {
		if p.key == nil {
			l := strings.ReplaceAll(p.lit, copyMark, fmt.Sprint(copyNo))
			if !strings.HasPrefix(rest, l) {
				return diffText(l, rest) + fmt.Sprintf(" at offset %d of %q", len(e.SQL)-len(rest), kit.Tail(e.SQL, 600))
			}
			rest = rest[len(l):]
			continue
		}
		if p.nth == 0 {
			if msg := flush(); msg != "" {
				return msg
			}
			cur = p.key
		}
		m := reValue.FindString(rest)
		if m == "" {
			return fmt.Sprintf("no value for @%s at %q in %q", p.key.name, kit.Tail(rest, 100), kit.Tail(e.SQL, 600))
		}
		vals = append(vals, m)
		rest = rest[len(m):]
	}
	if msg := flush(); msg != "" {
		return msg
	}
	if rest != "" {
		return fmt.Sprintf("unexpected text %q at the end of %q", kit.Tail(rest, 200), kit.Tail(e.SQL, 600))
	}
	return ""
}

var reValue = regexp.MustCompile(`^(?:-?\d+|'[A-Za-z0-9]*')`)

func diffText(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	w, g := want[i:], got[i:]
	if len(w) > 80 {
		w = w[:80]
	}
	if len(g) > 80 {
		g = g[:80]
	}
	return fmt.Sprintf("expected text %q, received %q", w, g)
}
