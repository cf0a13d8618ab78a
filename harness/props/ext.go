package props

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C24",
		Rule:        "a finch binary built with a data generator and a reporter registered through the documented API runs random stages (all data scopes, one or two values per key, numbers and strings, prepared or not, several groups, clients and stages, random delays and errors); the generator and the reporter log each call; every value in MySQL's log is one that the key's generator returned, uses share one call exactly as the scope says, no returned value is lost, no object is called by two clients at once, the run counts passed are those of the calling client, reports are one at a time, numbered, complete and followed by exactly one Stop, factories get the name and resolved params, their errors stop Finch, and registering a name twice fails without effect; non-trivial: two or more clients; distinct by statement interleaving",
		Assumptions: []string{"values are unique, so equal values come from one call"},
		Floor:       200,
		Parts: []kit.Part{
			{Name: "ext", Quick: 1500, Thorough: 40000, Par: 4, Run: extCase},
			{Name: "ext-race", Quick: 120, Thorough: 4000, Par: 2, Sanitize: true, Run: extCase},
		},
	})
}

type extEv struct {
	Seq    int64             `json:"seq"`
	Ev     string            `json:"ev"`
	What   string            `json:"what"`
	Kind   string            `json:"kind"`
	Name   string            `json:"name"`
	Key    string            `json:"key"`
	OK     bool              `json:"ok"`
	Obj    int64             `json:"obj"`
	Of     int64             `json:"of"`
	Params map[string]string `json:"params"`
	Ids    []int64           `json:"ids"`
	Call   int               `json:"call"`
	Iter   uint              `json:"iter"`
	Client uint              `json:"client"`
	CG     uint              `json:"cg"`
	EG     uint              `json:"eg"`
	Stage  uint              `json:"stage"`
	From   []struct {
		Host     string              `json:"host"`
		Interval uint                `json:"interval"`
		Clients  uint                `json:"clients"`
		N        []uint64            `json:"n"`
		Trx      map[string][]uint64 `json:"trx"`
		Runtime  float64             `json:"runtime"`
		Seconds  float64             `json:"seconds"`
	} `json:"from"`
}

type extKey struct {
	dk     kit.DataKey
	scope  string // effective
	n      int
	str    bool
	params map[string]string // as the factory must see them
	used   bool
}

// A use of a key in a received statement: [key:values].
var reExtUse = regexp.MustCompile(`\[(\w+):([^\]]*)\]`)
var reExtTag = regexp.MustCompile(`/\*s(\d+)t(\d+)q(\d+)\*/`)

func extCase(t *kit.T) {
	r := t.R
	sc := &kit.Scenario{Files: map[string]string{}, Timeout: 60 * time.Second, Bin: "finch-ext", Env: []string{"FINCH_EXT_LOG={{DIR}}/ext.log"}}
	keys := map[string]*extKey{}
	failMake := ""
	if r.P(0.04) {
		failMake = kit.Pick(r, "gen", "rep")
	}
	errs := r.P(0.2)
	nStages := r.Int(1, 2)
	type stg struct {
		st      *kit.Stage
		reports bool // has the probe reporter
		freq    bool
		ropts   map[string]string
		noStats bool // some client group has statistics disabled
		off     bool
	}
	var stages []*stg
	scopes := []string{"", "", "statement", "trx", "iter", "client", "value", "client-group", "exec-group", "workload", "stage", "global"}
	for k := 0; k < nStages; k++ {
		tag := fmt.Sprintf("s%d", k)
		st := &kit.Stage{Name: tag, File: tag + ".yaml", Params: map[string]string{"p": fmt.Sprintf("val%d", k), "two": "2"}}
		for i, nT := 0, r.Int(1, 3); i < nT; i++ {
			f := kit.TrxFile{File: fmt.Sprintf("%st%d.sql", tag, i)}
			var names []string
			for d, n := 0, r.Int(1, 4); d < n; d++ {
				key := &extKey{n: 1, params: map[string]string{}}
				key.dk = kit.DataKey{Name: fmt.Sprintf("%sk%d_%d", tag, i, d), Generator: "probe", Scope: kit.Pick(r, scopes...), Params: map[string]string{}}
				key.scope = key.dk.Scope
				if key.scope == "" {
					key.scope = "statement"
				}
				par := func(k, written, v string) { key.dk.Params[k], key.params[k] = written, v }
				if r.P(0.3) && key.scope != "value" {
					key.n = 2
					if r.P(0.5) {
						par("n", "2", "2")
					} else {
						par("n", "$params.two", "2")
					}
				}
				if r.P(0.3) {
					key.str = true
					par("str", "yes", "yes")
				}
				if r.P(0.3) {
					par("sleep", kit.Pick(r, "100us", "1ms"), "")
					key.params["sleep"] = key.dk.Params["sleep"]
				}
				if r.P(0.4) {
					par("x", kit.Pick(r, "$params.p", "${params.p}"), st.Params["p"])
				}
				keys[key.dk.Name] = key
				names = append(names, key.dk.Name)
				f.Data = append(f.Data, key.dk)
			}
			for q, n := 0, r.Int(1, 4); q < n; q++ {
				var b strings.Builder
				b.WriteString(kit.Pick(r, "SELECT", "UPDATE", "INSERT"))
				fmt.Fprintf(&b, " /*%st%dq%d*/", tag, i, q)
				for j, name := range names {
					if q > 0 && r.P(0.4) && !(q == n-1 && !keys[name].used) {
						continue
					}
					if q == 0 && j > 0 && n > 1 && r.P(0.3) {
						continue
					}
					keys[name].used = true
					m := 1
					if r.P(0.2) {
						m = 2
					}
					for ; m > 0; m-- {
						if keys[name].n == 2 {
							fmt.Fprintf(&b, " [%s:@%s,@PREV]", name, name)
						} else {
							fmt.Fprintf(&b, " [%s:@%s]", name, name)
						}
					}
				}
				s := kit.Stmt{SQL: b.String()}
				if r.P(0.3) {
					s.Mods = append(s.Mods, "prepare")
				}
				f.Stmts = append(f.Stmts, s)
			}
			// every configured key must be used
			for _, name := range names {
				if !keys[name].used {
					use := fmt.Sprintf("[%s:@%s]", name, name)
					if keys[name].n == 2 {
						use = fmt.Sprintf("[%s:@%s,@PREV]", name, name)
					}
					f.Stmts[0].SQL += " " + use
				}
			}
			st.Trx = append(st.Trx, f)
		}
		x := &stg{st: st}
		for e, nEG := 0, r.Int(1, 2); e < nEG; e++ {
			for c, n := 0, r.Int(1, 2); c < n; c++ {
				g := kit.CG{Group: fmt.Sprintf("g%d", e), Clients: fmt.Sprint(kit.Pick(r, 1, 1, 2, 3, 6)), Iter: fmt.Sprint(r.Int(1, 8))}
				perm := r.Perm(len(st.Trx))
				for _, p := range perm[:r.Int(1, len(perm))] {
					g.Trx = append(g.Trx, st.Trx[p].File)
				}
				if g.DisableStats = r.P(0.08); g.DisableStats {
					x.noStats = true
				}
				st.Workload = append(st.Workload, g)
			}
		}
		st.Stats = map[string]interface{}{}
		switch {
		case r.P(0.1):
			st.Stats["disable"] = "true"
			x.off = true
		case r.P(0.75):
			x.reports = true
			x.ropts = map[string]string{"a": "1,5", "b": st.Params["p"]}
			opts := map[string]string{"a": "1,5", "b": "$params.p"}
			if r.P(0.5) {
				opts["sleep"] = kit.Pick(r, "1ms", "20ms")
				x.ropts["sleep"] = opts["sleep"]
			}
			rep := map[string]map[string]string{"probe": opts}
			if r.P(0.3) {
				rep["stdout"] = map[string]string{"combined": "yes"}
			}
			st.Stats["report"] = rep
			if x.freq = r.P(0.5); x.freq {
				st.Stats["freq"] = kit.Pick(r, "5ms", "20ms", "50ms")
			}
		}
		stages = append(stages, x)
	}
	if failMake == "gen" {
		x := stages[r.IntN(len(stages))].st
		d := &x.Trx[r.IntN(len(x.Trx))].Data[0]
		d.Params["fail"] = "zzfail"
		keys[d.Name].params["fail"] = "zzfail"
	} else if failMake == "rep" {
		x := stages[r.IntN(len(stages))]
		x.reports, x.off = true, false
		x.ropts = map[string]string{"fail": "zzfail"}
		x.st.Stats = map[string]interface{}{"report": map[string]map[string]string{"probe": {"fail": "zzfail"}}}
	}
	failStage := -1 // statements of it and later ones are not executed
	for k, x := range stages {
		sc.Add(x.st)
		if failMake != "" && failStage < 0 && strings.Contains(sc.Files[x.st.File], "zzfail") {
			failStage = k
		}
	}
	jit := jitter(r.Uint64(), kit.Pick(r, 0, 0.1, 0.5), 3*time.Millisecond)
	seed := r.Uint64()
	sc.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" || !strings.Contains(ev.SQL, "/*s") {
			return fm.Reply{}
		}
		if errs && kit.NewRand(seed, fmt.Sprint(ev.Seq)).P(0.05) {
			return fm.Reply{ErrCode: 1213, ErrMsg: "Deadlock", Delay: jit(ev)}
		}
		rep := okReply(ev)
		rep.Delay = jit(ev)
		return rep
	}
	res := t.RunOK(sc, "ext")
	if res == nil {
		return
	}
	detail := func() map[string]interface{} {
		d := kit.Detail(sc, res)
		d["ext_log"] = kit.Tail(res.Dir["ext.log"], 20000)
		return d
	}
	fail := func(key, f string, a ...interface{}) { t.Fail("ext:"+key, fmt.Sprintf(f, a...), detail()) }
	var log []extEv
	for _, l := range strings.Split(res.Dir["ext.log"], "\n") {
		if l == "" {
			continue
		}
		var e extEv
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			t.Fail("harness", "bad log line "+l, nil)
			return
		}
		log = append(log, e)
	}
	if len(log) == 0 {
		t.Fail("harness", "no log of finch-ext", detail())
		return
	}
	t.Count("api_calls_logged", len(log))
	t.Eval(interleaving(res.Events), len(sessions(res.Events)) > 1)

	// registration
	seen := map[string]bool{}
	for _, e := range log {
		if e.Ev != "register" {
			continue
		}
		id := e.Kind + " " + e.Name
		first := e.Name == "probe" && !seen[id]
		seen[id] = true
		if e.OK != first {
			fail("register", "registering %s (first time: %t) succeeded: %t", id, first, e.OK)
			return
		}
	}
	// factories
	made := map[string]int{}
	type call struct {
		e    extEv
		uses int
	}
	calls := map[int64]*call{} // by first id
	var reps []extEv
	for _, e := range log {
		switch e.Ev {
		case "overlap":
			fail("overlap", "%s of object %d was called while another call of it was running", e.What, e.Obj)
			return
		case "make":
			k := keys[strings.TrimPrefix(e.Key, "@")]
			if k == nil || e.Name != "probe" {
				fail("make", "factory called for generator %q, data key %q", e.Name, e.Key)
				return
			}
			made[k.dk.Name]++
			if fmt.Sprint(e.Params) != fmt.Sprint(k.params) {
				fail("make", "factory of data key %s got params %v, expected %v", e.Key, e.Params, k.params)
				return
			}
		case "values":
			calls[e.Ids[0]] = &call{e: e}
		case "makerep", "report", "stop":
			reps = append(reps, e)
		}
	}
	ss := sessions(res.Events)
	if failStage >= 0 {
		if res.Exit == 0 || !strings.Contains(res.Out, "zzfail") {
			fail("factory-error", "a factory returned an error, finch exited %d: %s", res.Exit, kit.Tail(res.Out, 500))
		}
		for _, s := range ss {
			for _, e := range s.stmts {
				if m := reExtTag.FindStringSubmatch(e.SQL); m != nil && m[1] >= fmt.Sprint(failStage) {
					fail("factory-error", "a factory returned an error, but the stage was executed: %s", e.SQL)
					return
				}
			}
		}
		t.Count("factory_errors", 1)
		return
	}
	if res.Exit != 0 {
		fail("exit", "finch exited %d: %s", res.Exit, kit.Tail(res.Out, 500))
		return
	}
	for n := range keys {
		if made[n] == 0 {
			fail("make", "the factory was not called for data key %s", n)
			return
		}
	}
	// provenance and scope
	owner := map[int64]string{}   // call -> scope instance
	callOf := map[string]int64{}  // scope instance -> call
	objConn := map[int64]int{}    // object -> session, of keys that clients do not share
	objKey := map[int64]string{}  // object -> key
	connOf := map[string]int{}    // client as told by run counts -> session
	rcOf := map[int]string{}      // and back
	perStage := map[string]int{}  // statements with statistics
	perTrx := map[string]uint64{} // stage/trx
	uses := 0
	for _, s := range ss {
		iter, trx, stage, nErr := 0, 0, "", 0
		first := ""
		var cg *kit.CG
		lastTrx := ""
		for _, ev := range s.stmts {
			m := reExtTag.FindStringSubmatch(ev.SQL)
			if m == nil {
				continue
			}
			if first == "" {
				first, stage = m[0], m[1]
			}
			if m[0] == first {
				iter++
				trx++
			} else if m[2] != lastTrx {
				trx++
			}
			lastTrx = m[2]
			if stage != m[1] {
				fail("stage", "connection %d executes statements of stages %s and %s", s.conn, stage, m[1])
				return
			}
			_ = cg
			if ev.Reply.ErrCode == 0 {
				perStage[stage]++
				perTrx[fmt.Sprintf("%s/s%st%s.sql", stage, stage, m[2])]++
			}
			text := ev.SQL
			args := ev.Args
			occ := 0
			for _, u := range reExtUse.FindAllStringSubmatch(text, -1) {
				k := keys[u[1]]
				var ids []int64
				for _, v := range strings.Split(u[2], ",") {
					if v == "?" && ev.Kind == "execute" {
						if len(args) == 0 {
							fail("value", "too few parameters in %s", text)
							return
						}
						switch a := args[0].(type) {
						case []byte:
							v = string(a)
						default:
							v = fmt.Sprint(a)
						}
						args = args[1:]
						if k.str {
							v = "'" + v + "'"
						}
					}
					if k.str {
						if !strings.HasPrefix(v, "'v") || !strings.HasSuffix(v, "'") {
							fail("value", "key %s: %q is not in the generator's format '%%s': %s", u[1], v, text)
							return
						}
						v = strings.TrimSuffix(strings.TrimPrefix(v, "'v"), "'")
					}
					id, err := strconv.ParseInt(v, 10, 64)
					if err != nil {
						fail("value", "key %s: %q is no value of its generator: %s", u[1], v, text)
						return
					}
					ids = append(ids, id)
				}
				c := calls[ids[0]]
				if c == nil || strings.TrimPrefix(c.e.Key, "@") != u[1] || fmt.Sprint(c.e.Ids) != fmt.Sprint(ids) {
					fail("value", "key %s: values %v were not returned by one call of its generator: %s", u[1], ids, text)
					return
				}
				uses++
				c.uses++
				occ++
				id := c.e.Ids[0]
				own := u[1] + " " + k.scope + " "
				shared := false
				switch k.scope {
				case "statement":
					own += fmt.Sprint(ev.Seq)
				case "value":
					own += fmt.Sprint(ev.Seq, " ", occ)
				case "trx":
					own += fmt.Sprint(s.conn, " ", trx)
				case "iter":
					own += fmt.Sprint(s.conn, " ", iter)
				case "client": // until a recoverable query error
					own += fmt.Sprint(s.conn, " ", nErr)
				case "client-group", "exec-group", "workload":
					shared = true
					own += fmt.Sprint(s.conn, " ", iter)
				case "stage", "global":
					shared = true
				}
				if o, ok := owner[id]; ok && o != own {
					fail("scope", "key %s: value %d of %q was used again in %q: %s", u[1], id, o, own, text)
					return
				}
				owner[id] = own
				if o, ok := callOf[own]; ok && o != id {
					fail("scope", "key %s: two values (%d, %d) in %q: %s", u[1], o, id, own, text)
					return
				}
				callOf[own] = id
				if o, ok := objKey[c.e.Obj]; ok && o != u[1] {
					fail("object", "one generator object serves keys %s and %s", o, u[1])
					return
				}
				objKey[c.e.Obj] = u[1]
				if !shared {
					if o, ok := objConn[c.e.Obj]; ok && o != s.conn {
						fail("object", "generator object %d of key %s (scope %s) serves connections %d and %d", c.e.Obj, u[1], k.scope, o, s.conn)
						return
					}
					objConn[c.e.Obj] = s.conn
				}
				if k.scope != "stage" && k.scope != "global" {
					who := fmt.Sprintf("%d/%d/%d/%d", c.e.Stage, c.e.EG, c.e.CG, c.e.Client)
					if o, ok := connOf[who]; ok && o != s.conn {
						fail("runcount", "connections %d and %d are the same client %s in run counts", o, s.conn, who)
						return
					}
					if o, ok := rcOf[s.conn]; ok && o != who {
						fail("runcount", "connection %d is client %s and %s in run counts", s.conn, o, who)
						return
					}
					connOf[who], rcOf[s.conn] = s.conn, who
					if k.scope != "client" && c.e.Iter != uint(iter) {
						fail("runcount", "the generator of key %s was told iteration %d, it is iteration %d of connection %d", u[1], c.e.Iter, iter, s.conn)
						return
					}
				}
			}
			if ev.Reply.ErrCode != 0 {
				nErr++
			}
		}
	}
	t.Count("uses_checked", uses)
	// no value is lost
	lost := []int64{}
	for id, c := range calls {
		if c.uses == 0 {
			lost = append(lost, id)
		}
	}
	sort.Slice(lost, func(i, j int) bool { return lost[i] < lost[j] })
	if len(lost) > 0 {
		c := calls[lost[0]]
		fail("lost", "%d of %d values were not used in any statement, first %d of key %s (scope %s)", len(lost), len(calls), lost[0], c.e.Key, keys[strings.TrimPrefix(c.e.Key, "@")].scope)
		return
	}
	// reporter
	i := 0
	for k, x := range stages {
		if !x.reports {
			continue
		}
		if i >= len(reps) || reps[i].Ev != "makerep" {
			fail("reporter", "stage %d: the reporter was not made", k)
			return
		}
		if fmt.Sprint(reps[i].Params) != fmt.Sprint(x.ropts) || reps[i].Name != "probe" {
			fail("reporter", "stage %d: reporter factory got %q %v, expected %v", k, reps[i].Name, reps[i].Params, x.ropts)
			return
		}
		obj := reps[i].Obj
		i++
		var total uint64
		perT := map[string]uint64{}
		n := 0
		var rt float64
		for ; i < len(reps) && reps[i].Ev == "report" && reps[i].Obj == obj; i++ {
			n++
			f := reps[i].From
			if len(f) != 1 || f[0].Host != "local" || f[0].Interval != uint(n) {
				fail("reporter", "stage %d: report %d is of %+v", k, n, f)
				return
			}
			if f[0].Runtime < rt {
				fail("reporter", "stage %d: runtime goes back from %f to %f", k, rt, f[0].Runtime)
				return
			}
			rt = f[0].Runtime
			total += f[0].N[len(f[0].N)-1]
			for tn, c := range f[0].Trx {
				perT[tn] += c[len(c)-1]
			}
		}
		if i >= len(reps) || reps[i].Ev != "stop" || reps[i].Obj != obj {
			fail("reporter", "stage %d: after %d reports the reporter was not stopped (next: %+v)", k, n, reps[min(i, len(reps)-1)])
			return
		}
		i++
		t.Count("reports_checked", n)
		if !x.freq && n != 1 {
			fail("reporter", "stage %d: %d reports without freq", k, n)
			return
		}
		want := perStage[fmt.Sprint(k)]
		if x.noStats || errs {
			if !errs && total > uint64(want) {
				fail("reporter", "stage %d: %d statements reported, MySQL received %d", k, total, want)
				return
			}
			continue
		}
		if total > uint64(want) || !x.freq && total != uint64(want) {
			fail("reporter", "stage %d: %d statements reported, MySQL received %d", k, total, want)
			return
		}
		for tn, c := range perT {
			w := perTrx[fmt.Sprintf("%d/%s", k, tn)]
			if c > w || !x.freq && c != w {
				fail("reporter", "stage %d: %d statements of %s reported, MySQL received %d", k, c, tn, w)
				return
			}
		}
	}
	if i != len(reps) {
		fail("reporter", "unexpected call of a reporter: %+v", reps[i])
		return
	}
	t.Sample(map[string]interface{}{"files": sc.Files, "log": kit.Tail(res.Dir["ext.log"], 1500)})
	_ = filepath.Join
}
