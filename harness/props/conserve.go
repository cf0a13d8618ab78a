package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"

	"github.com/square/finch/stats"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C14",
		Rule:        "random stages of the real finch binary (client groups with and without stats, prepared statements, all statement kinds, idle statements, runtimes, several stages, with and without periodic reports) run against a MySQL server that records every statement, delays each kind by a known time and answers some with errors or dropped connections; the reported CSV and stdout statistics, and every statistics message that remote instances send, are compared with what the server recorded: number of queries per kind and trx file, errors per code, clients, response times, interval numbers, durations. cluster: the same with a server and up to three remote instances, with and without the local one; retries: requests with statistics delayed, lost, repeated. non-trivial: at least ten queries counted; distinct by interleaving",
		Assumptions: []string{"stats of a periodic report that would be less than half a period long at the end of a stage are left out by design, so periodic stages here end with idle clients"},
		Floor:       30,
		Parts: []kit.Part{
			{Name: "local", Quick: 240, Thorough: 9000, Par: 8, Run: c14local},
			{Name: "cluster", Quick: 40, Thorough: 1500, Par: 4, Run: func(t *kit.T) { c14cluster(t, "") }},
			{Name: "retries", Quick: 30, Thorough: 1500, Par: 4, Run: func(t *kit.T) { c14cluster(t, "retries") }},
			{Name: "outage", Quick: 40, Thorough: 1500, Par: 4, Run: func(t *kit.T) { c14cluster(t, "outage") }},
		},
	})
}

// consStage is a stage and what its statistics must account for.
type consStage struct {
	st      *kit.Stage
	tag     string
	on      map[string]bool // db of a client group -> stats enabled
	clients int             // with stats enabled
	freq    time.Duration
	runtime bool // ends by runtime
	csv     bool
	trx     map[string]string // statement mark prefix -> trx name
}

// kinds of statements in reports
var consKinds = []byte{stats.READ, stats.WRITE, stats.COMMIT, stats.TOTAL}

func kindOf(sql string) byte {
	f := strings.Fields(sql)
	switch strings.ToUpper(f[0]) {
	case "SELECT":
		return stats.READ
	case "INSERT", "UPDATE", "DELETE", "REPLACE":
		return stats.WRITE
	case "COMMIT":
		return stats.COMMIT
	}
	return stats.TOTAL
}

func consGen(r *kit.Rand, k int, dir string, cluster bool) *consStage {
	tag := fmt.Sprintf("s%d", k)
	cs := &consStage{tag: tag, on: map[string]bool{}, trx: map[string]string{}}
	st := &kit.Stage{File: dir + tag + ".yaml", Name: kit.Pick(r, "", "same", tag)}
	cs.st = st
	if cluster {
		st.MySQL = map[string]string{"hostname": "{{ADDR}}", "mycnf": "my.cnf"}
	}
	nT := r.Int(1, 3)
	for i := 0; i < nT; i++ {
		tf, _ := genTrx(r, fmt.Sprintf("%st%d", tag, i), r.Int(1, 6), false, false)
		if tf.Name == "" {
			tf.Name = tag + fmt.Sprint("trx", i)
		}
		st.Trx = append(st.Trx, tf)
		cs.trx[fmt.Sprintf("/*%st%d.", tag, i)] = tf.TrxName()
	}
	cs.runtime = !cluster && r.P(0.15)
	if r.P(0.5) && !cs.runtime {
		cs.freq = kit.Pick(r, 150*time.Millisecond, 300*time.Millisecond, 600*time.Millisecond)
		if cluster {
			cs.freq = kit.Pick(r, 400*time.Millisecond, 600*time.Millisecond)
		}
	}
	nEG := r.Int(1, 3)
	n := 0
	group := func(eg int, g kit.CG) {
		g.Group = fmt.Sprintf("e%d", eg)
		g.Db = fmt.Sprintf("%sg%d", tag, n)
		n++
		c := r.Int(1, 4)
		g.Clients = fmt.Sprint(c)
		g.DisableStats = g.DisableStats || r.P(0.2)
		cs.on[g.Db] = !g.DisableStats
		if !g.DisableStats {
			cs.clients += c
		}
		st.Workload = append(st.Workload, g)
	}
	for e := 0; e < nEG; e++ {
		for i := r.Int(1, 2); i > 0; i-- {
			g := kit.CG{Iter: fmt.Sprint(r.Int(1, 20))}
			for _, f := range st.Trx {
				if r.P(0.6) {
					g.Trx = append(g.Trx, f.TrxName())
				}
			}
			if len(g.Trx) == 0 {
				g.Trx = []string{st.Trx[0].TrxName()}
			}
			for r.P(0.25) { // a client can run the same trx several times
				k := r.IntN(len(g.Trx))
				g.Trx = append(g.Trx[:k+1], g.Trx[k:]...)
			}
			if r.P(0.4) {
				kit.Shuffle(r, g.Trx)
			}
			if cs.runtime && e == nEG-1 {
				g.Iter = ""
			}
			group(e, g)
		}
	}
	if cs.runtime {
		st.Runtime = fmt.Sprintf("%dms", r.Int(200, 700))
	} else if r.P(0.2) {
		st.Runtime = "60s"
	}
	s := map[string]interface{}{}
	if cs.freq > 0 {
		idleFile := tag + "idle.sql"
		// every query ends more than half a period before the stage ends
		tf := kit.TrxFile{File: idleFile, Stmts: []kit.Stmt{{SQL: "SELECT 1", Mods: []string{fmt.Sprintf("idle: %dms", cs.freq.Milliseconds()*6/5)}}}}
		st.Trx = append(st.Trx, tf)
		group(nEG, kit.CG{Iter: "1", Trx: []string{idleFile}, DisableStats: true})
		s["freq"] = cs.freq.String()
	}
	rep := map[string]map[string]string{"csv": {"file": fmt.Sprintf("{{DIR}}/%s.csv", tag)}}
	if cluster {
		rep["csv"]["file"] = fmt.Sprintf("{{DIR}}/server/%s.csv", tag)
	}
	if r.P(0.5) {
		rep["stdout"] = map[string]string{"each-instance": "yes", "combined": kit.Pick(r, "yes", "no")}
	}
	s["report"] = rep
	st.Stats = s
	return cs
}

// consHandler answers statements: delays by kind, errors at random.
func consHandler(r *kit.Rand, mild bool) fm.Handler {
	seed := r.Uint64()
	pErr := kit.Pick(r, 0, 0.02, 0.1, 0.5)
	pDrop := kit.Pick(r, 0, 0, 0.01)
	base := map[byte]time.Duration{}
	for _, k := range consKinds {
		base[k] = time.Duration(kit.Pick(r, 0, 0, 300, 1500, 4000)) * time.Microsecond
	}
	jit := kit.Pick(r, 0.0, 0.2)
	return func(s *fm.Server, ev *fm.Event) fm.Reply {
		if ev.Kind != "query" && ev.Kind != "execute" || !strings.Contains(ev.SQL, "/*s") {
			return fm.Reply{}
		}
		rep := okReply(ev)
		rr := kit.NewRand(seed, fmt.Sprint(ev.Seq))
		k := kindOf(ev.SQL)
		rep.Delay = base[k]
		if rr.P(jit) {
			rep.Delay += time.Duration(rr.Int64N(int64(8 * time.Millisecond)))
		}
		switch {
		case rr.P(pDrop):
			return fm.Reply{Drop: true, Delay: rep.Delay}
		case rr.P(pErr):
			code := kit.Pick(rr, 1062, 1205, 1213, 1317, 1054, 1366, 1105, 1290)
			return fm.Reply{ErrCode: uint16(code), ErrMsg: "injected", Delay: rep.Delay}
		}
		return rep
	}
}

// consCount is what MySQL recorded.
type consCount struct {
	n        [4]int
	min, max [4]time.Duration // injected delays
	errs     map[uint16]int
	trx      map[string]*consCount
}

func newCons() *consCount { return &consCount{errs: map[uint16]int{}, trx: map[string]*consCount{}} }

func (c *consCount) add(e fm.Event) {
	one := func(k byte) {
		if c.n[k] == 0 || e.Reply.Delay < c.min[k] {
			c.min[k] = e.Reply.Delay
		}
		c.max[k] = max(c.max[k], e.Reply.Delay)
		c.n[k]++
	}
	k := kindOf(e.SQL)
	one(k)
	if k != stats.TOTAL {
		one(stats.TOTAL)
	}
	if e.Reply.Drop {
		c.errs[0]++
	} else if e.Reply.ErrCode != 0 {
		c.errs[e.Reply.ErrCode]++
	}
}

func (c *consCount) errors() int {
	n := 0
	for _, v := range c.errs {
		n += v
	}
	return n
}

// consLog counts what the clients with stats executed, by stage and user, and
// when the statements of each stage began and ended.
func consLog(evs []fm.Event, stages []*consStage) (by []map[string]*consCount, total []*consCount) {
	db, users := map[int]string{}, userOf(evs)
	by = make([]map[string]*consCount, len(stages))
	for i := range stages {
		by[i] = map[string]*consCount{}
		total = append(total, newCons())
	}
	for _, e := range evs {
		if e.Kind == "query" && strings.HasPrefix(e.SQL, "USE ") {
			db[e.Conn] = strings.Trim(strings.TrimPrefix(e.SQL, "USE "), "` ")
			continue
		}
		if e.Kind != "query" && e.Kind != "execute" {
			continue
		}
		for i, s := range stages {
			if !s.on[db[e.Conn]] {
				continue
			}
			for mark, trx := range s.trx {
				if !strings.Contains(e.SQL, mark) {
					continue
				}
				u := users[e.Conn]
				if by[i][u] == nil {
					by[i][u] = newCons()
				}
				for _, c := range []*consCount{by[i][u], total[i]} {
					c.add(e)
					if c.trx[trx] == nil {
						c.trx[trx] = newCons()
					}
					c.trx[trx].add(e)
				}
			}
		}
	}
	return
}

// consRow is one row of the CSV report.
type consRow struct {
	interval     int
	dur, runtime float64
	clients      int
	qps          [4]int64 // by kind
	min, p, max  [4]int64
	errors       int
	compute      string
}

func consParse(text string) ([]consRow, string) {
	lines := strings.Split(strings.TrimSpace(text), "\n")
	if len(lines) == 0 || !strings.HasPrefix(lines[0], "interval,duration,runtime,clients,QPS,min,P999,max,r_QPS") {
		return nil, "no header"
	}
	var rows []consRow
	for _, l := range lines[1:] {
		f := strings.Split(l, ",")
		if len(f) != 22 {
			return nil, fmt.Sprintf("%d columns: %s", len(f), l)
		}
		bad := ""
		num := func(i int) int64 {
			v, err := strconv.ParseInt(f[i], 10, 64)
			if err != nil {
				bad = l
			}
			return v
		}
		flt := func(i int) float64 {
			v, err := strconv.ParseFloat(f[i], 64)
			if err != nil {
				bad = l
			}
			return v
		}
		row := consRow{interval: int(num(0)), dur: flt(1), runtime: flt(2), clients: int(num(3)), errors: int(num(20)), compute: f[21]}
		for i, k := range []byte{stats.TOTAL, stats.READ, stats.WRITE, stats.COMMIT} {
			row.qps[k], row.min[k], row.p[k], row.max[k] = num(4+4*i), num(5+4*i), num(6+4*i), num(7+4*i)
		}
		if bad != "" {
			return nil, "not a number: " + bad
		}
		rows = append(rows, row)
	}
	return rows, ""
}

var kindName = [4]string{"reads", "writes", "commits", "queries"}

// consTimes compares response times with what the server injected. n is how
// many events the report is about (zero: no times).
func consTimes(k int, lo, hi int64, c *consCount, wall time.Duration) string {
	switch {
	case c.n[k] == 0:
		if lo != 0 || hi != 0 {
			return fmt.Sprintf("response times %d to %d us of %s but none was executed", lo, hi, kindName[k])
		}
	case lo < c.min[k].Microseconds():
		return fmt.Sprintf("fastest of %s took %d us but MySQL took at least %v", kindName[k], lo, c.min[k])
	case hi < c.max[k].Microseconds():
		return fmt.Sprintf("slowest of %s took %d us but MySQL took up to %v", kindName[k], hi, c.max[k])
	case hi > wall.Microseconds():
		return fmt.Sprintf("slowest of %s took %d us but all of finch took %v", kindName[k], hi, wall)
	}
	return ""
}

// consSingle judges the only row of a report by one interval: exact numbers
// follow from the ratios. slack is how many more queries may be counted.
func consSingle(row consRow, c *consCount, wall time.Duration, slack int) string {
	// the duration that explains the number of queries
	lo, hi := 0.0, math.Inf(1)
	for _, k := range consKinds {
		a := float64(c.n[k]) / float64(row.qps[k]+1)
		b := math.Inf(1)
		if row.qps[k] > 0 {
			b = float64(c.n[k]+slack) / float64(row.qps[k])
		} else if c.n[k] == 0 {
			a = 0
		}
		lo, hi = math.Max(lo, a), math.Min(hi, b)
	}
	lo, hi = math.Max(lo, row.dur-0.0501), math.Min(hi, row.dur+0.0501)
	hi = math.Min(hi, wall.Seconds())
	if lo > hi*(1+1e-9) {
		return fmt.Sprintf("duration %.1f s and rates of reads, writes, commits, all queries %v are not those of %v", row.dur, row.qps, c.n)
	}
	return ""
}

func c14local(t *kit.T) {
	r := t.R
	var stages []*consStage
	sc := &kit.Scenario{}
	for k := r.Int(1, 2); k > 0; k-- {
		cs := consGen(r, k, "", false)
		stages = append(stages, cs)
		sc.Add(cs.st)
	}
	sc.Handler = consHandler(r, false)
	res := t.RunOK(sc, "stats")
	if res == nil {
		return
	}
	fail := func(key, what string) {
		d := kit.Detail(sc, res)
		for _, s := range stages {
			d[s.tag+".csv"] = res.Dir[s.tag+".csv"]
		}
		t.Fail(key, what, d)
	}
	if res.Exit != 0 {
		fail("exit", fmt.Sprintf("exit code %d", res.Exit))
		return
	}
	_, total := consLog(res.Events, stages)
	queries := 0
	for i, s := range stages {
		rows, bad := consParse(res.Dir[s.tag+".csv"])
		if bad != "" {
			fail("csv", "stage "+s.tag+" CSV: "+bad)
			return
		}
		slack := 0
		if s.runtime {
			slack = s.clients
		}
		if strings.Contains(res.Out, "clients did not stop") {
			t.Count("inaccurate", 1)
			continue // documented: not accurate
		}
		if bad := consRows(rows, s, total[i], 1, s.clients, "local", res.Wall, slack); bad != "" {
			if s.freq > 0 {
				t.FailTimed("periodic", "stage "+s.tag+": "+bad, kit.Detail(sc, res))
			} else {
				fail("stats", "stage "+s.tag+": "+bad)
			}
			return
		}
		queries += total[i].n[stats.TOTAL]
		t.Count("rows", len(rows))
		t.Count("errors", total[i].errors())
	}
	t.Count("queries", queries)
	t.Eval(interleaving(res.Events), queries >= 10)
	t.Sample(map[string]interface{}{"stages": len(stages), "queries": queries})
}

// consRows judges a whole CSV report: c is what MySQL recorded.
func consRows(rows []consRow, s *consStage, c *consCount, instances, clients int, compute string, wall time.Duration, slack int) string {
	if len(rows) == 0 {
		return "no statistics reported"
	}
	if s.freq == 0 && len(rows) != 1 {
		return fmt.Sprintf("%d reports, expected 1", len(rows))
	}
	errors, sumDur, prev := 0, 0.0, 0.0
	var nLo, nHi [4]float64
	for i, row := range rows {
		if row.interval != i+1 {
			return fmt.Sprintf("interval %d reported as number %d", row.interval, i+1)
		}
		if row.clients != clients || row.compute != compute {
			return fmt.Sprintf("interval %d: %d clients of %q, expected %d of %q", row.interval, row.clients, row.compute, clients, compute)
		}
		errors += row.errors
		sumDur += row.dur
		if row.runtime < prev || math.Abs(sumDur-row.runtime) > 0.051*float64(i+2) {
			return fmt.Sprintf("interval %d: runtime %.1f after %.1f and durations that add up to %.1f", row.interval, row.runtime, prev, sumDur)
		}
		prev = row.runtime
		for k := range nLo {
			nLo[k] += float64(row.qps[k]) * math.Max(0, row.dur-0.0501)
			nHi[k] += float64(row.qps[k]+1) * (row.dur + 0.0501)
			if row.qps[k] > 0 && (row.min[k] > row.max[k] || row.max[k] <= 0) {
				return fmt.Sprintf("interval %d: %s: rate %d, times %d to %d us", row.interval, kindName[k], row.qps[k], row.min[k], row.max[k])
			}
		}
	}
	if prev > wall.Seconds()+0.06 {
		return fmt.Sprintf("runtime %.1f s but finch ran for %v", prev, wall)
	}
	if errors > c.errors() || errors < c.errors()-slack {
		return fmt.Sprintf("%d errors reported, MySQL returned %d: %v", errors, c.errors(), c.errs)
	}
	for k := range nLo {
		if float64(c.n[k]+slack) < nLo[k] || float64(c.n[k]) > nHi[k] {
			return fmt.Sprintf("reported %.0f to %.0f %s, MySQL recorded %d", nLo[k], nHi[k], kindName[k], c.n[k])
		}
		// the fastest and slowest of all intervals
		lo, hi := int64(0), int64(0)
		for _, row := range rows {
			if row.max[k] > 0 || row.qps[k] > 0 {
				if lo == 0 || row.min[k] < lo {
					lo = row.min[k]
				}
				hi = max(hi, row.max[k])
			}
		}
		if slack == 0 {
			if bad := consTimes(k, lo, hi, c, wall); bad != "" {
				return bad
			}
		}
	}
	if s.freq == 0 {
		return consSingle(rows[0], c, wall, slack)
	}
	return ""
}

// c14cluster: statistics of remote instances.
func c14cluster(t *kit.T, mode string) {
	r := t.R
	faults := mode != ""
	slots := r.Int(1, 3)
	c := &kit.Cluster{Files: map[string]string{}, Slots: slots, Timeout: 75 * time.Second, Once: true}
	cs := consGen(r, 1, "d1/", true)
	st := cs.st
	local := r.P(0.6)
	n := slots
	if local {
		n++
		st.Compute = map[string]string{"instances": fmt.Sprint(n)}
	} else {
		st.Compute = map[string]string{"instances": fmt.Sprint(n), "disable-local": "true"}
	}
	c.Files[st.File] = st.YAML()
	for _, f := range st.Trx {
		c.Files["d1/"+f.File] = f.Text()
	}
	c.Files["d1/my.cnf"] = "[client]\nuser=local\n"
	c.Args = []string{st.File}
	c.Handler = consHandler(r, true)
	if mode == "outage" {
		// one instance cannot send the statistics of one interval
		who, first := r.IntN(slots)+1, r.Int(0, 3)
		if cs.freq == 0 {
			first = 0
		}
		cnt := 0
		var mu sync.Mutex
		c.Fault = func(slot int, method, path string, n int) kit.Fault {
			if path != "/stats" || slot != who {
				return kit.Fault{}
			}
			mu.Lock()
			defer mu.Unlock()
			cnt++
			return kit.Fault{DropReq: cnt > first && cnt <= first+3}
		}
	} else if faults {
		seed := r.Uint64()
		p := kit.Pick(r, 0.2, 0.5)
		last := map[int]bool{}
		var lock = make(chan struct{}, 1)
		c.Fault = func(slot int, method, path string, n int) kit.Fault {
			if path != "/stats" {
				return kit.Fault{}
			}
			lock <- struct{}{}
			defer func() { <-lock }()
			rr := kit.NewRand(seed, fmt.Sprintf("%d %d", slot, n))
			if last[slot] || !rr.P(p) {
				last[slot] = false
				return kit.Fault{}
			}
			last[slot] = true
			switch rr.IntN(4) {
			case 0:
				return kit.Fault{DropReq: true}
			case 1:
				return kit.Fault{DropResp: true}
			case 2:
				return kit.Fault{Dup: true}
			}
			return kit.Fault{Delay: time.Duration(rr.IntN(100)) * time.Millisecond}
		}
	}
	res := t.RunCluster(c, "cluster")
	if res == nil {
		return
	}
	csv := res.Dir[cs.tag+".csv"]
	detail := func() map[string]interface{} {
		d := c.Detail(res)
		d["csv"] = csv
		var bodies []string
		for _, q := range res.Reqs {
			if q.Path == "/stats" {
				var in stats.Instance
				json.Unmarshal([]byte(q.Body), &in)
				bodies = append(bodies, fmt.Sprintf("%s %d %v interval %d clients %d N %v errors %v", q.Proc, q.Status, q.Fault, in.Interval, in.Clients, in.Total.N, in.Total.Errors))
			}
		}
		d["stats"] = bodies
		return d
	}
	fail := func(key, what string) { t.FailTimed(key, what, detail()) }
	if res.Exit != 0 {
		t.Fail("exit", fmt.Sprintf("server exit code %d", res.Exit), detail())
		return
	}
	byUser, total := consLog(res.Events, []*consStage{cs})
	pastDiscarded := false
	for _, x := range append([]string{res.Out}, c14outs(res)...) {
		if mode == "outage" && strings.Contains(x, "Discarding past") {
			pastDiscarded = true // while the server waited for the interval that was lost
			continue
		}
		if strings.Contains(x, "clients did not stop") || strings.Contains(x, "Stats dropped") || mode != "outage" && strings.Contains(x, "Failed to send stats") || strings.Contains(x, "Discarding past") {
			if !faults {
				fail("stats-lost", "statistics were lost without any fault")
			} else {
				t.Count("stats_lost", 1)
			}
			return
		}
	}
	// what each remote instance sent
	sent := map[string]map[uint]*stats.Instance{}
	arrived := map[string]map[uint]*stats.Instance{} // at the server
	for _, q := range res.Reqs {
		if q.Path != "/stats" {
			continue
		}
		if q.Method != "POST" {
			fail("method", "statistics sent by "+q.Method)
			return
		}
		in := &stats.Instance{}
		if err := json.Unmarshal([]byte(q.Body), in); err != nil || in.Total == nil || len(in.Total.N) != 4 {
			fail("body", fmt.Sprintf("statistics that cannot be read: %v %s", err, kit.Tail(q.Body, 300)))
			return
		}
		if in.Hostname != fmt.Sprintf("c%d", q.Slot) {
			fail("name", fmt.Sprintf("statistics of %q sent by %s", in.Hostname, q.Proc))
			return
		}
		if sent[q.Proc] == nil {
			sent[q.Proc] = map[uint]*stats.Instance{}
		}
		if old := sent[q.Proc][in.Interval]; old != nil {
			if !faults {
				fail("repeated", fmt.Sprintf("%s sent interval %d twice without any fault", q.Proc, in.Interval))
				return
			}
			a, _ := json.Marshal(old)
			b, _ := json.Marshal(in)
			if string(a) != string(b) {
				fail("repeated", fmt.Sprintf("%s sent different statistics of interval %d", q.Proc, in.Interval))
				return
			}
			t.Count("sent_again", 1)
		}
		sent[q.Proc][in.Interval] = in
		if !q.Fault.DropReq {
			if arrived[q.Proc] == nil {
				arrived[q.Proc] = map[uint]*stats.Instance{}
			}
			arrived[q.Proc][in.Interval] = in
		}
	}
	if len(sent) != slots {
		fail("instances", fmt.Sprintf("%d remote instances sent statistics, expected %d", len(sent), slots))
		return
	}
	for u, ivs := range sent {
		sum := newConsSum()
		run := 0.0
		for i := 1; i <= len(ivs); i++ {
			in := ivs[uint(i)]
			if in == nil {
				fail("intervals", fmt.Sprintf("%s sent %d intervals but not number %d", u, len(ivs), i))
				return
			}
			if int(in.Clients) != cs.clients {
				fail("clients", fmt.Sprintf("%s interval %d: %d clients, expected %d", u, i, in.Clients, cs.clients))
				return
			}
			run += in.Seconds
			if in.Seconds <= 0 || math.Abs(run-in.Runtime) > 0.001*float64(i) {
				fail("runtime", fmt.Sprintf("%s interval %d: %f seconds, runtime %f, intervals add up to %f", u, i, in.Seconds, in.Runtime, run))
				return
			}
			if cs.freq > 0 && i < len(ivs) && math.Abs(in.Runtime-cs.freq.Seconds()*float64(i)) > 0.5 {
				fail("freq", fmt.Sprintf("%s interval %d ended after %f s, freq %v", u, i, in.Runtime, cs.freq))
				return
			}
			sum.add(in.Total)
			for name, x := range in.Trx {
				if sum.trx[name] == nil {
					sum.trx[name] = newConsSum()
				}
				sum.trx[name].add(x)
			}
		}
		want := byUser[0][u]
		if want == nil {
			want = newCons()
		}
		if bad := sum.diff(want, res.EndAt); bad != "" {
			fail("remote", fmt.Sprintf("%s: %s", u, bad))
			return
		}
		for name, x := range sum.trx {
			w := want.trx[name]
			if w == nil {
				w = newCons()
			}
			if bad := x.diff(w, res.EndAt); bad != "" {
				fail("remote-trx", fmt.Sprintf("%s trx %s: %s", u, name, bad))
				return
			}
		}
		for name := range want.trx {
			if sum.trx[name] == nil {
				fail("remote-trx", fmt.Sprintf("%s: no statistics of trx %s", u, name))
				return
			}
		}
		t.Count("intervals", len(ivs))
	}
	if pastDiscarded {
		t.Count("stats_lost", 1)
		t.Eval(fmt.Sprintf("%d %t %s", n, local, interleaving(res.Events)), total[0].n[stats.TOTAL] >= 10)
		return
	}
	// what the server reported
	rows, bad := consParse(csv)
	if bad != "" {
		fail("csv", "server CSV: "+bad)
		return
	}
	errs := 0
	var nLo, nHi [4]float64
	prev := 0
	for _, row := range rows {
		if row.interval <= prev {
			fail("csv-interval", fmt.Sprintf("interval %d reported after %d", row.interval, prev))
			return
		}
		prev = row.interval
		errs += row.errors
		for k := range nLo {
			nLo[k] += float64(row.qps[k]) * math.Max(0, row.dur-0.0501)
			nHi[k] += float64(row.qps[k]+1) * (row.dur + 0.0501)
		}
		if cs.clients > 0 && (row.clients%cs.clients != 0 || row.clients > cs.clients*n || row.clients == 0) {
			fail("csv-clients", fmt.Sprintf("interval %d: %d clients, %d instances of %d clients", row.interval, row.clients, n, cs.clients))
			return
		}
		// without the local instance, everything in the row was sent
		if !local {
			e, m := 0, 0
			var nn [4]uint64
			var secs []float64
			for _, ivs := range arrived {
				if in := ivs[uint(row.interval)]; in != nil {
					m++
					for k := range nn {
						nn[k] += in.Total.N[k]
					}
					for _, v := range in.Total.Errors {
						e += int(v)
					}
					secs = append(secs, in.Seconds)
				}
			}
			if m*cs.clients != row.clients || e != row.errors {
				fail("csv-row", fmt.Sprintf("interval %d: %d clients, %d errors; %d instances of %d clients sent %d errors", row.interval, row.clients, row.errors, m, cs.clients, e))
				return
			}
			ok := false
			for _, sec := range secs {
				same := true
				for k := range nn {
					same = same && row.qps[k] == int64(float64(nn[k])/sec)
				}
				ok = ok || same
			}
			if !ok {
				fail("csv-row", fmt.Sprintf("interval %d: rates %v, but instances sent %v queries in %v seconds", row.interval, row.qps, nn, secs))
				return
			}
		}
	}
	// the local instance ends the report; intervals that only others had are lost
	lost := newConsSum()
	nLost := 0
	for u, ivs := range sent {
		for i, in := range ivs {
			if arrived[u][i] == nil {
				nLost++
				lost.add(in.Total)
			} else if local && int(i) > prev {
				lost.add(in.Total)
			}
		}
	}
	t.Count("intervals_not_delivered", nLost)
	lostErrs := 0
	for _, v := range lost.errs {
		lostErrs += int(v)
	}
	if errs != total[0].errors()-lostErrs {
		fail("csv-errors", fmt.Sprintf("%d errors reported, MySQL returned %d, %d of them in later intervals", errs, total[0].errors(), lostErrs))
		return
	}
	for k := range nLo {
		if float64(total[0].n[k]) < nLo[k]*0.9 || float64(total[0].n[k]-int(lost.n[k])) > nHi[k]*1.1 {
			fail("csv-queries", fmt.Sprintf("reported %.0f to %.0f %s, MySQL recorded %d", nLo[k], nHi[k], kindName[k], total[0].n[k]))
			return
		}
	}
	if nLost > 0 && cs.freq == 0 {
		m := n - nLost
		if len(rows) != min(m, 1) || m > 0 && rows[0].clients != cs.clients*m {
			fail("csv-outage", fmt.Sprintf("without freq, statistics of %d of %d instances arrived: %d reports, expected %d of %d clients", m, n, len(rows), min(m, 1), cs.clients*m))
			return
		}
	} else if nLost == 0 && cs.freq == 0 && (len(rows) != 1 || rows[0].clients != cs.clients*n || rows[0].compute != map[bool]string{true: fmt.Sprintf("%d combined", n), false: "c1"}[n > 1]) {
		fail("csv-one", fmt.Sprintf("without freq: %d reports, the first of %d clients of %q, %d instances of %d clients", len(rows), rows[0].clients, rows[0].compute, n, cs.clients))
		return
	}
	t.Count("instances", n)
	t.Count("rows", len(rows))
	t.Count("queries", total[0].n[stats.TOTAL])
	t.Count("errors", total[0].errors())
	t.Eval(fmt.Sprintf("%d %t %s", n, local, interleaving(res.Events)), total[0].n[stats.TOTAL] >= 10)
}

func c14outs(res *kit.ClusterResult) []string {
	var out []string
	for _, p := range res.Clients {
		out = append(out, p.Proc.Output())
	}
	return out
}

// consSum adds up statistics messages.
type consSum struct {
	n, b     [4]uint64
	min, max [4]int64
	errs     map[uint16]uint64
	trx      map[string]*consSum
}

func newConsSum() *consSum { return &consSum{errs: map[uint16]uint64{}, trx: map[string]*consSum{}} }

func (s *consSum) add(x *stats.Stats) {
	for k := range s.n {
		if x.N[k] > 0 && (s.n[k] == 0 || x.Min[k] < s.min[k]) {
			s.min[k] = x.Min[k]
		}
		s.max[k] = max(s.max[k], x.Max[k])
		s.n[k] += x.N[k]
		for _, v := range x.Buckets[k] {
			s.b[k] += v
		}
	}
	for c, v := range x.Errors {
		if v > 0 {
			s.errs[c] += v
		}
	}
}

func (s *consSum) diff(c *consCount, wall time.Duration) string {
	for k := range s.n {
		if int(s.n[k]) != c.n[k] || s.b[k] != s.n[k] {
			return fmt.Sprintf("%d %s in statistics (%d in the histogram), MySQL recorded %d", s.n[k], kindName[k], s.b[k], c.n[k])
		}
		if bad := consTimes(k, s.min[k], s.max[k], c, wall); bad != "" {
			return bad
		}
	}
	var codes []int
	for e := range s.errs {
		codes = append(codes, int(e))
	}
	for e := range c.errs {
		codes = append(codes, int(e))
	}
	sort.Ints(codes)
	for _, e := range codes {
		if int(s.errs[uint16(e)]) != c.errs[uint16(e)] {
			return fmt.Sprintf("error %d counted %d times, MySQL returned it %d times", e, s.errs[uint16(e)], c.errs[uint16(e)])
		}
	}
	return ""
}
