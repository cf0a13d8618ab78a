package props

import (
	"encoding/csv"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"

	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C15",
		Rule:        "random histories of Record, error counts, Reset, Copy, Combine and Swap on several stats objects, shadowed by the plain list of events; after every operation counts, exact min and max, errors, per-bucket counts against MySQL 8.0 bucket bounds and percentiles of random lists are compared with the list; and the collector is fed by concurrent clients under the race detector while it collects periodically; non-trivial: at least 5 events; distinct by operation history",
		Assumptions: []string{"a percentile is right if it is within the bounds of the histogram bucket that holds the event of that rank (documented as not exact)"},
		Floor:       300,
		Parts: []kit.Part{
			{Name: "model", Quick: 6000, Thorough: 300000, Run: c15model},
			{Name: "collector", Quick: 160, Thorough: 4000, Par: 8, Race: true, Run: c15collector},
			{Name: "percentile-names", Quick: 2000, Thorough: 20000, Run: c15names},
		},
	})
	kit.Register(&kit.Check{
		ID:          "C16",
		Rule:        "a server-side collector receives interval stats from one local and several simulated remote instances in random order, delayed, lost, duplicated and concurrently, with random stop times; every report is checked: one entry per instance, all of one interval, unmodified, intervals reported in order and at most once, complete as soon as the last instance arrives, incomplete only if a later interval came or the final wait timed out, nothing on time missing; non-trivial: at least two instances and three intervals; distinct by arrival history",
		Assumptions: []string{"an instance is identified by its name, as in the client-server protocol"},
		Floor:       200,
		Parts: []kit.Part{
			{Name: "recv", Quick: 1500, Thorough: 60000, Run: func(t *kit.T) { c16(t, false) }},
			{Name: "stop", Quick: 96, Thorough: 3000, Par: 8, Run: func(t *kit.T) { c16(t, true) }},
			{Name: "stop-late", Quick: 240, Thorough: 6000, Par: 24, Run: c16late},
		},
	})
	kit.Register(&kit.Check{
		ID:          "C22",
		Rule:        "random instance stats are reported with the CSV and stdout reporters under random options (percentile lists, combined, each-instance); every line is parsed back and each column is compared with an independent computation from the recorded events; non-trivial: at least one non-empty event type; distinct by options and values",
		Assumptions: []string{"duration, runtime are rounded to one decimal, rates are truncated to integers, as shown in the documentation"},
		Floor:       300,
		Parts: []kit.Part{
			{Name: "csv", Quick: 3000, Thorough: 100000, Run: c22csv},
			{Name: "stdout", Quick: 3000, Thorough: 100000, Run: c22stdout},
		},
	})
	log.SetOutput(io.Discard)
}

// ---- reference model ------------------------------------------------------

type refStats struct {
	ev   [4][]int64 // READ, WRITE, COMMIT, other
	errs map[uint16]uint64
}

func newRef() *refStats { return &refStats{errs: map[uint16]uint64{}} }

func (r *refStats) clone() *refStats {
	c := newRef()
	for i := range r.ev {
		c.ev[i] = append([]int64{}, r.ev[i]...)
	}
	for k, v := range r.errs {
		c.errs[k] = v
	}
	return c
}

func (r *refStats) combine(o *refStats) {
	for i := range r.ev {
		r.ev[i] = append(r.ev[i], o.ev[i]...)
	}
	for k, v := range o.errs {
		r.errs[k] += v
	}
}

// events of a type; TOTAL is every event.
func (r *refStats) of(typ byte) []int64 {
	if typ != stats.TOTAL {
		return r.ev[typ]
	}
	var all []int64
	for i := range r.ev {
		all = append(all, r.ev[i]...)
	}
	return all
}

func (r *refStats) n() int { return len(r.of(stats.TOTAL)) }

var typNames = []string{"read", "write", "commit", "total"}

// bucketBounds of MySQL 8.0: bucket 0 is [0,10), bucket i [10*f^(i-1), 10*f^i),
// 50 buckets per factor of 10.
func bucketBounds(i int) (lo, hi float64) {
	if i > 0 {
		lo = 10 * math.Pow(10, float64(i-1)/50)
	}
	hi = 10 * math.Pow(10, float64(i)/50)
	if i == 449 {
		hi = math.Inf(1)
	}
	return
}

const edge = 1e-6 // relative tolerance at bucket bounds

func inBucket(d int64, i int) bool {
	lo, hi := bucketBounds(i)
	return float64(d) >= lo*(1-edge) && (float64(d) < hi*(1+edge))
}

// diffStats compares finch's stats with the events it was told.
func diffStats(s *stats.Stats, r *refStats) string {
	for typ := byte(0); typ < 4; typ++ {
		ev := append([]int64{}, r.of(typ)...)
		sort.Slice(ev, func(a, b int) bool { return ev[a] < ev[b] })
		if s.N[typ] != uint64(len(ev)) {
			return fmt.Sprintf("%s count is %d, %d events recorded", typNames[typ], s.N[typ], len(ev))
		}
		var sum uint64
		k := 0
		for i, c := range s.Buckets[typ] {
			sum += c
			for j := uint64(0); j < c; j++ {
				if k >= len(ev) || !inBucket(ev[k], i) {
					v := int64(-1)
					if k < len(ev) {
						v = ev[k]
					}
					lo, hi := bucketBounds(i)
					return fmt.Sprintf("%s histogram bucket %d [%.1f, %.1f) counts %d events; the event of that rank is %d", typNames[typ], i, lo, hi, c, v)
				}
				k++
			}
		}
		if sum != s.N[typ] {
			return fmt.Sprintf("%s histogram has %d events, count is %d", typNames[typ], sum, s.N[typ])
		}
		if len(ev) == 0 {
			if s.Min[typ] != 0 || s.Max[typ] != 0 {
				return fmt.Sprintf("%s has no events but min %d max %d", typNames[typ], s.Min[typ], s.Max[typ])
			}
			continue
		}
		if s.Min[typ] != ev[0] || s.Max[typ] != ev[len(ev)-1] {
			return fmt.Sprintf("%s min %d max %d, recorded min %d max %d", typNames[typ], s.Min[typ], s.Max[typ], ev[0], ev[len(ev)-1])
		}
	}
	var codes []uint16
	for c := range s.Errors {
		codes = append(codes, c)
	}
	for c := range r.errs {
		codes = append(codes, c)
	}
	for _, c := range codes {
		if s.Errors[c] != r.errs[c] {
			return fmt.Sprintf("error %d counted %d times, occurred %d times", c, s.Errors[c], r.errs[c])
		}
	}
	return ""
}

// badPercentile checks one reported percentile; "" if it is plausible.
func badPercentile(q uint64, ev []int64, p float64) string {
	if len(ev) == 0 {
		if q != 0 {
			return fmt.Sprintf("P%v is %d but there are no events", p, q)
		}
		return ""
	}
	ev = append([]int64{}, ev...)
	sort.Slice(ev, func(a, b int) bool { return ev[a] < ev[b] })
	n := float64(len(ev))
	ok := func(rank float64) bool { // 1-based
		if rank < 1 {
			rank = 1
		}
		if rank > n {
			rank = n
		}
		d := ev[int(rank)-1]
		b := 0
		for b < 449 && !inBucket(d, b) {
			b++
		}
		for bb := b; bb <= b+1 && bb < 450; bb++ { // next one: value on the bound
			if !inBucket(d, bb) {
				continue
			}
			lo, hi := bucketBounds(bb)
			if bb == 449 {
				hi = 10 * math.Pow(10, 449.0/50)
			}
			if bb == 0 {
				lo = 10 // the lowest bucket is reported as 10
			}
			if float64(q) >= math.Floor(lo*(1-edge))-1 && float64(q) <= math.Ceil(hi*(1+edge)) {
				return true
			}
		}
		return false
	}
	rank := math.Ceil(p / 100 * n)
	if ok(rank) {
		return ""
	}
	if math.Abs(p/100*n-math.Round(p/100*n)) < 1e-6 { // rounding decides the rank
		if ok(math.Round(p/100*n)) || ok(math.Round(p/100*n)+1) {
			return ""
		}
	}
	d := 0
	if rank >= 1 {
		d = int(rank) - 1
	}
	return fmt.Sprintf("P%v of %d events is %d; the event of rank %d is %d", p, len(ev), q, d+1, ev[d])
}

func randDur(r *kit.Rand) int64 {
	switch r.IntN(10) {
	case 0:
		return int64(r.Int(0, 12))
	case 1:
		return int64(10 * math.Pow(10, float64(r.IntN(460))/50)) // near a bound
	case 2:
		return int64(math.Pow(10, 9+2*r.Float64()))
	case 3:
		return kit.Pick(r, int64(0), 1, 9, 10, 11, 100, 1000, 10000, 1000000)
	default:
		return int64(math.Pow(10, r.Float64()*6))
	}
}

var errCodes = []uint16{1205, 1213, 1062, 1290, 1064, 0, 65535}

func randPs(r *kit.Rand) []float64 {
	n := r.Int(1, 6)
	ps := []float64{}
	for i := 0; i < n; i++ {
		ps = append(ps, kit.Pick(r, 50, 75, 90, 95, 99, 99.9, 99.99, 100, 1, 25.5, math.Round(r.Float64()*9900)/100+1))
	}
	return ps
}

func c15model(t *kit.T) {
	r := t.R
	k := r.Int(2, 4)
	ss := make([]*stats.Stats, k)
	rs := make([]*refStats, k)
	for i := range ss {
		ss[i], rs[i] = stats.NewStats(), newRef()
	}
	trx := stats.NewTrx("t")
	tref := newRef() // events since the last swap
	hist := ""
	steps := r.Int(3, 25)
	events := 0
	ok := guard(t, "stats:model", "stats", func() {
		for st := 0; st < steps; st++ {
			i, j := r.IntN(k), r.IntN(k)
			switch op := r.IntN(10); {
			case op < 4:
				n := r.Int(1, kit.Pick(r, 1, 3, 20, 1200))
				for x := 0; x < n; x++ {
					typ, d := byte(r.IntN(4)), randDur(r)
					ss[i].Record(typ, d)
					rs[i].ev[typ] = append(rs[i].ev[typ], d)
					events++
				}
				hist += fmt.Sprintf("rec%d*%d ", i, n)
			case op < 5:
				c := errCodes[r.IntN(len(errCodes))]
				ss[i].Errors[c]++
				rs[i].errs[c]++
				hist += fmt.Sprintf("err%d:%d ", i, c)
			case op == 5:
				ss[i].Reset()
				rs[i] = newRef()
				hist += fmt.Sprintf("reset%d ", i)
			case op == 6 && i != j:
				ss[i].Copy(ss[j])
				rs[i] = rs[j].clone()
				hist += fmt.Sprintf("copy%d<%d ", i, j)
			case op == 7 && i != j:
				ss[i].Combine(ss[j])
				rs[i].combine(rs[j])
				hist += fmt.Sprintf("comb%d<%d ", i, j)
			case op == 8:
				n := r.Int(0, 10)
				for x := 0; x < n; x++ {
					typ, d := byte(r.IntN(4)), randDur(r)
					trx.Record(typ, d)
					tref.ev[typ] = append(tref.ev[typ], d)
					events++
				}
				if r.P(0.4) {
					c := errCodes[r.IntN(len(errCodes))]
					trx.Error(c)
					tref.errs[c]++
				}
				hist += fmt.Sprintf("trx*%d ", n)
			case op == 9:
				s := trx.Swap()
				if bad := diffStats(s, tref); bad != "" {
					t.Failf("stats:swap", "stats of one collection interval: %s (history: %s)", bad, hist)
					return
				}
				ss[i].Combine(s)
				rs[i].combine(tref)
				tref = newRef()
				hist += fmt.Sprintf("swap>%d ", i)
			}
			for x := range ss {
				if bad := diffStats(ss[x], rs[x]); bad != "" {
					t.Failf("stats:model", "%s (history: %s)", bad, hist)
					return
				}
			}
			t.Count("states_compared", k)
		}
		for x := range ss {
			ps := randPs(r)
			for typ := byte(0); typ < 4; typ++ {
				q := ss[x].Percentiles(typ, ps)
				if len(q) != len(ps) {
					t.Failf("stats:percentiles", "%d percentiles for %v", len(q), ps)
					return
				}
				for m := range ps {
					if bad := badPercentile(q[m], rs[x].of(typ), ps[m]); bad != "" {
						t.Failf("stats:percentiles", "%s: %s (asked for %v)", typNames[typ], bad, ps)
						return
					}
				}
				t.Count("percentiles_compared", len(ps))
			}
		}
	})
	if ok {
		t.Eval(hist, events >= 5)
		t.Sample(map[string]interface{}{"history": hist, "events": events})
	}
}

// c15names: percentile lists as documented, P999 means 99.9.
func c15names(t *kit.T) {
	r := t.R
	n := r.Int(1, 5)
	in, wantS, wantP := []string{}, []string{}, []float64{}
	for i := 0; i < n; i++ {
		v := ""
		switch r.IntN(4) {
		case 0:
			v = fmt.Sprint(r.Int(1, 100))
		case 1:
			v = kit.Pick(r, "999", "9999", "995", "99999")
		case 2:
			v = fmt.Sprintf("%d.%d", r.Int(1, 99), r.Int(1, 9))
		case 3:
			v = fmt.Sprintf("%d.%02d", r.Int(1, 99), r.Int(1, 99))
		}
		f, _ := strconv.ParseFloat(v, 64)
		if !strings.Contains(v, ".") && f > 100 {
			f, _ = strconv.ParseFloat(v[:2]+"."+v[2:], 64)
		}
		wantS = append(wantS, "P"+v)
		wantP = append(wantP, f)
		in = append(in, kit.Pick(r, "P", "p", "")+v)
	}
	list := strings.Join(in, kit.Pick(r, ",", ", ", " ,"))
	guard(t, "stats:percentile-list", list, func() {
		s, p, err := stats.ParsePercentiles(list)
		if err != nil {
			t.Failf("stats:percentile-list", "valid percentile list %q: %s", list, err)
			return
		}
		if fmt.Sprint(s) != fmt.Sprint(wantS) || fmt.Sprint(p) != fmt.Sprint(wantP) {
			t.Failf("stats:percentile-list", "percentile list %q is %v %v, expected %v %v", list, s, p, wantS, wantP)
			return
		}
		bad := kit.Pick(r, "x", "P", "-1", "101.5", "P99;P95", "99,,95", "P9x9")
		if _, p, err := stats.ParsePercentiles(bad); err == nil {
			t.Failf("stats:percentile-list", "invalid percentile list %q was accepted as %v", bad, p)
			return
		}
		t.Eval(list, true)
	})
}

// ---- collector ------------------------------------------------------------

type memReporter struct {
	mu      sync.Mutex
	reports [][]stats.Instance
	stopped int
	late    int // reports after Stop
	onRep   func([]stats.Instance)
}

func (m *memReporter) Report(from []stats.Instance) {
	m.mu.Lock()
	defer m.mu.Unlock()
	cp := make([]stats.Instance, len(from))
	for i := range from {
		cp[i] = cloneInstance(from[i])
	}
	if m.stopped > 0 {
		m.late++
	}
	m.reports = append(m.reports, cp)
	if m.onRep != nil {
		m.onRep(cp)
	}
}
func (m *memReporter) Stop() { m.mu.Lock(); m.stopped++; m.mu.Unlock() }

func cloneStats(s *stats.Stats) *stats.Stats {
	if s == nil {
		return nil
	}
	c := stats.NewStats()
	for i := range s.Buckets {
		copy(c.Buckets[i], s.Buckets[i])
	}
	copy(c.Min, s.Min)
	copy(c.Max, s.Max)
	copy(c.N, s.N)
	for k, v := range s.Errors {
		c.Errors[k] = v
	}
	return c
}

func cloneInstance(in stats.Instance) stats.Instance {
	in.Total = cloneStats(in.Total)
	m := map[string]*stats.Stats{}
	for k, v := range in.Trx {
		m[k] = cloneStats(v)
	}
	in.Trx = m
	return in
}

func sameStats(a, b *stats.Stats) bool {
	if a == nil || b == nil {
		return a == b
	}
	if fmt.Sprint(a.N, a.Min, a.Max) != fmt.Sprint(b.N, b.Min, b.Max) {
		return false
	}
	for i := range a.Buckets {
		for j := range a.Buckets[i] {
			if a.Buckets[i][j] != b.Buckets[i][j] {
				return false
			}
		}
	}
	for k, v := range a.Errors {
		if b.Errors[k] != v {
			return false
		}
	}
	for k, v := range b.Errors {
		if a.Errors[k] != v {
			return false
		}
	}
	return true
}

type memFactory struct{}

var (
	memMu   sync.Mutex
	memReps = map[string]*memReporter{}
	memOnce sync.Once
	memIds  []string
)

func (memFactory) Make(name string, opts map[string]string) (stats.Reporter, error) {
	memMu.Lock()
	defer memMu.Unlock()
	return memReps[opts["id"]], nil
}

// n returns the number of reports so far.
func (m *memReporter) n() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.reports)
}

func newMem(id string) *memReporter {
	memOnce.Do(func() { stats.Register("vmem", memFactory{}) })
	m := &memReporter{}
	memMu.Lock()
	memReps[id] = m
	memIds = append(memIds, id)
	if len(memIds) > 500 {
		delete(memReps, memIds[0])
		memIds = memIds[1:]
	}
	memMu.Unlock()
	return m
}

// c15collector: clients record concurrently while the collector collects
// periodically; over all reported intervals no event is lost or counted twice.
func c15collector(t *kit.T) {
	r := t.R
	id := fmt.Sprintf("c15-%d", t.I)
	rep := newMem(id)
	freq := time.Duration(r.Int(2, 60)) * time.Millisecond
	periodic := r.P(0.8)
	cfg := config.Stats{Report: map[string]map[string]string{"vmem": {"id": id}}}
	if periodic {
		cfg.Freq = freq.String()
	}
	c, err := stats.NewCollector(cfg, "local", 1)
	if err != nil {
		t.Failf("stats:collector", "NewCollector: %s", err)
		return
	}
	nClients := r.Int(1, 6)
	nTrx := r.Int(1, 3)
	type ev struct {
		typ byte
		d   int64
		err uint16
	}
	plan := make([][][]ev, nClients)
	clients := make([][]*stats.Trx, nClients)
	watched := uint(0)
	want := map[string]*refStats{}
	for i := range clients {
		disabled := r.P(0.15)
		clients[i] = make([]*stats.Trx, nTrx)
		plan[i] = make([][]ev, nTrx)
		for j := range clients[i] {
			if disabled {
				continue
			}
			name := fmt.Sprintf("t%d", r.IntN(nTrx)) // two trx can have one name
			clients[i][j] = stats.NewTrx(name)
			if want[name] == nil {
				want[name] = newRef()
			}
			for x, n := 0, r.Int(0, 600); x < n; x++ {
				e := ev{typ: byte(r.IntN(4)), d: randDur(r)}
				if r.P(0.05) {
					e.err = errCodes[r.IntN(len(errCodes))]
					want[name].errs[e.err]++
				}
				want[name].ev[e.typ] = append(want[name].ev[e.typ], e.d)
				plan[i][j] = append(plan[i][j], e)
			}
		}
		if !disabled {
			watched++
		}
		c.Watch(clients[i])
	}
	total := newRef()
	for _, w := range want {
		total.combine(w)
	}
	c.Start()
	var wg sync.WaitGroup
	for i := range clients {
		wg.Add(1)
		pause := r.Int(20, 200)
		go func(i int) {
			defer wg.Done()
			for x := 0; ; x++ {
				any := false
				for j := range clients[i] {
					if x < len(plan[i][j]) {
						any = true
						e := plan[i][j][x]
						clients[i][j].Record(e.typ, e.d)
						if e.err != 0 || e.err == 0 && false {
							clients[i][j].Error(e.err)
						}
					}
				}
				if !any {
					return
				}
				if x%pause == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		}(i)
	}
	wg.Wait()
	if periodic && r.P(0.5) {
		// More events just after an interval was reported
		n := rep.n()
		for i := 0; i < 500 && rep.n() == n; i++ {
			time.Sleep(time.Millisecond / 2)
		}
		for i := range clients {
			for _, x := range clients[i] {
				if x == nil {
					continue
				}
				d := randDur(r)
				x.Record(stats.READ, d)
				want[x.Name].ev[stats.READ] = append(want[x.Name].ev[stats.READ], d)
				total.ev[stats.READ] = append(total.ev[stats.READ], d)
			}
		}
	}
	if periodic {
		// An interval that is at least half of freq long is reported: either a tick
		// comes after the last event, or there was none for this long when it ends
		time.Sleep(time.Duration(float64(freq) * (0.52 + 1.5*r.Float64())))
	}
	ok := c.Stop(2*time.Second, false)
	rep.mu.Lock()
	defer rep.mu.Unlock()
	fail := func(f string, a ...interface{}) {
		t.Fail("stats:collector", fmt.Sprintf(f, a...), map[string]interface{}{"freq": cfg.Freq, "clients": nClients, "reports": len(rep.reports)})
	}
	if !ok || rep.stopped != 1 || len(rep.reports) == 0 {
		fail("Stop returned %v, reporter stopped %d times, %d reports", ok, rep.stopped, len(rep.reports))
		return
	}
	sum := stats.NewStats()
	byTrx := map[string]*stats.Stats{}
	var secs, last float64
	for i, rp := range rep.reports {
		if len(rp) != 1 {
			fail("report %d has %d instances", i+1, len(rp))
			return
		}
		in := rp[0]
		if in.Interval != uint(i+1) || in.Hostname != "local" || in.Clients != watched {
			fail("report %d: interval %d, host %q, %d clients; expected interval %d, local, %d", i+1, in.Interval, in.Hostname, in.Clients, i+1, watched)
			return
		}
		secs += in.Seconds
		if in.Seconds <= 0 || in.Runtime < last || math.Abs(in.Runtime-secs) > 0.001 {
			fail("report %d: duration %f runtime %f after %f; sum of durations %f", i+1, in.Seconds, in.Runtime, last, secs)
			return
		}
		last = in.Runtime
		// total is the sum of trx
		tr := stats.NewStats()
		for name, s := range in.Trx {
			tr.Combine(s)
			if byTrx[name] == nil {
				byTrx[name] = stats.NewStats()
			}
			byTrx[name].Combine(s)
		}
		if !sameStats(tr, in.Total) {
			fail("report %d: total stats are not the sum of the trx stats: %v %v", i+1, in.Total.N, tr.N)
			return
		}
		sum.Combine(in.Total)
	}
	delete(total.errs, 0)
	if bad := diffStats(sum, total); bad != "" {
		fail("sum of all intervals: %s", bad)
		return
	}
	for name, w := range want {
		delete(w.errs, 0)
		s := byTrx[name]
		if s == nil {
			s = stats.NewStats()
		}
		if bad := diffStats(s, w); bad != "" {
			fail("trx %s, sum of all intervals: %s", name, bad)
			return
		}
	}
	t.Count("intervals", len(rep.reports))
	t.Count("events_recorded", total.n())
	t.Distinct("interval_counts", fmt.Sprint(len(rep.reports)))
	t.Eval(fmt.Sprintf("%d %d %s %d", nClients, nTrx, cfg.Freq, total.n()), total.n() >= 5)
}

// ---- C16 ------------------------------------------------------------------

type arrival struct {
	inst, interval int
}

func c16(t *kit.T, withStop bool) {
	r := t.R
	id := fmt.Sprintf("c16-%v-%d", withStop, t.I)
	rep := newMem(id)
	local := withStop || r.P(0.6)
	remotes := r.Int(1, 4)
	n := remotes
	if local {
		n++
	}
	cfg := config.Stats{Report: map[string]map[string]string{"vmem": {"id": id}}}
	periodic := true
	if withStop {
		periodic = r.P(0.7)
		if periodic {
			cfg.Freq = "24h" // ticks never; Collect is called here instead
		}
	}
	c, err := stats.NewCollector(cfg, "local", uint(n))
	if err != nil {
		t.Failf("stats:multi", "NewCollector: %s", err)
		return
	}
	intervals := r.Int(1, 8)
	if !periodic {
		intervals = 1
	}
	trx := stats.NewTrx("a")
	localRef := newRef()
	if local {
		c.Watch([]*stats.Trx{trx})
	}
	c.Start()
	// every instance's stats of every interval
	sent := map[arrival]stats.Instance{}
	names := []string{}
	for i := 0; i < n; i++ {
		names = append(names, fmt.Sprintf("remote%d", i))
	}
	if local {
		names[0] = "local"
	}
	mk := func(i, iv int) stats.Instance {
		in := stats.NewInstance(names[i])
		in.Clients = uint(i + 1)
		in.Interval = uint(iv)
		in.Seconds, in.Runtime = 1, float64(iv)
		tr := stats.NewStats()
		for x, k := 0, r.Int(0, 6); x < k; x++ {
			tr.Record(byte(r.IntN(4)), randDur(r))
		}
		if r.P(0.3) {
			tr.Errors[1213] = uint64(r.Int(1, 9))
		}
		in.Trx["a"] = tr
		in.Total.Copy(tr)
		sent[arrival{i, iv}] = cloneInstance(in)
		return in
	}
	// arrival order: mostly in order, with delays, losses and duplicates
	type msg struct {
		a    arrival
		when float64
		dup  bool
	}
	msgs := []msg{}
	chaos := r.P(0.6)
	for iv := 1; iv <= intervals; iv++ {
		for i := 0; i < n; i++ {
			w := float64(iv) + 0.5*r.Float64()
			if chaos && !(local && i == 0) {
				if r.P(0.12) {
					w += r.Float64() * 2.5
				}
				if r.P(0.07) {
					continue // lost
				}
				if r.P(0.1) {
					msgs = append(msgs, msg{arrival{i, iv}, w + r.Float64(), true})
				}
			}
			msgs = append(msgs, msg{arrival{i, iv}, w, false})
		}
	}
	sort.SliceStable(msgs, func(a, b int) bool { return msgs[a].when < msgs[b].when })
	// reference: what is reported when
	type cur struct{ have []int }
	expect := [][]arrival{}
	cu := 1
	have := map[int]bool{}
	order := []int{}
	flush := func() {
		if len(order) > 0 {
			as := []arrival{}
			for _, i := range order {
				as = append(as, arrival{i, cu})
			}
			expect = append(expect, as)
		}
		have, order = map[int]bool{}, nil
	}
	hist := ""
	fail := func(f string, a ...interface{}) {
		t.Fail("stats:multi", fmt.Sprintf(f, a...), map[string]interface{}{"instances": names, "history": hist})
	}
	check := func() bool {
		rep.mu.Lock()
		defer rep.mu.Unlock()
		if len(rep.reports) != len(expect) {
			what := "a report is missing"
			if len(rep.reports) > len(expect) {
				what = "unexpected report"
			}
			fail("%s: %d reports, expected %d (history: %s)", what, len(rep.reports), len(expect), hist)
			return false
		}
		for ri := range expect {
			got := rep.reports[ri]
			if len(got) != len(expect[ri]) {
				fail("report %d has %d instances, expected %d: %v (history: %s)", ri+1, len(got), len(expect[ri]), expect[ri], hist)
				return false
			}
			seen := map[string]bool{}
			for _, in := range got {
				if seen[in.Hostname] {
					fail("report %d counts instance %s twice (history: %s)", ri+1, in.Hostname, hist)
					return false
				}
				seen[in.Hostname] = true
				found := false
				for _, a := range expect[ri] {
					if names[a.inst] != in.Hostname {
						continue
					}
					found = true
					w := sent[a]
					if in.Interval != w.Interval || in.Clients != w.Clients || !sameStats(in.Total, w.Total) || !sameStats(in.Trx["a"], w.Trx["a"]) {
						fail("report %d: stats of %s are not what it sent for interval %d: interval %d, N %v, expected interval %d, N %v (history: %s)", ri+1, in.Hostname, a.interval, in.Interval, in.Total.N, w.Interval, w.Total.N, hist)
						return false
					}
				}
				if !found {
					fail("report %d has unexpected instance %s (history: %s)", ri+1, in.Hostname, hist)
					return false
				}
			}
		}
		return true
	}
	stopped := func() {
		rep.mu.Lock()
		defer rep.mu.Unlock()
		if rep.stopped != 1 || rep.late > 0 {
			fail("after Stop: the reporter was stopped %d times and used %d times after that (history: %s)", rep.stopped, rep.late, hist)
		}
	}
	good := guard(t, "stats:multi", "collector "+hist, func() {
		for mi, m := range msgs {
			a := m.a
			isLocal := local && a.inst == 0
			if m.dup {
				if _, ok := sent[a]; !ok {
					continue
				}
			}
			lastLocal := withStop && isLocal && a.interval == intervals
			hist += fmt.Sprintf("%s:%d ", names[a.inst], a.interval)
			// reference
			if a.interval > cu {
				flush()
				cu = a.interval
			}
			if a.interval == cu && !have[a.inst] {
				have[a.inst] = true
				order = append(order, a.inst)
			}
			complete := len(order) == n
			if complete {
				flush()
				cu++
			}
			// real
			switch {
			case isLocal:
				localRef = newRef()
				for x, k := 0, r.Int(0, 6); x < k; x++ {
					typ, d := byte(r.IntN(4)), randDur(r)
					trx.Record(typ, d)
					localRef.ev[typ] = append(localRef.ev[typ], d)
				}
				in := stats.NewInstance("local")
				in.Clients, in.Interval = 1, uint(a.interval)
				for typ := range localRef.ev {
					for _, d := range localRef.ev[typ] {
						in.Total.Record(byte(typ), d)
					}
				}
				in.Trx["a"] = cloneStats(in.Total)
				sent[a] = in
				if lastLocal && !periodic {
					// Stop collects; feed the rest while it waits
					rest := msgs[mi+1:]
					late := r.P(0.3) && len(rest) > 0
					go func() {
						time.Sleep(time.Duration(r.Int(0, 150)) * time.Millisecond)
						for _, m2 := range rest {
							if late {
								return
							}
							w := sent[m2.a]
							if w.Total == nil {
								w = mk(m2.a.inst, m2.a.interval)
							}
							c.Recv(cloneInstance(w))
						}
					}()
					if !late {
						for _, m2 := range rest {
							hist += fmt.Sprintf("%s:%d ", names[m2.a.inst], m2.a.interval)
							if m2.a.interval == cu && !have[m2.a.inst] {
								have[m2.a.inst] = true
								order = append(order, m2.a.inst)
							}
							if len(order) == n {
								flush()
								cu++
							}
						}
					}
					t0 := time.Now()
					to := 1 * time.Second
					ok := c.Stop(to, false)
					incomplete := len(order) > 0
					flush()
					if ok == incomplete {
						fail("Stop returned %v, final stats incomplete: %v (history: %s)", ok, incomplete, hist)
						return
					}
					if !incomplete && time.Since(t0) > 900*time.Millisecond {
						fail("Stop waited for final stats that it had received (history: %s)", hist)
						return
					}
					stopped()
					check()
					return
				}
				c.Collect()
			default:
				in, ok := sent[a]
				if !ok {
					in = mk(a.inst, a.interval)
				}
				c.Recv(cloneInstance(in))
			}
			if !check() {
				return
			}
		}
		if withStop && periodic && cu <= intervals+1 {
			hist += "stop"
			t0 := time.Now()
			pending := len(order) > 0
			to := 400 * time.Millisecond
			ok := c.Stop(to, false)
			flush()
			if ok == pending {
				fail("Stop returned %v, final stats incomplete: %v (history: %s)", ok, pending, hist)
				return
			}
			if !pending && time.Since(t0) > 350*time.Millisecond {
				fail("Stop waited for final stats that it had received (history: %s)", hist)
				return
			}
			stopped()
			check()
		}
	})
	if good {
		t.Count("arrivals", len(msgs))
		t.Count("reports", len(expect))
		t.Distinct("reports_incomplete", fmt.Sprint(expect))
		t.Eval(hist, n >= 2 && (intervals >= 3 || withStop))
		t.Sample(map[string]interface{}{"history": hist, "reports": fmt.Sprint(expect)})
	}
}

// ---- C22 ------------------------------------------------------------------

type refInst struct {
	in  stats.Instance
	ref *refStats
}

func randInstances(r *kit.Rand) []refInst {
	n := kit.Pick(r, 1, 1, 2, 3, 5)
	out := []refInst{}
	secs := math.Round(r.Float64()*50000)/1000 + 0.05
	iv := uint(r.Int(1, 500))
	rt := secs * float64(r.Int(1, 9))
	uneven := r.P(0.3)
	for i := 0; i < n; i++ {
		ref := newRef()
		in := stats.NewInstance(kit.Pick(r, "local", "host-", "HP-Pool-", "db.p-") + fmt.Sprint(i))
		in.Clients, in.Interval, in.Seconds, in.Runtime = uint(r.Int(1, 2000)), iv, secs, rt
		if uneven { // remote instances measure on their own
			in.Seconds = math.Round(secs*r.Float64()*20000)/10000 + 0.05
			in.Runtime = in.Seconds + rt
		}
		k := kit.Pick(r, 0, 1, 5, 300, 3000)
		types := []byte{}
		for typ := byte(0); typ < 4; typ++ {
			if r.P(0.7) {
				types = append(types, typ)
			}
		}
		if len(types) == 0 {
			k = 0
		}
		for x := 0; x < k; x++ {
			typ, d := types[r.IntN(len(types))], randDur(r)
			in.Total.Record(typ, d)
			ref.ev[typ] = append(ref.ev[typ], d)
		}
		for x, e := 0, r.Int(0, 4); x < e; x++ {
			c := errCodes[r.IntN(len(errCodes))]
			m := uint64(r.Int(1, 2000))
			in.Total.Errors[c] += m
			ref.errs[c] += m
		}
		out = append(out, refInst{in, ref})
	}
	return out
}

// checkLine compares the columns of one report line.
func checkLine(cols []string, ps []float64, rows []refInst, compute string) string {
	all := newRef()
	clients := uint(0)
	for _, x := range rows {
		all.combine(x.ref)
		clients += x.in.Clients
	}
	if len(cols) != 4+4*(3+len(ps))+2 {
		return fmt.Sprintf("%d columns, expected %d", len(cols), 4+4*(3+len(ps))+2)
	}
	first := rows[0].in
	num := func(s string) int64 {
		n, err := strconv.ParseInt(strings.ReplaceAll(s, ",", ""), 10, 64)
		if err != nil {
			return math.MinInt64
		}
		return n
	}
	if cols[0] != fmt.Sprint(first.Interval) {
		return fmt.Sprintf("interval %s, expected %d", cols[0], first.Interval)
	}
	okD, okR := false, false
	minS, maxS := first.Seconds, first.Seconds
	for _, x := range rows { // if combined, any one of theirs
		okD = okD || cols[1] == fmt.Sprintf("%.1f", x.in.Seconds)
		okR = okR || cols[2] == fmt.Sprintf("%.1f", x.in.Runtime)
		minS, maxS = math.Min(minS, x.in.Seconds), math.Max(maxS, x.in.Seconds)
	}
	if !okD || !okR {
		return fmt.Sprintf("duration %s runtime %s, expected %.1f %.1f", cols[1], cols[2], first.Seconds, first.Runtime)
	}
	// all rates of a line are per second of the duration that the line shows
	if len(rows) > 1 {
		okRate := false
		for _, x := range rows {
			ok := cols[1] == fmt.Sprintf("%.1f", x.in.Seconds)
			for i, typ := range []byte{stats.TOTAL, stats.READ, stats.WRITE, stats.COMMIT} {
				g := float64(num(cols[4+i*(3+len(ps))]))
				ok = ok && math.Abs(g-float64(len(all.of(typ)))/x.in.Seconds) <= 1.0001
			}
			okRate = okRate || ok
		}
		if !okRate {
			return fmt.Sprintf("rates %s %s %s %s do not match the duration shown, %s s (%d events)", cols[4], cols[4+3+len(ps)], cols[4+2*(3+len(ps))], cols[4+3*(3+len(ps))], cols[1], len(all.of(stats.TOTAL)))
		}
	}
	if num(cols[3]) != int64(clients) {
		return fmt.Sprintf("clients %s, expected %d", cols[3], clients)
	}
	col := 4
	for _, typ := range []byte{stats.TOTAL, stats.READ, stats.WRITE, stats.COMMIT} {
		ev := all.of(typ)
		rate := float64(len(ev)) / first.Seconds
		if g := float64(num(cols[col])); g > float64(len(ev))/minS+1 || g < float64(len(ev))/maxS-1 {
			return fmt.Sprintf("%s rate %s, expected %.2f (%d events in %.3f s)", typNames[typ], cols[col], rate, len(ev), first.Seconds)
		}
		var mn, mx int64
		for i, d := range ev {
			if i == 0 || d < mn {
				mn = d
			}
			if d > mx {
				mx = d
			}
		}
		if num(cols[col+1]) != mn {
			return fmt.Sprintf("%s min %s, expected %d", typNames[typ], cols[col+1], mn)
		}
		for i, p := range ps {
			q := num(cols[col+2+i])
			if q < 0 {
				return fmt.Sprintf("%s P%v is %q", typNames[typ], p, cols[col+2+i])
			}
			if bad := badPercentile(uint64(q), ev, p); bad != "" {
				return typNames[typ] + ": " + bad
			}
		}
		if num(cols[col+2+len(ps)]) != mx {
			return fmt.Sprintf("%s max %s, expected %d", typNames[typ], cols[col+2+len(ps)], mx)
		}
		col += 3 + len(ps)
	}
	var errs uint64
	for _, v := range all.errs {
		errs += v
	}
	if num(cols[col]) != int64(errs) {
		return fmt.Sprintf("errors %s, expected %d", cols[col], errs)
	}
	if c := strings.Trim(cols[col+1], "()"); c != compute {
		return fmt.Sprintf("compute %q, expected %q", cols[col+1], compute)
	}
	return ""
}

// percentiles option: text and the expected names and values
func randPOpt(r *kit.Rand) (string, []string, []float64) {
	if r.P(0.25) {
		return "", []string{"P999"}, []float64{99.9}
	}
	opt, names, ps := []string{}, []string{}, []float64{}
	for _, p := range randPs(r) {
		s := strconv.FormatFloat(p, 'f', -1, 64)
		if p == 99.9 && r.P(0.5) {
			s = "999"
		}
		opt = append(opt, kit.Pick(r, "P", "")+s)
		names = append(names, "P"+s)
		ps = append(ps, p)
	}
	return strings.Join(opt, ","), names, ps
}

func wantHeader(names []string) []string {
	h := []string{"interval", "duration", "runtime", "clients"}
	for _, g := range []string{"", "r_", "w_", "c_"} {
		rate := g + "QPS"
		if g == "c_" {
			rate = "TPS"
		}
		h = append(h, rate, g+"min")
		for _, n := range names {
			h = append(h, g+n)
		}
		h = append(h, g+"max")
	}
	return append(h, "errors", "compute")
}

func c22csv(t *kit.T) {
	r := t.R
	opt, names, ps := randPOpt(r)
	dir, err := kit.ScratchDir()
	if err != nil {
		t.Failf("harness", "%s", err)
		return
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "out.csv")
	opts := map[string]string{"file": file}
	if opt != "" {
		opts["percentiles"] = opt
	}
	key := "report:csv"
	guard(t, key, "csv reporter", func() {
		rep, err := stats.NewCSV(opts)
		if err != nil {
			t.Failf(key, "csv reporter with percentiles %q: %s", opt, err)
			return
		}
		if _, err := stats.NewCSV(opts); err == nil {
			t.Failf(key, "csv reporter overwrites an existing file")
			return
		}
		var all [][]refInst
		for i, n := 0, r.Int(1, 4); i < n; i++ {
			ri := randInstances(r)
			all = append(all, ri)
			from := []stats.Instance{}
			for _, x := range ri {
				from = append(from, cloneInstance(x.in))
			}
			rep.Report(from)
			for j := range from {
				if !sameStats(from[j].Total, ri[j].in.Total) {
					t.Failf(key, "csv reporter changed the stats it was given")
					return
				}
			}
		}
		rep.Stop()
		b, err := os.ReadFile(file)
		if err != nil {
			t.Failf(key, "csv: %s", err)
			return
		}
		cr := csv.NewReader(strings.NewReader(string(b)))
		cr.FieldsPerRecord = -1
		lines, err := cr.ReadAll()
		if err != nil || len(lines) != len(all)+1 {
			t.Fail(key, fmt.Sprintf("csv has %d lines after %d reports (%v)", len(lines), len(all), err), map[string]interface{}{"file": string(b)})
			return
		}
		if fmt.Sprint(lines[0]) != fmt.Sprint(wantHeader(names)) {
			t.Failf(key, "csv header %v, expected %v", lines[0], wantHeader(names))
			return
		}
		nt := false
		for i := range all {
			compute := all[i][0].in.Hostname
			if len(all[i]) > 1 {
				compute = fmt.Sprintf("%d combined", len(all[i]))
			}
			if bad := checkLine(lines[i+1], ps, all[i], compute); bad != "" {
				t.Fail(key, fmt.Sprintf("csv line %d: %s", i+1, bad), map[string]interface{}{"header": lines[0], "line": lines[i+1], "percentiles": opt})
				return
			}
			for _, x := range all[i] {
				nt = nt || x.ref.n() > 0
			}
			t.Count("lines_compared", 1)
		}
		t.Eval(opt+"|"+string(b), nt)
		t.Sample(map[string]interface{}{"percentiles": opt, "csv": string(b)})
	})
}

func c22stdout(t *kit.T) {
	r := t.R
	opt, names, ps := randPOpt(r)
	dir, err := kit.ScratchDir()
	if err != nil {
		t.Failf("harness", "%s", err)
		return
	}
	defer os.RemoveAll(dir)
	f, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		t.Failf("harness", "%s", err)
		return
	}
	defer f.Close()
	opts := map[string]string{}
	if opt != "" {
		opts["percentiles"] = opt
	}
	// explicit values only; defaults of one when the other is set are not specified
	each, combined := true, true
	if r.P(0.6) {
		each, combined = r.P(0.5), r.P(0.5)
		opts["each-instance"] = kit.Pick(r, "true", "yes", "on")
		if !each {
			opts["each-instance"] = kit.Pick(r, "false", "no", "off")
		}
		opts["combined"] = kit.Pick(r, "true", "yes", "on")
		if !combined {
			opts["combined"] = kit.Pick(r, "false", "no", "off")
		}
	}
	key := "report:stdout"
	guard(t, key, "stdout reporter", func() {
		old := os.Stdout
		os.Stdout = f
		defer func() { os.Stdout = old }()
		rep, err := stats.NewStdout(opts)
		if err != nil {
			t.Failf(key, "stdout reporter with %v: %s", opts, err)
			return
		}
		nt := false
		want := []func([]string) string{}
		for i, n := 0, r.Int(1, 4); i < n; i++ {
			ri := randInstances(r)
			from := []stats.Instance{}
			for _, x := range ri {
				from = append(from, cloneInstance(x.in))
				nt = nt || x.ref.n() > 0
			}
			rep.Report(from)
			want = append(want, nil) // header
			if each {
				for _, x := range ri {
					x := x
					want = append(want, func(cols []string) string { return checkLine(cols, ps, []refInst{x}, x.in.Hostname) })
				}
			}
			if combined && len(ri) > 1 {
				want = append(want, func(cols []string) string {
					return checkLine(cols, ps, ri, fmt.Sprintf("%d combined", len(ri)))
				})
			}
			for j := range from {
				if !sameStats(from[j].Total, ri[j].in.Total) {
					t.Failf(key, "stdout reporter changed the stats it was given")
					return
				}
			}
		}
		rep.Stop()
		os.Stdout = old
		b, _ := os.ReadFile(f.Name())
		got := [][]string{}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			cols := strings.Split(l, "|")
			for i := range cols {
				cols[i] = strings.TrimSpace(cols[i])
			}
			got = append(got, cols)
		}
		if len(got) != len(want) {
			t.Fail(key, fmt.Sprintf("stdout report has %d lines, expected %d", len(got), len(want)), map[string]interface{}{"output": string(b), "opts": opts})
			return
		}
		for i, w := range want {
			if w == nil {
				if fmt.Sprint(got[i]) != fmt.Sprint(wantHeader(names)) {
					t.Failf(key, "stdout header %v, expected %v", got[i], wantHeader(names))
					return
				}
				continue
			}
			if bad := w(got[i]); bad != "" {
				t.Fail(key, "stdout line: "+bad, map[string]interface{}{"output": string(b), "opts": opts})
				return
			}
			t.Count("lines_compared", 1)
		}
		t.Eval(fmt.Sprint(opts)+string(b), nt)
		t.Sample(map[string]interface{}{"opts": opts, "output": string(b)})
	})
}

// c16late stops a collector with a running ticker, before or after the middle of
// the last interval, while the stats of remote instances arrive before Stop, while
// Stop waits, or never.
func c16late(t *kit.T) {
	r := t.R
	id := fmt.Sprintf("c16late-%d", t.I)
	rep := newMem(id)
	freq := 240 * time.Millisecond
	remotes := r.Int(0, 3)
	k := r.Int(0, 2) // ticks
	half := r.P(0.7)
	if k == 0 {
		half = true
	}
	c, err := stats.NewCollector(config.Stats{Freq: freq.String(), Report: map[string]map[string]string{"vmem": {"id": id}}}, "local", uint(1+remotes))
	if err != nil {
		t.Failf("stats:late", "NewCollector: %s", err)
		return
	}
	last := k // the last interval
	stopAt := time.Duration(k)*freq + time.Duration(r.Int(12, 28))*freq/100
	if half {
		last = k + 1
		stopAt = time.Duration(k)*freq + time.Duration(r.Int(65, 85))*freq/100
	}
	nTrx := r.Int(1, 3)
	var trx []*stats.Trx
	for i := 0; i < nTrx; i++ {
		trx = append(trx, stats.NewTrx(fmt.Sprintf("t%d", i)))
	}
	c.Watch(trx)
	type ev struct {
		at   time.Duration
		rem  int // -1: a local event
		iv   int
		what string
	}
	var evs []ev
	hist := ""
	final := 0 // remote instances whose last stats arrive
	after := time.Duration(0)
	for i := 0; i < remotes; i++ {
		for iv := 1; iv <= last; iv++ {
			at := time.Duration(iv)*freq + time.Duration(r.Int(-30, 25))*freq/100
			if iv == last {
				switch r.IntN(4) {
				case 0:
					continue // lost
				case 1:
					at = stopAt + time.Duration(r.Int(20, 250))*time.Millisecond
					after = max(after, at-stopAt)
				default:
					at = stopAt - time.Duration(r.Int(8, 25))*time.Millisecond
				}
				final++
				hist += fmt.Sprintf("remote%d:last@%dms ", i, at.Milliseconds())
			}
			evs = append(evs, ev{at, i, iv, "recv"})
		}
	}
	lim := int(stopAt / time.Millisecond)
	if !half {
		lim = int((time.Duration(k)*freq - freq/4) / time.Millisecond)
	}
	for i, n := 0, r.Int(0, 12); i < n; i++ {
		evs = append(evs, ev{time.Duration(r.Int(0, lim-5)) * time.Millisecond, -1, 0, ""})
	}
	if half && r.P(0.7) { // in the last interval
		evs = append(evs, ev{stopAt - 3*time.Millisecond, -1, 0, ""})
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	hist = fmt.Sprintf("freq %v, Stop at %v (%d ticks), %d remotes: %s", freq, stopAt, k, remotes, hist)
	fail := func(f string, a ...interface{}) {
		t.FailTimed("stats:late", fmt.Sprintf(f, a...)+" ("+hist+")", nil)
	}
	local := [4]uint64{}
	sentN := map[arrival]uint64{}
	const timeout = 700 * time.Millisecond
	var ok bool
	var took time.Duration
	good := guard(t, "stats:late", "collector "+hist, func() {
		start := time.Now()
		c.Start()
		one := func(e ev) {
			time.Sleep(e.at - time.Since(start))
			if e.rem < 0 {
				typ := byte(e.at.Microseconds() / 1000 % 4)
				trx[int(e.at/time.Millisecond)%nTrx].Record(typ, 5)
				local[typ]++
				return
			}
			in := stats.NewInstance(fmt.Sprintf("remote%d", e.rem))
			in.Clients, in.Interval, in.Seconds, in.Runtime = 1, uint(e.iv), freq.Seconds(), e.at.Seconds()
			for j := 0; j <= e.rem+e.iv; j++ {
				in.Total.Record(stats.READ, 7)
			}
			in.Trx["t0"] = stats.NewStats()
			in.Trx["t0"].Copy(in.Total)
			c.Recv(in)
		}
		i := 0
		for ; i < len(evs) && evs[i].at < stopAt; i++ {
			one(evs[i])
		}
		rest := evs[i:]
		done := make(chan struct{})
		go func() {
			defer close(done)
			for _, e := range rest {
				one(e)
			}
		}()
		time.Sleep(stopAt - time.Since(start))
		t0 := time.Now()
		ok = c.Stop(timeout, r.P(0.3))
		took = time.Since(t0)
		<-done
		time.Sleep(time.Duration(r.IntN(2)) * 5 * time.Millisecond)
	})
	if !good {
		return
	}
	for i := 0; i < remotes; i++ {
		for iv := 1; iv <= last; iv++ {
			sentN[arrival{i, iv}] = uint64(i + iv + 1)
		}
	}
	rep.mu.Lock()
	defer rep.mu.Unlock()
	if rep.stopped != 1 || rep.late > 0 {
		fail("the reporter was stopped %d times, and called %d times after that", rep.stopped, rep.late)
	}
	if len(rep.reports) != last {
		fail("%d reports, expected %d", len(rep.reports), last)
		return
	}
	got := [4]uint64{}
	for i, ins := range rep.reports {
		want := 1 + remotes
		if i == last-1 {
			want = 1 + final
		}
		if len(ins) != want {
			fail("report %d has %d instances, expected %d", i+1, len(ins), want)
			return
		}
		seen := map[string]bool{}
		for _, in := range ins {
			if in.Interval != uint(i+1) || seen[in.Hostname] {
				fail("report %d has interval %d of %s (twice: %v)", i+1, in.Interval, in.Hostname, seen[in.Hostname])
				return
			}
			seen[in.Hostname] = true
			if in.Hostname == "local" {
				for typ := range got {
					got[typ] += in.Total.N[typ]
				}
				continue
			}
			var no int
			fmt.Sscanf(in.Hostname, "remote%d", &no)
			if in.Total.N[stats.READ] != sentN[arrival{no, i + 1}] {
				fail("report %d: %d reads of %s, which sent %d", i+1, in.Total.N[stats.READ], in.Hostname, sentN[arrival{no, i + 1}])
				return
			}
		}
	}
	for _, b := range []byte{stats.READ, stats.WRITE, stats.COMMIT} {
		if got[b] != local[b] {
			fail("%d events of type %d of the local instance reported, %d recorded", got[b], b, local[b])
			return
		}
	}
	if ok != (final == remotes) {
		fail("Stop returned %v, %d of %d remote instances sent final stats", ok, final, remotes)
	}
	if final == remotes && took > after+250*time.Millisecond {
		fail("Stop took %v although the last stats arrived after %v", took, after)
	}
	if final < remotes && took < timeout-100*time.Millisecond {
		fail("Stop gave up on final stats after %v, its timeout is %v", took, timeout)
	}
	t.Count("reports", len(rep.reports))
	t.Count("stops_with_late_stats", boolInt(after > 0))
	t.Count("stops_with_lost_stats", boolInt(final < remotes))
	t.Eval(hist, remotes > 0)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
