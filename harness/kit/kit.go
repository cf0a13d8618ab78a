// Package kit is the common machinery of the checks: sharded worker processes,
// deterministic case generation, violation and known-finding reporting, and
// evidence files that only contain what was measured in the run.
package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Root is the /verif directory (set by run.sh).
var Root = envOr("VERIF_ROOT", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Build is where run.sh put the binaries built from /repo's working tree.
// Fast is for mutation campaigns: stop at the first violation.
var Fast = os.Getenv("VERIF_FAST") != ""

func Build() string { return envOr("VERIF_BUILD", filepath.Join(Root, ".build")) }

// Rand is a deterministic random source for one case.
type Rand struct{ *rand.Rand }

func NewRand(seed uint64, key string) *Rand {
	h := fnv.New64a()
	h.Write([]byte(key))
	return &Rand{rand.New(rand.NewPCG(seed*0x9e3779b97f4a7c15+1, h.Sum64()))}
}

// Int returns a value in [lo, hi].
func (r *Rand) Int(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

func Pick[T any](r *Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func Shuffle[T any](r *Rand, xs []T) {
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
}

// Part is one family of cases of a check.
type Part struct {
	Name     string
	Quick    int  // cases in the quick tier
	Thorough int  // cases in the thorough tier
	Par      int  // concurrent cases inside one worker (e2e); 0 = 1
	Race     bool // worker runs from the race-enabled harness binary
	// Sanitize: the cases of another check, run with the race-enabled finch;
	// only crashes, hangs and data races count, the rest is that check's.
	Sanitize bool
	Run      func(t *T)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Parts       []Part
	// Floor: the least distinct non-trivial cases an honest quick run sees.
	// Falling short is an error of the check (exit 2), never a pass.
	Floor int
}

var Checks = map[string]*Check{}

func Register(c *Check) { Checks[c.ID] = c }

// T is one running case.
type T struct {
	Check *Check
	Part  *Part
	I     int
	Seed  uint64
	Tier  string
	R     *Rand
	rec   *recorder

	timed []*Violation // violations of time bounds, to be confirmed
}

type Violation struct {
	Key    string                 `json:"key"` // identifies the failing input/site/history for known findings
	What   string                 `json:"what"`
	Part   string                 `json:"part"`
	Case   int                    `json:"case"`
	Detail map[string]interface{} `json:"detail,omitempty"`
}

type recorder struct {
	mu       sync.Mutex
	w        *bufio.Writer
	counters map[string]int64
	sets     map[string]map[uint64]bool
	evals    int64
	samples  map[string]int
	nv       atomic.Int64      // violations that are not known findings
	known    map[string]string // known findings
}

type msg struct {
	V          *Violation          `json:"v,omitempty"`
	Evals      int64               `json:"evals,omitempty"`
	Counters   map[string]int64    `json:"counters,omitempty"`
	Sets       map[string][]uint64 `json:"sets,omitempty"`
	Sample     interface{}         `json:"sample,omitempty"`
	SamplePart string              `json:"sample_part,omitempty"`
	Done       bool                `json:"done,omitempty"`
}

func (r *recorder) send(m msg) {
	b, err := json.Marshal(m)
	if err != nil {
		b, _ = json.Marshal(msg{V: &Violation{Key: "harness", What: "cannot encode: " + err.Error()}})
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.w.Flush()
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Eval counts one evaluated case; key identifies it, and it is added to the
// distinct set only if nontrivial.
func (t *T) Eval(key string, nontrivial bool) {
	if t.Part.Sanitize {
		return // see RunOK and RunCluster
	}
	t.eval(key, nontrivial)
}

func (t *T) eval(key string, nontrivial bool) {
	t.rec.mu.Lock()
	t.rec.evals++
	t.rec.mu.Unlock()
	if nontrivial {
		t.Distinct("cases", t.Part.Name+"|"+key)
	}
}

// Count adds to a measured counter.
func (t *T) Count(name string, n int) {
	t.rec.mu.Lock()
	t.rec.counters[name] += int64(n)
	t.rec.mu.Unlock()
}

// Distinct adds key to a named set whose size is reported.
func (t *T) Distinct(set, key string) {
	t.rec.mu.Lock()
	s := t.rec.sets[set]
	if s == nil {
		s = map[uint64]bool{}
		t.rec.sets[set] = s
	}
	s[hash(key)] = true
	t.rec.mu.Unlock()
}

// Sample records an actual case (the first few per part are kept).
func (t *T) Sample(v interface{}) {
	t.rec.mu.Lock()
	defer t.rec.mu.Unlock()
	if t.rec.samples[t.Part.Name] >= 1 {
		return
	}
	t.rec.samples[t.Part.Name]++
	t.rec.send(msg{Sample: v, SamplePart: t.Part.Name})
}

// Fail reports a violation. key names the specific failing input, site or
// history (for known findings).
func (t *T) Fail(key, what string, detail map[string]interface{}) {
	if t.Part.Sanitize && !strings.HasSuffix(key, ":crash") && !strings.HasSuffix(key, ":hang") && key != "harness" {
		return
	}
	t.rec.mu.Lock()
	defer t.rec.mu.Unlock()
	t.rec.counters["violations_seen"]++
	if _, ok := t.rec.known[key]; !ok {
		t.rec.nv.Add(1)
	}
	t.rec.send(msg{V: &Violation{Key: key, What: what, Part: t.Part.Name, Case: t.I, Detail: detail}})
}

// FailTimed reports a violation of a time bound. Because a stalled machine can
// cause one too, the case is run again (alone in its worker), up to three
// times, and the violation is reported only if the same bound is missed again.
func (t *T) FailTimed(key, what string, detail map[string]interface{}) {
	if t.Part.Sanitize {
		return
	}
	t.rec.mu.Lock()
	defer t.rec.mu.Unlock()
	t.timed = append(t.timed, &Violation{Key: key, What: what, Part: t.Part.Name, Case: t.I, Detail: detail})
}

func (t *T) Failf(key string, format string, a ...interface{}) {
	t.Fail(key, fmt.Sprintf(format, a...), nil)
}

// N is the number of cases of a part in a tier.
func (p *Part) N(tier string) int {
	if tier == "thorough" && p.Thorough > 0 {
		return p.Thorough
	}
	return p.Quick
}

// ---------------------------------------------------------------------------

func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check ID [-case part/i] | list")
		os.Exit(2)
	}
	if os.Args[1] == "list" {
		ids := []string{}
		for id := range Checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	c := Checks[os.Args[1]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := envOr("VERIF_TIER", "quick")
	if len(os.Args) >= 5 && os.Args[2] == "-worker" { // -worker PART from/step [only]
		worker(c, os.Args[3], os.Args[4], seed, tier)
		return
	}
	only := ""
	if len(os.Args) >= 4 && os.Args[2] == "-case" {
		only = os.Args[3]
	}
	os.Exit(parent(c, seed, tier, only))
}

func worker(c *Check, part, shard string, seed uint64, tier string) {
	var p *Part
	for i := range c.Parts {
		if c.Parts[i].Name == part {
			p = &c.Parts[i]
		}
	}
	if p == nil {
		os.Exit(2)
	}
	out := os.NewFile(3, "results")
	rec := &recorder{w: bufio.NewWriter(out), counters: map[string]int64{}, sets: map[string]map[uint64]bool{}, samples: map[string]int{}, known: knownFindings(c.ID)}
	cur := os.NewFile(4, "current")
	from, step := 0, 1
	only := -1
	if strings.HasPrefix(shard, "=") {
		only, _ = strconv.Atoi(shard[1:])
	} else {
		fmt.Sscanf(shard, "%d/%d", &from, &step)
	}
	soft, err := strconv.ParseInt(os.Getenv("VERIF_SOFT"), 10, 64)
	if err != nil {
		soft = 1 << 62
	}
	stopFile := os.Getenv("VERIF_STOP")
	n := p.N(tier)
	newT := func(i int) *T {
		return &T{Check: c, Part: p, I: i, Seed: seed, Tier: tier, R: NewRand(seed, fmt.Sprintf("%s/%s/%d", c.ID, p.Name, i)), rec: rec}
	}
	var gate sync.RWMutex // a confirming run has the worker for itself
	run := func(i int) {
		fmt.Fprintf(cur, "%d\n", i)
		t := newT(i)
		gate.RLock()
		p.Run(t)
		if p.Race && p.Sanitize {
			t.eval(fmt.Sprint(i), true) // the worker itself is watched
		}
		gate.RUnlock()
		if len(t.timed) == 0 {
			return
		}
		gate.Lock()
		defer gate.Unlock()
		for k := 0; k < 3; k++ {
			if rec.nv.Load() >= 30 {
				return
			}
			t2 := newT(i)
			p.Run(t2)
			for _, v := range t2.timed {
				if v.Key == t.timed[0].Key {
					t.Fail(v.Key, v.What, v.Detail)
					return
				}
			}
		}
		t.Count("time_bounds_missed_once_only", 1)
	}
	if only >= 0 {
		run(only)
	} else {
		par := p.Par
		if par <= 0 {
			par = 1
		}
		ch := make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					run(i)
				}
			}()
		}
		for i := from; i < n; i += step {
			if rec.nv.Load() >= 30 {
				break // broken beyond doubt
			}
			if stopFile != "" {
				if _, err := os.Stat(stopFile); err == nil {
					newT(i).Count("cases_not_run_after_a_violation", (n-i+step-1)/step)
					break
				}
			}
			if time.Now().Unix() > soft {
				t := newT(i)
				t.Count("cases_not_run_for_lack_of_time", (n-i+step-1)/step)
				break
			}
			ch <- i
		}
		close(ch)
		wg.Wait()
	}
	rec.mu.Lock()
	m := msg{Evals: rec.evals, Counters: rec.counters, Sets: map[string][]uint64{}, Done: true}
	for k, s := range rec.sets {
		for h := range s {
			m.Sets[k] = append(m.Sets[k], h)
		}
	}
	rec.send(m)
	rec.mu.Unlock()
}

type result struct {
	vs       []Violation
	evals    int64
	counters map[string]int64
	sets     map[string]map[uint64]bool
	samples  []interface{}
	harness  []string
	once     sync.Once
	first    func(*Violation) // called with every violation
	cut      chan struct{}    // closed when running cases are cut off
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<20 {
		return len(p), nil
	}
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func parent(c *Check, seed uint64, tier, only string) int {
	t0 := time.Now()
	res := &result{counters: map[string]int64{}, sets: map[string]map[uint64]bool{}}
	var mu sync.Mutex
	// Past the soft limit no new case starts; past the hard limit something hangs.
	soft, limit := 540*time.Second, 780*time.Second
	if tier == "thorough" {
		soft, limit = 3*time.Hour, 4*time.Hour
	}
	deadline := time.Now().Add(limit)
	os.Setenv("VERIF_SOFT", fmt.Sprint(time.Now().Add(soft).Unix()))
	// After a violation there is no need to go on for long: soon no new case
	// starts, and later cases that still run (hang) are cut off.
	scratch, err := os.MkdirTemp("", "verif-scratch-")
	if err != nil {
		fmt.Println("HARNESS ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Setenv("VERIF_SCRATCH", scratch)
	stopFile := filepath.Join(scratch, "stop")
	os.Setenv("VERIF_STOP", stopFile)
	res.cut = make(chan struct{})
	known := knownFindings(c.ID)
	res.first = func(v *Violation) {
		if _, ok := known[v.Key]; ok || strings.HasPrefix(v.Key, "harness") || tier == "thorough" {
			return
		}
		res.once.Do(func() {
			time.AfterFunc(60*time.Second, func() { os.WriteFile(stopFile, nil, 0o644) })
			time.AfterFunc(150*time.Second, func() { close(res.cut) })
		})
	}
	partWall := map[string]float64{}
	partCases := map[string]int{}
	for pi := range c.Parts {
		p := &c.Parts[pi]
		n := p.N(tier)
		if n == 0 {
			continue
		}
		if _, err := os.Stat(stopFile); err == nil {
			break
		}
		tp := time.Now()
		shards := runtime.NumCPU()
		if shards > n {
			shards = n
		}
		args := []string{}
		if only != "" {
			if !strings.HasPrefix(only+"/", p.Name+"/") {
				continue
			}
			if only != p.Name {
				args = append(args, "="+strings.TrimPrefix(only, p.Name+"/"))
			}
		}
		if len(args) == 0 {
			for s := 0; s < shards; s++ {
				args = append(args, fmt.Sprintf("%d/%d", s, shards))
			}
		}
		var wg sync.WaitGroup
		for _, a := range args {
			wg.Add(1)
			go func(a string) {
				defer wg.Done()
				runShard(c, p, a, deadline, res, &mu)
			}(a)
		}
		wg.Wait()
		partWall[p.Name] = time.Since(tp).Seconds()
		partCases[p.Name] = n
	}
	return report(c, seed, tier, only, res, partWall, partCases, time.Since(t0))
}

func runShard(c *Check, p *Part, shard string, deadline time.Time, res *result, mu *sync.Mutex) {
	bin := filepath.Join(Build(), "check")
	if p.Race {
		bin = filepath.Join(Build(), "check-race")
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	curf, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "verif-cur-")
	if err != nil {
		panic(err)
	}
	defer os.Remove(curf.Name())
	cmd := exec.Command(bin, c.ID, "-worker", p.Name, shard)
	cmd.ExtraFiles = []*os.File{w, curf}
	out := &lockedBuf{}
	cmd.Stdout, cmd.Stderr = out, out
	if strings.HasPrefix(shard, "=") {
		cmd.Stdout = os.Stdout
	}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the thread that forked
	if err := cmd.Start(); err != nil {
		mu.Lock()
		res.harness = append(res.harness, err.Error())
		mu.Unlock()
		w.Close()
		return
	}
	w.Close()
	timedOut := false
	timer := time.AfterFunc(time.Until(deadline), func() {
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		time.AfterFunc(5*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	})
	wasCut, ended := atomic.Bool{}, make(chan struct{})
	go func() {
		select {
		case <-res.cut:
			wasCut.Store(true)
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		case <-ended:
		}
	}()
	done := false
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var m msg
		if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
			mu.Lock()
			res.harness = append(res.harness, "bad worker message: "+err.Error())
			mu.Unlock()
			continue
		}
		mu.Lock()
		if m.V != nil {
			res.vs = append(res.vs, *m.V)
			res.first(m.V)
			if Fast && !strings.HasPrefix(m.V.Key, "harness") {
				os.RemoveAll(os.Getenv("VERIF_SCRATCH"))
				if f := os.Getenv("VERIF_FAST_OUT"); f != "" {
					b, _ := json.MarshalIndent(m.V, "", " ")
					os.WriteFile(f, b, 0o644)
				}
				fmt.Printf("VIOLATION property=%s replay=none\n  [%s] %s/%d: %s\n", c.ID, m.V.Key, m.V.Part, m.V.Case, Tail(m.V.What, 500))
				os.Exit(1)
			}
		}
		if m.Sample != nil && len(res.samples) < 12 {
			seen := false
			for _, s := range res.samples {
				if mm, ok := s.(map[string]interface{}); ok && mm["part"] == m.SamplePart {
					seen = true
				}
			}
			if !seen {
				res.samples = append(res.samples, map[string]interface{}{"part": m.SamplePart, "case": m.Sample})
			}
		}
		res.evals += m.Evals
		for k, v := range m.Counters {
			res.counters[k] += v
		}
		for k, hs := range m.Sets {
			s := res.sets[k]
			if s == nil {
				s = map[uint64]bool{}
				res.sets[k] = s
			}
			for _, h := range hs {
				s[h] = true
			}
		}
		if m.Done {
			done = true
		}
		mu.Unlock()
	}
	err = cmd.Wait()
	timer.Stop()
	close(ended)
	runtime.UnlockOSThread()
	r.Close()
	if (!done || err != nil) && !wasCut.Load() {
		b, _ := os.ReadFile(curf.Name())
		lines := strings.Fields(string(b))
		last := -1
		if len(lines) > 0 {
			last, _ = strconv.Atoi(lines[len(lines)-1])
		}
		o := out.String()
		what := fmt.Sprintf("the process running the code under test ended abnormally: %v", err)
		if timedOut {
			what = "the code under test did not finish (hang)"
		}
		if strings.Contains(o, "DATA RACE") {
			what = "data race detected"
		} else if i := strings.Index(o, "panic:"); i >= 0 {
			what += ": " + firstLine(o[i:])
		} else if i := strings.Index(o, "fatal error:"); i >= 0 {
			what += ": " + firstLine(o[i:])
		}
		mu.Lock()
		res.vs = append(res.vs, Violation{Key: "crash:" + p.Name, What: what, Part: p.Name, Case: last, Detail: map[string]interface{}{"output": Tail(o, 12000), "shard": shard}})
		mu.Unlock()
	}
	curf.Close()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Tail keeps the first and last halves of a long text.
func Tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...[cut]...\n" + s[len(s)-n/2:]
}

// knownFindings reads /verif/known_findings.txt:
//
//	known: property=C08 key=<key> <what fails>
//	fixed: property=C08 <commit> <what failed>     (suppresses nothing)
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(Root, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" key=")
		f := strings.SplitN(l, " ", 2)
		if len(f) == 2 {
			out[f[0]] = f[1]
		}
	}
	return out
}

func report(c *Check, seed uint64, tier, only string, res *result, partWall map[string]float64, partCases map[string]int, wall time.Duration) int {
	known := knownFindings(c.ID)
	knownSeen := map[string]int{}
	byKey := map[string][]Violation{}
	keys := []string{}
	nv := 0
	for _, v := range res.vs {
		if strings.HasPrefix(v.Key, "harness") {
			res.harness = append(res.harness, v.What)
			continue
		}
		if _, ok := known[v.Key]; ok {
			knownSeen[v.Key]++
			continue
		}
		nv++
		if _, ok := byKey[v.Key]; !ok {
			keys = append(keys, v.Key)
		}
		byKey[v.Key] = append(byKey[v.Key], v)
	}
	sort.Strings(keys)
	dir := filepath.Join(Root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	for i, k := range keys {
		vs := byKey[k]
		sort.Slice(vs, func(a, b int) bool { return vs[a].Case < vs[b].Case })
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, i+1))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.ID, "seed": seed, "tier": tier, "key": k, "count": len(vs), "first": vs[0],
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/run.sh %s -case %s/%d", seed, tier, c.ID, vs[0].Part, vs[0].Case),
		}, "", "  ")
		os.WriteFile(path, b, 0o644)
		if i < 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  [%s] x%d %s/%d: %s\n", k, len(vs), vs[0].Part, vs[0].Case, Tail(vs[0].What, 2000))
		}
	}
	for k, what := range known {
		if knownSeen[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (key=%s, seen %d times)\n", c.ID, what, k, knownSeen[k])
		} else {
			fmt.Printf("KNOWN-FINDING: property=%s %s (key=%s, listed; not reproduced in this run)\n", c.ID, what, k)
		}
	}
	distinct := len(res.sets["cases"])
	cov := map[string]interface{}{
		"evaluations":         res.evals,
		"distinct_nontrivial": distinct,
		"rule":                c.Rule,
		"samples":             res.samples,
		"measured":            res.counters,
		"cases_per_part":      partCases,
		"wall_s_per_part":     partWall,
	}
	ds := map[string]int{}
	for k, s := range res.sets {
		if k != "cases" {
			ds[k] = len(s)
		}
	}
	cov["distinct_observed"] = ds
	if len(knownSeen) > 0 {
		cov["known_findings_reproduced"] = knownSeen
	}
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": wall.Seconds(), "violations": nv,
	}
	if c.Assumptions == nil {
		delete(ev, "assumptions")
	}
	if only == "" {
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(Root, "evidence", c.ID+".json"), b, 0o644); err != nil {
			res.harness = append(res.harness, err.Error())
		}
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %v, %d violations, %.1fs (seed %d, %s)\n", c.ID, res.evals, distinct, ds, nv, wall.Seconds(), seed, tier)
	if nv > 0 {
		return 1
	}
	if len(res.harness) > 0 {
		for _, h := range res.harness {
			fmt.Println("HARNESS ERROR:", h)
		}
		return 2
	}
	if only == "" && distinct < c.Floor {
		fmt.Printf("HARNESS ERROR: only %d distinct non-trivial cases observed, expected at least %d\n", distinct, c.Floor)
		return 2
	}
	return 0
}

// Clip shortens the output of a process; a goroutine dump at its end gets its
// own share.
func Clip(s string, n int) string {
	if i := strings.Index(s, "SIGQUIT: quit"); i >= 0 {
		return Tail(s[:i], n) + "\n" + Tail(s[i:], n)
	}
	return Tail(s, n)
}
