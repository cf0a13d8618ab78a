def e2e(files, args, body, h="nil"):
    import json
    fs = "".join(f"\t\t{json.dumps(k)}: {json.dumps(v)},\n" for k, v in files.items())
    return MAIN + '''func main() {
	r := Run(Sc{Files: map[string]string{
''' + fs + '''	}, Args: []string{''' + ", ".join(json.dumps(a) for a in args) + '''}, H: ''' + h + '''})
	_ = r
''' + body + "}\n"
M = "  mysql:\n    hostname: {{ADDR}}\n"
bug("C21-strfill-share", "C21", "several clients that generate strings with the same data key at the same time",
 "copies of str-fill-az share one random source, which is not safe for concurrent use",
 [("data/string.go", "	return &StrFillAz{\n		len: g.len,\n		src: rand.NewSource(time.Now().UnixNano()),\n	}", "	return &StrFillAz{\n		len: g.len,\n		src: g.src,\n	}")],
 pkg="data", race=True, test='''package data

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	g, err := NewStrFillAz(map[string]string{"len": "20"})
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for c := 0; c < 4; c++ {
		g := g.Copy()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if s := g.Values(RunCount{})[0].(string); len(s) != 20 {
					t.Errorf("length %d", len(s))
				}
			}
		}()
	}
	wg.Wait()
}
''')
bug("C08-call-first", "C08", "a key that is called explicitly before its first implicit use in its scope",
 "an explicit call does not count as the value of its scope: the next implicit use generates another value",
 [("data/scope.go", "	s.last[s.sno] = cnt[s.sno] // save last run counter value\n", ""), ("data/scope.go", "			return s.Call(cnt) // new value\n		}\n		return s.vals", "			s.last[s.sno] = cnt[s.sno] // save last run counter value\n			return s.Call(cnt)         // new value\n		}\n		return s.vals")],
 pkg="data", test='''package data

import (
	"testing"

	"github.com/square/finch"
)

func TestDemo(t *testing.T) {
	g, err := NewAutoInc(nil)
	if err != nil {
		t.Fatal(err)
	}
	s := NewScopedGenerator(Id{Scope: finch.SCOPE_TRX, Type: "auto-inc", DataKey: "@d"}, g)
	for trx := uint(1); trx < 4; trx++ {
		a := s.Call(RunCount{2*trx - 1, trx, 1, 1})[0]
		b := s.Values(RunCount{2 * trx, trx, 1, 1})[0]
		if a != b {
			t.Errorf("trx %d: @d() is %v then @d is %v", trx, a, b)
		}
	}
}
''')
bug("C14-send-return", "C14", "a remote instance whose statistics of one interval cannot be sent in three tries, and later intervals",
 "after statistics of one interval could not be sent, a remote instance sends no more",
 [("stats/remote.go", '			log.Printf("Failed to send stats: %s\\n%+v\\n", err, s)\n			continue\n', '			log.Printf("Failed to send stats: %s\\n%+v\\n", err, s)\n			return\n')],
 pkg="stats", test='''package stats

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	got := map[uint]bool{}
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var in Instance
		json.NewDecoder(r.Body).Decode(&in)
		if in.Interval == 1 {
			w.WriteHeader(http.StatusInternalServerError)
			return
		}
		mu.Lock()
		got[in.Interval] = true
		mu.Unlock()
	}))
	defer ts.Close()
	s, err := NewServer(map[string]string{"server": ts.URL, "client": "c", "stage-id": "1"})
	if err != nil {
		t.Fatal(err)
	}
	for i := uint(1); i < 4; i++ {
		in := NewInstance("c")
		in.Interval = i
		s.Report([]Instance{in})
		time.Sleep(200 * time.Millisecond)
	}
	s.Stop()
	mu.Lock()
	defer mu.Unlock()
	if !got[2] || !got[3] {
		t.Errorf("received %v", got)
	}
}
''')
bug("C25-copies-share-limit", "C25", "copies of a statement that has a limit (the aurora benchmark loads its tables with that)",
 "copies of a statement share one rows limit, so the benchmark's tables get only a part of their rows",
 [("trx/trx.go", "				multi[i] = ms[0]\n", "				s := ms[0]\n				if i > 0 { // copies are one statement\n					s.Limit = multi[0].Limit\n				}\n				multi[i] = s\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 1\n", "a.sql": "-- copies: 3\n-- rows: 5\nINSERT INTO t/*!copy-number*/ VALUES (1)\n"}, ["s.yaml"],
 '''	for i := 1; i <= 3; i++ {
		if n := r.Count(fmt.Sprintf("INSERT INTO t%d ", i)); n != 5 {
			Fail("%d rows in t%d, expected 5\\n%s", n, i, r.Out)
		}
	}
'''))
bug("C16-stop-timeout", "C16", "a remote instance whose final statistics do not arrive",
 "when Finch gives up waiting for the final statistics of remote instances, it does not stop the reporters",
 [("stats/collector.go", "				c.Unlock()\n				break WAIT\n", "				c.Unlock()\n				close(c.finalChan)\n				return false\n"), ("stats/collector.go", "	WAIT:\n", "")],
 pkg="stats", test='''package stats

import (
	"testing"
	"time"

	"github.com/square/finch/config"
)

type demoRep struct{ reports, stops int }

func (d *demoRep) Report(in []Instance) { d.reports++ }
func (d *demoRep) Stop()                { d.stops++ }

func (d *demoRep) Make(name string, opts map[string]string) (Reporter, error) { return d, nil }

func TestDemo(t *testing.T) {
	d := &demoRep{}
	if err := Register("demo", d); err != nil {
		t.Fatal(err)
	}
	c, err := NewCollector(config.Stats{Report: map[string]map[string]string{"demo": {}}}, "local", 2)
	if err != nil {
		t.Fatal(err)
	}
	c.Watch([]*Trx{NewTrx("a")})
	c.Start()
	c.Stop(300*time.Millisecond, false)
	if d.reports != 1 || d.stops != 1 {
		t.Errorf("%d reports, %d stops", d.reports, d.stops)
	}
}
''')
