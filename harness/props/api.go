package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/square/finch/stats"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

// apiRemote is a remote instance made of plain HTTP requests, so that requests
// can be concurrent, repeated, out of order and wrong in ways that the finch
// client would need bad luck for.
type apiRemote struct {
	name string
	addr string
	r    *kit.Rand
	hc   *http.Client
	done <-chan struct{}
	x    *apiRun
}

type apiRun struct {
	t      *kit.T
	c      *kit.Cluster
	mu     sync.Mutex
	boots  []apiBoot
	bad    string
	junk   int
	stages map[string]*csStage // by file base name
	sent   map[string][]*stats.Instance
	t0     time.Time
}

type apiBoot struct {
	name, id, file string
	joined         time.Duration // stage config received
	ack            time.Duration // POST /boot sent
	run            time.Duration // first GET /run returned
	end            time.Duration // POST /run sent
}

func (x *apiRun) fail(f string, a ...interface{}) {
	x.mu.Lock()
	if x.bad == "" {
		x.bad = fmt.Sprintf(f, a...)
	}
	x.mu.Unlock()
}

func (m *apiRemote) ended() bool {
	select {
	case <-m.done:
		return true
	default:
		return false
	}
}

// gone waits a moment for the server to end (its last response may be lost).
func (m *apiRemote) gone() bool {
	select {
	case <-m.done:
		return true
	case <-time.After(time.Second):
		return false
	}
}

// do sends a request; status 0 means no response.
func (m *apiRemote) do(d time.Duration, method, path, name, id string, q url.Values, body []byte) (int, []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	u := "http://" + m.addr + path
	v := url.Values{}
	for k, x := range q {
		v[k] = x
	}
	if name != "-" {
		v.Set("name", name)
	}
	if id != "-" {
		v.Set("stage-id", id)
	}
	if len(v) > 0 {
		u += "?" + v.Encode()
	}
	req, _ := http.NewRequestWithContext(ctx, method, u, bytes.NewReader(body))
	resp, err := m.hc.Do(req)
	if err != nil {
		return 0, nil
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil
	}
	return resp.StatusCode, b
}

// many sends the same request n times at once; it returns when one was answered
// with 200 and all have ended.
func (m *apiRemote) many(n int, d time.Duration, method, path, id string, q url.Values, body []byte) (ok bool, got []byte) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if st, b := m.do(d, method, path, m.name, id, q, body); st == 200 {
				mu.Lock()
				ok, got = true, b
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return
}

// noise sends requests that must have no effect.
func (m *apiRemote) noise(r *kit.Rand, id string, phase string) {
	x := m.x
	for k := r.IntN(4); k > 0; k-- {
		x.mu.Lock()
		x.junk++
		x.mu.Unlock()
		path := kit.Pick(r, "/boot", "/file", "/run", "/stats", "/ping", "/", "/nope")
		method := kit.Pick(r, "GET", "POST", "POST", "PUT", "DELETE")
		body := []byte(kit.Pick(r, "", "\"boom\"", "{}", "null", "[1,2", strings.Repeat("x", 1<<16), `{"Hostname":"zz","Interval":1}`))
		q := url.Values{}
		if path == "/file" {
			q.Set("stage", kit.Pick(r, "x", "", "s"))
			q.Set("i", kit.Pick(r, "-1", "99", "abc", "", "0", "99999999999999999999"))
		}
		d := 300 * time.Millisecond
		switch r.IntN(5) {
		case 0: // no name or stage
			if path == "/boot" {
				method = "POST" // GET would join
			}
			m.do(d, method, path, kit.Pick(r, "-", ""), kit.Pick(r, "-", "", id), q, body)
		case 1: // unknown instance
			if path == "/boot" {
				method = "POST"
			}
			m.do(d, method, path, "stranger", id, q, body)
		case 2: // other stage
			if path == "/boot" {
				method = "POST"
			}
			m.do(d, method, path, m.name, "b0gus", q, body)
		case 3: // method
			m.do(d, kit.Pick(r, "PUT", "DELETE", "HEAD", "OPTIONS"), path, m.name, id, q, body)
		case 4: // wrong state
			switch phase {
			case "booting":
				m.do(d, kit.Pick(r, "GET", "POST"), "/run", m.name, id, nil, body)
				m.do(d, "POST", "/stats", m.name, id, nil, []byte("{}"))
			case "runnable":
				m.do(d, "POST", "/run", m.name, id, nil, body)
				m.do(d, "POST", "/stats", m.name, id, nil, []byte("{}"))
				m.do(d, "GET", "/file", m.name, id, url.Values{"stage": {"s"}, "i": {"0"}}, nil)
			case "running":
				m.do(d, "POST", "/boot", m.name, id, nil, body)
				m.do(d, "POST", "/stats", m.name, id, nil, []byte(kit.Pick(r, "[", "x", "\"\"")))
			case "done":
				m.do(d, "POST", kit.Pick(r, "/run", "/stats", "/boot"), m.name, id, nil, body)
				m.do(d, "GET", kit.Pick(r, "/ping", "/file"), m.name, id, nil, nil)
			}
		}
	}
}

func (m *apiRemote) loop() {
	r := m.r
	x := m.x
	var again []byte // stage received by a GET /boot after booting
	for !m.ended() {
		// join a stage
		st, b := 200, again
		if again == nil {
			st, b = m.do(kit.Pick(r, 2*time.Second, 2*time.Second, 250*time.Millisecond), "GET", "/boot", m.name, "", nil, nil)
		}
		again = nil
		if st != 200 {
			time.Sleep(time.Duration(r.Int(5, 60)) * time.Millisecond)
			continue
		}
		var cfg struct {
			Id, Name, File string
			Trx            []struct{ File string }
		}
		if err := json.Unmarshal(b, &cfg); err != nil || cfg.Id == "" {
			x.fail("%s got a stage that cannot be read: %v %s", m.name, err, kit.Tail(string(b), 200))
			return
		}
		boot := apiBoot{name: m.name, id: cfg.Id, file: cfg.File, joined: time.Since(x.t0)}
		m.noise(r, cfg.Id, "booting")
		dir := cfg.File[:strings.LastIndex(cfg.File, "/")+1]
		for i, tr := range cfg.Trx {
			if r.P(0.1) {
				continue
			}
			ok, got := m.many(kit.Pick(r, 1, 1, 3), 10*time.Second, "GET", "/file", cfg.Id, url.Values{"stage": {cfg.Name}, "i": {fmt.Sprint(i)}}, nil)
			want, found := x.c.Files[dir+tr.File]
			if !found { // the server may have resolved the path
				for f, text := range x.c.Files {
					if strings.HasSuffix(tr.File, "/"+f) {
						want, found = text, true
					}
				}
			}
			if !ok && m.gone() {
				return
			}
			if !ok || found && string(got) != want {
				x.fail("%s did not get trx file %d (%s) of stage %s, but %q", m.name, i, tr.File, cfg.File, kit.Tail(string(got), 200))
				return
			}
		}
		if r.P(0.12) { // boot fails: another instance, or this one, joins instead
			m.do(2*time.Second, "POST", "/boot", m.name, cfg.Id, nil, []byte("\"cannot boot\""))
			continue
		}
		boot.ack = time.Since(x.t0)
		if ok, _ := m.many(kit.Pick(r, 1, 1, 2, 4), 10*time.Second, "POST", "/boot", cfg.Id, nil, nil); !ok && !m.gone() {
			x.fail("%s: POST /boot was not accepted", m.name)
			return
		}
		if m.x.c.Args[0] != "--test" {
			m.noise(r, cfg.Id, "runnable")
			// A delayed GET /boot, or the instance restarted: it is one instance
			// all the same.
			if r.P(0.25) {
				if st, b := m.do(300*time.Millisecond, "GET", "/boot", m.name, kit.Pick(r, "", cfg.Id), nil, nil); st == 200 {
					again = b
					continue
				}
			}
		}
		ok, _ := m.many(kit.Pick(r, 1, 1, 2, 5), 60*time.Second, "GET", "/run", cfg.Id, nil, nil)
		if !ok {
			if !m.gone() {
				x.fail("%s: GET /run was not answered", m.name)
			}
			return
		}
		boot.run = time.Since(x.t0)
		// run
		cs := x.stages[cfg.File[strings.LastIndex(cfg.File, "/")+1:]]
		var wg sync.WaitGroup
		pings := r.IntN(4)
		for i := 0; i < pings; i++ {
			wg.Add(1)
			d := time.Duration(r.IntN(20)) * time.Millisecond
			go func() {
				defer wg.Done()
				time.Sleep(d)
				if st, _ := m.do(10*time.Second, "GET", "/ping", m.name, cfg.Id, nil, nil); st != 200 && st != 0 && st != 410 {
					x.fail("%s: GET /ping returned %d while running", m.name, st)
				}
			}()
		}
		if cs != nil {
			in := stats.NewInstance(m.name)
			in.Interval, in.Clients, in.Seconds, in.Runtime = 1, uint(r.Int(1, 5)), 2, 2
			for i := r.Int(1, 50); i > 0; i-- {
				in.Total.Record(byte(r.IntN(3)), int64(r.Int(1, 100000)))
			}
			for i := r.IntN(9); i > 0; i-- {
				in.Total.Errors[kit.Pick(r, uint16(1205), 1213, 1317)]++
			}
			body, _ := json.Marshal(in)
			x.mu.Lock()
			x.sent[cfg.Id] = append(x.sent[cfg.Id], &in)
			x.mu.Unlock()
			if ok, _ := m.many(kit.Pick(r, 1, 1, 2, 4), 10*time.Second, "POST", "/stats", cfg.Id, nil, body); !ok && !m.gone() {
				x.fail("%s: POST /stats was not accepted while running", m.name)
			}
		}
		m.noise(r, cfg.Id, "running")
		time.Sleep(time.Duration(r.IntN(60)) * time.Millisecond)
		wg.Wait()
		boot.end = time.Since(x.t0)
		x.mu.Lock()
		x.boots = append(x.boots, boot)
		x.mu.Unlock()
		if ok, _ := m.many(kit.Pick(r, 1, 1, 2, 4), 10*time.Second, "POST", "/run", cfg.Id, nil, []byte(kit.Pick(r, "", "", "", "\"failed\""))); !ok && !m.gone() {
			x.fail("%s: POST /run was not accepted after running", m.name)
		}
		m.noise(r, cfg.Id, "done")
	}
}

// apiCase runs a server with remote instances that are plain HTTP requests.
func apiCase(t *kit.T) {
	r := t.R
	slots := r.Int(1, 4)
	c := &kit.Cluster{Files: map[string]string{}, Timeout: 60 * time.Second}
	x := &apiRun{t: t, c: c, stages: map[string]*csStage{}, sent: map[string][]*stats.Instance{}, t0: time.Now()}
	var stages []*csStage
	for k := r.Int(1, 3); k > 0; k-- {
		st, cs, files := csMake(r, len(stages), slots, false)
		st.Disable, cs.disabled = false, false
		st.Stats = nil
		csv := fmt.Sprintf("csv%d.csv", len(stages))
		st.Stats = map[string]interface{}{"report": map[string]map[string]string{"csv": {"file": "{{DIR}}/server/" + csv}}}
		files[st.File] = st.YAML()
		for f, s := range files {
			c.Files[f] = s
		}
		c.Args = append(c.Args, st.File)
		stages = append(stages, cs)
		x.stages[st.File[strings.LastIndex(st.File, "/")+1:]] = cs
	}
	pool := slots + r.Int(0, 2)
	c.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }
	var wg sync.WaitGroup
	c.During = func(c *kit.Cluster) {
		defer wg.Done()
		for i := 1; i <= pool; i++ {
			m := &apiRemote{name: fmt.Sprintf("h%d", i), addr: c.Host, r: kit.NewRand(t.Seed, fmt.Sprintf("api %d %d", t.I, i)), done: c.Server.Done, x: x,
				hc: &http.Client{Transport: &http.Transport{DisableKeepAlives: i%2 == 0, MaxIdleConnsPerHost: 4}}}
			wg.Add(1)
			go func() {
				defer wg.Done()
				m.loop()
				m.hc.CloseIdleConnections()
			}()
		}
	}
	wg.Add(1)
	res := t.RunCluster(c, "api")
	if res == nil {
		return
	}
	wg.Wait()
	end := time.Since(x.t0)
	fail := func(key, what string) {
		d := c.Detail(res)
		var lines []string
		for _, b := range x.boots {
			lines = append(lines, fmt.Sprintf("%s %s joined %v acknowledged %v run %v done %v", b.name, b.file, b.joined, b.ack, b.run, b.end))
		}
		d["instances"] = lines
		t.Fail(key, what, d)
	}
	if x.bad != "" {
		fail("api", x.bad)
		return
	}
	if res.Exit != 0 {
		fail("api-exit", fmt.Sprintf("server exit code %d", res.Exit))
		return
	}
	byFile := map[string][]apiBoot{}
	for _, b := range x.boots {
		f := b.file[strings.LastIndex(b.file, "/")+1:]
		byFile[f] = append(byFile[f], b)
	}
	var prevEnd time.Duration
	for i := range stages {
		f := fmt.Sprintf("st%d.yaml", i)
		cs := stages[i]
		bs := byFile[f]
		names := map[string]bool{}
		var lastAck, lastEnd time.Duration
		firstRun, firstJoin := end, end
		for _, b := range bs {
			names[b.name] = true
			lastAck, lastEnd = max(lastAck, b.ack), max(lastEnd, b.end)
			firstRun, firstJoin = min(firstRun, b.run), min(firstJoin, b.joined)
			if b.id != bs[0].id {
				fail("api-id", fmt.Sprintf("two ids of stage %s", f))
				return
			}
		}
		if len(bs) != cs.remotes || len(names) != len(bs) {
			fail("api-instances", fmt.Sprintf("stage %s was run by %d remote instances %v, expected %d", f, len(bs), names, cs.remotes))
			return
		}
		if len(bs) == 0 {
			continue
		}
		if firstRun < lastAck {
			fail("api-start", fmt.Sprintf("stage %s started after %v, but an instance acknowledged booting after %v", f, firstRun, lastAck))
			return
		}
		if firstJoin < prevEnd {
			fail("api-next", fmt.Sprintf("stage %s was given to an instance after %v, but one ran the stage before until %v", f, firstJoin, prevEnd))
			return
		}
		prevEnd = lastEnd
		if cs.local {
			continue
		}
		// statistics of all instances, each counted once
		rows, bad := consParse(res.Dir[fmt.Sprintf("csv%d.csv", i)])
		if bad != "" || len(rows) != 1 {
			fail("api-stats", fmt.Sprintf("stage %s: %d intervals reported, expected 1 %s", f, len(rows), bad))
			return
		}
		var n [4]uint64
		clients, errs := 0, 0
		for _, in := range x.sent[bs[0].id] {
			clients += int(in.Clients)
			for k := range n {
				n[k] += in.Total.N[k]
			}
			for _, v := range in.Total.Errors {
				errs += int(v)
			}
		}
		row := rows[0]
		if row.clients != clients || row.errors != errs {
			fail("api-stats", fmt.Sprintf("stage %s: %d clients and %d errors reported, instances sent %d and %d", f, row.clients, row.errors, clients, errs))
			return
		}
		for _, k := range consKinds {
			if row.qps[k] != int64(n[k]/2) {
				fail("api-stats", fmt.Sprintf("stage %s: rates %v reported, instances sent %v in 2 s", f, row.qps, n))
				return
			}
		}
	}
	t.Count("protocol_noise", x.junk)
	t.Count("protocol_instances", len(x.boots))
	var key strings.Builder
	for _, b := range x.boots {
		fmt.Fprintf(&key, "%s %s|", b.name, b.file)
	}
	t.Eval(key.String(), len(x.boots) > 1)
}
