package kit

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"finchverif/fakemysql"
)

// Cluster is a finch --server and finch --client processes, each client behind
// its own recording and fault-injecting HTTP proxy. All clients have the same
// host name here, so the proxy gives each its own name, as different hosts
// would. The MySQL user name tells instances apart: "local" or the client
// process ("c2r1" is the first process in slot 2).
type Cluster struct {
	ByEnv   bool              // FINCH_SERVER and FINCH_CLIENT instead of the options
	Files   map[string]string // of the server; {{ADDR}} is the MySQL server
	Args    []string          // of the server, after --server ADDR
	Slots   int
	Handler fakemysql.Handler
	Race    bool
	Timeout time.Duration
	// Fault decides about a request of a slot; n counts its requests
	// for this method and path.
	Fault func(slot int, method, path string, n int) Fault
	// NoClient: do not start the n-th process of a slot, wait instead (n from 1)
	// Setup changes the files of a client process before it starts.
	ClientFiles func(slot, n int) map[string]string
	// During runs concurrently with the server process.
	During func(c *Cluster)
	// Once: do not start another client when one ends.
	Once bool

	Srv    *fakemysql.Server
	Server *Proc
	Host   string // host:port of the finch server

	mu      sync.Mutex
	reqs    []Req
	clients []*ClientProc
	ended   bool
}

// Fault is what the proxy does to a request.
type Fault struct {
	Delay    time.Duration // before forwarding
	DropReq  bool          // do not forward, close the connection
	DropResp bool          // forward, then close the connection
	Dup      bool          // forward twice, return the second response
	Kill     bool          // kill the client process, before or after forwarding
}

// Req is a request seen by a proxy.
type Req struct {
	Slot         int
	Method, Path string
	At, DoneAt   time.Duration
	Status       int // of the server; 0 = not forwarded or no response
	Fault        Fault
	Body         string
	Proc         string // client process that was running
}

// ClientProc is one finch --client process.
type ClientProc struct {
	Slot, N int
	Name    string // MySQL user
	Proc    *Proc
	Exit    int
	StartAt time.Duration
	EndAt   time.Duration
	Killed  bool
}

// ClusterResult is what happened.
type ClusterResult struct {
	Exit     int
	TimedOut bool
	Out      string
	EndAt    time.Duration
	Events   []fakemysql.Event
	Reqs     []Req
	Clients  []*ClientProc
	Dir      map[string]string
}

func (r *ClusterResult) crashed() (string, string) {
	outs := []string{r.Out}
	for _, c := range r.Clients {
		outs = append(outs, c.Proc.Output())
	}
	for _, o := range outs {
		if s, rep := crashed(o); s != "" {
			return s, rep
		}
	}
	return "", ""
}

// Detail for a replay file.
func (c *Cluster) Detail(r *ClusterResult) map[string]interface{} {
	m := map[string]interface{}{"files": c.Files, "args": c.Args, "slots": c.Slots}
	if r == nil {
		return m
	}
	m["exit"], m["timed_out"], m["output"] = r.Exit, r.TimedOut, Clip(r.Out, 6000)
	m["events"] = EventLines(r.Events, 300)
	var rq []string
	for _, q := range r.Reqs {
		rq = append(rq, fmt.Sprintf("%v-%v %s %s %s -> %d %s", q.At.Round(time.Millisecond), q.DoneAt.Round(time.Millisecond), q.Proc, q.Method, q.Path, q.Status, faultString(q.Fault)))
		if len(rq) > 200 {
			break
		}
	}
	m["requests"] = rq
	cl := map[string]string{}
	for _, p := range r.Clients {
		cl[p.Name] = fmt.Sprintf("exit %d %v-%v\n%s", p.Exit, p.StartAt, p.EndAt, Tail(p.Proc.Output(), 2500))
	}
	m["clients"] = cl
	return m
}

func faultString(f Fault) string {
	s := ""
	if f.Delay > 0 {
		s += fmt.Sprintf(" delay %v", f.Delay)
	}
	if f.DropReq {
		s += " dropped"
	}
	if f.DropResp {
		s += " response dropped"
	}
	if f.Dup {
		s += " duplicated"
	}
	if f.Kill {
		s += " client killed"
	}
	return s
}

// Procs returns the client processes so far.
func (c *Cluster) Procs() []*ClientProc {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*ClientProc(nil), c.clients...)
}

// Requests returns the requests so far.
func (c *Cluster) Requests() []Req {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Req(nil), c.reqs...)
}

// Run runs the cluster until the server ends.
func (c *Cluster) Run() (*ClusterResult, error) {
	dir, err := ScratchDir()
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	srv, err := fakemysql.New(c.Handler)
	if err != nil {
		return nil, err
	}
	defer srv.Close()
	c.Srv = srv
	sub := strings.NewReplacer("{{ADDR}}", srv.Addr, "{{DIR}}", dir)
	sdir := filepath.Join(dir, "server")
	os.MkdirAll(sdir, 0o755)
	if err := WriteFiles(sdir, c.Files, sub); err != nil {
		return nil, err
	}
	port, release, err := freePort()
	if err != nil {
		return nil, err
	}
	defer release()
	c.Host = port
	var args, env []string
	if c.ByEnv {
		env = []string{"FINCH_SERVER=" + c.Host}
	} else {
		args = []string{"--server", c.Host}
	}
	for _, a := range c.Args {
		args = append(args, sub.Replace(a))
	}
	p, err := StartFinch(sdir, c.Race, args, env)
	if err != nil {
		return nil, err
	}
	p.Server = srv
	c.Server = p

	var wg sync.WaitGroup
	for s := 1; s <= c.Slots; s++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		hs := &http.Server{Handler: c.proxy(s)}
		go hs.Serve(ln)
		defer hs.Close()
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			c.slot(s, dir, ln.Addr().String())
		}(s)
	}
	if c.During != nil {
		go c.During(c)
	}
	to := c.Timeout
	if to == 0 {
		to = 120 * time.Second
	}
	r := &ClusterResult{Dir: map[string]string{}}
	r.TimedOut = p.Wait(to)
	r.EndAt = srv.Since()
	r.Exit, r.Out = p.ExitCode(), p.Output()
	// clients get a moment to end by themselves; those waiting for a stage do not
	c.mu.Lock()
	c.ended = true
	c.mu.Unlock()
	deadline := time.Now().Add(12 * time.Second)
	for _, cp := range c.Procs() {
		if c.busy(cp) {
			select {
			case <-cp.Proc.Done:
			case <-time.After(time.Until(deadline)):
			}
		}
	}
	for _, cp := range c.Procs() {
		select {
		case <-cp.Proc.Done:
		default:
			cp.Killed = true
			if c.busy(cp) {
				cp.Proc.Cmd.Process.Signal(syscall.SIGQUIT) // goroutine dump
				select {
				case <-cp.Proc.Done:
				case <-time.After(3 * time.Second):
				}
			}
			cp.Proc.Cmd.Process.Kill()
		}
	}
	wg.Wait()
	srv.Close()
	r.Events = srv.Events()
	r.Reqs = c.Requests()
	r.Clients = c.Procs()
	filepath.Walk(sdir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Size() < 1<<20 {
			rel, _ := filepath.Rel(sdir, path)
			if _, ok := c.Files[rel]; !ok {
				b, _ := os.ReadFile(path)
				r.Dir[rel] = string(b)
			}
		}
		return nil
	})
	return r, nil
}

// busy: the process got a stage.
func (c *Cluster) busy(cp *ClientProc) bool {
	for _, q := range c.Requests() {
		if q.Proc == cp.Name && q.Method == "POST" {
			return true
		}
	}
	return false
}

// freePort returns an address that no one else uses and whose port is not one
// the system gives to other sockets; release ends its use. A lock makes it
// unique among processes.
func freePort() (addr string, release func(), err error) {
	dir := filepath.Join(os.TempDir(), "verif-scratch", "ports")
	os.MkdirAll(dir, 0o755)
	for i := 0; i < 2000; i++ {
		port := 10000 + rand.IntN(20000)
		f, e := os.OpenFile(filepath.Join(dir, fmt.Sprint(port)), os.O_CREATE|os.O_RDWR, 0o644)
		if e != nil {
			return "", nil, e
		}
		if syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil {
			f.Close()
			continue
		}
		addr = fmt.Sprintf("127.0.0.1:%d", port)
		ln, e := net.Listen("tcp", addr)
		if e != nil {
			f.Close()
			continue
		}
		ln.Close()
		return addr, func() { f.Close() }, nil
	}
	return "", nil, fmt.Errorf("no free port")
}

// slot runs client processes, one after the other.
func (c *Cluster) slot(s int, dir, addr string) {
	for n := 1; ; n++ {
		name := fmt.Sprintf("c%dr%d", s, n)
		d := filepath.Join(dir, name)
		os.MkdirAll(d, 0o755)
		files := map[string]string{"my.cnf": "[client]\nuser=" + name + "\n"}
		if c.ClientFiles != nil {
			for k, v := range c.ClientFiles(s, n) {
				if v == "" {
					delete(files, k)
				} else {
					files[k] = v
				}
			}
		}
		WriteFiles(d, files, strings.NewReplacer("{{ADDR}}", c.Srv.Addr))
		c.mu.Lock()
		if c.ended {
			c.mu.Unlock()
			return
		}
		args, env := []string{"--client", addr}, []string(nil)
		if c.ByEnv {
			args, env = nil, []string{"FINCH_CLIENT=" + addr}
		}
		p, err := StartFinch(d, c.Race, args, env)
		if err != nil {
			c.mu.Unlock()
			return
		}
		cp := &ClientProc{Slot: s, N: n, Name: name, Proc: p, StartAt: c.Srv.Since()}
		c.clients = append(c.clients, cp)
		c.mu.Unlock()
		<-p.Done
		cp.EndAt = c.Srv.Since()
		cp.Exit = p.ExitCode()
		if c.Once {
			return
		}
	}
}

// proxy of a slot.
func (c *Cluster) proxy(s int) http.Handler {
	host, _ := os.Hostname()
	name := fmt.Sprintf("c%d", s)
	tr := &http.Transport{DisableKeepAlives: true}
	var mu sync.Mutex
	count := map[string]int{}
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		mu.Lock()
		key := r.Method + r.URL.Path
		count[key]++
		n := count[key]
		mu.Unlock()
		f := Fault{}
		if c.Fault != nil {
			f = c.Fault(s, r.Method, r.URL.Path, n)
		}
		q := Req{Slot: s, Method: r.Method, Path: r.URL.Path, At: c.Srv.Since(), Fault: f}
		c.mu.Lock()
		var proc *ClientProc
		for _, cp := range c.clients {
			if cp.Slot == s {
				q.Proc = cp.Name // the last one
				proc = cp
			}
		}
		c.mu.Unlock()
		body = bytes.ReplaceAll(body, []byte("\""+host+"\""), []byte("\""+name+"\""))
		q.Body = string(body)
		kvs := strings.Split(r.URL.RawQuery, "&")
		for i := range kvs {
			if strings.HasSuffix(kvs[i], "="+host) {
				kvs[i] = strings.TrimSuffix(kvs[i], host) + name
			}
		}
		log := func() {
			q.DoneAt = c.Srv.Since()
			c.mu.Lock()
			c.reqs = append(c.reqs, q)
			c.mu.Unlock()
		}
		abort := func() {
			log()
			panic(http.ErrAbortHandler)
		}
		if f.Delay > 0 {
			time.Sleep(f.Delay)
		}
		if f.Kill && f.DropReq {
			proc.Proc.Cmd.Process.Kill()
		}
		if f.DropReq {
			abort()
		}
		var resp *http.Response
		var rb []byte
		tries := 1
		if f.Dup {
			tries = 2
		}
		for i := 0; i < tries; i++ {
			req, err := http.NewRequestWithContext(r.Context(), r.Method, "http://"+c.Host+r.URL.Path+"?"+strings.Join(kvs, "&"), bytes.NewReader(body))
			if err != nil {
				abort()
			}
			resp, err = tr.RoundTrip(req)
			if err != nil {
				abort()
			}
			rb, err = io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil {
				abort()
			}
			if q.Status == 0 || q.Status > 299 {
				q.Status = resp.StatusCode // the best
			}
		}
		if f.Kill {
			proc.Proc.Cmd.Process.Kill()
			abort()
		}
		if f.DropResp {
			abort()
		}
		for k, v := range resp.Header {
			if k != "Connection" && k != "Content-Length" && k != "Transfer-Encoding" {
				w.Header()[k] = v
			}
		}
		log()
		w.WriteHeader(resp.StatusCode)
		w.Write(rb)
	})
}

// RunCluster runs a cluster and reports harness problems, hangs and crashes.
func (t *T) RunCluster(c *Cluster, key string) *ClusterResult {
	c.Race = c.Race || t.Part.Sanitize
	r, err := c.Run()
	for i := 0; i < 3 && err == nil && r.Exit != 0 && strings.Contains(r.Out, "address already in use"); i++ {
		c.mu.Lock()
		c.reqs, c.clients, c.ended = nil, nil, false
		c.mu.Unlock()
		r, err = c.Run() // another process took the port
	}
	if err != nil {
		t.Fail("harness", "cannot run finch: "+err.Error(), nil)
		return nil
	}
	t.Count("server_processes", 1)
	t.Count("client_processes", len(r.Clients))
	t.Count("http_requests", len(r.Reqs))
	t.Count("server_events", len(r.Events))
	if s, rep := r.crashed(); s != "" {
		d := c.Detail(r)
		if rep != "" {
			d["race_report"] = rep
		}
		t.Fail(key+":crash", "finch crashed: "+s, d)
		return nil
	}
	if t.Part.Sanitize {
		k, n := interleaving(r.Events)
		for _, q := range r.Reqs {
			k += q.Method + q.Path
		}
		t.eval(k, n > 1)
		t.Count("race_instrumented_processes", 1+len(r.Clients))
	}
	if r.TimedOut {
		t.Fail(key+":hang", "finch server did not terminate", c.Detail(r))
		return nil
	}
	return r
}
