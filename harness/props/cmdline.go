package props

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

var reVersion = regexp.MustCompile(`(?m)^finch (\d+\.\d+\.\d+\S*)$`)

// cmdlineCase: command line options that are not about the values of a stage.
func cmdlineCase(t *kit.T) {
	r := t.R
	sc := &kit.Scenario{Files: map[string]string{}, Timeout: 60 * time.Second, ErrTo: "stderr.txt",
		Handler: func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }}
	nStages := r.Int(1, 3)
	var stageArgs []string
	iters := map[string]int{}
	total := 0
	for i := 0; i < nStages; i++ {
		tag := fmt.Sprintf("s%d", i)
		st := &kit.Stage{File: tag + ".yaml", Name: tag, Params: map[string]string{"it": "1"}}
		n := r.Int(1, 6)
		iters[tag] = n
		total += n
		it := fmt.Sprint(n)
		if r.P(0.4) {
			it = "$params.n" + tag
			switch r.IntN(4) {
			case 0:
				sc.Args = append(sc.Args, "--param", fmt.Sprintf("n%s=%d", tag, n))
			case 1:
				sc.Args = append(sc.Args, "-p", fmt.Sprintf("n%s=%d", tag, n))
			case 2:
				sc.Args = append(sc.Args, fmt.Sprintf("--param=n%s=%d", tag, n))
			case 3:
				sc.Args = append(sc.Args, fmt.Sprintf("-p=n%s=%d", tag, n))
			}
		}
		st.Trx = []kit.TrxFile{{File: tag + ".sql", Stmts: []kit.Stmt{{SQL: "SELECT /*" + tag + "*/ 1"}}}}
		st.Workload = []kit.CG{{Clients: "1", Iter: it, Trx: []string{tag + ".sql"}}}
		opts := sc.Args
		sc.Add(st)
		sc.Args = opts
		stageArgs = append(stageArgs, st.File)
	}
	// options and stage files in any order
	place := func(opts ...string) {
		if len(sc.Args) > 0 && r.P(0.5) {
			sc.Args = append(append([]string{}, opts...), sc.Args...)
		} else {
			sc.Args = append(sc.Args, opts...)
		}
	}
	kind := kit.Pick(r, "help", "version", "unknown", "none", "missing", "run", "run", "run", "run", "server", "server", "server", "client", "client")
	debug, test, prof := false, false, ""
	if kind == "run" || kind == "server" || kind == "client" {
		switch r.IntN(6) {
		case 0:
			debug = true
			place("--debug")
		case 1:
			debug = true
			sc.Env = append(sc.Env, "FINCH_DEBUG="+kit.Pick(r, "1", "true"))
		case 2:
			sc.Env = append(sc.Env, "FINCH_DEBUG="+kit.Pick(r, "0", "false"))
		}
	}
	if kind == "run" {
		switch r.IntN(6) {
		case 0:
			test = true
			place("--test")
		case 1:
			test = true
			sc.Env = append(sc.Env, "FINCH_TEST="+kit.Pick(r, "1", "true"))
		case 2:
			sc.Env = append(sc.Env, "FINCH_TEST="+kit.Pick(r, "0", "false"))
		}
		switch r.IntN(6) {
		case 0:
			prof = "cpu.prof"
			place("--cpu-profile", prof)
		case 1:
			prof = "cpu.prof"
			sc.Env = append(sc.Env, "FINCH_CPU_PROFILE="+prof)
		case 2:
			prof = "cpu2.prof"
			place("--cpu-profile=" + prof)
			sc.Env = append(sc.Env, "FINCH_CPU_PROFILE=cpu.prof")
		}
	}
	if r.P(0.5) && len(sc.Args) > 0 { // stage files before, after or among options
		sc.Args = append(append([]string{}, stageArgs...), sc.Args...)
	} else {
		sc.Args = append(sc.Args, stageArgs...)
	}
	switch kind {
	case "help":
		place(kit.Pick(r, "--help", "-h"))
	case "version":
		place("--version")
	case "unknown":
		place(kit.Pick(r, "--nope", "--iter=5", "-x", "--testing"))
	case "none":
		sc.Args = nil
		if r.P(0.5) {
			sc.Args = []string{kit.Pick(r, "--test", "--debug")}
		}
	case "missing":
		sc.Args = append(sc.Args, "nofile.yaml")
	case "server":
		cmdlineServer(t, sc, total, debug)
		return
	case "client":
		cmdlineClient(t, sc, debug)
		return
	}
	res, err := kit.Run(sc)
	if err != nil {
		t.Fail("harness", err.Error(), nil)
		return
	}
	t.Eval(fmt.Sprint(kind, sc.Args, sc.Env), len(sc.Args) > nStages)
	t.Distinct("command_lines", kind+fmt.Sprint(debug, test, prof != ""))
	fail := func(f string, a ...interface{}) {
		d := kit.Detail(sc, res)
		d["stderr"] = kit.Clip(res.Dir["stderr.txt"], 3000)
		t.Fail("cmdline:"+kind, fmt.Sprintf(f, a...), d)
	}
	if s := res.Crashed(); s != "" || res.TimedOut {
		fail("finch crashed or hangs: %s", s)
		return
	}
	got := map[string]int{}
	for _, e := range res.Events {
		if e.Kind == "query" {
			if m := reCmdTag.FindStringSubmatch(e.SQL); m != nil {
				got[m[1]]++
			}
		}
	}
	switch kind {
	case "help", "version":
		if res.Exit != 0 {
			fail("exit status %d", res.Exit)
		} else if len(res.Events) > 0 {
			fail("finch connected to MySQL")
		} else if !reVersion.MatchString(res.Out) {
			fail("no version in output: %s", res.Out)
		} else if kind == "help" {
			for _, o := range []string{"--client", "--cpu-profile", "--database", "-D", "--debug", "--dsn", "--help", "--param", "-p", "--server", "--test", "--version"} {
				if !strings.Contains(res.Out, o) {
					fail("option %s is not in the help", o)
					return
				}
			}
		}
		return
	case "unknown", "none", "missing":
		if res.Exit == 0 {
			fail("finch exits 0: %s", res.Out)
		} else if len(got) > 0 {
			fail("finch executed statements")
		}
		return
	}
	if res.Exit != 0 {
		fail("exit status %d: %s", res.Exit, kit.Tail(res.Out, 500))
		return
	}
	want := map[string]int{}
	if !test {
		want = iters
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail("statements per stage: %v, expected %v (test %t)", got, want, test)
		return
	}
	if prof != "" {
		b, ok := res.Dir[prof]
		if !ok {
			fail("no CPU profile %s", prof)
			return
		}
		if !test && nStages == 1 {
			z, err := gzip.NewReader(bytes.NewReader([]byte(b)))
			var p []byte
			if err == nil {
				p, err = io.ReadAll(z)
			}
			if err != nil || len(p) == 0 || !bytes.Contains(p, []byte("cpu")) {
				fail("CPU profile of %d bytes is not valid: %v", len(b), err)
				return
			}
		}
	}
	if prof != "cpu.prof" {
		if _, ok := res.Dir["cpu.prof"]; ok {
			fail("CPU profile is written to a file not given")
			return
		}
	}
	cmdlineDebug(fail, res.Dir["stderr.txt"], res.Out, debug)
}

var reCmdTag = regexp.MustCompile(`^SELECT /\*(s\d)\*/ 1`)

func cmdlineDebug(fail func(string, ...interface{}), stderr, stdout string, debug bool) {
	if debug && !strings.Contains(stderr, "DEBUG") {
		fail("no debug output on standard error")
	} else if !debug && strings.Contains(stderr, "DEBUG") {
		fail("debug output without --debug")
	} else if strings.Contains(stdout, "DEBUG") {
		fail("debug output on standard output")
	}
}

// defaultPort is finch's documented port; one user at a time in this sandbox.
const defaultPort = "33075"

func lockDefaultPort() (release func(), ok bool) {
	dir := filepath.Join(os.TempDir(), "verif-scratch", "ports")
	os.MkdirAll(dir, 0o755)
	f, err := os.OpenFile(filepath.Join(dir, defaultPort), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return nil, false
	}
	if syscall.Flock(int(f.Fd()), syscall.LOCK_EX) != nil {
		f.Close()
		return nil, false
	}
	ln, err := net.Listen("tcp", "0.0.0.0:"+defaultPort)
	if err != nil { // somebody else's
		f.Close()
		return nil, false
	}
	ln.Close()
	return func() { f.Close() }, true
}

// cmdlineServer: --server ADDR[:PORT] listens there.
func cmdlineServer(t *kit.T, sc *kit.Scenario, total int, debug bool) {
	r := t.R
	release, ok := lockDefaultPort()
	if !ok {
		t.Count("default_port_not_free", 1)
		return
	}
	defer release()
	ip := fmt.Sprintf("127.%d.%d.%d", r.Int(1, 250), r.Int(0, 250), r.Int(1, 250))
	other := fmt.Sprintf("127.%d.%d.%d", 251, r.Int(0, 250), r.Int(1, 250))
	opt := kit.Pick(r, ip, ip, "0", "0.0.0.0", "localhost", ip+":23076", "0.0.0.0:23077")
	var yes, no []string
	switch opt {
	case ip:
		yes, no = []string{ip + ":33075"}, []string{other + ":33075"}
	case "0", "0.0.0.0":
		yes = []string{ip + ":33075", other + ":33075"}
	case "localhost":
		yes = []string{"localhost:33075"}
	case ip + ":23076":
		yes, no = []string{opt}, []string{ip + ":33075", other + ":23076"}
	case "0.0.0.0:23077":
		yes, no = []string{ip + ":23077", other + ":23077"}, []string{ip + ":33075"}
	}
	switch r.IntN(3) {
	case 0:
		sc.Env = append(sc.Env, "FINCH_SERVER="+opt)
	case 1:
		sc.Args = append(sc.Args, "--server", opt)
	case 2:
		sc.Args = append([]string{"--server=" + opt}, sc.Args...)
		sc.Env = append(sc.Env, "FINCH_SERVER=127.0.0.1:1")
	}
	// probe while the first statement of the run waits
	var once sync.Once
	reached, done := make(chan struct{}), make(chan struct{})
	var bad []string
	sc.Handler = func(s *fm.Server, ev *fm.Event) fm.Reply {
		if strings.HasPrefix(ev.SQL, "SELECT /*s") {
			once.Do(func() { close(reached) })
			select {
			case <-done:
			case <-time.After(20 * time.Second):
			}
		}
		return okReply(ev)
	}
	sc.During = func(p *kit.Proc) {
		defer close(done)
		select {
		case <-reached:
		case <-p.Done:
			return
		}
		for _, a := range yes {
			var err error
			for i := 0; i < 50; i++ {
				var c net.Conn
				if c, err = net.DialTimeout("tcp", a, 2*time.Second); err == nil {
					c.Close()
					break
				}
				time.Sleep(50 * time.Millisecond)
			}
			if err != nil {
				bad = append(bad, fmt.Sprintf("finch --server %s does not listen on %s: %s", opt, a, err))
			}
		}
		for _, a := range no {
			if c, err := net.DialTimeout("tcp", a, 2*time.Second); err == nil {
				c.Close()
				bad = append(bad, fmt.Sprintf("finch --server %s listens on %s", opt, a))
			}
		}
	}
	res := t.RunOK(sc, "cmdline")
	if res == nil {
		return
	}
	t.Eval("server "+opt+fmt.Sprint(sc.Args, sc.Env), true)
	t.Distinct("command_lines", "server "+strings.Replace(opt, ip, "IP", 1))
	fail := func(f string, a ...interface{}) {
		t.Fail("cmdline:server", fmt.Sprintf(f, a...), kit.Detail(sc, res))
	}
	if res.Exit != 0 && strings.Contains(res.Out, "address already in use") {
		// someone else's connection may have been given the port
		t.FailTimed("cmdline:port", fmt.Sprintf("finch --server %s: %s", opt, kit.Tail(res.Out, 500)), kit.Detail(sc, res))
		return
	}
	if res.Exit != 0 {
		fail("finch --server %s: exit status %d: %s", opt, res.Exit, kit.Tail(res.Out, 500))
		return
	}
	<-done
	if len(bad) > 0 {
		fail("%s", strings.Join(bad, "; "))
		return
	}
	n := 0
	for _, e := range res.Events {
		if reCmdTag.MatchString(e.SQL) {
			n++
		}
	}
	if n != total {
		fail("finch --server without remote instances executed %d statements, expected %d", n, total)
		return
	}
	cmdlineDebug(fail, res.Dir["stderr.txt"], res.Out, debug)
}

// cmdlineClient: --client ADDR[:PORT] asks the server there for a stage.
func cmdlineClient(t *kit.T, sc *kit.Scenario, debug bool) {
	r := t.R
	release, ok := lockDefaultPort()
	if !ok {
		t.Count("default_port_not_free", 1)
		return
	}
	defer release()
	ip := fmt.Sprintf("127.%d.%d.%d", r.Int(1, 250), r.Int(0, 250), r.Int(1, 250))
	opt := kit.Pick(r, ip, ip, "localhost", ip+":23076")
	addr := opt
	if !strings.Contains(opt, ":") {
		addr += ":33075"
	}
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		t.Count("default_port_not_free", 1)
		return
	}
	var mu sync.Mutex
	var reqs []string
	hit := make(chan struct{}, 1)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		reqs = append(reqs, q.Method+" "+q.URL.Path+"?"+q.URL.RawQuery)
		mu.Unlock()
		select {
		case hit <- struct{}{}:
		default:
		}
		w.WriteHeader(http.StatusGone) // no stage
	})}
	go srv.Serve(ln)
	defer srv.Close()
	if r.P(0.5) { // stage files mean nothing to a client
		sc.Args = nil
		if debug {
			sc.Args = []string{"--debug"}
		}
	}
	switch r.IntN(3) {
	case 0:
		sc.Env = append(sc.Env, "FINCH_CLIENT="+opt)
	case 1:
		sc.Args = append(sc.Args, "--client", opt)
	case 2:
		sc.Args = append([]string{"--client=" + opt}, sc.Args...)
		sc.Env = append(sc.Env, "FINCH_CLIENT=127.0.0.1:1")
	}
	asked := false
	sc.During = func(p *kit.Proc) {
		select {
		case <-hit:
			asked = true
		case <-time.After(20 * time.Second):
		case <-p.Done:
		}
		time.Sleep(100 * time.Millisecond)
		p.Signal(os.Interrupt)
	}
	res := t.RunOK(sc, "cmdline")
	if res == nil {
		return
	}
	t.Eval("client "+opt+fmt.Sprint(sc.Args, sc.Env), true)
	t.Distinct("command_lines", "client "+strings.Replace(opt, ip, "IP", 1))
	fail := func(f string, a ...interface{}) {
		d := kit.Detail(sc, res)
		mu.Lock()
		d["requests"] = reqs
		mu.Unlock()
		t.Fail("cmdline:client", fmt.Sprintf(f, a...), d)
	}
	if !asked {
		fail("finch --client %s does not ask the server at %s", opt, addr)
		return
	}
	if len(res.Events) > 0 {
		fail("a client without a stage connected to MySQL")
		return
	}
	cmdlineDebug(fail, res.Dir["stderr.txt"], res.Out, debug)
}
