package kit

import (
	"context"
	"crypto/tls"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"finchverif/fakemysql"
)

// Scenario is one end-to-end run of the finch binary against a fake MySQL.
// "{{ADDR}}" in file contents and args is replaced by the server's address,
// "{{DIR}}" by the scratch directory.
type Scenario struct {
	Files     map[string]string
	Args      []string // command line, after the binary
	Env       []string
	Handler   fakemysql.Handler
	Reject    func(n int) int
	Race      bool
	Bin       string        // another binary (from .build) than finch
	Timeout   time.Duration // hang limit; default 120s
	MaxEvents int           // bound of the server's log; default 200000
	// During runs concurrently with finch; it may signal the process.
	During func(p *Proc)
	Server *fakemysql.Server // use this one instead of a new one
	TLS    *tls.Config       // the server allows encryption
	Net    string            // "unix": listen on a socket in the scratch dir
	ErrTo  string            // standard error goes to this file of the scratch dir
}

// Proc is a running finch process.
type Proc struct {
	Cmd    *exec.Cmd
	Server *fakemysql.Server
	Out    *lockedBuf
	Dir    string
	Done   chan struct{}
}

func (p *Proc) Signal(s os.Signal) { p.Cmd.Process.Signal(s) }
func (p *Proc) Output() string     { return p.Out.String() }

type Result struct {
	Exit     int
	Out      string
	TimedOut bool
	Events   []fakemysql.Event
	Wall     time.Duration
	EndAt    time.Duration     // when the process ended, on the clock of Event.At
	Dir      map[string]string // files left in the scratch dir
}

// Crashed reports a Go panic, fatal error or race report in the output.
func (r *Result) Crashed() string { s, _ := crashed(r.Out); return s }

var reFrame = regexp.MustCompile(`(?m)^  (github\.com/square/finch\S*?|main\.\S*?)\(`)

// crashed returns what happened and the report.
func crashed(out string) (string, string) {
	for _, s := range []string{"PANIC:", "panic:", "fatal error:", "SIGSEGV"} {
		if i := strings.Index(out, s); i >= 0 {
			return firstLine(out[i:]), ""
		}
	}
	rest := out
	for {
		i := strings.Index(rest, "WARNING: DATA RACE")
		if i < 0 {
			return "", ""
		}
		rest = rest[i:]
		j := strings.Index(rest, "\n==================")
		if j < 0 {
			j = len(rest)
		}
		rep := rest[:j]
		rest = rest[j:]
		// A client that does not stop within the grace period keeps its
		// statistics while they are reported; finch says that they are wrong.
		if strings.Contains(out, "clients did not stop") && strings.Contains(rep, "finch/stats.") {
			continue
		}
		at := ""
		if m := reFrame.FindStringSubmatch(rep); m != nil {
			at = " in " + m[1]
		}
		return "WARNING: DATA RACE" + at, rep
	}
}

// FinchBin returns the path of the finch binary built from /repo.
func FinchBin(race bool) string {
	if race {
		return filepath.Join(Build(), "finch-race")
	}
	return filepath.Join(Build(), "finch")
}

// ScratchDir makes a scratch directory; the caller removes it.
func ScratchDir() (string, error) {
	base := os.Getenv("VERIF_SCRATCH") // made and removed by the parent
	return os.MkdirTemp(base, "s")
}

// StartFinch starts finch in dir.
func StartFinch(dir string, race bool, args, env []string) (*Proc, error) {
	return Start(FinchBin(race), dir, args, env)
}

// Start starts a finch binary in dir.
func Start(bin, dir string, args, env []string) (*Proc, error) {
	return start(bin, dir, args, env, "")
}

func start(bin, dir string, args, env []string, errTo string) (*Proc, error) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir, "GORACE=halt_on_error=0 exitcode=66", "GOTRACEBACK=all"}, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p := &Proc{Cmd: cmd, Out: &lockedBuf{}, Dir: dir, Done: make(chan struct{})}
	cmd.Stdout, cmd.Stderr = p.Out, p.Out
	if errTo != "" {
		f, err := os.Create(filepath.Join(dir, errTo))
		if err != nil {
			return nil, err
		}
		defer f.Close()
		cmd.Stderr = f
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		cmd.Wait()
		close(p.Done)
	}()
	return p, nil
}

// Wait waits for the process; on timeout it dumps goroutines and kills it.
func (p *Proc) Wait(d time.Duration) (timedOut bool) {
	var over chan struct{} // the server's log is full: it runs away
	if p.Server != nil {
		over = p.Server.Over
	}
	for t0 := time.Now(); ; d = 10 * time.Second {
		n := 0
		if p.Server != nil {
			n = p.Server.N()
		}
		select {
		case <-p.Done:
			return false
		case <-over:
		case <-time.After(d):
			// slow, not hanging, if it still sends statements
			if p.Server != nil && p.Server.N() > n && time.Since(t0) < 240*time.Second {
				continue
			}
		}
		break
	}
	p.Cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.Done:
	case <-time.After(5 * time.Second):
		p.Cmd.Process.Kill()
		<-p.Done
	}
	return true
}

func (p *Proc) ExitCode() int { return p.Cmd.ProcessState.ExitCode() }

// Run runs a scenario to completion.
func Run(sc *Scenario) (*Result, error) {
	dir, err := ScratchDir()
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	srv := sc.Server
	if srv == nil {
		if sc.Net == "unix" {
			srv, err = fakemysql.Listen("unix", filepath.Join(dir, "m.sock"), sc.Handler)
		} else if sc.Net == "tcp6" {
			srv, err = fakemysql.Listen("tcp6", "[::1]:0", sc.Handler)
		} else {
			srv, err = fakemysql.New(sc.Handler)
		}
		if err != nil {
			return nil, err
		}
		srv.RejectConn = sc.Reject
		srv.TLS = sc.TLS
		if sc.MaxEvents > 0 {
			srv.Max = sc.MaxEvents
		}
		defer srv.Close()
	}
	sub := strings.NewReplacer("{{ADDR}}", srv.Addr, "{{PORT}}", srv.Addr[strings.LastIndex(srv.Addr, ":")+1:], "{{DIR}}", dir, "{{SOCK}}", filepath.Join(dir, "m.sock"))
	if err := WriteFiles(dir, sc.Files, sub); err != nil {
		return nil, err
	}
	args := make([]string, len(sc.Args))
	for i, a := range sc.Args {
		args[i] = sub.Replace(a)
	}
	env := make([]string, len(sc.Env))
	for i, a := range sc.Env {
		env[i] = sub.Replace(a)
	}
	t0 := time.Now()
	bin := FinchBin(sc.Race)
	if sc.Bin != "" {
		bin = filepath.Join(Build(), strings.Replace(filepath.Base(FinchBin(sc.Race)), "finch", sc.Bin, 1))
	}
	p, err := start(bin, dir, args, env, sc.ErrTo)
	if err != nil {
		return nil, err
	}
	p.Server = srv
	if sc.During != nil {
		go sc.During(p)
	}
	to := sc.Timeout
	if to == 0 {
		to = 120 * time.Second
	}
	timedOut := p.Wait(to)
	endAt := srv.Since()
	r := &Result{Exit: p.ExitCode(), Out: p.Output(), TimedOut: timedOut, EndAt: endAt, Wall: time.Since(t0), Dir: map[string]string{}}
	if sc.Server == nil {
		srv.Close()
	}
	r.Events = srv.Events()
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && fi.Size() < 1<<20 {
			rel, _ := filepath.Rel(dir, path)
			if _, ok := sc.Files[rel]; !ok {
				b, _ := os.ReadFile(path)
				r.Dir[rel] = string(b)
			}
		}
		return nil
	})
	return r, nil
}

func WriteFiles(dir string, files map[string]string, sub *strings.Replacer) error {
	for name, content := range files {
		fn := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(fn), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(fn, []byte(sub.Replace(content)), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Detail is a scenario and its outcome for a replay file.
func Detail(sc *Scenario, r *Result) map[string]interface{} {
	m := map[string]interface{}{"files": sc.Files, "args": sc.Args, "env": sc.Env}
	if r != nil {
		m["exit"] = r.Exit
		m["timed_out"] = r.TimedOut
		m["output"] = Clip(r.Out, 6000)
		m["events"] = EventLines(r.Events, 400)
	}
	return m
}

// EventLines renders an event log.
func EventLines(evs []fakemysql.Event, max int) []string {
	out := []string{}
	for i, e := range evs {
		if i >= max {
			out = append(out, fmt.Sprintf("... %d more", len(evs)-max))
			break
		}
		s := fmt.Sprintf("#%d-%d c%d %s %s", e.Seq, e.Done, e.Conn, e.Kind, e.SQL)
		if e.Args != nil {
			s += fmt.Sprintf(" %v", e.Args)
		}
		if e.Reply.ErrCode != 0 {
			s += fmt.Sprintf(" -> ERR %d", e.Reply.ErrCode)
		}
		if e.Reply.Drop {
			s += " -> DROP"
		}
		out = append(out, s)
	}
	return out
}

// RunOK runs a scenario and reports harness problems and hangs/crashes as the
// check wants: it returns nil if the run cannot be judged further.
func (t *T) RunOK(sc *Scenario, key string) *Result {
	sc.Race = sc.Race || t.Part.Sanitize
	r, err := Run(sc)
	if err != nil {
		t.Fail("harness", "cannot run finch: "+err.Error(), nil)
		return nil
	}
	t.Count("finch_runs", 1)
	t.Count("server_events", len(r.Events))
	if r.TimedOut {
		t.Fail(key+":hang", "finch did not terminate", Detail(sc, r))
		return nil
	}
	if c, rep := crashed(r.Out); c != "" {
		d := Detail(sc, r)
		if rep != "" {
			d["race_report"] = rep
		}
		t.Fail(key+":crash", "finch crashed: "+c, d)
		return nil
	}
	if t.Part.Sanitize {
		k, n := interleaving(r.Events)
		t.eval(k, n > 1)
		t.Count("race_instrumented_processes", 1)
	}
	return r
}

// Ctx with timeout helper.
func Ctx(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

// interleaving identifies a run: what each client executed, in which order
// between the clients. n is the number of clients.
func interleaving(evs []fakemysql.Event) (key string, n int) {
	h := fnv.New64a()
	conns := map[int]int{}
	for _, e := range evs {
		if e.Kind != "query" && e.Kind != "execute" {
			continue
		}
		if _, ok := conns[e.Conn]; !ok {
			conns[e.Conn] = len(conns)
		}
		fmt.Fprintf(h, "%d %s|", conns[e.Conn], e.SQL)
	}
	return fmt.Sprint(h.Sum64()), len(conns)
}
