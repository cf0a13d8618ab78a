def e2e(files, args, body, h="nil"):
    import json
    fs = "".join(f"\t\t{json.dumps(k)}: {json.dumps(v)},\n" for k, v in files.items())
    return MAIN + '''func main() {
	r := Run(Sc{Files: map[string]string{
''' + fs + '''	}, Args: []string{''' + ", ".join(json.dumps(a) for a in args) + '''}, H: ''' + h + '''})
	_ = r
''' + body + "}\n"
M = "  mysql:\n    hostname: {{ADDR}}\n"
bug("C13-and-stale", "C13", "two rate limits that apply to the same clients, the inner one lower than the outer one",
 "the combined limiter forgets to clear the inner limit's permission, so after the first statement only the outer limit counts",
 [("limit/rate.go", "			a = false\n			b = false\n", "			a = false\n")],
 main=e2e({"s.yaml": "stage:\n  qps: 400\n  runtime: 3s\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 2\n      qps-clients: 20\n", "a.sql": "INSERT INTO t VALUES (1)\n"}, ["s.yaml"],
 '''	if n := r.Count("INSERT"); n > 80 || n < 20 {
		Fail("%d statements in 3s, limit is 20 per second\\n%s", n, r.Out)
	}
'''))
bug("C12-or-second", "C12", "a statement with a size limit and a rows limit, in that order",
 "only the first of two combined data limits is told how many rows were affected, so a rows limit given after a size limit never ends",
 [("limit/data.go", "	lm.a.Affected(n)\n	lm.b.Affected(n)\n", "	lm.a.Affected(n)\n")],
 main=e2e({"s.yaml": "stage:\n  runtime: 4s\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 1\n      db: d\n", "a.sql": "-- table-size: d.t 1G\n-- rows: 10\nINSERT INTO t VALUES (1)\n"}, ["s.yaml"],
 '''	if n := r.Count("INSERT"); n != 10 {
		Fail("%d rows, limit is 10\\n%s", n, r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			time.Sleep(20 * time.Millisecond)
		}
		return OKReply(s, ev)
	}'''))
bug("C03-clients-shared", "C03", "two client groups in one execution group, both with iter-clients",
 "the iter-clients counter is shared by all client groups of an execution group instead of only by the clients of the client group",
 [("workload/workload.go", "			var clientsIterPtr uint32\n", ""), ("workload/workload.go", "		var execGroupIterPtr uint32\n", "		var execGroupIterPtr, clientsIterPtr uint32\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n    - file: b.sql\n  workload:\n    - clients: 2\n      iter-clients: 7\n      group: g\n      trx: [a.sql]\n    - clients: 3\n      iter-clients: 12\n      group: g\n      trx: [b.sql]\n", "a.sql": "INSERT INTO a VALUES (1)\n", "b.sql": "INSERT INTO b VALUES (1)\n"}, ["s.yaml"],
 '''	if a, b := r.Count("INTO a"), r.Count("INTO b"); a != 7 || b != 12 {
		Fail("%d and %d iterations, expected 7 and 12\\n%s", a, b, r.Out)
	}
'''))
bug("C14-errors-linger", "C14", "periodic statistics with errors, at least 3 intervals",
 "resetting statistics does not clear the error counts, and the two buffers of a client are reused every second interval, so errors are counted again",
 [("stats/stats.go", "	for k := range s.Errors {\n		s.Errors[k] = 0\n	}\n", "")],
 main=e2e({"s.yaml": "stage:\n  runtime: 2300ms\n  stats:\n    freq: 500ms\n    report:\n      csv:\n        file: {{DIR}}/out.csv\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 1\n", "a.sql": "INSERT INTO t VALUES (1)\n"}, ["s.yaml"],
 '''	b, err := os.ReadFile(r.Dir + "/out.csv")
	if err != nil {
		Fail("%v\\n%s", err, r.Out)
	}
	var rep int
	for i, l := range strings.Split(strings.TrimSpace(string(b)), "\\n") {
		f := strings.Split(l, ",")
		if i > 0 {
			n, _ := strconv.Atoi(f[len(f)-2])
			rep += n
		}
	}
	if rep > int(errs.Load()) || rep == 0 {
		Fail("%d errors reported, %d occurred\\n%s", rep, errs.Load(), b)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			time.Sleep(10 * time.Millisecond)
			if ev.Seq%7 == 0 {
				errs.Add(1)
				return Reply{ErrCode: 1213, ErrMsg: "Deadlock"}
			}
		}
		return OKReply(s, ev)
	}''').replace('import (\n', 'import (\n\t"os"\n\t"strconv"\n\t"sync/atomic"\n').replace("func main", "var errs atomic.Int64\n\nfunc main"))
bug("C10-buffer-alias", "C10", "a saved column used by two statements, with other statements in between",
 "the saved value refers to the MySQL driver's read buffer instead of a copy, so later responses overwrite it",
 [("data/column.go", "			g.bytes = bytes.NewBuffer(make([]byte, len(any.([]byte))))\n		}\n		g.bytes.Reset()\n		g.bytes.Write(any.([]byte))\n", "			g.bytes = &bytes.Buffer{}\n		}\n		*g.bytes = *bytes.NewBuffer(any.([]byte)) // no copy\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n      data:\n        c:\n          generator: column\n          params:\n            quote-value: yes\n  workload:\n    - clients: 1\n      iter: 3\n", "a.sql": "-- save-columns: @c\nSELECT a FROM t\n\nSELECT b FROM other\n\nSELECT b FROM other\n\nINSERT INTO t VALUES (@c)\n"}, ["s.yaml"],
 '''	if n := r.Count("VALUES ('the saved value')"); n != 3 {
		Fail("%d inserts of the saved value, expected 3: %v\\n%s", n, r.Stmts(), r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "SELECT a") {
			return Reply{Cols: []Col{{Name: "a", Type: TStr}}, Rows: [][]interface{}{{"the saved value"}}}
		}
		if strings.HasPrefix(ev.SQL, "SELECT b") {
			return Reply{Cols: []Col{{Name: "b", Type: TStr}}, Rows: [][]interface{}{{strings.Repeat("x", 300)}}}
		}
		return OKReply(s, ev)
	}'''))
bug("C18-report-alias", "C18", "two stages, report options in _all.yaml that use a param which the stages set differently",
 "stages share the report options of _all.yaml instead of copying them, so the params of the first stage are used for all stages",
 [("config/file.go", "			c.Stats.Report[r] = map[string]string{}\n			for k, v := range b.Stats.Report[r] {\n				c.Stats.Report[r][k] = v\n			}\n", "			c.Stats.Report[r] = b.Stats.Report[r]\n")],
 main=e2e({"_all.yaml": "mysql:\n  hostname: {{ADDR}}\nstats:\n  report:\n    csv:\n      file: {{DIR}}/$params.out\n", "s1.yaml": "stage:\n  params:\n    out: one.csv\n  trx:\n    - file: a.sql\n  workload:\n    - iter: 1\n", "s2.yaml": "stage:\n  params:\n    out: two.csv\n  trx:\n    - file: a.sql\n  workload:\n    - iter: 1\n", "a.sql": "INSERT INTO t VALUES (1)\n"}, ["s1.yaml", "s2.yaml"],
 '''	for _, f := range []string{"one.csv", "two.csv"} {
		if _, err := os.Stat(r.Dir + "/" + f); err != nil {
			Fail("%v\\n%s", err, r.Out)
		}
	}
''').replace('import (\n', 'import (\n\t"os"\n'))
bug("C20-skip-verify", "C20", "TLS with cert and key but without ca",
 "when no CA is configured the server's certificate is not verified",
 [("config/file.go", "		InsecureSkipVerify: True(c.SkipVerify),\n", "		InsecureSkipVerify: True(c.SkipVerify) || c.CA == \"\",\n")],
 pkg="config", test='''package config

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/pem"
	"math/big"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1)}
	c, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	kb, _ := x509.MarshalECPrivateKey(k)
	os.WriteFile(d+"/c.pem", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}), 0o600)
	os.WriteFile(d+"/k.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600)
	cfg, err := TLS{Cert: d + "/c.pem", Key: d + "/k.pem"}.LoadTLS("db.example.com")
	if err != nil {
		t.Fatal(err)
	}
	if cfg.InsecureSkipVerify {
		t.Error("server certificate is not verified")
	}
}
''')
bug("C23-tps-exec-group", "C23", "an invalid tps-exec-group", "tps-exec-group is not validated, so a mistyped value silently means no limit",
 [("config/file.go", "	if err := parseInt(c.TPSExecGroup); err != nil {\n", "	if err := parseInt(c.TPSClients); err != nil {\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - iter: 1\n      tps-exec-group: 1O\n", "a.sql": "INSERT INTO t VALUES (1)\n"}, ["s.yaml"],
 '''	if r.Exit == 0 || r.Count("INSERT") > 0 {
		Fail("invalid config executed\\n%s", r.Out)
	}
'''))
bug("C21-rows-unlocked", "C21", "several clients with a rows limit on the same statement",
 "the rows limit is read without its lock while other clients update it",
 [("limit/data.go", "	more := lm.n < lm.max\n	lm.Unlock()\n	return more\n", "	lm.Unlock()\n	return lm.n < lm.max\n")],
 pkg="limit", race=True, test='''package limit

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	lm := NewRows(1000, 0)
	var wg sync.WaitGroup
	for c := 0; c < 4; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for lm.More(nil) {
				lm.Affected(1)
			}
		}()
	}
	wg.Wait()
}
''')
bug("C22-combined-clients", "C22", "stdout report of several instances and several intervals",
 "the combined row does not start counting clients from the first instance, so clients of previous intervals are added",
 [("stats/collector.go", "	in.Clients = from[0].Clients\n", ""), ("stats/collector.go", "	for i := range from[1:] {    // combine the rest\n		in.Total.Combine(from[1+i].Total)\n		in.Clients += from[1+i].Clients\n	}\n", "	for i := range from[1:] { // combine the rest\n		in.Total.Combine(from[1+i].Total)\n	}\n	for i := range from {\n		in.Clients += from[i].Clients\n	}\n")],
 pkg="stats", test='''package stats

import "testing"

func TestDemo(t *testing.T) {
	all := NewInstance("")
	for n := 0; n < 3; n++ {
		a, b := NewInstance("a"), NewInstance("b")
		a.Clients, b.Clients = 2, 3
		all.Combine([]Instance{a, b})
		if all.Clients != 5 {
			t.Fatalf("%d clients, expected 5", all.Clients)
		}
	}
}
''')
bug("C17-boot-error-counts", "C17", "a remote instance that fails to boot, then another that takes its place",
 "an instance that failed to boot is counted as booted, so the stage starts with fewer instances than configured",
 [("compute/server.go", "				log.Printf(\"Remote %s error on boot: %s\", ack.name, ack.err)\n				continue\n			}\n			booted += 1\n			if nInstances > 1 {\n", "				log.Printf(\"Remote %s error on boot: %s\", ack.name, ack.err)\n			}\n			booted += 1\n			if nInstances > 1 && ack.err == nil {\n")],
 main=MAIN.replace('import (\n', 'import (\n\t"io"\n\t"net"\n\t"net/http"\n\t"os/exec"\n\t"sync/atomic"\n').replace('"strings"\n','"strings"\n\n') + '''func main() {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	addr := l.Addr().String()
	l.Close()
	var early atomic.Bool
	r := Run(Sc{Files: map[string]string{
		"s.yaml": "stage:\\n  compute:\\n    instances: 2\\n  mysql:\\n    hostname: {{ADDR}}\\n  trx:\\n    - file: a.sql\\n  workload:\\n    - iter: 1\\n",
		"a.sql":  "INSERT INTO t VALUES (1)\\n",
	}, Args: []string{"--server", addr, "s.yaml"}, Timeout: 15 * time.Second, During: func(cmd *exec.Cmd, s *Server, dir string) {
		for i := 0; i < 50; i++ {
			resp, err := http.Get("http://" + addr + "/boot?name=r1&stage-id=")
			if err != nil || resp.StatusCode != 200 {
				time.Sleep(100 * time.Millisecond)
				continue
			}
			b, _ := io.ReadAll(resp.Body)
			id := string(b)
			id = id[strings.Index(id, "\\"Id\\":\\"")+6:]
			id = id[:strings.Index(id, "\\"")]
			http.Post("http://"+addr+"/boot?name=r1&stage-id="+id, "text/plain", strings.NewReader("cannot boot"))
			break
		}
		time.Sleep(2 * time.Second)
		for _, e := range s.Events() {
			if strings.HasPrefix(e.SQL, "INSERT") {
				early.Store(true)
			}
		}
		cmd.Process.Kill()
	}})
	if early.Load() {
		Fail("stage ran without its second instance\\n%s", r.Out)
	}
	if !strings.Contains(r.Out, "cannot boot") {
		Fail("remote boot error not reported\\n%s", r.Out)
	}
}
''')
bug("C02-group-count", "C02", "an execution group with several client groups, followed by another execution group",
 "the stage counts only the clients of the last client group, so the next execution group starts while clients of the previous are running",
 [("stage/stage.go", "			nClients += len(s.execGroups[egNo][cgNo].Clients)\n", "			nClients = len(s.execGroups[egNo][cgNo].Clients)\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n    - file: b.sql\n  workload:\n    - clients: 3\n      iter: 5\n      group: one\n      trx: [a.sql]\n    - clients: 1\n      iter: 1\n      group: one\n      trx: [a.sql]\n    - clients: 1\n      iter: 1\n      group: two\n      trx: [b.sql]\n", "a.sql": "INSERT INTO a VALUES (1)\n", "b.sql": "INSERT INTO b VALUES (1)\n"}, ["s.yaml"],
 '''	seen := false
	for _, s := range r.Stmts() {
		if strings.Contains(s, "INTO b") {
			seen = true
		} else if seen && strings.Contains(s, "INTO a") {
			Fail("group one executes after group two began\\n%s", r.Out)
		}
	}
	if a := r.Count("INTO a"); a != 16 || !seen {
		Fail("%d\\n%s", a, r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			time.Sleep(50 * time.Millisecond)
		}
		return OKReply(s, ev)
	}'''))
bug("C05-rollback-flag", "C05", "lock wait timeout (1205) inside a MySQL transaction",
 "after a lock wait timeout the transaction is left open: no ROLLBACK is executed",
 [("client/client.go", "			if errFlags&finch.Erollback != 0 && trxActive {\n", "			if errFlags&finch.Erollback != 0 && trxActive && c.Statements[stmtNo].Commit {\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 1\n      iter: 3\n", "a.sql": "BEGIN\n\nINSERT INTO t VALUES (1)\n\nCOMMIT\n"}, ["s.yaml"],
 '''	if n := r.Count("ROLLBACK"); n != 3 {
		Fail("%d ROLLBACK, expected 3\\n%s", n, r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			return Reply{ErrCode: 1205, ErrMsg: "Lock wait timeout exceeded"}
		}
		return OKReply(s, ev)
	}'''))
bug("C01-trx-order", "C01", "client group whose trx list is in a different order than stage.trx",
 "clients execute their trx in the order of stage.trx instead of the order assigned to the client group",
 [("workload/workload.go", "				for trxNo, trxName := range cg.Trx { // ------------------- TRX\n", "				order := make([]string, 0, len(cg.Trx))\n				for _, trxName := range a.TrxSet.Order {\n					for _, t := range cg.Trx {\n						if t == trxName {\n							order = append(order, t)\n						}\n					}\n				}\n				for trxNo, trxName := range order { // ------------------- TRX\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n    - file: b.sql\n  workload:\n    - clients: 1\n      iter: 2\n      trx: [b.sql, a.sql]\n", "a.sql": "INSERT INTO a VALUES (1)\n", "b.sql": "INSERT INTO b VALUES (1)\n"}, ["s.yaml"],
 '''	if s := strings.Join(r.Stmts(), ";"); !strings.Contains(s, "INSERT INTO b VALUES (1);INSERT INTO a VALUES (1);INSERT INTO b VALUES (1);INSERT INTO a VALUES (1)") {
		Fail("wrong order: %s\\n%s", s, r.Out)
	}
'''))
bug("C11-prepare-multi", "C11", "prepared copies of a statement that is not the first of the trx",
 "prepared copies are bound to the wrong statement when other statements precede them",
 [("client/client.go", "			c.ps[i+j] = c.ps[i]\n", "			c.ps[j] = c.ps[i]\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n      data:\n        d:\n          generator: auto-inc\n  workload:\n    - clients: 1\n      iter: 1\n", "a.sql": "BEGIN\n\nUPDATE u SET n=1\n\n-- prepare\n-- copies: 3\nINSERT INTO t VALUES (@d)\n\nCOMMIT\n"}, ["s.yaml"],
 '''	if s := r.Stmts(); len(s) < 6 || r.Count("INSERT") != 3 || r.Count("UPDATE") != 1 || r.Count("COMMIT") != 1 {
		Fail("%v\\n%s", s, r.Out)
	}
'''))
bug("C19-prev-group", "C19", "auto-assigned workload: DML, DDL, DML, DML", "groups named automatically after DDL are not consecutive",
 [("workload/workload.go", "				a.Workload[i].Group = prev\n", "				a.Workload[i].Group = prev + a.Workload[i].Trx[0]\n")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n  workload:\n    - clients: 1\n      iter: 5\n      trx: [a.sql]\n    - clients: 1\n      iter: 5\n      trx: [a.sql]\n", "a.sql": "INSERT INTO a VALUES (1)\n"}, ["s.yaml"],
 '''	conns := map[int]bool{}
	sw := 0
	last := 0
	for _, e := range r.Ev {
		if strings.HasPrefix(e.SQL, "INSERT") {
			conns[e.Conn] = true
			if e.Conn != last {
				sw++
			}
			last = e.Conn
		}
	}
	if len(conns) != 2 || sw < 3 {
		Fail("client groups without a name are not concurrent: %d switches\\n%s", sw, r.Out)
	}
''', '''func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			time.Sleep(50 * time.Millisecond)
		}
		return OKReply(s, ev)
	}'''))
bug("C16-late-merge", "C16", "a remote that is one interval late", "stats of a past interval are merged in the current interval instead of discarded",
 [("stats/collector.go", "	if in.Interval < c.intervalNo {\n", "	if in.Interval+1 < c.intervalNo {\n")],
 pkg="stats", test='''package stats

import (
	"testing"

	"github.com/square/finch/config"
)

type demoRep struct{ got [][]Instance }

func (d *demoRep) Report(in []Instance) { d.got = append(d.got, append([]Instance{}, in...)) }
func (d *demoRep) Stop()                {}

func TestDemo(t *testing.T) {
	c, err := NewCollector(config.Stats{Freq: "1h"}, "local", 2)
	if err != nil {
		t.Fatal(err)
	}
	d := &demoRep{}
	c.reporters = []Reporter{d}
	in := func(h string, n uint) Instance {
		i := NewInstance(h)
		i.Interval = n
		return i
	}
	c.Recv(in("a", 1))
	c.Recv(in("a", 2)) // b is late
	c.Recv(in("b", 1))
	c.Recv(in("b", 2))
	for _, g := range d.got {
		for _, i := range g {
			if i.Interval != g[0].Interval {
				t.Errorf("mixed intervals: %d and %d", g[0].Interval, i.Interval)
			}
		}
	}
}
''')
bug("C08-unlocked-first", "C08", "several clients that use a stage or global data key for the first time at the same moment",
 "the first value of a one-time scope is generated without the lock, so clients can get different values",
 [("data/scope.go", "	if s.oneTime != nil {\n		s.oneTime.Lock()\n		defer s.oneTime.Unlock()\n		if s.vals == nil {\n			s.vals = s.g.Values(cnt) // first and only implicit call\n		}\n		return s.vals\n	}\n\n	// VALUE scope\n	return s.g.Values(cnt)\n", "	if s.oneTime != nil && s.vals != nil {\n		return s.vals\n	}\n\n	// VALUE scope, and first call of one time scopes\n	s.vals = s.g.Values(cnt)\n	return s.vals\n")],
 pkg="data", race=True, test='''package data

import (
	"sync"
	"testing"

	"github.com/square/finch"
)

type slow struct {
	AutoInc
}

func TestDemo(t *testing.T) {
	for k := 0; k < 50; k++ {
		g, _ := NewAutoInc(map[string]string{})
		s := NewScopedGenerator(Id{Scope: finch.SCOPE_STAGE}, g)
		var wg sync.WaitGroup
		vals := make([]interface{}, 8)
		for i := range vals {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				vals[i] = s.Values(RunCount{1, 1, 1, 1, uint(i + 1)})[0]
			}(i)
		}
		wg.Wait()
		for i := range vals {
			if vals[i] != vals[0] {
				t.Fatalf("%v", vals)
			}
		}
	}
}
''')
bug("C07-share-client", "C07", "a key with client-group scope used by two client groups", "client group scope compares only execution groups, so both client groups share one generator",
 [("finch.go", "	SCOPE_CLIENT_GROUP: 4,", "	SCOPE_CLIENT_GROUP: 5,")],
 main=e2e({"s.yaml": "stage:\n"+M+"  trx:\n    - file: a.sql\n      data:\n        d:\n          generator: auto-inc\n          scope: client-group\n  workload:\n    - clients: 1\n      iter: 3\n      group: g\n    - clients: 1\n      iter: 3\n      group: g\n", "a.sql": "INSERT INTO t VALUES (@d)\n"}, ["s.yaml"],
 '''	for _, v := range []string{"(1)", "(2)", "(3)"} {
		if r.Count(v) != 2 {
			Fail("%v\\n%s", r.Stmts(), r.Out)
		}
	}
'''))
