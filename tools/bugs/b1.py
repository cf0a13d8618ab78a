bug("C03-late-count", "C03", "several concurrent clients in one execution group in one client group with iter-clients",
 "iter-clients counts an iteration when it ends instead of when it starts, so concurrent clients execute more iterations than the limit",
 [("client/client.go", "		if c.IterClients > 0 && atomic.AddUint32(c.IterClientsPtr, 1) > c.IterClients {\n			return\n		}\n",
   "		if c.IterClients > 0 && atomic.LoadUint32(c.IterClientsPtr) >= c.IterClients {\n			return\n		}\n"),
  ("client/client.go", "			continue // next query\n\n", "			if c.IterClients > 0 && i == len(c.Statements)-1 {\n				atomic.AddUint32(c.IterClientsPtr, 1) // iteration complete\n			}\n			continue // next query\n\n")],
 main=MAIN+'''func main() {
	for i := 0; i < 5; i++ {
		r := Run(Sc{Files: map[string]string{
			"s.yaml": "stage:\\n  mysql:\\n    hostname: {{ADDR}}\\n  trx:\\n    - file: a.sql\\n  workload:\\n    - clients: 8\\n      iter-clients: 11\\n",
			"a.sql":  "INSERT INTO t VALUES (1)\\n",
		}, Args: []string{"s.yaml"}, H: func(s *Server, ev *Event) Reply {
			if strings.HasPrefix(ev.SQL, "INSERT") {
				time.Sleep(5 * time.Millisecond)
			}
			return OKReply(s, ev)
		}})
		if n := r.Count("INSERT"); n != 11 || r.TimedOut {
			Fail("%d iterations, expected 11\\n%s", n, r.Out)
		}
	}
}
''')
bug("C05-default-db", "C05", "client group with db, and a lost connection or other error that reconnects",
 "the default database is set only on the first connection, not when a client reconnects after an error",
 [("client/client.go", '	if c.DefaultDb != "" {\n		_, err := c.conn', '	if c.DefaultDb != "" && cerr == nil {\n		_, err := c.conn')],
 main=MAIN+'''func main() {
	n := 0
	r := Run(Sc{Files: map[string]string{
		"s.yaml": "stage:\\n  mysql:\\n    hostname: {{ADDR}}\\n  trx:\\n    - file: a.sql\\n  workload:\\n    - clients: 1\\n      iter: 4\\n      db: thedb\\n",
		"a.sql":  "INSERT INTO t VALUES (1)\\n",
	}, Args: []string{"s.yaml"}, H: func(s *Server, ev *Event) Reply {
		if strings.HasPrefix(ev.SQL, "INSERT") {
			n++
			if n == 2 {
				return Reply{Drop: true}
			}
		}
		return OKReply(s, ev)
	}})
	db := map[int]bool{}
	ins := 0
	for _, e := range r.Ev {
		if strings.HasPrefix(e.SQL, "USE ") {
			db[e.Conn] = true
		}
		if strings.HasPrefix(e.SQL, "INSERT") {
			ins++
			if !db[e.Conn] {
				Fail("statement executed without default database on connection %d", e.Conn)
			}
		}
	}
	if ins != 4 {
		Fail("%d inserts\\n%s", ins, r.Out)
	}
}
''')
bug("C07-greater-early", "C07", "client scope key used in two client groups, the first with more clients than the number of the client in the second",
 "comparing run levels returns at the first smaller level without looking at the higher ones, so the first client of the next client group shares the previous group's generator",
 [("finch.go", "		if now[i] > before[i] {\n			return true\n		}\n", "		if now[i] != before[i] {\n			return now[i] > before[i]\n		}\n")],
 main=MAIN+'''func main() {
	r := Run(Sc{Files: map[string]string{
		"s.yaml": "stage:\\n  mysql:\\n    hostname: {{ADDR}}\\n  trx:\\n    - file: a.sql\\n      data:\\n        d:\\n          generator: auto-inc\\n          scope: iter\\n  workload:\\n    - clients: 3\\n      iter: 3\\n      group: g1\\n      trx: [a.sql]\\n      db: g1\\n    - clients: 1\\n      iter: 3\\n      group: g2\\n      trx: [a.sql]\\n      db: g2\\n",
		"a.sql":  "INSERT INTO t VALUES (@d)\\n",
	}, Args: []string{"s.yaml"}})
	by := map[int][]string{}
	for _, e := range r.Ev {
		if strings.HasPrefix(e.SQL, "INSERT") {
			by[e.Conn] = append(by[e.Conn], e.SQL[len("INSERT INTO t VALUES "):])
		}
	}
	if len(by) != 4 {
		Fail("%d clients\\n%s", len(by), r.Out)
	}
	for c, v := range by {
		if strings.Join(v, "") != "(1)(2)(3)" {
			Fail("connection %d: %v, expected its own generator: (1)(2)(3)", c, v)
		}
	}
}
''')
bug("C19-first-trx", "C19", "client group without iter whose trx list has DDL, but not in the first trx",
 "only the first trx of a client group is checked for DDL, so a group of DML then DDL is neither run alone nor limited to 1 iteration",
 [("workload/workload.go", "	for _, trxName := range trxNames {\n		if a.TrxSet.Meta[trxName].DDL {\n			return true\n		}\n	}\n	return false\n",
   "	for _, trxName := range trxNames {\n		return a.TrxSet.Meta[trxName].DDL\n	}\n	return false\n")],
 main=MAIN+'''func main() {
	r := Run(Sc{Files: map[string]string{
		"s.yaml": "stage:\\n  runtime: 2s\\n  mysql:\\n    hostname: {{ADDR}}\\n  trx:\\n    - file: a.sql\\n    - file: b.sql\\n  workload:\\n    - clients: 1\\n      trx: [a.sql, b.sql]\\n",
		"a.sql":  "INSERT INTO t VALUES (1)\\n",
		"b.sql":  "CREATE TABLE t (a int)\\n",
	}, Args: []string{"s.yaml"}})
	if n := r.Count("CREATE"); n != 1 {
		Fail("%d CREATE\\n%s", n, r.Out)
	}
}
''')
bug("C16-interval-jump", "C16", "remote stats for an interval more than one ahead of the current, incomplete interval",
 "after forcing the report of an incomplete interval the collector assumes that the next interval is the received one, which is wrong if more than one is missing",
 [("stats/collector.go", "		c.intervalNo = in.Interval\n", "")],
 pkg="stats", test='''package stats

import (
	"testing"

	"github.com/square/finch/config"
)

type demoRep struct{ got [][]Instance }

func (d *demoRep) Report(in []Instance) { d.got = append(d.got, append([]Instance{}, in...)) }
func (d *demoRep) Stop()                {}

func TestDemo(t *testing.T) {
	c, err := NewCollector(config.Stats{Freq: "1h"}, "local", 2)
	if err != nil {
		t.Fatal(err)
	}
	d := &demoRep{}
	c.reporters = []Reporter{d}
	in := func(h string, n uint) Instance {
		i := NewInstance(h)
		i.Interval = n
		return i
	}
	c.Recv(in("r1", 1))
	c.Recv(in("r1", 4)) // intervals 2 and 3 lost
	c.Recv(in("r2", 4))
	c.Recv(in("r1", 5))
	c.Recv(in("r2", 5))
	var nos []uint
	for _, g := range d.got {
		nos = append(nos, g[0].Interval)
		for _, i := range g {
			if i.Interval != g[0].Interval {
				t.Errorf("mixed intervals: %v", g)
			}
		}
	}
	c.Recv(in("r1", 3)) // long gone: must be dropped
	c.Recv(in("r2", 3))
	if len(d.got) != 3 || nos[0] != 1 || nos[1] != 4 || nos[2] != 5 {
		t.Errorf("reported intervals %v (%d reports), expected [1 4 5]", nos, len(d.got))
	}
}
''')
bug("C15-combine-errors", "C15", "two clients (or trx) with the same MySQL error in one interval",
 "combining stats overwrites error counts instead of adding them",
 [("stats/stats.go", "		s.Errors[k] += v\n", "		s.Errors[k] = v\n")],
 pkg="stats", test='''package stats

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewStats(), NewStats()
	a.Record(WRITE, 10)
	a.Errors[1213] = 3
	b.Record(WRITE, 20)
	b.Errors[1213] = 2
	a.Combine(b)
	if a.Errors[1213] != 5 {
		t.Errorf("%d errors, expected 5", a.Errors[1213])
	}
}
''')
bug("C22-each-order", "C22", "stdout reporter with combined stats when an earlier report had more errors",
 "the combined instance keeps errors of earlier intervals because Reset only zeroes what Copy then overwrites",
 [("stats/collector.go", "	in.Total.Copy(from[0].Total) // copy the first\n	for i := range from[1:] {    // combine the rest\n		in.Total.Combine(from[1+i].Total)\n", "	in.Total.Copy(from[0].Total) // copy the first\n	for i := range from[1:] {    // combine the rest\n		if from[1+i].Seconds < from[0].Seconds/2 {\n			continue // not the same interval\n		}\n		in.Total.Combine(from[1+i].Total)\n")],
 pkg="stats", test='''package stats

import "testing"

func TestDemo(t *testing.T) {
	a, b, all := NewInstance("a"), NewInstance("b"), NewInstance("all")
	a.Seconds, b.Seconds = 5, 2
	a.Clients, b.Clients = 1, 1
	a.Total.Record(READ, 10)
	b.Total.Record(READ, 30)
	all.Combine([]Instance{a, b})
	if all.Total.N[READ] != 2 || all.Clients != 2 {
		t.Errorf("combined %d reads of %d clients, expected 2 of 2", all.Total.N[READ], all.Clients)
	}
}
''')
