// finchext is finch with a data generator and a stats reporter of a user (the
// documented API). Both log every call that Finch makes, to FINCH_EXT_LOG.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/square/finch/boot"
	"github.com/square/finch/data"
	"github.com/square/finch/stats"
)

var (
	mu  sync.Mutex
	out *os.File
	seq int64
)

func logf(m map[string]interface{}) {
	mu.Lock()
	defer mu.Unlock()
	seq++
	m["seq"] = seq
	b, _ := json.Marshal(m)
	out.Write(append(b, '\n'))
}

var nObj, nVal atomic.Int64

// busy notices calls of one object at the same time.
type busy struct{ n atomic.Int32 }

func (b *busy) in(what string, obj int64) {
	if b.n.Add(1) != 1 {
		logf(map[string]interface{}{"ev": "overlap", "what": what, "obj": obj})
	}
}

func (b *busy) out() { b.n.Add(-1) }

type gen struct {
	busy
	obj    int64
	key    string
	n      uint
	format string
	str    bool
	sleep  time.Duration
	calls  int // not synchronized: Finch must
}

func (g *gen) Format() (uint, string)     { return g.n, g.format }
func (g *gen) Name() string               { return "probe" }
func (g *gen) Scan(any interface{}) error { return nil }

func (g *gen) Copy() data.Generator {
	c := &gen{obj: nObj.Add(1), key: g.key, n: g.n, format: g.format, str: g.str, sleep: g.sleep}
	logf(map[string]interface{}{"ev": "copy", "obj": c.obj, "of": g.obj, "key": g.key})
	return c
}

func (g *gen) Values(rc data.RunCount) []interface{} {
	g.in("Values", g.obj)
	defer g.out()
	g.calls++
	vals := make([]interface{}, g.n)
	ids := make([]int64, g.n)
	for i := range vals {
		ids[i] = nVal.Add(1) + 1000000
		vals[i] = ids[i]
		if g.str {
			vals[i] = fmt.Sprintf("v%d", ids[i])
		}
	}
	if g.sleep > 0 {
		time.Sleep(g.sleep)
	}
	logf(map[string]interface{}{"ev": "values", "obj": g.obj, "key": g.key, "ids": ids, "call": g.calls,
		"iter": rc[data.ITER], "client": rc[data.CLIENT], "cg": rc[data.CLIENT_GROUP], "eg": rc[data.EXEC_GROUP], "stage": rc[data.STAGE]})
	return vals
}

type genFactory struct{}

func (genFactory) Make(name, key string, params map[string]string) (data.Generator, error) {
	g := &gen{obj: nObj.Add(1), key: key, n: 1, format: "%d"}
	p := map[string]string{}
	for k, v := range params {
		p[k] = v
	}
	logf(map[string]interface{}{"ev": "make", "name": name, "key": key, "params": p, "obj": g.obj})
	if params["fail"] != "" {
		return nil, errors.New("probe: " + params["fail"])
	}
	if s := params["n"]; s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			return nil, err
		}
		g.n = uint(n)
	}
	if params["str"] != "" {
		g.str, g.format = true, "'%s'"
	}
	if s := params["sleep"]; s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			return nil, err
		}
		g.sleep = d
	}
	return g, nil
}

type rep struct {
	busy
	obj   int64
	sleep time.Duration
}

func (r *rep) Report(from []stats.Instance) {
	r.in("Report", r.obj)
	defer r.out()
	list := []map[string]interface{}{}
	for _, in := range from {
		trx := map[string][]uint64{}
		for k, s := range in.Trx {
			trx[k] = append([]uint64{}, s.N...)
		}
		list = append(list, map[string]interface{}{"host": in.Hostname, "interval": in.Interval, "clients": in.Clients,
			"n": append([]uint64{}, in.Total.N...), "trx": trx, "runtime": in.Runtime, "seconds": in.Seconds})
	}
	if r.sleep > 0 {
		time.Sleep(r.sleep)
	}
	logf(map[string]interface{}{"ev": "report", "obj": r.obj, "from": list})
}

func (r *rep) Stop() {
	r.in("Stop", r.obj)
	defer r.out()
	logf(map[string]interface{}{"ev": "stop", "obj": r.obj})
}

type repFactory struct{}

func (repFactory) Make(name string, opts map[string]string) (stats.Reporter, error) {
	r := &rep{obj: nObj.Add(1)}
	p := map[string]string{}
	for k, v := range opts {
		p[k] = v
	}
	logf(map[string]interface{}{"ev": "makerep", "name": name, "params": p, "obj": r.obj})
	if opts["fail"] != "" {
		return nil, errors.New("probe: " + opts["fail"])
	}
	if s := opts["sleep"]; s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			return nil, err
		}
		r.sleep = d
	}
	return r, nil
}

func main() {
	var err error
	out, err = os.OpenFile(os.Getenv("FINCH_EXT_LOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		log.Fatal(err)
	}
	reg := func(kind, name string, err error) {
		logf(map[string]interface{}{"ev": "register", "kind": kind, "name": name, "ok": err == nil})
	}
	reg("data", "probe", data.Register("probe", genFactory{}))
	reg("stats", "probe", stats.Register("probe", repFactory{}))
	for _, n := range []string{"probe", "int", "xid", "column"} {
		reg("data", n, data.Register(n, genFactory{}))
	}
	for _, n := range []string{"probe", "stdout", "csv"} {
		reg("stats", n, stats.Register(n, repFactory{}))
	}
	if err := boot.Up(boot.Env{}); err != nil {
		log.Fatal(err)
	}
}
