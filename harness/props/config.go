package props

import (
	"fmt"
	"path"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	fm "finchverif/fakemysql"
	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:    "C18",
		Rule:  "random sets of stage files in several directories with _all.yaml, stage params, --param, environment variables, built-in params and command line options; the final value of every field is chosen first and then written in a random way (literal, human number, param, param that uses other params, environment variable, several of them in one value) with decoys at every level of lower precedence; the run must show the chosen values: databases, user and password of connections, number of clients and iterations, data generators and their parameters, trx names and files, SQL modifiers, databases from --database, CSV report file, percentiles and frequency; non-trivial: at least one value from a param or environment variable; distinct by files and arguments",
		Floor: 100,
		Parts: []kit.Part{
			{Name: "resolve", Quick: 900, Thorough: 30000, Par: 4, Run: configCase},
			{Name: "cmdline", Quick: 250, Thorough: 5000, Par: 3, Run: cmdlineCase},
		},
	})
}

// cfgGen writes values in ways that resolve to them.
type cfgGen struct {
	r     *kit.Rand
	base  map[string]map[string]string // dir -> params of _all.yaml
	cli   [][2]string
	cliOf map[string]string
	env   map[string]string

	dir   string
	stage map[string]string // params of the current stage
	used  map[string]bool   // params the current stage relies on
	// params some stage relies on in its stage or base: not to be set by --param
	taken map[string]bool
	vars  int
	// the stage has no params of its own, if possible
	noStage bool
}

var cfgParamNames = []string{"p", "p1", "p10", "P1", "p_1", "p-1", "foo", "foo2", "foo.bar", "rows", "db", "x", "clients", "n", "N", "sys", "params", "a-b-c", "é"}

// human is n written as the docs allow.
func (g *cfgGen) human(n int) string {
	r := g.r
	s := []string{fmt.Sprint(n)}
	if n >= 1000 {
		d := fmt.Sprint(n)
		s = append(s, d[:len(d)-3]+","+d[len(d)-3:])
	}
	if n > 0 && n%1000 == 0 {
		k := fmt.Sprint(n / 1000)
		s = append(s, k+"k", k+"K", k+"KB", k+"kb", k+".0k")
	}
	if n%1000 == 500 && n > 1000 {
		s = append(s, fmt.Sprintf("%d.5k", n/1000), fmt.Sprintf("%d.5K", n/1000))
	}
	if n >= 1000 && n < 1000000 { // any number of decimals
		s = append(s, strings.TrimRight(fmt.Sprintf("%d.%03d", n/1000, n%1000), "0")+"0k", fmt.Sprintf("%d.%03dK", n/1000, n%1000))
	}
	if n >= 1000000 {
		s = append(s, fmt.Sprintf("%d.%06dM", n/1000000, n%1000000))
	}
	if n > 0 && n%1024 == 0 {
		s = append(s, fmt.Sprintf("%dKiB", n/1024), fmt.Sprintf("%dkib", n/1024))
	}
	if n > 0 && n%1000000 == 0 {
		s = append(s, fmt.Sprintf("%dM", n/1000000), fmt.Sprintf("%dMB", n/1000000))
	}
	if n > 0 && n%(1024*1024) == 0 {
		s = append(s, fmt.Sprintf("%dMiB", n/1024/1024))
	}
	return kit.Pick(r, s...)
}

func (g *cfgGen) ref(name string, whole bool) string {
	if whole && g.r.P(0.5) {
		return "$" + name
	}
	return "${" + name + "}"
}

// param defines a param with this text and returns its name.
func (g *cfgGen) param(text string) string {
	r := g.r
	g.vars++
	decoy := func() string {
		return kit.Pick(r, "wrong", "999999", "77k", "no/such", "7", "true", "")
	}
	for {
		name := kit.Pick(r, cfgParamNames...)
		if r.P(0.3) {
			name += fmt.Sprint(r.IntN(5))
		}
		if g.used[name] {
			continue
		}
		_, inBase := g.base[g.dir][name]
		_, inStage := g.stage[name]
		_, inCli := g.cliOf[name]
		if inCli || inStage {
			continue
		}
		switch r.IntN(4) {
		case 0: // command line
			if g.taken[name] || inBase || strings.Contains(text, "$") {
				continue
			}
			if r.P(0.2) {
				g.cli = append(g.cli, [2]string{name, decoy()})
			}
			g.cli = append(g.cli, [2]string{name, text})
			g.cliOf[name] = text
			if !g.noStage && r.P(0.5) {
				g.stage[name] = decoy()
			}
			if r.P(0.5) {
				g.base[g.dir][name] = decoy()
			}
		case 1: // stage
			if g.noStage {
				continue
			}
			g.stage[name] = text
			if !inBase && r.P(0.5) {
				g.base[g.dir][name] = decoy()
			}
		case 2: // base
			if inBase || strings.Contains(text, "params.") && !g.noStage {
				continue
			}
			g.base[g.dir][name] = text
		case 3: // base, by way of a param that the stage overrides
			via := name + "via"
			if _, ok := g.base[g.dir][via]; ok || inBase || g.noStage {
				continue
			}
			if _, ok := g.cliOf[via]; ok {
				continue
			}
			g.base[g.dir][name], g.base[g.dir][via] = "${params."+via+"}", decoy()
			g.stage[via] = text
			g.used[via], g.taken[via] = true, true
		}
		g.used[name] = true
		g.taken[name] = true
		return name
	}
}

func (g *cfgGen) envVar(val string) string {
	g.vars++
	for i := 0; ; i++ {
		name := kit.Pick(g.r, "FOO", "MYVAR", "foo", "_X", "params", "V1", "HOST_NAME") + kit.Pick(g.r, "", "", fmt.Sprint(g.r.IntN(9)))
		if i > 20 {
			name += fmt.Sprint(len(g.env))
		}
		if v, ok := g.env[name]; ok && v != val || name == "" {
			continue
		}
		g.env[name] = val
		return name
	}
}

// str writes a string that is safe in params (no human numbers, no $).
func (g *cfgGen) str(v string, depth int) string {
	r := g.r
	if depth > 3 || r.P(0.35) {
		return v
	}
	switch r.IntN(6) {
	case 0:
		return g.ref(g.envVar(v), true)
	case 1, 2:
		return g.ref("params."+g.param(g.str(v, depth+1)), true)
	default:
		// in pieces
		if len(v) < 2 {
			return v
		}
		i := 1 + r.IntN(len(v)-1)
		piece := func(s string) string {
			switch r.IntN(3) {
			case 0:
				return s
			case 1:
				return "${" + g.envVar(s) + "}"
			}
			return "${params." + g.param(g.str(s, depth+2)) + "}"
		}
		return piece(v[:i]) + piece(v[i:])
	}
}

// dur writes a duration; never in pieces, because a piece could be a human number.
func (g *cfgGen) dur(v string) string {
	switch g.r.IntN(4) {
	case 0:
		return g.ref(g.envVar(v), true)
	case 1, 2:
		return g.ref("params."+g.param(v), true)
	}
	return v
}

// num writes a number.
func (g *cfgGen) num(n, depth int) string {
	r := g.r
	if n == runtime.NumCPU() && r.P(0.6) {
		g.vars++
		return g.ref("sys.CPU_CORES", true)
	}
	if depth > 3 || r.P(0.4) {
		return g.human(n)
	}
	switch r.IntN(4) {
	case 0:
		return g.ref(g.envVar(g.human(n)), true)
	case 1:
		if n > 0 && n%1000 == 0 && n/1000 < 1000 {
			return "${params." + g.param(g.num(n/1000, depth+1)) + "}" + kit.Pick(r, "k", "K", "KB")
		}
		fallthrough
	default:
		return g.ref("params."+g.param(g.num(n, depth+1)), true)
	}
}

type cfgCG struct {
	db           string // USE; "" = none
	clients      int
	iter, iterC  int
	iterE        int
	tag          string
	copies       int
	start, step  int
	fill         int
	scopeGiven   bool
	trxName      string
	expectCounts int
}

type cfgStage struct {
	file    string
	cgs     []*cfgCG
	user    string
	pass    string
	db      string
	csv     string
	header  string
	periods int
	noCSV   string
}

func configCase(t *kit.T) {
	r := t.R
	g := &cfgGen{r: r, base: map[string]map[string]string{}, cliOf: map[string]string{}, env: map[string]string{}, taken: map[string]bool{}}
	sc := &kit.Scenario{Files: map[string]string{}, Timeout: 60 * time.Second, Handler: func(s *fm.Server, ev *fm.Event) fm.Reply { return okReply(ev) }}
	dirs := []string{".", "a", "a/b", "c-1"}
	kit.Shuffle(r, dirs)
	dirs = dirs[:r.Int(1, 3)]
	type dirCfg struct {
		host, user, pass, db string // text in _all.yaml
		stats                string
		csv, header          string
		vHost                bool
		vUser, vPass, vDb    string
		disabled             bool
		periods              int
	}
	dc := map[string]*dirCfg{}
	sane := func(n int) string { // a string value that is safe everywhere
		const al = "abcdefghijklmnopqrstuvwxyz_"
		b := []byte{}
		for i := 0; i < n; i++ {
			b = append(b, al[r.IntN(len(al))])
		}
		return string(b)
	}
	g.taken["csv-name"] = true
	for _, d := range dirs {
		g.base[d] = map[string]string{}
		c := &dirCfg{}
		dc[d] = c
		g.dir, g.stage, g.used = d, map[string]string{}, map[string]bool{}
		if r.P(0.5) {
			c.vHost, c.host = true, "{{ADDR}}"
		}
		if r.P(0.5) {
			c.vUser = sane(5)
			c.user = c.vUser
		}
		if r.P(0.5) {
			c.vPass = sane(6)
			c.pass = c.vPass
		}
		if r.P(0.4) {
			c.vDb = sane(4)
			c.db = c.vDb
		}
	}
	dsnUser, dsnPass, dsnDb := "", "", ""
	if r.P(0.12) {
		dsnUser, dsnPass = sane(4), sane(5)
		if r.P(0.5) {
			dsnDb = sane(4)
		}
		dsn := fmt.Sprintf("%s:%s@tcp({{ADDR}})/%s", dsnUser, dsnPass, dsnDb)
		switch r.IntN(3) {
		case 0:
			sc.Env = append(sc.Env, "FINCH_DSN="+dsn)
		case 1:
			sc.Args = append(sc.Args, "--dsn", dsn)
		case 2:
			sc.Args = append(sc.Args, "--dsn="+dsn)
			sc.Env = append(sc.Env, "FINCH_DSN=wrong:wrong@tcp(127.0.0.1:1)/wrong")
		}
	}
	cliDb := ""
	if dsnUser == "" && r.P(0.15) {
		cliDb = sane(5)
		switch r.IntN(4) {
		case 0:
			sc.Env = append(sc.Env, "FINCH_DB="+cliDb)
		case 1:
			sc.Args = append(sc.Args, "-D", cliDb)
		case 2:
			sc.Args = append(sc.Args, "--database", cliDb)
			sc.Env = append(sc.Env, "FINCH_DB=wrongdb")
		case 3:
			sc.Args = append(sc.Args, "--database="+cliDb)
		}
	}
	// reports of the directories
	report := func(tag string, expr func(string) string) (yaml, csv, header string) {
		csv = "out-" + tag + ".csv"
		ps := [][2]string{{"P99", "P99"}, {"P50,P999", "P50,P999"}, {"P95", "P95"}}
		p := kit.Pick(r, ps...)
		yaml = fmt.Sprintf("report:\n  csv:\n    file: %q\n    percentiles: %q\n", expr(csv), expr(p[0]))
		header = p[1]
		return
	}
	for i, d := range dirs {
		c := dc[d]
		if r.P(0.4) {
			c.stats, c.csv, c.header = report(fmt.Sprintf("all%d", i), func(s string) string {
				if strings.HasSuffix(s, ".csv") {
					return "out-${params.csv-name}.csv"
				}
				return s
			})
			if r.P(0.3) {
				c.periods = 1
				c.stats += "freq: 100ms\n"
			}
		}
		if r.P(0.15) {
			c.disabled = true
			c.stats += "disable: true\n"
		}
	}
	indent := func(s, by string) string {
		return by + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n"+by) + "\n"
	}
	nStages := r.Int(1, 4)
	var stages []*cfgStage
	stageText := map[string]string{}
	var order []string
	for k := 0; k < nStages; k++ {
		if k > 0 && r.P(0.08) && stages[k-1].csv == "" {
			stages = append(stages, stages[len(stages)-1]) // same file again
			order = append(order, order[len(order)-1])
			continue
		}
		d := kit.Pick(r, dirs...)
		c := dc[d]
		g.dir, g.stage, g.used, g.noStage = d, map[string]string{}, map[string]bool{}, r.P(0.3)
		s := &cfgStage{file: path.Join(d, fmt.Sprintf("s%d.yaml", k))}
		var b strings.Builder
		put := func(format string, a ...interface{}) { fmt.Fprintf(&b, format, a...) }
		put("stage:\n")
		if r.P(0.4) {
			put("  name: %q\n", g.str(sane(4), 0))
		}
		// mysql
		s.user, s.pass, s.db = "finch", "amazing", ""
		var my []string
		if !c.vHost || r.P(0.4) {
			host := "{{ADDR}}"
			switch r.IntN(4) {
			case 0:
				host = g.ref(g.envVar("{{ADDR}}"), true)
			case 1:
				host = g.ref("params."+g.param("{{ADDR}}"), true)
			case 2:
				host = "${" + g.envVar("127.0.0.1") + "}:{{PORT}}"
			}
			my = append(my, "hostname", host)
		}
		user, pass := c.vUser, c.vPass
		if r.P(0.4) {
			if r.P(0.3) {
				user = kit.Pick(r, "1k", "u$x", "2,000", "a${b}", "5MB") // as is from the environment
				my = append(my, "username", g.ref(g.envVar(user), true))
			} else {
				user = sane(6)
				my = append(my, "username", g.str(user, 0))
			}
		}
		if r.P(0.4) {
			if r.P(0.4) {
				pass = kit.Pick(r, "pa$$word", "10k", "$HOME", "1,000", "${params.p}", "a'b\"c", "per%cent", "sp ace", "a@b", "a/b", "a:b", "q?x=1&y")
				my = append(my, "password", g.ref(g.envVar(pass), true))
			} else {
				pass = sane(7)
				my = append(my, "password", g.str(pass, 0))
			}
		}
		s.db = c.vDb
		if r.P(0.3) {
			s.db = sane(5)
			my = append(my, "db", g.str(s.db, 0))
		}
		if user != "" {
			s.user, s.pass = user, pass
		} else if pass != "" {
			s.pass = pass
		}
		if cliDb != "" {
			s.db = cliDb
		}
		if dsnUser != "" {
			s.user, s.pass, s.db = dsnUser, dsnPass, dsnDb
		}
		if len(my) > 0 {
			put("  mysql:\n")
			for i := 0; i < len(my); i += 2 {
				put("    %s: %s\n", my[i], strconv.Quote(my[i+1]))
			}
		}
		// stats
		freq := false
		s.csv, s.header, s.periods = c.csv, c.header, c.periods
		if s.csv != "" {
			// one file for each stage: Finch does not overwrite files
			name := sane(3) + fmt.Sprint(k)
			s.csv = "out-" + name + ".csv"
			g.stage["csv-name"] = name
		}
		disabled := c.disabled
		switch r.IntN(4) {
		case 0: // own report
			y, csv, h := report(fmt.Sprintf("s%d", k), func(v string) string { return g.str(v, 1) })
			s.csv, s.header = csv, h
			if r.P(0.4) {
				s.periods = 1
				y += fmt.Sprintf("freq: %q\n", g.dur("100ms"))
				freq = true
			}
			if r.P(0.5) {
				disabled = r.P(0.3)
				y += fmt.Sprintf("disable: %v\n", disabled)
			}
			put("  stats:\n%s", indent(y, "    "))
		case 1:
			if disabled || r.P(0.3) {
				disabled = !disabled
				put("  stats:\n    disable: %v\n", disabled)
			}
		}
		_ = freq
		if disabled {
			s.csv = ""
		} else if s.csv != "" {
			s.csv = path.Join(d, s.csv)
		}
		if r.P(0.2) {
			put("  compute:\n    instances: %q\n", g.num(1, 0))
		}
		if r.P(0.3) {
			put("  qps: %q\n", g.num(kit.Pick(r, 1000000, 2000000), 0))
		}
		if r.P(0.2) {
			put("  tps: %q\n", g.num(kit.Pick(r, 1000000, 3000000), 0))
		}
		// trx and workload
		n := r.Int(1, 3)
		var tb, wb strings.Builder
		for i := 0; i < n; i++ {
			cg := &cfgCG{tag: fmt.Sprintf("s%dg%d", k, i), clients: r.Int(1, 3), copies: 1}
			base := fmt.Sprintf("t%d_%d.sql", k, i)
			sub := kit.Pick(r, "", "", "trx/", "../")
			if d == "." && sub == "../" {
				sub = "x/y/"
			}
			file := path.Join(d, sub, base)
			if sub == "../" {
				file = path.Join(d, "..", base)
			}
			text := ""
			ref := g.str(sub+base, 0)
			if r.P(0.15) {
				ref = "{{DIR}}/" + file
			}
			fmt.Fprintf(&tb, "    - file: %q\n", ref)
			cg.trxName = base
			if r.P(0.4) {
				cg.trxName = sane(5) + fmt.Sprint(i)
				fmt.Fprintf(&tb, "      name: %q\n", g.str(cg.trxName, 0))
			}
			cg.start, cg.step = kit.Pick(r, 0, 7, 1000, 1500, 2048, 64000, 1000000, 1048576), kit.Pick(r, 1, 2, 1000)
			cg.fill = kit.Pick(r, 1, 8, 100, 1000, 1024)
			gen, fillGen := "auto-inc", "str-fill-az"
			fmt.Fprintf(&tb, "      data:\n        ai%d:\n          generator: %q\n          scope: %q\n          params:\n            start: %q\n            step: %q\n",
				i, g.str(gen, 1), g.str("statement", 1), g.num(cg.start, 0), g.num(cg.step, 0))
			fmt.Fprintf(&tb, "        fi%d:\n          generator: %q\n          params:\n            len: %q\n", i, g.str(fillGen, 1), g.num(cg.fill, 0))
			if r.P(0.4) {
				cg.copies = r.Int(1, 4)
				text += "-- copies: " + g.num(cg.copies, 0) + "\n"
			}
			text += fmt.Sprintf("SELECT @ai%d, @fi%d /*%s*/\n", i, i, cg.tag)
			sc.Files[file] = text
			// client group
			fmt.Fprintf(&wb, "    - trx: [%q]\n", g.str(cg.trxName, 0))
			if cg.clients > 1 || r.P(0.5) {
				fmt.Fprintf(&wb, "      clients: %q\n", g.num(cg.clients, 0))
			}
			if r.P(0.5) {
				cg.db = sane(4)
				fmt.Fprintf(&wb, "      db: %q\n", g.str(cg.db, 0))
			}
			if cliDb != "" {
				cg.db = cliDb
			}
			if r.P(0.6) || i == 0 {
				fmt.Fprintf(&wb, "      group: %q\n", g.str(fmt.Sprintf("g%s%d", sane(2), i), 0))
			}
			it := kit.Pick(r, r.Int(1, 6), r.Int(1, 6), runtime.NumCPU())
			switch r.IntN(3) {
			case 0:
				cg.expectCounts = it * cg.clients
				fmt.Fprintf(&wb, "      iter: %q\n", g.num(it, 0))
			case 1:
				cg.expectCounts = it
				fmt.Fprintf(&wb, "      iter-clients: %q\n", g.num(it, 0))
			case 2:
				cg.expectCounts = it
				fmt.Fprintf(&wb, "      iter-clients: %q\n      iter-exec-group: %q\n", g.num(it, 0), g.num(1000000, 0))
			}
			if r.P(0.3) {
				fmt.Fprintf(&wb, "      %s: %q\n", kit.Pick(r, "qps", "qps-clients", "qps-exec-group", "tps", "tps-clients", "tps-exec-group"), g.num(2000000, 0))
			}
			if r.P(0.3) {
				fmt.Fprintf(&wb, "      runtime: %q\n", g.dur(kit.Pick(r, "60s", "3600s", "1h")))
			}
			s.cgs = append(s.cgs, cg)
		}
		if s.csv != "" && s.periods > 0 {
			// a client that lasts several intervals
			base := fmt.Sprintf("t%d_idle.sql", k)
			sc.Files[path.Join(d, base)] = "-- idle: " + g.dur("350ms") + "\nSELECT 'idle'\n"
			fmt.Fprintf(&tb, "    - file: %s\n", base)
			fmt.Fprintf(&wb, "    - trx: [%s]\n      iter: 1\n      group: idle\n", base)
		}
		if r.P(0.2) {
			put("  runtime: %q\n", g.dur("600s"))
		}
		if len(g.stage) > 0 {
			put("  params:\n")
			keys := []string{}
			for p := range g.stage {
				keys = append(keys, p)
			}
			sort.Strings(keys)
			for _, p := range keys {
				put("    %q: %s\n", p, strconv.Quote(g.stage[p]))
			}
		}
		put("  trx:\n%s  workload:\n%s", tb.String(), wb.String())
		stageText[s.file] = b.String()
		stages = append(stages, s)
		f := s.file
		if r.P(0.1) {
			f = "{{DIR}}/" + f
		} else if r.P(0.1) {
			f = "./" + f
		}
		order = append(order, f)
	}
	for _, s := range stages {
		sc.Files[s.file] = stageText[s.file]
	}
	for _, d := range dirs {
		c := dc[d]
		var b strings.Builder
		if c.host+c.user+c.pass+c.db != "" {
			b.WriteString("mysql:\n")
			for _, kv := range [][2]string{{"hostname", c.host}, {"username", c.user}, {"password", c.pass}, {"db", c.db}} {
				if kv[1] != "" {
					fmt.Fprintf(&b, "  %s: %q\n", kv[0], kv[1])
				}
			}
		}
		if len(g.base[d]) > 0 {
			b.WriteString("params:\n")
			keys := []string{}
			for p := range g.base[d] {
				keys = append(keys, p)
			}
			sort.Strings(keys)
			for _, p := range keys {
				fmt.Fprintf(&b, "  %q: %s\n", p, strconv.Quote(g.base[d][p]))
			}
		}
		if c.stats != "" {
			b.WriteString("stats:\n" + indent(c.stats, "  "))
		}
		if b.Len() > 0 {
			sc.Files[path.Join(d, "_all.yaml")] = b.String()
		}
	}
	for k, v := range g.env {
		sc.Env = append(sc.Env, k+"="+v)
	}
	sort.Strings(sc.Env)
	for _, kv := range g.cli {
		switch r.IntN(3) {
		case 0:
			sc.Args = append(sc.Args, "--param", kv[0]+"="+kv[1])
		case 1:
			sc.Args = append(sc.Args, "-p", kv[0]+"="+kv[1])
		case 2:
			sc.Args = append(sc.Args, "--param="+kv[0]+"="+kv[1])
		}
	}
	sc.Args = append(sc.Args, order...)

	res := t.RunOK(sc, "config")
	if res == nil {
		return
	}
	det := kit.Detail(sc, res)
	if res.Exit != 0 {
		t.Fail("config:exit", fmt.Sprintf("finch failed (exit %d): %s", res.Exit, kit.Tail(res.Out, 500)), det)
		return
	}
	// events of each stage: it starts with the connection test
	tests := map[int]bool{}
	for _, e := range res.Events {
		if e.Kind == "ping" {
			tests[e.Conn] = true
		}
	}
	var segs [][]fm.Event
	seg := map[int]int{}
	for _, e := range res.Events {
		if e.Kind == "connect" {
			if tests[e.Conn] {
				segs = append(segs, nil)
			}
			seg[e.Conn] = len(segs) - 1
		}
		if i := seg[e.Conn]; i >= 0 {
			segs[i] = append(segs[i], e)
		}
	}
	if len(segs) != len(stages) {
		t.Fail("config:stages", fmt.Sprintf("%d stages ran, expected %d", len(segs), len(stages)), det)
		return
	}
	for i, s := range stages {
		byTag := map[string]map[int][]fm.Event{}
		use := map[int]string{}
		for _, e := range segs[i] {
			switch e.Kind {
			case "connect":
				if e.User != s.user || e.DB != s.db || string(e.Auth) != string(fm.Scramble(e.Salt, s.pass)) {
					t.Fail("config:connect", fmt.Sprintf("stage %s connects as user %q to database %q, password ok: %v; expected user %q, password %q, database %q", s.file, e.User, e.DB, string(e.Auth) == string(fm.Scramble(e.Salt, s.pass)), s.user, s.pass, s.db), det)
					return
				}
			case "query":
				if strings.HasPrefix(e.SQL, "USE `") {
					use[e.Conn] = strings.Trim(e.SQL[4:], "`")
					continue
				}
				if e.SQL == "SELECT 'idle'" {
					continue
				}
				j, k := strings.LastIndex(e.SQL, "/*"), strings.LastIndex(e.SQL, "*/")
				if j < 0 || k < j {
					t.Fail("config:sql", fmt.Sprintf("stage %s: unexpected statement %q", s.file, e.SQL), det)
					return
				}
				tag := e.SQL[j+2 : k]
				if byTag[tag] == nil {
					byTag[tag] = map[int][]fm.Event{}
				}
				byTag[tag][e.Conn] = append(byTag[tag][e.Conn], e)
			}
		}
		conns, used := map[int]bool{}, map[int]bool{}
		for _, e := range segs[i] {
			if e.Kind == "connect" {
				conns[e.Conn] = true
			} else if e.Kind != "disconnect" && e.Kind != "quit" { // else it timed out while connecting
				used[e.Conn] = true
			}
		}
		wantConns := 1
		for _, cg := range s.cgs {
			wantConns += cg.clients
		}
		if s.csv != "" && s.periods > 0 {
			wantConns++
		}
		if len(used) > wantConns || len(conns) < wantConns {
			t.Fail("config:clients", fmt.Sprintf("stage %s: %d connections, expected %d (one connection test and the clients)", s.file, len(used), wantConns), det)
			return
		}
		for _, cg := range s.cgs {
			total := 0
			for conn, evs := range byTag[cg.tag] {
				total += len(evs)
				if use[conn] != cg.db {
					t.Fail("config:db", fmt.Sprintf("stage %s: client of %s uses database %q, expected %q", s.file, cg.tag, use[conn], cg.db), det)
					return
				}
				for _, e := range evs {
					var ai int
					var fi string
					if _, err := fmt.Sscanf(e.SQL, "SELECT %d, '%s", &ai, &fi); err != nil {
						t.Fail("config:sql", fmt.Sprintf("stage %s: unexpected statement %q", s.file, e.SQL), det)
						return
					}
					fi = strings.TrimSuffix(fi, "'")
					if len(fi) != cg.fill {
						t.Fail("config:data", fmt.Sprintf("stage %s: %s: string of %d characters, len is %d", s.file, cg.tag, len(fi), cg.fill), det)
						return
					}
					if ai <= cg.start-1 || (ai-cg.start)%cg.step != 0 || ai > cg.start+cg.step*(cg.expectCounts*cg.copies+1) {
						t.Fail("config:data", fmt.Sprintf("stage %s: %s: auto-inc value %d, start %d, step %d", s.file, cg.tag, ai, cg.start, cg.step), det)
						return
					}
				}
			}
			if total != cg.expectCounts*cg.copies {
				t.Fail("config:iter", fmt.Sprintf("stage %s: %s: %d statements, expected %d iterations of %d copies", s.file, cg.tag, total, cg.expectCounts, cg.copies), det)
				return
			}
		}
	}
	// CSV files; several stages may write to one
	want := map[string]bool{}
	for _, s := range stages {
		if s.csv != "" {
			want[s.csv] = true
			text, ok := res.Dir[s.csv]
			lines := strings.Split(strings.TrimSpace(text), "\n")
			if ok && len(lines) >= 2 && len(lines) < 2+s.periods {
				t.FailTimed("config:report", fmt.Sprintf("stage %s: CSV report %s has %d lines, expected at least %d", s.file, s.csv, len(lines), 2+s.periods), det)
				return
			}
			if !ok || len(lines) < 2+s.periods {
				t.Fail("config:report", fmt.Sprintf("stage %s: CSV report %s has %d lines, exists: %v", s.file, s.csv, len(lines), ok), det)
				return
			}
			for _, p := range strings.Split(s.header, ",") {
				if !strings.Contains(lines[0], ","+p+",") {
					t.Fail("config:report", fmt.Sprintf("stage %s: CSV report %s has header %q, percentiles are %s", s.file, s.csv, lines[0], s.header), det)
					return
				}
			}
		}
	}
	for f := range res.Dir {
		if strings.HasSuffix(f, ".csv") && !want[f] {
			t.Fail("config:report", "unexpected report file "+f, det)
			return
		}
	}
	t.Count("values_from_variables", g.vars)
	t.Eval(strings.Join(sc.Args, " ")+fmt.Sprint(sc.Files), g.vars > 0)
	t.Sample(map[string]interface{}{"files": sc.Files, "args": sc.Args, "env": sc.Env})
}
