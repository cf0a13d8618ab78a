package kit

import (
	"fmt"
	"sort"
	"strings"
)

// Spec model of a finch stage, rendered to the YAML and SQL files a user writes.

type DataKey struct {
	Name      string // without @
	Generator string
	Scope     string
	Params    map[string]string
}

type Stmt struct {
	SQL  string   // as written in the trx file; may be several lines
	Mods []string // "-- " lines without the dashes
}

type TrxFile struct {
	Name  string // trx name; "" = file name
	File  string
	Stmts []Stmt
	Data  []DataKey
	Raw   string // overrides Stmts
}

func (t TrxFile) TrxName() string {
	if t.Name != "" {
		return t.Name
	}
	return t.File
}

func (t TrxFile) Text() string {
	if t.Raw != "" {
		return t.Raw
	}
	var b strings.Builder
	for i, s := range t.Stmts {
		if i > 0 {
			b.WriteString("\n")
		}
		for _, m := range s.Mods {
			b.WriteString("-- " + m + "\n")
		}
		b.WriteString(s.SQL + "\n")
	}
	return b.String()
}

type CG struct {
	Clients, Iter, IterClients, IterExecGroup string
	Group, Runtime, Db                        string
	QPS, QPSClients, QPSExecGroup             string
	TPS, TPSClients, TPSExecGroup             string
	DisableStats                              bool
	Trx                                       []string
}

type Stage struct {
	File     string // default stage.yaml
	Name     string
	Runtime  string
	QPS, TPS string
	Db       string
	Disable  bool
	Params   map[string]string
	Stats    map[string]interface{} // raw: disable, freq, report
	Compute  map[string]string
	MySQL    map[string]string // default: hostname {{ADDR}}
	Trx      []TrxFile
	Workload []CG
}

func q(s string) string {
	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n").Replace(s) + "\""
}

func yamlMap(b *strings.Builder, indent string, m map[string]string) {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "tls" { // a YAML map
			fmt.Fprintf(b, "%s%s: %s\n", indent, k, m[k])
			continue
		}
		fmt.Fprintf(b, "%s%s: %s\n", indent, k, q(m[k]))
	}
}

// YAML renders the stage file.
func (s *Stage) YAML() string {
	var b strings.Builder
	b.WriteString("stage:\n")
	w := func(k, v string) {
		if v != "" {
			fmt.Fprintf(&b, "  %s: %s\n", k, q(v))
		}
	}
	w("name", s.Name)
	w("runtime", s.Runtime)
	w("qps", s.QPS)
	w("tps", s.TPS)
	if s.Disable {
		b.WriteString("  disable: true\n")
	}
	if s.Params != nil {
		b.WriteString("  params:\n")
		yamlMap(&b, "    ", s.Params)
	}
	my := s.MySQL
	if my == nil {
		my = map[string]string{"hostname": "{{ADDR}}"}
		if s.Db != "" {
			my["db"] = s.Db
		}
	}
	if len(my) > 0 {
		b.WriteString("  mysql:\n")
		yamlMap(&b, "    ", my)
	}
	if s.Compute != nil {
		b.WriteString("  compute:\n")
		for k, v := range s.Compute {
			fmt.Fprintf(&b, "    %s: %s\n", k, v)
		}
	}
	if s.Stats != nil {
		b.WriteString("  stats:\n")
		for _, k := range []string{"disable", "freq"} {
			if v, ok := s.Stats[k]; ok {
				fmt.Fprintf(&b, "    %s: %v\n", k, v)
			}
		}
		if rep, ok := s.Stats["report"].(map[string]map[string]string); ok {
			b.WriteString("    report:\n")
			names := []string{}
			for n := range rep {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				fmt.Fprintf(&b, "      %s:\n", n)
				yamlMap(&b, "        ", rep[n])
			}
		}
	}
	b.WriteString("  trx:\n")
	for _, t := range s.Trx {
		fmt.Fprintf(&b, "    - file: %s\n", q(t.File))
		if t.Name != "" {
			fmt.Fprintf(&b, "      name: %s\n", q(t.Name))
		}
		if len(t.Data) > 0 {
			b.WriteString("      data:\n")
			for _, d := range t.Data {
				fmt.Fprintf(&b, "        %s:\n          generator: %s\n", d.Name, q(d.Generator))
				if d.Scope != "" {
					fmt.Fprintf(&b, "          scope: %s\n", d.Scope)
				}
				if len(d.Params) > 0 {
					b.WriteString("          params:\n")
					yamlMap(&b, "            ", d.Params)
				}
			}
		}
	}
	if len(s.Workload) > 0 {
		b.WriteString("  workload:\n")
		for _, c := range s.Workload {
			first := true
			put := func(k, v string) {
				p := "      "
				if first {
					p = "    - "
					first = false
				}
				fmt.Fprintf(&b, "%s%s: %s\n", p, k, v)
			}
			str := func(k, v string) {
				if v != "" {
					put(k, q(v))
				}
			}
			str("clients", c.Clients)
			str("iter", c.Iter)
			str("iter-clients", c.IterClients)
			str("iter-exec-group", c.IterExecGroup)
			str("group", c.Group)
			str("runtime", c.Runtime)
			str("db", c.Db)
			str("qps", c.QPS)
			str("qps-clients", c.QPSClients)
			str("qps-exec-group", c.QPSExecGroup)
			str("tps", c.TPS)
			str("tps-clients", c.TPSClients)
			str("tps-exec-group", c.TPSExecGroup)
			if c.DisableStats {
				put("disable-stats", "true")
			}
			if len(c.Trx) > 0 {
				qs := []string{}
				for _, t := range c.Trx {
					qs = append(qs, q(t))
				}
				put("trx", "["+strings.Join(qs, ", ")+"]")
			}
			if first {
				put("disable-stats", "false")
			}
		}
	}
	return b.String()
}

func (s *Stage) FileName() string {
	if s.File != "" {
		return s.File
	}
	return "stage.yaml"
}

// Add puts the stage's files into a scenario and its name on the command line.
func (sc *Scenario) Add(s *Stage) *Scenario {
	if sc.Files == nil {
		sc.Files = map[string]string{}
	}
	sc.Files[s.FileName()] = s.YAML()
	for _, t := range s.Trx {
		sc.Files[t.File] = t.Text()
	}
	sc.Args = append(sc.Args, s.FileName())
	return sc
}
