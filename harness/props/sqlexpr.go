package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// A small evaluator of the select expression of a size query: columns, integers,
// + - *, parentheses and the functions COALESCE, IFNULL, SUM, MAX, MIN, AVG, COUNT.
// A value is *int64; nil is NULL.

type sqlRow map[string]*int64

type sqlNode struct {
	op   string // "col", "num", "+", "-", "*", or a function
	name string
	num  int64
	args []*sqlNode
}

var reSelExpr = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\s+\S*information_schema`)
var reAlias = regexp.MustCompile("(?is)^(.*?)\\s+AS\\s+[`'\"]?\\w+[`'\"]?\\s*$")
var reSQLTok = regexp.MustCompile("(?s)\\s*(`\\w+`|[A-Za-z_][\\w.]*|\\d+|.)")

// evalSelect evaluates the select expression over rows; ok is false if it is not
// understood.
func evalSelect(q string, rows []sqlRow) (out []*int64, ok bool) {
	defer func() {
		if recover() != nil {
			out, ok = nil, false
		}
	}()
	m := reSelExpr.FindStringSubmatch(q)
	if m == nil {
		return nil, false
	}
	e := m[1]
	if a := reAlias.FindStringSubmatch(e); a != nil {
		e = a[1]
	}
	p := &sqlParser{}
	for _, t := range reSQLTok.FindAllStringSubmatch(strings.TrimSpace(e), -1) {
		p.tok = append(p.tok, t[1])
	}
	n := p.expr()
	if p.i != len(p.tok) {
		return nil, false
	}
	if n.agg() {
		return []*int64{n.eval(rows, nil)}, true
	}
	for _, r := range rows {
		out = append(out, n.eval(rows, r))
	}
	return out, true
}

type sqlParser struct {
	tok []string
	i   int
}

func (p *sqlParser) peek() string {
	if p.i < len(p.tok) {
		return p.tok[p.i]
	}
	return ""
}

func (p *sqlParser) expr() *sqlNode {
	n := p.mul()
	for p.peek() == "+" || p.peek() == "-" {
		op := p.peek()
		p.i++
		n = &sqlNode{op: op, args: []*sqlNode{n, p.mul()}}
	}
	return n
}

func (p *sqlParser) mul() *sqlNode {
	n := p.term()
	for p.peek() == "*" {
		p.i++
		n = &sqlNode{op: "*", args: []*sqlNode{n, p.term()}}
	}
	return n
}

func (p *sqlParser) term() *sqlNode {
	t := p.peek()
	p.i++
	if t == "(" {
		n := p.expr()
		p.want(")")
		return n
	}
	if v, err := strconv.ParseInt(t, 10, 64); err == nil {
		return &sqlNode{op: "num", num: v}
	}
	if !regexp.MustCompile("^[`A-Za-z_]").MatchString(t) {
		panic("token")
	}
	if p.peek() != "(" {
		c := strings.ToLower(strings.Trim(t, "`"))
		return &sqlNode{op: "col", name: c[strings.LastIndexByte(c, '.')+1:]}
	}
	p.i++
	n := &sqlNode{op: strings.ToUpper(t)}
	for {
		n.args = append(n.args, p.expr())
		if p.peek() != "," {
			break
		}
		p.i++
	}
	p.want(")")
	return n
}

func (p *sqlParser) want(s string) {
	if p.peek() != s {
		panic("want " + s)
	}
	p.i++
}

func (n *sqlNode) agg() bool {
	switch n.op {
	case "SUM", "MAX", "MIN", "AVG", "COUNT":
		return true
	}
	for _, a := range n.args {
		if a.agg() {
			return true
		}
	}
	return false
}

func (n *sqlNode) eval(rows []sqlRow, cur sqlRow) *int64 {
	bin := func(f func(a, b int64) int64) *int64 {
		a, b := n.args[0].eval(rows, cur), n.args[1].eval(rows, cur)
		if a == nil || b == nil {
			return nil
		}
		v := f(*a, *b)
		return &v
	}
	switch n.op {
	case "num":
		v := n.num
		return &v
	case "col":
		if cur == nil {
			panic("column without a row")
		}
		v, ok := cur[n.name]
		if !ok {
			panic("unknown column " + n.name)
		}
		return v
	case "+":
		return bin(func(a, b int64) int64 { return a + b })
	case "-":
		return bin(func(a, b int64) int64 { return a - b })
	case "*":
		return bin(func(a, b int64) int64 { return a * b })
	case "COALESCE", "IFNULL":
		for _, a := range n.args {
			if v := a.eval(rows, cur); v != nil {
				return v
			}
		}
		return nil
	case "SUM", "MAX", "MIN", "AVG", "COUNT":
		var v, cnt int64
		for _, r := range rows {
			x := n.args[0].eval(rows, r)
			if x == nil {
				continue
			}
			switch {
			case cnt == 0:
				v = *x
			case n.op == "MAX":
				v = max(v, *x)
			case n.op == "MIN":
				v = min(v, *x)
			default:
				v += *x
			}
			cnt++
		}
		if n.op == "COUNT" {
			return &cnt
		}
		if cnt == 0 {
			return nil
		}
		if n.op == "AVG" {
			v /= cnt
		}
		return &v
	}
	panic("unknown function " + n.op)
}

func sqlVal(v *int64) interface{} {
	if v == nil {
		return nil
	}
	return fmt.Sprint(*v)
}
