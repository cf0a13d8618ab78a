package props

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/square/finch"
	"github.com/square/finch/data"

	"finchverif/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID:          "C09",
		Rule:        "random valid and invalid parameters of every built-in generator; up to tens of thousands of values per case are drawn and compared with the documented contract: bounds, exact sequences, value sets, distributions (9-sigma bounds), lengths and alphabets, uniqueness, independence of copies, no aliasing of returned values; concurrent callers of one generator under the race detector see a permutation of the sequential values; non-trivial: at least 10 values drawn, or an invalid parameter rejected; distinct by generator and parameters",
		Assumptions: []string{"statistical bounds are at least 9 standard deviations, so a correct generator fails one with probability below 1e-15"},
		Floor:       300,
		Parts: []kit.Part{
			{Name: "contract", Quick: 20000, Thorough: 600000, Run: c09},
			{Name: "concurrent", Quick: 800, Thorough: 20000, Race: true, Run: c09conc},
		},
	})
}

// guard turns a panic of the code under test into a violation.
func guard(t *kit.T, key, what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			t.Failf(key, "%s: panic: %v", what, r)
			ok = false
		}
	}()
	f()
	return true
}

func pstr(params map[string]string) string {
	ks := []string{}
	for k := range params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + "=" + params[k] + " "
	}
	return s
}

func i64(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int64:
		return x, true
	case int:
		return int64(x), true
	case uint64:
		return int64(x), true
	case uint:
		return int64(x), true
	}
	return 0, false
}

// uniform checks that counts over n equally likely values are plausible.
func uniform(counts map[int64]int, n int64, draws int) string {
	exp := float64(draws) / float64(n)
	tol := 9*math.Sqrt(exp) + 1
	if int64(len(counts)) > n {
		return fmt.Sprintf("%d distinct values, at most %d possible", len(counts), n)
	}
	if exp < 100 {
		return ""
	}
	if int64(len(counts)) != n {
		return fmt.Sprintf("only %d of %d values seen in %d draws", len(counts), n, draws)
	}
	for v, c := range counts {
		if math.Abs(float64(c)-exp) > tol {
			return fmt.Sprintf("value %d drawn %d times, expected %.0f +- %.0f", v, c, exp, tol)
		}
	}
	return ""
}

func c09(t *kit.T) {
	r := t.R
	name := kit.Pick(r, "int", "int", "int", "int-gaps", "int-gaps", "int-range", "int-range-seq", "int-range-seq", "auto-inc", "str-fill-az", "xid", "client-id", "column", "invalid")
	params := map[string]string{}
	set := func(k string, v int64) { params[k] = fmt.Sprint(v) }
	if name == "invalid" {
		c09invalid(t)
		return
	}
	// make returns a copy, as finch does, and checks Format agrees with Values
	mk := func() data.Generator {
		g, err := data.Make(name, "@d", params)
		if err != nil {
			t.Failf("gen:"+name, "%s with valid params %srejected: %s", name, pstr(params), err)
			return nil
		}
		return g.Copy()
	}
	draws := 0
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var rc data.RunCount
	one := func(g data.Generator) interface{} {
		draws++
		v := g.Values(rc)
		if len(v) != 1 {
			fail("returned %d values, expected 1", len(v))
			return nil
		}
		return v[0]
	}
	oneInt := func(g data.Generator) int64 {
		x, ok := i64(one(g))
		if !ok && bad == "" {
			fail("value is not an integer")
		}
		return x
	}
	run := func() {
		switch name {
		case "int":
			min, max := int64(1), int64(100000)
			switch r.IntN(5) {
			case 0:
				min = int64(r.Int(0, 5))
				max = min + int64(r.Int(0, 20))
			case 1:
				min = int64(r.Int(100, 100000))
				max = min + int64(r.Int(0, 30))
			case 2:
				min = int64(r.Int(0, 10000))
				max = min + int64(r.Int(1000, 10000000))
			case 3:
				min = int64(r.Int(0, 10))
				max = math.MaxInt64 - int64(r.IntN(3))
			}
			if min != 1 {
				set("min", min)
			}
			if max != 100000 {
				set("max", max)
			}
			if r.P(0.35) {
				params["dist"] = kit.Pick(r, "normal", "normal", "NORMAL")
				width := float64(max-min) + 1
				mean := float64((max - min + 1) / 2)
				sd := float64(max-min) / 8
				if r.P(0.7) {
					if r.P(0.2) {
						mean = float64(r.Int(1, 1000)) // possibly out of range
					} else {
						mean = float64(min + r.Int64N(minI(max-min, 1<<40)+1))
						if mean == 0 {
							mean = 1
						}
					}
					if max < 1<<52 {
						set("mean", int64(mean))
					} else {
						mean = float64((max - min + 1) / 2)
					}
				}
				if r.P(0.5) && max < 1<<52 {
					sd = math.Round(width*(0.01+0.4*r.Float64())*100) / 100
					params["stddev"] = fmt.Sprint(sd)
				}
				g := mk()
				if g == nil {
					return
				}
				n := 3000
				sum, sum2 := 0.0, 0.0
				for i := 0; i < n; i++ {
					v := oneInt(g)
					if v < min || v > max {
						fail("normal value %d is not in [%d, %d]", v, min, max)
						return
					}
					sum += float64(v)
					sum2 += (float64(v) - mean) * (float64(v) - mean)
				}
				if sd > 1 && mean-6*sd >= float64(min) && mean+6*sd <= float64(max) {
					if d := math.Abs(sum/float64(n) - mean + 0.5); d > 9*sd/math.Sqrt(float64(n))+1 {
						fail("normal distribution: mean of %d values is %.1f, expected %.1f (stddev %.1f)", n, sum/float64(n), mean, sd)
					}
					if got := math.Sqrt(sum2 / float64(n)); math.Abs(got-sd) > 0.13*sd+1 {
						fail("normal distribution: standard deviation of %d values is %.2f, expected %.2f", n, got, sd)
					}
				}
				return
			}
			if r.P(0.5) {
				params["dist"] = "uniform"
			}
			g := mk()
			if g == nil {
				return
			}
			size := max - min + 1
			n := 4000
			if size > 0 && size < 60 {
				n = int(size) * 300
			}
			counts := map[int64]int{}
			quart := map[int64]int{}
			for i := 0; i < n; i++ {
				v := oneInt(g)
				if v < min || v > max {
					fail("value %d is not in [%d, %d]", v, min, max)
					return
				}
				if size > 0 && size < 60 {
					counts[v]++
				} else {
					quart[int64(float64(v-min)/(float64(max-min)+1)*4)]++
				}
			}
			if size > 0 && size < 60 {
				if b := uniform(counts, size, n); b != "" {
					fail("uniform distribution: %s", b)
				}
			} else if size >= 1000 || size < 0 {
				if b := uniform(quart, 4, n); b != "" {
					fail("uniform distribution, quarters of the range: %s", b)
				}
			}
		case "int-gaps":
			min, max, p := int64(1), int64(100000), int64(20)
			if r.P(0.9) {
				min = int64(r.Int(0, 1000))
				max = min + int64(r.Int(0, 400))
				set("min", min)
				set("max", max)
			}
			if r.P(0.8) {
				p = int64(r.Int(1, 100))
				set("p", p)
			}
			g := mk()
			if g == nil {
				return
			}
			size := max - min + 1
			want := float64(size) * float64(p) / 100
			n := int64(math.Max(1, math.Floor(want+1e-9)))
			dr := 5000
			if n*250 > int64(dr) && n < 500 {
				dr = int(n) * 250
			}
			counts := map[int64]int{}
			for i := 0; i < dr; i++ {
				v := oneInt(g)
				if v < min || v > max {
					fail("value %d is not in [%d, %d]", v, min, max)
					return
				}
				counts[v]++
			}
			if math.Abs(float64(len(counts))-want) > 1 && float64(dr) > want*100 || float64(len(counts)) > math.Max(want, 1)+1 {
				fail("%d distinct values in %d draws, expected %d%% of %d", len(counts), dr, p, size)
				return
			}
			if float64(dr) > want*100 {
				if b := uniform(counts, int64(len(counts)), dr); b != "" {
					fail("not uniform: %s", b)
				}
				vs := []int64{}
				for v := range counts {
					vs = append(vs, v)
				}
				sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
				lo, hi := int64(math.MaxInt64), int64(0)
				for i := 1; i < len(vs); i++ {
					lo = minI(lo, vs[i]-vs[i-1])
					hi = maxI(hi, vs[i]-vs[i-1])
				}
				if len(vs) > 1 && hi-lo > 1 {
					fail("gaps between the values vary from %d to %d", lo, hi)
				}
			}
		case "int-range":
			min, max, size := int64(1), int64(100000), int64(100)
			if r.P(0.9) {
				min = int64(r.Int(-50, 1000))
				max = min + int64(r.Int(2, 300))
				size = 1 + r.Int64N(max-min)
				set("min", min)
				set("max", max)
				set("size", size)
			}
			g := mk()
			if g == nil {
				return
			}
			counts := map[int64]int{}
			n := 3000
			if w := max - min + 1; w < 40 {
				n = int(w) * 300
			}
			for i := 0; i < n; i++ {
				draws++
				v := g.Values(rc)
				if len(v) != 2 {
					fail("returned %d values, expected 2", len(v))
					return
				}
				a, _ := i64(v[0])
				b, _ := i64(v[1])
				if a < min || a > max {
					fail("n=%d is not in [%d, %d]", a, min, max)
					return
				}
				want := a + size - 1
				if want > max {
					want = max
				}
				if b != want {
					fail("pair {%d, %d}, expected {%d, %d} (size %d, max %d)", a, b, a, want, size, max)
					return
				}
				counts[a]++
			}
			// n is uniform; whether max itself is drawn is not specified
			delete(counts, max)
			w := max - min
			if w < 40 && n >= int(w)*100 {
				for v := min; v < max; v++ {
					e := float64(n) / float64(w)
					if math.Abs(float64(counts[v])-e) > 9*math.Sqrt(e)+e/float64(w)+1 {
						fail("n=%d drawn %d times, expected about %.0f", v, counts[v], e)
						return
					}
				}
			}
		case "int-range-seq":
			begin, end, size := int64(1), int64(100000), int64(100)
			if r.P(0.9) {
				begin = int64(r.Int(-20, 1000))
				end = begin + int64(r.Int(1, 300))
				size = 1 + r.Int64N(end-begin)
				set("begin", begin)
				set("end", end)
				set("size", size)
			}
			g := mk()
			if g == nil {
				return
			}
			n := begin
			for i := 0; i < 2500; i++ {
				draws++
				v := g.Values(rc)
				if len(v) != 2 {
					fail("returned %d values, expected 2", len(v))
					return
				}
				a, _ := i64(v[0])
				b, _ := i64(v[1])
				wb := n + size - 1
				if wb > end {
					wb = end
				}
				if a != n || b != wb {
					fail("call %d returned {%d, %d}, expected {%d, %d}", i+1, a, b, n, wb)
					return
				}
				n += size
				if n > end {
					n = begin
				}
			}
		case "auto-inc":
			start, step := uint64(0), uint64(1)
			if r.P(0.7) {
				start = kit.Pick(r, uint64(r.Int(0, 1000)), 1<<40, math.MaxInt64-5)
				params["start"] = fmt.Sprint(start)
			}
			if r.P(0.7) {
				step = kit.Pick(r, uint64(r.Int(1, 20)), 1<<33)
				params["step"] = fmt.Sprint(step)
			}
			g := mk()
			if g == nil {
				return
			}
			first := g.Values(rc)
			keep := first[0]
			draws++
			for i := uint64(2); i < 1000; i++ {
				v, _ := one(g).(uint64)
				if v != start+step*i {
					fail("call %d returned %d, expected %d", i, v, start+step*i)
					return
				}
			}
			if fmt.Sprint(first[0]) != fmt.Sprint(start+step) || first[0] != keep {
				fail("the first returned value changed to %v or is not %d", first[0], start+step)
			}
		case "str-fill-az":
			n := 100
			if r.P(0.8) {
				n = kit.Pick(r, 1, 2, 9, 10, 11, r.Int(1, 300))
				set("len", int64(n))
			}
			g := mk()
			if g == nil {
				return
			}
			g2 := mk()
			letters := map[int64]int{}
			seen := map[string]bool{}
			total := 0
			k := 40
			for total < 52*300 {
				for i := 0; i < k; i++ {
					gg := g
					if i%2 == 1 {
						gg = g2
					}
					s, ok := one(gg).(string)
					if !ok || len(s) != n {
						fail("value %q does not have length %d", s, n)
						return
					}
					if n >= 30 && seen[s] {
						fail("value %q returned twice", s)
						return
					}
					seen[s] = true
					for _, c := range s {
						if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
							fail("value %q has a character that is not a-z or A-Z", s)
							return
						}
						letters[int64(c)]++
						total++
					}
				}
			}
			if b := uniform(letters, 52, total); b != "" {
				fail("letters are not uniform: %s", b)
			}
		case "xid":
			g, g2 := mk(), mk()
			seen := map[string]bool{}
			for i := 0; i < 1500; i++ {
				gg := g
				if i%2 == 1 {
					gg = g2
				}
				s, ok := one(gg).(string)
				if !ok || len(s) != 20 || strings.Trim(s, "0123456789abcdefghijklmnopqrstuv") != "" {
					fail("value %q is not an xid", s)
					return
				}
				if seen[s] {
					fail("value %s returned twice", s)
					return
				}
				seen[s] = true
			}
			if _, f := g.Format(); f != "'%s'" {
				fail("not quoted in SQL: %s", f)
			}
		case "client-id":
			idx := map[string]int{"statement": 0, "trx": 1, "iter": 2, "conn": 3, "client": 4, "client-group": 5, "exec-group": 6}
			all := []string{"statement", "trx", "iter", "conn", "client", "client-group", "exec-group"}
			ids := []string{"client"}
			if r.P(0.9) {
				ids = nil
				for i := r.Int(1, 5); i > 0; i-- {
					ids = append(ids, kit.Pick(r, all...))
				}
				params["ids"] = strings.Join(ids, ",")
			}
			g := mk()
			if g == nil {
				return
			}
			if n, _ := g.Format(); int(n) != len(ids) {
				fail("declares %d values, expected %d", n, len(ids))
			}
			for i := 0; i < 20; i++ {
				var c data.RunCount
				for j := range c {
					c[j] = uint(r.Int(1, 1000))
				}
				draws++
				v := g.Values(c)
				if len(v) != len(ids) {
					fail("returned %d values, expected %d", len(v), len(ids))
					return
				}
				for j, id := range ids {
					if x, _ := i64(v[j]); x != int64(c[idx[id]]) {
						fail("value %d (%s) is %v, expected %d", j+1, id, v[j], c[idx[id]])
						return
					}
				}
			}
		case "column":
			quote := r.P(0.5)
			params["quote-value"] = map[bool]string{true: kit.Pick(r, "yes", "true", "on"), false: kit.Pick(r, "no", "false", "off")}[quote]
			g := mk()
			if g == nil {
				return
			}
			if _, f := g.Format(); f != map[bool]string{true: "'%v'", false: "%v"}[quote] && f != map[bool]string{true: `"%v"`, false: "%v"}[quote] {
				fail("format %s with quote-value %s", f, params["quote-value"])
			}
			g2 := g.Copy()
			for i := 0; i < 30; i++ {
				var in interface{}
				var want string
				switch r.IntN(4) {
				case 0:
					b := []byte(randText(r, r.Int(0, 40)))
					want = string(b)
					in = b
					g.Scan(in)
					for j := range b { // the driver reuses its buffer
						b[j] = '#'
					}
				case 1:
					in = r.Int64()
					want = fmt.Sprint(in)
					g.Scan(in)
				case 2:
					in = r.Float64()
					want = fmt.Sprint(in)
					g.Scan(in)
				case 3:
					in = randText(r, 5)
					want = in.(string)
					g.Scan(in)
				}
				g2.Scan("other")
				for k := 0; k < 2; k++ {
					if got := fmt.Sprint(one(g)); got != want {
						fail("column saved %q, returned %q", want, got)
						return
					}
				}
			}
		}
	}
	if !guard(t, "gen:"+name, name+" "+pstr(params), run) {
		return
	}
	if bad != "" {
		t.Failf("gen:"+name, "%s %s: %s", name, pstr(params), bad)
		return
	}
	t.Count("values_drawn", draws)
	t.Distinct("generators", name)
	t.Eval(name+" "+pstr(params), draws >= 10)
	t.Sample(map[string]interface{}{"generator": name, "params": pstr(params), "draws": draws})
}

func randText(r *kit.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcXYZ019 _-%'@"[r.IntN(15)]
	}
	return string(b)
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// c09invalid: parameters outside the documented valid values are rejected when
// the generator is made, never when (or after) the benchmark runs.
func c09invalid(t *kit.T) {
	r := t.R
	n := func(lo, hi int) string { return fmt.Sprint(r.Int(lo, hi)) }
	junk := kit.Pick(r, "x", "1x", "1.5", "0x10", "", "--1")
	cases := []struct {
		g string
		p map[string]string
	}{
		{"int", map[string]string{"min": n(50, 90), "max": n(1, 49)}},
		{"int", map[string]string{"min": junk}},
		{"int", map[string]string{"max": junk}},
		{"int", map[string]string{"dist": "normal", "stddev": kit.Pick(r, "x", "", "1,5")}},
		{"int", map[string]string{"dist": "normal", "mean": kit.Pick(r, "x", "")}},
		{"int-gaps", map[string]string{"p": n(-20, 0)}},
		{"int-gaps", map[string]string{"p": n(101, 500)}},
		{"int-gaps", map[string]string{"min": n(50, 90), "max": n(1, 49)}},
		{"int-gaps", map[string]string{"p": junk}},
		{"int-range", map[string]string{"size": n(-5, 0)}},
		{"int-range", map[string]string{"min": n(50, 90), "max": n(1, 49), "size": "1"}},
		{"int-range", map[string]string{"size": junk}},
		{"int-range-seq", map[string]string{"size": n(-5, 0)}},
		{"int-range-seq", map[string]string{"begin": n(50, 90), "end": n(1, 49), "size": "1"}},
		{"int-range-seq", map[string]string{"begin": junk}},
		{"auto-inc", map[string]string{"step": "0"}},
		{"auto-inc", map[string]string{"step": junk}},
		{"auto-inc", map[string]string{"start": kit.Pick(r, "-1", "x", "1.5")}},
		{"str-fill-az", map[string]string{"len": n(-5, 0)}},
		{"str-fill-az", map[string]string{"len": junk}},
		{"client-id", map[string]string{"ids": kit.Pick(r, "foo", "client,foo", "row", "clients")}},
		{kit.Pick(r, "nosuch", "Int", "int ", "autoinc", ""), nil},
	}
	c := cases[r.IntN(len(cases))]
	guard(t, "gen:invalid", c.g+" "+pstr(c.p), func() {
		g, err := data.Make(c.g, "@d", c.p)
		if err == nil {
			t.Failf("gen:invalid", "%s with invalid params %swas accepted (%v)", c.g, pstr(c.p), g.Name())
			return
		}
		t.Distinct("invalid_rejected", c.g+pstr(c.p))
		t.Eval("invalid "+c.g+" "+pstr(c.p), true)
	})
}

// c09conc: clients share one generator through a multi-client or one-time
// scope; every call must return its own value.
func c09conc(t *kit.T) {
	r := t.R
	name := kit.Pick(r, "auto-inc", "int-range-seq", "xid", "str-fill-az", "int", "int-range", "int-gaps")
	params := map[string]string{}
	begin, end, size := 1, r.Int(20, 3000), 0
	switch name {
	case "int-range-seq":
		size = r.Int(1, end-begin)
		params = map[string]string{"begin": "1", "end": fmt.Sprint(end), "size": fmt.Sprint(size)}
	case "str-fill-az":
		params["len"] = "40"
	}
	g0, err := data.Make(name, "@d", params)
	if err != nil {
		t.Failf("conc:"+name, "%s %s: %s", name, pstr(params), err)
		return
	}
	scope := kit.Pick(r, finch.SCOPE_CLIENT_GROUP, finch.SCOPE_EXEC_GROUP, finch.SCOPE_WORKLOAD, finch.SCOPE_STAGE, finch.SCOPE_GLOBAL)
	g := data.NewScopedGenerator(data.Id{Scope: scope, Type: name, DataKey: "@d"}, g0.Copy())
	workers, per := r.Int(2, 8), r.Int(20, 150)
	out := make([][][]interface{}, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var rc data.RunCount
			rc[data.CLIENT] = uint(w%3 + 1)
			rc[data.CLIENT_GROUP] = uint(w/3 + 1)
			rc[data.EXEC_GROUP] = 1
			for i := 0; i < per; i++ {
				rc[data.ITER]++
				out[w] = append(out[w], g.Call(rc))
			}
		}(w)
	}
	wg.Wait()
	n := workers * per
	counts := map[string]int{}
	for _, o := range out {
		for _, v := range o {
			counts[fmt.Sprint(v...)]++
		}
	}
	bad := ""
	switch name {
	case "auto-inc":
		for i := 1; i <= n; i++ {
			if c := counts[fmt.Sprint(i)]; c != 1 {
				bad = fmt.Sprintf("%d calls: value %d returned %d times", n, i, c)
				break
			}
		}
	case "int-range-seq":
		want := map[string]int{}
		x := begin
		for i := 0; i < n; i++ {
			y := x + size - 1
			if y > end {
				y = end
			}
			want[fmt.Sprint(int64(x), int64(y))]++
			if x += size; x > end {
				x = begin
			}
		}
		for k, c := range want {
			if counts[k] != c {
				bad = fmt.Sprintf("%d calls: range %s returned %d times, expected %d", n, k, counts[k], c)
				break
			}
		}
	case "xid", "str-fill-az":
		if len(counts) != n {
			bad = fmt.Sprintf("%d calls returned %d distinct values", n, len(counts))
		}
	}
	if bad != "" {
		t.Failf("conc:"+name, "%s %s shared in %s scope by %d goroutines: %s", name, pstr(params), scope, workers, bad)
		return
	}
	t.Count("concurrent_calls", n)
	t.Eval(fmt.Sprintf("%s %s %s %d %d", name, pstr(params), scope, workers, per), true)
}
