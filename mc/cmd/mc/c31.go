package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// what the field of a record may hold: nothing, no value, a value of some type
type absent struct{}
type novalue struct{}

var c31vals = []interface{}{absent{}, "b", int64(10), "9", novalue{}, "", int64(-3), "a", "B", 2.5, "é", true, int64(9), "10", "-20", "a b", []byte("ab"), int64(1 << 40), "4294967297", uint8(7), "1.5", false, "~", " ", "9223372036854775807", int64(-9223372036854775808), "0x10", "ba", int64(1<<53 + 1), "9007199254740992", "007"}

// fields: how they are written, and how a record that has them is built
var c31fields = []struct {
	text string
	add  func(r *ogdl.Graph, v interface{})
}{
	{"k", func(r *ogdl.Graph, v interface{}) { put(r, "k", v) }},
	{"p.k", func(r *ogdl.Graph, v interface{}) { put(r.Add("p"), "k", v) }},
	{"'k k'", func(r *ogdl.Graph, v interface{}) { put(r, "k k", v) }},
	{"k", func(r *ogdl.Graph, v interface{}) { // others before and after
		r.Add("o").Add("k").Add("zzz")
		put(r, "k", v)
		if _, ok := v.(absent); !ok {
			r.Add("k").Add("aaa")
		}
		r.Add("kk").Add("k")
	}},
	{"p[1].k", func(r *ogdl.Graph, v interface{}) {
		p := r.Add("p")
		p.Add("q").Add("k").Add("zzz")
		put(p.Add("q"), "k", v)
	}},
}

func put(r *ogdl.Graph, k string, v interface{}) {
	switch v.(type) {
	case absent:
		r.Add("other").Add("m")
	case novalue:
		r.Add(k)
	default:
		r.Add(k).Add(v)
	}
}

func c31str(v interface{}) string {
	switch v.(type) {
	case absent, novalue:
		return ""
	}
	return Str(v)
}

func c31int(v interface{}) int64 {
	switch v.(type) {
	case absent, novalue:
		return 0
	}
	i, ok := refInt(v)
	if !ok {
		return 0
	}
	return i
}

func c31one(c *C, ix []int, field int, variant int, desc string, vals ...interface{}) {
	c.Step(1)
	g := ogdl.New("list")
	var before []*ogdl.Graph
	var full []string
	val := map[*ogdl.Graph]interface{}{}
	pick := func(i int) interface{} { return c31vals[i%len(c31vals)] }
	if len(vals) > 0 {
		pick = func(i int) interface{} { return vals[i%len(vals)] }
	}
	for j, i := range ix {
		v := pick(i)
		r := g.Add("r" + strconv.Itoa(j%3)) // records with equal names too
		c31fields[field].add(r, v)
		r.Add("id").Add(j)
		before = append(before, r)
		full = append(full, GTyped(r))
		val[r] = v
	}
	where := func() string {
		var b []string
		for _, i := range ix {
			if len(b) > 40 {
				break
			}
			b = append(b, clipDoc(Content(pick(i))))
		}
		return fmt.Sprintf("%s: %s(%s) of %d records [%s]", desc, []string{"Sort", "SortAsString", "SortAsInt"}[variant], c31fields[field].text, len(ix), strings.Join(b, " "))
	}
	switch variant {
	case 0:
		g.Sort(c31fields[field].text)
	case 1:
		g.SortAsString(c31fields[field].text)
	case 2:
		g.SortAsInt(c31fields[field].text)
	}
	if g.ThisString() != "list" || g.Len() != len(ix) || len(g.Out) != len(ix) {
		c.Failf("%s: %d records after", where(), g.Len())
	}
	seen := map[*ogdl.Graph]bool{}
	for i, r := range g.Out {
		if seen[r] {
			c.Failf("%s: record %d appears twice", where(), i)
		}
		seen[r] = true
		v, ok := val[r]
		if !ok {
			c.Failf("%s: record %d is not one of the records", where(), i)
		}
		if i > 0 {
			w := val[g.Out[i-1]]
			if variant < 2 && c31str(w) > c31str(v) {
				c.Failf("%s: %q before %q", where(), c31str(w), c31str(v))
			}
			if variant == 2 && c31int(w) > c31int(v) {
				c.Failf("%s: %d before %d", where(), c31int(w), c31int(v))
			}
		}
	}
	for i, r := range before {
		if s := GTyped(r); s != full[i] {
			c.Differ(where()+": record changed", s, full[i])
		}
	}
}

func c31seq(n, pat int) []int {
	ix := make([]int, n)
	for i := range ix {
		switch pat {
		case 0:
			ix[i] = i
		case 1:
			ix[i] = n - i
		case 2:
			ix[i] = i * i
		case 3:
			ix[i] = []int{1, 7, 15}[i%3]
		case 4:
			ix[i] = 1
		case 5:
			ix[i] = i / 3
		case 6:
			ix[i] = 1 - i*2/n + i&1*3
			if ix[i] < 0 {
				ix[i] += len(c31vals)
			}
		}
	}
	return ix
}

var c31 = &Prop{
	ID:     "C31",
	Rule:   "every sequence of records up to a length over the values their field can hold (absent, without value, integers, floats, strings, bytes, booleans, limits), sorted by each of 5 kinds of field (name, path, quoted, shadowed, indexed) with each of the three variants; the result must be a permutation of the same, unchanged nodes, non-decreasing under the reference conversion of the field values. Sweeps: 7 patterns at lengths up to thousands. Lists of up to 100001 records.",
	Bounds: "quick: length 3 over 31 values, 4 over 10; thorough: 4 over 31, 6 over 10",
	Gen: func(thorough bool, emit func(string)) {
		emit("e")
		n := []int{3, 4}
		if thorough {
			n = []int{4, 6}
		}
		for l := 0; l <= n[0]; l++ {
			if l < 2 {
				emit(fmt.Sprintf("s %d - %d", len(c31vals), l))
				continue
			}
			for i := range c31vals {
				emit(fmt.Sprintf("s %d %d %d", len(c31vals), i, l-1))
			}
		}
		for _, k := range sweep(thorough) {
			if k <= 5000 {
				emit(fmt.Sprintf("p %d", k))
			}
			for p := 0; p < 7; p++ {
				if k > 0 && (thorough || k <= 9000) {
					emit(fmt.Sprintf("w %d %d", k, p))
				}
			}
		}
		for _, k := range vast {
			for p := 0; p < 7; p++ {
				if p == 2 && k < 65535 || p < 5 && k == 65537 {
					emit(fmt.Sprintf("w %d %d", k, p))
				}
			}
			if k > 65535 {
				emit(fmt.Sprintf("p %d", k))
			}
		}
		for l := n[0] + 1; l <= n[1]; l++ {
			for i := 0; i < 100; i++ {
				emit(fmt.Sprintf("s 10 %d,%d %d", i/10, i%10, l-2))
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'e':
			var g *ogdl.Graph
			for _, x := range []*ogdl.Graph{g, ogdl.New(nil), ogdl.New("a"), {}} {
				s := GTyped(x)
				x.Sort("k")
				x.SortAsInt("k")
				x.SortAsString("k")
				if GTyped(x) != s {
					c.Failf("sorting an empty graph changes it: %s", GTyped(x))
				}
			}
		case 'p':
			// long values that agree in their first n characters, and long field names
			n, _ := strconv.Atoi(f[1])
			p, z := strings.Repeat("x", n), strings.Repeat("0", n)
			vals := []interface{}{p + "c", p + "a", []byte(p + "b"), p, z + "3", z + "12", z, "-" + z + "7"}
			Seqs(len(vals), 2, func(ix []int) {
				for v := 0; v < 3; v++ {
					c31one(c, append(ix[:2:2], 1, 0, 5), n%len(c31fields), v, desc, vals...)
				}
			})
			for v := 0; v < 3; v++ {
				g := ogdl.New("_")
				field := "k" + strings.Repeat("k", n)
				if n > 0 && n < 200 {
					field = strings.Repeat("k.", n) + "k"
				}
				for i := 0; i < 7; i++ {
					at := g.Add("r")
					for _, e := range strings.Split(field, ".") {
						at = at.Add(e)
					}
					at.Add(i * 5 % 7)
				}
				switch v {
				case 0:
					g.Sort(field)
				case 1:
					g.SortAsString(field)
				case 2:
					g.SortAsInt(field)
				}
				for i := 0; i < 7; i++ {
					if k := g.GetAt(i).Get(field).Int64(-1); k != int64(i) {
						c.Failf("%s: value %d at %d sorting by a field of %d characters", desc, k, i, len(field))
					}
				}
			}
		case 'w':
			n, _ := strconv.Atoi(f[1])
			p, _ := strconv.Atoi(f[2])
			for v := 0; v < 3; v++ {
				c31one(c, c31seq(n, p), (n+p)%len(c31fields), v, desc)
			}
		default:
			k, _ := strconv.Atoi(f[1])
			l, _ := strconv.Atoi(f[3])
			var pre []int
			if f[2] != "-" {
				pre = Ints(f[2], ",")
			}
			fields := len(c31fields)
			if len(pre)+l > 3 {
				fields = 1
			}
			Seqs(k, l, func(ix []int) {
				for fi := 0; fi < fields; fi++ {
					for v := 0; v < 3; v++ {
						c31one(c, append(pre[:len(pre):len(pre)], ix...), fi, v, desc)
					}
				}
			})
		}
	},
}
