package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

var c30schema = []string{"a", "!int", "!string", "!float", "!bool", "!binary", "5", "", "é b"}
var c30content = []interface{}{"a", int64(5), "5", 2.5, "2.5", true, "true", []byte("a"), []byte("5"), nil, "", "1e3", uint8(5), "a b", "é b", false, "x", "true ", "-7", "0x5", "9223372036854775808", "nan", "TRUE"}

// literals, and contents that only look the same
var c30lit = []string{"Ab", "1.50", "05", "é", "true", "x y", "-0"}
var c30litc = []interface{}{"Ab", "ab", "AB", "Ab ", " Ab", "A", "Abc", "1.5", 1.5, "1.50", "05", "5", int64(5), "é", "e\u0301", "e", "É", true, "true", "True", "!", "!!", "x y", "x  y", "x\ty", "xy", "-0", "0", int64(0), []byte("Ab"), []byte("ab"), "", nil, "\ufeffAb", "Ab\x00", "ſ", "K"}
var c30small = []interface{}{"a", int64(5), "5", "x"}

// a node of the model
type vn struct {
	v interface{}
	k []*vn
}

func vforest(lv []int, val func(i int) interface{}) *vn {
	root := &vn{v: "_"}
	st := []*vn{root}
	for i, l := range lv {
		st = st[:l+1]
		n := &vn{v: val(i)}
		st[l].k = append(st[l].k, n)
		st = append(st, n)
	}
	return root
}

func (n *vn) graph() *ogdl.Graph {
	g := ogdl.New(n.v)
	for _, k := range n.k {
		g.Out = append(g.Out, k.graph())
	}
	return g
}

type yes int

const (
	no yes = iota
	ok
	unspec
)

func conformsNode(s, x *vn) yes {
	t := s.v.(string)
	b := func(y bool) yes {
		if y {
			return ok
		}
		return no
	}
	switch t {
	case "!int":
		_, y := refInt(x.v)
		return b(y)
	case "!float":
		_, y := refFloat(x.v)
		return b(y)
	case "!bool":
		if isInt(x.v) || isFloat(x.v) {
			return unspec
		}
		_, y := refBool(x.v)
		return b(y)
	case "!string":
		_, y := x.v.(string)
		return b(y)
	case "!binary":
		_, y := x.v.([]byte)
		return b(y)
	}
	if _, isb := x.v.([]byte); isb {
		return b(string(x.v.([]byte)) == t)
	}
	if x.v == nil {
		return b(t == "")
	}
	return b(Str(x.v) == t)
}

func conforms(s, x *vn) yes {
	r := ok
	for i, k := range s.k {
		if i >= len(x.k) {
			return no
		}
		switch conformsNode(k, x.k[i]) {
		case no:
			return no
		case unspec:
			r = unspec
		}
		switch conforms(k, x.k[i]) {
		case no:
			return no
		case unspec:
			r = unspec
		}
	}
	return r
}

func c30check(c *C, desc string, s, x *vn, sg, xg *ogdl.Graph) {
	want := conforms(s, x)
	if want == unspec {
		return
	}
	c.Step(1)
	got, msg := sg.Check(xg)
	if got != (want == ok) {
		c.Failf("%s: schema %s, graph %s: Check says %v (%s)", desc, GTyped(sg), GTyped(xg), got, msg)
	}
	for _, p := range [][2]*ogdl.Graph{{shared(sg), xg}, {sg, shared(xg)}, {shared(sg), shared(xg)}} {
		if p[0] != nil && p[1] != nil {
			if b, m := p[0].Check(p[1]); b != got || m != msg {
				c.Failf("%s: schema %s, graph %s, with shared nodes: Check says %v (%s), without %v", desc, GTyped(sg), GTyped(xg), b, m, got)
			}
		}
	}
	if !got && strings.TrimSpace(msg) == "" {
		c.Failf("%s: schema %s, graph %s: rejected without a message", desc, GTyped(sg), GTyped(xg))
	}
}

// every graph with up to n nodes over contents
func c30graphs(n int, vals []interface{}, f func(x *vn)) {
	for k := 0; k <= n; k++ {
		Shapes(k, func(lv []int) {
			Seqs(len(vals), k, func(ix []int) { f(vforest(lv, func(i int) interface{} { return vals[ix[i]] })) })
		})
	}
}

type c30pair struct {
	m *vn
	g *ogdl.Graph
}

var c30cache = map[string][]c30pair{}

func c30init() {
	for _, t := range []struct {
		k string
		n int
		v []interface{}
	}{{"L", 2, c30litc}, {"2", 2, c30content}, {"3", 3, c30small}, {"4", 4, c30small}, {"3c", 3, c30content[:9]}} {
		var l []c30pair
		c30graphs(t.n, t.v, func(x *vn) { l = append(l, c30pair{x, x.graph()}) })
		c30cache[t.k] = l
	}
}

var c30 = &Prop{
	ID:     "C30",
	Rule:   "every pair of a schema tree and a graph up to a number of nodes, over the schema types, literals and all kinds of content, checked against a reference that compares position by position; sweeps: schemas and graphs that agree up to their last node, of widths and depths up to thousands, with extra nodes; schemas and graphs from parsed text. Up to 100001 nodes.",
	Bounds: "quick: schemas of 2 nodes over 9 labels x graphs of 2 nodes over 23 contents, the same of 7 literals and 37 contents that resemble them, schemas of 3 nodes over 4 x graphs of 4 nodes over 4; thorough: schemas of 3 nodes over 9 x graphs of 3 nodes over 9",
	Init:   c30init,
	Gen: func(thorough bool, emit func(string)) {
		emit("e")
		gen := func(n int, labels []string, set string) {
			for k := 0; k <= n; k++ {
				Shapes(k, func(lv []int) {
					Seqs(len(labels), k, func(ix []int) { emit(fmt.Sprintf("s %s %s %s", set, JoinInts(lv, ","), JoinInts(ix, ","))) })
				})
			}
		}
		gen(2, c30schema, "2")
		gen(2, c30lit, "L")
		for _, k := range append(sweep(thorough), vast...) {
			if k > 0 {
				emit(fmt.Sprintf("w %d", k))
			}
		}
		gen(3, c30schema[:4], "4")
		if thorough {
			gen(3, c30schema, "3c")
		} else {
			gen(3, c30schema[:5], "3")
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'e':
			var nilg *ogdl.Graph
			s := ogdl.FromString("a\n  !int")
			if b, _ := nilg.Check(s); !b {
				c.Failf("a nil schema rejects")
			}
			if b, _ := ogdl.New(nil).Check(nilg); !b {
				c.Failf("an empty schema rejects a nil graph")
			}
			if b, m := s.Check(nilg); b || m == "" {
				c.Failf("a nil graph is accepted (or without a message)")
			}
			for _, t := range []struct {
				s, x string
				want bool
			}{{"a !int\nb !string", "a 1\nb x", true}, {"a !int\nb !string", "a 1\nb x\nc 5", true}, {"a !int\nb !string", "b x\na 1", false}, {"a !int\nb !string", "a 1", false},
				{"a\n  b !float\n  c !bool", "a\n  b 1.5\n  c true", true}, {"a\n  b !float\n  c !bool", "a\n  b 1.5\n  c yes", false}, {"a !string", "a 'b c'", true}, {"a 5", "a '5'", true}, {"a 5", "a '5' 6 7", true}, {"a 5 6", "a 5", false}} {
				if b, m := ogdl.FromString(t.s).Check(ogdl.FromString(t.x)); b != t.want || !b && m == "" {
					c.Failf("schema %q, text %q: %v %s", t.s, t.x, b, m)
				}
			}
		case 'w':
			n, _ := strconv.Atoi(f[1])
			kinds := []string{"a", "!int", "!string", "5"}
			vals := []interface{}{"a", int64(5), "5", "5"}
			for shape := 0; shape < 3; shape++ {
				if shape > 0 && n > 3000 {
					continue
				}
				// a wide one, a deep one, a comb; bad: where the graph does not agree (-1: nowhere)
				for _, bad := range []int{-1, n - 1, n / 2, 0, -2, -3} {
					s, x := &vn{v: "_"}, &vn{v: "other"}
					ps, px := s, x
					for i := 0; i < n; i++ {
						if bad == -2 && i == n-1 {
							break // the graph ends early: see below
						}
						a, b := &vn{v: kinds[i%4]}, &vn{v: vals[i%4]}
						if i == bad {
							b.v = "bad one"
							if i%4 == 2 {
								b.v = int64(3)
							}
						}
						ps.k, px.k = append(ps.k, a), append(px.k, b)
						if shape == 1 || shape == 2 && i%3 == 2 {
							ps, px = a, b
						}
					}
					if bad == -2 {
						ps.k = append(ps.k, &vn{v: "!string"})
					}
					if bad == -3 {
						px.k = append(px.k, &vn{v: "extra", k: []*vn{{v: "a"}}})
						x.k = append(x.k, &vn{v: "extra"})
					}
					sg, xg := s.graph(), x.graph()
					want := conforms(s, x) == ok
					if got, m := sg.Check(xg); got != want || !got && m == "" {
						c.Failf("%s: shape %d, mismatch at %d: Check says %v (%s)", desc, shape, bad, got, m)
					}
					c.Step(1)
				}
			}
		default:
			lv, ix := Ints(f[2], ","), Ints(f[3], ",")
			l := c30schema
			if f[1] == "L" {
				l = c30lit
			}
			s := vforest(lv, func(i int) interface{} { return l[ix[i]] })
			sg := s.graph()
			if c30cache["2"] == nil {
				c30init()
			}
			for _, p := range c30cache[f[1]] {
				c30check(c, desc, s, p.m, sg, p.g)
			}
		}
	},
}
