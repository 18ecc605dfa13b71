package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// contents of every supported type, with pairs that differ only in type
var c14contents = []interface{}{nil, "", "a", "1", int64(1), 1, float64(1), true, "true", []byte("a"), []byte{}, int64(0), false, float32(1), uint8(1), 'x', "_", "\n", int64(math.MinInt64), 1.5, uint64(math.MaxUint64)}

func c14graph(lv []int, ix []int, root interface{}) *ogdl.Graph {
	g := &ogdl.Graph{This: root}
	stack := []*ogdl.Graph{g}
	for i, l := range lv {
		stack = stack[:l+1]
		n := &ogdl.Graph{This: c14contents[ix[i]]}
		stack[l].Out = append(stack[l].Out, n)
		stack = append(stack, n)
	}
	return g
}

func nodes(g *ogdl.Graph, m map[*ogdl.Graph]bool) []*ogdl.Graph {
	r := []*ogdl.Graph{g}
	if m != nil {
		m[g] = true
	}
	for _, n := range g.Out {
		r = append(r, nodes(n, m)...)
	}
	return r
}

// edits of a node of a graph
var c14edits = []struct {
	name string
	f    func(root, n *ogdl.Graph)
}{
	{"This=", func(r, n *ogdl.Graph) { n.This = "changed" }},
	{"Add", func(r, n *ogdl.Graph) { n.Add("new") }},
	{"Add Add", func(r, n *ogdl.Graph) { n.Add("new"); n.Add("new2").Add("x") }},
	{"Clear", func(r, n *ogdl.Graph) { n.Clear() }},
	{"DeleteAt(0)", func(r, n *ogdl.Graph) { n.DeleteAt(0) }},
	{"DeleteAt(0) Add", func(r, n *ogdl.Graph) { n.DeleteAt(0); n.Add("new") }},
	{"DeleteAt(last) Add", func(r, n *ogdl.Graph) { n.DeleteAt(n.Len() - 1); n.Add("new") }},
	{"Set", func(r, n *ogdl.Graph) { n.Set("a.b", "v") }},
	{"Set[]", func(r, n *ogdl.Graph) { n.Set("[1]", "v") }},
	{"Substitute", func(r, n *ogdl.Graph) { n.Substitute("a", "zz") }},
	{"Sort", func(r, n *ogdl.Graph) { n.Sort("a"); n.SortAsInt("a") }},
	{"swap", func(r, n *ogdl.Graph) {
		if n.Len() > 1 {
			n.Out[0], n.Out[1] = n.Out[1], n.Out[0]
		}
	}},
	{"Merge", func(r, n *ogdl.Graph) { n.Merge(ogdl.FromString("a\n  q\nb\n  r")) }},
	{"Delete(a)", func(r, n *ogdl.Graph) { n.Delete("a") }},
}

func c14copies(g *ogdl.Graph) map[string]func() *ogdl.Graph {
	return map[string]func() *ogdl.Graph{
		"Clone": func() *ogdl.Graph { return g.Clone() },
		"Copy": func() *ogdl.Graph {
			c := ogdl.New(g.This)
			c.Copy(g)
			return c
		},
		"Clone of a Clone": func() *ogdl.Graph { return g.Clone().Clone() },
	}
}

func c14copyCheck(c *C, g *ogdl.Graph, name string, k *ogdl.Graph) {
	if k == nil {
		c.Failf("%s of %s is nil", name, GTyped(g))
	}
	if GTyped(k) != GTyped(g) {
		c.Differ(name, GTyped(k), GTyped(g))
	}
	if !k.Equals(g) || !g.Equals(k) {
		c.Failf("%s of %s is not Equal to it", name, GTyped(g))
	}
	m := map[*ogdl.Graph]bool{}
	nodes(g, m)
	for _, n := range nodes(k, nil) {
		if m[n] {
			c.Failf("%s of %s shares the node %s", name, GTyped(g), GFull(n))
		}
	}
	c.Owned(name, k)
}

var c14pairs []*ogdl.Graph

// contents that are easily taken for equal
var c14near = []interface{}{1.0, math.Nextafter(1, 2), 1 + 1e-12, 1 + 1e-7, float32(1), int64(1), 1, int32(1), uint64(1), "1", "1.0", true, "true", []byte("1"), 0.0, math.SmallestNonzeroFloat64, 1e-12, -1e-12, 1e17, 1e17 + 16, float64(1 << 53), int64(1 << 53), int64(1<<53 + 1), uint64(1<<53 + 1), int64(1<<32 + 1), int64(math.MaxInt64), int64(math.MaxInt64 - 1), uint64(math.MaxInt64), uint64(math.MaxUint64), int64(-1), math.Inf(1), math.Inf(-1), math.MaxFloat64,
	"a", "A", "a ", " a", "a\x00", "\u00e9", "e\u0301", "\xe9", []byte("a"), []byte("A"), []byte("a "), []byte{}, "", "_", "nil", "<nil>", nil, 'a', byte('a'), false, "false", 0, int64(0), strings.Repeat("x", 1000) + "a", strings.Repeat("x", 1000) + "b", "a" + strings.Repeat("x", 1000), "b" + strings.Repeat("x", 1000), strings.Repeat("x", 500) + "a" + strings.Repeat("x", 500), strings.Repeat("x", 1000), strings.Repeat("x", 1001)}

func c14one(v interface{}) *ogdl.Graph {
	g := ogdl.New("_")
	g.Out = append(g.Out, ogdl.New(v))
	return g
}

var c14 = &Prop{
	ID:     "C14",
	Rule:   "every graph of up to N nodes over contents of 21 kinds (every type, pairs that only differ in type, missing and empty contents): Clone and Copy give an equal graph (also as reported by Equals, both ways) that shares no node; every pair of 14 edits at any node of one of them leaves the other one as it was. Equals compared with structural equality on every pair of graphs up to M nodes over 7 contents. Depth and width sweeps. Every pair of 58 contents that are nearly equal (neighbouring floats, integers beyond 2^53, equal texts of different types, strings that differ at one place).",
	Bounds: "quick: N=2 over 21 contents, N=4 over 4 contents, pairs M=3; thorough: N=3 over 21, N=5 over 4",
	Assume: []string{"byte slices are shared, as documented; they are not edited in place", "NaN and functions as content are excluded from Equals"},
	Init: func() {
		cs := []int{2, 3, 4, 0, 9}
		for k := 0; k <= 3; k++ {
			Shapes(k, func(lv []int) {
				Seqs(len(cs), k, func(ix []int) {
					jx := make([]int, k)
					for i := range ix {
						jx[i] = cs[ix[i]]
					}
					c14pairs = append(c14pairs, c14graph(lv, jx, "_"))
					if k <= 1 {
						c14pairs = append(c14pairs, c14graph(lv, jx, "x"), c14graph(lv, jx, nil), c14graph(lv, jx, int64(1)), c14graph(lv, jx, "1"))
					}
				})
			})
		}
		c14pairs = append(c14pairs, nil)
	},
	Gen: func(thorough bool, emit func(string)) {
		gen := func(n int, cs []int) {
			for k := 0; k <= n; k++ {
				Shapes(k, func(lv []int) {
					Seqs(len(cs), k, func(ix []int) {
						jx := make([]int, k)
						for i := range ix {
							jx[i] = cs[ix[i]]
						}
						emit("g " + JoinInts(lv, ",") + " " + JoinInts(jx, ","))
					})
				})
			}
		}
		all := make([]int, len(c14contents))
		for i := range all {
			all[i] = i
		}
		for _, n := range sweep(thorough) {
			emit("w " + strconv.Itoa(n))
			emit("d " + strconv.Itoa(n))
		}
		for _, n := range vast {
			emit("w " + strconv.Itoa(n))
		}
		for i := range c14near {
			emit("n " + strconv.Itoa(i))
		}
		if c14pairs == nil {
			emit("p 0")
		}
		for i := 0; i < 1000; i++ {
			emit("p " + strconv.Itoa(i))
		}
		if thorough {
			gen(3, all)
			gen(5, []int{2, 4, 0, 9})
		} else {
			gen(2, all)
			gen(4, []int{2, 4, 0, 9})
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'p':
			i, _ := strconv.Atoi(f[1])
			if i >= len(c14pairs) {
				c.Skip()
			}
			a := c14pairs[i]
			for _, b := range c14pairs {
				c.Step(1)
				want := (a == nil) == (b == nil)
				if a != nil && b != nil {
					want = GTyped(a) == GTyped(b)
				}
				if a.Equals(b) != want {
					c.Failf("Equals(%s, %s) is %v", GTyped(a), GTyped(b), !want)
				}
			}
			if a != nil {
				c.State(GTyped(a))
			}
		case 'n':
			// contents that are nearly equal
			i, _ := strconv.Atoi(f[1])
			for j := range c14near {
				for deep := 0; deep < 2; deep++ {
					a, b := ogdl.New("_"), ogdl.New("_")
					x, y := a, b
					for k := 0; k < deep; k++ {
						a.Add("p")
						b.Add("p")
						x, y = a.Add("q"), b.Add("q")
					}
					x.AddNodes(c14one(c14near[i]))
					y.AddNodes(c14one(c14near[j]))
					c.Step(1)
					if a.Equals(b) != (i == j) {
						c.Failf("Equals is %v for %s and %s", i != j, Content(c14near[i]), Content(c14near[j]))
					}
				}
			}
		case 'w', 'd':
			n, _ := strconv.Atoi(f[1])
			g := ogdl.New("_")
			at := g
			for j := 0; j < n; j++ {
				x := at.Add(c14contents[j%len(c14contents)])
				if desc[0] == 'd' {
					if x == nil {
						x = at.Add("z")
					}
					at = x
				}
			}
			at.Add("end")
			for name, mk := range c14copies(g) {
				k := mk()
				c.Step(1)
				c14copyCheck(c, g, name, k)
				before := GTyped(g)
				for _, e := range c14edits {
					e.f(k, k)
				}
				c.Eq("the source after edits of the "+name, GTyped(g), before)
				// differences anywhere are seen
				for _, i := range []int{0, 1, n / 2, n} {
					k2 := mk()
					ns := nodes(k2, nil)
					if i < len(ns) {
						ns[len(ns)-1-i].This = "other"
						if k2.Equals(g) || g.Equals(k2) {
							c.Failf("Equals does not see a difference at node %d of %d", i, n)
						}
					}
				}
				k3 := mk()
				k3.Add("more")
				if k3.Equals(g) || g.Equals(k3) {
					c.Failf("Equals does not see an additional node (%d)", n)
				}
			}
		default:
			lv, ix := Ints(f[1], ","), Ints(f[2], ",")
			for _, root := range []interface{}{"_", nil, int64(3)} {
				g := c14graph(lv, ix, root)
				orig := GTyped(g)
				c.State(orig)
				for name, mk := range c14copies(g) {
					c14copyCheck(c, g, name, mk())
				}
				if h := shared(g); h != nil {
					if !h.Equals(g) || !g.Equals(h) {
						c.Failf("%s with shared nodes is not Equal to the same graph without", orig)
					}
					for name, mk := range c14copies(h) {
						c14copyCheck(c, h, name+" (shared nodes)", mk())
					}
				}
				if root != "_" {
					continue
				}
				nn := len(lv) + 1
				for i, e1 := range c14edits {
					for j, e2 := range c14edits {
						if len(lv) > 3 && (i+j)%4 != 0 {
							continue
						}
						for a := 0; a < nn; a++ {
							for side := 0; side < 2; side++ {
								c.Step(1)
								src := c14graph(lv, ix, root)
								name := "Clone"
								var k *ogdl.Graph
								if a%2 == 0 {
									k = src.Clone()
								} else {
									name = "Copy"
									k = ogdl.New(root)
									k.Copy(src)
								}
								x, y := src, k
								if side == 1 {
									x, y = k, src
								}
								at := nodes(x, nil)[a]
								e1.f(x, at)
								e2.f(x, at)
								if GTyped(y) != orig {
									c.Failf("%s at node %d of one side of a %s of %s changes the other one: %s", e1.name+" "+e2.name, a, name, orig, GTyped(y))
								}
								// and back
								e1.f(y, y)
								_ = fmt.Sprint()
							}
						}
					}
				}
			}
		}
	},
}
