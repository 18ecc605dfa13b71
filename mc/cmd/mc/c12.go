package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

var c12all [][]pe   // paths up to 3 elements
var c12two [][]pe   // up to 2
var c12small [][]pe // a few

const c12vals = "sigh"

func c12init() {
	els := []pe{{k: 'n', name: "a"}, {k: 'n', name: "b"}, {k: 'i', ix: 0}, {k: 'i', ix: 1}, {k: 'i', ix: 3}}
	for n := 1; n <= 3; n++ {
		Seqs(len(els), n, func(ix []int) {
			var p []pe
			for _, i := range ix {
				p = append(p, els[i])
			}
			c12all = append(c12all, p)
			if n <= 2 {
				c12two = append(c12two, p)
			}
			if n == 1 && ix[0] != 4 || n == 2 && ix[0]%4 == 0 && ix[1]%2 == 1 || n == 2 && ix[0] == 0 && ix[1] < 2 {
				c12small = append(c12small, p)
			}
		})
	}
}

// c12op sets one path; v is the kind of value
func c12op(c *C, P *pm, g *ogdl.Graph, m *mn, ext *ogdl.Graph, p []pe, v byte, hist string) bool {
	text := pathText(p, false)
	last := p[len(p)-1]
	var val interface{}
	var kids []*mn
	switch v {
	case 's':
		val, kids = "v", []*mn{{c: "v"}}
	case 'i':
		val, kids = int64(7), []*mn{{c: int64(7)}}
	case 'g', 'h':
		if last.k == 'i' {
			return false
		}
		src := P.r2m[ext]
		val = ext
		if v == 'h' {
			if src = m.node("b"); src == nil {
				return false
			}
			val = P.m2r[src]
		}
		kids = append(kids, src.k...)
		// cycles are outside the space
		full, at := m.walk(p)
		if full != src && src.reaches(at) {
			return false
		}
		for _, k := range kids {
			if k.reaches(at) {
				return false
			}
		}
	}
	c.Step(1)
	m.set(p, kids)
	g.Set(text, val)
	show := hist + " Set(" + text + ", " + string(v) + ")"
	if s := P.same(m, g); s != "" {
		c.Failf("%s: %s; got %s, want %s", show, s, GTyped(g), m.str())
	}
	r := g.Get(text)
	if r == nil {
		c.Failf("%s: Get finds nothing in %s", show, GFull(g))
	}
	if len(r.Out) != len(kids) {
		c.Failf("%s: Get gives %s", show, GFull(r))
	}
	for i, k := range kids {
		if P.m2r[k] != r.Out[i] || Content(k.c) != Content(r.Out[i].This) {
			c.Failf("%s: Get gives %s", show, GFull(r))
		}
	}
	return true
}

var c12 = &Prop{
	ID:     "C12",
	Rule:   "every graph of up to N nodes (names a and b, repeated; also with integer and missing contents; also made by a parser, a clone, the binary format and the event builder, or after deletions) x every sequence of D sets with every path of up to M elements over a, b, [0], [1], [3] and every value (string, integer, another graph, a part of the same graph): the graph is compared after each one with a model in which nodes have identity, and Get must give the value. Plus every index below and above the number of children up to 300, computed indexes, and 48 names in 3 kinds of quotes. Lists of up to 100001 nodes.",
	Bounds: "quick: (N=4,D=1,M=3), (N=3,D=2,M=2), (N=2,D=3, 10 paths); thorough: (5,1,3), (4,2,2), (3,3,10 paths), (1,4,10 paths)",
	Assume: []string{"no graph is set below itself (cycles)", "graph values are not set at a final index (documented for scalars)"},
	Init:   c12init,
	Gen: func(thorough bool, emit func(string)) {
		if c12all == nil {
			c12init()
		}
		n := []int{4, 3, 2, -1}
		if thorough {
			n = []int{5, 4, 3, 1}
		}
		graphs := func(n int, f func(string)) {
			for k := 0; k <= n; k++ {
				Shapes(k, func(lv []int) {
					Strings([]string{"0", "1"}, k, k, func(l string) {
						for _, kind := range "gtn" + c11made {
							if k > 3 && kind != 'g' || k > 2 && kind < 'a' {
								continue
							}
							f(fmt.Sprintf("%c %s %s", kind, JoinInts(lv, ","), l))
						}
					})
				})
			}
		}
		for i := range c11names {
			emit(fmt.Sprintf("q %d", i))
		}
		for _, i := range append(sweep(false), vast...) {
			emit(fmt.Sprintf("w %d", i-1))
		}
		graphs(n[0], func(g string) { emit(g + " 1") })
		graphs(n[1], func(g string) { emit(g + " 2") })
		if n[3] >= 0 {
			graphs(n[3], func(g string) { emit(g + " 4") })
		}
		graphs(n[2], func(g string) { emit(g + " 3") })
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'q':
			i, _ := strconv.Atoi(f[1])
			for _, name := range c11names {
				for _, q1 := range quoteName(c11names[i]) {
					for _, q2 := range quoteName(name) {
						P := newPM()
						g := ogdl.FromString("z 1\ny\n  x")
						m := P.from(g)
						ext := ogdl.FromString("k l")
						P.from(ext)
						e1, e2 := pe{k: 'n', name: c11names[i], text: q1}, pe{k: 'n', name: name, text: q2}
						c12op(c, P, g, m, ext, []pe{e1}, 's', desc)
						c12op(c, P, g, m, ext, []pe{e2, e1}, 'g', desc)
						c12op(c, P, g, m, ext, []pe{e1, {k: 'i', ix: 1}, e2}, 'i', desc)
						c12op(c, P, g, m, ext, []pe{e1, e2}, 's', desc)
						c12op(c, P, g, m, ext, []pe{{k: 'n', name: "y"}, e2, e1}, 's', desc)
					}
				}
			}
		case 'w':
			n, _ := strconv.Atoi(f[1])
			for _, add := range []int{-n, -n + 1, -n / 2, -1, 0, 1, 2, 3, 7, 64} {
				ix := n + add
				if ix < 0 {
					continue
				}
				for k, t := range []string{"", "[i]", "[i+0]", "[ " + strconv.Itoa(ix) + " ]"} {
					if n > 300 && k != n&3 {
						continue
					}
					P := newPM()
					g := ogdl.New("_")
					g.Add("i").Add(ix)
					a := g.Add("a")
					for j := 0; j < n; j++ {
						a.Add("k" + strconv.Itoa(j)).Add(j)
					}
					g.Add("b").Add("x")
					m := P.from(g)
					A := pe{k: 'n', name: "a"}
					c12op(c, P, g, m, nil, []pe{A, {k: 'i', ix: ix, text: t}}, "si"[k&1], desc)
					c12op(c, P, g, m, nil, []pe{A, {k: 'i', ix: ix, text: t}, {k: 'n', name: "z"}}, 'h', desc)
					c12op(c, P, g, m, nil, []pe{A, {k: 'i', ix: ix + 2}}, 's', desc)
					c12op(c, P, g, m, nil, []pe{A, {k: 'n', name: "k" + strconv.Itoa(ix)}}, 's', desc)
					c12op(c, P, g, m, nil, []pe{{k: 'n', name: "c"}, {k: 'i', ix: ix}, {k: 'n', name: "z"}}, 's', desc)
				}
			}
		default:
			d, _ := strconv.Atoi(f[3])
			paths, vals := c12all, c12vals
			if d == 2 {
				paths = c12two
			} else if d > 2 {
				paths, vals = c12small, "sgh"
			}
			var ops [][2]int
			for i := range paths {
				for j := range vals {
					if (vals[j] == 'g' || vals[j] == 'h') && paths[i][len(paths[i])-1].k == 'i' {
						continue
					}
					ops = append(ops, [2]int{i, j})
				}
			}
			Seqs(len(ops), d, func(ix []int) {
				P := newPM()
				g := c11graph(Ints(f[1], ","), f[2], f[0][0])
				m := P.from(g)
				ext := ogdl.New("e")
				x := ext.Add("x")
				x.Add("y")
				ext.Add("a")
				em := P.from(ext)
				hist := ""
				for _, i := range ix {
					o := ops[i]
					if !c12op(c, P, g, m, ext, paths[o[0]], vals[o[1]], desc+":"+hist) {
						return
					}
					hist += fmt.Sprintf(" Set(%s, %c)", pathText(paths[o[0]], false), vals[o[1]])
				}
				// the value graph: its own list never changes
				if s := P.same(em, ext); s != "" {
					c.Failf("%s:%s: the value graph: %s; got %s, want %s", desc, hist, s, GTyped(ext), em.str())
				}
				if d == 1 {
					c.State(m.str())
				}
			})
		}
	},
}
