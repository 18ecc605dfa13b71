package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// Two graphs g and h with their models
type c13st struct {
	P    *pm
	g, h *ogdl.Graph
	m, n *mn
}

// at gives a node of the state: g, h, or a child of one (nil if missing)
func (s *c13st) at(ref string) (*mn, *ogdl.Graph) {
	m, g := s.m, s.g
	if ref[0] == 'h' {
		m, g = s.n, s.h
	}
	for _, c := range ref[1:] {
		i := int(c - '0')
		if i >= len(m.k) {
			return nil, nil
		}
		m, g = m.k[i], g.Out[i]
	}
	return m, g
}

func (m *mn) add(n *mn) *mn { m.k = append(m.k, n); return n }

func (m *mn) merge(src *mn) {
	for _, x := range append([]*mn(nil), src.k...) {
		n := m.node(Str(x.c))
		if n == nil {
			m.add(x.clone())
		} else if n != x {
			n.k = nil
			n.merge(x)
		}
	}
}

func (m *mn) substitute(s string, v interface{}, done map[*mn]bool) {
	for _, n := range m.k {
		if Str(n.c) == s {
			n.c = v
		}
		n.substitute(s, v, done)
	}
}

type c13op struct {
	name string
	f    func(c *C, s *c13st) bool // false: not applicable
}

// isNode checks a returned node
func (s *c13st) isNode(c *C, what string, r *ogdl.Graph, m *mn) {
	if m == nil {
		if r != nil {
			c.Failf("%s returns %s, want nil", what, GFull(r))
		}
		return
	}
	if r == nil {
		c.Failf("%s returns nil, want the node %s", what, Content(m.c))
	}
	if !s.P.bind(m, r) {
		c.Failf("%s returns another node: %s, want %s", what, GFull(r), m.str())
	}
}

func c13mk(level int) []c13op {
	var ops []c13op
	// op on a target
	on := func(t, name string, f func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool) {
		full := t + "." + name
		ops = append(ops, c13op{full, func(c *C, s *c13st) bool {
			m, g := s.at(t)
			if m == nil {
				return false
			}
			return f(c, s, m, g)
		}})
	}
	// op on a target with another node as argument
	on2 := func(t, name, arg string, f func(c *C, s *c13st, m *mn, g *ogdl.Graph, am *mn, ag *ogdl.Graph) bool) {
		on(t, name+"("+arg+")", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			am, ag := s.at(arg)
			if am == nil {
				return false
			}
			return f(c, s, m, g, am, ag)
		})
	}
	kidsReach := func(am, m *mn) bool {
		for _, k := range am.k {
			if k.reaches(m) {
				return true
			}
		}
		return false
	}
	for _, t := range []string{"g", "g0", "h", "g1"} {
		if t == "g1" && level < 2 {
			continue
		}
		for _, v := range []interface{}{"a", "b", int64(1)} {
			v := v
			on(t, fmt.Sprintf("Add(%v)", v), func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				s.isNode(c, "Add", g.Add(v), m.add(&mn{c: v}))
				return true
			})
			on(t, fmt.Sprintf("Delete(%v)", v), func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				var k []*mn
				for _, n := range m.k {
					if n.c != v {
						k = append(k, n)
					}
				}
				m.k = k
				g.Delete(v)
				return true
			})
		}
		for _, name := range []string{"a", "b", "1"} {
			name := name
			on(t, "Create("+name+")", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				n := m.node(name)
				if n == nil {
					n = m.add(&mn{c: name})
				}
				n.k = nil
				s.isNode(c, "Create", g.Create(name), n)
				return true
			})
			if name == "b" {
				continue
			}
			on(t, "NodeOrNew("+name+")", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				n := m.node(name)
				if n == nil {
					n = m.add(&mn{c: name})
				}
				s.isNode(c, "NodeOrNew", g.NodeOrNew(name), n)
				s.isNode(c, "Node", g.Node(name), n)
				return true
			})
			on(t, "NodeSet("+name+",v)", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				n := m.node(name)
				if n == nil {
					n = m.add(&mn{c: name})
				}
				n.k = []*mn{{c: "v"}}
				s.isNode(c, "NodeSet", g.NodeSet(name, "v"), n.k[0])
				return true
			})
			if name != "a" {
				continue
			}
			on(t, "NodeSet("+name+",nil)", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				n := m.node(name)
				if n == nil {
					n = m.add(&mn{c: name})
				}
				n.k = nil
				if r := g.NodeSet(name, nil); r != nil {
					c.Failf("NodeSet(%s, nil) returns a node", name)
				}
				return true
			})
		}
		for _, i := range []int{-1, 0, 1, 2, 5} {
			i := i
			on(t, fmt.Sprintf("DeleteAt(%d)", i), func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				if i >= 0 && i < len(m.k) {
					m.k = append(append([]*mn(nil), m.k[:i]...), m.k[i+1:]...)
				}
				g.DeleteAt(i)
				return true
			})
		}
		on(t, "Clear", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			m.k = nil
			g.Clear()
			return true
		})
		on(t, "Substitute(a,b)", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			m.substitute("a", "b", nil)
			g.Substitute("a", "b")
			return true
		})
		on(t, "Substitute(1,a)", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			m.substitute("1", "a", nil)
			g.Substitute("1", "a")
			return true
		})
		on(t, "Set(a.b)", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			m.set([]pe{{k: 'n', name: "a"}, {k: 'n', name: "b"}}, []*mn{{c: "v"}})
			g.Set("a.b", "v")
			return true
		})
		on(t, "Set([2])", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			m.set([]pe{{k: 'i', ix: 2}}, []*mn{{c: "w"}})
			g.Set("[2]", "w")
			return true
		})
		// results of lookups are separate lists
		for _, p := range []string{"a{}", "a{0}", "[0]", "a", "[1]"} {
			p := p
			on(t, "Get("+p+") edited", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
				r := g.Get(p)
				if r == nil || p == "a" {
					return r != nil
				}
				r.Add("z")
				r.DeleteAt(0)
				r.Add("z")
				r.Delete("z")
				return true
			})
		}
		on(t, "Find edited", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			r, _ := g.Find("[ab]")
			r.Add("z")
			r.DeleteAt(0)
			r.Add("y")
			return true
		})
		on(t, "Clone edited", func(c *C, s *c13st, m *mn, g *ogdl.Graph) bool {
			r := g.Clone()
			r.Add("z")
			r.Substitute("a", "c")
			r.GetAt(0).Clear()
			r.DeleteAt(0)
			r.Add("y")
			return true
		})
		for _, a := range []string{"g", "h", "h0", "g0", "g1"} {
			if a == "g1" && level < 2 {
				continue
			}
			if a != t {
				on2(t, "Add", a, func(c *C, s *c13st, m *mn, g *ogdl.Graph, am *mn, ag *ogdl.Graph) bool {
					if am.reaches(m) {
						return false
					}
					s.isNode(c, "Add", g.Add(ag), m.add(am))
					return true
				})
				on2(t, "NodeSet(a)", a, func(c *C, s *c13st, m *mn, g *ogdl.Graph, am *mn, ag *ogdl.Graph) bool {
					if am.reaches(m) {
						return false
					}
					n := m.node("a")
					if n != nil && am.reaches(n) {
						return false
					}
					if n == nil {
						n = m.add(&mn{c: "a"})
					}
					n.k = []*mn{am}
					s.isNode(c, "NodeSet", g.NodeSet("a", ag), am)
					return true
				})
			}
			on2(t, "AddNodes", a, func(c *C, s *c13st, m *mn, g *ogdl.Graph, am *mn, ag *ogdl.Graph) bool {
				if kidsReach(am, m) {
					return false
				}
				m.k = append(m.k, am.k...)
				s.isNode(c, "AddNodes", g.AddNodes(ag), m)
				return true
			})
			on2(t, "Merge", a, func(c *C, s *c13st, m *mn, g *ogdl.Graph, am *mn, ag *ogdl.Graph) bool {
				if a != t && am.reaches(m) || m != am && m.reaches(am) {
					return false
				}
				m.merge(am)
				g.Merge(ag)
				return true
			})
			on2(t, "Copy", a, func(c *C, s *c13st, m *mn, g *ogdl.Graph, am *mn, ag *ogdl.Graph) bool {
				for _, k := range am.clone().k {
					m.add(k)
				}
				g.Copy(ag)
				return true
			})
		}
	}
	if level == 0 {
		var r []c13op
		for _, o := range ops {
			t, n, _ := strings.Cut(o.name, ".")
			if t == "g" && (strings.HasPrefix(n, "Add(a") || n == "Add(g0)" || n == "Add(h)" || n == "AddNodes(h)" || n == "AddNodes(g)" || n == "DeleteAt(0)" || n == "DeleteAt(1)" || n == "Delete(a)" || n == "Clear" || n == "Merge(h)" || n == "Copy(h)" || n == "NodeSet(a,v)" || n == "Set([2])" || n == "Substitute(a,b)" || n == "Get(a{}) edited") ||
				t == "h" && (n == "Add(a)" || n == "AddNodes(g)" || n == "DeleteAt(0)" || n == "AddNodes(g0)" || n == "Merge(g)" || n == "Add(b)") || t == "g0" && (n == "Add(b)" || n == "AddNodes(h)" || n == "Set(a.b)") {
				r = append(r, o)
			}
		}
		return r
	}
	return ops
}

var c13ops [3][]c13op

var c13h = [][2]string{{"", ""}, {"0,1,0", "010"}, {"0,0,1", "011"}}

func c13run(c *C, g, h *ogdl.Graph, ops []c13op, ix []int) {
	s := &c13st{P: newPM(), g: g, h: h}
	s.m, s.n = s.P.from(g), s.P.from(h)
	hist := ""
	for _, i := range ix {
		was := hist
		hist += " " + ops[i].name
		if msg := Catch(func() {
			if !ops[i].f(c, s) {
				hist = was + "!"
			}
		}); msg != "" {
			c.Failf("%s: panic %s", hist, msg)
		}
		if strings.HasSuffix(hist, "!") {
			return
		}
		c.Step(1)
		for _, x := range []struct {
			n string
			m *mn
			g *ogdl.Graph
		}{{"g", s.m, g}, {"h", s.n, h}} {
			if m := s.P.same(x.m, x.g); m != "" {
				c.Failf("after%s, graph %s: %s; got %s, want %s", hist, x.n, m, GTyped(x.g), x.m.str())
			}
		}
	}
	if len(ix) < 3 {
		c.State(s.m.str() + s.n.str())
	}
}

var c13 = &Prop{
	ID:     "C13",
	Rule:   "every sequence of D editing operations (Add of values and of nodes, AddNodes, NodeOrNew, NodeSet, Create, Delete, DeleteAt, Clear, Merge, Substitute, Copy, Set; edits of lookup results, searches and clones) applied to two graphs and to their children, including operations between them and with themselves; both graphs are compared after each operation (contents, order, node identities, returned nodes) with a model. Plus every (size, deleted position) sweep, and graphs made by parsers, clones, the binary format and the event builder, or after deletions. Lists of up to 100001 nodes.",
	Bounds: "quick: D=2 over 190+ operations on every g of up to 3 nodes x 3 h; D=3 over all operations on 2 graphs; D=4 over 25 operations. thorough: D=3 over more targets and graphs, D=5 over 25 operations",
	Assume: []string{"operations that would make a cycle are outside the space"},
	Init:   func() { c13ops = [3][]c13op{c13mk(0), c13mk(1), c13mk(2)} },
	Gen: func(thorough bool, emit func(string)) {
		for _, n := range append(sweep(false), vast...) {
			if n <= 70 || n == 128 || n >= 255 || thorough {
				emit(fmt.Sprintf("s %d", n))
			}
		}
		n := 3
		if thorough {
			n = 4
		}
		for k := 0; k <= n; k++ {
			Shapes(k, func(lv []int) {
				Strings([]string{"0", "1"}, k, k, func(l string) {
					for h := range c13h {
						emit(fmt.Sprintf("g %s %s %d 2 1", JoinInts(lv, ","), l, h))
						if k <= 3 {
							emit(fmt.Sprintf("t %s %s %d 2 1", JoinInts(lv, ","), l, h))
						}
						if k <= 2 || k == 3 && h == 1 {
							for _, x := range "ys" + c11made {
								emit(fmt.Sprintf("%c %s %s %d 2 1", x, JoinInts(lv, ","), l, h))
							}
						}
					}
				})
			})
		}
		ops := c13mk(1)
		if thorough {
			ops = c13mk(2)
		}
		gs := []string{"0,1,0 010", "0,0,0 001"}
		if thorough {
			gs = append(gs, "0,1,2 010", "0,1,1,0 0011")
		}
		for _, g := range gs {
			for i := range ops {
				d := map[bool]int{false: 1, true: 2}[thorough]
				emit(fmt.Sprintf("g %s 1 3 %d %d", g, d, i))
				if thorough {
					emit(fmt.Sprintf("t %s 2 3 1 %d", g, i))
				}
			}
		}
		small := c13mk(0)
		for i := range small {
			for j := range small {
				if thorough {
					emit(fmt.Sprintf("g 0,1,0 010 1 5 0 %d %d", i, j))
				}
				emit(fmt.Sprintf("t 0,1,0 010 1 4 0 %d %d", i, j))
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		if desc[0] == 's' {
			n, _ := strconv.Atoi(f[1])
			for i := 0; i < n; i++ {
				if n > 70 && i > 3 && i < n-3 && i != n/2 || n > 300 && i > 0 && i < n-1 && i != n/2 {
					continue
				}
				g, h := ogdl.New("g"), ogdl.New("h")
				for j := 0; j < n; j++ {
					g.Add("k" + strconv.Itoa(j%5)).Add(j)
				}
				var ops []c13op
				add := func(name string, f func(c *C, s *c13st)) {
					ops = append(ops, c13op{name, func(c *C, s *c13st) bool { f(c, s); return true }})
				}
				add("h.AddNodes(g)", func(c *C, s *c13st) {
					s.n.k = append(s.n.k, s.m.k...)
					h.AddNodes(g)
				})
				add(fmt.Sprintf("DeleteAt(%d)", i), func(c *C, s *c13st) {
					s.m.k = append(append([]*mn(nil), s.m.k[:i]...), s.m.k[i+1:]...)
					g.DeleteAt(i)
				})
				add("Add", func(c *C, s *c13st) { s.isNode(c, "Add", g.Add("x"), s.m.add(&mn{c: "x"})) })
				add("h.Add", func(c *C, s *c13st) { s.isNode(c, "Add", h.Add("y"), s.n.add(&mn{c: "y"})) })
				add("Delete", func(c *C, s *c13st) {
					var k []*mn
					for _, n := range s.m.k {
						if n.c != "k"+strconv.Itoa(i%5) {
							k = append(k, n)
						}
					}
					s.m.k = k
					g.Delete("k" + strconv.Itoa(i%5))
				})
				add("Add", func(c *C, s *c13st) { s.isNode(c, "Add", g.Add("x"), s.m.add(&mn{c: "x"})) })
				add("Copy", func(c *C, s *c13st) {
					s.n.k = append(s.n.k, s.m.clone().k...)
					h.Copy(g)
				})
				c13run(c, g, h, ops, []int{0, 1, 2, 3, 4, 5, 6})
			}
			return
		}
		h, _ := strconv.Atoi(f[3])
		d, _ := strconv.Atoi(f[4])
		lvl, _ := strconv.Atoi(f[5])
		ops := c13ops[lvl]
		var pre []int
		for _, x := range f[6:] {
			i, _ := strconv.Atoi(x)
			pre = append(pre, i)
		}
		Seqs(len(ops), d-len(pre), func(ix []int) {
			g := c11graph(Ints(f[1], ","), f[2], desc[0])
			h := c11graph(Ints(c13h[h][0], ","), c13h[h][1], desc[0])
			c13run(c, g, h, ops, append(append([]int(nil), pre...), ix...))
		})
	},
}
