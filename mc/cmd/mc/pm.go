package main

import (
	"fmt"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// mn is a node of the model: like a real node, but edited by the rules of the
// specification. Nodes have identity and can be shared.
type mn struct {
	c interface{}
	k []*mn
}

// pm relates model nodes with real ones (a bijection that never changes)
type pm struct {
	m2r map[*mn]*ogdl.Graph
	r2m map[*ogdl.Graph]*mn
	// loose: integers of all widths are the same, zeros of both signs too
	loose bool
}

func newPM() *pm { return &pm{m2r: map[*mn]*ogdl.Graph{}, r2m: map[*ogdl.Graph]*mn{}} }

func sameNumber(a, b interface{}) bool {
	if isInt(a) && isInt(b) {
		i, _ := refInt(a)
		j, _ := refInt(b)
		return i == j
	}
	if isFloat(a) && isFloat(b) {
		f, _ := refFloat(a)
		g, _ := refFloat(b)
		return f == g || f != f && g != g
	}
	return false
}

// bind relates m and r; it returns false if one of them has another partner
func (p *pm) bind(m *mn, r *ogdl.Graph) bool {
	x, ok := p.m2r[m]
	y, ok2 := p.r2m[r]
	if ok || ok2 {
		return ok && ok2 && x == r && y == m
	}
	p.m2r[m], p.r2m[r] = r, m
	return true
}

// from makes the model of a real graph
func (p *pm) from(g *ogdl.Graph) *mn {
	if m, ok := p.r2m[g]; ok {
		return m
	}
	m := &mn{c: g.This}
	p.bind(m, g)
	for _, n := range g.Out {
		m.k = append(m.k, p.from(n))
	}
	return m
}

func (m *mn) write(b *strings.Builder, d int) {
	b.WriteString(Content(m.c))
	if d > 60 {
		b.WriteString("...")
		return
	}
	if len(m.k) > 0 {
		b.WriteByte('{')
		for i, k := range m.k {
			if i > 0 {
				b.WriteByte(' ')
			}
			k.write(b, d+1)
		}
		b.WriteByte('}')
	}
}

func (m *mn) str() string {
	var b strings.Builder
	m.write(&b, 0)
	return b.String()
}

// same compares the real graph with the model: contents, order and identities
func (p *pm) same(m *mn, g *ogdl.Graph) string {
	if g == nil {
		return "nil instead of " + m.str()
	}
	if Content(g.This) != Content(m.c) && !(p.loose && sameNumber(g.This, m.c)) {
		return "content " + Content(g.This) + " instead of " + Content(m.c)
	}
	if len(g.Out) != len(m.k) {
		return fmt.Sprintf("%s has %d children instead of %d", Content(m.c), len(g.Out), len(m.k))
	}
	if !p.bind(m, g) {
		return "another node with content " + Content(m.c)
	}
	for i, k := range m.k {
		if s := p.same(k, g.Out[i]); s != "" {
			return s
		}
	}
	return ""
}

// reaches tells if node x can be reached from m
func (m *mn) reaches(x *mn) bool {
	if m == x {
		return true
	}
	for _, k := range m.k {
		if k.reaches(x) {
			return true
		}
	}
	return false
}

func (m *mn) node(s string) *mn {
	for _, k := range m.k {
		if Str(k.c) == s {
			return k
		}
	}
	return nil
}

func (m *mn) clone() *mn {
	n := &mn{c: m.c}
	for _, k := range m.k {
		n.k = append(n.k, k.clone())
	}
	return n
}

// walk follows a path of names and indexes; it returns the addressed node (nil
// if it does not exist) and the last existing one.
func (m *mn) walk(p []pe) (*mn, *mn) {
	for _, e := range p {
		var n *mn
		if e.k == 'n' {
			n = m.node(e.name)
		} else if e.ix < len(m.k) {
			n = m.k[e.ix]
		}
		if n == nil {
			return nil, m
		}
		m = n
	}
	return m, m
}

// set is the model of Set: v are the new children (for a path that ends with
// an index: its first element becomes the node)
func (m *mn) set(p []pe, v []*mn) {
	for i, e := range p {
		last := i == len(p)-1
		if e.k == 'n' {
			n := m.node(e.name)
			if n == nil {
				n = &mn{c: e.name}
				m.k = append(m.k, n)
			}
			if last {
				n.k = append([]*mn(nil), v...)
			}
			m = n
			continue
		}
		for len(m.k) <= e.ix {
			m.k = append(m.k, &mn{c: "_"})
		}
		if last {
			m.k[e.ix] = v[0]
		}
		m = m.k[e.ix]
	}
}

// shared makes a graph with the same structure in which equal parts are the
// same nodes. It returns nil if there are none (or the graph is large).
func shared(g *ogdl.Graph) *ogdl.Graph {
	seen := map[string]*ogdl.Graph{}
	n, twice := 0, false
	var mk func(g *ogdl.Graph) *ogdl.Graph
	mk = func(g *ogdl.Graph) *ogdl.Graph {
		if n++; n > 60 {
			return nil
		}
		h := &ogdl.Graph{This: g.This}
		for _, k := range g.Out {
			x := mk(k)
			if x == nil {
				return nil
			}
			h.Out = append(h.Out, x)
		}
		s := GTyped(h)
		if x := seen[s]; x != nil {
			twice = true
			return x
		}
		seen[s] = h
		return h
	}
	h := mk(g)
	if !twice {
		return nil
	}
	return h
}
