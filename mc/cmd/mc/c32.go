package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// the model of the event builder: the list of nodes with their levels
type evm struct {
	lv  []int
	it  []interface{}
	cur int
}

type evop struct {
	k byte
	n int
}

func (o evop) String() string { return fmt.Sprintf("%c%d", o.k, o.n) }

var c32full = []evop{{'a', 0}, {'b', 0}, {'i', 0}, {'>', 0}, {'<', 0}, {'x', 0}, {'l', 0}, {'l', 1}, {'l', 2}, {'A', 0}, {'A', 1}, {'A', 2}, {'B', 0}, {'B', 1}, {'T', 0}}
var c32small = []evop{{'a', 0}, {'>', 0}, {'<', 0}, {'x', 0}, {'l', 0}, {'l', 2}, {'A', 1}, {'A', 3}}
var c32tiny = []evop{{'a', 0}, {'>', 0}, {'<', 0}, {'x', 0}}
var c32sets = [][]evop{c32full, c32small, c32tiny}

func (m *evm) valid() bool {
	prev := -1
	for _, l := range m.lv {
		if l < 0 || l > prev+1 {
			return false
		}
		prev = l
	}
	return true
}

func (m *evm) tree() string {
	var b strings.Builder
	b.WriteString("\"_\"\n")
	for i, l := range m.lv {
		b.WriteString(strings.Repeat(" ", l+1) + Content(m.it[i]) + "\n")
	}
	return b.String()
}

func evTree(g *ogdl.Graph, d int, b *strings.Builder) {
	if g == nil {
		b.WriteString("nil")
		return
	}
	if d == 0 {
		b.WriteString(strconv.Quote(g.ThisString()) + "\n")
	} else {
		b.WriteString(strings.Repeat(" ", d) + Content(g.This) + "\n")
	}
	for _, n := range g.Out {
		evTree(n, d+1, b)
	}
}

func evStr(g *ogdl.Graph) string {
	var b strings.Builder
	evTree(g, 0, &b)
	return b.String()
}

// do applies an operation to the model and to the builder; it returns false if the model is outside of the space
func (m *evm) do(c *C, e *ogdl.SimpleEventHandler, o evop, label func(i int) string, hist func() string) bool {
	c.Step(1)
	s := label(len(m.it))
	add := func(v interface{}, l int) {
		m.it = append(m.it, v)
		m.lv = append(m.lv, l)
	}
	switch o.k {
	case 'a':
		e.Add(s)
		add(s, m.cur)
	case 'b':
		e.AddBytes([]byte(s))
		add([]byte(s), m.cur)
	case 'i':
		v := []interface{}{int64(len(m.it)), true, 2.5, s}[len(m.it)&3]
		e.AddItf(v)
		add(v, m.cur)
	case 'A':
		e.AddAt(s, o.n)
		add(s, o.n)
	case 'B':
		e.AddBytesAt([]byte(s), o.n)
		add([]byte(s), o.n)
	case '>':
		e.Inc()
		m.cur++
	case '<':
		e.Dec()
		if m.cur > 0 {
			m.cur--
		}
	case 'l':
		e.SetLevel(o.n)
		m.cur = o.n
	case 'x':
		e.Delete()
		if n := len(m.it); n > 0 {
			m.it, m.lv = m.it[:n-1], m.lv[:n-1]
		}
	case 'T':
		if m.valid() {
			g := e.Tree()
			if got, want := evStr(g), m.tree(); got != want {
				c.Differ(hist(), got, want)
			}
			// what is done to a tree does not reach the builder
			for _, n := range g.Out {
				n.Add("polluted")
				n.This = "polluted"
			}
			g.Clear()
		}
	}
	if e.Level() != m.cur {
		c.Failf("%s: level %d, want %d", hist(), e.Level(), m.cur)
	}
	return true
}

func (m *evm) final(c *C, e *ogdl.SimpleEventHandler, hist func() string) {
	if !m.valid() {
		return
	}
	want := m.tree()
	for i := 0; i < 2; i++ {
		g := e.Tree()
		if got := evStr(g); got != want {
			c.Differ(fmt.Sprintf("%s, tree %d", hist(), i+1), got, want)
		}
		if s := Owned(g); s != "" {
			c.Failf("%s, tree %d: %s in %s", hist(), i+1, s, want)
		}
	}
	if len(m.it) <= 3 {
		c.State(want)
	}
}

func c32run(c *C, ops []evop, label func(int) string) {
	e, m := &ogdl.SimpleEventHandler{}, &evm{}
	i := 0
	hist := func() string { return fmt.Sprint(ops[:min(i+1, len(ops))]) }
	for ; i < len(ops); i++ {
		m.do(c, e, ops[i], label, hist)
	}
	m.final(c, e, hist)
}

var c32labels = []func(int) string{
	func(i int) string { return "n" + strconv.Itoa(i) },
	func(i int) string { return []string{"", "x"}[i%2] },
}

var c32 = &Prop{
	ID:     "C32",
	Rule:   "every sequence of builder events up to a length over an alphabet of 15 (add text, bytes, other values, at the current and at explicit levels, level up, down, set, delete last, tree in between), and longer ones over smaller alphabets; each followed by building the tree twice; compared with a list of (level, content) of the nodes that remain. Sequences that place a node more than one level below its predecessor are run but not judged. Sweeps: depths, widths and zigzags up to thousands; the same events through a Parser.",
	Bounds: "quick: 15 events to length 5, 8 to length 7, 4 to length 9; thorough: 6, 8, 11",
	Gen: func(thorough bool, emit func(string)) {
		n := []int{5, 7, 9}
		if thorough {
			n = []int{6, 8, 11}
		}
		emit("p")
		for _, k := range append(sweep(thorough), vast...) {
			emit(fmt.Sprintf("w %d", k))
		}
		for s, ops := range c32sets {
			for l := 0; l <= n[s]; l++ {
				if l < 3 {
					emit(fmt.Sprintf("s %d - %d", s, l))
					continue
				}
				Seqs(len(ops), 2, func(ix []int) { emit(fmt.Sprintf("s %d %s %d", s, JoinInts(ix, ","), l-2)) })
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'p':
			Seqs(4, 7, func(ix []int) {
				p := ogdl.NewStringParser("")
				m := &evm{}
				for _, i := range ix {
					switch i {
					case 0, 1:
						s := []string{"a", "b"}[i]
						p.Emit(s)
						m.it, m.lv = append(m.it, s), append(m.lv, m.cur)
					case 2:
						p.Inc()
						m.cur++
					case 3:
						p.Dec()
						m.cur = max(m.cur-1, 0)
					}
				}
				c.Step(1)
				if !m.valid() {
					return
				}
				if got := evStr(p.Handler().Tree()); got != m.tree() {
					c.Differ(fmt.Sprint("parser events ", ix), got, m.tree())
				}
				g := p.Graph()
				want := m.tree()
				if len(m.it) == 0 {
					if g.Len() != 0 {
						c.Failf("no events: a graph with %d nodes", g.Len())
					}
				} else if got := evStr(g); got != want {
					c.Differ(fmt.Sprint("parser events, Graph() ", ix), got, want)
				}
			})
		case 'w':
			n, _ := strconv.Atoi(f[1])
			var a, b, d, e, h []evop
			for i := 0; i < n; i++ {
				a = append(a, evop{'a', 0}, evop{'>', 0})
				b = append(b, evop{'a', 0})
				d = append(d, evop{'A', i})
				e = append(e, evop{'l', i}, evop{'b', 0})
				h = append(h, evop{'a', 0}, evop{"><"[i&1], 0}, evop{'a', 0}, evop{'x', 0})
			}
			for i := 0; i < n; i++ {
				a = append(a, evop{'<', 0}, evop{'a', 0})
				d = append(d, evop{'B', n - 1 - i})
				if i&1 == 0 {
					e = append(e, evop{'x', 0})
				}
			}
			if n > 3000 {
				a, d, e = nil, nil, nil
			}
			for i, s := range [][]evop{a, b, d, e, h} {
				e, m := &ogdl.SimpleEventHandler{}, &evm{}
				hist := func() string { return fmt.Sprintf("sequence %d of size %d", i, n) }
				for _, o := range s {
					m.do(c, e, o, c32labels[0], hist)
				}
				// what was deepest may have been deleted
				if len(m.lv) < 1500 || i == 1 || i == 4 {
					m.final(c, e, hist)
				} else if m.valid() && e.Tree() == nil {
					c.Failf("%s: no tree", hist())
				}
			}
		default:
			s, _ := strconv.Atoi(f[1])
			l, _ := strconv.Atoi(f[3])
			var pre []evop
			if f[2] != "-" {
				for _, i := range Ints(f[2], ",") {
					pre = append(pre, c32sets[s][i])
				}
			}
			labels := c32labels
			if len(pre)+l > 4 {
				labels = labels[:1]
			}
			for _, lab := range labels {
				Seqs(len(c32sets[s]), l, func(ix []int) {
					ops := pre[:len(pre):len(pre)]
					for _, i := range ix {
						ops = append(ops, c32sets[s][i])
					}
					c32run(c, ops, lab)
				})
			}
		}
	},
}
