package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// pe is an element of a path: n (name), i (index), s (selector {n}), a (selector {})
type pe struct {
	k    byte
	name string
	ix   int
	text string // as written, if not the canonical form
}

func (e pe) str() string {
	if e.text != "" {
		return e.text
	}
	switch e.k {
	case 'n':
		return e.name
	case 'i':
		return "[" + strconv.Itoa(e.ix) + "]"
	case 's':
		return "{" + strconv.Itoa(e.ix) + "}"
	}
	return "{}"
}

func pathText(p []pe, dots bool) string {
	s := ""
	for i, e := range p {
		if i > 0 && (e.k == 'n' || dots) {
			s += "."
		}
		s += e.str()
	}
	return s
}

// target is what a path addresses: nothing, a node, or the children of nodes
type target struct {
	ok   bool
	node *ogdl.Graph
	kids []*ogdl.Graph
	hold bool // the result is a new root that holds kids
}

func (t target) out() []*ogdl.Graph {
	if t.hold {
		return t.kids
	}
	return t.node.Out
}

// follow is the model of path lookup
func follow(g *ogdl.Graph, p []pe) target {
	cur := target{ok: true, node: g}
	var before target
	var name string
	for i, e := range p {
		last := i == len(p)-1
		switch e.k {
		case 'n':
			before, name = cur, e.name
			found := false
			for _, n := range cur.out() {
				if n != nil && Str(n.This) == e.name {
					cur = target{ok: true, node: n}
					found = true
					break
				}
			}
			if !found {
				return target{}
			}
		case 'i':
			o := cur.out()
			if e.ix < 0 || e.ix >= len(o) {
				return target{}
			}
			if last {
				return target{ok: true, hold: true, kids: o[e.ix : e.ix+1]}
			}
			cur = target{ok: true, node: o[e.ix]}
		case 'a', 's':
			r := target{ok: true, hold: true}
			n := 0
			found := false
			for _, k := range before.out() {
				if Str(k.This) != name {
					continue
				}
				if e.k == 'a' || n == e.ix {
					r.kids = append(r.kids, k.Out...)
					found = true
				}
				n++
			}
			if !found {
				return target{}
			}
			cur = r
		}
	}
	return cur
}

// is checks that r is what t says
func (t target) is(r *ogdl.Graph) string {
	if !t.ok {
		if r != nil {
			return "got " + GFull(r) + ", want nothing"
		}
		return ""
	}
	if r == nil {
		return "got nothing, want " + t.show()
	}
	if !t.hold {
		if r != t.node {
			return "got another node: " + GFull(r) + ", want " + t.show()
		}
		return ""
	}
	if len(r.Out) != len(t.kids) {
		return "got " + GFull(r) + ", want " + t.show()
	}
	for i := range t.kids {
		if r.Out[i] != t.kids[i] {
			return "got other nodes: " + GFull(r) + ", want " + t.show()
		}
	}
	return ""
}

func (t target) show() string {
	if t.hold {
		return "the nodes " + GStr(&ogdl.Graph{Out: t.kids})
	}
	return "the node " + GFull(t.node)
}

// value is the expected result of evaluating a path that addresses t
func (t target) value() (interface{}, bool) {
	o := t.out()
	if len(o) == 1 && len(o[0].Out) == 0 {
		return o[0].This, true
	}
	return nil, false
}

// isValue checks the result of an evaluation
func (t target) isValue(v interface{}) string {
	g, isG := v.(*ogdl.Graph)
	if !t.ok {
		if v == nil || isG && g == nil {
			return ""
		}
		return fmt.Sprintf("got %v, want nothing", v)
	}
	if s, ok := t.value(); ok {
		if Content(v) != Content(s) {
			return "got " + Content(v) + ", want " + Content(s)
		}
		return ""
	}
	if !isG {
		return "got " + Content(v) + ", want " + t.show()
	}
	return t.is(g)
}

func (t target) text() string {
	if !t.ok {
		return ""
	}
	if s, ok := t.value(); ok {
		return Str(s)
	}
	return (&ogdl.Graph{Out: t.out()}).Text()
}

type ppath struct {
	els       []pe
	text      string
	path      *ogdl.Graph
	expr, tpl *ogdl.Graph
}

func newPpath(p []pe, dots bool) *ppath {
	r := &ppath{els: p, text: pathText(p, dots)}
	r.path = ogdl.NewPath(r.text)
	if c := r.text[0]; c >= 'a' && c <= 'z' {
		r.expr = ogdl.NewExpression(r.text)
		switch p[0].str() {
		case "if", "for", "else", "elseif", "end", "break": // directives in a template
		default:
			r.tpl = ogdl.NewTemplate("<$" + r.text + ">")
		}
	}
	return r
}

func c11paths(names []string, n int) []*ppath {
	var els []pe
	for _, s := range names {
		els = append(els, pe{k: 'n', name: s})
	}
	els = append(els, pe{k: 'i', ix: 0}, pe{k: 'i', ix: 1}, pe{k: 'i', ix: 2}, pe{k: 'a'}, pe{k: 's', ix: 0}, pe{k: 's', ix: 1})
	var r []*ppath
	for k := 1; k <= n; k++ {
		Seqs(len(els), k, func(ix []int) {
			p := make([]pe, k)
			dot := false
			for i, j := range ix {
				p[i] = els[j]
				if p[i].k == 'a' || p[i].k == 's' {
					if i == 0 || p[i-1].k != 'n' {
						return
					}
				}
				if i > 0 && p[i].k != 'n' {
					dot = true
				}
			}
			r = append(r, newPpath(p, false))
			if dot && k <= 3 {
				r = append(r, newPpath(p, true))
			}
		})
	}
	return r
}

var c11p = map[string][]*ppath{}

// c11held is a list of nodes that a lookup gave
type c11held struct {
	what string
	r    *ogdl.Graph
	kids []*ogdl.Graph
}

// c11lists edits each list of nodes that the lookups in g gave: the lists are
// the caller's, the nodes in them are those of g
func c11lists(c *C, g *ogdl.Graph, held []c11held) {
	before := GTyped(g)
	mark := ogdl.New("mark")
	for _, h := range held {
		h.r.Out = append(h.r.Out, mark)
	}
	all := nodes(g, nil)
	for _, n := range all {
		n.Out = append(n.Out, ogdl.New("new"))
	}
	for _, h := range held {
		if len(h.r.Out) != len(h.kids)+1 || h.r.Out[len(h.kids)] != mark {
			c.Failf("the list that %s gave and to which a node was added is another one after adding a node to each node of the graph, in %s", h.what, GStr(g))
		}
		for i, n := range h.kids {
			if h.r.Out[i] != n {
				c.Failf("the list that %s gave has another node at %d after an edit of the graph %s", h.what, i, GStr(g))
			}
		}
		for i := range h.r.Out {
			h.r.Out[i] = mark
		}
	}
	for _, n := range all {
		n.Out = n.Out[:len(n.Out)-1]
	}
	c.Eq("the graph after edits of the lists that lookups gave", GTyped(g), before)
}

func c11check(c *C, g *ogdl.Graph, p *ppath) []c11held {
	c.Step(1)
	t := follow(g, p.els)
	show := func() string { return fmt.Sprintf(" in %s", GStr(g)) }
	var held []c11held
	r := g.Get(p.text)
	if m := t.is(r); m != "" {
		c.Failf("Get(%s)%s: %s", p.text, show(), m)
	} else if t.ok && t.hold {
		held = append(held, c11held{"Get(" + p.text + ")", r, t.kids})
	}
	v, _ := g.Eval(p.path)
	if l, is := v.(*ogdl.Graph); is && t.ok && t.hold && l != nil {
		held = append(held, c11held{"Eval(NewPath(" + p.text + "))", l, t.kids})
	}
	if m := t.isValue(v); m != "" {
		c.Failf("Eval(NewPath(%s))%s: %s", p.text, show(), m)
	}
	s, err := g.GetString(p.text)
	if !t.ok {
		if err == nil {
			c.Failf("GetString(%s)%s: %q without an error", p.text, show(), s)
		}
	} else if o := t.out(); len(o) > 0 && (err != nil || s != Str(o[0].This)) {
		c.Failf("GetString(%s)%s: %q, %v; want %q", p.text, show(), s, err, Str(o[0].This))
	}
	if p.expr != nil {
		v, _ := g.Eval(p.expr)
		if m := t.isValue(v); m != "" {
			c.Failf("expression %s%s: %s", p.text, show(), m)
		}
		if p.tpl == nil {
			return held
		}
		if s, want := string(p.tpl.Process(g)), "<"+t.text()+">"; s != want {
			c.Failf("template $%s%s: %q, want %q", p.text, show(), s, want)
		}
	}
	return held
}

// labels of the graphs of each kind
var c11labels = map[byte][]interface{}{'g': {"a", "b"}, 't': {"a", int64(1)}, 'b': {true, []byte("a")}, 'n': {nil, "a"}, 'y': {"a", []byte("a")}, 's': {"1", int64(1)}}

// c11made: graphs of strings that come from elsewhere (a parser, a clone, the
// binary format, the event builder) or have been longer before
const c11made = "PCBVDEF"

func c11graph(lv []int, lab string, kind byte) *ogdl.Graph {
	root := ogdl.New("_")
	if strings.IndexByte(c11made, kind) >= 0 {
		g := c11graph(lv, lab, 'g')
		switch kind {
		case 'P':
			var b strings.Builder
			for i, l := range lv {
				b.WriteString(strings.Repeat("  ", l) + "ab"[lab[i]-'0':][:1] + "\n")
			}
			return ogdl.FromString(b.String())
		case 'C':
			return g.Clone()
		case 'B':
			return ogdl.FromBinary(g.Binary())
		case 'V':
			var h ogdl.SimpleEventHandler
			for i, l := range lv {
				h.AddAt("ab"[lab[i]-'0':][:1], l)
			}
			return h.Tree()
		default:
			for _, n := range nodes(g, nil) {
				had := n.Out
				n.Out = nil
				if kind == 'E' {
					n.Add("a").Add("b")
					n.Add("b")
				}
				for _, k := range had {
					n.Add(k)
				}
				switch kind {
				case 'D':
					n.Add("a").Add("old")
					n.Add("old").Add("a")
					n.Add("b").Add("a").Add("old")
					n.Add("z")
					for n.Len() > len(had) {
						n.DeleteAt(len(had))
					}
				case 'E':
					n.DeleteAt(0)
					n.DeleteAt(0)
				case 'F':
					n.Add("_").Add("a").Add("b")
					n.Add("_")
					n.Add("_").Add("b")
					n.Delete("_")
				}
			}
			return g
		}
	}
	stack := []*ogdl.Graph{root}
	for i, l := range lv {
		stack = stack[:l+1]
		n := &ogdl.Graph{This: c11labels[kind][lab[i]-'0']}
		stack[l].Out = append(stack[l].Out, n)
		stack = append(stack, n)
	}
	return root
}

var c11names = []string{"", "a", " a", "a ", "A", "aa", "_", "_a", "a1", "1", "10", "é", "日本", "a b", " ", "a.b", ".", "a-b", "[0]", "{}", "(a)", "a,b", "'", "\"", "a'b", "it\"s", "\n", "a\nb", "#", "# x", "$a", "\\x", "true", "false", "nil", "if", "len", "x_len", "+", "==", "-1", "1.5", "a=b", "\t", "~", "/", "€uro", "[", "{", "_thi", "this"}

func quoteName(s string) []string {
	var r []string
	for _, q := range []string{"\"", "'", "`"} {
		if strings.Contains(s, "\\") {
			if !strings.HasSuffix(s, "\\") && !strings.Contains(s, q) {
				r = append(r, q+s+q)
			}
			continue
		}
		if q == "`" && strings.Contains(s, "`") {
			continue
		}
		r = append(r, q+strings.ReplaceAll(s, q, "\\"+q)+q)
	}
	return r
}

func plainName(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c > 127 && c != '€') {
			return false
		}
	}
	return s != ""
}

// c11name looks p up, unless a selector follows the empty name
func c11name(c *C, g *ogdl.Graph, p []pe) {
	for i := range p {
		if i > 0 && p[i-1].k == 'n' && p[i-1].name == "" && (p[i].k == 's' || p[i].k == 'a') {
			return
		}
	}
	c11check(c, g, newPpath(p, false))
}

var c11 = &Prop{
	ID:     "C11",
	Rule:   "every graph of up to N nodes over 2 labels (repeated names; also integer, boolean, byte and missing contents) x every path of up to M elements over names, [0] [1] [2], {} {0} {1} (with and without the optional dots): Get, Eval, GetString, the same path in an expression and in a template, compared by node identity with a step by step model. Plus every pair of 48 names written plain and in 3 kinds of quotes; computed indexes; every index around the end of wide graphs; depth and width sweeps. The lists that lookups gave are edited, and the graph too, and each must be independent of the other. Indexes in lists of up to 100001 nodes.",
	Bounds: "quick: N=4 M=4, N=5 M=3; thorough: N=5 M=4, N=6 M=3; widths and depths to 300",
	Assume: []string{"selectors are used right after a name", "names that begin with ! and the documented pseudo names (_len, _this, _thisString, _string, _json) are not looked up"},
	Init: func() {
		for _, m := range []int{3, 4} {
			c11p["g"+strconv.Itoa(m)] = c11paths([]string{"a", "b"}, m)
			c11p["t"+strconv.Itoa(m)] = c11paths([]string{"a", "1"}, m)
		}
		c11p["b3"] = c11paths([]string{"true", "a"}, 3)
		c11p["n3"] = c11paths([]string{"a", "b"}, 3)
	},
	Gen: func(thorough bool, emit func(string)) {
		kinds := func(n, m int, kind string) {
			for k := 0; k <= n; k++ {
				Shapes(k, func(lv []int) {
					Strings([]string{"0", "1"}, k, k, func(l string) { emit(fmt.Sprintf("%s%d %s %s", kind, m, JoinInts(lv, ","), l)) })
				})
			}
		}
		emit("x")
		for i := range c11names {
			for j := range c11names {
				emit(fmt.Sprintf("q %d %d", i, j))
			}
		}
		for _, n := range append(sweep(false), vast...) {
			if n > 40 && n < 254 || n > 260 && n != 1025 && n < 10000 && !(thorough && n <= 3000) {
				continue
			}
			emit(fmt.Sprintf("w %d", n))
			if n < 10000 {
				emit(fmt.Sprintf("d %d", n))
			}
		}
		kinds(4, 4, "g")
		kinds(4, 3, "t")
		kinds(4, 3, "b")
		kinds(4, 3, "n")
		kinds(5, 3, "g")
		if thorough {
			kinds(5, 4, "g")
			kinds(5, 4, "t")
			kinds(6, 3, "g")
			kinds(5, 3, "n")
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'g', 't', 'b', 'n':
			g := c11graph(Ints(f[1], ","), f[2], desc[0])
			before := GTyped(g)
			c.State(before)
			var held []c11held
			for _, p := range c11p[f[0]] {
				held = append(held, c11check(c, g, p)...)
			}
			c.Eq("the graph after the lookups", GTyped(g), before)
			c11lists(c, g, held)
		case 'q':
			i, _ := strconv.Atoi(f[1])
			j, _ := strconv.Atoi(f[2])
			n1, n2 := c11names[i], c11names[j]
			g := ogdl.New("_")
			g.Add("z").Add("1")
			x := g.Add(n1)
			x.Add("z").Add("2")
			x.Add(n2).Add("3")
			x.Add(n2).Add("4")
			g.Add(n2).Add(n1).Add("5")
			g.Add(n1).Add(n2).Add("6")
			f1, f2 := quoteName(n1), quoteName(n2)
			if plainName(n1) {
				f1 = append(f1, n1)
			}
			if plainName(n2) {
				f2 = append(f2, n2)
			}
			for _, a := range f1 {
				for _, b := range f2 {
					e1, e2 := pe{k: 'n', name: n1, text: a}, pe{k: 'n', name: n2, text: b}
					z := pe{k: 'n', name: "z"}
					for _, p := range [][]pe{{e1}, {e1, e2}, {e2, e1}, {e1, z}, {z, e1}, {e1, {k: 'i', ix: 2}}, {e1, {k: 'i', ix: 1}, e2}, {e1, e2, {k: 's', ix: 1}}, {e1, e2, {k: 'a'}}, {{k: 'i', ix: 1}, e2}, {e1, {k: 's', ix: 1}, e2}, {e1, {k: 'a'}, z}, {e1, e2, e1}} {
						c11name(c, g, p)
					}
					// in an expression after a plain element
					for _, p := range [][]pe{{{k: 'n', name: "z"}, e1}, {{k: 'n', name: "w"}, e1, e2}} {
						h := ogdl.New("_")
						h.Add("w").AddNodes(g)
						h.Add("z").AddNodes(g)
						c11name(c, h, p)
					}
				}
			}
			// names that an expression gives
			if n1 == "" || n2 == "" {
				return
			}
			g.Add("k1").Add(n1)
			g.Add("k2").Add(n2)
			g.Add("kk").Add("k").Add(n2)
			for _, x := range append(quoteName(n1), "k1", " k1 ", "(k1)") {
				x1 := pe{k: 'n', name: n1, text: "(" + x + ")"}
				z := pe{k: 'n', name: "z"}
				for _, y := range append(quoteName(n2), "k2", "kk.k", "''+k2") {
					if y == "''+k2" && (n1 == n2 || !plainName(n2)) {
						continue
					}
					x2 := pe{k: 'n', name: n2, text: "(" + y + ")"}
					for _, p := range [][]pe{{z, x1}, {z, x1, x2}, {{k: 'i', ix: 1}, x2}, {{k: 'i', ix: 1}, x2, {k: 's', ix: 1}}, {{k: 'i', ix: 1}, x2, {k: 'a'}}, {{k: 'i', ix: 2}, x1}, {{k: 'i', ix: 3}, x1, x2}} {
						c11check(c, g, newPpath(p, false))
					}
				}
			}
		case 'w':
			n, _ := strconv.Atoi(f[1])
			g := ogdl.New("_")
			a := g.Add("a")
			i := g.Add("i").Add(int64(0))
			for j := 0; j < n; j++ {
				a.Add("k" + strconv.Itoa(j)).Add(int64(j))
				a.Add("s").Add("v" + strconv.Itoa(j)).Add(j)
			}
			A := pe{k: 'n', name: "a"}
			S := pe{k: 'n', name: "s"}
			held := c11check(c, g, newPpath([]pe{A, S, {k: 'a'}}, false))
			c11lists(c, g, append(held, c11check(c, g, newPpath([]pe{A, S, {k: 'a'}, {k: 'i', ix: n - 1}}, false))...))
			for j := 0; j <= 2*n+1; j++ {
				if n > 40 && j > 12 && j < n-2 && j != 255 && j != 256 || n > 1025 && j > 0 && j < n-1 && j != 32768 && j != 65536 || n > 1025 && j > n && j < 2*n {
					continue
				}
				i.This = int64(j)
				c11check(c, g, newPpath([]pe{A, {k: 'n', name: "k" + strconv.Itoa(j)}}, false))
				for _, t := range []string{"", "[i]", "[i+0]", "[ " + strconv.Itoa(j) + " ]", "[1*i]", "[(i)]"} {
					x := pe{k: 'i', ix: j, text: t}
					c11check(c, g, newPpath([]pe{A, x}, false))
					c11check(c, g, newPpath([]pe{A, x, {k: 'i', ix: 0}}, false))
				}
				for _, t := range []string{"", "{i}", "{i+0}", "{ " + strconv.Itoa(j) + " }"} {
					x := pe{k: 's', ix: j, text: t}
					c11check(c, g, newPpath([]pe{A, S, x}, false))
					c11check(c, g, newPpath([]pe{A, S, x, {k: 'i', ix: 0}}, false))
					c11check(c, g, newPpath([]pe{A, S, x, {k: 'n', name: "v" + strconv.Itoa(j)}}, false))
				}
			}
		case 'd':
			n, _ := strconv.Atoi(f[1])
			g := ogdl.New("_")
			var p, p2 []pe
			at := g
			for j := 0; j < n; j++ {
				at.Add("x")
				at = at.Add("n" + strconv.Itoa(j%7))
				p = append(p, pe{k: 'n', name: "n" + strconv.Itoa(j%7)})
				p2 = append(p2, pe{k: 'i', ix: 1})
			}
			at.Add("y").Add("z")
			for _, k := range []int{0, 1, n / 2, n - 1} {
				if k < 0 || k >= n {
					continue
				}
				c11check(c, g, newPpath(p[:k+1], false))
				c11check(c, g, newPpath(p2[:k+1], false))
				q := append(append([]pe{}, p...), pe{k: 'n', name: "y"})
				c11check(c, g, newPpath(q, false))
				q[k] = pe{k: 'i', ix: 1}
				c11check(c, g, newPpath(q, false))
				q[k] = pe{k: 'n', name: "missing"}
				c11check(c, g, newPpath(q, false))
				q[k] = pe{k: 'i', ix: 2}
				c11check(c, g, newPpath(q, false))
			}
		case 'x':
			// elements that denote nothing
			g := ogdl.FromString("a\n  b\n    c\n  d\n    e\na\n  f\n    g\ni 1\ns x\n")
			for _, p := range []string{"a[-1]", "a[-1].c", "a[0-1]", "a[99999999999999999999]", "a[9223372036854775807]", "a[2]", "a[1000].x", "a{2}", "a{1000}.f", "z{}", "z{0}", "z[0]", "a.z{}", "a.z[0].b", "a[s]", "a['x']", "a[zz]", "i.1.2", "a.b.c.d", "a[0].d", "[5]", "[5].a", "a.b.c[0]", "a{9223372036854775806}"} {
				c.Step(1)
				if r := g.Get(p); r != nil {
					c.Failf("Get(%s): got %s, want nothing", p, GFull(r))
				}
			}
		}
	},
}
