package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

type readOp struct {
	name string
	f    func(g *ogdl.Graph) string
}

func show(v interface{}) string {
	switch x := v.(type) {
	case *ogdl.Graph:
		if x == nil {
			return "nil graph"
		}
		return GTyped(x)
	case error:
		return "error"
	case reflect.Value:
		if !x.IsValid() {
			return "invalid"
		}
		return Content(x.Interface())
	}
	return Content(v)
}

// parsed things used by the reads; they must not change either
type c15inputs struct {
	in []*ogdl.Graph
	as []string
}

var c15in c15inputs

func (x *c15inputs) add(g *ogdl.Graph) *ogdl.Graph {
	x.in = append(x.in, g)
	x.as = append(x.as, GTyped(g))
	return g
}

func (x *c15inputs) changed() string {
	for i, g := range x.in {
		if s := GTyped(g); s != x.as[i] {
			return "got " + s + ", was " + x.as[i]
		}
	}
	return ""
}

// readOps makes all operations that only read
func readOps() []readOp {
	var ops []readOp
	op := func(name string, f func(g *ogdl.Graph) string) { ops = append(ops, readOp{name, f}) }
	op("Len", func(g *ogdl.Graph) string { return show(g.Len()) })
	op("Text", func(g *ogdl.Graph) string { return g.Text() })
	op("Show", func(g *ogdl.Graph) string { return g.Show() })
	op("Binary", func(g *ogdl.Graph) string { return string(g.Binary()) })
	op("JSON", func(g *ogdl.Graph) string { return string(g.JSON()) })
	op("Html", func(g *ogdl.Graph) string { return g.Html("/p") })
	op("Clone", func(g *ogdl.Graph) string { return show(g.Clone()) })
	op("ThisType", func(g *ogdl.Graph) string { return g.ThisType() })
	op("Interface", func(g *ogdl.Graph) string { return show(g.Interface()) })
	op("Scalar", func(g *ogdl.Graph) string { return show(g.Scalar()) + show(g.ThisScalar()) })
	op("Number", func(g *ogdl.Graph) string { return show(g.Number()) + show(g.ThisNumber()) })
	op("Int64", func(g *ogdl.Graph) string { a, b := g.ThisInt64(); return fmt.Sprint(g.Int64(5), a, b) })
	op("Float64", func(g *ogdl.Graph) string { a, b := g.ThisFloat64(); return fmt.Sprint(g.Float64(), a, b) })
	op("Bool", func(g *ogdl.Graph) string { return fmt.Sprint(g.Bool(), g.Bool(true)) })
	op("String", func(g *ogdl.Graph) string { return g.String("d") + "|" + g.ThisString("e") })
	op("Strings", func(g *ogdl.Graph) string { return fmt.Sprintf("%q %d", g.Strings(), len(g.Strings())) })
	op("StringCSV", func(g *ogdl.Graph) string { return g.StringCSV() + "|" + g.StringTxt() })
	op("Bytes", func(g *ogdl.Graph) string { return string(g.Bytes()) + "|" + string(g.ThisBytes()) })
	op("Value", func(g *ogdl.Graph) string { return show(g.Value()) + show(g.ThisValue()) })
	op("Find", func(g *ogdl.Graph) string { r, err := g.Find("a|1"); return show(r) + show(err) })
	op("Find2", func(g *ogdl.Graph) string {
		r, _ := g.Find(".*")
		r.Add("x")
		r.DeleteAt(0)
		return show(r)
	})
	for _, n := range []string{"a", "b", "1", "", "zz"} {
		n := n
		op("Node("+n+")", func(g *ogdl.Graph) string { return show(g.Node(n)) })
	}
	for _, i := range []int{-1, 0, 1, 9} {
		i := i
		op(fmt.Sprintf("GetAt(%d)", i), func(g *ogdl.Graph) string { return show(g.GetAt(i)) })
	}
	for _, p := range []string{"a", "b.a", "[0]", "[1].a", "a{}", "a{1}", "b{0}", "a[0]", "zz", "zz.a", "[9]", "a.a.a", "f(1)", "'a'.b", "a{}[0]"} {
		p := p
		op("Get("+p+")", func(g *ogdl.Graph) string {
			s, e1 := g.GetString(p)
			b, e2 := g.GetBytes(p)
			i, e3 := g.GetInt64(p)
			fl, e4 := g.GetFloat64(p)
			t, e5 := g.GetBool(p)
			return show(g.Get(p)) + fmt.Sprint(s, e1 != nil, b, e2 != nil, i, e3 != nil, fl, e4 != nil, t, e5 != nil)
		})
		path := c15in.add(ogdl.NewPath(p))
		op("Eval path "+p, func(g *ogdl.Graph) string { v, err := g.Eval(path); return show(v) + fmt.Sprint(err != nil) })
	}
	for _, x := range []string{"a", "1+2*3", "a+1", "a==b", "!(a>1)", "(a+1)*2", "'x'+'y'", "a && b", "-a", "b[0]+b[0+1]", "f(a, 2)", "x.a(b)", "a.(b)", "[1]", "b{}", "zz+1"} {
		e := c15in.add(ogdl.NewExpression(x))
		op("Eval "+x, func(g *ogdl.Graph) string { v, err := g.Eval(e); return show(v) + fmt.Sprint(err != nil) })
	}
	for _, x := range []string{"$a text $b", "$if(a)yes$a$else no$b$end", "$if(a==1)1$elseif(b)2$else 3$end$a[0]$b{}", "$if('a'=='a')$if(b)x$break$end$end $zz", "$(a+1)$(b)$f(1)", "\\$ $\\ ${a}"} {
		t := c15in.add(ogdl.NewTemplate(x))
		op("Process "+x, func(g *ogdl.Graph) string { return string(t.Process(g)) })
	}
	for _, x := range []string{"a", "a 1\nb", "!string !int\nb", "!int", "!float\n!bool", "!binary"} {
		s := c15in.add(ogdl.FromString(x))
		op("Check "+strings.Replace(x, "\n", ";", -1), func(g *ogdl.Graph) string { b, m := s.Check(g); return fmt.Sprint(b, m) })
		op("Schema for "+strings.Replace(x, "\n", ";", -1), func(g *ogdl.Graph) string { b, m := g.Check(s); return fmt.Sprint(b, m) })
		op("Equals", func(g *ogdl.Graph) string { return fmt.Sprint(g.Equals(s), s.Equals(g), g.Equals(g.Clone())) })
		op("Copy from", func(g *ogdl.Graph) string { r := ogdl.New("_"); r.Copy(g); r.Merge(g); r.AddNodes(g); return show(r) })
	}
	return ops
}

var c15ops []readOp

// graphs with everything
var c15graphs = func() []*ogdl.Graph {
	r := c05ctxs()[1:]
	x := ogdl.New("_")
	x.Add("a").Add(1)
	b := x.Add("b")
	b.Add(int64(2)).Add(float32(1.5))
	b.Add("a").Add([]byte("bytes"))
	x.Add("f").Add(func(a, b int64) int64 { return a + b })
	x.Add("x").Add(&c05T{})
	x.Add("a").Add("second").Add("deep").Add(true)
	x.Add("").Add("hidden")
	r = append(r, x)
	y := ogdl.New("root")
	y.Add("a").Add("true")
	y.Add("b").Add("a b\n\"c\"")
	y.Out = append(y.Out, &ogdl.Graph{}, &ogdl.Graph{Out: []*ogdl.Graph{{This: "in"}}})
	r = append(r, y)
	z := ogdl.New(nil)
	z.Add(int64(1)).Add(int64(1))
	z.Add(false).Add(true)
	z.Add([]byte("a")).Add("_").Add("_")
	r = append(r, z)
	return r
}()

// c15big makes a graph of n nodes: wide, wide with equal names, deep, or with long contents
func c15big(kind, n int) *ogdl.Graph {
	g := ogdl.New("_")
	at := g
	for i := 0; i < n; i++ {
		s := "k" + strconv.Itoa(n-i)
		switch kind {
		case 0:
			g.Add(s).Add(i)
		case 1:
			g.Add("ab"[i%2 : i%2+1]).Add(strconv.Itoa(i)).Add("a")
		case 2:
			at = at.Add(s)
		default:
			g.Add(strings.Repeat("a", i) + "b").Add([]byte(strings.Repeat("x ", i)))
		}
	}
	return g
}

func c15at(i int) []readOp {
	k := "k" + strconv.Itoa(i+1)
	b := strings.Repeat("a", i) + "b"
	return []readOp{
		{"Node", func(g *ogdl.Graph) string { return show(g.Node(k)) + show(g.Node(b)) }},
		{"GetAt", func(g *ogdl.Graph) string { return show(g.GetAt(i)) }},
		{"Get", func(g *ogdl.Graph) string {
			return show(g.Get(k)) + show(g.Get("a{"+strconv.Itoa(i)+"}")) + show(g.Get("["+strconv.Itoa(i)+"]")) + g.Get(b).String()
		}},
		{"Find", func(g *ogdl.Graph) string { r, err := g.Find("^" + k + "$"); return show(r) + show(err) }},
		{"Process", func(g *ogdl.Graph) string {
			return string(ogdl.NewTemplate("$" + k + " $if(" + k + "==1)x$end").Process(g))
		}},
	}
}

func c15seq(c *C, mk func() *ogdl.Graph, ops []readOp) {
	g := mk()
	// spare capacity, as after deletions, so that a hidden append is seen
	for _, n := range nodes(g, nil) {
		o := make([]*ogdl.Graph, len(n.Out)+2)
		copy(o, n.Out)
		n.Out = o[:len(n.Out)]
	}
	P := newPM()
	m := P.from(g)
	was := GTyped(g)
	hist := ""
	for _, op := range ops {
		hist += " " + op.name
		c.Step(1)
		got := op.f(g)
		if s := P.same(m, g); s != "" {
			c.Failf("%s:%s changes the graph: %s; now %s", was, hist, s, GTyped(g))
		}
		for _, n := range nodes(g, nil) {
			for _, x := range n.Out[len(n.Out) : len(n.Out)+2] {
				if x != nil {
					c.Failf("%s:%s writes behind the children of %s", was, hist, GTyped(n))
				}
			}
		}
		h := mk()
		if want := op.f(h); got != want {
			c.Failf("%s:%s gives %q, alone %q", was, hist, got, want)
		}
	}
	if s := c15in.changed(); s != "" {
		c.Failf("%s:%s changes a path, expression, template or schema: %s", was, hist, s)
	}
}

var c15 = &Prop{
	ID:      "C15",
	Rule:    "every graph of up to N nodes over typed contents, and 10 rich graphs (functions, objects, bytes, missing contents, repeated names), x every sequence of 1 and 2 of 100 read operations (all accessors, lookups, searches, comparisons, checks, emitters, evaluation and rendering of parsed paths, expressions and templates, as source of copies): the graph (contents with types, order, node identities) and the parsed inputs are as before, and every answer is the one of a fresh graph.",
	Bounds:  "quick: N=3 single operations and pairs on the rich graphs; thorough: N=4, pairs on N=2, triples over 30 operations",
	Workers: 1,
	Init:    func() { c15ops = readOps() },
	Gen: func(thorough bool, emit func(string)) {
		for i := range c15graphs {
			emit("r " + strconv.Itoa(i) + " 2")
		}
		for _, k := range []int{5, 9, 17, 33, 65, 129, 257, 1025} {
			for j := 0; j < 4; j++ {
				if thorough || k <= 129 || k <= 257 && j > 1 {
					emit(fmt.Sprintf("b %d %d 1", j, k))
				}
			}
		}
		n := 3
		if thorough {
			n = 4
		}
		cs := []int{0, 2, 4, 9}
		for k := 0; k <= n; k++ {
			Shapes(k, func(lv []int) {
				Seqs(len(cs), k, func(ix []int) {
					jx := make([]int, k)
					for i := range ix {
						jx[i] = cs[ix[i]]
					}
					d := " 1"
					if thorough && k <= 2 {
						d = " 2"
					}
					if k >= 2 {
						emit("s " + JoinInts(lv, ",") + " " + JoinInts(jx, ",") + " 1")
					}
					emit("g " + JoinInts(lv, ",") + " " + JoinInts(jx, ",") + d)
				})
			})
		}
		if thorough {
			for i := range c15graphs {
				emit("r " + strconv.Itoa(i) + " 3")
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		var mk func() *ogdl.Graph
		d, _ := strconv.Atoi(f[len(f)-1])
		if desc[0] == 'b' {
			i, _ := strconv.Atoi(f[1])
			n, _ := strconv.Atoi(f[2])
			mk := func() *ogdl.Graph { return c15big(i, n) }
			for _, o := range c15ops {
				c15seq(c, mk, []readOp{o})
			}
			for i := 0; i < n; i++ {
				if n > 300 && i > 20 && i < n-20 && i%101 != 0 {
					continue
				}
				for _, o := range c15at(i) {
					c15seq(c, mk, []readOp{o})
				}
			}
			return
		}
		if desc[0] == 's' {
			h := shared(c14graph(Ints(f[1], ","), Ints(f[2], ","), "_"))
			if h == nil {
				c.Skip()
			}
			c.State("shared " + GTyped(h))
			for _, o := range c15ops {
				c15seq(c, func() *ogdl.Graph { return shared(h) }, []readOp{o})
			}
			return
		}
		if desc[0] == 'r' {
			i, _ := strconv.Atoi(f[1])
			mk = func() *ogdl.Graph { return c15graphs[i].Clone() }
		} else {
			mk = func() *ogdl.Graph { return c14graph(Ints(f[1], ","), Ints(f[2], ","), "_") }
		}
		c.State(GTyped(mk()))
		ops := c15ops
		if d == 3 {
			var o []readOp
			for i := 0; i < len(ops); i += 3 {
				o = append(o, ops[i])
			}
			ops = o
		}
		Seqs(len(ops), d, func(ix []int) {
			s := make([]readOp, d)
			for i := range ix {
				s[i] = ops[ix[i]]
			}
			c15seq(c, mk, s)
		})
	},
}
