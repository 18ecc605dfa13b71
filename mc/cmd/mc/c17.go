package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

type linkOp struct {
	name string
	f    func(g *ogdl.Graph) *ogdl.Graph
	// absent: the result is nil when applied to a nil or childless graph
	absent bool
}

func c17links() []linkOp {
	var r []linkOp
	for _, p := range []string{"zz", "a", "a.b", "[0]", "[7]", "[0].a", "a{}", "a{2}", "zz[1]", "zz.a.b", "f(1)", "a.(b)", "'x'", "a[b]"} {
		p := p
		r = append(r, linkOp{"Get(" + p + ")", func(g *ogdl.Graph) *ogdl.Graph { return g.Get(p) }, true})
	}
	for _, p := range []string{"zz", "a", "_"} {
		p := p
		r = append(r, linkOp{"Node(" + p + ")", func(g *ogdl.Graph) *ogdl.Graph { return g.Node(p) }, true})
	}
	for _, i := range []int{-1, 0, 1, 3, math.MaxInt64, math.MinInt64} {
		i := i
		r = append(r, linkOp{fmt.Sprintf("GetAt(%d)", i), func(g *ogdl.Graph) *ogdl.Graph { return g.GetAt(i) }, true})
	}
	r = append(r, linkOp{"Clone", func(g *ogdl.Graph) *ogdl.Graph { return g.Clone() }, false})
	r = append(r, linkOp{"Find", func(g *ogdl.Graph) *ogdl.Graph { x, _ := g.Find("z"); return x }, false})
	path := ogdl.NewPath("zz.a")
	r = append(r, linkOp{"Eval", func(g *ogdl.Graph) *ogdl.Graph { x, _ := g.Eval(path); n, _ := x.(*ogdl.Graph); return n }, true})
	return r
}

// answers on a graph without children (nil or not)
var c17empty = []struct {
	name string
	f    func(g *ogdl.Graph) interface{}
	want interface{}
}{
	{"Int64()", func(g *ogdl.Graph) interface{} { return g.Int64() }, int64(0)},
	{"Int64(7)", func(g *ogdl.Graph) interface{} { return g.Int64(7) }, int64(7)},
	{"Float64()", func(g *ogdl.Graph) interface{} { return g.Float64() }, math.NaN()},
	{"Float64(2.5)", func(g *ogdl.Graph) interface{} { return g.Float64(2.5) }, 2.5},
	{"Bool()", func(g *ogdl.Graph) interface{} { return g.Bool() }, false},
	{"Bool(true)", func(g *ogdl.Graph) interface{} { return g.Bool(true) }, true},
	{"String()", func(g *ogdl.Graph) interface{} { return g.String() }, ""},
	{"String(d)", func(g *ogdl.Graph) interface{} { return g.String("d") }, "d"},
	{"StringCSV()", func(g *ogdl.Graph) interface{} { return g.StringCSV() }, ""},
	{"StringCSV(d)", func(g *ogdl.Graph) interface{} { return g.StringCSV("d") }, "d"},
	{"StringTxt()", func(g *ogdl.Graph) interface{} { return g.StringTxt() }, ""},
	{"StringTxt(d)", func(g *ogdl.Graph) interface{} { return g.StringTxt("d") }, "d"},
	{"Strings()", func(g *ogdl.Graph) interface{} { return len(g.Strings()) }, 0},
	{"Bytes()", func(g *ogdl.Graph) interface{} { return len(g.Bytes()) }, 0},
	{"Number()", func(g *ogdl.Graph) interface{} { return g.Number() }, nil},
	{"Scalar()", func(g *ogdl.Graph) interface{} { return g.Scalar() }, nil},
	{"Interface()", func(g *ogdl.Graph) interface{} { return g.Interface() }, nil},
	{"Value()", func(g *ogdl.Graph) interface{} { return g.Value().IsValid() }, false},
	{"Text()", func(g *ogdl.Graph) interface{} { return g.Text() }, ""},
	{"Html()", func(g *ogdl.Graph) interface{} { return g.Html("/") }, ""},
	{"GetString(a)", func(g *ogdl.Graph) interface{} { s, err := g.GetString("a"); return fmt.Sprint(s, err != nil) }, "true"},
	{"GetInt64(a)", func(g *ogdl.Graph) interface{} { s, err := g.GetInt64("a.b"); return fmt.Sprint(s, err != nil) }, "0 true"},
	{"GetFloat64(a)", func(g *ogdl.Graph) interface{} { s, err := g.GetFloat64("[2]"); return fmt.Sprint(s, err != nil) }, "0 true"},
	{"GetBool(a)", func(g *ogdl.Graph) interface{} { s, err := g.GetBool("a{}"); return fmt.Sprint(s, err != nil) }, "false true"},
	{"GetBytes(a)", func(g *ogdl.Graph) interface{} { s, err := g.GetBytes("a[0]"); return fmt.Sprint(len(s), err != nil) }, "0 true"},
	{"GetString()", func(g *ogdl.Graph) interface{} { s, _ := g.GetString(""); return s }, ""},
	{"GetInt64()", func(g *ogdl.Graph) interface{} { s, _ := g.GetInt64(""); return s }, int64(0)},
	{"Find", func(g *ogdl.Graph) interface{} { s, err := g.Find(".*"); return fmt.Sprint(s.Len() <= 0, err) }, "true <nil>"},
	{"Process $a", func(g *ogdl.Graph) interface{} {
		return string(ogdl.NewTemplate("<$a$if(a)x$else y$end$a.b[1]{}>").Process(g))
	}, "< y>"},
	{"process nothing", func(g *ogdl.Graph) interface{} { return len(g.Process(ogdl.FromString("a b"))) }, 0},
}

// more answers on a nil graph
var c17nil = []struct {
	name string
	f    func(g *ogdl.Graph) interface{}
	want interface{}
}{
	{"Len", func(g *ogdl.Graph) interface{} { return g.Len() }, -1},
	{"Show", func(g *ogdl.Graph) interface{} { return g.Show() }, ""},
	{"Binary", func(g *ogdl.Graph) interface{} { return len(g.Binary()) }, 0},
	{"JSON", func(g *ogdl.Graph) interface{} { return len(g.JSON()) }, 0},
	{"Clone", func(g *ogdl.Graph) interface{} { return g.Clone() == nil }, true},
	{"ThisType", func(g *ogdl.Graph) interface{} { return g.ThisType() }, ""},
	{"ThisString()", func(g *ogdl.Graph) interface{} { return g.ThisString() }, ""},
	{"ThisString(d)", func(g *ogdl.Graph) interface{} { return g.ThisString("d") }, "d"},
	{"ThisBytes", func(g *ogdl.Graph) interface{} { return len(g.ThisBytes()) }, 0},
	{"ThisNumber", func(g *ogdl.Graph) interface{} { return g.ThisNumber() }, nil},
	{"ThisScalar", func(g *ogdl.Graph) interface{} { return g.ThisScalar() }, nil},
	{"ThisValue", func(g *ogdl.Graph) interface{} { return g.ThisValue().IsValid() }, false},
	{"ThisInt64", func(g *ogdl.Graph) interface{} { n, ok := g.ThisInt64(); return fmt.Sprint(n, ok) }, "0 false"},
	{"ThisFloat64", func(g *ogdl.Graph) interface{} { n, ok := g.ThisFloat64(); return fmt.Sprint(n, ok) }, "0 false"},
	{"Equals(nil)", func(g *ogdl.Graph) interface{} {
		return fmt.Sprint(g.Equals(nil), g.Equals(ogdl.New("a")), ogdl.New("a").Equals(g))
	}, "true false false"},
	{"Add", func(g *ogdl.Graph) interface{} { return g.Add("x") == nil }, true},
	{"AddNodes", func(g *ogdl.Graph) interface{} { return g.AddNodes(ogdl.FromString("a b")) == nil }, true},
	{"NodeOrNew", func(g *ogdl.Graph) interface{} { return g.NodeOrNew("x") == nil }, true},
	{"NodeSet", func(g *ogdl.Graph) interface{} { return g.NodeSet("x", 1) == nil }, true},
	{"Create", func(g *ogdl.Graph) interface{} { return g.Create("x") == nil }, true},
	{"Set", func(g *ogdl.Graph) interface{} { return g.Set("x.y", 1) == nil }, true},
	{"edits", func(g *ogdl.Graph) interface{} {
		g.Clear()
		g.Delete("a")
		g.DeleteAt(0)
		g.Copy(ogdl.FromString("a"))
		g.Merge(ogdl.FromString("a"))
		g.Substitute("a", "b")
		g.Sort("a")
		g.SortAsInt("a")
		g.SortAsString("a")
		return nil
	}, nil},
	{"as argument", func(g *ogdl.Graph) interface{} {
		x := ogdl.FromString("a b")
		r := x.Add(g) == nil && x.AddNodes(g) == nil
		x.Copy(g)
		x.Merge(g)
		x.Check(g)
		g.Check(x)
		return fmt.Sprint(r, GStr(x))
	}, `true{"a"{"b"}}`},
}

// starting points: nil, without children, and with skipped positions
func c17starts() []*ogdl.Graph {
	s1 := ogdl.New("_")
	s1.Set("a[3]", "x")
	s2 := ogdl.New("_")
	s2.Set("a[2].b[1]", int64(1))
	s3 := ogdl.New("_")
	s3.Set("[3]", "x")
	s4 := ogdl.New("_")
	s4.Set("_[1]._[1]", true)
	s5 := ogdl.New("_")
	ogdl.New("")
	s5.Eval(ogdl.NewExpression("a[2]=5"))
	s5.Eval(ogdl.NewExpression("b[1].c[1]='x'"))
	s6 := ogdl.New("_")
	ogdl.NewTemplate("$(a[1]=2)$(zz[2].a=3)").Process(s6)
	return []*ogdl.Graph{nil, ogdl.New("_"), ogdl.New(nil), {}, ogdl.New(int64(3)), ogdl.New("a"), ogdl.FromString(""), ogdl.NewPath(""), ogdl.NewExpression(""), ogdl.NewTemplate(""), s1, s2, s3, s4, s5, s6, ogdl.FromString("a\nb"), ogdl.FromString("a\n  b c")}
}

var c17l []linkOp
var c17reads []readOp

var c17 = &Prop{
	ID:     "C17",
	Rule:   "every chain of up to N lookups (25 kinds: paths, names, indexes, searches, clones, evaluations) from 18 starting points (nil, childless, sparse graphs made by index assignment through Set, expressions and templates), followed by each of 150 read accessors and emitters: no panic; on nil and childless graphs the default or the documented empty value, and lookups from those give nil.",
	Bounds: "quick: N=2; thorough: N=3",
	Init: func() {
		c17l = c17links()
		c17reads = readOps()
	},
	Gen: func(thorough bool, emit func(string)) {
		n := 2
		if thorough {
			n = 3
		}
		for k := 0; k <= n; k++ {
			for s := range c17starts() {
				Seqs(len(c17links()), k, func(ix []int) { emit(strconv.Itoa(s) + " " + JoinInts(ix, ",")) })
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		i, _ := strconv.Atoi(f[0])
		g := c17starts()[i]
		name := fmt.Sprintf("start %d", i)
		try := func(what string, fn func()) {
			c.Step(1)
			if m := Catch(fn); m != "" {
				c.Failf("%s.%s panics: %s", name, what, m)
			}
		}
		for _, l := range Ints(f[1], ",") {
			op := c17l[l]
			var r *ogdl.Graph
			empty := g.Len() <= 0
			try(op.name, func() { r = op.f(g) })
			name += "." + op.name
			if empty && op.absent && r != nil {
				c.Failf("%s: got %s, want nil", name, GFull(r))
			}
			g = r
		}
		c.State(f[0] + show(g))
		for _, op := range c17reads {
			try(op.name, func() { op.f(g) })
		}
		if g.Len() <= 0 {
			for _, e := range c17empty {
				var v interface{}
				if g != nil && strings.HasPrefix(e.name, "process nothing") && len(g.Process(nil)) > 0 {
					continue
				}
				try(e.name, func() { v = e.f(g) })
				if !same(v, e.want) {
					c.Failf("%s.%s: got %s, want %s", name, e.name, Content(v), Content(e.want))
				}
			}
		}
		if g == nil {
			for _, e := range c17nil {
				var v interface{}
				try(e.name, func() { v = e.f(g) })
				if !same(v, e.want) {
					c.Failf("%s.%s: got %s, want %s", name, e.name, Content(v), Content(e.want))
				}
			}
		}
	},
}
