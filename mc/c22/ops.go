// Package c22 lists the operations that may run concurrently.
package c22

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"

	"ogdlmc/fw"
)

// World is what is shared
type World struct {
	G    *ogdl.Graph   // data of all kinds
	G2   *ogdl.Graph   // almost the same data
	Big  *ogdl.Graph   // many, long, deep
	Fn   *ogdl.Graph   // functions
	Sch  *ogdl.Graph   // a schema
	P    []*ogdl.Graph // parsed paths
	E    []*ogdl.Graph // parsed expressions
	T    []*ogdl.Graph // parsed templates
	Bin  []byte
	Text []byte
	JSON []byte
	XML  []byte
}

type acc struct{ n int }

func (a acc) Twice(n int64) int64  { return 2 * n }
func (a acc) Name(s string) string { return "<" + s + ">" }

const text = "a\n  b 1\n  c 'x y'\n    d\n  c two\nn 5\nf 2.5\nt true\ns \"it is\"\nlist\n  u\n  v\n  w\nempty\nname b\ndeep\n  one\n    two\n      three 3\nup z\n"

var paths = []string{"a.b", "a.c[1]", "a.c{}", "a.c{0}.d", "deep.one.two.three", "list[2]", "nothing.here", "'s'", "a[0]", "list._len", "fn.Twice(n)"}
var exprs = []string{"n+1", "f*2", "a.b == '1'", "n > 3 && t", "!t || n == 5", "(n+1)*(n-2)", "s + 'x'", "n/2 + n%2", "list[0]", "'a' + up", "nothing", "n >= f"}
var templates = []string{
	"Hello $a.b and $s.\nNo $nothing.here; $list[1] $(n) $a.c[1]\n",
	"$if(n>3)big $a.b$else\nsmall\n$end\nafter\n",
	"$if(nothing)x$elseif(n==5)five $f$else\nno\n$end",
	"plain text\n  indented, $up\n$deep.one.two.three!\n",
}

// New makes a new world
func New() *World {
	w := &World{}
	w.G = ogdl.FromStringTypes(text)
	b := w.G.Add("bytes")
	b.Add([]byte("raw"))
	w.G.Add("int").Add(int64(-7))
	w.G.Add("float").Add(0.5)
	w.G.Add("bool").Add(false)
	w.G.Add("u").Add(uint8(9))
	w.G.Add("nothing2").Add(nil)
	w.G.Add("inner").Add("_").Add("hidden")
	w.G2 = w.G.Clone()
	w.G2.Add("more")
	w.Big = ogdl.New("_")
	n := w.Big
	for i := 0; i < 130; i++ {
		n = n.Add(fmt.Sprint("d", i))
	}
	n.Add(append(make([]byte, 200), 'x'))
	w.Big.Add("long").Add(strings.Repeat("line\n", 60) + "\x00end")
	for i := 0; i < 20; i++ {
		w.Big.Add(fmt.Sprint("e", i)).Add(int64(i))
	}
	w.Fn = ogdl.New("_")
	w.Fn.Add("add").Add(func(a, b int64) int64 { return a + b })
	w.Fn.Add("fn").Add(acc{})
	w.Fn.Add("n").Add(int64(4))
	w.Sch = ogdl.FromString("a\n  b !int\n  c !string\n")
	for _, p := range paths {
		w.P = append(w.P, ogdl.NewPath(p))
	}
	for _, e := range exprs {
		w.E = append(w.E, ogdl.NewExpression(e))
	}
	for _, t := range templates {
		w.T = append(w.T, ogdl.NewTemplate(t))
	}
	w.Text = []byte("a b\n  c 'd e' # no\n$f (x, y)\n")
	w.JSON = []byte(`{"a":{"b":[1,2.5,"x",true,null]},"c":"é\n"}`)
	w.XML = []byte(`<a id="1"><b-c>text</b-c><d>é &amp; x</d></a>`)
	w.Bin = w.G.Binary()
	return w
}

// Op is an operation. It may only read what is shared.
type Op struct {
	Name string
	Do   func(w *World) string
}

func val(i interface{}, err error) string {
	if g, ok := i.(*ogdl.Graph); ok {
		return fmt.Sprint(fw.GTyped(g), err)
	}
	return fmt.Sprintf("%T %v %v", i, i, err)
}

// Ops lists them; those of own graphs come last
func Ops() (ops []Op, own int) {
	add := func(name string, f func(w *World) string) { ops = append(ops, Op{name, f}) }
	add("dump", func(w *World) string {
		s := fw.GTyped(w.G) + fw.GTyped(w.Sch) + fw.GTyped(w.Fn) + fw.GTyped(w.Big)
		for _, l := range [][]*ogdl.Graph{w.P, w.E, w.T} {
			for _, g := range l {
				s += "\n" + fw.GTyped(g)
			}
		}
		return s
	})
	add("Text", func(w *World) string { return w.G.Text() })
	add("Show", func(w *World) string { return w.G.Show() })
	add("JSON", func(w *World) string { return string(w.G.JSON()) })
	add("JSON of a part", func(w *World) string { return string(w.G.Node("a").JSON()) + string(w.G.Node("inner").JSON()) })
	add("Html", func(w *World) string { return w.G.Html("/x") })
	add("Binary", func(w *World) string { return string(w.G.Binary()) })
	add("Bytes", func(w *World) string {
		return string(w.G.Bytes()) + string(w.G.ThisBytes()) + string(w.G.Node("bytes").Bytes())
	})
	add("big: Binary", func(w *World) string { return string(w.Big.Binary()) })
	add("big: Text", func(w *World) string { return w.Big.Text() })
	add("big: JSON", func(w *World) string { return string(w.Big.JSON()) })
	add("big: Clone", func(w *World) string { return fw.GTyped(w.Big.Clone()) })
	add("big: lookups", func(w *World) string {
		return w.Big.Node("e19").String() + w.Big.Get("e7").String() + w.Big.Get("d0.d1.d2.d3").ThisString()
	})
	add("Clone", func(w *World) string { return fw.GTyped(w.G.Clone()) })
	add("Equals", func(w *World) string { return fmt.Sprint(w.G.Equals(w.G), w.G.Equals(w.Sch), w.G.Equals(w.G2)) })
	add("Find", func(w *World) string { return val(w.G.Find("^[a-n]$")) })
	add("Node", func(w *World) string {
		return fw.GTyped(w.G.Node("a")) + fw.GTyped(w.G.Node("none")) + fmt.Sprint(w.G.Len(), w.G.Node("a").Len()) + fw.GTyped(w.G.GetAt(3)) + fw.GTyped(w.G.GetAt(99))
	})
	add("NodeOrNew", func(w *World) string { return fw.GTyped(w.G.NodeOrNew("list")) })
	add("conversions", func(w *World) string {
		s := ""
		for _, n := range append(append([]*ogdl.Graph{}, w.G.Out...), w.G.Node("a").Out...) {
			a, ok := n.ThisInt64()
			f, ok2 := n.ThisFloat64()
			s += fmt.Sprint(n.ThisString(), n.String(), n.Int64(3), n.Float64(), n.Bool(true), n.Number(), n.Scalar(), n.Interface(), n.Strings(), n.StringCSV(), n.StringTxt(), n.ThisType(), n.ThisScalar(), n.ThisNumber(), a, ok, f, ok2, n.Value(), n.ThisValue(), "\n")
		}
		return s
	})
	add("typed lookups", func(w *World) string {
		a, e1 := w.G.GetInt64("n")
		b, e2 := w.G.GetFloat64("f")
		c, e3 := w.G.GetBool("t")
		d, e4 := w.G.GetString("s")
		e, e5 := w.G.GetBytes("bytes")
		f, e6 := w.G.GetInt64("none")
		return fmt.Sprint(a, e1, b, e2, c, e3, d, e4, e, e5, f, e6)
	})
	for _, p := range paths[:len(paths)-1] {
		p := p
		add("Get "+p, func(w *World) string { return fw.GTyped(w.G.Get(p)) })
	}
	for i := range paths {
		i := i
		add("Eval path "+paths[i], func(w *World) string {
			r, err := w.G.Eval(w.P[i])
			return val(r, err) + "|" + fw.GTyped(w.P[i])
		})
	}
	for i := range exprs {
		i := i
		add("Eval "+exprs[i], func(w *World) string { return val(w.G.Eval(w.E[i])) })
	}
	add("functions", func(w *World) string {
		return val(w.Fn.Eval(ogdl.NewExpression("add(n, 3)"))) + val(w.Fn.Eval(w.P[len(paths)-1])) + fw.GTyped(w.Fn.Get("fn.Name('q')")) + fw.GTyped(w.Fn.Get("fn.None(1)")) + fw.GTyped(w.Fn.Get("add(1)"))
	})
	for i := range templates {
		i := i
		add(fmt.Sprintf("Process %d", i), func(w *World) string { return string(w.T[i].Process(w.G)) })
	}
	add("Check", func(w *World) string {
		b, s := w.Sch.Check(w.G)
		b2, s2 := w.Sch.Check(w.Sch)
		return fmt.Sprint(b, s, b2, s2)
	})
	add("Parse shared bytes", func(w *World) string {
		return fw.GTyped(ogdl.FromBytes(w.Text)) + fw.GTyped(ogdl.FromReader(bytes.NewReader(w.Text)))
	})
	add("FromBinary", func(w *World) string { return fw.GTyped(ogdl.FromBinary(w.Bin)) })
	add("FromJSON", func(w *World) string {
		g, err := ogdl.FromJSON(w.JSON)
		return fmt.Sprint(fw.GTyped(g), err)
	})
	add("FromXML", func(w *World) string { return fw.GTyped(gxml.FromXML(w.XML)) })
	add("NewTemplateFromBytes", func(w *World) string { return fw.GTyped(ogdl.NewTemplateFromBytes(w.Text)) })
	add("Merge, Copy, AddNodes from", func(w *World) string {
		a, b, c := ogdl.New("_"), ogdl.FromString("a b\nx y\n"), ogdl.New("_")
		a.AddNodes(w.G)
		a.Add("after")
		b.Merge(w.G)
		c.Copy(w.G)
		return fw.GTyped(a) + "\n" + fw.GTyped(b) + "\n" + fw.GTyped(c)
	})
	// ---- own graphs
	own = len(ops)
	add("own: parse", func(w *World) string {
		g := ogdl.FromString("x 1\ny (a, b (c, d))\nz\n  'q r' # no\n  \"s\\\"t\"\n  \\\n    block\n     text\n")
		return fw.GTyped(g) + g.Text()
	})
	add("own: parse malformed", func(w *World) string {
		return fw.GTyped(ogdl.FromString("a\n \t'b")) + fw.GTyped(ogdl.FromString("((x\n, 'y\n")) + fw.GTyped(ogdl.FromBinary([]byte{1, 'G', 0, 3, 'a'}))
	})
	add("own: edit", func(w *World) string {
		g := ogdl.FromString("x 1\ny (a, b)\n")
		g.Set("x.y.z", "new")
		g.Set("y[1]", 7)
		g.NodeSet("k", 3)
		g.Add("l").Add(5)
		g.Delete("x")
		g.Create("y").Add("w")
		g.Substitute("w", "v")
		g.DeleteAt(0)
		g.NodeOrNew("m")
		return fw.GTyped(g)
	})
	add("own: sort", func(w *World) string {
		g := ogdl.FromString("x\n  f 3\ny\n  f 12\nz\n  f 1\n")
		g.Sort("f")
		s := fw.GTyped(g)
		g.SortAsInt("f")
		s += fw.GTyped(g)
		g.SortAsString("f")
		return s + fw.GTyped(g)
	})
	add("own: clear", func(w *World) string {
		g := ogdl.FromString("x 1\ny\n")
		c := g.Clone()
		g.Clear()
		return fw.GTyped(g) + fw.GTyped(c)
	})
	add("own: path", func(w *World) string {
		return fw.GTyped(ogdl.NewPath("own.path[1]{2}.(q).'r s'")) + fw.GTyped(ogdl.FromString("own\n  path p\n  path q\n").Get("own.path{1}"))
	})
	add("own: path of the same text", func(w *World) string {
		p := ogdl.NewPath("a.b")
		g := ogdl.FromString("a\n  b own\n  c 9\n")
		p.Out[1].This = "c"
		return val(g.Eval(p)) + fw.GTyped(g.Get("a.b")) + fw.GTyped(ogdl.NewPath("a.b"))
	})
	add("own: expression", func(w *World) string {
		g := ogdl.FromString("n 3\n")
		e := ogdl.NewExpression("n+1")
		s := val(g.Eval(e)) + fw.GTyped(e)
		e2 := ogdl.NewExpression("k=n*2")
		return s + val(g.Eval(e2)) + fw.GTyped(g)
	})
	add("own: template", func(w *World) string {
		t := ogdl.NewTemplate("$for(l,x)$x,$break$end\n$if(a.b=='q')$(a.b='r')$a.b$end$a.b")
		g := ogdl.FromString("l\n  1\n  2\na\n  b q\n")
		s := string(t.Process(g))
		return s + string(t.Process(g)) + fw.GTyped(t)
	})
	add("own: template of the same text", func(w *World) string {
		t := ogdl.NewTemplate(templates[0])
		g := ogdl.FromString("a\n  b other\nn 1\nlist\n  k\n  l\n")
		return string(t.Process(g)) + fw.GTyped(t)
	})
	add("own: loops", func(w *World) string {
		t := ogdl.NewTemplate("$for(l,x)$for(m,y)$x$y $end\n$end")
		g := ogdl.FromString("l\n  1\n  2\nm\n  p\n  q\n")
		return string(t.Process(g)) + fw.GTyped(g)
	})
	add("own: emit", func(w *World) string {
		g := ogdl.FromStringTypes("k\n  1\n  2.5\n  'x y'\nm 'a\nb'\n")
		return g.Text() + g.Show() + string(g.JSON()) + string(g.Binary()) + g.Html("")
	})
	add("own: binary", func(w *World) string {
		g := ogdl.FromBinary(ogdl.FromString("own\n  b\n    c\nd\n").Binary())
		return fw.GTyped(g) + fw.GTyped(ogdl.FromBinaryReader(bytes.NewReader(g.Binary())))
	})
	add("own: big binary", func(w *World) string {
		g := ogdl.New("_")
		g.Add(append(make([]byte, 300), 'y'))
		g.Add(append(make([]byte, 20000), 'z'))
		return string(g.Binary())
	})
	add("own: json", func(w *World) string {
		g, err := ogdl.FromJSON([]byte(`[{"k":1},{"l":[]},"own"]`))
		_, err2 := ogdl.FromJSON([]byte(`{"k":`))
		return fmt.Sprint(fw.GTyped(g), err, err2 != nil, string(g.JSON()))
	})
	add("own: xml", func(w *World) string {
		g := gxml.FromXML([]byte(`<r><field name="a b">1</field><é-x id="q">2</é-x></r>`))
		s := fw.GTyped(g)
		gxml.Simplify(g)
		return s + fw.GTyped(g)
	})
	add("own: functions", func(w *World) string {
		g := ogdl.New("_")
		var calls []string
		g.Add("f").Add(func(s string) string { calls = append(calls, s); return s + "!" })
		g.Add("n").Add("two")
		s := val(g.Eval(ogdl.NewExpression("f(n)"))) + string(ogdl.NewTemplate("$f('x') $f(n)").Process(g))
		sort.Strings(calls)
		return s + strings.Join(calls, ",")
	})
	add("own: events", func(w *World) string {
		p := ogdl.NewStringParser("")
		h := p.Handler()
		h.Add("a")
		h.Inc()
		h.Add("b")
		h.AddBytesAt([]byte("c"), 1)
		h.Delete()
		return fw.GTyped(h.Tree())
	})
	add("own: schema", func(w *World) string {
		s := ogdl.FromString("k !int\nl *\n")
		b, m := s.Check(ogdl.FromString("k x\n"))
		return fmt.Sprint(b, m)
	})
	return
}
