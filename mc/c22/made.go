package c22

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"

	"ogdlmc/fw"
)

// Made is what an operation has returned
type Made struct {
	Show func() string // all of it
	Edit func()        // changes all that belongs to the one who called
	Src  func() string // what it was made from, not affected by Edit
	Tree *ogdl.Graph   // a tree of its own
}

// Maker makes a result from data of its own, of one of Sizes kinds
type Maker struct {
	Name string
	Make func(k int) Made
}

const Sizes = 4

func docText(k int) string {
	switch k {
	case 0:
		return "a b\n"
	case 1:
		return "x\n  y 'p q'\n  z (r, s)\nnum 7\n"
	case 2:
		return text
	}
	var b strings.Builder
	for i := 0; i < 40; i++ {
		fmt.Fprintf(&b, "w%d\n  v %d\n", i%30, i)
	}
	for i := 0; i < 20; i++ {
		fmt.Fprintf(&b, "%*sdeep%d\n", i, "", i)
	}
	b.WriteString("long '" + strings.Repeat("0123456789", 420) + "'\nend \\\n  one\n  two\n")
	return b.String()
}

func docGraph(k int) *ogdl.Graph {
	g := ogdl.FromStringTypes(docText(k))
	n := g.Add("kinds")
	for i := 0; i <= k; i++ {
		n.Add([]byte(fmt.Sprint("bytes", i, k)))
		n.Add(int64(1000*k + i))
		n.Add(float64(k) + 0.5)
		n.Add(i%2 == 0)
		n.Add(nil)
		n.Add("é\x00")
	}
	return g
}

func docJSON(k int) []byte {
	s := `{"a":{"b":[1,2.5,"x` + fmt.Sprint(k) + `",true,null]},"c":"é\n"}`
	for i := 0; i < k*3; i++ {
		s = fmt.Sprintf(`{"k%d":%s,"l":[%q,{},%d]}`, i, s, strings.Repeat("t", i*20), i)
	}
	return []byte(s)
}

func docXML(k int) []byte {
	s := fmt.Sprintf(`<b id="%d">text%d</b>`, k, k)
	for i := 0; i < k*4; i++ {
		s = fmt.Sprintf("<e%d n='v%d'>%s<f>%s</f></e%d>", i, i, s, strings.Repeat("u", i*10), i)
	}
	return []byte("<r>" + s + "</r>")
}

// spoil changes all of a graph, and what the bytes in it hold
func spoil(g *ogdl.Graph) { spoil2(g, true) }

func spoil2(g *ogdl.Graph, content bool) {
	if g == nil {
		return
	}
	var ns []*ogdl.Graph
	seen := map[*ogdl.Graph]bool{}
	var walk func(*ogdl.Graph)
	walk = func(n *ogdl.Graph) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		ns = append(ns, n)
		for _, x := range n.Out {
			walk(x)
		}
	}
	walk(g)
	for _, n := range ns {
		if b, ok := n.This.([]byte); ok && content {
			for i := range b {
				b[i] = '%'
			}
		}
		n.This = "spoilt"
		n.Add("more")
		for i := range n.Out[:len(n.Out)-1] {
			n.Out[i] = ogdl.New("other")
		}
		full := n.Out[:cap(n.Out)]
		for i := range full {
			full[i] = ogdl.New("rest")
		}
		n.Out = n.Out[:len(n.Out)/2]
	}
}

func spoilBytes(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '%'
	}
}

func ofGraph(g *ogdl.Graph) Made {
	return Made{Show: func() string { return fw.GTyped(g) }, Edit: func() { spoil(g) }, Tree: g}
}

// ofClone: the bytes in the nodes may be those of the source, as documented
func ofClone(g *ogdl.Graph) Made {
	return Made{Show: func() string { return fw.GTyped(g) }, Edit: func() { spoil2(g, false) }, Tree: g}
}
func ofBytes(b []byte) Made {
	return Made{Show: func() string { return string(b) }, Edit: func() { spoilBytes(b) }}
}
func ofString(s string) Made { return Made{Show: func() string { return s }} }

// top is a graph whose list of nodes belongs to the caller, the nodes do not
func ofList(r, src *ogdl.Graph) Made {
	return Made{
		Show: func() string { return fw.GTyped(r) },
		Edit: func() {
			if r == nil {
				return
			}
			r.This = "spoilt"
			r.Add("more")
			r.DeleteAt(0)
			for i := range r.Out {
				r.Out[i] = ogdl.New("other")
			}
			r.Add("last")
		},
		Src: func() string { return fw.GTyped(src) },
	}
}

func (m Made) from(g *ogdl.Graph) Made {
	m.Src = func() string { return fw.GTyped(g) }
	return m
}

// Makers lists the operations that return something
func Makers() (ms []Maker) {
	add := func(name string, f func(k int) Made) { ms = append(ms, Maker{name, f}) }
	src := func(b []byte, m Made) Made {
		m.Src = func() string { return string(b) }
		return m
	}

	// ---- read
	add("FromString", func(k int) Made { return ofGraph(ogdl.FromString(docText(k))) })
	add("FromStringTypes", func(k int) Made { return ofGraph(ogdl.FromStringTypes(docText(k))) })
	add("FromBytes", func(k int) Made {
		b := []byte(docText(k))
		return src(b, ofGraph(ogdl.FromBytes(b)))
	})
	add("FromBytes, bytes used again", func(k int) Made {
		b := []byte(docText(k))
		g := ogdl.FromBytes(b)
		spoilBytes(b)
		return ofGraph(g)
	})
	add("FromReader", func(k int) Made { return ofGraph(ogdl.FromReader(strings.NewReader(docText(k)))) })
	add("FromBinary", func(k int) Made {
		b := docGraph(k).Binary()
		return src(b, ofGraph(ogdl.FromBinary(b)))
	})
	add("FromBinary, bytes used again", func(k int) Made {
		b := docGraph(k).Binary()
		g := ogdl.FromBinary(b)
		spoilBytes(b)
		return ofGraph(g)
	})
	add("FromBinaryReader", func(k int) Made {
		return ofGraph(ogdl.FromBinaryReader(bytes.NewReader(docGraph(k).Binary())))
	})
	add("FromBinaryBufioReader", func(k int) Made {
		return ofGraph(ogdl.FromBinaryBufioReader(bufio.NewReader(bytes.NewReader(docGraph(k).Binary()))))
	})
	add("FromJSON", func(k int) Made {
		b := docJSON(k)
		g, _ := ogdl.FromJSON(b)
		return src(b, ofGraph(g))
	})
	add("FromJSON, bytes used again", func(k int) Made {
		b := docJSON(k)
		g, _ := ogdl.FromJSON(b)
		spoilBytes(b)
		return ofGraph(g)
	})
	add("FromXML", func(k int) Made {
		b := docXML(k)
		return src(b, ofGraph(gxml.FromXML(b)))
	})
	add("FromXML, bytes used again", func(k int) Made {
		b := docXML(k)
		g := gxml.FromXML(b)
		spoilBytes(b)
		return ofGraph(g)
	})
	add("Simplify", func(k int) Made {
		g := gxml.FromXML(docXML(k))
		gxml.Simplify(g)
		return ofGraph(g)
	})
	add("parser of a string", func(k int) Made {
		p := ogdl.NewStringParser(docText(k))
		p.Ogdl()
		return ofGraph(p.Graph())
	})
	add("parser of bytes", func(k int) Made {
		b := []byte(docText(k))
		p := ogdl.NewBytesParser(b)
		p.OgdlTypes()
		spoilBytes(b)
		return ofGraph(p.Graph())
	})
	add("event handler", func(k int) Made {
		var h ogdl.SimpleEventHandler
		for i := 0; i < k*k*10+2; i++ {
			h.AddAt(fmt.Sprint("n", i), i%7)
			h.AddBytes([]byte(fmt.Sprint("b", i)))
		}
		return ofGraph(h.Tree())
	})
	add("event handler, bytes used again", func(k int) Made {
		p := ogdl.NewStringParser("")
		h := p.Handler()
		b := make([]byte, 0, 10)
		for i := 0; i < k*20+2; i++ {
			b = append(b[:0], fmt.Sprint("n", i)...)
			h.AddBytesAt(b, i%3)
			b[0] = 'x'
			h.AddBytes(b)
		}
		spoilBytes(b)
		return ofGraph(h.Tree())
	})
	add("NewPath", func(k int) Made {
		return ofGraph(ogdl.NewPath([]string{"a", "a.b[1].c{}", "fn.(x+1).'s t'(p, 2)", "p" + strings.Repeat(".q[2]", 40)}[k]))
	})
	add("NewExpression", func(k int) Made {
		return ofGraph(ogdl.NewExpression([]string{"a", "a+b*2", "x=f(1,'s')", "1" + strings.Repeat("+a.b", 40)}[k]))
	})
	add("NewTemplate", func(k int) Made {
		return ofGraph(ogdl.NewTemplate(templates[k]))
	})
	add("NewTemplateFromBytes, bytes used again", func(k int) Made {
		b := []byte(templates[k])
		g := ogdl.NewTemplateFromBytes(b)
		spoilBytes(b)
		return ofGraph(g)
	})
	add("lexer", func(k int) Made {
		b := []byte(docText(k))
		l := ogdl.NewLexer(bytes.NewReader(b))
		var s []string
		for i := 0; i < 60; i++ {
			if x, ok := l.String(); ok {
				s = append(s, x)
			} else if x, ok, _ := l.Quoted(0); ok {
				s = append(s, x)
			} else if x, ok := l.Operator(); ok {
				s = append(s, x)
			} else {
				l.Rune()
			}
		}
		return Made{Show: func() string { return fmt.Sprintf("%q", s) }}
	})

	// ---- graphs of graphs
	add("Clone", func(k int) Made {
		g := docGraph(k)
		return ofClone(g.Clone()).from(g)
	})
	add("clone of a clone", func(k int) Made {
		g := docGraph(k)
		c := g.Clone()
		d := c.Clone()
		spoil2(c, false)
		return ofClone(d).from(g)
	})
	add("what was cloned", func(k int) Made {
		g := docGraph(k)
		c := g.Clone()
		return ofClone(g).from(c)
	})
	add("Copy", func(k int) Made {
		g := docGraph(k)
		c := ogdl.New("_")
		c.Copy(g)
		return ofClone(c).from(g)
	})
	add("AddNodes", func(k int) Made {
		g := docGraph(k)
		r := ogdl.New("_")
		r.AddNodes(g)
		return ofList(r, g)
	})
	add("Merge", func(k int) Made {
		g := docGraph(k)
		r := ogdl.FromString("a k\nnew\n")
		r.Merge(g)
		return Made{Show: func() string { return fw.GTyped(r) }}
	})
	for _, re := range []string{".", "^a$", "^nothing$", "^[a-n]"} {
		re := re
		add("Find "+re, func(k int) Made {
			g := docGraph(k)
			r, _ := g.Find(re)
			return ofList(r, g)
		})
	}
	for _, p := range []string{"a{}", "w3{}", "a{0}", "w3{1}", "kinds{}"} {
		p := p
		add("Get "+p, func(k int) Made {
			g := docGraph(k)
			r := g.Get(p)
			return ofList(r, g)
		})
	}
	for _, p := range []string{"a", "a.b", "w3[0]", "kinds[2]", "none", "kinds._len", "a._string", "kinds[0]._thisString"} {
		p := p
		add("Get "+p, func(k int) Made {
			r := docGraph(k).Get(p)
			return Made{Show: func() string { return fw.GTyped(r) }}
		})
	}
	add("Get _json", func(k int) Made {
		g := docGraph(k)
		r, _ := g.Eval(ogdl.NewPath("a._json"))
		b, _ := r.([]byte)
		return ofBytes(b).from(g)
	})
	add("Node, GetAt", func(k int) Made {
		g := docGraph(k)
		a, b, n := g.Node("a"), g.GetAt(0), g.Node("kinds")
		return Made{Show: func() string { return fw.GTyped(a) + fw.GTyped(b) + fw.GTyped(n) }}
	})
	add("New, Add", func(k int) Made {
		g := ogdl.New(fmt.Sprint("n", k))
		for i := 0; i < k*60+1; i++ {
			g.Add(fmt.Sprint("m", i)).Add(i)
		}
		return ofGraph(g)
	})
	add("Set", func(k int) Made {
		g := ogdl.New("_")
		for i := 0; i < k*10+1; i++ {
			g.Set(fmt.Sprintf("s%d.t[%d].u", i%5, i%3), fmt.Sprint(i))
		}
		return ofGraph(g)
	})
	add("Set of bytes", func(k int) Made {
		g := ogdl.New("_")
		b := []byte(fmt.Sprint("set", k))
		g.Set("a.b", b)
		g.Set("c", int64(k))
		return Made{Show: func() string { return fw.GTyped(g) }}
	})
	add("NodeOrNew, Create, NodeSet", func(k int) Made {
		g := ogdl.New("_")
		for i := 0; i < k+1; i++ {
			g.NodeOrNew("a").Add(i)
			g.Create("b").Add("c")
			g.NodeSet("d", i)
		}
		return ofGraph(g)
	})
	add("sorted", func(k int) Made {
		g := docGraph(k)
		g.Sort("v")
		return ofGraph(g)
	})

	// ---- written
	add("Text", func(k int) Made { return ofString(docGraph(k).Text()) })
	add("Show", func(k int) Made { return ofString(docGraph(k).Show()) })
	add("Html", func(k int) Made { return ofString(docGraph(k).Html("/p")) })
	add("JSON", func(k int) Made {
		g := docGraph(k)
		return ofBytes(g.JSON()).from(g)
	})
	add("JSON of a record", func(k int) Made {
		g := ogdl.FromString(fmt.Sprintf("a %d\nb two%d\nc\n  d 'x y'\n", k, k))
		return ofBytes(g.JSON()).from(g)
	})
	add("JSON of a scalar", func(k int) Made {
		g := ogdl.New("s" + strings.Repeat("t", k*k*100))
		return ofBytes(g.JSON()).from(g)
	})
	add("Binary", func(k int) Made {
		g := docGraph(k)
		return ofBytes(g.Binary()).from(g)
	})
	add("Binary of a scalar", func(k int) Made {
		g := ogdl.New("s" + strings.Repeat("t", k*k*100))
		return ofBytes(g.Binary()).from(g)
	})
	add("Bytes of a string", func(k int) Made {
		g := ogdl.New("_")
		g.Add("string" + fmt.Sprint(k))
		return ofBytes(g.Bytes()).from(g)
	})
	add("Bytes of a number", func(k int) Made {
		g := ogdl.New("_")
		g.Add(1000 + k)
		return ofBytes(g.Bytes()).from(g)
	})
	add("ThisBytes", func(k int) Made {
		g := ogdl.New("string" + fmt.Sprint(k))
		return ofBytes(g.ThisBytes()).from(g)
	})
	add("GetBytes", func(k int) Made {
		g := docGraph(k)
		b, _ := g.GetBytes("a")
		b2, _ := g.GetBytes("num")
		return Made{
			Show: func() string { return string(b) + "|" + string(b2) },
			Edit: func() { spoilBytes(b); spoilBytes(b2) },
			Src:  func() string { return fw.GTyped(g) },
		}
	})
	add("Bytes of bytes", func(k int) Made {
		g := docGraph(k)
		b := g.Node("kinds").Bytes()
		return Made{Show: func() string { return string(b) }}
	})
	add("Strings", func(k int) Made {
		g := docGraph(k)
		l := g.Strings()
		return Made{
			Show: func() string { return fmt.Sprintf("%q", l) },
			Edit: func() {
				l := l[:cap(l)]
				for i := range l {
					l[i] = "spoilt"
				}
			},
			Src: func() string { return fw.GTyped(g) },
		}
	})
	add("strings", func(k int) Made {
		g := docGraph(k)
		n := g.Node("kinds")
		s := []string{g.String(), n.String(), n.ThisString(), g.StringCSV(), n.StringCSV(), g.StringTxt(), n.StringTxt(), n.Out[0].ThisString(), n.Out[1].ThisString()}
		a, _ := g.GetString("a.b")
		s = append(s, a)
		return Made{Show: func() string { return fmt.Sprintf("%q", s) }}
	})
	add("typed", func(k int) Made {
		g := docGraph(k)
		var l []interface{}
		for _, n := range g.Node("kinds").Out {
			l = append(l, n.ThisScalar(), n.ThisNumber(), n.Interface(), n.Scalar())
		}
		return Made{Show: func() string { return fmt.Sprintf("%#v", l) }}
	})

	// ---- evaluated
	ctx := func(k int) *ogdl.Graph {
		g := ogdl.FromStringTypes(text)
		g.Set("n", int64(k*3))
		g.Set("a.b", fmt.Sprint("value", k))
		g.Set("s", strings.Repeat("s", k*30+1))
		return g
	}
	for i := range templates {
		i := i
		add(fmt.Sprint("Process ", i), func(k int) Made {
			g := ctx(k)
			t := ogdl.NewTemplate(templates[i])
			b := t.Process(g)
			return Made{Show: func() string { return string(b) }, Edit: func() { spoilBytes(b) }, Src: func() string { return fw.GTyped(g) + fw.GTyped(t) }}
		})
	}
	shared := ogdl.NewTemplate("$for(list,x)<$x> $end$if(n>3)$s$end\n$a.b $('q' + n)")
	add("Process, same template", func(k int) Made {
		b := shared.Process(ctx(k))
		return Made{Show: func() string { return string(b) }, Edit: func() { spoilBytes(b) }, Src: func() string { return fw.GTyped(shared) }}
	})
	for _, e := range []string{"n+1", "f*2.0", "s + 'x'", "n > 3", "a.b", "'t'", "z='new'", "n=n+1", "a{}"} {
		e := e
		x := ogdl.NewExpression(e)
		add("Eval "+e, func(k int) Made {
			r, err := ctx(k).Eval(x)
			return Made{
				Show: func() string { return val(r, err) },
				Src:  func() string { return fw.GTyped(x) },
			}
		})
	}
	add("assigned", func(k int) Made {
		g := ctx(k)
		for _, e := range []string{"z=s+'!'", "y.x=list[1]", "w=n*2", "v=z"} {
			g.Eval(ogdl.NewExpression(e))
		}
		return Made{Show: func() string { return fw.GTyped(g) }}
	})
	add("functions", func(k int) Made {
		g := ogdl.New("_")
		var got []string
		g.Add("f").Add(func(s string, n int64) string { got = append(got, s); return s + fmt.Sprint(n) })
		g.Add("h").Add(func(g *ogdl.Graph) *ogdl.Graph { return g.Clone() })
		g.Add("m").Add(acc{})
		g.Add("s").Add("str" + fmt.Sprint(k))
		g.Add("n").Add(int64(k))
		a := val(g.Eval(ogdl.NewExpression("f(s, n)")))
		b, _ := g.Eval(ogdl.NewExpression("m.Name(s)"))
		return Made{Show: func() string { return fmt.Sprint(a, b, got) }}
	})
	add("Check", func(k int) Made {
		s := ogdl.FromString("k !int\nl *\n")
		ok, m := s.Check(docGraph(k))
		return Made{Show: func() string { return fmt.Sprint(ok, m) }, Src: func() string { return fw.GTyped(s) }}
	})

	// ---- stored
	for _, bin := range []bool{false, true} {
		bin := bin
		add(fmt.Sprint("log, binary ", bin), func(k int) Made {
			f, err := os.CreateTemp("", "c22")
			if err != nil {
				panic(err)
			}
			f.Close()
			os.Remove(f.Name())
			defer os.Remove(f.Name())
			l, err := ogdl.OpenLog(f.Name())
			if err != nil {
				panic(err)
			}
			defer l.Close()
			l.SetSync(false)
			var at []int64
			for i := 0; i < 3; i++ {
				at = append(at, l.Add(docGraph((k+Sizes-i)%Sizes)))
			}
			var ms []Made
			for _, p := range at {
				if bin {
					b, _, _ := l.GetBinary(p)
					ms = append(ms, ofBytes(b))
				} else {
					g, _, _ := l.Get(p)
					ms = append(ms, ofGraph(g))
				}
			}
			// the second and the third one are the caller's to change
			s0 := ms[0].Show()
			ms[1].Edit()
			if s := ms[0].Show(); s != s0 {
				ms[0] = ofString("the first object of the log changed with the second one: " + s)
				return Made{Show: func() string { return fmt.Sprint(&ms) }}
			}
			return ms[0]
		})
	}
	return
}
