package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
)

func init() { props = append(props, c39) }

// toT is the tree of a graph of strings
func toT(g *ogdl.Graph) *T {
	t := N(Str(g.This))
	for _, n := range g.Out {
		t.K = append(t.K, toT(n))
	}
	return t
}

// simplified is the model: an element whose first child is a not empty @id and that has other children too takes
// the id as its name (except p) and keeps its last child only; with fields, a field that begins with its
// @name takes the name, with _ for each blank, and loses the attribute.
func simplified(t *T, fields bool) *T {
	r := N(t.L)
	for _, n := range t.K {
		m := N(n.L, n.K...)
		if len(n.K) > 0 {
			first := n.K[0]
			if first.L == "@id" && len(first.K) > 0 && len(n.K) > 1 {
				if n.L != "p" {
					m.L = first.K[0].L
				}
				m.K = n.K[len(n.K)-1:]
			} else if fields && n.L == "field" && first.L == "@name" && len(first.K) == 1 {
				m.L = strings.ReplaceAll(first.K[0].L, " ", "_")
				m.K = n.K[1:]
			}
		}
		r.K = append(r.K, simplified(m, fields))
	}
	return r
}

func c39check(c *C, t *T) {
	c.Step(1)
	g := t.Graph()
	gxml.Simplify(g)
	want := simplified(t, true)
	c.Same("Simplify of "+clipT(t), g, want)
	c.Owned("Simplify of "+clipT(t), g)
	c.State(want.Str())
}

var c39words = []string{"@id", "p", "field", "@name", "a b", ""}

var c39 = &Prop{
	ID:     "C39",
	Rule:   "every tree of up to N nodes over 6 labels (@id, p, field, @name, a text with a blank, the empty text), simplified and compared with the model; every pair of 16 attributes and content forms in nested elements of documents, imported and simplified; 16 names and 16 attributes close to those that matter x 15 contents x children; sizes up to 100001 children and 10001 levels.",
	Bounds: "quick: N=5; thorough: N=6",
	Gen: func(thorough bool, emit func(string)) {
		n := 5
		if thorough {
			n = 6
		}
		for k := 0; k <= n; k++ {
			Shapes(k, func(lv []int) { emit("t" + JoinInts(lv, ",")) })
		}
		for i := range c39parts {
			emit("x" + strconv.Itoa(i))
		}
		for i := range c39names {
			emit("y" + strconv.Itoa(i))
		}
		for _, n := range append(sweep(thorough), vast...) {
			emit("w" + strconv.Itoa(n))
		}
	},
	Run: func(c *C, desc string) {
		switch desc[0] {
		case 't':
			var lv []int
			if len(desc) > 1 {
				lv = Ints(desc[1:], ",")
			}
			Seqs(len(c39words), len(lv), func(ix []int) {
				var l []string
				for _, i := range ix {
					l = append(l, c39words[i])
				}
				c39check(c, Forest(lv, l))
			})
		case 'x':
			i, _ := strconv.Atoi(desc[1:])
			for _, outer := range c39parts {
				for _, name := range []string{"field", "p", "e"} {
					for _, oname := range []string{"field", "p", "e"} {
						for _, tail := range []string{"", "t", "<z/>", "<z>u</z>"} {
							in := "<" + name + c39parts[i] + tail + "</" + name + ">"
							for _, doc := range []string{in, "<r>" + in + "</r>", "<" + oname + outer + in + "</" + oname + ">", "<" + oname + outer + in + "<y/>" + in + "</" + oname + ">"} {
								c.Step(1)
								g := gxml.FromXML([]byte(doc))
								want := simplified(toT(g), true)
								gxml.Simplify(g)
								c.Same("Simplify of FromXML of "+doc, g, want)
							}
						}
					}
				}
			}
		case 'y': // names close to those that matter, contents of the attribute, children after it
			i, _ := strconv.Atoi(desc[1:])
			for _, attr := range c39attrs {
				for _, text := range c39texts {
					for kids := 0; kids < 4; kids++ {
						for more := 0; more < 4; more++ {
							for deep := 0; deep < 3; deep++ {
								t := N("_")
								e := t
								for j := 0; j < deep; j++ {
									e = e.Add([]string{"field", "p"}[j%2])
								}
								e = e.Add(c39names[i])
								a := e.Add(attr)
								if kids > 0 {
									a.Add(text)
								}
								for j := 1; j < kids; j++ {
									a.Add("second").Add("below")
								}
								for j := 0; j < more; j++ {
									e.Add([]string{"x", "field", "@id"}[j]).Add([]string{"@id", "@name", "y"}[j]).Add("m n")
								}
								t.Add("after").Add("@id").Add("z")
								c39check(c, t)
							}
						}
					}
				}
			}
		case 'w':
			n, _ := strconv.Atoi(desc[1:])
			wide, deep, deep2, mixed := N("_"), N("_"), N("_"), N("_")
			long := strings.Repeat("x ", n)
			at, at2 := deep, deep2
			m := mixed.Add("e")
			m.Add("@id").Add(long)
			for i := 0; i < n; i++ {
				f := wide.Add([]string{"field", "p", "q"}[i%3])
				f.Add([]string{"@name", "@id"}[i%2]).Add("n " + strconv.Itoa(i))
				f.Add("x")
				f.Add("y " + strconv.Itoa(i)).Add("z")
				m.Add("@k").Add(strconv.Itoa(i))
				if i < 10001 {
					at = at.Add("field")
					at.Add("@name").Add("d" + strconv.Itoa(i))
					at2 = at2.Add("p")
					at2.Add("@id").Add("d" + strconv.Itoa(i))
				}
			}
			m.Add("field").Add("@name").Add(long)
			for _, t := range []*T{wide, deep, deep2, mixed} {
				c.Step(1)
				g := t.Graph()
				gxml.Simplify(g)
				c.Eq(fmt.Sprintf("Simplify of size %d", n), GStr(g), simplified(t, true).Str())
			}
		}
	},
}

var c39names = []string{"field", "Field", "FIELD", "fields", "fiel", "_field", "field ", "p", "P", "pp", "", "q", "@id", "@name", "id", "name"}

var c39attrs = []string{"@id", "@ID", "@Id", "id", "@id2", "@i", "@ id", "@id ", "@name", "@NAME", "@Name", "name", "@names", "@nam", "@", ""}

var c39texts = []string{"", "a", "a b", " a", "a ", "a  b c", " ", "a\tb", "a\nb", "_", "p", "field", "@id", "\u00a0x", "é è"}

var c39parts = []string{">", " id='i'>", " id=''>", " id='p'>", " id='a b'>", " name='n'>", " name='a b  c'>", " name=''>", " id='i' name='n'>", " name='n' id='i'>", " x='1' id='i'>", " x='1' name='n'>", " ID='i'>", " id='i'>t", ">t", " name='@id'>", " id='field'>"}
