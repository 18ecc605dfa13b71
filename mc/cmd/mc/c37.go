package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

func init() { props = append(props, c37) }

// c37html: a line per node; nodes with subnodes are links to their path
func c37html(b *strings.Builder, t *T, level int, path string) {
	for _, n := range t.K {
		l := n.L
		if l == "" {
			l = "_"
		}
		line := strings.Repeat("&nbsp;&nbsp;", level) + l
		if len(n.K) > 0 {
			line = "<a href='" + path + "/" + l + "'>" + line + "</a>"
		}
		b.WriteString(line + "<br>\n")
		c37html(b, n, level+1, path+"/"+l)
	}
}

// c37show: a line per node, also for the top node
func c37show(b *strings.Builder, t *T, level int) {
	l := t.L
	if l == "" {
		l = "_"
	}
	b.WriteString(strings.Repeat("  ", level) + l + "\n")
	for _, n := range t.K {
		c37show(b, n, level+1)
	}
}

func c37check(c *C, t *T, g *ogdl.Graph) {
	k := shared(g)
	var v strings.Builder
	c37show(&v, &T{L: Str(g.This), K: t.K}, 0)
	// (texts that have to be quoted are not specified)
	quoted := strings.ContainsAny(v.String(), "\\`")
	c.Step(1)
	if !quoted {
		c.Eq("Show of "+clipT(t), g.Show(), strings.TrimSuffix(v.String(), "\n"))
	}
	if k != nil {
		c.Eq("Show with shared nodes of "+clipT(t), k.Show(), g.Show())
	}
	for i, n := range g.Out { // each subtree is a graph too
		if quoted || len(g.Out) > 20 || i > 3 {
			break
		}
		v.Reset()
		c37show(&v, t.K[i], 0)
		c.Eq("Show of a node of "+clipT(t), n.Show(), strings.TrimSuffix(v.String(), "\n"))
	}
	for _, path := range []string{"", "/x", "a/b"} {
		var b strings.Builder
		c37html(&b, t, 0, path)
		c.Step(1)
		c.Eq("Html("+strconv.Quote(path)+") of "+clipT(t), g.Html(path), strings.TrimSuffix(b.String(), "\n"))
		if k != nil {
			c.Eq("Html("+strconv.Quote(path)+") with shared nodes of "+clipT(t), k.Html(path), g.Html(path))
		}
	}
	c.State(t.Str())
}

var c37vals = []interface{}{int64(5), 2.5, true, []byte("by"), nil, "w", uint8(3)}

var c37 = &Prop{
	ID:     "C37",
	Rule:   "every tree of up to N nodes with every labelling over 3 words (one of them empty), every content type at every position of the trees up to 4 nodes, and deep and wide sweeps, with 3 paths; the page and the tree view are compared with those made from the tree.",
	Bounds: "quick: N=6; thorough: N=7",
	Gen: func(thorough bool, emit func(string)) {
		max := 6
		if thorough {
			max = 7
		}
		for n := 0; n <= max; n++ {
			Shapes(n, func(lv []int) { emit("t" + JoinInts(lv, ",")) })
		}
		for _, n := range append(sweep(thorough), vast...) {
			if n <= 700 {
				emit(fmt.Sprintf("d%d", n))
			}
			emit(fmt.Sprintf("w%d", n))
		}
	},
	Run: func(c *C, desc string) {
		switch desc[0] {
		case 't':
			var lv []int
			if len(desc) > 1 {
				lv = Ints(desc[1:], ",")
			}
			words := []string{"ab", "é-1.x", ""}
			Seqs(len(words), len(lv), func(ix []int) {
				var l []string
				for _, i := range ix {
					l = append(l, words[i])
				}
				t := Forest(lv, l)
				c37check(c, t, t.Graph())
			})
			if len(lv) <= 4 {
				Seqs(len(c37vals), len(lv), func(ix []int) {
					var l []string
					for _, i := range ix {
						l = append(l, Str(c37vals[i]))
					}
					t := Forest(lv, l)
					g := t.Graph()
					k := 0
					var set func(g *ogdl.Graph)
					set = func(g *ogdl.Graph) {
						for _, n := range g.Out {
							n.This = c37vals[ix[k]]
							k++
							set(n)
						}
					}
					set(g)
					c37check(c, t, g)
				})
			}
		case 'd':
			n, _ := strconv.Atoi(desc[1:])
			t := N("_")
			p := t
			for i := 0; i < n; i++ {
				p = p.Add("w" + strconv.Itoa(i))
			}
			p.Add("x")
			p.Add("y")
			t.Add("end")
			c37check(c, t, t.Graph())
			t = N("_") // the same, with empty nodes
			p = t
			for i := 0; i < n; i++ {
				p = p.Add([]string{"w", "v", ""}[(i+n)%3])
			}
			p.Add("")
			p.Add("y")
			c37check(c, t, t.Graph())
		case 'w':
			n, _ := strconv.Atoi(desc[1:])
			t := N("_")
			for i := 0; i < n; i++ {
				t.Add("w" + strconv.Itoa(i)).Add("v")
				t.Add(strings.Repeat("l", min(i, 2000000/n)))
			}
			t.Add(strings.Repeat("l", n)).Add(strings.Repeat("m", n))
			c37check(c, t, t.Graph())
		}
	},
}
