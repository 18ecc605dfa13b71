package main

import (
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

var c04labels = []string{"w", "x y", "l\n m\nn", "q\"'\\\"", "# c", "\\", "a\\", "\"", "'", "`b`", "é,(", "\n", "#", " ", "\t\\'", "'q\\", "{[", "12"}

// representable: there is a notation for it
func c04ok(s string) bool {
	if s == "" || strings.Contains(s, "\r") {
		return false
	}
	return !(strings.Contains(s, "`") && strings.HasSuffix(s, "\\"))
}

func c04check(c *C, t *T) {
	g := t.Graph()
	before := GFull(g)
	text := g.Text()
	c.Step(t.Size())
	back := ogdl.FromString(text)
	got, want := GStr(back), t.Str()
	c.State(want)
	if got != want {
		c.Differ("parse of the text "+strconv.Quote(text), got, want)
	}
	if h := shared(g); h != nil && t.Size() < 20 {
		c.Eq("text of a graph with shared nodes", h.Text(), text)
		c.Eq("tree view of a graph with shared nodes", h.Show(), g.Show())
	}
	// equal, as the library sees it
	g.This = back.This
	if !g.Equals(back) || !back.Equals(g) {
		c.Failf("Equals is false for %s", want)
	}
	g.This = "_"
	c.Eq("graph after Text", GFull(g), before)
	// With its root, and as bytes
	top := g.GetAt(0)
	if top != nil && len(g.Out) == 1 {
		c.Same("parse of Show", ogdl.FromString(top.Show()), t)
	}
}

var c04 = &Prop{
	ID:     "C04",
	Rule:   "(t) every ordered tree of up to N nodes with top level words and every assignment of 18 hard labels to the deeper nodes (12 when N nodes); (s) every string up to length M over 16 characters as label of a leaf, of an inner node and at level 3, followed by siblings; depth, width and length sweeps. The emitted text is parsed by the real parser and the trees compared; text of a single scalar compared with the content. Labels up to 1 MB and lists of up to 131073 nodes.",
	Bounds: "quick: N=4, M=4; thorough: N=5 (8 labels), M=5",
	Assume: []string{"strings with a carriage return, and strings that contain a back quote and end in a backslash, have no notation and are excluded"},
	Gen: func(thorough bool, emit func(string)) {
		max := 4
		if thorough {
			max = 5
		}
		for n := 1; n <= max; n++ {
			Shapes(n, func(lv []int) {
				deep := 0
				for _, l := range lv {
					if l > 0 {
						deep++
					}
				}
				k := len(c04labels)
				if n == 4 {
					k = 12
				} else if n == 5 {
					k = 8
				}
				Seqs(k, deep, func(ix []int) {
					emit("t" + JoinInts(lv, ",") + ":" + JoinInts(ix, ","))
				})
			})
		}
		alpha := []string{"a", " ", "\n", "\"", "'", "`", "\\", "#", ",", "é", "\t", "(", ")", "$", "1", "_"}
		m := 4
		if thorough {
			m = 5
		}
		Strings(alpha, 1, m, func(s string) { emit("s" + s) })
		for _, n := range sweep(thorough) {
			emit("L" + strconv.Itoa(n))
		}
		for _, n := range huge {
			emit("G" + strconv.Itoa(n))
		}
	},
	Run: func(c *C, desc string) {
		s := desc[1:]
		switch desc[0] {
		case 't':
			a, b, _ := strings.Cut(s, ":")
			lv, ix := Ints(a, ","), Ints(b, ",")
			var labels []string
			k := 0
			for i, l := range lv {
				if l == 0 {
					labels = append(labels, "top"+strconv.Itoa(i))
				} else {
					labels = append(labels, c04labels[ix[k]])
					k++
				}
			}
			c04check(c, Forest(lv, labels))
		case 's':
			if !c04ok(s) {
				c.Skip()
			}
			c04check(c, N("_", N("a", N(s)), N("z")))
			c04check(c, N("_", N("a", N(s, N("b"), N(s)), N("c"))))
			c04check(c, N("_", N("a", N("b", N(s, N(s)), N("c")), N(s), N(s)), N("z")))
			// a scalar result
			g := ogdl.New("_")
			g.Add("k").Add(s)
			c.Eq("Text of a scalar", g.Get("k").Text(), s)
			h := ogdl.New("x")
			h.Add(s)
			c.Eq("Text", h.Text(), s)
		case 'G':
			n, _ := strconv.Atoi(s)
			for _, l := range []string{strings.Repeat("x", n), strings.Repeat("x y", n/3), strings.Repeat("line\n", n/5) + "e", strings.Repeat("\"", n), strings.Repeat("\\", n)} {
				c04check(c, N("_", N("a", N(l, N("k", N(l))), N("c")), N("z")))
			}
			if n <= 131073 {
				t := N("_", N("a"))
				for i := 0; i < n; i++ {
					t.K[0].Add("v" + strconv.Itoa(i))
				}
				t.Add("z")
				c04check(c, t)
			}
		case 'L':
			n, _ := strconv.Atoi(s)
			// long labels, deep chains, many children
			for _, l := range []string{strings.Repeat("x", n), strings.Repeat("x y", n), strings.Repeat("l\n", n) + "e", strings.Repeat("\"", n), strings.Repeat("\\", n) + "'", strings.Repeat("\\", n), strings.Repeat("\n", n) + "x", strings.Repeat(" ", n)} {
				c04check(c, N("_", N("a", N(l, N("k", N(l))), N("c")), N("z")))
			}
			t := N("_", N("a"))
			for i := 0; i < n; i++ {
				t.K[0].Add("v " + strconv.Itoa(i)).Add("q\"" + strconv.Itoa(i))
			}
			t.Add("z")
			c04check(c, t)
			if n < 900 {
				t = N("_")
				p := t.Add("a")
				for i := 0; i < n; i++ {
					p.Add("k " + strconv.Itoa(i))
					p = p.Add("v\n" + strconv.Itoa(i))
				}
				c04check(c, t)
			}
		}
	},
}
