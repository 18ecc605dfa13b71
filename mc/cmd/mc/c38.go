package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

func init() { props = append(props, c38) }

var c38names = []string{"_len", "_this", "_thisString", "_string", "_json"}

// c38want is what the pseudo element k reports about the target t: the value of an
// evaluation, the text in a template. open: not specified.
func c38want(t target, k int) (val interface{}, text string, open bool) {
	kids := t.out()
	r := &ogdl.Graph{Out: kids}
	switch k {
	case 0:
		return len(kids), strconv.Itoa(len(kids)), false
	case 1:
		if !t.hold {
			r = t.node
		}
		return r, r.Text(), false
	case 2:
		if t.hold {
			return nil, "", true
		}
		return Str(t.node.This), Str(t.node.This), false
	case 3:
		s := ""
		if len(kids) > 0 {
			s = Str(kids[0].This)
		}
		return s, s, false
	}
	return r.JSON(), string(r.JSON()), false
}

func c38check(c *C, g *ogdl.Graph, els []pe, dots bool) {
	t := follow(g, els)
	if n := len(els); n > 0 && els[n-1].k == 'i' && t.ok {
		t = target{ok: true, node: t.kids[0]} // an index followed by something: the node itself
	}
	p := pathText(els, dots)
	if p != "" {
		p += "."
	}
	directive := false
	if len(els) > 0 {
		switch els[0].str() {
		case "if", "for", "else", "elseif", "end", "break": // directives in a template
			directive = true
		}
	}
	for k, name := range c38names {
		c.Step(1)
		q := p + name
		var want interface{}
		var text string
		var open bool
		if t.ok {
			want, text, open = c38want(t, k)
		}
		if open {
			continue
		}
		check := func(what string, v interface{}) {
			r, isG := v.(*ogdl.Graph)
			switch {
			case !t.ok:
				if v != nil && !(isG && r == nil) {
					c.Failf("%s in %s: %v, want no value", what, GStr(g), v)
				}
			case k == 1:
				if !isG || !t.hold && r != t.node {
					c.Failf("%s in %s: %v is not the node", what, GStr(g), v)
				}
				if t.hold {
					c.Eq(what+" in "+GStr(g), GStr(&ogdl.Graph{Out: r.Out}), GStr(want.(*ogdl.Graph)))
				}
			case k == 0:
				n, ok := refInt(v)
				if !ok || n != int64(want.(int)) {
					c.Failf("%s in %s: %v, want %d", what, GStr(g), v, want)
				}
			case k == 4:
				b, ok := v.([]byte)
				if s, is := v.(string); is {
					b, ok = []byte(s), true
				}
				if !ok || !bytes.Equal(b, want.([]byte)) {
					c.Failf("%s in %s: %s, want %s", what, GStr(g), clipB(b), clipB(want.([]byte)))
				}
			default:
				if s, ok := v.(string); !ok || s != want.(string) {
					c.Failf("%s in %s: %v, want %q", what, GStr(g), v, want)
				}
			}
		}
		v, _ := g.Eval(ogdl.NewPath(q))
		check("Eval(NewPath("+q+"))", v)
		if len(els) > 0 && !(q[0] >= 'a' && q[0] <= 'z') {
			continue
		}
		v, _ = g.Eval(ogdl.NewExpression(q))
		check("expression "+q, v)
		if directive {
			continue
		}
		if s, want := string(ogdl.NewTemplate("<$"+q+">").Process(g)), "<"+text+">"; s != want {
			c.Failf("template $%s in %s: %q, want %q", q, GStr(g), s, want)
		}
		if k == 0 && t.ok {
			n := int64(want.(int))
			for _, x := range []struct {
				e string
				v interface{}
			}{{q + " + 1", n + 1}, {q + "*2", 2 * n}, {q + " == " + text, true}, {q + " > " + text, false}, {"1 + " + q, n + 1}} {
				v, _ := g.Eval(ogdl.NewExpression(x.e))
				if Content(v) != Content(x.v) {
					c.Failf("expression %s in %s: %s, want %s", x.e, GStr(g), Content(v), Content(x.v))
				}
			}
			if s := string(ogdl.NewTemplate("$if(" + q + " == " + text + ")y$else n$end").Process(g)); s != "y" {
				c.Failf("condition %s == %s in %s: %q", q, text, GStr(g), s)
			}
		}
	}
}

var c38 = &Prop{
	ID:     "C38",
	Rule:   "every graph of up to N nodes over 2 labels (also integer, boolean, byte and missing contents) x every path of up to M elements (names, indexes, selectors; none) followed by each of _len, _this, _thisString, _string, _json, evaluated as path, in an expression and in a template (_len also in arithmetic and in conditions), compared with what the model of path lookup addresses. Children with these names; sizes up to 100001 children.",
	Bounds: "quick: N=4 M=3; thorough: N=5 M=3",
	Assume: []string{"nothing follows the pseudo element", "the JSON text is that of the addressed node (C24)", "the text of the result of a selector is not specified"},
	Gen: func(thorough bool, emit func(string)) {
		n := 4
		if thorough {
			n = 5
		}
		for _, kind := range "gtbn" {
			for k := 0; k <= n; k++ {
				Shapes(k, func(lv []int) {
					Strings([]string{"0", "1"}, k, k, func(l string) { emit(fmt.Sprintf("%c %s %s", kind, JoinInts(lv, ","), l)) })
				})
			}
		}
		for i := range c16vals {
			emit(fmt.Sprintf("v %d", i))
		}
		for _, n := range append(sweep(thorough), vast...) {
			emit(fmt.Sprintf("w %d", n))
		}
	},
	Init: func() {
		for _, k := range "gtbn" {
			names := map[rune][]string{'g': {"a", "b"}, 't': {"a", "1"}, 'b': {"true", "a"}, 'n': {"a", "b"}}[k]
			c11p["p"+string(k)] = c11paths(names, 3)
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		arg := func() int { n, _ := strconv.Atoi(f[1]); return n }
		switch desc[0] {
		case 'g', 't', 'b', 'n':
			g := c11graph(Ints(f[1], ","), f[2], desc[0])
			before := GTyped(g)
			c.State(before)
			c38check(c, g, nil, false)
			for _, p := range c11p["p"+f[0]] {
				c38check(c, g, p.els, strings.Contains(p.text, ".[") || strings.Contains(p.text, ".{"))
			}
			c.Eq("the graph after the evaluations", GTyped(g), before)
		case 'v':
			v := c16vals[arg()]
			n, i := func(s string) pe { return pe{k: 'n', name: s} }, pe{k: 'i', ix: 0}
			for _, second := range []interface{}{nil, "x", int64(2), []byte("y z")} {
				for shape := 0; shape < 3; shape++ {
					g := ogdl.New("_")
					a := g.Add("a")
					a.Out = append(a.Out, &ogdl.Graph{This: v})
					if second != nil {
						switch shape {
						case 0:
							a.Add(second)
						case 1:
							a.Out[0].Add(second)
						case 2:
							a.Out[0].Add("k").Add(second)
						}
					}
					// children of these names change nothing
					for _, s := range c38names {
						g.Add(s).Add("no")
					}
					g.Add("b").Add("_len").Add("5")
					g.Add("a").Add("_this").Add("5")
					for _, p := range [][]pe{nil, {n("a")}, {n("a"), i}, {n("b")}, {i}, {i, i}, {n("a"), {k: 's', ix: 1}}, {n("a"), {k: 'a'}}, {n("zz")}, {n("a"), n("zz")}} {
						c38check(c, g, p, false)
					}
				}
			}
		case 'w':
			k := arg()
			g := ogdl.New("_")
			a := g.Add("a")
			deep := g.Add("d")
			at := deep
			for j := 0; j < k; j++ {
				a.Add("k" + strconv.Itoa(j%10)).Add(j)
				if j < 300 {
					at = at.Add("n")
				}
			}
			g.Add("s").Add(strings.Repeat("x y", k))
			n := func(s string) pe { return pe{k: 'n', name: s} }
			for _, p := range [][]pe{nil, {n("a")}, {n("a"), {k: 'i', ix: k - 1}}, {n("a"), n("k1"), {k: 'a'}}, {n("d")}, {n("s")}, {n("a"), {k: 'i', ix: k}}} {
				c38check(c, g, p, false)
			}
		}
	},
}
