package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// xn is an expression: a leaf (text and value), a unary or a binary operation
type xn struct {
	op   string
	l, r *xn
	text string
	v    interface{}
}

type noValue struct{}
type outside struct{} // not in the space (unspecified)

var xprec = map[string]int{"*": 5, "/": 5, "%": 5, "+": 4, "-": 4, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "&&": 2, "||": 1}
var xops = []string{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}

// tokens renders with the parentheses needed by Go's precedence, or with all
func (x *xn) tokens(full bool) []string {
	if x.op == "" {
		return []string{x.text}
	}
	par := func(t []string, p bool) []string {
		if p {
			return append(append([]string{"("}, t...), ")")
		}
		return t
	}
	if x.r == nil {
		t := x.l.tokens(full)
		return append([]string{"u" + x.op}, par(t, x.l.op != "" && (full || x.l.r != nil))...)
	}
	lt, rt := x.l.tokens(full), x.r.tokens(full)
	lt = par(lt, x.l.op != "" && (full || x.l.r != nil && xprec[x.l.op] < xprec[x.op]))
	rt = par(rt, x.r.op != "" && (full || x.r.r != nil && xprec[x.r.op] <= xprec[x.op]))
	return append(append(lt, x.op), rt...)
}

// spacing styles
func (x *xn) render(style int, full bool) string {
	t := x.tokens(full)
	var b strings.Builder
	for i, s := range t {
		bin := xprec[s] > 0
		u := s[0] == 'u' && len(s) == 2
		if u {
			s = s[1:]
		}
		switch style {
		case 0:
			b.WriteString(s)
		case 1:
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(s)
		case 2: // around binary operators
			if bin {
				s = " " + s + " "
			}
			b.WriteString(s)
		case 3: // before binary operators
			if bin {
				s = "  " + s
			}
			b.WriteString(s)
		case 4: // after operators, tabs
			if bin || u {
				s += "\t"
			}
			b.WriteString(s)
		}
	}
	return b.String()
}

func xeval(x *xn) interface{} {
	if x.op == "" {
		return x.v
	}
	a := xeval(x.l)
	switch a.(type) {
	case outside, noValue:
		return outside{}
	}
	if x.r == nil {
		switch x.op {
		case "!":
			if b, ok := a.(bool); ok {
				return !b
			}
		case "-":
			switch n := a.(type) {
			case int64:
				return -n
			case float64:
				return -n
			}
		}
		return outside{}
	}
	b := xeval(x.r)
	switch b.(type) {
	case outside, noValue:
		return outside{}
	}
	i, ai := a.(int64)
	j, bi := b.(int64)
	f, af := a.(float64)
	g, bf := b.(float64)
	s, as := a.(string)
	t, bs := b.(string)
	p, ab := a.(bool)
	q, bb := b.(bool)
	switch x.op {
	case "&&":
		if ab && bb {
			return p && q
		}
	case "||":
		if ab && bb {
			return p || q
		}
	case "+", "-", "*", "/", "%":
		switch {
		case ai && bi:
			switch x.op {
			case "+":
				return i + j
			case "-":
				return i - j
			case "*":
				return i * j
			case "/":
				if j == 0 {
					return noValue{}
				}
				return i / j
			case "%":
				if j == 0 {
					return noValue{}
				}
				return i % j
			}
		case (ai || af) && (bi || bf):
			if ai {
				f = float64(i)
			}
			if bi {
				g = float64(j)
			}
			switch x.op {
			case "+":
				return f + g
			case "-":
				return f - g
			case "*":
				return f * g
			case "/":
				if g == 0 { // the sign of a zero is not specified
					return outside{}
				}
				return f / g
			}
		case as && bs && x.op == "+":
			return s + t
		}
	default: // comparison
		switch {
		case ai:
			if !bi {
				var ok bool
				if bf && (g != g || math.Abs(g) > 1e15) {
					return outside{}
				}
				if j, ok = refInt(b); !ok || bb {
					return outside{}
				}
			}
			return map[string]bool{"==": i == j, "!=": i != j, "<": i < j, "<=": i <= j, ">": i > j, ">=": i >= j}[x.op]
		case af:
			if !bf {
				var ok bool
				if g, ok = refFloat(b); !ok || bb {
					return outside{}
				}
			}
			return map[string]bool{"==": f == g, "!=": f != g, "<": f < g, "<=": f <= g, ">": f > g, ">=": f >= g}[x.op]
		case as && !bf && (x.op == "==" || x.op == "!="):
			t = Str(b)
			return (s == t) == (x.op == "==")
		case ab && bb && (x.op == "==" || x.op == "!="):
			return (p == q) == (x.op == "==")
		}
	}
	return outside{}
}

func leaf(t string, v interface{}) *xn { return &xn{text: t, v: v} }

var xleaves = []*xn{
	leaf("7", int64(7)), leaf("i", int64(3)), leaf("0", int64(0)), leaf("2.5", 2.5), leaf("d.f", 1.5), leaf("'x'", "x"), leaf("s", "x"), leaf("t", true), leaf("n", false),
	leaf("l[1]", int64(2)), leaf("'+'", "+"), leaf("\"7\"", "7"), leaf("d.'k k'", int64(-4)), leaf("12", int64(12)), leaf("9223372036854775807", int64(math.MaxInt64)), leaf("y", true),
	leaf("l[i-1]", int64(9)), leaf("'a && (b'", "a && (b"), leaf("e{1}", int64(6)), leaf("''", ""), leaf(".5", 0.5),
}

// for the longer expressions: by type, different values by position
var xtyped = [][]*xn{
	{leaf("7", int64(7)), leaf("i", int64(3)), leaf("2", int64(2)), leaf("12", int64(12)), leaf("5", int64(5))},
	{leaf("t", true), leaf("n", false), leaf("y", true), leaf("n", false), leaf("t", true)},
	{leaf("2.5", 2.5), leaf("d.f", 1.5), leaf(".25", 0.25), leaf("8.5", 8.5), leaf("1.25", 1.25)},
	{leaf("'x'", "x"), leaf("s", "x"), leaf("'yz'", "yz"), leaf("'x'", "x"), leaf("s", "x")},
}

func c18ctx() *ogdl.Graph {
	g := ogdl.New("_")
	g.Add("i").Add(int64(3))
	g.Add("t").Add(true)
	g.Add("n").Add(false)
	g.Add("y").Add("true")
	g.Add("s").Add("x")
	d := g.Add("d")
	d.Add("f").Add(1.5)
	d.Add("k k").Add(int64(-4))
	l := g.Add("l")
	for _, v := range []int{1, 2, 9} {
		l.Add(v)
	}
	g.Add("e").Add(int64(5))
	g.Add("e").Add(int64(6))
	return g
}

var c18g = c18ctx()

// xtrees enumerates all binary trees with n operators over given leaves (in order)
func xtrees(ops []string, leaves []*xn) []*xn {
	if len(ops) == 0 {
		return leaves[:1]
	}
	var r []*xn
	for i := range ops {
		for _, a := range xtrees(ops[:i], leaves[:i+1]) {
			for _, b := range xtrees(ops[i+1:], leaves[i+1:]) {
				r = append(r, &xn{op: ops[i], l: a, r: b})
			}
		}
	}
	return r
}

// unaries: all ways to put one unary operator somewhere (and none)
func unaries(x *xn) []*xn {
	r := []*xn{x}
	if x.op != "" && x.r != nil {
		for _, l := range unaries(x.l)[1:] {
			r = append(r, &xn{op: x.op, l: l, r: x.r})
		}
		for _, q := range unaries(x.r)[1:] {
			r = append(r, &xn{op: x.op, l: x.l, r: q})
		}
	}
	r = append(r, &xn{op: "!", l: x}, &xn{op: "-", l: x})
	return r
}

func c18one(c *C, x *xn, styles int) {
	want := xeval(x)
	if _, ok := want.(outside); ok {
		return
	}
	seen := map[string]bool{}
	for st := 0; st < styles; st++ {
		for _, full := range []bool{false, true} {
			s := x.render(st, full)
			if seen[s] {
				continue
			}
			seen[s] = true
			c.Step(1)
			e := ogdl.NewExpression(s)
			v, err := c18g.Eval(e)
			if _, ok := want.(noValue); ok {
				if v != nil {
					c.Failf("%s: got %s, want no value", s, Content(v))
				}
				continue
			}
			if err != nil {
				c.Failf("%s: error %v", s, err)
			}
			if x.op == "" {
				if Str(v) == Str(want) {
					continue // the content itself
				}
			}
			if !xsame(v, want) {
				c.Failf("%s: got %s, want %s", s, Content(v), Content(want))
			}
			if z, ok := want.(float64); st > 0 || full || ok && z == 0 {
				continue // (the sign of a zero is not specified)
			}
			if b, ok := want.(bool); ok {
				got := string(ogdl.NewTemplate("$if(" + s + ")T$else F$end").Process(c18g))
				if got != map[bool]string{true: "T", false: " F"}[b] {
					c.Failf("$if(%s): got %q", s, got)
				}
			} else if !strings.Contains(s, "$") {
				h := ogdl.New("_")
				h.AddNodes(c18g)
				got := string(ogdl.NewTemplate("$(r=" + s + ")$r").Process(h))
				if got != Str(want) {
					c.Failf("$(r=%s)$r: got %q, want %q", s, got, Str(want))
				}
				if k, ok := want.(int64); ok && k >= 0 && k < 3 {
					if r, _ := c18g.Eval(ogdl.NewExpression("l[" + s + "]")); !xsame(r, []int64{1, 2, 9}[k]) {
						c.Failf("l[%s]: got %s", s, show(r))
					}
				}
			}
		}
	}
}

func xsame(v, want interface{}) bool {
	if i, ok := v.(int); ok {
		v = int64(i)
	}
	if a, ok := v.(float64); ok {
		if b, ok := want.(float64); ok {
			return a == b || a != a && b != b
		}
	}
	return same(v, want)
}

var c18 = &Prop{
	ID:     "C18",
	Rule:   "every expression tree with up to N binary operators (13) over typed operands (literals, paths, computed indexes; integers, floats, strings, booleans, zero, limits), without and with one unary operator at every position, written with the parentheses Go's precedence needs and fully parenthesised, in 5 spacings; evaluated directly, in $if, in an assignment and as an index; compared with a reference evaluator of the tree. Trees whose value is unspecified (mixed strings and numbers, ordered strings, % of floats) are left out. Sweeps: chains of one or two operators, nested parentheses and unary chains up to 3000.",
	Bounds: "quick: N=1 all operand pairs of 20, N=2 over 20x20 with fixed third and all of 7, N=3 over types; thorough: N=4 over types",
	Gen: func(thorough bool, emit func(string)) {
		for i := range xleaves {
			emit(fmt.Sprintf("1 %d", i))
		}
		for _, n := range sweep(thorough) {
			if n <= 3000 {
				emit(fmt.Sprintf("s %d", n))
			}
		}
		for o := range xops {
			for p := range xops {
				for i := range xleaves {
					emit(fmt.Sprintf("2 %d %d %d", o, p, i))
				}
			}
		}
		for o := range xops {
			for p := range xops {
				for q := range xops {
					emit(fmt.Sprintf("3 %d %d %d", o, p, q))
				}
			}
		}
		if thorough {
			for o := range xops {
				for p := range xops {
					for q := range xops {
						for r := range xops {
							emit(fmt.Sprintf("3 %d %d %d %d", o, p, q, r))
						}
					}
				}
			}
		}
	},
	Run: func(c *C, desc string) {
		f := Ints(desc[2:], " ")
		switch desc[0] {
		case '1':
			a := xleaves[f[0]]
			for _, x := range unaries(a) {
				for _, y := range unaries(x) {
					c18one(c, y, 5)
				}
			}
			for _, b := range xleaves {
				for _, o := range xops {
					for _, x := range unaries(&xn{op: o, l: a, r: b}) {
						for _, y := range unaries(x) {
							c18one(c, y, 5)
						}
					}
				}
			}
			c.State(a.text)
		case '2':
			for _, b := range xleaves {
				for k, d := range xleaves {
					if k > 8 {
						break
					}
					for _, x := range xtrees([]string{xops[f[0]], xops[f[1]]}, []*xn{xleaves[f[2]], b, d}) {
						c18one(c, x, 2)
						if f[2] < 9 && k < 9 && b.text != "''" {
							for _, y := range unaries(x)[1:] {
								c18one(c, y, 1)
							}
						}
					}
				}
			}
			c.State(xops[f[0]] + xops[f[1]])
		case '3':
			n := len(f)
			var ops []string
			for _, o := range f {
				ops = append(ops, xops[o])
			}
			Seqs(len(xtyped), n+1, func(ix []int) {
				var ls []*xn
				for i, t := range ix {
					if n > 3 && t > 1 {
						return
					}
					ls = append(ls, xtyped[t][i])
				}
				for _, x := range xtrees(ops, ls) {
					c18one(c, x, 1)
				}
			})
			c.State(strings.Join(ops, ""))
		case 's':
			n := f[0]
			rep := func(first, more string) string { return first + strings.Repeat(more, n) }
			chk := func(s string, want interface{}) {
				c.Step(1)
				v, err := c18g.Eval(ogdl.NewExpression(s))
				if err != nil || !xsame(v, want) {
					if len(s) > 60 {
						s = s[:60] + "..."
					}
					c.Failf("%s (%d): got %s, want %s", s, n, show(v), show(want))
				}
			}
			N := int64(n)
			chk(rep("0", "+1"), N)
			chk(rep("10", " - i"), 10-3*N)
			chk(rep("0", "+2*i"), 6*N)
			chk(rep("0", "+2*i-1"), 5*N)
			chk(rep("100", "-2*3/2"), 100-3*N)
			chk(rep("1.5", "+1"), 1.5+float64(N))
			chk(rep("'a'", "+'b'"), "a"+strings.Repeat("b", n))
			chk(rep("t", "&&t"), true)
			chk(rep("t", "&&t")+"&&n", false)
			chk(rep("n", "||n")+"||t", true)
			chk(rep("t", "||t&&n"), true)
			if n <= 300 {
				chk(strings.Repeat("(", n)+"1"+strings.Repeat("+1)", n), N+1)
				chk(strings.Repeat("(1+", n)+"1"+strings.Repeat(")", n), N+1)
				chk(strings.Repeat("(1-", n)+"1"+strings.Repeat(")", n), map[bool]int64{true: 1, false: 0}[n%2 == 0])
				chk(strings.Repeat("!", n)+"t", n%2 == 0)
				chk(strings.Repeat("- ", n)+"i", map[bool]int64{true: 3, false: -3}[n%2 == 0])
				chk("l["+strings.Repeat("(", n)+"1"+strings.Repeat(")", n)+"]", int64(2))
			}
			chk(strings.Repeat(" ", n)+"7"+strings.Repeat(" ", n)+"+"+strings.Repeat(" ", n)+"i"+strings.Repeat("\t", n), int64(10))
			chk("'"+strings.Repeat("z", n)+"'+'y'", strings.Repeat("z", n)+"y")
			d := strconv.Itoa(n)
			chk(d+"*"+d, N*N)
		}
	},
}
