package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// a right side: an expression over constants and variables
type rhs struct {
	text string
	eval func(m *mn) interface{} // a value, a *mn (a graph), noValue or outside
}

// value19 is the value of a variable: a scalar, or the node
func value19(m *mn, p []pe) interface{} {
	n, _ := m.walk(p)
	if n == nil {
		return noValue{}
	}
	if p[len(p)-1].k == 'i' {
		if len(n.k) == 0 {
			return n.c
		}
		return outside{}
	}
	if len(n.k) == 1 && len(n.k[0].k) == 0 {
		return n.k[0].c
	}
	return n
}

func constant(t string, v interface{}) rhs { return rhs{t, func(*mn) interface{} { return v }} }

func variable(t string, p ...pe) rhs {
	return rhs{t, func(m *mn) interface{} { return value19(m, p) }}
}

func scalarOnly(v interface{}) interface{} {
	switch v.(type) {
	case *mn, noValue, nil:
		return outside{}
	}
	return v
}

func combine(op string, a, b interface{}) interface{} {
	a, b = scalarOnly(a), scalarOnly(b)
	for _, x := range []interface{}{a, b} {
		if _, o := x.(outside); o {
			return outside{}
		}
	}
	return xeval(&xn{op: op, l: leaf("", normal(a)), r: leaf("", normal(b))})
}

// normal turns all integers to int64
func normal(v interface{}) interface{} {
	if isInt(v) {
		i, _ := refInt(v)
		return i
	}
	return v
}

func binary(a rhs, op string, b rhs) rhs {
	return rhs{a.text + op + b.text, func(m *mn) interface{} { return combine(strings.TrimSpace(op), a.eval(m), b.eval(m)) }}
}

var (
	pA, pB, pD, pI, pL, pQ = pe{k: 'n', name: "a"}, pe{k: 'n', name: "b"}, pe{k: 'n', name: "d"}, pe{k: 'n', name: "i"}, pe{k: 'n', name: "l"}, pe{k: 'n', name: "q q", text: "'q q'"}
	pX                     = pe{k: 'n', name: "x"}
)

func at(i int) pe { return pe{k: 'i', ix: i} }

var c19targets = []struct {
	text string
	p    []pe
	i    bool // the last index is the value of the variable i
}{
	{"a", []pe{pA}, false}, {"b", []pe{pB}, false}, {"a.b", []pe{pA, pB}, false}, {"l[1]", []pe{pL, at(1)}, false}, {"'q q'", []pe{pQ}, false}, {"d.x.b", []pe{pD, pX, pB}, false}, {"l[i]", []pe{pL, at(0)}, true}, {"d.'q q'", []pe{pD, pQ}, false}, {"l[4]", []pe{pL, at(4)}, false}, {"i", []pe{pI}, false}, {"l[0].x", []pe{pL, at(0), pX}, false}, {"_z9", []pe{{k: 'n', name: "_z9"}}, false},
}

var c19ops = []string{"=", "+=", "-=", "*=", "/=", "%="}

var rA, rB, rI = variable("a", pA), variable("b", pB), variable("i", pI)

var c19rhs = []rhs{
	constant("7", int64(7)), constant("'x'", "x"), rA, binary(rB, "+", constant("1", int64(1))), constant("2.5", 2.5), constant(".5", 0.5), rB, variable("a.b", pA, pB), variable("d", pD), variable("l[1]", pL, at(1)),
	binary(constant("3", int64(3)), "*", rI), variable("d.'q q'", pD, pQ), constant("0", int64(0)), constant("1 == 1", true), constant("(1 + 2) * 3", int64(9)), constant("-4", int64(-4)), variable("d.x", pD, pX), constant("\"a = b\"", "a = b"),
	binary(rA, " - ", rB), constant("1 < 2 && 3 < 4", true), constant("''", ""), variable("l", pL), constant("'a'+'b'", "ab"), constant("9007199254740993", int64(9007199254740993)),
}

func c19graph(k int) *ogdl.Graph {
	g := ogdl.New("_")
	switch k {
	case 1:
		g.Add("a").Add(int64(5))
		g.Add("b").Add("x")
		g.Add("i").Add(int64(2))
		g.Add("d").Add("x").Add("y").Add(int64(1))
		l := g.Add("l")
		for _, v := range []interface{}{int64(1), 2.5, "s"} {
			l.Add(v)
		}
		g.Add("a").Add("second")
	case 2:
		g.Add("b").Add(1.5)
		g.Add("i").Add(int64(0))
		a := g.Add("a")
		a.Add("b").Add(int64(3))
		a.Add("c").Add("z")
		g.Add("d")
		g.Add("l").Add("x").Add("q")
	}
	return g
}

// c19step does one assignment; false: what follows is not specified
func c19step(c *C, P *pm, m *mn, g *ogdl.Graph, t, o, r, way int, hist func() string) bool {
	tg, op, rs := c19targets[t], c19ops[o], c19rhs[r]
	p := tg.p
	if tg.i {
		ix, isn := normal(value19(m, []pe{pI})).(int64)
		if !isn || ix < 0 || ix > 20 {
			return false
		}
		p = []pe{p[0], at(int(ix))}
	}
	v := rs.eval(m)
	switch v.(type) {
	case outside, noValue, nil:
		return false
	}
	if op != "=" {
		var old interface{} = noValue{}
		n, _ := m.walk(p)
		if n != nil && (p[len(p)-1].k == 'i' || len(n.k) > 0) {
			old = value19(m, p)
		}
		if _, isno := old.(noValue); isno {
			switch op[0] {
			case '+':
			case '-':
				v = combine("-", int64(0), v)
			case '*':
				v = int64(0)
			case '/':
				v = "infinity"
			case '%':
				v = "undefined"
			}
		} else {
			v = combine(op[:1], old, v)
		}
	}
	var kids []*mn
	switch x := v.(type) {
	case outside, nil:
		return false
	case noValue:
		// division by zero
		if p[len(p)-1].k == 'i' {
			return false
		}
	case *mn:
		if p[len(p)-1].k == 'i' {
			return false
		}
		kids = x.clone().k
	default:
		kids = []*mn{{c: v}}
	}
	m.set(p, kids)
	text := tg.text + []string{" " + op + " ", op, "  " + op}[(way+o)%3] + rs.text
	if way%2 == 0 {
		g.Eval(ogdl.NewExpression(text))
	} else {
		if s := ogdl.NewTemplate("x$(" + text + ")y").Process(g); string(s) != "xy" {
			c.Failf("%s: the template prints %q", hist(), s)
		}
	}
	c.Step(1)
	if s := P.same(m, g); s != "" {
		c.Failf("%s: %s; got %s, want %s", hist(), s, GTyped(g), m.str())
	}
	// no node is shared between variables
	if len(kids) > 0 {
		r, _ := m.walk(p)
		for i, k := range r.k {
			if k == r {
				c.Failf("%s: cycle at %d", hist(), i)
			}
		}
	}
	// the variable has this value, from everywhere
	want := value19(m, p)
	switch want.(type) {
	case outside, noValue, *mn, nil:
	default:
		got, err := g.Eval(ogdl.NewPath(tg.text))
		if err != nil || !(Content(got) == Content(want) || sameNumber(got, want)) {
			c.Failf("%s: %s is then %s (%v), want %s", hist(), tg.text, Content(got), err, Content(want))
		}
		if tg.text[0] != '\'' {
			if s := string(ogdl.NewTemplate("$" + tg.text).Process(g)); s != Str(got) {
				c.Failf("%s: $%s prints %q, want %q", hist(), tg.text, s, Str(got))
			}
		}
	}
	return true
}

func c19seq(c *C, graph int, ops [][3]int, way int) (done int) {
	g := c19graph(graph)
	P := newPM()
	P.loose = true
	m := P.from(g)
	i := 0
	hist := func() string {
		s := GTyped(c19graph(graph)) + ":"
		for _, o := range ops[:min(i+1, len(ops))] {
			s += " " + c19targets[o[0]].text + " " + c19ops[o[1]] + " " + c19rhs[o[2]].text + ";"
		}
		return s
	}
	for ; i < len(ops); i++ {
		o := ops[i]
		if !c19step(c, P, m, g, o[0], o[1], o[2], way+i, hist) {
			return i
		}
	}
	if len(ops) <= 2 {
		c.State(m.str())
	}
	return len(ops)
}

// every assignment over the first nt targets, no operators, nr right sides
func c19all(nt, no, nr int) [][3]int {
	var r [][3]int
	for t := 0; t < nt; t++ {
		for o := 0; o < no; o++ {
			for v := 0; v < nr; v++ {
				r = append(r, [3]int{t, o, v})
			}
		}
	}
	return r
}

var c19dims = [][4]int{{12, 6, 23, 1}, {12, 6, 12, 2}, {3, 6, 4, 3}, {4, 6, 5, 3}, {2, 4, 3, 4}, {2, 4, 2, 5}, {12, 6, 23, 2}}

var c19 = &Prop{
	ID:     "C19",
	Rule:   "every sequence of up to D assignments (12 targets: names, quoted names, nested paths, constant and computed indexes, existing and missing; 6 operators; 23 right sides: constants, variables, graphs, expressions) on three initial graphs, evaluated directly and from a template; after each one the whole graph, with the identity of its nodes, is compared with a store of variables, and the variable is read back. Also: things that cannot be assigned to, repeated compound assignments.",
	Bounds: "quick: D=1 of 12x6x23, D=2 of 12x6x12, D=3 of 3x6x4; thorough: D=2 of 12x6x23, D=3 of 4x6x5, D=4 of 2x4x3, D=5 of 2x4x2",
	Assume: []string{"sequences are followed until the first operation whose value is not specified (operators on graphs, mixed strings and numbers, absent right sides)"},
	Gen: func(thorough bool, emit func(string)) {
		emit("n")
		for k := 0; k < 3; k++ {
			for w := 0; w < 6; w++ {
				emit(fmt.Sprintf("s %d 0 %d -", k, w))
			}
		}
		for _, n := range sweep(thorough) {
			if n > 0 && n <= 2000 {
				emit(fmt.Sprintf("w %d", n))
			}
		}
		dims := []int{1, 2}
		if thorough {
			dims = []int{1, 2, 6, 3, 4, 5}
		}
		for _, d := range dims {
			x := c19dims[d]
			for k := 0; k < 3; k++ {
				for i := range c19all(x[0], x[1], x[2]) {
					emit(fmt.Sprintf("s %d %d %d %d", k, d, i%2, i))
				}
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'n':
			for _, l := range []string{"5", "2.5", "(a)", "a + 1", "-a", "!a", "a == b", "(a.b)", "1 + a", "a * b", "-5", "(5)", "a && b"} {
				for _, op := range c19ops {
					for _, r := range []string{"3", "a", "'x'", "(1+2)"} {
						for k := 0; k < 3; k++ {
							g := c19graph(k)
							before := GTyped(g)
							s := l + " " + op + " " + r
							g.Eval(ogdl.NewExpression(s))
							ogdl.NewTemplate("$(" + s + ")").Process(g)
							c.Step(2)
							if after := GTyped(g); after != before {
								c.Differ("after "+s, after, before)
							}
						}
					}
				}
			}
		case 'w':
			n, _ := strconv.Atoi(f[1])
			g := ogdl.New("_")
			g.Add("z").Add("keep")
			sum, e := int64(0), ogdl.NewExpression("a += i")
			inc := ogdl.NewTemplate("$(i += 1)$(b = a)$(a += i)$(c.d.e -= 2)$(s += 'x')")
			g.Eval(ogdl.NewExpression("i = 0"))
			for i := 0; i < n; i++ {
				g.Eval(e)
				inc.Process(g)
				sum += int64(i)
				if b := g.Get("b").Int64(); b != sum {
					c.Failf("round %d: b is %d, want %d", i, b, sum)
				}
				sum += int64(i + 1)
			}
			c.Step(n)
			c.Eq("after n rounds", GStr(g), fmt.Sprintf(`{"z"{"keep"} "i"{"%d"} "a"{"%d"} "b"{"%d"} "c"{"d"{"e"{"%d"}}} "s"{%q}}`, n, sum, sum-int64(n), -2*n, strings.Repeat("x", n)))
			// a list filled by index
			g = ogdl.New("_")
			t := ogdl.NewTemplate("$(l[i] = i * 2)$(i += 1)")
			g.Eval(ogdl.NewExpression("i = 0"))
			for i := 0; i < n; i++ {
				t.Process(g)
			}
			for i := 0; i < n; i++ {
				if v := g.Get("l").GetAt(i).ThisString(); v != strconv.Itoa(2*i) {
					c.Failf("l[%d] is %s", i, v)
				}
			}
			if g.Get("l").Len() != n {
				c.Failf("list of %d", g.Get("l").Len())
			}
		default:
			v := Ints(strings.Join(f[1:4], ","), ",")
			x := c19dims[v[1]]
			all := c19all(x[0], x[1], x[2])
			if f[4] == "-" {
				for _, o := range all {
					c19seq(c, v[0], [][3]int{o}, v[2])
				}
				return
			}
			first, _ := strconv.Atoi(f[4])
			// stop early if the first is not specified
			if c19seq(c, v[0], [][3]int{all[first]}, v[2]) == 0 {
				return
			}
			Seqs(len(all), x[3]-1, func(ix []int) {
				ops := [][3]int{all[first]}
				for _, i := range ix {
					ops = append(ops, all[i])
				}
				c19seq(c, v[0], ops, v[2])
			})
		}
	},
}
