package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

var c05ogdl = []string{"a", " ", "\n", "\r", "\t", "\"", "'", "`", "\\", "#", ",", "\x00", "\x80", "é", "\x1f", "1"}
var c05path = []string{"a", "b", "1", ".", "[", "]", "{", "}", "(", ")", ",", "'", "\"", " ", "-", "!", "+", "$", "\x80", "\x00", "f", "_len"}
var c05expr = []string{"a", "b.c", "1", "2.5", "'x'", "+", "-", "*", "/", "%", "&", "|", "!", "<", ">", "=", "==", "&&", "||", "+=", "(", ")", "[", "]", "{", "}", ",", ".", " ", "true", "~", "é", "$", "'", "0", "\x00", "b[0]", "nil", "f", "T"}
var c05tmpl = []string{"$if(", "$if(a)", "$else", "$elseif(a)", "$end", "$for(i,b)", "$for(", "$break", "$a", "$b", "$(", "${", "}", ")", "x", "$", "\\", "a=1)", "$i.c", "(", ",", "$for(a,a)", "$for(b,b)", "b=b)", ".", "$if(i)", "[0]", "\x00", "$for(i,_)", "$f(1)"}

// evaluation contexts
func c05ctxs() []*ogdl.Graph {
	t := ogdl.New("_")
	t.Add("a").Add(int64(3))
	b := t.Add("b")
	b.Add("c").Add(2.5)
	b.Add(true)
	b.Add([]byte("x"))
	t.Add("T").Add(&c05T{})
	f := ogdl.New("_")
	f.Add("a").Add(0)
	f.Add("b").Add("c").Add("x")
	f.Add("f").Add(func(i int64) int64 { return i })
	h := ogdl.New(nil)
	h.Add("a")
	n := ogdl.New("_")
	n.Out = []*ogdl.Graph{{This: nil}, {This: "a", Out: []*ogdl.Graph{{This: nil, Out: []*ogdl.Graph{{This: nil}}}, {This: "c"}}}, {This: "b", Out: []*ogdl.Graph{{This: ""}}}}
	return []*ogdl.Graph{
		nil,
		ogdl.New("_"),
		ogdl.FromString("a 1\nb\n  c 2\n  c 3\n  d\n    e x\nb y\n"),
		ogdl.FromStringTypes("a true\nb\n  c 0\n  1\ni\n  c"),
		t, f, h, n,
	}
}

type c05T struct{ n int }

func (t *c05T) A(i int) int        { return i }
func (t *c05T) B(s string) string  { return s }
func (t *c05T) F(a, b interface{}) {}

var c05base = c05ctxs()

func c05ctx(i int) *ogdl.Graph {
	return c05base[i].Clone()
}

func emitAll(g *ogdl.Graph) {
	_ = g.Text()
	_ = g.Show()
	_ = g.Binary()
	_ = g.JSON()
	_ = g.Html("/x")
}

// contents of every kind a graph can hold
var c05vals = []interface{}{
	nil, "", "a", "5", "-1", "0", "0.5", "-0.25", ".5", "1e400", "NaN", "-Inf", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "true", "'", "!p", "-", "$", "\x00", "\xff", "[", "{", "a b\nc",
	true, false, 0, 1, -1, int8(-128), uint8(0), int16(3), 'r', int64(math.MinInt64), int64(math.MaxInt64), uint64(math.MaxUint64), uint(0), uintptr(1),
	0.0, 0.5, -0.25, 2.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 5e-324, math.Copysign(0, -1), float32(0.25), complex(1, 2),
	[]byte(nil), []byte{}, []byte("x"), []byte("0.5"), []string{"a"}, []int{}, []interface{}{map[string]int{}}, map[string]int{"a": 1}, map[string]interface{}(nil), struct{}{}, struct{ a []int }{}, [2]int{}, [1][]int{},
	make(chan int), errors.New("e"), (*c05T)(nil), &c05T{}, c05T{}, (*ogdl.Graph)(nil), ogdl.New("x"), ogdl.FromString("a 1\nb"), new(int), (*int)(nil), &struct{ a int }{},
	func() {}, (func())(nil), func(a, b int) int { return a }, (func(int64) int64)(nil), func(...string) {}, func(interface{}) {}, func(*ogdl.Graph) (*ogdl.Graph, error) { return nil, nil }, (func(*ogdl.Graph) (*ogdl.Graph, error))(nil), func(f func()) {}, func() error { return nil },
}

var c05forms = []string{
	"$(c=a+b)$c", "$(c=a-b)$c", "$(c=a*b)$c", "$(c=a/b)$c", "$(c=a%b)$c", "$if(a==b)x$end", "$if(a!=b)x$end", "$if(a<b)x$end", "$if(a>b)x$end", "$if(a<=b)x$end", "$if(a>=b)x$end", "$if(a&&b)x$end", "$if(a||b)x$end",
	"$(a=b)$a", "$(a+=b)$a", "$(a-=b)$a", "$(a*=b)$a", "$(a/=b)$a", "$(a%=b)$a", "$l[a]", "$l{a}", "$l[b].x", "$l.(a)", "$(l[a]=b)$l", "$(m.x[b]=a)$m",
	"$for(i,a)$i;$b$end", "$for(i,a.b)$i$end", "$for(b,a)$b;$end", "$(c=(a,b))$c", "$(c=!a)$c", "$(c=-a)$c", "$a(b)", "$a(b,b)", "$a.x(b)", "$a()", "$a.A(b)", "$a.B(b)", "$a.F(b,a)", "$a.F(a)", "$a[0](b)", "$a.a", "$a.b", "$a._len", "$a._json", "$a._this", "$a._string", "$a._thisString", "$a{}", "$a{0}", "$a[b]{}", "${a.(b)}", "$(c=a(b)+b)$c",
	"$(c=a+0.5)$c", "$(c=a%0.5)$c", "$(c=a/0)$c", "$(c=a%0)$c", "$(c=5%a)$c", "$(c=5/a)$c", "$(c=0.5/a)$c", "$(c=7.5%a)$c", "$(c='x'+a)$c", "$(c='x'-a)$c", "$(c=a-'x')$c",
}

// c05values: one content at two places of a context, as a leaf and as the content of a node with children
func c05values(c *C, i, j int) {
	tmpl := make([]*ogdl.Graph, len(c05forms))
	for k, f := range c05forms {
		tmpl[k] = ogdl.NewTemplate(f)
	}
	for shape := 0; shape < 4; shape++ {
		mk := func() *ogdl.Graph {
			g := ogdl.New("_")
			add := func(name string, v interface{}, under bool) {
				n := g.Add(name)
				v1 := &ogdl.Graph{This: v}
				n.Out = []*ogdl.Graph{v1}
				if under {
					v1.Add("b").Add("1")
				}
			}
			add("a", c05vals[i], shape&1 > 0)
			add("b", c05vals[j], shape&2 > 0)
			l := g.Add("l")
			l.Add("x").Add("1")
			l.Add("y")
			return g
		}
		for k, t := range tmpl {
			func() {
				defer func() {
					if r := recover(); r != nil {
						panic(fmt.Sprintf("%s with a=%T(%v), b=%T(%v), shape %d: %v", c05forms[k], c05vals[i], c05vals[i], c05vals[j], c05vals[j], shape, r))
					}
				}()
				c.Step(1)
				g := mk()
				t.Process(g)
				t.Process(g)
				emitAll(g)
				c.State(strconv.Itoa(k))
			}()
		}
	}
}

func c05run(c *C, kind byte, s string) {
	note := func(what string) func() {
		c.Step(1)
		return func() {
			if r := recover(); r != nil {
				panic(fmt.Sprintf("%s of %q: %v", what, s, r))
			}
		}
	}
	var parsed *ogdl.Graph
	switch kind {
	case 'o':
		defer note("ogdl")()
		g := ogdl.FromString(s)
		emitAll(g)
		c.State(GStr(g))
		t := ogdl.FromStringTypes(s)
		emitAll(t)
		emitAll(ogdl.FromBytes([]byte(s)))
		emitAll(ogdl.FromReader(bytes.NewReader([]byte(s))))
	case 'p':
		func() {
			defer note("path")()
			parsed = ogdl.NewPath(s)
			c.State(GStr(parsed))
			emitAll(parsed)
		}()
		for i := range c05base {
			defer note(fmt.Sprintf("path evaluation in context %d", i))()
			g := c05ctx(i)
			emitAll(g.Get(s))
			g.Eval(parsed)
			g.GetString(s)
			g = c05ctx(i)
			g.Set(s, "v")
			emitAll(g)
		}
	case 'e':
		func() {
			defer note("expression")()
			parsed = ogdl.NewExpression(s)
			c.State(GStr(parsed))
			emitAll(parsed)
		}()
		for i := range c05base {
			defer note(fmt.Sprintf("expression evaluation in context %d", i))()
			g := c05ctx(i)
			g.Eval(parsed)
			g.Eval(parsed)
			emitAll(g)
		}
	case 't':
		func() {
			defer note("template")()
			parsed = ogdl.NewTemplate(s)
			c.State(GStr(parsed))
			emitAll(parsed)
			ogdl.NewTemplateFromBytes([]byte(s))
		}()
		for i := range c05base {
			defer note(fmt.Sprintf("template rendering in context %d", i))()
			g := c05ctx(i)
			parsed.Process(g)
			parsed.Process(g)
			emitAll(g)
		}
	}
}

var c05 = &Prop{
	ID:     "C05",
	Rule:   "every concatenation of up to N tokens of the alphabet of each grammar (OGDL: 16 significant bytes; path: 22; expression: 40; template: 30), given to every parser production for it, then emitted in five formats and evaluated or rendered twice against 8 contexts (nil, empty, lists, typed values, functions, objects, nil contents). Every form of operator, assignment, index, selector, loop, call and pseudo name with every pair of 87 contents of different kinds (numbers at the limits, NaN, nil, containers, functions and pointers, typed nils). Checked: no panic, no crash, end within 40 s. A state is a distinct parsed graph.",
	Bounds: "quick: OGDL N=4 (5 over 10 bytes), path N=3 (5 over 9 tokens), expression N=3, template N=3; thorough: OGDL 6, path 5, expression 4, template 4; deep nesting and long inputs to 300 levels",
	Gen: func(thorough bool, emit func(string)) {
		no, np, ne, nt := 4, 3, 3, 3
		if thorough {
			no, np, ne, nt = 6, 5, 4, 4
		}
		for n := 0; n <= no; n++ {
			if n <= nt {
				Strings(c05tmpl, n, n, func(s string) { emit("t" + s) })
			}
			if n <= ne {
				Strings(c05expr, n, n, func(s string) { emit("e" + s) })
			}
			if n <= np {
				Strings(c05path, n, n, func(s string) { emit("p" + s) })
			}
			if n < 6 && n <= no {
				Strings(c05ogdl, n, n, func(s string) { emit("o" + s) })
			}
		}
		if !thorough {
			// longer ones over the more structural tokens
			Strings([]string{"a", "1", "-", "+", "!", "(", ")", "*", "==", "&&", "=", " "}, 4, 4, func(s string) { emit("e" + s) })
			Strings([]string{"$if(a)", "$else", "$elseif(a)", "$end", "$for(i,b)", "$break", "x", "$i"}, 4, 5, func(s string) { emit("t" + s) })
			Strings([]string{"a", "1", "[", "]", "{", "}", "(", ")", "."}, 4, 5, func(s string) { emit("p" + s) })
			Strings([]string{"a", " ", "\n", "\r", "\"", "'", "\\", "#", ",", "\x00"}, 5, 5, func(s string) { emit("o" + s) })
		} else {
			Strings([]string{"a", "1", "-", "!", "(", ")", "*", "==", "="}, 5, 6, func(s string) { emit("e" + s) })
			Strings([]string{"$if(a)", "$else", "$elseif(a)", "$end", "$for(i,b)", "$break", "x", "$i"}, 5, 6, func(s string) { emit("t" + s) })
			Strings([]string{"a", "1", "[", "]", "{", "}", "(", ")", "."}, 6, 6, func(s string) { emit("p" + s) })
		}
		for i := range c05vals {
			for j := range c05vals {
				emit(fmt.Sprintf("v%d,%d", i, j))
			}
		}
		for _, n := range []int{1, 10, 100, 300} {
			for i := range c05reps {
				if n > 10 && strings.HasPrefix(c05reps[i][1], "$for") {
					continue // exponential by nature
				}
				emit(fmt.Sprintf("r%d:%d", i, n))
			}
		}
		if thorough {
			Strings(c05ogdl[:14], 6, 6, func(s string) { emit("o" + s) })
		}
	},
	Run: func(c *C, desc string) {
		if desc[0] == 'r' {
			ix := Ints(strings.ReplaceAll(desc[1:], ":", ","), ",")
			r := c05reps[ix[0]]
			s := strings.Repeat(r[1], ix[1]) + r[2] + strings.Repeat(r[3], ix[1])
			c05run(c, r[0][0], s)
			return
		}
		if desc[0] == 'v' {
			ix := Ints(desc[1:], ",")
			c05values(c, ix[0], ix[1])
			return
		}
		c05run(c, desc[0], desc[1:])
	},
}

// nested or repeated constructs: kind, prefix, middle, suffix
var c05reps = [][4]string{
	{"o", "a ", "", ""}, {"o", "a\n", "", ""}, {"o", "'", "", "'"}, {"o", "\\", "", ""}, {"o", "\\\n ", "", ""}, {"o", "\n", "a", " "}, {"o", "#", "", "# "}, {"o", ",", "", ","},
	{"p", "a[", "0", "]"}, {"p", "a{", "0", "}"}, {"p", "a(", "1", ")"}, {"p", "(", "1", ")"}, {"p", "[", "", ""}, {"p", "{", "", ""}, {"p", "a.", "a", ""}, {"p", "b[0]", "", ""}, {"p", ".", "", ""}, {"p", "'", "", ""},
	{"e", "(", "1", ")"}, {"e", "(", "", ""}, {"e", "-", "1", ""}, {"e", "!", "a", ""}, {"e", "1+", "1", ""}, {"e", "-(", "a", ")"}, {"e", "a=", "1", ""}, {"e", "a[", "0", "]"}, {"e", "1*", "", ""}, {"e", "+", "", ""},
	{"t", "$if(a)", "x", "$end"}, {"t", "$if(a)", "x", ""}, {"t", "$for(i,b)", "x", ""}, {"t", "$else", "", ""}, {"t", "$end", "", ""}, {"t", "$elseif(a)", "x", "$end"}, {"t", "$", "", ""}, {"t", "$(a=a+1)", "", ""}, {"t", "${a}", "", ""}, {"t", "$break", "", ""}, {"t", "$a(", "", ")"}, {"t", "$a.", "", ""},
}
