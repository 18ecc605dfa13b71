package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// an argument: its text and the values it has, simplified (for functions) and not (for methods);
// a graph is given as *vn
type farg struct {
	text string
	v    interface{}
	path *vn // the node a path leads to (its children are the value)
}

func val(v ...interface{}) *vn {
	n := &vn{}
	for _, x := range v {
		n.k = append(n.k, &vn{v: x})
	}
	return n
}

type missing struct{}

var c33args = []farg{
	{"7", int64(7), nil}, {"i", int64(3), val(int64(3))}, {"'x y'", "x y", nil}, {"s", "x", val("x")}, {"2.5", 2.5, nil}, {"ng.f", -2.5, val(-2.5)}, {"d.f", 1.5, val(1.5)}, {"t", true, val(true)},
	{"i + 1*2", int64(5), nil}, {"(i+1)*2", int64(8), nil}, {"-i", int64(-3), nil}, {"!t", false, nil}, {"nothing", missing{}, nil}, {"list", nil, val("p", "q")}, {"'a, b) (c'", "a, b) (c", nil},
	{"id(i)", int64(3), nil}, {"i == 3", true, nil}, {"'12'", "12", nil}, {"n", "45", val("45")}, {"d['f' == 'f']", missing{}, nil}, {"list[1]", "q", val("q")}, {"obj.Two(i, 's')", "Two", nil}, {"\"q\"", "q", nil},
	{"d.f + 1", 2.5, nil}, {"d.f - 4", -2.5, nil}, {"5000000000", int64(5000000000), nil}, {"b", []byte("by"), val([]byte("by"))}, {"f", false, val(false)}, {"'+'", "+", nil},
}

var c33strs = []string{"0", "1", "010", "-0077", "08", "+5", "0x1f", "0b11", "0o17", "1_000", "1e3", "1E3", "0.5", ".5", "5.", "-.5", "0010.50", "1e-3", "-0", "-7", "1,5", "1 000", " 5", "5 ", "5x", "x5", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "9007199254740993", "4294967296", "2147483648", "-2147483649", "65536", "256", "128", "1.7976931348623157e308", "4.9e-324", "0.1", "123456789.125", "Inf", "-inf", "NaN", "0x1p4", "true", "True", "TRUE", "T", "t", "1.0", "false", "False", "F", "f", "no", "yes", "on", "", "_", "null", "nil", "\u0665", "\u00bd"}

type call33 struct {
	name string
	args []interface{}
}

var log33 []call33

func rec(name string, args ...interface{}) { log33 = append(log33, call33{name, args}) }

// T33 has the methods called
type T33 struct{}

func (*T33) None() string                              { rec("None"); return "None" }
func (*T33) I64(a int64) int64                         { rec("I64", a); return a + 1 }
func (*T33) Int(a int) int64                           { rec("Int", a); return 77 }
func (*T33) F64(a float64) float64                     { rec("F64", a); return a }
func (*T33) Str(a string) string                       { rec("Str", a); return "<" + a + ">" }
func (*T33) Bool(a bool) bool                          { rec("Bool", a); return a }
func (*T33) Strs(a []string) string                    { rec("Strs", a); return strings.Join(a, "-") }
func (*T33) Gr(a *ogdl.Graph) string                   { rec("Gr", a); return "Gr" }
func (*T33) Bytes(a []byte) string                     { rec("Bytes", a); return "Bytes" }
func (*T33) U8(a uint8) string                         { rec("U8", a); return "U8" }
func (*T33) Two(a int64, b string) string              { rec("Two", a, b); return "Two" }
func (*T33) Three(a float64, b int64, c string) string { rec("Three", a, b, c); return "Three" }
func (*T33) Same(a, b, c int64) int64                  { rec("Same", a, b, c); return a*100 + b*10 + c }
func (*T33) Nothing()                                  { rec("Nothing") }
func (*T33) Res(a string) *ogdl.Graph {
	rec("Res", a)
	g := ogdl.New("_")
	g.Add("r").Add(a)
	return g
}
func (*T33) Nilg() *ogdl.Graph            { rec("Nilg"); return nil }
func (*T33) Err(a string) (string, error) { rec("Err", a); return a, errors.New("an error") }
func (*T33) Var(a ...int64) string        { rec("Var", a); return "Var" }

// the same as functions
func c33funcs() map[string]interface{} {
	t := &T33{}
	m := map[string]interface{}{}
	v := reflect.ValueOf(t)
	for i := 0; i < v.NumMethod(); i++ {
		m[v.Type().Method(i).Name] = v.Method(i).Interface()
	}
	return m
}

var c33names = []string{"None", "I64", "F64", "Str", "Bool", "Two", "Three", "Same", "Nothing", "Res", "Nilg", "Err", "Int", "Strs", "Gr", "Bytes", "U8", "Var"}
var c33fn = c33funcs()

func c33ctx() *ogdl.Graph {
	g := ogdl.New("_")
	put := func(k string, v interface{}) { g.Add(k).Add(v) }
	put("i", int64(3))
	put("s", "x")
	put("t", true)
	put("f", false)
	put("n", "45")
	put("b", []byte("by"))
	g.Add("d").Add("f").Add(1.5)
	g.Add("ng").Add("f").Add(-2.5)
	l := g.Add("list")
	l.Add("p")
	l.Add("q")
	put("id", func(a int64) int64 { return a })
	put("obj", &T33{})
	lib := g.Add("lib")
	for n, f := range c33fn {
		put("fn_"+n, f)
		lib.Add(n).Add(f)
	}
	g.Add("remote").Add(func(r *ogdl.Graph) (*ogdl.Graph, error) {
		rec("remote", r.Clone())
		res := ogdl.New("_")
		res.Add("r").Add("R")
		return res, nil
	})
	put("plain", "text")
	num := g.Add("num")
	for i, s := range c33strs {
		num.Add("n" + strconv.Itoa(i)).Add(s)
	}
	return g
}

var c33g = c33ctx()

// vstr renders a value, also graphs
func vstr(v interface{}) string {
	switch x := v.(type) {
	case *ogdl.Graph:
		if x == nil {
			return "nil graph"
		}
		s := "graph"
		for _, n := range x.Out {
			s += " (" + Content(n.This) + " " + vstr(n) + ")"
		}
		return s
	case *vn:
		s := "graph"
		for _, n := range x.k {
			s += " (" + Content(n.v) + " " + vstr(n) + ")"
		}
		return s
	}
	return Content(v)
}

// forFunc: the value a function gets
func (a farg) forFunc() interface{} {
	if a.v == nil {
		return a.path
	}
	return a.v
}

// converted gives the value a method gets for a parameter of type t; no: it must not be called; unspec: not specified
func (a farg) converted(t reflect.Type) (interface{}, yes) {
	if _, m := a.v.(missing); m {
		if t.String() == "*ogdl.Graph" {
			return nil, unspec
		}
		return reflect.Zero(t).Interface(), unspec
	}
	if a.path != nil {
		first := a.path.k[0].v
		switch t.String() {
		case "*ogdl.Graph":
			return a.path, ok
		case "int64", "int":
			n, y := refInt(first)
			if !y {
				return nil, unspec
			}
			if t.String() == "int" {
				return int(n), ok
			}
			return n, ok
		case "float64":
			f, y := refFloat(first)
			if !y {
				return nil, unspec
			}
			return f, ok
		case "bool":
			b, y := refBool(first)
			if !y {
				return nil, unspec
			}
			return b, ok
		case "string":
			return Str(first), ok
		case "[]string":
			var r []string
			for _, k := range a.path.k {
				r = append(r, Str(k.v))
			}
			return r, ok
		}
		return nil, no
	}
	v := a.v
	if reflect.TypeOf(v) == t {
		return v, ok
	}
	switch x := v.(type) {
	case string:
		switch t.String() {
		case "int64":
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return nil, unspec
			}
			return n, ok
		case "float64":
			n, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return nil, unspec
			}
			return n, ok
		case "bool":
			return nil, unspec
		}
	case int64:
		switch t.String() {
		case "float64":
			return float64(x), ok
		case "int":
			return int(x), ok
		}
	case float64:
		switch t.String() {
		case "int64":
			return int64(x), ok
		case "int":
			return int(x), ok
		}
	}
	return nil, no
}

// expect33 says with what a call is made
func expect33(name string, method bool, args []farg) ([]interface{}, yes) {
	t := reflect.TypeOf(c33fn[name])
	var in []interface{}
	if name == "Var" {
		return nil, unspec
	}
	res := ok
	if !method {
		if len(args) != t.NumIn() {
			return nil, no
		}
		for i, a := range args {
			v := a.forFunc()
			if _, m := v.(missing); m {
				if res == ok {
					res = unspec
				}
				continue
			}
			vt := "*ogdl.Graph"
			if _, isg := v.(*vn); !isg {
				vt = reflect.TypeOf(v).String()
			}
			if vt != t.In(i).String() {
				res = no
			}
			in = append(in, v)
		}
		return in, res
	}
	for i := 0; i < t.NumIn(); i++ {
		if i >= len(args) {
			in = append(in, reflect.Zero(t.In(i)).Interface())
			continue
		}
		v, y := args[i].converted(t.In(i))
		if y == no {
			res = no
		} else if y == unspec && res == ok {
			res = unspec
		}
		in = append(in, v)
	}
	return in, res
}

func args33(v []interface{}) string {
	var s []string
	for _, x := range v {
		if t, ok := x.([]string); ok {
			x = fmt.Sprintf("%q", t)
		}
		if t, ok := x.(*ogdl.Graph); ok && t == nil {
			x = nil
		}
		s = append(s, vstr(x))
	}
	return strings.Join(s, ", ")
}

func c33call(c *C, name string, method bool, args []farg, spacing int) {
	c.State(name + fmt.Sprint(method, len(args)))
	var texts []string
	for _, a := range args {
		texts = append(texts, a.text)
	}
	sep := []string{",", ", ", " ,  "}[spacing]
	list := "(" + strings.Join(texts, sep) + ")"
	if spacing == 2 {
		list = "( " + strings.Join(texts, sep) + " )"
	}
	prefix := []string{"fn_" + name, "lib." + name}
	if method {
		prefix = []string{"obj." + name}
	}
	in, want := expect33(name, method, args)
	wantArgs := args33(in)
	var result interface{}
	hasResult := false
	if want == ok {
		// the result of calling it directly
		var vals []reflect.Value
		for i, v := range in {
			if n, isg := v.(*vn); isg {
				v = n.graph()
			}
			if v == nil {
				vals = append(vals, reflect.Zero(reflect.TypeOf(c33fn[name]).In(i)))
				continue
			}
			vals = append(vals, reflect.ValueOf(v))
		}
		out := reflect.ValueOf(c33fn[name]).Call(vals)
		if len(out) > 0 {
			result, hasResult = out[0].Interface(), true
		}
	}
	for _, pre := range prefix {
		call := pre + list
		for way := 0; way < 5; way++ {
			c.Step(1)
			log33 = nil
			var v interface{}
			var err error
			var txt string
			what := ""
			judged := true
			msg := Catch(func() {
				switch way {
				case 0:
					what = "path " + call
					p := ogdl.NewPath(call)
					v, err = c33g.Eval(p)
				case 1:
					what = "expression (" + call + ")"
					v, err = c33g.Eval(ogdl.NewExpression("(" + call + ")"))
				case 2:
					what = "template $" + call
					txt = string(ogdl.NewTemplate("[$" + call + "]").Process(c33g))
				case 3:
					what = "get " + call
					judged = false
					v = c33g.Get(call)
				case 4:
					what = "template $if(" + call + ")"
					txt = string(ogdl.NewTemplate("$if(" + call + ")Y$end").Process(c33g))
					judged = false
				}
			})
			if msg != "" {
				c.Failf("%s: panic: %s", what, msg)
			}
			if want == unspec {
				continue
			}
			// obj.Two may have been called for an argument
			var calls []call33
			for _, l := range log33 {
				if l.name == name {
					calls = append(calls, l)
				} else if l.name != "Two" {
					c.Failf("%s: %s was called", what, l.name)
				}
			}
			if name == "Two" {
				nested := strings.Count(list, "obj.Two")
				if len(calls) < nested {
					if want == ok {
						c.Failf("%s: %d calls", what, len(calls))
					}
					continue
				}
				calls = calls[nested:]
			}
			if want == no {
				if len(calls) > 0 {
					c.Failf("%s: called with (%s)", what, args33(calls[0].args))
				}
				if way < 2 && err == nil && v != nil {
					c.Failf("%s: value %s", what, vstr(v))
				}
				if way == 2 && txt != "[]" {
					c.Failf("%s: text %q", what, txt)
				}
				continue
			}
			if len(calls) != 1 {
				c.Failf("%s: %d calls", what, len(calls))
			}
			if got := args33(calls[0].args); got != wantArgs {
				c.Failf("%s: called with (%s), want (%s)", what, got, wantArgs)
			}
			if !judged {
				if way == 4 && name == "Bool" && (txt == "Y") != result.(bool) {
					c.Failf("%s: %q", what, txt)
				}
				if way == 3 && name == "Res" && (err != nil || vstr(v) != vstr(result)) {
					c.Failf("%s: %s (%v)", what, vstr(v), err)
				}
				continue
			}
			if g, isg := result.(*ogdl.Graph); isg && g == nil {
				continue
			}
			if !hasResult {
				continue
			}
			if way == 2 {
				w := fmt.Sprint(result)
				if g, isg := result.(*ogdl.Graph); isg {
					w = g.Text()
				}
				if txt != "["+w+"]" {
					c.Failf("%s: text %q, want %q", what, txt, "["+w+"]")
				}
				continue
			}
			if err != nil {
				c.Failf("%s: error %v", what, err)
			}
			if vstr(v) != vstr(result) {
				c.Failf("%s: value %s, want %s", what, vstr(v), vstr(result))
			}
		}
	}
}

func c33remote(c *C, args []farg, desc string) {
	var texts []string
	want := "graph (\"op\" graph"
	for _, a := range args {
		texts = append(texts, a.text)
		v := a.forFunc()
		if _, m := v.(missing); m {
			return
		}
		if _, isg := v.(*vn); isg {
			// the node addressed, as one argument
			if a.text != "list" {
				return
			}
			want += " (" + Content(a.text) + " " + vstr(v) + ")"
			continue
		}
		want += " (" + Content(v) + " graph)"
	}
	want += ")"
	call := "remote.op(" + strings.Join(texts, ", ") + ")"
	log33 = nil
	v, err := c33g.Eval(ogdl.NewPath(call))
	c.Step(1)
	if err != nil {
		c.Failf("%s: %v", call, err)
	}
	if n := len(log33); n == 0 || log33[n-1].name != "remote" {
		c.Failf("%s: not called", call)
	}
	got := vstr(log33[len(log33)-1].args[0])
	if got != want {
		c.Failf("%s: request %s, want %s", call, got, want)
	}
	if got := vstr(v); got != "graph (\"r\" graph (\"R\" graph))" {
		c.Failf("%s: result %s", call, got)
	}
}

// Histories of calls: objects of several types with methods of the same name (two of the types even
// have the same printed name), functions of several types under the same name.
type U33 struct{}
type V33 struct{}

func (*U33) F(a int64) string  { rec("U.F", a); return fmt.Sprint("U.F ", a) }
func (*U33) G(a string) string { rec("U.G", a); return "U.G " + a }
func (*V33) E() string         { rec("V.E"); return "V.E" }
func (*V33) F(a string) string { rec("V.F", a); return "V.F " + a }
func (*V33) G(a int64) string  { rec("V.G", a); return fmt.Sprint("V.G ", a) }
func (*V33) H(a int64) string  { rec("V.H", a); return fmt.Sprint("V.H ", a) }

func localU() interface{} {
	type local struct{ *U33 }
	return &local{&U33{}}
}

func localV() interface{} {
	type local struct{ *V33 }
	return &local{&V33{}}
}

const nCtx33 = 4

func ctx33(i int) *ogdl.Graph {
	g := ogdl.New("_")
	u := i%2 == 0
	if u {
		g.Add("f").Add(func(a int64) string { rec("fu", a); return fmt.Sprint("fu ", a) })
		g.Add("x").Add(int64(5))
	} else {
		g.Add("f").Add(func(a string) string { rec("fv", a); return "fv " + a })
		g.Add("x").Add("45")
	}
	switch i {
	case 0:
		g.Add("o").Add(&U33{})
	case 1:
		g.Add("o").Add(&V33{})
	case 2:
		g.Add("o").Add(localU())
	case 3:
		g.Add("o").Add(localV())
	}
	return g
}

var paths33 = []string{"o.F(x)", "o.G(x)", "o.E()", "f(x)", "o.H(7)", "f(6)"}

// hist33[path][0: U, 1: V] is the result, "" if nothing may be called
var hist33 = [][2]string{{"U.F 5", "V.F 45"}, {"U.G 5", "V.G 45"}, {"", "V.E"}, {"fu 5", "fv 45"}, {"", "V.H 7"}, {"fu 6", ""}}

func c33hist(c *C, ix []int) {
	var ctx [nCtx33]*ogdl.Graph
	for i := range ctx {
		ctx[i] = ctx33(i)
	}
	var parsed []*ogdl.Graph
	for _, p := range paths33 {
		parsed = append(parsed, ogdl.NewPath(p))
	}
	for n, x := range ix {
		k, p := x/len(paths33), x%len(paths33)
		want := hist33[p][k%2]
		for way := 0; way < 3; way++ {
			log33 = nil
			var v interface{}
			var err error
			m := Catch(func() {
				switch way {
				case 0:
					v, err = ctx[k].Eval(parsed[p])
				case 1:
					v, err = ctx[k].Eval(ogdl.NewExpression(paths33[p]))
				case 2:
					v = string(ogdl.NewTemplate("$" + paths33[p]).Process(ctx[k]))
				}
			})
			c.Step(1)
			what := fmt.Sprintf("call %d of %s, object %d (way %d)", n, paths33[p], k, way)
			if m != "" {
				c.Failf("%s: panic %s", what, m)
			}
			if want == "" {
				if len(log33) > 0 || err == nil && v != nil && v != "" {
					c.Failf("%s: %d calls, value %s", what, len(log33), vstr(v))
				}
				continue
			}
			if len(log33) != 1 || err != nil || v != want {
				c.Failf("%s: %d calls, value %s (%v), want %q", what, len(log33), vstr(v), err, want)
			}
		}
		c.State(fmt.Sprint("h", x))
	}
}

var c33 = &Prop{
	ID:     "C33",
	Rule:   "every function and method of 18 signatures called with every list of up to N arguments out of 26 (literals, paths, expressions, calls, lists, absent values; all types), from a path, an expression, a template, a condition and a lookup, in 3 spacings; a log of the calls is compared with the reference: exactly one call with exactly these arguments, or none where number or types do not match, and never a panic. Also unknown methods, things that are not functions, remote functions and long argument lists; and every history of calls over 4 objects and 6 paths (methods of the same name of several types, functions rebound under one name). 58 texts (leading zeros, prefixes, exponents, limits of the types, names of truth values) as string, as node and as number.",
	Bounds: "quick: N=2 all, N=3 over 10 arguments, histories of 3 calls; thorough: N=3 all, N=4 over 6, histories of 4",
	Gen: func(thorough bool, emit func(string)) {
		emit("u")
		hd := 2
		if thorough {
			hd = 3
		}
		for i := 0; i < nCtx33*len(paths33); i++ {
			emit(fmt.Sprintf("h %d %d", i, hd))
		}
		for l := 0; l < 3; l++ {
			for m := 0; m < 2; m++ {
				for n := range c33names {
					if l < 2 {
						emit(fmt.Sprintf("c %d %d - %d %d", n, m, l, len(c33args)))
						continue
					}
					for a := range c33args {
						emit(fmt.Sprintf("c %d %d %d 1 %d", n, m, a, len(c33args)))
					}
				}
			}
		}
		for _, n := range []int{3, 4} {
			lim := 10
			if n == 4 {
				if !thorough {
					break
				}
				lim = 6
			} else if thorough {
				lim = len(c33args)
			}
			for i := 0; i < lim; i++ {
				for m := 0; m < 2; m++ {
					for f := range c33names {
						emit(fmt.Sprintf("c %d %d %d %d %d", f, m, i, n-1, lim))
					}
				}
			}
		}
		for i := range c33args {
			emit(fmt.Sprintf("r %d", i))
		}
		for _, n := range sweep(thorough) {
			if n > 0 && n <= 3000 {
				emit(fmt.Sprintf("l %d", n))
			}
		}
		for i := range c33strs {
			for f, n := range c33names {
				if strings.Contains(" I64 Int F64 Str Bool Strs Gr U8 ", " "+n+" ") {
					emit(fmt.Sprintf("z %d %d", i, f))
				}
			}
		}
		for _, n := range huge {
			emit(fmt.Sprintf("L %d", n))
		}
	},
	Workers: 1,
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'u':
			for _, p := range []string{"obj.Unknown()", "obj.Unknown(1)", "obj.Unknown", "obj.str(1)", "plain(1)", "plain()", "plain.x(1)", "nothing(1)", "nothing.f(1)", "i(1)", "i.f(2)", "list(1)", "d(1)", "d.x(1)", "lib(1)", "lib.zz(1)", "obj(1)", "obj()", "fn_I64.x(1)", "fn_I64.x", "fn_I64()(1)", "fn_I64(1)(2)", "obj.I64(1).x", "obj.I64(1)(2)", "obj.I64(", "fn_I64(", "fn_I64(1", "fn_I64(1,", "fn_I64(,)", "obj.I64(,1)", "remote", "remote()", "remote.", "remote.x.y", "obj.", "obj..I64(1)", "obj[0]", "obj[0].I64(1)", "obj{0}.I64(1)", "fn_I64[0]", "fn_I64{0}(1)", "fn_Nothing()", "obj.Nothing()", "obj.Nothing().x", "fn_Nilg()", "fn_Nilg().x", "obj.Nilg().x", "fn_Nilg()[0]", "remote.x(nothing)", "remote.x(list, list)", "obj.Gr(nothing)", "fn_Gr(nothing)", "fn_Gr(obj)", "obj.Gr(obj)", "obj.Str(fn_I64)", "fn_Str(fn_I64)", "obj.Var(1)", "obj.Var(1,2)", "fn_Var(1)", "fn_Var(1,2)", "obj.Strs('x')", "obj.I64('x')", "obj.Bool('maybe')", "obj.F64(list)", "obj.I64(obj)"} {
				for _, pre := range []string{"", "-", "!", "1 + "} {
					for _, post := range []string{"", " + 1", " == 1", ".x"} {
						s := pre + p + post
						log33 = nil
						var v interface{}
						var err error
						if m := Catch(func() { v, err = c33g.Eval(ogdl.NewExpression(s)) }); m != "" {
							c.Failf("expression %s: panic %s", s, m)
						}
						if strings.Contains(p, "Unknown") && pre+post == "" && err == nil && v != nil {
							c.Failf("%s: %s", s, vstr(v))
						}
						if strings.Contains(p, "Unknown") && len(log33) > 0 {
							c.Failf("%s: %s called", s, log33[0].name)
						}
						if m := Catch(func() {
							ogdl.NewTemplate("$" + s + "$(" + s + ")$if(" + s + ")x$end$for(v," + s + ")y$end").Process(c33ctx())
						}); m != "" {
							c.Failf("template $%s: panic %s", s, m)
						}
						if m := Catch(func() { c33g.Get(s) }); m != "" {
							c.Failf("get %s: panic %s", s, m)
						}
						c.Step(3)
					}
				}
			}
			for _, p := range []string{"obj.Res('x').r", "fn_Res('x').r", "lib.Res('x').r", "obj.Res('x')[0]", "fn_Res('x')[0]", "obj.Res('x').r[0]", "obj.Res('x').r{0}", "fn_Res(s).r", "obj.Res( s ).('r')", "obj.Res(fn_Res('x').r).r"} {
				v, err := c33g.Eval(ogdl.NewExpression(p))
				g := c33g.Get(p)
				t := string(ogdl.NewTemplate("[$" + p + "]").Process(c33g))
				if x, isg := v.(*ogdl.Graph); isg && strings.HasSuffix(p, "[0]") {
					v = x.String()
				}
				if err != nil || Str(v) != "x" && !strings.HasSuffix(p, ")[0]") || g == nil {
					c.Failf("%s: %s (%v), get %s", p, vstr(v), err, vstr(g))
				}
				if !strings.HasSuffix(p, ")[0]") && (g.String() != "x" || t != "[x]") {
					c.Failf("%s: get %s, text %s", p, vstr(g), t)
				}
				c.Step(3)
			}
		case 'h':
			i, _ := strconv.Atoi(f[1])
			n, _ := strconv.Atoi(f[2])
			Seqs(nCtx33*len(paths33), n, func(ix []int) { c33hist(c, append([]int{i}, ix...)) })
		case 'r':
			i, _ := strconv.Atoi(f[1])
			c33remote(c, nil, desc)
			c33remote(c, []farg{c33args[i]}, desc)
			for _, b := range c33args {
				c33remote(c, []farg{c33args[i], b}, desc)
			}
		case 'z':
			// the same text as a string, as what a path leads to and, if it is one, as a number
			i, _ := strconv.Atoi(f[1])
			n, _ := strconv.Atoi(f[2])
			s := c33strs[i]
			c33call(c, c33names[n], true, []farg{{"'" + s + "'", s, nil}}, 0)
			c33call(c, c33names[n], true, []farg{{"num.n" + strconv.Itoa(i), s, val(s)}}, 1)
			c33call(c, c33names[n], true, []farg{{"num.n" + strconv.Itoa(i) + "[0]", s, val(s)}}, 1)
			if v, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(v, 10) == s && v >= 0 {
				c33call(c, c33names[n], true, []farg{{s, v, nil}}, 0)
			}
		case 'L':
			n, _ := strconv.Atoi(f[1])
			x := strings.Repeat("x y", n/3)
			for _, t := range []string{"Str", "Same", "Itf"} {
				for _, v := range c33names {
					if t == v {
						c33call(c, t, true, []farg{{"'" + x + "'", x, nil}}, 1)
						c33call(c, t, false, []farg{{"('" + x + "')", x, nil}}, 0)
					}
				}
			}
			c33remote(c, []farg{{"'" + x + "'", x, nil}, {"2", int64(2), nil}}, desc)
		case 'l':
			n, _ := strconv.Atoi(f[1])
			var args []farg
			var depth string
			for i := 0; i < n; i++ {
				args = append(args, farg{strconv.Itoa(i), int64(i), nil})
				depth += "id("
			}
			c33remote(c, args, desc)
			if n > 2 {
				c33call(c, "Same", false, args, 1)
				c33call(c, "Same", true, args, 1)
			}
			c33call(c, "I64", false, []farg{{strings.Repeat("(", n) + "i+1" + strings.Repeat(")", n), int64(4), nil}}, 0)
			c33call(c, "Str", false, []farg{{"'" + strings.Repeat("x", n) + "'", strings.Repeat("x", n), nil}}, 1)
			if n <= 300 {
				c33call(c, "I64", true, []farg{{depth + "i" + strings.Repeat(")", n), int64(3), nil}}, 0)
			}
		default:
			n, _ := strconv.Atoi(f[1])
			l, _ := strconv.Atoi(f[4])
			lim, _ := strconv.Atoi(f[5])
			var pre []farg
			if f[3] != "-" {
				i, _ := strconv.Atoi(f[3])
				pre = []farg{c33args[i]}
			}
			Seqs(lim, l, func(ix []int) {
				args := pre[:len(pre):len(pre)]
				for _, i := range ix {
					args = append(args, c33args[i])
				}
				for sp := 0; sp < 3; sp++ {
					if len(args) > 1 && sp != (len(args)+n)%3 {
						continue
					}
					c33call(c, c33names[n], f[2] == "1", args, sp)
				}
			})
		}
	},
}
