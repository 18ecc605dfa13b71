package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

type c16struct struct{ A, B int }

// values of every supported type, at their limits
var c16vals = func() []interface{} {
	v := []interface{}{nil, true, false,
		int8(math.MinInt8), int8(math.MaxInt8), int16(math.MinInt16), int16(math.MaxInt16), int32(math.MinInt32), int32(math.MaxInt32), int64(math.MinInt64), int64(math.MaxInt64),
		int(math.MinInt64), int(math.MaxInt64), uint8(math.MaxUint8), uint16(math.MaxUint16), uint32(math.MaxUint32), uint64(math.MaxInt64), uint(math.MaxUint32), uint(7), uint64(1 << 53),
		int64(1<<53 + 1), int64(-1), int64(0), int64(1), int(0), int(1), int(-1), uint8(0), 'x', byte('a'), int64(255), int64(256), int64(1 << 31), int64(1 << 32),
		float32(0.5), float32(-2), float32(1 << 24), float32(0), 0.0, 1.0, -1.0, 0.1, 1.5, -1.5, 2.999999, 1e15, -1e15, 1 << 53, 4.9e-324, 123456789.125, 1e-7, 100000000.0, 1e6, 12345678.0, 21e5,
		c16struct{1, 2}, []int{1, 2}, complex(1, 2), []string{"a", "b"}}
	for _, s := range c16strings {
		v = append(v, s, []byte(s))
	}
	return v
}()

var c16strings = []string{"", "0", "1", "-1", "12", "-0", "007", "9223372036854775807", "-9223372036854775808", "255", "4294967296",
	"1.5", "-1.5", ".5", "5.", "1e3", "-1E-3", "1e308", "0.1", "3.0", "Inf", "-inf", "NaN", "0x1p-2",
	"true", "false", "True", "FALSE", "TRUE", "t", "f", "yes", "no", "on", "truee", "tru", "a", "abc", "1a", "a1", "--1", "1-", "1.2.3", "1,2", "é", "日本", "a b", "\n", "_", "-", ".", "e", "nil", "0x10", "1_000", "12 34"}

// The reference conversions

func refInt(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case string:
		n, err := strconv.ParseInt(x, 10, 64)
		return n, err == nil
	case []byte:
		n, err := strconv.ParseInt(string(x), 10, 64)
		return n, err == nil
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint()), true
	case reflect.Float32, reflect.Float64:
		return int64(r.Float()), true
	}
	return 0, false
}

func isInt(v interface{}) bool {
	switch reflect.ValueOf(v).Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func isFloat(v interface{}) bool {
	k := reflect.ValueOf(v).Kind()
	return k == reflect.Float32 || k == reflect.Float64
}

func text(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		return string(x), true
	}
	return "", false
}

func refFloat(v interface{}) (float64, bool) {
	if s, ok := text(v); ok {
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	}
	if isFloat(v) {
		return reflect.ValueOf(v).Float(), true
	}
	if n, ok := refInt(v); ok {
		return float64(n), true
	}
	return 0, false
}

func refBool(v interface{}) (bool, bool) {
	if b, ok := v.(bool); ok {
		return b, true
	}
	s, _ := text(v)
	return s == "true", s == "true" || s == "false"
}

// refNumber is an int64, a float64 or nil
func refNumber(v interface{}) interface{} {
	if isFloat(v) {
		return reflect.ValueOf(v).Float()
	}
	if n, ok := refInt(v); ok {
		return n
	}
	if f, ok := refFloat(v); ok {
		return f
	}
	return nil
}

func refScalar(v interface{}) interface{} {
	if n := refNumber(v); n != nil {
		return n
	}
	if b, ok := refBool(v); ok {
		return b
	}
	return v
}

func same(a, b interface{}) bool {
	x, ok := a.(float64)
	y, ok2 := b.(float64)
	if ok && ok2 {
		return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
	}
	return reflect.DeepEqual(a, b)
}

func c16one(c *C, v interface{}, kind string, g *ogdl.Graph, root *ogdl.Graph, path string) {
	what := func(m string) string { return m + " of " + Content(v) + " (" + kind + ")" }
	chk := func(m string, got, want interface{}) {
		c.Step(1)
		if !same(got, want) {
			c.Failf("%s: got %s, want %s", what(m), Content(got), Content(want))
		}
	}
	s := Str(v)
	var bs []byte
	if v != nil {
		bs = []byte(s)
	}
	// first child
	i, iok := refInt(v)
	f, fok := refFloat(v)
	b, bok := refBool(v)
	for _, d := range []int64{0, 42, math.MinInt64} {
		want := i
		if !iok {
			want = d
		}
		chk("Int64 with default", g.Int64(d), want)
	}
	if !iok {
		i = 0
	}
	chk("Int64", g.Int64(), i)
	for _, d := range []float64{0, 4.5, math.Inf(1)} {
		want := f
		if !fok {
			want = d
		}
		chk("Float64 with default", g.Float64(d), want)
	}
	wf := f
	if !fok {
		wf = math.NaN()
	}
	chk("Float64", g.Float64(), wf)
	if !isInt(v) {
		for _, d := range []bool{true, false} {
			want := b
			if !bok {
				want = d
			}
			chk("Bool with default", g.Bool(d), want)
		}
		chk("Bool", g.Bool(), b && bok)
	}
	chk("String", g.String(), s)
	want := s
	if s == "" {
		want = "def"
	}
	chk("String with default", g.String("def"), want)
	chk("Bytes", string(g.Bytes()), string(bs))
	chk("Bytes is nil", g.Bytes() == nil, v == nil)
	chk("Interface", g.Interface(), v)
	chk("Number", g.Number(), refNumber(v))
	chk("Scalar", g.Scalar(), refScalar(v))
	chk("Value", g.Value().IsValid(), v != nil)
	if v != nil {
		chk("Value", g.Value().Interface(), v)
	}
	// the node itself
	n := g.Out[0]
	chk("ThisString", n.ThisString(), s)
	chk("ThisString with default", n.ThisString("def"), want)
	chk("ThisBytes", string(n.ThisBytes()), string(bs))
	chk("ThisNumber", n.ThisNumber(), refNumber(v))
	if v != nil {
		chk("ThisScalar", n.ThisScalar(), refScalar(v))
		chk("ThisType", n.ThisType(), reflect.TypeOf(v).String())
		chk("ThisValue", n.ThisValue().Interface(), v)
	}
	x, ok := n.ThisInt64()
	chk("ThisInt64", fmt.Sprint(x, ok), fmt.Sprint(i, iok))
	y, ok := n.ThisFloat64()
	if !fok {
		f = 0
	}
	chk("ThisFloat64", y, f)
	chk("ThisFloat64 ok", ok, fok)
	// by path
	for _, p := range []struct {
		r *ogdl.Graph
		p string
	}{{root, path}, {g, ""}} {
		gs, err := p.r.GetString(p.p)
		chk("GetString("+p.p+")", gs, s)
		chk("GetString error", err == nil, true)
		gb, err := p.r.GetBytes(p.p)
		chk("GetBytes("+p.p+")", string(gb), s)
		chk("GetBytes error", err == nil, true)
		gi, err := p.r.GetInt64(p.p)
		chk("GetInt64("+p.p+")", gi, i)
		gf, err2 := p.r.GetFloat64(p.p)
		gt, err3 := p.r.GetBool(p.p)
		if p.p == "" {
			continue
		}
		chk("GetInt64 no error", err == nil, iok)
		chk("GetFloat64("+p.p+")", gf, f)
		chk("GetFloat64 no error", err2 == nil, fok)
		if !isInt(v) {
			chk("GetBool("+p.p+")", gt, b && bok)
			chk("GetBool no error", err3 == nil, bok)
		}
	}
}

var c16list = []interface{}{nil, "", "a", "b c", ",", int64(-5), 1.5, true, []byte("by"), []byte{}, "\n", uint8(3)}

var c16 = &Prop{
	ID:     "C16",
	Rule:   "every value of 170 (limits of every integer width, floats, booleans, strings and bytes in 54 spellings, structs, slices, missing) x every accessor (child, This and path variants) x defaults, in 4 surroundings (alone, followed by siblings, with children, behind paths), compared with reference conversions. Every list of up to N children over 12 contents: Strings, StringCSV, StringTxt and the first-child accessors.",
	Bounds: "quick: N=3; thorough: N=5; plus every length to 140 and boundary lengths to 3000",
	Assume: []string{"floats outside the int64 range, float32 values that are not exact, unsigned values above the int64 range, integer spellings with + or outside the int64 range for Scalar/Number, and the Bool of integers are unspecified", "exotic string conversions follow strconv"},
	Gen: func(thorough bool, emit func(string)) {
		for i := range c16vals {
			emit("v " + strconv.Itoa(i))
		}
		n := 3
		if thorough {
			n = 5
		}
		for k := 0; k <= n; k++ {
			Seqs(len(c16list), k, func(ix []int) { emit("l " + JoinInts(ix, ",")) })
		}
		for _, n := range sweep(thorough) {
			emit("s " + strconv.Itoa(n))
		}
		emit("m")
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'm':
			// missing paths, wrong types, no children
			for _, g := range []*ogdl.Graph{nil, ogdl.New("_"), ogdl.New(int64(5)), ogdl.FromString("a\nb 1"), ogdl.FromString("x\n  y z")} {
				for _, p := range []string{"zz", "a.b.c", "[7]", "a{}", "zz[0]", "b.1.2", "x.q"} {
					_, e1 := g.GetString(p)
					_, e2 := g.GetBytes(p)
					_, e3 := g.GetInt64(p)
					_, e4 := g.GetFloat64(p)
					_, e5 := g.GetBool(p)
					c.Step(5)
					if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil {
						c.Failf("path %s in %s: no error %v %v %v %v %v", p, GFull(g), e1, e2, e3, e4, e5)
					}
				}
			}
		case 'v':
			i, _ := strconv.Atoi(f[1])
			v := c16vals[i]
			c.State(Content(v))
			mk := func() *ogdl.Graph {
				g := ogdl.New("g")
				g.Out = append(g.Out, &ogdl.Graph{This: v})
				return g
			}
			wrap := func(g *ogdl.Graph) *ogdl.Graph {
				r := ogdl.New("_")
				r.Add("first").Add("1")
				r.Add("p").Add(g)
				r.Add(g)
				return r
			}
			g := mk()
			c16one(c, v, "alone", g, wrap(g), "g")
			c16one(c, v, "deep", g, wrap(g), "p.g")
			g = mk()
			g.Add("9").Add("8")
			g.Add(false)
			c16one(c, v, "with siblings", g, wrap(g), "g")
			c16one(c, v, "with siblings, by index", g, wrap(g), "[1].g")
			g = mk()
			g.Out[0].Add(int64(77))
			g.Out[0].Add("true")
			if v != nil {
				c16one(c, v, "with children", g, wrap(g), "p.g")
			}
			// after other accesses
			c16one(c, v, "again", g, wrap(g), "p{0}.g")
		case 'l', 's':
			var vs []interface{}
			if desc[0] == 'l' {
				for _, i := range Ints(f[1], ",") {
					vs = append(vs, c16list[i])
				}
			} else {
				n, _ := strconv.Atoi(f[1])
				for i := 0; i < n; i++ {
					vs = append(vs, c16list[(i*7+n)%len(c16list)])
				}
			}
			g := ogdl.New("_")
			var ss []string
			for i, v := range vs {
				n := &ogdl.Graph{This: v}
				if i%2 == 1 {
					n.Add("sub")
				}
				g.Out = append(g.Out, n)
				ss = append(ss, Str(v))
			}
			c.Step(7)
			c.State(fmt.Sprintf("%q", ss))
			if got := g.Strings(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ss) {
				c.Failf("Strings: got %q, want %q", got, ss)
			}
			for _, sep := range []string{", ", " "} {
				fn := g.StringCSV
				name := "StringCSV"
				if sep == " " {
					fn, name = g.StringTxt, "StringTxt"
				}
				want := strings.Join(ss, sep)
				c.Eq(name, fn(), want)
				if want == "" {
					want = "def"
				}
				c.Eq(name+" with default", fn("def"), want)
			}
			if len(vs) > 0 {
				c.Eq("String", g.String(), ss[0])
				i, _ := refInt(vs[0])
				if g.Int64() != i {
					c.Failf("Int64 of %q: %d", ss, g.Int64())
				}
			} else {
				c.Eq("String", g.String("d")+g.String()+fmt.Sprint(g.Int64(3), g.Int64(), g.Float64(2), g.Bool(true), g.Bool(), g.Bytes() == nil, g.Interface(), g.Number(), g.Scalar()), "d3 0 2 true false true <nil> <nil> <nil>")
			}
		}
	},
}
