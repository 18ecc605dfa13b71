package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	. "ogdlmc/fw"
)

// record: is every key distinct and single-valued, or a record itself?
func (n *vn) record(min int) bool {
	if len(n.k) < min {
		return false
	}
	seen := map[string]bool{}
	for _, k := range n.k {
		s := Str(k.v)
		if len(k.k) == 0 || s == "_" || seen[s] || !utf8.ValidString(s) {
			return false
		}
		if !(len(k.k) == 1 && len(k.k[0].k) == 0) && !k.record(1) {
			return false
		}
		seen[s] = true
	}
	return true
}

// exported compares a record with a JSON value
func (n *vn) exported(v *jv) string {
	if v.kind != 'o' {
		return "not an object"
	}
	if len(v.keys) != len(n.k) {
		return fmt.Sprintf("%d keys, want %d", len(v.keys), len(n.k))
	}
	val := map[string]*jv{}
	for i := range v.keys {
		val[v.keys[i]] = v.vals[i]
	}
	for _, k := range n.k {
		name := Str(k.v)
		x := val[name]
		if x == nil {
			return fmt.Sprintf("no key %q", name)
		}
		if len(k.k) > 1 || len(k.k[0].k) > 0 {
			if s := k.exported(x); s != "" {
				return fmt.Sprintf("key %q: %s", name, s)
			}
			continue
		}
		l := k.k[0].v
		bad := func() string {
			return fmt.Sprintf("key %q: got %c %q, want %s", name, x.kind, x.s, Content(l))
		}
		switch l.(type) {
		case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
			if x.kind != 'n' || x.s != fmt.Sprint(l) {
				return bad()
			}
			continue
		}
		switch t := l.(type) {
		case float32:
			f, err := strconv.ParseFloat(x.s, 64)
			if !math.IsNaN(float64(t)) && !math.IsInf(float64(t), 0) && (x.kind != 'n' || err != nil || float32(f) != t || math.Signbit(f) != math.Signbit(float64(t))) {
				return bad()
			}
		case float64:
			f, err := strconv.ParseFloat(x.s, 64)
			if !math.IsNaN(t) && !math.IsInf(t, 0) && (x.kind != 'n' || err != nil || f != t || math.Signbit(f) != math.Signbit(t)) {
				return bad()
			}
		case bool:
			if s := x.s + string(x.kind); s != fmt.Sprint(t)+"s" && s != fmt.Sprint(t)[:1] {
				return bad()
			}
		case string:
			if utf8.ValidString(t) && (x.kind != 's' || x.s != t) {
				return bad()
			}
		case []byte:
			if utf8.Valid(t) && (x.kind != 's' || x.s != string(t)) {
				return bad()
			}
		}
	}
	return ""
}

func c24graph(c *C, n *vn) {
	c.Step(1)
	g := n.graph()
	P := newPM()
	m := P.from(g)
	b := g.JSON()
	s := string(b)
	if e := P.same(m, g); e != "" {
		c.Failf("JSON of %s changes the graph: %s", GTyped(g), e)
	}
	v, odd, rest := jread(s)
	if v == nil || rest {
		c.Failf("JSON of %s is not valid: %s", clipDoc(GTyped(g)), clipDoc(s))
	}
	if n.record(2) {
		if odd {
			c.Failf("JSON of %s: repeated keys or invalid text: %s", clipDoc(GTyped(g)), clipDoc(s))
		}
		if e := n.exported(v); e != "" {
			c.Failf("JSON of %s: %s in %s", clipDoc(GTyped(g)), e, clipDoc(s))
		}
	}
	for i := range b {
		b[i] = '#'
	}
	if e := P.same(m, g); e != "" {
		c.Failf("JSON of %s: the result is part of the graph", clipDoc(GTyped(g)))
	}
	if b := g.JSON(); string(b) != s {
		c.Failf("JSON of %s twice: %q and %q", clipDoc(GTyped(g)), clipDoc(s), clipDoc(string(b)))
	}
	if k := shared(g); k != nil && string(k.JSON()) != s {
		c.Failf("JSON of %s with shared nodes: %s, without: %s", clipDoc(GTyped(g)), clipDoc(string(k.JSON())), clipDoc(s))
	}
	// the same graph made again, and below another root
	h := n.graph()
	h.This = "root"
	if b := h.JSON(); !bytes.Equal(b, g.JSON()) {
		c.Failf("JSON of %s under another root: %q and %q", clipDoc(GTyped(g)), clipDoc(s), clipDoc(string(b)))
	}
	if len(s) < 40 {
		c.State(s)
	}
}

func kv(k interface{}, v interface{}) *vn { return &vn{v: k, k: []*vn{{v: v}}} }

func recd(k ...*vn) *vn { return &vn{v: "_", k: k} }

var c24keys = []interface{}{"a", "b", "", "a b", "é", "\"", "\\", "\n", "\x00", "<&>", "\u2028", "5", 5, "true", "a.b", "{", "]", "null", "aa", "\t", "'", "日本", "😀", "\x7f", "A"}
var c24vals = []interface{}{"x", "", "_", "5", "2.5", "true", "null", "\"q\"", "\\", "a\nb", "\x00", "</script>", "\u2029", "é", "{\"a\":1}", "[1]", int64(0), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), 2.5, -0.5, 1e21, 1e-7, 3.0, math.MaxFloat64, math.SmallestNonzeroFloat64, true, false, []byte("by\"te"), int(7), int8(-8), int16(9), int32('x'), uint8('a'), uint16(65535), uint32(4294967295), uint64(math.MaxUint64), uint(math.MaxUint64), float32(0.1), float32(16777216), nil, "\r", "\t", "a\u0001b", math.NaN(), math.Inf(1), "é\xff", "-0", math.Copysign(0, -1)}
var c24chars = []string{"\"", "\\", "/", "\n", "\x00", "\x1f", "\x7f", " ", "<", "&", "'", "é", "\u2028", "\u2029", "日", "😀", "a", "{", ",", ":", "\r", "\t", "u", "0", "\ufffd", "\ufeff", "\x80"}
var c24labels = []interface{}{"a", "b", "_", "x\"y", int64(5), 2.5, "", true}

var c24 = &Prop{
	ID:     "C24",
	Rule:   "every record of 1 and 2 keys over 25 keys and 50 values of all types, of 3 over a part of them; every string of up to 3 out of 27 characters as key and as value; every integer 2^k+d and 10^k+d in each integer type; every float 2^k and 10^k with its neighbours, both signs, as float32 and float64; every graph up to N nodes over 8 contents; compared with what an independent strict JSON reader finds (any graph: valid JSON; records, also nested: exactly the keys and values), twice, under different roots, with the graph unchanged. Sweeps: width, depth, lengths. Records of up to 131073 keys and values of up to 1 MB.",
	Bounds: "quick: N=4; thorough: N=5",
	Assume: []string{"a bool is exported as true or \"true\"", "strings that are not UTF-8, NaN and infinities only need to give valid JSON", "the key _ marks a list"},
	Gen: func(thorough bool, emit func(string)) {
		for i := range c24keys {
			emit(fmt.Sprintf("k %d", i))
		}
		for i := range c24chars {
			emit(fmt.Sprintf("c %d", i))
		}
		n := 4
		if thorough {
			n = 5
		}
		for k := 0; k <= n; k++ {
			Shapes(k, func(lv []int) { emit("g " + JoinInts(lv, ",")) })
		}
		for e := -1080; e <= 1024; e += 60 {
			emit(fmt.Sprintf("f %d", e))
		}
		for _, k := range append(sweep(thorough), huge...) {
			emit(fmt.Sprintf("w %d", k))
		}
		emit("i")
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		num := func(v interface{}) { c24graph(c, recd(kv("n", v), kv("m", "x"))) }
		switch desc[0] {
		case 'k':
			i, _ := strconv.Atoi(f[1])
			k := c24keys[i]
			for _, v := range c24vals {
				c24graph(c, recd(kv(k, v)))
				for j, k2 := range c24keys {
					for m, v2 := range c24vals {
						c24graph(c, recd(kv(k, v), kv(k2, v2)))
						if j < 6 && m < 12 {
							c24graph(c, recd(kv(k, v), kv(k2, v2), kv("z", "end")))
							c24graph(c, recd(kv("z", recd(kv(k, v))), kv("y", v2), kv(k2, "end")))
							c24graph(c, recd(kv("y", v2), &vn{v: k, k: []*vn{kv("p", v), kv(k2, v2)}}))
						}
					}
				}
			}
		case 'c':
			i, _ := strconv.Atoi(f[1])
			Strings(c24chars, 0, 2, func(s string) {
				s = c24chars[i] + s
				c24graph(c, recd(kv(s, s), kv("other", s)))
				c24graph(c, recd(kv("other", 1), kv(s, []byte(s))))
			})
		case 'g':
			lv := []int{}
			if len(f) > 1 {
				lv = Ints(f[1], ",")
			}
			Seqs(len(c24labels), len(lv), func(ix []int) {
				c24graph(c, vforest(lv, func(i int) interface{} { return c24labels[ix[i]] }))
			})
		case 'i':
			for _, base := range []int64{2, 10} {
				for k, u := 0, uint64(1); k < 64; k, u = k+1, u*uint64(base) {
					if base == 10 && k > 19 {
						break
					}
					for d := int64(-2); d <= 2; d++ {
						x := u + uint64(d)
						for _, v := range []interface{}{x, int64(x), -int64(x), uint(x), int(x), uint32(x), int32(x), uint16(x), int16(x), uint8(x), int8(x), int(-int64(x))} {
							num(v)
						}
					}
				}
			}
		case 'f':
			lo, _ := strconv.Atoi(f[1])
			for e := lo; e < lo+60; e++ {
				for _, x := range []float64{math.Ldexp(1, e), math.Ldexp(1, e) * 1.1, math.Pow(10, float64(e)), math.Pow(10, float64(e)) * 7.7} {
					for _, y := range []float64{x, -x, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, 0), math.Floor(x)} {
						num(y)
						num(float32(y))
					}
				}
			}
		case 'w':
			n, _ := strconv.Atoi(f[1])
			r := recd()
			for i := 0; i < min(n, 131073); i++ {
				r.k = append(r.k, kv("k"+strconv.Itoa(i), i))
			}
			c24graph(c, r)
			c24graph(c, recd(kv(strings.Repeat("k", n), strings.Repeat("v", n)), kv("z", strings.Repeat("\"", n))))
			c24graph(c, recd(kv(strings.Repeat("\\", n), strings.Repeat("é", n)), kv("z", strings.Repeat("a", n)+"\n")))
			if n > 131073 {
				return
			}
			d := kv("a", 1)
			l := &vn{v: "x"}
			if n > 20000 {
				n = 20000
			}
			for i := 0; i < n; i++ {
				d = &vn{v: "a", k: []*vn{d, kv("b", "x")}}
				l = &vn{v: "_", k: []*vn{l}}
			}
			c24graph(c, recd(d, kv("c", 1)))
			c24graph(c, recd(l))
			l = recd()
			for i := 0; i < n; i++ {
				l.k = append(l.k, &vn{v: i})
			}
			c24graph(c, recd(l))
			c24graph(c, l)
		}
	},
}
