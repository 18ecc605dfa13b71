package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// ---- a strict JSON reader (RFC 8259)

type jv struct {
	kind byte // o a s n t f 0
	s    string
	keys []string
	vals []*jv
}

type jreader struct {
	s   string
	i   int
	odd bool // repeated keys, lone surrogates, invalid UTF-8: left open
}

func (r *jreader) ws() {
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *jreader) is(c byte) bool {
	if r.i < len(r.s) && r.s[r.i] == c {
		r.i++
		return true
	}
	return false
}

func (r *jreader) hex() (int, bool) {
	if r.i+4 > len(r.s) {
		return 0, false
	}
	n := 0
	for _, c := range []byte(r.s[r.i : r.i+4]) {
		d := strings.IndexByte("0123456789abcdef", c)
		if d < 0 {
			d = strings.IndexByte("0123456789ABCDEF", c)
		}
		if d < 0 {
			return 0, false
		}
		n = n*16 + d
	}
	r.i += 4
	return n, true
}

func (r *jreader) str() (string, bool) {
	if !r.is('"') {
		return "", false
	}
	var b strings.Builder
	for r.i < len(r.s) {
		c := r.s[r.i]
		r.i++
		switch {
		case c == '"':
			if !utf8.ValidString(b.String()) {
				r.odd = true
			}
			return b.String(), true
		case c < 32:
			return "", false
		case c == '\\':
			if r.i >= len(r.s) {
				return "", false
			}
			e := r.s[r.i]
			r.i++
			if k := strings.IndexByte("\"\\/bfnrt", e); k >= 0 {
				b.WriteByte("\"\\/\b\f\n\r\t"[k])
				continue
			}
			if e != 'u' {
				return "", false
			}
			n, ok := r.hex()
			if !ok {
				return "", false
			}
			if n >= 0xd800 && n < 0xdc00 && strings.HasPrefix(r.s[r.i:], "\\u") {
				at := r.i
				r.i += 2
				m, ok := r.hex()
				if !ok {
					return "", false
				}
				if m >= 0xdc00 && m < 0xe000 {
					b.WriteRune(rune(0x10000 + (n-0xd800)<<10 + (m - 0xdc00)))
					continue
				}
				r.i = at
			}
			if n >= 0xd800 && n < 0xe000 {
				r.odd = true
			}
			b.WriteRune(rune(n))
		default:
			b.WriteByte(c)
		}
	}
	return "", false
}

func (r *jreader) digits() bool {
	k := r.i
	for r.i < len(r.s) && r.s[r.i] >= '0' && r.s[r.i] <= '9' {
		r.i++
	}
	return r.i > k
}

func (r *jreader) value() *jv {
	r.ws()
	if r.i >= len(r.s) {
		return nil
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(r.s[r.i:], w) {
			r.i += len(w)
			k := w[0]
			if k == 'n' {
				k = '0'
			}
			return &jv{kind: k}
		}
	}
	switch c := r.s[r.i]; {
	case c == '"':
		s, ok := r.str()
		if !ok {
			return nil
		}
		return &jv{kind: 's', s: s}
	case c == '-' || c >= '0' && c <= '9':
		k := r.i
		r.is('-')
		if !r.is('0') && !r.digits() {
			return nil
		}
		if r.is('.') && !r.digits() {
			return nil
		}
		if r.is('e') || r.is('E') {
			if !r.is('+') {
				r.is('-')
			}
			if !r.digits() {
				return nil
			}
		}
		return &jv{kind: 'n', s: r.s[k:r.i]}
	case c == '[':
		r.i++
		v := &jv{kind: 'a'}
		if r.ws(); r.is(']') {
			return v
		}
		for {
			x := r.value()
			if x == nil {
				return nil
			}
			v.vals = append(v.vals, x)
			if r.ws(); r.is(']') {
				return v
			}
			if !r.is(',') {
				return nil
			}
		}
	case c == '{':
		r.i++
		v := &jv{kind: 'o'}
		seen := map[string]bool{}
		if r.ws(); r.is('}') {
			return v
		}
		for {
			r.ws()
			k, ok := r.str()
			if !ok {
				return nil
			}
			if seen[k] {
				r.odd = true
			}
			seen[k] = true
			if r.ws(); !r.is(':') {
				return nil
			}
			x := r.value()
			if x == nil {
				return nil
			}
			v.keys = append(v.keys, k)
			v.vals = append(v.vals, x)
			if r.ws(); r.is('}') {
				return v
			}
			if !r.is(',') {
				return nil
			}
		}
	}
	return nil
}

// jread reads a document: nil if it is not JSON
func jread(s string) (v *jv, odd, rest bool) {
	r := &jreader{s: s}
	v = r.value()
	if v == nil {
		return nil, r.odd, false
	}
	r.ws()
	return v, r.odd, r.i < len(s)
}

// scalar: the content of a leaf (ok false: left open)
func (v *jv) scalar() (interface{}, bool) {
	switch v.kind {
	case 's':
		return v.s, true
	case 't':
		return true, true
	case 'f':
		return false, true
	case 'n':
		if n, err := strconv.ParseInt(v.s, 10, 64); err == nil {
			return n, true
		}
		f, err := strconv.ParseFloat(v.s, 64)
		return f, err == nil
	}
	return nil, true
}

// match compares the children of a node with a JSON value
func (v *jv) match(out []*ogdl.Graph) string {
	switch v.kind {
	case '0':
		if len(out) > 0 {
			return "a null has content"
		}
	case 'a':
		if len(out) != len(v.vals) {
			return fmt.Sprintf("array of %d elements has %d nodes", len(v.vals), len(out))
		}
		for i, x := range v.vals {
			if out[i].This != "_" {
				return fmt.Sprintf("element %d is in a node %s", i, Content(out[i].This))
			}
			if s := x.match(out[i].Out); s != "" {
				return fmt.Sprintf("element %d: %s", i, s)
			}
		}
	case 'o':
		if len(out) != 1 || out[0].This != "_" {
			return "an object is not one node _"
		}
		return v.matchObject(out[0])
	default:
		if len(out) != 1 || len(out[0].Out) != 0 {
			return "a scalar is not one leaf"
		}
		return v.matchLeaf(out[0])
	}
	return ""
}

func (v *jv) matchLeaf(g *ogdl.Graph) string {
	w, ok := v.scalar()
	if ok && Content(w) != Content(g.This) {
		return fmt.Sprintf("got %s, want %s", Content(g.This), Content(w))
	}
	return ""
}

func (v *jv) matchObject(g *ogdl.Graph) string {
	if len(g.Out) != len(v.keys) {
		return fmt.Sprintf("object with %d keys has %d nodes", len(v.keys), len(g.Out))
	}
	// the keys as in the document, or sorted
	ix := make([]int, len(v.keys))
	for i := range ix {
		ix[i] = i
	}
	err := ""
	for try := 0; try < 2; try++ {
		err = ""
		for i, j := range ix {
			if g.Out[i].This != v.keys[j] {
				err = fmt.Sprintf("key %d is %s", i, Content(g.Out[i].This))
				break
			}
		}
		if err == "" {
			for i, j := range ix {
				if s := v.vals[j].match(g.Out[i].Out); s != "" {
					return fmt.Sprintf("key %q: %s", v.keys[j], s)
				}
			}
			return ""
		}
		sort.Slice(ix, func(a, b int) bool { return v.keys[ix[a]] < v.keys[ix[b]] })
	}
	return err
}

func c23doc(c *C, doc string) {
	c.Step(1)
	v, odd, rest := jread(doc)
	b := []byte(doc)
	g, err := ogdl.FromJSON(b)
	if string(b) != doc {
		c.Failf("FromJSON(%q) changes its input", clipDoc(doc))
	}
	if v == nil {
		if err == nil {
			c.Failf("FromJSON(%q): no error", clipDoc(doc))
		}
		return
	}
	if odd || rest {
		return
	}
	if err != nil {
		c.Failf("FromJSON(%q): %v", clipDoc(doc), err)
	}
	was := GTyped(g)
	c.Owned("FromJSON("+strconv.Quote(clipDoc(doc))+")", g)
	for i := range b {
		b[i] = '#'
	}
	if GTyped(g) != was {
		c.Failf("FromJSON(%q): the graph is part of the input", clipDoc(doc))
	}
	s := ""
	switch {
	case v.kind == '0':
		if g != nil && len(g.Out) > 0 {
			s = "a null has content"
		}
	case g == nil:
		s = "nil graph"
	case v.kind == 'a':
		if g.This != "_" {
			s = "root is " + Content(g.This)
		} else {
			s = v.match(g.Out)
		}
	case v.kind == 'o':
		if g.This != "_" {
			s = "root is " + Content(g.This)
		} else {
			s = v.matchObject(g)
		}
	default:
		s = v.matchLeaf(g)
		if len(g.Out) > 0 {
			s = "a scalar has children"
		}
	}
	if s != "" {
		c.Failf("FromJSON(%q): %s; graph %s", clipDoc(doc), s, clipDoc(was))
	}
	g2, _ := ogdl.FromJSON([]byte(doc))
	if GTyped(g2) != was {
		c.Failf("FromJSON(%q) twice: %s and %s", clipDoc(doc), clipDoc(was), clipDoc(GTyped(g2)))
	}
	if len(doc) < 40 {
		c.State(was)
	}
}

func clipDoc(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

var c23tokens = []string{"{", "}", "[", "]", ",", ":", `"b"`, `"a"`, "1", "true", "null"}
var c23chars = []string{`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0041`, `\ud83d\ude00`, `\u00E9`, `\u0000`, `\u2028`, "é", "日", "😀", " ", "a", "_", "'", "/", "\x7f", "#", "!", "<", "\x01", "\n", "\t", `\x`, `\u00g0`, `\u12`, `\ud800`, "\xff"}
var c23nums = []string{"0", "1", "9", "-", "+", ".", "e", "E"}
var c23docs = []string{`{"b":[1,2.5,"x\n",{"c":null,"_":{}}],"a":{"z":true,"y":[[],[false]]}}`, `[{"a":"\u00e9","b":-12},[[1],"2",[]],null,1e3]`, `"\ud83d\ude00\\\""`, `{"":"","key with space":"v, (w) 'q' \"d\"","n":9223372036854775807,"m":9223372036854775808,"k":-9223372036854775808,"j":-9223372036854775809}`, ` [ 1 , 2 ] `}

type jgen struct {
	scalars []string
	keys    [][]string
	memo    map[int][]string
}

func (x *jgen) values(n int) []string {
	if r, ok := x.memo[n]; ok {
		return r
	}
	var r []string
	if n == 1 {
		r = append(r, x.scalars...)
	}
	var lists func(n int, part []string)
	lists = func(n int, part []string) {
		if n == 0 {
			r = append(r, "["+strings.Join(part, ",")+"]")
			for _, ks := range x.keys {
				if len(part) <= len(ks) {
					s := "{"
					for i, p := range part {
						if i > 0 {
							s += ","
						}
						s += `"` + ks[i] + `":` + p
					}
					r = append(r, s+"}")
				}
				if len(part) == 0 {
					break
				}
			}
			return
		}
		for k := 1; k <= n; k++ {
			for _, v := range x.values(k) {
				lists(n-k, append(part[:len(part):len(part)], v))
			}
		}
	}
	lists(n-1, nil)
	x.memo[n] = r
	return r
}

var c23 = &Prop{
	ID:     "C23",
	Rule:   "every sequence of up to N JSON tokens (valid or not), every text over the number alphabet up to M characters, every string of up to 3 out of 33 characters and escapes as value, element and key, every value of up to K nodes over 7 scalars and several key orders, white space at every boundary, every truncation and every one-byte change of 5 documents; compared with an independent strict reader. Sweeps: width, depth, lengths; repeated imports of wide objects. Strings up to 1 MB, arrays up to 131073 values.",
	Bounds: "quick: N=7, M=6, K=4; thorough: N=8, M=7, K=5",
	Assume: []string{"object members may be in document order or sorted", "repeated keys, lone surrogates, invalid UTF-8, numbers beyond float64 and text after the first value are left open"},
	Gen: func(thorough bool, emit func(string)) {
		x := &jgen{scalars: []string{"1", `"x"`, "-2.5", "true", "null", `""`, `"_"`}, keys: [][]string{{"b", "a", "_", "é"}, {"a", "b", "", "c"}}, memo: map[int][]string{}}
		n := 4
		if thorough {
			n = 5
		}
		for k := 1; k <= n; k++ {
			vs := x.values(k)
			for i := 0; i < len(vs); i += 500 {
				j := i + 500
				if j > len(vs) {
					j = len(vs)
				}
				emit(fmt.Sprintf("v %d %s", k, strings.Join(vs[i:j], "\x00")))
			}
		}
		for i := range c23tokens {
			for j := range c23tokens {
				emit(fmt.Sprintf("t %d %d", i, j))
			}
		}
		for i := range c23chars {
			emit(fmt.Sprintf("c %d", i))
		}
		for i := range c23nums {
			for j := range c23nums {
				emit(fmt.Sprintf("n %d %d", i, j))
			}
		}
		for i := range c23docs {
			emit(fmt.Sprintf("d %d", i))
		}
		for _, k := range append(sweep(thorough), huge...) {
			emit(fmt.Sprintf("w %d", k))
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		arg := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
		switch desc[0] {
		case 'v':
			for _, s := range strings.Split(desc[4:], "\x00") {
				c23doc(c, s)
				if len(s) > 12 {
					continue
				}
				for i := 0; i <= len(s); i++ {
					for _, w := range []string{" ", "\n", "\t\r ", "x", "\v"} {
						c23doc(c, s[:i]+w+s[i:])
					}
				}
			}
		case 't':
			n := 5
			if Tier() {
				n = 6
			}
			p := c23tokens[arg(1)] + c23tokens[arg(2)]
			c23doc(c, c23tokens[arg(1)])
			for k := 0; k <= n; k++ {
				Strings(c23tokens, k, k, func(s string) { c23doc(c, p+s) })
			}
		case 'n':
			n := 4
			if Tier() {
				n = 5
			}
			p := c23nums[arg(1)] + c23nums[arg(2)]
			c23doc(c, c23nums[arg(1)])
			Strings(c23nums, 0, n, func(s string) {
				c23doc(c, p+s)
				if len(s) < n {
					c23doc(c, "["+p+s+"]")
					c23doc(c, `{"a":`+p+s+`,"b":[`+p+s+`,1]}`)
				}
			})
		case 'c':
			p := c23chars[arg(1)]
			Strings(c23chars, 0, 2, func(s string) {
				s = `"` + p + s + `"`
				c23doc(c, s)
				c23doc(c, "["+s+`,"x"]`)
				c23doc(c, `{"k":`+s+"}")
				c23doc(c, `{`+s+`:{`+s+`:1}}`)
			})
		case 'd':
			d := c23docs[arg(1)]
			for i := 0; i <= len(d); i++ {
				c23doc(c, d[:i])
				for b := 0; b < 256; b++ {
					if i < len(d) {
						c23doc(c, d[:i]+string([]byte{byte(b)})+d[i+1:])
					}
					c23doc(c, d[:i]+string([]byte{byte(b)})+d[i:])
				}
			}
		case 'w':
			n := arg(1)
			if n <= 131073 {
				c23doc(c, "["+strings.Repeat("1,", n)+"2]")
				c23doc(c, "["+strings.Repeat(`{"a":[]},`, n)+`"x"]`)
			}
			if n <= 5000 { // (encoding/json ends at a depth of 10000)
				c23doc(c, strings.Repeat("[", n)+"1"+strings.Repeat("]", n))
				c23doc(c, strings.Repeat("[", n)+"1"+strings.Repeat("]", n-1))
				c23doc(c, strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n))
				c23doc(c, strings.Repeat(`[{"a":1,"b":`, n)+"null"+strings.Repeat("}]", n))
			}
			c23doc(c, `"`+strings.Repeat("x", n)+`"`)
			c23doc(c, `{"`+strings.Repeat("k", n)+`":"`+strings.Repeat(`\u00e9`, n)+`"}`)
			c23doc(c, `["`+strings.Repeat(`\\`, n)+`"]`)
			if n < 300 {
				c23doc(c, "["+strings.Repeat("7", n)+"]")
				c23doc(c, "[-1"+strings.Repeat("0", n)+"]")
				c23doc(c, "[0."+strings.Repeat("3", n)+"]")
				c23doc(c, fmt.Sprintf("[1e%d,1e-%d,%de-%d]", n, n, n, n))
			}
			c23doc(c, strings.Repeat(" ", n)+"{"+strings.Repeat("\n", n)+"}"+strings.Repeat("\t", n))
			for d := int64(-2); d <= 2; d++ {
				if n < 64 {
					c23doc(c, fmt.Sprintf("[%d,%d]", int64(1)<<uint(n)+d, uint64(1)<<uint(n)+uint64(d)))
				}
				if n < 19 {
					c23doc(c, fmt.Sprintf("{\"x\":%d}", int64(math.Pow10(n))+d))
				}
			}
			if n > 10001 {
				return
			}
			o := ""
			for i := 0; i < n; i++ {
				o += fmt.Sprintf(`,"k%d":%d`, (i*7)%n+i/n*n+i*1000, i)
			}
			for i := 0; i < 3; i++ {
				c23doc(c, "{"+o[1:]+"}")
			}
		}
	},
}
