package main

import (
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// typed gives the documented conversion of an unquoted scalar
func typed(s string) interface{} {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return i
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return f
	}
	switch s {
	case "true":
		return true
	case "false":
		return false
	}
	return s
}

// fromTyped copies a graph to a tree whose labels show the content types
func fromTyped(g *ogdl.Graph) *T {
	if g == nil {
		return nil
	}
	t := N(Content(g.This))
	for _, k := range g.Out {
		t.K = append(t.K, fromTyped(k))
	}
	return t
}

// tsc is a scalar with its typed content (as shown by Content)
func tsc(s sc, v interface{}) sc {
	s.content = Content(v)
	return s
}

func tword(s string) sc { return tsc(w(s), typed(s)) }

// typedDoc gives the typed version of the words of a document
func typedContext(i int, s sc) ([]dl, string, bool) {
	doc, eol, final := context(i, s)
	for _, l := range doc {
		for k := range l.sc {
			if c := l.sc[k].content; len(c) == 1 {
				l.sc[k].content = Content(c)
			}
		}
	}
	return doc, eol, final
}

func c06check(c *C, doc []dl, eol string, final bool) {
	want := docModel(doc)
	text := docRender(doc, eol, final)
	c.Step(len(doc))
	g := ogdl.FromStringTypes(text)
	got := fromTyped(g).Str()
	c.State(want.Str())
	if got != want.Str() {
		c.Differ("FromStringTypes("+strconv.Quote(text)+")", got, want.Str())
	}
	// same shape as plain parsing, same contents as text up to notation
	if a, b := shape(ogdl.FromString(text)), shape(g); a != b {
		c.Differ("shape of "+strconv.Quote(text), b, a)
	}
	p := ogdl.NewStringParser(text)
	p.OgdlTypes()
	if got := fromTyped(p.Graph()).Str(); got != want.Str() {
		c.Differ("OgdlTypes of "+strconv.Quote(text), got, want.Str())
	}
	// plain parsing never converts
	if s := fromTyped(ogdl.FromString(text)).Str(); strings.Contains(s, "int64:") && !strings.Contains(text, "int64:") || strings.Contains(s, "float64:") {
		c.Failf("FromString(%q) converts: %s", text, s)
	}
}

func shape(g *ogdl.Graph) string {
	s := "("
	for _, k := range g.Out {
		s += shape(k)
	}
	return s + ")"
}

var c06special = []string{"true", "false", "True", "FALSE", "TRUE", "t", "f", "yes", "no", "nil", "inf", "+Inf", "-inf", "infinity", "NaN", "nan", "0x10", "0x1p4", "0X1P-2", "0b1", "0o7", "007", "-0", "+0", "-0.0", "1_000", "0x_1p2",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "2147483648", "4294967296", "16777217", "9007199254740993", "1e308", "1e309", "-1e400", "4.9e-324", "1e-400", "1E5", "1e+5", "1.5e-3", ".5", "5.", "-.5", "1.", "1.2.3", "1,2", "1a", "a1", "--1", "+-1", "1-", "12:30", "2020-01-02", "true,", "truefalse", "true1", "#1", "1#", "$1", "(1)", "[1]", "é1", "1é", "٣", "1\u00a0", "0.1", "123456789.123456789", "00000000000000000000001", "1e", "e1", "e", "-", "+", ".", "1e1e1", "3.0", "100000000000000000000", "1.0e0"}

var c06 = &Prop{
	ID:     "C06",
	Rule:   "every spelling up to N characters over {0,1,9,-,+,.,e,E,x,_,a,comma} and 90 special spellings (limits of every width, booleans, infinities, exponents), bare, between each kind of quotes and in a block, in 10 document contexts, plus every pair of special spellings on a line. Expected: strconv conversion for bare scalars (int64, then float64, then true/false), the string otherwise; same shape as plain parsing.",
	Bounds: "quick: N=4; thorough: N=5 and all triples of 24 spellings",
	Gen: func(thorough bool, emit func(string)) {
		for _, s := range c06special {
			emit("s" + s)
		}
		n := 4
		if thorough {
			n = 5
		}
		Strings([]string{"0", "1", "9", "-", "+", ".", "e", "E", "x", "_", "a", ","}, 1, n, func(s string) { emit("s" + s) })
		for i := range c06special {
			for j := range c06special {
				emit("p" + JoinInts([]int{i, j}, ","))
			}
		}
		if thorough {
			Seqs(24, 3, func(ix []int) { emit("p" + JoinInts(ix, ",")) })
		}
	},
	Run: func(c *C, desc string) {
		if desc[0] == 'p' {
			var l, q []sc
			for k, i := range Ints(desc[1:], ",") {
				s := c06special[i]
				if k == 0 && s[0] == ',' {
					c.Skip()
				}
				l = append(l, tword(s))
				if k == 0 {
					q = append(q, tword(s))
				} else {
					z, _ := quoted('\'', s)
					q = append(q, tsc(z, s))
				}
			}
			c06check(c, []dl{{"", l}, {"  ", q}, {"", q}, {" ", l}}, "\n", true)
			c06check(c, []dl{{"", q}, {"\t", l}}, "\r\n", false)
			return
		}
		s := desc[1:]
		if s[0] == ',' {
			c.Skip()
		}
		q1, _ := quoted('"', s)
		q2, _ := quoted('\'', s)
		q3, _ := quoted('`', s)
		for i := 0; i < nContexts; i++ {
			for _, x := range []sc{tword(s), tsc(q1, s), tsc(q2, s), tsc(q3, s)} {
				doc, eol, final := typedContext(i, x)
				c06check(c, doc, eol, final)
			}
		}
		for _, ind := range []string{"", "  "} {
			b := tsc(sc{text: func(string) string { return "\\\n" + ind + " " + s }}, s)
			c06check(c, []dl{{"", []sc{tword("t")}}, {ind, []sc{tword("1"), b}}, {"", []sc{tword("2"), tword(s)}}}, "\n", true)
			b = tsc(sc{text: func(string) string { return "\\\n" + ind + "  " + s + "\n" + ind + " " + s }}, s+"\n"+s)
			c06check(c, []dl{{ind, []sc{b}}}, "\n", true)
		}
	},
}
