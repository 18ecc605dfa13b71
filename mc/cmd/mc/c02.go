package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// sc is a scalar of a document: its notation (given the indentation of the
// line it starts on) and its content. Comments have no content.
type sc struct {
	text    func(ind string) string
	content string
	comment bool
	sep     string // separator before it (default a space)
}

// dl is a line of a document (multi-line scalars included)
type dl struct {
	ind string
	sc  []sc
}

// docModel builds the tree that the documented indentation rule gives
func docModel(doc []dl) *T {
	root := N("_")
	type ent struct {
		ind  int
		node *T
	}
	var stack []ent
	for _, l := range doc {
		var p *T
		for _, s := range l.sc {
			if s.comment {
				break
			}
			if p == nil {
				for len(stack) > 0 && stack[len(stack)-1].ind >= len(l.ind) {
					stack = stack[:len(stack)-1]
				}
				p = root
				if len(stack) > 0 {
					p = stack[len(stack)-1].node
				}
				p = p.Add(s.content)
				stack = append(stack, ent{len(l.ind), p})
			} else {
				p = p.Add(s.content)
			}
		}
	}
	return root
}

func docRender(doc []dl, eol string, final bool) string {
	var b strings.Builder
	for i, l := range doc {
		b.WriteString(l.ind)
		for k, s := range l.sc {
			if k > 0 {
				if s.sep == "" {
					b.WriteString(" ")
				} else {
					b.WriteString(s.sep)
				}
			}
			b.WriteString(s.text(l.ind))
		}
		if i < len(doc)-1 || final {
			b.WriteString("\n")
		}
	}
	if eol != "\n" {
		return strings.ReplaceAll(b.String(), "\n", eol)
	}
	return b.String()
}

func raw(s, content string) sc {
	return sc{text: func(string) string { return s }, content: content}
}
func w(s string) sc { return raw(s, s) }

// quoted makes a scalar from the raw text between quotes; ok is false if
// that is not a complete quoted text
func quoted(delim byte, body string) (sc, bool) {
	var content []byte
	for i := 0; i < len(body); i++ {
		c := body[i]
		if c == '\\' && delim != '`' {
			if i+1 >= len(body) {
				return sc{}, false // would escape the final quote
			}
			if body[i+1] == '"' || body[i+1] == '\'' {
				i++
				content = append(content, body[i])
				continue
			}
		} else if c == delim {
			return sc{}, false
		}
		content = append(content, c)
	}
	return sc{text: func(ind string) string {
		return string(delim) + strings.ReplaceAll(body, "\n", "\n"+ind) + string(delim)
	}, content: string(content)}, true
}

// contexts in which a scalar is placed
func context(i int, s sc) (doc []dl, eol string, final bool) {
	c := sc{text: func(string) string { return "# \"no' `x` \\" }, comment: true}
	eol, final = "\n", true
	switch i {
	case 0:
		doc = []dl{{"", []sc{s}}}
		final = false
	case 1:
		doc = []dl{{"", []sc{s}}, {"", []sc{w("b")}}}
	case 2:
		doc = []dl{{"", []sc{w("a"), s}}, {"", []sc{w("b")}}}
	case 3:
		doc = []dl{{"", []sc{w("a")}}, {"  ", []sc{s}}, {"  ", []sc{w("b")}}, {"", []sc{w("c")}}}
	case 4:
		doc = []dl{{"", []sc{w("a")}}, {"  ", []sc{w("b"), s, w("c"), w("d")}}, {"  ", []sc{w("e")}}, {"", []sc{w("f")}}}
	case 5:
		doc = []dl{{"", []sc{w("a")}}, {" ", []sc{s}}, {"  ", []sc{w("k")}}, {" ", []sc{s}}}
		final = false
	case 6:
		doc = []dl{{"", []sc{w("a")}}, {"\t", []sc{s, w("x")}}, {"\t\t", []sc{w("y")}}, {"", []sc{w("b")}}}
	case 7:
		doc = []dl{{"", []sc{s, s}}, {" ", []sc{s}}}
	case 8:
		doc = []dl{{"", []sc{w("a"), s, c}}, {"", []sc{w("b")}}}
	case 9:
		doc = []dl{{"", []sc{w("a")}}, {"    ", []sc{s, c}}, {"  ", []sc{w("b"), s}}, {" ", []sc{w("c")}}}
	}
	return
}

const nContexts = 10

// words are all strings that denote themselves as bare words
func bareWord(s string) bool {
	if s == "" || strings.IndexByte("\"'`,", s[0]) >= 0 || s == "\\" {
		return false
	}
	return true
}

func c02check(c *C, doc []dl, eol string, final bool) {
	want := docModel(doc)
	text := docRender(doc, eol, final)
	c.Step(len(doc))
	c.Same("FromString("+strconv.Quote(text)+")", ogdl.FromString(text), want)
	if strings.IndexByte(text, '\r') < 0 {
		c.Same("FromStringTypes("+strconv.Quote(text)+")", ogdl.FromStringTypes(text), want)
	}
}

var blockLines = []string{"x", "x y", "# no", "\"q", "\\", "x  ", "", "é,b"}

// tokens for the sequences of part S
func c02token(i int) (s sc, multi bool) {
	switch i {
	case 0:
		return w("w"), false
	case 1:
		return w("#x"), false
	case 2:
		s, _ := quoted('"', "q r")
		return s, false
	case 3:
		s, _ := quoted('\'', "a\n b\nc")
		return s, true
	case 4:
		s, _ := quoted('`', "\\\"'# z")
		return s, false
	case 5:
		s, _ := quoted('"', "")
		return s, false
	case 6: // comment
		return sc{text: func(string) string { return "# c \"d" }, comment: true}, false
	case 7: // comment with a tab
		return sc{text: func(string) string { return "#\tc" }, comment: true}, false
	case 8: // block
		return sc{text: func(ind string) string {
			return "\\\n" + ind + " k1\n" + ind + "   k2 # z\n" + ind + " k3"
		}, content: "k1\nk2 # z\nk3"}, true
	case 9:
		return w("#"), false // only at the end of a line
	case 10:
		return w("a\"b'c`\\"), false
	case 11:
		s, _ := quoted('\'', "\\\\\\'\\n")
		return s, false
	}
	panic(i)
}

const nTokens = 12

var c02 = &Prop{
	ID:     "C02",
	Rule:   "(Q) every raw body up to length N over {a,space,NL,\",',`,\\,#,comma,é,tab} between each kind of quotes, in 10 document contexts (root, child, sibling, followed by children, by a comment, tab indentation, irregular dedent, end of input); (W) every bare word likewise; (B) every block of up to 3 body lines (indentations x texts) at two indentations, with every following line, LF and CRLF; (S) every sequence of up to 4 notations on a line with separators, followed by lines at every indentation. The model decodes the notation and nests by indentation; a state is a distinct tree. One scalar of 16 sizes from 16 K to 1 M in each form.",
	Bounds: "quick: N=4 for quotes and words; thorough: N=5, sequences of 5",
	Assume: []string{"quoted texts end before the line end they belong to and their continuation lines carry the indentation of the opening line", "carriage returns inside quoted text and comma at the begin of a line excluded"},
	Gen: func(thorough bool, emit func(string)) {
		alpha := []string{"a", " ", "\n", "\"", "'", "`", "\\", "#", ",", "é", "\t"}
		max := 4
		if thorough {
			max = 5
		}
		Strings(alpha, 0, max, func(s string) {
			emit("Q|" + s)
		})
		wa := []string{"a", "#", "\"", "'", "`", "\\", ",", "é", "(", "$", "1"}
		Strings(wa, 1, max, func(s string) {
			emit("W|" + s)
		})
		// S: sequences
		ml := 4
		if thorough {
			ml = 5
		}
		for n := 1; n <= ml; n++ {
			Seqs(nTokens, n, func(ix []int) {
				d := JoinInts(ix, ",")
				emit("S|" + d)
			})
		}
		// B: blocks
		bl := len(blockLines) * 3
		for n := 0; n <= 3; n++ {
			Seqs(bl, n, func(ix []int) {
				emit("B|" + JoinInts(ix, ","))
			})
		}
		for _, n := range sweep(thorough) {
			emit("L|" + strconv.Itoa(n))
		}
		for _, n := range huge {
			emit("G|" + strconv.Itoa(n))
		}
		emit("D|2040")
		emit("D|5000")
	},
	Run: func(c *C, desc string) {
		arg := desc[2:]
		switch desc[0] {
		case 'Q':
			for _, d := range []byte("\"'`") {
				s, ok := quoted(d, arg)
				if !ok {
					continue
				}
				for i := 0; i < nContexts; i++ {
					doc, eol, final := context(i, s)
					c02check(c, doc, eol, final)
					if !strings.Contains(arg, "\n") {
						c02check(c, doc, "\r\n", final)
						c02check(c, doc, "\r", final)
					}
				}
			}
		case 'W':
			if !bareWord(arg) {
				c.Skip()
			}
			for i := 0; i < nContexts; i++ {
				if arg == "#" && (i == 4 || i >= 6) {
					continue // followed by a space: a comment
				}
				doc, eol, final := context(i, w(arg))
				c02check(c, doc, eol, final)
				c02check(c, doc, "\r\n", final)
				c02check(c, doc, "\r", final)
			}
		case 'S':
			ix := Ints(arg, ",")
			var l []sc
			single := true
			for k, i := range ix {
				s, multi := c02token(i)
				if multi {
					single = false
				}
				last := k == len(ix)-1
				if !last && (i == 6 || i == 7 || i == 8 || i == 9) {
					c.Skip()
				}
				l = append(l, s)
			}
			for _, sep := range []string{" ", "\t", "  "} {
				for k := range l {
					l[k].sep = sep
				}
				for _, ind := range []string{"", "  "} {
					for _, next := range []string{"", " ", "  ", "   ", "     "} {
						doc := []dl{{"", []sc{w("top")}}, {ind, l}, {next, []sc{w("n"), w("m")}}, {"", []sc{w("end")}}}
						if ix[len(ix)-1] == 8 && len(next) > len(ind) {
							continue // would be part of the block
						}
						c02check(c, doc, "\n", true)
						if single && len(ix) < 4 {
							c02check(c, doc, "\r", true)
							c02check(c, doc, "\r\n", true)
						}
					}
				}
				c02check(c, []dl{{"", l}}, "\n", false)
				c02check(c, []dl{{"", l}}, "\n", true)
				if ix[len(ix)-1] != 8 {
					c02check(c, []dl{{" ", l}, {" ", l}, {"  ", l}}, "\n", true)
				}
				c02check(c, []dl{{" ", l}, {" ", l}, {"", l}}, "\n", true)
			}
		case 'B':
			ix := Ints(arg, ",")
			for _, ind := range []string{"", "  ", "\t"} {
				var lines []string
				text := "\\"
				for _, i := range ix {
					x := blockLines[i%len(blockLines)]
					lines = append(lines, x)
					p := " "
					if ind == "\t" {
						p = "\t"
					}
					text += "\n" + ind + strings.Repeat(p, 1+i/len(blockLines)) + x
				}
				b := sc{text: func(string) string { return text }, content: strings.TrimRight(strings.Join(lines, "\n"), "\n")}
				nexts := []string{"", " ", "  "}
				if ind == "\t" {
					nexts = []string{"", "\t"}
				}
				for _, next := range nexts {
					if len(next) > len(ind) {
						continue
					}
					for _, eol := range []string{"\n", "\r\n"} {
						doc := []dl{{"", []sc{w("t")}}, {ind, []sc{w("a"), b}}, {next, []sc{w("n"), w("m")}}, {"", []sc{w("z")}}}
						c02check(c, doc, eol, true)
						doc = []dl{{"", []sc{w("t")}}, {ind, []sc{b}}, {next, []sc{b}}}
						c02check(c, doc, eol, len(ix) == 0)
						doc = []dl{{"", []sc{w("t")}}, {ind, []sc{w("a"), b}}, {next, []sc{raw("# c", ""), w("d")}}, {next, []sc{w("z")}}}
						doc[2].sc[0].comment = true
						c02check(c, doc, eol, true)
						doc = []dl{{ind, []sc{b}}}
						c02check(c, doc, eol, true)
					}
				}
			}
		case 'L':
			n, _ := strconv.Atoi(arg)
			long := strings.Repeat("x", n)
			deep := strings.Repeat(" ", n)
			q1, _ := quoted('"', long+" \\\""+long)
			q2, _ := quoted('\'', strings.Repeat("l\n", n)+"e")
			for i := 0; i < nContexts; i++ {
				for _, s := range []sc{w(long), q1, q2} {
					doc, eol, final := context(i, s)
					c02check(c, doc, eol, final)
				}
			}
			if n > 2000 {
				return // deeper indentation: see case D
			}
			q3, _ := quoted('"', "a\n b\n\nc")
			c02check(c, []dl{{"", []sc{w("t")}}, {deep, []sc{q3, w("x")}}, {deep, []sc{w("y")}}, {"", []sc{w("z")}}}, "\n", true)
			b := sc{text: func(ind string) string {
				return "\\" + strings.Repeat("\n "+ind+"l", n)
			}, content: strings.Repeat("l\n", n-1) + "l"}
			c02check(c, []dl{{"", []sc{w("t")}}, {" ", []sc{w("a"), b}}, {" ", []sc{w("y")}}, {"", []sc{w("z")}}}, "\n", true)
			{
				b = sc{text: func(ind string) string {
					return "\\\n" + ind + deep + "l\n" + ind + " m"
				}, content: "l\nm"}
				c02check(c, []dl{{"", []sc{w("t")}}, {deep, []sc{w("a"), b}}, {" ", []sc{w("y")}}, {"", []sc{w("z")}}}, "\n", true)
			}
			if n > 400 {
				return
			}
			// many scalars on a line
			var l []sc
			for i := 0; i < n; i++ {
				s, _ := quoted('"', fmt.Sprint("v ", i))
				l = append(l, s)
			}
			c02check(c, []dl{{"", l}, {" ", []sc{w("y")}}}, "\n", true)
		case 'G':
			// one scalar that is larger than any buffer
			n, _ := strconv.Atoi(arg)
			long := strings.Repeat("x", n)
			var l []sc
			for _, d := range []byte("\"'`") {
				q, _ := quoted(d, long)
				l = append(l, q)
			}
			q, _ := quoted('\'', strings.Repeat("li\n", n/3)+"e")
			l = append(l, q, w(long), sc{text: func(ind string) string {
				return "\\\n " + ind + long + "\n " + ind + "m"
			}, content: long + "\nm"}, raw("# "+long, ""), sc{text: func(ind string) string {
				return "\\" + strings.Repeat("\n "+ind+"block", n/6)
			}, content: strings.TrimSuffix(strings.Repeat("block\n", n/6), "\n")})
			for k, s := range l {
				s.comment = k == 6
				c02check(c, []dl{{"", []sc{w("t")}}, {" ", []sc{w("a"), s}}, {" ", []sc{w("y")}}, {"", []sc{w("z")}}}, "\n", true)
				eol := "\r\n"
				if k == 3 {
					eol = "\n"
				}
				c02check(c, []dl{{"", []sc{s}}, {"", []sc{w("z"), w("y")}}}, eol, true)
			}
		case 'D':
			n, _ := strconv.Atoi(arg)
			c02check(c, []dl{{"", []sc{w("a")}}, {strings.Repeat(" ", n), []sc{w("b"), w("c")}}, {strings.Repeat(" ", n+1), []sc{w("e")}}, {strings.Repeat(" ", n), []sc{w("f")}}, {"", []sc{w("d")}}}, "\n", true)
			q3, _ := quoted('"', "a\n b\n\nc")
			c02check(c, []dl{{"", []sc{w("t")}}, {strings.Repeat(" ", n), []sc{q3, w("x")}}, {strings.Repeat(" ", n), []sc{w("y")}}, {"", []sc{w("z")}}}, "\n", true)
		}
	},
}
