package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// The model of C35: a cursor over the bytes of the input. The end counts as
// one position that can be read (giving an error) and unread.
type cursor struct {
	s     string
	pos   int
	runes []int // sizes of the runes read since the last other operation
}

func (m *cursor) at(i int) int {
	if i < len(m.s) {
		return int(m.s[i])
	}
	return 0
}

func (m *cursor) byte() (byte, bool) {
	if m.pos >= len(m.s) {
		m.pos = len(m.s) + 1
		return 0, false
	}
	m.pos++
	return m.s[m.pos-1], true
}

func (m *cursor) rune() (rune, bool) {
	if m.pos >= len(m.s) {
		m.runes = append(m.runes, len(m.s)+1-m.pos)
		m.pos = len(m.s) + 1
		return 0, false
	}
	r, n := utf8.DecodeRuneInString(m.s[m.pos:])
	m.pos += n
	m.runes = append(m.runes, n)
	return r, true
}

// run consumes bytes as long as they are of the class
func (m *cursor) run(class func(byte) bool) string {
	i := m.pos
	for i < len(m.s) && class(m.s[i]) {
		i++
	}
	t := ""
	if m.pos < i {
		t = m.s[m.pos:i]
	}
	m.pos = max(m.pos, i)
	if m.pos > len(m.s) {
		m.pos = len(m.s) // unread of the end
	}
	return t
}

func isEnd(c byte) bool   { return c < 32 && c != '\t' && c != '\n' && c != '\r' }
func isSp(c byte) bool    { return c == ' ' || c == '\t' }
func isText(c byte) bool  { return c > 32 }
func isDig(c byte) bool   { return c >= '0' && c <= '9' }
func isBreak(c byte) bool { return c == '\n' || c == '\r' }

func uniform(s string) string {
	n := strings.Count(s, " ")
	u := byte(0)
	if n == len(s) {
		u = ' '
	} else if n == 0 {
		u = '\t'
	}
	return fmt.Sprint(len(s), " ", u)
}

func res(s string, ok bool) string { return fmt.Sprintf("%q %v", s, ok) }

// An operation on the lexer and on the model; each gives what it returns as text. open: the documentation
// leaves the result or the position open from here on.
type lexOp struct {
	name string
	real func(l *ogdl.Lexer) string
	mod  func(m *cursor) (r string, open bool)
}

func quotedModel(m *cursor, n int) (string, bool, bool) {
	if m.pos >= len(m.s) {
		m.pos = len(m.s)
		return "", false, false
	}
	q := m.s[m.pos]
	if q != '"' && q != '\'' && q != '`' {
		return "", false, false
	}
	var b []byte
	i := m.pos + 1
	for i < len(m.s) {
		c := m.s[i]
		switch {
		case isEnd(c):
			return "", false, true
		case c == q:
			m.pos = i + 1
			return string(b), true, false
		case c == '\\' && q != '`':
			if i+1 < len(m.s) && (m.s[i+1] == '"' || m.s[i+1] == '\'') {
				i++
				b = append(b, m.s[i])
			} else {
				b = append(b, c)
			}
		default:
			b = append(b, c)
		}
		i++
		if c == '\n' && n > 0 {
			// the indentation is not part of the text
			for k := 0; k < n; k++ {
				if i >= len(m.s) || !isSp(m.s[i]) || k > 0 && m.s[i] != m.s[i-1] {
					return "", false, true // less, or not uniform
				}
				i++
			}
		}
	}
	return "", false, true
}

func blockModel(m *cursor, nsp int) (string, bool) {
	m.pos = min(m.pos, len(m.s))
	if !strings.HasPrefix(m.s[m.pos:], "\\\n") {
		if strings.HasPrefix(m.s[m.pos:], "\\\r") {
			return "", true
		}
		return res("", false), false
	}
	i := m.pos + 2
	var b []byte
	for i < len(m.s) && isSp(m.s[i]) {
		j := i
		for j < len(m.s) && isSp(m.s[j]) {
			j++
		}
		if j-i <= nsp {
			break
		}
		if strings.Contains(m.s[i:j], " ") && strings.Contains(m.s[i:j], "\t") {
			return "", true
		}
		k := j
		for k < len(m.s) && m.s[k] != '\n' {
			if isEnd(m.s[k]) || m.s[k] == '\r' {
				return "", true
			}
			k++
		}
		if k == len(m.s) {
			return res(strings.TrimRight(string(b)+m.s[j:], "\n"), true), true
		}
		b = append(b, m.s[j:k+1]...)
		i = k + 1
	}
	m.pos = i
	return res(strings.TrimRight(string(b), "\n"), true), false
}

var lexOps = []lexOp{
	{"Byte", func(l *ogdl.Lexer) string {
		c, err := l.Byte()
		return fmt.Sprint(c, err == nil)
	}, func(m *cursor) (string, bool) { c, ok := m.byte(); return fmt.Sprint(c, ok), false }},
	{"UnreadByte", func(l *ogdl.Lexer) string { l.UnreadByte(); return "" }, func(m *cursor) (string, bool) {
		if m.pos > 0 {
			m.pos--
		}
		return "", false
	}},
	{"UnreadByte x3", func(l *ogdl.Lexer) string {
		for i := 0; i < 3; i++ {
			l.UnreadByte()
		}
		return ""
	}, func(m *cursor) (string, bool) { m.pos = max(m.pos-3, 0); return "", false }},
	{"Rune", func(l *ogdl.Lexer) string {
		c, err := l.Rune()
		return fmt.Sprint(c, err == nil)
	}, func(m *cursor) (string, bool) { c, ok := m.rune(); return fmt.Sprint(c, ok), false }},
	{"UnreadRune", func(l *ogdl.Lexer) string { return fmt.Sprint(l.UnreadRune() == nil) }, func(m *cursor) (string, bool) {
		if len(m.runes) == 0 {
			return "", true
		}
		m.pos -= m.runes[len(m.runes)-1]
		m.runes = m.runes[:len(m.runes)-1]
		return "true", false
	}},
	{"PeekByte", func(l *ogdl.Lexer) string { return fmt.Sprint(l.PeekByte()) }, func(m *cursor) (string, bool) {
		m.pos = min(m.pos, len(m.s))
		return fmt.Sprint(m.at(m.pos)), false
	}},
	{"PeekRune", func(l *ogdl.Lexer) string {
		r, err := l.PeekRune()
		return fmt.Sprint(r, " ", err)
	}, func(m *cursor) (string, bool) {
		m.pos = min(m.pos, len(m.s))
		r, _ := utf8.DecodeRuneInString(m.s[m.pos:])
		if m.pos == len(m.s) {
			r = 0
		}
		return fmt.Sprint(r, " <nil>"), false
	}},
	{"Space", func(l *ogdl.Lexer) string {
		n, u := l.Space()
		return fmt.Sprint(n, " ", u)
	}, func(m *cursor) (string, bool) { return uniform(m.run(isSp)), false }},
	{"SpaceMax(2)", func(l *ogdl.Lexer) string {
		n, u := l.SpaceMax(2)
		return fmt.Sprint(n, " ", u)
	}, func(m *cursor) (string, bool) {
		i := m.pos
		s := m.run(isSp)
		if len(s) > 2 {
			s = s[:2]
			m.pos = i + 2
		}
		return uniform(s), false
	}},
	{"WhiteSpace", func(l *ogdl.Lexer) string { return fmt.Sprint(l.WhiteSpace()) }, func(m *cursor) (string, bool) {
		return fmt.Sprint(m.run(func(c byte) bool { return isSp(c) || isBreak(c) }) != ""), false
	}},
	{"Break", func(l *ogdl.Lexer) string { return fmt.Sprint(l.Break()) }, func(m *cursor) (string, bool) {
		m.pos = min(m.pos, len(m.s))
		switch {
		case strings.HasPrefix(m.s[m.pos:], "\r\n"):
			m.pos += 2
		case m.at(m.pos) == '\n' || m.at(m.pos) == '\r':
			m.pos++
		default:
			return "false", false
		}
		return "true", false
	}},
	{"End", func(l *ogdl.Lexer) string { return fmt.Sprint(l.End()) }, func(m *cursor) (string, bool) {
		// (whether it consumes the end is left open)
		if m.pos >= len(m.s) || isEnd(m.s[m.pos]) {
			return "true", true
		}
		return "false", false
	}},
	{"Comment", func(l *ogdl.Lexer) string { return fmt.Sprint(l.Comment()) }, func(m *cursor) (string, bool) {
		m.pos = min(m.pos, len(m.s))
		if m.at(m.pos) != '#' || m.pos+1 >= len(m.s) || !isSp(m.s[m.pos+1]) {
			return "false", false
		}
		for {
			c, ok := m.byte()
			if !ok || isEnd(c) {
				return "true", true
			}
			if isBreak(c) {
				// up to the end of the line; of CR+NL the NL is an empty line then
				return "true", false
			}
		}
	}},
	{"String", func(l *ogdl.Lexer) string { return res(l.String()) }, func(m *cursor) (string, bool) {
		s := m.run(isText)
		return res(s, s != ""), false
	}},
	{"StringStop(a,)", func(l *ogdl.Lexer) string { return res(l.StringStop([]byte("a,"))) }, func(m *cursor) (string, bool) {
		s := m.run(func(c byte) bool { return isText(c) && c != 'a' && c != ',' })
		return res(s, s != ""), false
	}},
	{"Token8", func(l *ogdl.Lexer) string { return res(l.Token8()) }, func(m *cursor) (string, bool) {
		m.pos = min(m.pos, len(m.s))
		i := m.pos
		for i < len(m.s) {
			r, n := utf8.DecodeRuneInString(m.s[i:])
			if !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' {
				break
			}
			i += n
		}
		s := m.s[m.pos:i]
		m.pos = i
		return res(s, s != ""), false
	}},
	{"Integer", func(l *ogdl.Lexer) string { return res(l.Integer()) }, func(m *cursor) (string, bool) {
		s := m.run(isDig)
		return res(s, s != ""), false
	}},
	{"Number", func(l *ogdl.Lexer) string { return res(l.Number()) }, func(m *cursor) (string, bool) {
		m.pos = min(m.pos, len(m.s))
		i := m.pos
		sign := ""
		if c := m.at(i); c == '-' || c == '+' {
			i++
			if c == '-' {
				sign = "-"
			}
		}
		j, points, digits := i, 0, 0
		for ; j < len(m.s); j++ {
			if m.s[j] == '.' && points == 0 {
				points++
			} else if isDig(m.s[j]) {
				digits++
			} else {
				break
			}
		}
		if j == i {
			return res("", false), false
		}
		m.pos = j
		return res(sign+m.s[i:j], true), digits == 0
	}},
	{"Operator", func(l *ogdl.Lexer) string { return res(l.Operator()) }, func(m *cursor) (string, bool) {
		first := true
		s := m.run(func(c byte) bool {
			ok := strings.IndexByte("*/%&|<>=~^", c) >= 0 || first && strings.IndexByte("+-!", c) >= 0
			first = false
			return ok
		})
		return res(s, s != ""), false
	}},
	{"TemplateText", func(l *ogdl.Lexer) string { return res(l.TemplateText()) }, func(m *cursor) (string, bool) {
		s := m.run(func(c byte) bool { return !isEnd(c) && c != '$' })
		return res(s, s != ""), false
	}},
	{"Quoted", func(l *ogdl.Lexer) string {
		s, ok, err := l.Quoted(0)
		return res(s, ok) + fmt.Sprint(err == nil)
	}, func(m *cursor) (string, bool) {
		s, ok, bad := quotedModel(m, 0)
		return res(s, ok) + fmt.Sprint(!bad), bad
	}},
	{"Scalar", func(l *ogdl.Lexer) string { return res(l.Scalar(0)) }, func(m *cursor) (string, bool) {
		s, ok, bad := quotedModel(m, 0)
		if bad {
			return "", true
		}
		if !ok {
			s = m.run(isText)
		}
		return res(s, ok || s != ""), false
	}},
	{"ScalarType", func(l *ogdl.Lexer) string {
		i, ok := l.ScalarType(0)
		return Content(i) + fmt.Sprint(ok)
	}, func(m *cursor) (string, bool) {
		s, ok, bad := quotedModel(m, 0)
		if bad {
			return "", true
		}
		var v interface{} = s
		if !ok {
			s = m.run(isText)
			v = s
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				v = n
			} else if f, err := strconv.ParseFloat(s, 64); err == nil {
				v = f
			}
		}
		return Content(v) + fmt.Sprint(ok || s != ""), false
	}},
	{"Quoted(1)", func(l *ogdl.Lexer) string {
		s, ok, err := l.Quoted(1)
		return res(s, ok) + fmt.Sprint(err == nil)
	}, func(m *cursor) (string, bool) {
		s, ok, bad := quotedModel(m, 1)
		return res(s, ok) + fmt.Sprint(!bad), bad
	}},
	{"Block(0)", func(l *ogdl.Lexer) string { return res(l.Block(0)) }, func(m *cursor) (string, bool) { return blockModel(m, 0) }},
	{"Block(1)", func(l *ogdl.Lexer) string { return res(l.Block(1)) }, func(m *cursor) (string, bool) { return blockModel(m, 1) }},
}

var lexAlpha = []string{"a", "1", " ", "\n", "\t", "\"", "\\", "é", "\r", "#", "-", ".", "\U0001F600", "\xff", "$"}

// c35run: operations on an input that begins at position n of a stream
func c35run(c *C, n int, text string, ops []int, cut []int) {
	m := &cursor{s: strings.Repeat("x", n) + text}
	var l *ogdl.Lexer
	if cut == nil {
		l = ogdl.NewLexer(strings.NewReader(m.s))
	} else {
		l = ogdl.NewLexer(&segReader{parts: chunk(m.s, cut...), eofWith: n&1 == 1, empty: true})
	}
	for i := 0; i < n; i++ {
		if b, err := l.Byte(); b != 'x' || err != nil {
			c.Failf("byte %d is %q (%v)", i, b, err)
		}
	}
	m.pos = n
	what := func(k int) string {
		var s []string
		for _, o := range ops[:k] {
			s = append(s, lexOps[o].name)
		}
		return fmt.Sprintf("%q at %d: %s", text, n, strings.Join(s, ", "))
	}
	for k, o := range ops {
		op := lexOps[o]
		want, open := op.mod(m)
		got := op.real(l)
		if op.name != "Rune" && op.name != "UnreadRune" {
			m.runes = m.runes[:0]
		}
		c.Step(1)
		if open {
			return
		}
		if got != want {
			c.Failf("%s gives %s, want %s", what(k+1), got, want)
		}
	}
	c.State(fmt.Sprint(m.pos-n, len(text), ops[len(ops)-1]))
	// where are we?
	for i := m.pos; i < len(m.s); i++ {
		if b, err := l.Byte(); b != m.s[i] || err != nil {
			c.Failf("%s, then byte %d is %q (%v), want %q", what(len(ops)), i-n, b, err, m.s[i])
		}
	}
	if b, err := l.Byte(); err == nil {
		c.Failf("%s, then %q after the end", what(len(ops)), b)
	}
	// and back
	back := min(len(m.s)+1, 2000)
	if m.pos > len(m.s) {
		back = min(back, 1)
	}
	for i := 0; i < back; i++ {
		l.UnreadByte()
	}
	for i := len(m.s) + 1 - back; i < len(m.s); i++ {
		if b, err := l.Byte(); b != m.s[i] || err != nil {
			c.Failf("%s, the rest read and %d bytes unread: byte %d is %q (%v), want %q", what(len(ops)), back, i-n, b, err, m.s[i])
		}
	}
}

var c35 = &Prop{
	ID:     "C35",
	Rule:   "(a) every input up to N characters over 15 (letters, digits, spaces, breaks, quotes, multi-byte, invalid) x every sequence of up to K of 26 lexer operations, results and cursor position compared with a cursor over the bytes after each, then the rest read and everything unread and read again; (b) the same with the input at every alignment around the multiples of half the buffer, in several segmentations; (c) walks: a long input read and unread with strides. A state is a pair of position and operation. (d) every sequence of 5 (thorough: 6) of {Byte, UnreadByte, Rune, UnreadRune, PeekByte, PeekRune} at 5 alignments; (e) 14 long inputs, of up to 1 M, x every production. The classes of all bytes and runes",
	Bounds: "quick: N=3 with K=2, N=4 with K=1, alignments -6..+1 around 3 boundaries with K=2; thorough: N=4 with K=2, N=3 with K=3, 6 boundaries",
	Assume: []string{"UnreadRune undoes Rune only; the position after the end was consumed by a production, and after an unterminated quote or block, is left open"},
	Gen: func(thorough bool, emit func(string)) {
		a := len(lexAlpha)
		p2, p3, al := 3, 0, 3
		if thorough {
			p2, p3, al = 4, 3, 6
		}
		emit("k")
		for n := 0; n <= 4; n++ {
			Seqs(a, n, func(ix []int) {
				k := 1
				if n <= p2 {
					k = 2
				}
				if n <= p3 {
					k = 3
				}
				emit(fmt.Sprintf("a %d %s", k, JoinInts(ix, ",")))
			})
		}
		for b := 2; b < 2+al; b++ {
			for o := -6; o <= 1; o++ {
				for i := 0; i < len(lexBig); i++ {
					emit(fmt.Sprintf("b %d %d", b*2048+o, i))
				}
			}
		}
		// (d) reading, unreading and looking, in any order
		k := 5
		if thorough {
			k = 6
		}
		for i := 0; i < len(lexBig); i++ {
			for _, n := range []int{0, 4090, 4095, 4096, 8191} {
				emit(fmt.Sprintf("d %d %d %d", k, n, i))
			}
		}
		// (e) long productions
		for _, n := range append(append([]int{}, sweep(thorough)...), huge...) {
			if n > 900 {
				for i := 0; i < 14; i++ {
					emit(fmt.Sprintf("e %d %d", n, i))
				}
			}
		}
		for u := 1; u <= 2000; u += 37 {
			for _, r := range []int{1, 2, 3, 100, 2047, 2048, 2049, 3000} {
				emit(fmt.Sprintf("w %d %d", r, u))
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Split(desc, " ")
		switch desc[0] {
		case 'k': // classes of characters: each byte in one of them, runes like bytes
			for i := 0; i < 256; i++ {
				b := byte(i)
				c.Step(1)
				space, brk := b == ' ' || b == '\t', b == '\n' || b == '\r'
				for _, x := range []struct {
					what      string
					got, want bool
				}{
					{"IsSpaceChar", ogdl.IsSpaceChar(b), space}, {"IsBreakChar", ogdl.IsBreakChar(b), brk},
					{"IsTextChar", ogdl.IsTextChar(b), b > 32}, {"IsEndChar", ogdl.IsEndChar(b), b < 32 && !space && !brk},
				} {
					if x.got != x.want {
						c.Failf("%s(%d): %v", x.what, i, x.got)
					}
				}
			}
			for r := rune(-2); r <= 0x110000; r++ {
				c.Step(1)
				if got, want := ogdl.IsEndRune(r), r < 32 && r != '\t' && r != '\n' && r != '\r'; got != want {
					c.Failf("IsEndRune(%d): %v", r, got)
				}
				if got, want := ogdl.IsLetter(r), unicode.IsLetter(r) || r == '_'; got != want {
					c.Failf("IsLetter(%d): %v", r, got)
				}
				if got, want := ogdl.IsDigit(r), unicode.IsDigit(r); got != want {
					c.Failf("IsDigit(%d): %v", r, got)
				}
			}
		case 'a':
			k, _ := strconv.Atoi(f[1])
			s := ""
			if f[2] != "" {
				for _, i := range Ints(f[2], ",") {
					s += lexAlpha[i]
				}
			}
			for n := 1; n <= k; n++ {
				Seqs(len(lexOps), n, func(ix []int) { c35run(c, 0, s, ix, nil) })
			}
		case 'b':
			n, _ := strconv.Atoi(f[1])
			i, _ := strconv.Atoi(f[2])
			for k := 1; k <= 2; k++ {
				Seqs(len(lexOps), k, func(ix []int) {
					if lexOps[ix[0]].name == lexOps[len(ix)-1].name && k == 2 && ix[0] > 3 {
						return
					}
					var cut []int
					switch (ix[0] + i) % 4 {
					case 1:
						cut = []int{4096}
					case 2:
						cut = []int{2047, 2}
					case 3:
						cut = []int{n, 1}
					}
					c35run(c, n, lexBig[i], ix, cut)
				})
			}
		case 'd':
			k, _ := strconv.Atoi(f[1])
			n, _ := strconv.Atoi(f[2])
			i, _ := strconv.Atoi(f[3])
			if !strings.ContainsAny(lexBig[i], "é\U0001F600\xff") && n != 4096 {
				return
			}
			sel := []int{0, 1, 3, 4, 5, 6}
			Seqs(len(sel), k, func(ix []int) {
				ops := make([]int, k)
				for j, x := range ix {
					ops[j] = sel[x]
				}
				c35run(c, n, lexBig[i], ops, nil)
			})
		case 'e':
			n, _ := strconv.Atoi(f[1])
			i, _ := strconv.Atoi(f[2])
			s := []string{strings.Repeat("x", n) + " b", strings.Repeat("xyz\u00e9", n/4) + "\nb", strings.Repeat(" ", n) + "b", strings.Repeat(" \t\n", n/3) + "b", strings.Repeat("1", n) + "-2", strings.Repeat("<=", n/2) + "a",
				"\"" + strings.Repeat("x y\n", n/4) + "\"b", "'" + strings.Repeat("\\'", n/2) + "'b", "`" + strings.Repeat("z", n) + "`b", "\\\n " + strings.Repeat("x", n) + "\nb", "\\\n" + strings.Repeat(" li\n", n/4) + "b",
				"# " + strings.Repeat("x ", n/2) + "\nb", "-1." + strings.Repeat("0", n) + "b", "a" + strings.Repeat("é", n/2) + "$"}[i]
			for o := range lexOps {
				if strings.HasPrefix(lexOps[o].name, "Unread") || strings.HasPrefix(lexOps[o].name, "Peek") {
					continue
				}
				c35run(c, 0, s, []int{o, 0}, nil)
				c35run(c, 3, s, []int{o, 3}, []int{n - 1, 1})
			}
		case 'w':
			r, _ := strconv.Atoi(f[1])
			u, _ := strconv.Atoi(f[2])
			m := &cursor{s: strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyzé-", 500)}
			l := ogdl.NewLexer(&segReader{parts: chunk(m.s, u, r), empty: true})
			for round := 0; m.pos < len(m.s); round++ {
				for i := 0; i < r+u; i++ {
					w, wok := m.byte()
					b, err := l.Byte()
					if b != w || (err == nil) != wok {
						c.Failf("reading %d, unreading %d: byte %d is %q, want %q", r+u, u, m.pos-1, b, w)
					}
				}
				if m.pos > len(m.s) {
					break
				}
				for i := 0; i < u; i++ {
					m.pos--
					l.UnreadByte()
				}
				c.Step(1)
			}
			c.State(desc)
		}
	},
}

// inputs at the buffer boundaries
var lexBig = []string{"\r\na", "aé\U0001F600b ", "  \t \n ", "# x y\n z", "\"a\\\"é\nb\" c", "12.5-3", "<=-!=+", "\\\n a\n  b\nc", "\U0001F600\U0001F600\U0001F600", "a\xc3\xff\xf0\x9f.", "ab,ac", "\\\\\\\"", "x$y"}
