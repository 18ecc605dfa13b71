package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// A document of C01 is a list of lines: indentation and kind.
//
//	s one scalar, d two, t three, n blank (only indentation), c comment
type line struct {
	ind  int
	kind byte
}

func parseDoc(s string) []line {
	var r []line
	for _, f := range strings.Split(s, ";") {
		n, _ := strconv.Atoi(f[:len(f)-1])
		r = append(r, line{n, f[len(f)-1]})
	}
	return r
}

// model of the documented nesting rule
func c01model(doc []line) *T {
	root := N("_")
	type ent struct {
		ind  int
		node *T
	}
	var stack []ent
	for i, l := range doc {
		n := scalars(l.kind)
		if n == 0 {
			continue
		}
		for len(stack) > 0 && stack[len(stack)-1].ind >= l.ind {
			stack = stack[:len(stack)-1]
		}
		p := root
		if len(stack) > 0 {
			p = stack[len(stack)-1].node
		}
		first := p.Add(word(i, 0))
		stack = append(stack, ent{l.ind, first})
		p = first
		for k := 1; k < n; k++ {
			p = p.Add(word(i, k))
		}
	}
	return root
}

func scalars(k byte) int {
	switch k {
	case 's':
		return 1
	case 'd':
		return 2
	case 't':
		return 3
	}
	return 0
}

func word(i, k int) string { return fmt.Sprintf("w%d%c", i, 'a'+k) }

func c01render(doc []line, eol, ind string, final bool) string {
	var b strings.Builder
	for i, l := range doc {
		b.WriteString(strings.Repeat(ind, l.ind))
		switch l.kind {
		case 'c':
			b.WriteString("# " + word(i, 0) + "  x")
		default:
			for k := 0; k < scalars(l.kind); k++ {
				if k > 0 {
					b.WriteString(" ")
				}
				b.WriteString(word(i, k))
			}
		}
		if i < len(doc)-1 || final {
			b.WriteString(eol)
		}
	}
	return b.String()
}

var eols = map[byte]string{'n': "\n", 'w': "\r\n", 'r': "\r"}

var c01 = &Prop{
	ID:     "C01",
	Rule:   "all documents of up to L lines, each line an indentation with one, two or three scalars, a blank or white space line or a comment, with all line end and indentation characters; plus sweeps of depth, width, line count, indentation and blank runs. The model builds the tree from the documented indentation rule; every document is parsed by the real parser (string, bytes, reader) and the trees compared. A state is a distinct tree. Lines, widths, words and comments of up to 1 M.",
	Bounds: "quick: L<=5 (13 kinds of line), L<=4 with all line ends and tabs; sweeps to 400 levels and 3000 lines. thorough: L<=6",
	Gen: func(thorough bool, emit func(string)) {
		kinds := []string{"0s", "1s", "2s", "3s", "5s", "0d", "2d", "0n", "1n", "3n", "0c", "1c", "4c"}
		max := 5
		if thorough {
			max = 6
		}
		for n := 1; n <= max; n++ {
			Seqs(len(kinds), n, func(ix []int) {
				var f []string
				for _, i := range ix {
					f = append(f, kinds[i])
				}
				d := strings.Join(f, ";")
				emit("n F|" + d)
				if n <= 4 {
					emit("n f|" + d)
					emit("w F|" + d)
					emit("r f|" + d)
					emit("n\tF|" + d)
				}
			})
		}
		// irregular dedents in depth
		ks := []string{"0s", "1s", "2s", "3s", "4s", "5t"}
		m2 := 6
		if thorough {
			m2 = 7
		}
		Seqs(len(ks), m2, func(ix []int) {
			var f []string
			for _, i := range ix {
				f = append(f, ks[i])
			}
			emit("n F|" + strings.Join(f, ";"))
		})
		for _, n := range sweep(thorough) {
			for _, k := range []string{"deep", "deep2", "stairs", "wide", "lines", "kids", "jump", "steps", "blanks", "comments", "wsline", "longword", "longcomment"} {
				if n > 1025 && (k == "deep" || k == "deep2" || k == "stairs") || n > 2040 && (k == "jump" || k == "steps") {
					continue // deeper indentation: see D in C02
				}
				if n > 1000 && k == "deep2" {
					continue
				}
				emit(fmt.Sprintf("S%s:%d", k, n))
			}
		}
		for _, n := range huge {
			for _, k := range []string{"wide", "lines", "kids", "blanks", "comments", "wsline", "longword", "longcomment"} {
				if n <= 65537 || k != "wide" && n <= 131073 || !strings.Contains("wide lines kids comments", k) {
					emit(fmt.Sprintf("S%s:%d", k, n))
				}
			}
		}
	},
	Run: func(c *C, desc string) {
		var text string
		var want *T
		if desc[0] == 'S' {
			text, want = c01sweep(desc[1:])
		} else {
			h, d, _ := strings.Cut(desc, "|")
			doc := parseDoc(d)
			want = c01model(doc)
			text = c01render(doc, eols[h[0]], h[1:2], h[2] == 'F')
			c.Step(len(doc))
		}
		c.Same("FromString", ogdl.FromString(text), want)
		c.Same("FromBytes", lent([]byte(text), ogdl.FromBytes), want)
		c.Same("FromReader", ogdl.FromReader(bytes.NewReader([]byte(text))), want)
		if desc[0] != 'S' {
			c.Same("FromStringTypes", ogdl.FromStringTypes(text), want)
		}
	},
}

// Sizes over the limits that are common in code that reads and writes: 16 K, 32 K, 64 K, 128 K, 256 K, 1 M.
var huge = []int{16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 131071, 131072, 131073, 262144, 262145, 1<<20 + 1}

// Numbers of nodes over them
var vast = []int{16385, 32769, 65535, 65536, 65537, 100001}

func sweep(thorough bool) []int {
	var r []int
	for i := 1; i <= 140; i++ {
		r = append(r, i)
	}
	r = append(r, 199, 200, 254, 255, 256, 257, 300, 383, 384, 385, 400, 500, 511, 512, 513, 600, 680, 681, 682, 683, 700, 819, 1000, 1023, 1024, 1025, 1365, 1366, 1500, 2000, 2040, 3000, 4095, 4096, 4097, 5000, 8192, 10001)
	if thorough {
		r = append(r, 4000, 8190, 8191, 8193, 16384, 16385, 20000, 32769)
	}
	return r
}

func c01sweep(s string) (string, *T) {
	k, ns, _ := strings.Cut(s, ":")
	n, _ := strconv.Atoi(ns)
	var b strings.Builder
	root := N("_")
	p := root
	w := func(i int) string { return "w" + strconv.Itoa(i) }
	switch k {
	case "deep", "deep2":
		u := 1
		if k == "deep2" {
			u = 2
		}
		for i := 0; i < n; i++ {
			b.WriteString(strings.Repeat(" ", i*u) + w(i) + "\n")
			p = p.Add(w(i))
		}
		b.WriteString("end x\n y\n")
		e := root.Add("end")
		e.Add("x")
		e.Add("y")
	case "stairs":
		// go down n levels and come back one by one
		var path []*T
		for i := 0; i < n; i++ {
			b.WriteString(strings.Repeat(" ", i) + w(i) + "\n")
			path = append(path, p)
			p = p.Add(w(i))
		}
		for i := n - 1; i >= 0; i-- {
			b.WriteString(strings.Repeat(" ", i) + "b" + w(i) + "\n")
			path[i].Add("b" + w(i))
		}
	case "wide":
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(w(i))
			p = p.Add(w(i))
		}
		b.WriteString("\n  c\nd\n")
		root.K[0].Add("c")
		root.Add("d")
	case "lines":
		for i := 0; i < n; i++ {
			b.WriteString(w(i) + "\n")
			root.Add(w(i))
		}
	case "kids":
		b.WriteString("a\n")
		a := root.Add("a")
		for i := 0; i < n; i++ {
			b.WriteString("  " + w(i) + " v\n")
			a.Add(w(i)).Add("v")
		}
		b.WriteString("z\n")
		root.Add("z")
	case "jump":
		b.WriteString("a\n" + strings.Repeat(" ", n) + "b\n" + strings.Repeat(" ", n) + "c\n" + strings.Repeat(" ", n/2) + "d\ne\n")
		a := root.Add("a")
		a.Add("b")
		a.Add("c")
		if n/2 > 0 {
			a.Add("d")
		} else {
			root.Add("d")
		}
		root.Add("e")
	case "steps":
		// one column matters, however far to the right
		sp := strings.Repeat(" ", n)
		b.WriteString("a\n" + sp + "b\n" + sp + " c\n" + sp + "  d e\n" + sp + " f\n" + sp + "g\n" + sp[1:] + "h\ni\n")
		x := root.Add("a")
		y := x.Add("b")
		y.Add("c").Add("d").Add("e")
		y.Add("f")
		x.Add("g")
		if n > 1 {
			x.Add("h")
		} else {
			root.Add("h")
		}
		root.Add("i")
	case "blanks":
		b.WriteString("a\n b\n" + strings.Repeat("\n", n) + " c\n" + strings.Repeat("\n", n) + "d")
		a := root.Add("a")
		a.Add("b")
		a.Add("c")
		root.Add("d")
	case "comments":
		b.WriteString("a\n b\n" + strings.Repeat("   # x\n", n) + " c\n" + strings.Repeat("# y\n", n) + "d")
		a := root.Add("a")
		a.Add("b")
		a.Add("c")
		root.Add("d")
	case "wsline":
		b.WriteString("a\n b\n" + strings.Repeat(" ", n) + "\n c\n" + strings.Repeat("\t", n) + "\nd")
		a := root.Add("a")
		a.Add("b")
		a.Add("c")
		root.Add("d")
	case "longword":
		x := strings.Repeat("x", n)
		b.WriteString("a " + x + "\n " + x + "\nb\n")
		a := root.Add("a")
		a.Add(x)
		a.Add(x)
		root.Add("b")
	case "longcomment":
		b.WriteString("a\n b # " + strings.Repeat("x ", n) + "\n c\nd")
		a := root.Add("a")
		a.Add("b")
		a.Add("c")
		root.Add("d")
	}
	return b.String(), root
}

// lent calls f with bytes that are used for something else afterwards, and
// must be as they were until then
func lent(b []byte, f func([]byte) *ogdl.Graph) *ogdl.Graph {
	in := append(make([]byte, 0, len(b)+8), b...)
	g := f(in)
	if !bytes.Equal(in, b) {
		return ogdl.New("the input was changed")
	}
	in = in[:cap(in)]
	for i := range in {
		in[i] = '#'
	}
	return g
}
