package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// segReader answers reads with the given parts (each answer at most one part)
type segReader struct {
	parts   []string
	eofWith bool // data and EOF in the same answer
	empty   bool // an empty answer before each part
	did     bool
	reads   int
}

func (r *segReader) Read(b []byte) (int, error) {
	r.reads++
	if len(r.parts) == 0 {
		return 0, io.EOF
	}
	if r.empty && !r.did {
		r.did = true
		return 0, nil
	}
	r.did = false
	n := copy(b, r.parts[0])
	r.parts[0] = r.parts[0][n:]
	if r.parts[0] == "" {
		r.parts = r.parts[1:]
	}
	if len(r.parts) == 0 && r.eofWith {
		return n, io.EOF
	}
	return n, nil
}

var tmpName = filepath.Join(os.TempDir(), fmt.Sprintf("file.%d", os.Getpid()))
var tmpSeq int64

// tmpFile makes a file with this content (the names are used in turn)
func tmpFile(b []byte) string {
	f := fmt.Sprint(tmpName, ".", atomic.AddInt64(&tmpSeq, 1)%8192)
	if err := os.WriteFile(f, b, 0600); err != nil {
		panic(err)
	}
	return f
}

// chunk cuts s in parts of the given sizes (repeated)
func chunk(s string, sizes ...int) []string {
	var r []string
	for i := 0; len(s) > 0; i++ {
		n := sizes[i%len(sizes)]
		if n > len(s) {
			n = len(s)
		}
		r = append(r, s[:n])
		s = s[n:]
	}
	return r
}

// parse with one of the productions
func produce(kind byte, rd io.Reader) *ogdl.Graph {
	if kind == 'o' {
		return ogdl.FromReader(rd)
	}
	p := ogdl.NewParser(rd)
	switch kind {
	case 'y':
		p.OgdlTypes()
	case 'p':
		p.Path()
	case 'e':
		p.Expression()
	case 't':
		p.Template()
	}
	return p.Graph()
}

var c03small = []string{
	"ya b\n  c\r\n d", "oa 'b\n c'\nd", "oa \\\n  x\n y", "oé ü\n ñ#", "oa\r b\r\rc\n", "o# x\n a\nb", "oa \"b\\\"\\c\" d", "o a\n\n  b\n c",
	"oa\x00b", "o", "oa", "o\n \n", "oa,b `c\\` d", "y12 -3.5\n true", "pa.b[1].c{2}", "pé.'x y'.ü(1)", "ea+(-b*2)>=1", "e'x'+\"y\\\"\"",
	"tx$a.b y$\\z", "t$if(a)é$end.", "t$(a=1)${b}!", "oaé\U0001F600\n 世界", "tü\U0001F600$é.",
	"p\U0001F600", "p世.界[a.ü]",
}

// constructs that are moved over the buffer boundaries: kind, text and
// whether the text begins a line
var c03big = []string{
	"oa 'b\n c' d\n  e\nf", "oa \\\n  line é x\n   y\n\nb \\\n  k", "oé世界\U0001F600 ü\n  ñ#ü\nz", "oa\r\n  b\r\n\r\n  c\r\nd",
	"oa # x y\n  # z\n  b # é\nc", "oa \"b\\\"\\\\c\\'\\x\" d\n b", "oa\n          b\n          c\n                    d\n          e\nf",
	"oa,b `c\\\"é` d #x\n\t\te\n\tf", "oa \"\n\n   b\n\" c\nd", "y12 -3.5e3 12345678901234567890\n true 'false' 0x1f\nfalse", "oaa bb cc dd ee ff gg hh ii jj kk ll mm nn oo\n  pp\n  qq\nrr ss",
	"oa\r  b\r  c\rd", "oab\n  cd\n\n\n  ef\n    \n gh",
	"p.𝒳𝒳é.a𝒳[1].世𝒳{0}𝒳('𝒳')", "e*𝒳+é𝒳>=世𝒳a", "t $𝒳𝒳.é𝒳 世𝒳$a𝒳[1]𝒳$if(𝒳)𝒳$end𝒳",
	"p.ab.cdé['x y'].世界{3}.(f,g.h[1],\"q\\\"\").z[12][ab.cd]", "e+12345*(-ab.cdé[12])>=3.1415&&!xy=='q\\'r'||世界{2}-1",
	"t $ab.cdé[12] y$\\z $if(ab>=12 && é=='x')世界$elseif(b)$for(i,世.界)\U0001F600$i.b$break$end$else q$end w $(a=b+1)${cd.ef}é$z(1,'b') .",
}

// c03pad gives the text of length n that stands before a construct, and the
// construct after it; the graph of pad+construct is the one of the construct
// with one node of content pad in front (or as first path element, ...)
func c03doc(i, n int) (kind byte, text, pad string) {
	d := c03big[i]
	kind, d = d[0], d[1:]
	switch kind {
	case 'o', 'y':
		pad = strings.Repeat("x", n-1)
		text = pad + "\n" + d
	default:
		pad = strings.Repeat("x", n)
		text = pad + d
	}
	return
}

func c03want(kind byte, i int, pad string) *T {
	short := func(k byte, s string) *T { return fromG(produce(k, strings.NewReader(s))) }
	d := c03big[i][1:]
	var t *T
	switch kind {
	case 'o', 'y':
		t = short(kind, "x\n"+d)
		t.K[0].L = pad
	case 'p':
		t = short('p', "x"+d)
		t.K[0].L = pad
	case 'e':
		t = short('e', "x"+d)
		t.K[0].K[0].L = pad
	case 't':
		t = short('t', "x"+d)
		t.K[0].L = pad + t.K[0].L[1:]
	}
	return t
}

// fromG copies a real graph to a model tree
func fromG(g *ogdl.Graph) *T {
	if g == nil {
		return nil
	}
	t := N(Str(g.This))
	for _, k := range g.Out {
		t.K = append(t.K, fromG(k))
	}
	return t
}

var c03 = &Prop{
	ID:     "C03",
	Rule:   "(s) small inputs of each grammar (OGDL, typed, path, expression, template): every way to cut them into read answers (2^(n-1)), with EOF alone or together with the last data, with and without empty reads; (b) every construct at every alignment around the multiples of half the internal buffer (2048..10240), delivered in several chunk patterns and from a file; (d) documents made of repeated constructs at every alignment. Expected: the graph of the same bytes in one piece; for (b), the graph of the construct parsed alone.",
	Bounds: "quick: small inputs <=15 bytes, alignments -70..+6 around 5 boundaries; thorough: around 12 boundaries, more chunk patterns",
	Gen: func(thorough bool, emit func(string)) {
		for i, s := range c03small {
			n := len(s) - 1
			if n > 15 && !thorough {
				n = 15
			}
			for l := n; l <= n; l++ {
				Compositions(l, func(m int) {
					emit(fmt.Sprintf("s%d:%d:%d", i, l, m))
				})
			}
		}
		nb := 5
		if thorough {
			nb = 12
		}
		for b := 1; b <= nb; b++ {
			for i, s := range c03big {
				for o := -len(s) - 2; o <= 6; o++ {
					if 2048*b+o > 1 {
						emit(fmt.Sprintf("b%d:%d", i, 2048*b+o))
					}
				}
			}
		}
		for i := range c03big {
			if k := c03big[i][0]; k == 'o' || k == 'y' || k == 't' {
				m := 48
				if thorough {
					m = 260
				}
				for o := 1; o <= m; o++ {
					emit(fmt.Sprintf("d%d:%d", i, o))
				}
			}
		}
	},
	Run: func(c *C, desc string) {
		a := strings.Split(desc[1:], ":")
		i, _ := strconv.Atoi(a[0])
		n, _ := strconv.Atoi(a[1])
		switch desc[0] {
		case 's':
			m, _ := strconv.Atoi(a[2])
			kind := c03small[i][0]
			s := c03small[i][1:]
			cut := Cut(s, m)
			if n < len(s) {
				// cut only the last n bytes; the others come first in one piece
				k := len(s) - n
				cut = append([]string{s[:k]}, Cut(s[k:], m)...)
			}
			c.Step(len(cut))
			want := fromG(produce(kind, strings.NewReader(s)))
			if kind == 'o' && m == 0 && s != "" {
				c.Same("FromFile", ogdl.FromFile(tmpFile([]byte(s))), want)
				c.Same("FromFile, reader", ogdl.FromReader(open(tmpFile([]byte(s)))), want)
			}
			for v := 0; v < 4; v++ {
				rd := &segReader{parts: append([]string{}, cut...), eofWith: v&1 == 1, empty: v&2 == 2}
				c.Same(fmt.Sprintf("%q as %q (eofWith=%v empty=%v)", s, cut, rd.eofWith, rd.empty), produce(kind, rd), want)
			}
		case 'b':
			kind, text, pad := c03doc(i, n)
			want := c03want(kind, i, pad)
			for k, ch := range [][]int{{1 << 30}, {1}, {7}, {4096}, {2048}, {4095, 1}, {2047, 2}, {4097}, {1000, 3, 1}, {n}, {n, 1}} {
				c.Step(1)
				rd := &segReader{parts: chunk(text, ch...), eofWith: k&1 == 1, empty: k&2 == 2}
				c.Same(fmt.Sprintf("construct %q at %d, chunks %v", c03big[i], n, ch), produce(kind, rd), want)
			}
			if kind == 'o' {
				c.Same("FromFile", ogdl.FromFile(tmpFile([]byte(text))), want)
				c.Same("FromString", ogdl.FromString(text), want)
				c.Same("FromBytes", lent([]byte(text), ogdl.FromBytes), want)
			}
			if kind == 'p' {
				g := ogdl.NewPath(text)
				c.Eq("first element of NewPath", g.GetAt(0).ThisString(), pad)
				w := ogdl.NewPath("x" + c03big[i][1:])
				w.Out[0].This = pad
				c.Same("NewPath", g, fromG(w))
			}
			if kind == 't' {
				ctx := c03ctx()
				out := string(ogdl.NewTemplate(text).Process(ctx))
				c.Eq("template output", out, pad+string(ogdl.NewTemplate(c03big[i][1:]).Process(c03ctx())))
				c.Eq("template output (bytes)", string(ogdl.NewTemplateFromBytes([]byte(text)).Process(c03ctx())), out)
			}
		case 'd':
			// the construct repeated, to 10 KB, with an offset
			kind := c03big[i][0]
			d := c03big[i][1:]
			one := fromG(produce(kind, strings.NewReader(d)))
			var b strings.Builder
			want := N("_")
			if kind == 't' {
				d += "$z."
				one = fromG(produce(kind, strings.NewReader(d)))
				b.WriteString(strings.Repeat("x", n) + "$z")
				want.Add(strings.Repeat("x", n))
				want.Add("!p").Add("z")
			} else {
				b.WriteString(strings.Repeat("x", n) + "\n")
				want.Add(strings.Repeat("x", n))
			}
			for b.Len() < 11000 {
				b.WriteString(d)
				k := one.Clone().K
				if kind == 't' {
					// adjacent texts are one
					if l := len(want.K); len(want.K[l-1].K) == 0 && len(k[0].K) == 0 {
						want.K[l-1].L += k[0].L
						k = k[1:]
					}
				} else {
					b.WriteString("\n")
				}
				want.K = append(want.K, k...)
			}
			text := b.String()
			for _, ch := range [][]int{{1 << 30}, {1}, {4096}, {1000, 3, 1}} {
				c.Step(1)
				c.Same(fmt.Sprintf("repeated %q at %d, chunks %v", c03big[i], n, ch), produce(kind, &segReader{parts: chunk(text, ch...)}), want)
			}
		}
	},
}

func open(name string) io.Reader {
	b, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	runtime.SetFinalizer(b, (*os.File).Close)
	return b
}

func c03ctx() *ogdl.Graph {
	return ogdl.FromString("ab\n  cdé\n    0\n    1\n    2\nb true\ni\n世\n  界\n    b 1\n    b 2\ncd\n  ef X\nz")
}
