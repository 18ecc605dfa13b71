package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// ---- reference of the binary format

type bnode struct {
	level   int
	bin     bool
	content string
}

// refDecode decodes a stream: its nodes, the bytes it takes and whether it is
// well formed; odd is true where the specification leaves room (a zero level
// or length written with more than one byte)
func refDecode(b []byte) (nodes []bnode, n int, ok, odd bool) {
	if len(b) < 3 || b[0] != 1 || b[1] != 'G' || b[2] != 0 {
		return
	}
	i := 3
	varint := func() int {
		if i >= len(b) {
			return -1
		}
		c := int(b[i])
		k := 0
		switch {
		case c < 0x80:
		case c < 0xc0:
			k, c = 1, c&0x3f
		case c < 0xe0:
			k, c = 2, c&0x1f
		case c < 0xf0:
			k, c = 3, c&0x0f
		default:
			return -1
		}
		if i+k >= len(b) {
			return -1
		}
		for j := 1; j <= k; j++ {
			c = c<<8 | int(b[i+j])
		}
		i += 1 + k
		if c == 0 && k > 0 {
			odd = true
		}
		return c
	}
	prev := 0
	for {
		lv := varint()
		if lv < 0 {
			return
		}
		if lv == 0 {
			return nodes, i, true, odd
		}
		if lv > prev+1 {
			return
		}
		prev = lv
		if i >= len(b) {
			return
		}
		if b[i] == 1 {
			i++
			var s []byte
			for {
				l := varint()
				if l < 0 {
					return
				}
				if l == 0 {
					break
				}
				if i+l > len(b) {
					return
				}
				s = append(s, b[i:i+l]...)
				i += l
			}
			nodes = append(nodes, bnode{lv, true, string(s)})
			continue
		}
		j := bytes.IndexByte(b[i:], 0)
		if j < 0 {
			return
		}
		nodes = append(nodes, bnode{lv, false, string(b[i : i+j])})
		i += j + 1
	}
}

func treeOf(nodes []bnode) *T {
	root := N("_")
	stack := []*T{root}
	for _, n := range nodes {
		stack = stack[:n.level]
		stack = append(stack, stack[n.level-1].Add(n.content))
	}
	return root
}

// solid removes the nodes with empty content (their children take their place)
func solid(t *T) *T {
	r := N(t.L)
	for _, k := range t.K {
		s := solid(k)
		if k.L == "" {
			r.K = append(r.K, s.K...)
		} else {
			r.K = append(r.K, s)
		}
	}
	return r
}

// labels of C07: contents of several types
var c07labels = []interface{}{"a", "", "x\ny", "\x01b", "\x01", "\x00", "a\x00b", "\x02", "é", []byte{1, 0, 255}, []byte{}, []byte("t"), int64(0), -5, 2.5, true, false, "G\x00", nil, strings.Repeat("z", 130), "\x80", uint8(7), float32(0.5), "\x00\x01"}

func c07build(lv, ix []int) (*ogdl.Graph, *T) {
	g := ogdl.New("_")
	t := N("_")
	gs := []*ogdl.Graph{g}
	ts := []*T{t}
	for i, l := range lv {
		gs, ts = gs[:l+1], ts[:l+1]
		n := ogdl.New(c07labels[ix[i]])
		gs[l].Out = append(gs[l].Out, n)
		gs = append(gs, n)
		ts = append(ts, ts[l].Add(Str(n.This)))
	}
	return g, t
}

func c07check(c *C, g *ogdl.Graph, t *T) {
	want := solid(t)
	c.Step(want.Size())
	before := ""
	if t.Size() < 100 {
		before = GTyped(g)
	}
	b := g.Binary()
	nodes, n, ok, _ := refDecode(b)
	if !ok || n != len(b) {
		c.Failf("the encoding of %s is not one complete stream: %s", clipT(t), clipB(b))
	}
	deep := len(nodes) > 50000
	if !deep {
		if got, w := treeOf(nodes).Str(), want.Str(); got != w {
			c.Differ("nodes of the encoding", got, w)
		}
		c.Same("FromBinary", lent(b, ogdl.FromBinary), want)
		c.Same("FromBinaryReader", ogdl.FromBinaryReader(bytes.NewReader(b)), want)
		c.Same("FromBinaryBufioReader", ogdl.FromBinaryBufioReader(bufio.NewReader(bytes.NewReader(b))), want)
		d := ogdl.FromBinary(b)
		if x := d.Binary(); !bytes.Equal(x, b) {
			if y := ogdl.FromBinary(x); GStr(y) != want.Str() {
				c.Failf("second round trip of %s", clipT(t))
			}
		}
	} else {
		// a chain: compare iteratively
		x := ogdl.FromBinary(b)
		for p := want; len(p.K) > 0; {
			if x.Len() != len(p.K) {
				c.Failf("a deep chain is cut")
			}
			p, x = p.K[0], x.Out[0]
			if Str(x.This) != p.L {
				c.Failf("a node of a deep chain differs")
			}
		}
	}
	if before != "" {
		if h := shared(g); h != nil && !bytes.Equal(h.Binary(), b) {
			c.Failf("the encoding of %s with shared nodes differs: %s", clipT(t), clipB(h.Binary()))
		}
		c.Eq("graph after Binary", GTyped(g), before)
		if g.This = nil; !bytes.Equal(g.Binary(), b) {
			c.Failf("the encoding depends on the root content")
		}
		g.This = "_"
	}
}

func clipT(t *T) string {
	s := t.Str()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func clipB(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%q", b)
}

var c07 = &Prop{
	ID:     "C07",
	Rule:   "every ordered tree of up to N nodes with every assignment of 24 contents (texts, bytes, numbers, booleans, empty and nil contents, contents with 0x00/0x01), plus sweeps of depth, width and content length over the limits of the variable length integers. The encoding is decoded by a reference decoder (complete stream, same nodes) and by the three real decoders.",
	Bounds: "quick: N=3 with 24 contents, N=4 with 10; depth 1..300, 16380..16390; lengths 126..129, 16382..16386, 2097150..2097154; thorough: N=4 with 24, N=5 with 8, depth 2^21",
	Gen: func(thorough bool, emit func(string)) {
		ks := []int{0, 24, 24, 24, 10}
		if thorough {
			ks = []int{0, 24, 24, 24, 24, 8}
		}
		for n := 0; n < len(ks); n++ {
			Shapes(n, func(lv []int) {
				Seqs(ks[n], n, func(ix []int) {
					emit("t" + JoinInts(lv, ",") + ":" + JoinInts(ix, ","))
				})
			})
		}
		for n := 6; n <= 7; n++ {
			Shapes(n, func(lv []int) {
				for _, k := range []int{0, 1, 3} {
					ix := make([]int, n)
					for i := range ix {
						ix[i] = (i * k) % 4
					}
					emit("t" + JoinInts(lv, ",") + ":" + JoinInts(ix, ","))
				}
			})
		}
		var d []int
		for i := 1; i <= 300; i++ {
			d = append(d, i)
		}
		for i := 16380; i <= 16390; i++ {
			d = append(d, i)
		}
		if thorough {
			d = append(d, 60000, 1<<21-2, 1<<21-1, 1<<21, 1<<21+1)
		}
		for _, n := range d {
			emit("d" + strconv.Itoa(n))
		}
		for _, n := range []int{1, 2, 3, 126, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 16386, 65535, 65536, 2097150, 2097151, 2097152, 2097153} {
			emit("l" + strconv.Itoa(n))
			if n < 20000 {
				emit("w" + strconv.Itoa(n))
			}
		}
	},
	Run: func(c *C, desc string) {
		switch desc[0] {
		case 't':
			a, b, _ := strings.Cut(desc[1:], ":")
			g, t := c07build(Ints(a, ","), Ints(b, ","))
			c07check(c, g, t)
			return
		}
		n, _ := strconv.Atoi(desc[1:])
		g, t := ogdl.New("_"), N("_")
		switch desc[0] {
		case 'd':
			p, q := g, t
			for i := 0; i < n; i++ {
				p, q = p.Add("n"+strconv.Itoa(i)), q.Add("n"+strconv.Itoa(i))
			}
			if n < 20000 {
				p.Add("x")
				q.Add("x")
				p.Add(int64(3)).Add([]byte{1, 2})
				q.Add("3").Add("\x01\x02")
				g.Add("end")
				t.Add("end")
			}
		case 'l':
			for _, s := range []string{strings.Repeat("x", n), "\x01" + strings.Repeat("y", n-1), strings.Repeat("z", n-1) + "\x00", strings.Repeat("\x00\xff", n/2) + "q"} {
				g.Add(s).Add("k")
				t.Add(s).Add("k")
				g.Add([]byte(s))
				t.Add(s)
			}
		case 'w':
			for i := 0; i < n; i++ {
				g.Add("a" + strconv.Itoa(i)).Add(int64(i))
				t.Add("a" + strconv.Itoa(i)).Add(strconv.Itoa(i))
			}
		}
		c07check(c, g, t)
	},
}

// ------------------------------------------------------------------ C08

var c08alpha = []byte{0, 1, 2, 3, 'a', 0x80, 0xc0, 0xff}
var c08sizes = []int{1, 2, 127, 128, 130, 256, 300, 4095, 4096, 126, 129, 255, 257, 4097, 8191, 16383, 16384, 70000}
var c08head = []byte{0, 1, 2, 'G', 'a'}

type errReader struct {
	b   []byte
	err error
	one bool
}

func (r *errReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	if r.one {
		p = p[:1]
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

var errBroken = errors.New("broken")

var c08second = []byte("\x01G\x00\x01second\x00\x02x\x00\x00")

func c08check(c *C, b []byte, full bool) {
	nodes, n, ok, odd := refDecode(b)
	var want *T
	if ok {
		want = treeOf(nodes)
	}
	check := func(what string, g *ogdl.Graph) {
		if odd {
			return
		}
		if !ok {
			if g != nil {
				c.Failf("%s of %s gives %s, want nil", what, clipB(b), GStr(g))
			}
			return
		}
		if g == nil {
			c.Failf("%s of %s gives nil, want %s", what, clipB(b), want.Str())
		}
		c.Same(what+" of "+clipB(b), g, want)
	}
	c.Step(len(b))
	c.State(fmt.Sprint(ok, odd, n))
	check("FromBinary", lent(b, ogdl.FromBinary))
	check("FromBinaryReader (bytewise)", ogdl.FromBinaryReader(&errReader{b: b, err: io.EOF, one: true}))
	check("FromBinaryReader (data with EOF)", ogdl.FromBinaryReader(&segReader{parts: []string{string(b)}, eofWith: true}))
	check("FromBinaryReader (failing)", ogdl.FromBinaryReader(&errReader{b: b, err: errBroken}))
	if full {
		check("FromBinaryFile", ogdl.FromBinaryFile(tmpFile(b)))
	}
	// Shared reader: exactly its bytes are consumed
	if ok && !odd {
		all := append(append([]byte{}, b[:n]...), c08second...)
		for _, size := range []int{16, 4096} {
			rd := bufio.NewReaderSize(bytes.NewReader(all), size)
			check("FromBinaryBufioReader", ogdl.FromBinaryBufioReader(rd))
			c.Eq("object after "+clipB(b[:n]), GStr(ogdl.FromBinaryBufioReader(rd)), `{"second"{"x"}}`)
			if g := ogdl.FromBinaryBufioReader(rd); g != nil {
				c.Failf("an object after the last: %s", GStr(g))
			}
		}
		if full {
			// any cut of it gives nil
			for k := 0; k < n; k++ {
				if g := ogdl.FromBinary(b[:k]); g != nil {
					c.Failf("the first %d bytes of %s give %s", k, clipB(b), GStr(g))
				}
				if g := ogdl.FromBinaryReader(&errReader{b: b[:k], err: errBroken, one: k&1 == 1}); g != nil {
					c.Failf("an error after %d bytes of %s gives %s", k, clipB(b), GStr(g))
				}
			}
		}
	}
}

var c08streams = [][]byte{
	[]byte("\x01G\x00\x00"), []byte("\x01G\x00\x01a\x00\x00"), []byte("\x01G\x00\x01a\x00\x02b\x00\x02\x01\x02\x00\x01\x00\x00"), []byte("\x01G\x00\x01\x01\x01x\x01y\x00\x00"),
	[]byte("\x01G\x00\x80\x01a\x00\xc0\x00\x02b\x00\xe0\x00\x00\x03c\x00\x00"), []byte("\x01G\x00\x01\x00\x02\x01\x00\x00"),
}

var c08 = &Prop{
	ID:     "C08",
	Rule:   "every byte string up to length N over {0,1,2,3,a,0x80,0xc0,0xff} after the header, every string up to length 5 over {0,1,2,G,a} as header, all cuts of well-formed streams by end of file and by read error, all segmentations of small streams, streams with huge claimed lengths and levels; read from bytes, from readers with short reads, errors and data together with EOF, and from a shared buffered reader followed by other objects; binary nodes of up to 3 chunks of 18 sizes, with every width of the lengths; streams that climb to level 1..300 and more, drop to several others and climb again, also with a jump. Oracle: an independent decoder written from the format description; memory: allocation bounded by the input. Text and binary nodes of 18 sizes from 16 K to 4 M in up to 3 chunks.",
	Bounds: "quick: N=5; thorough: N=7 (6 for the full set of readers)",
	Assume: []string{"a zero level or length written with more than one byte is left open by the format: only termination is checked"},
	Gen: func(thorough bool, emit func(string)) {
		n := 5
		if thorough {
			n = 7
		}
		for l := 0; l <= n; l++ {
			Seqs(len(c08alpha), l, func(ix []int) { emit("b" + JoinInts(ix, "")) })
		}
		for l := 0; l <= 5; l++ {
			Seqs(len(c08head), l, func(ix []int) { emit("h" + JoinInts(ix, "")) })
		}
		for i, s := range c08streams {
			if len(s) <= 22 {
				k := len(s)
				if k > 14 && !thorough {
					k = 14
				}
				for m := 0; m < 1<<(k-1); m++ {
					emit(fmt.Sprintf("s%d:%d", i, m))
				}
			}
		}
		for _, n := range []int{1, 10, 127, 128, 200, 300} {
			emit("c" + strconv.Itoa(n))
		}
		for n := 1; n <= 300; n++ {
			emit("j" + strconv.Itoa(n))
		}
		emit("j1000")
		emit("j17000")
		for l := 1; l <= 3; l++ {
			k := len(c08sizes)
			if l == 3 && !thorough {
				k = 10
			}
			Seqs(k, l, func(ix []int) { emit("k" + JoinInts(ix, ",")) })
		}
		for _, n := range append([]int{1 << 21, 4<<20 + 3}, huge...) {
			emit("K" + strconv.Itoa(n))
		}
	},
	Run: func(c *C, desc string) {
		switch desc[0] {
		case 'j':
			// up to a level, down to another, up again: every width of the levels
			n, _ := strconv.Atoi(desc[1:])
			for _, k := range []int{1, 2, n / 2, n - 1, n} {
				for wide := 0; wide < 3 && k > 0; wide++ {
					b := []byte("\x01G\x00")
					lev := func(l int) {
						switch {
						case wide == 0 && l < 0x80:
							b = append(b, byte(l))
						case wide < 2 && l < 0x4000:
							b = append(b, byte(l>>8|0x80), byte(l))
						default:
							b = append(b, byte(l>>16|0xc0), byte(l>>8), byte(l))
						}
					}
					for l := 1; l <= n; l++ {
						lev(l)
						b = append(b, "a\x00"...)
					}
					for l := k; l <= n && l < k+3; l++ {
						lev(l)
						b = append(b, "b\x00"...)
					}
					whole := len(b)
					lev(1)
					b = append(b, "\x01\x02xy\x00\x00"...)
					c08check(c, b, false)
					// a node without a parent
					for _, gap := range []int{2, 3, n, 100000} {
						b = b[:whole:whole]
						lev(min(n, k+2) + gap)
						b = append(b, "x\x00\x01y\x00\x00"...)
						c08check(c, b, false)
					}
				}
			}
		case 'k':
			// binary nodes in several chunks, with every encoding of the lengths, and text of these lengths
			ix := Ints(desc[1:], ",")
			for wide := 0; wide < 4; wide++ {
				b := []byte("\x01G\x00\x01a\x00\x02\x01")
				for i, x := range ix {
					n := c08sizes[x]
					w := wide
					switch {
					case n > 0x1fffff:
						w = 3
					case n > 0x3fff:
						w = max(w, 2)
					case n > 0x7f:
						w = max(w, 1)
					}
					switch w {
					case 0:
						b = append(b, byte(n))
					case 1:
						b = append(b, byte(n>>8|0x80), byte(n))
					case 2:
						b = append(b, byte(n>>16|0xc0), byte(n>>8), byte(n))
					case 3:
						b = append(b, byte(n>>24|0xe0), byte(n>>16), byte(n>>8), byte(n))
					}
					for j := 0; j < n; j++ {
						b = append(b, byte(j*7+i*31))
					}
				}
				b = append(b, 0, 3)
				for i, x := range ix {
					for j := 0; j < c08sizes[x]; j++ {
						b = append(b, byte(2+(j+i)%250))
					}
				}
				b = append(b, "\x00\x01z\x00\x00"...)
				c08check(c, b, len(b) < 20)
			}
		case 'K':
			// contents of any size: text, a binary node in 1 to 3 chunks
			n, _ := strconv.Atoi(desc[1:])
			for k := 0; k <= 3; k++ {
				b := []byte("\x01G\x00\x01a\x00")
				content := make([]byte, n)
				for i := range content {
					content[i] = byte(2 + (i*7+i>>8)%250)
				}
				if k == 0 {
					b = append(append(append(b, 2), content...), 0)
				} else {
					b = append(b, 2, 1)
					for i := 0; i < k; i++ {
						x := content[i*n/k : (i+1)*n/k]
						l := len(x)
						switch {
						case l > 0x1fffff:
							b = append(b, byte(l>>24|0xe0), byte(l>>16), byte(l>>8), byte(l))
						case l > 0x3fff:
							b = append(b, byte(l>>16|0xc0), byte(l>>8), byte(l))
						default:
							b = append(b, byte(l>>8|0x80), byte(l))
						}
						b = append(b, x...)
					}
					b = append(b, 0)
				}
				b = append(b, "\x03c\x00\x01z\x00\x00"...)
				c08check(c, b, false)
				g := ogdl.FromBinary(b)
				if g.Len() != 2 || g.Out[0].Len() != 1 || g.Out[0].Out[0].Len() != 1 {
					c.Failf("structure with a content of %d bytes, %d chunks", n, k)
				}
				x := g.Out[0].Out[0].This
				y, ok := x.([]byte)
				if s, isS := x.(string); isS && k == 0 {
					y, ok = []byte(s), true
				}
				if !ok || !bytes.Equal(y, content) {
					c.Failf("content of %d bytes, %d chunks comes back as a %T of %d bytes", n, k, x, len(y))
				}
			}
		case 'b':
			b := []byte("\x01G\x00")
			for _, x := range desc[1:] {
				b = append(b, c08alpha[x-'0'])
			}
			c08check(c, b, len(desc) < 7)
		case 'h':
			var b []byte
			for _, x := range desc[1:] {
				b = append(b, c08head[x-'0'])
			}
			c08check(c, b, true)
			c08check(c, append(b, "\x01a\x00\x00"...), true)
		case 's':
			a, m, _ := strings.Cut(desc[1:], ":")
			i, _ := strconv.Atoi(a)
			mask, _ := strconv.Atoi(m)
			s := string(c08streams[i])
			nodes, _, _, _ := refDecode([]byte(s))
			want := treeOf(nodes)
			for v := 0; v < 4; v++ {
				rd := &segReader{parts: Cut(s, mask), eofWith: v&1 == 1, empty: v&2 == 2}
				c.Step(len(rd.parts))
				c.Same(fmt.Sprintf("%q in segments %q", s, rd.parts), ogdl.FromBinaryReader(rd), want)
			}
			rd := bufio.NewReaderSize(&segReader{parts: append(Cut(s, mask), Cut(string(c08second), mask)...)}, 16)
			c.Same(fmt.Sprintf("%q, shared reader", s), ogdl.FromBinaryBufioReader(rd), want)
			c.Eq("second object", GStr(ogdl.FromBinaryBufioReader(rd)), `{"second"{"x"}}`)
		case 'c':
			n, _ := strconv.Atoi(desc[1:])
			g := ogdl.New("_")
			p := g
			for i := 0; i < n; i++ {
				p.Add("\x01" + strings.Repeat("x", n))
				p = p.Add("a" + strconv.Itoa(i))
			}
			b := g.Binary()
			if len(b) > 20000 {
				b = append(b[:20000:20000], b[len(b)-1])
			}
			c08check(c, b, true)
		}
	},
	Done: func(c *C) {
		// Memory stays proportional to the input
		for _, s := range []string{
			"\x01G\x00\x01\x01\xef\xff\xff\xffabc", "\x01G\x00\x01\x01\xdf\xff\xffabc", "\x01G\x00\x01\x01\xbf\xffabc", "\x01G\x00\xef\xff\xff\xffa\x00\x00", "\x01G\x00\x01a\x00\xef\xff\xff\xffb\x00\x00",
			"\x01G\x00\x01a\x00\xdf\xff\xffb\x00\x00", "\x01G\x00\x01\x01\x03abc\xef\xff\xff\xff", "\x01G\x00\x01a\x00\xdf\xff\xff", "\x01G\x00\xef\xff\xff\xff\x01\xef\xff\xff\xff",
		} {
			for i := 0; i < 3; i++ {
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				var g *ogdl.Graph
				switch i {
				case 0:
					g = ogdl.FromBinary([]byte(s))
				case 1:
					g = ogdl.FromBinaryReader(strings.NewReader(s))
				case 2:
					g = ogdl.FromBinaryReader(&errReader{b: []byte(s), err: errBroken, one: true})
				}
				runtime.ReadMemStats(&m1)
				c.Step(1)
				if g != nil {
					c.Failf("%q decodes to %s", s, GStr(g))
				}
				if d := m1.TotalAlloc - m0.TotalAlloc; d > 1<<20 {
					c.Failf("decoding %q (%d bytes) allocates %d bytes", s, len(s), d)
				}
			}
		}
	},
}
