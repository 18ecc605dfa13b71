//go:build verifnet

package main

import (
	bin "encoding/binary"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	. "ogdlmc/fw"
)

func init() { props = append(props, c27) }

// refServe splits a stream in the complete requests at its begin; open: what
// follows is not specified (not: it is damaged, incomplete or empty)
func refServe(proto int, s string) (reqs []*T, open bool) {
	for s != "" {
		body := s
		if proto == 2 {
			if len(s) < 4 {
				return
			}
			n := int(bin.BigEndian.Uint32([]byte(s)))
			if n > len(s)-4 || n == 0 {
				return
			}
			body = s[4 : 4+n]
			s = s[4+n:]
		}
		nodes, k, ok, odd := refDecode([]byte(body))
		if !ok {
			return
		}
		if odd || len(nodes) == 0 || proto == 2 && k != len(body) {
			return reqs, true
		}
		if proto == 1 {
			s = s[k:]
		}
		reqs = append(reqs, treeOf(nodes))
	}
	return
}

type rfDamage struct {
	segs  []string
	at    []string // all segments are there at once, with the end
	end   byte     // f FIN, r reset, s stall, w the writes fail, q nothing
	wfail int      // bytes that can be written
	errs  int      // failing accepts before
}

func c27run(c *C, proto, entry int, d rfDamage) {
	w := &rfWorld{proto: proto, entry: entry}
	stream := strings.Join(d.segs, "")
	reqs, open := refServe(proto, stream)
	var calls, resp []string
	for _, r := range reqs {
		k, o := w.expect(r)
		if k != "" {
			calls = append(calls, k)
		}
		resp = append(resp, o)
	}
	what := func() string {
		return fmt.Sprintf("protocol %d entry %d, bytes %s in %s, end %c %d", proto, entry, clipB([]byte(stream)), seglens(d.segs), d.end, d.wfail)
	}
	probe := N("_", N("a", N("probe")))
	pr := request(proto, probe)
	bubble(c, func(n *simNet) {
		n.errs = d.errs
		w.start(n)
		quiet()
		// a bystander in the middle of a request
		by := n.connect()
		by.feed(pr[:5])
		quiet()
		x := n.connect()
		if d.end == 'w' {
			x.wlimit = d.wfail
		}
		quiet()
		for i, s := range d.segs {
			x.feed(s)
			if i < len(d.segs)-1 || d.end != 'F' {
				quiet()
			}
		}
		during := append([]string{}, w.calls...)
		switch d.end {
		case 'f', 'F', 'w':
			x.end(io.EOF)
		case 'r':
			x.end(errReset)
		case 's':
			// (the bystander goes on before its own time is over)
			time.Sleep(simTimeout * 7 / 10 * time.Second)
			by.feed(pr[5:6])
			quiet()
			by.feed(pr[6:])
			quiet()
			time.Sleep(simTimeout * 7 / 10 * time.Second)
		}
		quiet()
		if !x.isClosed() {
			c.Failf("%s: the connection stays open", what())
		}
		out := x.written()
		mine := w.calls
		if d.end == 's' {
			mine = during
			if k := w.calls[len(during):]; len(k) != 1 || k[0] != "a "+probe.Str() {
				c.Failf("%s: another client's request in the meantime: calls %q", what(), k)
			}
		}
		got, rest := responses(proto, out)
		switch {
		case d.end == 'w':
			// calls happen in order at most once each
			for i := range mine {
				if i >= len(calls) || mine[i] != calls[i] {
					c.Failf("%s: handler calls %q, want at most %q", what(), mine, calls)
				}
			}
		case open:
			if len(mine) < len(calls) || strings.Join(mine[:len(calls)], "\n") != strings.Join(calls, "\n") {
				c.Failf("%s: handler calls %s, want first %s", what(), clipDoc(fmt.Sprintf("%q", mine)), clipDoc(fmt.Sprintf("%q", calls)))
			}
			if len(got) < len(resp) || strings.Join(got[:len(resp)], "\n") != strings.Join(resp, "\n") {
				c.Failf("%s: responses %s, want first %s", what(), clipDoc(fmt.Sprintf("%q", got)), clipDoc(fmt.Sprintf("%q", resp)))
			}
		default:
			if strings.Join(mine, "\n") != strings.Join(calls, "\n") {
				c.Failf("%s: handler calls %s, want %s", what(), clipDoc(fmt.Sprintf("%q", mine)), clipDoc(fmt.Sprintf("%q", calls)))
			}
			if strings.Join(got, "\n") != strings.Join(resp, "\n") || rest != "" {
				c.Failf("%s: responses %s and %q, want %s", what(), clipDoc(fmt.Sprintf("%q", got)), clipDoc(rest), clipDoc(fmt.Sprintf("%q", resp)))
			}
		}
		// the others are served
		if d.end != 's' {
			by.feed(pr[5:])
			quiet()
		}
		z := n.connect()
		z.feed(pr)
		quiet()
		for i, y := range []*simConn{by, z} {
			if got, rest := responses(proto, y.written()); len(got) != 1 || got[0] != probe.Str() || rest != "" {
				c.Failf("%s: another client (%s) then gets %q %q", what(), []string{"connected before", "new"}[i], got, rest)
			}
		}
	})
	c.Step(len(d.segs))
	c.State(fmt.Sprint(proto, entry, len(reqs), open, string(d.end)) + strings.Join(resp, "\n"))
	if s := w.aliased(); s != "" {
		c.Failf("%s: %s", what(), s)
	}
}

var c27bytes = []string{"\x00", "\x01", "G", "a", "\x02", "\x03", "\x80", "\xff", "\x7f", "\xc0", "\xe0", "z", "\x05"}
var c27alpha = []string{"\x00", "\x01", "G", "a", "\x02", "\x80", "\xff"}

var c27 = &Prop{
	ID:     "C27",
	Rule:   "the real server over a simulated network: every sequence of up to 2 requests (of 8) cut at every byte, with end of input, reset, stall beyond the timeout, end together with the data, in one segment or in single bytes; every byte of every request replaced by 13 others, removed or doubled; every byte string up to N over the 7 significant bytes, after the header (protocol 1) or after each length (protocol 2); responses that cannot be written after every number of bytes; failing accepts. Compared with a reference: handler calls only for the complete well-formed requests at the begin, these answered, the connection closed, a bystander in the middle of a request and a new client served. Sweeps: lengths and depths.",
	Bounds: "quick: N=6; thorough: N=7, damage in the second of any two requests",
	Assume: []string{"requests without nodes, superfluous bytes in a frame and overlong numbers are left open"},
	Gen: func(thorough bool, emit func(string)) {
		for _, pe := range []string{"1 0", "2 0", "1 1", "2 1"} {
			for i := 0; i < 5; i++ {
				emit(fmt.Sprintf("c %s %d", pe, i))
				emit(fmt.Sprintf("m %s %d", pe, i))
				emit(fmt.Sprintf("w %s %d", pe, i))
				for j := 0; j < 5; j++ {
					emit(fmt.Sprintf("c %s %d,%d", pe, i, j))
					emit(fmt.Sprintf("w %s %d,%d", pe, i, j))
					if thorough || j == 0 || i == 0 {
						emit(fmt.Sprintf("m %s %d,%d", pe, i, j))
					}
				}
			}
			emit(fmt.Sprintf("C %s 5,6", pe))
		}
		for _, pe := range []string{"1 0", "2 0"} {
			for i := range c27alpha {
				for j := range c27alpha {
					emit(fmt.Sprintf("b %s %d %d", pe, i, j))
				}
			}
			for _, n := range sweep(thorough) {
				emit(fmt.Sprintf("d %s %d", pe, n))
			}
			emit("D " + pe)
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		proto, _ := strconv.Atoi(f[1])
		entry, _ := strconv.Atoi(f[2])
		stream := func(s string) string {
			r := ""
			for _, t := range parseReqs(s) {
				r += request(proto, t)
			}
			return r
		}
		bytesOf := func(s string) []string {
			var r []string
			for i := range []byte(s) {
				r = append(r, s[i:i+1])
			}
			return r
		}
		run := func(d rfDamage) { c27run(c, proto, entry, d) }
		switch f[0] {
		case "c", "C":
			s := stream(f[3])
			step := 1
			if f[0] == "C" {
				step = 311
			}
			for i := 0; i < len(s); i += step {
				for _, e := range []byte("fFrs") {
					run(rfDamage{segs: []string{s[:i]}, end: e})
				}
				if f[0] == "c" {
					run(rfDamage{segs: bytesOf(s[:i]), end: 'f'})
					run(rfDamage{segs: bytesOf(s[:i]), end: 's'})
				}
				if i == 3 || i == len(s)-1 {
					run(rfDamage{segs: []string{s[:i]}, end: 'f', errs: 2})
				}
			}
			run(rfDamage{segs: []string{s}, end: 'f'})
			run(rfDamage{segs: []string{s}, end: 'F'})
			run(rfDamage{segs: []string{s}, end: 'r'})
			run(rfDamage{segs: []string{s}, end: 's'})
		case "m":
			s := stream(f[3])
			for i := range []byte(s) {
				var v []string
				for _, b := range c27bytes {
					v = append(v, s[:i]+b+s[i+1:])
				}
				v = append(v, s[:i]+s[i+1:], s[:i]+s[i:i+1]+s[i:], s[:i]+string([]byte{s[i] ^ 0x20})+s[i+1:])
				for _, x := range v {
					run(rfDamage{segs: []string{x}, end: 'f'})
				}
				run(rfDamage{segs: []string{v[0]}, end: 's'})
				run(rfDamage{segs: bytesOf(v[1]), end: 'f'})
			}
		case "w":
			s := stream(f[3])
			for k := 0; k < 40; k++ {
				run(rfDamage{segs: []string{s}, end: 'w', wfail: k})
			}
		case "b":
			n := 4
			if Tier() {
				n = 5
			}
			i, _ := strconv.Atoi(f[3])
			j, _ := strconv.Atoi(f[4])
			p := c27alpha[i] + c27alpha[j]
			if i == 0 && j == 0 {
				for _, x := range append([]string{""}, c27alpha...) {
					run(rfDamage{segs: []string{x}, end: 'f'})
				}
			}
			Strings(c27alpha, 0, n, func(s string) {
				s = p + s
				run(rfDamage{segs: []string{s}, end: 'f'})
				if proto == 1 {
					run(rfDamage{segs: []string{"\x01G\x00" + s}, end: 'f'})
					return
				}
				for _, l := range []int{len(s), len(s) + 3} {
					h := ""
					if l > len(s) {
						h = "\x01G\x00"
					}
					run(rfDamage{segs: []string{string([]byte{0, 0, 0, byte(l)}) + h + s}, end: 'f'})
				}
			})
		case "d":
			n, _ := strconv.Atoi(f[3])
			chain := N("_", N("a"))
			for p, i := chain.K[0], 0; i < n; i++ {
				p = p.Add("x")
			}
			ok := request(proto, N("_", N("a", N(strings.Repeat("y", n)))))
			for _, k := range []int{len(ok) - 1, len(ok) - 2, n, n + 4} {
				run(rfDamage{segs: []string{ok[:k]}, end: 'f'})
				run(rfDamage{segs: []string{ok + ok[:k]}, end: 'r'})
				run(rfDamage{segs: []string{ok + ok + ok[:k]}, end: 's'})
			}
			if n < 120 {
				s := request(proto, chain)
				run(rfDamage{segs: []string{s, s[:len(s)-1]}, end: 'f'})
				// a gap in the levels
				b := []byte(s)
				b[len(b)-1-3]++
				run(rfDamage{segs: []string{string(b)}, end: 'f'})
			}
			if proto == 2 {
				// frames with a wrong length
				b := encT(N("_", N("a", N(strings.Repeat("y", n)))))
				for _, d := range []int{-1, -2, 1, 2, 1 << 31, 1<<32 - 1 - len(b)} {
					var l [4]byte
					bin.BigEndian.PutUint32(l[:], uint32(len(b)+d))
					run(rfDamage{segs: []string{string(l[:]) + b}, end: 'f'})
					run(rfDamage{segs: []string{string(l[:]) + b}, end: 's'})
				}
			}
		case "D":
			// deep requests
			for _, n := range []int{1000, 20000, 300000} {
				var b strings.Builder
				b.WriteString("\x01G\x00")
				lv := func(n int) {
					switch {
					case n < 0x80:
						b.WriteByte(byte(n))
					case n < 0x4000:
						b.Write([]byte{byte(0x80 | n>>8), byte(n)})
					default:
						b.Write([]byte{byte(0xc0 | n>>16), byte(n >> 8), byte(n)})
					}
				}
				for i := 1; i <= n; i++ {
					lv(i)
					b.WriteString("a\x00")
				}
				s := b.String() + "\x00"
				if proto == 2 {
					var l [4]byte
					bin.BigEndian.PutUint32(l[:], uint32(len(s)))
					s = string(l[:]) + s
				}
				run(rfDamage{segs: []string{s[:len(s)-1]}, end: 'f'})
				probe := N("_", N("a", N("p")))
				w := &rfWorld{proto: proto, entry: 0}
				bubble(c, func(nw *simNet) {
					w.start(nw)
					x := nw.connect()
					x.feed(s)
					quiet()
					if len(x.written()) != len(s) {
						c.Failf("a request of depth %d: %d bytes of response, want %d", n, len(x.written()), len(s))
					}
					y := nw.connect()
					y.feed(request(proto, probe))
					quiet()
					if got, _ := responses(proto, y.written()); len(got) != 1 {
						c.Failf("no response after a request of depth %d", n)
					}
				})
			}
		}
	},
}
