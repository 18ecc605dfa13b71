//go:build verifnet

package main

import (
	"bytes"
	bin "encoding/binary"
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

func init() { props = append(props, c26) }

const simTimeout = 60 // seconds

const slowTime = (2*simTimeout + 1) * time.Second

// encT encodes a tree in the binary format
func encT(t *T) string {
	var b bytes.Buffer
	b.WriteString("\x01G\x00")
	var walk func(t *T, l int)
	walk = func(t *T, l int) {
		for _, k := range t.K {
			b.WriteByte(byte(l))
			if strings.HasPrefix(k.L, "\x01") {
				b.WriteByte(1)
				for s := k.L; s != ""; {
					n := len(s)
					if n > 100 {
						n = 100
					}
					b.WriteByte(byte(n))
					b.WriteString(s[:n])
					s = s[n:]
				}
				b.WriteByte(0)
			} else {
				b.WriteString(k.L + "\x00")
			}
			walk(k, l+1)
		}
	}
	walk(t, 1)
	b.WriteByte(0)
	return b.String()
}

// request makes the bytes of a request
func request(proto int, t *T) string {
	s := encT(t)
	if proto == 1 {
		return s
	}
	var l [4]byte
	bin.BigEndian.PutUint32(l[:], uint32(len(s)))
	return string(l[:]) + s
}

// responses decodes what a server wrote: complete responses, and the rest
func responses(proto int, s string) ([]string, string) {
	var r []string
	for s != "" {
		n, rest := 0, ""
		if proto == 1 {
			nodes, k, ok, _ := refDecode([]byte(s))
			if !ok {
				return r, s
			}
			r = append(r, treeOf(nodes).Str())
			s = s[k:]
			continue
		}
		if len(s) < 4 {
			return r, s
		}
		n = int(bin.BigEndian.Uint32([]byte(s)))
		if len(s) < 4+n {
			return r, s
		}
		rest = s[4+n:]
		nodes, k, ok, _ := refDecode([]byte(s[4 : 4+n]))
		if !ok || k != n {
			return r, s
		}
		r = append(r, treeOf(nodes).Str())
		s = rest
	}
	return r, ""
}

// rfWorld is a server with its routes, and the model of it
type rfWorld struct {
	proto, entry int // entry 0: Server with routes, 1: Serve/Serve1 with a function
	calls        []string
	kept         []*ogdl.Graph
	keptAs       []string
	enter        func(name string) // called at the begin of each handler (optional)
}

func (w *rfWorld) call(name string, g *ogdl.Graph) {
	w.calls = append(w.calls, name+" "+GStr(g))
	w.kept = append(w.kept, g)
	w.keptAs = append(w.keptAs, GStr(g))
}

var rfBig = strings.Repeat("big response ", 800)

func rfFixed() *T { return N("_", N("ok", N("done"), N("é\nx")), N("n", N("2"))) }

func (w *rfWorld) start(n *simNet) {
	hook := func(s string) {
		if w.enter != nil {
			w.enter(s)
		}
	}
	echo := func(c net.Conn, g *ogdl.Graph) *ogdl.Graph { w.call("a", g); hook("a"); return g }
	fixed := func(c net.Conn, g *ogdl.Graph) *ogdl.Graph { w.call("b", g); hook("b"); return rfFixed().Graph() }
	big := func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		w.call("big", g)
		hook("big")
		r := ogdl.New("_")
		r.Add("r").Add(rfBig)
		return r
	}
	binf := func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		w.call("bin", g)
		hook("bin")
		r := ogdl.New("_")
		r.Add("d").Add([]byte("\x01\x00\xff\x01G\x00"))
		return r
	}
	if w.entry == 1 {
		if w.proto == 1 {
			go ogdlrf.Serve1(n.host, echo, simTimeout)
		} else {
			go ogdlrf.Serve(n.host, echo, simTimeout)
		}
		return
	}
	srv := &ogdlrf.Server{Host: n.host, Timeout: simTimeout, Protocol: w.proto}
	srv.AddRoute("a", echo)
	srv.AddRoute("b", fixed)
	srv.AddRoute("big", big)
	srv.AddRoute("bin", binf)
	srv.AddRoute("other", big)
	srv.AddRoute("slow", func(c net.Conn, g *ogdl.Graph) *ogdl.Graph {
		time.Sleep(slowTime)
		return echo(c, g)
	})
	go srv.Serve()
}

// expect: the handler call ("" if none) and the response for a request
func (w *rfWorld) expect(t *T) (string, string) {
	if w.entry == 1 {
		return "a " + t.Str(), solid(t).Str()
	}
	switch t.K[0].L {
	case "a", "slow":
		return "a " + t.Str(), solid(t).Str()
	case "b":
		return "b " + t.Str(), rfFixed().Str()
	case "big", "other":
		return "big " + t.Str(), N("_", N("r", N(rfBig))).Str()
	case "bin":
		return "bin " + t.Str(), N("_", N("d", N("\x01\x00\xff\x01G\x00"))).Str()
	}
	return "", N("_", N("error", N("notFound"))).Str()
}

func (w *rfWorld) aliased() string {
	for i, g := range w.kept {
		if s := GStr(g); s != w.keptAs[i] {
			return fmt.Sprintf("request %d as kept by the handler changes from %s to %s", i, clipDoc(w.keptAs[i]), clipDoc(s))
		}
	}
	return ""
}

var rfReqs = []*T{
	N("_", N("a")),
	N("_", N("b", N("x"))),
	N("_", N("zz")),
	N("_", N("a", N("é\n", N("deep")), N("y")), N("second")),
	N("_", N("bin", N("\x01\x00\x01G\x00\x00"))),
	N("_", N("big")),
	N("_", N("a", N(strings.Repeat("long ", 900)))),
	N("_", N("no such\nroute", N("a"))),
	N("_", N("other", N("b")), N("a")),
	N("_", N("slow", N("x"))), // longer than the timeout
	// names that only look like those of routes
	N("_", N("a ")),
	N("_", N(" a", N("x"))),
	N("_", N("A")),
	N("_", N("ab"), N("a")),
	N("_", N("bi")),
	N("_", N("b.x")),
	N("_", N("a\n")),
	N("_", N("/a")),
}

var rfNames = []string{"a", "b", "big", "bin", "other"}

// rfNear gives names that look like n, in some way
func rfNear(n string, v int) []string {
	var r []string
	switch v {
	case 7:
		return []string{"", n + n, strings.ToUpper(n), strings.Title(n), n[1:], n + "/" + n, n + "." + n, n + "[0]", n + "/..", "./" + n, "/" + n + "/", " " + n + " ", "\n" + n + "\n", "'" + n + "'", "\"" + n + "\"", "$" + n, n + "()", n + "\u0301", "\ufeff" + n, strings.Repeat(" ", 100) + n, n + strings.Repeat(" ", 100), n + strings.Repeat("x", 5000)}
	default:
		for b := 2 + v/3*127; b < 2+(v/3+1)*127; b++ {
			switch v % 3 {
			case 0:
				r = append(r, n+string([]byte{byte(b)}))
			case 1:
				r = append(r, string([]byte{byte(b)})+n)
			case 2:
				r = append(r, n[:len(n)-1]+string([]byte{byte(b)}))
			}
		}
	}
	return r
}

const rfMain = 9 // those in all sequences

type rfDelivery struct {
	segs  []string
	gaps  map[int]int // seconds to wait before a segment
	merge bool        // all segments are there at once
}

// c26run: requests on one connection, delivered in a certain way
func c26run(c *C, proto, entry int, reqs []*T, d rfDelivery) {
	w := &rfWorld{proto: proto, entry: entry}
	what := func() string {
		s := fmt.Sprintf("protocol %d entry %d, requests", proto, entry)
		for _, r := range reqs {
			s += " " + r.Str()
		}
		return clipDoc(s) + fmt.Sprintf(", in %d segments of %s (gaps %v, at once %v)", len(d.segs), seglens(d.segs), d.gaps, d.merge)
	}
	var calls, resp []string
	for _, r := range reqs {
		k, o := w.expect(r)
		if k != "" {
			calls = append(calls, k)
		}
		resp = append(resp, o)
	}
	var out string
	closed := false
	bubble(c, func(n *simNet) {
		w.start(n)
		quiet()
		x := n.connect()
		quiet()
		if d.merge {
			x.feed(d.segs...)
		} else {
			for i, s := range d.segs {
				if g := d.gaps[i]; g > 0 {
					time.Sleep(time.Duration(g) * time.Second)
				}
				x.feed(s)
				quiet()
			}
		}
		quiet()
		for _, r := range reqs {
			if entry == 0 && r.K[0].L == "slow" {
				time.Sleep(slowTime)
			}
		}
		time.Sleep(time.Second)
		quiet()
		out = x.written()
		closed = x.isClosed()
	})
	c.Step(len(d.segs))
	c.State(fmt.Sprint(proto, entry, d.merge, len(d.gaps), seglens(d.segs)))
	if strings.Join(w.calls, "\n") != strings.Join(calls, "\n") {
		c.Failf("%s: handler calls %s, want %s", what(), clipDoc(fmt.Sprintf("%q", w.calls)), clipDoc(fmt.Sprintf("%q", calls)))
	}
	got, rest := responses(proto, out)
	if strings.Join(got, "\n") != strings.Join(resp, "\n") || rest != "" {
		c.Failf("%s: responses %s and %q, want %s", what(), clipDoc(fmt.Sprintf("%q", got)), clipDoc(rest), clipDoc(fmt.Sprintf("%q", resp)))
	}
	if closed {
		c.Failf("%s: the connection is closed", what())
	}
	if s := w.aliased(); s != "" {
		c.Failf("%s: %s", what(), s)
	}
}

func seglens(s []string) string {
	var b []int
	for i, x := range s {
		if i > 40 {
			break
		}
		b = append(b, len(x))
	}
	return JoinInts(b, "+") + " bytes"
}

// cuts lists all ways to cut n bytes at up to k places
func cuts(n, k int, f func(at []int)) {
	var rec func(from int, at []int)
	rec = func(from int, at []int) {
		f(at)
		if len(at) == k {
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(at[:len(at):len(at)], i))
		}
	}
	rec(1, nil)
}

func cutAt(s string, at []int) []string {
	var r []string
	p := 0
	for _, i := range at {
		r = append(r, s[p:i])
		p = i
	}
	return append(r, s[p:])
}

func parseReqs(s string) []*T {
	var r []*T
	for _, i := range Ints(s, ",") {
		r = append(r, rfReqs[i])
	}
	return r
}

var c26 = &Prop{
	ID:     "C26",
	Rule:   "the real server over a simulated network with virtual time (segments are delivered exactly as told, one per read, and the next one when the server is idle, or all at once): every way to split one request of up to 15 bytes, every way to split two requests at up to K places, every sequence of up to L of 9 requests (all routes, unknown ones, binary contents, longer than buffers), and of 2 with one of 9 others (a handler slower than the timeout, names that resemble those of routes), split at up to 1 place or into single bytes; every pause of 40 of 60 seconds at each pair of places; for both protocols, with routes and with one function. Handler calls (graphs, order, exactly one per request) and responses (complete, in order, nothing else) are compared; requests kept by a handler do not change later. Sweeps of sizes over 1..k. Route names: each with every byte before it, after it and as its last one, and 22 other variants.",
	Bounds: "quick: K=2, L=2, sizes up to 3000 and around 4096, 65536; thorough: K=3, L=3",
	Assume: []string{"requests have at least one node", "the network is simulated at the net.Conn interface"},
	Gen: func(thorough bool, emit func(string)) {
		l := 2
		if thorough {
			l = 3
		}
		for _, pe := range []string{"1 0", "2 0", "1 1", "2 1"} {
			for k := 1; k <= l; k++ {
				Seqs(rfMain, k, func(ix []int) { emit(fmt.Sprintf("s %s %s", pe, JoinInts(ix, ","))) })
			}
			for i := rfMain; i < len(rfReqs); i++ {
				emit(fmt.Sprintf("s %s %d", pe, i))
				for j := range rfReqs {
					emit(fmt.Sprintf("s %s %d,%d", pe, i, j))
					emit(fmt.Sprintf("s %s %d,%d", pe, j, i))
				}
			}
			emit("a " + pe + " 0")
			if pe[2] == '0' {
				emit("a " + pe + " 1")
				for i := 0; i < 6; i++ {
					emit(fmt.Sprintf("k %s 0,%d", pe, i))
					emit(fmt.Sprintf("k %s %d,0", pe, i))
				}
			}
			for i := range rfReqs[:rfMain] {
				emit(fmt.Sprintf("g %s 0,%d,1", pe, i))
				emit(fmt.Sprintf("g %s %d,1", pe, i))
			}
		}
		for proto := 1; proto <= 2; proto++ {
			for i := range rfNames {
				for _, v := range []int{0, 1, 2, 3, 4, 5, 7} {
					emit(fmt.Sprintf("n %d 0 %d,%d", proto, i, v))
				}
			}
		}
		for _, n := range append(sweep(thorough), 4094, 4095, 4096, 4097, 8192, 65530, 65535, 65536, 65537, 70000, 1<<20) {
			emit(fmt.Sprintf("w 1 0 %d", n))
			emit(fmt.Sprintf("w 2 0 %d", n))
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		proto, _ := strconv.Atoi(f[1])
		entry, _ := strconv.Atoi(f[2])
		var reqs []*T
		stream := ""
		if f[0] == "n" {
			ix := Ints(f[3], ",")
			for _, s := range rfNear(rfNames[ix[0]], ix[1]) {
				reqs = append(reqs, N("_", N(s, N("x"))))
			}
			for _, r := range reqs {
				stream += request(proto, r)
			}
		} else if f[0] != "w" {
			reqs = parseReqs(f[3])
			for _, r := range reqs {
				stream += request(proto, r)
			}
		}
		run := func(d rfDelivery) { c26run(c, proto, entry, reqs, d) }
		switch f[0] {
		case "n":
			var segs []string
			for _, r := range reqs {
				segs = append(segs, request(proto, r))
			}
			run(rfDelivery{segs: segs})
			run(rfDelivery{segs: []string{stream}})
		case "a":
			n := len(stream)
			if n > 15 {
				n = 15
			}
			Compositions(n, func(mask int) {
				s := Cut(stream[:n], mask)
				if n < len(stream) {
					s = append(s, stream[n:])
				}
				run(rfDelivery{segs: s})
				run(rfDelivery{segs: s, merge: true})
			})
		case "k":
			k := 2
			if Tier() {
				k = 3
			}
			n := len(stream)
			if n > 60 {
				n = 60
			}
			cuts(n, k, func(at []int) { run(rfDelivery{segs: cutAt(stream, at)}) })
		case "s":
			step := 1
			if len(stream) > 200 {
				step = len(stream) / 100
			}
			for i := 0; i < len(stream); i += step {
				at := []int{i}
				if i == 0 {
					at = nil
				}
				run(rfDelivery{segs: cutAt(stream, at)})
				if len(reqs) > 1 {
					run(rfDelivery{segs: cutAt(stream, at), merge: true})
				}
			}
			if len(stream) < 3000 {
				var at []int
				for i := 1; i < len(stream); i++ {
					at = append(at, i)
				}
				run(rfDelivery{segs: cutAt(stream, at), merge: true})
				if len(stream) < 300 {
					run(rfDelivery{segs: cutAt(stream, at)})
				}
			}
			// one request per segment
			var segs []string
			for _, r := range reqs {
				segs = append(segs, request(proto, r))
			}
			run(rfDelivery{segs: segs})
		case "g":
			// pauses shorter than the timeout: at the begin of each request, or in it
			var ends []int
			for i := range reqs {
				n := len(request(proto, reqs[i]))
				if i > 0 {
					n += ends[i-1]
				}
				ends = append(ends, n)
			}
			if len(stream) > 200 {
				run(rfDelivery{segs: cutAt(stream, []int{5, ends[0], ends[0] + 3}), gaps: map[int]int{1: 40, 3: 40}})
				return
			}
			for i := 0; i < ends[0]; i++ {
				for j := ends[0]; j < ends[1]; j++ {
					at := []int{}
					gaps := map[int]int{}
					if i > 0 {
						at = append(at, i)
					}
					gaps[len(at)] = 40
					if j != ends[0] {
						at = append(at, ends[0])
					}
					at = append(at, j)
					gaps[len(at)] = 40
					run(rfDelivery{segs: cutAt(stream, at), gaps: gaps})
				}
			}
		case "w":
			n, _ := strconv.Atoi(f[3])
			one := func(s string, t ...*T) {
				reqs = t
				stream = ""
				for _, r := range t {
					stream += request(proto, r)
				}
				run(rfDelivery{segs: []string{stream}})
				for _, k := range []int{1, 3, 4, 5, 7, n, n + 1, n + 4, n + 8, n + 12, len(stream) - 1} {
					if k < len(stream) {
						run(rfDelivery{segs: cutAt(stream, []int{k})})
					}
				}
				if n < 1000 {
					var segs []string
					for s := stream; s != ""; {
						k := n
						if k > len(s) {
							k = len(s)
						}
						segs = append(segs, s[:k])
						s = s[k:]
					}
					run(rfDelivery{segs: segs})
				}
			}
			one("", N("_", N("a", N(strings.Repeat("x", n)))), rfReqs[0])
			one("", rfReqs[1], N("_", N("a", N("\x01"+strings.Repeat("\x00\x01G", n/3)))))
			if n <= 600 {
				var many []*T
				for i := 0; i < n; i++ {
					many = append(many, N("_", N([]string{"a", "b", "zz"}[i%3], N(strconv.Itoa(i)))))
				}
				one("", many...)
				wide := N("_", N("b"))
				for i := 0; i < n; i++ {
					wide.K[0].Add(strconv.Itoa(i))
				}
				one("", wide, rfReqs[2], wide)
				// many objects in one request
				flat := N("_", N("a"))
				for i := 0; i < n; i++ {
					flat.Add([]string{"b", "a", "x y"}[i%3])
				}
				one("", flat, rfReqs[0], flat)
			}
		}
	},
}
