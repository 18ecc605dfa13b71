//go:build verifnet

package main

import (
	bin "encoding/binary"
	"fmt"
	"io"
	"strings"
	"time"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

func init() { props = append(props, c28) }

// What the scripted server does with an attempt:
//
//	k b d B   responds: at once, in single bytes, after 5 s in two parts, something large
//	K R       responds and closes, or resets, the connection some time later
//	p q u     sends a part (nothing but the begin, a half, all but the last byte) and closes
//	P         sends a half and resets
//	h H L     never responds; a half and the rest 100 s later; all of it 100 s later
//	c r       closes, resets
//	g         a damaged response
//	w         the connection breaks while the request is written
//	x         the connection is refused (if it has to be opened; else as r)
const rfActs = "kbdBKRpquPhHLcrgwx"

type rfEvent struct {
	act  byte
	want string // the response, if it is complete
	req  string
}

type rfScript struct {
	proto  int
	acts   string
	seg    func(s string) []string // how to split a response (nil: not)
	next   int
	call   int
	events []rfEvent
	conns  []*simConn
	dead   map[*simConn]bool
	seen   map[*simConn]int
	fails  int
	n      *simNet
}

func (s *rfScript) take() byte {
	if s.next < len(s.acts) {
		s.next++
		return s.acts[s.next-1]
	}
	return 'k'
}

func (s *rfScript) peek() byte {
	if s.next < len(s.acts) {
		return s.acts[s.next]
	}
	return 'k'
}

func (s *rfScript) dial(int) *simConn {
	if s.peek() == 'x' {
		s.take()
		s.events = append(s.events, rfEvent{act: 'x'})
		return nil
	}
	x := newSimConn()
	s.conns = append(s.conns, x)
	if s.peek() == 'w' {
		s.take()
		s.events = append(s.events, rfEvent{act: 'w'})
		x.wlimit = (s.next * 3) % 9
	}
	x.onWrite = func(out []byte) {
		reqs, _ := refServe(s.proto, string(out[s.seen[x]:]))
		if len(reqs) == 0 {
			return
		}
		s.seen[x] = len(out)
		s.attempt(x, reqs)
	}
	return x
}

func (s *rfScript) attempt(x *simConn, reqs []*T) {
	e := rfEvent{}
	for _, r := range reqs {
		e.req += r.Str()
	}
	if s.dead[x] {
		// (closed before by the server)
		e.act = '-'
		s.events = append(s.events, e)
		return
	}
	e.act = s.take()
	if e.act == 'w' {
		e.act = 'r' // nothing left to break
	}
	t := N("_", N("r", N(fmt.Sprintf("c%d a%d", s.call, len(s.events)))))
	if e.act == 'B' {
		t.Add("big").Add(strings.Repeat("0123456789", 1000))
	}
	full := request(s.proto, t)
	half := len(full) * 2 / 3
	later := func(sec int, f func()) { time.AfterFunc(time.Duration(sec)*time.Second, f) }
	switch e.act {
	case 'k', 'B':
		if s.seg != nil {
			x.feed(s.seg(full)...)
		} else {
			x.feed(full)
		}
	case 'b':
		x.feed(strings.Split(full, "")...)
	case 'd':
		later(2, func() { x.feed(full[:5]) })
		later(5, func() { x.feed(full[5:]) })
	case 'K', 'R':
		x.feed(full)
		s.dead[x] = true
		err := error(io.EOF)
		if e.act == 'R' {
			err = errReset
		}
		later(1, func() { x.end(err) })
	case 'p':
		x.feed(full[:3])
		x.end(io.EOF)
	case 'q':
		x.feed(full[:half])
		x.end(io.EOF)
	case 'u':
		x.feed(full[:len(full)-1])
		x.end(io.EOF)
	case 'P':
		x.feed(full[:half])
		x.end(errReset)
	case 'H':
		x.feed(full[:half])
		later(100, func() { x.feed(full[half:]) })
	case 'L':
		later(100, func() { x.feed(full) })
	case 'c':
		x.end(io.EOF)
	case 'r', 'x':
		x.end(errReset)
	case 'g':
		// a level is missing
		b := "\x01G\x00\x01r\x00\x03x\x00\x00"
		if s.proto == 2 {
			var l [4]byte
			bin.BigEndian.PutUint32(l[:], uint32(len(b)))
			b = string(l[:]) + b
		}
		x.feed(b)
		if s.proto == 1 {
			x.end(io.EOF)
		}
	}
	if strings.IndexByte("kbdBKR", e.act) >= 0 {
		e.want = t.Str()
	}
	s.events = append(s.events, e)
}

// c28run makes calls over one client. pause: seconds between calls
func c28run(c *C, proto int, acts string, calls, pause int, seg func(string) []string) {
	s := &rfScript{proto: proto, acts: acts, seg: seg, dead: map[*simConn]bool{}, seen: map[*simConn]int{}}
	done := ""
	fail := func(f string, a ...interface{}) {
		c.Failf("protocol %d, server %q, pause %d, call %d (%s): %s", proto, acts, pause, s.call, done, fmt.Sprintf(f, a...))
	}
	bubble(c, func(n *simNet) {
		s.n = n
		n.dial = s.dial
		cl := &ogdlrf.Client{Host: n.host, Timeout: simTimeout, Protocol: proto}
		for s.call = 1; s.call <= calls; s.call++ {
			s.events = nil
			wf := 0
			for _, x := range s.conns {
				wf += x.wfails
			}
			req := N("_", N("a", N(fmt.Sprintf("call %d", s.call))))
			g := req.Graph()
			r, err := cl.Call(g)
			c.Step(1)
			for _, x := range s.conns {
				wf -= x.wfails
			}
			// failed writes on connections that were reset while idle
			attempts := len(s.events) - wf
			done = ""
			for _, e := range s.events {
				done += string(e.act)
				if e.act == 'w' {
					attempts--
				}
				if e.req != "" && e.req != req.Str() {
					fail("the server gets %s", e.req)
				}
			}
			if GStr(g) != req.Str() {
				fail("the request is changed to %s", GStr(g))
			}
			for i, e := range s.events {
				if e.want != "" && i < len(s.events)-1 {
					fail("the call is repeated after the response has been sent")
				}
			}
			if attempts > 3 {
				fail("%d attempts", attempts)
			}
			last := rfEvent{act: '-'}
			if len(s.events) > 0 {
				last = s.events[len(s.events)-1]
			}
			if last.want != "" {
				if err != nil || GStr(r) != last.want {
					fail("got %s %v, want %s", GStr(r), err, clipDoc(last.want))
				}
			} else {
				if err == nil {
					fail("got %s and no error", GStr(r))
				}
				if attempts < 3 && last.act != 'x' {
					fail("error %v after %d attempts", err, attempts)
				}
			}
			open := 0
			for i, x := range s.conns {
				if x.isClosed() {
					continue
				}
				open++
				if i < len(s.conns)-1 {
					fail("connection %d of %d is left open", i+1, len(s.conns))
				}
			}
			if last.want == "" && open > 0 {
				fail("a broken connection is left open")
			}
			c.State(fmt.Sprint(proto, done, err != nil, open))
			if pause > 0 {
				time.Sleep(time.Duration(pause) * time.Second)
			}
		}
		cl.Close()
		for i, x := range s.conns {
			if !x.isClosed() {
				fail("connection %d of %d is open after Close", i+1, len(s.conns))
			}
		}
	})
}

var _ = ogdl.New

var c28 = &Prop{
	ID:      "C28",
	NoLimit: true, // (the race detector)
	Rule:    "the real client against a scripted server over a simulated network with virtual time: every sequence of up to N of 18 behaviours (complete responses at once, in parts, slow, large; connections closed or reset in the middle of a response, of the request, before, or while idle; responses that never or only later arrive; damaged ones; refused connections), for 1..3 calls over one client, with and without a pause; every way to split a response of 14 bytes and every cut of it; for both protocols. Each call returns the response sent to its last attempt or an error after 3 attempts (or a refused connection), nothing is repeated after a complete response, no connection but the current one is open. Sweeps of response sizes. Two clients at once, statement by statement of package ogdlrf, for every pair of 4 servers (answering, in parts, closing before or in the middle of the first response): every execution with up to two preemptions (thorough: three); and 2 to 8 clients under the race detector.",
	Bounds:  "quick: N=4; thorough: N=5",
	Assume:  []string{"responses have at least one node; the server sends nothing unasked", "a client is used by one goroutine at a time"},
	Gen: func(thorough bool, emit func(string)) {
		for _, p := range "12" {
			emit(fmt.Sprintf("R %c", p))
			emit(fmt.Sprintf("t %c", p))
			for _, a := range "kbqc" {
				for _, b := range "kbqc" {
					d := 2
					if thorough && a != 'q' && b != 'q' {
						d = 3
					}
					emit(fmt.Sprintf("i %c %c%c %d", p, a, b, d))
				}
			}
			for i := range rfActs {
				emit(fmt.Sprintf("s %c %c", p, rfActs[i]))
				for j := range rfActs {
					emit(fmt.Sprintf("s %c %c%c", p, rfActs[i], rfActs[j]))
				}
			}
			emit(fmt.Sprintf("a %c", p))
			for _, n := range append(sweep(thorough), 4090, 4095, 4096, 4097, 65536, 1<<20) {
				emit(fmt.Sprintf("w %c %d", p, n))
			}
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		if schedCase(c, "C28", f) {
			return
		}
		proto := int(f[1][0] - '0')
		switch f[0] {
		case "s":
			n := 2
			if Tier() {
				n = 3
			}
			if len(f[2]) < 2 {
				n = 0
			}
			al := strings.Split(rfActs, "")
			Strings(al, 0, n, func(s string) {
				s = f[2] + s
				c28run(c, proto, s, 3, 0, nil)
				c28run(c, proto, s, 3, 200, nil)
			})
		case "a":
			t := N("_", N("r", N("c1 a0")))
			m := len(request(proto, t))
			k := m
			if k > 14 {
				k = 14
			}
			Compositions(k, func(mask int) {
				c28run(c, proto, "k", 1, 0, func(s string) []string {
					r := Cut(s[:k], mask)
					return append(r, s[k:])
				})
			})
			for i := 0; i < m; i++ {
				for _, e := range []error{io.EOF, errReset} {
					bubble(c, func(n *simNet) {
						var last *simConn
						n.dial = func(int) *simConn {
							x := newSimConn()
							last = x
							done := false
							x.onWrite = func(out []byte) {
								if reqs, _ := refServe(proto, string(out)); len(reqs) == 1 && !done {
									done = true
									x.feed(request(proto, t)[:i])
									x.end(e)
								}
							}
							return x
						}
						cl := &ogdlrf.Client{Host: n.host, Timeout: simTimeout, Protocol: proto}
						r, err := cl.Call(N("_", N("a")).Graph())
						if err == nil {
							c.Failf("protocol %d, response cut after %d of %d bytes (%v): got %s and no error", proto, i, m, e, GStr(r))
						}
						if n.dials != 3 || !last.isClosed() {
							c.Failf("protocol %d, response cut after %d of %d bytes (%v): %d connections", proto, i, m, e, n.dials)
						}
						// a server that works again
						n.dial = func(int) *simConn {
							x := newSimConn()
							x.onWrite = func(out []byte) {
								if reqs, _ := refServe(proto, string(out)); len(reqs) == 1 {
									x.feed(request(proto, t))
								}
							}
							return x
						}
						if r, err := cl.Call(N("_", N("a")).Graph()); err != nil || GStr(r) != t.Str() {
							c.Failf("protocol %d, after a response cut after %d bytes: %s %v", proto, i, GStr(r), err)
						}
					})
				}
			}
		case "w":
			n := Ints(f[2], ",")[0]
			for _, k := range []int{1, 4, 7, 1000, n, n + 4} {
				req := N("_", N("q", N(strings.Repeat("q", n))))
				t := N("_", N("r", N(strings.Repeat("x", n))), N("\x01"+strings.Repeat("\x00", n/10)), N("end"))
				bubble(c, func(nw *simNet) {
					nw.dial = func(int) *simConn {
						x := newSimConn()
						seen := 0
						x.onWrite = func(out []byte) {
							reqs, _ := refServe(proto, string(out[seen:]))
							if len(reqs) == 0 {
								return
							}
							seen = len(out)
							if reqs[0].Str() != req.Str() {
								x.end(errReset)
							}
							full := request(proto, t)
							if k == 1 && n > 5000 {
								x.feed(full[:len(full)/2], full[len(full)/2:])
								return
							}
							for full != "" {
								j := k
								if j > len(full) {
									j = len(full)
								}
								x.feed(full[:j])
								full = full[j:]
							}
						}
						return x
					}
					cl := &ogdlrf.Client{Host: nw.host, Timeout: simTimeout, Protocol: proto}
					for i := 0; i < 2; i++ {
						r, err := cl.Call(req.Graph())
						if err != nil || GStr(r) != t.Str() {
							c.Failf("protocol %d, response of %d bytes in parts of %d: %v %s", proto, n, k, err, clipDoc(GStr(r)))
						}
					}
					if nw.dials != 1 {
						c.Failf("protocol %d, response of %d bytes in parts of %d: %d connections", proto, n, k, nw.dials)
					}
				})
			}
		}
	},
}
