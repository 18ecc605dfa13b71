//go:build verifnet

package main

import (
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

func init() { props = append(props, c29) }

// A client is a list of events:
//
//	1 2 3 4  a third of a request (1 2 3), or all of it (4); 5: two requests at once; 6: the first bytes of one
//	U        an unknown route
//	S        a request to a slow handler; R: the handler may end
//	g        one more write gets through (a client with g starts with a full window)
//	X E      the connection is reset, ends
//	L        a request with a long body in two parts: L and l
var c29scripts = []string{
	"4", "123", "44", "123123", "5", "SR", "4SR4", "S4R", "6", "46", "4X", "1X", "12E", "U4", "4gg", "4g4ggg", "5gg", "Ll", "LlSR", "SX", "4ggX", "6E",
}

type c29client struct {
	id     int
	script string
	conn   *simConn
	pend   string // the rest of the request on its way
	cur    *T
	n      int
	reqs   []*T
	broken bool
}

func (x *c29client) req(kind string) *T {
	x.n++
	return N("_", N(kind, N(fmt.Sprintf("client %d request %d", x.id, x.n))), N("more", N(strings.Repeat(strconv.Itoa(x.id), 3))))
}

// c29run runs the events of the clients in an order (indexes of clients)
func c29run(c *C, proto, entry int, scripts []string, order []int) {
	var mu sync.Mutex
	var calls []string
	done := ""
	fail := func(f string, a ...interface{}) {
		c.Failf("protocol %d entry %d, clients %q, order%s: %s", proto, entry, scripts, done, fmt.Sprintf(f, a...))
	}
	bubble(c, func(n *simNet) {
		gates := map[string]chan bool{}
		handler := func(slow bool) ogdlrf.Function {
			return func(_ net.Conn, g *ogdl.Graph) *ogdl.Graph {
				s := GStr(g)
				k := g.Out[0].GetAt(0).ThisString()
				mu.Lock()
				calls = append(calls, s)
				ch := gates[k]
				mu.Unlock()
				if ch != nil {
					<-ch
				}
				r := ogdl.New("_")
				r.Add("to").Add(k)
				r.Add("of").Add(g.Out[0].ThisString())
				return r
			}
		}
		if entry == 0 {
			srv := &ogdlrf.Server{Host: n.host, Timeout: simTimeout, Protocol: proto}
			srv.AddRoute("a", handler(false))
			srv.AddRoute("slow", handler(true))
			go srv.Serve()
		} else if proto == 1 {
			go ogdlrf.Serve1(n.host, handler(false), simTimeout)
		} else {
			go ogdlrf.Serve(n.host, handler(false), simTimeout)
		}
		var cl []*c29client
		for i, s := range scripts {
			x := &c29client{id: i + 1, script: s, conn: n.connect()}
			x.conn.gated = strings.IndexByte(s, 'g') >= 0
			cl = append(cl, x)
		}
		quiet()
		check := func(final bool) {
			for _, x := range cl {
				got, rest := responses(proto, x.conn.written())
				var want []string
				blocked := false
				for _, r := range x.reqs {
					if ch := gates[r.K[0].K[0].L]; ch != nil {
						select {
						case <-ch:
						default:
							blocked = true
						}
					}
					if blocked {
						break
					}
					if entry == 0 && r.K[0].L != "a" && r.K[0].L != "slow" {
						want = append(want, N("_", N("error", N("notFound"))).Str())
					} else {
						want = append(want, N("_", N("to", N(r.K[0].K[0].L)), N("of", N(r.K[0].L))).Str())
					}
				}
				part := (x.conn.gated || x.broken) && !final || x.broken
				if part {
					if len(got) > len(want) || strings.Join(got, "\n") != strings.Join(want[:len(got)], "\n") {
						fail("client %d gets %q, want %q", x.id, got, want)
					}
					continue
				}
				if strings.Join(got, "\n") != strings.Join(want, "\n") || rest != "" {
					fail("client %d gets %q and %q, want %q", x.id, got, rest, want)
				}
			}
		}
		pos := make([]int, len(cl))
		for _, i := range order {
			x := cl[i]
			e := x.script[pos[i]]
			pos[i]++
			done += " " + strconv.Itoa(i+1) + string(e)
			c.Step(1)
			send := func(t *T, s string) {
				x.conn.feed(s)
				if t != nil {
					x.reqs = append(x.reqs, t)
				}
			}
			switch e {
			case '1', 'L', '6':
				x.cur = x.req("a")
				if e == 'L' {
					x.cur.Add(strings.Repeat("long "+strconv.Itoa(x.id), 1500))
				}
				s := request(proto, x.cur)
				k := 3
				if e == 'L' {
					k = len(s) / 2
				}
				send(nil, s[:k])
				x.pend = s[k:]
			case '2':
				send(nil, x.pend[:9])
				x.pend = x.pend[9:]
			case '3', 'l':
				send(x.cur, x.pend)
			case '4', 'U', 'S':
				k := map[byte]string{'4': "a", 'U': "none", 'S': "slow"}[e]
				t := x.req(k)
				if e == 'S' {
					mu.Lock()
					gates[t.K[0].K[0].L] = make(chan bool)
					mu.Unlock()
				}
				send(t, request(proto, t))
			case '5':
				a, b := x.req("a"), x.req("a")
				x.reqs = append(x.reqs, a)
				send(b, request(proto, a)+request(proto, b))
			case 'R':
				for _, r := range x.reqs {
					if ch := gates[r.K[0].K[0].L]; ch != nil {
						close(ch)
					}
				}
			case 'g':
				x.conn.allow(1)
			case 'X':
				x.broken = true
				x.conn.end(errReset)
			case 'E':
				x.conn.end(io.EOF)
			}
			quiet()
			check(false)
		}
		for _, x := range cl {
			x.conn.allow(1 << 20)
		}
		quiet()
		check(true)
		// handler calls of each client, in order
		mu.Lock()
		all := append([]string{}, calls...)
		mu.Unlock()
		for _, x := range cl {
			var got, want []string
			for _, s := range all {
				if strings.Contains(s, fmt.Sprintf("client %d ", x.id)) {
					got = append(got, s)
				}
			}
			for _, r := range x.reqs {
				if entry == 1 || r.K[0].L != "none" {
					want = append(want, r.Str())
				}
			}
			if x.broken && len(got) < len(want) {
				want = want[:len(got)]
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				fail("handler calls for client %d: %s, want %s", x.id, clipDoc(fmt.Sprintf("%q", got)), clipDoc(fmt.Sprintf("%q", want)))
			}
		}
		// the stalled ones are closed in time, a new one is served
		time.Sleep(2 * simTimeout * time.Second)
		quiet()
		for _, x := range cl {
			if strings.IndexByte(x.script, 'S') >= 0 && strings.IndexByte(x.script, 'R') < 0 {
				continue // (a handler that never ends)
			}
			if !x.conn.isClosed() {
				fail("client %d: the connection stays open", x.id)
			}
		}
		z := n.connect()
		t := N("_", N("a", N("last")))
		z.feed(request(proto, t))
		quiet()
		if got, _ := responses(proto, z.written()); len(got) != 1 || got[0] != N("_", N("to", N("last")), N("of", N("a"))).Str() {
			fail("a new client then gets %q", got)
		}
		for _, ch := range gates {
			select {
			case <-ch:
			default:
				close(ch)
			}
		}
		c.State(strings.Join(all, "\n"))
	})
}

// c29many: n connections that do nothing, stop within a request, do not take
// their response or are in their handler must not keep others from being served
func c29many(c *C, proto, entry, k int) {
	bubble(c, func(n *simNet) {
		gate := make(chan bool)
		handler := func(_ net.Conn, g *ogdl.Graph) *ogdl.Graph {
			if g.Out[0].GetAt(0).ThisString() == "wait" {
				<-gate
			}
			r := ogdl.New("_")
			r.Add("to").Add(g.Out[0].GetAt(0).ThisString())
			return r
		}
		if entry == 0 {
			srv := &ogdlrf.Server{Host: n.host, Timeout: simTimeout, Protocol: proto}
			srv.AddRoute("a", handler)
			go srv.Serve()
		} else if proto == 1 {
			go ogdlrf.Serve1(n.host, handler, simTimeout)
		} else {
			go ogdlrf.Serve(n.host, handler, simTimeout)
		}
		served := func(x *simConn, w string, when string) {
			quiet()
			c.Step(1)
			if got, rest := responses(proto, x.written()); len(got) != 1 || got[0] != N("_", N("to", N(w))).Str() || rest != "" {
				c.Failf("protocol %d entry %d, %d connections that do not go on: a client %s gets %q", proto, entry, k, when, got)
			}
		}
		early := n.connect()
		r := request(proto, N("_", N("a", N("early"))))
		early.feed(r[:5])
		var cl []*simConn
		for i := 0; i < k; i++ {
			x := n.connect()
			cl = append(cl, x)
			r := request(proto, N("_", N("a", N("x"))))
			switch i % 5 {
			case 1:
				x.feed(r[:3])
			case 2:
				x.feed(r[:len(r)-1])
			case 3:
				x.gated = true
				x.feed(r)
			case 4:
				x.feed(request(proto, N("_", N("a", N("wait")))))
			}
		}
		quiet()
		z := n.connect()
		z.feed(request(proto, N("_", N("a", N("new")))))
		served(z, "new", "that comes then")
		early.feed(r[5:])
		served(early, "early", "that had begun")
		for _, x := range cl {
			x.allow(1 << 20)
		}
		time.Sleep(2 * simTimeout * time.Second)
		close(gate)
		quiet()
		for i, x := range cl {
			if i%5 != 4 && !x.isClosed() {
				c.Failf("protocol %d entry %d, %d connections that do not go on: the %d-th stays open", proto, entry, k, i)
			}
		}
		z = n.connect()
		z.feed(request(proto, N("_", N("a", N("last")))))
		served(z, "last", "that comes after them")
		c.State(strconv.Itoa(k))
	})
}

// merges lists all interleavings
func merges(n []int, f func(order []int)) {
	total := 0
	for _, k := range n {
		total += k
	}
	order := make([]int, 0, total)
	left := append([]int{}, n...)
	var rec func()
	rec = func() {
		if len(order) == total {
			f(order)
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				left[i]++
			}
		}
	}
	rec()
}

var c29 = &Prop{
	ID:      "C29",
	NoLimit: true, // (the race detector)
	Rule:    "the real server over a simulated network: every interleaving of the network events of 2 clients (every pair of 22 scripts: requests in one or three parts, two at once, long ones, unknown routes, handlers that end later, responses that leave write by write, clients that stop, reset or end in the middle) and of 3 clients (scripts of up to 3 events; thorough: 4), 4 clients of 2 events; after every event each client must have exactly the responses to its complete requests, in order; handler calls are compared, stalled connections closed, a new client served. And n connections that do nothing, stop in a request, do not take their response or wait in their handler, with a client that had begun before and one that comes then. Statement by statement: package ogdlrf with a scheduling point before every statement, two connections from their begin (accepted before or not) to their end, every pair of 4 kinds of requests, every execution with up to two preemptions (A stops before its i-th statement, B before its j-th). And 2 to 6 clients at the same time under the race detector.",
	Bounds:  "n from 1 to 140 and chosen ones up to 3000 (thorough 20000); quick: pairs, triples of up to 8 events in all with protocol 2, quadruples of 2 events; two preemptions; thorough: three preemptions, triples of up to 4 events, both protocols and entries",
	Assume:  []string{"between two network events of a script the server comes to rest; the executions with preemptions are those of two connections, statement by statement of package ogdlrf"},
	Gen: func(thorough bool, emit func(string)) {
		pes := []string{"2 0", "1 0", "2 1", "1 1"}
		for _, pe := range pes {
			emit("R " + pe)
			emit("t " + pe)
			for i := range sKinds {
				for j := range sKinds {
					d := 2
					if thorough && sKinds[i] != '2' && sKinds[j] != '2' {
						d = 3
					}
					emit(fmt.Sprintf("i %s %c%c 0 %d", pe, sKinds[i], sKinds[j], d))
					emit(fmt.Sprintf("i %s %c%c 1 %d", pe, sKinds[i], sKinds[j], d))
				}
			}
		}
		for _, pe := range pes {
			for _, n := range sweep(thorough) {
				emit(fmt.Sprintf("w %s %d", pe, n))
			}
		}
		for i, pe := range pes {
			var short []string
			for j, s := range c29scripts {
				for _, t := range c29scripts[j:] {
					emit(fmt.Sprintf("p %s %s %s", pe, s, t))
				}
				if len(s) <= 3 || thorough && len(s) <= 4 {
					short = append(short, s)
				}
			}
			if i > 0 && !thorough {
				continue
			}
			for a := range short {
				for b := a; b < len(short); b++ {
					for d := b; d < len(short); d++ {
						if n := len(short[a]) + len(short[b]) + len(short[d]); n <= 8 || thorough && n <= 10 {
							emit(fmt.Sprintf("p %s %s %s %s", pe, short[a], short[b], short[d]))
						}
					}
				}
			}
			two := []string{"44", "SR", "Ll", "1X", "46"}
			Seqs(len(two), 4, func(ix []int) {
				for k := 1; k < 4; k++ {
					if ix[k] < ix[k-1] {
						return
					}
				}
				emit(fmt.Sprintf("p %s %s %s %s %s", pe, two[ix[0]], two[ix[1]], two[ix[2]], two[ix[3]]))
			})
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		if schedCase(c, "C29", f) {
			return
		}
		proto, _ := strconv.Atoi(f[1])
		entry, _ := strconv.Atoi(f[2])
		if f[0] == "w" {
			k, _ := strconv.Atoi(f[3])
			c29many(c, proto, entry, k)
			return
		}
		var n []int
		for _, s := range f[3:] {
			n = append(n, len(s))
		}
		merges(n, func(order []int) { c29run(c, proto, entry, f[3:], order) })
	},
}
