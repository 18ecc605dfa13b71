//go:build verifnet

package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	. "ogdlmc/fw"
	"ogdlmc/vp"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/ogdlrf"
)

// Statement by statement: the package of the server and the client has a
// scheduling point before every statement. Two connections (or two clients) A
// and B; A stops before its i-th statement, B runs until its j-th one, A goes
// on until its k-th, then the rest.

type intl struct {
	a, b func() // give A, and B, what they do
	fin  func() // all have ended: checks
}

// interleave explores the executions; make sets one up in a network
func interleave(c *C, what string, depth int, make func(c *C, n *simNet, fail func(string, ...interface{})) intl) {
	one := func(i, j, k int) (na, nb, na2 int) {
		bubble(c, func(n *simNet) {
			ctl := vp.Begin()
			defer vp.End()
			fail := func(f string, a ...interface{}) {
				c.Failf("%s, A stops before statement %d, B before %d, A again before %d: %s", what, i, j, k, fmt.Sprintf(f, a...))
			}
			x := make(c, n, fail)
			defer func() {
				for p := 1; p <= 3; p++ {
					ctl.Resume(p)
				}
				ctl.Phase(9, 0)
			}()
			quiet()
			ctl.Phase(1, i)
			x.a()
			quiet()
			na = ctl.Points(1)
			ctl.Phase(2, j)
			x.b()
			quiet()
			nb = ctl.Points(2)
			ctl.Phase(3, k)
			ctl.Resume(1)
			quiet()
			na2 = ctl.Points(3)
			ctl.Phase(4, 0)
			ctl.Resume(2)
			quiet()
			ctl.Phase(5, 0)
			ctl.Resume(3)
			quiet()
			// (locks are waited for in virtual time)
			for t := 0; t < 3; t++ {
				time.Sleep(time.Millisecond)
				quiet()
			}
			c.Step(1)
			x.fin()
		})
		return
	}
	na, _, _ := one(0, 0, 0)
	for i := 1; i <= na; i++ {
		_, nb, _ := one(i, 0, 0)
		if depth < 2 {
			continue
		}
		for j := 1; j <= nb; j++ {
			_, _, na2 := one(i, j, 0)
			c.State(fmt.Sprint(what, i, j))
			if depth < 3 {
				continue
			}
			for k := 1; k <= na2; k++ {
				one(i, j, k)
			}
		}
	}
}

// serverFor starts a server that echoes, with routes a and b
func serverFor(n *simNet, proto, entry int, handler ogdlrf.Function) {
	if entry == 0 {
		srv := &ogdlrf.Server{Host: n.host, Timeout: simTimeout, Protocol: proto}
		srv.AddRoute("a", handler)
		srv.AddRoute("b", handler)
		go srv.Serve()
	} else if proto == 1 {
		go ogdlrf.Serve1(n.host, handler, simTimeout)
	} else {
		go ogdlrf.Serve(n.host, handler, simTimeout)
	}
}

// kinds of requests: short, long, of an unknown route, two at once
const sKinds = "slu2"

func sReq(kind byte, who string) (reqs []*T, resp []string) {
	one := func(route, k string) {
		t := N("_", N(route, N(k)), N("more", N(strings.Repeat(who, 3))))
		if kind == 'l' {
			t.Add(strings.Repeat("long "+who, 1500))
		}
		reqs = append(reqs, t)
		if route == "none" {
			resp = append(resp, `{"error"{"notFound"}}`)
			return
		}
		resp = append(resp, N("_", N("to", N(k)), N("all", t.K...)).Str())
	}
	switch kind {
	case 's', 'l':
		one("a", who+"1")
	case 'u':
		one("none", who+"1")
	case '2':
		one("a", who+"1")
		one("b", who+"2")
	}
	return
}

func sHandler(_ net.Conn, g *ogdl.Graph) *ogdl.Graph {
	r := ogdl.New("_")
	r.Add("to").Add(g.Out[0].GetAt(0).ThisString())
	all := r.Add("all")
	for _, k := range g.Out {
		all.Add(k)
	}
	return r
}

// c29sched: two connections from their begin to their end. early: both are accepted before A begins
func c29sched(c *C, proto, entry int, kinds string, early bool, depth int) {
	what := fmt.Sprintf("protocol %d entry %d, requests %s, early=%v", proto, entry, kinds, early)
	interleave(c, what, depth, func(c *C, n *simNet, fail func(string, ...interface{})) intl {
		serverFor(n, proto, entry, sHandler)
		conns := make([]*simConn, 2)
		want := make([]string, 2)
		do := func(i int) func() {
			return func() {
				if conns[i] == nil {
					conns[i] = n.connect()
				}
				reqs, resp := sReq(kinds[i], string("AB"[i]))
				if entry == 1 && kinds[i] == 'u' {
					resp = []string{N("_", N("to", N(string("AB"[i])+"1")), N("all", reqs[0].K...)).Str()}
				}
				want[i] = strings.Join(resp, "\n")
				s := ""
				for _, r := range reqs {
					s += request(proto, r)
				}
				conns[i].feed(s)
				conns[i].end(io.EOF)
			}
		}
		if early {
			conns[0], conns[1] = n.connect(), n.connect()
		}
		return intl{do(0), do(1), func() {
			for i, x := range conns {
				got, rest := responses(proto, x.written())
				if strings.Join(got, "\n") != want[i] || rest != "" {
					fail("client %c gets %q and %q, want %q", "AB"[i], got, rest, want[i])
				}
				if !x.isClosed() {
					fail("the connection of client %c, that has ended, stays open", "AB"[i])
				}
			}
		}}
	})
}

// autoConn is a connection whose other side answers: requests numbered from 0;
// act says what is done with one: respond, close before, close in the middle
func autoConn(n *simNet, proto int, act func(i int, r *T) byte) func(int) *simConn {
	var mu sync.Mutex
	count := map[string]int{}
	return func(int) *simConn {
		x := newSimConn()
		seen := 0
		x.onWrite = func(out []byte) {
			reqs, _ := refServe(proto, string(out[seen:]))
			if len(reqs) == 0 {
				return
			}
			seen = len(out)
			for _, r := range reqs {
				mu.Lock()
				i := count[r.K[0].L]
				count[r.K[0].L]++
				mu.Unlock()
				full := request(proto, N("_", N("to", r.K...)))
				switch act(i, r) {
				case 'k':
					x.feed(full)
				case 'b':
					x.feed(full[:3], full[3:5], full[5:])
				case 'q':
					x.feed(full[:len(full)-2])
					x.end(io.EOF)
				case 'c':
					x.end(io.EOF)
				}
			}
		}
		return x
	}
}

// c28sched: two clients, each makes a call and closes
func c28sched(c *C, proto int, kinds string, depth int) {
	what := fmt.Sprintf("protocol %d, servers %s", proto, kinds)
	interleave(c, what, depth, func(c *C, n *simNet, fail func(string, ...interface{})) intl {
		n.dial = autoConn(n, proto, func(i int, r *T) byte {
			k := kinds[0]
			if r.K[0].L == "B" {
				k = kinds[1]
			}
			if i > 0 && (k == 'q' || k == 'c') {
				return 'k'
			}
			return k
		})
		got := make([]string, 2)
		want := make([]string, 2)
		do := func(i int) func() {
			return func() {
				who := string("AB"[i])
				req := N("_", N(who, N("call")), N(strings.Repeat(who, 20+100*i)))
				want[i] = N("_", N("to", req.K...)).Str() + " <nil>"
				g := req.Graph()
				go func() {
					cl := &ogdlrf.Client{Host: n.host, Timeout: simTimeout, Protocol: proto}
					r, err := cl.Call(g)
					got[i] = GStr(r) + " " + fmt.Sprint(err)
					cl.Close()
				}()
			}
		}
		return intl{do(0), do(1), func() {
			for i := range got {
				if got[i] != want[i] {
					fail("client %c gets %s, want %s", "AB"[i], clipDoc(got[i]), clipDoc(want[i]))
				}
			}
			for _, x := range n.all {
				if !x.isClosed() {
					fail("a connection is left open")
				}
			}
		}}
	})
}

// netrace runs a case of this checker in a process built with the race detector
func netrace(c *C, id, desc string) {
	cmd := exec.Command(filepath.Join(os.Getenv("MC_BUILD"), "race"), "-case", id, desc)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	c.Step(1)
	e, ok := err.(*exec.ExitError)
	switch {
	case ok && (e.ExitCode() == 66 || e.ExitCode() == 1), err != nil && strings.Contains(out.String(), "fatal error: concurrent map"):
		c.Failf("at the same time: %s", clip3s(out.String()))
	case err != nil:
		panic(fmt.Sprint("race run: ", err, clip3s(out.String())))
	}
	c.State(desc)
}

func clip3s(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1200 {
		s = s[:1200]
	}
	return s
}

// c29together: several clients send at the same time, none waits for another
func c29together(c *C, proto, entry int) {
	for _, kinds := range []string{"ss", "su", "ls", "22", "uu", "s2lu", "22ll22"} {
		bubble(c, func(n *simNet) {
			serverFor(n, proto, entry, sHandler)
			var conns []*simConn
			var want []string
			var all []string
			for i := range kinds {
				who := string(rune('A' + i))
				reqs, resp := sReq(kinds[i], who)
				if entry == 1 && kinds[i] == 'u' {
					resp = []string{N("_", N("to", N(who+"1")), N("all", reqs[0].K...)).Str()}
				}
				want = append(want, strings.Join(resp, "\n"))
				s := ""
				for _, r := range reqs {
					s += request(proto, r)
				}
				all = append(all, s)
				conns = append(conns, n.connect())
			}
			quiet()
			for i, x := range conns {
				x.feed(all[i])
			}
			for _, x := range conns {
				x.end(io.EOF)
			}
			quiet()
			time.Sleep(time.Second)
			quiet()
			c.Step(1)
			for i, x := range conns {
				if got, rest := responses(proto, x.written()); strings.Join(got, "\n") != want[i] || rest != "" {
					c.Failf("protocol %d entry %d, requests %s together: client %d gets %q and %q, want %q", proto, entry, kinds, i, got, rest, want[i])
				}
			}
		})
	}
}

// c28together: several clients call at the same time
func c28together(c *C, proto int) {
	for _, kinds := range []string{"kk", "bb", "kq", "cc", "kkbbqqcc"} {
		bubble(c, func(n *simNet) {
			n.dial = autoConn(n, proto, func(i int, r *T) byte {
				k := kinds[r.K[0].L[0]-'A']
				if i > 0 && (k == 'q' || k == 'c') {
					return 'k'
				}
				return k
			})
			got := make([]string, len(kinds))
			want := make([]string, len(kinds))
			for i := range kinds {
				who := string(rune('A' + i))
				req := N("_", N(who, N("call")), N(strings.Repeat(who, 20+100*i)))
				want[i] = N("_", N("to", req.K...)).Str() + " <nil>"
				g := req.Graph()
				go func() {
					cl := &ogdlrf.Client{Host: n.host, Timeout: simTimeout, Protocol: proto}
					r, err := cl.Call(g)
					got[i] = GStr(r) + " " + fmt.Sprint(err)
					cl.Close()
				}()
			}
			quiet()
			time.Sleep(time.Second)
			quiet()
			c.Step(1)
			for i := range got {
				if got[i] != want[i] {
					c.Failf("protocol %d, servers %s together: client %d gets %s, want %s", proto, kinds, i, clipDoc(got[i]), clipDoc(want[i]))
				}
			}
		})
	}
}

// schedCase runs the cases s (statement by statement), t (together) and R (the same with the race detector)
func schedCase(c *C, id string, f []string) bool {
	arg := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
	switch f[0] {
	case "i":
		if id == "C28" {
			c28sched(c, arg(1), f[2], arg(3))
		} else {
			c29sched(c, arg(1), arg(2), f[3], f[4] == "1", arg(5))
		}
	case "t":
		if id == "C28" {
			c28together(c, arg(1))
		} else {
			c29together(c, arg(1), arg(2))
		}
	case "R":
		netrace(c, id, "t "+strings.Join(f[1:], " "))
	default:
		return false
	}
	return true
}
