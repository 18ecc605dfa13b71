//go:build verifnet

package main

import (
	"errors"
	"io"
	"log"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	. "ogdlmc/fw"
)

// A simulated network: connections deliver exactly the segments and faults
// they are told, in a bubble with virtual time. The code under test is the
// real one; it reaches this through net.Listen and net.Dial.

var simHosts sync.Map // address -> *simNet
var simN int64

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simNet struct {
	host  string
	mu    sync.Mutex
	cond  *sync.Cond
	queue []*simConn // waiting to be accepted
	errs  int        // accepts that fail
	stop  bool
	dials int
	// dial makes the connection of a client (nil: refused)
	dial func(n int) *simConn
	all  []*simConn
}

func init() {
	log.SetOutput(io.Discard)
	net.VerifListen = func(network, address string) (net.Listener, error, bool) {
		v, ok := simHosts.Load(address)
		if !ok {
			return nil, nil, false
		}
		return v.(*simNet), nil, true
	}
	net.VerifDial = func(network, address string) (net.Conn, error, bool) {
		v, ok := simHosts.Load(address)
		if !ok {
			return nil, nil, false
		}
		n := v.(*simNet)
		n.mu.Lock()
		k := n.dials
		n.dials++
		n.mu.Unlock()
		c := n.dial(k)
		if c == nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}, true
		}
		n.mu.Lock()
		n.all = append(n.all, c)
		n.mu.Unlock()
		return c, nil, true
	}
}

func (n *simNet) Accept() (net.Conn, error) {
	n.mu.Lock()
	for {
		if n.stop {
			n.mu.Unlock()
			runtime.Goexit()
		}
		if n.errs > 0 {
			n.errs--
			n.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.ECONNABORTED)}
		}
		if len(n.queue) > 0 {
			c := n.queue[0]
			n.queue = n.queue[1:]
			n.mu.Unlock()
			return c, nil
		}
		n.cond.Wait()
	}
}

func (n *simNet) Close() error   { return nil }
func (n *simNet) Addr() net.Addr { return simAddr(n.host) }

// connect makes a client's connection, to be accepted by the server
func (n *simNet) connect() *simConn {
	c := newSimConn()
	n.mu.Lock()
	n.queue = append(n.queue, c)
	n.all = append(n.all, c)
	n.mu.Unlock()
	n.cond.Broadcast()
	return c
}

// bubble runs f with a network in virtual time; at the end all connections are closed
func bubble(c *C, f func(n *simNet)) {
	n := &simNet{host: "sim:" + strconv.FormatInt(atomic.AddInt64(&simN, 1), 10)}
	simHosts.Store(n.host, n)
	defer simHosts.Delete(n.host)
	var fail interface{}
	func() {
		defer func() {
			// goroutines that stay blocked at the end are nobody's concern
			if r := recover(); r != nil && fail == nil {
				if e, ok := r.(error); ok && len(e.Error()) > 8 && e.Error()[:8] == "deadlock" {
					return
				}
				if s, ok := r.(string); ok && len(s) > 8 && s[:8] == "deadlock" {
					return
				}
				panic(r)
			}
		}()
		net.VerifBubble(func() {
			n.cond = sync.NewCond(&n.mu)
			defer func() {
				if r := recover(); r != nil {
					fail = r
				}
				n.mu.Lock()
				n.stop = true
				all := n.all
				n.mu.Unlock()
				n.cond.Broadcast()
				for _, x := range all {
					x.end(io.EOF)
					x.allow(1 << 30)
				}
			}()
			f(n)
		})
	}()
	if fail != nil {
		panic(fail)
	}
}

func quiet() { net.VerifWait() }

type simConn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     [][]byte
	inErr  error
	rd, wd time.Time
	closed bool
	out    []byte
	gated  bool
	credit int
	wlimit int // bytes that can be written (-1: all)
	werr   error
	wfails int // writes that failed
	// onWrite is told what was written in all (optional; called without locks)
	onWrite func(out []byte)
	onClose func()
}

func newSimConn() *simConn {
	c := &simConn{wlimit: -1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *simConn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, opErr("read", net.ErrClosed)
		case !c.rd.IsZero() && !time.Now().Before(c.rd):
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case len(p) == 0:
			return 0, nil
		case len(c.in) > 0:
			n := copy(p, c.in[0])
			if c.in[0] = c.in[0][n:]; len(c.in[0]) == 0 {
				c.in = c.in[1:]
			}
			return n, nil
		case c.inErr == io.EOF:
			return 0, io.EOF
		case c.inErr != nil:
			return 0, opErr("read", c.inErr)
		}
		c.cond.Wait()
	}
}

func (c *simConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	for {
		if c.closed {
			c.mu.Unlock()
			return 0, opErr("write", net.ErrClosed)
		}
		if !c.wd.IsZero() && !time.Now().Before(c.wd) {
			c.mu.Unlock()
			return 0, opErr("write", os.ErrDeadlineExceeded)
		}
		if c.werr != nil && c.wlimit < 0 {
			c.wfails++
			c.mu.Unlock()
			return 0, opErr("write", c.werr)
		}
		if !c.gated || c.credit > 0 {
			break
		}
		c.cond.Wait()
	}
	c.credit--
	n := len(p)
	var err error
	if c.wlimit >= 0 {
		if n > c.wlimit {
			n = c.wlimit
			err = opErr("write", syscall.EPIPE)
			c.wfails++
		}
		c.wlimit -= n
	}
	c.out = append(c.out, p[:n]...)
	out := c.out
	f := c.onWrite
	c.mu.Unlock()
	if f != nil && n > 0 {
		f(out)
	}
	return n, err
}

func (c *simConn) Close() error {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	f := c.onClose
	c.mu.Unlock()
	c.cond.Broadcast()
	if was {
		return opErr("close", net.ErrClosed)
	}
	if f != nil {
		f()
	}
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return simAddr("sim:local") }
func (c *simConn) RemoteAddr() net.Addr { return simAddr("sim:remote") }

func (c *simConn) deadline(t time.Time, r, w bool) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	if r {
		c.rd = t
	}
	if w {
		c.wd = t
	}
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
	return nil
}

func (c *simConn) SetDeadline(t time.Time) error      { return c.deadline(t, true, true) }
func (c *simConn) SetReadDeadline(t time.Time) error  { return c.deadline(t, true, false) }
func (c *simConn) SetWriteDeadline(t time.Time) error { return c.deadline(t, false, true) }

// ---- the other side

// feed delivers segments, one per read at most
func (c *simConn) feed(seg ...string) {
	c.mu.Lock()
	for _, s := range seg {
		if s != "" {
			c.in = append(c.in, []byte(s))
		}
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

// end ends the input: io.EOF or an error (with an error, nothing can be written either)
func (c *simConn) end(err error) {
	c.mu.Lock()
	if c.inErr == nil {
		c.inErr = err
	}
	if err != io.EOF {
		c.werr = err
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

// allow lets n more writes through
func (c *simConn) allow(n int) {
	c.mu.Lock()
	c.credit += n
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *simConn) written() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return string(c.out)
}

func (c *simConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

var errReset = errors.New("connection reset by peer")
