package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// scratch is a folder for files, in memory if possible
var scratch string
var scratchN int64

func mkScratch() {
	base := os.Getenv("MC_DIR")
	if base == "" {
		base = os.TempDir()
	}
	if d, err := os.MkdirTemp("/dev/shm", "ogdlmc"); err == nil {
		scratch = d
		// removed by the process that supervises this one, too
		os.WriteFile(filepath.Join(base, "scratch"), []byte(d), 0644)
		return
	}
	d, err := os.MkdirTemp(base, "s")
	if err != nil {
		panic(err)
	}
	scratch = d
}

func scratchFile() string {
	return filepath.Join(scratch, "f"+strconv.FormatInt(atomic.AddInt64(&scratchN, 1), 10))
}

// objects that are logged
func c09obj(i int) (*ogdl.Graph, []byte) {
	var g *ogdl.Graph
	switch i {
	case 0:
		g = ogdl.FromString("a\n  b\n  c d")
	case 1:
		g = ogdl.New("_")
	case 2:
		g = ogdl.New("_")
		g.Add("x\x00y").Add(int64(7))
		g.Add([]byte{1, 0, 0, 1, 'G', 0})
	case 3:
		g = ogdl.New("_")
		g.Add(strings.Repeat("long ", 1700)).Add("z")
	case 4:
		// well formed, but not as the encoder would write it
		b := []byte("\x01G\x00\x01\x00\x02\x01\x01a\x02bc\x00\x80\x01e\x00\x00")
		nodes, _, _, _ := refDecode(b)
		return treeOf(nodes).Graph(), b
	default:
		g = ogdl.New("_")
		g.Add(strings.Repeat("s", i))
	}
	return g, g.Binary()
}

type c09model struct {
	pos  []int64
	objs []*ogdl.Graph
	data []byte
	keep []c09kept
}

// c09kept is something that was returned, and what it has to be
type c09kept struct {
	g, want *ogdl.Graph
	b, data []byte
}

func (m *c09model) verify(c *C, log *ogdl.Log, file string) {
	for k, p := range m.pos {
		m.get(c, log, k)
		_ = p
	}
	// walks
	i := int64(0)
	for k := range m.pos {
		if i != m.pos[k] {
			c.Failf("the walk is at %d for object %d, added at %d", i, k, m.pos[k])
		}
		g, next, err := log.Get(i)
		if err != nil || g == nil {
			c.Failf("walk: Get(%d) gives %v, error %v", i, g != nil, err)
		}
		i = next
	}
	m.end(c, log, i)
	i = 0
	for k := range m.pos {
		if i != m.pos[k] {
			c.Failf("the binary walk is at %d for object %d, added at %d", i, k, m.pos[k])
		}
		_, next, err := log.GetBinary(i)
		if err != nil {
			c.Failf("walk: GetBinary(%d): %v", i, err)
		}
		i = next
	}
	m.end(c, log, i)
	b, err := os.ReadFile(file)
	if err != nil || !bytes.Equal(b, m.data) {
		c.Failf("the file holds %s, want %s (%v)", clipB(b), clipB(m.data), err)
	}
}

func (m *c09model) end(c *C, log *ogdl.Log, i int64) {
	if i != int64(len(m.data)) {
		c.Failf("the walk ends at %d, want %d", i, len(m.data))
	}
	g, next, err := log.Get(i)
	if g != nil || next > 0 && err == nil {
		c.Failf("Get at the end gives object=%v next=%d err=%v", g != nil, next, err)
	}
	b, next, err := log.GetBinary(i)
	if len(b) != 0 || next > 0 && err == nil {
		c.Failf("GetBinary at the end gives %q next=%d err=%v", b, next, err)
	}
}

func (m *c09model) next(k int) int64 {
	if k+1 < len(m.pos) {
		return m.pos[k+1]
	}
	return int64(len(m.data))
}

func (m *c09model) get(c *C, log *ogdl.Log, k int) {
	g, next, err := log.Get(m.pos[k])
	if err != nil || g == nil {
		c.Failf("Get(%d): object=%v err=%v", m.pos[k], g != nil, err)
	}
	if GStr(g) != GStr(m.objs[k]) {
		c.Differ(fmt.Sprintf("object at %d", m.pos[k]), GStr(g), GStr(m.objs[k]))
	}
	if next != m.next(k) {
		c.Failf("Get(%d): next position %d, want %d", m.pos[k], next, m.next(k))
	}
	// what was returned belongs to the caller
	c.Owned(fmt.Sprintf("object at %d", m.pos[k]), g)
	g.Add("changed by the reader")
	if g.Len() > 1 {
		g.GetAt(0).This = "changed"
		g.GetAt(0).Add("more")
	}
	b, next, err := log.GetBinary(m.pos[k])
	if err != nil || !bytes.Equal(b, m.data[m.pos[k]:m.next(k)]) {
		c.Failf("GetBinary(%d): %s, want %s (err=%v)", m.pos[k], clipB(b), clipB(m.data[m.pos[k]:m.next(k)]), err)
	}
	if next != m.next(k) {
		c.Failf("GetBinary(%d): next position %d, want %d", m.pos[k], next, m.next(k))
	}
	for i := range b {
		b[i] = 'x'
	}
	// and stays as it is
	m.kept(c)
	g, _, err = log.Get(m.pos[k])
	if b, _, err2 := log.GetBinary(m.pos[k]); err == nil && err2 == nil {
		if m.keep = append(m.keep, c09kept{g, m.objs[k], b, m.data[m.pos[k]:m.next(k)]}); len(m.keep) > 3 {
			m.keep = m.keep[1:]
		}
	}
	m.kept(c)
}

func (m *c09model) kept(c *C) {
	for i := range m.keep {
		k := &m.keep[i]
		if GStr(k.g) != GStr(k.want) {
			c.Differ("an object that was read before", GStr(k.g), GStr(k.want))
		}
		if !bytes.Equal(k.b, k.data) {
			c.Failf("bytes that were read before: %s, want %s", clipB(k.b), clipB(k.data))
		}
	}
}

func c09run(c *C, ops []string, memory bool) {
	var log *ogdl.Log
	var err error
	file := ""
	if memory {
		log = &ogdl.Log{}
	} else {
		file = scratchFile()
		defer os.Remove(file)
		log, err = ogdl.OpenLog(file)
		if err != nil {
			c.Failf("OpenLog: %v", err)
		}
		defer func() { log.Close() }()
	}
	m := &c09model{}
	for _, op := range ops {
		c.Step(1)
		arg, _ := strconv.Atoi(op[1:])
		switch op[0] {
		case 'a', 'b':
			g, b := c09obj(arg)
			var p int64
			if op[0] == 'a' && arg != 4 {
				p = log.Add(g)
			} else {
				p = log.AddBinary(b)
			}
			if p != int64(len(m.data)) {
				c.Failf("%v: %s gives position %d, want %d", ops, op, p, len(m.data))
			}
			m.pos = append(m.pos, p)
			m.data = append(m.data, b...)
			// what was added belongs to the caller, still
			g2, _ := c09obj(arg)
			m.objs = append(m.objs, g2)
			g.Add("changed by the writer")
			for i := range b {
				b[i] = 'y'
			}
		case 'n':
			log.Add(nil)
		case 'g': // read first / last / beyond
			if memory {
				continue
			}
			switch {
			case arg == 2:
				log.Get(int64(len(m.data)) + 10)
				log.GetBinary(int64(len(m.data)) + 10)
				if len(m.data) > 3 {
					log.Get(1)
					log.GetBinary(2)
				}
			case len(m.pos) > 0:
				m.get(c, log, arg*(len(m.pos)-1))
			default:
				m.end(c, log, 0)
			}
		case 'r':
			if memory {
				continue
			}
			log.Close()
			log, err = ogdl.OpenLog(file)
			if err != nil {
				c.Failf("OpenLog: %v", err)
			}
		case 's':
			log.Sync()
		case 'o':
			log.SetSync(arg == 1)
		}
		if memory && !bytes.Equal(log.Bytes(), m.data) {
			c.Failf("%v: after %s the log holds %s, want %s", ops, op, clipB(log.Bytes()), clipB(m.data))
		}
		c.State(fmt.Sprint(m.pos))
	}
	if memory {
		if !bytes.Equal(log.Bytes(), m.data) {
			c.Failf("%v: the log holds %s, want %s", ops, clipB(log.Bytes()), clipB(m.data))
		}
		return
	}
	m.verify(c, log, file)
	log.Close()
	if log, err = ogdl.OpenLog(file); err != nil {
		c.Failf("OpenLog: %v", err)
	}
	m.verify(c, log, file)
	// and still appends
	g, b := c09obj(0)
	if p := log.Add(g); p != int64(len(m.data)) {
		c.Failf("%v: Add after the walk gives %d, want %d", ops, p, len(m.data))
	}
	m.pos = append(m.pos, int64(len(m.data)))
	m.objs = append(m.objs, g)
	m.data = append(m.data, b...)
	m.verify(c, log, file)
}

var c09ops = []string{"a0", "a1", "a2", "a3", "b4", "b0", "g0", "g1", "g2", "r0", "o0", "s0"}

var c09 = &Prop{
	ID:     "C09",
	Rule:   "every sequence of up to N operations over {add 4 kinds of graph, add two binary objects, read first / last / out of range, close and reopen, sync off, sync} on a log file (and the adds on a log in memory); after each sequence every position is read in both forms, the log walked in both forms, what the previous reads gave compared again, the file compared with the model, reopened, checked again and appended to. Sweeps of object sizes over the buffer boundaries. All object sizes around 16 K, 32 K, 64 K, and 128 K, 256 K, 1 M.",
	Bounds: "quick: N=4; thorough: N=5; object sizes 1..70, 4070..4110, 8180..8200",
	Init:   mkScratch,
	Done:   func(*C) { os.RemoveAll(scratch) },
	Gen: func(thorough bool, emit func(string)) {
		n := 4
		if thorough {
			n = 5
		}
		for l := 0; l <= n; l++ {
			Seqs(len(c09ops), l, func(ix []int) {
				var f []string
				for _, i := range ix {
					f = append(f, c09ops[i])
				}
				emit("f" + strings.Join(f, " "))
			})
		}
		Strings([]string{" a0", " a1", " a2", " a3", " b4", " s0", " n0"}, 0, n, func(s string) { emit("m" + strings.TrimSpace(s)) })
		Strings([]string{" a0", " n0", " g1", " r0"}, 0, n, func(s string) { emit("f" + strings.TrimSpace(s)) })
		for _, r := range [][2]int{{5, 70}, {120, 135}, {2030, 2060}, {4070, 4110}, {8180, 8200}} {
			for i := r[0]; i <= r[1]; i++ {
				emit(fmt.Sprintf("fa%d a0 a%d g1 b%d", i, i, i))
				emit(fmt.Sprintf("fa0 b%d r0 a%d", i, i+1))
			}
		}
		for _, n := range []int{16384, 32768, 65536, 131072, 262144, 1 << 20} {
			for i := n - 24; i <= n+2; i++ {
				// text, and header and framing: one of them makes an object of exactly n bytes
				if n <= 65536 || i == n || thorough {
					emit(fmt.Sprintf("fa%d a0 r0", i))
					emit(fmt.Sprintf("fa0 b%d g1 o0 a0", i))
				}
			}
		}
		emit("f" + strings.TrimSpace(strings.Repeat(" a0 a2 b4", 100)))
	},
	Run: func(c *C, desc string) {
		var ops []string
		if len(desc) > 1 {
			ops = strings.Split(desc[1:], " ")
		}
		c09run(c, ops, desc[0] == 'm')
	},
}
