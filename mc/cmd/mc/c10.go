//go:build verifos

package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

func init() { props = append(props, c10) }

// Everything done to a file is recorded through the observation points that
// the overlay adds to package os.
type fev struct {
	op   byte // w write, t truncate, s sync, a acknowledge
	off  int64
	data []byte
	ack  []int
}

type recorder struct {
	evs []fev
}

var recorders sync.Map

func c10init() {
	mkScratch()
	os.VerifHook = func(name string, f *os.File, op string, b []byte, off int64) {
		v, ok := recorders.Load(name)
		if !ok {
			return
		}
		r := v.(*recorder)
		switch op {
		case "write":
			end, err := f.Seek(0, 1)
			if err != nil {
				panic(err)
			}
			r.evs = append(r.evs, fev{op: 'w', off: end - int64(len(b)), data: append([]byte{}, b...)})
		case "writeat":
			r.evs = append(r.evs, fev{op: 'w', off: off, data: append([]byte{}, b...)})
		case "truncate":
			r.evs = append(r.evs, fev{op: 't', off: off})
		case "sync":
			r.evs = append(r.evs, fev{op: 's'})
		}
	}
}

func apply(img []byte, e fev, n int) []byte {
	switch e.op {
	case 'w':
		if n < 0 || n > len(e.data) {
			n = len(e.data)
		}
		if n == 0 {
			return img
		}
		r := append([]byte{}, img...)
		for int64(len(r)) < e.off+int64(n) {
			r = append(r, make([]byte, e.off+int64(n)-int64(len(r)))...)
		}
		copy(r[e.off:], e.data[:n])
		return r
	case 't':
		r := append([]byte{}, img...)
		for int64(len(r)) < e.off {
			r = append(r, 0)
		}
		return r[:e.off]
	}
	return img
}

type c10obj struct {
	pos   int64
	str   string
	data  []byte
	acked bool
	sync  bool // autosync was on when it was added
}

// cuts of a write of n bytes that are tried
func cuts(n int) []int {
	var r []int
	for i := 1; i < n; i++ {
		if n <= 90 || i < 24 || i > n-24 || i%512 < 2 {
			r = append(r, i)
		}
	}
	return r
}

type c10state struct {
	img  []byte
	torn bool // it can end in an incomplete object
}

// crash enumerates what can be in the file if the machine stops after the
// first k events (event k, if a write, can be under way)
func crash(img []byte, evs []fev, k int, f func(img []byte, what string)) {
	base := img
	from := 0
	for i := 0; i < k; i++ {
		if evs[i].op == 's' {
			for j := from; j < i; j++ {
				base = apply(base, evs[j], -1)
			}
			from = i + 1
		}
	}
	var pend []fev
	for _, e := range evs[from:k] {
		if e.op == 'w' || e.op == 't' {
			pend = append(pend, e)
		}
	}
	if k < len(evs) && (evs[k].op == 'w' || evs[k].op == 't') {
		pend = append(pend, evs[k])
	}
	// a prefix of the bytes not yet synced
	cur := base
	f(cur, "nothing unsynced is on disk")
	for i, e := range pend {
		if e.op == 'w' {
			for _, n := range cuts(len(e.data)) {
				f(apply(cur, e, n), fmt.Sprintf("%d unsynced writes and %d bytes of the next are on disk", i, n))
			}
		}
		cur = apply(cur, e, -1)
		f(cur, fmt.Sprintf("%d unsynced writes are on disk", i+1))
	}
	// any subset of whole unsynced writes
	if len(pend) >= 2 && len(pend) <= 4 {
		for m := 1; m < 1<<uint(len(pend))-1; m++ {
			cur := base
			for i, e := range pend {
				if m>>uint(i)&1 == 1 {
					cur = apply(cur, e, -1)
				}
			}
			f(cur, fmt.Sprintf("the unsynced writes of mask %b are on disk", m))
		}
	}
}

// c10verify opens an image and checks the objects in it
func c10verify(c *C, img []byte, objs []c10obj, walk bool, what string) {
	file := scratchFile()
	defer os.Remove(file)
	if err := os.WriteFile(file, img, 0644); err != nil {
		panic(err)
	}
	log, err := ogdl.OpenLog(file)
	if err != nil {
		c.Failf("%s: OpenLog: %v", what, err)
	}
	defer log.Close()
	at := map[int64]string{}
	for _, o := range objs {
		at[o.pos] = o.str
		if !o.acked {
			continue
		}
		g, _, err := log.Get(o.pos)
		if g == nil || err != nil || GStr(g) != o.str {
			c.Failf("%s: the object at %d is lost: %s, want %s (%v)", what, o.pos, gs(g), o.str, err)
		}
		b, _, err := log.GetBinary(o.pos)
		if err != nil || !bytes.Equal(b, o.data) {
			c.Failf("%s: the object at %d is lost in binary form: %s, want %s (%v)", what, o.pos, clipB(b), clipB(o.data), err)
		}
	}
	if !walk {
		return
	}
	for _, o := range objs {
		if g, _, _ := log.Get(o.pos); g != nil && GStr(g) != o.str {
			c.Failf("%s: position %d gives %s, want %s or nothing", what, o.pos, gs(g), o.str)
		}
		if b, _, _ := log.GetBinary(o.pos); len(b) != 0 && !bytes.Equal(b, o.data) {
			c.Failf("%s: position %d gives %s in binary form, want %s or nothing", what, o.pos, clipB(b), clipB(o.data))
		}
	}
	for form := 0; form < 2; form++ {
		i := int64(0)
		for n := 0; ; n++ {
			var next int64
			var got string
			var ok bool
			if form == 0 {
				var g *ogdl.Graph
				g, next, _ = log.Get(i)
				if ok = g != nil; ok {
					got = GStr(g)
				}
			} else {
				var b []byte
				b, next, _ = log.GetBinary(i)
				if ok = len(b) > 0; ok {
					got = GStr(ogdl.FromBinary(b))
				}
			}
			if !ok {
				break
			}
			want, known := at[i]
			if !known || got != want {
				c.Failf("%s: the walk finds %s at %d, which was never added there", what, got, i)
			}
			if next <= i || n > len(objs) {
				c.Failf("%s: the walk does not end (%d after %d)", what, next, i)
			}
			i = next
		}
	}
}

func gs(g *ogdl.Graph) string {
	if g == nil {
		return "nothing"
	}
	s := GStr(g)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// c10explore runs the operations of a phase on an image, and every crash in it
func c10explore(c *C, img []byte, objs []c10obj, phases [][]string, torn bool, what string) {
	c10verify(c, img, objs, !torn, what)
	if len(phases) == 0 {
		return
	}
	file := scratchFile()
	defer os.Remove(file)
	if err := os.WriteFile(file, img, 0644); err != nil {
		panic(err)
	}
	r := &recorder{}
	recorders.Store(file, r)
	log, err := ogdl.OpenLog(file)
	if err != nil {
		c.Failf("%s: OpenLog: %v", what, err)
	}
	objs = append([]c10obj{}, objs...)
	auto := true
	all := append([]c10obj{}, objs...)
	for _, op := range phases[0] {
		c.Step(1)
		arg, _ := strconv.Atoi(op[1:])
		var ack []int
		switch op[0] {
		case 'a', 'b':
			g, b := c09obj(arg)
			var p int64
			if op[0] == 'a' {
				p = log.Add(g)
			} else {
				p = log.AddBinary(b)
			}
			all = append(all, c10obj{pos: p, str: GStr(g), data: b})
			if auto {
				ack = []int{len(all) - 1}
			}
		case 's':
			log.Sync()
			for i := len(objs); i < len(all); i++ {
				ack = append(ack, i)
			}
		case 'o':
			log.SetSync(arg == 1)
			auto = arg == 1
		case 'g':
			if len(all) > 0 {
				log.Get(all[0].pos)
				log.GetBinary(all[len(all)-1].pos)
			}
		case 'r':
			log.Close()
			if log, err = ogdl.OpenLog(file); err != nil {
				c.Failf("%s: OpenLog: %v", what, err)
			}
			auto = true
		}
		r.evs = append(r.evs, fev{op: 'a', ack: ack})
	}
	log.Close()
	recorders.Delete(file)
	evs := r.evs
	// without a crash everything is there
	final, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	full := append([]c10obj{}, all...)
	for i := range full {
		if i >= len(objs) {
			full[i].acked = true
		}
	}
	c10verify(c, final, full, !torn, what+"after all operations")

	seen := map[string]bool{}
	for k := 0; k <= len(evs); k++ {
		now := append([]c10obj{}, all...)
		for _, e := range evs[:k] {
			for _, i := range e.ack {
				now[i].acked = true
			}
		}
		acks := ""
		for _, o := range now {
			if o.acked {
				acks += "1"
			} else {
				acks += "0"
			}
		}
		crash(img, evs, k, func(im []byte, how string) {
			key := acks + string(im)
			if seen[key] {
				return
			}
			seen[key] = true
			c.State(key)
			c.Step(1)
			msg := fmt.Sprintf("%scrash after %d of the events %s, %s: ", what, k, showEvs(evs), how)
			if len(phases) > 1 {
				c10explore(c, im, now, phases[1:], true, msg+"then restart, ")
			} else {
				c10verify(c, im, now, !torn, msg)
			}
		})
	}
}

func showEvs(evs []fev) string {
	var b strings.Builder
	for _, e := range evs {
		switch e.op {
		case 'w':
			fmt.Fprintf(&b, "write(%d@%d) ", len(e.data), e.off)
		case 't':
			fmt.Fprintf(&b, "truncate(%d) ", e.off)
		case 's':
			b.WriteString("sync ")
		case 'a':
			b.WriteString("return ")
		}
	}
	return strings.TrimSpace(b.String())
}

var c10ops = []string{"a0", "a1", "a2", "b4", "a40", "o0", "o1", "s0", "g0", "r0"}

var c10 = &Prop{
	ID:     "C10",
	Rule:   "every history of up to N log operations (add four kinds of object, sync off/on, sync, reads, reopen); for each, every crash point between or within the file operations the real code issues (recorded in package os itself), with every prefix of the unsynced bytes and every subset of whole unsynced writes on disk; after each crash the real log is reopened and read at every position and by walking; then a second phase of adds after the restart, again with every crash point. Oracle: acknowledged objects are intact, nothing that was not added is ever returned, new adds are readable.",
	Bounds: "quick: N=3, second phases of one or two operations for N<=2, a large object cut at block boundaries; thorough: N=4, second phases for N<=3",
	Assume: []string{"a crash keeps a prefix of the unsynced appended bytes, or a subset of whole unsynced writes (holes read as zeros), never other data", "the directory entry of the log survives", "positions between objects are not read after a torn tail has been appended to"},
	Init:   c10init,
	Gen: func(thorough bool, emit func(string)) {
		n, m := 3, 2
		if thorough {
			n, m = 4, 3
		}
		for l := 0; l <= n; l++ {
			Seqs(len(c10ops), l, func(ix []int) {
				var f []string
				for _, i := range ix {
					f = append(f, c10ops[i])
				}
				h := strings.Join(f, " ")
				emit(h)
				if l <= m {
					for _, p2 := range []string{"a0", "b4 a1", "o0 a2 s0", "o0 a0 a2"} {
						emit(h + "|" + p2)
					}
				}
				if l <= 1 {
					emit(h + "|a0|a2")
					emit(h + "|b4|a0|a2")
				}
			})
		}
		emit("a3")
		emit("a0 a3 a1")
		emit("o0 a3 a0 s0 a3")
		emit("a3 a0|a3")
		emit("W")
	},
	Run: func(c *C, desc string) {
		if desc == "W" {
			c10walk(c)
			return
		}
		var phases [][]string
		for _, p := range strings.Split(desc, "|") {
			phases = append(phases, strings.Fields(p))
		}
		c10explore(c, nil, nil, phases, false, "")
	},
}

// c10walk: after a torn tail, objects added later are found by walking too
func c10walk(c *C) {
	_, b := c09obj(0)
	file := scratchFile()
	defer os.Remove(file)
	os.WriteFile(file, append(append([]byte{}, b...), b[:len(b)-4]...), 0644)
	log, err := ogdl.OpenLog(file)
	if err != nil {
		c.Failf("%v", err)
	}
	defer log.Close()
	g, _ := c09obj(2)
	log.Add(g)
	_, next, _ := log.Get(0)
	x, _, _ := log.Get(next)
	if x != nil && GStr(x) != GStr(g) {
		c.Failf("the rest of a torn object and the object added after it are returned as %s", gs(x))
	}
}
