//go:build verifsched

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	. "ogdlmc/fw"

	"ogdlmc/c22"
	"ogdlmc/vs"

	"github.com/rveen/ogdl"
)

func init() { props = append(props, c22prop) }

// ---- fingerprints of everything reachable

type fper struct {
	h    maphash.Hash
	seen map[unsafe.Pointer]int
}

var fpSeed = maphash.MakeSeed()

func (f *fper) num(n uint64) {
	var b [8]byte
	for i := range b {
		b[i] = byte(n >> (8 * i))
	}
	f.h.Write(b[:])
}

func (f *fper) raw(p unsafe.Pointer, n uintptr) {
	if n > 0 {
		f.h.Write(unsafe.Slice((*byte)(p), n))
	}
}

// at hashes the value of type t at p
func (f *fper) at(t reflect.Type, p unsafe.Pointer) {
	switch t.Kind() {
	case reflect.Pointer:
		q := *(*unsafe.Pointer)(p)
		f.ref(t.Elem(), q)
	case reflect.String:
		f.h.WriteString(*(*string)(p))
		f.h.WriteByte(0)
	case reflect.Slice:
		// the unused rest of a slice is shared memory too
		v := reflect.NewAt(t, p).Elem()
		f.num(uint64(v.Len()))
		f.num(uint64(v.Cap()))
		if v.Cap() > 0 {
			q := v.UnsafePointer()
			e := t.Elem()
			if e.Kind() == reflect.Uint8 {
				f.raw(q, uintptr(v.Cap()))
				return
			}
			f.num(uint64(uintptr(q)))
			for i := 0; i < v.Cap(); i++ {
				f.at(e, unsafe.Add(q, uintptr(i)*e.Size()))
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			f.at(t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f.at(t.Field(i).Type, unsafe.Add(p, t.Field(i).Offset))
		}
	case reflect.Interface:
		v := reflect.NewAt(t, p).Elem()
		if v.IsNil() {
			f.num(1)
			return
		}
		e := v.Elem()
		f.h.WriteString(e.Type().String())
		switch e.Kind() {
		case reflect.Func:
			f.raw(p, t.Size())
		case reflect.Pointer:
			f.ref(e.Type().Elem(), e.UnsafePointer())
		default:
			c := reflect.New(e.Type())
			if e.CanInterface() {
				c.Elem().Set(e)
			} else {
				c.Elem().Set(reflect.ValueOf(reflect.NewAt(t, p).Interface()).Elem().Elem())
			}
			f.at(e.Type(), c.UnsafePointer())
		}
	case reflect.Map:
		v := reflect.NewAt(t, p).Elem()
		f.num(uint64(v.Len()))
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			s := &fper{seen: map[unsafe.Pointer]int{}}
			s.h.SetSeed(fpSeed)
			for _, e := range []reflect.Value{it.Key(), it.Value()} {
				c := reflect.New(e.Type())
				c.Elem().Set(e)
				s.at(e.Type(), c.UnsafePointer())
			}
			sum += s.h.Sum64()
		}
		f.num(sum)
	default:
		f.raw(p, t.Size())
	}
}

func (f *fper) ref(t reflect.Type, q unsafe.Pointer) {
	if q == nil {
		f.num(0)
		return
	}
	n, ok := f.seen[q]
	if ok {
		f.num(uint64(n))
		return
	}
	f.seen[q] = len(f.seen) + 2
	f.num(uint64(len(f.seen)))
	if t == graphType && graphPlain {
		f.graph((*ogdl.Graph)(q))
		return
	}
	f.at(t, q)
}

var graphType = reflect.TypeOf(ogdl.Graph{})
var graphPlain = graphType.NumField() == 2

// graph is the same for the usual case, but faster
func (f *fper) graph(g *ogdl.Graph) {
	switch x := g.This.(type) {
	case nil:
		f.h.WriteByte(1)
	case string:
		f.h.WriteByte(2)
		f.h.WriteString(x)
		f.h.WriteByte(0)
	case int64:
		f.h.WriteByte(3)
		f.num(uint64(x))
	default:
		f.h.WriteByte(4)
		f.at(reflect.TypeOf(&g.This).Elem(), unsafe.Pointer(&g.This))
	}
	n := cap(g.Out)
	f.num(uint64(len(g.Out))<<32 | uint64(n))
	if n > 0 {
		f.num(uint64(uintptr(unsafe.Pointer(&g.Out[:n][0]))))
	}
	for _, x := range g.Out[:n] {
		f.ref(graphType, unsafe.Pointer(x))
	}
}

func fingerprint(v ...interface{}) uint64 {
	f := &fper{seen: map[unsafe.Pointer]int{}}
	f.h.SetSeed(fpSeed)
	for _, x := range v {
		r := reflect.ValueOf(x)
		f.ref(r.Type().Elem(), r.UnsafePointer())
	}
	return f.h.Sum64()
}

// ---- the variables of the package, as they were at the start

type gvar struct {
	p    reflect.Value
	val  reflect.Value
	keys map[interface{}]reflect.Value
}

var c22vars []gvar
var c22ptrs []interface{}
var c22dirty bool // some operation changes them
var c22mu sync.RWMutex

func c22init() {
	m := ogdl.VerifGlobals()
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := reflect.ValueOf(m[n])
		g := gvar{p: p, val: reflect.New(p.Elem().Type()).Elem()}
		g.val.Set(p.Elem())
		if p.Elem().Kind() == reflect.Map {
			g.keys = map[interface{}]reflect.Value{}
			it := p.Elem().MapRange()
			for it.Next() {
				g.keys[it.Key().Interface()] = it.Value()
			}
		}
		c22vars = append(c22vars, g)
		c22ptrs = append(c22ptrs, m[n])
	}
}

// reset restores the variables (only alone)
func c22reset() {
	for _, g := range c22vars {
		g.p.Elem().Set(g.val)
		if v := g.p.Elem(); v.Kind() == reflect.Map && !v.IsNil() {
			for _, k := range v.MapKeys() {
				if _, ok := g.keys[k.Interface()]; !ok {
					v.SetMapIndex(k, reflect.Value{})
				}
			}
			for k, x := range g.keys {
				v.SetMapIndex(reflect.ValueOf(k), x)
			}
		}
	}
}

// ---- operations

var c22ops, c22own = c22.Ops()
var c22alone []string // what each returns in a process of its own
var c22calm []bool    // it leaves all that is shared as it is, at each of its points
var c22points []int
var c22changes [][]int

func c22do(i int, w *c22.World) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	return c22ops[i].Do(w)
}

func c22world(w *c22.World) []interface{} { return append([]interface{}{w}, c22ptrs...) }

// what is found out about an operation in a process of its own
type c22info struct {
	Result  []byte
	Points  int
	Changes []int // the points at which something shared has changed
	Dirty   bool  // variables of the package stay changed
}

func c22one(i int) (r c22info) {
	g0 := fingerprint(c22ptrs...)
	w := c22.New()
	x := c22world(w)
	f0 := fingerprint(x...)
	last := f0
	r.Points = vs.Alone(func() { r.Result = []byte(c22do(i, w)) }, func(k int) {
		if f := fingerprint(x...); f != last {
			r.Changes = append(r.Changes, k)
			last = f
		}
	})
	if f := fingerprint(x...); f != last || f != f0 {
		r.Changes = append(r.Changes, r.Points)
	}
	r.Dirty = fingerprint(c22ptrs...) != g0
	return
}

func c22setup() {
	c22init()
	if s := os.Getenv("C22_ALONE"); s != "" {
		i, _ := strconv.Atoi(s)
		b, _ := json.Marshal(c22one(i))
		os.Stdout.Write(b)
		os.Exit(0)
	}
	n := len(c22ops)
	c22alone, c22calm, c22points, c22changes = make([]string, n), make([]bool, n), make([]int, n), make([][]int, n)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range c22ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			cmd := exec.Command(os.Args[0], "-case", "C22", "x")
			cmd.Env = append(os.Environ(), "C22_ALONE="+strconv.Itoa(i))
			b, err := cmd.Output()
			<-sem
			var r c22info
			if err2 := json.Unmarshal(b, &r); err2 != nil {
				panic(fmt.Sprint("operation ", c22ops[i].Name, " alone: ", err, err2))
			}
			c22alone[i], c22points[i], c22changes[i], c22calm[i] = string(r.Result), r.Points, r.Changes, len(r.Changes) == 0
			if r.Dirty {
				c22mu.Lock()
				c22dirty = true
				c22mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	if os.Getenv("C22_DEBUG") != "" {
		for i := range c22ops {
			fmt.Println(c22ops[i].Name, c22points[i], c22calm[i], len(c22alone[i]))
		}
	}
}

// c22pair runs one schedule and compares
func c22pair(c *C, a, b int, w *c22.World, sa, sb []int) (int, int) {
	if c22dirty {
		c22reset()
	}
	var ra, rb string
	na, nb := vs.Two(func() { ra = c22do(a, w) }, func() { rb = c22do(b, w) }, sa, sb)
	c.Step(1)
	for _, x := range []struct {
		i    int
		r, o string
	}{{a, ra, c22ops[b].Name}, {b, rb, c22ops[a].Name}} {
		if x.r != c22alone[x.i] {
			c.Failf("%q (until its points %v) and %q (until its points %v): %q gives\n%s\nbut alone\n%s", c22ops[a].Name, sa, c22ops[b].Name, sb, c22ops[x.i].Name, clipDoc(x.r), clipDoc(c22alone[x.i]))
		}
	}
	return na, nb
}

func c22run(c *C, desc string) {
	f := strings.Fields(desc)
	switch f[0] {
	case "r":
		c22race(c, f[1:])
		return
	case "k":
		c22keep(c, f[1:])
		return
	}
	a, _ := strconv.Atoi(f[1])
	b, _ := strconv.Atoi(f[2])
	// the variables of the package belong to one pair at a time, if they change
	if c22dirty {
		c22mu.Lock()
		defer c22mu.Unlock()
	}
	calm := c22calm[a] && c22calm[b] && !c22dirty
	w := c22.New()
	f0 := fingerprint(w)
	fresh := func() {
		if fingerprint(w) != f0 {
			if calm {
				c.Failf("%q with %q: what is shared is modified", c22ops[a].Name, c22ops[b].Name)
			}
			w = c22.New()
			f0 = fingerprint(w)
		}
	}
	na, nb := c22pair(c, a, b, w, nil, nil)
	fresh()
	c.State(fmt.Sprint(a, b))
	// with one preemption: every point, or those around changes and some others
	near := func(ch []int, n, max int) []int {
		m := map[int]bool{}
		for _, k := range ch {
			for d := -1; d <= 1; d++ {
				if k+d > 0 && k+d <= n && len(m) < max/2 {
					m[k+d] = true
				}
			}
		}
		for k := 1; k <= n; k += 1 + n*2/max {
			m[k] = true
		}
		var r []int
		for k := range m {
			r = append(r, k)
		}
		sort.Ints(r)
		return r
	}
	switch {
	case f[0] == "p" && calm:
		// every state between is the same: what is left is to see that the
		// real code agrees
		for i := 1; i <= na; i++ {
			c22pair(c, a, b, w, []int{i}, nil)
			c.State(fmt.Sprint(a, b, i))
			if i%64 == 0 {
				fresh()
			}
		}
		fresh()
	case !calm:
		for _, i := range near(c22changes[a], na, 200) {
			c22pair(c, a, b, w, []int{i}, nil)
			fresh()
		}
		for _, i := range near(c22changes[a], na, 40) {
			for _, j := range near(c22changes[b], nb, 20) {
				c22pair(c, a, b, w, []int{i}, []int{j})
				fresh()
			}
		}
	}
}

var c22makers = c22.Makers()

// c22keep: what one operation has returned stays as it is whatever others
// return and whatever becomes of that
func c22keep(c *C, f []string) {
	if c22dirty {
		c22mu.Lock()
		defer c22mu.Unlock()
	}
	a, _ := strconv.Atoi(f[0])
	b, _ := strconv.Atoi(f[1])
	for ka := 0; ka < c22.Sizes; ka++ {
		for kb := 0; kb < c22.Sizes; kb++ {
			if d := ka - kb; !Tier() && (d > 1 || d < -1 || d == 0 && ka > 0) {
				continue
			}
			na, nb := fmt.Sprintf("%s (%d)", c22makers[a].Name, ka), fmt.Sprintf("%s (%d)", c22makers[b].Name, kb)
			x := c22makers[a].Make(ka)
			x0, xs := x.Show(), ""
			if x.Src != nil {
				xs = x.Src()
			}
			same := func(when string) {
				c.Step(1)
				c.Eq("what was returned by "+na+" "+when, x.Show(), x0)
				if x.Src != nil {
					c.Eq("what was the source of "+na+" "+when, x.Src(), xs)
				}
			}
			c.Owned(na, x.Tree)
			same("when shown again")
			var ys []c22.Made
			for i := 0; i < 3; i++ {
				y := c22makers[b].Make(kb)
				if i > 0 && y.Show() != ys[0].Show() {
					c.Failf("%s gives %s and then %s", nb, clipDoc(ys[0].Show()), clipDoc(y.Show()))
				}
				ys = append(ys, y)
				same("after " + nb)
			}
			y0 := ys[0].Show()
			for i := 1; i < 3; i++ {
				if ys[i].Edit != nil {
					ys[i].Edit()
					same("after a change of the result of " + nb)
				}
			}
			c.Eq("what was returned by "+nb+" after changes of other results", ys[0].Show(), y0)
			if x.Edit != nil {
				x.Edit()
				c.Step(1)
				c.Eq("what was returned by "+nb+" after a change of the result of "+na, ys[0].Show(), y0)
				if x.Src != nil {
					c.Eq("the source of "+na+" after a change of the result", x.Src(), xs)
				}
				x = c22makers[a].Make(ka)
				same("made again after the change of an earlier result")
			}
			c.State(fmt.Sprint("keep", a, b, ka, kb))
		}
	}
}

// c22race runs operations under the race detector
func c22race(c *C, ops []string) {
	cmd := exec.Command(filepath.Join(os.Getenv("MC_BUILD"), "race"), ops...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	c.Step(1)
	var names []string
	for _, o := range ops {
		i, _ := strconv.Atoi(o)
		names = append(names, c22ops[i].Name)
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 66 {
		c.Failf("%q at the same time: %s", names, clip3(out.String()))
	} else if err != nil && strings.Contains(out.String(), "fatal error: concurrent map") {
		c.Failf("%q at the same time: %s", names, clip3(out.String()))
	} else if err != nil && !strings.HasSuffix(out.String(), "end\n") {
		panic(fmt.Sprint("race run: ", err, clip3(out.String())))
	}
	c.State("race" + strings.Join(ops, " "))
}

var c22prop = &Prop{
	ID:      "C22",
	Rule:    "the real package with a scheduling point before every statement. (1) Each of the operations alone: at each of its points everything reachable from the shared objects (with the unused rests of slices) and from the variables of the package must be in its initial state; then every interleaving of operations that do so is equivalent to running them one after the other. (2) All ordered pairs one after the other, and pairs with the first one preempted at each of its points: both return what each returns in a process of its own. (3) If an operation leads through another state: pairs with one preemption everywhere and two preemptions around the changes. (4) every pair at the same time in a fresh process with the race detector (groups of 8 operations; thorough: also two at a time). (5) for every pair (A, B) of operations that give a result: the result of A is the same after B, after edits of the result of B, and edits of a result change no source.",
	Bounds:  "operations: all that read, on shared data, schema, functions, 11 paths, 12 expressions, 4 templates; 17 groups that change graphs of their own. quick: preemption of operations with up to 600 points by every 9th other; thorough: up to 3000 points, every other",
	Assume:  []string{"the standard library may be used concurrently as documented", "operations do not start goroutines"},
	NoLimit: true,
	Init:    c22setup,
	Gen: func(thorough bool, emit func(string)) {
		// all pairs: in groups, and in processes of their own
		k := 4
		var groups []string
		for a := 0; a < len(c22ops); a += k {
			s := ""
			for i := a; i < a+k && i < len(c22ops); i++ {
				s += " " + strconv.Itoa(i)
			}
			groups = append(groups, s)
		}
		for a := range groups {
			for b := 0; b <= a; b++ {
				if a == b {
					emit("r" + groups[a] + groups[a])
				} else {
					emit("r" + groups[a] + groups[b])
				}
			}
		}
		for a := range c22makers {
			for b := range c22makers {
				emit(fmt.Sprintf("k %d %d", a, b))
			}
		}
		for a := range c22ops {
			for b := range c22ops {
				k := "s"
				if n := c22points[a]; n <= 600 && (b == 0 || (a+b)%9 == 0) || thorough && n <= 3000 {
					k = "p"
				}
				emit(fmt.Sprintf("%s %d %d", k, a, b))
			}
		}
		for a := range c22ops {
			for b := 0; b <= a && thorough; b++ {
				emit(fmt.Sprintf("r %d %d", a, b))
			}
		}
	},
	Run: c22run,
}
