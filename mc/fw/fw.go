// Package fw is a small explicit, exhaustive exploration framework.
//
// A property is decided by enumerating a finite space of cases (documents,
// operation sequences, segmentations, schedules, crash points, ...), simplest
// first, and running every one of them on the real code next to a reference
// model. Each case is a short string from which it can be replayed.
package fw

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property with its case space and its oracle.
type Prop struct {
	ID      string
	Rule    string   // how the cases are made
	Bounds  string   // bounds of the quick / thorough exploration
	Assume  []string // assumptions
	Workers int      // 0: one per CPU
	NoLimit bool     // no limit of the address space
	// Gen emits all cases for a tier, simplest first.
	Gen func(thorough bool, emit func(string))
	// Run executes one case on the real code and on the model.
	Run func(c *C, desc string)
	// Init runs once in the process that runs cases (optional).
	Init func()
	// Done runs at the end (optional): extra checks over the whole exploration.
	Done func(c *C)
}

// C is the context of a case.
type C struct {
	Desc   string
	steps  int64
	states []uint64
	fail   string
	skip   bool
	rec    bool
}

type stop struct{}

// Failf reports a violation and ends the case.
func (c *C) Failf(f string, a ...interface{}) {
	if c.fail == "" {
		c.fail = fmt.Sprintf(f, a...)
	}
	panic(stop{})
}

// Step counts model transitions (operations, lines, events, ...).
func (c *C) Step(n int) { c.steps += int64(n) }

// State counts a model state or outcome (distinct ones are counted once).
func (c *C) State(s string) {
	if c.rec {
		h := fnv.New64a()
		h.Write([]byte(s))
		c.states = append(c.states, h.Sum64())
	}
}

// Skip marks the case as outside the space (it is not counted).
func (c *C) Skip() { c.skip = true; panic(stop{}) }

// Eq fails unless both strings are equal
func (c *C) Eq(what, got, want string) {
	if got != want {
		c.Differ(what, strconv.Quote(got), strconv.Quote(want))
	}
}

func q(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%q...(%d bytes)", s[:600], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Catch runs f and returns the panic message, if any ("" otherwise).
func Catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

func (p *Prop) run1(desc string, rec bool) (c *C) {
	c = &C{Desc: desc, rec: rec}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			c.fail = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	p.Run(c, desc)
	return c
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var o []string
	for _, l := range ls {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "ogdl.") {
			o = append(o, strings.TrimSpace(l))
		}
		if len(o) > 8 {
			break
		}
	}
	return strings.Join(o, " | ")
}

// --------------------------------------------------------------------------

const (
	slotSize = 1 << 16
	hangSec  = 40
)

type set struct {
	mu [64]sync.Mutex
	m  [64]map[uint64]struct{}
	n  int64
}

func (s *set) add(hs []uint64) {
	for _, h := range hs {
		if atomic.LoadInt64(&s.n) > 6000000 {
			return
		}
		i := h & 63
		s.mu[i].Lock()
		if s.m[i] == nil {
			s.m[i] = map[uint64]struct{}{}
		}
		if _, ok := s.m[i][h]; !ok {
			s.m[i][h] = struct{}{}
			atomic.AddInt64(&s.n, 1)
		}
		s.mu[i].Unlock()
	}
}

type result struct {
	Exec, Steps, States int64
	Exhaustive          bool
	Reason              string
	Samples             []string
	Violations          []viol
	Unstable            int
	Aborted             bool
	Known               []string
}

type viol struct{ Desc, Msg string }

// Root is /verif (the parent of the folder this framework lives in).
var Root = "/verif"

// Tier tells if this is the thorough tier
func Tier() bool { return tier() }

func tier() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

// Main is the entry point of all checkers.
//
//	checker <ID>              run the check (supervised)
//	checker -replay <file>    replay a violation
func Main(props []*Prop) {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		Root = r
	}
	find := func(id string) *Prop {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
		return nil
	}
	a := os.Args[1:]
	switch {
	case len(a) == 2 && a[0] == "-replay":
		b, err := os.ReadFile(a[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct{ Property, Case string }
		json.Unmarshal(b, &r)
		os.Exit(replay(find(r.Property), r.Case))
	case len(a) == 3 && a[0] == "-case":
		os.Exit(replay(find(a[1]), a[2]))
	case len(a) == 2 && a[0] == "-gen":
		n := 0
		find(a[1]).Gen(tier(), func(s string) {
			n++
			if n < 200 {
				fmt.Printf("%q\n", s)
			}
		})
		fmt.Println(n)
	case len(a) == 3 && a[0] == "-child":
		child(find(a[1]), a[2])
	case len(a) == 1:
		os.Exit(parent(find(a[0])))
	default:
		fmt.Fprintln(os.Stderr, "usage: checker ID | -replay FILE | -case ID CASE | -gen ID")
		os.Exit(2)
	}
}

func replay(p *Prop, desc string) int {
	if d := os.Getenv("MC_DIR"); d == "" {
		d, err := os.MkdirTemp("", "mc")
		if err == nil {
			os.Setenv("MC_DIR", d)
			defer os.RemoveAll(d)
			defer sweep(d)
		}
	}
	if p.Init != nil {
		p.Init()
	}
	var c *C
	if desc == "(end)" && p.Done != nil {
		c = (&Prop{Run: func(c *C, _ string) { p.Done(c) }}).run1(desc, false)
	} else {
		c = p.run1(desc, false)
	}
	if c.fail != "" {
		fmt.Printf("property %s\ncase %q\n%s\n", p.ID, desc, c.fail)
		return 1
	}
	fmt.Printf("property %s\ncase %q\nno violation\n", p.ID, desc)
	return 0
}

func limit(as uint64) {
	if as > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: as, Max: as})
	}
}

// child runs the exploration and writes its result to dir/result.json.
func child(p *Prop, dir string) {
	if !p.NoLimit {
		limit(24 << 30)
	}
	debug.SetGCPercent(200)
	if p.Init != nil {
		p.Init()
	}
	nw := p.Workers
	if nw == 0 {
		nw = runtime.GOMAXPROCS(0)
	}
	if w, _ := strconv.Atoi(os.Getenv("MC_WORKERS")); w > 0 {
		nw = w
	}
	f, err := os.Create(filepath.Join(dir, "slots"))
	if err != nil {
		panic(err)
	}
	f.Truncate(int64(nw * slotSize))
	mm, err := syscall.Mmap(int(f.Fd()), 0, nw*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}

	budget := 200 * time.Second
	if tier() {
		budget = 720 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	start := time.Now()
	var stopped int32 // 1: violation, 2: deadline
	ch := make(chan []string, 4*nw)

	type halt struct{}
	go func() {
		defer close(ch)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(halt); !ok {
					panic(r)
				}
			}
		}()
		var batch []string
		sent := 0
		n := 1
		p.Gen(tier(), func(s string) {
			batch = append(batch, s)
			if len(batch) >= n {
				if atomic.LoadInt32(&stopped) != 0 {
					panic(halt{})
				}
				if time.Since(start) > budget {
					atomic.CompareAndSwapInt32(&stopped, 0, 2)
					panic(halt{})
				}
				ch <- batch
				batch = nil
				sent++
				if sent > 2000 && n < 64 {
					n = 64
				}
			}
		})
		if len(batch) > 0 {
			ch <- batch
		}
	}()

	known := loadKnown(p.ID)
	var r result
	var mu sync.Mutex
	var states set
	began := make([]int64, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			slot := mm[w*slotSize : (w+1)*slotSize]
			var exec, steps int64
			for batch := range ch {
				if atomic.LoadInt32(&stopped) != 0 {
					continue
				}
				for _, d := range batch {
					n := copy(slot[8:], d)
					binary.LittleEndian.PutUint64(slot, uint64(n)|1<<32)
					atomic.StoreInt64(&began[w], time.Now().UnixNano())
					c := p.run1(d, true)
					if c.fail != "" {
						p.report(c, known, &r, &mu, &stopped)
					}
					atomic.StoreInt64(&began[w], 0)
					if c.skip {
						continue
					}
					exec++
					steps += c.steps
					states.add(c.states)
					if exec == 1 || exec == 50 || exec == 1000 {
						mu.Lock()
						if len(r.Samples) < 12 {
							r.Samples = append(r.Samples, clip(d))
						}
						mu.Unlock()
					}
				}
			}
			binary.LittleEndian.PutUint64(slot, 0)
			atomic.AddInt64(&r.Exec, exec)
			atomic.AddInt64(&r.Steps, steps)
		}(w)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			now := time.Now().UnixNano()
			for w := range began {
				b := atomic.LoadInt64(&began[w])
				if b != 0 && now-b > int64(hangSec)*1e9 {
					// keep only this one
					for v := range began {
						if v != w {
							binary.LittleEndian.PutUint64(mm[v*slotSize:], 0)
						}
					}
					os.Exit(97)
				}
			}
		}
	}()
	wg.Wait()
	if p.Done != nil && atomic.LoadInt32(&stopped) == 0 {
		c := &C{Desc: "(end)", rec: true}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(stop); !ok {
						panic(x)
					}
				}
			}()
			p.Done(c)
		}()
		if c.fail != "" {
			r.Violations = append(r.Violations, viol{c.Desc, c.fail})
		}
		r.Steps += c.steps
	}
	r.States = states.n
	r.Exhaustive = atomic.LoadInt32(&stopped) == 0
	if stopped == 2 {
		r.Reason = "time budget reached; simplest cases first"
	}
	b, _ := json.Marshal(r)
	os.WriteFile(filepath.Join(dir, "result.json"), b, 0644)
	os.Exit(0)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func (p *Prop) report(c *C, known map[string]string, r *result, mu *sync.Mutex, stopped *int32) {
	if what, ok := known[c.Desc]; ok {
		mu.Lock()
		r.Known = append(r.Known, what)
		mu.Unlock()
		return
	}
	// The same case must fail every time
	for i := 0; i < 4; i++ {
		if p.run1(c.Desc, false).fail == "" {
			mu.Lock()
			r.Unstable++
			mu.Unlock()
			return
		}
	}
	mu.Lock()
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, viol{c.Desc, c.fail})
	}
	mu.Unlock()
	if os.Getenv("MC_ALL") == "" {
		atomic.StoreInt32(stopped, 1)
	}
}

// known findings: known: property=ID case="..." what...
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(Root, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " case="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = l[len(pre):]
		qs, err := strconv.QuotedPrefix(l)
		if err != nil {
			continue
		}
		s, _ := strconv.Unquote(qs)
		m[s] = strings.TrimSpace(l[len(qs):])
	}
	return m
}

// parent supervises the child, so that crashes and hangs of the code under
// test are found too, and writes the evidence.
func parent(p *Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	defer sweep(dir)
	var r result
	for try := 0; try < 2; try++ {
		cmd := exec.Command(os.Args[0], "-child", p.ID, dir)
		cmd.Env = append(os.Environ(), "MC_DIR="+dir)
		if try > 0 {
			// cases that run at the same time may be what disturbed each other
			cmd.Env = append(cmd.Env, "MC_WORKERS=1")
		}
		ef, _ := os.Create(filepath.Join(dir, "stderr"))
		cmd.Stderr = ef
		cmd.Stdout = os.Stdout
		err = cmd.Run()
		ef.Close()

		b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
		if rerr == nil && err == nil {
			json.Unmarshal(b, &r)
			break
		}
		// It crashed, hung or was killed: find out which case does that
		r = crashed(p, dir, err)
		if !r.Aborted {
			break
		}
	}
	r.Violations = dedupe(r.Violations)

	evidence(p, &r, time.Since(start).Seconds())
	seen := map[string]bool{}
	for _, k := range r.Known {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
		}
	}
	for _, v := range r.Violations {
		path := writeReplay(p, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  case %s\n  %s\n", q(v.Desc), clip2(v.Msg))
	}
	fmt.Printf("%s: %d executions, %d model steps, %d distinct states, exhaustive=%v %s unstable=%d (%.1fs)\n", p.ID, r.Exec, r.Steps, r.States, r.Exhaustive, r.Reason, r.Unstable, time.Since(start).Seconds())
	if len(r.Violations) > 0 {
		return 1
	}
	if r.Aborted {
		return 2 // no answer
	}
	return 0
}

// sweep removes the scratch folder named in dir/scratch
func sweep(dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "scratch"))
	if err == nil && strings.HasPrefix(string(b), "/dev/shm/ogdlmc") {
		os.RemoveAll(string(b))
	}
}

func clip2(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func dedupe(v []viol) []viol {
	sort.SliceStable(v, func(i, j int) bool { return len(v[i].Desc) < len(v[j].Desc) })
	if len(v) > 5 {
		v = v[:5]
	}
	return v
}

func writeReplay(p *Prop, v viol) string {
	d := filepath.Join(Root, "replays")
	os.MkdirAll(d, 0755)
	h := fnv.New32a()
	h.Write([]byte(v.Desc))
	path := filepath.Join(d, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
	b, _ := json.MarshalIndent(map[string]string{"property": p.ID, "case": v.Desc, "message": v.Msg}, "", "  ")
	os.WriteFile(path, b, 0644)
	return path
}

func crashed(p *Prop, dir string, err error) result {
	r := result{Reason: fmt.Sprintf("the process running the cases ended abnormally (%v)", err)}
	eb, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if len(eb) > 1500 {
		eb = eb[:1500]
	}
	fmt.Println(r.Reason)
	b, _ := os.ReadFile(filepath.Join(dir, "slots"))
	known := loadKnown(p.ID)
	any := false
	r.Aborted = true
	for i := 0; i+slotSize <= len(b); i += slotSize {
		n := binary.LittleEndian.Uint64(b[i:])
		if n>>32 == 0 {
			continue
		}
		n &= 0xffffffff
		d := string(b[i+8 : i+8+int(n)])
		msg := ""
		fmt.Printf("running: %s\n", q(d))
		for try := 0; try < 2; try++ {
			m := solo(p, d)
			if m == "" {
				msg = ""
				break
			}
			msg = m
		}
		if msg != "" {
			any = true
			r.Aborted = false
			if what, ok := known[d]; ok {
				r.Known = append(r.Known, what)
				continue
			}
			r.Violations = append(r.Violations, viol{d, msg})
			break
		}
	}
	if !any {
		fmt.Printf("no single case reproduces it; stderr: %s\n", eb)
	}
	return r
}

// solo runs one case alone in a process; it returns a message if the case
// fails, crashes or does not end.
func solo(p *Prop, d string) string {
	cmd := exec.Command(os.Args[0], "-case", p.ID, d)
	cmd.Env = append(os.Environ(), "MC_DIR=")
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return ""
		}
		return "crash: " + err.Error() + "\n" + clip2(out.String())
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return "does not terminate (60 s)"
	}
}

func evidence(p *Prop, r *result, wall float64) {
	t := "quick"
	if tier() {
		t = "thorough"
	}
	ss := r.Samples
	if ss == nil {
		ss = []string{}
	}
	for _, v := range r.Violations {
		ss = append([]string{clip(v.Desc)}, ss...)
	}
	cov := map[string]interface{}{
		"states":                        r.States,
		"transitions":                   r.Steps,
		"traces_validated_against_impl": r.Exec,
		"samples":                       ss,
		"rule":                          p.Rule,
		"bounds":                        p.Bounds,
		"exhaustive":                    r.Exhaustive,
		"unstable_cases":                r.Unstable,
	}
	if r.Reason != "" {
		cov["explanation"] = r.Reason
	}
	e := map[string]interface{}{
		"property":    p.ID,
		"tier":        t,
		"seed":        seed(),
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": p.Assume,
		"wall_s":      wall,
		"violations":  len(r.Violations),
	}
	if p.Assume == nil {
		e["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(e, "", " ")
	d := filepath.Join(Root, "evidence")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, p.ID+".json"), append(b, '\n'), 0644)
}
