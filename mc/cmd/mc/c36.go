package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

func init() { props = append(props, c36) }

var c36vals = []interface{}{"a", "b", "", "_", []byte("a"), int64(1), "1", 1.5, true, nil, "a b", "é\n", uint8(97)}

var c36names = []string{"a", "b", "", "_", "1", "1.5", "true", "a b", "é\n", "97", "A", "a ", "none", "<nil>"}

var c36res = []string{"", ".*", "a", "^a$", "^a", "b$", "[0-9]", "^$", "^.$", "^[^a]*$", "(?i)A", "é", "a|1", " ", "^_", "x", `\n`, "^(a|b)+$", "true"}

func ident(v []*ogdl.Graph, all []*ogdl.Graph) string {
	if len(v) == len(all) {
		same := true
		for i := range v {
			if v[i] != all[i] {
				same = false
				break
			}
		}
		if same {
			return "all"
		}
	}
	var s []string
	if len(all) > 5000 {
		at := make(map[*ogdl.Graph]int, len(all))
		for i := len(all) - 1; i >= 0; i-- {
			at[all[i]] = i
		}
		for _, n := range v {
			k, ok := at[n]
			if !ok {
				k = -1
			}
			s = append(s, strconv.Itoa(k))
		}
		return strings.Join(s, " ")
	}
	for _, n := range v {
		k := -1
		for i := range all {
			if all[i] == n {
				k = i
				break
			}
		}
		s = append(s, strconv.Itoa(k))
	}
	return strings.Join(s, " ")
}

// c36list is a node with the list of the children that it must have
type c36list struct {
	g   *ogdl.Graph
	all []*ogdl.Graph
}

func (l *c36list) del(i int) {
	if i >= 0 && i < len(l.all) {
		l.all = append(append([]*ogdl.Graph{}, l.all[:i]...), l.all[i+1:]...)
	}
}

var c36edits = []struct {
	what string
	f    func(l *c36list)
}{
	{"Add(w3)", func(l *c36list) { l.all = append(l.all, l.g.Add("w3")) }},
	{"Add(new)", func(l *c36list) { l.all = append(l.all, l.g.Add("new")) }},
	{"DeleteAt(0)", func(l *c36list) { l.g.DeleteAt(0); l.del(0) }},
	{"DeleteAt(the last)", func(l *c36list) { l.g.DeleteAt(len(l.all) - 1); l.del(len(l.all) - 1) }},
	{"Delete(w3)", func(l *c36list) {
		l.g.Delete("w3")
		for i := len(l.all) - 1; i >= 0; i-- {
			if l.all[i].This == "w3" {
				l.del(i)
			}
		}
	}},
	{"the first is renamed w3", func(l *c36list) {
		if len(l.all) > 0 {
			l.all[0].This = "w3"
		}
	}},
	{"the last is renamed w3", func(l *c36list) {
		if len(l.all) > 0 {
			l.all[len(l.all)-1].This = "w3"
		}
	}},
	{"w3 is renamed old", func(l *c36list) {
		for _, n := range l.all {
			if n.This == "w3" {
				n.This = "old"
				return
			}
		}
	}},
	{"the first and the last change places", func(l *c36list) {
		if k := len(l.all) - 1; k > 0 {
			l.all[0], l.all[k] = l.all[k], l.all[0]
			l.g.Out[0], l.g.Out[k] = l.g.Out[k], l.g.Out[0]
		}
	}},
	{"Set([0], w3)", func(l *c36list) {
		n := l.g.Set("[0]", "w3")
		if len(l.all) == 0 {
			l.all = []*ogdl.Graph{n}
		} else {
			l.all[0] = n
		}
	}},
	{"Set(w3, v)", func(l *c36list) {
		l.g.Set("w3", "v")
		for _, n := range l.all {
			if n.This == "w3" {
				return
			}
		}
		l.all = append(l.all, l.g.GetAt(len(l.all)))
	}},
	{"a longer list", func(l *c36list) {
		h := ogdl.New("_")
		for i := 0; i < 20; i++ {
			l.all = append(l.all, h.Add("w"+strconv.Itoa(i)))
		}
		l.g.AddNodes(h)
	}},
	{"no children", func(l *c36list) { l.g.Out, l.all = nil, nil }},
	{"another list, of the same length, backwards", func(l *c36list) {
		var o []*ogdl.Graph
		for i := len(l.all) - 1; i >= 0; i-- {
			o = append(o, l.all[i])
		}
		l.all = o
		l.g.Out = append([]*ogdl.Graph{}, o...)
	}},
}

// c36hist checks the queries before and after each edit
func c36hist(c *C, n int, edits []int) {
	l := &c36list{g: ogdl.New("top")}
	for i := 0; i < n; i++ {
		k := l.g.Add("w" + strconv.Itoa(i))
		k.Add("w3")
		l.all = append(l.all, k)
	}
	what := strconv.Itoa(n) + " children"
	last := "w" + strconv.Itoa(n-1)
	for s := 0; ; s++ {
		c.Step(1)
		if ident(l.g.Out, l.all) != ident(l.all, l.all) {
			c.Failf("%s: other children: %s", what, ident(l.g.Out, l.all))
		}
		for _, q := range []string{"w3", "w0", last, "new", "old", "w1"} {
			var want *ogdl.Graph
			for _, k := range l.all {
				if k.This == q {
					want = k
					break
				}
			}
			for i, got := range []*ogdl.Graph{l.g.Node(q), l.g.Get(q)} {
				if got != want {
					c.Failf("%s: %s(%s): child %s, want %s", what, []string{"Node", "Get"}[i], q, ident([]*ogdl.Graph{got}, l.all), ident([]*ogdl.Graph{want}, l.all))
				}
			}
			if want != nil {
				if got := l.g.NodeOrNew(q); got != want {
					c.Failf("%s: NodeOrNew(%s): child %s, want %s", what, q, ident([]*ogdl.Graph{got}, l.all), ident([]*ogdl.Graph{want}, l.all))
				}
			}
		}
		if n <= 300 || s == len(edits) {
			var want, strs []*ogdl.Graph
			for _, k := range l.all {
				if k.This == "w3" {
					want = append(want, k)
				}
			}
			r, _ := l.g.Find("^w3$")
			if r != nil {
				strs = r.Out
			}
			if a, b := ident(strs, l.all), ident(want, l.all); a != b {
				c.Failf("%s: Find(^w3$): children %s, want %s", what, a, b)
			}
		}
		for _, i := range []int{0, 1, len(l.all) - 1, len(l.all)} {
			var want *ogdl.Graph
			if i >= 0 && i < len(l.all) {
				want = l.all[i]
			}
			if l.g.GetAt(i) != want {
				c.Failf("%s: GetAt(%d) is another node", what, i)
			}
		}
		if s == len(edits) {
			break
		}
		e := c36edits[edits[s]]
		e.f(l)
		what += ", " + e.what
	}
}

// c36run checks a list; same gives the first position of the node of each position (nil: all are different)
func c36run(c *C, vals []interface{}, same []int) {
	g := ogdl.New("top")
	var all []*ogdl.Graph
	for i, v := range vals {
		n := ogdl.New(v)
		if same != nil && same[i] < i {
			// the same node again
			n = all[same[i]]
		} else if i%2 == 1 {
			// the queries are about the children only
			n.Add("a").Add("b")
			n.Add("1")
		}
		g.Out = append(g.Out, n)
		all = append(all, n)
	}
	var strs []string
	for _, v := range vals {
		strs = append(strs, Str(v))
	}
	desc := fmt.Sprintf("%q", strs)
	if len(desc) > 80 {
		desc = fmt.Sprintf("%s... (%d)", desc[:80], len(strs))
	}
	eq := func(what string, got, want interface{}) {
		c.Step(1)
		if !reflect.DeepEqual(got, want) {
			c.Failf("%s of %s: %v, want %v", what, desc, got, want)
		}
	}
	eq("Len", g.Len(), len(vals))
	eq("ThisString", g.ThisString(), "top")
	for i := -2; i < len(vals)+2; i++ {
		var want *ogdl.Graph
		if i >= 0 && i < len(vals) {
			want = all[i]
		}
		if g.GetAt(i) != want {
			c.Failf("GetAt(%d) of %s is another node", i, desc)
		}
	}
	names := c36names
	if len(vals) > 4 {
		names = append(append([]string{}, names...), strs[len(strs)-1], strs[len(strs)/2])
	}
	for _, s := range names {
		var want *ogdl.Graph
		for i := range strs {
			if strs[i] == s {
				want = all[i]
				break
			}
		}
		if got := g.Node(s); got != want {
			c.Failf("Node(%q) of %s: child %s, want %s", s, desc, ident([]*ogdl.Graph{got}, all), ident([]*ogdl.Graph{want}, all))
		}
		if want != nil {
			if got := g.NodeOrNew(s); got != want {
				c.Failf("NodeOrNew(%q) of %s: child %s, want %s", s, desc, ident([]*ogdl.Graph{got}, all), ident([]*ogdl.Graph{want}, all))
			}
		}
		c.Step(1)
	}
	for _, e := range c36res {
		re := regexp.MustCompile(e)
		var want []*ogdl.Graph
		for i := range strs {
			if re.MatchString(strs[i]) {
				want = append(want, all[i])
			}
		}
		r, err := g.Find(e)
		c.Step(1)
		if err != nil {
			c.Failf("Find(%q) of %s: %v", e, desc, err)
		}
		var got []*ogdl.Graph
		if r != nil {
			got = r.Out
		}
		if a, b := ident(got, all), ident(want, all); a != b {
			c.Failf("Find(%q) of %s: children %s, want %s", e, desc, a, b)
		}
		c.State(e + ident(want, all))
		// the list is the caller's
		if r != nil {
			r.Add("mark")
			r.DeleteAt(0)
			if ident(g.Out, all) != ident(all, all) || g.ThisString() != "top" {
				c.Failf("an edit of the list that Find(%q) gave changes the children of %s", e, desc)
				g.Out = append([]*ogdl.Graph{}, all...)
			}
			for i := range r.Out {
				r.Out[i] = nil
			}
			r.This = nil
		}
	}
	if ident(g.Out, all) != ident(all, all) || g.ThisString() != "top" {
		c.Failf("an edit of the lists that Find gave changes %s", desc)
		g.Out = append([]*ogdl.Graph{}, all...)
	}
	if l := g.Strings(); len(l) > 0 {
		l[0] = "mark"
		_ = append(l[:0], "mark", "mark")
	}
	for _, e := range []string{"[", "(", "a**", "\\"} {
		if r, err := g.Find(e); err == nil || r.Len() > 0 {
			c.Failf("Find(%q) of %s: no error", e, desc)
		}
	}
	var want []string
	want = append(want, strs...)
	if len(want) == 0 {
		eq("number of Strings", len(g.Strings()), 0)
	} else {
		eq("Strings", g.Strings(), want)
	}
	// (a list of which nothing is printed gives the default)
	eq("StringCSV", g.StringCSV(), strings.Join(strs, ", "))
	eq("StringTxt", g.StringTxt(), strings.Join(strs, " "))
	if len(strings.Join(strs, ", ")) > 0 {
		eq("StringCSV with default", g.StringCSV("no"), strings.Join(strs, ", "))
	}
	if len(strings.Join(strs, " ")) > 0 {
		eq("StringTxt with default", g.StringTxt("no"), strings.Join(strs, " "))
	}
	if len(vals) == 0 {
		eq("StringCSV with default", g.StringCSV("no"), "no")
		eq("StringTxt with default", g.StringTxt("no"), "no")
	}
	var first interface{}
	if len(vals) > 0 {
		first = vals[0]
	}
	eq("Interface", g.Interface(), first)
	eq("String", g.String(), Str(first))
	if ident(g.Out, all) != ident(all, all) {
		c.Failf("the queries change the children of %s", desc)
	}
}

var c36 = &Prop{
	ID:     "C36",
	Rule:   "every list of up to N children over 13 contents (strings, equal texts of several types, empty, nil, numbers, bool, bytes; every second child with children of its own; equal ones also as one node that appears several times) x all queries: by position (in and out of range), by name (14), by regular expression (19 and 4 invalid), and as lists; node identities compared with a list. The lists found are edited. Every sequence of edits (14 kinds: add, delete, rename, exchange, Set, replace the list) of lists of 40 sizes up to 2049, with the queries before and after each edit. Plus lists of up to thousands of children. A state is a query with its result.",
	Bounds: "quick: N=4, 2 or 3 edits; thorough: N=5, 3 or 4 edits",
	Gen: func(thorough bool, emit func(string)) {
		n := 4
		if thorough {
			n = 5
		}
		for l := 0; l <= n; l++ {
			Seqs(len(c36vals), l, func(ix []int) { emit("c" + JoinInts(ix, ",")) })
		}
		for _, n := range append(sweep(thorough), 16385) {
			emit("s" + strconv.Itoa(n))
		}
		for _, n := range []int{0, 1, 2, 3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 70, 100, 101, 128, 129, 150, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 1025, 2049} {
			l := 3
			if n > 12 && n != 17 && n != 33 && n != 65 || n > 65 {
				l = 2
			}
			if thorough && n <= 260 {
				l++
			}
			for i := range c36edits {
				emit(fmt.Sprintf("h%d %d %d", n, l, i))
			}
		}
	},
	Run: func(c *C, desc string) {
		var v []interface{}
		switch desc[0] {
		case 'h':
			f := strings.Fields(desc[1:])
			n, _ := strconv.Atoi(f[0])
			l, _ := strconv.Atoi(f[1])
			first, _ := strconv.Atoi(f[2])
			Seqs(len(c36edits), l-1, func(ix []int) {
				c36hist(c, n, append([]int{first}, ix...))
			})
		case 'c':
			if len(desc) > 1 {
				for _, i := range Ints(desc[1:], ",") {
					v = append(v, c36vals[i])
				}
			}
			c36run(c, v, nil)
			same, any := make([]int, len(v)), false
			for i := range v {
				same[i] = i
				for k := 0; k < i; k++ {
					if reflect.DeepEqual(v[k], v[i]) {
						same[i], any = k, true
						break
					}
				}
			}
			if any {
				c36run(c, v, same)
			}
		case 's':
			n, _ := strconv.Atoi(desc[1:])
			for i := 0; i < n; i++ {
				v = append(v, "w"+strconv.Itoa(i*7%n))
			}
			c36run(c, v, nil)
			v = append(v, v...)
			v[0], v[n] = "a", "a"
			c36run(c, v, nil)
			c36run(c, append(make([]interface{}, n), "b"), nil)
		}
	},
}
