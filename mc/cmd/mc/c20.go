package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// tn is a node of a template: text, variable, break, if, for
type tn struct {
	k    byte // t v b ? *
	text string
	cond []int // of if and elseif parts
	body [][]*tn
	els  bool // the last body is that of else
	list int
	id   int
	out  func(e *tenv) string // for variables
}

// tenv is the state of the reference interpreter
type tenv struct {
	vars map[string]*vn // loop variables: the element
	ctx  *vn
	out  strings.Builder
	max  int // bound of the output
}

func tctx() *vn {
	r := &vn{v: "_"}
	add := func(k string, v ...*vn) { r.k = append(r.k, &vn{v: k, k: v}) }
	l := func(v ...interface{}) []*vn { return val(v...).k }
	add("a", l("A")...)
	add("t", l(true)...)
	add("f", l(false)...)
	add("n", l(int64(7))...)
	add("r", l(2.5)...)
	add("l", l("x", "y", "z")...)
	add("e")
	add("one", l("o")...)
	add("d", &vn{v: "k", k: l("K")}, &vn{v: "k k", k: l("KK")})
	add("m", &vn{v: "p", k: l("q", "r")}, &vn{v: "s"}, &vn{v: "u", k: []*vn{{v: "w", k: l("z")}}})
	add("s", l("1")...)
	add("s", l("2")...)
	add("ll", &vn{v: "_", k: l("A", "B")}, &vn{v: "_", k: l("C")})
	add("y", l("true")...)
	add("ints", l(int64(1), int64(2), int64(3), int64(4))...)
	add("k", l("", nil, false, int64(0), []byte("b"), "_", "[", "{", "", "a b", "a b", 0.5, "!e", "l", "v1", "k", "$a", "$(n+1)", "$if(t)x$end", "$end", "$", "\\", "\\$a", "$v1", "$break")...)
	add("q", &vn{v: "[", k: []*vn{{v: "p", k: l("q")}, {v: "s", k: l("t")}}})
	add("tt", l("x <b> $ 'q'")...)
	return r
}

var tconst = tctx()

func (n *vn) child(name string) *vn {
	for _, k := range n.k {
		if Str(k.v) == name {
			return k
		}
	}
	return nil
}

// ttext is how a variable that addresses n is printed
func ttext(n *vn) string {
	if n == nil {
		return ""
	}
	if len(n.k) == 1 && len(n.k[0].k) == 0 {
		return Str(n.k[0].v)
	}
	return n.graph().Text()
}

// conditions, by number: in loops (innermost variable v) and outside
type tcond struct {
	text string
	eval func(e *tenv, v *vn) bool
}

var tconds = []tcond{
	{"t", func(*tenv, *vn) bool { return true }},
	{"V=='y'", func(e *tenv, v *vn) bool { return v != nil && len(v.k) == 0 && Str(v.v) == "y" }},
	{"f", func(*tenv, *vn) bool { return false }},
	{"!(V=='x')", func(e *tenv, v *vn) bool { return !(v != nil && len(v.k) == 0 && Str(v.v) == "x") }},
	{"n > 6", func(*tenv, *vn) bool { return true }},
	{"n+1 <= 7 || f", func(*tenv, *vn) bool { return false }},
	{"d.k == 'K' && !f", func(*tenv, *vn) bool { return true }},
	{"missing", func(*tenv, *vn) bool { return false }},
	{"V == 'z' || V == 'x'", func(e *tenv, v *vn) bool { return v != nil && len(v.k) == 0 && (Str(v.v) == "z" || Str(v.v) == "x") }},
	{"y", func(*tenv, *vn) bool { return true }},
	{" t ", func(*tenv, *vn) bool { return true }},
	{"(f)", func(*tenv, *vn) bool { return false }},
	{"!t", func(*tenv, *vn) bool { return false }},
	{"l[1] == 'y'", func(*tenv, *vn) bool { return true }},
	{"V > 2", func(e *tenv, v *vn) bool { i, ok := v.v.(int64); return ok && i > 2 }},
}

// lists: what is written, and its elements (v: the innermost loop variable)
type tlist struct {
	text string
	els  func(e *tenv, v *vn) []*vn
}

func named(name string) func(e *tenv, v *vn) []*vn {
	return func(e *tenv, v *vn) []*vn {
		if n := e.ctx.child(name); n != nil {
			return n.k
		}
		return nil
	}
}

var tlists = []tlist{
	{"l", named("l")}, {"e", named("e")}, {"one", named("one")}, {"m", named("m")}, {"missing", named("missing")}, {"V[0]", func(e *tenv, v *vn) []*vn {
		if v == nil {
			return nil
		}
		return v.k
	}}, {"V", func(e *tenv, v *vn) []*vn {
		if v == nil {
			return nil
		}
		return []*vn{v}
	}}, {"d", named("d")}, {"ll[0]", func(e *tenv, v *vn) []*vn { return e.ctx.child("ll").k[0].k }}, {"ll[1]", func(e *tenv, v *vn) []*vn { return e.ctx.child("ll").k[1].k }},
	{"d.k", func(e *tenv, v *vn) []*vn { return e.ctx.child("d").k[0].k }}, {"s{}", func(e *tenv, v *vn) []*vn { return val("1", "2").k }}, {"ints", named("ints")}, {"l[7]", func(e *tenv, v *vn) []*vn { return nil }},
	{"k", named("k")}, {"q.'['", func(e *tenv, v *vn) []*vn { return e.ctx.child("q").k[0].k }}, {"q.'['[0]", func(e *tenv, v *vn) []*vn { return e.ctx.child("q").k[0].k[0].k }}, {"(ll[0])", func(e *tenv, v *vn) []*vn { return e.ctx.child("ll").k[0].k }},
}

// source writes the template
func tsource(b *strings.Builder, body []*tn, depth int) {
	v := "v" + strconv.Itoa(depth)
	if depth == 0 {
		v = "a"
	}
	for _, n := range body {
		switch n.k {
		case 't':
			b.WriteString(n.text)
		case 'v':
			if n.text != "" {
				b.WriteString(strings.ReplaceAll(n.text, "V", v))
			} else {
				b.WriteString("$" + v)
			}
		case 'b':
			b.WriteString("$break")
		case '?':
			for i, x := range n.body {
				switch {
				case i == 0:
					b.WriteString("$if(" + strings.ReplaceAll(tconds[n.cond[0]].text, "V", v) + ")")
				case n.els && i == len(n.body)-1:
					b.WriteString("$else")
				default:
					b.WriteString("$elseif(" + strings.ReplaceAll(tconds[n.cond[i]].text, "V", v) + ")")
				}
				tsource(b, x, depth)
			}
			b.WriteString("$end")
		case '*':
			b.WriteString("$for(v" + strconv.Itoa(depth+1) + "," + strings.ReplaceAll(tlists[n.list].text, "V", v) + ")")
			tsource(b, n.body[0], depth+1)
			b.WriteString("$end")
		}
	}
}

// run interprets a body; true: a break
func (e *tenv) run(body []*tn, depth int) bool {
	v := e.vars["v"+strconv.Itoa(depth)]
	for _, n := range body {
		if e.out.Len() > e.max {
			return false
		}
		switch n.k {
		case 't':
			if n.out != nil {
				e.out.WriteString(n.out(e))
			} else {
				e.out.WriteString(n.text)
			}
		case 'v':
			switch {
			case n.out != nil:
				e.out.WriteString(n.out(e))
			case depth == 0:
				e.out.WriteString("A")
			default:
				e.out.WriteString(ttext(&vn{k: []*vn{v}}))
			}
		case 'b':
			return true
		case '?':
			for i, x := range n.body {
				if n.els && i == len(n.body)-1 || tconds[n.cond[i]].eval(e, v) {
					if e.run(x, depth) {
						return true
					}
					break
				}
			}
		case '*':
			name := "v" + strconv.Itoa(depth+1)
			for _, x := range tlists[n.list].els(e, v) {
				e.vars[name] = x
				if e.run(n.body[0], depth+1) {
					break
				}
			}
		}
	}
	return false
}

// tparse reads the compact notation of a template: t v b ?c[..]:c[..]|[..] *k[..]
func tparse(s string, id *int) ([]*tn, string) {
	var r []*tn
	body := func() []*tn {
		b, rest := tparse(s[1:], id)
		s = rest[1:]
		return b
	}
	num := func() int {
		n := int(s[0] - 'A')
		s = s[1:]
		return n
	}
	for len(s) > 0 && s[0] != ']' {
		n := &tn{k: s[0], id: *id}
		s = s[1:]
		*id++
		switch n.k {
		case 't':
			n.text = "-" + strconv.Itoa(n.id) + ";"
		case '?':
			n.cond = append(n.cond, num())
			n.body = append(n.body, body())
			for len(s) > 0 && s[0] == ':' {
				s = s[1:]
				n.cond = append(n.cond, num())
				n.body = append(n.body, body())
			}
			if len(s) > 0 && s[0] == '|' {
				s = s[1:]
				n.els = true
				n.cond = append(n.cond, 0)
				n.body = append(n.body, body())
			}
		case '*':
			n.list = num()
			n.body = append(n.body, body())
		}
		r = append(r, n)
	}
	return r, s
}

// tbodies lists all bodies of a cost, in the compact notation
type tspace struct {
	conds, lists string
	loopVar      bool
	memo         map[string][]string
}

func (x *tspace) nodes(n int, loop bool) []string {
	k := fmt.Sprint("n", n, loop)
	if r, ok := x.memo[k]; ok {
		return r
	}
	var r []string
	if n == 1 {
		r = append(r, "t", "v")
		if loop {
			r = append(r, "b")
		}
	}
	for _, l := range x.lists {
		for _, b := range x.bodies(n-1, true) {
			r = append(r, "*"+string(l)+"["+b+"]")
		}
	}
	for _, c := range x.conds {
		for i := 0; i <= n-1; i++ {
			for _, b := range x.bodies(i, loop) {
				h := "?" + string(c) + "[" + b + "]"
				if i == n-1 {
					r = append(r, h)
					continue
				}
				for _, e := range x.bodies(n-2-i, loop) {
					r = append(r, h+"|["+e+"]")
				}
				for _, c2 := range x.conds {
					for j := 0; j <= n-2-i; j++ {
						for _, b2 := range x.bodies(j, loop) {
							h2 := h + ":" + string(c2) + "[" + b2 + "]"
							if j == n-2-i {
								r = append(r, h2)
								continue
							}
							for _, e := range x.bodies(n-3-i-j, loop) {
								r = append(r, h2+"|["+e+"]")
							}
						}
					}
				}
			}
		}
	}
	x.memo[k] = r
	return r
}

func (x *tspace) bodies(n int, loop bool) []string {
	if n < 0 {
		return nil
	}
	if n == 0 {
		return []string{""}
	}
	k := fmt.Sprint("b", n, loop)
	if r, ok := x.memo[k]; ok {
		return r
	}
	var r []string
	for i := 1; i <= n; i++ {
		for _, f := range x.nodes(i, loop) {
			for _, b := range x.bodies(n-i, loop) {
				if f == "t" && strings.HasPrefix(b, "t") {
					continue
				}
				r = append(r, f+b)
			}
		}
	}
	x.memo[k] = r
	return r
}

// plain texts and variables for the leaves
var ttexts = []string{"x", " ", "\n", ".", ". ", "!if", "!p x", "!", "!end", "é日", "100%", "(a)", "[0]", "{0}", "#c", "\\", "\"q\"", "'", "<b>", "end", "a.b", "$\\", "\t", "x=y", "\r\n", "_", "]", ")", "}", "-5", "!e", "!t", ", ", "&amp;", "7", "!string", "`"}

var tvars = []struct {
	text string
	out  func(e *tenv) string
}{
	{"$a", nil}, {"${a}", nil}, {"${ a }", nil}, {"$d.k", nil}, {"${d.k}", nil}, {"$l[1]", nil}, {"$missing", nil}, {"${missing.x}", nil}, {"$d.'k k'", nil}, {"$n", nil}, {"$r", nil}, {"$t", nil},
	{"${d}", nil}, {"$s{1}", nil}, {"$(a)", nil}, {"$l[n-6]", nil}, {"${tt}", nil}, {"${l[2]}", nil}, {"$l", nil}, {"$e", nil}, {"$(n + 1 == 8)", nil},
}

var tvals = []string{"A", "A", "A", "K", "K", "y", "", "", "KK", "7", "2.5", "true", "?d", "2", "", "y", "x <b> $ 'q'", "z", "?l", "", ""}

func tvalue(i int) string {
	switch tvals[i] {
	case "?d":
		return tconst.child("d").graph().Text()
	case "?l":
		return tconst.child("l").graph().Text()
	}
	return tvals[i]
}

// canFollow tells if a text can follow a variable without being part of it
func canFollow(v int, text, next string) bool {
	if strings.HasSuffix(tvars[v].text, "}") && tvars[v].text[1] == '{' || tvars[v].text[1] == '(' {
		return true
	}
	if text == "" {
		return true
	}
	switch c := text[0]; {
	case c == '.':
		return len(text) > 1 && text[1] == ' ' || len(text) == 1 && next == ""
	case strings.IndexByte("[{('\"`", c) >= 0, c > 127, ogdl.IsLetter(rune(c)), ogdl.IsDigit(rune(c)):
		return false
	}
	return true
}

func c20render(c *C, src, want string) {
	c.Step(1)
	for i, t := range []*ogdl.Graph{ogdl.NewTemplate(src), ogdl.NewTemplateFromBytes([]byte(src))} {
		if got := string(t.Process(tconst.graph())); got != want {
			c.Failf("template %q%s: got %q, want %q", src, []string{"", " (bytes)"}[i], got, want)
		}
	}
}

func c20ast(c *C, body []*tn) {
	var b strings.Builder
	tsource(&b, body, 0)
	e := &tenv{vars: map[string]*vn{}, ctx: tconst, max: 1 << 20}
	e.run(body, 0)
	c20render(c, b.String(), e.out.String())
	if b.Len() < 60 {
		c.State(e.out.String())
	}
}

// c20ctxs gives the contexts of n nodes out of: v (no value, one, two), w, l, l of one
func c20ctxs(n string) [][]int {
	k, _ := strconv.Atoi(n)
	var r [][]int
	Seqs(6, k, func(ix []int) {
		for _, i := range ix {
			if i >= 4 {
				r = append(r, append([]int{}, ix...))
				return
			}
		}
	})
	return r
}

func c20named(c *C, l []int) {
	mk := func() *ogdl.Graph {
		g := ogdl.New("_")
		for i, k := range l {
			switch k {
			case 0:
				g.Add("v")
			case 1:
				g.Add("v").Add("v" + strconv.Itoa(i))
			case 2:
				n := g.Add("v")
				n.Add("p")
				n.Add("q").Add("r")
			case 3:
				g.Add("w").Add("w" + strconv.Itoa(i))
			case 4:
				n := g.Add("l")
				n.Add("x" + strconv.Itoa(i))
				n.Add("y")
				n.Add("x")
			case 5:
				g.Add("l").Add("o" + strconv.Itoa(i))
			}
		}
		return g
	}
	g := mk()
	list := g.Node("l").Strings()
	join := func(l []string, a, b string) string {
		s := ""
		for _, e := range l {
			s += a + e + b
		}
		return s
	}
	if len(list) == 0 {
		return
	}
	cross := ""
	for _, a := range list {
		for _, b := range list {
			cross += a + b + ","
		}
	}
	for _, t := range [][2]string{
		{"$for(v,l)$v,$end", join(list, "", ",")},
		{"$for(v,l)$for(w,l)$v$w,$end$end", cross},
		{"$for(v,l)$if(v=='y')Y$else$v$end,$end", strings.ReplaceAll(join(list, "", ","), "y", "Y")},
		{"$for(v,l)$v$break$end", list[0]},
		{"$for(v,l)$v,$end$for(v,l)$v;$end", join(list, "", ",") + join(list, "", ";")},
		{"$for(w,l)$w,$end$for(v,l)$v;$end", join(list, "", ",") + join(list, "", ";")},
	} {
		c.Step(1)
		if s := string(ogdl.NewTemplate(t[0]).Process(mk())); s != t[1] {
			c.Failf("template %q with %s: got %q, want %q", t[0], GStr(mk()), s, t[1])
		}
	}
	// a loop over the nodes that have the name of the variable
	if v := g.Node("v"); v.Len() == 1 {
		c.Step(1)
		if s, want := string(ogdl.NewTemplate("$for(v,v)$v,$end").Process(mk())), v.Out[0].ThisString()+","; s != want {
			c.Failf("template $for(v,v)$v,$end with %s: got %q, want %q", GStr(mk()), s, want)
		}
	}
}

var tfull = "ABCDEFGHIJKLMN"

var c20 = &Prop{
	ID:     "C20",
	Rule:   "every template up to N constructs (text, variable, break, if with any chain of elseif and else, for; any nesting; bodies also empty) over conditions and lists that depend on the loop variables, rendered and compared with a reference interpreter; every sequence of up to 3 leaves out of 37 texts and 21 forms of variables, at the top, in branches and in loops; every pair of 15 conditions and 18 lists in nested positions. Every context of up to 4 nodes with and without nodes named like the loop variable; bodies that extend, cut, empty or replace the list that is looped over. Sweeps: long texts, long chains, deep nesting, loops over up to thousands of elements. The context as the list; texts, chains and loops of up to 1 M.",
	Bounds: "quick: N=5 (2 conditions, 2 lists) and N=6 (1 and 1), leaves 2 everywhere and 3 at the top; thorough: N=7 (1 and 1), N=5 with 3 conditions and 3 lists, leaves 3 everywhere",
	Assume: []string{"loop variables of nested loops have different names and are not used after their loop", "break occurs in loops", "text that follows $name does not begin with a character that continues a path"},
	Gen: func(thorough bool, emit func(string)) {
		nl := len(ttexts) + len(tvars)
		for i := 0; i < nl; i++ {
			emit(fmt.Sprintf("l %d", i))
		}
		for _, k := range sweep(thorough) {
			emit(fmt.Sprintf("w %d", k))
		}
		for _, k := range huge {
			emit(fmt.Sprintf("w %d", k))
		}
		for i := 0; i <= 40; i++ {
			emit(fmt.Sprintf("g %d", i))
		}
		k := 4
		if thorough {
			k = 5
		}
		for i := 0; i <= 5; i++ {
			emit(fmt.Sprintf("t %d", i))
		}
		for i := 1; i <= k; i++ {
			emit(fmt.Sprintf("c %d", i))
		}
		for _, k := range []int{0, 1, 10, 1000, 4097, 10001, 16385, 32769, 65537, 100001} {
			emit(fmt.Sprintf("L %d", k))
		}
		for i := range tconds {
			for j := range tlists {
				emit(fmt.Sprintf("m %d %d", i, j))
			}
		}
		gen := func(conds, lists string, n int) {
			x := &tspace{conds: conds, lists: lists, memo: map[string][]string{}}
			for k := 0; k <= n; k++ {
				for _, b := range x.bodies(k, false) {
					emit("a" + b)
				}
			}
		}
		if thorough {
			gen("BCD", "ABF", 5)
			gen("B", "A", 7)
		} else {
			gen("BD", "AC", 5)
			gen("B", "A", 6)
		}
	},
	Run: func(c *C, desc string) {
		switch desc[0] {
		case 'a':
			id := 0
			body, _ := tparse(desc[1:], &id)
			c20ast(c, body)
		case 'l':
			f := strings.Fields(desc)
			first, _ := strconv.Atoi(f[1])
			nl := len(ttexts) + len(tvars)
			leaf := func(i int) *tn {
				if i < len(ttexts) {
					t := ttexts[i]
					if t == "$\\" {
						return &tn{k: 't', text: t, out: func(*tenv) string { return "$" }}
					}
					return &tn{k: 't', text: t}
				}
				i -= len(ttexts)
				return &tn{k: 'v', text: tvars[i].text, id: i, out: func(*tenv) string { return tvalue(i) }}
			}
			okSeq := func(s []*tn) bool {
				for i, n := range s {
					if n.k != 'v' {
						continue
					}
					t, next := "", ""
					for j := i + 1; j < len(s); j++ {
						x := s[j].text
						if s[j].k == 'v' && j == i+1 {
							break
						}
						if j == i+1 {
							t = x
						} else {
							next = x
						}
					}
					if t == "$\\" {
						t = ""
					}
					if !canFollow(n.id, t, next) {
						return false
					}
				}
				return true
			}
			seqs := func(n int, f func(s []*tn)) {
				Seqs(nl, n, func(ix []int) {
					s := []*tn{leaf(first)}
					for _, i := range ix {
						s = append(s, leaf(i))
					}
					if okSeq(s) {
						f(s)
					}
				})
			}
			for n := 0; n <= 2; n++ {
				seqs(n, func(s []*tn) {
					c20ast(c, s)
					if n == 2 && !tierThorough() {
						return
					}
					last := s[len(s)-1]
					if last.k == 't' && strings.HasPrefix(last.text, ".") && len(s) > 1 && s[len(s)-2].k == 'v' {
						return
					}
					sep := &tn{k: 't', text: "-"}
					// a directive is a path: a text that continues one needs something between
					s2 := append([]*tn{sep}, s...)
					if s[0].k == 'v' {
						c20ast(c, []*tn{{k: '?', cond: []int{2, 0}, body: [][]*tn{{sep}, s2}, els: true}, sep})
						c20ast(c, []*tn{{k: '*', list: 0, body: [][]*tn{s2}}, sep})
					} else if t := s[0].text; !canFollow(0, t, "") || t[0] == '.' {
						s = s2
					}
					c20ast(c, []*tn{{k: '?', cond: []int{0}, body: [][]*tn{s}}, sep})
					c20ast(c, []*tn{{k: '*', list: 0, body: [][]*tn{s}}, sep})
					c20ast(c, []*tn{{k: '?', cond: []int{2, 0}, body: [][]*tn{{sep}, s}}, sep})
				})
			}
		case 'm':
			f := strings.Fields(desc)
			i, _ := strconv.Atoi(f[1])
			j, _ := strconv.Atoi(f[2])
			id := 0
			C, L := string(rune('A'+i)), string(rune('A'+j))
			var all []string
			for _, l := range []string{"*" + L + "[?" + C + "[tvb]|[v]t]", "*D[*" + L + "[?" + C + "[t]v]]", "*D[*F[*" + L + "[?" + C + "[vb]:B[t]|[v]]v]]", "*M[?" + C + "[v]*" + L + "[v]]", "*" + L + "[*" + L + "[v?" + C + "[b]]]", "*" + L + "[vt]"} {
				all = append(all, l)
			}
			// conditions with the loop variable only in loops
			if !strings.Contains(tconds[i].text, "V") {
				all = append(all, "?"+C+"[*"+L+"[v]]|[t]", "?C[t]:"+C+"[*"+L+"[vb]]:A[v]|[t]v")
			}
			for _, s := range all {
				if strings.HasPrefix(s, "*"+L) && strings.Contains(tlists[j].text, "V") || strings.Contains(s, "*"+L+"[v]]|") && strings.Contains(tlists[j].text, "V") || strings.Contains(s, "*"+L+"[vb]]:A") && strings.Contains(tlists[j].text, "V") {
					continue
				}
				// comparisons of numbers and graphs with strings are not specified
				if k := tconds[i].text; strings.Contains(k, "V") && !cleanLoop(s, i, j) {
					continue
				}
				body, _ := tparse(s, &id)
				c20ast(c, body)
			}
		case 'w':
			n, _ := strconv.Atoi(desc[2:])
			x := strings.Repeat("x", n)
			c20render(c, x, x)
			c20render(c, x+"$a."+" "+x+"$if(t)"+x+"-$end-"+x, x+"A. "+x+x+"--"+x)
			if n > 131073 {
				return
			}
			c20render(c, strings.Repeat("$a-", n), strings.Repeat("A-", n))
			if n <= 3000 {
				c20render(c, strings.Repeat("$if(t)-", n)+"$a"+strings.Repeat("$end", n), strings.Repeat("-", n)+"A")
				c20render(c, strings.Repeat("$if(f)-$else+", n)+"$a"+strings.Repeat("$end ", n), strings.Repeat("+", n)+"A"+strings.Repeat(" ", n))
				s := "$if(f)-"
				for i := 0; i < n; i++ {
					s += "$elseif(n==" + strconv.Itoa(i+7+n) + ")" + strconv.Itoa(i)
				}
				c20render(c, s+"$elseif(n==7)ok$elseif(t)-$else-$end-", "ok-")
				c20render(c, strings.Repeat("$if(t)x$end ", n), strings.Repeat("x ", n))
				c20render(c, strings.Repeat("$for(v,l)$v$break$end ", n), strings.Repeat("x ", n))
			}
			if n <= 100 {
				s, e := "", ""
				for i := 0; i < n; i++ {
					s += fmt.Sprintf("$for(w%d,one)", i)
					e = "$end" + e
				}
				if n > 0 {
					c20render(c, s+"$w0-"+e, "o-")
				}
			}
			g := ogdl.New("_")
			l := g.Add("l")
			var b strings.Builder
			w, w2 := "", ""
			for i := 0; i < n; i++ {
				if i == n/2 {
					w2 = b.String()
				}
				l.Add(i)
				b.WriteString(strconv.Itoa(i) + ",")
			}
			w = b.String()
			g.Add("h").Add(n / 2)
			c.Eq("loop over "+desc, string(ogdl.NewTemplate("$for(v,l)$v,$end").Process(g)), w)
			c.Eq("loop with break over "+desc, string(ogdl.NewTemplate("$for(v,l)$if(v==h)$break$end$v,$end").Process(g)), w2)
		case 'c':
			// contexts where there are nodes with the name of the loop variable
			f := strings.Fields(desc)
			for _, l := range c20ctxs(f[1]) {
				c20named(c, l)
			}
		case 'g':
			// bodies that change the list: the elements are those at the start
			n, _ := strconv.Atoi(desc[2:])
			want := ""
			for i := 0; i < n; i++ {
				want += strconv.Itoa(i) + ","
			}
			for _, body := range []string{"$grow(1)", "$if(grow(1))$end", "$(l='flat')", "$(l[" + strconv.Itoa(n+1) + "]='far')", "$(l[" + strconv.Itoa(n) + "]='next')", "$(x=l)$(x[" + strconv.Itoa(n) + "]='next')", "$(l='')", "$(m=v)", "$(l.new='x')", "$(new=v)$(new2=v)$(new3=v)", "$cut(1)", "$empty(1)", "$(l=two)", "$(l=one)", "$refill(1)", "$clear(1)", "$set(1)", "$(l=two)$(l=one)$(l=v)"} {
				for _, src := range []string{"$for(v,l)$v," + body + "$end", "$for(v,l)" + body + "$v,$end", "$for(u,one)$for(v,l)" + body + "$v,$end$end", "$for(v,l)$for(w,one)" + body + "$end$v,$end"} {
					g := ogdl.New("_")
					g.Add("v").Add("before")
					l := g.Add("l")
					for i := 0; i < n; i++ {
						l.Add(i)
					}
					g.Add("one").Add("o")
					g.Add("v").Add("before 2")
					k := 0
					g.Add("grow").Add(func(int64) string {
						if k++; k > 4*n+20 {
							return ""
						}
						l.Add("grown")
						return ""
					})
					g.Add("cut").Add(func(int64) string {
						if l.Len() > 0 {
							l.Out = l.Out[:l.Len()-1]
						}
						return ""
					})
					g.Add("two").AddNodes(ogdl.FromString("r\ns\nt u"))
					g.Add("clear").Add(func(int64) string {
						l.Clear()
						return ""
					})
					g.Add("refill").Add(func(int64) string {
						m := l.Len() + 1
						l.Clear()
						for i := 0; i < m && i < 50; i++ {
							l.Add("new")
						}
						return ""
					})
					g.Add("set").Add(func(int64) string {
						l.Set("[0]", "set")
						return ""
					})
					g.Add("empty").Add(func(int64) string {
						l.Out = nil
						return ""
					})
					c.Step(1)
					if s := string(ogdl.NewTemplate(src).Process(g)); s != want {
						c.Failf("template %q with a list of %d: got %q, want %q", src, n, s, want)
					}
				}
			}
		case 't':
			// the context itself as the list
			k, _ := strconv.Atoi(desc[2:])
			Seqs(4, k, func(ix []int) {
				for _, t := range []string{"$for(v,_this)$v,$end", "$for(v,_this)$if(v=='q')$end$v,$end", "$for(v,_this)$(x='y')$v,$end", "$for(v,_this)$v$break$end,"} {
					g := ogdl.New("_")
					want := ""
					for i, x := range ix {
						n := []string{"p", "q", "u", "w" + strconv.Itoa(i)}[x]
						g.Add(n)
						if i == 0 || !strings.Contains(t, "break") {
							want += n + ","
						}
					}
					if k == 0 && strings.Contains(t, "break") {
						want = ","
					}
					c.Step(1)
					if s := string(ogdl.NewTemplate(t).Process(g)); s != want {
						c.Failf("template %q with %v: got %q, want %q", t, ix, s, want)
					}
				}
			})
		case 'L':
			// very many elements; the same node several times
			n, _ := strconv.Atoi(desc[2:])
			g := ogdl.New("_")
			l := g.Add("l")
			x := ogdl.New("x")
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					l.Add(i)
				} else {
					l.Add(x)
				}
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					b.WriteString(strconv.Itoa(i) + ",")
				} else {
					b.WriteString("x,")
				}
			}
			g.Add("m").AddNodes(l)
			c.Step(3)
			c.Eq("loop over "+desc, clipDoc(string(ogdl.NewTemplate("$for(v,l)$v,$end").Process(g))), clipDoc(b.String()))
			if s := ogdl.NewTemplate("$for(v,l)$v,$end").Process(g); string(s) != b.String() {
				c.Failf("loop over %d elements gives %d bytes, want %d", n, len(s), b.Len())
			}
			if s := ogdl.NewTemplate("$for(v,l)-$for(w,m)$w$break$end$end").Process(g); n > 0 && string(s) != strings.Repeat("-0", n) {
				c.Failf("nested loop with break over %d elements gives %d bytes, want %d", n, len(s), 2*n)
			}
		}
	},
}

func tierThorough() bool { return Tier() }

// cleanLoop: does the innermost variable hold what the condition can be asked of?
func cleanLoop(s string, cond, list int) bool {
	str := func(l int) bool {
		switch tlists[l].text {
		case "l", "e", "one", "ll[0]", "ll[1]", "d.k", "s{}", "missing", "l[7]":
			return true
		}
		return false
	}
	if cond == 14 {
		return strings.HasPrefix(s, "*M[?") || tlists[list].text == "ints" && !strings.Contains(s, "B[")
	}
	if strings.HasPrefix(s, "*M[?") {
		return false
	}
	return str(list)
}
