package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
)

// Every Unicode character (in blocks of 256) and every single byte (block -1)
// goes through the properties that speak about arbitrary text.

func runeBlocks(thorough bool) []int {
	r := []int{-1}
	if thorough {
		for b := 0; b < 0x1100; b++ {
			if b < 0xd8 || b > 0xdf {
				r = append(r, b)
			}
		}
		return r
	}
	for b := 0; b <= 0x33; b++ {
		r = append(r, b)
	}
	return append(r, 0x4e, 0xa7, 0xac, 0xd7, 0xe0, 0xf8, 0xfb, 0xfd, 0xfe, 0xff, 0x100, 0x1d4, 0x1f6, 0xe00, 0xe01, 0xfff, 0x10ff)
}

func runeTexts(b int) (r []string) {
	if b < 0 {
		for i := 0; i < 256; i++ {
			r = append(r, string([]byte{byte(i)}))
		}
		return append(r, "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xfe\xff", "\xf4\x90\x80\x80", "\x80\x80")
	}
	for i := 0; i < 256; i++ {
		r = append(r, string(rune(b*256+i)))
	}
	return
}

func withRunes(p *Prop, run func(c *C, s string)) {
	withRuneBlocks(p, func(c *C, t []string) {
		for _, s := range t {
			run(c, s)
		}
	})
}

func withRuneBlocks(p *Prop, run func(c *C, t []string)) {
	gen, orig := p.Gen, p.Run
	p.Rule += " Also every Unicode character and every single byte, alone and next to others (quick: 69 blocks of 256, among them all below U+3400; thorough: all)."
	p.Gen = func(thorough bool, emit func(string)) {
		gen(thorough, emit)
		for _, b := range runeBlocks(thorough) {
			emit("U:" + strconv.Itoa(b))
		}
	}
	p.Run = func(c *C, desc string) {
		if !strings.HasPrefix(desc, "U:") {
			orig(c, desc)
			return
		}
		b, _ := strconv.Atoi(desc[2:])
		run(c, runeTexts(b))
	}
}

func low(s string) bool  { return s[0] < 32 }
func ctrl(s string) bool { return s[0] < 32 && s != "\t" && s != "\n" }

func init() {
	one := func(v ...string) *T {
		t := N("_")
		for _, s := range v {
			t.Add(s)
		}
		return t
	}

	withRunes(c02, func(c *C, s string) {
		if !low(s) && s != " " {
			for _, x := range []string{s, s + "a", "a" + s, "a" + s + "b"} {
				if !bareWord(x) || x == "#" {
					continue
				}
				for i := 0; i < nContexts; i++ {
					doc, eol, final := context(i, w(x))
					c02check(c, doc, eol, final)
				}
			}
			b := sc{text: func(ind string) string {
				return "\\\n" + ind + " " + s + "x\n" + ind + " y" + s + "\n" + ind + " " + s
			}, content: s + "x\ny" + s + "\n" + s}
			c02check(c, []dl{{"", []sc{w("t")}}, {" ", []sc{w("a"), b}}, {" ", []sc{w("y")}}, {"", []sc{w("z")}}}, "\n", true)
		}
		if ctrl(s) || s == "\r" {
			return
		}
		for _, d := range []byte("\"'`") {
			for _, x := range []string{s, s + "a", "a" + s + " b"} {
				q, ok := quoted(d, x)
				if !ok {
					continue
				}
				for i := 0; i < nContexts; i++ {
					doc, eol, final := context(i, q)
					c02check(c, doc, eol, final)
				}
			}
		}
		if s != "\n" && s != " " && s != "\t" {
			c02check(c, []dl{{"", []sc{w("t"), {text: func(string) string { return "# " + s + "c" + s }, comment: true}}}, {" ", []sc{w("a")}}, {"", []sc{w("z")}}}, "\n", true)
		}
	})

	withRunes(c03, func(c *C, s string) {
		if ctrl(s) {
			return
		}
		doc := "a " + s + " b" + s + "\n  c '" + s + "'\n" + s + "d\n"
		want := GFull(ogdl.FromString(doc))
		for _, k := range []int{1, 2, 3} {
			c.Step(1)
			var parts []string
			for i := 0; i < len(doc); i += k {
				parts = append(parts, doc[i:min(i+k, len(doc))])
			}
			c.Eq(fmt.Sprintf("%q read %d bytes at a time", doc, k), GFull(ogdl.FromReader(&segReader{parts: parts, eofWith: k == 2})), want)
		}
	})

	withRunes(c04, func(c *C, s string) {
		if ctrl(s) {
			return
		}
		for _, x := range []string{s, s + "a", "a" + s, "a b" + s, s + " ", "\n" + s, s + "\n" + s, s + "\"" + s, s + "'\"" + s} {
			if c04ok(x) {
				c04check(c, N("_", N("w", N(x, N("k"), N(x)), N(x))))
			}
		}
	})

	withRunes(c05, func(c *C, s string) {
		for _, k := range []byte("opet") {
			for _, x := range []string{s, s + "a", "a" + s, "a." + s, "$" + s, "(" + s + ")", "1" + s + "1", "'" + s, "a[" + s + "]"} {
				c05run(c, k, x)
			}
		}
	})

	withRunes(c06, func(c *C, s string) {
		if low(s) || s == " " {
			return
		}
		for _, x := range []string{s, s + "1", "1" + s, "1" + s + "5", "-" + s, "true" + s, s + "true"} {
			if bareWord(x) && x != "#" {
				for _, i := range []int{0, 2, 4, 7} {
					doc, eol, final := typedContext(i, tword(x))
					c06check(c, doc, eol, final)
				}
			}
			if q, ok := quoted('"', x); ok {
				doc, eol, final := typedContext(3, tsc(q, x))
				if v := q.content; v != "" && strings.IndexByte(x, '\\') < 0 {
					c06check(c, doc, eol, final)
				}
			}
		}
	})

	withRunes(c07, func(c *C, s string) {
		for _, x := range []interface{}{s, "a" + s, s + s, []byte(s), []byte("a" + s)} {
			g := ogdl.New("_")
			a := g.Add(x)
			a.Add(x).Add("b")
			g.Add("c").Add(x)
			t := one()
			k := Str(x)
			t.Add(k).Add(k).Add("b")
			t.Add("c").Add(k)
			c07check(c, g, t)
		}
	})

	withRuneBlocks(c09, func(c *C, t []string) {
		f, err := os.CreateTemp("", "log")
		if err != nil {
			panic(err)
		}
		f.Close()
		defer os.Remove(f.Name())
		l, err := ogdl.OpenLog(f.Name())
		if err != nil {
			panic(err)
		}
		l.SetSync(false)
		mk := func(s string) *ogdl.Graph {
			g := ogdl.New("_")
			g.Add("a" + s).Add(s + "b").Add(s)
			return g
		}
		var pos []int64
		for _, s := range t {
			pos = append(pos, l.Add(mk(s)))
		}
		at := int64(0)
		for i, s := range t {
			c.Step(1)
			if at != pos[i] {
				c.Failf("object %d (%q) at %d, want %d", i, s, pos[i], at)
			}
			g, n, err := l.Get(at)
			if want := GStr(mk(s)); GStr(g) != want || err != nil {
				c.Failf("Get of %q: %s (%v), want %s", s, GStr(g), err, want)
			}
			at = n
		}
		l.Close()
	})

	withRunes(c11, func(c *C, s string) {
		if ctrl(s) || s == "\r" {
			return
		}
		for _, x := range []string{s, "a" + s, s + "1"} {
			f := quoteName(x)
			// outside ASCII only letters and digits need no quotes
			if plainName(x) && isLetterDigit(x) {
				f = append(f, x)
			}
			g := ogdl.New("_")
			g.Add("z").Add("1")
			n := g.Add(x)
			n.Add("z").Add("2")
			n.Add(x).Add("3")
			n.Add(x).Add("4")
			h := ogdl.New("_")
			h.Add("z").AddNodes(g)
			z := pe{k: 'n', name: "z"}
			for _, t := range f {
				e := pe{k: 'n', name: x, text: t}
				for _, p := range [][]pe{{e}, {e, e}, {e, z}, {e, e, {k: 's', ix: 1}}, {e, {k: 'i', ix: 1}}} {
					c11check(c, g, newPpath(p, false))
				}
				c11check(c, h, newPpath([]pe{z, e}, false))
				c11check(c, h, newPpath([]pe{z, e, e}, false))
			}
		}
	})

	withRunes(c12, func(c *C, s string) {
		if ctrl(s) || s == "\r" {
			return
		}
		for _, x := range []string{s, "a" + s} {
			if x == "k" || x == "m" {
				continue
			}
			for _, q := range quoteName(x) {
				c.Step(1)
				g := ogdl.New("_")
				g.Add("k").Add("1")
				g.Set(q, "v")
				g.Set("m."+q, s)
				g.Set(q, "w"+s)
				if got, want := GStr(g), N("_", N("k", N("1")), N(x, N("w"+s)), N("m", N(x, N(s)))).Str(); got != want {
					c.Failf("Set(%s): %s, want %s", q, got, want)
				}
			}
		}
	})

	withRunes(c13, func(c *C, s string) {
		c.Step(6)
		g := ogdl.New("_")
		a := g.Add(s)
		b := g.Add("a" + s)
		if g.NodeOrNew(s) != a || g.NodeOrNew("a"+s) != b || g.Create(s) != a || g.Len() != 2 {
			c.Failf("get-or-create of %q", s)
		}
		a.Add(s)
		g.Substitute(s, s+"z")
		h := ogdl.New("_")
		h.Merge(g)
		h.Delete("a" + s)
		if got, want := GStr(h), N("_", N(s+"z", N(s+"z"))).Str(); got != want {
			c.Failf("edits with %q: %s, want %s", s, got, want)
		}
		h.NodeSet(s, s)
		if got, want := GStr(h), N("_", N(s+"z", N(s+"z")), N(s, N(s))).Str(); got != want {
			c.Failf("NodeSet of %q: %s, want %s", s, got, want)
		}
	})

	withRunes(c14, func(c *C, s string) {
		c.Step(4)
		g, h := one(s, "a"+s).Graph(), one(s, "a"+s+"b").Graph()
		if k := g.Clone(); GTyped(k) != GTyped(g) || !k.Equals(g) || !g.Equals(k) {
			c.Failf("a clone of %s is %s", GTyped(g), GTyped(k))
		}
		if g.Equals(h) || h.Equals(g) {
			c.Failf("%s equals %s", GTyped(g), GTyped(h))
		}
		k := ogdl.New("_")
		k.Copy(g)
		if GTyped(k) != GTyped(g) {
			c.Failf("a copy of %s is %s", GTyped(g), GTyped(k))
		}
	})

	withRunes(c16, func(c *C, s string) {
		for _, v := range []interface{}{s, "1" + s, s + "1", []byte(s), []byte("1" + s), "true" + s} {
			if v == "+1" || v == "1+" {
				continue
			}
			g := ogdl.New("g")
			g.Add(v)
			root := ogdl.New("_")
			root.Out = append(root.Out, g)
			c16one(c, v, "character", g, root, "g")
		}
	})

	withRunes(c18, func(c *C, s string) {
		if low(s) || strings.ContainsAny(s, "'\"`\\") {
			return
		}
		c.Step(3)
		g := ogdl.New("_")
		g.Add("v").Add(s)
		for src, want := range map[string]interface{}{
			"'" + s + "'+'a" + s + "'":        s + "a" + s,
			"'a" + s + "'=='a" + s + "'":      true,
			"v=='" + s + "'":                  true,
			"v!='" + s + "'":                  false,
			"v=='a" + s + "'":                 false,
			"(\"b" + s + "b\"+v)+'" + s + "'": "b" + s + "b" + s + s,
		} {
			r, err := g.Eval(ogdl.NewExpression(src))
			if x, ok := r.(string); ok && x == want || r == want {
				continue
			}
			if strings.IndexAny(s, "0123456789") == 0 && len(s) == 1 {
				continue // numeric strings
			}
			c.Failf("expression %q with v=%q: %s (%v), want %s", src, s, Content(r), err, Content(want))
		}
		if !isLetterDigit(s) || s[0] >= '0' && s[0] <= '9' {
			return
		}
		for _, n := range []string{s, s + "a", "a" + s, s + "1"} {
			g := ogdl.New("_")
			g.Add(n).Add(20)
			g.Add(n + "z").Add(n).Add(5)
			for src, want := range map[string]int64{n: 20, n + "+1": 21, "-" + n: -20, "(" + n + ")*2": 40, "2*(" + n + "-" + n + "z." + n + ")": 30, n + "z." + n + "+" + n + "%3": 7} {
				c.Step(1)
				r, err := g.Eval(ogdl.NewExpression(src))
				if x, ok := ogdl.New("_").Add(r).ThisNumber().(int64); !ok || x != want {
					c.Failf("expression %q with %s = 20: %s (%v), want %d", src, n, Content(r), err, want)
				}
			}
		}
	})

	withRunes(c19, func(c *C, s string) {
		if low(s) || strings.ContainsAny(s, "'\"`\\") || len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
			return
		}
		c.Step(1)
		g := ogdl.New("_")
		g.Add("k").Add("1")
		for _, e := range []string{"a.'" + s + "'='x" + s + "'", "b='" + s + "'", "b+='" + s + "y'", "a.'" + s + "'+='z'"} {
			g.Eval(ogdl.NewExpression(e))
		}
		if got, want := GStr(g), N("_", N("k", N("1")), N("a", N(s, N("x"+s+"z"))), N("b", N(s+s+"y"))).Str(); got != want {
			c.Failf("assignments with %q: %s, want %s", s, got, want)
		}
	})

	withRunes(c20, func(c *C, s string) {
		if ctrl(s) && s != "\r" {
			return
		}
		g := ogdl.New("_")
		g.Add("v").Add(s)
		g.Add("w").Add("a" + s)
		l := g.Add("l")
		l.Add(s)
		l.Add("b" + s)
		type tc struct{ src, want string }
		t := []tc{{"${v}", s}, {"<$w>", "<a" + s + ">"}, {"$for(i,l)<$i>$end", "<" + s + "><b" + s + ">"}}
		if s != "$" {
			t = append(t, tc{s, s}, tc{"a" + s + "b", "a" + s + "b"}, tc{s + "${v}" + s, s + s + s}, tc{"$if(1==1) " + s + "$else x" + s + "$end " + s, " " + s + " " + s}, tc{"$for(i,l) " + s + "$end", " " + s + " " + s})
			if s != "\\" {
				t = append(t, tc{"$\\" + s, "$" + s})
			}
		}
		for _, x := range t {
			c.Step(1)
			for i, p := range []*ogdl.Graph{ogdl.NewTemplate(x.src), ogdl.NewTemplateFromBytes([]byte(x.src))} {
				if got := string(p.Process(g.Clone())); got != x.want {
					c.Failf("template %q (%d) with v=%q: got %q, want %q", x.src, i, s, got, x.want)
				}
			}
		}
	})

	withRunes(c21, func(c *C, s string) {
		src := "a" + s + "$v" + s + "$if(v=='" + s + "')" + s + "$end"
		for _, k := range []string{"x", s} {
			c.Step(1)
			g := ogdl.New("_")
			g.Add("v").Add(k)
			p := ogdl.NewTemplate(src)
			b := ogdl.NewTemplateFromBytes([]byte(src))
			if GFull(p) != GFull(b) {
				c.Failf("template %q from a string and from bytes: %s, %s", src, GFull(p), GFull(b))
			}
			x, y, z := p.Process(g), p.Process(g), b.Process(g)
			if !bytes.Equal(x, y) || !bytes.Equal(x, z) {
				c.Failf("template %q: %q, again %q, from bytes %q", src, x, y, z)
			}
		}
	})

	withRunes(c23, func(c *C, s string) {
		c23doc(c, "[\""+s+"\",\"a"+s+"b\"]")
		c23doc(c, "{\""+s+"\":1,\"b"+s+"\":\""+s+"c\"}")
		c23doc(c, "[1"+s+"]")
		c23doc(c, s+"[1]")
		r, n := utf8.DecodeRuneInString(s)
		if n != len(s) || r == utf8.RuneError && n == 1 {
			return
		}
		for _, f := range []string{"\\u%04x", "\\u%04X"} {
			e := fmt.Sprintf(f, r)
			if r > 0xffff {
				e = fmt.Sprintf(f+f, 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff)
			}
			c23doc(c, "[\""+e+"\",\"a"+e+"b\",{\""+e+"\":true}]")
		}
	})

	withRunes(c24, func(c *C, s string) {
		if s == "_" {
			return
		}
		c24graph(c, recd(kv(s, "x"+s), kv("k"+s, s), kv("z", s+"\"y")))
		c24graph(c, recd(&vn{v: "a" + s, k: []*vn{kv(s, s), kv("y", []byte(s))}}, kv("b", int64(1))))
	})

	withRunes(c25, func(c *C, s string) {
		r, n := utf8.DecodeRuneInString(s)
		if n != len(s) || r == utf8.RuneError && n == 1 || !(r == '\t' || r == '\n' || r >= 32 && r < 0xd800 || r >= 0xe000 && r <= 0xfffd || r > 0xffff) {
			return
		}
		e := map[string]string{"<": "&lt;", "&": "&amp;", "\"": "&quot;"}[s]
		if e == "" {
			e = s
		}
		for _, x := range []string{e, fmt.Sprintf("&#%d;", r), fmt.Sprintf("&#x%X;", r)} {
			c.Step(1)
			doc := "<a b=\"x" + x + "y\">z" + x + "w<c>v" + x + "u</c></a>"
			want := N("_", N("a", N("@b", N("x"+s+"y")), N("z"+s+"w"), N("c", N("v"+s+"u")))).Str()
			if got := GStr(gxml.FromXML([]byte(doc))); got != want {
				c.Failf("FromXML(%q): %s, want %s", doc, got, want)
			}
		}
	})

	withRunes(c30, func(c *C, s string) {
		if s == "!" {
			return
		}
		for _, v := range [][2]string{{s, s}, {s, s + "x"}, {s + "x", s}, {"a" + s, "a" + s}, {"a" + s, "a"}} {
			a, b := recd(&vn{v: v[0], k: []*vn{{v: "!string"}}}), recd(&vn{v: v[1], k: []*vn{{v: s}}})
			c30check(c, fmt.Sprintf("%q", v), a, b, a.graph(), b.graph())
		}
	})

	withRuneBlocks(c31, func(c *C, t []string) {
		for v := 0; v < 3; v++ {
			g := ogdl.New("_")
			count := map[string]int{}
			for i := range t {
				s := t[(i*97+v)%len(t)]
				count[s]++
				g.Add("r").Add("k").Add("a" + s)
			}
			switch v {
			case 0:
				g.Sort("k")
			case 1:
				g.SortAsString("k")
			case 2:
				g.Sort("'k'")
			}
			last := ""
			for _, r := range g.Out {
				c.Step(1)
				s := Str(r.Out[0].Out[0].This)
				if s < last {
					c.Failf("Sort: %q before %q", last, s)
				}
				last = s
				count[s[1:]]--
			}
			for s, n := range count {
				if n != 0 {
					c.Failf("Sort: %q is lost or repeated (%d)", s, n)
				}
			}
		}
	})

	withRunes(c32, func(c *C, s string) {
		c.Step(1)
		e := &ogdl.SimpleEventHandler{}
		e.Add(s)
		e.Inc()
		e.Add("a" + s)
		e.AddBytes([]byte(s))
		e.AddAt(s+s, 2)
		e.AddItf(s)
		want := N("_", N(s, N("a"+s), N(s, N(s+s)), N(s))).Str()
		for i := 0; i < 2; i++ {
			if got := GStr(e.Tree()); got != want {
				c.Failf("events with %q: %s, want %s", s, got, want)
			}
		}
	})

	withRunes(c33, func(c *C, s string) {
		if low(s) || strings.ContainsAny(s, "'\"`\\") {
			return
		}
		for _, src := range []string{"obj.Str('a" + s + "')", "obj.Str(\"a" + s + "\")", "obj.Str('a' + '" + s + "')"} {
			if len(s) == 1 && s[0] >= '0' && s[0] <= '9' && strings.Contains(src, "+") {
				continue
			}
			c.Step(1)
			r, err := c33g.Eval(ogdl.NewExpression(src))
			if r != "<a"+s+">" || err != nil {
				c.Failf("%s: %s (%v)", src, Content(r), err)
			}
			if o := string(ogdl.NewTemplate("$" + src).Process(c33g)); o != "<a"+s+">" {
				c.Failf("template $%s: %q", src, o)
			}
		}
	})

	withRunes(c35, func(c *C, s string) {
		for _, x := range []string{s, s + "a", "1" + s, " " + s, "\"" + s + "\"", "#" + s, "\\" + s, "-" + s} {
			for o := range lexOps {
				c35run(c, 0, x, []int{o}, nil)
				c35run(c, 4095, x, []int{o}, nil)
			}
		}
	})

	withRunes(c36, func(c *C, s string) {
		c36run(c, []interface{}{"x", s, s + "a", []byte("b" + s), []byte(s), ""}, nil)
	})

	withRunes(c37, func(c *C, s string) {
		if low(s) || strings.ContainsAny(s, " '\",()") {
			return
		}
		t := N("_", N(s, N("a"+s, N(s))), N(s+"b"))
		c37check(c, t, t.Graph())
	})
}

func isLetterDigit(s string) bool {
	for _, r := range s {
		if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') {
			return false
		}
	}
	return s != ""
}
