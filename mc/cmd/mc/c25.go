package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl/io/gxml"
)

// xmln is a node of an XML document
type xmln struct {
	k    byte // e element, t text, c comment, p processing instruction, d CDATA
	name int
	att  []int
	text string // as written
	val  string // as meant
	k2   []*xmln
	sc   bool // <a/>
}

var xnames = []struct{ name, key string }{
	{"a", "a"}, {"b", "b"}, {"a-b", "a_b"}, {"é", "e"}, {"Ñandú-x", "Nandu_x"}, {"n:a", "a"}, {"_x.1", "_x.1"}, {"x--y-", "x__y_"}, {"日本", "日本"}, {"Åö", "Ao"}, {"e\u0301", "e"}, {"한", "한"}, {"if", "if"}, {"xml2", "xml2"}, {"A", "A"}, {"õ\u0323z", "oz"}, {"ß", "ß"}, {"Ǘ", "U"},
}

var xattrs = []struct{ text, name, val string }{
	{`x="1"`, "x", "1"}, {`y='b c'`, "y", "b c"}, {`x=""`, "x", ""}, {`a-b="é"`, "a-b", "é"}, {`x="&lt;&amp;&quot;'&#65;"`, "x", `<&"'A`}, {`n:z='"q"'`, "z", `"q"`}, {`id = "7"`, "id", "7"}, {` w="  s  "`, "w", "  s  "}, {`é="-"`, "é", "-"}, {`xmlns="u"`, "xmlns", "u"}, {"v=\"l1\nl2\"", "v", "l1\nl2"}, {`m:z="2nd"`, "z", "2nd"}, {`z="3rd"`, "z", "3rd"},
}

var xtexts = []struct{ text, val string }{
	{"t", "t"}, {" ", ""}, {"\n  ", ""}, {" a b ", "a b"}, {"l1\nl2", "l1\nl2"}, {"\tx\r\ny\r\n", "x\ny"}, {"&lt;b&gt; &amp; &quot;&apos;", "<b> & \"'"}, {"&#233;&#xe9;", "éé"}, {"é-日", "é-日"}, {"-", "-"}, {"@x", "@x"}, {"0", "0"}, {"'q'", "'q'"}, {"]]", "]]"}, {"&#32;", ""}, {"a=\"b\"", "a=\"b\""}, {">", ">"}, {"#c", "#c"}, {"\u00a0", ""}, {"a\u0301", "a\u0301"},
}

var xcdata = []struct{ text, val string }{{"<a>&amp;", "<a>&amp;"}, {" x ]] ", "x ]]"}, {"", ""}, {"  \n", ""}, {"c", "c"}}

func (n *xmln) write(b *strings.Builder) {
	switch n.k {
	case 't':
		b.WriteString(n.text)
	case 'c':
		b.WriteString("<!-- <x y='z'>c -->")
	case 'p':
		b.WriteString("<?pi <x> ?>")
	case 'd':
		b.WriteString("<![CDATA[" + n.text + "]]>")
	case 'e':
		b.WriteString("<" + xnames[n.name].name)
		for _, a := range n.att {
			b.WriteString(" " + xattrs[a].text)
		}
		if n.sc && len(n.k2) == 0 {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
		for _, k := range n.k2 {
			k.write(b)
		}
		b.WriteString("</" + xnames[n.name].name)
		if n.sc {
			b.WriteString("\n")
		}
		b.WriteString(">")
	}
}

// tree is what is expected; runs: is text on both sides of a comment one run?
func (n *xmln) tree(join bool) *T {
	t := N(xnames[n.name].key)
	for _, a := range n.att {
		t.Add("@" + xattrs[a].name).Add(xattrs[a].val)
	}
	run := ""
	flush := func() {
		if s := strings.TrimSpace(run); s != "" {
			t.Add(s)
		}
		run = ""
	}
	for _, k := range n.k2 {
		switch k.k {
		case 't', 'd':
			if !join {
				flush()
			}
			run += k.val
		case 'e':
			flush()
			t.K = append(t.K, k.tree(join))
		}
	}
	flush()
	return t
}

var xprolog = []string{"", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!DOCTYPE a [ <!ELEMENT a ANY> ]>\n<!-- c -->", "\n<?p?> "}

// c25sinks: contexts that collect the documents
var c25sinks sync.Map

func c25doc(c *C, n *xmln, pro int) {
	if f, ok := c25sinks.Load(c); ok {
		f.(func(*xmln, int))(n, pro)
		return
	}
	var b strings.Builder
	b.WriteString(xprolog[pro])
	n.write(&b)
	if pro > 1 {
		b.WriteString("\n<!-- end -->\n")
	}
	c.Step(1)
	doc := b.String()
	in := []byte(doc)
	g := gxml.FromXML(in)
	if string(in) != doc {
		c.Failf("FromXML(%q) changes its input", clipDoc(doc))
	}
	for i := range in {
		in[i] = '#'
	}
	got := GStr(g)
	c.Owned("FromXML("+strconv.Quote(clipDoc(doc))+")", g)
	w := N("_", n.tree(false)).Str()
	if got != w && got != N("_", n.tree(true)).Str() {
		c.Differ(fmt.Sprintf("FromXML(%q)", clipDoc(doc)), got, w)
	}
	if len(doc) < 40 {
		c.State(got)
	}
}

// xshapes lists all contents of a shape
func xshapes(lv []int, f func(k []*xmln)) {
	n := len(lv)
	// kinds: inner nodes are elements
	leaf := make([]bool, n)
	var ix []int
	for i := range lv {
		leaf[i] = i+1 == n || lv[i+1] <= lv[i]
		if leaf[i] {
			ix = append(ix, i)
		}
	}
	Seqs(6, len(ix), func(ks []int) {
		root := &xmln{k: 'e'}
		st := []*xmln{root}
		j := 0
		for i, l := range lv {
			st = st[:l+1]
			n := &xmln{k: 'e', name: i % 3}
			if leaf[i] {
				switch ks[j] {
				case 0:
					n.sc = true
				case 1:
				case 2:
					n = &xmln{k: 't', text: " t" + strconv.Itoa(i) + "\n", val: " t" + strconv.Itoa(i) + "\n"}
				case 3:
					n = &xmln{k: 't', text: "\n ", val: "\n "}
				case 4:
					n = &xmln{k: 'c'}
				case 5:
					n = &xmln{k: 'd', text: "d<" + strconv.Itoa(i), val: "d<" + strconv.Itoa(i)}
				}
				j++
			}
			st[l].k2 = append(st[l].k2, n)
			st = append(st, n)
		}
		// adjacent texts are one text
		if !xmerge(root) {
			return
		}
		f(root.k2)
	})
}

func xmerge(n *xmln) bool {
	for i, k := range n.k2 {
		if i > 0 && k.k == 't' && n.k2[i-1].k == 't' || !xmerge(k) {
			return false
		}
	}
	return true
}

func xt(i int) *xmln { return &xmln{k: 't', text: xtexts[i].text, val: xtexts[i].val} }

var xpunct = []string{"]", ">", "<", "-", "&", "!", "@", "#", "'", "\"", "`", "\\", "(", ",", "$", "?", "/", "=", "{", "[", "_", ":", ";", ".", " "}

var xescape = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "'", "&apos;", "\"", "&quot;")

// c25text: s as text, as attribute and as CDATA
func c25text(c *C, s string) {
	chk := func(doc string, want *T) {
		c.Step(1)
		c.Eq("FromXML of "+doc, GStr(gxml.FromXML([]byte(doc))), N("_", want).Str())
	}
	r := N("r", N("@x", N(s)))
	if t := strings.TrimSpace(s); t != "" {
		r.Add(t)
	}
	e := xescape.Replace(s)
	chk("<r x='"+e+"'>"+e+"</r>", r)
	if strings.ContainsAny(s, "&<]'") {
		return
	}
	chk("<r x='"+s+"'>"+s+"</r>", r)
	r.K = r.K[1:]
	chk("<r><![CDATA["+s+"]]></r>", r)
}

var c25 = &Prop{
	ID:     "C25",
	Rule:   "every document whose root has up to N nodes (elements, empty elements, texts, blanks, comments, CDATA at the leaves; any nesting), with attributes on every single element; every pair of 18 element names in nested and sibling positions; every sequence of up to 3 out of 13 attributes with and without content; every text out of 20 and CDATA out of 5 in every position next to elements, comments and processing instructions; 4 prologs; compared with the tree of the document. Sweeps: depth, width, lengths of names, texts and values. Texts up to 1 MB, up to 100001 children. Each of 712 characters (all below U+0250) alone, repeated and among others, as text, attribute, CDATA and, in ASCII, in names; every text of 3 out of 25 punctuation characters.",
	Bounds: "quick: N=6; thorough: N=7",
	Assume: []string{"UTF-8", "text parts separated by comments or CDATA limits may be one child or several", "attribute names (with their prefix) are unique in an element"},
	Gen: func(thorough bool, emit func(string)) {
		n := 6
		if thorough {
			n = 7
		}
		for k := 0; k <= n; k++ {
			Shapes(k, func(lv []int) { emit("s " + JoinInts(lv, ",")) })
		}
		for i := range xnames {
			emit(fmt.Sprintf("n %d", i))
		}
		for i := range xattrs {
			emit(fmt.Sprintf("a %d", i))
		}
		for i := range xtexts {
			emit(fmt.Sprintf("t %d", i))
		}
		for _, k := range append(sweep(thorough), huge...) {
			emit(fmt.Sprintf("w %d", k))
		}
		for i := 0x20; i < 0x250; i += 8 {
			emit(fmt.Sprintf("c %d", i))
		}
		for _, i := range []int{0x378, 0x400, 0x1680, 0x2000, 0x2008, 0x2010, 0x2028, 0x2060, 0x20a8, 0x3000, 0x4e00, 0xd7f8, 0xe000, 0xfe00, 0xfef8, 0xfff8, 0x10000, 0x1f600, 0x10fff0} {
			emit(fmt.Sprintf("c %d", i))
		}
		for i := range xpunct {
			emit(fmt.Sprintf("p %d", i))
		}
	},
	Run: func(c *C, desc string) {
		f := strings.Fields(desc)
		arg := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
		el := func(name int, k ...*xmln) *xmln { return &xmln{k: 'e', name: name, k2: k} }
		switch desc[0] {
		case 'c':
			// single characters
			for r := rune(arg(1)); r < rune(arg(1))+8; r++ {
				if r >= 0xfffe && r < 0x10000 {
					continue
				}
				x := string(r)
				for _, t := range []string{x, x + x, "a" + x, x + "a", "a" + x + "b", "1" + x + "2" + x} {
					c25text(c, t)
				}
				if r < 0x80 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') || r < 0x80 && r >= '-' && r <= '9' && r != '/' {
					for _, name := range []string{x, x + x, "a" + x, "a" + x + "b", "_" + x} {
						if c := name[0]; c >= '-' && c <= '9' {
							continue
						}
						doc := fmt.Sprintf("<%s %s='1'><%s/>t</%s>", name, name, name, name)
						key := strings.ReplaceAll(name, "-", "_")
						c.Step(1)
						c.Eq("FromXML of "+doc, GStr(gxml.FromXML([]byte(doc))), N("_", N(key, N("@"+name, N("1")), N(key), N("t"))).Str())
					}
				}
			}
		case 'p':
			// texts of punctuation
			for _, y := range xpunct {
				for _, z := range append(xpunct, "", "a") {
					c25text(c, xpunct[arg(1)]+y+z)
					c25text(c, "b"+xpunct[arg(1)]+y+z)
				}
			}
		case 's':
			lv := []int{}
			if len(f) > 1 {
				lv = Ints(f[1], ",")
			}
			xshapes(lv, func(k []*xmln) {
				root := &xmln{k: 'e', k2: k}
				pros := 1
				if len(lv) < 4 {
					pros = len(xprolog)
				}
				for p := 0; p < pros; p++ {
					c25doc(c, root, p)
				}
				if len(lv) > 4 {
					return
				}
				var walk func(n *xmln)
				walk = func(n *xmln) {
					if n.k != 'e' {
						return
					}
					n.att = []int{0, 1}
					c25doc(c, root, 0)
					n.att = nil
					for _, x := range n.k2 {
						walk(x)
					}
				}
				walk(root)
			})
		case 'n':
			i := arg(1)
			for j := range xnames {
				c25doc(c, el(i, el(j)), 0)
				c25doc(c, el(i, el(j, el(i, xt(0))), el(j)), 1)
				c25doc(c, el(i, xt(3), el(j), xt(3), el(i, el(j), el(j))), 0)
				for k := range xnames {
					c25doc(c, el(i, el(j, xt(0)), el(k, xt(3)), el(i)), 0)
				}
			}
		case 'a':
			i := arg(1)
			Seqs(len(xattrs), 2, func(ix []int) {
				for n := 0; n <= 2; n++ {
					at := append([]int{i}, ix[:n]...)
					seen := map[string]bool{}
					for _, a := range at {
						raw, _, _ := strings.Cut(xattrs[a].text, "=")
						if raw = strings.TrimSpace(raw); seen[raw] {
							return
						}
						seen[raw] = true
					}
					x := el(0)
					x.att = at
					for _, sc := range []bool{false, true} {
						x.sc = sc
						x.k2 = nil
						c25doc(c, x, 0)
						c25doc(c, el(1, xt(0), x, xt(0)), 0)
						x.k2 = []*xmln{xt(3)}
						c25doc(c, x, 0)
						x.k2 = []*xmln{{k: 'c'}, el(1, xt(0)), {k: 'e', att: at}}
						c25doc(c, x, 0)
					}
				}
			})
		case 't':
			i := arg(1)
			for j := range xtexts {
				for _, m := range []*xmln{{k: 'c'}, {k: 'p'}, {k: 'e'}, {k: 'e', sc: true}, {k: 'e', k2: []*xmln{xt(j)}, att: []int{0}}, {k: 'd', text: "c", val: "c"}} {
					c25doc(c, el(0, xt(i), m, xt(j)), 0)
					c25doc(c, el(0, m, xt(i)), 0)
					c25doc(c, el(0, m, xt(i), m, m, xt(j)), 2)
					c25doc(c, el(0, el(1, xt(i), m), xt(j)), 3)
				}
			}
			for _, d := range xcdata {
				c25doc(c, el(0, &xmln{k: 'd', text: d.text, val: d.val}), 0)
				c25doc(c, el(0, el(1), &xmln{k: 'd', text: d.text, val: d.val}, el(1), xt(i)), 0)
			}
		case 'w':
			n := arg(1)
			d := el(0, xt(0))
			d2 := el(0)
			wide := el(0)
			mixed := el(1)
			for i := 0; i < min(n, 100001); i++ {
				if i < 10001 {
					d = el(i%3, d)
					d2 = el(2, xt(3), d2, xt(0))
					d2.att = []int{0}
				}
				wide.k2 = append(wide.k2, el(i%4, &xmln{k: 't', text: strconv.Itoa(i), val: strconv.Itoa(i)}))
				mixed.k2 = append(mixed.k2, xt(0), el(i%2))
			}
			for _, x := range []*xmln{d, d2, wide, mixed} {
				c25doc(c, x, 0)
			}
			long := func(s string) *xmln { return &xmln{k: 't', text: s, val: s} }
			c25doc(c, el(0, long(strings.Repeat("x", n)), el(1), long(strings.Repeat("é ", n)+"z")), 0)
			c25doc(c, el(0, long(strings.Repeat("l\n", n))), 0)
			c25doc(c, el(0, &xmln{k: 't', text: strings.Repeat("&amp;", n), val: strings.Repeat("&", n)}), 0)
			c25doc(c, el(0, long(strings.Repeat(" ", n)), el(1), long("a"+strings.Repeat(" ", n)+"b"+strings.Repeat("\n", n))), 0)
			// long names and values
			for _, p := range [][2]string{{"a", "a"}, {"é", "e"}, {"a-", "a_"}, {"日", "日"}} {
				name := "x" + strings.Repeat(p[0], n)
				key := "x" + strings.Repeat(p[1], n)
				doc := fmt.Sprintf("<r><%s %s='%s'>t</%s><%s/></r>", name, name, name, name, name)
				c.Eq("FromXML of "+clipDoc(doc), GStr(gxml.FromXML([]byte(doc))), N("_", N("r", N(key, N("@"+name, N(name)), N("t")), N(key))).Str())
			}
			if n > 10001 {
				return
			}
			doc, want := "<r", N("r")
			for i := 0; i < n; i++ {
				doc += fmt.Sprintf(" a%d='v%d'", i, i)
				want.Add("@a" + strconv.Itoa(i)).Add("v" + strconv.Itoa(i))
			}
			c.Eq("FromXML of "+clipDoc(doc), GStr(gxml.FromXML([]byte(doc+"/>"))), N("_", want).Str())
		}
	},
}
