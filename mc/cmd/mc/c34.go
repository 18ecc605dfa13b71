package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"syscall"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
)

func init() { props = append(props, c34) }

var c34docs = []string{
	"", "a", "a\n", "a b\n", "a b c\n", "a\n  b\n  c\n", "a\n  b 1\n  b 2\n  b 3\n", "a 'x y'\n", "a \"q \\\"r\\\"\"\n", "a (b, c (d e), f)\n", "# only a comment\n", "a # comment\n  b\n",
	"t \\\n  block one\n   two\n\n  three\nb x\n", "a 'line\n  two\n  three'\nb y\n", "a\r\n  b\r\n", "a\tb\n", "  a\n  b\n", "eth0\n  ip 128.0.0.10\n  gw 128.0.0.1\n", "é ü\nß '€ ñ'\n", "a b\nc d\ne f", "a.b c\n'a.b' d\n",
	"a 1\n b 2\n  c 3\n   d 4\n", "a ''\nb \"\"\n", "a 'ends with newline\n'\n", "a '\n'\n", "a 'r\r'\n", "a\n \tb\n", "'unterminated", "a (b\n", "$f(x) %d {e} [g]\n", "\x01G\x00\x01a\x00\x00", "a\x00b\n", "\xff\xfe\n",
}
var c34paths = []string{".", "a", "a.b", "a.b.c", "a[0]", "a[1]", "a{0}", "a.b{}", "a.b{1}", "eth0.ip", "none", "a.none", "b", "t", "'a.b'", "ß", "a.b.c.d", "", "a[", "a.", "[", "]", "a{", "a.(b", "a[-1]", "a[99]", "..", "'", "f(x)", "a._len"}

var c34json = []string{
	"{}", "[]", "1", "-2.5e3", "\"s\"", "true", "null", `{"a":1}`, `{"a":{"b":[1,2,{"c":"x y"}]},"d":"é\u00e9\n"}`, `[1,[2,[3]],"t",false,null]`, ` { "k" : "v" } `, `{"b":1,"a":2}`, `{"":""}`, `"a\"b\\c"`, "[\n1,\n2\n]\n", `{"a":[]}`, `{"a":{}}`, `[{"a":1},{"b":2}]`, "9007199254740993", "1e400",
	"", " ", "{", "[1,", "nul", `{"a"}`, "\x00", "\"", "]", "{\"a\":1", "\xff", "1 2",
}
var c34xml = []string{
	"<a/>", "<a>t</a>", `<a id="1" b='2'>x</a>`, "<a><b>1</b><b>2</b><c-d>3</c-d></a>", "<é>ü</é>", "<?xml version=\"1.0\"?>\n<a>\n <b>x &amp; y</b>\n</a>\n", "<a><![CDATA[x < y]]></a>", "<a><!-- c -->t</a>", "<n:a xmlns:n='u'><n:b n:c='d'/></n:a>", "<a> </a>", "<a>x<b/>y</a>",
	"", "<", "<a>", "</a>", "<a></b>", "x", "<a/><b/>", "<a b>", "&", "<a>&none;</a>", "\x00", "\xff", "<a><b></a>",
}

// elements with their contents to be filled in
var c34elems = func() (l []string) {
	for _, n := range []string{"e", "p", "field"} {
		for _, a := range []string{"", " id='k'", " id=''", " x='1' id='k'", " id='k' x='1'", " name='a b'"} {
			l = append(l, "<"+n+a+">%s</"+n+">")
			if n == "e" {
				l = append(l, "<"+n+a+">t<w/>%s</"+n+">")
			}
		}
	}
	return
}()

var c34tpls = []string{
	"", "text\n", "$a", "Hello $a.b!\n", "$none", "$(n+1) $(n*2)\n", "$if(n==5)five$else\nno\n$end\n", "$for(l,x)<$x>$end", "$for(x,l)<$x>$end", "$a[0] $a.c{0}\n", "line\nline 2\n", "$", "$$ 5$", "$if(", "$for(x,l)", "$end", "$a.b$c.d", "$(a.b='z')$a.b", "$l[1] $f\n", "é $é\n", "$if(none)x$end", "$a.b.c(1)", "$(", "$n/$n",
	"$a{} $l{}", "$for(x,a{})<$x>$end", "$c{1}|$n{1}|$a{1}", "$for(x,n{})<$x $n>$end\n",
}
var c34data = []string{"a\n  b world\n  c 2\n", "n 5\nl\n  1\n  2\n  3\n", "", "a\n  b second\n", "f 'x y'\n\né ü\n", "# c\n", "'unterminated", "c\n  d 4\n"}

// run34 runs a command, with its input in a file or in segments through a pipe
func run34(c *C, name string, args []string, in []string) (out, errs string) {
	cmd := exec.Command(filepath.Join(os.Getenv("MC_BUILD"), name), args...)
	cmd.Env = []string{"GOTRACEBACK=single", "GOMAXPROCS=1"}
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	var w *os.File
	if in != nil {
		r, w0, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		w = w0
		cmd.Stdin = r
		defer r.Close()
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	kill := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	if w != nil {
		sc, _ := w.SyscallConn()
		for i, s := range in {
			if i > 0 {
				// the reader has taken what was there
				for k := 0; k < 20000; k++ {
					var n int32
					sc.Control(func(fd uintptr) {
						syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n)))
					})
					if n == 0 {
						break
					}
					time.Sleep(20 * time.Microsecond)
				}
			}
			io.WriteString(w, s)
		}
		w.Close()
	}
	err := cmd.Wait()
	c.Step(1)
	if !kill.Stop() {
		c.Failf("%s %q, input %s: does not end", name, args, clipDoc(fmt.Sprintf("%q", in)))
	}
	if e, ok := err.(*exec.ExitError); ok && (!e.Exited() || strings.Contains(eb.String(), "goroutine ") && strings.Contains(eb.String(), "\npanic: ") || strings.HasPrefix(eb.String(), "panic: ") || strings.HasPrefix(eb.String(), "fatal error: ") || strings.HasPrefix(eb.String(), "runtime: ")) {
		c.Failf("%s %q, input %s: %v %s", name, args, clipDoc(fmt.Sprintf("%q", in)), err, clip3(eb.String()))
	}
	return ob.String(), eb.String()
}

func clip3(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// part is the text gpath must print
func part34(doc, path string) string {
	g := ogdl.FromString(doc)
	if path != "." {
		g = g.Get(path)
	}
	s := g.Text()
	if s != "" && s[len(s)-1] != '\n' && s[len(s)-1] != '\r' {
		s += "\n"
	}
	return s
}

func file34(dir, name, s string) string {
	f := filepath.Join(dir, name)
	if err := os.WriteFile(f, []byte(s), 0644); err != nil {
		panic(err)
	}
	return f
}

func eq34(c *C, what, got, want string) {
	if got != want {
		c.Failf("%s prints %s, want %s", what, clipDoc(fmt.Sprintf("%q", got)), clipDoc(fmt.Sprintf("%q", want)))
	}
	c.State(what + got)
}

// wellformed: one element, and nothing that the decoder refuses
func wellformed(s string) bool {
	d := xml.NewDecoder(strings.NewReader(s))
	depth, roots := 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			return roots == 1 && depth == 0
		}
		if err != nil {
			return false
		}
		switch x := t.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(x)) != "" {
				return false
			}
		}
	}
}

func big34(kind string, n int) string {
	switch kind {
	case "json":
		var b strings.Builder
		b.WriteString(`{"k":"`)
		for i := 0; b.Len() < n-8; i++ {
			b.WriteString(strconv.Itoa(i) + " ")
		}
		b.WriteString(`","z":1}`)
		return b.String()
	case "list":
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "k%d v%d\n", i, i)
		}
		return b.String()[:n]
	}
	return "a '" + strings.Repeat("x", n-8) + "'\nb c"
}

// deliver gives the ways an input of a long document arrives: pieces of a size
func pieces(s string, n int) (r []string) {
	for len(s) > n {
		r = append(r, s[:n])
		s = s[n:]
	}
	return append(r, s)
}

var c34 = &Prop{
	ID:     "C34",
	Rule:   "the four commands, built from the working tree, as processes: every document x path (gpath), JSON and XML documents, templates x lists of data files, all short inputs over small alphabets; from files and through pipes, in one piece and in every two-part (thorough: three-part) segmentation, each part delivered once the previous one was taken; sizes around the buffers of the commands; all documents of C25 (without its sweeps and prologs), up to 200 in one (xml2ogdl); missing files, directories, no arguments. The output is compared with what the library makes of the whole input.",
	Bounds: "33 documents x 30 paths, 32 JSON and 24 XML documents, 23 templates x lists of up to 2 (thorough 3) of 8 data files and missing ones; texts up to 3 or 4 (thorough 4 or 5) over 5 to 8 symbols",
	Assume: []string{"the pipe's FIONREAD count of 0 means the reader took the previous part"},
	Gen: func(thorough bool, emit func(string)) {
		emit("u")
		for i := range c34docs {
			emit("g " + strconv.Itoa(i))
		}
		for i := range c34json {
			emit("j " + strconv.Itoa(i))
		}
		for i := range c34elems {
			emit(fmt.Sprintf("i %d", i))
		}
		for i := range c34xml {
			emit("x " + strconv.Itoa(i))
		}
		for i := range c34tpls {
			emit("t " + strconv.Itoa(i))
		}
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 20000, 65535, 65536, 65537, 200000} {
			for _, k := range []string{"json", "list", "doc"} {
				emit(fmt.Sprintf("b %s %d", k, n))
			}
		}
		m := 3
		if thorough {
			m = 4
		}
		c25.Gen(thorough, func(d string) {
			if d[0] != 'w' {
				emit("C" + d)
			}
		})
		Strings([]string{"a", "b", "\n", " ", "'"}, 1, m+1, func(s string) { emit("G" + s) })
		Strings([]string{"[", "]", "{", "}", "\"", "1", ",", ":"}, 1, m, func(s string) { emit("J" + s) })
		Strings([]string{"<", ">", "/", "a", "b"}, 1, m+1, func(s string) { emit("X" + s) })
		Strings([]string{"$", "a", "(", ")", "."}, 1, m, func(s string) { emit("T" + s) })
	},
	Run: func(c *C, desc string) {
		dir, err := os.MkdirTemp("", "c34")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		thorough := Tier()
		splits := func(s string, f func(in []string)) {
			f([]string{s})
			for i := 1; i < len(s); i++ {
				f([]string{s[:i], s[i:]})
				for j := i + 1; j < len(s) && thorough && len(s) <= 24; j++ {
					f([]string{s[:i], s[i:j], s[j:]})
				}
			}
		}
		gpath := func(doc string, paths []string) {
			f := file34(dir, "doc", doc)
			for _, p := range paths {
				want := part34(doc, p)
				o, _ := run34(c, "gpath", []string{p, f}, nil)
				eq34(c, fmt.Sprintf("gpath %q with file %s", p, clipDoc(fmt.Sprintf("%q", doc))), o, want)
				if p != "." && !thorough {
					o, _ = run34(c, "gpath", []string{p}, []string{doc})
					eq34(c, fmt.Sprintf("gpath %q with input %s", p, clipDoc(fmt.Sprintf("%q", doc))), o, want)
					continue
				}
				splits(doc, func(in []string) {
					o, _ = run34(c, "gpath", []string{p}, in)
					eq34(c, fmt.Sprintf("gpath %q with input %s", p, clipDoc(fmt.Sprintf("%q", in))), o, want)
				})
			}
		}
		js := func(doc string, sp bool) {
			g, err := ogdl.FromJSON([]byte(doc))
			want := g.Text() + "\n"
			check := func(what, o string) {
				if err != nil {
					return
				}
				eq34(c, what, o, want)
			}
			o, _ := run34(c, "json2ogdl", []string{file34(dir, "j", doc)}, nil)
			check(fmt.Sprintf("json2ogdl with file %s", clipDoc(fmt.Sprintf("%q", doc))), o)
			f := func(in []string) {
				o, _ := run34(c, "json2ogdl", nil, in)
				check(fmt.Sprintf("json2ogdl with input %s", clipDoc(fmt.Sprintf("%q", in))), o)
			}
			if sp {
				splits(doc, f)
			} else {
				f([]string{doc})
			}
		}
		xm := func(doc string, paths []string) {
			f := file34(dir, "x", doc)
			for _, p := range paths {
				o, _ := run34(c, "xml2ogdl", []string{p, f}, nil)
				if !wellformed(doc) {
					continue
				}
				g := gxml.FromXML([]byte(doc))
				if p != "." {
					g = g.Get(p)
				}
				eq34(c, fmt.Sprintf("xml2ogdl %q with %q", p, doc), o, g.Text()+"\n")
			}
			o, _ := run34(c, "xml2ogdl", []string{"-id", ".", f}, nil)
			if wellformed(doc) {
				g := simplified(toT(gxml.FromXML([]byte(doc))), false).Graph()
				eq34(c, fmt.Sprintf("xml2ogdl -id with %q", doc), o, g.Text()+"\n")
			}
		}
		tp := func(tpl string, lists [][]int) {
			tf := file34(dir, "t", tpl)
			for _, l := range lists {
				args := []string{tf}
				d := ogdl.New("_")
				for k, i := range l {
					if i < 0 {
						args = append(args, filepath.Join(dir, "missing"))
						continue
					}
					args = append(args, file34(dir, "d"+strconv.Itoa(k), c34data[i]))
					if g := ogdl.FromString(c34data[i]); g != nil {
						d.AddNodes(g)
					}
				}
				want := string(ogdl.NewTemplate(tpl).Process(d)) + "\n"
				o, _ := run34(c, "gtemplate", args, nil)
				eq34(c, fmt.Sprintf("gtemplate %q with data %v", tpl, l), o, want)
				// the same file several times
				at, again := map[int]string{}, false
				for k, i := range l {
					if i >= 0 && at[i] != "" {
						args[k+1], again = at[i], true
					}
					at[i] = args[k+1]
				}
				if again {
					o, _ := run34(c, "gtemplate", args, nil)
					eq34(c, fmt.Sprintf("gtemplate %q with data %v, repeated ones from one file", tpl, l), o, want)
				}
			}
		}
		f := strings.Fields(desc)
		switch desc[0] {
		case 'u':
			missing := filepath.Join(dir, "none", "missing")
			ok := file34(dir, "ok", "a b\n")
			for _, cmd := range []string{"gpath", "json2ogdl", "xml2ogdl", "gtemplate"} {
				for _, args := range [][]string{{}, {"a"}, {missing}, {dir}, {".", missing}, {".", dir}, {"a.b", missing}, {ok, missing}, {ok, dir}, {"", ""}, {"."}, {"-id"}, {"-none"}, {"-h"}, {"-id", ".", missing}, {".", missing, ok}, {missing, ok}, {dir, ok}} {
					run34(c, cmd, args, []string{""})
					run34(c, cmd, args, []string{"a b\n"})
				}
			}
			// nothing is printed for what is not there
			for _, a := range [][]string{{".", missing}, {"a", missing}} {
				if o, _ := run34(c, "gpath", a, []string{"a b\n"}); o != "" {
					c.Failf("gpath %q prints %q", a, o)
				}
			}
		case 'g':
			gpath(c34docs[c34int(f[1])], c34paths)
		case 'j':
			js(c34json[c34int(f[1])], true)
		case 'i': // nested elements with and without ids
			o := c34elems[c34int(f[1])]
			for _, e := range c34elems {
				for _, doc := range []string{"<r>" + fmt.Sprintf(o, fmt.Sprintf(e, "")) + "<q/>" + fmt.Sprintf(e, "<y>z</y>") + "</r>", fmt.Sprintf(o, fmt.Sprintf(e, "<y/>")+"u")} {
					xm(doc, []string{"."})
				}
			}
		case 'x':
			xm(c34xml[c34int(f[1])], []string{".", "a", "a.b", "a.b{}", "a.c_d", "none", "a.@id", "a['", "e", "a[1]"})
		case 't':
			var l [][]int
			m := 2
			if thorough {
				m = 3
			}
			for n := 0; n <= m; n++ {
				Seqs(len(c34data)+1, n, func(ix []int) {
					x := append([]int{}, ix...)
					for i := range x {
						x[i]--
					}
					l = append(l, x)
				})
			}
			tp(c34tpls[c34int(f[1])], l)
		case 'b':
			n := c34int(f[2])
			doc := big34(f[1], n)
			sizes := []int{len(doc), 4096, 2048, 1000, 4095, 4097}
			if n > 30000 {
				sizes = []int{len(doc), 4096, 65536, 5000}
			}
			for _, k := range sizes {
				if f[1] == "json" {
					g, err := ogdl.FromJSON([]byte(doc))
					if err != nil {
						panic(err)
					}
					o, _ := run34(c, "json2ogdl", nil, pieces(doc, k))
					eq34(c, fmt.Sprintf("json2ogdl with %d bytes in pieces of %d", len(doc), k), o, g.Text()+"\n")
					if k == len(doc) {
						js(doc, false)
					}
					continue
				}
				for _, p := range []string{".", "b"} {
					o, _ := run34(c, "gpath", []string{p}, pieces(doc, k))
					eq34(c, fmt.Sprintf("gpath %s with %d bytes in pieces of %d", p, len(doc), k), o, part34(doc, p))
				}
			}
		case 'C':
			// the documents of C25, many in one
			var b strings.Builder
			t, tj := N("all"), N("all")
			n := 0
			flush := func() {
				if n == 0 {
					return
				}
				o, _ := run34(c, "xml2ogdl", []string{".", file34(dir, "x", "<all>"+b.String()+"</all>")}, nil)
				w := N("_", t).Graph().Text() + "\n"
				if o != w && o != N("_", tj).Graph().Text()+"\n" {
					c.Differ("xml2ogdl . with "+clipDoc(b.String()), o, w)
				}
				b.Reset()
				t, tj, n = N("all"), N("all"), 0
			}
			c25sinks.Store(c, func(x *xmln, pro int) {
				if pro > 0 {
					return
				}
				x.write(&b)
				t.K = append(t.K, x.tree(false))
				tj.K = append(tj.K, x.tree(true))
				if n++; n == 200 {
					flush()
				}
			})
			defer c25sinks.Delete(c)
			c25.Run(c, desc[1:])
			flush()
		case 'G':
			gpath(desc[1:], []string{".", "a"})
		case 'J':
			js(desc[1:], false)
		case 'X':
			xm(desc[1:], []string{"."})
		case 'T':
			tp(desc[1:], [][]int{{0, 1}})
		}
	},
}

func c34int(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
