package fw

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
)

// T is the model of a graph: an ordered tree.
type T struct {
	L string
	K []*T
}

// N makes a tree node
func N(l string, k ...*T) *T { return &T{l, k} }

// Add adds a child with the given label and returns it
func (t *T) Add(l string) *T {
	n := &T{L: l}
	t.K = append(t.K, n)
	return n
}

// Forest builds the tree (with root "_") given by levels and labels in preorder
func Forest(lv []int, labels []string) *T {
	root := &T{L: "_"}
	stack := []*T{root}
	for i, l := range lv {
		stack = stack[:l+1]
		n := stack[l].Add(labels[i])
		stack = append(stack, n)
	}
	return root
}

// Size is the number of nodes
func (t *T) Size() int {
	n := 1
	for _, k := range t.K {
		n += k.Size()
	}
	return n
}

func (t *T) write(b *strings.Builder, top bool) {
	if !top {
		b.WriteString(strconv.Quote(t.L))
	}
	if len(t.K) > 0 {
		b.WriteByte('{')
		for i, k := range t.K {
			if i > 0 {
				b.WriteByte(' ')
			}
			k.write(b, false)
		}
		b.WriteByte('}')
	}
}

// Str shows the tree without its root content
func (t *T) Str() string {
	var b strings.Builder
	t.write(&b, true)
	return b.String()
}

// Full shows the tree with its root content
func (t *T) Full() string {
	var b strings.Builder
	t.write(&b, false)
	return b.String()
}

// Graph builds the real graph (string contents)
func (t *T) Graph() *ogdl.Graph {
	g := &ogdl.Graph{This: t.L}
	for _, k := range t.K {
		g.Out = append(g.Out, k.Graph())
	}
	return g
}

// Clone
func (t *T) Clone() *T {
	n := &T{L: t.L}
	for _, k := range t.K {
		n.K = append(n.K, k.Clone())
	}
	return n
}

const maxDepth = 100000 // (a cycle would never end)

func gstr(b *strings.Builder, g *ogdl.Graph, top, types bool, depth int) {
	if depth > maxDepth {
		b.WriteString("<too deep>")
		return
	}
	if g == nil {
		b.WriteString("<nil>")
		return
	}
	if !top {
		if types {
			b.WriteString(Content(g.This))
		} else {
			b.WriteString(strconv.Quote(Str(g.This)))
		}
	}
	if len(g.Out) > 0 {
		b.WriteByte('{')
		for i, k := range g.Out {
			if i > 0 {
				b.WriteByte(' ')
			}
			gstr(b, k, false, types, depth+1)
		}
		b.WriteByte('}')
	}
}

// Str renders a content as a string, as documented (independently of the library)
func Str(i interface{}) string {
	switch v := i.(type) {
	case nil:
		return ""
	case string:
		return v
	case []byte:
		return string(v)
	case *ogdl.Graph:
		return "<graph>"
	}
	return fmt.Sprint(i)
}

// Content renders a content with its type
func Content(i interface{}) string {
	switch v := i.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(v)
	case *ogdl.Graph:
		return "<graph>"
	case []byte:
		return "bytes:" + strconv.Quote(string(v))
	case int64:
		return "int64:" + strconv.FormatInt(v, 10)
	case float64:
		return "float64:" + strconv.FormatFloat(v, 'g', -1, 64)
	case func(), func(*ogdl.Graph) (*ogdl.Graph, error):
		return "<func>"
	}
	return fmt.Sprintf("%T:%v", i, i)
}

// GStr shows a graph without its root content (contents as strings)
func GStr(g *ogdl.Graph) string {
	var b strings.Builder
	gstr(&b, g, true, false, 0)
	return b.String()
}

// GFull shows a graph with its root content (contents as strings)
func GFull(g *ogdl.Graph) string {
	var b strings.Builder
	gstr(&b, g, false, false, 0)
	return b.String()
}

// GTyped shows a graph with its root content and all content types
func GTyped(g *ogdl.Graph) string {
	var b strings.Builder
	gstr(&b, g, false, true, 0)
	return b.String()
}

// Same compares a graph with the model (root content excluded)
func (c *C) Same(what string, g *ogdl.Graph, t *T) {
	got, want := GStr(g), t.Str()
	c.State(want)
	if got != want {
		c.Differ(what, got, want)
	}
	c.Owned(what, g)
}

// Owned fails if the nodes of a tree are not nodes of their own
func (c *C) Owned(what string, g *ogdl.Graph) {
	if s := Owned(g); s != "" {
		c.Failf("%s: %s in %s", clipq(what), s, clipq(GTyped(g)))
	}
}

// Owned adds a node to each node of a tree: it has to come after the nodes
// that were there, and nothing else may change. Then the tree is made as it
// was. It returns what is wrong.
func Owned(g *ogdl.Graph) string {
	if g == nil {
		return ""
	}
	type node struct {
		g    *ogdl.Graph
		out  []*ogdl.Graph // as it was
		kids []*ogdl.Graph // what is in it
		x    *ogdl.Graph   // what was added
	}
	ns := []node{{g: g}}
	for i := 0; i < len(ns); i++ {
		n := ns[i].g
		ns[i].out = n.Out
		if len(n.Out) == 0 {
			continue
		}
		ns[i].kids = append([]*ogdl.Graph(nil), n.Out...)
		for _, k := range n.Out {
			if k != nil {
				ns = append(ns, node{g: k})
			}
		}
	}
	if len(ns) > 20000 {
		return ""
	}
	if len(ns) > 12 {
		seen := make(map[*ogdl.Graph]bool, len(ns))
		for i := range ns {
			if seen[ns[i].g] {
				return fmt.Sprintf("%q is there twice", _short(ns[i].g))
			}
			seen[ns[i].g] = true
		}
	} else {
		for i := range ns {
			for j := 0; j < i; j++ {
				if ns[i].g == ns[j].g {
					return fmt.Sprintf("%q is there twice", _short(ns[i].g))
				}
			}
		}
	}
	for i := range ns {
		n := &ns[i]
		n.x = n.g.Add("+")
	}
	bad := ""
	for i := range ns {
		n := &ns[i]
		o := n.g.Out
		ok := len(o) == len(n.kids)+1 && n.x != nil && o[len(o)-1] == n.x && n.x.Out == nil
		for j := 0; ok && j < len(n.kids); j++ {
			ok = o[j] == n.kids[j]
		}
		if !ok && bad == "" {
			bad = fmt.Sprintf("after adding a node to each node, %q has %d instead of %d and one more, or other ones", _short(n.g), len(o), len(n.kids))
		}
	}
	for i := range ns {
		n := &ns[i]
		n.g.Out = n.out
		copy(n.out, n.kids)
	}
	return bad
}

func _short(g *ogdl.Graph) string {
	s := Content(g.This)
	if len(s) > 30 {
		s = s[:30]
	}
	return s
}

// Differ reports a difference between two long texts
func (c *C) Differ(what, got, want string) {
	if len(got) > 400 || len(want) > 400 {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		if i > 60 {
			what += fmt.Sprintf(" (from position %d)", i-40)
			got, want = got[i-40:], want[i-40:]
		}
	}
	c.Failf("%s: got %s, want %s", clipq(what), clipq(got), clipq(want))
}

func clipq(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}
