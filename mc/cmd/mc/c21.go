package main

import (
	"fmt"
	"strconv"
	"strings"

	. "ogdlmc/fw"

	"github.com/rveen/ogdl"
)

// contexts, made anew each time
var c21ctxs = []func() *ogdl.Graph{
	func() *ogdl.Graph { return tconst.graph() },
	func() *ogdl.Graph {
		g := ogdl.New("_")
		g.Add("a").Add(int64(5))
		l := g.Add("l")
		l.Add("u")
		l.Add("v").Add("w")
		g.Add("t").Add(false)
		g.Add("f").Add(true)
		g.Add("n").Add(2.5)
		g.Add("d").Add("k").Add("other").Add("deep")
		g.Add("fn").Add(func(a, b int64) int64 { return a*10 + b })
		g.Add("id").Add(func(g *ogdl.Graph) *ogdl.Graph { return g })
		g.Add("o").Add(&c05T{})
		return g
	},
	func() *ogdl.Graph { return ogdl.New("_") },
	func() *ogdl.Graph {
		g := ogdl.FromString("a\n  b\n    c\nl\n  1\n  2\n  3\n  4\nt 'true'\nf 'false'\nn '7'\nd\n  k K2\nx\n  old\n  old2\ns a\ns b\n")
		g.Add("fn").Add(func(a, b int64) (int64, error) { return 0, fmt.Errorf("no") })
		g.Add("id").Add(func(g *ogdl.Graph) *ogdl.Graph { g.Add("grown"); return g })
		return g
	},
	func() *ogdl.Graph { return nil },
}

var c21hand = []string{
	"", "text", "$a", "$a $a", "${a} ${d.k}$l[1]$s{1}", "$l[n-6]$l[0+1]", "$(x='abc')$x", "$(x=l)$x[0]", "$(x=1+2)$x", "$(x.y='q' + 'r')$x.y", "$(x=a)$(x=x+1)$x", "$(x='a')$(x+='b')$x",
	"$(l[0]='new')$l[0]$l[1]", "$(d.k='new')${d}", "$(x=l[0])$(l='gone')$x", "$(x='s')$(y=x)$(y='t')$x$y", "$(x=d)$(x.k='z')$d.k", "$if(t)A$else B$end$a", "$if(a==5)A$elseif(n>2)B$else C$end", "$if(f)A$elseif(t)B$end-$if(f)C$else D$end",
	"$for(v,l)$v,$end", "$for(v,l)$(x=v)$end$x", "$for(v,l)$if(v=='y')$break$end$v$end", "$for(v,l)$for(w,l)$v$w;$end$end", "$for(v,l)$(v='q')$v$end", "$for(v,l)$(w=v)$(w='q')$w$end$l[0]", "$for(a,l)$a$end$a", "$for(v,d)$v$end", "$for(v,s{})$v.$end", "$for(v,missing)$v$else-$end",
	"$fn(1,2)", "$fn(a,n)$fn(n,7)", "$id(d)", "$id('con')$id('con')", "$(x=id('con'))$x$(x='e')$x", "$id(d.k)", "$o.M(1)", "${fn(1, 1+1)}$l[fn(0,1)]", "$(x=fn(1,2))$x", "$id(1+2)", "$id(!t)",
	"$(x='c')$for(v,l)$(x=x+v)$end$x", "$(x=-a)$x", "$(x=!t)$x", "$(x=(1+2)*3)$x", "$(x=2.5)$(x*=2)$x", "$(n=n+1)$n$(n+=1)$n", "$(missing.deep.er=1)${missing}", "$if(x=='1')again$else first$(x='1')$end", "$'a'$\"a\"", "$d.'k'", "$\\ $ \\$ !if !t $5",
	"$(x=[1,2])", "$(x='')$x|", "$(x=t && f)$x", "$(x=a==5)$x", "$(x=s{})$(x[0]='first')${x}${s}", "$(x=l)$(l[0]='L')$x[0]", "$break$a", "$a$if(t)$break$end$a", "$end$a$else", "$if(t", "${a", "$(a", "$for(", "$for(v)", "$for(v,l)$v", "$if(t)$a",
	"$(x='node')$(x.sub='child')${x}", "$(a.b='grow')${a}", "$(l='flat')${l}", "$(x=\"dq\")$(x.y=1)$x", "$(x=5)$(x.y=6)${x}",
}

type c21ref struct{ out, ctx string }

// c21alone renders a freshly parsed template with a context
func c21alone(src string, ctx *ogdl.Graph) c21ref {
	o := string(ogdl.NewTemplate(src).Process(ctx))
	return c21ref{o, GTyped(ctx)}
}

func wreck(g *ogdl.Graph) {
	if g == nil {
		return
	}
	for _, n := range nodes(g, nil) {
		n.This = "wrecked"
		o := n.Out
		n.Out = []*ogdl.Graph{{This: "W"}}
		for i := range o {
			o[i] = nil
		}
	}
}

// c21seq renders one parsed template with a sequence of contexts: k<K new context k, K: the last one as it is
func c21seq(c *C, src string, seq []int, bytes, spoil bool) {
	var t *ogdl.Graph
	if bytes {
		b := []byte(src)
		t = ogdl.NewTemplateFromBytes(b)
		for i := range b {
			b[i] = '#'
		}
	} else {
		t = ogdl.NewTemplate(src)
	}
	P := newPM()
	m := P.from(t)
	var ctx, ref *ogdl.Graph
	var outs [][]byte
	var want []string
	hist := ""
	for _, k := range seq {
		c.Step(1)
		if k < len(c21ctxs) {
			if spoil {
				wreck(ctx)
			}
			ctx, ref = c21ctxs[k](), c21ctxs[k]()
		}
		hist += " " + strconv.Itoa(k)
		r := c21alone(src, ref)
		o := t.Process(ctx)
		if string(o) != r.out {
			c.Failf("template %q contexts%s: got %q, want %q", src, hist, o, r.out)
		}
		if s := P.same(m, t); s != "" {
			c.Failf("template %q contexts%s: the parsed template changed: %s", src, hist, s)
		}
		if got := GTyped(ctx); got != r.ctx {
			c.Failf("template %q contexts%s: context is %s, want %s", src, hist, got, r.ctx)
		}
		for i, p := range outs {
			if string(p) != want[i] {
				c.Failf("template %q contexts%s: output %d changed to %q, was %q", src, hist, i, p, want[i])
			}
		}
		outs, want = append(outs, o), append(want, r.out)
		c.State(r.out)
		if spoil {
			for i := range o {
				o[i] = '@'
			}
			want[len(want)-1] = string(o)
		}
	}
	if spoil {
		wreck(ctx)
		if s := P.same(m, t); s != "" {
			c.Failf("template %q contexts%s: the context holds a part of the parsed template: %s", src, hist, s)
		}
	}
}

var c21 = &Prop{
	ID:     "C21",
	Rule:   "each of 73 templates with every feature (paths, expressions, assignments of all kinds, calls, loops, conditions, malformed ones) and every template up to N constructs, parsed once (from a string, or from bytes overwritten afterwards), and rendered with every sequence of up to L contexts (5 contexts, or the last one as it was left); every output, the context after it, and the parsed template (content, types, node identities) are compared with those of a freshly parsed template; with and without destroying every used context and output before the next rendering; every ordered pair of templates rendered interleaved.",
	Bounds: "quick: L=3 for the listed ones, L=2 for N=3 (2 conditions, 2 lists) and N=4 (1 and 1); thorough: L=5, and L=3 for N=4",
	Gen: func(thorough bool, emit func(string)) {
		l, n, m := 3, 4, 2
		if thorough {
			l, n, m = 5, 4, 3
		}
		for i := range c21hand {
			for k := 1; k <= l; k++ {
				emit(fmt.Sprintf("h %d %d", i, k))
			}
			emit(fmt.Sprintf("p %d", i))
		}
		gen := func(conds, lists string, n int) {
			x := &tspace{conds: conds, lists: lists, memo: map[string][]string{}}
			for k := 0; k <= n; k++ {
				for _, b := range x.bodies(k, false) {
					emit(fmt.Sprintf("a%d %s", m, b))
				}
			}
		}
		if thorough {
			gen("BD", "AD", n)
		} else {
			gen("BD", "AD", n-1)
			gen("D", "A", n)
		}
	},
	Run: func(c *C, desc string) {
		n := len(c21ctxs)
		all := func(src string, l int) {
			Seqs(n+1, l, func(ix []int) {
				if ix[0] == n {
					return
				}
				s := append([]int{}, ix...)
				c21seq(c, src, s, false, false)
				c21seq(c, src, s, false, true)
				c21seq(c, src, s, true, true)
			})
		}
		f := strings.Fields(desc)
		switch desc[0] {
		case 'h':
			i, _ := strconv.Atoi(f[1])
			k, _ := strconv.Atoi(f[2])
			all(c21hand[i], k)
		case 'p':
			i, _ := strconv.Atoi(f[1])
			for j := range c21hand {
				for k := 0; k < n; k++ {
					a, b := ogdl.NewTemplate(c21hand[i]), ogdl.NewTemplate(c21hand[j])
					ga, gb := c21ctxs[k](), c21ctxs[k]()
					ra, rb := c21ctxs[k](), c21ctxs[k]()
					for s := 0; s < 2; s++ {
						oa, ob := a.Process(ga), b.Process(gb)
						c.Step(2)
						wa, wb := c21alone(c21hand[i], ra), c21alone(c21hand[j], rb)
						if string(oa) != wa.out || string(ob) != wb.out || GTyped(ga) != wa.ctx || GTyped(gb) != wb.ctx {
							c.Failf("templates %q and %q interleaved, context %d: got %q %q, want %q %q", c21hand[i], c21hand[j], k, oa, ob, wa.out, wb.out)
						}
					}
				}
			}
		case 'a':
			i := strings.IndexByte(desc, ' ')
			l, _ := strconv.Atoi(desc[1:i])
			id := 0
			body, _ := tparse(desc[i+1:], &id)
			var b strings.Builder
			tsource(&b, body, 0)
			for k := 1; k <= l; k++ {
				all(b.String(), k)
			}
		}
	},
}
