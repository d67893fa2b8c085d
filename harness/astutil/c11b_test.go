package astutil

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

// conditional code whose tests are known, with the calls that are reached
type c11b struct {
	r *rand.Rand
	n int
}

func (g *c11b) test() (string, bool) {
	type tv struct {
		s string
		v bool
	}
	all := []tv{
		{"t", true}, {"f", false}, {"!t", false}, {"!f", true}, {"n == 1", true}, {"n === 2", false}, {"s !== 'x'", true},
		{"s == 'w'", true}, {"e", false}, {"z", false}, {"n", true}, {"missing", false}, {"t && f", false}, {"t && n", true},
		{"f || t", true}, {"f || z", false}, {"o.p == 'dev'", true}, {"o.p != 'dev'", false}, {"o.q", false}, {"null", false},
		{"['a', 'b'].includes(k)", true}, {"['a'].includes(s)", false}, {"(t || f) && !e", true}, {"n - 1", false}, {"n + 1 === 2", true},
		{"'a' + s == 'aw'", true}, {"0.5 * 2 == 1", true}, {"n / 2 == 0.5", true}, {"f && t || t", true}, {"t || t && f", true},
	}
	x := all[g.r.Intn(len(all))]
	return x.s, x.v
}

func (g *c11b) call() (string, string) {
	g.n++
	f := fmt.Sprintf("c%d", g.n)
	return f + "()", f
}

// expression statement text without the semicolon
func (g *c11b) expr(d int) (string, []string) {
	if d <= 0 {
		s, f := g.call()
		return s, []string{f}
	}
	t, v := g.test()
	switch g.r.Intn(6) {
	case 0:
		s, l := g.expr(d - 1)
		if !v {
			l = nil
		}
		return "(" + t + ") && (" + s + ")", l
	case 1:
		s, l := g.expr(d - 1)
		if v {
			l = nil
		}
		return "(" + t + ") || (" + s + ")", l
	case 2:
		a, la := g.expr(d - 1)
		b, lb := g.expr(d - 1)
		if !v {
			la = lb
		}
		return "(" + t + ") ? (" + a + ") : (" + b + ")", la
	case 3:
		a, la := g.expr(d - 1)
		b, lb := g.expr(d - 1)
		return "(" + a + ") " + []string{"+", "*", "==", "<"}[g.r.Intn(4)] + " (" + b + ")", append(append([]string{}, la...), lb...)
	default:
		s, f := g.call()
		return s, []string{f}
	}
}

func (g *c11b) stmt(d int) (string, []string) {
	if d <= 0 || g.r.Intn(4) == 0 {
		s, l := g.expr(g.r.Intn(3))
		return s + ";", l
	}
	if g.r.Intn(4) == 0 {
		return g.block(d - 1)
	}
	// a chain of if, else if, else
	var b strings.Builder
	var res []string
	done := false
	k := 1 + g.r.Intn(3)
	for i := 0; i < k; i++ {
		t, v := g.test()
		s, l := g.block(d - 1)
		if i > 0 {
			b.WriteString(" else ")
		}
		b.WriteString("if (" + t + ") " + s)
		if v && !done {
			res, done = l, true
		}
	}
	if g.r.Intn(2) == 0 {
		s, l := g.block(d - 1)
		b.WriteString(" else " + s)
		if !done {
			res = l
		}
	}
	return b.String(), res
}

func (g *c11b) block(d int) (string, []string) {
	var p, l []string
	for i := g.r.Intn(3); i >= 0; i-- {
		s, x := g.stmt(d)
		p = append(p, s)
		l = append(l, x...)
	}
	return "{ " + strings.Join(p, " ") + " }", l
}

func TestVerifC11b(t *testing.T) {
	v := vNew(t, "C11")
	r := vRand()
	vars := map[string]interface{}{"t": true, "f": false, "n": 1.0, "s": "w", "e": "", "z": 0.0, "k": "b", "o": map[string]interface{}{"p": "dev"}}
	for n := 0; n < vPick(20000, 300000) && v.more(); n++ {
		g := &c11b{r: r}
		src, want := g.stmt(1 + r.Intn(3))
		v.check("branches", src, func() string {
			opts := parser.NewParserOpts()
			p := parser.NewParser(span.NewSource("", src), opts)
			ast, err := p.Prog()
			if err != nil {
				return "rejected: " + err.Error()
			}
			var got []string
			for _, st := range ast.(*parser.Prog).Body() {
				for _, c := range CollectNodesInTrueBranches(st, []parser.NodeType{parser.N_EXPR_CALL}, vars, p) {
					if id, ok := c.(*parser.CallExpr).Callee().(*parser.Ident); ok {
						got = append(got, id.Val())
					}
				}
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return fmt.Sprintf("reached %v, expected %v", got, want)
			}
			return ""
		})
	}
	v.done()
}
