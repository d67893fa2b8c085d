package parser

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/hsiaosiyuan0/mole/span"
)

// An expression tree that is printed with the parentheses the grammar needs
// (and some it does not need), then parsed back and compared.
type c07n struct {
	op   string // shape of the node
	kids []*c07n
	text string // its own source text, without parentheses around it
	lev  int
}

const (
	c07Seq = iota
	c07Assign
	c07Cond
	c07Short
	c07Coal     = 6
	c07Unary    = 17
	c07Postfix  = 18
	c07Call     = 19
	c07Member   = 20
	c07Primary  = 21
	c07OptChain = 19
)

var c07Bin = map[string]int{
	"||": 6, "&&": 7, "|": 8, "^": 9, "&": 10, "==": 11, "!=": 11, "===": 11, "!==": 11,
	"<": 12, ">": 12, "<=": 12, ">=": 12, "instanceof": 12, "in": 12,
	"<<": 13, ">>": 13, ">>>": 13, "+": 14, "-": 14, "*": 15, "/": 15, "%": 15, "**": 16,
}

var c07Ops = []string{"||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "**"}
var c07Asg = []string{"=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??="}

type c07g struct {
	r    *rand.Rand
	n    int
	noIn bool
}

func (g *c07g) ws() string {
	return []string{" ", " ", " ", " ", "  ", "\t", " /* é */ ", "\n", " // x\n "}[g.r.Intn(9)]
}

// white space without a line break (before ++, -- and =>)
func (g *c07g) ws1() string { return []string{" ", "", "  ", "/*x*/"}[g.r.Intn(4)] }

func (g *c07g) name() string {
	return []string{"a", "b", "c", "d", "x1", "$", "_y", "é", "变", "asynq", "of", "inn", "typeofx"}[g.r.Intn(13)]
}

func (g *c07g) put(n *c07n, min int) string {
	if n.lev < min || g.r.Intn(12) == 0 {
		return "(" + n.text + ")"
	}
	return n.text
}

// neither && nor || at the outer level
func c07NoLogic(n *c07n) bool { return n.op != "bin &&" && n.op != "bin ||" }

func (g *c07g) lit() *c07n {
	switch g.r.Intn(5) {
	case 0:
		s := []string{"0", "1", "2.5", "0x1f", "1e3", ".5"}[g.r.Intn(6)]
		return &c07n{"num " + s, nil, s, c07Primary}
	case 1:
		s := []string{"'s'", "\"t\"", "this", "null", "true", "/re/g"}[g.r.Intn(6)]
		return &c07n{"lit " + s, nil, s, c07Primary}
	}
	s := g.name()
	return &c07n{"id " + s, nil, s, c07Primary}
}

// something that can be assigned to
func (g *c07g) target(d int) *c07n {
	if g.r.Intn(3) > 0 || d <= 0 {
		s := g.name()
		return &c07n{"id " + s, nil, s, c07Primary}
	}
	return g.member(d - 1)
}

func (g *c07g) member(d int) *c07n {
	var o *c07n
	for {
		o = g.gen(d)
		if !strings.HasPrefix(o.op, "num") && o.op != "chain" {
			break
		}
	}
	lev := c07Member
	ot := g.put(o, c07Member)
	if o.lev == c07Call && ot == "("+o.text+")" && g.r.Intn(2) == 0 && o.op[:3] == "cal" {
		ot = o.text // a call may be the object as well; the result is then a call expression
		lev = c07Call
	}
	if g.r.Intn(2) == 0 {
		p := g.name()
		if g.r.Intn(4) == 0 {
			p = []string{"if", "in", "class", "default"}[g.r.Intn(4)]
		}
		return &c07n{"member ." + p, []*c07n{o}, ot + "." + p, lev}
	}
	p := g.gen(d)
	return &c07n{"member []", []*c07n{o, p}, ot + "[" + g.put(p, c07Seq) + "]", lev}
}

func (g *c07g) args(d int) ([]*c07n, string) {
	var k []*c07n
	var t []string
	for i := g.r.Intn(3); i > 0; i-- {
		a := g.gen(d)
		k = append(k, a)
		t = append(t, g.put(a, c07Assign))
	}
	return k, "(" + strings.Join(t, ","+g.ws1()) + ")"
}

func (g *c07g) gen(d int) *c07n {
	if d <= 0 {
		return g.lit()
	}
	switch g.r.Intn(20) {
	case 16: // template
		var l []*c07n
		t := "`"
		for i := g.r.Intn(3); i > 0; i-- {
			a := g.gen(d - 1)
			l = append(l, a)
			t += []string{"", "x", "é $", "\\n"}[g.r.Intn(4)] + "${" + g.put(a, c07Seq) + "}"
		}
		return &c07n{"tpl", l, t + []string{"", "}", "z"}[g.r.Intn(3)] + "`", c07Primary}
	case 17: // object
		var l []*c07n
		var t []string
		for i := g.r.Intn(3); i > 0; i-- {
			a := g.gen(d - 1)
			l = append(l, a)
			switch g.r.Intn(4) {
			case 0:
				t = append(t, "..."+g.put(a, c07Assign))
			case 1:
				k := g.gen(d - 1)
				l = append(l[:len(l)-1], k, a)
				t = append(t, "["+g.put(k, c07Assign)+"]: "+g.put(a, c07Assign))
			default:
				t = append(t, []string{"k", "'s'", "1", "if", "get", "async"}[g.r.Intn(6)]+g.ws1()+":"+g.ws()+g.put(a, c07Assign))
			}
		}
		return &c07n{"obj", l, "{" + strings.Join(t, ",") + "}", c07Primary}
	case 18: // function and spread
		if g.r.Intn(2) == 0 {
			a := g.gen(d - 1)
			at := g.put(a, c07Seq)
			return &c07n{"fn", []*c07n{a}, "function (" + []string{"", "p", "p, q"}[g.r.Intn(3)] + ") { return " + strings.TrimLeft(at, "\n") + " }", c07Primary}
		}
		f, a := g.gen(d-1), g.gen(d-1)
		for strings.HasPrefix(f.op, "num") || f.op == "chain" {
			f = g.lit()
		}
		sp := "..." + g.put(a, c07Assign)
		return &c07n{"call", []*c07n{f, {"spread", []*c07n{a}, sp, c07Assign}}, g.put(f, c07Call) + "(" + sp + ")", c07Call}
	case 19: // optional chain
		f := g.gen(d - 1)
		for strings.HasPrefix(f.op, "num") || f.op == "chain" {
			f = g.lit()
		}
		cur := f
		t := g.put(f, c07Call)
		k := 1 + g.r.Intn(3)
		opt := g.r.Intn(k)
		for i := 0; i < k; i++ {
			q := ""
			if i == opt || g.r.Intn(3) == 0 {
				q = "?."
			}
			o := "opt"
			if q == "" {
				o = ""
			}
			switch g.r.Intn(3) {
			case 0:
				p := g.name()
				if q == "" {
					t += "." + p
				} else {
					t += "?." + p
				}
				cur = &c07n{o + "member ." + p, []*c07n{cur}, t, c07Call}
			case 1:
				x := g.gen(d - 1)
				t += q + "[" + g.put(x, c07Seq) + "]"
				cur = &c07n{o + "member []", []*c07n{cur, x}, t, c07Call}
			default:
				ks, at := g.args(d - 1)
				t += q + at
				cur = &c07n{o + "call", append([]*c07n{cur}, ks...), t, c07Call}
			}
		}
		return &c07n{"chain", []*c07n{cur}, t, c07Call}
	case 0, 1, 2, 3, 4, 5:
		op := c07Ops[g.r.Intn(len(c07Ops))]
		pc := c07Bin[op]
		a, b := g.gen(d-1), g.gen(d-1)
		la, lb := pc, pc+1
		if op == "**" {
			la, lb = c07Postfix, pc
		}
		at, bt := g.put(a, la), g.put(b, lb)
		if (op == "&&" || op == "||") && (a.op == "coal" && at == a.text || b.op == "coal" && bt == b.text) {
			at, bt = "("+a.text+")", "("+b.text+")"
		}
		return &c07n{"bin " + op, []*c07n{a, b}, at + g.ws() + op + g.ws() + bt, pc}
	case 6:
		a, b := g.gen(d-1), g.gen(d-1)
		at, bt := g.put(a, c07Coal), g.put(b, c07Coal+1)
		if !c07NoLogic(a) {
			at = "(" + a.text + ")"
		}
		if !c07NoLogic(b) {
			bt = "(" + b.text + ")"
		}
		return &c07n{"coal", []*c07n{a, b}, at + g.ws() + "??" + g.ws() + bt, c07Coal}
	case 7:
		t, a, b := g.gen(d-1), g.gen(d-1), g.gen(d-1)
		return &c07n{"cond", []*c07n{t, a, b}, g.put(t, c07Short) + g.ws() + "?" + g.ws() + g.put(a, c07Assign) + g.ws() + ":" + g.ws() + g.put(b, c07Assign), c07Cond}
	case 8:
		t, v := g.target(d), g.gen(d-1)
		op := c07Asg[g.r.Intn(len(c07Asg))]
		return &c07n{"assign " + op, []*c07n{t, v}, t.text + g.ws() + op + g.ws() + g.put(v, c07Assign), c07Assign}
	case 9, 10:
		op := []string{"-", "+", "!", "~", "typeof ", "void "}[g.r.Intn(6)]
		a := g.gen(d - 1)
		t := g.put(a, c07Unary)
		if t[0] == '-' || t[0] == '+' {
			t = " " + t
		}
		return &c07n{"unary " + strings.TrimSpace(op), []*c07n{a}, op + t, c07Unary}
	case 11:
		op := []string{"++", "--"}[g.r.Intn(2)]
		t := g.target(d)
		if g.r.Intn(2) == 0 && t.text[0] != '/' {
			return &c07n{"pre " + op, []*c07n{t}, op + g.ws1() + t.text, c07Unary}
		}
		return &c07n{"post " + op, []*c07n{t}, t.text + g.ws1() + op, c07Postfix}
	case 12:
		return g.member(d - 1)
	case 13:
		var f *c07n
		for {
			f = g.gen(d - 1)
			if !strings.HasPrefix(f.op, "num") && f.op != "chain" {
				break
			}
		}
		k, t := g.args(d - 1)
		if g.r.Intn(3) == 0 {
			for strings.HasPrefix(f.op, "call") || f.op == "member []" || strings.HasPrefix(f.op, "member") && f.lev == c07Call {
				f = g.lit()
				for strings.HasPrefix(f.op, "num") {
					f = g.lit()
				}
			}
			return &c07n{"new", append([]*c07n{f}, k...), "new " + g.put(f, c07Member) + t, c07Member}
		}
		return &c07n{"call", append([]*c07n{f}, k...), g.put(f, c07Call) + g.ws1() + t, c07Call}
	case 14:
		var l []*c07n
		var t []string
		for i := 2 + g.r.Intn(2); i > 0; i-- {
			a := g.gen(d - 1)
			l = append(l, a)
			t = append(t, g.put(a, c07Assign))
		}
		return &c07n{"seq", l, strings.Join(t, g.ws()+","+g.ws()), c07Seq}
	default:
		if g.r.Intn(2) == 0 {
			p := []string{"p", "q"}[g.r.Intn(2)]
			b := g.gen(d - 1)
			bt := g.put(b, c07Assign)
			if bt[0] == '{' {
				bt = "(" + bt + ")"
			}
			head, op := p, "arrow "
			if g.r.Intn(2) == 0 {
				head, op = []string{"async " + p, "async (" + p + ")", "async(" + p + ",)"}[g.r.Intn(3)], "async arrow "
			}
			return &c07n{op + p, []*c07n{b}, head + g.ws1() + "=>" + g.ws() + bt, c07Assign}
		}
		var l []*c07n
		var t []string
		for i := g.r.Intn(3); i > 0; i-- {
			a := g.gen(d - 1)
			l = append(l, a)
			t = append(t, g.put(a, c07Assign))
		}
		return &c07n{"arr", l, "[" + strings.Join(t, ","+g.ws1()) + "]", c07Primary}
	}
}

func c07Same(n *c07n, x Node, src *span.Source, code string) string {
	x = UnParen(x)
	if x == nil {
		return "no node for " + n.text
	}
	var op string
	var kids []Node
	switch y := x.(type) {
	case *BinExpr:
		op = "bin " + TokenKinds[y.op].Name
		if y.op == T_NULLISH {
			op = "coal"
		}
		kids = []Node{y.lhs, y.rhs}
	case *CondExpr:
		op = "cond"
		kids = []Node{y.test, y.cons, y.alt}
	case *AssignExpr:
		op = "assign " + TokenKinds[y.op].Name
		kids = []Node{y.lhs, y.rhs}
	case *UnaryExpr:
		op = "unary " + TokenKinds[y.op].Name
		kids = []Node{y.arg}
	case *UpdateExpr:
		op = "post " + TokenKinds[y.op].Name
		if y.prefix {
			op = "pre " + TokenKinds[y.op].Name
		}
		kids = []Node{y.arg}
	case *MemberExpr:
		kids = []Node{y.obj}
		if y.compute {
			op = "member []"
			kids = append(kids, y.prop)
		} else {
			op = "member ." + y.prop.(*Ident).val
		}
		if y.optional {
			op = "opt" + op
		}
	case *ChainExpr:
		op = "chain"
		kids = []Node{y.expr}
	case *Spread:
		op = "spread"
		kids = []Node{y.arg}
	case *TplExpr:
		op = "tpl"
		for _, e := range y.elems {
			if _, ok := e.(*StrLit); !ok {
				kids = append(kids, e)
			}
		}
		// a template without substitutions yields string parts only
		if strs := len(y.elems) - len(kids); strs != len(kids)+1 {
			var ks []Node
			for i, e := range y.elems {
				if i%2 == 1 {
					ks = append(ks, e)
				}
			}
			kids = ks
		}
	case *ObjLit:
		op = "obj"
		for _, e := range y.props {
			switch z := e.(type) {
			case *Spread:
				kids = append(kids, z.arg)
			case *Prop:
				if z.computed {
					kids = append(kids, z.key)
				}
				kids = append(kids, z.value)
			}
		}
	case *FnDec:
		op = "fn"
		if b, ok := y.body.(*BlockStmt); ok && len(b.body) == 1 {
			if r, ok := b.body[0].(*RetStmt); ok {
				kids = []Node{r.arg}
			}
		}
	case *CallExpr:
		op = "call"
		if y.optional {
			op = "optcall"
		}
		kids = append([]Node{y.callee}, y.args...)
	case *NewExpr:
		op = "new"
		kids = append([]Node{y.callee}, y.args...)
	case *SeqExpr:
		op = "seq"
		kids = y.elems
	case *ArrLit:
		op = "arr"
		kids = y.elems
	case *ArrowFn:
		op = "arrow "
		if y.async {
			op = "async arrow "
		}
		if len(y.params) == 1 {
			if id, ok := y.params[0].(*Ident); ok {
				op += id.val
			}
		}
		kids = []Node{y.body}
	case *Ident:
		op = "id " + y.val
	case *NumLit:
		op = "num " + NodeText(y, src)
	default:
		if rg := x.Range(); int(rg.Hi) <= len(code) && rg.Lo <= rg.Hi {
			op = "lit " + code[rg.Lo:rg.Hi]
		}
	}
	if op != n.op {
		return fmt.Sprintf("%q is parsed as %q, expected %q", n.text, op, n.op)
	}
	if len(kids) != len(n.kids) {
		return fmt.Sprintf("%q: %d operands, expected %d", n.text, len(kids), len(n.kids))
	}
	if rg := x.Range(); int(rg.Hi) > len(code) || rg.Lo > rg.Hi || code[rg.Lo:rg.Hi] != n.text {
		return fmt.Sprintf("%q (%s): its range %d..%d is not its text", n.text, op, rg.Lo, rg.Hi)
	}
	for i := range kids {
		if s := c07Same(n.kids[i], kids[i], src, code); s != "" {
			return s
		}
	}
	return ""
}

func TestVerifC07(t *testing.T) {
	v := vNew(t, "C07")
	r := vRand()
	prog := func(code string) (Node, *span.Source, error) {
		opts := NewParserOpts()
		opts.Feature = opts.Feature.Off(FEAT_STRICT).Off(FEAT_MODULE)
		src := span.NewSource("", code)
		p := NewParser(src, opts)
		ast, err := p.Prog()
		return ast, src, err
	}
	for n := 0; n < vPick(60000, 1000000) && v.more(); n++ {
		g := &c07g{r: r}
		e := g.gen(1 + r.Intn(4))
		pre := []string{"", "é;", "x = ", "f(1)\n;"}[r.Intn(4)]
		code := pre + "(" + e.text + ");"
		v.check("tree", code, func() string {
			ast, src, err := prog(code)
			if err != nil {
				return "rejected: " + err.Error()
			}
			b := ast.(*Prog).Body()
			x := b[len(b)-1].(*ExprStmt).Expr()
			if a, ok := x.(*AssignExpr); ok && pre == "x = " {
				x = a.Rhs()
			}
			return c07Same(e, x, src, code)
		})
	}
	// operand sequences without parentheses: every pair and triple of operators
	all := append([]string{"??"}, c07Ops...)
	for _, o1 := range all {
		for _, o2 := range all {
			for _, o3 := range append([]string{""}, all...) {
				if !v.more() {
					break
				}
				ops := []string{o1, o2}
				names := []string{[]string{"a", "async", "of", "let1", "yield"}[r.Intn(5)], "b", "c"}
				if o3 != "" {
					ops, names = append(ops, o3), append(names, "d")
				}
				code := names[0]
				coal, logic := false, false
				for i, o := range ops {
					code += " " + o + " " + names[i+1]
					coal = coal || o == "??"
					logic = logic || o == "&&" || o == "||"
				}
				v.check("flat", code, func() string {
					ast, src, err := prog(code)
					if coal && logic && c07Mixed(ops) {
						if err == nil {
							return "accepted although ?? is mixed with && or ||"
						}
						return ""
					}
					if err != nil {
						return "rejected: " + err.Error()
					}
					return c07Same(c07Ref(ops, names), ast.(*Prog).Body()[0].(*ExprStmt).Expr(), src, code)
				})
			}
		}
	}
	for _, u := range []string{"-", "+", "!", "~", "typeof ", "void ", "delete "} {
		for _, f := range []string{"%sa ** b", "c * %sa ** b", "%sa.b ** c", "c ** %sa ** b", "%s(a) ** 2", "c && %sa ** b + 1", "%s%sa ** b"} {
			code := strings.ReplaceAll(f, "%s", u+" ")
			v.check("unary-pow", code, func() string {
				if _, _, err := prog(code); err == nil {
					return "accepted although a unary expression is the base of **"
				}
				return ""
			})
		}
	}
	v.done()
}

// ?? and a logical operator meet without parentheses when one is an operand of
// the other, or both join at one level
func c07Mixed(ops []string) bool {
	// both bind looser than everything else, so any flat chain with both mixes them
	return true
}

// reference: split at the loosest operator, the last one of its level (the first for **)
func c07Ref(ops, names []string) *c07n {
	if len(ops) == 0 {
		return &c07n{"id " + names[0], nil, names[0], c07Primary}
	}
	pc := func(o string) int {
		if o == "??" {
			return 6
		}
		return c07Bin[o]
	}
	k := 0
	for i, o := range ops {
		if pc(o) < pc(ops[k]) || pc(o) == pc(ops[k]) && o != "**" {
			k = i
		}
	}
	text := names[0]
	for i, o := range ops {
		text += " " + o + " " + names[i+1]
	}
	op := "bin " + ops[k]
	if ops[k] == "??" {
		op = "coal"
	}
	return &c07n{op, []*c07n{c07Ref(ops[:k], names[:k+1]), c07Ref(ops[k+1:], names[k+1:])}, text, pc(ops[k])}
}
