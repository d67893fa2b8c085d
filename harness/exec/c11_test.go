package exec

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

type c11gen struct {
	r    *rand.Rand
	vars map[string]interface{}
}

// expression text, its value, and its binding strength (higher binds tighter)
type c11e struct {
	s    string
	v    interface{}
	prec int
}

const (
	c11Or = iota + 1
	c11And
	c11Eq
	c11Add
	c11Mul
	c11Un
	c11Prim
)

func (g *c11gen) paren(e c11e, min int) string {
	if e.prec < min || g.r.Intn(6) == 0 {
		return "(" + e.s + ")"
	}
	return e.s
}

func c11Plain(f float64) bool {
	return f == 0 && !math.Signbit(f) || math.Abs(f) >= 1e-6 && math.Abs(f) < 1e21
}

func c11Str(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case bool:
		return strconv.FormatBool(x), true
	case float64:
		if math.IsNaN(x) {
			return "NaN", true
		}
		if !c11Plain(x) {
			return "", false
		}
		return strconv.FormatFloat(x, 'f', -1, 64), true
	}
	return "", false
}

func c11Truthy(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return false
	case string:
		return len(x) > 0
	case bool:
		return x
	case float64:
		return !(x == 0 || math.IsNaN(x))
	}
	return true
}

// a numeric literal and its value
func c11Num(r *rand.Rand) (string, float64) {
	digits := func(n int, set string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = set[r.Intn(len(set))]
		}
		return string(b)
	}
	sep := func(s string) string { // digit separators between digits
		if len(s) < 2 || r.Intn(4) > 0 {
			return s
		}
		k := 1 + r.Intn(len(s)-1)
		return s[:k] + "_" + s[k:]
	}
	val := func(s string, base int) float64 {
		z, _ := new(big.Int).SetString(s, base)
		f, _ := new(big.Float).SetInt(z).Float64()
		return f
	}
	up := func(s string) string {
		if r.Intn(2) == 0 {
			return strings.ToUpper(s)
		}
		return s
	}
	nd := 1 + r.Intn(8)
	if r.Intn(4) == 0 {
		nd = 9 + r.Intn(9)
	}
	switch r.Intn(9) {
	case 0:
		d := digits(nd, "0123456789abcdefABCDEF")
		return up("0x") + sep(d), val(d, 16)
	case 1:
		d := digits(nd, "01234567")
		return up("0o") + sep(d), val(d, 8)
	case 2:
		d := digits(nd, "01")
		return up("0b") + sep(d), val(d, 2)
	case 3:
		d := digits(1, "0123") + digits(r.Intn(6), "01234567")
		return "0" + d, val(d, 8)
	case 4:
		d := digits(1, "123456789") + digits(nd-1, "0123456789")
		fr := digits(1+r.Intn(5), "0123456789")
		f, _ := strconv.ParseFloat(d+"."+fr, 64)
		return sep(d) + "." + sep(fr), f
	case 5:
		fr := digits(1+r.Intn(4), "0123456789")
		f, _ := strconv.ParseFloat("0."+fr, 64)
		if r.Intn(2) == 0 {
			return "." + fr, f
		}
		return "0." + fr, f
	case 6:
		d := digits(1, "123456789") + digits(r.Intn(3), "0123456789")
		x := r.Intn(12) - 4
		e := []string{"e", "E"}[r.Intn(2)] + strconv.Itoa(x)
		if x >= 0 && r.Intn(2) == 0 {
			e = "e+" + strconv.Itoa(x)
		}
		f, _ := strconv.ParseFloat(d+"e"+strconv.Itoa(x), 64)
		return d + e, f
	case 7:
		return strconv.Itoa(r.Intn(4)), 0 // value filled in by the caller
	default:
		d := digits(1, "123456789") + digits(nd-1, "0123456789")
		return sep(d), val(d, 10)
	}
}

func (g *c11gen) num() c11e {
	s, f := c11Num(g.r)
	if len(s) == 1 {
		f = float64(s[0] - '0')
	}
	return c11e{s, f, c11Prim}
}

func (g *c11gen) prim() c11e {
	switch g.r.Intn(8) {
	case 0, 1, 2:
		return g.num()
	case 3:
		t := []string{"", "a", "b", "production", "x y", "0", "1"}[g.r.Intn(7)]
		return c11e{strconv.Quote(t), t, c11Prim}
	case 4:
		b := g.r.Intn(2) == 0
		return c11e{strconv.FormatBool(b), b, c11Prim}
	case 5:
		return c11e{[]string{"null", "undefined"}[g.r.Intn(2)], nil, c11Prim}
	default:
		n := []string{"n", "m", "s", "e", "t", "f", "z", "nothing"}[g.r.Intn(8)]
		return c11e{n, g.vars[n], c11Prim}
	}
}

func (g *c11gen) arr(d int) c11e {
	if g.r.Intn(3) == 0 {
		return c11e{"arr", g.vars["arr"], c11Prim}
	}
	n := g.r.Intn(4)
	v := make([]interface{}, n)
	var p []string
	for i := range v {
		if g.r.Intn(6) == 0 && i < n-1 {
			p = append(p, "")
			continue
		}
		e := g.expr(d-1)
		for {
			if _, ok := e.v.([]interface{}); !ok {
				break
			}
			e = g.prim()
		}
		v[i] = e.v
		p = append(p, g.paren(e, c11Or))
	}
	return c11e{"[" + strings.Join(p, ", ") + "]", v, c11Prim}
}

func (g *c11gen) expr(d int) c11e {
	if d <= 0 {
		return g.prim()
	}
	for {
		switch g.r.Intn(9) {
		case 0:
			a, b := g.expr(d-1), g.expr(d-1)
			fa, na := a.v.(float64)
			fb, nb := b.v.(float64)
			var v interface{}
			if na && nb {
				v = fa + fb
			} else {
				_, sa := a.v.(string)
				_, sb := b.v.(string)
				ta, oka := c11Str(a.v)
				tb, okb := c11Str(b.v)
				if !(sa || sb) || !oka || !okb {
					continue
				}
				v = ta + tb
			}
			return c11e{g.paren(a, c11Add) + " + " + g.paren(b, c11Mul), v, c11Add}
		case 1:
			a, b := g.expr(d-1), g.expr(d-1)
			fa, na := a.v.(float64)
			fb, nb := b.v.(float64)
			if !na || !nb {
				continue
			}
			switch g.r.Intn(3) {
			case 0:
				return c11e{g.paren(a, c11Add) + " - " + g.paren(b, c11Mul), fa - fb, c11Add}
			case 1:
				return c11e{g.paren(a, c11Mul) + " * " + g.paren(b, c11Un), fa * fb, c11Mul}
			}
			return c11e{g.paren(a, c11Mul) + " / " + g.paren(b, c11Un), fa / fb, c11Mul}
		case 2:
			a, b := g.expr(d-1), g.expr(d-1)
			if g.r.Intn(4) == 0 {
				b = a
			}
			if a.v == nil || b.v == nil || reflect.TypeOf(a.v) != reflect.TypeOf(b.v) {
				continue
			}
			switch a.v.(type) {
			case float64, string, bool:
			default:
				continue
			}
			eq := a.v == b.v
			op := []string{"==", "===", "!=", "!=="}[g.r.Intn(4)]
			if op[0] == '!' {
				eq = !eq
			}
			return c11e{g.paren(a, c11Eq) + " " + op + " " + g.paren(b, c11Add), eq, c11Eq}
		case 3:
			a, b := g.expr(d-1), g.expr(d-1)
			v := a.v
			if c11Truthy(v) {
				v = b.v
			}
			return c11e{g.paren(a, c11And) + " && " + g.paren(b, c11Eq), v, c11And}
		case 4:
			a, b := g.expr(d-1), g.expr(d-1)
			v := a.v
			if !c11Truthy(v) {
				v = b.v
			}
			return c11e{g.paren(a, c11Or) + " || " + g.paren(b, c11And), v, c11Or}
		case 5:
			a := g.expr(d - 1)
			return c11e{"!" + g.paren(a, c11Un), !c11Truthy(a.v), c11Un}
		case 6: // an element of an array
			a := g.arr(d)
			arr := a.v.([]interface{})
			i := g.r.Intn(len(arr) + 2)
			ix := strconv.Itoa(i)
			var v interface{}
			switch g.r.Intn(5) {
			case 0:
				ix = "i"
				i = int(g.vars["i"].(float64))
			case 1:
				ix = strconv.Itoa(i) + ".5"
				i = -1
			case 2:
				ix = strconv.Itoa(i) + " - 0"
			case 3:
				ix = "0 - 1"
				i = -1
			}
			if i >= 0 && i < len(arr) {
				v = arr[i]
			}
			return c11e{a.s + "[" + ix + "]", v, c11Prim}
		case 7: // a property of an object
			k := []string{"p", "q", "r", "0"}[g.r.Intn(4)]
			o := g.vars["o"].(map[string]interface{})
			sub, _ := o["sub"].(map[string]interface{})
			switch g.r.Intn(5) {
			case 0:
				if k == "0" {
					return c11e{"o[0]", o[k], c11Prim}
				}
				return c11e{"o." + k, o[k], c11Prim}
			case 1:
				return c11e{"o[\"" + k + "\"]", o[k], c11Prim}
			case 2:
				kk := g.vars["k"].(string)
				return c11e{"o[k]", o[kk], c11Prim}
			case 3:
				return c11e{"o.sub[\"" + k + "\"]", sub[k], c11Prim}
			default:
				if k == "0" {
					k = "k"
				}
				return c11e{"o.sub." + k, sub[k], c11Prim}
			}
		default: // membership
			a := g.arr(d)
			arr := a.v.([]interface{})
			x := g.prim()
			if len(arr) > 0 && g.r.Intn(2) == 0 {
				x.v = arr[g.r.Intn(len(arr))]
				s, ok := x.v.(string)
				if !ok || x.v == nil {
					continue
				}
				x.s = strconv.Quote(s)
			}
			if f, ok := x.v.(float64); ok && math.IsNaN(f) {
				continue
			}
			if x.v == nil { // undefined and null are one value here
				continue
			}
			in := false
			for _, y := range arr {
				if f, ok := y.(float64); ok && math.IsNaN(f) {
					continue
				}
				in = in || y == x.v
			}
			return c11e{a.s + ".includes(" + x.s + ")", in, c11Prim}
		}
	}
}

func c11Vars(r *rand.Rand) map[string]interface{} {
	return map[string]interface{}{
		"n": float64(r.Intn(5)), "m": 2.5, "z": 0.0, "s": "abc", "e": "", "t": true, "f": false,
		"i": float64(r.Intn(3)), "k": []string{"p", "q", "k"}[r.Intn(3)],
		"arr": []interface{}{1.0, "a", false, "b"},
		"o":   map[string]interface{}{"p": 1.0, "q": "w", "k": "own", "0": "zero", "sub": map[string]interface{}{"p": "deep", "r": false, "k": 7.0}},
	}
}

func c11Same(a, b interface{}) bool {
	fa, ok1 := a.(float64)
	fb, ok2 := b.(float64)
	if ok1 && ok2 && math.IsNaN(fa) && math.IsNaN(fb) {
		return true
	}
	aa, ok1 := a.([]interface{})
	bb, ok2 := b.([]interface{})
	if ok1 && ok2 {
		if len(aa) != len(bb) {
			return false
		}
		for i := range aa {
			if !c11Same(aa[i], bb[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func c11Eval(code string, vars map[string]interface{}) (interface{}, string) {
	opts := parser.NewParserOpts()
	opts.Feature = opts.Feature.Off(parser.FEAT_STRICT).Off(parser.FEAT_MODULE)
	p := parser.NewParser(span.NewSource("", code), opts)
	ast, err := p.Prog()
	if err != nil {
		return nil, "rejected: " + err.Error()
	}
	st := ast.(*parser.Prog).Body()[0].(*parser.ExprStmt)
	ee := NewExprEvaluator(st.Expr(), p)
	v, err := ee.Exec(vars).GetResult()
	if err != nil {
		return nil, "error: " + err.Error()
	}
	if ee.stk.Len() != 0 {
		return v, fmt.Sprintf("%d operands left over", ee.stk.Len())
	}
	return v, ""
}

func TestVerifC11(t *testing.T) {
	v := vNew(t, "C11")
	r := vRand()
	var dump *os.File
	if f := os.Getenv("C11_DUMP"); f != "" {
		dump, _ = os.Create(f)
	}
	for n := 0; n < vPick(30000, 400000) && v.more(); n++ {
		s, f := c11Num(r)
		if len(s) == 1 {
			f = float64(s[0] - '0')
		}
		v.check("literal", s, func() string {
			g, e := c11Eval("("+s+")", nil)
			if e != "" {
				return e
			}
			if g != interface{}(f) {
				return fmt.Sprintf("%s evaluates to %v, expected %v", s, g, f)
			}
			return ""
		})
	}
	for n := 0; n < vPick(60000, 1000000) && v.more(); n++ {
		g := &c11gen{r, c11Vars(r)}
		e := g.expr(1 + r.Intn(4))
		if dump != nil {
			fmt.Fprintf(dump, "%q\t%q\t%v\t%v\n", e.s, fmt.Sprintf("%T %v", e.v, e.v), g.vars["n"], fmt.Sprintf("%v %v", g.vars["i"], g.vars["k"]))
		}
		v.check("eval", e.s, func() string {
			got, msg := c11Eval("("+e.s+")", g.vars)
			if msg != "" {
				return msg
			}
			if !c11Same(got, e.v) {
				return fmt.Sprintf("evaluates to %T(%v), expected %T(%v); vars %v", got, got, e.v, e.v, g.vars)
			}
			return ""
		})
	}
	v.done()
}
