package parser

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode/utf16"

	"github.com/hsiaosiyuan0/mole/span"
)

// An independent evaluator of string and template contents, identifier names and JSX text.

func c05Hex(c rune) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// the escape after \u at cs[i]: its value, the next index, whether it is legal
func c05U(cs []rune, i int) (rune, int, bool) {
	if i < len(cs) && cs[i] == '{' {
		v, j := 0, i+1
		for ; j < len(cs) && c05Hex(cs[j]) >= 0; j++ {
			if v = v*16 + c05Hex(cs[j]); v > 0x10FFFF {
				v = 0x110000
			}
		}
		if j == i+1 || j >= len(cs) || cs[j] != '}' || v > 0x10FFFF {
			return 0, i, false
		}
		return rune(v), j + 1, true
	}
	v := 0
	for k := 0; k < 4; k++ {
		if i+k >= len(cs) || c05Hex(cs[i+k]) < 0 {
			return 0, i, false
		}
		v = v*16 + c05Hex(cs[i+k])
	}
	return rune(v), i + 4, true
}

func c05LT(c rune) bool { return c == '\n' || c == '\r' || c == 0x2028 || c == 0x2029 }

func c05Units(us []uint16, c rune) []uint16 {
	if c >= 0x10000 {
		a, b := utf16.EncodeRune(c)
		return append(us, uint16(a), uint16(b))
	}
	return append(us, uint16(c))
}

// the value of the characters cs of a string (tpl: of a template)
func c05Val(cs []rune, tpl, strict bool) (string, bool) {
	var us []uint16
	for i := 0; i < len(cs); {
		c := cs[i]
		i++
		if c == '\r' && tpl {
			if i < len(cs) && cs[i] == '\n' {
				i++
			}
			us = append(us, '\n')
			continue
		}
		if !tpl && (c == '\n' || c == '\r') {
			return "", false
		}
		if c != '\\' {
			us = c05Units(us, c)
			continue
		}
		if i >= len(cs) {
			return "", false
		}
		e := cs[i]
		i++
		switch {
		case c05LT(e):
			if e == '\r' && i < len(cs) && cs[i] == '\n' {
				i++
			}
		case e == 'u':
			v, n, ok := c05U(cs, i)
			if !ok {
				return "", false
			}
			us = c05Units(us, v)
			i = n
		case e == 'x':
			if i+1 >= len(cs) || c05Hex(cs[i]) < 0 || c05Hex(cs[i+1]) < 0 {
				return "", false
			}
			us = append(us, uint16(c05Hex(cs[i])*16+c05Hex(cs[i+1])))
			i += 2
		case e >= '0' && e <= '7':
			dig := func(k int) bool { return k < len(cs) && cs[k] >= '0' && cs[k] <= '7' }
			if e == '0' && !(i < len(cs) && cs[i] >= '0' && cs[i] <= '9') {
				us = append(us, 0)
				break
			}
			if tpl || strict {
				return "", false
			}
			v := int(e - '0')
			for n := 1; dig(i) && v*8+int(cs[i]-'0') <= 255 && n < 3; n++ {
				v = v*8 + int(cs[i]-'0')
				i++
			}
			us = append(us, uint16(v))
		default:
			m := map[rune]rune{'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13}
			if x, ok := m[e]; ok {
				e = x
			}
			us = c05Units(us, e)
		}
	}
	return string(utf16.Decode(us)), true
}

func c05Parse(s string, sloppy bool) (Node, error) {
	o := NewParserOpts()
	if sloppy {
		o.Feature = o.Feature.Off(FEAT_STRICT).Off(FEAT_MODULE)
	}
	p := NewParser(span.NewSource("", s), o)
	ast, err := p.Prog()
	if err != nil {
		return nil, err
	}
	st := ast.(*Prog).stmts
	if len(st) != 1 {
		return nil, fmt.Errorf("%d statements", len(st))
	}
	return st[0].(*ExprStmt).expr, nil
}

func c05Str(body string, q string, sloppy bool) string {
	want, ok := c05Val([]rune(body), false, !sloppy)
	n, err := c05Parse("x="+q+body+q, sloppy)
	if !ok {
		if err == nil {
			return "a malformed string is accepted"
		}
		return ""
	}
	if err != nil {
		return "rejected: " + err.Error()
	}
	s, isStr := n.(*AssignExpr).rhs.(*StrLit)
	if !isStr {
		return "not a string"
	}
	if s.Val() != want {
		return fmt.Sprintf("value %q, should be %q", s.Val(), want)
	}
	if int(s.rng.Lo) != 2 || int(s.rng.Hi) != 2+len(body)+2 {
		return fmt.Sprintf("range %d..%d, should be 2..%d", s.rng.Lo, s.rng.Hi, 4+len(body))
	}
	return ""
}

func c05Tpl(parts []string, tag string) string {
	src := "x=" + tag + "`"
	type el struct {
		val    string
		lo, hi int
		ok     bool
	}
	var want []el
	good := true
	for i, p := range parts {
		if i > 0 {
			src += "${a}"
		}
		val, ok := c05Val([]rune(p), true, true)
		want = append(want, el{val, len(src), len(src) + len(p), ok})
		src += p
		good = good && ok
	}
	src += "`"
	n, err := c05Parse(src, false)
	if !good && tag == "" {
		if err == nil {
			return "a malformed escape is accepted"
		}
		return ""
	}
	if err != nil {
		return "rejected: " + err.Error()
	}
	t, isTpl := n.(*AssignExpr).rhs.(*TplExpr)
	if !isTpl {
		return "not a template"
	}
	if len(t.elems) != 2*len(parts)-1 {
		return fmt.Sprintf("%d elements, should be %d", len(t.elems), 2*len(parts)-1)
	}
	for i, e := range t.elems {
		if i%2 == 1 {
			if id, ok := e.(*Ident); !ok || id.Val() != "a" {
				return fmt.Sprintf("element %d is not the substitution", i)
			}
			continue
		}
		s, ok := e.(*StrLit)
		w := want[i/2]
		if !ok {
			return fmt.Sprintf("element %d is not a string", i)
		}
		if w.ok && s.Val() != w.val {
			return fmt.Sprintf("element %d has the value %q, should be %q", i, s.Val(), w.val)
		}
		if int(s.rng.Lo) != w.lo || int(s.rng.Hi) != w.hi {
			return fmt.Sprintf("element %d spans %d..%d, should be %d..%d", i, s.rng.Lo, s.rng.Hi, w.lo, w.hi)
		}
	}
	return ""
}

// the name spelled by body
func c05Name(body string) (val string, esc, ok bool) {
	cs := []rune(body)
	for i := 0; i < len(cs); {
		c := cs[i]
		i++
		if c == '\\' {
			if i >= len(cs) || cs[i] != 'u' {
				return "", true, false
			}
			v, n, good := c05U(cs, i+1)
			if !good {
				return "", true, false
			}
			c, i, esc = v, n, true
		}
		if val == "" && !c06IdStart(c) || !c06IdPart(c) {
			return "", esc, false
		}
		val += string(c)
	}
	return val, esc, val != ""
}

func c05Ident(body string) string {
	val, esc, ok := c05Name(body)
	for _, form := range []string{"(%s)", "(o.%s)", "({%s:1})"} {
		n, err := c05Parse(fmt.Sprintf(form, body), false)
		if !ok {
			if err == nil {
				return fmt.Sprintf("a malformed name is accepted in "+form, body)
			}
			continue
		}
		_, kw := c06Kw[val]
		_, sk := c06Strict[val]
		if kw || sk || val == "await" {
			// a reserved word is no name, and its letters may not be escaped
			if esc && form == "(%s)" && err == nil {
				return "an escaped keyword is accepted"
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("rejected in "+form+": %v", body, err)
		}
		if p, ok := n.(*ParenExpr); ok {
			n = p.expr
		}
		var id Node
		switch x := n.(type) {
		case *MemberExpr:
			id = x.prop
		case *ObjLit:
			id = x.props[0].(*Prop).key
		default:
			id = n
		}
		i, isId := id.(*Ident)
		if !isId || i.Val() != val {
			return fmt.Sprintf("in "+form+" the name is not %q", body, val)
		}
	}
	return ""
}

var c05Ents = map[string]string{"&amp;": "&", "&lt;": "<", "&gt;": ">", "&nbsp;": "\u00a0", "&copy;": "©", "&eacute;": "é", "&quot;": "\""}

func c05Jsx(body string) string {
	want := ""
	for s := body; s != ""; {
		hit := false
		for e, v := range c05Ents {
			if strings.HasPrefix(s, e) {
				want += v
				s = s[len(e):]
				hit = true
				break
			}
		}
		if !hit {
			c := []rune(s)[0]
			s = s[len(string(c)):]
			if c == '\r' {
				c = '\n'
				s = strings.TrimPrefix(s, "\n")
			}
			want += string(c)
		}
	}
	n, err := c05Parse("x=<a>"+body+"</a>", false)
	if err != nil {
		return "rejected: " + err.Error()
	}
	el := n.(*AssignExpr).rhs.(*JsxElem)
	got := ""
	for _, c := range el.children {
		t, ok := c.(*JsxText)
		if !ok {
			return fmt.Sprintf("a child is a %T", c)
		}
		got += t.val
	}
	if got != want {
		return fmt.Sprintf("text %q, should be %q", got, want)
	}
	return ""
}

func c05Gen(r *rand.Rand, ps []string, max int) string {
	s := ""
	for n := r.Intn(max + 1); n > 0; n-- {
		s += ps[r.Intn(len(ps))]
	}
	return s
}

func TestVerifC05(t *testing.T) {
	v := vNew(t, "C05")
	r := vRand()
	defer v.done()
	str := []string{"a", "Z", "é", "变", "😀", "\u2028", "0", "1", "7", "f", "u", "x", "n", "{", "}", "$", "`", "\"", "/", " ",
		`\n`, `\t`, `\b`, `\v`, `\f`, `\r`, `\'`, `\"`, "\\`", `\\`, `\a`, `\$`, `\é`, `\😀`, `\/`, "\\\n", "\\\r\n", "\\\r", "\\\u2028", "\\\u2029",
		`\0`, `\1`, `\7`, `\12`, `\37`, `\40`, `\377`, `\400`, `\x41`, `\xff`, `\x4`, `\x`, `\xg1`, `\x4g`,
		`\u0041`, `\u00e9`, `\uFFFD`, `\uFFFF`, `\u0000`, `\u004`, `\u`, `\ud83d`, `\ude00`, `\uD83D\uDE00`, `\u{41}`, `\u{1F600}`, `\u{10FFFF}`,
		`\u{110000}`, `\u{}`, `\u{4`, `\u{g}`, `\u{0000000000041}`, `\u{d83d}`, `\u{de00}`, `\u{FFFFFFFFF}`, `\u{100000041}`, "\uFFFD", "A1", "\n", "\r", "\r\n", "\\", "8"}
	bad := func(b, q string) bool {
		// outside: a quote ends the string, \8 and \08
		cs := []rune(b)
		for i := 0; i < len(cs); i++ {
			if cs[i] == '\\' {
				i++
				if i >= len(cs) {
					return true
				}
				if cs[i] == '8' || cs[i] == '9' || cs[i] == '0' && i+1 < len(cs) && (cs[i+1] == '8' || cs[i+1] == '9') {
					return true
				}
			} else if q != "" && string(cs[i]) == q || q == "`" && cs[i] == '$' && i+1 < len(cs) && cs[i+1] == '{' {
				return true
			}
		}
		return false
	}
	one := func(b string) {
		for _, q := range []string{"'", "\""} {
			for _, sl := range []bool{false, true} {
				if q, sl := q, sl; !bad(b, q) {
					v.check("string", b, func() string { return c05Str(b, q, sl) })
				}
			}
		}
		if !bad(b, "`") {
			v.check("template", b, func() string { return c05Tpl([]string{b}, "") })
			if b != "" && !strings.HasSuffix(b, "$") {
				v.check("template2", b, func() string { return c05Tpl([]string{b, "", b}, "") })
				v.check("tagged", b, func() string { return c05Tagged(b) })
			}
		}
	}
	// every sequence of two pieces
	one("")
	for _, a := range str {
		one(a)
		for _, b := range str {
			one(a + b)
		}
	}
	// every code point as an escape and by itself
	for c := rune(0); c <= 0x10FFFF && v.more(); c++ {
		if c > 0x3000 && c%257 != 0 && c != 0xFFFD && (c < 0xD7F0 || c > 0xE010) {
			continue
		}
		one(fmt.Sprintf(`\u{%x}`, c))
		if c <= 0xFFFF {
			one(fmt.Sprintf(`\u%04x`, c))
		}
		if c <= 0xFF {
			one(fmt.Sprintf(`\x%02X`, c))
			one(fmt.Sprintf(`\%o`, c))
			one(fmt.Sprintf(`\%03o`, c))
		}
		if c != '\\' && (c < 0xD800 || c > 0xDFFF) {
			one(string(c))
			one("\\" + string(c))
		}
	}
	for i, n := 0, vPick(12000, 300000); i < n && v.more(); i++ {
		one(c05Gen(r, str, 6))
	}
	for i, n := 0, vPick(6000, 100000); i < n && v.more(); i++ {
		var ps []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			p := c05Gen(r, str, 4)
			for bad(p, "`") || strings.HasSuffix(p, "$") && !strings.HasSuffix(p, `\$`) {
				p = c05Gen(r, str, 4)
			}
			ps = append(ps, p)
		}
		v.check("templates", ps, func() string { return c05Tpl(ps, "") })
	}
	ids := []string{"a", "b", "v", "r", "i", "f", "$", "_", "é", "变", "0", "7", "\u200c", `\u0061`, `\u{61}`, `\u0066`, `\u{1d7d8}`, `\u0030`, `\u{30}`, `\u0020`, `\u{20}`,
		`\u200c`, `\u{200D}`, `\u00e9`, `\u{5c}`, `\u005C`, `\u{}`, `\u{110000}`, `\u00`, `\x61`, `\u{1D400}`, `\u{24}`, `\u002e`, `\u{2e}`, "var", `v\u0061r`, "𝒳", `\u{61`, `\ud835\udc00`}
	for _, a := range ids {
		for _, b := range append([]string{""}, ids...) {
			if s := a + b; c05IdOK(s) {
				v.check("name", s, func() string { return c05Ident(s) })
			}
		}
	}
	for i, n := 0, vPick(8000, 100000); i < n && v.more(); i++ {
		if s := c05Gen(r, ids, 5); s != "" && c05IdOK(s) {
			v.check("names", s, func() string { return c05Ident(s) })
		}
	}
	jx := []string{"a", "b c", "é", "变", " ", "\n", ";", "&", "& ", "#", "1", "amp;", "😀", "'", "\"", "\\n", "\\", "=", "/", "$", "`"}
	for e := range c05Ents {
		jx = append(jx, e)
	}
	sortStrings06(jx)
	for i, n := 0, vPick(8000, 100000); i < n && v.more(); i++ {
		s := c05Gen(r, jx, 6)
		if c05BadEnt(s) {
			continue
		}
		v.check("jsx", s, func() string { return c05Jsx(s) })
	}
}

// outside: a number alone, characters that are no part of a name
func c05IdOK(s string) bool {
	c := []rune(s)[0]
	return !(c >= '0' && c <= '9') && c != 0x200c
}

// outside: an ampersand with a semicolon later that is no entity of the list
func c05BadEnt(s string) bool {
	for e := range c05Ents {
		s = strings.ReplaceAll(s, e, "")
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '&' {
			j := i + 1
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] == '#') {
				j++
			}
			if j < len(s) && s[j] == ';' {
				return true
			}
		}
	}
	return false
}

// a tagged template takes any escape; from a malformed one on only its extent is fixed
func c05Tagged(b string) string {
	return c05Tpl([]string{b, "z"}, "f")
}
