package parser

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"
	"unicode"

	"github.com/hsiaosiyuan0/mole/span"
)

// A reference tokenizer: the longest match among the token classes of ECMAScript.

var c06Punct = map[string]TokenValue{
	"{": T_BRACE_L, "}": T_BRACE_R, "(": T_PAREN_L, ")": T_PAREN_R, "[": T_BRACKET_L, "]": T_BRACKET_R,
	".": T_DOT, "...": T_DOT_TRI, ";": T_SEMI, ",": T_COMMA, "?": T_HOOK, ":": T_COLON, "++": T_INC, "--": T_DEC,
	"?.": T_OPT_CHAIN, "=>": T_ARROW, "??": T_NULLISH, "<": T_LT, ">": T_GT, "<=": T_LTE, ">=": T_GTE,
	"==": T_EQ, "!=": T_NE, "===": T_EQ_S, "!==": T_NE_S, "<<": T_LSH, ">>": T_RSH, ">>>": T_RSH_U,
	"|": T_BIT_OR, "^": T_BIT_XOR, "&": T_BIT_AND, "||": T_OR, "&&": T_AND, "+": T_ADD, "-": T_SUB, "*": T_MUL,
	"/": T_DIV, "%": T_MOD, "**": T_POW, "!": T_NOT, "~": T_BIT_NOT, "=": T_ASSIGN, "+=": T_ASSIGN_ADD,
	"-=": T_ASSIGN_SUB, "??=": T_ASSIGN_NULLISH, "||=": T_ASSIGN_OR, "&&=": T_ASSIGN_AND, "|=": T_ASSIGN_BIT_OR,
	"^=": T_ASSIGN_BIT_XOR, "&=": T_ASSIGN_BIT_AND, "<<=": T_ASSIGN_BIT_LSH, ">>=": T_ASSIGN_BIT_RSH,
	">>>=": T_ASSIGN_BIT_RSH_U, "*=": T_ASSIGN_MUL, "/=": T_ASSIGN_DIV, "%=": T_ASSIGN_MOD, "**=": T_ASSIGN_POW,
}

var c06Kw = map[string]TokenValue{
	"break": T_BREAK, "case": T_CASE, "catch": T_CATCH, "class": T_CLASS, "continue": T_CONTINUE, "debugger": T_DEBUGGER,
	"default": T_DEFAULT, "do": T_DO, "else": T_ELSE, "enum": T_ENUM, "export": T_EXPORT, "extends": T_EXTENDS,
	"finally": T_FINALLY, "for": T_FOR, "function": T_FUNC, "if": T_IF, "import": T_IMPORT, "new": T_NEW, "return": T_RETURN,
	"super": T_SUPER, "switch": T_SWITCH, "this": T_THIS, "throw": T_THROW, "try": T_TRY, "var": T_VAR, "while": T_WHILE,
	"with": T_WITH, "void": T_VOID, "null": T_NULL, "true": T_TRUE, "false": T_FALSE, "typeof": T_TYPE_OF,
	"delete": T_DELETE, "instanceof": T_INSTANCE_OF,
}
var c06Strict = map[string]TokenValue{
	"let": T_LET, "const": T_CONST, "static": T_STATIC, "implements": T_IMPLEMENTS, "interface": T_INTERFACE,
	"package": T_PACKAGE, "private": T_PRIVATE, "protected": T_PROTECTED, "public": T_PUBLIC, "yield": T_YIELD,
}

func c06IdStart(c rune) bool {
	if c == '$' || c == '_' {
		return true
	}
	return (unicode.IsLetter(c) || unicode.Is(unicode.Nl, c) || unicode.Is(unicode.Other_ID_Start, c)) &&
		!unicode.Is(unicode.Pattern_Syntax, c) && !unicode.Is(unicode.Pattern_White_Space, c)
}
func c06IdPart(c rune) bool {
	if c06IdStart(c) || c == 0x200c || c == 0x200d {
		return true
	}
	return unicode.In(c, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue)
}

func c06Longest(s string) *regexp.Regexp {
	r := regexp.MustCompile("^(?:" + s + ")")
	r.Longest()
	return r
}

const c06Digits = `[0-9](?:_?[0-9])*`

var c06Num = c06Longest(`0[bB][01](?:_?[01])*n?|0[oO][0-7](?:_?[0-7])*n?|0[xX][0-9a-fA-F](?:_?[0-9a-fA-F])*n?|0[0-7]+|` +
	`(?:0|[1-9](?:_?[0-9])*)(?:\.(?:` + c06Digits + `)?)?(?:[eE][+-]?` + c06Digits + `)?|\.` + c06Digits + `(?:[eE][+-]?` + c06Digits + `)?|(?:0|[1-9](?:_?[0-9])*)n`)
var c06Str = c06Longest(`'(?:[^'\\\n\r]|\\[^ux0-9\n\r])*'|"(?:[^"\\\n\r]|\\[^ux0-9\n\r])*"`)
var c06Reg = c06Longest(`/(?:[^*/\[\\\n\r\x{2028}\x{2029}]|\\[^\n\ru]|\[(?:[^\]\\\n\r\x{2028}\x{2029}]|\\[^\n\ru])*\])(?:[^/\[\\\n\r\x{2028}\x{2029}]|\\[^\n\ru]|\[(?:[^\]\\\n\r\x{2028}\x{2029}]|\\[^\n\ru])*\])*/`)
var c06Cmt = c06Longest(`//[^\n\r\x{2028}\x{2029}]*`)

type c06Tok struct {
	val    TokenValue
	lo, hi int
	nl     bool
}

// the tokens of s; a token of value T_ILLEGAL ends the list where the text is malformed
func c06Ref(s string, strict bool) []c06Tok {
	var out []c06Tok
	i, nl := 0, false
	expr, any := true, false // an operand may begin here; neither a division nor a regexp may follow
	isNL := func(t string) bool { return strings.ContainsAny(t, "\n\r\u2028\u2029") }
	add := func(v TokenValue, n int, before bool) {
		out = append(out, c06Tok{v, i, i + n, nl})
		i, nl, expr, any = i+n, false, before, false
	}
	for {
		rest := s[i:]
		if rest == "" {
			add(T_EOF, 0, false)
			return out
		}
		c := []rune(rest)[0]
		if unicode.IsSpace(c) {
			n := len(string(c))
			nl = nl || isNL(rest[:n])
			i += n
			continue
		}
		if m := c06Cmt.FindString(rest); m != "" {
			i += len(m)
			continue
		}
		if strings.HasPrefix(rest, "/*") {
			e := strings.Index(rest[2:], "*/")
			if e < 0 {
				add(T_ILLEGAL, 0, false)
				return out
			}
			nl = nl || isNL(rest[:e+4])
			i += e + 4
			continue
		}
		if c06IdStart(c) {
			n := 0
			for _, c := range rest {
				if !c06IdPart(c) {
					break
				}
				n += len(string(c))
			}
			w := rest[:n]
			v, ok := c06Kw[w]
			if !ok && strict {
				v, ok = c06Strict[w]
			}
			if !ok {
				add(T_NAME, n, false)
			} else {
				add(v, n, !strings.Contains(" this super null true false ", " "+w+" "))
				any = expr && !strings.Contains(" case delete extends instanceof new return throw typeof void ", " "+w+" ")
			}
			continue
		}
		if m := c06Num.FindString(rest); m != "" {
			after := []rune(rest[len(m):] + " ")[0]
			legacy := len(m) > 1 && m[0] == '0' && m[1] >= '0' && m[1] <= '7'
			if after >= '0' && after <= '9' {
				return out // an error either way, one token later
			}
			if c06IdStart(after) || after == '\\' || legacy && (strict || after == '_') {
				add(T_ILLEGAL, 0, false)
				return out
			}
			add(T_NUM, len(m), false)
			continue
		}
		if m := c06Str.FindString(rest); m != "" {
			add(T_STRING, len(m), false)
			continue
		}
		if c == '/' && any {
			return out
		}
		if c == '/' && expr {
			m := c06Reg.FindString(rest)
			if m == "" {
				add(T_ILLEGAL, 0, false)
				return out
			}
			if !c06Balanced(m) {
				return out // not a pattern
			}
			n := len(m)
			for _, c := range rest[n:] {
				if !c06IdPart(c) {
					break
				}
				n += len(string(c))
			}
			add(T_REGEXP, n, false)
			continue
		}
		best := ""
		for p := range c06Punct {
			if strings.HasPrefix(rest, p) && len(p) > len(best) {
				if p == "?." && len(rest) > 2 && rest[2] >= '0' && rest[2] <= '9' {
					continue
				}
				best = p
			}
		}
		if best == "" {
			add(T_ILLEGAL, 0, false)
			return out
		}
		v := c06Punct[best]
		add(v, len(best), v != T_PAREN_R && v != T_BRACKET_R && v != T_BRACE_R && v != T_INC && v != T_DEC)
		any = v == T_DOT || v == T_OPT_CHAIN || v == T_BRACE_R || v == T_INC || v == T_DEC
	}
}

// the groups of a pattern are balanced
func c06Balanced(m string) bool {
	d, cls, esc := 0, false, false
	for _, c := range m {
		switch {
		case esc:
			esc = false
		case c == '\\':
			esc = true
		case cls:
			cls = c != ']'
		case c == '[':
			cls = true
		case c == '(':
			d++
		case c == ')':
			if d--; d < 0 {
				return false
			}
		}
	}
	return d == 0
}

func c06Run(s string, strict bool) string {
	ref := c06Ref(s, strict)
	opts := NewParserOpts()
	p := NewParser(span.NewSource("", s), opts)
	l := p.lexer
	if strict {
		l.AddMode(LM_STRICT)
	} else {
		l.EraseMode(LM_STRICT)
	}
	for i, w := range ref {
		t := l.Next()
		if w.val == T_ILLEGAL {
			if t.value != T_ILLEGAL {
				return fmt.Sprintf("token %d: %s at %d..%d, but the text at %d is malformed", i, TokenKinds[t.value].Name, t.rng.Lo, t.rng.Hi, w.lo)
			}
			return ""
		}
		if t.value != w.val || int(t.rng.Lo) != w.lo || w.val != T_EOF && int(t.rng.Hi) != w.hi {
			return fmt.Sprintf("token %d: %s at %d..%d, should be %s at %d..%d", i, TokenKinds[t.value].Name, t.rng.Lo, t.rng.Hi, TokenKinds[w.val].Name, w.lo, w.hi)
		}
		if t.afterLineTerm != w.nl {
			return fmt.Sprintf("token %d (%s at %d): preceded by a line break: %v, should be %v", i, TokenKinds[t.value].Name, w.lo, t.afterLineTerm, w.nl)
		}
		if w.val != T_EOF && int(t.len) != len([]rune(s[w.lo:w.hi])) {
			return fmt.Sprintf("token %d: length %d, should be %d", i, t.len, len([]rune(s[w.lo:w.hi])))
		}
	}
	return ""
}

func c06OK(s string) bool {
	// outside the oracle: a closing brace without an opening one
	d := 0
	for _, c := range s {
		if c == '{' {
			d++
		} else if c == '}' {
			if d--; d < 0 {
				return false
			}
		}
	}
	return true
}

func TestVerifC06(t *testing.T) {
	v := vNew(t, "C06")
	r := vRand()
	defer v.done()
	// every code point
	bad := ""
	for c := rune(0); c <= unicode.MaxRune && bad == ""; c++ {
		if c == '\\' {
			continue
		}
		if IsIdStart(c) != c06IdStart(c) {
			bad = fmt.Sprintf("U+%04X as the start of a name: %v", c, IsIdStart(c))
		} else if (IsIdStart(c) || IsIdPart(c)) != c06IdPart(c) {
			bad = fmt.Sprintf("U+%04X inside a name: %v", c, IsIdStart(c) || IsIdPart(c))
		}
	}
	v.check("idchars", "all code points", func() string { return bad })
	// every keyword and its neighbours
	for _, m := range []map[string]TokenValue{c06Kw, c06Strict} {
		for w := range m {
			for _, s := range []string{w, w + "x", "x" + w, w + "$", w[:len(w)-1], strings.ToUpper(w), "a." + w, w + "(", w + "/a/"} {
				for _, st := range []bool{false, true} {
					s, st := s, st
					v.check("keyword", s, func() string { return c06Run(s, st) })
				}
			}
		}
	}
	// every string of up to 3 (4) punctuation characters, with an operand before and after
	al := []string{"+", "-", "=", "<", ">", "*", "|", "&", "%", "!", "~", "^", "?", ".", ":", ";", ",", "(", ")", "[", "]", "1", "a", " ", "\n"}
	var rec func(p string, n int)
	rec = func(p string, n int) {
		for _, s := range []string{p, "a" + p, p + "5"} {
			s := s
			v.cases++
			if bad := c06Run(s, false); bad != "" {
				v.fail("punct", s, bad)
			}
		}
		if n == 0 || !v.more() {
			return
		}
		for _, a := range al {
			rec(p+a, n-1)
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				v.fail("punct", "punctuation", fmt.Sprint("panic: ", e))
			}
		}()
		rec("", vPick(3, 4))
	}()
	// random texts
	pieces := []string{"a", "b1", "éa", "变", "ⅷ", "々x", "$", "_", "if", "typeof", "let", "static", "this", "null", "of", "async",
		"0", "1", "12", "1.5", ".5", "5.", "1e3", "1E-3", "0x1F", "0b10", "0o17", "017", "1_0", "1n", "0n", "0x1n", "'s'", "\"t 'é\"", "'/*'",
		"/re/g", "/[/]\\//", "/(a)/", "/*c*/", "/* é\n */", "//c\n", "// é\u2028", "/**/", "/***/", "/*\r\n*/", "/*\u2028*/", "/* \u2029 */", "/*\r*/",
		" ", " ", "\t", "\n", "\r\n", "\r", "\u2028", "\u00a0", "\u3000",
		"/", "/=", ")", "]", "(", "[", "{", "}", "e", "x", "n", ".", "..", "...", "?.", "?", "??", "??="}
	for p := range c06Punct {
		if p != "/" && p != "/=" {
			pieces = append(pieces, p)
		}
	}
	sortStrings06(pieces)
	n := vPick(120000, 2000000)
	for i := 0; i < n && v.more(); i++ {
		s := c06Gen(r, pieces)
		if !c06OK(s) {
			continue
		}
		st := r.Intn(2) == 0
		v.check(c06Key(s), s, func() string { return c06Run(s, st) })
	}
}

func c06Key(s string) string { return "text" }

func sortStrings06(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func c06Gen(r *rand.Rand, pieces []string) string {
	var b strings.Builder
	k := 1 + r.Intn(9)
	for i := 0; i < k; i++ {
		b.WriteString(pieces[r.Intn(len(pieces))])
		if r.Intn(3) == 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}
