package parser

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/hsiaosiyuan0/mole/span"
)

var c04Toks = []string{"a", "bc", "if", "1", "0x1f", "'s'", "\"q\\n\"", "(", ")", "[", "]", "{", "}", ";", ",", "+", "++", "=>", "=", "==", "===", "...", "<", ">>", ">>>=", "!", "?.", "??", "\n", "/*c*/", "//x\n", "of", "in", "`t`", "`a${", "}`", "#p", "é", "\\u0061", "\"\\", "@", "😀"}

func c04Code(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(c04Toks[r.Intn(len(c04Toks))])
		if r.Intn(3) > 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

type c04Tok struct {
	V      TokenValue
	Rng    span.Range
	Txt    span.Range
	Text   string
	Len    uint32
	Alt    bool
}

func c04Snap(t *Token) c04Tok { return c04Tok{t.value, t.rng, t.txt, t.text, t.len, t.afterLineTerm} }

func c04Lexer(code string) *Lexer {
	l := NewLexer(span.NewSource("", code))
	l.feat = NewParserOpts().Feature
	return l
}

// TestVerifC04: reading ahead and backtracking never change which tokens are delivered.
func TestVerifC04(t *testing.T) {
	v := vNew(t, "C04")
	r := vRand()

	// the ring against a queue
	for n := 0; n < vPick(2000, 40000) && v.more(); n++ {
		k := 1 + r.Intn(30)
		ops := make([]int, k)
		for i := range ops {
			ops[i] = r.Intn(4)
		}
		v.check("ring", ops, func() string {
			b := &TokensBuf{}
			var q []uint32
			next := uint32(1)
			for i, op := range ops {
				switch op {
				case 0, 1:
					if b.writable() != (len(q) < 5) {
						return fmt.Sprintf("step %d: writable %v with %d tokens", i, b.writable(), len(q))
					}
					if len(q) == 5 {
						continue
					}
					tok := b.newToken()
					tok.len = next
					b.write(tok)
					q = append(q, next)
					next++
				case 2:
					if b.readable() != (len(q) > 0) {
						return fmt.Sprintf("step %d: readable %v with %d tokens", i, b.readable(), len(q))
					}
					if len(q) == 0 {
						continue
					}
					if g := b.read(); g.len != q[0] {
						return fmt.Sprintf("step %d: read %d, expected %d", i, g.len, q[0])
					}
					q = q[1:]
				case 3:
					if len(q) > 0 && b.cur().len != q[0] {
						return fmt.Sprintf("step %d: cur %d, expected %d", i, b.cur().len, q[0])
					}
				}
				for j, x := range q {
					if b.buf[(b.r+j)%5].len != x {
						return fmt.Sprintf("step %d: token %d of the ring is %d, expected %d", i, j, b.buf[(b.r+j)%5].len, x)
					}
				}
			}
			return ""
		})
	}

	// modes against a stack
	kinds := []LexerModeKind{LM_NONE, LM_STRICT, LM_ASYNC, LM_TS, LM_TEMPLATE, LM_JSX, LM_JSX_CHILD, LM_TS_TYP_ARG, LM_STRICT | LM_TS, LM_TEMPLATE | LM_ASYNC}
	for n := 0; n < vPick(3000, 60000) && v.more(); n++ {
		k := 1 + r.Intn(25)
		ops := make([][2]int, k)
		for i := range ops {
			ops[i] = [2]int{r.Intn(8), r.Intn(len(kinds))}
		}
		v.check("modes", ops, func() string {
			l := c04Lexer("a b c")
			st := []LexerModeKind{LM_NONE}
			var saved [][]LexerModeKind
			for i, op := range ops {
				m := kinds[op[1]]
				top := len(st) - 1
				switch op[0] {
				case 0:
					l.PushMode(m, false)
					st = append(st, m)
				case 1:
					l.PushMode(m, true)
					st = append(st, m|(st[top]&(LM_STRICT|LM_ASYNC|LM_TS)))
				case 2:
					g := l.PopMode()
					if top == 0 {
						st[0] = LM_NONE
					} else {
						if g.kind != st[top] {
							return fmt.Sprintf("step %d: popped %d, expected %d", i, g.kind, st[top])
						}
						st = st[:top]
					}
				case 3:
					l.AddMode(m)
					st[top] |= m
				case 4:
					l.EraseMode(m)
					st[top] &^= m
				case 5:
					l.PushState()
					saved = append(saved, append([]LexerModeKind{}, st...))
				case 6:
					if len(saved) > 0 {
						l.PopState()
						st = append([]LexerModeKind{}, saved[len(saved)-1]...)
						saved = saved[:len(saved)-1]
					}
				case 7:
					if len(saved) > 0 {
						l.DiscardState()
						saved = saved[:len(saved)-1]
					}
				}
				if len(l.state.mode) != len(st) {
					return fmt.Sprintf("step %d: %d modes, expected %d", i, len(l.state.mode), len(st))
				}
				for j := range st {
					if l.state.mode[j].kind != st[j] {
						return fmt.Sprintf("step %d: mode %d is %d, expected %d", i, j, l.state.mode[j].kind, st[j])
					}
				}
				for _, q := range kinds[1:] {
					if l.IsMode(q) != (st[len(st)-1]&q != 0) {
						return fmt.Sprintf("step %d: IsMode(%d) = %v in mode %d", i, q, l.IsMode(q), st[len(st)-1])
					}
				}
			}
			return ""
		})
	}

	// lookahead and backtracking against plain reading
	for n := 0; n < vPick(4000, 80000) && v.more(); n++ {
		code := c04Code(r, 1+r.Intn(14))
		seed := r.Int63()
		in := map[string]interface{}{"code": code, "seed": seed}
		v.check("stream", in, func() string {
			var want []c04Tok
			l := c04Lexer(code)
			for i := 0; i < 200; i++ {
				tok := l.Next()
				if l.state.prtVal != tok.value || l.PrevTokRng() != tok.rng {
					return "Next does not record the token it read"
				}
				want = append(want, c04Snap(tok))
				if tok.value == T_EOF || tok.value == T_ILLEGAL {
					break
				}
			}
			at := func(i int) c04Tok {
				if i >= len(want) {
					return want[len(want)-1]
				}
				return want[i]
			}
			rr := rand.New(rand.NewSource(seed))
			l = c04Lexer(code)
			pos := 0
			type sv struct {
				pos int
				st  LexerState
				of  uint32
			}
			var saved []sv
			stuck := func(i int) bool { return i >= len(want)-1 }
			for step := 0; step < 60; step++ {
				op := rr.Intn(9)
				n := l.state.tb.len
				switch op {
				case 0, 1:
					if stuck(pos) {
						break
					}
					// a token read ahead of others leaves the regexp context of the last one read
					tok := l.Next()
					if g := c04Snap(tok); g != at(pos) {
						return fmt.Sprintf("step %d: token %d is %v after lookahead, %v without", step, pos, g, at(pos))
					}
					if l.state.prtVal != tok.value || l.PrevTokRng() != tok.rng {
						return "Next does not record the token it read"
					}
					pos++
				case 2, 3:
					if n == 0 && stuck(pos) {
						break
					}
					before := l.state
					bo := l.src.Ofst()
					g := c04Snap(l.Peek())
					if g != at(pos) {
						return fmt.Sprintf("step %d: peek at token %d gives %v, expected %v", step, pos, g, at(pos))
					}
					if n > 0 && (l.src.Ofst() != bo || !reflect.DeepEqual(before, l.state)) {
						return fmt.Sprintf("step %d: peek with a token ready changed the state", step)
					}
				case 4:
					if n >= 5 || stuck(pos+n) {
						break
					}
					if g := c04Snap(l.PeekGrow()); g != at(pos+n) {
						return fmt.Sprintf("step %d: lookahead %d from token %d gives %v, expected %v", step, n, pos, g, at(pos+n))
					}
				case 5:
					if stuck(pos) || stuck(pos+1) {
						break
					}
					if g := c04Snap(l.Peek2nd()); g != at(pos+1) {
						return fmt.Sprintf("step %d: second token from %d gives %v, expected %v", step, pos, g, at(pos+1))
					}
				case 6:
					l.PushState()
					l.src.PushState()
					st := l.state
					st.mode = append([]LexerMode{}, l.state.mode...)
					saved = append(saved, sv{pos, st, l.src.Ofst()})
				case 7:
					if k := len(saved); k > 0 {
						l.src.PopState()
						l.PopState()
						if !reflect.DeepEqual(l.state, saved[k-1].st) || l.src.Ofst() != saved[k-1].of {
							return fmt.Sprintf("step %d: restored state differs from the saved one", step)
						}
						pos = saved[k-1].pos
						saved = saved[:k-1]
					}
				case 8:
					if k := len(saved); k > 0 && rr.Intn(2) == 0 {
						l.src.DiscardState()
						l.DiscardState()
						saved = saved[:k-1]
					}
				}
			}
			return ""
		})
	}
	v.done()
}
