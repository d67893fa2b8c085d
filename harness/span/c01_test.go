package span

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

var spPieces = []string{"a", "\r", "\n", " ", "\u2028", "é", "€", "😀", "\xff", "\xe2\x82", "\u00a0", "\t", "\ufffd", "b", "\x00", "\u2029", "\v", "\f", "\u0085", "\ufeff", "\u180e", "\u3000"}

// independent decoding of the source
type spModel struct {
	code string
	rs   []rune
	of   []int // byte offset of each code point, plus the end
	k    int
	lt   bool
}

func spNew(code string) *spModel {
	m := &spModel{code: code}
	for i := 0; i < len(code); {
		r, n := utf8.DecodeRuneInString(code[i:])
		m.rs = append(m.rs, r)
		m.of = append(m.of, i)
		i += n
	}
	m.of = append(m.of, len(code))
	return m
}

func (m *spModel) at(i int) rune {
	if i < len(m.rs) {
		return m.rs[i]
	}
	return -1
}

func (m *spModel) read() rune {
	r := m.at(m.k)
	if r == -1 {
		return -1
	}
	m.k++
	if r == '\r' {
		if m.at(m.k) == '\n' {
			m.k++
		}
		return '\n'
	}
	return r
}

func (m *spModel) skip() {
	m.lt = false
	for m.k < len(m.rs) && unicode.IsSpace(m.rs[m.k]) {
		switch m.rs[m.k] {
		case '\n', '\r', 0x2028, 0x2029:
			m.lt = true
		}
		m.k++
	}
}

func spInputs(rnd *rand.Rand, depth, pieces, random, rlen int, f func(code string) bool) {
	var rec func(pre string, d int) bool
	rec = func(pre string, d int) bool {
		if !f(pre) {
			return false
		}
		if d == 0 {
			return true
		}
		for _, p := range spPieces[:pieces] {
			if !rec(pre+p, d-1) {
				return false
			}
		}
		return true
	}
	if !rec("", depth) {
		return
	}
	for i := 0; i < random; i++ {
		n := rnd.Intn(rlen)
		var b strings.Builder
		for j := 0; j < n; j++ {
			if rnd.Intn(10) == 0 {
				b.WriteByte(byte(rnd.Intn(256)))
			} else {
				b.WriteString(spPieces[rnd.Intn(len(spPieces))])
			}
		}
		if !f(b.String()) {
			return
		}
	}
}

// drive a cursor and the model with the same operations; names of ops in trace
func spDrive(code string, rnd *rand.Rand, steps int, stack bool) (trace []string, bad string) {
	s := NewSource("p", code)
	m := spNew(code)
	type saved struct {
		k  int
		lt bool
	}
	var ss []saved
	for i := 0; i < steps; i++ {
		n := 12
		if stack {
			n = 15
		}
		op := rnd.Intn(n)
		name := ""
		var got, want interface{}
		switch op {
		case 0, 1, 2:
			name, got, want = "Read", s.Read(), m.read()
		case 3:
			name, got, want = "Peek", s.Peek(), m.at(m.k)
		case 4:
			name, got = "Ahead2nd", s.Ahead2nd()
			if m.k < len(m.rs) {
				want = m.at(m.k + 1)
			} else {
				want = rune(-1)
			}
		case 5:
			c := []rune{'a', '\n', '\r', ' ', -1, utf8.RuneError, '€'}[rnd.Intn(7)]
			name, got, want = fmt.Sprintf("AheadIsCh(%d)", c), s.AheadIsCh(c), m.at(m.k) == c
		case 6:
			c := []rune{'a', '\n', '\r', ' ', -1, utf8.RuneError, '€'}[rnd.Intn(7)]
			name, got, want = fmt.Sprintf("AdvanceIf(%d)", c), s.AdvanceIf(c), m.at(m.k) == c
			if m.at(m.k) == c {
				m.read()
			}
		case 7:
			s.SkipSpace()
			m.skip()
			name, got, want = "SkipSpace;MetLineTerm", s.MetLineTerm(), m.lt
		case 8:
			c1, c2 := m.at(m.k), m.at(m.k+1)
			if rnd.Intn(2) == 0 {
				c1 = 'a'
			}
			if rnd.Intn(2) == 0 {
				c2 = 'b'
			}
			if m.k < len(m.rs) {
				name, got, want = fmt.Sprintf("AheadIsChs2(%d,%d)", c1, c2), s.AheadIsChs2(c1, c2), m.at(m.k) == c1 && m.at(m.k+1) == c2
			}
		case 9:
			c1, c2 := m.at(m.k), rune('b')
			if rnd.Intn(2) == 0 {
				c1, c2 = c2, c1
			}
			if rnd.Intn(3) == 0 {
				c1, c2 = 'a', 'a'
			}
			name, got, want = fmt.Sprintf("AheadIsChOr(%d,%d)", c1, c2), s.AheadIsChOr(c1, c2), m.at(m.k) == c1 || m.at(m.k) == c2
		case 10:
			name, got, want = "AheadIsEOF", s.AheadIsEOF(), m.k == len(m.rs)
		case 11:
			r := s.NewOpenRange()
			r2 := Range{7, 9}
			s.OpenRange(&r2)
			name, got, want = "NewOpenRange", [3]uint32{r.Lo, r.Hi, r2.Lo}, [3]uint32{uint32(m.of[m.k]), uint32(m.of[m.k]), uint32(m.of[m.k])}
		case 12:
			name = "PushState"
			s.PushState()
			ss = append(ss, saved{m.k, m.lt})
		case 13:
			if len(ss) > 0 {
				name = "PopState"
				s.PopState()
				m.k, m.lt = ss[len(ss)-1].k, ss[len(ss)-1].lt
				ss = ss[:len(ss)-1]
			}
		case 14:
			if len(ss) > 0 {
				name = "DiscardState"
				s.DiscardState()
				ss = ss[:len(ss)-1]
			}
		}
		if name != "" {
			trace = append(trace, name)
		}
		if got != want {
			return trace, fmt.Sprintf("%s returned %v, expected %v", name, got, want)
		}
		if s.Ofst() != uint32(m.of[m.k]) || s.Pos() != uint32(m.k) || s.MetLineTerm() != m.lt {
			return trace, fmt.Sprintf("after %s: offset %d position %d line-break %v, expected %d %d %v", name, s.Ofst(), s.Pos(), s.MetLineTerm(), m.of[m.k], m.k, m.lt)
		}
		if s.Len() != len(code) {
			return trace, "Len changed"
		}
	}
	lo := rnd.Intn(len(code) + 1)
	hi := lo + rnd.Intn(len(code)-lo+1)
	if s.Text(uint32(lo), uint32(hi)) != code[lo:hi] || s.RngText(Range{uint32(lo), uint32(hi)}) != code[lo:hi] {
		return trace, fmt.Sprintf("text of [%d,%d) differs", lo, hi)
	}
	return trace, ""
}

func spRun(t *testing.T, prop string, stack bool) {
	v := vNew(t, prop)
	rnd := vRand()
	spInputs(rnd, vPick(4, 5), vPick(13, 14), vPick(3000, 60000), 24, func(code string) bool {
		var trace []string
		in := map[string]interface{}{"code": fmt.Sprintf("%q", code)}
		v.check("cursor", in, func() string {
			var bad string
			trace, bad = spDrive(code, rnd, 10+rnd.Intn(16), stack)
			in["ops"] = strings.Join(trace, " ")
			return bad
		})
		return v.more()
	})
	for c := rune(-1); c < 0x3100; c++ {
		c := c
		v.check("lineterm", c, func() string {
			if IsLineTerminator(c) != (c == 10 || c == 13 || c == 0x2028 || c == 0x2029) {
				return fmt.Sprintf("IsLineTerminator(%#x) is wrong", c)
			}
			return ""
		})
	}
	v.done()
}

func TestVerifC01(t *testing.T) { spRun(t, "C01", false) }
func TestVerifC02(t *testing.T) { spRun(t, "C02", true) }

func TestVerifC03(t *testing.T) {
	v := vNew(t, "C03")
	rnd := vRand()
	spInputs(rnd, vPick(4, 5), vPick(12, 13), vPick(3000, 60000), 24, func(code string) bool {
		n := len(code)
		line := make([]Pos, n+1)
		start, ln := 0, uint32(1)
		for o := 0; o <= n; o++ {
			// a break that ends at o starts a new line at o
			if o > 0 && (code[o-1] == '\n' || code[o-1] == '\r' && !(o < n && code[o] == '\n')) {
				ln++
				start = o
			}
			line[o] = Pos{ln, uint32(utf8.RuneCountInString(code[start:o]))}
		}
		s := NewSource("p", code)
		for k := 0; k < 4; k++ {
			lo := rnd.Intn(n + 1)
			hi := lo + rnd.Intn(n-lo+1)
			if k == 0 {
				lo, hi = 0, n
			}
			v.check("linecol", map[string]interface{}{"code": fmt.Sprintf("%q", code), "lo": lo, "hi": hi}, func() string {
				s.Read()
				of := s.Ofst()
				f, t := s.LineCol(Range{uint32(lo), uint32(hi)})
				if f != line[lo] || t != line[hi] {
					return fmt.Sprintf("range maps to %v %v, expected %v %v", f, t, line[lo], line[hi])
				}
				if p := s.OfstLineCol(uint32(lo)); p != line[lo] {
					return fmt.Sprintf("offset maps to %v, expected %v", p, line[lo])
				}
				if p := s.OfstLineCol(uint32(hi)); p != line[hi] {
					return fmt.Sprintf("offset maps to %v, expected %v", p, line[hi])
				}
				if s.Ofst() != of {
					return "cursor moved"
				}
				a, b := Range{uint32(lo), uint32(hi)}, Range{uint32(rnd.Intn(n + 1)), uint32(n)}
				if a.Before(b) != (a.Hi < b.Lo) || !a.Valid() || a.Empty() != (lo == 0 && hi == 0) || b.Before(a) != (b.Hi < a.Lo) {
					return "range predicates"
				}
				return ""
			})
		}
		return v.more()
	})
	v.done()
}
