// Package st: programs on which govc's verdict is known. A function whose name
// starts with Good must be proved, one starting with Bad must fail an
// obligation, one starting with Vac must be reported as vacuous, one starting with Unfit
// must be reported as outside reach (never as proved).
package st

type Node struct {
	val  int
	next *Node
	tags []int
}

type Shape interface{ Area() int }
type Sq struct{ w int }

func (s *Sq) Area() int { return s.w * s.w }

type Ci struct{ r int }

func (s *Ci) Area() int { return 3 * s.r }

// ---- arithmetic

func GoodAbs(x int32) int64 {
	if x < 0 {
		return -int64(x)
	}
	return int64(x)
}

// -(-2^31) wraps in 32 bits
func BadAbs(x int32) int32 {
	if x < 0 {
		return -x
	}
	return x
}

func GoodWrap(x uint8) uint8 { return x + 1 }
func BadWrap(x uint8) uint8  { return x + 1 }

func GoodDiv(x, y int) int {
	if y == 0 {
		return 0
	}
	return x / y
}
func BadDiv(x, y int) int { return x / y }

// Go truncates towards zero
func GoodRem(x int) int { return x % 3 }
func BadRem(x int) int  { return x % 3 }

func GoodShift(x uint32) uint32 { return x >> 1 << 1 }
func BadShift(x uint32) uint32  { return x << 1 >> 1 }

func GoodFloat(x float64) bool { return x == x }
func BadFloat(x float64) bool  { return x == x }

func GoodBits(a, b uint16) uint16 { return a & b }
func BadBits(a, b uint16) uint16  { return a ^ b }

// ---- run-time checks

func GoodIndex(a []int, i int) int {
	if i >= 0 && i < len(a) {
		return a[i]
	}
	return 0
}
func BadIndex(a []int, i int) int {
	if i >= 0 && i <= len(a) {
		return a[i]
	}
	return 0
}
func GoodNil(n *Node) int {
	if n == nil {
		return 0
	}
	return n.val
}
func BadNil(n *Node) int {
	if n.next == nil {
		return 0
	}
	return n.next.next.val
}
func GoodAssert(s Shape) int {
	if q, ok := s.(*Sq); ok && q != nil {
		return q.w
	}
	return 0
}
func BadAssert(s Shape) int { return s.(*Sq).w }
func GoodSlice(s string, i int) string {
	if i < 0 || i > len(s) {
		return ""
	}
	return s[i:]
}
func BadSlice(s string, i int) string { return s[i:] }
func GoodPanic(x int) int {
	if x > 0 && x < 0 {
		panic("never")
	}
	return x
}
func BadPanic(x int) int {
	if x == 77777 {
		panic("once")
	}
	return x
}
func BadNilMap(m map[string]int) { m["a"] = 1 }

// ---- heap, aliasing and frames

func GoodAlias(a, b *Node) {
	a.val = 1
	b.val = 2
}
func BadAlias(a, b *Node) {
	a.val = 1
	b.val = 2
}
func BadFrame(a, b *Node) {
	a.val = 1
	b.val = b.val + 1
}
func GoodFresh() *Node { return &Node{val: 3} }
func BadFresh(n *Node) *Node {
	if n != nil && n.val == 5 {
		return n
	}
	return &Node{val: 5}
}
func GoodAppend(a []int) []int { return append(a, 7) }

// append may or may not write into the argument's backing array
func BadAppend(a, b []int) int {
	_ = append(a, 7)
	return b[0]
}
func GoodSub(a []int) {
	b := a[1:]
	b[0] = 9
}
func BadSub(a []int) {
	b := a[1:]
	b[0] = 9
}
func GoodMap(m map[int]int, k int) {
	m[k] = 1
	delete(m, k)
}
func BadMap(m map[int]int, k, j int) {
	m[k] = 1
	delete(m, j)
}

// ---- loops

func GoodSum(n int) int {
	s := 0
	for i := 0; i < n; i++ {
		s += 2
	}
	return s
}

// the invariant does not hold on the step
func BadSum(n int) int {
	s := 0
	for i := 0; i < n; i++ {
		s += 2
		if i == 1000 {
			s++
		}
	}
	return s
}

// the loop's effect on the heap is forgotten by a weak invariant: nothing may
// be assumed to have kept its value
func BadHavoc(p *Node, n int) int {
	p.val = 0
	for i := 0; i < n; i++ {
		p.val = i
	}
	return p.val
}

// a location changed only through a callee inside the loop
func bump(p *Node) { p.val++ }

func BadHavocCall(p *Node, n int) int {
	p.val = 0
	for i := 0; i < n; i++ {
		bump(p)
	}
	return p.val
}

// a slice's elements changed in an inner loop
func BadHavocInner(a []int, n int) int {
	a[0] = 0
	for i := 0; i < n; i++ {
		for j := 0; j < len(a); j++ {
			a[j] = i
		}
	}
	return a[0]
}
func GoodFind(a []int, v int) int {
	for i, x := range a {
		if x == v {
			return i
		}
	}
	return -1
}
func BadFind(a []int, v int) int {
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] == v {
			return i
		}
	}
	return -1
}
func GoodRange(m map[int]int) int {
	n := 0
	for range m {
		n++
	}
	return n
}
func BadTerm(n int) int {
	i := 0
	for i != n {
		i += 2
	}
	return i
}
func GoodTerm(n int) int {
	i := 0
	for i < n {
		i += 2
	}
	return i
}

// ---- calls: a caller sees the contract, not the body

func half(x int) int { return x / 2 }

func GoodCall(x int) int { return half(x) + half(x) }

// true of the body, not of the contract
func BadCall(x int) int { return half(x) }

// the callee's precondition
func BadPre(x int) int { return half(x - 1) }

// a callee may change what its frame allows
func touch(p *Node) { p.val = 4 }

func GoodCallFrame(p, q *Node) int {
	q.val = 8
	p.tags = nil
	touch(p)
	return q.val
}
func BadCallFrame(p, q *Node) int {
	q.val = 8
	touch(p)
	return q.val
}

// dynamic dispatch: the implementation is unknown
func UnfitDispatch(s Shape) int {
	if s == nil {
		return 0
	}
	return s.Area()
}

// defer and named results
func GoodDefer(p *Node) {
	defer touch(p)
	p.val = 1
}

// ---- vacuity

func VacPre(x int) int { return x }

// ---- switch, short circuit, closures

func GoodSwitch(x int) int {
	switch {
	case x < 0:
		return -1
	case x == 0:
		return 0
	}
	return 1
}
func BadSwitch(x int) int {
	switch {
	case x < 0:
		return -1
	case x == 0, x == 12345:
		return 0
	}
	return 1
}
func BadString(a, b string) bool { return len(a) == len(b) && a[:0] == b[:0] }
func GoodString(a, b string) bool { return a == b }
func BadStruct(a, b Node) bool    { return a.val == b.val }
