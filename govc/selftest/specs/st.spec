package st

func GoodAbs(x) (r)
  ensures r >= 0

func BadAbs(x) (r)
  ensures r >= 0

func GoodWrap(x) (r)
  ensures x < 255 ==> r == x + 1

func BadWrap(x) (r)
  ensures r > x

func GoodDiv(x, y) (r)
  ensures y == 1 ==> r == x

func BadDiv(x, y) (r)
  ensures y == 1 ==> r == x

func GoodRem(x) (r)
  ensures r > 0 - 3 && r < 3

func BadRem(x) (r)
  ensures r >= 0

func GoodShift(x) (r)
  ensures r == x || r == x - 1

func BadShift(x) (r)
  ensures r == x

func GoodFloat(x) (r)
  ensures x != nan() ==> r

func BadFloat(x) (r)
  ensures r

func GoodBits(a, b) (r)
  ensures r <= a

func BadBits(a, b) (r)
  ensures r <= a

func GoodIndex(a, i) (r)
  ensures (0 <= i && i < len(a)) ==> r == a[i]

func BadIndex(a, i) (r)
  ensures (0 <= i && i < len(a)) ==> r == a[i]

func GoodNil(n) (r)
  ensures n == nil ==> r == 0

func BadNil(n) (r)
  requires n != nil
  ensures n.next == nil ==> r == 0

func GoodAssert(s) (r)
  ensures s == nil ==> r == 0

func BadAssert(s) (r)
  requires s != nil

func GoodSlice(s, i) (r)
  ensures len(r) <= len(s)

func BadSlice(s, i) (r)
  requires i >= 0
  ensures len(r) <= len(s)

func GoodPanic(x) (r)
  ensures r == x

func BadPanic(x) (r)
  ensures r == x

func BadNilMap(m)
  modifies mapof(m)
  ensures "a" in m

func GoodAlias(a, b)
  requires a != nil && b != nil && a != b
  modifies a.val, b.val
  ensures a.val == 1 && b.val == 2

func BadAlias(a, b)
  requires a != nil && b != nil
  modifies a.val, b.val
  ensures a.val == 1 && b.val == 2

func BadFrame(a, b)
  requires a != nil && b != nil
  modifies a.val
  ensures a.val == 1

func GoodFresh() (r)
  ensures fresh(r) && r.val == 3 && r.next == nil

func BadFresh(n) (r)
  ensures fresh(r)

func GoodAppend(a) (r)
  modifies elems(a)
  ensures len(r) == len(a) + 1 && r[len(a)] == 7
  ensures forall k int :: {r[k]} (0 <= k && k < len(a)) ==> r[k] == old(a[k])

func BadAppend(a, b) (r)
  requires len(b) > 0
  modifies elems(a)
  ensures r == old(b[0])

func GoodSub(a)
  requires len(a) > 1
  modifies elems(a)
  ensures a[1] == 9 && a[0] == old(a[0])

func BadSub(a)
  requires len(a) > 1
  modifies elems(a)
  ensures a[1] == old(a[1])

func GoodMap(m, k)
  requires m != nil
  modifies mapof(m)
  ensures !(k in m)

func BadMap(m, k, j)
  requires m != nil
  modifies mapof(m)
  ensures k in m

func GoodSum(n) (s)
  requires 0 <= n && n < 1000000
  ensures s == 2 * n
  loop 0
    invariant 0 <= i && i <= n && s == 2 * i

func BadSum(n) (s)
  requires 0 <= n && n < 1000000
  ensures s == 2 * n
  loop 0
    invariant 0 <= i && i <= n && s == 2 * i

func BadHavoc(p, n) (r)
  requires p != nil
  modifies p.val
  ensures r == 0
  loop 0
    invariant i >= 0

func bump(p)
  requires p != nil
  modifies p.val

func BadHavocCall(p, n) (r)
  requires p != nil
  modifies p.val
  ensures r == 0
  loop 0
    invariant i >= 0

func BadHavocInner(a, n) (r)
  requires len(a) > 0
  modifies elems(a)
  ensures r == 0
  loop 0
    invariant i >= 0
  loop 1
    invariant j >= 0

func GoodFind(a, v) (r)
  ensures r >= 0 ==> r < len(a) && a[r] == v
  ensures forall k int :: {a[k]} (0 <= k && k < len(a) && (r < 0 || k < r)) ==> a[k] != v
  loop 0
    invariant forall k int :: {a[k]} (0 <= k && k <= $rangeindex) ==> a[k] != v

func BadFind(a, v) (r)
  ensures r >= 0 ==> r < len(a) && a[r] == v
  ensures forall k int :: {a[k]} (0 <= k && k < len(a) && (r < 0 || k < r)) ==> a[k] != v
  loop 0
    invariant i < len(a) && (forall k int :: {a[k]} (i < k && k < len(a)) ==> a[k] != v)

func GoodRange(m) (n)
  ensures n >= 0
  loop 0
    invariant n >= 0

func GoodTerm(n) (r)
  requires n < 1000000
  ensures r >= n
  loop 0
    invariant i >= 0
    decreases n - i

func BadTerm(n) (r)
  requires 0 <= n && n < 1000000
  ensures r >= n
  loop 0
    invariant true
    decreases n - i

func half(x) (r)
  requires x >= 0
  ensures r >= 0 && r <= x

func GoodCall(x) (r)
  requires 0 <= x && x < 1000000
  ensures r <= 2 * x

func BadCall(x) (r)
  requires x == 10
  ensures r == 5

func BadPre(x) (r)
  requires x >= 0

func touch(p)
  requires p != nil
  modifies p.val
  ensures p.val == 4

func GoodCallFrame(p, q) (r)
  requires p != nil && q != nil && p != q
  modifies p.val, p.tags, q.val
  ensures r == 8

func BadCallFrame(p, q) (r)
  requires p != nil && q != nil
  modifies p.val, q.val
  ensures r == 8

func UnfitDispatch(s) (r)
  modifies everything
  ensures r >= 0

func GoodDefer(p)
  requires p != nil
  modifies p.val
  ensures p.val == 4

func VacPre(x) (r)
  requires x > 0 && x < 0
  ensures r == 99

func GoodSwitch(x) (r)
  ensures (r > 0) <==> (x > 0)

func BadSwitch(x) (r)
  ensures (r > 0) <==> (x > 0)

func BadString(a, b) (r)
  ensures r <==> (a == b)

func GoodString(a, b) (r)
  ensures r ==> len(a) == len(b)

func BadStruct(a, b) (r)
  ensures r ==> a.next == b.next
