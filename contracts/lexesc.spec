package parser

// ---------------------------------------------------------------- digits to numbers
def hexDig(c int) = ite(48 <= c && c <= 57, c - 48, ite(65 <= c && c <= 70, c - 55, c - 87))
// hexVal(s, n), octVal(s, n): the value of the first n characters of s as digits of base 16 (8):
// v(s, 0) = 0 and v(s, n) = v(s, n - 1) * base + digit(s[n - 1]); the proofs unfold it up to n = 4
fun hexVal(string, int) int
axiom def hexval_0 = forall s string :: {hexVal(s, 0)} hexVal(s, 0) == 0
axiom def hexval_1 = forall s string :: {hexVal(s, 1)} hexVal(s, 1) == hexVal(s, 0) * 16 + hexDig(s[0])
axiom def hexval_2 = forall s string :: {hexVal(s, 2)} hexVal(s, 2) == hexVal(s, 1) * 16 + hexDig(s[1])
axiom def hexval_3 = forall s string :: {hexVal(s, 3)} hexVal(s, 3) == hexVal(s, 2) * 16 + hexDig(s[2])
axiom def hexval_4 = forall s string :: {hexVal(s, 4)} hexVal(s, 4) == hexVal(s, 3) * 16 + hexDig(s[3])
fun octVal(string, int) int
axiom def octval_0 = forall s string :: {octVal(s, 0)} octVal(s, 0) == 0
axiom def octval_1 = forall s string :: {octVal(s, 1)} octVal(s, 1) == octVal(s, 0) * 8 + (s[0] - 48)
axiom def octval_2 = forall s string :: {octVal(s, 2)} octVal(s, 2) == octVal(s, 1) * 8 + (s[1] - 48)
axiom def octval_3 = forall s string :: {octVal(s, 3)} octVal(s, 3) == octVal(s, 2) * 8 + (s[2] - 48)
axiom def octval_4 = forall s string :: {octVal(s, 4)} octVal(s, 4) == octVal(s, 3) * 8 + (s[3] - 48)
def allHex(s string) = forall i int :: {s[i]} (0 <= i && i < len(s)) ==> isHex(s[i])
def allOct(s string) = forall i int :: {s[i]} (0 <= i && i < len(s)) ==> isOct(s[i])
// hexNum(s, i, n): the value of the n characters of s that begin at i as digits of base 16
fun hexNum(string, int, int) int
// equal characters, equal value (by induction on n)
axiom trusted hexnum_eq = forall s string, t string, i int, n int :: {hexVal(t, n), hexNum(s, i, n)} (0 <= n && (forall k int :: {t[k]} (0 <= k && k < n) ==> t[k] == s[i + k])) ==> hexVal(t, n) == hexNum(s, i, n)

extern strconv.ParseInt(s, base, bits) (r, err)
  pure
  ensures (base == 16 && bits == 32 && len(s) > 0 && allHex(s)) ==> ite(hexVal(s, len(s)) <= 2147483647, err == nil && 0 <= r && r == hexVal(s, len(s)), err != nil && r == 2147483647)
  ensures (base == 8 && bits == 32 && len(s) > 0 && allOct(s)) ==> ite(octVal(s, len(s)) <= 2147483647, err == nil && 0 <= r && r == octVal(s, len(s)), err != nil && r == 2147483647)
  ensures len(s) == 0 ==> (err != nil && r == 0)
extern unicode/utf8.AppendRune(p, c) (q)
  modifies elems(p)
  ensures len(p) < len(q) && len(q) <= len(p) + 4
  ensures len(q) == len(p) + ite(0 <= c && c < 128, 1, ite(128 <= c && c < 2048, 2, ite(65536 <= c && c <= 1114111, 4, 3)))
  ensures forall i int :: {q[i]} (0 <= i && i < len(p)) ==> q[i] == old(p[i])
  ensures arr(q) == arr(p) || fresh(arr(q))

// ---------------------------------------------------------------- escape sequences
def hx(s string, i int) = hexDig(chAt(s, i))
func Lexer.readHexEscapeSeq(l) (r, err)
  property C05
  requires srcOk(l)
  modifies *scan
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures err != "" ==> r == 65533
  ensures srcOk(l)
  ensures err == "" <==> old(isHex(chAt(l.src.code, l.src.state.ofst)) && isHex(chAt(l.src.code, l.src.state.ofst + 1)))
  ensures err == "" ==> (r == old(hx(l.src.code, l.src.state.ofst) * 16 + hx(l.src.code, l.src.state.ofst + 1)) && l.src.state.ofst == old(l.src.state.ofst) + 2)
  loop 0
    invariant srcOk(l) && l.src.state.ofst == old(l.src.state.ofst) + $rangeindex + 1
    invariant $rangeindex >= 0 ==> (hex[0] == old(chAt(l.src.code, l.src.state.ofst)) && isHex(hex[0]))
    invariant $rangeindex >= 1 ==> (hex[1] == old(chAt(l.src.code, l.src.state.ofst + 1)) && isHex(hex[1]))
    decreases 1 - $rangeindex
func Lexer.readHex4Digits(l, id, start) (r, err)
  property C05
  requires srcOk(l)
  modifies *scan
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures err != nil ==> r == 65533
  ensures srcOk(l)
  ensures err == nil ==> old(isHex(chAt(l.src.code, l.src.state.ofst)) && isHex(chAt(l.src.code, l.src.state.ofst + 1)) && isHex(chAt(l.src.code, l.src.state.ofst + 2)) && isHex(chAt(l.src.code, l.src.state.ofst + 3)))
  ensures err == nil ==> (r == old(hex4(l.src.code, l.src.state.ofst)) && l.src.state.ofst == old(l.src.state.ofst) + 4)
  ensures err == nil ==> (id ==> ((idStart(r) || idPart(r)) && r != 92))
  ensures old(isHex(chAt(l.src.code, l.src.state.ofst)) && isHex(chAt(l.src.code, l.src.state.ofst + 1)) && isHex(chAt(l.src.code, l.src.state.ofst + 2)) && isHex(chAt(l.src.code, l.src.state.ofst + 3))) ==> (err == nil || (id && (!(idStart(old(hex4(l.src.code, l.src.state.ofst))) || idPart(old(hex4(l.src.code, l.src.state.ofst)))) || old(hex4(l.src.code, l.src.state.ofst)) == 92)))
  ensures err != nil ==> err.msg != ""
  loop 0
    invariant srcOk(l) && 0 <= i && i <= 4 && l.src.state.ofst == old(l.src.state.ofst) + i
    invariant i > 0 ==> (hex[0] == old(chAt(l.src.code, l.src.state.ofst)) && isHex(hex[0]))
    invariant i > 1 ==> (hex[1] == old(chAt(l.src.code, l.src.state.ofst + 1)) && isHex(hex[1]))
    invariant i > 2 ==> (hex[2] == old(chAt(l.src.code, l.src.state.ofst + 2)) && isHex(hex[2]))
    invariant i > 3 ==> (hex[3] == old(chAt(l.src.code, l.src.state.ofst + 3)) && isHex(hex[3]))
    decreases 4 - i
def hex4(s string, i int) = ((hx(s, i) * 16 + hx(s, i + 1)) * 16 + hx(s, i + 2)) * 16 + hx(s, i + 3)

// the end of the maximal run of hexadecimal digits that begins at i
fun hexRun(string, int) int
axiom def hexrun_stop = forall s string, i int :: {hexRun(s, i)} (0 <= i && !isHex(chAt(s, i))) ==> hexRun(s, i) == i
axiom def hexrun_step = forall s string, i int :: {hexRun(s, i)} (0 <= i && isHex(chAt(s, i))) ==> (hexRun(s, i) == hexRun(s, i + 1) && hexRun(s, i) > i)
def cpVal(s string, i int) = hexNum(s, i, hexRun(s, i) - i)
def cpGood(s string, i int) = hexRun(s, i) > i && chAt(s, hexRun(s, i)) == 125 && cpVal(s, i) <= 0x10FFFF
func Lexer.readCodepoint(l) (r, err)
  property C05
  requires srcOk(l) && chAt(l.src.code, l.src.state.ofst) == 123
  modifies *scan
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures err != nil ==> r == 65533
  ensures srcOk(l)
  ensures err == nil <==> old(cpGood(l.src.code, l.src.state.ofst + 1))
  ensures err == nil ==> l.src.state.ofst == old(hexRun(l.src.code, l.src.state.ofst + 1)) + 1
  ensures err == nil ==> (r == old(cpVal(l.src.code, l.src.state.ofst + 1)) && r >= 0)
  ensures err != nil ==> err.msg != ""
  loop 0
    invariant srcOk(l) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant hexRun(l.src.code, l.src.state.ofst) == hexRun(l.src.code, old(l.src.state.ofst) + 1)
    invariant fresh(arr(hex)) && len(hex) == l.src.state.ofst - old(l.src.state.ofst) - 1
    invariant forall k int :: {hex[k]} (0 <= k && k < len(hex)) ==> (hex[k] == l.src.code[old(l.src.state.ofst) + 1 + k] && isHex(hex[k]))
    decreases len(l.src.code) - l.src.state.ofst
// the sequence after \u that begins at i: legal, its value, its end
def hex4ok(s string, i int) = isHex(chAt(s, i)) && isHex(chAt(s, i + 1)) && isHex(chAt(s, i + 2)) && isHex(chAt(s, i + 3))
def uOk(s string, i int) = ite(chAt(s, i) == 123, cpGood(s, i + 1), hex4ok(s, i))
def uVal(s string, i int) = ite(chAt(s, i) == 123, cpVal(s, i + 1), hex4(s, i))
def uEnd(s string, i int) = ite(chAt(s, i) == 123, hexRun(s, i + 1) + 1, i + 4)
// a character of an identifier (a backslash counts as a start in the code)
def idCh(c rune) = (idStart(c) || idPart(c)) && c != 92
func Lexer.readUnicodeEscapeSeq(l, id, start) (r, err)
  property C05
  requires srcOk(l)
  modifies *scan
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures err != nil ==> r == 65533
  ensures srcOk(l)
  ensures err != nil ==> err.msg != ""
  ensures err == nil <==> old(uOk(l.src.code, l.src.state.ofst) && (id ==> idCh(uVal(l.src.code, l.src.state.ofst))))
  ensures err == nil ==> (r == old(uVal(l.src.code, l.src.state.ofst)) && r >= 0)
  ensures err == nil ==> l.src.state.ofst == old(uEnd(l.src.code, l.src.state.ofst))

// an octal escape takes up to three digits when the first is at most 3, else up to two
def o1(s string, i int) = isOct(chAt(s, i))
def octLen(first rune, s string, i int) = ite(!o1(s, i), 1, ite(first > 51 || !o1(s, i + 1), 2, 3))
def octNum(first rune, s string, i int) = ite(!o1(s, i), first - 48, ite(first > 51 || !o1(s, i + 1), (first - 48) * 8 + (chAt(s, i) - 48), ((first - 48) * 8 + (chAt(s, i) - 48)) * 8 + (chAt(s, i + 1) - 48)))
func Lexer.readOctalEscapeSeq(l, first) (r, err, n)
  property C05
  requires lx(l) && isOct(first)
  modifies *scan
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures err != "" ==> r == 65533
  ensures srcOk(l)
  ensures err == "" <==> !(inMode(l, LM_TEMPLATE) && (first != 48 || old(isDec(chAt(l.src.code, l.src.state.ofst)))))
  ensures err == "" ==> (n == old(octLen(first, l.src.code, l.src.state.ofst)) && l.src.state.ofst == old(l.src.state.ofst) + n - 1 && r == old(octNum(first, l.src.code, l.src.state.ofst)))
  loop 0
    invariant srcOk(l) && 1 <= i && i <= ite(first > 51, 2, 3) && l.src.state.ofst == old(l.src.state.ofst) + i - 1
    invariant fresh(arr(octal)) && len(octal) == i && octal[0] == first
    invariant i > 1 ==> (octal[1] == old(chAt(l.src.code, l.src.state.ofst)) && isOct(octal[1]))
    invariant i > 2 ==> (octal[2] == old(chAt(l.src.code, l.src.state.ofst + 1)) && isOct(octal[2]))
    invariant forall k int :: {octal[k]} (0 <= k && k < len(octal)) ==> isOct(octal[k])
    decreases 3 - i

def simpleEsc(c rune) = ite(c == 98, 8, ite(c == 102, 12, ite(c == 110, 10, ite(c == 114, 13, ite(c == 116, 9, ite(c == 118, 11, c))))))
func Lexer.readEscapeSeq(l) (r, err, octal)
  property C05
  requires lx(l)
  modifies *scan
  ensures old(l.src.state.ofst < len(l.src.code)) ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures err != "" ==> r == 65533
  ensures srcOk(l)
  ensures old(!isOct(chAt(l.src.code, l.src.state.ofst)) && chAt(l.src.code, l.src.state.ofst) != 120 && chAt(l.src.code, l.src.state.ofst) != 117) ==> (err == "" && !octal && r == old(simpleEsc(readCh(l.src.code, l.src.state.ofst))) && l.src.state.ofst == old(l.src.state.ofst + readLen(l.src.code, l.src.state.ofst)))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 120) ==> (!octal && (err == "" <==> old(isHex(chAt(l.src.code, l.src.state.ofst + 1)) && isHex(chAt(l.src.code, l.src.state.ofst + 2)))))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 120 && err == "") ==> (r == old(hx(l.src.code, l.src.state.ofst + 1) * 16 + hx(l.src.code, l.src.state.ofst + 2)) && l.src.state.ofst == old(l.src.state.ofst) + 3)
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 117) ==> (!octal && (err == "" <==> old(uOk(l.src.code, l.src.state.ofst + 1))))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 117 && err == "") ==> (r == old(uVal(l.src.code, l.src.state.ofst + 1)) && l.src.state.ofst == old(uEnd(l.src.code, l.src.state.ofst + 1)))
  ensures (old(l.src.state.ofst < len(l.src.code)) && err == "") ==> r >= 0
  ensures old(isOct(chAt(l.src.code, l.src.state.ofst))) ==> ((err == "" ==> (r == old(octNum(chAt(l.src.code, l.src.state.ofst), l.src.code, l.src.state.ofst + 1)) && l.src.state.ofst == old(l.src.state.ofst + octLen(chAt(l.src.code, l.src.state.ofst), l.src.code, l.src.state.ofst + 1)))) && (err == "" <==> !(inMode(l, LM_TEMPLATE) && old(chAt(l.src.code, l.src.state.ofst) != 48 || isDec(chAt(l.src.code, l.src.state.ofst + 1))))))
  ensures (old(isOct(chAt(l.src.code, l.src.state.ofst))) && err == "") ==> (octal <==> !(r == 0 && l.src.state.ofst == old(l.src.state.ofst) + 1))
