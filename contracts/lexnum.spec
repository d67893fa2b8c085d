package parser

// ---------------------------------------------------------------- characters
fun idStart(rune) bool
fun idPart(rune) bool
axiom trusted idstart_ascii = forall c rune :: {idStart(c)} (0 <= c && c < 128) ==> (idStart(c) <==> ((97 <= c && c <= 122) || (65 <= c && c <= 90) || c == 36 || c == 95 || c == 92))
axiom trusted idpart_ascii = forall c rune :: {idPart(c)} (0 <= c && c < 128) ==> (idPart(c) <==> ((48 <= c && c <= 57) || c == 95))
axiom trusted id_neg = forall c rune :: {idStart(c)} {idPart(c)} (c < 0 || c == 65533) ==> (!idStart(c) && !idPart(c))
func IsIdStart(c) (b)
  trusted
  pure
  ensures b <==> idStart(c)
func IsIdPart(c) (b)
  trusted
  pure
  ensures b <==> idPart(c)
def isDec(c rune) = 48 <= c && c <= 57
def isOct(c rune) = 48 <= c && c <= 55
def isHex(c rune) = isDec(c) || (65 <= c && c <= 70) || (97 <= c && c <= 102)
func IsOctalDigit(c) (b)
  property C06
  pure
  ensures b <==> isOct(c)
func IsHexDigit(c) (b)
  property C06
  pure
  ensures b <==> isHex(c)
func IsDecimalDigit(c) (b)
  property C06
  pure
  ensures b <==> isDec(c)

// ---------------------------------------------------------------- digit runs
def digIn(c rune, r int) = ite(r == 2, c == 48 || c == 49, ite(r == 8, isOct(c), ite(r == 16, isHex(c), isDec(c))))
// the end of the maximal run of digits and separators that begins at i
fun run(string, int, int) int
axiom def run_stop = forall s string, i int, r int :: {run(s, i, r)} (0 <= i && !(digIn(chAt(s, i), r) || chAt(s, i) == 95)) ==> run(s, i, r) == i
axiom def run_step = forall s string, i int, r int :: {run(s, i, r)} (0 <= i && (digIn(chAt(s, i), r) || chAt(s, i) == 95)) ==> (run(s, i, r) == run(s, i + 1, r) && run(s, i, r) > i)
axiom def run_len = forall s string, i int, r int :: {run(s, i, r)} (0 <= i && i <= len(s)) ==> (i <= run(s, i, r) && run(s, i, r) <= len(s))
// separators stand between two digits only (digit before a: first)
def sepAt(s string, a int, b int, first bool, k int) = chAt(s, k) == 95 ==> ((k > a || first) && k + 1 < b && chAt(s, k + 1) != 95)
def seps(s string, a int, b int, first bool, on bool) = forall k int :: {drune(s, k)} (a <= k && k < b) ==> (sepAt(s, a, b, first, k) && (chAt(s, k) == 95 ==> on))
def sepOn(l *Lexer) = l.feat & FEAT_NUM_SEP != FEAT_NONE
def bigOn(l *Lexer) = l.feat & FEAT_BIGINT != FEAT_NONE

func Lexer.readDecimalDigits(l, opt, i) (err)
  property C06
  requires srcOk(l) && i >= 0
  modifies *scan
  ensures srcOk(l)
  ensures err == "" ==> (l.src.state.ofst == old(run(l.src.code, l.src.state.ofst, 10)) && (opt || i > 0 || l.src.state.ofst > old(l.src.state.ofst)))
  ensures err == "" ==> seps(l.src.code, old(l.src.state.ofst), l.src.state.ofst, i > 0, sepOn(l))
  ensures err != "" ==> !(seps(l.src.code, old(l.src.state.ofst), old(run(l.src.code, l.src.state.ofst, 10)), i > 0, sepOn(l)) && (opt || i > 0 || old(run(l.src.code, l.src.state.ofst, 10)) > old(l.src.state.ofst)))
  loop 0
    invariant srcOk(l) && old(l.src.state.ofst) <= l.src.state.ofst
    invariant run(l.src.code, l.src.state.ofst, 10) == old(run(l.src.code, l.src.state.ofst, 10))
    invariant i == old(i) + l.src.state.ofst - old(l.src.state.ofst)
    invariant last == ite(l.src.state.ofst == old(l.src.state.ofst), 0, chAt(l.src.code, l.src.state.ofst - 1))
    invariant forall k int :: {drune(l.src.code, k)} (old(l.src.state.ofst) <= k && k < l.src.state.ofst) ==> (chAt(l.src.code, k) == 95 ==> (sepOn(l) && (k > old(l.src.state.ofst) || old(i) > 0) && (k + 1 < l.src.state.ofst ==> chAt(l.src.code, k + 1) != 95)))
    decreases len(l.src.code) - l.src.state.ofst

func Lexer.readExpPart(l) (err)
  property C06
  requires srcOk(l) && (chAt(l.src.code, l.src.state.ofst) == 101 || chAt(l.src.code, l.src.state.ofst) == 69)
  modifies *scan
  ensures srcOk(l)
  ensures err == "" ==> l.src.state.ofst == old(run(l.src.code, expBeg(l.src.code, l.src.state.ofst), 10))
  ensures err == "" <==> old(expGood(l.src.code, l.src.state.ofst, sepOn(l)))
// the digits of the exponent begin after e and an optional sign
def expBeg(s string, i int) = ite(chAt(s, i + 1) == 43 || chAt(s, i + 1) == 45, i + 2, i + 1)
def expGood(s string, i int, on bool) = run(s, expBeg(s, i), 10) > expBeg(s, i) && seps(s, expBeg(s, i), run(s, expBeg(s, i), 10), false, on)
def isE(s string, i int) = chAt(s, i) == 101 || chAt(s, i) == 69

func Lexer.bigintSuffix(l) (t)
  property C06
  requires lx(l)
  modifies *scan, deref(cell(l))
  ensures srcOk(l)
  ensures l.src.state.ofst == old(l.src.state.ofst) + ite(old(chAt(l.src.code, l.src.state.ofst)) == 110, 1, 0)
  ensures t == nil <==> !(old(chAt(l.src.code, l.src.state.ofst)) == 110 && !bigOn(l))
  ensures t != nil ==> (t == cell(l) && t.value == T_ILLEGAL)
  ensures t == nil ==> deref(cell(l)) == old(deref(cell(l)))

// a number of radix r whose digits begin at a: where it ends and whether it is well formed
def sufEnd(s string, e int) = ite(chAt(s, e) == 110, e + 1, e)
def radixGood(s string, a int, r int, on bool, big bool) = run(s, a, r) > a && seps(s, a, run(s, a, r), false, on) && (chAt(s, run(s, a, r)) == 110 ==> big) && !idStart(chAt(s, sufEnd(s, run(s, a, r))))

func Lexer.readBinaryNum(l, tok) (t)
  property C06
  requires lx(l) && tok == cell(l) && tok.value == T_ILLEGAL && l.src.state.ofst < len(l.src.code) && (chAt(l.src.code, l.src.state.ofst) == 98 || chAt(l.src.code, l.src.state.ofst) == 66)
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_NUM || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_NUM <==> old(radixGood(l.src.code, l.src.state.ofst + 1, 2, sepOn(l), bigOn(l)))
  ensures t.value == T_NUM ==> (l.src.state.ofst == old(sufEnd(l.src.code, run(l.src.code, l.src.state.ofst + 1, 2))) && t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst)
  loop 0
    invariant lx(l) && deref(cell(l)) == old(deref(cell(l))) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant run(l.src.code, l.src.state.ofst, 2) == run(l.src.code, old(l.src.state.ofst) + 1, 2)
    invariant i == l.src.state.ofst - old(l.src.state.ofst) - 1
    invariant last == ite(i == 0, 0, chAt(l.src.code, l.src.state.ofst - 1))
    invariant forall k int :: {drune(l.src.code, k)} (old(l.src.state.ofst) + 1 <= k && k < l.src.state.ofst) ==> (chAt(l.src.code, k) == 95 ==> (sepOn(l) && k > old(l.src.state.ofst) + 1 && (k + 1 < l.src.state.ofst ==> chAt(l.src.code, k + 1) != 95)))
    decreases len(l.src.code) - l.src.state.ofst

func Lexer.readHexNum(l, tok) (t)
  property C06
  requires lx(l) && tok == cell(l) && tok.value == T_ILLEGAL && l.src.state.ofst < len(l.src.code) && (chAt(l.src.code, l.src.state.ofst) == 120 || chAt(l.src.code, l.src.state.ofst) == 88)
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_NUM || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_NUM <==> old(radixGood(l.src.code, l.src.state.ofst + 1, 16, sepOn(l), bigOn(l)))
  ensures t.value == T_NUM ==> (l.src.state.ofst == old(sufEnd(l.src.code, run(l.src.code, l.src.state.ofst + 1, 16))) && t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst)
  loop 0
    invariant lx(l) && deref(cell(l)) == old(deref(cell(l))) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant run(l.src.code, l.src.state.ofst, 16) == run(l.src.code, old(l.src.state.ofst) + 1, 16)
    invariant i == l.src.state.ofst - old(l.src.state.ofst) - 1
    invariant last == ite(i == 0, 0, chAt(l.src.code, l.src.state.ofst - 1))
    invariant forall k int :: {drune(l.src.code, k)} (old(l.src.state.ofst) + 1 <= k && k < l.src.state.ofst) ==> (chAt(l.src.code, k) == 95 ==> (sepOn(l) && k > old(l.src.state.ofst) + 1 && (k + 1 < l.src.state.ofst ==> chAt(l.src.code, k + 1) != 95)))
    decreases len(l.src.code) - l.src.state.ofst

// legacy octal (i == 1): the first digit is at the cursor, no separator and no suffix
def legacyGood(s string, a int) = (forall k int :: {drune(s, k)} (a <= k && k < run(s, a, 8)) ==> chAt(s, k) != 95) && !idStart(chAt(s, run(s, a, 8)))
func Lexer.readOctalNum(l, tok, i) (t)
  property C06
  requires lx(l) && tok == cell(l) && tok.value == T_ILLEGAL && (i == 0 || i == 1) && l.src.state.ofst < len(l.src.code)
  requires ite(i == 1, isOct(chAt(l.src.code, l.src.state.ofst)), chAt(l.src.code, l.src.state.ofst) == 111 || chAt(l.src.code, l.src.state.ofst) == 79)
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_NUM || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures i == 0 ==> (t.value == T_NUM <==> old(radixGood(l.src.code, l.src.state.ofst + 1, 8, sepOn(l), bigOn(l))))
  ensures i == 1 ==> (t.value == T_NUM <==> old(legacyGood(l.src.code, l.src.state.ofst + 1)))
  ensures t.value == T_NUM ==> (l.src.state.ofst == old(ite(i == 1, run(l.src.code, l.src.state.ofst + 1, 8), sufEnd(l.src.code, run(l.src.code, l.src.state.ofst + 1, 8)))) && t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst)
  loop 0
    invariant lx(l) && deref(cell(l)) == old(deref(cell(l))) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant run(l.src.code, l.src.state.ofst, 8) == run(l.src.code, old(l.src.state.ofst) + 1, 8)
    invariant i == old(i) + l.src.state.ofst - old(l.src.state.ofst) - 1
    invariant last == ite(l.src.state.ofst == old(l.src.state.ofst) + 1, 0, chAt(l.src.code, l.src.state.ofst - 1))
    invariant forall k int :: {drune(l.src.code, k)} (old(l.src.state.ofst) + 1 <= k && k < l.src.state.ofst) ==> (chAt(l.src.code, k) == 95 ==> (sepOn(l) && old(i) == 0 && k > old(l.src.state.ofst) + 1 && (k + 1 < l.src.state.ofst ==> chAt(l.src.code, k + 1) != 95)))
    decreases len(l.src.code) - l.src.state.ofst

// decimal: first is the character before o
def decEnd(s string, o int, first rune) = ite(first == 46 || first == 48, o, run(s, o, 10))
def hasFrac(s string, o int, first rune) = first == 46 || chAt(s, decEnd(s, o, first)) == 46
def fracBeg(s string, o int, first rune) = ite(first == 46, o, decEnd(s, o, first) + 1)
def fracEnd(s string, o int, first rune) = ite(hasFrac(s, o, first), run(s, fracBeg(s, o, first), 10), decEnd(s, o, first))
def decExp(s string, o int, first rune) = ite(isE(s, fracEnd(s, o, first)), run(s, expBeg(s, fracEnd(s, o, first)), 10), fracEnd(s, o, first))
def plainInt(s string, o int, first rune) = !hasFrac(s, o, first) && !isE(s, fracEnd(s, o, first))
def decNumEnd(s string, o int, first rune) = ite(plainInt(s, o, first), sufEnd(s, decExp(s, o, first)), decExp(s, o, first))
def decGood(s string, o int, first rune, on bool, big bool) = seps(s, o, decEnd(s, o, first), true, on) && (hasFrac(s, o, first) ==> seps(s, fracBeg(s, o, first), fracEnd(s, o, first), false, on))
  && (isE(s, fracEnd(s, o, first)) ==> expGood(s, fracEnd(s, o, first), on)) && ((plainInt(s, o, first) && chAt(s, decExp(s, o, first)) == 110) ==> big)
  && !idStart(chAt(s, decNumEnd(s, o, first)))
func Lexer.readDecimalNum(l, tok, first) (t)
  property C06
  requires lx(l) && tok == cell(l) && tok.value == T_ILLEGAL && (isDec(first) || first == 46)
  requires first == 46 ==> isDec(chAt(l.src.code, l.src.state.ofst))
  requires first == 48 ==> !isDec(chAt(l.src.code, l.src.state.ofst))
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_NUM || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_NUM ==> (l.src.state.ofst == old(decNumEnd(l.src.code, l.src.state.ofst, first)) && t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst)
  ensures t.value == T_NUM <==> old(decGood(l.src.code, l.src.state.ofst, first, sepOn(l), bigOn(l)))

// the first digit is at the cursor
def radixCh(c rune) = ite(c == 98 || c == 66, 2, ite(c == 111 || c == 79, 8, ite(c == 120 || c == 88, 16, 0)))
func Lexer.readNum(l) (t)
  property C06
  requires lx(l) && numBeg(l.src.code, l.src.state.ofst)
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_NUM || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_NUM ==> (t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst && l.src.state.ofst > old(l.src.state.ofst))
  ensures old(chAt(l.src.code, l.src.state.ofst) == 48 && radixCh(chAt(l.src.code, l.src.state.ofst + 1)) > 0) ==> ((t.value == T_NUM <==> old(radixGood(l.src.code, l.src.state.ofst + 2, radixCh(chAt(l.src.code, l.src.state.ofst + 1)), sepOn(l), bigOn(l)))) && (t.value == T_NUM ==> l.src.state.ofst == old(sufEnd(l.src.code, run(l.src.code, l.src.state.ofst + 2, radixCh(chAt(l.src.code, l.src.state.ofst + 1)))))))
  ensures old(!(chAt(l.src.code, l.src.state.ofst) == 48 && (radixCh(chAt(l.src.code, l.src.state.ofst + 1)) > 0 || isDec(chAt(l.src.code, l.src.state.ofst + 1))))) ==> ((t.value == T_NUM <==> old(decGood(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst), sepOn(l), bigOn(l)))) && (t.value == T_NUM ==> l.src.state.ofst == old(decNumEnd(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst)))))
def numBeg(s string, o int) = isDec(chAt(s, o)) || (chAt(s, o) == 46 && isDec(chAt(s, o + 1)))
