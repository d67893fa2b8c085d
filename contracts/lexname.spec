package parser

// ---------------------------------------------------------------- names
extern unicode/utf16.DecodeRune(a, b) (r)
  pure
  ensures r != 65533 ==> (hiSurr(a) && loSurr(b) && r == (a - 55296) * 1024 + (b - 56320) + 65536)
  ensures (hiSurr(a) && loSurr(b)) ==> r != 65533
def hiSurr(c rune) = 55296 <= c && c < 56320
def loSurr(c rune) = 56320 <= c && c < 57344
extern unicode/utf8.RuneLen(c) (n)
  pure
  ensures c == 65533 ==> n == 3

func Lexer.readUnicodeEscape(l, c, id) (r, esc, err)
  property C05
  requires srcOk(l) && (c == 92 ==> l.src.state.ofst > 0)
  modifies *scan
  ensures srcOk(l)
  ensures c != 92 ==> (r == c && !esc && err == nil && l.src.state.ofst == old(l.src.state.ofst))
  ensures c == 92 ==> (err == nil <==> old(chAt(l.src.code, l.src.state.ofst) == 117 && uOk(l.src.code, l.src.state.ofst + 1) && (id ==> idCh(uVal(l.src.code, l.src.state.ofst + 1)))))
  ensures (c == 92 && err == nil) ==> (esc && r == old(uVal(l.src.code, l.src.state.ofst + 1)) && l.src.state.ofst == old(uEnd(l.src.code, l.src.state.ofst + 1)))

func Lexer.readIdStart(l) (r, esc, err)
  property C05
  requires srcOk(l) && l.src.state.ofst < len(l.src.code)
  modifies *scan
  ensures srcOk(l)
  ensures old(chAt(l.src.code, l.src.state.ofst)) != 92 ==> (err == nil && !esc && r == old(readCh(l.src.code, l.src.state.ofst)) && l.src.state.ofst == old(l.src.state.ofst + readLen(l.src.code, l.src.state.ofst)))
  ensures old(chAt(l.src.code, l.src.state.ofst)) == 92 ==> (err == nil <==> old(escStart(l.src.code, l.src.state.ofst)))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 92 && err == nil) ==> (esc && r == old(uVal(l.src.code, l.src.state.ofst + 2)) && l.src.state.ofst == old(uEnd(l.src.code, l.src.state.ofst + 2)))
// an escaped character that may begin (be part of) an identifier stands at i
def escPart(s string, i int) = chAt(s, i + 1) == 117 && uOk(s, i + 2) && idCh(uVal(s, i + 2))
def escStart(s string, i int) = escPart(s, i) && idStart(uVal(s, i + 2))

// the end of the characters of a name that begin at i, -1 when one of them is a bad escape;
// whether one of them is escaped
fun nameEnd(string, int, bool) int
fun nameEsc(string, int, bool) bool
def nameCh(c rune, jsx bool) = idStart(c) || idPart(c) || (jsx && c == 45)
axiom def name_stop = forall s string, i int, j bool :: {nameEnd(s, i, j)} (0 <= i && !nameCh(chAt(s, i), j)) ==> (nameEnd(s, i, j) == i && !nameEsc(s, i, j))
axiom def name_bad = forall s string, i int, j bool :: {nameEnd(s, i, j)} (0 <= i && i < len(s) && chAt(s, i) == 92 && !escPart(s, i)) ==> nameEnd(s, i, j) == 0 - 1
axiom def name_esc = forall s string, i int, j bool :: {nameEnd(s, i, j)} (0 <= i && i < len(s) && chAt(s, i) == 92 && escPart(s, i)) ==> (nameEnd(s, i, j) == nameEnd(s, uEnd(s, i + 2), j) && nameEsc(s, i, j))
axiom def name_step = forall s string, i int, j bool :: {nameEnd(s, i, j)} (0 <= i && i < len(s) && chAt(s, i) != 92 && nameCh(chAt(s, i), j)) ==> (nameEnd(s, i, j) == nameEnd(s, i + dsize(s, i), j) && (nameEsc(s, i, j) <==> nameEsc(s, i + dsize(s, i), j)))
func Lexer.readIdPart(l, jsx) (rs, esc, err)
  property C05
  requires srcOk(l)
  modifies *scan
  ensures srcOk(l)
  ensures err == nil <==> old(nameEnd(l.src.code, l.src.state.ofst, jsx)) >= 0
  ensures err == nil ==> l.src.state.ofst == old(nameEnd(l.src.code, l.src.state.ofst, jsx))
  ensures err == nil ==> (esc <==> old(nameEsc(l.src.code, l.src.state.ofst, jsx)))
  ensures err == nil ==> l.src.state.ofst >= old(l.src.state.ofst)
  loop 0
    invariant srcOk(l) && old(l.src.state.ofst) <= l.src.state.ofst && fresh(arr(rs))
    invariant nameEnd(l.src.code, l.src.state.ofst, jsx) == nameEnd(l.src.code, old(l.src.state.ofst), jsx)
    invariant (containsEscape || nameEsc(l.src.code, l.src.state.ofst, jsx)) <==> nameEsc(l.src.code, old(l.src.state.ofst), jsx)
    decreases len(l.src.code) - l.src.state.ofst

// the name that begins at i
def idNext(s string, i int) = ite(chAt(s, i) == 92, uEnd(s, i + 2), i + dsize(s, i))
def idGood(s string, i int, j bool) = (chAt(s, i) == 92 ==> escStart(s, i)) && nameEnd(s, idNext(s, i), j) >= 0
def idEnd(s string, i int, j bool) = nameEnd(s, idNext(s, i), j)
def idEscd(s string, i int, j bool) = chAt(s, i) == 92 || nameEsc(s, idNext(s, i), j)
func Lexer.readName(l, jsx) (t)
  property C05, C06
  requires lx(l) && l.src.state.ofst < len(l.src.code) && idStart(chAt(l.src.code, l.src.state.ofst))
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && t.value != T_EOF && t.value != T_COMMENT && t.value != T_NAME_PVT && tval(t.value)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures old(!idGood(l.src.code, l.src.state.ofst, jsx)) ==> t.value == T_ILLEGAL
  ensures t.value != T_ILLEGAL ==> (l.src.state.ofst == old(idEnd(l.src.code, l.src.state.ofst, jsx)) && t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst)
  ensures t.value == T_NAME ==> !(t.text in Keywords)
  ensures old(idGood(l.src.code, l.src.state.ofst, jsx) && !idEscd(l.src.code, l.src.state.ofst, jsx)) ==> t.text == old(l.src.code[l.src.state.ofst:idEnd(l.src.code, l.src.state.ofst, jsx)])
  ensures (old(idGood(l.src.code, l.src.state.ofst, jsx) && !idEscd(l.src.code, l.src.state.ofst, jsx)) && t.text in Keywords) ==> t.value == Keywords[t.text]
  ensures (old(idGood(l.src.code, l.src.state.ofst, jsx) && !idEscd(l.src.code, l.src.state.ofst, jsx)) && !(t.text in Keywords) && inMode(l, LM_STRICT) && t.text in StrictKeywords) ==> t.value == StrictKeywords[t.text]
  ensures (old(idGood(l.src.code, l.src.state.ofst, jsx) && idEscd(l.src.code, l.src.state.ofst, jsx)) && t.text in Keywords) ==> t.value == T_ILLEGAL
  ensures (old(idGood(l.src.code, l.src.state.ofst, jsx)) && !(t.text in Keywords) && !(t.text in StrictKeywords) && t.text != "await") ==> t.value == T_NAME
func Lexer.readNamePvt(l) (t)
  property C06
  requires lx(l) && chAt(l.src.code, l.src.state.ofst) == 35
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && t.value != T_EOF && t.value != T_COMMENT && t.value != T_NAME && tval(t.value)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value != T_ILLEGAL ==> (t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst)
  ensures t.value == T_NAME_PVT ==> (featOn(l, FEAT_CLASS_PRV) && t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst && l.src.state.ofst == old(idEnd(l.src.code, l.src.state.ofst + 1, false)) && !(t.text in Keywords))

// ---------------------------------------------------------------- strings
def escN(s string, i int) = ite(isOct(chAt(s, i)), octLen(chAt(s, i), s, i + 1), ite(chAt(s, i) == 120, 3, ite(chAt(s, i) == 117, uEnd(s, i + 1) - i, readLen(s, i))))
def escOk(s string, i int) = i < len(s) && ite(chAt(s, i) == 120, isHex(chAt(s, i + 1)) && isHex(chAt(s, i + 2)), ite(chAt(s, i) == 117, uOk(s, i + 1), true))
// the offset of the quote q that closes the string whose content begins at i, -1 if there is none
// before the end of the line or an escape is malformed; js: U+2028 and U+2029 may stand in a string
fun strEnd(string, int, int, bool) int
// (the same, one that the solver does not unfold further)
fun strEnd0(string, int, int, bool) int
axiom def strend_0 = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} strEnd(s, i, q, j) == strEnd0(s, i, q, j)
def strLT(c rune, js bool) = c == 10 || c == 13 || (!js && (c == 8232 || c == 8233))
axiom def strend_none = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} (0 <= i && (i >= len(s) || strLT(chAt(s, i), j))) ==> strEnd(s, i, q, j) == 0 - 1
axiom def strend_stop = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} (0 <= i && i < len(s) && chAt(s, i) == q && (q == 34 || q == 39)) ==> strEnd(s, i, q, j) == i
axiom def strend_cont = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} (0 <= i && i < len(s) && chAt(s, i) == 92 && isLT(chAt(s, i + 1))) ==> strEnd(s, i, q, j) == strEnd0(s, i + 1 + readLen(s, i + 1), q, j)
axiom def strend_bad = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} (0 <= i && i < len(s) && chAt(s, i) == 92 && !isLT(chAt(s, i + 1)) && !escOk(s, i + 1)) ==> strEnd(s, i, q, j) == 0 - 1
axiom def strend_esc = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} (0 <= i && i < len(s) && chAt(s, i) == 92 && !isLT(chAt(s, i + 1)) && escOk(s, i + 1)) ==> strEnd(s, i, q, j) == strEnd0(s, i + 1 + escN(s, i + 1), q, j)
axiom def strend_step = forall s string, i int, q int, j bool :: {strEnd(s, i, q, j)} (0 <= i && i < len(s) && chAt(s, i) != 92 && chAt(s, i) != q && !strLT(chAt(s, i), j)) ==> strEnd(s, i, q, j) == strEnd0(s, i + dsize(s, i), q, j)

func appendEscaped(buf, prev, r) (q)
  property C05
  requires hiSurr(prev) ==> len(buf) >= 3
  modifies elems(buf)
  ensures arr(q) == arr(buf) || fresh(arr(q))
  ensures hiSurr(r) ==> len(q) >= 3
  ensures !(hiSurr(prev) && loSurr(r)) ==> len(q) > len(buf)
  ensures (hiSurr(prev) && loSurr(r)) ==> len(q) == len(buf) + 1

func Lexer.readLineTerm(l)
  property C05
  requires srcOk(l) && isLT(chAt(l.src.code, l.src.state.ofst)) && l.src.state.ofst < len(l.src.code)
  modifies *scan
  ensures srcOk(l) && l.src.state.ofst == old(l.src.state.ofst + readLen(l.src.code, l.src.state.ofst))

def jsonSet(l *Lexer) = featOn(l, FEAT_JSON_SUPER_SET)
func Lexer.readStr(l) (t)
  property C05
  requires lx(l) && (chAt(l.src.code, l.src.state.ofst) == 34 || chAt(l.src.code, l.src.state.ofst) == 39)
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_STRING || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_STRING ==> old(strEnd(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst), jsonSet(l))) >= 0
  ensures (old(strEnd(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst), jsonSet(l))) >= 0 && !inMode(l, LM_TEMPLATE)) ==> t.value == T_STRING
  ensures t.value == T_STRING ==> (l.src.state.ofst == old(strEnd(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst), jsonSet(l))) + 1 && t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst)
  ensures t.value == T_STRING ==> (t.txt.Hi == l.src.state.ofst - 1 && (t.txt.Lo == old(l.src.state.ofst) + 1 || t.txt.Lo == t.txt.Hi))
  loop 0
    invariant lx(l) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant strEnd(l.src.code, l.src.state.ofst, chAt(l.src.code, old(l.src.state.ofst)), jsonSet(l)) == strEnd(l.src.code, old(l.src.state.ofst) + 1, chAt(l.src.code, old(l.src.state.ofst)), jsonSet(l))
    invariant hiSurr(prev) ==> len(buf) >= 3
    invariant buf == nil || fresh(arr(buf))
    decreases len(l.src.code) - l.src.state.ofst

// the offset of the quote that closes a JSX attribute string
fun jsxEnd(string, int, int) int
axiom def jsxend_none = forall s string, i int, q int :: {jsxEnd(s, i, q)} (0 <= i && i >= len(s)) ==> jsxEnd(s, i, q) == 0 - 1
axiom def jsxend_stop = forall s string, i int, q int :: {jsxEnd(s, i, q)} (0 <= i && i < len(s) && chAt(s, i) == q) ==> jsxEnd(s, i, q) == i
axiom def jsxend_step = forall s string, i int, q int :: {jsxEnd(s, i, q)} (0 <= i && i < len(s) && chAt(s, i) != q) ==> jsxEnd(s, i, q) == jsxEnd(s, i + readLen(s, i), q)
func Lexer.readJsxStr(l) (t)
  property C05
  requires lx(l) && (chAt(l.src.code, l.src.state.ofst) == 34 || chAt(l.src.code, l.src.state.ofst) == 39)
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_STRING || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_STRING <==> old(jsxEnd(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst))) >= 0
  ensures t.value == T_STRING ==> (l.src.state.ofst == old(jsxEnd(l.src.code, l.src.state.ofst + 1, chAt(l.src.code, l.src.state.ofst))) + 1 && t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst && t.txt.Lo == t.rng.Lo + 1 && t.txt.Hi == t.rng.Hi - 1)
  loop 0
    invariant lx(l) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant jsxEnd(l.src.code, l.src.state.ofst, chAt(l.src.code, old(l.src.state.ofst))) == jsxEnd(l.src.code, old(l.src.state.ofst) + 1, chAt(l.src.code, old(l.src.state.ofst)))
    decreases len(l.src.code) - l.src.state.ofst

// ---------------------------------------------------------------- templates
// where the text of a template that begins at i ends: the offset of the closing quote or of ${, -1 if
// there is none; bad: an escape in it is malformed (from the first bad one on, a backslash hides one character)
fun tplEnd(string, int) int
fun tplEnd0(string, int) int
fun tplBad(string, int) bool
fun tplBad0(string, int) bool
axiom def tplend_0 = forall s string, i int :: {tplEnd(s, i)} tplEnd(s, i) == tplEnd0(s, i) && tplBad(s, i) == tplBad0(s, i)
def tplEsc(s string, i int) = escOk(s, i) && (isOct(chAt(s, i)) ==> (chAt(s, i) == 48 && !isDec(chAt(s, i + 1))))
axiom def tplend_none = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i >= len(s)) ==> (tplEnd(s, i) == 0 - 1 && !tplBad(s, i))
axiom def tplend_stop = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i < len(s) && (chAt(s, i) == 96 || (chAt(s, i) == 36 && chAt(s, i + 1) == 123))) ==> (tplEnd(s, i) == i && !tplBad(s, i))
axiom def tplend_cont = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i < len(s) && chAt(s, i) == 92 && isLT(chAt(s, i + 1))) ==> (tplEnd(s, i) == tplEnd0(s, i + 1 + readLen(s, i + 1)) && tplBad(s, i) == tplBad0(s, i + 1 + readLen(s, i + 1)))
axiom def tplend_esc = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i < len(s) && chAt(s, i) == 92 && !isLT(chAt(s, i + 1)) && tplEsc(s, i + 1)) ==> (tplEnd(s, i) == tplEnd0(s, i + 1 + escN(s, i + 1)) && tplBad(s, i) == tplBad0(s, i + 1 + escN(s, i + 1)))
axiom def tplend_bad = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i + 1 < len(s) && chAt(s, i) == 92 && !isLT(chAt(s, i + 1)) && !tplEsc(s, i + 1)) ==> tplBad(s, i)
axiom def tplend_eof = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i + 1 == len(s) && chAt(s, i) == 92) ==> tplEnd(s, i) == 0 - 1
axiom def tplend_step = forall s string, i int :: {tplEnd(s, i)} (0 <= i && i < len(s) && chAt(s, i) != 92 && chAt(s, i) != 96 && !(chAt(s, i) == 36 && chAt(s, i + 1) == 123)) ==> (tplEnd(s, i) == tplEnd0(s, i + readLen(s, i)) && tplBad(s, i) == tplBad0(s, i + readLen(s, i)))
func Lexer.readTplChs(l) (text, fin, ofst, pos, err, oct, bad)
  property C05
  requires lx(l)
  modifies *scan, l.state.mode, elems(l.state.mode)
  ensures lx(l)
  ensures (err == "" && old(inMode(l, LM_TEMPLATE))) ==> (bad != "" <==> old(tplBad(l.src.code, l.src.state.ofst)))
  ensures (err == "" && bad == "" && old(inMode(l, LM_TEMPLATE))) ==> (ofst == old(tplEnd(l.src.code, l.src.state.ofst)) && (fin <==> chAt(l.src.code, ofst) == 96))
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures err == "" ==> l.src.state.ofst == ofst + ite(fin, 1, 2)
  ensures err != "" ==> (err == ERR_UNTERMINATED_TPL && atEnd(l))
  ensures err == "" ==> len(l.state.mode) == old(len(l.state.mode)) + ite(fin, 0, 1)
  ensures (err == "" && !fin) ==> inMode(l, LM_TEMPLATE)
  loop 0
    invariant lx(l) && old(l.src.state.ofst) <= l.src.state.ofst && l.state.mode == old(l.state.mode)
    invariant (errEscape == "" && inMode(l, LM_TEMPLATE)) ==> (tplEnd(l.src.code, l.src.state.ofst) == tplEnd(l.src.code, old(l.src.state.ofst)) && tplBad(l.src.code, l.src.state.ofst) == tplBad(l.src.code, old(l.src.state.ofst)))
    invariant (errEscape != "" && inMode(l, LM_TEMPLATE)) ==> tplBad(l.src.code, old(l.src.state.ofst))
    invariant hiSurr(prev) ==> len(text) >= 3
    invariant fresh(arr(text))
    decreases len(l.src.code) - l.src.state.ofst
func Lexer.Rng(l) (r)
  property C04
  requires ringOk(addr(l.state.tb)) && srcOk(l)
  ensures r.Lo == r.Hi
func Lexer.FinRng(l, rng) (r)
  property C04
  requires srcOk(l)
  ensures r.Lo == rng.Lo
func Lexer.readTplSpan(l) (t)
  property C05
  requires lx(l) && (chAt(l.src.code, l.src.state.ofst) == 96 || chAt(l.src.code, l.src.state.ofst) == 125)
  modifies *scan, deref(cell(l)), l.state.mode, elems(l.state.mode)
  ensures lx(l) && t == cell(l)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures old(chAt(l.src.code, l.src.state.ofst)) == 96 ==> (t.value == T_TPL_HEAD || t.value == T_ILLEGAL)
  ensures old(chAt(l.src.code, l.src.state.ofst)) == 125 ==> (t.value == T_TPL_SPAN || t.value == T_TPL_TAIL || t.value == T_ILLEGAL)
  ensures t.value == T_ILLEGAL ==> atEnd(l)
  ensures t.value != T_ILLEGAL ==> (hastype(t.ext, type(*TokExtTplSpan)) && t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst && l.src.state.ofst > old(l.src.state.ofst))
  ensures (t.value == T_TPL_HEAD && !old(tplBad(l.src.code, l.src.state.ofst + 1))) ==> (t.ext.(*TokExtTplSpan).strRng.Lo == old(l.src.state.ofst) + 1 && t.ext.(*TokExtTplSpan).strRng.Hi == old(tplEnd(l.src.code, l.src.state.ofst + 1)) && t.ext.(*TokExtTplSpan).IllegalEscape == nil && (t.ext.(*TokExtTplSpan).Plain <==> chAt(l.src.code, old(tplEnd(l.src.code, l.src.state.ofst + 1))) == 96))
  ensures (t.value == T_TPL_HEAD && old(tplBad(l.src.code, l.src.state.ofst + 1))) ==> t.ext.(*TokExtTplSpan).IllegalEscape != nil

// ---------------------------------------------------------------- JSX text
func isEntityPart(c) (b)
  property C05
  ensures b <==> ((97 <= c && c <= 122) || (65 <= c && c <= 90) || isDec(c) || c == 35)
func Lexer.readJSXTxt(l) (t)
  property C05
  requires lx(l) && wsOk(l) && l.src.state.ofst < len(l.src.code) && chAt(l.src.code, l.src.state.ofst) != 123 && chAt(l.src.code, l.src.state.ofst) != 60
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l)
  ensures (t.value != T_ILLEGAL && t.value != T_EOF) ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_JSX_TXT || t.value == T_ILLEGAL || (t.value == T_EOF && atEnd(l))
  ensures t.value == T_JSX_TXT ==> (l.src.state.ofst < len(l.src.code) ==> (chAt(l.src.code, l.src.state.ofst) == 123 || chAt(l.src.code, l.src.state.ofst) == 60))
  ensures t.value == T_JSX_TXT ==> (hastype(t.ext, type(string)) && t.rng.Hi == l.src.state.ofst)
  loop 0
    invariant lx(l) && old(l.src.state.ofst) <= l.src.state.ofst
    invariant fresh(arr(rs)) && fresh(arr(entity))
    invariant deref(cell(l)).value == T_ILLEGAL
    decreases len(l.src.code) - l.src.state.ofst
