package parser

bvtype Feature
bvtype LexerModeKind

// ---------------------------------------------------------------- token ring
def ringOk(b *TokensBuf) =
  0 <= b.r && b.r < 5 && 0 <= b.w && b.w < 5 && 0 <= b.len && b.len <= 5 && b.w == (b.r + b.len) % 5

func TokensBuf.incW(b) (w)
  property C04
  requires 0 <= b.w && b.w < 5
  ensures w == (b.w + 1) % 5
func TokensBuf.incR(b) (r)
  property C04
  requires 0 <= b.r && b.r < 5
  ensures r == (b.r + 1) % 5
func TokensBuf.writable(b) (ok)
  property C04
  ensures ok <==> b.len < 5
func TokensBuf.readable(b) (ok)
  property C04
  ensures ok <==> b.len > 0
func TokensBuf.write(b, tok)
  property C04
  requires ringOk(b) && b.len < 5
  modifies b.len, b.w
  ensures ringOk(b)
  ensures b.len == old(b.len) + 1
func TokensBuf.newToken(b) (t)
  property C04
  requires ringOk(b)
  ensures t == addr(b.buf[(b.r + b.len) % 5])
func TokensBuf.read(b) (t)
  property C04
  requires ringOk(b) && b.len > 0
  modifies b.len, b.r
  ensures ringOk(b)
  ensures b.len == old(b.len) - 1
  ensures b.r == (old(b.r) + 1) % 5
  ensures t == addr(b.buf[old(b.r)])
func TokensBuf.cur(b) (t)
  property C04
  requires ringOk(b)
  ensures t == addr(b.buf[b.r])

// ---------------------------------------------------------------- saved lexer states and modes
// a saved state owns the storage of its modes: no later change of the live modes reaches it
def savedOk(l *Lexer) = forall i int :: {l.ss[i].mode} (0 <= i && i < len(l.ss)) ==> (len(l.ss[i].mode) >= 1 && arr(l.ss[i].mode) != arr(l.state.mode))
def modeOk(l *Lexer) = len(l.state.mode) >= 1

func Lexer.PushState(l)
  property C04
  requires modeOk(l) && savedOk(l)
  modifies l.ss, elems(l.ss)
  ensures len(l.ss) == old(len(l.ss)) + 1
  ensures l.ss[old(len(l.ss))].tb == l.state.tb
  ensures l.ss[old(len(l.ss))].beginStmt == l.state.beginStmt
  ensures l.ss[old(len(l.ss))].prtVal == l.state.prtVal && l.ss[old(len(l.ss))].pptVal == l.state.pptVal
  ensures l.ss[old(len(l.ss))].prtRng == l.state.prtRng
  ensures l.ss[old(len(l.ss))].prevWs == l.state.prevWs
  ensures len(l.ss[old(len(l.ss))].mode) == len(l.state.mode)
  ensures forall k int :: {l.state.mode[k]} (0 <= k && k < len(l.state.mode)) ==> l.ss[old(len(l.ss))].mode[k] == l.state.mode[k]
  ensures forall i int :: {l.ss[i].mode} (0 <= i && i < old(len(l.ss))) ==> l.ss[i] == old(l.ss[i])
  ensures savedOk(l)

func Lexer.DiscardState(l)
  property C04
  requires len(l.ss) > 0 && savedOk(l)
  modifies l.ss
  ensures len(l.ss) == old(len(l.ss)) - 1
  ensures forall i int :: {l.ss[i].mode} (0 <= i && i < len(l.ss)) ==> l.ss[i] == old(l.ss[i])
  ensures savedOk(l)

func Lexer.PopState(l)
  property C04
  requires len(l.ss) > 0
  modifies l.ss, l.state
  ensures l.state == old(l.ss[len(l.ss) - 1])
  ensures len(l.ss) == old(len(l.ss)) - 1
  ensures forall i int :: {l.ss[i].mode} (0 <= i && i < len(l.ss)) ==> l.ss[i] == old(l.ss[i])

def inheritable(k LexerModeKind) = k & (LM_STRICT | LM_ASYNC | LM_TS)

func Lexer.PushMode(l, mode, inherit)
  property C04
  requires modeOk(l)
  modifies l.state.mode, elems(l.state.mode)
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures len(l.state.mode) == old(len(l.state.mode)) + 1
  ensures l.state.mode[old(len(l.state.mode))].kind == ite(inherit, mode | inheritable(old(l.state.mode[len(l.state.mode) - 1].kind)), mode)
  ensures l.state.mode[old(len(l.state.mode))].paren == 0
  ensures forall k int :: {l.state.mode[k]} (0 <= k && k < old(len(l.state.mode))) ==> l.state.mode[k] == old(l.state.mode[k])

func Lexer.PopMode(l) (m)
  property C04
  requires modeOk(l)
  modifies l.state.mode, elems(l.state.mode)
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures modeOk(l)
  ensures old(len(l.state.mode)) > 1 ==> (len(l.state.mode) == old(len(l.state.mode)) - 1 && m.kind == old(l.state.mode[len(l.state.mode) - 1].kind))
  ensures forall k int :: {l.state.mode[k]} (old(len(l.state.mode)) > 1 && 0 <= k && k < len(l.state.mode)) ==> l.state.mode[k] == old(l.state.mode[k])
  ensures old(len(l.state.mode)) == 1 ==> (len(l.state.mode) == 1 && l.state.mode[0].kind == LM_NONE)

func Lexer.CurMode(l) (m)
  property C04
  requires modeOk(l)
  ensures m == addr(l.state.mode[len(l.state.mode) - 1])

func Lexer.AddMode(l, mode)
  property C04
  requires modeOk(l)
  modifies l.state.mode[len(l.state.mode) - 1].kind
  ensures l.state.mode[len(l.state.mode) - 1].kind == old(l.state.mode[len(l.state.mode) - 1].kind) | mode

func Lexer.EraseMode(l, mode)
  property C04
  requires modeOk(l)
  modifies l.state.mode[len(l.state.mode) - 1].kind
  ensures l.state.mode[len(l.state.mode) - 1].kind == old(l.state.mode[len(l.state.mode) - 1].kind) &^ mode

func Lexer.IsMode(l, mode) (b)
  property C04
  requires modeOk(l)
  ensures int(mode) <= 32768 ==> (b <==> l.state.mode[len(l.state.mode) - 1].kind & mode != LM_NONE)

// ---------------------------------------------------------------- reading one token
def srcOk(l *Lexer) = l.src != nil && ok(l.src)
// every keyword has a token value of its own
def tval(v TokenValue) = 0 <= v && v <= T_TOKEN_DEF_END
def kwOk() = (forall k string :: {Keywords[k]} tval(Keywords[k])) && (forall k string :: {StrictKeywords[k]} tval(StrictKeywords[k])) && 0 <= MaxHTMLEntityName && MaxHTMLEntityName < 1024 && (forall k string :: {Keywords[k]} Keywords[k] != T_EOF && Keywords[k] != T_COMMENT && Keywords[k] != T_NAME && Keywords[k] != T_NAME_PVT) && (forall k string :: {StrictKeywords[k]} StrictKeywords[k] != T_EOF && StrictKeywords[k] != T_COMMENT && StrictKeywords[k] != T_NAME && StrictKeywords[k] != T_NAME_PVT)
def cell(l *Lexer) = addr(l.state.tb.buf[l.state.tb.w])
// the lexer between two tokens
def lx(l *Lexer) = ringOk(addr(l.state.tb)) && modeOk(l) && srcOk(l) && l.maybeLshPos != nil && l.lshPos != nil && kwOk()
def atEnd(l *Lexer) = l.src.state.ofst == len(l.src.code)
// the white space before the token lies in the text
def wsOk(l *Lexer) = l.state.prevWs.len != 0 ==> (l.state.prevWs.rng.Lo <= l.state.prevWs.rng.Hi && l.state.prevWs.rng.Hi <= len(l.src.code))
// what reading one token may change
modset lexing = l.src.state, l.state.mode, elems(l.state.mode), l.state.prevWs, deref(addr(l.state.tb.buf[l.state.tb.w])), l.exprCmts, elems(l.exprCmts), l.stmtCmts, elems(l.stmtCmts), mapof(l.maybeLshPos), mapof(l.lshPos)
// what scanning characters may change
modset scan = l.src.state.runes, l.src.state.ofst, l.src.state.pos

func Lexer.newToken(l) (t)
  property C06
  requires lx(l)
  modifies deref(cell(l))
  ensures t == cell(l)
  ensures t.value == T_ILLEGAL && t.text == "" && t.rng.Lo == l.src.state.ofst && t.len == l.src.state.pos && t.txt.Lo == 0 && t.txt.Hi == 0
func Lexer.finToken(l, tok, value) (t)
  property C06
  requires tok != nil && srcOk(l)
  modifies tok.value, tok.rng.Hi, tok.len, tok.afterLineTerm
  ensures t == tok && tok.value == value && tok.rng.Hi == l.src.state.ofst
  ensures l.src.state.pos >= old(tok.len) ==> tok.len == l.src.state.pos - old(tok.len)
  ensures tok.afterLineTerm == l.src.state.metLineTerm
func Lexer.errTokOfst(l, tok, msg, ofst) (t)
  property C06
  requires lx(l) && (tok == nil || tok == cell(l))
  modifies deref(cell(l))
  ensures t == cell(l) && t.rng.Lo == ofst
  ensures tok != nil ==> (t.text == old(cell(l).text) && t.txt == old(cell(l).txt))
  ensures t.value == ite(tok == nil, T_ILLEGAL, old(cell(l).value))
func Lexer.errTokMsg(l, tok, msg) (t)
  property C06
  requires lx(l) && (tok == nil || tok == cell(l))
  modifies deref(cell(l))
  ensures t == cell(l)
  ensures tok != nil ==> (t.text == old(cell(l).text) && t.txt == old(cell(l).txt))
  ensures t.value == ite(tok == nil, T_ILLEGAL, old(cell(l).value))
func Lexer.errCharError(l) (e)
  trusted
  ensures e != nil
func LexerError.Error(e) (s)
  trusted
func Lexer.errTok(l, tok) (t)
  property C06
  requires lx(l) && (tok == nil || tok == cell(l))
  modifies deref(cell(l))
  ensures t == cell(l)
  ensures tok != nil ==> (t.text == old(cell(l).text) && t.txt == old(cell(l).txt))
  ensures t.value == ite(tok == nil, T_ILLEGAL, old(cell(l).value))
func Lexer.skipSpace(l) (s)
  property C06
  requires srcOk(l) && wsOk(l)
  modifies l.src.state, l.state.prevWs
  ensures s == l.src && srcOk(l) && wsOk(l)
  ensures l.src.state.ofst >= old(l.src.state.ofst)
  ensures l.src.state.ofst == old(wsEnd(l.src.code, l.src.state.ofst))
  ensures l.src.state.metLineTerm <==> old(wsLT(l.src.code, l.src.state.ofst))

// the i-th token read ahead
def ahead(l *Lexer, i int) = addr(l.state.tb.buf[(l.state.tb.r + i) % 5])
// no buffered token is the end of the text
def inBuf(l *Lexer, k int) = (k - l.state.tb.r + 5) % 5 < l.state.tb.len
def bufd(l *Lexer, k int) = inBuf(l, k) ==> (l.state.tb.buf[k].value != T_EOF && tval(l.state.tb.buf[k].value))
def bufOk(l *Lexer) = bufd(l, 0) && bufd(l, 1) && bufd(l, 2) && bufd(l, 3) && bufd(l, 4)
// once the end of the text is seen it stays
def eofOk(l *Lexer) = l.state.prtVal == T_EOF ==> atEnd(l)
def tokVals(l *Lexer) = tval(l.state.prtVal) && tval(l.state.pptVal)
// the lexer between two calls
def lexOk(l *Lexer) = lx(l) && wsOk(l) && tokVals(l) && bufOk(l) && eofOk(l)

func Lexer.advance(l) (t)
  property C04
  requires lexOk(l) && l.state.tb.len < 5
  modifies *lexing, l.state.prtVal, l.state.tb.len, l.state.tb.w
  ensures lexOk(l)
  ensures t == addr(l.state.tb.buf[old(l.state.tb.w)])
  ensures l.state.prtVal == t.value
  ensures old(l.state.prtVal) == T_EOF ==> t.value == T_EOF
  ensures t.value == T_EOF ==> l.state.tb.len == old(l.state.tb.len)
  ensures t.value != T_EOF ==> l.state.tb.len == old(l.state.tb.len) + 1

func Lexer.readTok(l) (t)
  property C04
  requires lexOk(l)
  modifies *lexing, l.state.tb.len, l.state.tb.r
  ensures lexOk(l)
  ensures tval(t.value) && (t.value == T_EOF ==> atEnd(l))
  ensures t == addr(l.state.tb.buf[old(l.state.tb.r)])
  ensures old(l.state.tb.len) > 0 ==> (l.state.tb.len == old(l.state.tb.len) - 1 && l.state.tb.r == (old(l.state.tb.r) + 1) % 5)
  ensures old(l.state.tb.len) == 0 ==> (l.state.tb.len == 0 && l.state.tb.r == old(l.state.tb.r))
  ensures old(l.state.tb.len) > 0 ==> (l.src.state == old(l.src.state) && l.state.mode == old(l.state.mode) && t.value == old(ahead(l, 0).value) && t.rng == old(ahead(l, 0).rng))

func Lexer.Next(l) (t)
  property C04
  requires lexOk(l)
  modifies *lexing, l.state.prtVal, l.state.prtRng, l.state.tb.len, l.state.tb.r
  ensures lexOk(l)
  ensures t == addr(l.state.tb.buf[old(l.state.tb.r)])
  ensures old(l.state.tb.len) > 0 ==> (l.state.tb.len == old(l.state.tb.len) - 1 && l.state.tb.r == (old(l.state.tb.r) + 1) % 5)
  ensures old(l.state.tb.len) == 0 ==> (l.state.tb.len == 0 && l.state.tb.r == old(l.state.tb.r))
  ensures old(l.state.tb.len) > 0 ==> (l.src.state == old(l.src.state) && l.state.mode == old(l.state.mode) && t.value == old(ahead(l, 0).value) && t.rng == old(ahead(l, 0).rng))
  ensures l.state.prtVal == t.value && l.state.prtRng == t.rng

func Lexer.NextRevise(l, v) (t)
  property C04
  requires lexOk(l) && tval(v) && v != T_EOF
  modifies *lexing, l.state.prtVal, l.state.prtRng, l.state.tb.len, l.state.tb.r
  ensures lexOk(l)
  ensures t == addr(l.state.tb.buf[old(l.state.tb.r)])
  ensures old(l.state.tb.len) > 0 ==> (l.state.tb.len == old(l.state.tb.len) - 1 && l.state.tb.r == (old(l.state.tb.r) + 1) % 5)
  ensures old(l.state.tb.len) == 0 ==> (l.state.tb.len == 0 && l.state.tb.r == old(l.state.tb.r))
  ensures l.state.prtVal == v && l.state.prtRng == t.rng

func Lexer.Peek(l) (t)
  property C04
  requires lexOk(l)
  modifies *lexing, l.state.prtVal, l.state.tb.len, l.state.tb.w
  ensures lexOk(l)
  ensures t == ahead(l, 0)
  ensures old(l.state.tb.len) > 0 ==> (l.state.tb.len == old(l.state.tb.len) && l.src.state == old(l.src.state) && l.state.mode == old(l.state.mode) && l.state.prtVal == old(l.state.prtVal) && deref(t) == old(deref(ahead(l, 0))))
  ensures old(l.state.tb.len) == 0 ==> l.state.tb.len == ite(t.value == T_EOF, 0, 1)
  ensures old(l.state.tb.len) == 0 ==> l.state.prtVal == t.value
  ensures (old(l.state.tb.len) == 0 && old(l.state.prtVal) == T_EOF) ==> t.value == T_EOF

func Lexer.PeekStmtBegin(l) (t)
  property C04
  requires lexOk(l)
  modifies l.state.beginStmt, *lexing, l.state.prtVal, l.state.tb.len, l.state.tb.w
  ensures lexOk(l)
  ensures t == ahead(l, 0)
  ensures !l.state.beginStmt
  ensures old(l.state.tb.len) > 0 ==> (l.state.tb.len == old(l.state.tb.len) && l.src.state == old(l.src.state))
  ensures old(l.state.tb.len) == 0 ==> l.state.tb.len == ite(t.value == T_EOF, 0, 1)

func Lexer.PeekGrow(l) (t)
  property C04
  requires lexOk(l) && l.state.tb.len < 5
  modifies *lexing, l.state.prtVal, l.state.tb.len, l.state.tb.w
  ensures lexOk(l)
  ensures t == ahead(l, old(l.state.tb.len))
  ensures l.state.tb.len == ite(t.value == T_EOF, old(l.state.tb.len), old(l.state.tb.len) + 1)
