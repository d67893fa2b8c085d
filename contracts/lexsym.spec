package parser

// ---------------------------------------------------------------- comments
func Lexer.readSinglelineComment(l, tok) (t)
  property C06
  requires lx(l) && tok == cell(l) && chAt(l.src.code, l.src.state.ofst) == 47
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && t.value == T_COMMENT
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures hastype(t.ext, type(bool)) && !t.ext.(bool)
  ensures l.src.state.ofst >= len(l.src.code) || isLT(chAt(l.src.code, l.src.state.ofst))
  ensures l.src.state.ofst == old(lineEnd(l.src.code, l.src.state.ofst + 1))
  ensures t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst
  loop 0
    invariant srcOk(l) && old(l.src.state.ofst) + 1 <= l.src.state.ofst
    invariant lineEnd(l.src.code, l.src.state.ofst) == lineEnd(l.src.code, old(l.src.state.ofst) + 1)
    decreases len(l.src.code) - l.src.state.ofst
// the offset of the first line terminator at or after i
fun lineEnd(string, int) int
axiom def lineend_stop = forall s string, i int :: {lineEnd(s, i)} (0 <= i && (i >= len(s) || isLT(drune(s, i)))) ==> lineEnd(s, i) == i
axiom def lineend_step = forall s string, i int :: {lineEnd(s, i)} (0 <= i && i < len(s) && !isLT(drune(s, i))) ==> lineEnd(s, i) == lineEnd(s, i + dsize(s, i))

// the offset after the first */ at or after i, -1 if there is none; whether a line terminator comes before it
fun cmtEnd(string, int) int
fun cmtLT(string, int) bool
axiom def cmtend_end = forall s string, i int :: {cmtEnd(s, i)} (0 <= i && i >= len(s)) ==> (cmtEnd(s, i) == 0 - 1 && !cmtLT(s, i))
axiom def cmtend_stop = forall s string, i int :: {cmtEnd(s, i)} (0 <= i && i < len(s) && drune(s, i) == 42 && chAt(s, i + 1) == 47) ==> (cmtEnd(s, i) == i + 2 && !cmtLT(s, i))
axiom def cmtend_step = forall s string, i int :: {cmtEnd(s, i)} (0 <= i && i < len(s) && !(drune(s, i) == 42 && chAt(s, i + 1) == 47)) ==> (cmtEnd(s, i) == cmtEnd(s, i + readLen(s, i)) && (cmtLT(s, i) <==> (isLT(drune(s, i)) || cmtLT(s, i + readLen(s, i)))))
func Lexer.readMultilineComment(l, tok) (t)
  property C06
  requires lx(l) && tok == cell(l) && tok.value == T_ILLEGAL && chAt(l.src.code, l.src.state.ofst) == 42
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == ite(old(cmtEnd(l.src.code, l.src.state.ofst + 1)) < 0, T_ILLEGAL, T_COMMENT)
  ensures t.value == T_COMMENT ==> (hastype(t.ext, type(bool)) && (t.ext.(bool) <==> old(cmtLT(l.src.code, l.src.state.ofst + 1))))
  ensures t.value == T_COMMENT ==> (l.src.state.ofst == old(cmtEnd(l.src.code, l.src.state.ofst + 1)) && t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst)
  loop 0
    invariant srcOk(l) && old(l.src.state.ofst) + 1 <= l.src.state.ofst && l.src.state.ofst <= len(l.src.code)
    invariant cmtEnd(l.src.code, l.src.state.ofst) == cmtEnd(l.src.code, old(l.src.state.ofst) + 1)
    invariant (multiline || cmtLT(l.src.code, l.src.state.ofst)) <==> cmtLT(l.src.code, old(l.src.state.ofst) + 1)
    decreases len(l.src.code) - l.src.state.ofst

// ---------------------------------------------------------------- punctuators
def c0(s string, o int) = chAt(s, o)
def featOn(l *Lexer, f Feature) = l.feat & f != FEAT_NONE
def inMode(l *Lexer, k LexerModeKind) = l.state.mode[len(l.state.mode) - 1].kind & k != LM_NONE
// the longest punctuator at o and its length (plain JavaScript: outside type arguments)
def pun(s string, o int) =
  ite(c0(s, o) == 123, T_BRACE_L, ite(c0(s, o) == 125, T_BRACE_R, ite(c0(s, o) == 40, T_PAREN_L, ite(c0(s, o) == 41, T_PAREN_R, ite(c0(s, o) == 91, T_BRACKET_L, ite(c0(s, o) == 93, T_BRACKET_R,
  ite(c0(s, o) == 59, T_SEMI, ite(c0(s, o) == 44, T_COMMA, ite(c0(s, o) == 58, T_COLON, ite(c0(s, o) == 126, T_BIT_NOT,
  ite(c0(s, o) == 46, ite(c0(s, o + 1) == 46 && c0(s, o + 2) == 46, T_DOT_TRI, T_DOT),
  ite(c0(s, o) == 63, ite(c0(s, o + 1) == 46 && !isDec(c0(s, o + 2)), T_OPT_CHAIN, ite(c0(s, o + 1) == 63, ite(c0(s, o + 2) == 61, T_ASSIGN_NULLISH, T_NULLISH), T_HOOK)),
  ite(c0(s, o) == 43, ite(c0(s, o + 1) == 43, T_INC, ite(c0(s, o + 1) == 61, T_ASSIGN_ADD, T_ADD)),
  ite(c0(s, o) == 45, ite(c0(s, o + 1) == 45, T_DEC, ite(c0(s, o + 1) == 61, T_ASSIGN_SUB, T_SUB)),
  ite(c0(s, o) == 61, ite(c0(s, o + 1) == 62, T_ARROW, ite(c0(s, o + 1) == 61, ite(c0(s, o + 2) == 61, T_EQ_S, T_EQ), T_ASSIGN)),
  ite(c0(s, o) == 60, ite(c0(s, o + 1) == 61, T_LTE, ite(c0(s, o + 1) == 60, ite(c0(s, o + 2) == 61, T_ASSIGN_BIT_LSH, T_LSH), T_LT)),
  ite(c0(s, o) == 62, ite(c0(s, o + 1) == 61, T_GTE, ite(c0(s, o + 1) == 62, ite(c0(s, o + 2) == 62, ite(c0(s, o + 3) == 61, T_ASSIGN_BIT_RSH_U, T_RSH_U), ite(c0(s, o + 2) == 61, T_ASSIGN_BIT_RSH, T_RSH)), T_GT)),
  ite(c0(s, o) == 42, ite(c0(s, o + 1) == 42, ite(c0(s, o + 2) == 61, T_ASSIGN_POW, T_POW), ite(c0(s, o + 1) == 61, T_ASSIGN_MUL, T_MUL)),
  ite(c0(s, o) == 124, ite(c0(s, o + 1) == 124, ite(c0(s, o + 2) == 61, T_ASSIGN_OR, T_OR), ite(c0(s, o + 1) == 61, T_ASSIGN_BIT_OR, T_BIT_OR)),
  ite(c0(s, o) == 38, ite(c0(s, o + 1) == 38, ite(c0(s, o + 2) == 61, T_ASSIGN_AND, T_AND), ite(c0(s, o + 1) == 61, T_ASSIGN_BIT_AND, T_BIT_AND)),
  ite(c0(s, o) == 37, ite(c0(s, o + 1) == 61, T_ASSIGN_MOD, T_MOD),
  ite(c0(s, o) == 33, ite(c0(s, o + 1) == 61, ite(c0(s, o + 2) == 61, T_NE_S, T_NE), T_NOT),
  ite(c0(s, o) == 94, ite(c0(s, o + 1) == 61, T_ASSIGN_BIT_XOR, T_BIT_XOR),
  ite(c0(s, o) == 47, ite(c0(s, o + 1) == 61, T_ASSIGN_DIV, T_DIV), T_ILLEGAL))))))))))))))))))))))))
def len4(v TokenValue) = v == T_ASSIGN_BIT_RSH_U
def len3(v TokenValue) = v == T_DOT_TRI || v == T_EQ_S || v == T_NE_S || v == T_RSH_U || v == T_ASSIGN_BIT_LSH || v == T_ASSIGN_BIT_RSH || v == T_ASSIGN_POW || v == T_ASSIGN_OR || v == T_ASSIGN_AND || v == T_ASSIGN_NULLISH
def len2(v TokenValue) = v == T_OPT_CHAIN || v == T_NULLISH || v == T_INC || v == T_DEC || v == T_ASSIGN_ADD || v == T_ASSIGN_SUB || v == T_ARROW || v == T_EQ || v == T_NE || v == T_LTE || v == T_GTE || v == T_LSH || v == T_RSH || v == T_POW || v == T_ASSIGN_MUL || v == T_OR || v == T_AND || v == T_ASSIGN_BIT_OR || v == T_ASSIGN_BIT_AND || v == T_ASSIGN_BIT_XOR || v == T_ASSIGN_MOD || v == T_ASSIGN_DIV
def punLen(v TokenValue) = ite(len4(v), 4, ite(len3(v), 3, ite(len2(v), 2, 1)))
// the punctuators of every edition in use
def allPun(l *Lexer) = featOn(l, FEAT_SPREAD) && featOn(l, FEAT_BINDING_REST_ELEM) && featOn(l, FEAT_OPT_EXPR) && featOn(l, FEAT_NULLISH) && featOn(l, FEAT_LOGIC_ASSIGN) && featOn(l, FEAT_POW)

def beforeExpr(v TokenValue) = TokenKinds[v].BeforeExpr
def regexpAhead(l *Lexer) = !inMode(l, LM_JSX | LM_JSX_ATTR | LM_TS_TYP_ARG) && (l.state.beginStmt || ite(l.state.prtVal != T_ILLEGAL, beforeExpr(l.state.prtVal), l.state.pptVal == T_ILLEGAL || beforeExpr(l.state.pptVal)))
func Lexer.aheadIsRegexp(l) (b)
  property C06
  table TokenKinds
  requires lx(l) && 0 <= l.state.prtVal && l.state.prtVal <= T_TOKEN_DEF_END && 0 <= l.state.pptVal && l.state.pptVal <= T_TOKEN_DEF_END
  ensures b <==> regexpAhead(l)
  ensures (l.state.prtVal != T_ILLEGAL && !l.state.beginStmt) ==> (b ==> !(l.state.prtVal == T_NAME || l.state.prtVal == T_NUM || l.state.prtVal == T_STRING || l.state.prtVal == T_PAREN_R || l.state.prtVal == T_BRACKET_R || l.state.prtVal == T_THIS || l.state.prtVal == T_SUPER || l.state.prtVal == T_REGEXP || l.state.prtVal == T_TPL_TAIL || l.state.prtVal == T_NULL || l.state.prtVal == T_TRUE || l.state.prtVal == T_FALSE))
  ensures (l.state.prtVal == T_ILLEGAL && l.state.pptVal == T_ILLEGAL && !inMode(l, LM_JSX | LM_JSX_ATTR | LM_TS_TYP_ARG)) ==> b
  ensures (!inMode(l, LM_JSX | LM_JSX_ATTR | LM_TS_TYP_ARG) && (binTok(l.state.prtVal) || asgTok(l.state.prtVal) || l.state.prtVal == T_PAREN_L || l.state.prtVal == T_BRACKET_L || l.state.prtVal == T_COMMA || l.state.prtVal == T_SEMI || l.state.prtVal == T_COLON || l.state.prtVal == T_HOOK || l.state.prtVal == T_NOT || l.state.prtVal == T_BIT_NOT || l.state.prtVal == T_TYPE_OF || l.state.prtVal == T_VOID || l.state.prtVal == T_DELETE || l.state.prtVal == T_RETURN || l.state.prtVal == T_THROW || l.state.prtVal == T_CASE || l.state.prtVal == T_NEW || l.state.prtVal == T_ARROW || l.state.prtVal == T_DOT_TRI)) ==> b

func Lexer.maybeLsh(l, ofst) (b)
  property C06
  ensures b <==> ofst in l.maybeLshPos
func Lexer.lsh(l, ofst) (b)
  property C06
  ensures b <==> ofst in l.lshPos

func Lexer.readRegexp(l, tok) (t)
  trusted
  requires lx(l) && tok == cell(l) && tok.value == T_ILLEGAL
  modifies *scan, deref(cell(l))
  ensures srcOk(l) && t == cell(l) && (t.value == T_REGEXP || t.value == T_ILLEGAL)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures t.value == T_REGEXP ==> (t.rng.Lo == old(tok.rng.Lo) && t.rng.Hi == l.src.state.ofst)

func Lexer.readSymbol(l) (t)
  property C06
  table TokenKinds
  requires lx(l) && tokVals(l) && l.src.state.ofst < len(l.src.code)
  modifies *scan, deref(cell(l)), l.state.mode, elems(l.state.mode), mapof(l.maybeLshPos), mapof(l.lshPos)
  ensures lx(l) && t == cell(l) && t.value != T_EOF && tval(t.value)
  ensures t.value != T_ILLEGAL ==> l.src.state.ofst > old(l.src.state.ofst)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures t.value != T_ILLEGAL ==> (t.rng.Lo == old(l.src.state.ofst) && t.rng.Hi == l.src.state.ofst)
  ensures (allPun(l) && !old(inMode(l, LM_TS | LM_TS_TYP_ARG)) && old(pun(l.src.code, l.src.state.ofst)) != T_ILLEGAL && old(chAt(l.src.code, l.src.state.ofst)) != 47) ==> (t.value == old(pun(l.src.code, l.src.state.ofst)) && l.src.state.ofst == old(l.src.state.ofst + punLen(pun(l.src.code, l.src.state.ofst))))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 47 && !old(regexpAhead(l)) && old(chAt(l.src.code, l.src.state.ofst + 1)) != 47 && old(chAt(l.src.code, l.src.state.ofst + 1)) != 42) ==> (t.value == old(pun(l.src.code, l.src.state.ofst)) && l.src.state.ofst == old(l.src.state.ofst + punLen(pun(l.src.code, l.src.state.ofst))))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 47 && old(regexpAhead(l)) && old(chAt(l.src.code, l.src.state.ofst + 1)) != 47 && old(chAt(l.src.code, l.src.state.ofst + 1)) != 42) ==> (t.value == T_REGEXP || t.value == T_ILLEGAL)
  ensures t.value == T_COMMENT ==> hastype(t.ext, type(bool))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 47 && old(chAt(l.src.code, l.src.state.ofst + 1)) == 47) ==> (t.value == T_COMMENT && !t.ext.(bool) && l.src.state.ofst == old(lineEnd(l.src.code, l.src.state.ofst + 2)))
  ensures (old(chAt(l.src.code, l.src.state.ofst)) == 47 && old(chAt(l.src.code, l.src.state.ofst + 1)) == 42 && t.value == T_COMMENT) ==> ((t.ext.(bool) <==> old(cmtLT(l.src.code, l.src.state.ofst + 2))) && l.src.state.ofst == old(cmtEnd(l.src.code, l.src.state.ofst + 2)))
