package parser

// ---------------------------------------------------------------- which token begins here
func Lexer.aheadIsIdStart(l) (b)
  property C06
  requires srcOk(l)
  ensures b <==> idStart(chAt(l.src.code, l.src.state.ofst))
func Lexer.aheadIsPvt(l) (b)
  property C06
  requires srcOk(l)
  ensures b <==> chAt(l.src.code, l.src.state.ofst) == 35
func Lexer.aheadIsIdPart(l, permit) (b)
  property C06
  requires srcOk(l)
  ensures b <==> ((idStart(chAt(l.src.code, l.src.state.ofst)) && (permit || chAt(l.src.code, l.src.state.ofst) != 92)) || idPart(chAt(l.src.code, l.src.state.ofst)))
func Lexer.aheadIsNumStart(l) (b)
  property C06
  requires srcOk(l)
  ensures b <==> numBeg(l.src.code, l.src.state.ofst)
func Lexer.aheadIsStrStart(l) (b)
  property C06
  requires srcOk(l)
  ensures b <==> (chAt(l.src.code, l.src.state.ofst) == 34 || chAt(l.src.code, l.src.state.ofst) == 39)
func Lexer.aheadIsTplStart(l) (b)
  property C06
  requires lx(l)
  ensures b <==> (chAt(l.src.code, l.src.state.ofst) == 96 || (inMode(l, LM_TEMPLATE) && chAt(l.src.code, l.src.state.ofst) == 125))

def inJsx(l *Lexer) = inMode(l, LM_JSX) || inMode(l, LM_JSX_CHILD)
modset oneTok = l.src.state, l.state.mode, elems(l.state.mode), l.state.prevWs, deref(cell(l)), mapof(l.maybeLshPos), mapof(l.lshPos)
func Lexer.readTokWithComment(l) (t)
  property C06
  table TokenKinds
  requires lx(l) && tokVals(l) && wsOk(l)
  modifies *oneTok
  ensures lx(l) && wsOk(l) && t == cell(l) && tval(t.value)
  ensures t.value != T_ILLEGAL ==> (t.afterLineTerm <==> l.src.state.metLineTerm)
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures t.value == T_EOF ==> atEnd(l)
  ensures l.src.state.metLineTerm <==> old(wsLT(l.src.code, l.src.state.ofst))
  ensures (t.value != T_ILLEGAL && !old(inJsx(l))) ==> t.rng.Lo == old(wsEnd(l.src.code, l.src.state.ofst))
  ensures (t.value != T_ILLEGAL && t.value != T_EOF) ==> (t.rng.Hi == l.src.state.ofst && l.src.state.ofst > old(l.src.state.ofst))
  ensures old(wsEnd(l.src.code, l.src.state.ofst) == len(l.src.code)) ==> t.value == T_EOF
  ensures t.value == T_COMMENT ==> hastype(t.ext, type(bool))

func Lexer.lexTok(l) (t)
  property C04, C06
  requires lx(l) && tokVals(l) && wsOk(l) && l.state.tb.len < 5
  modifies *lexing
  ensures lx(l) && wsOk(l)
  ensures t == cell(l) && t.value != T_COMMENT && tval(t.value)
  ensures arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
  ensures t.value == T_EOF ==> atEnd(l)
  ensures old(atEnd(l)) ==> t.value == T_EOF
  ensures (t.value != T_ILLEGAL && old(wsLT(l.src.code, l.src.state.ofst))) ==> t.afterLineTerm
  loop 0
    invariant lx(l) && wsOk(l) && (prt == T_ILLEGAL || prt == T_COMMENT)
    invariant arr(l.state.mode) == old(arr(l.state.mode)) || fresh(arr(l.state.mode))
    invariant arr(l.stmtCmts) == old(arr(l.stmtCmts)) || fresh(arr(l.stmtCmts))
    invariant arr(l.exprCmts) == old(arr(l.exprCmts)) || fresh(arr(l.exprCmts))
    invariant old(atEnd(l)) ==> atEnd(l)
    invariant prt == T_ILLEGAL ==> l.src.state.ofst == old(l.src.state.ofst)
    invariant (prt == T_COMMENT && old(wsLT(l.src.code, l.src.state.ofst))) ==> lineTerm
    decreases len(l.src.code) - l.src.state.ofst
