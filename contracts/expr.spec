package parser

// ---------------------------------------------------------------- tokens and the operator table
fun hasEsc(interface{}) bool
func Token.ContainsEscape(t) (b)
  trusted
  pure
  ensures b <==> hasEsc(t.ext)
func IsName(tok, name, canContainsEscape) (b)
  requires tok != nil
  property C07
  pure
  ensures b <==> (tok.value == T_NAME && tok.text == name && (canContainsEscape || !hasEsc(tok.ext)))

def binTok(v TokenValue) = v > T_BIN_OP_BEGIN && v < T_BIN_OP_END
def opOf(t *Token, notIn bool, ts bool) = ite(binTok(t.value), t.value, ite(!notIn && t.value == T_NAME && t.text == "in" && !hasEsc(t.ext), T_IN, ite(ts && t.value == T_NAME && t.text == "as" && !hasEsc(t.ext), T_TS_AS, T_ILLEGAL)))
func Token.IsBin(t, notIn, ts) (op)
  property C07
  pure
  ensures op == opOf(t, notIn, ts)
func Token.IsUnary(t) (b)
  property C07
  pure
  ensures b <==> (t.value == T_TYPE_OF || t.value == T_VOID || t.value == T_DELETE || t.value == T_NOT || t.value == T_BIT_NOT)

// the levels of ECMAScript's binary operators, loosest first
def lvl(o TokenValue) = ite(o == T_NULLISH || o == T_OR, 1, ite(o == T_AND, 2, ite(o == T_BIT_OR, 3, ite(o == T_BIT_XOR, 4, ite(o == T_BIT_AND, 5,
  ite(o == T_EQ || o == T_NE || o == T_EQ_S || o == T_NE_S, 6,
  ite(o == T_LT || o == T_GT || o == T_LTE || o == T_GTE || o == T_INSTANCE_OF || o == T_IN || o == T_TS_AS, 7,
  ite(o == T_LSH || o == T_RSH || o == T_RSH_U, 8, ite(o == T_ADD || o == T_SUB, 9, ite(o == T_MUL || o == T_DIV || o == T_MOD, 10, ite(o == T_POW, 11, 0)))))))))))
def isOp(o TokenValue) = binTok(o) || o == T_TS_AS

func Token.Kind(t) (k)
  property C07
  table TokenKinds
  requires 0 <= t.value && t.value <= T_TOKEN_DEF_END
  ensures k == TokenKinds[t.value]
  ensures isOp(t.value) ==> (lvl(t.value) > 0 && k.Pcd > 0 && (k.RightAssoc <==> t.value == T_POW))
  ensures forall o TokenValue :: (isOp(t.value) && isOp(o)) ==> ((k.Pcd < TokenKinds[o].Pcd) <==> lvl(t.value) < lvl(o))

// ---------------------------------------------------------------- expression parsing
fun ntyp(Node) NodeType
iface Node.Type(n) (t)
  pure
  ensures t == ntyp(n)
iface Node.Range(n) (r)
  pure
axiom trusted ntyp_unary = forall n Node :: {ntyp(n)} ntyp(n) == N_EXPR_UNARY ==> (hastype(n, type(*UnaryExpr)) && n.(*UnaryExpr) != nil)
axiom trusted ntyp_memb = forall n Node :: {ntyp(n)} ntyp(n) == N_EXPR_MEMBER ==> (hastype(n, type(*MemberExpr)) && n.(*MemberExpr) != nil)
axiom trusted ntyp_chain = forall n Node :: {ntyp(n)} ntyp(n) == N_EXPR_CHAIN ==> (hastype(n, type(*ChainExpr)) && n.(*ChainExpr) != nil)
axiom trusted ntyp_name = forall n Node :: {ntyp(n)} ntyp(n) == N_NAME ==> (hastype(n, type(*Ident)) && n.(*Ident) != nil)
axiom trusted ntyp_arrow = forall n Node :: {ntyp(n)} ntyp(n) == N_EXPR_ARROW ==> (hastype(n, type(*ArrowFn)) && n.(*ArrowFn) != nil)

modset parsing = field(Lexer, state), field(Lexer, ss), field(Lexer, exprCmts), field(Lexer, stmtCmts), anyelems(LexerMode), anyelems(LexerState), anyelems(span.Range), anymap(map[uint32]bool), anymap(map[Node][]span.Range), field(span.Source, state), field(span.Source, ss), anyelems(span.SourceState)

func Parser.finRng(p, rng) (r)
  trusted
func Parser.errorAtLoc(p, rng, msg) (r)
  trusted
  ensures r != nil
func Parser.errorTok(p, tok) (r)
  trusted
  ensures r != nil
func UnParen(n) (r)
  trusted
  ensures r != nil
func UnaryExpr.OpText(n) (r)
  trusted
  ensures r == TokenKinds[n.op].Name
func Parser.scope(p) (s)
  property C07
  requires p.symtab != nil
  ensures s == p.symtab.Cur
func Parser.checkOp(p, tok) (err)
  property C07
  requires tok != nil
  ensures err == nil <==> !(tok.value == T_POW && p.feat & FEAT_POW == FEAT_NONE)
func Parser.tsTyp(p, a, b, c) (n, err)
  trusted
  requires lexOk(p.lexer)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notBin(n))

def pok(p *Parser) = p.lexer != nil && p.prevCmts != nil && p.symtab != nil && p.symtab.Cur != nil && lexOk(p.lexer) && p.lexer.src != nil

// what an expression of a tighter level is not
def notSeq(n Node) = !hastype(n, type(*SeqExpr))
def notAsg(n Node) = notSeq(n) && !hastype(n, type(*AssignExpr))
def notCond(n Node) = notAsg(n) && !hastype(n, type(*CondExpr))
def notBin(n Node) = notCond(n) && !hastype(n, type(*BinExpr))
def notUn(n Node) = notBin(n) && !hastype(n, type(*UnaryExpr))
def notUpd(n Node) = notUn(n) && !hastype(n, type(*UpdateExpr))
def unTok(v TokenValue) = v == T_TYPE_OF || v == T_VOID || v == T_DELETE || v == T_NOT || v == T_BIT_NOT || v == T_ADD || v == T_SUB || v == T_AWAIT
def wfUn(n Node) = hastype(n, type(*UnaryExpr)) ==> (unTok(n.(*UnaryExpr).op) && n.(*UnaryExpr).arg != nil && notBin(n.(*UnaryExpr).arg))
def wfUpd(n Node) = hastype(n, type(*UpdateExpr)) ==> ((n.(*UpdateExpr).op == T_INC || n.(*UpdateExpr).op == T_DEC) && n.(*UpdateExpr).arg != nil && notBin(n.(*UpdateExpr).arg) && (!n.(*UpdateExpr).prefix ==> notUpd(n.(*UpdateExpr).arg)))

def propOk(n Node) = hastype(n, type(*MemberExpr)) ==> (n.(*MemberExpr) != nil && n.(*MemberExpr).prop != nil)
def wfMem(n Node) = propOk(n) && ((hastype(n, type(*ChainExpr)) && hastype(n.(*ChainExpr).expr, type(*MemberExpr)) && n.(*ChainExpr).expr.(*MemberExpr) != nil) ==> n.(*ChainExpr).expr.(*MemberExpr).prop != nil)

func Parser.rng(p) (r)
  trusted
func Parser.lhs(p, notColon) (n, err)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notUpd(n) && wfMem(n))
func Parser.tsTryTypArgs(p, asyncLoc, noJsx) (n, err)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures (err == nil && n != nil) ==> (notUpd(n) && !hastype(n, type(*MemberExpr)) && !hastype(n, type(*ChainExpr)))
  ensures (old(p.lexer.state.tb.len) > 0 && old(ahead(p.lexer, 0).value) != T_LT) ==> (n == nil && err == nil && p.lexer.state.tb.len > 0 && ahead(p.lexer, 0).value == old(ahead(p.lexer, 0).value))
func Parser.tsTypAssert(p, node, typArgs) (n, err)
  trusted
  ensures typArgs == nil ==> (n == node && err == nil)
  ensures err == nil ==> (n == node || hastype(n, type(*TsTypAssert)))
func Parser.tsTypArgsToTypParams(p, node) (n, err)
  trusted
func Parser.isSimpleLVal(p, n, pat, inParen, member, opt) (b)
  trusted
iface NodeWithTypInfo.TypInfo(n) (ti)
  pure
func TypInfo.SetTypParams(ti, n)
  trusted
func Parser.errorAt(p, tok, pos, msg) (r)
  trusted
  ensures r != nil

func Parser.awaitExpr(p, tok) (n, err)
  trusted
  requires pok(p) && tok != nil
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notBin(n) && wfUn(n) && wfUpd(n) && wfMem(n))

func Parser.updateExpr(p, typArgs, typArgsLoc, notColon) (n, err)
  property C07
  coarse
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notUn(n))
  ensures err == nil ==> (wfUpd(n) && wfMem(n))
  ensures (err == nil && typArgs == nil && old(p.lexer.state.tb.len) > 0 && (old(ahead(p.lexer, 0).value) == T_INC || old(ahead(p.lexer, 0).value) == T_DEC)) ==> (hastype(n, type(*UpdateExpr)) && n.(*UpdateExpr).prefix && n.(*UpdateExpr).op == old(ahead(p.lexer, 0).value))

func Parser.unaryExpr(p, typArgs, typArgsLoc, notColon) (n, err)
  property C07
  coarse
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notBin(n))
  ensures err == nil ==> (wfUn(n) && wfUpd(n) && wfMem(n))
  ensures (err == nil && typArgs == nil && old(p.lexer.state.tb.len) > 0 && unTok(old(ahead(p.lexer, 0).value)) && old(ahead(p.lexer, 0).value) != T_AWAIT) ==> (hastype(n, type(*UnaryExpr)) && n.(*UnaryExpr).op == old(ahead(p.lexer, 0).value))

def pcd(o TokenValue) = TokenKinds[o].Pcd
def ra(o TokenValue) = TokenKinds[o].RightAssoc
def opN(n Node) = n.(*BinExpr).op
def isBinN(n Node) = hastype(n, type(*BinExpr))
// n may stand left (right) of the operator o without parentheses
def fitsL(n Node, o TokenValue) = isBinN(n) ==> (isOp(opN(n)) && (pcd(opN(n)) > pcd(o) || (pcd(opN(n)) == pcd(o) && !ra(o))))
def fitsR(n Node, o TokenValue) = isBinN(n) ==> (isOp(opN(n)) && (pcd(opN(n)) > pcd(o) || (pcd(opN(n)) == pcd(o) && ra(o))))
def wfBin(n Node) = isBinN(n) ==> (n.(*BinExpr).lhs != nil && n.(*BinExpr).rhs != nil && notCond(n.(*BinExpr).lhs) && notCond(n.(*BinExpr).rhs) && isOp(opN(n)) && fitsL(n.(*BinExpr).lhs, opN(n)) && fitsR(n.(*BinExpr).rhs, opN(n)))
// the operator ahead
def notInOf(p *Parser) = p.symtab.Cur.Kind & SPK_NOT_IN != SPK_NONE
def nop(p *Parser) = ite(p.lexer.state.tb.len == 0, T_ILLEGAL, opOf(ahead(p.lexer, 0), notInOf(p), p.ts))
def peeked(p *Parser) = p.lexer.state.tb.len > 0 || p.lexer.state.prtVal == T_EOF
def stops(p *Parser, notGT bool) = nop(p) == T_ILLEGAL || (nop(p) == T_GT && notGT)
def fitsNext(p *Parser, n Node, notGT bool) = isBinN(n) ==> (peeked(p) && (stops(p, notGT) || fitsL(n, nop(p))))

func Parser.binExpr(p, lhs, minPcd, logic, nullish, notGT, notColon) (r, err)
  property C07
  table TokenKinds
  coarse
  requires pok(p) && minPcd >= 0
  requires lhs != nil ==> (notCond(lhs) && wfBin(lhs) && fitsNext(p, lhs, notGT) && (isBinN(lhs) ==> pcd(opN(lhs)) >= minPcd))
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (r != nil && notCond(r))
  ensures err == nil ==> wfBin(r)
  ensures (err == nil && isBinN(r)) ==> pcd(opN(r)) >= minPcd
  ensures err == nil ==> (peeked(p) && (stops(p, notGT) || pcd(nop(p)) < minPcd))
  loop 0
    invariant pok(p)
    invariant lhs != nil && notCond(lhs)
    invariant wfBin(lhs)
    invariant fitsNext(p, lhs, notGT)
    invariant isBinN(lhs) ==> pcd(opN(lhs)) >= minPcd
  loop 1
    invariant pok(p)
    invariant rhs != nil && notCond(rhs)
    invariant wfBin(rhs)
    invariant fitsR(rhs, op)
    invariant fitsNext(p, rhs, notGT)
    invariant peeked(p) && aheadOp == nop(p) && kind == TokenKinds[aheadOp] && kind != nil
    invariant isOp(op) && pcd == TokenKinds[op].Pcd

// ---------------------------------------------------------------- conditional, assignment and comma
def asgTok(v TokenValue) = v > T_ASSIGN_BEGIN && v < T_ASSIGN_END
def wfCond(n Node) = hastype(n, type(*CondExpr)) ==> (n.(*CondExpr).test != nil && n.(*CondExpr).cons != nil && n.(*CondExpr).alt != nil && notCond(n.(*CondExpr).test) && notSeq(n.(*CondExpr).cons) && notSeq(n.(*CondExpr).alt))
def wfAsg(n Node) = hastype(n, type(*AssignExpr)) ==> (asgTok(n.(*AssignExpr).op) && n.(*AssignExpr).rhs != nil && notSeq(n.(*AssignExpr).rhs))

func Parser.advanceIfTokIn(p, begin, end) (t)
  property C07
  coarse
  requires pok(p) && begin >= T_EOF
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures t != nil ==> (t.value > begin && t.value < end)
func Parser.nextMustTok(p, v) (t, err)
  property C07
  coarse
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil <==> t.value == v
func Parser.advanceIfHook(p) (t)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures t != nil ==> t.value == T_HOOK
func Parser.tsTypAnnot(p) (n, err)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
func TypInfo.SetQues(ti, r)
  trusted
func TypInfo.SetTypAnnot(ti, n)
  trusted
func Parser.tsExprHasTypAnnot(p, n) (b)
  trusted
func Parser.tsAdvanceHook(p, b) (q, t)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
func Parser.tsNodeTypAnnot(p, n, a, m, l, b1, b2, b3, b4, q) (r)
  trusted
func Parser.arrowFn(p, r, args, a, b) (n, err)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notBin(n))
func Parser.yieldExpr(p) (n, err)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notUpd(n))
func Parser.aheadIsYield(p) (b)
  trusted
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
func Lexer.takeExprCmts(l) (r)
  trusted
  modifies l.exprCmts
func Lexer.PrevTok(l) (v)
  trusted
func Lexer.PrevTokRng(l) (v)
  trusted
func Parser.argToParam(p, n, depth, a, b, c) (r, err)
  trusted
  ensures err == nil ==> r != nil
func Parser.checkArg(p, n, a, b) (err)
  trusted
func Parser.newTypInfo(p, t) (ti)
  trusted

func Parser.condExpr(p, test, notGT, notHook, notColon) (n, err)
  property C07
  coarse
  requires pok(p)
  requires test != nil ==> notBin(test)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notAsg(n))
  ensures err == nil ==> wfCond(n)
func Parser.assignExpr(p, checkLhs, notGT, notHook, notColon) (n, err)
  property C07
  coarse
  requires pok(p)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> (n != nil && notSeq(n))
  ensures err == nil ==> (wfCond(n) && wfAsg(n))
func Parser.seqExpr(p, expr, notGT) (n, err)
  property C07
  coarse
  requires pok(p)
  requires expr != nil ==> notSeq(expr)
  modifies *parsing
  ensures lexOk(p.lexer)
  ensures err == nil ==> n != nil
  ensures (err == nil && hastype(n, type(*SeqExpr))) ==> len(n.(*SeqExpr).elems) >= 2
  ensures (err == nil && hastype(n, type(*SeqExpr))) ==> (forall i int :: {n.(*SeqExpr).elems[i]} (0 <= i && i < len(n.(*SeqExpr).elems)) ==> notSeq(n.(*SeqExpr).elems[i]))
  loop 0
    invariant pok(p)
    invariant fresh(arr(exprs))
    invariant len(exprs) >= 1 && (len(exprs) == 1 ==> (p.lexer.state.tb.len > 0 && ahead(p.lexer, 0).value == T_COMMA))
    invariant (forall i int :: {exprs[i]} (0 <= i && i < len(exprs)) ==> notSeq(exprs[i]))
