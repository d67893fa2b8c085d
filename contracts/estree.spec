package estree

// written by tools/genestree.py (the text around the table of kinds is in tools/estree_head.spec)

// ---------------------------------------------------------------- the tree being converted
// n: the range that the node n reports; conv(r, n): r is a result of converting n.
// The tree does not change while it is converted.
fun nlo(parser.Node) int
fun nhi(parser.Node) int
fun conv(Node, parser.Node) bool
// nothing is converted to nothing (proved of Convert: node == nil ==> r == nil)
axiom kind conv_nil = forall r Node, n parser.Node :: {conv(r, n)} (r == nil && n == nil) ==> conv(r, n)
fun convT(Node, parser.Node) bool
fun tiOf(parser.Node) *parser.TypInfo
def paramProp(n parser.Node) = hastype(n, type(parser.NodeWithTypInfo)) && tiOf(n) != nil && tiOf(n).clsTyp != nil && (tiOf(n).clsTyp.readonly || tiOf(n).clsTyp.override || tiOf(n).clsTyp.accMod != parser.ACC_MOD_NONE)
def convP(r Node, n parser.Node) = ite(paramProp(n), hastype(r, type(*TSParameterProperty)) && r.(*TSParameterProperty) != nil && r.(*TSParameterProperty).Type == "TSParameterProperty" && conv(r.(*TSParameterProperty).Parameter, n) && (r.(*TSParameterProperty).Readonly <==> tiOf(n).clsTyp.readonly) && (r.(*TSParameterProperty).Override <==> tiOf(n).clsTyp.override) && r.(*TSParameterProperty).Accessibility == accText(tiOf(n)), conv(r, n))
iface parser.Node.Range(n) (r)
  pure
  ensures r.Lo == nlo(n) && r.Hi == nhi(n) && !nilptr(n)
iface parser.NodeWithTypInfo.TypInfo(n) (t)
  pure
  ensures t == tiOf(n)
  ensures hastype(n, type(*parser.ClassDec)) ==> t == n.(*parser.ClassDec).ti
  ensures hastype(n, type(*parser.Method)) ==> t == n.(*parser.Method).ti
  ensures hastype(n, type(*parser.Field)) ==> t == n.(*parser.Field).ti
  ensures hastype(n, type(*parser.Ident)) ==> t == n.(*parser.Ident).ti
  ensures hastype(n, type(*parser.ArrowFn)) ==> t == n.(*parser.ArrowFn).ti
  ensures hastype(n, type(*parser.ArrPat)) ==> t == n.(*parser.ArrPat).ti
  ensures hastype(n, type(*parser.ObjPat)) ==> t == n.(*parser.ObjPat).ti
// a tag begins before its template ends
iface parser.TplExpr.Tag(n) (t)
  pure
  ensures t == n.tag && (t != nil ==> nlo(t) <= nhi(n))
iface parser.ArrowFn.TypInfo(n) (t)
  pure
  ensures t == n.ti && t == tiOf(n)
iface parser.ArrPat.TypInfo(n) (t)
  pure
  ensures t == n.ti && t == tiOf(n)
iface parser.ObjPat.TypInfo(n) (t)
  pure
  ensures t == n.ti && t == tiOf(n)
fun quesLo(*parser.TypInfo) int
fun quesHi(*parser.TypInfo) int
fun beginLo(*parser.TypInfo) int
fun beginHi(*parser.TypInfo) int
iface parser.TypInfo.Ques(t) (r)
  pure
  ensures r.Lo == t.ques.Lo && r.Hi == t.ques.Hi && r.Lo == quesLo(t) && r.Hi == quesHi(t)
iface parser.TypInfo.BeginRng(t) (r)
  pure
  ensures r.Lo == beginLo(t) && r.Hi == beginHi(t)
iface parser.ArrLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ArrPat.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ArrowFn.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.AssignExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.AssignPat.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.BinExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.BlockStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.BoolLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.BrkStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.CallExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Catch.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ChainExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ClassBody.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ClassDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.CondExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ContStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.DebugStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Decorator.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.DoWhileStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.EmptyStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ExportDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ExportSpec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ExprStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Field.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.FnDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ForInOfStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ForStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Ident.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.IfStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ImportCall.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ImportDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ImportSpec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxAttr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxClose.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxElem.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxEmpty.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxExprSpan.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxIdent.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxMember.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxNsName.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxOpen.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxSpreadAttr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxSpreadChild.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.JsxText.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.LabelStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.MemberExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.MetaProp.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Method.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.NewExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.NullLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.NumLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ObjLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ObjPat.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ParenExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Prog.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Prop.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.RegLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.RestPat.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.RetStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.SeqExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Spread.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.StaticBlock.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.StrLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.Super.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.SwitchCase.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.SwitchStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ThisExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.ThrowStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TplExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TryStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsArr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsCallSig.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsCondType.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsEnum.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsEnumMember.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsExportAssign.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsFnTyp.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsIdxAccess.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsIdxSig.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsImportAlias.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsImportRequire.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsImportType.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsInterface.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsInterfaceBody.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsIntersectTyp.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsLit.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsMapped.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsNS.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsNewSig.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsNoNull.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsNsName.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsObj.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsOpt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsParam.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsParamsDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsParamsInst.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsParen.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsProp.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsRef.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsRest.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTuple.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTupleNamedMember.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypAnnot.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypAssert.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypInfer.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypOp.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypPredicate.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsTypQuery.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsUnionTyp.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.UnaryExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.UpdateExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.VarDec.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.VarDecStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.WhileStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.WithStmt.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.YieldExpr.Range(n) (r)
  pure
  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)
iface parser.TsDec.Type(n) (r)
  pure
  ensures r == n.typ && r == ntyp(n)
// the value of numeric literals is C11's
fun bigText(string) string
fun numOf(parser.Node) float64
fun isBig(parser.Node) bool
iface parser.NodeToFloat(node, s) (f)
  pure
  ensures f == numOf(node)
iface parser.NodeIsBigint(n, s) (b)
  pure
  ensures b <==> isBig(n)
iface parser.ParseBigint(t) (b)
  ensures b != nil && fresh(b)
extern math/big.Int.String(b) (s)
  pure
// a node of a kind has the struct of that kind
iface parser.StrLit.Type(n) (t)
  pure
  ensures t == parser.N_LIT_STR
axiom kind kind_N_CATCH = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_CATCH ==> (hastype(n, type(*parser.Catch)) && n.(*parser.Catch) != nil)
axiom kind kind_N_CLASS_BODY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_CLASS_BODY ==> (hastype(n, type(*parser.ClassBody)) && n.(*parser.ClassBody) != nil)
axiom kind kind_N_DECORATOR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_DECORATOR ==> (hastype(n, type(*parser.Decorator)) && n.(*parser.Decorator) != nil)
axiom kind kind_N_EXPR_ARROW = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_ARROW ==> (hastype(n, type(*parser.ArrowFn)) && n.(*parser.ArrowFn) != nil)
axiom kind kind_N_EXPR_ASSIGN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_ASSIGN ==> (hastype(n, type(*parser.AssignExpr)) && n.(*parser.AssignExpr) != nil)
axiom kind kind_N_EXPR_BIN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_BIN ==> (hastype(n, type(*parser.BinExpr)) && n.(*parser.BinExpr) != nil)
axiom kind kind_N_EXPR_CALL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_CALL ==> (hastype(n, type(*parser.CallExpr)) && n.(*parser.CallExpr) != nil)
axiom kind kind_N_EXPR_CHAIN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_CHAIN ==> (hastype(n, type(*parser.ChainExpr)) && n.(*parser.ChainExpr) != nil)
axiom kind kind_N_EXPR_CLASS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_CLASS ==> (hastype(n, type(*parser.ClassDec)) && n.(*parser.ClassDec) != nil)
axiom kind kind_N_EXPR_CLASS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_CLASS ==> (hastype(n, type(*parser.ClassDec)) && n.(*parser.ClassDec) != nil)
axiom kind kind_N_EXPR_COND = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_COND ==> (hastype(n, type(*parser.CondExpr)) && n.(*parser.CondExpr) != nil)
axiom kind kind_N_EXPR_FN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_FN ==> (hastype(n, type(*parser.FnDec)) && n.(*parser.FnDec) != nil)
axiom kind kind_N_EXPR_MEMBER = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_MEMBER ==> (hastype(n, type(*parser.MemberExpr)) && n.(*parser.MemberExpr) != nil)
axiom kind kind_N_EXPR_NEW = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_NEW ==> (hastype(n, type(*parser.NewExpr)) && n.(*parser.NewExpr) != nil)
axiom kind kind_N_EXPR_PAREN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_PAREN ==> (hastype(n, type(*parser.ParenExpr)) && n.(*parser.ParenExpr) != nil)
axiom kind kind_N_EXPR_SEQ = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_SEQ ==> (hastype(n, type(*parser.SeqExpr)) && n.(*parser.SeqExpr) != nil)
axiom kind kind_N_EXPR_THIS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_THIS ==> (hastype(n, type(*parser.ThisExpr)) && n.(*parser.ThisExpr) != nil)
axiom kind kind_N_EXPR_TPL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_TPL ==> (hastype(n, type(*parser.TplExpr)) && n.(*parser.TplExpr) != nil)
axiom kind kind_N_EXPR_TPL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_TPL ==> (hastype(n, type(*parser.TplExpr)) && n.(*parser.TplExpr) != nil)
axiom kind kind_N_EXPR_UNARY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_UNARY ==> (hastype(n, type(*parser.UnaryExpr)) && n.(*parser.UnaryExpr) != nil)
axiom kind kind_N_EXPR_UPDATE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_UPDATE ==> (hastype(n, type(*parser.UpdateExpr)) && n.(*parser.UpdateExpr) != nil)
axiom kind kind_N_EXPR_YIELD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_EXPR_YIELD ==> (hastype(n, type(*parser.YieldExpr)) && n.(*parser.YieldExpr) != nil)
axiom kind kind_N_FIELD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_FIELD ==> (hastype(n, type(*parser.Field)) && n.(*parser.Field) != nil)
axiom kind kind_N_FIELD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_FIELD ==> (hastype(n, type(*parser.Field)) && n.(*parser.Field) != nil)
axiom kind kind_N_IMPORT_CALL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_IMPORT_CALL ==> (hastype(n, type(*parser.ImportCall)) && n.(*parser.ImportCall) != nil)
axiom kind kind_N_JSX_ATTR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_ATTR ==> (hastype(n, type(*parser.JsxAttr)) && n.(*parser.JsxAttr) != nil)
axiom kind kind_N_JSX_ATTR_SPREAD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_ATTR_SPREAD ==> (hastype(n, type(*parser.JsxSpreadAttr)) && n.(*parser.JsxSpreadAttr) != nil)
axiom kind kind_N_JSX_CHILD_SPREAD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_CHILD_SPREAD ==> (hastype(n, type(*parser.JsxSpreadChild)) && n.(*parser.JsxSpreadChild) != nil)
axiom kind kind_N_JSX_CLOSE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_CLOSE ==> (hastype(n, type(*parser.JsxClose)) && n.(*parser.JsxClose) != nil)
axiom kind kind_N_JSX_ELEM = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_ELEM ==> (hastype(n, type(*parser.JsxElem)) && n.(*parser.JsxElem) != nil)
axiom kind kind_N_JSX_EMPTY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_EMPTY ==> (hastype(n, type(*parser.JsxEmpty)) && n.(*parser.JsxEmpty) != nil)
axiom kind kind_N_JSX_EXPR_SPAN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_EXPR_SPAN ==> (hastype(n, type(*parser.JsxExprSpan)) && n.(*parser.JsxExprSpan) != nil)
axiom kind kind_N_JSX_ID = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_ID ==> (hastype(n, type(*parser.JsxIdent)) && n.(*parser.JsxIdent) != nil)
axiom kind kind_N_JSX_MEMBER = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_MEMBER ==> (hastype(n, type(*parser.JsxMember)) && n.(*parser.JsxMember) != nil)
axiom kind kind_N_JSX_NS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_NS ==> (hastype(n, type(*parser.JsxNsName)) && n.(*parser.JsxNsName) != nil)
axiom kind kind_N_JSX_OPEN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_OPEN ==> (hastype(n, type(*parser.JsxOpen)) && n.(*parser.JsxOpen) != nil)
axiom kind kind_N_JSX_OPEN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_OPEN ==> (hastype(n, type(*parser.JsxOpen)) && n.(*parser.JsxOpen) != nil)
axiom kind kind_N_JSX_TXT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_JSX_TXT ==> (hastype(n, type(*parser.JsxText)) && n.(*parser.JsxText) != nil)
axiom kind kind_N_LIT_ARR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_ARR ==> (hastype(n, type(*parser.ArrLit)) && n.(*parser.ArrLit) != nil)
axiom kind kind_N_LIT_BOOL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_BOOL ==> (hastype(n, type(*parser.BoolLit)) && n.(*parser.BoolLit) != nil)
axiom kind kind_N_LIT_NULL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_NULL ==> (hastype(n, type(*parser.NullLit)) && n.(*parser.NullLit) != nil)
axiom kind kind_N_LIT_NUM = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_NUM ==> (hastype(n, type(*parser.NumLit)) && n.(*parser.NumLit) != nil)
axiom kind kind_N_LIT_NUM = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_NUM ==> (hastype(n, type(*parser.NumLit)) && n.(*parser.NumLit) != nil)
axiom kind kind_N_LIT_OBJ = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_OBJ ==> (hastype(n, type(*parser.ObjLit)) && n.(*parser.ObjLit) != nil)
axiom kind kind_N_LIT_REGEXP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_REGEXP ==> (hastype(n, type(*parser.RegLit)) && n.(*parser.RegLit) != nil)
axiom kind kind_N_LIT_STR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_LIT_STR ==> (hastype(n, type(*parser.StrLit)) && n.(*parser.StrLit) != nil)
axiom kind kind_N_META_PROP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_META_PROP ==> (hastype(n, type(*parser.MetaProp)) && n.(*parser.MetaProp) != nil)
axiom kind kind_N_METHOD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_METHOD ==> (hastype(n, type(*parser.Method)) && n.(*parser.Method) != nil)
axiom kind kind_N_METHOD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_METHOD ==> (hastype(n, type(*parser.Method)) && n.(*parser.Method) != nil)
axiom kind kind_N_NAME = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_NAME ==> (hastype(n, type(*parser.Ident)) && n.(*parser.Ident) != nil)
axiom kind kind_N_NAME = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_NAME ==> (hastype(n, type(*parser.Ident)) && n.(*parser.Ident) != nil)
axiom kind kind_N_PAT_ARRAY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_PAT_ARRAY ==> (hastype(n, type(*parser.ArrPat)) && n.(*parser.ArrPat) != nil)
axiom kind kind_N_PAT_ASSIGN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_PAT_ASSIGN ==> (hastype(n, type(*parser.AssignPat)) && n.(*parser.AssignPat) != nil)
axiom kind kind_N_PAT_OBJ = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_PAT_OBJ ==> (hastype(n, type(*parser.ObjPat)) && n.(*parser.ObjPat) != nil)
axiom kind kind_N_PAT_REST = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_PAT_REST ==> (hastype(n, type(*parser.RestPat)) && n.(*parser.RestPat) != nil)
axiom kind kind_N_PROP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_PROP ==> (hastype(n, type(*parser.Prop)) && n.(*parser.Prop) != nil)
axiom kind kind_N_SPREAD = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_SPREAD ==> (hastype(n, type(*parser.Spread)) && n.(*parser.Spread) != nil)
axiom kind kind_N_STATIC_BLOCK = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STATIC_BLOCK ==> (hastype(n, type(*parser.StaticBlock)) && n.(*parser.StaticBlock) != nil)
axiom kind kind_N_STMT_BLOCK = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_BLOCK ==> (hastype(n, type(*parser.BlockStmt)) && n.(*parser.BlockStmt) != nil)
axiom kind kind_N_STMT_BRK = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_BRK ==> (hastype(n, type(*parser.BrkStmt)) && n.(*parser.BrkStmt) != nil)
axiom kind kind_N_STMT_CLASS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_CLASS ==> (hastype(n, type(*parser.ClassDec)) && n.(*parser.ClassDec) != nil)
axiom kind kind_N_STMT_CLASS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_CLASS ==> (hastype(n, type(*parser.ClassDec)) && n.(*parser.ClassDec) != nil)
axiom kind kind_N_STMT_CONT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_CONT ==> (hastype(n, type(*parser.ContStmt)) && n.(*parser.ContStmt) != nil)
axiom kind kind_N_STMT_DEBUG = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_DEBUG ==> (hastype(n, type(*parser.DebugStmt)) && n.(*parser.DebugStmt) != nil)
axiom kind kind_N_STMT_DO_WHILE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_DO_WHILE ==> (hastype(n, type(*parser.DoWhileStmt)) && n.(*parser.DoWhileStmt) != nil)
axiom kind kind_N_STMT_EMPTY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_EMPTY ==> (hastype(n, type(*parser.EmptyStmt)) && n.(*parser.EmptyStmt) != nil)
axiom kind kind_N_STMT_EXPORT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_EXPORT ==> (hastype(n, type(*parser.ExportDec)) && n.(*parser.ExportDec) != nil)
axiom kind kind_N_STMT_EXPORT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_EXPORT ==> (hastype(n, type(*parser.ExportDec)) && n.(*parser.ExportDec) != nil)
axiom kind kind_N_STMT_EXPR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_EXPR ==> (hastype(n, type(*parser.ExprStmt)) && n.(*parser.ExprStmt) != nil)
axiom kind kind_N_STMT_FN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_FN ==> (hastype(n, type(*parser.FnDec)) && n.(*parser.FnDec) != nil)
axiom kind kind_N_STMT_FOR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_FOR ==> (hastype(n, type(*parser.ForStmt)) && n.(*parser.ForStmt) != nil)
axiom kind kind_N_STMT_FOR_IN_OF = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_FOR_IN_OF ==> (hastype(n, type(*parser.ForInOfStmt)) && n.(*parser.ForInOfStmt) != nil)
axiom kind kind_N_STMT_IF = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_IF ==> (hastype(n, type(*parser.IfStmt)) && n.(*parser.IfStmt) != nil)
axiom kind kind_N_STMT_IMPORT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_IMPORT ==> (hastype(n, type(*parser.ImportDec)) && n.(*parser.ImportDec) != nil)
axiom kind kind_N_STMT_LABEL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_LABEL ==> (hastype(n, type(*parser.LabelStmt)) && n.(*parser.LabelStmt) != nil)
axiom kind kind_N_STMT_RET = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_RET ==> (hastype(n, type(*parser.RetStmt)) && n.(*parser.RetStmt) != nil)
axiom kind kind_N_STMT_SWITCH = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_SWITCH ==> (hastype(n, type(*parser.SwitchStmt)) && n.(*parser.SwitchStmt) != nil)
axiom kind kind_N_STMT_THROW = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_THROW ==> (hastype(n, type(*parser.ThrowStmt)) && n.(*parser.ThrowStmt) != nil)
axiom kind kind_N_STMT_TRY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_TRY ==> (hastype(n, type(*parser.TryStmt)) && n.(*parser.TryStmt) != nil)
axiom kind kind_N_STMT_VAR_DEC = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_VAR_DEC ==> (hastype(n, type(*parser.VarDecStmt)) && n.(*parser.VarDecStmt) != nil)
axiom kind kind_N_STMT_WHILE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_WHILE ==> (hastype(n, type(*parser.WhileStmt)) && n.(*parser.WhileStmt) != nil)
axiom kind kind_N_STMT_WITH = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_STMT_WITH ==> (hastype(n, type(*parser.WithStmt)) && n.(*parser.WithStmt) != nil)
axiom kind kind_N_SUPER = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_SUPER ==> (hastype(n, type(*parser.Super)) && n.(*parser.Super) != nil)
axiom kind kind_N_TS_ARR = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_ARR ==> (hastype(n, type(*parser.TsArr)) && n.(*parser.TsArr) != nil)
axiom kind kind_N_TS_CALL_SIG = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_CALL_SIG ==> (hastype(n, type(*parser.TsCallSig)) && n.(*parser.TsCallSig) != nil)
axiom kind kind_N_TS_COND = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_COND ==> (hastype(n, type(*parser.TsCondType)) && n.(*parser.TsCondType) != nil)
axiom kind kind_N_TS_DEC_CLASS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_CLASS ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_ENUM = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_ENUM ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_FN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_FN ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_GLOBAL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_GLOBAL ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_INTERFACE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_INTERFACE ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_MODULE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_MODULE ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_NS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_NS ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_TYP_DEC = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_TYP_DEC ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_DEC_VAR_DEC = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_DEC_VAR_DEC ==> (hastype(n, type(*parser.TsDec)) && n.(*parser.TsDec) != nil)
axiom kind kind_N_TS_ENUM = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_ENUM ==> (hastype(n, type(*parser.TsEnum)) && n.(*parser.TsEnum) != nil)
axiom kind kind_N_TS_ENUM_MEMBER = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_ENUM_MEMBER ==> (hastype(n, type(*parser.TsEnumMember)) && n.(*parser.TsEnumMember) != nil)
axiom kind kind_N_TS_EXPORT_ASSIGN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_EXPORT_ASSIGN ==> (hastype(n, type(*parser.TsExportAssign)) && n.(*parser.TsExportAssign) != nil)
axiom kind kind_N_TS_FN_TYP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_FN_TYP ==> (hastype(n, type(*parser.TsFnTyp)) && n.(*parser.TsFnTyp) != nil)
axiom kind kind_N_TS_IDX_ACCESS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_IDX_ACCESS ==> (hastype(n, type(*parser.TsIdxAccess)) && n.(*parser.TsIdxAccess) != nil)
axiom kind kind_N_TS_IDX_SIG = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_IDX_SIG ==> (hastype(n, type(*parser.TsIdxSig)) && n.(*parser.TsIdxSig) != nil)
axiom kind kind_N_TS_IMPORT_ALIAS = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_IMPORT_ALIAS ==> (hastype(n, type(*parser.TsImportAlias)) && n.(*parser.TsImportAlias) != nil)
axiom kind kind_N_TS_IMPORT_REQUIRE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_IMPORT_REQUIRE ==> (hastype(n, type(*parser.TsImportRequire)) && n.(*parser.TsImportRequire) != nil)
axiom kind kind_N_TS_IMPORT_TYP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_IMPORT_TYP ==> (hastype(n, type(*parser.TsImportType)) && n.(*parser.TsImportType) != nil)
axiom kind kind_N_TS_INTERFACE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_INTERFACE ==> (hastype(n, type(*parser.TsInterface)) && n.(*parser.TsInterface) != nil)
axiom kind kind_N_TS_INTERFACE_BODY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_INTERFACE_BODY ==> (hastype(n, type(*parser.TsInterfaceBody)) && n.(*parser.TsInterfaceBody) != nil)
axiom kind kind_N_TS_INTERSECT_TYP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_INTERSECT_TYP ==> (hastype(n, type(*parser.TsIntersectTyp)) && n.(*parser.TsIntersectTyp) != nil)
axiom kind kind_N_TS_LIT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_LIT ==> (hastype(n, type(*parser.TsLit)) && n.(*parser.TsLit) != nil)
axiom kind kind_N_TS_LIT_OBJ = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_LIT_OBJ ==> (hastype(n, type(*parser.TsObj)) && n.(*parser.TsObj) != nil)
axiom kind kind_N_TS_MAPPED = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_MAPPED ==> (hastype(n, type(*parser.TsMapped)) && n.(*parser.TsMapped) != nil)
axiom kind kind_N_TS_NAMESPACE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_NAMESPACE ==> (hastype(n, type(*parser.TsNS)) && n.(*parser.TsNS) != nil)
axiom kind kind_N_TS_NEW = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_NEW ==> (hastype(n, type(*parser.TsNewSig)) && n.(*parser.TsNewSig) != nil)
axiom kind kind_N_TS_NEW_SIG = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_NEW_SIG ==> (hastype(n, type(*parser.TsNewSig)) && n.(*parser.TsNewSig) != nil)
axiom kind kind_N_TS_NO_NULL = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_NO_NULL ==> (hastype(n, type(*parser.TsNoNull)) && n.(*parser.TsNoNull) != nil)
axiom kind kind_N_TS_NS_NAME = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_NS_NAME ==> (hastype(n, type(*parser.TsNsName)) && n.(*parser.TsNsName) != nil)
axiom kind kind_N_TS_OPT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_OPT ==> (hastype(n, type(*parser.TsOpt)) && n.(*parser.TsOpt) != nil)
axiom kind kind_N_TS_PARAM = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_PARAM ==> (hastype(n, type(*parser.TsParam)) && n.(*parser.TsParam) != nil)
axiom kind kind_N_TS_PARAM_DEC = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_PARAM_DEC ==> (hastype(n, type(*parser.TsParamsDec)) && n.(*parser.TsParamsDec) != nil)
axiom kind kind_N_TS_PARAM_INST = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_PARAM_INST ==> (hastype(n, type(*parser.TsParamsInst)) && n.(*parser.TsParamsInst) != nil)
axiom kind kind_N_TS_PAREN = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_PAREN ==> (hastype(n, type(*parser.TsParen)) && n.(*parser.TsParen) != nil)
axiom kind kind_N_TS_PROP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_PROP ==> (hastype(n, type(*parser.TsProp)) && n.(*parser.TsProp) != nil)
axiom kind kind_N_TS_REF = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_REF ==> (hastype(n, type(*parser.TsRef)) && n.(*parser.TsRef) != nil)
axiom kind kind_N_TS_REST = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_REST ==> (hastype(n, type(*parser.TsRest)) && n.(*parser.TsRest) != nil)
axiom kind kind_N_TS_TUPLE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TUPLE ==> (hastype(n, type(*parser.TsTuple)) && n.(*parser.TsTuple) != nil)
axiom kind kind_N_TS_TUPLE_NAMED_MEMBER = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TUPLE_NAMED_MEMBER ==> (hastype(n, type(*parser.TsTupleNamedMember)) && n.(*parser.TsTupleNamedMember) != nil)
axiom kind kind_N_TS_TYP_ANNOT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_ANNOT ==> (hastype(n, type(*parser.TsTypAnnot)) && n.(*parser.TsTypAnnot) != nil)
axiom kind kind_N_TS_TYP_ASSERT = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_ASSERT ==> (hastype(n, type(*parser.TsTypAssert)) && n.(*parser.TsTypAssert) != nil)
axiom kind kind_N_TS_TYP_DEC = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_DEC ==> (hastype(n, type(*parser.TsTypDec)) && n.(*parser.TsTypDec) != nil)
axiom kind kind_N_TS_TYP_INFER = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_INFER ==> (hastype(n, type(*parser.TsTypInfer)) && n.(*parser.TsTypInfer) != nil)
axiom kind kind_N_TS_TYP_OP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_OP ==> (hastype(n, type(*parser.TsTypOp)) && n.(*parser.TsTypOp) != nil)
axiom kind kind_N_TS_TYP_PREDICATE = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_PREDICATE ==> (hastype(n, type(*parser.TsTypPredicate)) && n.(*parser.TsTypPredicate) != nil)
axiom kind kind_N_TS_TYP_QUERY = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_TYP_QUERY ==> (hastype(n, type(*parser.TsTypQuery)) && n.(*parser.TsTypQuery) != nil)
axiom kind kind_N_TS_UNION_TYP = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.N_TS_UNION_TYP ==> (hastype(n, type(*parser.TsUnionTyp)) && n.(*parser.TsUnionTyp) != nil)

def code(ctx *ConvertCtx) = ctx.Parser.lexer.src.code
def inCode(ctx *ConvertCtx, lo int, hi int) = 0 <= lo && lo <= hi && hi <= len(code(ctx))
def ctxOK(ctx *ConvertCtx) = ctx != nil && ctx.Scope != nil && ctx.Parser != nil && ctx.Parser.lexer != nil && ctx.Parser.lexer.src != nil && len(code(ctx)) < 4294967295 && (forall n parser.Node :: {nlo(n)} {nhi(n)} inCode(ctx, nlo(n), nhi(n))) && (forall t *parser.TypInfo :: {quesHi(t)} {beginHi(t)} inCode(ctx, quesLo(t), quesHi(t)) && inCode(ctx, beginLo(t), beginHi(t)))
def rngtext(ctx *ConvertCtx, n parser.Node) = code(ctx)[nlo(n):nhi(n)]
def spanIs(lo int, hi int, n parser.Node) = lo == nlo(n) && hi == nhi(n)
fun lineAt(string, int) int
fun colAt(string, int) int
axiom hidden lineAt_def = forall s string, o int :: {lineAt(s, o)} lineAt(s, o) == lineOf(s, o)
axiom hidden colAt_def = forall s string, o int :: {colAt(s, o)} colAt(s, o) == colOf(s, o)
def locAt(l *SrcLoc, lo int, hi int, ctx *ConvertCtx) = ite(ctx.LineCol,
  l != nil && l.Start.Line == lineAt(code(ctx), lo) && l.Start.Column == colAt(code(ctx), lo) && l.End.Line == lineAt(code(ctx), hi) && l.End.Column == colAt(code(ctx), hi), l == nil)
def locIs(l *SrcLoc, n parser.Node, ctx *ConvertCtx) = locAt(l, nlo(n), nhi(n), ctx)
def kindText(k parser.PropKind) = ite(k == parser.PK_INIT, "init", ite(k == parser.PK_GETTER, "get", ite(k == parser.PK_SETTER, "set", ite(k == parser.PK_CTOR, "constructor", ite(k == parser.PK_METHOD, "method", "")))))
def modKind(ts bool) = ite(ts, "type", "value")

def caseIs(c *SwitchCase, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.SwitchCase)) && c != nil && c.Type == "SwitchCase" && spanIs(c.Start, c.End, n) && locIs(c.Loc, n, ctx) && conv(c.Test, n.(*parser.SwitchCase).test) && len(c.Consequent) == len(n.(*parser.SwitchCase).cons) && (forall j int :: {c.Consequent[j]} (0 <= j && j < len(c.Consequent)) ==> conv(c.Consequent[j], n.(*parser.SwitchCase).cons[j]))
def decIs(c *VariableDeclarator, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.VarDec)) && c != nil && c.Type == "VariableDeclarator" && spanIs(c.Start, c.End, n) && locIs(c.Loc, n, ctx) && conv(c.Id, n.(*parser.VarDec).id) && conv(c.Init, n.(*parser.VarDec).init)
def impIs(r Node, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.ImportSpec)) && n.(*parser.ImportSpec) != nil && ite(n.(*parser.ImportSpec).def,
  hastype(r, type(*ImportDefaultSpecifier)) && r.(*ImportDefaultSpecifier) != nil && r.(*ImportDefaultSpecifier).Type == "ImportDefaultSpecifier" && spanIs(r.(*ImportDefaultSpecifier).Start, r.(*ImportDefaultSpecifier).End, n) && locIs(r.(*ImportDefaultSpecifier).Loc, n, ctx) && conv(r.(*ImportDefaultSpecifier).Local, n.(*parser.ImportSpec).local),
  ite(n.(*parser.ImportSpec).ns,
  hastype(r, type(*ImportNamespaceSpecifier)) && r.(*ImportNamespaceSpecifier) != nil && r.(*ImportNamespaceSpecifier).Type == "ImportNamespaceSpecifier" && spanIs(r.(*ImportNamespaceSpecifier).Start, r.(*ImportNamespaceSpecifier).End, n) && locIs(r.(*ImportNamespaceSpecifier).Loc, n, ctx) && conv(r.(*ImportNamespaceSpecifier).Local, n.(*parser.ImportSpec).local),
  hastype(r, type(*ImportSpecifier)) && r.(*ImportSpecifier) != nil && r.(*ImportSpecifier).Type == "ImportSpecifier" && spanIs(r.(*ImportSpecifier).Start, r.(*ImportSpecifier).End, n) && locIs(r.(*ImportSpecifier).Loc, n, ctx) && conv(r.(*ImportSpecifier).Local, n.(*parser.ImportSpec).local) && conv(r.(*ImportSpecifier).Imported, n.(*parser.ImportSpec).id) && r.(*ImportSpecifier).ImportKind == modKind(n.(*parser.ImportSpec).tsTyp)))

def expIs(r Node, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.ExportSpec)) && n.(*parser.ExportSpec) != nil && hastype(r, type(*ExportSpecifier)) && r.(*ExportSpecifier) != nil && r.(*ExportSpecifier).Type == "ExportSpecifier" && spanIs(r.(*ExportSpecifier).Start, r.(*ExportSpecifier).End, n) && locIs(r.(*ExportSpecifier).Loc, n, ctx) && conv(r.(*ExportSpecifier).Local, n.(*parser.ExportSpec).local) && conv(r.(*ExportSpecifier).Exported, n.(*parser.ExportSpec).id) && r.(*ExportSpecifier).ExportKind == modKind(n.(*parser.ExportSpec).tsTyp)
def exportAllIs(r Node, n *parser.ExportDec, ctx *ConvertCtx) = hastype(r, type(*ExportAllDeclaration)) && r.(*ExportAllDeclaration) != nil && r.(*ExportAllDeclaration).Type == "ExportAllDeclaration" && spanIs(r.(*ExportAllDeclaration).Start, r.(*ExportAllDeclaration).End, n) && locIs(r.(*ExportAllDeclaration).Loc, n, ctx) && conv(r.(*ExportAllDeclaration).Source, n.src) && ite(len(n.specs) == 1, hastype(n.specs[0], type(*parser.ExportSpec)) && conv(r.(*ExportAllDeclaration).Exported, n.specs[0].(*parser.ExportSpec).local), r.(*ExportAllDeclaration).Exported == nil)
def exportDefIs(r Node, n *parser.ExportDec, ctx *ConvertCtx) = hastype(r, type(*ExportDefaultDeclaration)) && r.(*ExportDefaultDeclaration) != nil && r.(*ExportDefaultDeclaration).Type == "ExportDefaultDeclaration" && spanIs(r.(*ExportDefaultDeclaration).Start, r.(*ExportDefaultDeclaration).End, n) && locIs(r.(*ExportDefaultDeclaration).Loc, n, ctx) && conv(r.(*ExportDefaultDeclaration).Declaration, n.dec)
def exportNamedIs(r Node, n *parser.ExportDec, ctx *ConvertCtx) = hastype(r, type(*ExportNamedDeclaration)) && r.(*ExportNamedDeclaration) != nil && r.(*ExportNamedDeclaration).Type == "ExportNamedDeclaration" && spanIs(r.(*ExportNamedDeclaration).Start, r.(*ExportNamedDeclaration).End, n) && locIs(r.(*ExportNamedDeclaration).Loc, n, ctx) && conv(r.(*ExportNamedDeclaration).Declaration, n.dec) && conv(r.(*ExportNamedDeclaration).Source, n.src) && r.(*ExportNamedDeclaration).ExportKind == modKind(n.tsTyp) && len(r.(*ExportNamedDeclaration).Specifiers) == len(n.specs) && (forall i int :: {r.(*ExportNamedDeclaration).Specifiers[i]} (0 <= i && i < len(n.specs)) ==> expIs(r.(*ExportNamedDeclaration).Specifiers[i], n.specs[i], ctx))
def quasiIs(r Expression, n parser.Node, tail bool, ctx *ConvertCtx) = hastype(n, type(*parser.StrLit)) && n.(*parser.StrLit) != nil && hastype(r, type(*TemplateElement)) && r.(*TemplateElement) != nil && r.(*TemplateElement).Type == "TemplateElement" && spanIs(r.(*TemplateElement).Start, r.(*TemplateElement).End, n) && locIs(r.(*TemplateElement).Loc, n, ctx) && (r.(*TemplateElement).Tail <==> tail) && r.(*TemplateElement).Value != nil && r.(*TemplateElement).Value.Cooked == n.(*parser.StrLit).val && r.(*TemplateElement).Value.Raw == rngtext(ctx, n)
def tplIs(r *TemplateLiteral, n *parser.TplExpr, ctx *ConvertCtx) = r != nil && r.Type == "TemplateLiteral" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Quasis) + len(r.Expressions) == len(n.elems) && (len(r.Quasis) == len(r.Expressions) || len(r.Quasis) == len(r.Expressions) + 1) && (forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> quasiIs(r.Quasis[i], n.elems[2 * i], 2 * i == len(n.elems) - 1, ctx)) && (forall i int :: {r.Expressions[i]} (0 <= i && i < len(r.Expressions)) ==> conv(r.Expressions[i], n.elems[2 * i + 1]))
def mx(a int, b int) = ite(a > b, a, b)
def emptyRng(lo int, hi int) = lo == 0 && hi == 0
def typedLo(n parser.Node, ti *parser.TypInfo) = ite(ti.typParams != nil && !emptyRng(nlo(ti.typParams), nhi(ti.typParams)) && nlo(ti.typParams) < nlo(n), nlo(ti.typParams), nlo(n))
def typedHi(n parser.Node, ti *parser.TypInfo) = mx(mx(nhi(n), quesHi(ti)), ite(ti.typAnnot != nil, nhi(ti.typAnnot), 0))
def decLo(n parser.Node, ti *parser.TypInfo) = ite(ti != nil && len(ti.decorators) > 0, nlo(ti.decorators[0]), nlo(n))
def decorated(ds []Node, ti *parser.TypInfo) = ite(ti == nil, len(ds) == 0, len(ds) == len(ti.decorators) && (forall i int :: {ds[i]} (0 <= i && i < len(ds)) ==> conv(ds[i], ti.decorators[i])))
def definiteTi(ti *parser.TypInfo) = ti != nil && !emptyRng(ti.not.Lo, ti.not.Hi)
fun nilNode() parser.Node
axiom def nilNode_def = nilNode() == nil
def clsTypParams(ti *parser.TypInfo) = ite(ti == nil, nilNode(), ti.typParams)
def clsSuperArgs(n parser.Node) = ite(hastype(n, type(parser.NodeWithTypInfo)) && tiOf(n) != nil && tiOf(n).clsTyp != nil, tiOf(n).clsTyp.superTypArgs, nilNode())
def implIs(ds []Node, ti *parser.TypInfo) = ite(ti == nil || ti.clsTyp == nil, len(ds) == 0, len(ds) == len(ti.clsTyp.implements) && (forall i int :: {ds[i]} (0 <= i && i < len(ds)) ==> conv(ds[i], ti.clsTyp.implements[i])))
def abstractTi(ti *parser.TypInfo) = ti != nil && ti.clsTyp != nil && ti.clsTyp.abstract
def accText(ti *parser.TypInfo) = ite(ti.clsTyp == nil, "", ite(ti.clsTyp.accMod == parser.ACC_MOD_PUB, "public", ite(ti.clsTyp.accMod == parser.ACC_MOD_PRI, "private", ite(ti.clsTyp.accMod == parser.ACC_MOD_PRO, "protected", ""))))
def optionalTi(ti *parser.TypInfo) = ti != nil && !emptyRng(ti.ques.Lo, ti.ques.Hi)
def annotIs(r Node, ti *parser.TypInfo) = ite(ti.typAnnot == nil, r == nil, convT(r, ti.typAnnot))
def typParamsIs(r Node, n parser.Node, ctx *ConvertCtx) = ite(n == nil || (hastype(n, type(*parser.TsParamsDec)) && len(n.(*parser.TsParamsDec).params) == 0), r == nil,
  hastype(n, type(*parser.TsParamsDec)) && hastype(r, type(*TSTypeParameterDeclaration)) && r.(*TSTypeParameterDeclaration) != nil && r.(*TSTypeParameterDeclaration).Type == "TSTypeParameterDeclaration" && spanIs(r.(*TSTypeParameterDeclaration).Start, r.(*TSTypeParameterDeclaration).End, n) && locIs(r.(*TSTypeParameterDeclaration).Loc, n, ctx) && len(r.(*TSTypeParameterDeclaration).Params) == len(n.(*parser.TsParamsDec).params) && (forall i int :: {r.(*TSTypeParameterDeclaration).Params[i]} (0 <= i && i < len(n.(*parser.TsParamsDec).params)) ==> convT(r.(*TSTypeParameterDeclaration).Params[i], n.(*parser.TsParamsDec).params[i])))
def typArgsIs(r Node, n parser.Node, ctx *ConvertCtx) = ite(n == nil || (hastype(n, type(*parser.TsParamsInst)) && len(n.(*parser.TsParamsInst).params) == 0), r == nil,
  hastype(n, type(*parser.TsParamsInst)) && hastype(r, type(*TSTypeParameterInstantiation)) && r.(*TSTypeParameterInstantiation) != nil && r.(*TSTypeParameterInstantiation).Type == "TSTypeParameterInstantiation" && spanIs(r.(*TSTypeParameterInstantiation).Start, r.(*TSTypeParameterInstantiation).End, n) && locIs(r.(*TSTypeParameterInstantiation).Loc, n, ctx) && len(r.(*TSTypeParameterInstantiation).Params) == len(n.(*parser.TsParamsInst).params) && (forall i int :: {r.(*TSTypeParameterInstantiation).Params[i]} (0 <= i && i < len(n.(*parser.TsParamsInst).params)) ==> convT(r.(*TSTypeParameterInstantiation).Params[i], n.(*parser.TsParamsInst).params[i])))
def extIs(r Node, n parser.Node, ctx *ConvertCtx) = hastype(r, type(*TSExpressionWithTypeArguments)) && r.(*TSExpressionWithTypeArguments) != nil && r.(*TSExpressionWithTypeArguments).Type == "TSExpressionWithTypeArguments" && locAt(r.(*TSExpressionWithTypeArguments).Loc, r.(*TSExpressionWithTypeArguments).Start, r.(*TSExpressionWithTypeArguments).End, ctx) && ite(ntyp(n) == parser.N_TS_REF,
  spanIs(r.(*TSExpressionWithTypeArguments).Start, r.(*TSExpressionWithTypeArguments).End, n) && conv(r.(*TSExpressionWithTypeArguments).Expression, n.(*parser.TsRef).name) && convT(r.(*TSExpressionWithTypeArguments).TypeParameters, n.(*parser.TsRef).args),
  conv(r.(*TSExpressionWithTypeArguments).Expression, n) && ite(hastype(n, type(parser.NodeWithTypInfo)) && tiOf(n) != nil, annotIs(r.(*TSExpressionWithTypeArguments).TypeParameters, tiOf(n)), r.(*TSExpressionWithTypeArguments).TypeParameters == nil))
def fmtIs(v any, k int) = ite(k == 1, hastype(v, type(bool)) && v.(bool), hastype(v, type(string)) && v.(string) == ite(k == 2, "+", ite(k == 3, "-", "")))
def tsReadonly(n *parser.TsProp) = n.readonly || (hastype(n.key, type(parser.NodeWithTypInfo)) && tiOf(n.key) != nil && tiOf(n.key).clsTyp != nil && tiOf(n.key).clsTyp.readonly)
def identIs(r Node, n parser.Node, ctx *ConvertCtx) = ite(n.(*parser.Ident).pvt,
  hastype(r, type(*PrivateIdentifier)) && r.(*PrivateIdentifier) != nil && r.(*PrivateIdentifier).Type == "PrivateIdentifier" && spanIs(r.(*PrivateIdentifier).Start, r.(*PrivateIdentifier).End, n) && locIs(r.(*PrivateIdentifier).Loc, n, ctx) && r.(*PrivateIdentifier).Name == n.(*parser.Ident).val,
  ite(n.(*parser.Ident).ti != nil,
  hastype(r, type(*TSIdentifier)) && r.(*TSIdentifier) != nil && r.(*TSIdentifier).Type == "Identifier" && (nhi(n) > 0 ==> (r.(*TSIdentifier).Start == typedLo(n, n.(*parser.Ident).ti) && r.(*TSIdentifier).End == typedHi(n, n.(*parser.Ident).ti))) && locAt(r.(*TSIdentifier).Loc, r.(*TSIdentifier).Start, r.(*TSIdentifier).End, ctx) && r.(*TSIdentifier).Name == n.(*parser.Ident).val && (r.(*TSIdentifier).Optional <==> optionalTi(n.(*parser.Ident).ti)) && annotIs(r.(*TSIdentifier).TypeAnnotation, n.(*parser.Ident).ti) && decorated(r.(*TSIdentifier).Decorators, n.(*parser.Ident).ti),
  hastype(r, type(*Identifier)) && r.(*Identifier) != nil && r.(*Identifier).Type == "Identifier" && spanIs(r.(*Identifier).Start, r.(*Identifier).End, n) && locIs(r.(*Identifier).Loc, n, ctx) && r.(*Identifier).Name == n.(*parser.Ident).val))

// ---------------------------------------------------------------- places
func locOfRng(rng, s, ctx) (l)
  property C10
  maypanic true
  uses lineAt_def, colAt_def
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  requires inCode(ctx, rng.Lo, rng.Hi)
  ensures locAt(l, rng.Lo, rng.Hi, ctx)
  ensures l != nil ==> fresh(l)

func locOfNode(n, s, ctx) (l)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  ensures locIs(l, n, ctx)
  ensures l != nil ==> fresh(l)

// ---------------------------------------------------------------- lists of children
func elems(nodes, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(nodes) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(nodes)) ==> conv(r[i], nodes[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> conv(ret[i], nodes[i])

func statements(stmts, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(stmts) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(stmts)) ==> conv(r[i], stmts[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> conv(s[i], stmts[i])

func expressions(exprs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(exprs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(exprs)) ==> conv(r[i], exprs[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> conv(s[i], exprs[i])

// a parameter is converted as any node, or stands in a parameter property of TypeScript
func fnParams(params, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(params) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(params)) ==> convP(r[i], params[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ps[i]} (0 <= i && i <= $rangeindex && hastype(ps[i], type(*TSParameterProperty))) ==> allocated(ps[i].(*TSParameterProperty))
    invariant forall i int :: {ps[i]} (0 <= i && i <= $rangeindex) ==> convP(ps[i], params[i])

func tsParamProp(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures (r != nil) <==> paramProp(node)
  ensures paramProp(node) ==> convP(r, node)
  proves paramProp(node) ==> decorated(r.(*TSParameterProperty).Decorators, tiOf(node))

func arrExpr(n, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx) && n != nil
  modifies ctx.Scope
  ensures r != nil && r.Type == "ArrayExpression" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Elements) == len(n.elems)
  ensures forall i int :: {r.Elements[i]} (0 <= i && i < len(n.elems)) ==> conv(r.Elements[i], n.elems[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {elems[i]} (0 <= i && i <= $rangeindex) ==> conv(elems[i], n.elems[i])

func obj(n, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx) && n != nil
  modifies ctx.Scope
  ensures r != nil && r.Type == "ObjectExpression" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Properties) == len(n.props)
  ensures forall i int :: {r.Properties[i]} (0 <= i && i < len(n.props)) ==> conv(r.Properties[i], n.props[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {props[i]} (0 <= i && i <= $rangeindex) ==> conv(props[i], n.props[i])

func cases(cs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(cs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(cs)) ==> caseIs(r[i], cs[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> (allocated(s[i]) && allocated(s[i].Loc) && allocated(arr(s[i].Consequent)))
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> caseIs(s[i], cs[i], ctx)

func declarations(decList, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(decList) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(decList)) ==> decIs(r[i], decList[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> (allocated(s[i]) && allocated(s[i].Loc))
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> decIs(s[i], decList[i], ctx)

func importSpec(spec, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures impIs(r, spec, ctx)
  ensures ctx.Scope == old(ctx.Scope)

func importSpecs(specs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(specs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(specs)) ==> impIs(r[i], specs[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> impIs(ret[i], specs[i], ctx)

func exportAll(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures exportAllIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

func exportDefault(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures exportDefIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

func exportSpecs(specs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(specs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(specs)) ==> expIs(r[i], specs[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> (allocated(ret[i].(*ExportSpecifier)) && allocated(ret[i].(*ExportSpecifier).Loc))
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> expIs(ret[i], specs[i], ctx)

func exportNamed(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures exportNamedIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

// the strings and the expressions of a template alternate
func tplLiteral(tplLoc, elems, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx) && inCode(ctx, tplLoc.Lo, tplLoc.Hi)
  modifies ctx.Scope
  ensures fresh(r)
  ensures r != nil && r.Type == "TemplateLiteral" && r.Start == tplLoc.Lo && r.End == tplLoc.Hi && locAt(r.Loc, tplLoc.Lo, tplLoc.Hi, ctx)
  ensures len(r.Quasis) + len(r.Expressions) == len(elems) && (len(r.Quasis) == len(r.Expressions) || len(r.Quasis) == len(r.Expressions) + 1)
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis) && hastype(r.Quasis[i], type(*TemplateElement))) ==> (hastype(elems[2 * i], type(*parser.StrLit)) && elems[2 * i].(*parser.StrLit) != nil)
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (hastype(r.Quasis[i], type(*TemplateElement)) && r.Quasis[i].(*TemplateElement) != nil && r.Quasis[i].(*TemplateElement).Type == "TemplateElement")
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (spanIs(r.Quasis[i].(*TemplateElement).Start, r.Quasis[i].(*TemplateElement).End, elems[2 * i]))
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (locIs(r.Quasis[i].(*TemplateElement).Loc, elems[2 * i], ctx))
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> ((r.Quasis[i].(*TemplateElement).Tail <==> 2 * i == len(elems) - 1))
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (r.Quasis[i].(*TemplateElement).Value != nil && r.Quasis[i].(*TemplateElement).Value.Cooked == elems[2 * i].(*parser.StrLit).val)
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (r.Quasis[i].(*TemplateElement).Value.Raw == rngtext(ctx, elems[2 * i]))
  ensures forall i int :: {r.Expressions[i]} (0 <= i && i < len(r.Expressions)) ==> conv(r.Expressions[i], elems[2 * i + 1])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant fresh(arr(quasis)) && fresh(arr(exprs)) && arr(quasis) != arr(exprs)
    invariant len(quasis) + len(exprs) == $rangeindex + 1 && (len(quasis) == len(exprs) || len(quasis) == len(exprs) + 1)
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (fresh(quasis[i].(*TemplateElement)) && fresh(quasis[i].(*TemplateElement).Value) && allocated(quasis[i].(*TemplateElement)) && allocated(quasis[i].(*TemplateElement).Loc) && allocated(quasis[i].(*TemplateElement).Value))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (hastype(elems[2 * i], type(*parser.StrLit)) && elems[2 * i].(*parser.StrLit) != nil)
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (hastype(quasis[i], type(*TemplateElement)) && quasis[i].(*TemplateElement) != nil && quasis[i].(*TemplateElement).Type == "TemplateElement")
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (spanIs(quasis[i].(*TemplateElement).Start, quasis[i].(*TemplateElement).End, elems[2 * i]))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (locIs(quasis[i].(*TemplateElement).Loc, elems[2 * i], ctx))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> ((quasis[i].(*TemplateElement).Tail <==> 2 * i == len(elems) - 1))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (quasis[i].(*TemplateElement).Value.Cooked == elems[2 * i].(*parser.StrLit).val)
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (quasis[i].(*TemplateElement).Value.Raw == rngtext(ctx, elems[2 * i]))
    invariant forall i int :: {exprs[i]} (0 <= i && i < len(exprs)) ==> conv(exprs[i], elems[2 * i + 1])

func ident(node, ctx) (r)
  property C10
  maypanic true
  uses kind_N_NAME
  requires ctxOK(ctx) && ntyp(node) == parser.N_NAME
  modifies ctx.Scope
  ensures identIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

// ---------------------------------------------------------------- places of typed and decorated nodes
func FirstLoc(s, ctx, locs) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  requires forall i int :: {locs[i].Lo} {locs[i].Hi} (0 <= i && i < len(locs)) ==> inCode(ctx, locs[i].Lo, locs[i].Hi)
  ensures locAt(loc, rng.Lo, rng.Hi, ctx) && (loc != nil ==> fresh(loc)) && inCode(ctx, rng.Lo, rng.Hi)
  ensures exists i int :: 0 <= i && i < len(locs) && locs[i].Lo == rng.Lo && locs[i].Hi == rng.Hi
  ensures forall i int :: {locs[i]} (0 <= i && i < len(locs) && !(locs[i].Lo == 0 && locs[i].Hi == 0)) ==> (rng.Lo <= locs[i].Lo && !(rng.Lo == 0 && rng.Hi == 0))
  loop 0
    invariant 0 <= k && (k < len(locs) || (k == 0 && $rangeindex < 0))
    invariant (lo == 4294967295 && hi == 4294967295 && (forall i int :: {locs[i]} (0 <= i && i <= $rangeindex) ==> (locs[i].Lo == 0 && locs[i].Hi == 0))) || (k <= $rangeindex && locs[k].Lo == lo && locs[k].Hi == hi && !(lo == 0 && hi == 0))
    invariant forall i int :: {locs[i]} (0 <= i && i <= $rangeindex && !(locs[i].Lo == 0 && locs[i].Hi == 0)) ==> lo <= locs[i].Lo

func LastLoc(s, ctx, locs) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  requires forall i int :: {locs[i].Lo} {locs[i].Hi} (0 <= i && i < len(locs)) ==> inCode(ctx, locs[i].Lo, locs[i].Hi)
  ensures locAt(loc, rng.Lo, rng.Hi, ctx) && (loc != nil ==> fresh(loc)) && inCode(ctx, rng.Lo, rng.Hi)
  ensures exists i int :: 0 <= i && i < len(locs) && locs[i].Lo == rng.Lo && locs[i].Hi == rng.Hi
  ensures forall i int :: {locs[i]} (0 <= i && i < len(locs)) ==> rng.Hi >= locs[i].Hi
  loop 0
    invariant 0 <= k && (k < len(locs) || (k == 0 && $rangeindex < 0))
    invariant (lo == 0 && hi == 0 && (forall i int :: {locs[i]} (0 <= i && i <= $rangeindex) ==> locs[i].Hi == 0)) || (k <= $rangeindex && locs[k].Lo == lo && locs[k].Hi == hi)
    invariant forall i int :: {locs[i]} (0 <= i && i <= $rangeindex) ==> hi >= locs[i].Hi

// the start of the type parameters or of the node, the end of the annotation, of ? or of the node
func locWithTypeInfo(node, includeParamProp, s, ctx) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  ensures locAt(loc, rng.Lo, rng.Hi, ctx)
  ensures (!includeParamProp && nhi(node) > 0 && hastype(node, type(parser.NodeWithTypInfo))) ==> (rng.Lo == typedLo(node, tiOf(node)) && rng.Hi == typedHi(node, tiOf(node)))
  ensures !hastype(node, type(parser.NodeWithTypInfo)) ==> spanIs(rng.Lo, rng.Hi, node)

func locWithDecorator(node, ds, s, ctx) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  ensures rng.Hi == nhi(node) && rng.Lo == ite(len(ds) == 0, nlo(node), nlo(ds[0])) && locAt(loc, rng.Lo, rng.Hi, ctx)

// ---------------------------------------------------------------- type parameters and arguments
func typParams(ti, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures typParamsIs(r, ti.typParams, ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> convT(ret[i], ps[i])

func typArgs(ti, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures typArgsIs(r, ti.typArgs, ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> convT(ret[i], ps[i])

func ConvertProg(n, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures r != nil && r.Type == "Program" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Body) == len(n.stmts)
  ensures forall i int :: {r.Body[i]} (0 <= i && i < len(n.stmts)) ==> conv(r.Body[i], n.stmts[i])
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {body[i]} (0 <= i && i <= $rangeindex) ==> conv(body[i], n.stmts[i])

// ---------------------------------------------------------------- types
// set only where an index signature's key has no type, which the parser never makes
iface parser.NodeWithTypInfo.SetTypInfo(n, t)
  requires false

func extends(exts, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures len(r) == len(exts)
  ensures forall i int :: {r[i]} (0 <= i && i < len(exts)) ==> extIs(r[i], exts[i], ctx)
  loop 0
    invariant ctx.Scope == old(ctx.Scope) && len(ret) == len(exts) && fresh(arr(ret))
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> extIs(ret[i], exts[i], ctx)

func exprWithTypArg(node, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures extIs(r, node, ctx)

func ConvertTsTyp(node, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  assumes ntyp(node) == parser.N_TS_IDX_SIG ==> (hastype(node.(*parser.TsIdxSig).key, type(parser.NodeWithTypInfo)) ==> tiOf(node.(*parser.TsIdxSig).key) != nil)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures node == nil ==> r == nil
  ensures hastype(r, type(*TSImportEqualsDeclaration)) ==> fresh(r.(*TSImportEqualsDeclaration))
  names convT(r, node)
  // N_NAME
  proves (ntyp(node) == parser.N_NAME) ==> (identIs(r, node, ctx))
  // TSNumberKeyword
  proves (ntyp(node) == parser.N_TS_NUM && node != nil) ==> (hastype(r, type(*TSNumberKeyword)) && r.(*TSNumberKeyword) != nil && r.(*TSNumberKeyword).Type == "TSNumberKeyword" && spanIs(r.(*TSNumberKeyword).Start, r.(*TSNumberKeyword).End, node) && locIs(r.(*TSNumberKeyword).Loc, node, ctx))
  // TSStringKeyword
  proves (ntyp(node) == parser.N_TS_STR && node != nil) ==> (hastype(r, type(*TSStringKeyword)) && r.(*TSStringKeyword) != nil && r.(*TSStringKeyword).Type == "TSStringKeyword" && spanIs(r.(*TSStringKeyword).Start, r.(*TSStringKeyword).End, node) && locIs(r.(*TSStringKeyword).Loc, node, ctx))
  // TSAnyKeyword
  proves (ntyp(node) == parser.N_TS_ANY && node != nil) ==> (hastype(r, type(*TSAnyKeyword)) && r.(*TSAnyKeyword) != nil && r.(*TSAnyKeyword).Type == "TSAnyKeyword" && spanIs(r.(*TSAnyKeyword).Start, r.(*TSAnyKeyword).End, node) && locIs(r.(*TSAnyKeyword).Loc, node, ctx))
  // TSBooleanKeyword
  proves (ntyp(node) == parser.N_TS_BOOL && node != nil) ==> (hastype(r, type(*TSBooleanKeyword)) && r.(*TSBooleanKeyword) != nil && r.(*TSBooleanKeyword).Type == "TSBooleanKeyword" && spanIs(r.(*TSBooleanKeyword).Start, r.(*TSBooleanKeyword).End, node) && locIs(r.(*TSBooleanKeyword).Loc, node, ctx))
  // TSVoidKeyword
  proves (ntyp(node) == parser.N_TS_VOID && node != nil) ==> (hastype(r, type(*TSVoidKeyword)) && r.(*TSVoidKeyword) != nil && r.(*TSVoidKeyword).Type == "TSVoidKeyword" && spanIs(r.(*TSVoidKeyword).Start, r.(*TSVoidKeyword).End, node) && locIs(r.(*TSVoidKeyword).Loc, node, ctx))
  // TSIntrinsicKeyword
  proves (ntyp(node) == parser.N_TS_INTRINSIC && node != nil) ==> (hastype(r, type(*TSIntrinsicKeyword)) && r.(*TSIntrinsicKeyword) != nil && r.(*TSIntrinsicKeyword).Type == "TSIntrinsicKeyword" && spanIs(r.(*TSIntrinsicKeyword).Start, r.(*TSIntrinsicKeyword).End, node) && locIs(r.(*TSIntrinsicKeyword).Loc, node, ctx))
  // TSNeverKeyword
  proves (ntyp(node) == parser.N_TS_NEVER && node != nil) ==> (hastype(r, type(*TSNeverKeyword)) && r.(*TSNeverKeyword) != nil && r.(*TSNeverKeyword).Type == "TSNeverKeyword" && spanIs(r.(*TSNeverKeyword).Start, r.(*TSNeverKeyword).End, node) && locIs(r.(*TSNeverKeyword).Loc, node, ctx))
  // TSSymbolKeyword
  proves (ntyp(node) == parser.N_TS_SYM && node != nil) ==> (hastype(r, type(*TSSymbolKeyword)) && r.(*TSSymbolKeyword) != nil && r.(*TSSymbolKeyword).Type == "TSSymbolKeyword" && spanIs(r.(*TSSymbolKeyword).Start, r.(*TSSymbolKeyword).End, node) && locIs(r.(*TSSymbolKeyword).Loc, node, ctx))
  // TSUndefinedKeyword
  proves (ntyp(node) == parser.N_TS_UNDEF && node != nil) ==> (hastype(r, type(*TSUndefinedKeyword)) && r.(*TSUndefinedKeyword) != nil && r.(*TSUndefinedKeyword).Type == "TSUndefinedKeyword" && spanIs(r.(*TSUndefinedKeyword).Start, r.(*TSUndefinedKeyword).End, node) && locIs(r.(*TSUndefinedKeyword).Loc, node, ctx))
  // TSBigIntKeyword
  proves (ntyp(node) == parser.N_TS_BIGINT && node != nil) ==> (hastype(r, type(*TSBigIntKeyword)) && r.(*TSBigIntKeyword) != nil && r.(*TSBigIntKeyword).Type == "TSBigIntKeyword" && spanIs(r.(*TSBigIntKeyword).Start, r.(*TSBigIntKeyword).End, node) && locIs(r.(*TSBigIntKeyword).Loc, node, ctx))
  // TSNullKeyword
  proves (ntyp(node) == parser.N_TS_NULL && node != nil) ==> (hastype(r, type(*TSNullKeyword)) && r.(*TSNullKeyword) != nil && r.(*TSNullKeyword).Type == "TSNullKeyword" && spanIs(r.(*TSNullKeyword).Start, r.(*TSNullKeyword).End, node) && locIs(r.(*TSNullKeyword).Loc, node, ctx))
  // TSUnknownKeyword
  proves (ntyp(node) == parser.N_TS_UNKNOWN && node != nil) ==> (hastype(r, type(*TSUnknownKeyword)) && r.(*TSUnknownKeyword) != nil && r.(*TSUnknownKeyword).Type == "TSUnknownKeyword" && spanIs(r.(*TSUnknownKeyword).Start, r.(*TSUnknownKeyword).End, node) && locIs(r.(*TSUnknownKeyword).Loc, node, ctx))
  // TSObjectKeyword
  proves (ntyp(node) == parser.N_TS_OBJ && node != nil) ==> (hastype(r, type(*TSObjectKeyword)) && r.(*TSObjectKeyword) != nil && r.(*TSObjectKeyword).Type == "TSObjectKeyword" && spanIs(r.(*TSObjectKeyword).Start, r.(*TSObjectKeyword).End, node) && locIs(r.(*TSObjectKeyword).Loc, node, ctx))
  // TSThisType
  proves (ntyp(node) == parser.N_TS_THIS && node != nil) ==> (hastype(r, type(*TSThisType)) && r.(*TSThisType) != nil && r.(*TSThisType).Type == "TSThisType" && spanIs(r.(*TSThisType).Start, r.(*TSThisType).End, node) && locIs(r.(*TSThisType).Loc, node, ctx))
  // TSTypeAnnotation
  proves (ntyp(node) == parser.N_TS_TYP_ANNOT) ==> (hastype(r, type(*TSTypeAnnotation)) && r.(*TSTypeAnnotation) != nil && r.(*TSTypeAnnotation).Type == "TSTypeAnnotation" && spanIs(r.(*TSTypeAnnotation).Start, r.(*TSTypeAnnotation).End, node) && locIs(r.(*TSTypeAnnotation).Loc, node, ctx) && convT(r.(*TSTypeAnnotation).TypeAnnotation, node.(*parser.TsTypAnnot).tsTyp))
  // TSTypeReference
  proves (ntyp(node) == parser.N_TS_REF) ==> (hastype(r, type(*TSTypeReference)) && r.(*TSTypeReference) != nil && r.(*TSTypeReference).Type == "TSTypeReference" && spanIs(r.(*TSTypeReference).Start, r.(*TSTypeReference).End, node) && locIs(r.(*TSTypeReference).Loc, node, ctx) && conv(r.(*TSTypeReference).TypeName, node.(*parser.TsRef).name) && conv(r.(*TSTypeReference).TypeParameters, node.(*parser.TsRef).args))
  // TSTypeParameterInstantiation
  proves (ntyp(node) == parser.N_TS_PARAM_INST) ==> (hastype(r, type(*TSTypeParameterInstantiation)) && r.(*TSTypeParameterInstantiation) != nil && r.(*TSTypeParameterInstantiation).Type == "TSTypeParameterInstantiation" && spanIs(r.(*TSTypeParameterInstantiation).Start, r.(*TSTypeParameterInstantiation).End, node) && locIs(r.(*TSTypeParameterInstantiation).Loc, node, ctx) && len(r.(*TSTypeParameterInstantiation).Params) == len(node.(*parser.TsParamsInst).params) && (forall i int :: {r.(*TSTypeParameterInstantiation).Params[i]} (0 <= i && i < len(node.(*parser.TsParamsInst).params)) ==> conv(r.(*TSTypeParameterInstantiation).Params[i], node.(*parser.TsParamsInst).params[i])))
  // TSTypeParameterDeclaration
  proves (ntyp(node) == parser.N_TS_PARAM_DEC) ==> (hastype(r, type(*TSTypeParameterDeclaration)) && r.(*TSTypeParameterDeclaration) != nil && r.(*TSTypeParameterDeclaration).Type == "TSTypeParameterDeclaration" && spanIs(r.(*TSTypeParameterDeclaration).Start, r.(*TSTypeParameterDeclaration).End, node) && locIs(r.(*TSTypeParameterDeclaration).Loc, node, ctx) && len(r.(*TSTypeParameterDeclaration).Params) == len(node.(*parser.TsParamsDec).params) && (forall i int :: {r.(*TSTypeParameterDeclaration).Params[i]} (0 <= i && i < len(node.(*parser.TsParamsDec).params)) ==> conv(r.(*TSTypeParameterDeclaration).Params[i], node.(*parser.TsParamsDec).params[i])))
  // TSTypeParameter
  proves (ntyp(node) == parser.N_TS_PARAM) ==> (hastype(r, type(*TSTypeParameter)) && r.(*TSTypeParameter) != nil && r.(*TSTypeParameter).Type == "TSTypeParameter" && spanIs(r.(*TSTypeParameter).Start, r.(*TSTypeParameter).End, node) && locIs(r.(*TSTypeParameter).Loc, node, ctx) && conv(r.(*TSTypeParameter).Name, node.(*parser.TsParam).name) && conv(r.(*TSTypeParameter).Constraint, node.(*parser.TsParam).cons) && conv(r.(*TSTypeParameter).Default, node.(*parser.TsParam).val))
  // TSArrayType
  proves (ntyp(node) == parser.N_TS_ARR) ==> (hastype(r, type(*TSArrayType)) && r.(*TSArrayType) != nil && r.(*TSArrayType).Type == "TSArrayType" && spanIs(r.(*TSArrayType).Start, r.(*TSArrayType).End, node) && locIs(r.(*TSArrayType).Loc, node, ctx) && convT(r.(*TSArrayType).ElementType, node.(*parser.TsArr).arg))
  // TSTypeLiteral
  proves (ntyp(node) == parser.N_TS_LIT_OBJ) ==> (hastype(r, type(*TSTypeLiteral)) && r.(*TSTypeLiteral) != nil && r.(*TSTypeLiteral).Type == "TSTypeLiteral" && spanIs(r.(*TSTypeLiteral).Start, r.(*TSTypeLiteral).End, node) && locIs(r.(*TSTypeLiteral).Loc, node, ctx) && hastype(r.(*TSTypeLiteral).Members, type([]Node)) && len(r.(*TSTypeLiteral).Members.([]Node)) == len(node.(*parser.TsObj).props) && (forall i int :: {r.(*TSTypeLiteral).Members.([]Node)[i]} (0 <= i && i < len(node.(*parser.TsObj).props)) ==> conv(r.(*TSTypeLiteral).Members.([]Node)[i], node.(*parser.TsObj).props[i])))
  // TSCallSignatureDeclaration
  proves (ntyp(node) == parser.N_TS_CALL_SIG) ==> (hastype(r, type(*TSCallSignatureDeclaration)) && r.(*TSCallSignatureDeclaration) != nil && r.(*TSCallSignatureDeclaration).Type == "TSCallSignatureDeclaration" && spanIs(r.(*TSCallSignatureDeclaration).Start, r.(*TSCallSignatureDeclaration).End, node) && locIs(r.(*TSCallSignatureDeclaration).Loc, node, ctx) && len(r.(*TSCallSignatureDeclaration).Params) == len(node.(*parser.TsCallSig).params) && (forall i int :: {r.(*TSCallSignatureDeclaration).Params[i]} (0 <= i && i < len(node.(*parser.TsCallSig).params)) ==> convP(r.(*TSCallSignatureDeclaration).Params[i], node.(*parser.TsCallSig).params[i])) && convT(r.(*TSCallSignatureDeclaration).TypeParameters, node.(*parser.TsCallSig).typParams) && convT(r.(*TSCallSignatureDeclaration).ReturnType, node.(*parser.TsCallSig).retTyp))
  // TSMethodSignature
  proves (ntyp(node) == parser.N_TS_PROP && node.(*parser.TsProp).val != nil && ntyp(node.(*parser.TsProp).val) == parser.N_TS_CALL_SIG) ==> (hastype(r, type(*TSMethodSignature)) && r.(*TSMethodSignature) != nil && r.(*TSMethodSignature).Type == "TSMethodSignature" && spanIs(r.(*TSMethodSignature).Start, r.(*TSMethodSignature).End, node) && locIs(r.(*TSMethodSignature).Loc, node, ctx) && conv(r.(*TSMethodSignature).Key, node.(*parser.TsProp).key) && (r.(*TSMethodSignature).Computed <==> !emptyRng(node.(*parser.TsProp).compute.Lo, node.(*parser.TsProp).compute.Hi)) && (r.(*TSMethodSignature).Optional <==> !emptyRng(node.(*parser.TsProp).ques.Lo, node.(*parser.TsProp).ques.Hi)) && r.(*TSMethodSignature).Kind == kindText(node.(*parser.TsProp).kind) && conv(r.(*TSMethodSignature).Value, node.(*parser.TsProp).val))
  // TSPropertySignature
  proves (ntyp(node) == parser.N_TS_PROP && !(node.(*parser.TsProp).val != nil && ntyp(node.(*parser.TsProp).val) == parser.N_TS_CALL_SIG)) ==> (hastype(r, type(*TSPropertySignature)) && r.(*TSPropertySignature) != nil && r.(*TSPropertySignature).Type == "TSPropertySignature" && spanIs(r.(*TSPropertySignature).Start, r.(*TSPropertySignature).End, node) && locIs(r.(*TSPropertySignature).Loc, node, ctx) && conv(r.(*TSPropertySignature).Key, node.(*parser.TsProp).key) && (r.(*TSPropertySignature).Computed <==> !emptyRng(node.(*parser.TsProp).compute.Lo, node.(*parser.TsProp).compute.Hi)) && (r.(*TSPropertySignature).Optional <==> !emptyRng(node.(*parser.TsProp).ques.Lo, node.(*parser.TsProp).ques.Hi)) && r.(*TSPropertySignature).Kind == kindText(node.(*parser.TsProp).kind) && convT(r.(*TSPropertySignature).TypeAnnotation, node.(*parser.TsProp).val) && (r.(*TSPropertySignature).Readonly <==> tsReadonly(node.(*parser.TsProp))))
  // TSTypePredicate
  proves (ntyp(node) == parser.N_TS_TYP_PREDICATE) ==> (hastype(r, type(*TSTypePredicate)) && r.(*TSTypePredicate) != nil && r.(*TSTypePredicate).Type == "TSTypePredicate" && spanIs(r.(*TSTypePredicate).Start, r.(*TSTypePredicate).End, node) && locIs(r.(*TSTypePredicate).Loc, node, ctx) && conv(r.(*TSTypePredicate).ParameterName, node.(*parser.TsTypPredicate).name) && convT(r.(*TSTypePredicate).TypeAnnotation, node.(*parser.TsTypPredicate).des) && r.(*TSTypePredicate).Asserts == node.(*parser.TsTypPredicate).assert)
  // TSDeclareFunction
  proves (ntyp(node) == parser.N_TS_DEC_FN && hastype(node.(*parser.TsDec).inner, type(*parser.FnDec))) ==> (hastype(r, type(*TSDeclareFunction)) && r.(*TSDeclareFunction) != nil && r.(*TSDeclareFunction).Type == "TSDeclareFunction" && conv(r.(*TSDeclareFunction).Id, node.(*parser.TsDec).inner.(*parser.FnDec).id) && len(r.(*TSDeclareFunction).Params) == len(node.(*parser.TsDec).inner.(*parser.FnDec).params) && (forall i int :: {r.(*TSDeclareFunction).Params[i]} (0 <= i && i < len(node.(*parser.TsDec).inner.(*parser.FnDec).params)) ==> convP(r.(*TSDeclareFunction).Params[i], node.(*parser.TsDec).inner.(*parser.FnDec).params[i])) && conv(r.(*TSDeclareFunction).Body, node.(*parser.TsDec).inner.(*parser.FnDec).body) && r.(*TSDeclareFunction).Async == node.(*parser.TsDec).inner.(*parser.FnDec).async && r.(*TSDeclareFunction).Generator == false && typParamsIs(r.(*TSDeclareFunction).TypeParameters, node.(*parser.TsDec).inner.(*parser.FnDec).ti.typParams, ctx) && annotIs(r.(*TSDeclareFunction).ReturnType, node.(*parser.TsDec).inner.(*parser.FnDec).ti) && locAt(r.(*TSDeclareFunction).Loc, r.(*TSDeclareFunction).Start, r.(*TSDeclareFunction).End, ctx))
  // TSTypeAssertion
  proves (ntyp(node) == parser.N_TS_TYP_ASSERT) ==> (hastype(r, type(*TSTypeAssertion)) && r.(*TSTypeAssertion) != nil && r.(*TSTypeAssertion).Type == "TSTypeAssertion" && spanIs(r.(*TSTypeAssertion).Start, r.(*TSTypeAssertion).End, node) && locIs(r.(*TSTypeAssertion).Loc, node, ctx) && conv(r.(*TSTypeAssertion).Expression, node.(*parser.TsTypAssert).arg) && convT(r.(*TSTypeAssertion).TypeAnnotation, node.(*parser.TsTypAssert).des))
  // TSNonNullExpression
  proves (ntyp(node) == parser.N_TS_NO_NULL) ==> (hastype(r, type(*TSNonNullExpression)) && r.(*TSNonNullExpression) != nil && r.(*TSNonNullExpression).Type == "TSNonNullExpression" && spanIs(r.(*TSNonNullExpression).Start, r.(*TSNonNullExpression).End, node) && locIs(r.(*TSNonNullExpression).Loc, node, ctx) && conv(r.(*TSNonNullExpression).Expression, node.(*parser.TsNoNull).arg))
  // TSUnionType
  proves (ntyp(node) == parser.N_TS_UNION_TYP) ==> (hastype(r, type(*TSUnionType)) && r.(*TSUnionType) != nil && r.(*TSUnionType).Type == "TSUnionType" && spanIs(r.(*TSUnionType).Start, r.(*TSUnionType).End, node) && locIs(r.(*TSUnionType).Loc, node, ctx) && len(r.(*TSUnionType).Types) == len(node.(*parser.TsUnionTyp).elems) && (forall i int :: {r.(*TSUnionType).Types[i]} (0 <= i && i < len(node.(*parser.TsUnionTyp).elems)) ==> conv(r.(*TSUnionType).Types[i], node.(*parser.TsUnionTyp).elems[i])))
  // TSIntersectionType
  proves (ntyp(node) == parser.N_TS_INTERSECT_TYP) ==> (hastype(r, type(*TSIntersectionType)) && r.(*TSIntersectionType) != nil && r.(*TSIntersectionType).Type == "TSIntersectionType" && spanIs(r.(*TSIntersectionType).Start, r.(*TSIntersectionType).End, node) && locIs(r.(*TSIntersectionType).Loc, node, ctx) && len(r.(*TSIntersectionType).Types) == len(node.(*parser.TsIntersectTyp).elems) && (forall i int :: {r.(*TSIntersectionType).Types[i]} (0 <= i && i < len(node.(*parser.TsIntersectTyp).elems)) ==> conv(r.(*TSIntersectionType).Types[i], node.(*parser.TsIntersectTyp).elems[i])))
  // ClassDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_CLASS && hastype(node.(*parser.TsDec).inner, type(*parser.ClassDec)) && node.(*parser.TsDec).inner.(*parser.ClassDec) != nil) ==> (hastype(r, type(*TSClassDeclaration)) && r.(*TSClassDeclaration) != nil && r.(*TSClassDeclaration).Type == "ClassDeclaration" && conv(r.(*TSClassDeclaration).Id, node.(*parser.TsDec).inner.(*parser.ClassDec).id) && conv(r.(*TSClassDeclaration).SuperClass, node.(*parser.TsDec).inner.(*parser.ClassDec).super) && conv(r.(*TSClassDeclaration).Body, node.(*parser.TsDec).inner.(*parser.ClassDec).body) && r.(*TSClassDeclaration).Declare == true && implIs(r.(*TSClassDeclaration).Implements, node.(*parser.TsDec).inner.(*parser.ClassDec).ti) && (r.(*TSClassDeclaration).Abstract <==> abstractTi(node.(*parser.TsDec).inner.(*parser.ClassDec).ti)) && convT(r.(*TSClassDeclaration).TypeParameters, clsTypParams(node.(*parser.TsDec).inner.(*parser.ClassDec).ti)) && convT(r.(*TSClassDeclaration).SuperTypeParameters, clsSuperArgs(node.(*parser.TsDec).inner.(*parser.ClassDec).super)) && r.(*TSClassDeclaration).Start == nlo(node) && r.(*TSClassDeclaration).End == nhi(node.(*parser.TsDec).inner) && locIs(r.(*TSClassDeclaration).Loc, node, ctx))
  // TSIndexSignature
  proves (ntyp(node) == parser.N_TS_IDX_SIG) ==> (hastype(r, type(*TSIndexSignature)) && r.(*TSIndexSignature) != nil && r.(*TSIndexSignature).Type == "TSIndexSignature" && spanIs(r.(*TSIndexSignature).Start, r.(*TSIndexSignature).End, node) && locIs(r.(*TSIndexSignature).Loc, node, ctx) && len(r.(*TSIndexSignature).Parameters) == 1 && conv(r.(*TSIndexSignature).Parameters[0], node.(*parser.TsIdxSig).key) && convT(r.(*TSIndexSignature).TypeAnnotation, node.(*parser.TsIdxSig).val))
  // TSQualifiedName
  proves (ntyp(node) == parser.N_TS_NS_NAME) ==> (hastype(r, type(*TSQualifiedName)) && r.(*TSQualifiedName) != nil && r.(*TSQualifiedName).Type == "TSQualifiedName" && spanIs(r.(*TSQualifiedName).Start, r.(*TSQualifiedName).End, node) && locIs(r.(*TSQualifiedName).Loc, node, ctx) && convT(r.(*TSQualifiedName).Left, node.(*parser.TsNsName).lhs) && convT(r.(*TSQualifiedName).Right, node.(*parser.TsNsName).rhs))
  // VariableDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_VAR_DEC && hastype(node.(*parser.TsDec).inner, type(*parser.VarDecStmt))) ==> (hastype(r, type(*TSVariableDeclaration)) && r.(*TSVariableDeclaration) != nil && r.(*TSVariableDeclaration).Type == "VariableDeclaration" && spanIs(r.(*TSVariableDeclaration).Start, r.(*TSVariableDeclaration).End, node) && locIs(r.(*TSVariableDeclaration).Loc, node, ctx) && r.(*TSVariableDeclaration).Kind == parser.TokenKinds[node.(*parser.TsDec).inner.(*parser.VarDecStmt).kind].Name && r.(*TSVariableDeclaration).Declare == true && len(r.(*TSVariableDeclaration).Declarations) == len(node.(*parser.TsDec).inner.(*parser.VarDecStmt).decList) && (forall i int :: {r.(*TSVariableDeclaration).Declarations[i]} (0 <= i && i < len(node.(*parser.TsDec).inner.(*parser.VarDecStmt).decList)) ==> decIs(r.(*TSVariableDeclaration).Declarations[i], node.(*parser.TsDec).inner.(*parser.VarDecStmt).decList[i], ctx)))
  // TSInterfaceDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_INTERFACE && hastype(node.(*parser.TsDec).inner, type(*parser.TsInterface))) ==> (hastype(r, type(*TSInterfaceDeclaration)) && r.(*TSInterfaceDeclaration) != nil && r.(*TSInterfaceDeclaration).Type == "TSInterfaceDeclaration" && spanIs(r.(*TSInterfaceDeclaration).Start, r.(*TSInterfaceDeclaration).End, node) && locIs(r.(*TSInterfaceDeclaration).Loc, node, ctx) && conv(r.(*TSInterfaceDeclaration).Id, node.(*parser.TsDec).inner.(*parser.TsInterface).name) && convT(r.(*TSInterfaceDeclaration).TypeParameters, node.(*parser.TsDec).inner.(*parser.TsInterface).params) && len(r.(*TSInterfaceDeclaration).Extends) == len(node.(*parser.TsDec).inner.(*parser.TsInterface).supers) && (forall i int :: {r.(*TSInterfaceDeclaration).Extends[i]} (0 <= i && i < len(node.(*parser.TsDec).inner.(*parser.TsInterface).supers)) ==> extIs(r.(*TSInterfaceDeclaration).Extends[i], node.(*parser.TsDec).inner.(*parser.TsInterface).supers[i], ctx)) && conv(r.(*TSInterfaceDeclaration).Body, node.(*parser.TsDec).inner.(*parser.TsInterface).body) && r.(*TSInterfaceDeclaration).Declare == true)
  // TSInterfaceDeclaration
  proves (ntyp(node) == parser.N_TS_INTERFACE) ==> (hastype(r, type(*TSInterfaceDeclaration)) && r.(*TSInterfaceDeclaration) != nil && r.(*TSInterfaceDeclaration).Type == "TSInterfaceDeclaration" && spanIs(r.(*TSInterfaceDeclaration).Start, r.(*TSInterfaceDeclaration).End, node) && locIs(r.(*TSInterfaceDeclaration).Loc, node, ctx) && conv(r.(*TSInterfaceDeclaration).Id, node.(*parser.TsInterface).name) && convT(r.(*TSInterfaceDeclaration).TypeParameters, node.(*parser.TsInterface).params) && len(r.(*TSInterfaceDeclaration).Extends) == len(node.(*parser.TsInterface).supers) && (forall i int :: {r.(*TSInterfaceDeclaration).Extends[i]} (0 <= i && i < len(node.(*parser.TsInterface).supers)) ==> extIs(r.(*TSInterfaceDeclaration).Extends[i], node.(*parser.TsInterface).supers[i], ctx)) && conv(r.(*TSInterfaceDeclaration).Body, node.(*parser.TsInterface).body) && r.(*TSInterfaceDeclaration).Declare == false)
  // TSInterfaceBody
  proves (ntyp(node) == parser.N_TS_INTERFACE_BODY) ==> (hastype(r, type(*TSInterfaceBody)) && r.(*TSInterfaceBody) != nil && r.(*TSInterfaceBody).Type == "TSInterfaceBody" && spanIs(r.(*TSInterfaceBody).Start, r.(*TSInterfaceBody).End, node) && locIs(r.(*TSInterfaceBody).Loc, node, ctx) && len(r.(*TSInterfaceBody).Body) == len(node.(*parser.TsInterfaceBody).body) && (forall i int :: {r.(*TSInterfaceBody).Body[i]} (0 <= i && i < len(node.(*parser.TsInterfaceBody).body)) ==> conv(r.(*TSInterfaceBody).Body[i], node.(*parser.TsInterfaceBody).body[i])))
  // TSEnumDeclaration
  proves (ntyp(node) == parser.N_TS_ENUM) ==> (hastype(r, type(*TSEnumDeclaration)) && r.(*TSEnumDeclaration) != nil && r.(*TSEnumDeclaration).Type == "TSEnumDeclaration" && spanIs(r.(*TSEnumDeclaration).Start, r.(*TSEnumDeclaration).End, node) && locIs(r.(*TSEnumDeclaration).Loc, node, ctx) && conv(r.(*TSEnumDeclaration).Id, node.(*parser.TsEnum).name) && r.(*TSEnumDeclaration).Const == node.(*parser.TsEnum).cons && len(r.(*TSEnumDeclaration).Members) == len(node.(*parser.TsEnum).items) && (forall i int :: {r.(*TSEnumDeclaration).Members[i]} (0 <= i && i < len(node.(*parser.TsEnum).items)) ==> conv(r.(*TSEnumDeclaration).Members[i], node.(*parser.TsEnum).items[i])) && r.(*TSEnumDeclaration).Declare == false)
  // TSEnumDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_ENUM && hastype(node.(*parser.TsDec).inner, type(*parser.TsEnum))) ==> (hastype(r, type(*TSEnumDeclaration)) && r.(*TSEnumDeclaration) != nil && r.(*TSEnumDeclaration).Type == "TSEnumDeclaration" && spanIs(r.(*TSEnumDeclaration).Start, r.(*TSEnumDeclaration).End, node) && locIs(r.(*TSEnumDeclaration).Loc, node, ctx) && conv(r.(*TSEnumDeclaration).Id, node.(*parser.TsDec).inner.(*parser.TsEnum).name) && r.(*TSEnumDeclaration).Const == node.(*parser.TsDec).inner.(*parser.TsEnum).cons && len(r.(*TSEnumDeclaration).Members) == len(node.(*parser.TsDec).inner.(*parser.TsEnum).items) && (forall i int :: {r.(*TSEnumDeclaration).Members[i]} (0 <= i && i < len(node.(*parser.TsDec).inner.(*parser.TsEnum).items)) ==> conv(r.(*TSEnumDeclaration).Members[i], node.(*parser.TsDec).inner.(*parser.TsEnum).items[i])) && r.(*TSEnumDeclaration).Declare == true)
  // TSEnumMember
  proves (ntyp(node) == parser.N_TS_ENUM_MEMBER) ==> (hastype(r, type(*TSEnumMember)) && r.(*TSEnumMember) != nil && r.(*TSEnumMember).Type == "TSEnumMember" && spanIs(r.(*TSEnumMember).Start, r.(*TSEnumMember).End, node) && locIs(r.(*TSEnumMember).Loc, node, ctx) && conv(r.(*TSEnumMember).Id, node.(*parser.TsEnumMember).key) && conv(r.(*TSEnumMember).Initializer, node.(*parser.TsEnumMember).val))
  // TSTypeAliasDeclaration
  proves (ntyp(node) == parser.N_TS_TYP_DEC) ==> (hastype(r, type(*TSTypeAliasDeclaration)) && r.(*TSTypeAliasDeclaration) != nil && r.(*TSTypeAliasDeclaration).Type == "TSTypeAliasDeclaration" && spanIs(r.(*TSTypeAliasDeclaration).Start, r.(*TSTypeAliasDeclaration).End, node) && locIs(r.(*TSTypeAliasDeclaration).Loc, node, ctx) && conv(r.(*TSTypeAliasDeclaration).Id, node.(*parser.TsTypDec).name) && convT(r.(*TSTypeAliasDeclaration).TypeParameters, node.(*parser.TsTypDec).ti.typParams) && annotIs(r.(*TSTypeAliasDeclaration).TypeAnnotation, node.(*parser.TsTypDec).ti) && r.(*TSTypeAliasDeclaration).Declare == false)
  // TSTypeAliasDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_TYP_DEC && hastype(node.(*parser.TsDec).inner, type(*parser.TsTypDec))) ==> (hastype(r, type(*TSTypeAliasDeclaration)) && r.(*TSTypeAliasDeclaration) != nil && r.(*TSTypeAliasDeclaration).Type == "TSTypeAliasDeclaration" && spanIs(r.(*TSTypeAliasDeclaration).Start, r.(*TSTypeAliasDeclaration).End, node) && locIs(r.(*TSTypeAliasDeclaration).Loc, node, ctx) && conv(r.(*TSTypeAliasDeclaration).Id, node.(*parser.TsDec).inner.(*parser.TsTypDec).name) && convT(r.(*TSTypeAliasDeclaration).TypeParameters, node.(*parser.TsDec).inner.(*parser.TsTypDec).ti.typParams) && annotIs(r.(*TSTypeAliasDeclaration).TypeAnnotation, node.(*parser.TsDec).inner.(*parser.TsTypDec).ti) && r.(*TSTypeAliasDeclaration).Declare == true)
  // TSModuleDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_MODULE) ==> (hastype(r, type(*TSModuleDeclaration)) && r.(*TSModuleDeclaration) != nil && r.(*TSModuleDeclaration).Type == "TSModuleDeclaration" && spanIs(r.(*TSModuleDeclaration).Start, r.(*TSModuleDeclaration).End, node) && locIs(r.(*TSModuleDeclaration).Loc, node, ctx) && conv(r.(*TSModuleDeclaration).Id, node.(*parser.TsDec).name) && conv(r.(*TSModuleDeclaration).Body, node.(*parser.TsDec).inner) && r.(*TSModuleDeclaration).Declare == true && r.(*TSModuleDeclaration).Global == false)
  // TSModuleDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_GLOBAL) ==> (hastype(r, type(*TSModuleDeclaration)) && r.(*TSModuleDeclaration) != nil && r.(*TSModuleDeclaration).Type == "TSModuleDeclaration" && spanIs(r.(*TSModuleDeclaration).Start, r.(*TSModuleDeclaration).End, node) && locIs(r.(*TSModuleDeclaration).Loc, node, ctx) && conv(r.(*TSModuleDeclaration).Id, node.(*parser.TsDec).name) && conv(r.(*TSModuleDeclaration).Body, node.(*parser.TsDec).inner) && r.(*TSModuleDeclaration).Declare == true && r.(*TSModuleDeclaration).Global == true)
  // TSModuleDeclaration
  proves (ntyp(node) == parser.N_TS_DEC_NS && hastype(node.(*parser.TsDec).inner, type(*parser.TsNS))) ==> (hastype(r, type(*TSModuleDeclaration)) && r.(*TSModuleDeclaration) != nil && r.(*TSModuleDeclaration).Type == "TSModuleDeclaration" && spanIs(r.(*TSModuleDeclaration).Start, r.(*TSModuleDeclaration).End, node) && locIs(r.(*TSModuleDeclaration).Loc, node, ctx) && conv(r.(*TSModuleDeclaration).Id, node.(*parser.TsDec).inner.(*parser.TsNS).name) && conv(r.(*TSModuleDeclaration).Body, node.(*parser.TsDec).inner.(*parser.TsNS).body) && r.(*TSModuleDeclaration).Declare == true && r.(*TSModuleDeclaration).Global == false)
  // TSModuleDeclaration
  proves (ntyp(node) == parser.N_TS_NAMESPACE) ==> (hastype(r, type(*TSModuleDeclaration)) && r.(*TSModuleDeclaration) != nil && r.(*TSModuleDeclaration).Type == "TSModuleDeclaration" && spanIs(r.(*TSModuleDeclaration).Start, r.(*TSModuleDeclaration).End, node) && locIs(r.(*TSModuleDeclaration).Loc, node, ctx) && conv(r.(*TSModuleDeclaration).Id, node.(*parser.TsNS).name) && conv(r.(*TSModuleDeclaration).Body, node.(*parser.TsNS).body) && r.(*TSModuleDeclaration).Declare == false && r.(*TSModuleDeclaration).Global == false)
  // TSExportAssignment
  proves (ntyp(node) == parser.N_TS_EXPORT_ASSIGN) ==> (hastype(r, type(*TSExportAssignment)) && r.(*TSExportAssignment) != nil && r.(*TSExportAssignment).Type == "TSExportAssignment" && spanIs(r.(*TSExportAssignment).Start, r.(*TSExportAssignment).End, node) && locIs(r.(*TSExportAssignment).Loc, node, ctx) && conv(r.(*TSExportAssignment).Expression, node.(*parser.TsExportAssign).expr))
  // TSLiteralType
  proves (ntyp(node) == parser.N_TS_LIT) ==> (hastype(r, type(*TSLiteralType)) && r.(*TSLiteralType) != nil && r.(*TSLiteralType).Type == "TSLiteralType" && spanIs(r.(*TSLiteralType).Start, r.(*TSLiteralType).End, node) && locIs(r.(*TSLiteralType).Loc, node, ctx) && conv(r.(*TSLiteralType).Literal, node.(*parser.TsLit).lit))
  // TSImportEqualsDeclaration
  proves (ntyp(node) == parser.N_TS_IMPORT_ALIAS) ==> (hastype(r, type(*TSImportEqualsDeclaration)) && r.(*TSImportEqualsDeclaration) != nil && r.(*TSImportEqualsDeclaration).Type == "TSImportEqualsDeclaration" && spanIs(r.(*TSImportEqualsDeclaration).Start, r.(*TSImportEqualsDeclaration).End, node) && locIs(r.(*TSImportEqualsDeclaration).Loc, node, ctx) && conv(r.(*TSImportEqualsDeclaration).Id, node.(*parser.TsImportAlias).name) && conv(r.(*TSImportEqualsDeclaration).ModuleReference, node.(*parser.TsImportAlias).val) && r.(*TSImportEqualsDeclaration).IsExport == node.(*parser.TsImportAlias).export)
  // TSImportEqualsDeclaration
  proves (ntyp(node) == parser.N_TS_IMPORT_REQUIRE && hastype(node.(*parser.TsImportRequire).expr, type(*parser.CallExpr)) && node.(*parser.TsImportRequire).expr.(*parser.CallExpr) != nil) ==> (hastype(r, type(*TSImportEqualsDeclaration)) && r.(*TSImportEqualsDeclaration) != nil && r.(*TSImportEqualsDeclaration).Type == "TSImportEqualsDeclaration" && spanIs(r.(*TSImportEqualsDeclaration).Start, r.(*TSImportEqualsDeclaration).End, node) && locIs(r.(*TSImportEqualsDeclaration).Loc, node, ctx) && conv(r.(*TSImportEqualsDeclaration).Id, node.(*parser.TsImportRequire).name) && r.(*TSImportEqualsDeclaration).IsExport == false && hastype(r.(*TSImportEqualsDeclaration).ModuleReference, type(*TSExternalModuleReference)) && r.(*TSImportEqualsDeclaration).ModuleReference.(*TSExternalModuleReference) != nil && r.(*TSImportEqualsDeclaration).ModuleReference.(*TSExternalModuleReference).Type == "TSExternalModuleReference" && spanIs(r.(*TSImportEqualsDeclaration).ModuleReference.(*TSExternalModuleReference).Start, r.(*TSImportEqualsDeclaration).ModuleReference.(*TSExternalModuleReference).End, node.(*parser.TsImportRequire).expr) && locIs(r.(*TSImportEqualsDeclaration).ModuleReference.(*TSExternalModuleReference).Loc, node.(*parser.TsImportRequire).expr, ctx) && conv(r.(*TSImportEqualsDeclaration).ModuleReference.(*TSExternalModuleReference).Expression, node.(*parser.TsImportRequire).expr.(*parser.CallExpr).args[0]))
  // TSConstructSignatureDeclaration
  proves (ntyp(node) == parser.N_TS_NEW_SIG) ==> (hastype(r, type(*TSConstructSignatureDeclaration)) && r.(*TSConstructSignatureDeclaration) != nil && r.(*TSConstructSignatureDeclaration).Type == "TSConstructSignatureDeclaration" && spanIs(r.(*TSConstructSignatureDeclaration).Start, r.(*TSConstructSignatureDeclaration).End, node) && locIs(r.(*TSConstructSignatureDeclaration).Loc, node, ctx) && len(r.(*TSConstructSignatureDeclaration).Params) == len(node.(*parser.TsNewSig).params) && (forall i int :: {r.(*TSConstructSignatureDeclaration).Params[i]} (0 <= i && i < len(node.(*parser.TsNewSig).params)) ==> convP(r.(*TSConstructSignatureDeclaration).Params[i], node.(*parser.TsNewSig).params[i])) && convT(r.(*TSConstructSignatureDeclaration).TypeParameters, node.(*parser.TsNewSig).typParams) && convT(r.(*TSConstructSignatureDeclaration).ReturnType, node.(*parser.TsNewSig).retTyp) && r.(*TSConstructSignatureDeclaration).Abstract == node.(*parser.TsNewSig).abstract)
  // TSConstructorType
  proves (ntyp(node) == parser.N_TS_NEW) ==> (hastype(r, type(*TSConstructorType)) && r.(*TSConstructorType) != nil && r.(*TSConstructorType).Type == "TSConstructorType" && spanIs(r.(*TSConstructorType).Start, r.(*TSConstructorType).End, node) && locIs(r.(*TSConstructorType).Loc, node, ctx) && len(r.(*TSConstructorType).Params) == len(node.(*parser.TsNewSig).params) && (forall i int :: {r.(*TSConstructorType).Params[i]} (0 <= i && i < len(node.(*parser.TsNewSig).params)) ==> convP(r.(*TSConstructorType).Params[i], node.(*parser.TsNewSig).params[i])) && convT(r.(*TSConstructorType).TypeParameters, node.(*parser.TsNewSig).typParams) && convT(r.(*TSConstructorType).ReturnType, node.(*parser.TsNewSig).retTyp) && r.(*TSConstructorType).Abstract == node.(*parser.TsNewSig).abstract)
  // TSFunctionType
  proves (ntyp(node) == parser.N_TS_FN_TYP) ==> (hastype(r, type(*TSFunctionType)) && r.(*TSFunctionType) != nil && r.(*TSFunctionType).Type == "TSFunctionType" && spanIs(r.(*TSFunctionType).Start, r.(*TSFunctionType).End, node) && locIs(r.(*TSFunctionType).Loc, node, ctx) && len(r.(*TSFunctionType).Params) == len(node.(*parser.TsFnTyp).params) && (forall i int :: {r.(*TSFunctionType).Params[i]} (0 <= i && i < len(node.(*parser.TsFnTyp).params)) ==> convP(r.(*TSFunctionType).Params[i], node.(*parser.TsFnTyp).params[i])) && convT(r.(*TSFunctionType).TypeParameters, node.(*parser.TsFnTyp).typParams) && convT(r.(*TSFunctionType).ReturnType, node.(*parser.TsFnTyp).retTyp))
  // TSImportType
  proves (ntyp(node) == parser.N_TS_IMPORT_TYP) ==> (hastype(r, type(*TSImportType)) && r.(*TSImportType) != nil && r.(*TSImportType).Type == "TSImportType" && spanIs(r.(*TSImportType).Start, r.(*TSImportType).End, node) && locIs(r.(*TSImportType).Loc, node, ctx) && conv(r.(*TSImportType).Argument, node.(*parser.TsImportType).arg) && convT(r.(*TSImportType).Qualifier, node.(*parser.TsImportType).qualifier) && convT(r.(*TSImportType).TypeParameters, node.(*parser.TsImportType).typArgs))
  // TSTypeQuery
  proves (ntyp(node) == parser.N_TS_TYP_QUERY) ==> (hastype(r, type(*TSTypeQuery)) && r.(*TSTypeQuery) != nil && r.(*TSTypeQuery).Type == "TSTypeQuery" && spanIs(r.(*TSTypeQuery).Start, r.(*TSTypeQuery).End, node) && locIs(r.(*TSTypeQuery).Loc, node, ctx) && conv(r.(*TSTypeQuery).ExprName, node.(*parser.TsTypQuery).arg))
  // TSConditionalType
  proves (ntyp(node) == parser.N_TS_COND) ==> (hastype(r, type(*TSConditionalType)) && r.(*TSConditionalType) != nil && r.(*TSConditionalType).Type == "TSConditionalType" && spanIs(r.(*TSConditionalType).Start, r.(*TSConditionalType).End, node) && locIs(r.(*TSConditionalType).Loc, node, ctx) && conv(r.(*TSConditionalType).CheckType, node.(*parser.TsCondType).check) && conv(r.(*TSConditionalType).ExtendsType, node.(*parser.TsCondType).ext) && conv(r.(*TSConditionalType).TrueType, node.(*parser.TsCondType).trueTyp) && conv(r.(*TSConditionalType).FalseType, node.(*parser.TsCondType).falseTyp))
  // TSInferType
  proves (ntyp(node) == parser.N_TS_TYP_INFER) ==> (hastype(r, type(*TSInferType)) && r.(*TSInferType) != nil && r.(*TSInferType).Type == "TSInferType" && spanIs(r.(*TSInferType).Start, r.(*TSInferType).End, node) && locIs(r.(*TSInferType).Loc, node, ctx) && convT(r.(*TSInferType).TypeParameter, node.(*parser.TsTypInfer).arg))
  // TSParenthesizedType
  proves (ntyp(node) == parser.N_TS_PAREN) ==> (hastype(r, type(*TSParenthesizedType)) && r.(*TSParenthesizedType) != nil && r.(*TSParenthesizedType).Type == "TSParenthesizedType" && spanIs(r.(*TSParenthesizedType).Start, r.(*TSParenthesizedType).End, node) && locIs(r.(*TSParenthesizedType).Loc, node, ctx) && convT(r.(*TSParenthesizedType).TypeAnnotation, node.(*parser.TsParen).arg))
  // TSIndexedAccessType
  proves (ntyp(node) == parser.N_TS_IDX_ACCESS) ==> (hastype(r, type(*TSIndexedAccessType)) && r.(*TSIndexedAccessType) != nil && r.(*TSIndexedAccessType).Type == "TSIndexedAccessType" && spanIs(r.(*TSIndexedAccessType).Start, r.(*TSIndexedAccessType).End, node) && locIs(r.(*TSIndexedAccessType).Loc, node, ctx) && convT(r.(*TSIndexedAccessType).ObjectType, node.(*parser.TsIdxAccess).obj) && convT(r.(*TSIndexedAccessType).IndexType, node.(*parser.TsIdxAccess).idx))
  // TSMappedType
  proves (ntyp(node) == parser.N_TS_MAPPED) ==> (hastype(r, type(*TSMappedType)) && r.(*TSMappedType) != nil && r.(*TSMappedType).Type == "TSMappedType" && spanIs(r.(*TSMappedType).Start, r.(*TSMappedType).End, node) && locIs(r.(*TSMappedType).Loc, node, ctx) && fmtIs(r.(*TSMappedType).Readonly, node.(*parser.TsMapped).readonly) && fmtIs(r.(*TSMappedType).Optional, node.(*parser.TsMapped).optional) && convT(r.(*TSMappedType).TypeParameter, node.(*parser.TsMapped).key) && convT(r.(*TSMappedType).NameType, node.(*parser.TsMapped).name) && convT(r.(*TSMappedType).TypeAnnotation, node.(*parser.TsMapped).val))
  // TSTypeOperator
  proves (ntyp(node) == parser.N_TS_TYP_OP) ==> (hastype(r, type(*TSTypeOperator)) && r.(*TSTypeOperator) != nil && r.(*TSTypeOperator).Type == "TSTypeOperator" && spanIs(r.(*TSTypeOperator).Start, r.(*TSTypeOperator).End, node) && locIs(r.(*TSTypeOperator).Loc, node, ctx) && hastype(r.(*TSTypeOperator).Operator, type(string)) && r.(*TSTypeOperator).Operator.(string) == node.(*parser.TsTypOp).op && convT(r.(*TSTypeOperator).TypeAnnotation, node.(*parser.TsTypOp).arg))
  // TSTupleType
  proves (ntyp(node) == parser.N_TS_TUPLE) ==> (hastype(r, type(*TSTupleType)) && r.(*TSTupleType) != nil && r.(*TSTupleType).Type == "TSTupleType" && spanIs(r.(*TSTupleType).Start, r.(*TSTupleType).End, node) && locIs(r.(*TSTupleType).Loc, node, ctx) && len(r.(*TSTupleType).ElementTypes) == len(node.(*parser.TsTuple).args) && (forall i int :: {r.(*TSTupleType).ElementTypes[i]} (0 <= i && i < len(node.(*parser.TsTuple).args)) ==> conv(r.(*TSTupleType).ElementTypes[i], node.(*parser.TsTuple).args[i])))
  // TSNamedTupleMember
  proves (ntyp(node) == parser.N_TS_TUPLE_NAMED_MEMBER) ==> (hastype(r, type(*TSNamedTupleMember)) && r.(*TSNamedTupleMember) != nil && r.(*TSNamedTupleMember).Type == "TSNamedTupleMember" && spanIs(r.(*TSNamedTupleMember).Start, r.(*TSNamedTupleMember).End, node) && locIs(r.(*TSNamedTupleMember).Loc, node, ctx) && r.(*TSNamedTupleMember).Optional == node.(*parser.TsTupleNamedMember).opt && conv(r.(*TSNamedTupleMember).Label, node.(*parser.TsTupleNamedMember).label) && convT(r.(*TSNamedTupleMember).ElementType, node.(*parser.TsTupleNamedMember).val))
  // TSRestType
  proves (ntyp(node) == parser.N_TS_REST) ==> (hastype(r, type(*TSRestType)) && r.(*TSRestType) != nil && r.(*TSRestType).Type == "TSRestType" && spanIs(r.(*TSRestType).Start, r.(*TSRestType).End, node) && locIs(r.(*TSRestType).Loc, node, ctx) && convT(r.(*TSRestType).TypeAnnotation, node.(*parser.TsRest).arg))
  // TSOptionalType
  proves (ntyp(node) == parser.N_TS_OPT) ==> (hastype(r, type(*TSOptionalType)) && r.(*TSOptionalType) != nil && r.(*TSOptionalType).Type == "TSOptionalType" && spanIs(r.(*TSOptionalType).Start, r.(*TSOptionalType).End, node) && locIs(r.(*TSOptionalType).Loc, node, ctx) && convT(r.(*TSOptionalType).TypeAnnotation, node.(*parser.TsOpt).arg))

func Convert(node, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures node == nil ==> r == nil
  names conv(r, node)
  // ExpressionStatement
  proves (ntyp(node) == parser.N_STMT_EXPR && node.(*parser.ExprStmt).dir) ==> (hastype(r, type(*Directive)) && r.(*Directive) != nil && r.(*Directive).Type == "ExpressionStatement" && spanIs(r.(*Directive).Start, r.(*Directive).End, node) && locIs(r.(*Directive).Loc, node, ctx) && conv(r.(*Directive).Expression, node.(*parser.ExprStmt).expr) && r.(*Directive).Directive == node.(*parser.ExprStmt).expr.(*parser.StrLit).val)
  // ExpressionStatement
  proves (ntyp(node) == parser.N_STMT_EXPR && !node.(*parser.ExprStmt).dir) ==> (hastype(r, type(*ExpressionStatement)) && r.(*ExpressionStatement) != nil && r.(*ExpressionStatement).Type == "ExpressionStatement" && spanIs(r.(*ExpressionStatement).Start, r.(*ExpressionStatement).End, node) && locIs(r.(*ExpressionStatement).Loc, node, ctx) && conv(r.(*ExpressionStatement).Expression, node.(*parser.ExprStmt).expr))
  // NewExpression
  proves (ntyp(node) == parser.N_EXPR_NEW && node.(*parser.NewExpr).ti == nil) ==> (hastype(r, type(*NewExpression)) && r.(*NewExpression) != nil && r.(*NewExpression).Type == "NewExpression" && spanIs(r.(*NewExpression).Start, r.(*NewExpression).End, node) && locIs(r.(*NewExpression).Loc, node, ctx) && conv(r.(*NewExpression).Callee, node.(*parser.NewExpr).callee) && len(r.(*NewExpression).Arguments) == len(node.(*parser.NewExpr).args) && (forall i int :: {r.(*NewExpression).Arguments[i]} (0 <= i && i < len(node.(*parser.NewExpr).args)) ==> conv(r.(*NewExpression).Arguments[i], node.(*parser.NewExpr).args[i])))
  // NewExpression
  proves (ntyp(node) == parser.N_EXPR_NEW && node.(*parser.NewExpr).ti != nil) ==> (hastype(r, type(*TSNewExpression)) && r.(*TSNewExpression) != nil && r.(*TSNewExpression).Type == "NewExpression" && spanIs(r.(*TSNewExpression).Start, r.(*TSNewExpression).End, node) && locIs(r.(*TSNewExpression).Loc, node, ctx) && conv(r.(*TSNewExpression).Callee, node.(*parser.NewExpr).callee) && len(r.(*TSNewExpression).Arguments) == len(node.(*parser.NewExpr).args) && (forall i int :: {r.(*TSNewExpression).Arguments[i]} (0 <= i && i < len(node.(*parser.NewExpr).args)) ==> conv(r.(*TSNewExpression).Arguments[i], node.(*parser.NewExpr).args[i])) && typArgsIs(r.(*TSNewExpression).TypeParameters, node.(*parser.NewExpr).ti.typArgs, ctx))
  // ThisExpression
  proves (ntyp(node) == parser.N_EXPR_THIS) ==> (hastype(r, type(*ThisExpression)) && r.(*ThisExpression) != nil && r.(*ThisExpression).Type == "ThisExpression" && spanIs(r.(*ThisExpression).Start, r.(*ThisExpression).End, node) && locIs(r.(*ThisExpression).Loc, node, ctx))
  // Literal
  proves (ntyp(node) == parser.N_LIT_NULL) ==> (hastype(r, type(*Literal)) && r.(*Literal) != nil && r.(*Literal).Type == "Literal" && spanIs(r.(*Literal).Start, r.(*Literal).End, node) && locIs(r.(*Literal).Loc, node, ctx) && r.(*Literal).Value == nil && r.(*Literal).Raw == "")
  // Literal
  proves (ntyp(node) == parser.N_LIT_BOOL) ==> (hastype(r, type(*Literal)) && r.(*Literal) != nil && r.(*Literal).Type == "Literal" && spanIs(r.(*Literal).Start, r.(*Literal).End, node) && locIs(r.(*Literal).Loc, node, ctx) && hastype(r.(*Literal).Value, type(bool)) && r.(*Literal).Value.(bool) == node.(*parser.BoolLit).val)
  // Literal
  proves (ntyp(node) == parser.N_LIT_STR) ==> (hastype(r, type(*Literal)) && r.(*Literal) != nil && r.(*Literal).Type == "Literal" && spanIs(r.(*Literal).Start, r.(*Literal).End, node) && locIs(r.(*Literal).Loc, node, ctx) && hastype(r.(*Literal).Value, type(string)) && r.(*Literal).Value.(string) == node.(*parser.StrLit).val && r.(*Literal).Raw == rngtext(ctx, node))
  // Literal
  proves (ntyp(node) == parser.N_LIT_REGEXP) ==> (hastype(r, type(*RegExpLiteral)) && r.(*RegExpLiteral) != nil && r.(*RegExpLiteral).Type == "Literal" && spanIs(r.(*RegExpLiteral).Start, r.(*RegExpLiteral).End, node) && locIs(r.(*RegExpLiteral).Loc, node, ctx) && r.(*RegExpLiteral).Regexp != nil && r.(*RegExpLiteral).Regexp.Pattern == node.(*parser.RegLit).pattern && r.(*RegExpLiteral).Regexp != nil && r.(*RegExpLiteral).Regexp.Flags == node.(*parser.RegLit).flags)
  // LogicalExpression
  proves (ntyp(node) == parser.N_EXPR_BIN && (node.(*parser.BinExpr).op == parser.T_AND || node.(*parser.BinExpr).op == parser.T_OR || node.(*parser.BinExpr).op == parser.T_NULLISH)) ==> (hastype(r, type(*LogicalExpression)) && r.(*LogicalExpression) != nil && r.(*LogicalExpression).Type == "LogicalExpression" && spanIs(r.(*LogicalExpression).Start, r.(*LogicalExpression).End, node) && locIs(r.(*LogicalExpression).Loc, node, ctx) && r.(*LogicalExpression).Operator == parser.TokenKinds[node.(*parser.BinExpr).op].Name && conv(r.(*LogicalExpression).Left, node.(*parser.BinExpr).lhs) && conv(r.(*LogicalExpression).Right, node.(*parser.BinExpr).rhs))
  // TSAsExpression
  proves (ntyp(node) == parser.N_EXPR_BIN && node.(*parser.BinExpr).op == parser.T_TS_AS) ==> (hastype(r, type(*TSAsExpression)) && r.(*TSAsExpression) != nil && r.(*TSAsExpression).Type == "TSAsExpression" && spanIs(r.(*TSAsExpression).Start, r.(*TSAsExpression).End, node) && locIs(r.(*TSAsExpression).Loc, node, ctx) && conv(r.(*TSAsExpression).Expression, node.(*parser.BinExpr).lhs) && conv(r.(*TSAsExpression).TypeAnnotation, node.(*parser.BinExpr).rhs))
  // BinaryExpression
  proves (ntyp(node) == parser.N_EXPR_BIN && !(node.(*parser.BinExpr).op == parser.T_AND || node.(*parser.BinExpr).op == parser.T_OR || node.(*parser.BinExpr).op == parser.T_NULLISH) && node.(*parser.BinExpr).op != parser.T_TS_AS) ==> (hastype(r, type(*BinaryExpression)) && r.(*BinaryExpression) != nil && r.(*BinaryExpression).Type == "BinaryExpression" && spanIs(r.(*BinaryExpression).Start, r.(*BinaryExpression).End, node) && locIs(r.(*BinaryExpression).Loc, node, ctx) && r.(*BinaryExpression).Operator == parser.TokenKinds[node.(*parser.BinExpr).op].Name && conv(r.(*BinaryExpression).Left, node.(*parser.BinExpr).lhs) && conv(r.(*BinaryExpression).Right, node.(*parser.BinExpr).rhs))
  // AssignmentExpression
  proves (ntyp(node) == parser.N_EXPR_ASSIGN) ==> (hastype(r, type(*AssignmentExpression)) && r.(*AssignmentExpression) != nil && r.(*AssignmentExpression).Type == "AssignmentExpression" && spanIs(r.(*AssignmentExpression).Start, r.(*AssignmentExpression).End, node) && locIs(r.(*AssignmentExpression).Loc, node, ctx) && r.(*AssignmentExpression).Operator == parser.TokenKinds[node.(*parser.AssignExpr).op].Name && conv(r.(*AssignmentExpression).Left, node.(*parser.AssignExpr).lhs) && conv(r.(*AssignmentExpression).Right, node.(*parser.AssignExpr).rhs))
  // ArrayExpression
  proves (ntyp(node) == parser.N_LIT_ARR) ==> (hastype(r, type(*ArrayExpression)) && r.(*ArrayExpression) != nil && r.(*ArrayExpression).Type == "ArrayExpression" && spanIs(r.(*ArrayExpression).Start, r.(*ArrayExpression).End, node) && locIs(r.(*ArrayExpression).Loc, node, ctx) && len(r.(*ArrayExpression).Elements) == len(node.(*parser.ArrLit).elems) && (forall i int :: {r.(*ArrayExpression).Elements[i]} (0 <= i && i < len(node.(*parser.ArrLit).elems)) ==> conv(r.(*ArrayExpression).Elements[i], node.(*parser.ArrLit).elems[i])))
  // ObjectExpression
  proves (ntyp(node) == parser.N_LIT_OBJ) ==> (hastype(r, type(*ObjectExpression)) && r.(*ObjectExpression) != nil && r.(*ObjectExpression).Type == "ObjectExpression" && spanIs(r.(*ObjectExpression).Start, r.(*ObjectExpression).End, node) && locIs(r.(*ObjectExpression).Loc, node, ctx) && len(r.(*ObjectExpression).Properties) == len(node.(*parser.ObjLit).props) && (forall i int :: {r.(*ObjectExpression).Properties[i]} (0 <= i && i < len(node.(*parser.ObjLit).props)) ==> conv(r.(*ObjectExpression).Properties[i], node.(*parser.ObjLit).props[i])))
  // Property
  proves (ntyp(node) == parser.N_PROP) ==> (hastype(r, type(*Property)) && r.(*Property) != nil && r.(*Property).Type == "Property" && spanIs(r.(*Property).Start, r.(*Property).End, node) && locIs(r.(*Property).Loc, node, ctx) && conv(r.(*Property).Key, node.(*parser.Prop).key) && conv(r.(*Property).Value, node.(*parser.Prop).value) && r.(*Property).Kind == kindText(node.(*parser.Prop).kind) && r.(*Property).Computed == node.(*parser.Prop).computed && r.(*Property).Shorthand == node.(*parser.Prop).shorthand && r.(*Property).Method == (node.(*parser.Prop).kind == parser.PK_INIT && node.(*parser.Prop).method))
  // BlockStatement
  proves (ntyp(node) == parser.N_STMT_BLOCK) ==> (hastype(r, type(*BlockStatement)) && r.(*BlockStatement) != nil && r.(*BlockStatement).Type == "BlockStatement" && spanIs(r.(*BlockStatement).Start, r.(*BlockStatement).End, node) && locIs(r.(*BlockStatement).Loc, node, ctx) && len(r.(*BlockStatement).Body) == len(node.(*parser.BlockStmt).body) && (forall i int :: {r.(*BlockStatement).Body[i]} (0 <= i && i < len(node.(*parser.BlockStmt).body)) ==> conv(r.(*BlockStatement).Body[i], node.(*parser.BlockStmt).body[i])))
  // FunctionExpression
  proves (ntyp(node) == parser.N_EXPR_FN && node.(*parser.FnDec).ti == nil) ==> (hastype(r, type(*FunctionExpression)) && r.(*FunctionExpression) != nil && r.(*FunctionExpression).Type == "FunctionExpression" && spanIs(r.(*FunctionExpression).Start, r.(*FunctionExpression).End, node) && locIs(r.(*FunctionExpression).Loc, node, ctx) && conv(r.(*FunctionExpression).Id, node.(*parser.FnDec).id) && len(r.(*FunctionExpression).Params) == len(node.(*parser.FnDec).params) && (forall i int :: {r.(*FunctionExpression).Params[i]} (0 <= i && i < len(node.(*parser.FnDec).params)) ==> convP(r.(*FunctionExpression).Params[i], node.(*parser.FnDec).params[i])) && conv(r.(*FunctionExpression).Body, node.(*parser.FnDec).body) && r.(*FunctionExpression).Generator == node.(*parser.FnDec).generator && r.(*FunctionExpression).Async == node.(*parser.FnDec).async && r.(*FunctionExpression).Expression == false)
  // FunctionExpression
  proves (ntyp(node) == parser.N_EXPR_FN && node.(*parser.FnDec).ti != nil) ==> (hastype(r, type(*TSFunctionExpression)) && r.(*TSFunctionExpression) != nil && r.(*TSFunctionExpression).Type == "FunctionExpression" && spanIs(r.(*TSFunctionExpression).Start, r.(*TSFunctionExpression).End, node) && locIs(r.(*TSFunctionExpression).Loc, node, ctx) && conv(r.(*TSFunctionExpression).Id, node.(*parser.FnDec).id) && len(r.(*TSFunctionExpression).Params) == len(node.(*parser.FnDec).params) && (forall i int :: {r.(*TSFunctionExpression).Params[i]} (0 <= i && i < len(node.(*parser.FnDec).params)) ==> convP(r.(*TSFunctionExpression).Params[i], node.(*parser.FnDec).params[i])) && conv(r.(*TSFunctionExpression).Body, node.(*parser.FnDec).body) && r.(*TSFunctionExpression).Generator == node.(*parser.FnDec).generator && r.(*TSFunctionExpression).Async == node.(*parser.FnDec).async && r.(*TSFunctionExpression).Expression == false && typParamsIs(r.(*TSFunctionExpression).TypeParameters, node.(*parser.FnDec).ti.typParams, ctx) && annotIs(r.(*TSFunctionExpression).ReturnType, node.(*parser.FnDec).ti))
  // FunctionDeclaration
  proves (ntyp(node) == parser.N_STMT_FN && node.(*parser.FnDec).ti == nil) ==> (hastype(r, type(*FunctionDeclaration)) && r.(*FunctionDeclaration) != nil && r.(*FunctionDeclaration).Type == "FunctionDeclaration" && spanIs(r.(*FunctionDeclaration).Start, r.(*FunctionDeclaration).End, node) && locIs(r.(*FunctionDeclaration).Loc, node, ctx) && conv(r.(*FunctionDeclaration).Id, node.(*parser.FnDec).id) && len(r.(*FunctionDeclaration).Params) == len(node.(*parser.FnDec).params) && (forall i int :: {r.(*FunctionDeclaration).Params[i]} (0 <= i && i < len(node.(*parser.FnDec).params)) ==> convP(r.(*FunctionDeclaration).Params[i], node.(*parser.FnDec).params[i])) && conv(r.(*FunctionDeclaration).Body, node.(*parser.FnDec).body) && r.(*FunctionDeclaration).Generator == node.(*parser.FnDec).generator && r.(*FunctionDeclaration).Async == node.(*parser.FnDec).async)
  // FunctionDeclaration
  proves (ntyp(node) == parser.N_STMT_FN && node.(*parser.FnDec).ti != nil && node.(*parser.FnDec).body != nil) ==> (hastype(r, type(*TSFunctionDeclaration)) && r.(*TSFunctionDeclaration) != nil && r.(*TSFunctionDeclaration).Type == "FunctionDeclaration" && spanIs(r.(*TSFunctionDeclaration).Start, r.(*TSFunctionDeclaration).End, node) && locIs(r.(*TSFunctionDeclaration).Loc, node, ctx) && conv(r.(*TSFunctionDeclaration).Id, node.(*parser.FnDec).id) && len(r.(*TSFunctionDeclaration).Params) == len(node.(*parser.FnDec).params) && (forall i int :: {r.(*TSFunctionDeclaration).Params[i]} (0 <= i && i < len(node.(*parser.FnDec).params)) ==> convP(r.(*TSFunctionDeclaration).Params[i], node.(*parser.FnDec).params[i])) && conv(r.(*TSFunctionDeclaration).Body, node.(*parser.FnDec).body) && r.(*TSFunctionDeclaration).Generator == node.(*parser.FnDec).generator && r.(*TSFunctionDeclaration).Async == node.(*parser.FnDec).async && typParamsIs(r.(*TSFunctionDeclaration).TypeParameters, node.(*parser.FnDec).ti.typParams, ctx) && annotIs(r.(*TSFunctionDeclaration).ReturnType, node.(*parser.FnDec).ti))
  // ArrowFunctionExpression
  proves (ntyp(node) == parser.N_EXPR_ARROW && node.(*parser.ArrowFn).ti == nil) ==> (hastype(r, type(*ArrowFunctionExpression)) && r.(*ArrowFunctionExpression) != nil && r.(*ArrowFunctionExpression).Type == "ArrowFunctionExpression" && spanIs(r.(*ArrowFunctionExpression).Start, r.(*ArrowFunctionExpression).End, node) && locIs(r.(*ArrowFunctionExpression).Loc, node, ctx) && r.(*ArrowFunctionExpression).Id == nil && len(r.(*ArrowFunctionExpression).Params) == len(node.(*parser.ArrowFn).params) && (forall i int :: {r.(*ArrowFunctionExpression).Params[i]} (0 <= i && i < len(node.(*parser.ArrowFn).params)) ==> convP(r.(*ArrowFunctionExpression).Params[i], node.(*parser.ArrowFn).params[i])) && conv(r.(*ArrowFunctionExpression).Body, node.(*parser.ArrowFn).body) && r.(*ArrowFunctionExpression).Generator == false && r.(*ArrowFunctionExpression).Async == node.(*parser.ArrowFn).async && r.(*ArrowFunctionExpression).Expression == node.(*parser.ArrowFn).expr)
  // ArrowFunctionExpression
  proves (ntyp(node) == parser.N_EXPR_ARROW && node.(*parser.ArrowFn).ti != nil) ==> (hastype(r, type(*TSArrowFunctionExpression)) && r.(*TSArrowFunctionExpression) != nil && r.(*TSArrowFunctionExpression).Type == "ArrowFunctionExpression" && (nhi(node) > 0 ==> (r.(*TSArrowFunctionExpression).Start == typedLo(node, node.(*parser.ArrowFn).ti) && r.(*TSArrowFunctionExpression).End == typedHi(node, node.(*parser.ArrowFn).ti))) && locAt(r.(*TSArrowFunctionExpression).Loc, r.(*TSArrowFunctionExpression).Start, r.(*TSArrowFunctionExpression).End, ctx) && r.(*TSArrowFunctionExpression).Id == nil && len(r.(*TSArrowFunctionExpression).Params) == len(node.(*parser.ArrowFn).params) && (forall i int :: {r.(*TSArrowFunctionExpression).Params[i]} (0 <= i && i < len(node.(*parser.ArrowFn).params)) ==> convP(r.(*TSArrowFunctionExpression).Params[i], node.(*parser.ArrowFn).params[i])) && conv(r.(*TSArrowFunctionExpression).Body, node.(*parser.ArrowFn).body) && r.(*TSArrowFunctionExpression).Generator == false && r.(*TSArrowFunctionExpression).Async == node.(*parser.ArrowFn).async && r.(*TSArrowFunctionExpression).Expression == node.(*parser.ArrowFn).expr && typParamsIs(r.(*TSArrowFunctionExpression).TypeParameters, node.(*parser.ArrowFn).ti.typParams, ctx) && annotIs(r.(*TSArrowFunctionExpression).ReturnType, node.(*parser.ArrowFn).ti))
  // YieldExpression
  proves (ntyp(node) == parser.N_EXPR_YIELD) ==> (hastype(r, type(*YieldExpression)) && r.(*YieldExpression) != nil && r.(*YieldExpression).Type == "YieldExpression" && spanIs(r.(*YieldExpression).Start, r.(*YieldExpression).End, node) && locIs(r.(*YieldExpression).Loc, node, ctx) && r.(*YieldExpression).Delegate == node.(*parser.YieldExpr).delegate && conv(r.(*YieldExpression).Argument, node.(*parser.YieldExpr).arg))
  // ReturnStatement
  proves (ntyp(node) == parser.N_STMT_RET) ==> (hastype(r, type(*ReturnStatement)) && r.(*ReturnStatement) != nil && r.(*ReturnStatement).Type == "ReturnStatement" && spanIs(r.(*ReturnStatement).Start, r.(*ReturnStatement).End, node) && locIs(r.(*ReturnStatement).Loc, node, ctx) && conv(r.(*ReturnStatement).Argument, node.(*parser.RetStmt).arg))
  // SpreadElement
  proves (ntyp(node) == parser.N_SPREAD) ==> (hastype(r, type(*SpreadElement)) && r.(*SpreadElement) != nil && r.(*SpreadElement).Type == "SpreadElement" && spanIs(r.(*SpreadElement).Start, r.(*SpreadElement).End, node) && locIs(r.(*SpreadElement).Loc, node, ctx) && conv(r.(*SpreadElement).Argument, node.(*parser.Spread).arg))
  // ArrayPattern
  proves (ntyp(node) == parser.N_PAT_ARRAY && node.(*parser.ArrPat).ti == nil) ==> (hastype(r, type(*ArrayPattern)) && r.(*ArrayPattern) != nil && r.(*ArrayPattern).Type == "ArrayPattern" && spanIs(r.(*ArrayPattern).Start, r.(*ArrayPattern).End, node) && locIs(r.(*ArrayPattern).Loc, node, ctx) && len(r.(*ArrayPattern).Elements) == len(node.(*parser.ArrPat).elems) && (forall i int :: {r.(*ArrayPattern).Elements[i]} (0 <= i && i < len(node.(*parser.ArrPat).elems)) ==> conv(r.(*ArrayPattern).Elements[i], node.(*parser.ArrPat).elems[i])))
  // ArrayPattern
  proves (ntyp(node) == parser.N_PAT_ARRAY && node.(*parser.ArrPat).ti != nil) ==> (hastype(r, type(*TSArrayPattern)) && r.(*TSArrayPattern) != nil && r.(*TSArrayPattern).Type == "ArrayPattern" && (nhi(node) > 0 ==> (r.(*TSArrayPattern).Start == typedLo(node, node.(*parser.ArrPat).ti) && r.(*TSArrayPattern).End == typedHi(node, node.(*parser.ArrPat).ti))) && locAt(r.(*TSArrayPattern).Loc, r.(*TSArrayPattern).Start, r.(*TSArrayPattern).End, ctx) && len(r.(*TSArrayPattern).Elements) == len(node.(*parser.ArrPat).elems) && (forall i int :: {r.(*TSArrayPattern).Elements[i]} (0 <= i && i < len(node.(*parser.ArrPat).elems)) ==> conv(r.(*TSArrayPattern).Elements[i], node.(*parser.ArrPat).elems[i])))
  // AssignmentPattern
  proves (ntyp(node) == parser.N_PAT_ASSIGN) ==> (hastype(r, type(*AssignmentPattern)) && r.(*AssignmentPattern) != nil && r.(*AssignmentPattern).Type == "AssignmentPattern" && spanIs(r.(*AssignmentPattern).Start, r.(*AssignmentPattern).End, node) && locIs(r.(*AssignmentPattern).Loc, node, ctx) && conv(r.(*AssignmentPattern).Left, node.(*parser.AssignPat).lhs) && conv(r.(*AssignmentPattern).Right, node.(*parser.AssignPat).rhs))
  // ObjectPattern
  proves (ntyp(node) == parser.N_PAT_OBJ && node.(*parser.ObjPat).ti == nil) ==> (hastype(r, type(*ObjectPattern)) && r.(*ObjectPattern) != nil && r.(*ObjectPattern).Type == "ObjectPattern" && spanIs(r.(*ObjectPattern).Start, r.(*ObjectPattern).End, node) && locIs(r.(*ObjectPattern).Loc, node, ctx) && len(r.(*ObjectPattern).Properties) == len(node.(*parser.ObjPat).props) && (forall i int :: {r.(*ObjectPattern).Properties[i]} (0 <= i && i < len(node.(*parser.ObjPat).props)) ==> conv(r.(*ObjectPattern).Properties[i], node.(*parser.ObjPat).props[i])))
  // ObjectPattern
  proves (ntyp(node) == parser.N_PAT_OBJ && node.(*parser.ObjPat).ti != nil) ==> (hastype(r, type(*TSObjectPattern)) && r.(*TSObjectPattern) != nil && r.(*TSObjectPattern).Type == "ObjectPattern" && (nhi(node) > 0 ==> (r.(*TSObjectPattern).Start == typedLo(node, node.(*parser.ObjPat).ti) && r.(*TSObjectPattern).End == typedHi(node, node.(*parser.ObjPat).ti))) && locAt(r.(*TSObjectPattern).Loc, r.(*TSObjectPattern).Start, r.(*TSObjectPattern).End, ctx) && len(r.(*TSObjectPattern).Properties) == len(node.(*parser.ObjPat).props) && (forall i int :: {r.(*TSObjectPattern).Properties[i]} (0 <= i && i < len(node.(*parser.ObjPat).props)) ==> conv(r.(*TSObjectPattern).Properties[i], node.(*parser.ObjPat).props[i])))
  // RestElement
  proves (ntyp(node) == parser.N_PAT_REST && node.(*parser.RestPat).ti == nil) ==> (hastype(r, type(*RestElement)) && r.(*RestElement) != nil && r.(*RestElement).Type == "RestElement" && spanIs(r.(*RestElement).Start, r.(*RestElement).End, node) && locIs(r.(*RestElement).Loc, node, ctx) && conv(r.(*RestElement).Argument, node.(*parser.RestPat).arg))
  // RestElement
  proves (ntyp(node) == parser.N_PAT_REST && node.(*parser.RestPat).ti != nil) ==> (hastype(r, type(*TSRestElement)) && r.(*TSRestElement) != nil && r.(*TSRestElement).Type == "RestElement" && spanIs(r.(*TSRestElement).Start, r.(*TSRestElement).End, node) && locIs(r.(*TSRestElement).Loc, node, ctx) && conv(r.(*TSRestElement).Argument, node.(*parser.RestPat).arg))
  // IfStatement
  proves (ntyp(node) == parser.N_STMT_IF) ==> (hastype(r, type(*IfStatement)) && r.(*IfStatement) != nil && r.(*IfStatement).Type == "IfStatement" && spanIs(r.(*IfStatement).Start, r.(*IfStatement).End, node) && locIs(r.(*IfStatement).Loc, node, ctx) && conv(r.(*IfStatement).Test, node.(*parser.IfStmt).test) && conv(r.(*IfStatement).Consequent, node.(*parser.IfStmt).cons) && conv(r.(*IfStatement).Alternate, node.(*parser.IfStmt).alt))
  // CallExpression
  proves (ntyp(node) == parser.N_EXPR_CALL && node.(*parser.CallExpr).ti == nil) ==> (hastype(r, type(*CallExpression)) && r.(*CallExpression) != nil && r.(*CallExpression).Type == "CallExpression" && spanIs(r.(*CallExpression).Start, r.(*CallExpression).End, node) && locIs(r.(*CallExpression).Loc, node, ctx) && conv(r.(*CallExpression).Callee, node.(*parser.CallExpr).callee) && len(r.(*CallExpression).Arguments) == len(node.(*parser.CallExpr).args) && (forall i int :: {r.(*CallExpression).Arguments[i]} (0 <= i && i < len(node.(*parser.CallExpr).args)) ==> conv(r.(*CallExpression).Arguments[i], node.(*parser.CallExpr).args[i])) && r.(*CallExpression).Optional == node.(*parser.CallExpr).optional)
  // CallExpression
  proves (ntyp(node) == parser.N_EXPR_CALL && node.(*parser.CallExpr).ti != nil) ==> (hastype(r, type(*TSCallExpression)) && r.(*TSCallExpression) != nil && r.(*TSCallExpression).Type == "CallExpression" && spanIs(r.(*TSCallExpression).Start, r.(*TSCallExpression).End, node) && locIs(r.(*TSCallExpression).Loc, node, ctx) && conv(r.(*TSCallExpression).Callee, node.(*parser.CallExpr).callee) && len(r.(*TSCallExpression).Arguments) == len(node.(*parser.CallExpr).args) && (forall i int :: {r.(*TSCallExpression).Arguments[i]} (0 <= i && i < len(node.(*parser.CallExpr).args)) ==> conv(r.(*TSCallExpression).Arguments[i], node.(*parser.CallExpr).args[i])) && r.(*TSCallExpression).Optional == node.(*parser.CallExpr).optional && typArgsIs(r.(*TSCallExpression).TypeParameters, node.(*parser.CallExpr).ti.typArgs, ctx))
  // SwitchStatement
  proves (ntyp(node) == parser.N_STMT_SWITCH) ==> (hastype(r, type(*SwitchStatement)) && r.(*SwitchStatement) != nil && r.(*SwitchStatement).Type == "SwitchStatement" && spanIs(r.(*SwitchStatement).Start, r.(*SwitchStatement).End, node) && locIs(r.(*SwitchStatement).Loc, node, ctx) && conv(r.(*SwitchStatement).Discriminant, node.(*parser.SwitchStmt).test) && len(r.(*SwitchStatement).Cases) == len(node.(*parser.SwitchStmt).cases) && (forall i int :: {r.(*SwitchStatement).Cases[i]} (0 <= i && i < len(node.(*parser.SwitchStmt).cases)) ==> caseIs(r.(*SwitchStatement).Cases[i], node.(*parser.SwitchStmt).cases[i], ctx)))
  // VariableDeclaration
  proves (ntyp(node) == parser.N_STMT_VAR_DEC) ==> (hastype(r, type(*VariableDeclaration)) && r.(*VariableDeclaration) != nil && r.(*VariableDeclaration).Type == "VariableDeclaration" && spanIs(r.(*VariableDeclaration).Start, r.(*VariableDeclaration).End, node) && locIs(r.(*VariableDeclaration).Loc, node, ctx) && r.(*VariableDeclaration).Kind == parser.TokenKinds[node.(*parser.VarDecStmt).kind].Name && len(r.(*VariableDeclaration).Declarations) == len(node.(*parser.VarDecStmt).decList) && (forall i int :: {r.(*VariableDeclaration).Declarations[i]} (0 <= i && i < len(node.(*parser.VarDecStmt).decList)) ==> decIs(r.(*VariableDeclaration).Declarations[i], node.(*parser.VarDecStmt).decList[i], ctx)))
  // MemberExpression
  proves (ntyp(node) == parser.N_EXPR_MEMBER) ==> (hastype(r, type(*MemberExpression)) && r.(*MemberExpression) != nil && r.(*MemberExpression).Type == "MemberExpression" && spanIs(r.(*MemberExpression).Start, r.(*MemberExpression).End, node) && locIs(r.(*MemberExpression).Loc, node, ctx) && conv(r.(*MemberExpression).Object, node.(*parser.MemberExpr).obj) && conv(r.(*MemberExpression).Property, node.(*parser.MemberExpr).prop) && r.(*MemberExpression).Computed == node.(*parser.MemberExpr).compute && r.(*MemberExpression).Optional == node.(*parser.MemberExpr).optional)
  // SequenceExpression
  proves (ntyp(node) == parser.N_EXPR_SEQ) ==> (hastype(r, type(*SequenceExpression)) && r.(*SequenceExpression) != nil && r.(*SequenceExpression).Type == "SequenceExpression" && spanIs(r.(*SequenceExpression).Start, r.(*SequenceExpression).End, node) && locIs(r.(*SequenceExpression).Loc, node, ctx) && len(r.(*SequenceExpression).Expressions) == len(node.(*parser.SeqExpr).elems) && (forall i int :: {r.(*SequenceExpression).Expressions[i]} (0 <= i && i < len(node.(*parser.SeqExpr).elems)) ==> conv(r.(*SequenceExpression).Expressions[i], node.(*parser.SeqExpr).elems[i])))
  // UpdateExpression
  proves (ntyp(node) == parser.N_EXPR_UPDATE) ==> (hastype(r, type(*UpdateExpression)) && r.(*UpdateExpression) != nil && r.(*UpdateExpression).Type == "UpdateExpression" && spanIs(r.(*UpdateExpression).Start, r.(*UpdateExpression).End, node) && locIs(r.(*UpdateExpression).Loc, node, ctx) && r.(*UpdateExpression).Operator == parser.TokenKinds[node.(*parser.UpdateExpr).op].Name && conv(r.(*UpdateExpression).Argument, node.(*parser.UpdateExpr).arg) && r.(*UpdateExpression).Prefix == node.(*parser.UpdateExpr).prefix)
  // UnaryExpression
  proves (ntyp(node) == parser.N_EXPR_UNARY && node.(*parser.UnaryExpr).op != parser.T_AWAIT) ==> (hastype(r, type(*UnaryExpression)) && r.(*UnaryExpression) != nil && r.(*UnaryExpression).Type == "UnaryExpression" && spanIs(r.(*UnaryExpression).Start, r.(*UnaryExpression).End, node) && locIs(r.(*UnaryExpression).Loc, node, ctx) && r.(*UnaryExpression).Operator == parser.TokenKinds[node.(*parser.UnaryExpr).op].Name && conv(r.(*UnaryExpression).Argument, node.(*parser.UnaryExpr).arg) && r.(*UnaryExpression).Prefix == true)
  // AwaitExpression
  proves (ntyp(node) == parser.N_EXPR_UNARY && node.(*parser.UnaryExpr).op == parser.T_AWAIT) ==> (hastype(r, type(*UnaryExpression)) && r.(*UnaryExpression) != nil && r.(*UnaryExpression).Type == "AwaitExpression" && spanIs(r.(*UnaryExpression).Start, r.(*UnaryExpression).End, node) && locIs(r.(*UnaryExpression).Loc, node, ctx) && r.(*UnaryExpression).Operator == parser.TokenKinds[node.(*parser.UnaryExpr).op].Name && conv(r.(*UnaryExpression).Argument, node.(*parser.UnaryExpr).arg) && r.(*UnaryExpression).Prefix == true)
  // ConditionalExpression
  proves (ntyp(node) == parser.N_EXPR_COND) ==> (hastype(r, type(*ConditionalExpression)) && r.(*ConditionalExpression) != nil && r.(*ConditionalExpression).Type == "ConditionalExpression" && spanIs(r.(*ConditionalExpression).Start, r.(*ConditionalExpression).End, node) && locIs(r.(*ConditionalExpression).Loc, node, ctx) && conv(r.(*ConditionalExpression).Test, node.(*parser.CondExpr).test) && conv(r.(*ConditionalExpression).Consequent, node.(*parser.CondExpr).cons) && conv(r.(*ConditionalExpression).Alternate, node.(*parser.CondExpr).alt))
  // EmptyStatement
  proves (ntyp(node) == parser.N_STMT_EMPTY) ==> (hastype(r, type(*EmptyStatement)) && r.(*EmptyStatement) != nil && r.(*EmptyStatement).Type == "EmptyStatement" && spanIs(r.(*EmptyStatement).Start, r.(*EmptyStatement).End, node) && locIs(r.(*EmptyStatement).Loc, node, ctx))
  // DoWhileStatement
  proves (ntyp(node) == parser.N_STMT_DO_WHILE) ==> (hastype(r, type(*DoWhileStatement)) && r.(*DoWhileStatement) != nil && r.(*DoWhileStatement).Type == "DoWhileStatement" && spanIs(r.(*DoWhileStatement).Start, r.(*DoWhileStatement).End, node) && locIs(r.(*DoWhileStatement).Loc, node, ctx) && conv(r.(*DoWhileStatement).Test, node.(*parser.DoWhileStmt).test) && conv(r.(*DoWhileStatement).Body, node.(*parser.DoWhileStmt).body))
  // WhileStatement
  proves (ntyp(node) == parser.N_STMT_WHILE) ==> (hastype(r, type(*WhileStatement)) && r.(*WhileStatement) != nil && r.(*WhileStatement).Type == "WhileStatement" && spanIs(r.(*WhileStatement).Start, r.(*WhileStatement).End, node) && locIs(r.(*WhileStatement).Loc, node, ctx) && conv(r.(*WhileStatement).Test, node.(*parser.WhileStmt).test) && conv(r.(*WhileStatement).Body, node.(*parser.WhileStmt).body))
  // ForStatement
  proves (ntyp(node) == parser.N_STMT_FOR) ==> (hastype(r, type(*ForStatement)) && r.(*ForStatement) != nil && r.(*ForStatement).Type == "ForStatement" && spanIs(r.(*ForStatement).Start, r.(*ForStatement).End, node) && locIs(r.(*ForStatement).Loc, node, ctx) && conv(r.(*ForStatement).Init, node.(*parser.ForStmt).init) && conv(r.(*ForStatement).Test, node.(*parser.ForStmt).test) && conv(r.(*ForStatement).Update, node.(*parser.ForStmt).update) && conv(r.(*ForStatement).Body, node.(*parser.ForStmt).body))
  // ForInStatement
  proves (ntyp(node) == parser.N_STMT_FOR_IN_OF && node.(*parser.ForInOfStmt).in) ==> (hastype(r, type(*ForInStatement)) && r.(*ForInStatement) != nil && r.(*ForInStatement).Type == "ForInStatement" && spanIs(r.(*ForInStatement).Start, r.(*ForInStatement).End, node) && locIs(r.(*ForInStatement).Loc, node, ctx) && conv(r.(*ForInStatement).Left, node.(*parser.ForInOfStmt).left) && conv(r.(*ForInStatement).Right, node.(*parser.ForInOfStmt).right) && conv(r.(*ForInStatement).Body, node.(*parser.ForInOfStmt).body))
  // ForOfStatement
  proves (ntyp(node) == parser.N_STMT_FOR_IN_OF && !node.(*parser.ForInOfStmt).in) ==> (hastype(r, type(*ForOfStatement)) && r.(*ForOfStatement) != nil && r.(*ForOfStatement).Type == "ForOfStatement" && spanIs(r.(*ForOfStatement).Start, r.(*ForOfStatement).End, node) && locIs(r.(*ForOfStatement).Loc, node, ctx) && conv(r.(*ForOfStatement).Left, node.(*parser.ForInOfStmt).left) && conv(r.(*ForOfStatement).Right, node.(*parser.ForInOfStmt).right) && conv(r.(*ForOfStatement).Body, node.(*parser.ForInOfStmt).body) && r.(*ForOfStatement).Await == node.(*parser.ForInOfStmt).await)
  // ContinueStatement
  proves (ntyp(node) == parser.N_STMT_CONT) ==> (hastype(r, type(*ContinueStatement)) && r.(*ContinueStatement) != nil && r.(*ContinueStatement).Type == "ContinueStatement" && spanIs(r.(*ContinueStatement).Start, r.(*ContinueStatement).End, node) && locIs(r.(*ContinueStatement).Loc, node, ctx) && conv(r.(*ContinueStatement).Label, node.(*parser.ContStmt).label))
  // BreakStatement
  proves (ntyp(node) == parser.N_STMT_BRK) ==> (hastype(r, type(*BreakStatement)) && r.(*BreakStatement) != nil && r.(*BreakStatement).Type == "BreakStatement" && spanIs(r.(*BreakStatement).Start, r.(*BreakStatement).End, node) && locIs(r.(*BreakStatement).Loc, node, ctx) && conv(r.(*BreakStatement).Label, node.(*parser.BrkStmt).label))
  // LabeledStatement
  proves (ntyp(node) == parser.N_STMT_LABEL) ==> (hastype(r, type(*LabeledStatement)) && r.(*LabeledStatement) != nil && r.(*LabeledStatement).Type == "LabeledStatement" && spanIs(r.(*LabeledStatement).Start, r.(*LabeledStatement).End, node) && locIs(r.(*LabeledStatement).Loc, node, ctx) && conv(r.(*LabeledStatement).Label, node.(*parser.LabelStmt).label) && conv(r.(*LabeledStatement).Body, node.(*parser.LabelStmt).body))
  // ThrowStatement
  proves (ntyp(node) == parser.N_STMT_THROW) ==> (hastype(r, type(*ThrowStatement)) && r.(*ThrowStatement) != nil && r.(*ThrowStatement).Type == "ThrowStatement" && spanIs(r.(*ThrowStatement).Start, r.(*ThrowStatement).End, node) && locIs(r.(*ThrowStatement).Loc, node, ctx) && conv(r.(*ThrowStatement).Argument, node.(*parser.ThrowStmt).arg))
  // TryStatement
  proves (ntyp(node) == parser.N_STMT_TRY) ==> (hastype(r, type(*TryStatement)) && r.(*TryStatement) != nil && r.(*TryStatement).Type == "TryStatement" && spanIs(r.(*TryStatement).Start, r.(*TryStatement).End, node) && locIs(r.(*TryStatement).Loc, node, ctx) && conv(r.(*TryStatement).Block, node.(*parser.TryStmt).try) && conv(r.(*TryStatement).Handler, node.(*parser.TryStmt).catch) && conv(r.(*TryStatement).Finalizer, node.(*parser.TryStmt).fin))
  // CatchClause
  proves (ntyp(node) == parser.N_CATCH) ==> (hastype(r, type(*CatchClause)) && r.(*CatchClause) != nil && r.(*CatchClause).Type == "CatchClause" && spanIs(r.(*CatchClause).Start, r.(*CatchClause).End, node) && locIs(r.(*CatchClause).Loc, node, ctx) && conv(r.(*CatchClause).Param, node.(*parser.Catch).param) && conv(r.(*CatchClause).Body, node.(*parser.Catch).body))
  // DebuggerStatement
  proves (ntyp(node) == parser.N_STMT_DEBUG) ==> (hastype(r, type(*DebuggerStatement)) && r.(*DebuggerStatement) != nil && r.(*DebuggerStatement).Type == "DebuggerStatement" && spanIs(r.(*DebuggerStatement).Start, r.(*DebuggerStatement).End, node) && locIs(r.(*DebuggerStatement).Loc, node, ctx))
  // WithStatement
  proves (ntyp(node) == parser.N_STMT_WITH) ==> (hastype(r, type(*WithStatement)) && r.(*WithStatement) != nil && r.(*WithStatement).Type == "WithStatement" && spanIs(r.(*WithStatement).Start, r.(*WithStatement).End, node) && locIs(r.(*WithStatement).Loc, node, ctx) && conv(r.(*WithStatement).Object, node.(*parser.WithStmt).expr) && conv(r.(*WithStatement).Body, node.(*parser.WithStmt).body))
  // ImportExpression
  proves (ntyp(node) == parser.N_IMPORT_CALL) ==> (hastype(r, type(*ImportExpression)) && r.(*ImportExpression) != nil && r.(*ImportExpression).Type == "ImportExpression" && spanIs(r.(*ImportExpression).Start, r.(*ImportExpression).End, node) && locIs(r.(*ImportExpression).Loc, node, ctx) && conv(r.(*ImportExpression).Source, node.(*parser.ImportCall).src))
  // MetaProperty
  proves (ntyp(node) == parser.N_META_PROP) ==> (hastype(r, type(*MetaProperty)) && r.(*MetaProperty) != nil && r.(*MetaProperty).Type == "MetaProperty" && spanIs(r.(*MetaProperty).Start, r.(*MetaProperty).End, node) && locIs(r.(*MetaProperty).Loc, node, ctx) && conv(r.(*MetaProperty).Meta, node.(*parser.MetaProp).meta) && conv(r.(*MetaProperty).Property, node.(*parser.MetaProp).prop))
  // ClassBody
  proves (ntyp(node) == parser.N_CLASS_BODY) ==> (hastype(r, type(*ClassBody)) && r.(*ClassBody) != nil && r.(*ClassBody).Type == "ClassBody" && spanIs(r.(*ClassBody).Start, r.(*ClassBody).End, node) && locIs(r.(*ClassBody).Loc, node, ctx) && len(r.(*ClassBody).Body) == len(node.(*parser.ClassBody).elems) && (forall i int :: {r.(*ClassBody).Body[i]} (0 <= i && i < len(node.(*parser.ClassBody).elems)) ==> conv(r.(*ClassBody).Body[i], node.(*parser.ClassBody).elems[i])))
  // Super
  proves (ntyp(node) == parser.N_SUPER) ==> (hastype(r, type(*Super)) && r.(*Super) != nil && r.(*Super).Type == "Super" && spanIs(r.(*Super).Start, r.(*Super).End, node) && locIs(r.(*Super).Loc, node, ctx))
  // StaticBlock
  proves (ntyp(node) == parser.N_STATIC_BLOCK) ==> (hastype(r, type(*StaticBlock)) && r.(*StaticBlock) != nil && r.(*StaticBlock).Type == "StaticBlock" && spanIs(r.(*StaticBlock).Start, r.(*StaticBlock).End, node) && locIs(r.(*StaticBlock).Loc, node, ctx) && len(r.(*StaticBlock).Body) == len(node.(*parser.StaticBlock).body) && (forall i int :: {r.(*StaticBlock).Body[i]} (0 <= i && i < len(node.(*parser.StaticBlock).body)) ==> conv(r.(*StaticBlock).Body[i], node.(*parser.StaticBlock).body[i])))
  // ChainExpression
  proves (ntyp(node) == parser.N_EXPR_CHAIN) ==> (hastype(r, type(*ChainExpression)) && r.(*ChainExpression) != nil && r.(*ChainExpression).Type == "ChainExpression" && spanIs(r.(*ChainExpression).Start, r.(*ChainExpression).End, node) && locIs(r.(*ChainExpression).Loc, node, ctx) && conv(r.(*ChainExpression).Expression, node.(*parser.ChainExpr).expr))
  // ImportDeclaration
  proves (ntyp(node) == parser.N_STMT_IMPORT) ==> (hastype(r, type(*ImportDeclaration)) && r.(*ImportDeclaration) != nil && r.(*ImportDeclaration).Type == "ImportDeclaration" && spanIs(r.(*ImportDeclaration).Start, r.(*ImportDeclaration).End, node) && locIs(r.(*ImportDeclaration).Loc, node, ctx) && len(r.(*ImportDeclaration).Specifiers) == len(node.(*parser.ImportDec).specs) && (forall i int :: {r.(*ImportDeclaration).Specifiers[i]} (0 <= i && i < len(node.(*parser.ImportDec).specs)) ==> impIs(r.(*ImportDeclaration).Specifiers[i], node.(*parser.ImportDec).specs[i], ctx)) && conv(r.(*ImportDeclaration).Source, node.(*parser.ImportDec).src) && r.(*ImportDeclaration).ImportKind == modKind(node.(*parser.ImportDec).tsTyp))
  // JSXIdentifier
  proves (ntyp(node) == parser.N_JSX_ID) ==> (hastype(r, type(*JSXIdentifier)) && r.(*JSXIdentifier) != nil && r.(*JSXIdentifier).Type == "JSXIdentifier" && spanIs(r.(*JSXIdentifier).Start, r.(*JSXIdentifier).End, node) && locIs(r.(*JSXIdentifier).Loc, node, ctx) && r.(*JSXIdentifier).Name == node.(*parser.JsxIdent).val)
  // JSXNamespacedName
  proves (ntyp(node) == parser.N_JSX_NS) ==> (hastype(r, type(*JSXNamespacedName)) && r.(*JSXNamespacedName) != nil && r.(*JSXNamespacedName).Type == "JSXNamespacedName" && spanIs(r.(*JSXNamespacedName).Start, r.(*JSXNamespacedName).End, node) && locIs(r.(*JSXNamespacedName).Loc, node, ctx) && r.(*JSXNamespacedName).Namespace == node.(*parser.JsxNsName).ns.(*parser.JsxIdent).val && r.(*JSXNamespacedName).Name == node.(*parser.JsxNsName).name.(*parser.JsxIdent).val)
  // JSXMemberExpression
  proves (ntyp(node) == parser.N_JSX_MEMBER) ==> (hastype(r, type(*JSXMemberExpression)) && r.(*JSXMemberExpression) != nil && r.(*JSXMemberExpression).Type == "JSXMemberExpression" && spanIs(r.(*JSXMemberExpression).Start, r.(*JSXMemberExpression).End, node) && locIs(r.(*JSXMemberExpression).Loc, node, ctx) && conv(r.(*JSXMemberExpression).Object, node.(*parser.JsxMember).obj) && conv(r.(*JSXMemberExpression).Property, node.(*parser.JsxMember).prop))
  // JSXFragment
  proves (ntyp(node) == parser.N_JSX_ELEM && node.(*parser.JsxElem).open.(*parser.JsxOpen).name == nil) ==> (hastype(r, type(*JSXFragment)) && r.(*JSXFragment) != nil && r.(*JSXFragment).Type == "JSXFragment" && spanIs(r.(*JSXFragment).Start, r.(*JSXFragment).End, node) && locIs(r.(*JSXFragment).Loc, node, ctx) && len(r.(*JSXFragment).Children) == len(node.(*parser.JsxElem).children) && (forall i int :: {r.(*JSXFragment).Children[i]} (0 <= i && i < len(node.(*parser.JsxElem).children)) ==> conv(r.(*JSXFragment).Children[i], node.(*parser.JsxElem).children[i])) && hastype(r.(*JSXFragment).OpeningFragment, type(*JSXOpeningFragment)) && r.(*JSXFragment).OpeningFragment.(*JSXOpeningFragment) != nil && r.(*JSXFragment).OpeningFragment.(*JSXOpeningFragment).Type == "JSXOpeningFragment" && spanIs(r.(*JSXFragment).OpeningFragment.(*JSXOpeningFragment).Start, r.(*JSXFragment).OpeningFragment.(*JSXOpeningFragment).End, node.(*parser.JsxElem).open) && locIs(r.(*JSXFragment).OpeningFragment.(*JSXOpeningFragment).Loc, node.(*parser.JsxElem).open, ctx) && hastype(r.(*JSXFragment).ClosingFragment, type(*JSXClosingFragment)) && r.(*JSXFragment).ClosingFragment.(*JSXClosingFragment) != nil && r.(*JSXFragment).ClosingFragment.(*JSXClosingFragment).Type == "JSXClosingFragment" && spanIs(r.(*JSXFragment).ClosingFragment.(*JSXClosingFragment).Start, r.(*JSXFragment).ClosingFragment.(*JSXClosingFragment).End, node.(*parser.JsxElem).close) && locIs(r.(*JSXFragment).ClosingFragment.(*JSXClosingFragment).Loc, node.(*parser.JsxElem).close, ctx))
  // JSXElement
  proves (ntyp(node) == parser.N_JSX_ELEM && !(node.(*parser.JsxElem).open.(*parser.JsxOpen).name == nil)) ==> (hastype(r, type(*JSXElement)) && r.(*JSXElement) != nil && r.(*JSXElement).Type == "JSXElement" && spanIs(r.(*JSXElement).Start, r.(*JSXElement).End, node) && locIs(r.(*JSXElement).Loc, node, ctx) && conv(r.(*JSXElement).OpeningElement, node.(*parser.JsxElem).open) && len(r.(*JSXElement).Children) == len(node.(*parser.JsxElem).children) && (forall i int :: {r.(*JSXElement).Children[i]} (0 <= i && i < len(node.(*parser.JsxElem).children)) ==> conv(r.(*JSXElement).Children[i], node.(*parser.JsxElem).children[i])) && conv(r.(*JSXElement).ClosingElement, node.(*parser.JsxElem).close))
  // JSXClosingElement
  proves (ntyp(node) == parser.N_JSX_CLOSE) ==> (hastype(r, type(*JSXClosingElement)) && r.(*JSXClosingElement) != nil && r.(*JSXClosingElement).Type == "JSXClosingElement" && spanIs(r.(*JSXClosingElement).Start, r.(*JSXClosingElement).End, node) && locIs(r.(*JSXClosingElement).Loc, node, ctx) && conv(r.(*JSXClosingElement).Name, node.(*parser.JsxClose).name))
  // JSXText
  proves (ntyp(node) == parser.N_JSX_TXT) ==> (hastype(r, type(*JSXText)) && r.(*JSXText) != nil && r.(*JSXText).Type == "JSXText" && spanIs(r.(*JSXText).Start, r.(*JSXText).End, node) && locIs(r.(*JSXText).Loc, node, ctx) && r.(*JSXText).Value == node.(*parser.JsxText).val && r.(*JSXText).Raw == rngtext(ctx, node))
  // JSXExpressionContainer
  proves (ntyp(node) == parser.N_JSX_EXPR_SPAN) ==> (hastype(r, type(*JSXExpressionContainer)) && r.(*JSXExpressionContainer) != nil && r.(*JSXExpressionContainer).Type == "JSXExpressionContainer" && spanIs(r.(*JSXExpressionContainer).Start, r.(*JSXExpressionContainer).End, node) && locIs(r.(*JSXExpressionContainer).Loc, node, ctx) && conv(r.(*JSXExpressionContainer).Expression, node.(*parser.JsxExprSpan).expr))
  // JSXAttribute
  proves (ntyp(node) == parser.N_JSX_ATTR) ==> (hastype(r, type(*JSXAttribute)) && r.(*JSXAttribute) != nil && r.(*JSXAttribute).Type == "JSXAttribute" && spanIs(r.(*JSXAttribute).Start, r.(*JSXAttribute).End, node) && locIs(r.(*JSXAttribute).Loc, node, ctx) && conv(r.(*JSXAttribute).Name, node.(*parser.JsxAttr).name) && conv(r.(*JSXAttribute).Value, node.(*parser.JsxAttr).val))
  // JSXSpreadAttribute
  proves (ntyp(node) == parser.N_JSX_ATTR_SPREAD) ==> (hastype(r, type(*JSXSpreadAttribute)) && r.(*JSXSpreadAttribute) != nil && r.(*JSXSpreadAttribute).Type == "JSXSpreadAttribute" && spanIs(r.(*JSXSpreadAttribute).Start, r.(*JSXSpreadAttribute).End, node) && locIs(r.(*JSXSpreadAttribute).Loc, node, ctx) && conv(r.(*JSXSpreadAttribute).Argument, node.(*parser.JsxSpreadAttr).arg))
  // JSXSpreadChild
  proves (ntyp(node) == parser.N_JSX_CHILD_SPREAD) ==> (hastype(r, type(*JSXSpreadChild)) && r.(*JSXSpreadChild) != nil && r.(*JSXSpreadChild).Type == "JSXSpreadChild" && spanIs(r.(*JSXSpreadChild).Start, r.(*JSXSpreadChild).End, node) && locIs(r.(*JSXSpreadChild).Loc, node, ctx) && conv(r.(*JSXSpreadChild).Expression, node.(*parser.JsxSpreadChild).expr))
  // JSXEmptyExpression
  proves (ntyp(node) == parser.N_JSX_EMPTY) ==> (hastype(r, type(*JSXEmptyExpression)) && r.(*JSXEmptyExpression) != nil && r.(*JSXEmptyExpression).Type == "JSXEmptyExpression" && spanIs(r.(*JSXEmptyExpression).Start, r.(*JSXEmptyExpression).End, node) && locIs(r.(*JSXEmptyExpression).Loc, node, ctx))
  // Decorator
  proves (ntyp(node) == parser.N_DECORATOR) ==> (hastype(r, type(*Decorator)) && r.(*Decorator) != nil && r.(*Decorator).Type == "Decorator" && spanIs(r.(*Decorator).Start, r.(*Decorator).End, node) && locIs(r.(*Decorator).Loc, node, ctx) && conv(r.(*Decorator).Expression, node.(*parser.Decorator).expr))
  // TSDeclareFunction
  proves (ntyp(node) == parser.N_STMT_FN && node.(*parser.FnDec).ti != nil && node.(*parser.FnDec).body == nil) ==> (hastype(r, type(*TSDeclareFunction)) && r.(*TSDeclareFunction) != nil && r.(*TSDeclareFunction).Type == "TSDeclareFunction" && spanIs(r.(*TSDeclareFunction).Start, r.(*TSDeclareFunction).End, node) && locIs(r.(*TSDeclareFunction).Loc, node, ctx) && conv(r.(*TSDeclareFunction).Id, node.(*parser.FnDec).id) && len(r.(*TSDeclareFunction).Params) == len(node.(*parser.FnDec).params) && (forall i int :: {r.(*TSDeclareFunction).Params[i]} (0 <= i && i < len(node.(*parser.FnDec).params)) ==> convP(r.(*TSDeclareFunction).Params[i], node.(*parser.FnDec).params[i])) && r.(*TSDeclareFunction).Generator == false && r.(*TSDeclareFunction).Async == node.(*parser.FnDec).async && typParamsIs(r.(*TSDeclareFunction).TypeParameters, node.(*parser.FnDec).ti.typParams, ctx) && annotIs(r.(*TSDeclareFunction).ReturnType, node.(*parser.FnDec).ti))
  // N_NAME
  proves (ntyp(node) == parser.N_NAME) ==> (identIs(r, node, ctx))
  // Literal
  proves (ntyp(node) == parser.N_LIT_NUM && isBig(node)) ==> (hastype(r, type(*BigIntLiteral)) && r.(*BigIntLiteral) != nil && r.(*BigIntLiteral).Type == "Literal" && spanIs(r.(*BigIntLiteral).Start, r.(*BigIntLiteral).End, node) && locIs(r.(*BigIntLiteral).Loc, node, ctx) && r.(*BigIntLiteral).Raw == rngtext(ctx, node))
  // Literal
  proves (ntyp(node) == parser.N_LIT_NUM && !isBig(node)) ==> (hastype(r, type(*Literal)) && r.(*Literal) != nil && r.(*Literal).Type == "Literal" && spanIs(r.(*Literal).Start, r.(*Literal).End, node) && locIs(r.(*Literal).Loc, node, ctx) && r.(*Literal).Raw == rngtext(ctx, node) && hastype(r.(*Literal).Value, type(float64)) && (isInf(numOf(node)) ==> isZero(r.(*Literal).Value.(float64))) && (!isInf(numOf(node)) ==> r.(*Literal).Value.(float64) == numOf(node)))
  // ClassDeclaration
  proves (ntyp(node) == parser.N_STMT_CLASS && clsTypParams(node.(*parser.ClassDec).ti) == nil && clsSuperArgs(node.(*parser.ClassDec).super) == nil && hastype(r, type(*ClassDeclaration))) ==> (hastype(r, type(*ClassDeclaration)) && r.(*ClassDeclaration) != nil && r.(*ClassDeclaration).Type == "ClassDeclaration" && r.(*ClassDeclaration).Start == decLo(node, node.(*parser.ClassDec).ti) && r.(*ClassDeclaration).End == nhi(node) && (decLo(node, node.(*parser.ClassDec).ti) <= nhi(node) ==> locAt(r.(*ClassDeclaration).Loc, decLo(node, node.(*parser.ClassDec).ti), nhi(node), ctx)) && conv(r.(*ClassDeclaration).Id, node.(*parser.ClassDec).id) && conv(r.(*ClassDeclaration).SuperClass, node.(*parser.ClassDec).super) && conv(r.(*ClassDeclaration).Body, node.(*parser.ClassDec).body) && r.(*ClassDeclaration).Declare == node.(*parser.ClassDec).declare && decorated(r.(*ClassDeclaration).Decorators, node.(*parser.ClassDec).ti))
  // ClassDeclaration
  proves (ntyp(node) == parser.N_STMT_CLASS && hastype(r, type(*TSClassDeclaration))) ==> (hastype(r, type(*TSClassDeclaration)) && r.(*TSClassDeclaration) != nil && r.(*TSClassDeclaration).Type == "ClassDeclaration" && r.(*TSClassDeclaration).Start == decLo(node, node.(*parser.ClassDec).ti) && r.(*TSClassDeclaration).End == nhi(node) && (decLo(node, node.(*parser.ClassDec).ti) <= nhi(node) ==> locAt(r.(*TSClassDeclaration).Loc, decLo(node, node.(*parser.ClassDec).ti), nhi(node), ctx)) && conv(r.(*TSClassDeclaration).Id, node.(*parser.ClassDec).id) && conv(r.(*TSClassDeclaration).SuperClass, node.(*parser.ClassDec).super) && conv(r.(*TSClassDeclaration).Body, node.(*parser.ClassDec).body) && convT(r.(*TSClassDeclaration).TypeParameters, clsTypParams(node.(*parser.ClassDec).ti)) && convT(r.(*TSClassDeclaration).SuperTypeParameters, clsSuperArgs(node.(*parser.ClassDec).super)) && implIs(r.(*TSClassDeclaration).Implements, node.(*parser.ClassDec).ti) && (r.(*TSClassDeclaration).Abstract <==> abstractTi(node.(*parser.ClassDec).ti)) && r.(*TSClassDeclaration).Declare == node.(*parser.ClassDec).declare && decorated(r.(*TSClassDeclaration).Decorators, node.(*parser.ClassDec).ti))
  // N_STMT_CLASS
  proves (ntyp(node) == parser.N_STMT_CLASS && true) ==> ((hastype(r, type(*ClassDeclaration)) || hastype(r, type(*TSClassDeclaration))))
  // N_STMT_CLASS
  proves (ntyp(node) == parser.N_STMT_CLASS && (clsTypParams(node.(*parser.ClassDec).ti) != nil || clsSuperArgs(node.(*parser.ClassDec).super) != nil)) ==> (hastype(r, type(*TSClassDeclaration)))
  // ClassExpression
  proves (ntyp(node) == parser.N_EXPR_CLASS && clsTypParams(node.(*parser.ClassDec).ti) == nil && clsSuperArgs(node.(*parser.ClassDec).super) == nil && hastype(r, type(*ClassExpression))) ==> (hastype(r, type(*ClassExpression)) && r.(*ClassExpression) != nil && r.(*ClassExpression).Type == "ClassExpression" && spanIs(r.(*ClassExpression).Start, r.(*ClassExpression).End, node) && locIs(r.(*ClassExpression).Loc, node, ctx) && conv(r.(*ClassExpression).Id, node.(*parser.ClassDec).id) && conv(r.(*ClassExpression).SuperClass, node.(*parser.ClassDec).super) && conv(r.(*ClassExpression).Body, node.(*parser.ClassDec).body))
  // ClassExpression
  proves (ntyp(node) == parser.N_EXPR_CLASS && hastype(r, type(*TSClassExpression))) ==> (hastype(r, type(*TSClassExpression)) && r.(*TSClassExpression) != nil && r.(*TSClassExpression).Type == "ClassExpression" && spanIs(r.(*TSClassExpression).Start, r.(*TSClassExpression).End, node) && locIs(r.(*TSClassExpression).Loc, node, ctx) && conv(r.(*TSClassExpression).Id, node.(*parser.ClassDec).id) && conv(r.(*TSClassExpression).SuperClass, node.(*parser.ClassDec).super) && conv(r.(*TSClassExpression).Body, node.(*parser.ClassDec).body) && convT(r.(*TSClassExpression).TypeParameters, clsTypParams(node.(*parser.ClassDec).ti)) && convT(r.(*TSClassExpression).SuperTypeParameters, clsSuperArgs(node.(*parser.ClassDec).super)) && implIs(r.(*TSClassExpression).Implements, node.(*parser.ClassDec).ti) && (r.(*TSClassExpression).Abstract <==> abstractTi(node.(*parser.ClassDec).ti)))
  // N_EXPR_CLASS
  proves (ntyp(node) == parser.N_EXPR_CLASS && true) ==> ((hastype(r, type(*ClassExpression)) || hastype(r, type(*TSClassExpression))))
  // N_EXPR_CLASS
  proves (ntyp(node) == parser.N_EXPR_CLASS && (clsTypParams(node.(*parser.ClassDec).ti) != nil || clsSuperArgs(node.(*parser.ClassDec).super) != nil)) ==> (hastype(r, type(*TSClassExpression)))
  // MethodDefinition
  proves (ntyp(node) == parser.N_METHOD && node.(*parser.Method).val.(*parser.FnDec).ti == nil) ==> (hastype(r, type(*MethodDefinition)) && r.(*MethodDefinition) != nil && r.(*MethodDefinition).Type == "MethodDefinition" && r.(*MethodDefinition).Start == decLo(node, node.(*parser.Method).ti) && r.(*MethodDefinition).End == nhi(node) && (decLo(node, node.(*parser.Method).ti) <= nhi(node) ==> locAt(r.(*MethodDefinition).Loc, decLo(node, node.(*parser.Method).ti), nhi(node), ctx)) && conv(r.(*MethodDefinition).Key, node.(*parser.Method).key) && conv(r.(*MethodDefinition).Value, node.(*parser.Method).val) && r.(*MethodDefinition).Computed == node.(*parser.Method).computed && r.(*MethodDefinition).Static == node.(*parser.Method).static && decorated(r.(*MethodDefinition).Decorators, node.(*parser.Method).ti) && r.(*MethodDefinition).Kind == kindText(node.(*parser.Method).kind))
  // MethodDefinition
  proves (ntyp(node) == parser.N_METHOD && node.(*parser.Method).val.(*parser.FnDec).ti != nil) ==> (hastype(r, type(*TSMethodDefinition)) && r.(*TSMethodDefinition) != nil && r.(*TSMethodDefinition).Type == "MethodDefinition" && r.(*TSMethodDefinition).Start == decLo(node, node.(*parser.Method).ti) && r.(*TSMethodDefinition).End == nhi(node) && (decLo(node, node.(*parser.Method).ti) <= nhi(node) ==> locAt(r.(*TSMethodDefinition).Loc, decLo(node, node.(*parser.Method).ti), nhi(node), ctx)) && conv(r.(*TSMethodDefinition).Key, node.(*parser.Method).key) && conv(r.(*TSMethodDefinition).Value, node.(*parser.Method).val) && r.(*TSMethodDefinition).Computed == node.(*parser.Method).computed && r.(*TSMethodDefinition).Static == node.(*parser.Method).static && decorated(r.(*TSMethodDefinition).Decorators, node.(*parser.Method).ti) && r.(*TSMethodDefinition).Kind == kindText(node.(*parser.Method).kind) && r.(*TSMethodDefinition).Accessibility == accText(node.(*parser.Method).val.(*parser.FnDec).ti) && (r.(*TSMethodDefinition).Optional <==> optionalTi(node.(*parser.Method).val.(*parser.FnDec).ti)) && (r.(*TSMethodDefinition).Definite <==> definiteTi(node.(*parser.Method).val.(*parser.FnDec).ti)) && (r.(*TSMethodDefinition).Abstract <==> (node.(*parser.Method).val.(*parser.FnDec).ti.clsTyp != nil && node.(*parser.Method).val.(*parser.FnDec).ti.clsTyp.abstract)) && (r.(*TSMethodDefinition).Override <==> (node.(*parser.Method).val.(*parser.FnDec).ti.clsTyp != nil && node.(*parser.Method).val.(*parser.FnDec).ti.clsTyp.override)) && (r.(*TSMethodDefinition).Readonly <==> (node.(*parser.Method).val.(*parser.FnDec).ti.clsTyp != nil && node.(*parser.Method).val.(*parser.FnDec).ti.clsTyp.readonly)))
  // PropertyDefinition
  proves (ntyp(node) == parser.N_FIELD && node.(*parser.Field).ti == nil) ==> (hastype(r, type(*PropertyDefinition)) && r.(*PropertyDefinition) != nil && r.(*PropertyDefinition).Type == "PropertyDefinition" && r.(*PropertyDefinition).Start == decLo(node, node.(*parser.Field).ti) && r.(*PropertyDefinition).End == nhi(node) && (decLo(node, node.(*parser.Field).ti) <= nhi(node) ==> locAt(r.(*PropertyDefinition).Loc, decLo(node, node.(*parser.Field).ti), nhi(node), ctx)) && conv(r.(*PropertyDefinition).Key, node.(*parser.Field).key) && conv(r.(*PropertyDefinition).Value, node.(*parser.Field).val) && r.(*PropertyDefinition).Computed == node.(*parser.Field).computed && r.(*PropertyDefinition).Static == node.(*parser.Field).static && decorated(r.(*PropertyDefinition).Decorators, node.(*parser.Field).ti))
  // PropertyDefinition
  proves (ntyp(node) == parser.N_FIELD && node.(*parser.Field).ti != nil && !(node.(*parser.Field).ti != nil && node.(*parser.Field).val == nil && node.(*parser.Field).computed && hastype(node.(*parser.Field).key, type(parser.NodeWithTypInfo)) && tiOf(node.(*parser.Field).key) != nil && tiOf(node.(*parser.Field).key).typAnnot != nil)) ==> (hastype(r, type(*TSPropertyDefinition)) && r.(*TSPropertyDefinition) != nil && r.(*TSPropertyDefinition).Type == "PropertyDefinition" && r.(*TSPropertyDefinition).Start == decLo(node, node.(*parser.Field).ti) && r.(*TSPropertyDefinition).End == nhi(node) && (decLo(node, node.(*parser.Field).ti) <= nhi(node) ==> locAt(r.(*TSPropertyDefinition).Loc, decLo(node, node.(*parser.Field).ti), nhi(node), ctx)) && conv(r.(*TSPropertyDefinition).Key, node.(*parser.Field).key) && conv(r.(*TSPropertyDefinition).Value, node.(*parser.Field).val) && r.(*TSPropertyDefinition).Computed == node.(*parser.Field).computed && r.(*TSPropertyDefinition).Static == node.(*parser.Field).static && decorated(r.(*TSPropertyDefinition).Decorators, node.(*parser.Field).ti) && r.(*TSPropertyDefinition).Accessibility == accText(node.(*parser.Field).ti) && (r.(*TSPropertyDefinition).Optional <==> optionalTi(node.(*parser.Field).ti)) && (r.(*TSPropertyDefinition).Abstract <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.abstract)) && (r.(*TSPropertyDefinition).Declare <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.declare)) && (r.(*TSPropertyDefinition).Readonly <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.readonly)) && (r.(*TSPropertyDefinition).Definite <==> definiteTi(node.(*parser.Field).ti)) && (r.(*TSPropertyDefinition).Override <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.override)) && annotIs(r.(*TSPropertyDefinition).TypeAnnotation, node.(*parser.Field).ti))
  // TSIndexSignature
  proves (ntyp(node) == parser.N_FIELD && node.(*parser.Field).ti != nil && node.(*parser.Field).val == nil && node.(*parser.Field).computed && hastype(node.(*parser.Field).key, type(parser.NodeWithTypInfo)) && tiOf(node.(*parser.Field).key) != nil && tiOf(node.(*parser.Field).key).typAnnot != nil) ==> (hastype(r, type(*TSIndexSignature)) && r.(*TSIndexSignature) != nil && r.(*TSIndexSignature).Type == "TSIndexSignature" && r.(*TSIndexSignature).Start == decLo(node, node.(*parser.Field).ti) && r.(*TSIndexSignature).End == nhi(node) && (decLo(node, node.(*parser.Field).ti) <= nhi(node) ==> locAt(r.(*TSIndexSignature).Loc, decLo(node, node.(*parser.Field).ti), nhi(node), ctx)) && r.(*TSIndexSignature).Static == node.(*parser.Field).static && decorated(r.(*TSIndexSignature).Decorators, node.(*parser.Field).ti) && len(r.(*TSIndexSignature).Parameters) == 1 && conv(r.(*TSIndexSignature).Parameters[0], node.(*parser.Field).key) && r.(*TSIndexSignature).Accessibility == accText(node.(*parser.Field).ti) && (r.(*TSIndexSignature).Optional <==> optionalTi(node.(*parser.Field).ti)) && (r.(*TSIndexSignature).Abstract <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.abstract)) && (r.(*TSIndexSignature).Declare <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.declare)) && (r.(*TSIndexSignature).Readonly <==> (node.(*parser.Field).ti.clsTyp != nil && node.(*parser.Field).ti.clsTyp.readonly)) && annotIs(r.(*TSIndexSignature).TypeAnnotation, node.(*parser.Field).ti))
  // N_EXPR_TPL
  proves (ntyp(node) == parser.N_EXPR_TPL && node.(*parser.TplExpr).tag == nil) ==> (hastype(r, type(*TemplateLiteral)) && tplIs(r.(*TemplateLiteral), node.(*parser.TplExpr), ctx))
  // TaggedTemplateExpression
  proves (ntyp(node) == parser.N_EXPR_TPL && node.(*parser.TplExpr).tag != nil && !(hastype(node.(*parser.TplExpr).tag, type(parser.NodeWithTypInfo)) && tiOf(node.(*parser.TplExpr).tag) != nil)) ==> (hastype(r, type(*TaggedTemplateExpression)) && r.(*TaggedTemplateExpression) != nil && r.(*TaggedTemplateExpression).Type == "TaggedTemplateExpression" && conv(r.(*TaggedTemplateExpression).Tag, node.(*parser.TplExpr).tag) && hastype(r.(*TaggedTemplateExpression).Quasi, type(*TemplateLiteral)) && tplIs(r.(*TaggedTemplateExpression).Quasi.(*TemplateLiteral), node.(*parser.TplExpr), ctx) && r.(*TaggedTemplateExpression).Start == nlo(node.(*parser.TplExpr).tag) && r.(*TaggedTemplateExpression).End == nhi(node) && (nlo(node.(*parser.TplExpr).tag) <= nhi(node) ==> locAt(r.(*TaggedTemplateExpression).Loc, nlo(node.(*parser.TplExpr).tag), nhi(node), ctx)))
  // TaggedTemplateExpression
  proves (ntyp(node) == parser.N_EXPR_TPL && node.(*parser.TplExpr).tag != nil && hastype(node.(*parser.TplExpr).tag, type(parser.NodeWithTypInfo)) && tiOf(node.(*parser.TplExpr).tag) != nil) ==> (hastype(r, type(*TSTaggedTemplateExpression)) && r.(*TSTaggedTemplateExpression) != nil && r.(*TSTaggedTemplateExpression).Type == "TaggedTemplateExpression" && conv(r.(*TSTaggedTemplateExpression).Tag, node.(*parser.TplExpr).tag) && hastype(r.(*TSTaggedTemplateExpression).Quasi, type(*TemplateLiteral)) && tplIs(r.(*TSTaggedTemplateExpression).Quasi.(*TemplateLiteral), node.(*parser.TplExpr), ctx) && r.(*TSTaggedTemplateExpression).Start == nlo(node.(*parser.TplExpr).tag) && r.(*TSTaggedTemplateExpression).End == nhi(node) && (nlo(node.(*parser.TplExpr).tag) <= nhi(node) ==> locAt(r.(*TSTaggedTemplateExpression).Loc, nlo(node.(*parser.TplExpr).tag), nhi(node), ctx)) && typArgsIs(r.(*TSTaggedTemplateExpression).TypeParameters, tiOf(node.(*parser.TplExpr).tag).typArgs, ctx))
  // N_STMT_EXPORT
  proves (ntyp(node) == parser.N_STMT_EXPORT && node.(*parser.ExportDec).all) ==> (exportAllIs(r, node.(*parser.ExportDec), ctx))
  // N_STMT_EXPORT
  proves (ntyp(node) == parser.N_STMT_EXPORT && !node.(*parser.ExportDec).all && !emptyRng(node.(*parser.ExportDec).def.Lo, node.(*parser.ExportDec).def.Hi)) ==> (exportDefIs(r, node.(*parser.ExportDec), ctx))
  // N_STMT_EXPORT
  proves (ntyp(node) == parser.N_STMT_EXPORT && !node.(*parser.ExportDec).all && !(!emptyRng(node.(*parser.ExportDec).def.Lo, node.(*parser.ExportDec).def.Hi)) && (node.(*parser.ExportDec).dec == nil || (ntyp(node.(*parser.ExportDec).dec) != parser.N_TS_NAMESPACE && ntyp(node.(*parser.ExportDec).dec) != parser.N_TS_IMPORT_REQUIRE))) ==> (exportNamedIs(r, node.(*parser.ExportDec), ctx))
  // JSXOpeningElement
  proves (ntyp(node) == parser.N_JSX_OPEN && !(hastype(node.(*parser.JsxOpen).name, type(parser.NodeWithTypInfo)) && tiOf(node.(*parser.JsxOpen).name) != nil)) ==> (hastype(r, type(*JSXOpeningElement)) && r.(*JSXOpeningElement) != nil && r.(*JSXOpeningElement).Type == "JSXOpeningElement" && spanIs(r.(*JSXOpeningElement).Start, r.(*JSXOpeningElement).End, node) && locIs(r.(*JSXOpeningElement).Loc, node, ctx) && conv(r.(*JSXOpeningElement).Name, node.(*parser.JsxOpen).name) && len(r.(*JSXOpeningElement).Attributes) == len(node.(*parser.JsxOpen).attrs) && (forall i int :: {r.(*JSXOpeningElement).Attributes[i]} (0 <= i && i < len(node.(*parser.JsxOpen).attrs)) ==> conv(r.(*JSXOpeningElement).Attributes[i], node.(*parser.JsxOpen).attrs[i])) && r.(*JSXOpeningElement).SelfClosing == node.(*parser.JsxOpen).closed)
  // JSXOpeningElement
  proves (ntyp(node) == parser.N_JSX_OPEN && hastype(node.(*parser.JsxOpen).name, type(parser.NodeWithTypInfo)) && tiOf(node.(*parser.JsxOpen).name) != nil) ==> (hastype(r, type(*TSXOpeningElement)) && r.(*TSXOpeningElement) != nil && r.(*TSXOpeningElement).Type == "JSXOpeningElement" && spanIs(r.(*TSXOpeningElement).Start, r.(*TSXOpeningElement).End, node) && locIs(r.(*TSXOpeningElement).Loc, node, ctx) && conv(r.(*TSXOpeningElement).Name, node.(*parser.JsxOpen).name) && len(r.(*TSXOpeningElement).Attributes) == len(node.(*parser.JsxOpen).attrs) && (forall i int :: {r.(*TSXOpeningElement).Attributes[i]} (0 <= i && i < len(node.(*parser.JsxOpen).attrs)) ==> conv(r.(*TSXOpeningElement).Attributes[i], node.(*parser.JsxOpen).attrs[i])) && r.(*TSXOpeningElement).SelfClosing == node.(*parser.JsxOpen).closed && typArgsIs(r.(*TSXOpeningElement).TypeParameters, tiOf(node.(*parser.JsxOpen).name).typArgs, ctx))
