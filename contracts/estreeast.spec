package parser

// written by tools/genestree.py
func ArrLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ArrPat.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ArrowFn.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func AssignExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func AssignPat.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func BinExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func BlockStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func BoolLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func BrkStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func CallExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Catch.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ChainExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ClassBody.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ClassDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func CondExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ContStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func DebugStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Decorator.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func DoWhileStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func EmptyStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ExportDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ExportSpec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ExprStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Field.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func FnDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ForInOfStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ForStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Ident.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func IfStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ImportCall.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ImportDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ImportSpec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxAttr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxClose.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxElem.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxEmpty.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxExprSpan.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxIdent.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxMember.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxNsName.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxOpen.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxSpreadAttr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxSpreadChild.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func JsxText.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func LabelStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func MemberExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func MetaProp.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Method.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func NewExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func NullLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func NumLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ObjLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ObjPat.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ParenExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Prog.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Prop.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func RegLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func RestPat.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func RetStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func SeqExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Spread.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func StaticBlock.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func StrLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func Super.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func SwitchCase.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func SwitchStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ThisExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func ThrowStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TplExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TryStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsArr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsCallSig.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsCondType.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsEnum.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsEnumMember.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsExportAssign.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsFnTyp.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsIdxAccess.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsIdxSig.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsImportAlias.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsImportRequire.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsImportType.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsInterface.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsInterfaceBody.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsIntersectTyp.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsLit.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsMapped.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsNS.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsNewSig.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsNoNull.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsNsName.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsObj.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsOpt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsParam.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsParamsDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsParamsInst.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsParen.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsProp.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsRef.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsRest.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTuple.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTupleNamedMember.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypAnnot.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypAssert.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypInfer.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypOp.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypPredicate.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsTypQuery.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func TsUnionTyp.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func UnaryExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func UpdateExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func VarDec.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func VarDecStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func WhileStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func WithStmt.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
func YieldExpr.Range(n) (r)
  property C10
  requires n != nil
  ensures r == n.rng
