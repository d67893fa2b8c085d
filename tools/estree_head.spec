package estree

// written by tools/genestree.py (the text around the table of kinds is in tools/estree_head.spec)

// ---------------------------------------------------------------- the tree being converted
// n: the range that the node n reports; conv(r, n): r is a result of converting n.
// The tree does not change while it is converted.
fun nlo(parser.Node) int
fun nhi(parser.Node) int
fun conv(Node, parser.Node) bool
// nothing is converted to nothing (proved of Convert: node == nil ==> r == nil)
axiom kind conv_nil = forall r Node, n parser.Node :: {conv(r, n)} (r == nil && n == nil) ==> conv(r, n)
fun convT(Node, parser.Node) bool
fun tiOf(parser.Node) *parser.TypInfo
def paramProp(n parser.Node) = hastype(n, type(parser.NodeWithTypInfo)) && tiOf(n) != nil && tiOf(n).clsTyp != nil && (tiOf(n).clsTyp.readonly || tiOf(n).clsTyp.override || tiOf(n).clsTyp.accMod != parser.ACC_MOD_NONE)
def convP(r Node, n parser.Node) = ite(paramProp(n), hastype(r, type(*TSParameterProperty)) && r.(*TSParameterProperty) != nil && r.(*TSParameterProperty).Type == "TSParameterProperty" && conv(r.(*TSParameterProperty).Parameter, n) && (r.(*TSParameterProperty).Readonly <==> tiOf(n).clsTyp.readonly) && (r.(*TSParameterProperty).Override <==> tiOf(n).clsTyp.override) && r.(*TSParameterProperty).Accessibility == accText(tiOf(n)), conv(r, n))
iface parser.Node.Range(n) (r)
  pure
  ensures r.Lo == nlo(n) && r.Hi == nhi(n) && !nilptr(n)
iface parser.NodeWithTypInfo.TypInfo(n) (t)
  pure
  ensures t == tiOf(n)
  ensures hastype(n, type(*parser.ClassDec)) ==> t == n.(*parser.ClassDec).ti
  ensures hastype(n, type(*parser.Method)) ==> t == n.(*parser.Method).ti
  ensures hastype(n, type(*parser.Field)) ==> t == n.(*parser.Field).ti
  ensures hastype(n, type(*parser.Ident)) ==> t == n.(*parser.Ident).ti
  ensures hastype(n, type(*parser.ArrowFn)) ==> t == n.(*parser.ArrowFn).ti
  ensures hastype(n, type(*parser.ArrPat)) ==> t == n.(*parser.ArrPat).ti
  ensures hastype(n, type(*parser.ObjPat)) ==> t == n.(*parser.ObjPat).ti
// a tag begins before its template ends
iface parser.TplExpr.Tag(n) (t)
  pure
  ensures t == n.tag && (t != nil ==> nlo(t) <= nhi(n))
iface parser.ArrowFn.TypInfo(n) (t)
  pure
  ensures t == n.ti && t == tiOf(n)
iface parser.ArrPat.TypInfo(n) (t)
  pure
  ensures t == n.ti && t == tiOf(n)
iface parser.ObjPat.TypInfo(n) (t)
  pure
  ensures t == n.ti && t == tiOf(n)
fun quesLo(*parser.TypInfo) int
fun quesHi(*parser.TypInfo) int
fun beginLo(*parser.TypInfo) int
fun beginHi(*parser.TypInfo) int
iface parser.TypInfo.Ques(t) (r)
  pure
  ensures r.Lo == t.ques.Lo && r.Hi == t.ques.Hi && r.Lo == quesLo(t) && r.Hi == quesHi(t)
iface parser.TypInfo.BeginRng(t) (r)
  pure
  ensures r.Lo == beginLo(t) && r.Hi == beginHi(t)
//RANGES//
// the value of numeric literals is C11's
fun bigText(string) string
fun numOf(parser.Node) float64
fun isBig(parser.Node) bool
iface parser.NodeToFloat(node, s) (f)
  pure
  ensures f == numOf(node)
iface parser.NodeIsBigint(n, s) (b)
  pure
  ensures b <==> isBig(n)
iface parser.ParseBigint(t) (b)
  ensures b != nil && fresh(b)
extern math/big.Int.String(b) (s)
  pure
// a node of a kind has the struct of that kind
iface parser.StrLit.Type(n) (t)
  pure
  ensures t == parser.N_LIT_STR
//KINDS//

def code(ctx *ConvertCtx) = ctx.Parser.lexer.src.code
def inCode(ctx *ConvertCtx, lo int, hi int) = 0 <= lo && lo <= hi && hi <= len(code(ctx))
def ctxOK(ctx *ConvertCtx) = ctx != nil && ctx.Scope != nil && ctx.Parser != nil && ctx.Parser.lexer != nil && ctx.Parser.lexer.src != nil && len(code(ctx)) < 4294967295 && (forall n parser.Node :: {nlo(n)} {nhi(n)} inCode(ctx, nlo(n), nhi(n))) && (forall t *parser.TypInfo :: {quesHi(t)} {beginHi(t)} inCode(ctx, quesLo(t), quesHi(t)) && inCode(ctx, beginLo(t), beginHi(t)))
def rngtext(ctx *ConvertCtx, n parser.Node) = code(ctx)[nlo(n):nhi(n)]
def spanIs(lo int, hi int, n parser.Node) = lo == nlo(n) && hi == nhi(n)
fun lineAt(string, int) int
fun colAt(string, int) int
axiom hidden lineAt_def = forall s string, o int :: {lineAt(s, o)} lineAt(s, o) == lineOf(s, o)
axiom hidden colAt_def = forall s string, o int :: {colAt(s, o)} colAt(s, o) == colOf(s, o)
def locAt(l *SrcLoc, lo int, hi int, ctx *ConvertCtx) = ite(ctx.LineCol,
  l != nil && l.Start.Line == lineAt(code(ctx), lo) && l.Start.Column == colAt(code(ctx), lo) && l.End.Line == lineAt(code(ctx), hi) && l.End.Column == colAt(code(ctx), hi), l == nil)
def locIs(l *SrcLoc, n parser.Node, ctx *ConvertCtx) = locAt(l, nlo(n), nhi(n), ctx)
def kindText(k parser.PropKind) = ite(k == parser.PK_INIT, "init", ite(k == parser.PK_GETTER, "get", ite(k == parser.PK_SETTER, "set", ite(k == parser.PK_CTOR, "constructor", ite(k == parser.PK_METHOD, "method", "")))))
def modKind(ts bool) = ite(ts, "type", "value")

def caseIs(c *SwitchCase, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.SwitchCase)) && c != nil && c.Type == "SwitchCase" && spanIs(c.Start, c.End, n) && locIs(c.Loc, n, ctx) && conv(c.Test, n.(*parser.SwitchCase).test) && len(c.Consequent) == len(n.(*parser.SwitchCase).cons) && (forall j int :: {c.Consequent[j]} (0 <= j && j < len(c.Consequent)) ==> conv(c.Consequent[j], n.(*parser.SwitchCase).cons[j]))
def decIs(c *VariableDeclarator, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.VarDec)) && c != nil && c.Type == "VariableDeclarator" && spanIs(c.Start, c.End, n) && locIs(c.Loc, n, ctx) && conv(c.Id, n.(*parser.VarDec).id) && conv(c.Init, n.(*parser.VarDec).init)
def impIs(r Node, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.ImportSpec)) && n.(*parser.ImportSpec) != nil && ite(n.(*parser.ImportSpec).def,
  hastype(r, type(*ImportDefaultSpecifier)) && r.(*ImportDefaultSpecifier) != nil && r.(*ImportDefaultSpecifier).Type == "ImportDefaultSpecifier" && spanIs(r.(*ImportDefaultSpecifier).Start, r.(*ImportDefaultSpecifier).End, n) && locIs(r.(*ImportDefaultSpecifier).Loc, n, ctx) && conv(r.(*ImportDefaultSpecifier).Local, n.(*parser.ImportSpec).local),
  ite(n.(*parser.ImportSpec).ns,
  hastype(r, type(*ImportNamespaceSpecifier)) && r.(*ImportNamespaceSpecifier) != nil && r.(*ImportNamespaceSpecifier).Type == "ImportNamespaceSpecifier" && spanIs(r.(*ImportNamespaceSpecifier).Start, r.(*ImportNamespaceSpecifier).End, n) && locIs(r.(*ImportNamespaceSpecifier).Loc, n, ctx) && conv(r.(*ImportNamespaceSpecifier).Local, n.(*parser.ImportSpec).local),
  hastype(r, type(*ImportSpecifier)) && r.(*ImportSpecifier) != nil && r.(*ImportSpecifier).Type == "ImportSpecifier" && spanIs(r.(*ImportSpecifier).Start, r.(*ImportSpecifier).End, n) && locIs(r.(*ImportSpecifier).Loc, n, ctx) && conv(r.(*ImportSpecifier).Local, n.(*parser.ImportSpec).local) && conv(r.(*ImportSpecifier).Imported, n.(*parser.ImportSpec).id) && r.(*ImportSpecifier).ImportKind == modKind(n.(*parser.ImportSpec).tsTyp)))

def expIs(r Node, n parser.Node, ctx *ConvertCtx) = hastype(n, type(*parser.ExportSpec)) && n.(*parser.ExportSpec) != nil && hastype(r, type(*ExportSpecifier)) && r.(*ExportSpecifier) != nil && r.(*ExportSpecifier).Type == "ExportSpecifier" && spanIs(r.(*ExportSpecifier).Start, r.(*ExportSpecifier).End, n) && locIs(r.(*ExportSpecifier).Loc, n, ctx) && conv(r.(*ExportSpecifier).Local, n.(*parser.ExportSpec).local) && conv(r.(*ExportSpecifier).Exported, n.(*parser.ExportSpec).id) && r.(*ExportSpecifier).ExportKind == modKind(n.(*parser.ExportSpec).tsTyp)
def exportAllIs(r Node, n *parser.ExportDec, ctx *ConvertCtx) = hastype(r, type(*ExportAllDeclaration)) && r.(*ExportAllDeclaration) != nil && r.(*ExportAllDeclaration).Type == "ExportAllDeclaration" && spanIs(r.(*ExportAllDeclaration).Start, r.(*ExportAllDeclaration).End, n) && locIs(r.(*ExportAllDeclaration).Loc, n, ctx) && conv(r.(*ExportAllDeclaration).Source, n.src) && ite(len(n.specs) == 1, hastype(n.specs[0], type(*parser.ExportSpec)) && conv(r.(*ExportAllDeclaration).Exported, n.specs[0].(*parser.ExportSpec).local), r.(*ExportAllDeclaration).Exported == nil)
def exportDefIs(r Node, n *parser.ExportDec, ctx *ConvertCtx) = hastype(r, type(*ExportDefaultDeclaration)) && r.(*ExportDefaultDeclaration) != nil && r.(*ExportDefaultDeclaration).Type == "ExportDefaultDeclaration" && spanIs(r.(*ExportDefaultDeclaration).Start, r.(*ExportDefaultDeclaration).End, n) && locIs(r.(*ExportDefaultDeclaration).Loc, n, ctx) && conv(r.(*ExportDefaultDeclaration).Declaration, n.dec)
def exportNamedIs(r Node, n *parser.ExportDec, ctx *ConvertCtx) = hastype(r, type(*ExportNamedDeclaration)) && r.(*ExportNamedDeclaration) != nil && r.(*ExportNamedDeclaration).Type == "ExportNamedDeclaration" && spanIs(r.(*ExportNamedDeclaration).Start, r.(*ExportNamedDeclaration).End, n) && locIs(r.(*ExportNamedDeclaration).Loc, n, ctx) && conv(r.(*ExportNamedDeclaration).Declaration, n.dec) && conv(r.(*ExportNamedDeclaration).Source, n.src) && r.(*ExportNamedDeclaration).ExportKind == modKind(n.tsTyp) && len(r.(*ExportNamedDeclaration).Specifiers) == len(n.specs) && (forall i int :: {r.(*ExportNamedDeclaration).Specifiers[i]} (0 <= i && i < len(n.specs)) ==> expIs(r.(*ExportNamedDeclaration).Specifiers[i], n.specs[i], ctx))
def quasiIs(r Expression, n parser.Node, tail bool, ctx *ConvertCtx) = hastype(n, type(*parser.StrLit)) && n.(*parser.StrLit) != nil && hastype(r, type(*TemplateElement)) && r.(*TemplateElement) != nil && r.(*TemplateElement).Type == "TemplateElement" && spanIs(r.(*TemplateElement).Start, r.(*TemplateElement).End, n) && locIs(r.(*TemplateElement).Loc, n, ctx) && (r.(*TemplateElement).Tail <==> tail) && r.(*TemplateElement).Value != nil && r.(*TemplateElement).Value.Cooked == n.(*parser.StrLit).val && r.(*TemplateElement).Value.Raw == rngtext(ctx, n)
def tplIs(r *TemplateLiteral, n *parser.TplExpr, ctx *ConvertCtx) = r != nil && r.Type == "TemplateLiteral" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Quasis) + len(r.Expressions) == len(n.elems) && (len(r.Quasis) == len(r.Expressions) || len(r.Quasis) == len(r.Expressions) + 1) && (forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> quasiIs(r.Quasis[i], n.elems[2 * i], 2 * i == len(n.elems) - 1, ctx)) && (forall i int :: {r.Expressions[i]} (0 <= i && i < len(r.Expressions)) ==> conv(r.Expressions[i], n.elems[2 * i + 1]))
def mx(a int, b int) = ite(a > b, a, b)
def emptyRng(lo int, hi int) = lo == 0 && hi == 0
def typedLo(n parser.Node, ti *parser.TypInfo) = ite(ti.typParams != nil && !emptyRng(nlo(ti.typParams), nhi(ti.typParams)) && nlo(ti.typParams) < nlo(n), nlo(ti.typParams), nlo(n))
def typedHi(n parser.Node, ti *parser.TypInfo) = mx(mx(nhi(n), quesHi(ti)), ite(ti.typAnnot != nil, nhi(ti.typAnnot), 0))
def decLo(n parser.Node, ti *parser.TypInfo) = ite(ti != nil && len(ti.decorators) > 0, nlo(ti.decorators[0]), nlo(n))
def decorated(ds []Node, ti *parser.TypInfo) = ite(ti == nil, len(ds) == 0, len(ds) == len(ti.decorators) && (forall i int :: {ds[i]} (0 <= i && i < len(ds)) ==> conv(ds[i], ti.decorators[i])))
def definiteTi(ti *parser.TypInfo) = ti != nil && !emptyRng(ti.not.Lo, ti.not.Hi)
fun nilNode() parser.Node
axiom def nilNode_def = nilNode() == nil
def clsTypParams(ti *parser.TypInfo) = ite(ti == nil, nilNode(), ti.typParams)
def clsSuperArgs(n parser.Node) = ite(hastype(n, type(parser.NodeWithTypInfo)) && tiOf(n) != nil && tiOf(n).clsTyp != nil, tiOf(n).clsTyp.superTypArgs, nilNode())
def implIs(ds []Node, ti *parser.TypInfo) = ite(ti == nil || ti.clsTyp == nil, len(ds) == 0, len(ds) == len(ti.clsTyp.implements) && (forall i int :: {ds[i]} (0 <= i && i < len(ds)) ==> conv(ds[i], ti.clsTyp.implements[i])))
def abstractTi(ti *parser.TypInfo) = ti != nil && ti.clsTyp != nil && ti.clsTyp.abstract
def accText(ti *parser.TypInfo) = ite(ti.clsTyp == nil, "", ite(ti.clsTyp.accMod == parser.ACC_MOD_PUB, "public", ite(ti.clsTyp.accMod == parser.ACC_MOD_PRI, "private", ite(ti.clsTyp.accMod == parser.ACC_MOD_PRO, "protected", ""))))
def optionalTi(ti *parser.TypInfo) = ti != nil && !emptyRng(ti.ques.Lo, ti.ques.Hi)
def annotIs(r Node, ti *parser.TypInfo) = ite(ti.typAnnot == nil, r == nil, convT(r, ti.typAnnot))
def typParamsIs(r Node, n parser.Node, ctx *ConvertCtx) = ite(n == nil || (hastype(n, type(*parser.TsParamsDec)) && len(n.(*parser.TsParamsDec).params) == 0), r == nil,
  hastype(n, type(*parser.TsParamsDec)) && hastype(r, type(*TSTypeParameterDeclaration)) && r.(*TSTypeParameterDeclaration) != nil && r.(*TSTypeParameterDeclaration).Type == "TSTypeParameterDeclaration" && spanIs(r.(*TSTypeParameterDeclaration).Start, r.(*TSTypeParameterDeclaration).End, n) && locIs(r.(*TSTypeParameterDeclaration).Loc, n, ctx) && len(r.(*TSTypeParameterDeclaration).Params) == len(n.(*parser.TsParamsDec).params) && (forall i int :: {r.(*TSTypeParameterDeclaration).Params[i]} (0 <= i && i < len(n.(*parser.TsParamsDec).params)) ==> convT(r.(*TSTypeParameterDeclaration).Params[i], n.(*parser.TsParamsDec).params[i])))
def typArgsIs(r Node, n parser.Node, ctx *ConvertCtx) = ite(n == nil || (hastype(n, type(*parser.TsParamsInst)) && len(n.(*parser.TsParamsInst).params) == 0), r == nil,
  hastype(n, type(*parser.TsParamsInst)) && hastype(r, type(*TSTypeParameterInstantiation)) && r.(*TSTypeParameterInstantiation) != nil && r.(*TSTypeParameterInstantiation).Type == "TSTypeParameterInstantiation" && spanIs(r.(*TSTypeParameterInstantiation).Start, r.(*TSTypeParameterInstantiation).End, n) && locIs(r.(*TSTypeParameterInstantiation).Loc, n, ctx) && len(r.(*TSTypeParameterInstantiation).Params) == len(n.(*parser.TsParamsInst).params) && (forall i int :: {r.(*TSTypeParameterInstantiation).Params[i]} (0 <= i && i < len(n.(*parser.TsParamsInst).params)) ==> convT(r.(*TSTypeParameterInstantiation).Params[i], n.(*parser.TsParamsInst).params[i])))
def extIs(r Node, n parser.Node, ctx *ConvertCtx) = hastype(r, type(*TSExpressionWithTypeArguments)) && r.(*TSExpressionWithTypeArguments) != nil && r.(*TSExpressionWithTypeArguments).Type == "TSExpressionWithTypeArguments" && locAt(r.(*TSExpressionWithTypeArguments).Loc, r.(*TSExpressionWithTypeArguments).Start, r.(*TSExpressionWithTypeArguments).End, ctx) && ite(ntyp(n) == parser.N_TS_REF,
  spanIs(r.(*TSExpressionWithTypeArguments).Start, r.(*TSExpressionWithTypeArguments).End, n) && conv(r.(*TSExpressionWithTypeArguments).Expression, n.(*parser.TsRef).name) && convT(r.(*TSExpressionWithTypeArguments).TypeParameters, n.(*parser.TsRef).args),
  conv(r.(*TSExpressionWithTypeArguments).Expression, n) && ite(hastype(n, type(parser.NodeWithTypInfo)) && tiOf(n) != nil, annotIs(r.(*TSExpressionWithTypeArguments).TypeParameters, tiOf(n)), r.(*TSExpressionWithTypeArguments).TypeParameters == nil))
def fmtIs(v any, k int) = ite(k == 1, hastype(v, type(bool)) && v.(bool), hastype(v, type(string)) && v.(string) == ite(k == 2, "+", ite(k == 3, "-", "")))
def tsReadonly(n *parser.TsProp) = n.readonly || (hastype(n.key, type(parser.NodeWithTypInfo)) && tiOf(n.key) != nil && tiOf(n.key).clsTyp != nil && tiOf(n.key).clsTyp.readonly)
def identIs(r Node, n parser.Node, ctx *ConvertCtx) = ite(n.(*parser.Ident).pvt,
  hastype(r, type(*PrivateIdentifier)) && r.(*PrivateIdentifier) != nil && r.(*PrivateIdentifier).Type == "PrivateIdentifier" && spanIs(r.(*PrivateIdentifier).Start, r.(*PrivateIdentifier).End, n) && locIs(r.(*PrivateIdentifier).Loc, n, ctx) && r.(*PrivateIdentifier).Name == n.(*parser.Ident).val,
  ite(n.(*parser.Ident).ti != nil,
  hastype(r, type(*TSIdentifier)) && r.(*TSIdentifier) != nil && r.(*TSIdentifier).Type == "Identifier" && (nhi(n) > 0 ==> (r.(*TSIdentifier).Start == typedLo(n, n.(*parser.Ident).ti) && r.(*TSIdentifier).End == typedHi(n, n.(*parser.Ident).ti))) && locAt(r.(*TSIdentifier).Loc, r.(*TSIdentifier).Start, r.(*TSIdentifier).End, ctx) && r.(*TSIdentifier).Name == n.(*parser.Ident).val && (r.(*TSIdentifier).Optional <==> optionalTi(n.(*parser.Ident).ti)) && annotIs(r.(*TSIdentifier).TypeAnnotation, n.(*parser.Ident).ti) && decorated(r.(*TSIdentifier).Decorators, n.(*parser.Ident).ti),
  hastype(r, type(*Identifier)) && r.(*Identifier) != nil && r.(*Identifier).Type == "Identifier" && spanIs(r.(*Identifier).Start, r.(*Identifier).End, n) && locIs(r.(*Identifier).Loc, n, ctx) && r.(*Identifier).Name == n.(*parser.Ident).val))

// ---------------------------------------------------------------- places
func locOfRng(rng, s, ctx) (l)
  property C10
  maypanic true
  uses lineAt_def, colAt_def
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  requires inCode(ctx, rng.Lo, rng.Hi)
  ensures locAt(l, rng.Lo, rng.Hi, ctx)
  ensures l != nil ==> fresh(l)

func locOfNode(n, s, ctx) (l)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  ensures locIs(l, n, ctx)
  ensures l != nil ==> fresh(l)

// ---------------------------------------------------------------- lists of children
func elems(nodes, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(nodes) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(nodes)) ==> conv(r[i], nodes[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> conv(ret[i], nodes[i])

func statements(stmts, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(stmts) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(stmts)) ==> conv(r[i], stmts[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> conv(s[i], stmts[i])

func expressions(exprs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(exprs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(exprs)) ==> conv(r[i], exprs[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> conv(s[i], exprs[i])

// a parameter is converted as any node, or stands in a parameter property of TypeScript
func fnParams(params, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(params) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(params)) ==> convP(r[i], params[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ps[i]} (0 <= i && i <= $rangeindex && hastype(ps[i], type(*TSParameterProperty))) ==> allocated(ps[i].(*TSParameterProperty))
    invariant forall i int :: {ps[i]} (0 <= i && i <= $rangeindex) ==> convP(ps[i], params[i])

func tsParamProp(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures (r != nil) <==> paramProp(node)
  ensures paramProp(node) ==> convP(r, node)
  proves paramProp(node) ==> decorated(r.(*TSParameterProperty).Decorators, tiOf(node))

func arrExpr(n, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx) && n != nil
  modifies ctx.Scope
  ensures r != nil && r.Type == "ArrayExpression" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Elements) == len(n.elems)
  ensures forall i int :: {r.Elements[i]} (0 <= i && i < len(n.elems)) ==> conv(r.Elements[i], n.elems[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {elems[i]} (0 <= i && i <= $rangeindex) ==> conv(elems[i], n.elems[i])

func obj(n, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx) && n != nil
  modifies ctx.Scope
  ensures r != nil && r.Type == "ObjectExpression" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Properties) == len(n.props)
  ensures forall i int :: {r.Properties[i]} (0 <= i && i < len(n.props)) ==> conv(r.Properties[i], n.props[i])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {props[i]} (0 <= i && i <= $rangeindex) ==> conv(props[i], n.props[i])

func cases(cs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(cs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(cs)) ==> caseIs(r[i], cs[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> (allocated(s[i]) && allocated(s[i].Loc) && allocated(arr(s[i].Consequent)))
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> caseIs(s[i], cs[i], ctx)

func declarations(decList, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(decList) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(decList)) ==> decIs(r[i], decList[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> (allocated(s[i]) && allocated(s[i].Loc))
    invariant forall i int :: {s[i]} (0 <= i && i <= $rangeindex) ==> decIs(s[i], decList[i], ctx)

func importSpec(spec, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures impIs(r, spec, ctx)
  ensures ctx.Scope == old(ctx.Scope)

func importSpecs(specs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(specs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(specs)) ==> impIs(r[i], specs[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> impIs(ret[i], specs[i], ctx)

func exportAll(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures exportAllIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

func exportDefault(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures exportDefIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

func exportSpecs(specs, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures len(r) == len(specs) && fresh(arr(r))
  ensures forall i int :: {r[i]} (0 <= i && i < len(specs)) ==> expIs(r[i], specs[i], ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> (allocated(ret[i].(*ExportSpecifier)) && allocated(ret[i].(*ExportSpecifier).Loc))
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> expIs(ret[i], specs[i], ctx)

func exportNamed(node, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures exportNamedIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

// the strings and the expressions of a template alternate
func tplLiteral(tplLoc, elems, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx) && inCode(ctx, tplLoc.Lo, tplLoc.Hi)
  modifies ctx.Scope
  ensures fresh(r)
  ensures r != nil && r.Type == "TemplateLiteral" && r.Start == tplLoc.Lo && r.End == tplLoc.Hi && locAt(r.Loc, tplLoc.Lo, tplLoc.Hi, ctx)
  ensures len(r.Quasis) + len(r.Expressions) == len(elems) && (len(r.Quasis) == len(r.Expressions) || len(r.Quasis) == len(r.Expressions) + 1)
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis) && hastype(r.Quasis[i], type(*TemplateElement))) ==> (hastype(elems[2 * i], type(*parser.StrLit)) && elems[2 * i].(*parser.StrLit) != nil)
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (hastype(r.Quasis[i], type(*TemplateElement)) && r.Quasis[i].(*TemplateElement) != nil && r.Quasis[i].(*TemplateElement).Type == "TemplateElement")
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (spanIs(r.Quasis[i].(*TemplateElement).Start, r.Quasis[i].(*TemplateElement).End, elems[2 * i]))
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (locIs(r.Quasis[i].(*TemplateElement).Loc, elems[2 * i], ctx))
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> ((r.Quasis[i].(*TemplateElement).Tail <==> 2 * i == len(elems) - 1))
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (r.Quasis[i].(*TemplateElement).Value != nil && r.Quasis[i].(*TemplateElement).Value.Cooked == elems[2 * i].(*parser.StrLit).val)
  ensures forall i int :: {r.Quasis[i]} (0 <= i && i < len(r.Quasis)) ==> (r.Quasis[i].(*TemplateElement).Value.Raw == rngtext(ctx, elems[2 * i]))
  ensures forall i int :: {r.Expressions[i]} (0 <= i && i < len(r.Expressions)) ==> conv(r.Expressions[i], elems[2 * i + 1])
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant fresh(arr(quasis)) && fresh(arr(exprs)) && arr(quasis) != arr(exprs)
    invariant len(quasis) + len(exprs) == $rangeindex + 1 && (len(quasis) == len(exprs) || len(quasis) == len(exprs) + 1)
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (fresh(quasis[i].(*TemplateElement)) && fresh(quasis[i].(*TemplateElement).Value) && allocated(quasis[i].(*TemplateElement)) && allocated(quasis[i].(*TemplateElement).Loc) && allocated(quasis[i].(*TemplateElement).Value))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (hastype(elems[2 * i], type(*parser.StrLit)) && elems[2 * i].(*parser.StrLit) != nil)
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (hastype(quasis[i], type(*TemplateElement)) && quasis[i].(*TemplateElement) != nil && quasis[i].(*TemplateElement).Type == "TemplateElement")
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (spanIs(quasis[i].(*TemplateElement).Start, quasis[i].(*TemplateElement).End, elems[2 * i]))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (locIs(quasis[i].(*TemplateElement).Loc, elems[2 * i], ctx))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> ((quasis[i].(*TemplateElement).Tail <==> 2 * i == len(elems) - 1))
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (quasis[i].(*TemplateElement).Value.Cooked == elems[2 * i].(*parser.StrLit).val)
    invariant forall i int :: {quasis[i]} (0 <= i && i < len(quasis)) ==> (quasis[i].(*TemplateElement).Value.Raw == rngtext(ctx, elems[2 * i]))
    invariant forall i int :: {exprs[i]} (0 <= i && i < len(exprs)) ==> conv(exprs[i], elems[2 * i + 1])

func ident(node, ctx) (r)
  property C10
  maypanic true
  uses kind_N_NAME
  requires ctxOK(ctx) && ntyp(node) == parser.N_NAME
  modifies ctx.Scope
  ensures identIs(r, node, ctx)
  ensures ctx.Scope == old(ctx.Scope)

// ---------------------------------------------------------------- places of typed and decorated nodes
func FirstLoc(s, ctx, locs) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  requires forall i int :: {locs[i].Lo} {locs[i].Hi} (0 <= i && i < len(locs)) ==> inCode(ctx, locs[i].Lo, locs[i].Hi)
  ensures locAt(loc, rng.Lo, rng.Hi, ctx) && (loc != nil ==> fresh(loc)) && inCode(ctx, rng.Lo, rng.Hi)
  ensures exists i int :: 0 <= i && i < len(locs) && locs[i].Lo == rng.Lo && locs[i].Hi == rng.Hi
  ensures forall i int :: {locs[i]} (0 <= i && i < len(locs) && !(locs[i].Lo == 0 && locs[i].Hi == 0)) ==> (rng.Lo <= locs[i].Lo && !(rng.Lo == 0 && rng.Hi == 0))
  loop 0
    invariant 0 <= k && (k < len(locs) || (k == 0 && $rangeindex < 0))
    invariant (lo == 4294967295 && hi == 4294967295 && (forall i int :: {locs[i]} (0 <= i && i <= $rangeindex) ==> (locs[i].Lo == 0 && locs[i].Hi == 0))) || (k <= $rangeindex && locs[k].Lo == lo && locs[k].Hi == hi && !(lo == 0 && hi == 0))
    invariant forall i int :: {locs[i]} (0 <= i && i <= $rangeindex && !(locs[i].Lo == 0 && locs[i].Hi == 0)) ==> lo <= locs[i].Lo

func LastLoc(s, ctx, locs) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  requires forall i int :: {locs[i].Lo} {locs[i].Hi} (0 <= i && i < len(locs)) ==> inCode(ctx, locs[i].Lo, locs[i].Hi)
  ensures locAt(loc, rng.Lo, rng.Hi, ctx) && (loc != nil ==> fresh(loc)) && inCode(ctx, rng.Lo, rng.Hi)
  ensures exists i int :: 0 <= i && i < len(locs) && locs[i].Lo == rng.Lo && locs[i].Hi == rng.Hi
  ensures forall i int :: {locs[i]} (0 <= i && i < len(locs)) ==> rng.Hi >= locs[i].Hi
  loop 0
    invariant 0 <= k && (k < len(locs) || (k == 0 && $rangeindex < 0))
    invariant (lo == 0 && hi == 0 && (forall i int :: {locs[i]} (0 <= i && i <= $rangeindex) ==> locs[i].Hi == 0)) || (k <= $rangeindex && locs[k].Lo == lo && locs[k].Hi == hi)
    invariant forall i int :: {locs[i]} (0 <= i && i <= $rangeindex) ==> hi >= locs[i].Hi

// the start of the type parameters or of the node, the end of the annotation, of ? or of the node
func locWithTypeInfo(node, includeParamProp, s, ctx) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  ensures locAt(loc, rng.Lo, rng.Hi, ctx)
  ensures (!includeParamProp && nhi(node) > 0 && hastype(node, type(parser.NodeWithTypInfo))) ==> (rng.Lo == typedLo(node, tiOf(node)) && rng.Hi == typedHi(node, tiOf(node)))
  ensures !hastype(node, type(parser.NodeWithTypInfo)) ==> spanIs(rng.Lo, rng.Hi, node)

func locWithDecorator(node, ds, s, ctx) (rng, loc)
  property C10
  maypanic true
  requires ctxOK(ctx) && s == ctx.Parser.lexer.src
  ensures rng.Hi == nhi(node) && rng.Lo == ite(len(ds) == 0, nlo(node), nlo(ds[0])) && locAt(loc, rng.Lo, rng.Hi, ctx)

// ---------------------------------------------------------------- type parameters and arguments
func typParams(ti, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures typParamsIs(r, ti.typParams, ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> convT(ret[i], ps[i])

func typArgs(ti, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures typArgsIs(r, ti.typArgs, ctx)
  ensures ctx.Scope == old(ctx.Scope)
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> convT(ret[i], ps[i])

func ConvertProg(n, ctx) (r)
  property C10
  maypanic true
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures r != nil && r.Type == "Program" && spanIs(r.Start, r.End, n) && locIs(r.Loc, n, ctx) && len(r.Body) == len(n.stmts)
  ensures forall i int :: {r.Body[i]} (0 <= i && i < len(n.stmts)) ==> conv(r.Body[i], n.stmts[i])
  loop 0
    invariant ctx.Scope == old(ctx.Scope)
    invariant forall i int :: {body[i]} (0 <= i && i <= $rangeindex) ==> conv(body[i], n.stmts[i])

// ---------------------------------------------------------------- types
// set only where an index signature's key has no type, which the parser never makes
iface parser.NodeWithTypInfo.SetTypInfo(n, t)
  requires false

func extends(exts, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures len(r) == len(exts)
  ensures forall i int :: {r[i]} (0 <= i && i < len(exts)) ==> extIs(r[i], exts[i], ctx)
  loop 0
    invariant ctx.Scope == old(ctx.Scope) && len(ret) == len(exts) && fresh(arr(ret))
    invariant forall i int :: {ret[i]} (0 <= i && i <= $rangeindex) ==> extIs(ret[i], exts[i], ctx)

func exprWithTypArg(node, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures extIs(r, node, ctx)

func ConvertTsTyp(node, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  assumes ntyp(node) == parser.N_TS_IDX_SIG ==> (hastype(node.(*parser.TsIdxSig).key, type(parser.NodeWithTypInfo)) ==> tiOf(node.(*parser.TsIdxSig).key) != nil)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures node == nil ==> r == nil
  ensures hastype(r, type(*TSImportEqualsDeclaration)) ==> fresh(r.(*TSImportEqualsDeclaration))
  names convT(r, node)
//TSCASES//

func Convert(node, ctx) (r)
  property C10
  maypanic true
  uses kind
  requires ctxOK(ctx)
  modifies ctx.Scope
  ensures ctx.Scope == old(ctx.Scope)
  ensures node == nil ==> r == nil
  names conv(r, node)
//CASES//
