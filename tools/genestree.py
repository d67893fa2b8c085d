#!/usr/bin/env python3
"""Writes contracts/estree.spec (the contract of Convert, kind by kind) and
harness/estree/c10_table_test.go (the same table for the concrete oracle).

Run by hand when the AST or ESTree node definitions change, never by a check.
The table is written from the ESTree specification and the AST definitions.
"""
import re, sys
ROOT = sys.argv[1] if len(sys.argv) > 1 else '/verif'

# kind, AST struct, condition on n, ESTree struct, ESTree type, fields, flags
# fields: c = converted child, l = list of converted children, v = plain value
K = []
def k(kind, ast, es, fields='', cond='', typ=None, rng='std'):
    K.append((kind, ast, es, typ or es or kind, [f.strip() for f in fields.split(';') if f.strip()], cond, rng))
def kts(kind, ast, es, ts, fields, cond='', rng='std', tsrng='std', typ=None, tsf=''):
    c = cond + ' && ' if cond else ''
    k(kind, ast, es, fields, c + 'n.ti == nil', typ, rng)
    k(kind, ast, ts, fields + tsf, c + 'n.ti != nil', typ or es, tsrng)

k('N_STMT_EXPR', 'ExprStmt', 'Directive', 'c Expression expr; v Directive n.expr.(*parser.StrLit).val', 'n.dir', 'ExpressionStatement')
k('N_STMT_EXPR', 'ExprStmt', 'ExpressionStatement', 'c Expression expr', '!n.dir')
kts('N_EXPR_NEW', 'NewExpr', 'NewExpression', 'TSNewExpression', 'c Callee callee; l Arguments args', tsf='; x typArgsIs(@.TypeParameters, n.ti.typArgs, ctx)')
k('N_EXPR_THIS', 'ThisExpr', 'ThisExpression')
k('N_LIT_NULL', 'NullLit', 'Literal', 'v Value nil; v Raw ""')
k('N_LIT_BOOL', 'BoolLit', 'Literal', 'b Value n.val')
k('N_LIT_STR', 'StrLit', 'Literal', 's Value n.val; v Raw rngtext(ctx, node)')
k('N_LIT_REGEXP', 'RegLit', 'RegExpLiteral', 'v Regexp.Pattern n.pattern; v Regexp.Flags n.flags', '', 'Literal')
LOG = '(n.op == parser.T_AND || n.op == parser.T_OR || n.op == parser.T_NULLISH)'
OP = 'v Operator parser.TokenKinds[n.op].Name'
k('N_EXPR_BIN', 'BinExpr', 'LogicalExpression', OP + '; c Left lhs; c Right rhs', LOG)
k('N_EXPR_BIN', 'BinExpr', 'TSAsExpression', 'c Expression lhs; c TypeAnnotation rhs', 'n.op == parser.T_TS_AS')
k('N_EXPR_BIN', 'BinExpr', 'BinaryExpression', OP + '; c Left lhs; c Right rhs', '!' + LOG + ' && n.op != parser.T_TS_AS')
k('N_EXPR_ASSIGN', 'AssignExpr', 'AssignmentExpression', OP + '; c Left lhs; c Right rhs')
k('N_LIT_ARR', 'ArrLit', 'ArrayExpression', 'l Elements elems')
k('N_LIT_OBJ', 'ObjLit', 'ObjectExpression', 'l Properties props')
k('N_PROP', 'Prop', 'Property', 'c Key key; c Value value; v Kind kindText(n.kind); v Computed n.computed; v Shorthand n.shorthand; v Method (n.kind == parser.PK_INIT && n.method)')
k('N_STMT_BLOCK', 'BlockStmt', 'BlockStatement', 'l Body body')
FN = 'c Id id; p Params params; c Body body; v Generator n.generator; v Async n.async'
kts('N_EXPR_FN', 'FnDec', 'FunctionExpression', 'TSFunctionExpression', FN + '; v Expression false', tsf='; x typParamsIs(@.TypeParameters, n.ti.typParams, ctx); x annotIs(@.ReturnType, n.ti)')
k('N_STMT_FN', 'FnDec', 'FunctionDeclaration', FN, 'n.ti == nil')
k('N_STMT_FN', 'FnDec', 'TSFunctionDeclaration', FN + '; x typParamsIs(@.TypeParameters, n.ti.typParams, ctx); x annotIs(@.ReturnType, n.ti)', 'n.ti != nil && n.body != nil', 'FunctionDeclaration')
k('N_EXPR_ARROW', 'ArrowFn', 'ArrowFunctionExpression', 'v Id nil; p Params params; c Body body; v Generator false; v Async n.async; v Expression n.expr', 'n.ti == nil')
k('N_EXPR_ARROW', 'ArrowFn', 'TSArrowFunctionExpression', 'v Id nil; p Params params; c Body body; v Generator false; v Async n.async; v Expression n.expr; x typParamsIs(@.TypeParameters, n.ti.typParams, ctx); x annotIs(@.ReturnType, n.ti)', 'n.ti != nil', 'ArrowFunctionExpression', 'typed')
k('N_EXPR_YIELD', 'YieldExpr', 'YieldExpression', 'v Delegate n.delegate; c Argument arg')
k('N_STMT_RET', 'RetStmt', 'ReturnStatement', 'c Argument arg')
k('N_SPREAD', 'Spread', 'SpreadElement', 'c Argument arg')
kts('N_PAT_ARRAY', 'ArrPat', 'ArrayPattern', 'TSArrayPattern', 'l Elements elems', tsrng='typed')
k('N_PAT_ASSIGN', 'AssignPat', 'AssignmentPattern', 'c Left lhs; c Right rhs')
kts('N_PAT_OBJ', 'ObjPat', 'ObjectPattern', 'TSObjectPattern', 'l Properties props', tsrng='typed')
kts('N_PAT_REST', 'RestPat', 'RestElement', 'TSRestElement', 'c Argument arg')
k('N_STMT_IF', 'IfStmt', 'IfStatement', 'c Test test; c Consequent cons; c Alternate alt')
kts('N_EXPR_CALL', 'CallExpr', 'CallExpression', 'TSCallExpression', 'c Callee callee; l Arguments args; v Optional n.optional', tsf='; x typArgsIs(@.TypeParameters, n.ti.typArgs, ctx)')
k('N_STMT_SWITCH', 'SwitchStmt', 'SwitchStatement', 'c Discriminant test; w Cases cases')
k('N_STMT_VAR_DEC', 'VarDecStmt', 'VariableDeclaration', 'v Kind parser.TokenKinds[n.kind].Name; d Declarations decList')
k('N_EXPR_MEMBER', 'MemberExpr', 'MemberExpression', 'c Object obj; c Property prop; v Computed n.compute; v Optional n.optional')
k('N_EXPR_SEQ', 'SeqExpr', 'SequenceExpression', 'l Expressions elems')
k('N_EXPR_UPDATE', 'UpdateExpr', 'UpdateExpression', OP + '; c Argument arg; v Prefix n.prefix')
k('N_EXPR_UNARY', 'UnaryExpr', 'UnaryExpression', OP + '; c Argument arg; v Prefix true', 'n.op != parser.T_AWAIT')
k('N_EXPR_UNARY', 'UnaryExpr', 'UnaryExpression', OP + '; c Argument arg; v Prefix true', 'n.op == parser.T_AWAIT', 'AwaitExpression')
k('N_EXPR_COND', 'CondExpr', 'ConditionalExpression', 'c Test test; c Consequent cons; c Alternate alt')
k('N_STMT_EMPTY', 'EmptyStmt', 'EmptyStatement')
k('N_STMT_DO_WHILE', 'DoWhileStmt', 'DoWhileStatement', 'c Test test; c Body body')
k('N_STMT_WHILE', 'WhileStmt', 'WhileStatement', 'c Test test; c Body body')
k('N_STMT_FOR', 'ForStmt', 'ForStatement', 'c Init init; c Test test; c Update update; c Body body')
k('N_STMT_FOR_IN_OF', 'ForInOfStmt', 'ForInStatement', 'c Left left; c Right right; c Body body', 'n.in')
k('N_STMT_FOR_IN_OF', 'ForInOfStmt', 'ForOfStatement', 'c Left left; c Right right; c Body body; v Await n.await', '!n.in')
k('N_STMT_CONT', 'ContStmt', 'ContinueStatement', 'c Label label')
k('N_STMT_BRK', 'BrkStmt', 'BreakStatement', 'c Label label')
k('N_STMT_LABEL', 'LabelStmt', 'LabeledStatement', 'c Label label; c Body body')
k('N_STMT_THROW', 'ThrowStmt', 'ThrowStatement', 'c Argument arg')
k('N_STMT_TRY', 'TryStmt', 'TryStatement', 'c Block try; c Handler catch; c Finalizer fin')
k('N_CATCH', 'Catch', 'CatchClause', 'c Param param; c Body body')
k('N_STMT_DEBUG', 'DebugStmt', 'DebuggerStatement')
k('N_STMT_WITH', 'WithStmt', 'WithStatement', 'c Object expr; c Body body')
k('N_IMPORT_CALL', 'ImportCall', 'ImportExpression', 'c Source src')
k('N_META_PROP', 'MetaProp', 'MetaProperty', 'c Meta meta; c Property prop')
k('N_CLASS_BODY', 'ClassBody', 'ClassBody', 'l Body elems')
k('N_SUPER', 'Super', 'Super')
k('N_STATIC_BLOCK', 'StaticBlock', 'StaticBlock', 'l Body body')
k('N_EXPR_CHAIN', 'ChainExpr', 'ChainExpression', 'c Expression expr')
k('N_STMT_IMPORT', 'ImportDec', 'ImportDeclaration', 'i Specifiers specs; c Source src; v ImportKind modKind(n.tsTyp)')
k('N_JSX_ID', 'JsxIdent', 'JSXIdentifier', 'v Name n.val')
k('N_JSX_NS', 'JsxNsName', 'JSXNamespacedName', 'v Namespace n.ns.(*parser.JsxIdent).val; v Name n.name.(*parser.JsxIdent).val')
k('N_JSX_MEMBER', 'JsxMember', 'JSXMemberExpression', 'c Object obj; c Property prop')
FRAG = 'n.open.(*parser.JsxOpen).name == nil'
k('N_JSX_ELEM', 'JsxElem', 'JSXFragment', 'l Children children; f OpeningFragment open; f ClosingFragment close', FRAG)
k('N_JSX_ELEM', 'JsxElem', 'JSXElement', 'c OpeningElement open; l Children children; c ClosingElement close', '!(%s)' % FRAG)
k('N_JSX_CLOSE', 'JsxClose', 'JSXClosingElement', 'c Name name')
k('N_JSX_TXT', 'JsxText', 'JSXText', 'v Value n.val; v Raw rngtext(ctx, node)')
k('N_JSX_EXPR_SPAN', 'JsxExprSpan', 'JSXExpressionContainer', 'c Expression expr')
k('N_JSX_ATTR', 'JsxAttr', 'JSXAttribute', 'c Name name; c Value val')
k('N_JSX_ATTR_SPREAD', 'JsxSpreadAttr', 'JSXSpreadAttribute', 'c Argument arg')
k('N_JSX_CHILD_SPREAD', 'JsxSpreadChild', 'JSXSpreadChild', 'c Expression expr')
k('N_JSX_EMPTY', 'JsxEmpty', 'JSXEmptyExpression')
k('N_DECORATOR', 'Decorator', 'Decorator', 'c Expression expr')

k('N_STMT_FN', 'FnDec', 'TSDeclareFunction', 'c Id id; p Params params; v Generator false; v Async n.async; x typParamsIs(@.TypeParameters, n.ti.typParams, ctx); x annotIs(@.ReturnType, n.ti)', 'n.ti != nil && n.body == nil')
k('N_NAME', 'Ident', None, cond='', rng='identIs(r, node, ctx)')
k('N_LIT_NUM', 'NumLit', 'BigIntLiteral', 'v Raw rngtext(ctx, node)', 'isBig(node)', 'Literal')
k('N_LIT_NUM', 'NumLit', 'Literal', 'v Raw rngtext(ctx, node); x hastype(@.Value, type(float64)) && (isInf(numOf(node)) ==> isZero(@.Value.(float64))) && (!isInf(numOf(node)) ==> @.Value.(float64) == numOf(node))', '!isBig(node)')
CLS = 'c Id id; c SuperClass super; c Body body'
TSC = '; x convT(@.TypeParameters, clsTypParams(n.ti)); x convT(@.SuperTypeParameters, clsSuperArgs(n.super)); x implIs(@.Implements, n.ti); x (@.Abstract <==> abstractTi(n.ti))'
for kd, es in (('N_STMT_CLASS', 'ClassDeclaration'), ('N_EXPR_CLASS', 'ClassExpression')):
    dec = '; v Declare n.declare; x decorated(@.Decorators, n.ti)' if kd == 'N_STMT_CLASS' else ''
    r = 'dec' if kd == 'N_STMT_CLASS' else 'std'
    k(kd, 'ClassDec', es, CLS + dec, 'clsTypParams(n.ti) == nil && clsSuperArgs(n.super) == nil && hastype(r, type(*%s))' % es, None, r)
    k(kd, 'ClassDec', 'TS' + es, CLS + TSC + dec, 'hastype(r, type(*TS%s))' % es, es, r)
    k(kd, 'ClassDec', None, rng='(hastype(r, type(*%s)) || hastype(r, type(*TS%s)))' % (es, es), cond='true')
    k(kd, 'ClassDec', None, rng='hastype(r, type(*TS%s))' % es, cond='(clsTypParams(n.ti) != nil || clsSuperArgs(n.super) != nil)')
MEM = 'c Key key; c Value val; v Computed n.computed; v Static n.static; x decorated(@.Decorators, n.ti)'
FTI = 'n.val.(*parser.FnDec).ti'
k('N_METHOD', 'Method', 'MethodDefinition', MEM + '; v Kind kindText(n.kind)', FTI + ' == nil', None, 'dec')
def tif(ti, fs): return '; x @.Accessibility == accText(%s)' % ti + ''.join('; x (@.%s <==> %s)' % (f, {'Optional': 'optionalTi(%s)', 'Definite': 'definiteTi(%s)'}.get(f, '(%%s.clsTyp != nil && %%s.clsTyp.%s)' % f.lower()).replace('%s', ti)) for f in fs)
k('N_METHOD', 'Method', 'TSMethodDefinition', MEM + '; v Kind kindText(n.kind)' + tif(FTI, ['Optional', 'Definite', 'Abstract', 'Override', 'Readonly']), FTI + ' != nil', 'MethodDefinition', 'dec')
k('N_FIELD', 'Field', 'PropertyDefinition', MEM, 'n.ti == nil', None, 'dec')
SIG = 'n.ti != nil && n.val == nil && n.computed && hastype(n.key, type(parser.NodeWithTypInfo)) && tiOf(n.key) != nil && tiOf(n.key).typAnnot != nil'
TIF = ['Optional', 'Abstract', 'Declare', 'Readonly']
k('N_FIELD', 'Field', 'TSPropertyDefinition', MEM + tif('n.ti', TIF + ['Definite', 'Override']) + '; x annotIs(@.TypeAnnotation, n.ti)', 'n.ti != nil && !(%s)' % SIG, 'PropertyDefinition', 'dec')
k('N_FIELD', 'Field', 'TSIndexSignature', 'v Static n.static; x decorated(@.Decorators, n.ti); x len(@.Parameters) == 1 && conv(@.Parameters[0], n.key)' + tif('n.ti', TIF) + '; x annotIs(@.TypeAnnotation, n.ti)', SIG, None, 'dec')
k('N_EXPR_TPL', 'TplExpr', None, cond='n.tag == nil', rng='hastype(r, type(*TemplateLiteral)) && tplIs(r.(*TemplateLiteral), n., ctx)')
TAG = 'c Tag tag; x hastype(@.Quasi, type(*TemplateLiteral)) && tplIs(@.Quasi.(*TemplateLiteral), n., ctx); x @.Start == nlo(n.tag) && @.End == nhi(node) && (nlo(n.tag) <= nhi(node) ==> locAt(@.Loc, nlo(n.tag), nhi(node), ctx))'
TAGTI = 'hastype(n.tag, type(parser.NodeWithTypInfo)) && tiOf(n.tag) != nil'
k('N_EXPR_TPL', 'TplExpr', 'TaggedTemplateExpression', TAG, 'n.tag != nil && !(%s)' % TAGTI, None, 'none')
k('N_EXPR_TPL', 'TplExpr', 'TSTaggedTemplateExpression', TAG + '; x typArgsIs(@.TypeParameters, tiOf(n.tag).typArgs, ctx)', 'n.tag != nil && ' + TAGTI, 'TaggedTemplateExpression', 'none')
k('N_STMT_EXPORT', 'ExportDec', None, cond='n.all', rng='exportAllIs(r, n., ctx)')
DEF = '!emptyRng(n.def.Lo, n.def.Hi)'
k('N_STMT_EXPORT', 'ExportDec', None, cond='!n.all && ' + DEF, rng='exportDefIs(r, n., ctx)')
k('N_STMT_EXPORT', 'ExportDec', None, cond='!n.all && !(%s) && (n.dec == nil || (ntyp(n.dec) != parser.N_TS_NAMESPACE && ntyp(n.dec) != parser.N_TS_IMPORT_REQUIRE))' % DEF, rng='exportNamedIs(r, n., ctx)')
OPEN = 'c Name name; l Attributes attrs; v SelfClosing n.closed'
OTI = 'hastype(n.name, type(parser.NodeWithTypInfo)) && tiOf(n.name) != nil'
k('N_JSX_OPEN', 'JsxOpen', 'JSXOpeningElement', OPEN, '!(%s)' % OTI)
k('N_JSX_OPEN', 'JsxOpen', 'TSXOpeningElement', OPEN + '; x typArgsIs(@.TypeParameters, tiOf(n.name).typArgs, ctx)', OTI, 'JSXOpeningElement')

NJ = len(K)
# ---- TypeScript: ConvertTsTyp
k('N_NAME', 'Ident', None, cond='', rng='identIs(r, node, ctx)')
for kd, es in (('NUM', 'TSNumberKeyword'), ('STR', 'TSStringKeyword'), ('ANY', 'TSAnyKeyword'), ('BOOL', 'TSBooleanKeyword'), ('VOID', 'TSVoidKeyword'), ('INTRINSIC', 'TSIntrinsicKeyword'), ('NEVER', 'TSNeverKeyword'), ('SYM', 'TSSymbolKeyword'), ('UNDEF', 'TSUndefinedKeyword'), ('BIGINT', 'TSBigIntKeyword'), ('NULL', 'TSNullKeyword'), ('UNKNOWN', 'TSUnknownKeyword'), ('OBJ', 'TSObjectKeyword'), ('THIS', 'TSThisType')):
    k('N_TS_' + kd, '', es, '', 'node != nil')
k('N_TS_TYP_ANNOT', 'TsTypAnnot', 'TSTypeAnnotation', 't TypeAnnotation tsTyp')
k('N_TS_REF', 'TsRef', 'TSTypeReference', 'c TypeName name; c TypeParameters args')
k('N_TS_PARAM_INST', 'TsParamsInst', 'TSTypeParameterInstantiation', 'l Params params')
k('N_TS_PARAM_DEC', 'TsParamsDec', 'TSTypeParameterDeclaration', 'l Params params')
k('N_TS_PARAM', 'TsParam', 'TSTypeParameter', 'c Name name; c Constraint cons; c Default val')
k('N_TS_ARR', 'TsArr', 'TSArrayType', 't ElementType arg')
k('N_TS_LIT_OBJ', 'TsObj', 'TSTypeLiteral', 'x hastype(@.Members, type([]Node)) && len(@.Members.([]Node)) == len(n.props) && (forall i int :: {@.Members.([]Node)[i]} (0 <= i && i < len(n.props)) ==> conv(@.Members.([]Node)[i], n.props[i]))')
SIGF = 'p Params params; t TypeParameters typParams; t ReturnType retTyp'
k('N_TS_CALL_SIG', 'TsCallSig', 'TSCallSignatureDeclaration', SIGF)
PRM = 'n.val != nil && ntyp(n.val) == parser.N_TS_CALL_SIG'
PRF = 'c Key key; x (@.Computed <==> !emptyRng(n.compute.Lo, n.compute.Hi)); x (@.Optional <==> !emptyRng(n.ques.Lo, n.ques.Hi)); v Kind kindText(n.kind)'
k('N_TS_PROP', 'TsProp', 'TSMethodSignature', PRF + '; c Value val', PRM)
k('N_TS_PROP', 'TsProp', 'TSPropertySignature', PRF + '; t TypeAnnotation val; x (@.Readonly <==> tsReadonly(n.))', '!(%s)' % PRM)
k('N_TS_TYP_PREDICATE', 'TsTypPredicate', 'TSTypePredicate', 'c ParameterName name; t TypeAnnotation des; v Asserts n.assert')
FND = 'n.inner.(*parser.FnDec)'
k('N_TS_DEC_FN', 'TsDec', 'TSDeclareFunction', 'x conv(@.Id, %s.id); x len(@.Params) == len(%s.params) && (forall i int :: {@.Params[i]} (0 <= i && i < len(%s.params)) ==> convP(@.Params[i], %s.params[i])); x conv(@.Body, %s.body); v Async %s.async; v Generator false; x typParamsIs(@.TypeParameters, %s.ti.typParams, ctx); x annotIs(@.ReturnType, %s.ti); x locAt(@.Loc, @.Start, @.End, ctx)'.replace('%s', FND), 'hastype(n.inner, type(*parser.FnDec))', None, 'none')
k('N_TS_TYP_ASSERT', 'TsTypAssert', 'TSTypeAssertion', 'c Expression arg; t TypeAnnotation des')
k('N_TS_NO_NULL', 'TsNoNull', 'TSNonNullExpression', 'c Expression arg')
k('N_TS_UNION_TYP', 'TsUnionTyp', 'TSUnionType', 'l Types elems')
k('N_TS_INTERSECT_TYP', 'TsIntersectTyp', 'TSIntersectionType', 'l Types elems')
CD = 'n.inner.(*parser.ClassDec)'
k('N_TS_DEC_CLASS', 'TsDec', 'TSClassDeclaration', 'x conv(@.Id, %s.id); x conv(@.SuperClass, %s.super); x conv(@.Body, %s.body); v Declare true; x implIs(@.Implements, %s.ti); x (@.Abstract <==> abstractTi(%s.ti)); x convT(@.TypeParameters, clsTypParams(%s.ti)); x convT(@.SuperTypeParameters, clsSuperArgs(%s.super)); x @.Start == nlo(node) && @.End == nhi(n.inner) && locIs(@.Loc, node, ctx)'.replace('%s', CD), 'hastype(n.inner, type(*parser.ClassDec)) && %s != nil' % CD, 'ClassDeclaration', 'none')
k('N_TS_IDX_SIG', 'TsIdxSig', 'TSIndexSignature', 'x len(@.Parameters) == 1 && conv(@.Parameters[0], n.key); t TypeAnnotation val')
k('N_TS_NS_NAME', 'TsNsName', 'TSQualifiedName', 't Left lhs; t Right rhs')
k('N_TS_DEC_VAR_DEC', 'TsDec', 'TSVariableDeclaration', 'v Kind parser.TokenKinds[%s.kind].Name; v Declare true; x len(@.Declarations) == len(%s.decList) && (forall i int :: {@.Declarations[i]} (0 <= i && i < len(%s.decList)) ==> decIs(@.Declarations[i], %s.decList[i], ctx))'.replace('%s', 'n.inner.(*parser.VarDecStmt)'), 'hastype(n.inner, type(*parser.VarDecStmt))', 'VariableDeclaration')
ITF = 'x conv(@.Id, %s.name); x convT(@.TypeParameters, %s.params); x len(@.Extends) == len(%s.supers) && (forall i int :: {@.Extends[i]} (0 <= i && i < len(%s.supers)) ==> extIs(@.Extends[i], %s.supers[i], ctx)); x conv(@.Body, %s.body); '
k('N_TS_DEC_INTERFACE', 'TsDec', 'TSInterfaceDeclaration', ITF.replace('%s', 'n.inner.(*parser.TsInterface)') + 'v Declare true', 'hastype(n.inner, type(*parser.TsInterface))')
k('N_TS_INTERFACE', 'TsInterface', 'TSInterfaceDeclaration', ITF.replace('%s', 'n') + 'v Declare false')
k('N_TS_INTERFACE_BODY', 'TsInterfaceBody', 'TSInterfaceBody', 'l Body body')
k('N_TS_ENUM', 'TsEnum', 'TSEnumDeclaration', 'c Id name; v Const n.cons; l Members items; v Declare false')
k('N_TS_DEC_ENUM', 'TsDec', 'TSEnumDeclaration', 'x conv(@.Id, %s.name); v Const %s.cons; x len(@.Members) == len(%s.items) && (forall i int :: {@.Members[i]} (0 <= i && i < len(%s.items)) ==> conv(@.Members[i], %s.items[i])); v Declare true'.replace('%s', 'n.inner.(*parser.TsEnum)'), 'hastype(n.inner, type(*parser.TsEnum))')
k('N_TS_ENUM_MEMBER', 'TsEnumMember', 'TSEnumMember', 'c Id key; c Initializer val')
k('N_TS_TYP_DEC', 'TsTypDec', 'TSTypeAliasDeclaration', 'c Id name; x convT(@.TypeParameters, n.ti.typParams); x annotIs(@.TypeAnnotation, n.ti); v Declare false')
k('N_TS_DEC_TYP_DEC', 'TsDec', 'TSTypeAliasDeclaration', 'x conv(@.Id, %s.name); x convT(@.TypeParameters, %s.ti.typParams); x annotIs(@.TypeAnnotation, %s.ti); v Declare true'.replace('%s', 'n.inner.(*parser.TsTypDec)'), 'hastype(n.inner, type(*parser.TsTypDec))')
for kd, g in (('N_TS_DEC_MODULE', 'false'), ('N_TS_DEC_GLOBAL', 'true')):
    k(kd, 'TsDec', 'TSModuleDeclaration', 'c Id name; c Body inner; v Declare true; v Global ' + g)
k('N_TS_DEC_NS', 'TsDec', 'TSModuleDeclaration', 'x conv(@.Id, %s.name); x conv(@.Body, %s.body); v Declare true; v Global false'.replace('%s', 'n.inner.(*parser.TsNS)'), 'hastype(n.inner, type(*parser.TsNS))')
k('N_TS_NAMESPACE', 'TsNS', 'TSModuleDeclaration', 'c Id name; c Body body; v Declare false; v Global false')
k('N_TS_EXPORT_ASSIGN', 'TsExportAssign', 'TSExportAssignment', 'c Expression expr')
k('N_TS_LIT', 'TsLit', 'TSLiteralType', 'c Literal lit')
k('N_TS_IMPORT_ALIAS', 'TsImportAlias', 'TSImportEqualsDeclaration', 'c Id name; c ModuleReference val; v IsExport n.export')
EMR = '@.ModuleReference.(*TSExternalModuleReference)'
k('N_TS_IMPORT_REQUIRE', 'TsImportRequire', 'TSImportEqualsDeclaration', 'c Id name; v IsExport false; x hastype(@.ModuleReference, type(*TSExternalModuleReference)) && %s != nil && %s.Type == "TSExternalModuleReference" && spanIs(%s.Start, %s.End, n.expr) && locIs(%s.Loc, n.expr, ctx) && conv(%s.Expression, n.expr.(*parser.CallExpr).args[0])'.replace('%s', EMR), 'hastype(n.expr, type(*parser.CallExpr)) && n.expr.(*parser.CallExpr) != nil')
k('N_TS_NEW_SIG', 'TsNewSig', 'TSConstructSignatureDeclaration', SIGF + '; v Abstract n.abstract')
k('N_TS_NEW', 'TsNewSig', 'TSConstructorType', SIGF + '; v Abstract n.abstract')
k('N_TS_FN_TYP', 'TsFnTyp', 'TSFunctionType', SIGF)
k('N_TS_IMPORT_TYP', 'TsImportType', 'TSImportType', 'c Argument arg; t Qualifier qualifier; t TypeParameters typArgs')
k('N_TS_TYP_QUERY', 'TsTypQuery', 'TSTypeQuery', 'c ExprName arg')
k('N_TS_COND', 'TsCondType', 'TSConditionalType', 'c CheckType check; c ExtendsType ext; c TrueType trueTyp; c FalseType falseTyp')
k('N_TS_TYP_INFER', 'TsTypInfer', 'TSInferType', 't TypeParameter arg')
k('N_TS_PAREN', 'TsParen', 'TSParenthesizedType', 't TypeAnnotation arg')
k('N_TS_IDX_ACCESS', 'TsIdxAccess', 'TSIndexedAccessType', 't ObjectType obj; t IndexType idx')
k('N_TS_MAPPED', 'TsMapped', 'TSMappedType', 'x fmtIs(@.Readonly, n.readonly); x fmtIs(@.Optional, n.optional); t TypeParameter key; t NameType name; t TypeAnnotation val')
k('N_TS_TYP_OP', 'TsTypOp', 'TSTypeOperator', 's Operator n.op; t TypeAnnotation arg')
k('N_TS_TUPLE', 'TsTuple', 'TSTupleType', 'l ElementTypes args')
k('N_TS_TUPLE_NAMED_MEMBER', 'TsTupleNamedMember', 'TSNamedTupleMember', 'v Optional n.opt; c Label label; t ElementType val')
k('N_TS_REST', 'TsRest', 'TSRestType', 't TypeAnnotation arg')
k('N_TS_OPT', 'TsOpt', 'TSOptionalType', 't TypeAnnotation arg')

def head(x, typ, rng):
    o = ['%s != nil' % x, '%s.Type == "%s"' % (x, typ)]
    if rng == 'std':
        o += ['spanIs(%s.Start, %s.End, node)' % (x, x), 'locIs(%s.Loc, node, ctx)' % x]
    if rng == 'dec':
        o += ['%s.Start == decLo(node, n.ti) && %s.End == nhi(node) && (decLo(node, n.ti) <= nhi(node) ==> locAt(%s.Loc, decLo(node, n.ti), nhi(node), ctx))' % (x, x, x)]
    if rng == 'typed':
        o += ['(nhi(node) > 0 ==> (%s.Start == typedLo(node, n.ti) && %s.End == typedHi(node, n.ti))) && locAt(%s.Loc, %s.Start, %s.End, ctx)' % (x, x, x, x, x)]
    return o
def field(x, f):
    if f.startswith('x '): return f[2:].replace('@', x)
    kk, name, e = f.split(' ', 2)
    t = '%s.%s' % (x, name)
    if kk == 't': return 'convT(%s, n.%s)' % (t, e)
    if kk == 'c': return 'conv(%s, n.%s)' % (t, e)
    if kk in 'lp':
        return 'len(%s) == len(n.%s) && (forall i int :: {%s[i]} (0 <= i && i < len(n.%s)) ==> conv%s(%s[i], n.%s[i]))' % (t, e, t, e, {'l': '', 'p': 'P'}[kk], t, e)
    if kk == 'w':
        return 'len(%s) == len(n.%s) && (forall i int :: {%s[i]} (0 <= i && i < len(n.%s)) ==> caseIs(%s[i], n.%s[i], ctx))' % (t, e, t, e, t, e)
    if kk == 'd':
        return 'len(%s) == len(n.%s) && (forall i int :: {%s[i]} (0 <= i && i < len(n.%s)) ==> decIs(%s[i], n.%s[i], ctx))' % (t, e, t, e, t, e)
    if kk == 'i':
        return 'len(%s) == len(n.%s) && (forall i int :: {%s[i]} (0 <= i && i < len(n.%s)) ==> impIs(%s[i], n.%s[i], ctx))' % (t, e, t, e, t, e)
    if kk == 'b': return 'hastype(%s, type(bool)) && %s.(bool) == %s' % (t, t, e)
    if kk == 's': return 'hastype(%s, type(string)) && %s.(string) == %s' % (t, t, e)
    if kk == 'f':
        t += '.(*JSX%s)' % name
        return 'hastype(%s.%s, type(*JSX%s)) && ' % (x, name, name) + '%s != nil && %s.Type == "JSX%s" && spanIs(%s.Start, %s.End, n.%s) && locIs(%s.Loc, n.%s, ctx)' % (t, t, name, t, t, e, t, e)
    if '.' in name: return '%s.%s != nil && %s == %s' % (x, name.split('.')[0], t, e)
    return '%s == %s' % (t, e)
out = open(ROOT + '/tools/estree_head.spec').read().split('//CASES//')
cases, tcases = [], []
kinds = {}
for idx, (kind, ast, es, typ, fs, cond, rng) in enumerate(K):
    if ast: kinds.setdefault(kind, ast)
    c = 'ntyp(node) == parser.%s' % kind
    if cond: c += ' && ' + cond.replace('n.', 'node.(*parser.%s).' % ast) if False else ' && ' + cond
    if es is None:
        s = '(%s) ==> (%s)' % (c, rng)
        s = s.replace('tsReadonly(n.)', 'tsReadonly(node.(*parser.TsProp))').replace('n., ctx)', 'node.(*parser.%s), ctx)' % ast)
    else:
        body = head('r.(*%s)' % es, typ, rng) + [field('r.(*%s)' % es, f) for f in fs]
        s = '(%s) ==> (hastype(r, type(*%s)) && %s)' % (c, es, ' && '.join(body))
        s = s.replace('tsReadonly(n.)', 'tsReadonly(node.(*parser.TsProp))').replace('n., ctx)', 'node.(*parser.%s), ctx)' % ast)
    s = re.sub(r'(?<![\w.])n\.', 'node.(*parser.%s).' % ast, s)
    (cases if idx < NJ else tcases).append('  // %s\n  proves %s' % (typ, s))
ax = []
for kd, ast in sorted(list(kinds.items()) + [('N_NAME', 'Ident'), ('N_LIT_NUM', 'NumLit'), ('N_STMT_CLASS', 'ClassDec'), ('N_EXPR_CLASS', 'ClassDec'), ('N_METHOD', 'Method'), ('N_FIELD', 'Field'), ('N_EXPR_TPL', 'TplExpr'), ('N_STMT_EXPORT', 'ExportDec'), ('N_JSX_OPEN', 'JsxOpen'), ('N_EXPR_PAREN', 'ParenExpr')]):
    ax.append('axiom kind kind_%s = forall n parser.Node :: {ntyp(n)} ntyp(n) == parser.%s ==> (hastype(n, type(*parser.%s)) && n.(*parser.%s) != nil)' % (kd, kd, ast, ast))
ranges = []
asts = sorted(set(kinds.values()) | {'Ident', 'NumLit', 'ClassDec', 'Method', 'Field', 'TplExpr', 'ExportDec', 'ExportSpec', 'ImportSpec', 'JsxOpen', 'ParenExpr', 'SwitchCase', 'VarDec', 'Prog', 'TsTypAnnot'})
for ast in asts:
    ranges.append('iface parser.%s.Range(n) (r)\n  pure\n  ensures r.Lo == n.rng.Lo && r.Hi == n.rng.Hi && r.Lo == nlo(n) && r.Hi == nhi(n)' % ast)
ranges.append('iface parser.TsDec.Type(n) (r)\n  pure\n  ensures r == n.typ && r == ntyp(n)')
open(ROOT + '/contracts/estreeast.spec', 'w').write('package parser\n\n// written by tools/genestree.py\n' + ''.join('func %s.Range(n) (r)\n  property C10\n  requires n != nil\n  ensures r == n.rng\n' % a for a in asts))
out[0] = out[0].replace('//TSCASES//', '\n'.join(tcases))
text = out[0].replace('//KINDS//', '\n'.join(ax)).replace('//RANGES//', '\n'.join(ranges)) + '\n'.join(cases) + out[1]
open(ROOT + '/contracts/estree.spec', 'w').write(text)
