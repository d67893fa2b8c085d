package walk

// written by tools/genwalk.py from the AST definitions, reviewed by hand

func VisitArrLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ArrLit)) && node.(*parser.ArrLit) != nil
  requires ntyp(node) == parser.N_LIT_ARR
  modifies *walking
  let n = node.(*parser.ArrLit)
  let t0 = called(tr, ctx, bev(parser.N_LIT_ARR), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_LIT_ARR), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_LIT_ARR), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.elems), off(n.elems), len(n.elems), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_LIT_ARR), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitArrLitBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_LIT_ARR), node, key, ctx)
  ensures kept(ctx)

func VisitArrLitAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_LIT_ARR), node, key, ctx)
  ensures kept(ctx)

func VisitArrPat(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ArrPat)) && node.(*parser.ArrPat) != nil
  requires ntyp(node) == parser.N_PAT_ARRAY
  modifies *walking
  let n = node.(*parser.ArrPat)
  let t0 = called(tr, ctx, bev(parser.N_PAT_ARRAY), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_PAT_ARRAY), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_PAT_ARRAY), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.elems), off(n.elems), len(n.elems), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_PAT_ARRAY), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitArrPatBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_PAT_ARRAY), node, key, ctx)
  ensures kept(ctx)

func VisitArrPatAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_PAT_ARRAY), node, key, ctx)
  ensures kept(ctx)

func VisitArrowFn(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ArrowFn)) && node.(*parser.ArrowFn) != nil
  requires ntyp(node) == parser.N_EXPR_ARROW
  modifies *walking
  let n = node.(*parser.ArrowFn)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_ARROW), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.params), off(n.params), len(n.params), "Params", ctx)
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.body, "Body"))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_ARROW), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_ARROW), node, inner)
  let s1 = svisits(s0, arr(n.params), off(n.params), len(n.params), inner, ctx)
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.body, inner))
  ensures known ==> sc == scalled(s2, ctx, aev(parser.N_EXPR_ARROW), node, inner)
  ensures kept(ctx)

func VisitArrowFnBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_ARROW), node, key, ctx)
  ensures kept(ctx)

func VisitArrowFnAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_ARROW), node, key, ctx)
  ensures kept(ctx)

func VisitAssignExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.AssignExpr)) && node.(*parser.AssignExpr) != nil
  requires ntyp(node) == parser.N_EXPR_ASSIGN
  modifies *walking
  let n = node.(*parser.AssignExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_ASSIGN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.lhs, "Lhs"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.rhs, "Rhs"))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_ASSIGN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_ASSIGN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.lhs, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.rhs, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPR_ASSIGN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitAssignExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_ASSIGN), node, key, ctx)
  ensures kept(ctx)

func VisitAssignExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_ASSIGN), node, key, ctx)
  ensures kept(ctx)

func VisitAssignPat(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.AssignPat)) && node.(*parser.AssignPat) != nil
  requires ntyp(node) == parser.N_PAT_ASSIGN
  modifies *walking
  let n = node.(*parser.AssignPat)
  let t0 = called(tr, ctx, bev(parser.N_PAT_ASSIGN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.lhs, "Lhs"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.rhs, "Rhs"))
  ensures tr == called(t2, ctx, aev(parser.N_PAT_ASSIGN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_PAT_ASSIGN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.lhs, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.rhs, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_PAT_ASSIGN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitAssignPatBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_PAT_ASSIGN), node, key, ctx)
  ensures kept(ctx)

func VisitAssignPatAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_PAT_ASSIGN), node, key, ctx)
  ensures kept(ctx)

func VisitBinExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.BinExpr)) && node.(*parser.BinExpr) != nil
  requires ntyp(node) == parser.N_EXPR_BIN
  modifies *walking
  let n = node.(*parser.BinExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_BIN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.lhs, "Lhs"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.rhs, "Rhs"))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_BIN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_BIN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.lhs, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.rhs, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPR_BIN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitBinExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_BIN), node, key, ctx)
  ensures kept(ctx)

func VisitBinExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_BIN), node, key, ctx)
  ensures kept(ctx)

func VisitBlockStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.BlockStmt)) && node.(*parser.BlockStmt) != nil
  requires ntyp(node) == parser.N_STMT_BLOCK
  modifies *walking
  let n = node.(*parser.BlockStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_BLOCK), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.body), off(n.body), len(n.body), "Body", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_STMT_BLOCK), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_BLOCK), node, inner)
  let s1 = svisits(s0, arr(n.body), off(n.body), len(n.body), inner, ctx)
  ensures known ==> sc == scalled(s1, ctx, aev(parser.N_STMT_BLOCK), node, inner)
  ensures kept(ctx)

func VisitBlockStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_BLOCK), node, key, ctx)
  ensures kept(ctx)

func VisitBlockStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_BLOCK), node, key, ctx)
  ensures kept(ctx)

func VisitBoolLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_LIT_BOOL), node, key, ctx), aev(parser.N_LIT_BOOL), node, key, ctx)
  ensures kept(ctx)

func VisitBrkStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.BrkStmt)) && node.(*parser.BrkStmt) != nil
  requires ntyp(node) == parser.N_STMT_BRK
  modifies *walking
  let n = node.(*parser.BrkStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_BRK), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.label, "Label"))
  ensures tr == called(t1, ctx, aev(parser.N_STMT_BRK), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_BRK), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.label, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_STMT_BRK), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitBrkStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_BRK), node, key, ctx)
  ensures kept(ctx)

func VisitBrkStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_BRK), node, key, ctx)
  ensures kept(ctx)

func VisitCallExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.CallExpr)) && node.(*parser.CallExpr) != nil
  requires ntyp(node) == parser.N_EXPR_CALL
  modifies *walking
  let n = node.(*parser.CallExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_CALL), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.callee, "Callee"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.args), off(n.args), len(n.args), "Args", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_CALL), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_CALL), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.callee, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.args), off(n.args), len(n.args), sid(ctx.WalkCtx), ctx))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPR_CALL), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitCallExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_CALL), node, key, ctx)
  ensures kept(ctx)

func VisitCallExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_CALL), node, key, ctx)
  ensures kept(ctx)

func VisitCatch(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Catch)) && node.(*parser.Catch) != nil
  requires ntyp(node) == parser.N_CATCH
  modifies *walking
  let n = node.(*parser.Catch)
  let t0 = called(tr, ctx, bev(parser.N_CATCH), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.param, "Param"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.body, "Body"))
  ensures tr == called(t2, ctx, aev(parser.N_CATCH), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_CATCH), node, inner)
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.param, inner))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.body, inner))
  ensures known ==> sc == scalled(s2, ctx, aev(parser.N_CATCH), node, inner)
  ensures kept(ctx)

func VisitCatchBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_CATCH), node, key, ctx)
  ensures kept(ctx)

func VisitCatchAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_CATCH), node, key, ctx)
  ensures kept(ctx)

func VisitChainExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ChainExpr)) && node.(*parser.ChainExpr) != nil
  requires ntyp(node) == parser.N_EXPR_CHAIN
  modifies *walking
  let n = node.(*parser.ChainExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_CHAIN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_EXPR_CHAIN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_CHAIN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_EXPR_CHAIN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitChainExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_CHAIN), node, key, ctx)
  ensures kept(ctx)

func VisitChainExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_CHAIN), node, key, ctx)
  ensures kept(ctx)

func VisitClassBody(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ClassBody)) && node.(*parser.ClassBody) != nil
  requires ntyp(node) == parser.N_CLASS_BODY
  modifies *walking
  let n = node.(*parser.ClassBody)
  let t0 = called(tr, ctx, bev(parser.N_CLASS_BODY), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_CLASS_BODY), node, key, ctx.Parent)
  requires ctx.Parent != nil && ctx.Parent.Node != nil
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[ctx.Parent.Node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || ctx.Parent.Node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_CLASS_BODY), node, inner)
  let s1 = svisits(s0, arr(n.elems), off(n.elems), len(n.elems), inner, ctx)
  ensures known ==> sc == scalled(s1, ctx, aev(parser.N_CLASS_BODY), node, inner)
  ensures kept(ctx)

func VisitClassBodyBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_CLASS_BODY), node, key, ctx)
  ensures kept(ctx)

func VisitClassBodyAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_CLASS_BODY), node, key, ctx)
  ensures kept(ctx)

func VisitClassDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ClassDec)) && node.(*parser.ClassDec) != nil
  requires ntyp(node) == parser.N_STMT_CLASS || ntyp(node) == parser.N_EXPR_CLASS
  requires node.(*parser.ClassDec).typ == ntyp(node)
  modifies *walking
  let n = node.(*parser.ClassDec)
  let t0 = called(tr, ctx, bev(ntyp(node)), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.id, "Id"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.super, "Super"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.body, "Body"))
  ensures tr == called(t3, ctx, aev(ntyp(node)), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(ntyp(node)), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.id, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.super, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.body, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(ntyp(node)), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitClassDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_STMT_CLASS || ntyp(node) == parser.N_EXPR_CLASS
  modifies *walking
  ensures tr == listened(old(tr), bev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitClassDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_STMT_CLASS || ntyp(node) == parser.N_EXPR_CLASS
  modifies *walking
  ensures tr == listened(old(tr), aev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitCondExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.CondExpr)) && node.(*parser.CondExpr) != nil
  requires ntyp(node) == parser.N_EXPR_COND
  modifies *walking
  let n = node.(*parser.CondExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_COND), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.test, "Test"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.cons, "Cons"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.alt, "Alt"))
  ensures tr == called(t3, ctx, aev(parser.N_EXPR_COND), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_COND), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.test, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.cons, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.alt, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_EXPR_COND), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitCondExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_COND), node, key, ctx)
  ensures kept(ctx)

func VisitCondExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_COND), node, key, ctx)
  ensures kept(ctx)

func VisitContStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ContStmt)) && node.(*parser.ContStmt) != nil
  requires ntyp(node) == parser.N_STMT_CONT
  modifies *walking
  let n = node.(*parser.ContStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_CONT), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.label, "Label"))
  ensures tr == called(t1, ctx, aev(parser.N_STMT_CONT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_CONT), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.label, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_STMT_CONT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitContStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_CONT), node, key, ctx)
  ensures kept(ctx)

func VisitContStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_CONT), node, key, ctx)
  ensures kept(ctx)

func VisitDebugStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_STMT_DEBUG), node, key, ctx), aev(parser.N_STMT_DEBUG), node, key, ctx)
  ensures kept(ctx)

func VisitDecorator(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Decorator)) && node.(*parser.Decorator) != nil
  requires ntyp(node) == parser.N_DECORATOR
  modifies *walking
  let n = node.(*parser.Decorator)
  let t0 = called(tr, ctx, bev(parser.N_DECORATOR), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_DECORATOR), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_DECORATOR), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_DECORATOR), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitDecoratorBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_DECORATOR), node, key, ctx)
  ensures kept(ctx)

func VisitDecoratorAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_DECORATOR), node, key, ctx)
  ensures kept(ctx)

func VisitDoWhileStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.DoWhileStmt)) && node.(*parser.DoWhileStmt) != nil
  requires ntyp(node) == parser.N_STMT_DO_WHILE
  modifies *walking
  let n = node.(*parser.DoWhileStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_DO_WHILE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.body, "Body"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.test, "Test"))
  ensures tr == called(t2, ctx, aev(parser.N_STMT_DO_WHILE), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_DO_WHILE), node, inner)
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.body, inner))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.test, inner))
  ensures known ==> sc == scalled(s2, ctx, aev(parser.N_STMT_DO_WHILE), node, inner)
  ensures kept(ctx)

func VisitDoWhileStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_DO_WHILE), node, key, ctx)
  ensures kept(ctx)

func VisitDoWhileStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_DO_WHILE), node, key, ctx)
  ensures kept(ctx)

func VisitExportDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ExportDec)) && node.(*parser.ExportDec) != nil
  requires ntyp(node) == parser.N_STMT_EXPORT
  modifies *walking
  let n = node.(*parser.ExportDec)
  let t0 = called(tr, ctx, bev(parser.N_STMT_EXPORT), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.dec, "Dec"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.specs), off(n.specs), len(n.specs), "Specs", ctx))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.src, "Src"))
  ensures tr == called(t3, ctx, aev(parser.N_STMT_EXPORT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_EXPORT), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.dec, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.specs), off(n.specs), len(n.specs), sid(ctx.WalkCtx), ctx))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.src, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_STMT_EXPORT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitExportDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_EXPORT), node, key, ctx)
  ensures kept(ctx)

func VisitExportDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_EXPORT), node, key, ctx)
  ensures kept(ctx)

func VisitExportSpec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ExportSpec)) && node.(*parser.ExportSpec) != nil
  requires ntyp(node) == parser.N_EXPORT_SPEC
  modifies *walking
  let n = node.(*parser.ExportSpec)
  let t0 = called(tr, ctx, bev(parser.N_EXPORT_SPEC), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.local, "Local"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.id, "Id"))
  ensures tr == called(t2, ctx, aev(parser.N_EXPORT_SPEC), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPORT_SPEC), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.local, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.id, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPORT_SPEC), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitExportSpecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPORT_SPEC), node, key, ctx)
  ensures kept(ctx)

func VisitExportSpecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPORT_SPEC), node, key, ctx)
  ensures kept(ctx)

func VisitExprStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ExprStmt)) && node.(*parser.ExprStmt) != nil
  requires ntyp(node) == parser.N_STMT_EXPR
  modifies *walking
  let n = node.(*parser.ExprStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_EXPR), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_STMT_EXPR), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_EXPR), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_STMT_EXPR), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitExprStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_EXPR), node, key, ctx)
  ensures kept(ctx)

func VisitExprStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_EXPR), node, key, ctx)
  ensures kept(ctx)

func VisitField(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Field)) && node.(*parser.Field) != nil
  requires ntyp(node) == parser.N_FIELD
  modifies *walking
  let n = node.(*parser.Field)
  let t0 = called(tr, ctx, bev(parser.N_FIELD), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.key, "Key"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_FIELD), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_FIELD), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.key, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_FIELD), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitFieldBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_FIELD), node, key, ctx)
  ensures kept(ctx)

func VisitFieldAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_FIELD), node, key, ctx)
  ensures kept(ctx)

func VisitFnDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.FnDec)) && node.(*parser.FnDec) != nil
  requires ntyp(node) == parser.N_STMT_FN || ntyp(node) == parser.N_EXPR_FN
  requires node.(*parser.FnDec).typ == ntyp(node)
  modifies *walking
  let n = node.(*parser.FnDec)
  let t0 = called(tr, ctx, bev(ntyp(node)), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.id, "Id"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.params), off(n.params), len(n.params), "Params", ctx))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.body, "Body"))
  ensures tr == called(t3, ctx, aev(ntyp(node)), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(ntyp(node)), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.id, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.params), off(n.params), len(n.params), inner, ctx))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.body, inner))
  ensures known ==> sc == scalled(s3, ctx, aev(ntyp(node)), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitFnDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_STMT_FN || ntyp(node) == parser.N_EXPR_FN
  modifies *walking
  ensures tr == listened(old(tr), bev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitFnDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_STMT_FN || ntyp(node) == parser.N_EXPR_FN
  modifies *walking
  ensures tr == listened(old(tr), aev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitForInOfStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ForInOfStmt)) && node.(*parser.ForInOfStmt) != nil
  requires ntyp(node) == parser.N_STMT_FOR_IN_OF
  modifies *walking
  let n = node.(*parser.ForInOfStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_FOR_IN_OF), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.left, "Left"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.right, "Right"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.body, "Body"))
  ensures tr == called(t3, ctx, aev(parser.N_STMT_FOR_IN_OF), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_FOR_IN_OF), node, inner)
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.left, inner))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.right, inner))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.body, inner))
  ensures known ==> sc == scalled(s3, ctx, aev(parser.N_STMT_FOR_IN_OF), node, inner)
  ensures kept(ctx)

func VisitForInOfStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_FOR_IN_OF), node, key, ctx)
  ensures kept(ctx)

func VisitForInOfStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_FOR_IN_OF), node, key, ctx)
  ensures kept(ctx)

func VisitForStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ForStmt)) && node.(*parser.ForStmt) != nil
  requires ntyp(node) == parser.N_STMT_FOR
  modifies *walking
  let n = node.(*parser.ForStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_FOR), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.init, "Init"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.test, "Test"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.update, "Update"))
  let t4 = ite(w_stop(t3), t3, visit(t3, ctx, n.body, "Body"))
  ensures tr == called(t4, ctx, aev(parser.N_STMT_FOR), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_FOR), node, inner)
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.init, inner))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.test, inner))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.update, inner))
  let s4 = ite(w_stop(t3), s3, svisit(s3, ctx, n.body, inner))
  ensures known ==> sc == scalled(s4, ctx, aev(parser.N_STMT_FOR), node, inner)
  ensures kept(ctx)

func VisitForStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_FOR), node, key, ctx)
  ensures kept(ctx)

func VisitForStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_FOR), node, key, ctx)
  ensures kept(ctx)

func VisitIdent(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_NAME), node, key, ctx), aev(parser.N_NAME), node, key, ctx)
  ensures kept(ctx)

func VisitIfStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.IfStmt)) && node.(*parser.IfStmt) != nil
  requires ntyp(node) == parser.N_STMT_IF
  modifies *walking
  let n = node.(*parser.IfStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_IF), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.test, "Test"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.cons, "Cons"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.alt, "Alt"))
  ensures tr == called(t3, ctx, aev(parser.N_STMT_IF), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_IF), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.test, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.cons, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.alt, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_STMT_IF), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitIfStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_IF), node, key, ctx)
  ensures kept(ctx)

func VisitIfStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_IF), node, key, ctx)
  ensures kept(ctx)

func VisitImportCall(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ImportCall)) && node.(*parser.ImportCall) != nil
  requires ntyp(node) == parser.N_IMPORT_CALL
  modifies *walking
  let n = node.(*parser.ImportCall)
  let t0 = called(tr, ctx, bev(parser.N_IMPORT_CALL), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.src, "Src"))
  ensures tr == called(t1, ctx, aev(parser.N_IMPORT_CALL), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_IMPORT_CALL), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.src, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_IMPORT_CALL), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitImportCallBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_IMPORT_CALL), node, key, ctx)
  ensures kept(ctx)

func VisitImportCallAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_IMPORT_CALL), node, key, ctx)
  ensures kept(ctx)

func VisitImportDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ImportDec)) && node.(*parser.ImportDec) != nil
  requires ntyp(node) == parser.N_STMT_IMPORT
  modifies *walking
  let n = node.(*parser.ImportDec)
  let t0 = called(tr, ctx, bev(parser.N_STMT_IMPORT), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.specs), off(n.specs), len(n.specs), "Specs", ctx)
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.src, "Src"))
  ensures tr == called(t2, ctx, aev(parser.N_STMT_IMPORT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_IMPORT), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.specs), off(n.specs), len(n.specs), sid(ctx.WalkCtx), ctx)
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.src, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_STMT_IMPORT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitImportDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_IMPORT), node, key, ctx)
  ensures kept(ctx)

func VisitImportDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_IMPORT), node, key, ctx)
  ensures kept(ctx)

func VisitImportSpec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ImportSpec)) && node.(*parser.ImportSpec) != nil
  requires ntyp(node) == parser.N_IMPORT_SPEC
  modifies *walking
  let n = node.(*parser.ImportSpec)
  let t0 = called(tr, ctx, bev(parser.N_IMPORT_SPEC), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.local, "Local"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.id, "Id"))
  ensures tr == called(t2, ctx, aev(parser.N_IMPORT_SPEC), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_IMPORT_SPEC), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.local, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.id, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_IMPORT_SPEC), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitImportSpecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_IMPORT_SPEC), node, key, ctx)
  ensures kept(ctx)

func VisitImportSpecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_IMPORT_SPEC), node, key, ctx)
  ensures kept(ctx)

func VisitJsxAttr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxAttr)) && node.(*parser.JsxAttr) != nil
  requires ntyp(node) == parser.N_JSX_ATTR
  modifies *walking
  let n = node.(*parser.JsxAttr)
  let t0 = called(tr, ctx, bev(parser.N_JSX_ATTR), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_JSX_ATTR), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_ATTR), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_JSX_ATTR), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxAttrBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_ATTR), node, key, ctx)
  ensures kept(ctx)

func VisitJsxAttrAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_ATTR), node, key, ctx)
  ensures kept(ctx)

func VisitJsxClose(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxClose)) && node.(*parser.JsxClose) != nil
  requires ntyp(node) == parser.N_JSX_CLOSE
  modifies *walking
  let n = node.(*parser.JsxClose)
  let t0 = called(tr, ctx, bev(parser.N_JSX_CLOSE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  ensures tr == called(t1, ctx, aev(parser.N_JSX_CLOSE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_CLOSE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_JSX_CLOSE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxCloseBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_CLOSE), node, key, ctx)
  ensures kept(ctx)

func VisitJsxCloseAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_CLOSE), node, key, ctx)
  ensures kept(ctx)

func VisitJsxElem(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxElem)) && node.(*parser.JsxElem) != nil
  requires ntyp(node) == parser.N_JSX_ELEM
  modifies *walking
  let n = node.(*parser.JsxElem)
  let t0 = called(tr, ctx, bev(parser.N_JSX_ELEM), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.open, "Open"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.children), off(n.children), len(n.children), "Children", ctx))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.close, "Close"))
  ensures tr == called(t3, ctx, aev(parser.N_JSX_ELEM), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_ELEM), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.open, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.children), off(n.children), len(n.children), sid(ctx.WalkCtx), ctx))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.close, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_JSX_ELEM), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxElemBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_ELEM), node, key, ctx)
  ensures kept(ctx)

func VisitJsxElemAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_ELEM), node, key, ctx)
  ensures kept(ctx)

func VisitJsxEmpty(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_JSX_EMPTY), node, key, ctx), aev(parser.N_JSX_EMPTY), node, key, ctx)
  ensures kept(ctx)

func VisitJsxExprSpan(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxExprSpan)) && node.(*parser.JsxExprSpan) != nil
  requires ntyp(node) == parser.N_JSX_EXPR_SPAN
  modifies *walking
  let n = node.(*parser.JsxExprSpan)
  let t0 = called(tr, ctx, bev(parser.N_JSX_EXPR_SPAN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_JSX_EXPR_SPAN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_EXPR_SPAN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_JSX_EXPR_SPAN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxExprSpanBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_EXPR_SPAN), node, key, ctx)
  ensures kept(ctx)

func VisitJsxExprSpanAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_EXPR_SPAN), node, key, ctx)
  ensures kept(ctx)

func VisitJsxIdent(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_JSX_ID), node, key, ctx), aev(parser.N_JSX_ID), node, key, ctx)
  ensures kept(ctx)

func VisitJsxMember(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxMember)) && node.(*parser.JsxMember) != nil
  requires ntyp(node) == parser.N_JSX_MEMBER
  modifies *walking
  let n = node.(*parser.JsxMember)
  let t0 = called(tr, ctx, bev(parser.N_JSX_MEMBER), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.obj, "Obj"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.prop, "Prop"))
  ensures tr == called(t2, ctx, aev(parser.N_JSX_MEMBER), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_MEMBER), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.obj, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.prop, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_JSX_MEMBER), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxMemberBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitJsxMemberAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitJsxNsName(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_JSX_NS), node, key, ctx), aev(parser.N_JSX_NS), node, key, ctx)
  ensures kept(ctx)

func VisitJsxOpen(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxOpen)) && node.(*parser.JsxOpen) != nil
  requires ntyp(node) == parser.N_JSX_OPEN
  modifies *walking
  let n = node.(*parser.JsxOpen)
  let t0 = called(tr, ctx, bev(parser.N_JSX_OPEN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.attrs), off(n.attrs), len(n.attrs), "Attrs", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_JSX_OPEN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_OPEN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.attrs), off(n.attrs), len(n.attrs), sid(ctx.WalkCtx), ctx))
  ensures sc == scalled(s2, ctx, aev(parser.N_JSX_OPEN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxOpenBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_OPEN), node, key, ctx)
  ensures kept(ctx)

func VisitJsxOpenAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_OPEN), node, key, ctx)
  ensures kept(ctx)

func VisitJsxSpreadAttr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxSpreadAttr)) && node.(*parser.JsxSpreadAttr) != nil
  requires ntyp(node) == parser.N_JSX_ATTR_SPREAD
  modifies *walking
  let n = node.(*parser.JsxSpreadAttr)
  let t0 = called(tr, ctx, bev(parser.N_JSX_ATTR_SPREAD), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_JSX_ATTR_SPREAD), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_ATTR_SPREAD), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_JSX_ATTR_SPREAD), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxSpreadAttrBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_ATTR_SPREAD), node, key, ctx)
  ensures kept(ctx)

func VisitJsxSpreadAttrAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_ATTR_SPREAD), node, key, ctx)
  ensures kept(ctx)

func VisitJsxSpreadChild(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.JsxSpreadChild)) && node.(*parser.JsxSpreadChild) != nil
  requires ntyp(node) == parser.N_JSX_CHILD_SPREAD
  modifies *walking
  let n = node.(*parser.JsxSpreadChild)
  let t0 = called(tr, ctx, bev(parser.N_JSX_CHILD_SPREAD), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_JSX_CHILD_SPREAD), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_JSX_CHILD_SPREAD), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_JSX_CHILD_SPREAD), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitJsxSpreadChildBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_JSX_CHILD_SPREAD), node, key, ctx)
  ensures kept(ctx)

func VisitJsxSpreadChildAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_JSX_CHILD_SPREAD), node, key, ctx)
  ensures kept(ctx)

func VisitJsxText(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_JSX_TXT), node, key, ctx), aev(parser.N_JSX_TXT), node, key, ctx)
  ensures kept(ctx)

func VisitLabelStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.LabelStmt)) && node.(*parser.LabelStmt) != nil
  requires ntyp(node) == parser.N_STMT_LABEL
  modifies *walking
  let n = node.(*parser.LabelStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_LABEL), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.label, "Label"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.body, "Body"))
  ensures tr == called(t2, ctx, aev(parser.N_STMT_LABEL), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_LABEL), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.label, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.body, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_STMT_LABEL), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitLabelStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_LABEL), node, key, ctx)
  ensures kept(ctx)

func VisitLabelStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_LABEL), node, key, ctx)
  ensures kept(ctx)

func VisitMemberExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.MemberExpr)) && node.(*parser.MemberExpr) != nil
  requires ntyp(node) == parser.N_EXPR_MEMBER
  modifies *walking
  let n = node.(*parser.MemberExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_MEMBER), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.obj, "Obj"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.prop, "Prop"))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_MEMBER), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_MEMBER), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.obj, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.prop, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPR_MEMBER), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitMemberExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitMemberExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitMetaProp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.MetaProp)) && node.(*parser.MetaProp) != nil
  requires ntyp(node) == parser.N_META_PROP
  modifies *walking
  let n = node.(*parser.MetaProp)
  let t0 = called(tr, ctx, bev(parser.N_META_PROP), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.meta, "Meta"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.prop, "Prop"))
  ensures tr == called(t2, ctx, aev(parser.N_META_PROP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_META_PROP), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.meta, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.prop, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_META_PROP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitMetaPropBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_META_PROP), node, key, ctx)
  ensures kept(ctx)

func VisitMetaPropAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_META_PROP), node, key, ctx)
  ensures kept(ctx)

func VisitMethod(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Method)) && node.(*parser.Method) != nil
  requires ntyp(node) == parser.N_METHOD
  modifies *walking
  let n = node.(*parser.Method)
  let t0 = called(tr, ctx, bev(parser.N_METHOD), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.key, "Key"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_METHOD), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_METHOD), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.key, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_METHOD), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitMethodBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_METHOD), node, key, ctx)
  ensures kept(ctx)

func VisitMethodAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_METHOD), node, key, ctx)
  ensures kept(ctx)

func VisitNewExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.NewExpr)) && node.(*parser.NewExpr) != nil
  requires ntyp(node) == parser.N_EXPR_NEW
  modifies *walking
  let n = node.(*parser.NewExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_NEW), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.callee, "Callee"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.args), off(n.args), len(n.args), "Args", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_NEW), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_NEW), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.callee, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.args), off(n.args), len(n.args), sid(ctx.WalkCtx), ctx))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPR_NEW), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitNewExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_NEW), node, key, ctx)
  ensures kept(ctx)

func VisitNewExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_NEW), node, key, ctx)
  ensures kept(ctx)

func VisitNullLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_LIT_NULL), node, key, ctx), aev(parser.N_LIT_NULL), node, key, ctx)
  ensures kept(ctx)

func VisitNumLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_LIT_NUM), node, key, ctx), aev(parser.N_LIT_NUM), node, key, ctx)
  ensures kept(ctx)

func VisitObjLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ObjLit)) && node.(*parser.ObjLit) != nil
  requires ntyp(node) == parser.N_LIT_OBJ
  modifies *walking
  let n = node.(*parser.ObjLit)
  let t0 = called(tr, ctx, bev(parser.N_LIT_OBJ), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.props), off(n.props), len(n.props), "Props", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_LIT_OBJ), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_LIT_OBJ), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.props), off(n.props), len(n.props), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_LIT_OBJ), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitObjLitBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_LIT_OBJ), node, key, ctx)
  ensures kept(ctx)

func VisitObjLitAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_LIT_OBJ), node, key, ctx)
  ensures kept(ctx)

func VisitObjPat(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ObjPat)) && node.(*parser.ObjPat) != nil
  requires ntyp(node) == parser.N_PAT_OBJ
  modifies *walking
  let n = node.(*parser.ObjPat)
  let t0 = called(tr, ctx, bev(parser.N_PAT_OBJ), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.props), off(n.props), len(n.props), "Props", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_PAT_OBJ), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_PAT_OBJ), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.props), off(n.props), len(n.props), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_PAT_OBJ), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitObjPatBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_PAT_OBJ), node, key, ctx)
  ensures kept(ctx)

func VisitObjPatAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_PAT_OBJ), node, key, ctx)
  ensures kept(ctx)

func VisitParenExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ParenExpr)) && node.(*parser.ParenExpr) != nil
  requires ntyp(node) == parser.N_EXPR_PAREN
  modifies *walking
  let n = node.(*parser.ParenExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_PAREN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, parenInner(n), "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_EXPR_PAREN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_PAREN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, parenInner(n), sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_EXPR_PAREN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitParenExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_PAREN), node, key, ctx)
  ensures kept(ctx)

func VisitParenExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_PAREN), node, key, ctx)
  ensures kept(ctx)

func VisitProg(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Prog)) && node.(*parser.Prog) != nil
  requires ntyp(node) == parser.N_PROG
  modifies *walking
  let n = node.(*parser.Prog)
  let t0 = called(tr, ctx, bev(parser.N_PROG), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.stmts), off(n.stmts), len(n.stmts), "Body", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_PROG), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_PROG), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.stmts), off(n.stmts), len(n.stmts), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_PROG), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitProgBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_PROG), node, key, ctx)
  ensures kept(ctx)

func VisitProgAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_PROG), node, key, ctx)
  ensures kept(ctx)

func VisitProp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Prop)) && node.(*parser.Prop) != nil
  requires ntyp(node) == parser.N_PROP
  modifies *walking
  let n = node.(*parser.Prop)
  let t0 = called(tr, ctx, bev(parser.N_PROP), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.key, "Key"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.value, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_PROP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_PROP), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.key, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.value, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_PROP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitPropBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_PROP), node, key, ctx)
  ensures kept(ctx)

func VisitPropAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_PROP), node, key, ctx)
  ensures kept(ctx)

func VisitRegLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_LIT_REGEXP), node, key, ctx), aev(parser.N_LIT_REGEXP), node, key, ctx)
  ensures kept(ctx)

func VisitRestPat(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.RestPat)) && node.(*parser.RestPat) != nil
  requires ntyp(node) == parser.N_PAT_REST
  modifies *walking
  let n = node.(*parser.RestPat)
  let t0 = called(tr, ctx, bev(parser.N_PAT_REST), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_PAT_REST), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_PAT_REST), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_PAT_REST), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitRestPatBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_PAT_REST), node, key, ctx)
  ensures kept(ctx)

func VisitRestPatAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_PAT_REST), node, key, ctx)
  ensures kept(ctx)

func VisitRetStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.RetStmt)) && node.(*parser.RetStmt) != nil
  requires ntyp(node) == parser.N_STMT_RET
  modifies *walking
  let n = node.(*parser.RetStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_RET), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_STMT_RET), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_RET), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_STMT_RET), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitRetStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_RET), node, key, ctx)
  ensures kept(ctx)

func VisitRetStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_RET), node, key, ctx)
  ensures kept(ctx)

func VisitSeqExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.SeqExpr)) && node.(*parser.SeqExpr) != nil
  requires ntyp(node) == parser.N_EXPR_SEQ
  modifies *walking
  let n = node.(*parser.SeqExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_SEQ), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_EXPR_SEQ), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_SEQ), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.elems), off(n.elems), len(n.elems), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_EXPR_SEQ), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitSeqExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_SEQ), node, key, ctx)
  ensures kept(ctx)

func VisitSeqExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_SEQ), node, key, ctx)
  ensures kept(ctx)

func VisitSpread(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.Spread)) && node.(*parser.Spread) != nil
  requires ntyp(node) == parser.N_SPREAD
  modifies *walking
  let n = node.(*parser.Spread)
  let t0 = called(tr, ctx, bev(parser.N_SPREAD), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_SPREAD), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_SPREAD), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_SPREAD), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitSpreadBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_SPREAD), node, key, ctx)
  ensures kept(ctx)

func VisitSpreadAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_SPREAD), node, key, ctx)
  ensures kept(ctx)

func VisitStaticBlock(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.StaticBlock)) && node.(*parser.StaticBlock) != nil
  requires ntyp(node) == parser.N_STATIC_BLOCK
  modifies *walking
  let n = node.(*parser.StaticBlock)
  let t0 = called(tr, ctx, bev(parser.N_STATIC_BLOCK), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.body), off(n.body), len(n.body), "Body", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_STATIC_BLOCK), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STATIC_BLOCK), node, inner)
  let s1 = svisits(s0, arr(n.body), off(n.body), len(n.body), inner, ctx)
  ensures known ==> sc == scalled(s1, ctx, aev(parser.N_STATIC_BLOCK), node, inner)
  ensures kept(ctx)

func VisitStaticBlockBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STATIC_BLOCK), node, key, ctx)
  ensures kept(ctx)

func VisitStaticBlockAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STATIC_BLOCK), node, key, ctx)
  ensures kept(ctx)

func VisitStrLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_LIT_STR), node, key, ctx), aev(parser.N_LIT_STR), node, key, ctx)
  ensures kept(ctx)

func VisitSuper(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_SUPER), node, key, ctx), aev(parser.N_SUPER), node, key, ctx)
  ensures kept(ctx)

func VisitSwitchCase(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.SwitchCase)) && node.(*parser.SwitchCase) != nil
  requires ntyp(node) == parser.N_SWITCH_CASE
  modifies *walking
  let n = node.(*parser.SwitchCase)
  let t0 = called(tr, ctx, bev(parser.N_SWITCH_CASE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.test, "Test"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.cons), off(n.cons), len(n.cons), "Cons", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_SWITCH_CASE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_SWITCH_CASE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.test, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.cons), off(n.cons), len(n.cons), sid(ctx.WalkCtx), ctx))
  ensures sc == scalled(s2, ctx, aev(parser.N_SWITCH_CASE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitSwitchCaseBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_SWITCH_CASE), node, key, ctx)
  ensures kept(ctx)

func VisitSwitchCaseAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_SWITCH_CASE), node, key, ctx)
  ensures kept(ctx)

func VisitSwitchStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.SwitchStmt)) && node.(*parser.SwitchStmt) != nil
  requires ntyp(node) == parser.N_STMT_SWITCH
  modifies *walking
  let n = node.(*parser.SwitchStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_SWITCH), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.test, "Test"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.cases), off(n.cases), len(n.cases), "Cases", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_STMT_SWITCH), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_SWITCH), node, inner)
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.test, inner))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.cases), off(n.cases), len(n.cases), inner, ctx))
  ensures known ==> sc == scalled(s2, ctx, aev(parser.N_STMT_SWITCH), node, inner)
  ensures kept(ctx)

func VisitSwitchStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_SWITCH), node, key, ctx)
  ensures kept(ctx)

func VisitSwitchStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_SWITCH), node, key, ctx)
  ensures kept(ctx)

func VisitThisExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_EXPR_THIS), node, key, ctx), aev(parser.N_EXPR_THIS), node, key, ctx)
  ensures kept(ctx)

func VisitThrowStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.ThrowStmt)) && node.(*parser.ThrowStmt) != nil
  requires ntyp(node) == parser.N_STMT_THROW
  modifies *walking
  let n = node.(*parser.ThrowStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_THROW), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_STMT_THROW), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_THROW), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_STMT_THROW), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitThrowStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_THROW), node, key, ctx)
  ensures kept(ctx)

func VisitThrowStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_THROW), node, key, ctx)
  ensures kept(ctx)

func VisitTplExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TplExpr)) && node.(*parser.TplExpr) != nil
  requires ntyp(node) == parser.N_EXPR_TPL
  modifies *walking
  let n = node.(*parser.TplExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_TPL), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.tag, "Tag"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_EXPR_TPL), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_TPL), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.tag, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.elems), off(n.elems), len(n.elems), sid(ctx.WalkCtx), ctx))
  ensures sc == scalled(s2, ctx, aev(parser.N_EXPR_TPL), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTplExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_TPL), node, key, ctx)
  ensures kept(ctx)

func VisitTplExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_TPL), node, key, ctx)
  ensures kept(ctx)

func VisitTryStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TryStmt)) && node.(*parser.TryStmt) != nil
  requires ntyp(node) == parser.N_STMT_TRY
  modifies *walking
  let n = node.(*parser.TryStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_TRY), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.try, "Try"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.catch, "Catch"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.fin, "Fin"))
  ensures tr == called(t3, ctx, aev(parser.N_STMT_TRY), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_TRY), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.try, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.catch, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.fin, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_STMT_TRY), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTryStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_TRY), node, key, ctx)
  ensures kept(ctx)

func VisitTryStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_TRY), node, key, ctx)
  ensures kept(ctx)

func VisitTsArr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsArr)) && node.(*parser.TsArr) != nil
  requires ntyp(node) == parser.N_TS_ARR
  modifies *walking
  let n = node.(*parser.TsArr)
  let t0 = called(tr, ctx, bev(parser.N_TS_ARR), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_ARR), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_ARR), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_ARR), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsArrBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_ARR), node, key, ctx)
  ensures kept(ctx)

func VisitTsArrAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_ARR), node, key, ctx)
  ensures kept(ctx)

func VisitTsCallSig(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsCallSig)) && node.(*parser.TsCallSig) != nil
  requires ntyp(node) == parser.N_TS_CALL_SIG
  modifies *walking
  let n = node.(*parser.TsCallSig)
  let t0 = called(tr, ctx, bev(parser.N_TS_CALL_SIG), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.typParams, "TypParams"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.params), off(n.params), len(n.params), "Params", ctx))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.retTyp, "RetTyp"))
  ensures tr == called(t3, ctx, aev(parser.N_TS_CALL_SIG), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_CALL_SIG), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.typParams, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.params), off(n.params), len(n.params), sid(ctx.WalkCtx), ctx))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.retTyp, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_TS_CALL_SIG), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsCallSigBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_CALL_SIG), node, key, ctx)
  ensures kept(ctx)

func VisitTsCallSigAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_CALL_SIG), node, key, ctx)
  ensures kept(ctx)

func VisitTsCondType(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsCondType)) && node.(*parser.TsCondType) != nil
  requires ntyp(node) == parser.N_TS_COND
  modifies *walking
  let n = node.(*parser.TsCondType)
  let t0 = called(tr, ctx, bev(parser.N_TS_COND), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.check, "CheckTyp"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.ext, "ExtTyp"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.trueTyp, "TrueTyp"))
  let t4 = ite(w_stop(t3), t3, visit(t3, ctx, n.falseTyp, "FalseTyp"))
  ensures tr == called(t4, ctx, aev(parser.N_TS_COND), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_COND), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.check, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.ext, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.trueTyp, sid(ctx.WalkCtx)))
  let s4 = ite(w_stop(t3), s3, svisit(s3, ctx, n.falseTyp, sid(ctx.WalkCtx)))
  ensures sc == scalled(s4, ctx, aev(parser.N_TS_COND), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsCondTypeBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_COND), node, key, ctx)
  ensures kept(ctx)

func VisitTsCondTypeAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_COND), node, key, ctx)
  ensures kept(ctx)

func VisitTsDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsDec)) && node.(*parser.TsDec) != nil
  requires ntyp(node) == parser.N_TS_DEC_VAR_DEC || ntyp(node) == parser.N_TS_DEC_FN || ntyp(node) == parser.N_TS_DEC_ENUM || ntyp(node) == parser.N_TS_DEC_CLASS || ntyp(node) == parser.N_TS_DEC_NS || ntyp(node) == parser.N_TS_DEC_MODULE || ntyp(node) == parser.N_TS_DEC_GLOBAL || ntyp(node) == parser.N_TS_DEC_INTERFACE || ntyp(node) == parser.N_TS_DEC_TYP_DEC
  requires node.(*parser.TsDec).typ == ntyp(node)
  modifies *walking
  let n = node.(*parser.TsDec)
  let t0 = called(tr, ctx, bev(ntyp(node)), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.inner, "Inner"))
  ensures tr == called(t2, ctx, aev(ntyp(node)), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(ntyp(node)), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.inner, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(ntyp(node)), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_TS_DEC_VAR_DEC || ntyp(node) == parser.N_TS_DEC_FN || ntyp(node) == parser.N_TS_DEC_ENUM || ntyp(node) == parser.N_TS_DEC_CLASS || ntyp(node) == parser.N_TS_DEC_NS || ntyp(node) == parser.N_TS_DEC_MODULE || ntyp(node) == parser.N_TS_DEC_GLOBAL || ntyp(node) == parser.N_TS_DEC_INTERFACE || ntyp(node) == parser.N_TS_DEC_TYP_DEC
  modifies *walking
  ensures tr == listened(old(tr), bev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitTsDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_TS_DEC_VAR_DEC || ntyp(node) == parser.N_TS_DEC_FN || ntyp(node) == parser.N_TS_DEC_ENUM || ntyp(node) == parser.N_TS_DEC_CLASS || ntyp(node) == parser.N_TS_DEC_NS || ntyp(node) == parser.N_TS_DEC_MODULE || ntyp(node) == parser.N_TS_DEC_GLOBAL || ntyp(node) == parser.N_TS_DEC_INTERFACE || ntyp(node) == parser.N_TS_DEC_TYP_DEC
  modifies *walking
  ensures tr == listened(old(tr), aev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitTsEnum(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsEnum)) && node.(*parser.TsEnum) != nil
  requires ntyp(node) == parser.N_TS_ENUM
  modifies *walking
  let n = node.(*parser.TsEnum)
  let t0 = called(tr, ctx, bev(parser.N_TS_ENUM), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Id"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.items), off(n.items), len(n.items), "Members", ctx))
  ensures tr == called(t2, ctx, aev(parser.N_TS_ENUM), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_ENUM), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.items), off(n.items), len(n.items), sid(ctx.WalkCtx), ctx))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_ENUM), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsEnumBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_ENUM), node, key, ctx)
  ensures kept(ctx)

func VisitTsEnumAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_ENUM), node, key, ctx)
  ensures kept(ctx)

func VisitTsEnumMember(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsEnumMember)) && node.(*parser.TsEnumMember) != nil
  requires ntyp(node) == parser.N_TS_ENUM_MEMBER
  modifies *walking
  let n = node.(*parser.TsEnumMember)
  let t0 = called(tr, ctx, bev(parser.N_TS_ENUM_MEMBER), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.key, "Key"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_ENUM_MEMBER), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_ENUM_MEMBER), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.key, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_ENUM_MEMBER), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsEnumMemberBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_ENUM_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitTsEnumMemberAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_ENUM_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitTsExportAssign(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsExportAssign)) && node.(*parser.TsExportAssign) != nil
  requires ntyp(node) == parser.N_TS_EXPORT_ASSIGN
  modifies *walking
  let n = node.(*parser.TsExportAssign)
  let t0 = called(tr, ctx, bev(parser.N_TS_EXPORT_ASSIGN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_EXPORT_ASSIGN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_EXPORT_ASSIGN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_EXPORT_ASSIGN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsExportAssignBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_EXPORT_ASSIGN), node, key, ctx)
  ensures kept(ctx)

func VisitTsExportAssignAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_EXPORT_ASSIGN), node, key, ctx)
  ensures kept(ctx)

func VisitTsFnTyp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsFnTyp)) && node.(*parser.TsFnTyp) != nil
  requires ntyp(node) == parser.N_TS_FN_TYP
  modifies *walking
  let n = node.(*parser.TsFnTyp)
  let t0 = called(tr, ctx, bev(parser.N_TS_FN_TYP), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.typParams, "TypParams"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.params), off(n.params), len(n.params), "Params", ctx))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.retTyp, "RetTyp"))
  ensures tr == called(t3, ctx, aev(parser.N_TS_FN_TYP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_FN_TYP), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.typParams, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.params), off(n.params), len(n.params), sid(ctx.WalkCtx), ctx))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.retTyp, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_TS_FN_TYP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsFnTypBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_FN_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsFnTypAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_FN_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsIdxAccess(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsIdxAccess)) && node.(*parser.TsIdxAccess) != nil
  requires ntyp(node) == parser.N_TS_IDX_ACCESS
  modifies *walking
  let n = node.(*parser.TsIdxAccess)
  let t0 = called(tr, ctx, bev(parser.N_TS_IDX_ACCESS), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.obj, "Obj"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.idx, "Idx"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_IDX_ACCESS), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_IDX_ACCESS), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.obj, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.idx, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_IDX_ACCESS), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsIdxAccessBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_IDX_ACCESS), node, key, ctx)
  ensures kept(ctx)

func VisitTsIdxAccessAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_IDX_ACCESS), node, key, ctx)
  ensures kept(ctx)

// VisitTsIdxSig: getters ['KeyType'] compute their result, covered by the oracle only

func VisitTsImportAlias(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsImportAlias)) && node.(*parser.TsImportAlias) != nil
  requires ntyp(node) == parser.N_TS_IMPORT_ALIAS
  modifies *walking
  let n = node.(*parser.TsImportAlias)
  let t0 = called(tr, ctx, bev(parser.N_TS_IMPORT_ALIAS), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_IMPORT_ALIAS), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_IMPORT_ALIAS), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_IMPORT_ALIAS), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsImportAliasBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_IMPORT_ALIAS), node, key, ctx)
  ensures kept(ctx)

func VisitTsImportAliasAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_IMPORT_ALIAS), node, key, ctx)
  ensures kept(ctx)

func VisitTsImportRequire(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsImportRequire)) && node.(*parser.TsImportRequire) != nil
  requires ntyp(node) == parser.N_TS_IMPORT_REQUIRE
  modifies *walking
  let n = node.(*parser.TsImportRequire)
  let t0 = called(tr, ctx, bev(parser.N_TS_IMPORT_REQUIRE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.expr, "Expr"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_IMPORT_REQUIRE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_IMPORT_REQUIRE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.expr, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_IMPORT_REQUIRE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsImportRequireBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_IMPORT_REQUIRE), node, key, ctx)
  ensures kept(ctx)

func VisitTsImportRequireAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_IMPORT_REQUIRE), node, key, ctx)
  ensures kept(ctx)

func VisitTsImportType(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsImportType)) && node.(*parser.TsImportType) != nil
  requires ntyp(node) == parser.N_TS_IMPORT_TYP
  modifies *walking
  let n = node.(*parser.TsImportType)
  let t0 = called(tr, ctx, bev(parser.N_TS_IMPORT_TYP), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.qualifier, "Qualifier"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.typArgs, "TypArg"))
  ensures tr == called(t3, ctx, aev(parser.N_TS_IMPORT_TYP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_IMPORT_TYP), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.qualifier, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.typArgs, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_TS_IMPORT_TYP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsImportTypeBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_IMPORT_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsImportTypeAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_IMPORT_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsInterface(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsInterface)) && node.(*parser.TsInterface) != nil
  requires ntyp(node) == parser.N_TS_INTERFACE
  modifies *walking
  let n = node.(*parser.TsInterface)
  let t0 = called(tr, ctx, bev(parser.N_TS_INTERFACE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Id"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.params, "TypParams"))
  let t3 = ite(w_stop(t2), t2, visits(t2, arr(n.supers), off(n.supers), len(n.supers), "Supers", ctx))
  let t4 = ite(w_stop(t3), t3, visit(t3, ctx, n.body, "Body"))
  ensures tr == called(t4, ctx, aev(parser.N_TS_INTERFACE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_INTERFACE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.params, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisits(s2, arr(n.supers), off(n.supers), len(n.supers), sid(ctx.WalkCtx), ctx))
  let s4 = ite(w_stop(t3), s3, svisit(s3, ctx, n.body, sid(ctx.WalkCtx)))
  ensures sc == scalled(s4, ctx, aev(parser.N_TS_INTERFACE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsInterfaceBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_INTERFACE), node, key, ctx)
  ensures kept(ctx)

func VisitTsInterfaceAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_INTERFACE), node, key, ctx)
  ensures kept(ctx)

func VisitTsInterfaceBody(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsInterfaceBody)) && node.(*parser.TsInterfaceBody) != nil
  requires ntyp(node) == parser.N_TS_INTERFACE_BODY
  modifies *walking
  let n = node.(*parser.TsInterfaceBody)
  let t0 = called(tr, ctx, bev(parser.N_TS_INTERFACE_BODY), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.body), off(n.body), len(n.body), "Body", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_INTERFACE_BODY), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_INTERFACE_BODY), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.body), off(n.body), len(n.body), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_INTERFACE_BODY), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsInterfaceBodyBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_INTERFACE_BODY), node, key, ctx)
  ensures kept(ctx)

func VisitTsInterfaceBodyAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_INTERFACE_BODY), node, key, ctx)
  ensures kept(ctx)

func VisitTsIntersectTyp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsIntersectTyp)) && node.(*parser.TsIntersectTyp) != nil
  requires ntyp(node) == parser.N_TS_INTERSECT_TYP
  modifies *walking
  let n = node.(*parser.TsIntersectTyp)
  let t0 = called(tr, ctx, bev(parser.N_TS_INTERSECT_TYP), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_INTERSECT_TYP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_INTERSECT_TYP), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.elems), off(n.elems), len(n.elems), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_INTERSECT_TYP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsIntersectTypBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_INTERSECT_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsIntersectTypAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_INTERSECT_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsLit(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsLit)) && node.(*parser.TsLit) != nil
  requires ntyp(node) == parser.N_TS_LIT
  modifies *walking
  let n = node.(*parser.TsLit)
  let t0 = called(tr, ctx, bev(parser.N_TS_LIT), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.lit, "Lit"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_LIT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_LIT), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.lit, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_LIT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsLitBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_LIT), node, key, ctx)
  ensures kept(ctx)

func VisitTsLitAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_LIT), node, key, ctx)
  ensures kept(ctx)

func VisitTsMapped(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsMapped)) && node.(*parser.TsMapped) != nil
  requires ntyp(node) == parser.N_TS_MAPPED
  modifies *walking
  let n = node.(*parser.TsMapped)
  let t0 = called(tr, ctx, bev(parser.N_TS_MAPPED), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.key, "Key"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.val, "Val"))
  ensures tr == called(t3, ctx, aev(parser.N_TS_MAPPED), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_MAPPED), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.key, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_TS_MAPPED), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsMappedBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_MAPPED), node, key, ctx)
  ensures kept(ctx)

func VisitTsMappedAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_MAPPED), node, key, ctx)
  ensures kept(ctx)

func VisitTsNS(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsNS)) && node.(*parser.TsNS) != nil
  requires ntyp(node) == parser.N_TS_NAMESPACE
  modifies *walking
  let n = node.(*parser.TsNS)
  let t0 = called(tr, ctx, bev(parser.N_TS_NAMESPACE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Id"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.body, "Body"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_NAMESPACE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_NAMESPACE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.body, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_NAMESPACE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsNSBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_NAMESPACE), node, key, ctx)
  ensures kept(ctx)

func VisitTsNSAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_NAMESPACE), node, key, ctx)
  ensures kept(ctx)

func VisitTsNewSig(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsNewSig)) && node.(*parser.TsNewSig) != nil
  requires ntyp(node) == parser.N_TS_NEW_SIG || ntyp(node) == parser.N_TS_NEW
  requires node.(*parser.TsNewSig).typ == ntyp(node)
  modifies *walking
  let n = node.(*parser.TsNewSig)
  let t0 = called(tr, ctx, bev(ntyp(node)), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.typParams, "TypParams"))
  let t2 = ite(w_stop(t1), t1, visits(t1, arr(n.params), off(n.params), len(n.params), "Params", ctx))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.retTyp, "RetTyp"))
  ensures tr == called(t3, ctx, aev(ntyp(node)), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(ntyp(node)), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.typParams, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisits(s1, arr(n.params), off(n.params), len(n.params), sid(ctx.WalkCtx), ctx))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.retTyp, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(ntyp(node)), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsNewSigBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_TS_NEW_SIG || ntyp(node) == parser.N_TS_NEW
  modifies *walking
  ensures tr == listened(old(tr), bev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitTsNewSigAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_TS_NEW_SIG || ntyp(node) == parser.N_TS_NEW
  modifies *walking
  ensures tr == listened(old(tr), aev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitTsNoNull(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsNoNull)) && node.(*parser.TsNoNull) != nil
  requires ntyp(node) == parser.N_TS_NO_NULL
  modifies *walking
  let n = node.(*parser.TsNoNull)
  let t0 = called(tr, ctx, bev(parser.N_TS_NO_NULL), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_NO_NULL), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_NO_NULL), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_NO_NULL), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsNoNullBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_NO_NULL), node, key, ctx)
  ensures kept(ctx)

func VisitTsNoNullAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_NO_NULL), node, key, ctx)
  ensures kept(ctx)

func VisitTsNsName(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsNsName)) && node.(*parser.TsNsName) != nil
  requires ntyp(node) == parser.N_TS_NS_NAME
  modifies *walking
  let n = node.(*parser.TsNsName)
  let t0 = called(tr, ctx, bev(parser.N_TS_NS_NAME), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.lhs, "Lhs"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.rhs, "Rhs"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_NS_NAME), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_NS_NAME), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.lhs, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.rhs, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_NS_NAME), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsNsNameBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_NS_NAME), node, key, ctx)
  ensures kept(ctx)

func VisitTsNsNameAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_NS_NAME), node, key, ctx)
  ensures kept(ctx)

func VisitTsObj(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsObj)) && node.(*parser.TsObj) != nil
  requires ntyp(node) == parser.N_TS_LIT_OBJ
  modifies *walking
  let n = node.(*parser.TsObj)
  let t0 = called(tr, ctx, bev(parser.N_TS_LIT_OBJ), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.props), off(n.props), len(n.props), "Props", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_LIT_OBJ), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_LIT_OBJ), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.props), off(n.props), len(n.props), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_LIT_OBJ), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsObjBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_LIT_OBJ), node, key, ctx)
  ensures kept(ctx)

func VisitTsObjAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_LIT_OBJ), node, key, ctx)
  ensures kept(ctx)

func VisitTsOpt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsOpt)) && node.(*parser.TsOpt) != nil
  requires ntyp(node) == parser.N_TS_OPT
  modifies *walking
  let n = node.(*parser.TsOpt)
  let t0 = called(tr, ctx, bev(parser.N_TS_OPT), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_OPT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_OPT), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_OPT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsOptBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_OPT), node, key, ctx)
  ensures kept(ctx)

func VisitTsOptAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_OPT), node, key, ctx)
  ensures kept(ctx)

func VisitTsParam(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsParam)) && node.(*parser.TsParam) != nil
  requires ntyp(node) == parser.N_TS_PARAM
  modifies *walking
  let n = node.(*parser.TsParam)
  let t0 = called(tr, ctx, bev(parser.N_TS_PARAM), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.cons, "Cons"))
  let t3 = ite(w_stop(t2), t2, visit(t2, ctx, n.val, "Default"))
  ensures tr == called(t3, ctx, aev(parser.N_TS_PARAM), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_PARAM), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.cons, sid(ctx.WalkCtx)))
  let s3 = ite(w_stop(t2), s2, svisit(s2, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s3, ctx, aev(parser.N_TS_PARAM), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsParamBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_PARAM), node, key, ctx)
  ensures kept(ctx)

func VisitTsParamAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_PARAM), node, key, ctx)
  ensures kept(ctx)

func VisitTsParamsDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsParamsDec)) && node.(*parser.TsParamsDec) != nil
  requires ntyp(node) == parser.N_TS_PARAM_DEC
  modifies *walking
  let n = node.(*parser.TsParamsDec)
  let t0 = called(tr, ctx, bev(parser.N_TS_PARAM_DEC), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.params), off(n.params), len(n.params), "Params", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_PARAM_DEC), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_PARAM_DEC), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.params), off(n.params), len(n.params), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_PARAM_DEC), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsParamsDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_PARAM_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitTsParamsDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_PARAM_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitTsParamsInst(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsParamsInst)) && node.(*parser.TsParamsInst) != nil
  requires ntyp(node) == parser.N_TS_PARAM_INST
  modifies *walking
  let n = node.(*parser.TsParamsInst)
  let t0 = called(tr, ctx, bev(parser.N_TS_PARAM_INST), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.params), off(n.params), len(n.params), "Params", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_PARAM_INST), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_PARAM_INST), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.params), off(n.params), len(n.params), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_PARAM_INST), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsParamsInstBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_PARAM_INST), node, key, ctx)
  ensures kept(ctx)

func VisitTsParamsInstAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_PARAM_INST), node, key, ctx)
  ensures kept(ctx)

func VisitTsParen(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsParen)) && node.(*parser.TsParen) != nil
  requires ntyp(node) == parser.N_TS_PAREN
  modifies *walking
  let n = node.(*parser.TsParen)
  let t0 = called(tr, ctx, bev(parser.N_TS_PAREN), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_PAREN), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_PAREN), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_PAREN), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsParenBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_PAREN), node, key, ctx)
  ensures kept(ctx)

func VisitTsParenAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_PAREN), node, key, ctx)
  ensures kept(ctx)

func VisitTsPredef(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  requires ntyp(node) == parser.N_TS_ANY || ntyp(node) == parser.N_TS_NUM || ntyp(node) == parser.N_TS_BOOL || ntyp(node) == parser.N_TS_STR || ntyp(node) == parser.N_TS_SYM || ntyp(node) == parser.N_TS_OBJ || ntyp(node) == parser.N_TS_VOID || ntyp(node) == parser.N_TS_NEVER || ntyp(node) == parser.N_TS_UNKNOWN || ntyp(node) == parser.N_TS_UNDEF || ntyp(node) == parser.N_TS_BIGINT || ntyp(node) == parser.N_TS_INTRINSIC || ntyp(node) == parser.N_TS_NULL
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(ntyp(node)), node, key, ctx), aev(ntyp(node)), node, key, ctx)
  ensures kept(ctx)

func VisitTsProp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsProp)) && node.(*parser.TsProp) != nil
  requires ntyp(node) == parser.N_TS_PROP
  modifies *walking
  let n = node.(*parser.TsProp)
  let t0 = called(tr, ctx, bev(parser.N_TS_PROP), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.key, "Key"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_PROP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_PROP), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.key, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_PROP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsPropBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_PROP), node, key, ctx)
  ensures kept(ctx)

func VisitTsPropAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_PROP), node, key, ctx)
  ensures kept(ctx)

// VisitTsRef: getters ['Args'] compute their result, covered by the oracle only

func VisitTsRest(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsRest)) && node.(*parser.TsRest) != nil
  requires ntyp(node) == parser.N_TS_REST
  modifies *walking
  let n = node.(*parser.TsRest)
  let t0 = called(tr, ctx, bev(parser.N_TS_REST), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_REST), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_REST), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_REST), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsRestBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_REST), node, key, ctx)
  ensures kept(ctx)

func VisitTsRestAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_REST), node, key, ctx)
  ensures kept(ctx)

func VisitTsRoughParam(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_TS_ROUGH_PARAM), node, key, ctx), aev(parser.N_TS_ROUGH_PARAM), node, key, ctx)
  ensures kept(ctx)

func VisitTsThis(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(listened(old(tr), bev(parser.N_TS_THIS), node, key, ctx), aev(parser.N_TS_THIS), node, key, ctx)
  ensures kept(ctx)

func VisitTsTuple(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTuple)) && node.(*parser.TsTuple) != nil
  requires ntyp(node) == parser.N_TS_TUPLE
  modifies *walking
  let n = node.(*parser.TsTuple)
  let t0 = called(tr, ctx, bev(parser.N_TS_TUPLE), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.args), off(n.args), len(n.args), "Args", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_TUPLE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TUPLE), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.args), off(n.args), len(n.args), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_TUPLE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTupleBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TUPLE), node, key, ctx)
  ensures kept(ctx)

func VisitTsTupleAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TUPLE), node, key, ctx)
  ensures kept(ctx)

func VisitTsTupleNamedMember(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTupleNamedMember)) && node.(*parser.TsTupleNamedMember) != nil
  requires ntyp(node) == parser.N_TS_TUPLE_NAMED_MEMBER
  modifies *walking
  let n = node.(*parser.TsTupleNamedMember)
  let t0 = called(tr, ctx, bev(parser.N_TS_TUPLE_NAMED_MEMBER), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.label, "Label"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.val, "Val"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_TUPLE_NAMED_MEMBER), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TUPLE_NAMED_MEMBER), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.label, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.val, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_TUPLE_NAMED_MEMBER), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTupleNamedMemberBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TUPLE_NAMED_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitTsTupleNamedMemberAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TUPLE_NAMED_MEMBER), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypAnnot(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypAnnot)) && node.(*parser.TsTypAnnot) != nil
  requires ntyp(node) == parser.N_TS_TYP_ANNOT
  modifies *walking
  let n = node.(*parser.TsTypAnnot)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_ANNOT), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.tsTyp, "TsTyp"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_TYP_ANNOT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_ANNOT), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.tsTyp, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_TYP_ANNOT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypAnnotBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_ANNOT), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypAnnotAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_ANNOT), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypAssert(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypAssert)) && node.(*parser.TsTypAssert) != nil
  requires ntyp(node) == parser.N_TS_TYP_ASSERT
  modifies *walking
  let n = node.(*parser.TsTypAssert)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_ASSERT), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.des, "Typ"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.arg, "Expr"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_TYP_ASSERT), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_ASSERT), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.des, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_TYP_ASSERT), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypAssertBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_ASSERT), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypAssertAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_ASSERT), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypDec)) && node.(*parser.TsTypDec) != nil
  requires ntyp(node) == parser.N_TS_TYP_DEC
  modifies *walking
  requires node.(*parser.TsTypDec).ti != nil
  let n = node.(*parser.TsTypDec)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_DEC), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Id"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.ti.typParams, "TypParams"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_TYP_DEC), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_DEC), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.ti.typParams, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_TYP_DEC), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypInfer(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypInfer)) && node.(*parser.TsTypInfer) != nil
  requires ntyp(node) == parser.N_TS_TYP_INFER
  modifies *walking
  let n = node.(*parser.TsTypInfer)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_INFER), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_TYP_INFER), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_INFER), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_TYP_INFER), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypInferBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_INFER), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypInferAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_INFER), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypOp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypOp)) && node.(*parser.TsTypOp) != nil
  requires ntyp(node) == parser.N_TS_TYP_OP
  modifies *walking
  let n = node.(*parser.TsTypOp)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_OP), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_TYP_OP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_OP), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_TYP_OP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypOpBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_OP), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypOpAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_OP), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypPredicate(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypPredicate)) && node.(*parser.TsTypPredicate) != nil
  requires ntyp(node) == parser.N_TS_TYP_PREDICATE
  modifies *walking
  let n = node.(*parser.TsTypPredicate)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_PREDICATE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.name, "Name"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.des, "Typ"))
  ensures tr == called(t2, ctx, aev(parser.N_TS_TYP_PREDICATE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_PREDICATE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.name, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.des, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_TS_TYP_PREDICATE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypPredicateBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_PREDICATE), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypPredicateAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_PREDICATE), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypQuery(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsTypQuery)) && node.(*parser.TsTypQuery) != nil
  requires ntyp(node) == parser.N_TS_TYP_QUERY
  modifies *walking
  let n = node.(*parser.TsTypQuery)
  let t0 = called(tr, ctx, bev(parser.N_TS_TYP_QUERY), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_TS_TYP_QUERY), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_TYP_QUERY), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_TYP_QUERY), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsTypQueryBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_TYP_QUERY), node, key, ctx)
  ensures kept(ctx)

func VisitTsTypQueryAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_TYP_QUERY), node, key, ctx)
  ensures kept(ctx)

func VisitTsUnionTyp(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.TsUnionTyp)) && node.(*parser.TsUnionTyp) != nil
  requires ntyp(node) == parser.N_TS_UNION_TYP
  modifies *walking
  let n = node.(*parser.TsUnionTyp)
  let t0 = called(tr, ctx, bev(parser.N_TS_UNION_TYP), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.elems), off(n.elems), len(n.elems), "Elems", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_TS_UNION_TYP), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_TS_UNION_TYP), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.elems), off(n.elems), len(n.elems), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_TS_UNION_TYP), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitTsUnionTypBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_TS_UNION_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitTsUnionTypAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_TS_UNION_TYP), node, key, ctx)
  ensures kept(ctx)

func VisitUnaryExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.UnaryExpr)) && node.(*parser.UnaryExpr) != nil
  requires ntyp(node) == parser.N_EXPR_UNARY
  modifies *walking
  let n = node.(*parser.UnaryExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_UNARY), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_EXPR_UNARY), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_UNARY), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_EXPR_UNARY), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitUnaryExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_UNARY), node, key, ctx)
  ensures kept(ctx)

func VisitUnaryExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_UNARY), node, key, ctx)
  ensures kept(ctx)

func VisitUpdateExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.UpdateExpr)) && node.(*parser.UpdateExpr) != nil
  requires ntyp(node) == parser.N_EXPR_UPDATE
  modifies *walking
  let n = node.(*parser.UpdateExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_UPDATE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_EXPR_UPDATE), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_UPDATE), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_EXPR_UPDATE), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitUpdateExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_UPDATE), node, key, ctx)
  ensures kept(ctx)

func VisitUpdateExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_UPDATE), node, key, ctx)
  ensures kept(ctx)

func VisitVarDec(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.VarDec)) && node.(*parser.VarDec) != nil
  requires ntyp(node) == parser.N_VAR_DEC
  modifies *walking
  let n = node.(*parser.VarDec)
  let t0 = called(tr, ctx, bev(parser.N_VAR_DEC), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.id, "Id"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.init, "Init"))
  ensures tr == called(t2, ctx, aev(parser.N_VAR_DEC), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_VAR_DEC), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.id, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.init, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_VAR_DEC), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitVarDecBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_VAR_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitVarDecAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_VAR_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitVarDecStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.VarDecStmt)) && node.(*parser.VarDecStmt) != nil
  requires ntyp(node) == parser.N_STMT_VAR_DEC
  modifies *walking
  let n = node.(*parser.VarDecStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_VAR_DEC), node, key, ctx.Parent)
  let t1 = visits(t0, arr(n.decList), off(n.decList), len(n.decList), "DecList", ctx)
  ensures tr == called(t1, ctx, aev(parser.N_STMT_VAR_DEC), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_VAR_DEC), node, sid(ctx.WalkCtx))
  let s1 = svisits(s0, arr(n.decList), off(n.decList), len(n.decList), sid(ctx.WalkCtx), ctx)
  ensures sc == scalled(s1, ctx, aev(parser.N_STMT_VAR_DEC), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitVarDecStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_VAR_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitVarDecStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_VAR_DEC), node, key, ctx)
  ensures kept(ctx)

func VisitWhileStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.WhileStmt)) && node.(*parser.WhileStmt) != nil
  requires ntyp(node) == parser.N_STMT_WHILE
  modifies *walking
  let n = node.(*parser.WhileStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_WHILE), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.test, "Test"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.body, "Body"))
  ensures tr == called(t2, ctx, aev(parser.N_STMT_WHILE), node, key, ctx.Parent)
  let inner = ite(pushes(node), ctx.WalkCtx.scopeOf[node], sid(ctx.WalkCtx))
  let known = (!pushes(node) || node in ctx.WalkCtx.scopeOf)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_WHILE), node, inner)
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.test, inner))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.body, inner))
  ensures known ==> sc == scalled(s2, ctx, aev(parser.N_STMT_WHILE), node, inner)
  ensures kept(ctx)

func VisitWhileStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_WHILE), node, key, ctx)
  ensures kept(ctx)

func VisitWhileStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_WHILE), node, key, ctx)
  ensures kept(ctx)

func VisitWithStmt(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.WithStmt)) && node.(*parser.WithStmt) != nil
  requires ntyp(node) == parser.N_STMT_WITH
  modifies *walking
  let n = node.(*parser.WithStmt)
  let t0 = called(tr, ctx, bev(parser.N_STMT_WITH), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.expr, "Expr"))
  let t2 = ite(w_stop(t1), t1, visit(t1, ctx, n.body, "Body"))
  ensures tr == called(t2, ctx, aev(parser.N_STMT_WITH), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_STMT_WITH), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.expr, sid(ctx.WalkCtx)))
  let s2 = ite(w_stop(t1), s1, svisit(s1, ctx, n.body, sid(ctx.WalkCtx)))
  ensures sc == scalled(s2, ctx, aev(parser.N_STMT_WITH), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitWithStmtBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_STMT_WITH), node, key, ctx)
  ensures kept(ctx)

func VisitWithStmtAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_STMT_WITH), node, key, ctx)
  ensures kept(ctx)

func VisitYieldExpr(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node) && hastype(node, type(*parser.YieldExpr)) && node.(*parser.YieldExpr) != nil
  requires ntyp(node) == parser.N_EXPR_YIELD
  modifies *walking
  let n = node.(*parser.YieldExpr)
  let t0 = called(tr, ctx, bev(parser.N_EXPR_YIELD), node, key, ctx.Parent)
  let t1 = ite(w_stop(t0), t0, visit(t0, ctx, n.arg, "Arg"))
  ensures tr == called(t1, ctx, aev(parser.N_EXPR_YIELD), node, key, ctx.Parent)
  let s0 = scalled(sc, ctx, bev(parser.N_EXPR_YIELD), node, sid(ctx.WalkCtx))
  let s1 = ite(w_stop(t0), s0, svisit(s0, ctx, n.arg, sid(ctx.WalkCtx)))
  ensures sc == scalled(s1, ctx, aev(parser.N_EXPR_YIELD), node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitYieldExprBefore(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), bev(parser.N_EXPR_YIELD), node, key, ctx)
  ensures kept(ctx)

func VisitYieldExprAfter(node, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == listened(old(tr), aev(parser.N_EXPR_YIELD), node, key, ctx)
  ensures kept(ctx)
