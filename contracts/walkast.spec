package parser

// the expression in the parentheses, with further parentheses taken off
fun parenInner(*ParenExpr) Node
func ParenExpr.Expr(n) (r)
  property C09
  requires n != nil
  // the tree is well formed: a parenthesised expression has an operand
  given whole(Node) bool
  where whole(n.expr)
  where forall e Node :: {whole(e)} whole(e) ==> (e != nil && (ntyp(e) == N_EXPR_PAREN ==> (hastype(e, type(*ParenExpr)) && e.(*ParenExpr) != nil && whole(e.(*ParenExpr).expr))))
  ensures ntyp(r) != N_EXPR_PAREN && whole(r)
  names r == parenInner(n)
  loop 0
    invariant whole(expr)
