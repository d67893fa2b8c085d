package astutil

// the right operand of && is reached when the left one holds, that of || when it does not; any other operand always
func BinExprToSwitchBranch(node) (bs)
  property C11
  requires node != nil
  ensures len(bs) == 2 && bs[0] != nil && bs[1] != nil
  ensures bs[0].test == nil && bs[0].body == node.lhs && len(bs[0].unless) == 0
  ensures bs[1].body == node.rhs && len(bs[1].unless) == 0
  ensures node.op == parser.T_AND ==> (bs[1].test == node.lhs && !bs[1].negative)
  ensures node.op == parser.T_OR ==> (bs[1].test == node.lhs && bs[1].negative)
  ensures (node.op != parser.T_AND && node.op != parser.T_OR) ==> bs[1].test == nil

func CondExprToSwitchBranches(node) (bs)
  property C11
  requires node != nil
  ensures len(bs) == 2 && bs[0] != nil && bs[1] != nil
  ensures bs[0].test == node.test && bs[0].body == node.cons && !bs[0].negative && len(bs[0].unless) == 0
  ensures bs[1].test == node.test && bs[1].body == node.alt && bs[1].negative && len(bs[1].unless) == 0
