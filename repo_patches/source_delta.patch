From 33ef2cc44ea0c675fb34048a3ac252ae9c31d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 01/51] fix: keep the modes saved by Lexer.PushState apart from
 the live ones

---
 ecma/parser/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..7c752d2 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -257,7 +257,10 @@ func (l *Lexer) PrevTokRng() span.Range {
 }
 
 func (l *Lexer) PushState() {
-	l.ss = append(l.ss, l.state)
+	state := l.state
+	// the modes are changed in place, the saved ones need their own storage
+	state.mode = util.Copy(l.state.mode)
+	l.ss = append(l.ss, state)
 }
 
 func (l *Lexer) DiscardState() {
-- 
2.43.0


From cb723e6e2182fe18c4df58f76d1fb40936b4aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:52 +0000
Subject: [PATCH 02/51] fix: a block nested in try is inside try, not inside
 switch

---
 ecma/parser/symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 050e26f..4cdeb22 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -536,7 +536,7 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 			scope.Kind |= SPK_SWITCH_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_TRY) || s.Cur.IsKind(SPK_TRY_INDIRECT) {
-			scope.Kind |= SPK_SWITCH_INDIRECT
+			scope.Kind |= SPK_TRY_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_FORMAL_PARAMS) {
 			scope.Kind |= SPK_FORMAL_PARAMS
-- 
2.43.0


From f202f4f8b6e55029282f0553913369e385e3356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:24 +0000
Subject: [PATCH 03/51] fix: leaving a labelled statement keeps the enclosing
 labels in effect

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..3dfa05d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1966,8 +1966,8 @@ func (p *Parser) labelStmt() (Node, error) {
 
 	node.rng = p.finRng(rng)
 	node.body = body
-	// reset to check next label chain
-	scope.uniqueLabels = make(map[string]Node)
+	// the label is no longer in effect, the labels around it still are
+	delete(scope.uniqueLabels, labelName)
 	return node, nil
 }
 
-- 
2.43.0


From 5d9c2c17d23ff7b1f1de88b89477bd8c3868c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:46 +0000
Subject: [PATCH 04/51] fix: the evaluator divides instead of subtracting

---
 ecma/exec/vm.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 1e5f63d..2c06b15 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -191,12 +191,7 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_MUL:
 				ee.push(ToNum(lhs) * ToNum(rhs))
 			case parser.T_DIV:
-				r := ToNum(rhs)
-				if r == 0 {
-					ee.push(math.NaN())
-				} else {
-					ee.push(ToNum(lhs) - r)
-				}
+				ee.push(ToNum(lhs) / ToNum(rhs))
 			case parser.T_AND:
 				ee.push(ToBool(lhs) && ToBool(rhs))
 			case parser.T_OR:
-- 
2.43.0


From 8d772466f8328c24287981486821607ef61d6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:47 +0000
Subject: [PATCH 05/51] fix: a fractional or huge array index names no element

---
 ecma/exec/vm.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 2c06b15..3048bdc 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -358,11 +358,10 @@ func GetElem(obj, prop interface{}) interface{} {
 		return nil
 	}
 
-	i := int(p)
-	if i > len(arr)-1 {
+	if p >= float64(len(arr)) || p != math.Trunc(p) {
 		return nil
 	}
-	return arr[i]
+	return arr[int(p)]
 }
 
 type Args struct {
-- 
2.43.0


From ee1a5854ae6bfbfe80d7f2bb76eb1edd1779ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:48 +0000
Subject: [PATCH 06/51] fix: && and || evaluate to the deciding operand

---
 ecma/exec/vm.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 3048bdc..7da35ff 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -193,9 +193,17 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_DIV:
 				ee.push(ToNum(lhs) / ToNum(rhs))
 			case parser.T_AND:
-				ee.push(ToBool(lhs) && ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(rhs)
+				} else {
+					ee.push(lhs)
+				}
 			case parser.T_OR:
-				ee.push(ToBool(lhs) || ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(lhs)
+				} else {
+					ee.push(rhs)
+				}
 			}
 		})
 
-- 
2.43.0


From 86db686315cd5cc19f71f3d599005805b72fb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:49 +0000
Subject: [PATCH 07/51] fix: NaN is falsy

---
 ecma/exec/vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 7da35ff..9563236 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -307,7 +307,7 @@ func ToStr(v interface{}) string {
 func ToBool(v interface{}) bool {
 	switch vv := v.(type) {
 	case float64:
-		return vv != 0
+		return vv != 0 && !math.IsNaN(vv)
 	case int:
 		return vv != 0
 	case string:
-- 
2.43.0


From 449c8560aa3c0527b978e1a1cf72f18a97e7ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:49 +0000
Subject: [PATCH 08/51] fix: a computed property name is evaluated

---
 ecma/exec/vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 9563236..a0f5b39 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -105,7 +105,7 @@ func (ee *ExprEvaluator) init() {
 			}
 
 			name := node.(*parser.Ident).Val()
-			if ctx.ParentNode().Type() == parser.N_EXPR_MEMBER && key == "Prop" {
+			if mem, ok := ctx.ParentNode().(*parser.MemberExpr); ok && key == "Prop" && !mem.Compute() {
 				ee.push(name)
 			} else if name == "undefined" {
 				ee.push(nil)
-- 
2.43.0


From 1b457df8abe29934314af09f0b082d57553efcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:50 +0000
Subject: [PATCH 09/51] fix: a hole of an array literal takes no operand

---
 ecma/exec/vm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index a0f5b39..affba8f 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -124,7 +124,9 @@ func (ee *ExprEvaluator) init() {
 			arrLen := len(n.Elems())
 			arr := make([]interface{}, arrLen)
 			for i := len(n.Elems()) - 1; i >= 0; i-- {
-				arr[i] = ee.pop()
+				if n.Elems()[i] != nil {
+					arr[i] = ee.pop()
+				}
 			}
 			ee.push(arr)
 		})
-- 
2.43.0


From c7ac0b4445604f0e70a343312f0da3d3e61d48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:55 +0000
Subject: [PATCH 10/51] fix: the value of a numeric literal with a leading zero
 or above 32 bits

---
 ecma/parser/astutil.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 4e6757a..ce100d9 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -62,26 +62,31 @@ func ParseFloat(t string) float64 {
 	t = strings.ReplaceAll(t, "_", "")
 
 	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
-		f, _ := strconv.ParseUint(t[2:], 16, 32)
-		return float64(f)
+		return parseIntOfBase(t[2:], 16)
 	}
 	if strings.HasPrefix(t, "0o") || strings.HasPrefix(t, "0O") {
-		f, _ := strconv.ParseUint(t[2:], 8, 32)
-		return float64(f)
+		return parseIntOfBase(t[2:], 8)
 	}
 	if strings.HasPrefix(t, "0b") || strings.HasPrefix(t, "0B") {
-		f, _ := strconv.ParseUint(t[2:], 2, 32)
-		return float64(f)
+		return parseIntOfBase(t[2:], 2)
 	}
-	if strings.HasPrefix(t, "0") && len(t) > 1 {
-		t = strings.TrimLeft(t, "0")
-		f, _ := strconv.ParseUint(t, 8, 32)
-		return float64(f)
+	// legacy octal, eg: `017`, but neither `0.5`, `0e1` nor `08`
+	if strings.HasPrefix(t, "0") && len(t) > 1 && strings.Trim(t, "01234567") == "" {
+		return parseIntOfBase(t, 8)
 	}
 	f, _ := strconv.ParseFloat(t, 64)
 	return f
 }
 
+func parseIntOfBase(t string, base int) float64 {
+	i, ok := new(big.Int).SetString(t, base)
+	if !ok {
+		return 0
+	}
+	f, _ := new(big.Float).SetInt(i).Float64()
+	return f
+}
+
 func NodeIsBigint(node Node, s *span.Source) bool {
 	t := NodeText(node, s)
 	return t[len(t)-1] == 'n'
-- 
2.43.0


From 7134a4e37c8e754148125d16e864ff6cbc9998e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:14 +0000
Subject: [PATCH 11/51] fix: an unconditional branch is selected once

---
 ecma/astutil/astutil.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..3460727 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -186,6 +186,7 @@ func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser
 	for _, b := range bs {
 		if b.test == nil {
 			tbs = append(tbs, b.body)
+			continue
 		}
 		v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
 		if err != nil {
-- 
2.43.0


From f5dd02c040939c6ed9fe8beb0299b62a8c3c17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:33 +0000
Subject: [PATCH 12/51] fix: an else-if branch is not taken when an earlier
 test holds

---
 ecma/astutil/astutil.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 3460727..1ffa95f 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -130,17 +130,23 @@ type SwitchBranch struct {
 	negative bool
 	test     parser.Node
 	body     parser.Node
+
+	// the tests of the enclosing `if`s whose `else` leads to this branch
+	unless []parser.Node
 }
 
 func IfStmtToSwitchBranches(node *parser.IfStmt) []*SwitchBranch {
 	bs := NodeToSwitchBranches(node.Test())
-	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons()})
+	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons(), nil})
 	if node.Alt() != nil {
 		switch node.Alt().Type() {
 		case parser.N_STMT_IF:
-			bs = append(bs, IfStmtToSwitchBranches(node.Alt().(*parser.IfStmt))...)
+			for _, b := range IfStmtToSwitchBranches(node.Alt().(*parser.IfStmt)) {
+				b.unless = append(b.unless, node.Test())
+				bs = append(bs, b)
+			}
 		default:
-			nb := &SwitchBranch{true, node.Test(), node.Alt()}
+			nb := &SwitchBranch{true, node.Test(), node.Alt(), nil}
 			bs = append(bs, nb)
 		}
 	}
@@ -148,22 +154,22 @@ func IfStmtToSwitchBranches(node *parser.IfStmt) []*SwitchBranch {
 }
 
 func BinExprToSwitchBranch(node *parser.BinExpr) []*SwitchBranch {
-	bs := []*SwitchBranch{{false, nil, node.Lhs()}}
+	bs := []*SwitchBranch{{false, nil, node.Lhs(), nil}}
 	switch node.Op() {
 	case parser.T_AND:
-		bs = append(bs, &SwitchBranch{false, node.Lhs(), node.Rhs()})
+		bs = append(bs, &SwitchBranch{false, node.Lhs(), node.Rhs(), nil})
 	case parser.T_OR:
-		bs = append(bs, &SwitchBranch{true, node.Lhs(), node.Rhs()})
+		bs = append(bs, &SwitchBranch{true, node.Lhs(), node.Rhs(), nil})
 	default:
-		bs = append(bs, &SwitchBranch{true, nil, node.Rhs()})
+		bs = append(bs, &SwitchBranch{true, nil, node.Rhs(), nil})
 	}
 	return bs
 }
 
 func CondExprToSwitchBranches(node *parser.CondExpr) []*SwitchBranch {
 	bs := []*SwitchBranch{}
-	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons()})
-	bs = append(bs, &SwitchBranch{true, node.Test(), node.Alt()})
+	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons(), nil})
+	bs = append(bs, &SwitchBranch{true, node.Test(), node.Alt(), nil})
 	return bs
 }
 
@@ -184,6 +190,9 @@ func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser
 	bs := NodeToSwitchBranches(node)
 	tbs := []parser.Node{}
 	for _, b := range bs {
+		if anyTrue(b.unless, vars, p) {
+			continue
+		}
 		if b.test == nil {
 			tbs = append(tbs, b.body)
 			continue
@@ -201,6 +210,16 @@ func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser
 	return tbs
 }
 
+func anyTrue(tests []parser.Node, vars map[string]interface{}, p *parser.Parser) bool {
+	for _, test := range tests {
+		v, err := exec.NewExprEvaluator(test, p).Exec(vars).GetResult()
+		if err == nil && exec.ToBool(v) {
+			return true
+		}
+	}
+	return false
+}
+
 // the minimal unit of the target nodes is expr
 func CollectNodesInTrueBranches(node parser.Node, typ []parser.NodeType, vars map[string]interface{}, p *parser.Parser) []parser.Node {
 	ret := []parser.Node{}
-- 
2.43.0


From 77763fc85b6476f7fa87ad8a12761516abcad520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:35 +0000
Subject: [PATCH 13/51] fix: a numeric separator may follow the first digit

---
 ecma/parser/lexer.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 7c752d2..66d58fb 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1334,10 +1334,10 @@ func (l *Lexer) readNum() *Token {
 func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 	if first != '.' && first != '0' {
 		c := l.src.Peek()
-		if c != 'e' && c != 'E' && c != 'n' && IsIdStart(c) {
+		if c != 'e' && c != 'E' && c != 'n' && c != '_' && IsIdStart(c) {
 			return l.errTokOfst(nil, ERR_IDENT_AFTER_NUMBER, l.src.Ofst())
 		}
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, 1); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokOfst(tok, err, l.src.Ofst()-1)
@@ -1353,7 +1353,7 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 			float = true
 		}
 		// read the fraction part
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, 0); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokMsg(tok, err)
@@ -1395,12 +1395,11 @@ func (l *Lexer) readExpPart() string {
 	if l.src.AheadIsChOr('+', '-') {
 		l.src.Read()
 	}
-	return l.readDecimalDigits(false)
+	return l.readDecimalDigits(false, 0)
 }
 
-func (l *Lexer) readDecimalDigits(opt bool) string {
-	i := 0
-
+// i is the number of digits which have already been read
+func (l *Lexer) readDecimalDigits(opt bool, i int) string {
 	var last rune
 	for {
 		c := l.src.Peek()
-- 
2.43.0


From 1da6aa42491205c1f8586bdea6102d841bff5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:03 +0000
Subject: [PATCH 14/51] fix: a lower operator after a tighter one still binds
 before the outer operator

---
 ecma/parser/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3dfa05d..a9fe2f7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5498,9 +5498,8 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		ahead = p.lexer.Peek()
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
-		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			pcd = kind.Pcd
-			rhs, err = p.binExpr(rhs, pcd, logic, nullish, notGT, false)
+		for aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 6c1d53bff911b66d89b1125862996941a30ac8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:30 +0000
Subject: [PATCH 15/51] fix: the operator of a prefix update is not read after
 its argument

---
 ecma/parser/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a9fe2f7..3e7255e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4312,7 +4312,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 		}
 
 		scope := p.scope()
-		if scope.IsKind(SPK_STRICT) && tok.value == T_DELETE && arg.Type() == N_NAME {
+		if scope.IsKind(SPK_STRICT) && op == T_DELETE && arg.Type() == N_NAME {
 			return nil, p.errorAtLoc(arg.Range(), ERR_DELETE_LOCAL_IN_STRICT)
 		}
 
@@ -4360,7 +4360,9 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (Node, error) {
 	rng := p.rng()
 	tok := p.lexer.Peek()
-	if tok.value == T_INC || tok.value == T_DEC {
+	// the token is overwritten as the argument is being parsed
+	op := tok.value
+	if op == T_INC || op == T_DEC {
 		p.lexer.Next()
 		arg, err := p.unaryExpr(nil, span.Range{}, notColon)
 		if err != nil {
@@ -4369,7 +4371,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if !p.isSimpleLVal(arg, true, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
-		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), tok.value, true, arg, span.Range{}}
+		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
 		arg, err = p.tsTypAssert(ud, typArgs)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 72b1b98e314c3f2c7aeca51a33b01162e481b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:51 +0000
Subject: [PATCH 16/51] fix: the arguments after a nested new belong to the
 outer one

---
 ecma/parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3e7255e..195b2be 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4427,7 +4427,7 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	var node Node
 	var err error
 	if tok.value == T_NEW {
-		node, err = p.newExpr()
+		node, err = p.newExpr(false)
 	} else {
 		node, _, err = p.callExpr(nil, true, false, span.Range{}, notColon)
 	}
@@ -4445,7 +4445,9 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-NewExpression
-func (p *Parser) newExpr() (Node, error) {
+// `callee` indicates the expr is the callee of an outer `new`, which the arguments
+// after it belong to, eg: `new new A(a)(b)`
+func (p *Parser) newExpr(callee bool) (Node, error) {
 	rng := p.rng()
 	new := p.lexer.Next()
 
@@ -4531,6 +4533,9 @@ func (p *Parser) newExpr() (Node, error) {
 
 	var ret Node
 	ret = &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, args, span.Range{}, ti}
+	if callee {
+		return ret, nil
+	}
 	root := true
 	for {
 		tok := p.lexer.Peek()
@@ -5537,7 +5542,7 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 	var err error
 	if obj == nil {
 		if p.lexer.Peek().value == T_NEW {
-			if obj, err = p.newExpr(); err != nil {
+			if obj, err = p.newExpr(true); err != nil {
 				return nil, span.Range{}, err
 			}
 		} else if obj, err = p.memberExprObj(); err != nil {
-- 
2.43.0


From f20575dbbcf1dc523096c2520bfcde76f60ec58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:01 +0000
Subject: [PATCH 17/51] fix: a slash after null, true or false is a division

---
 ecma/parser/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 703feec..6db2c48 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -351,9 +351,9 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_COMMENT, "comment", 0, false, false, false},
 
 	// literals
-	{T_NULL, "null", 0, false, true, true},
-	{T_TRUE, "true", 0, false, true, true},
-	{T_FALSE, "false", 0, false, true, true},
+	{T_NULL, "null", 0, false, false, true},
+	{T_TRUE, "true", 0, false, false, true},
+	{T_FALSE, "false", 0, false, false, true},
 	{T_NUM, "number", 0, false, false, true},
 	{T_STRING, "string", 0, false, false, true},
 
-- 
2.43.0


From 2cf8081fc6cd66c31c9b28268837f355d88d8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:12 +0000
Subject: [PATCH 18/51] fix: a slash after typeof, void or delete begins a
 regexp

---
 ecma/parser/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 6db2c48..719814a 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -478,9 +478,9 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 
 	// unary
 	{T_UNARY_OP_BEGIN, "unary operator being", 0, false, false, false},
-	{T_TYPE_OF, "typeof", 0, true, false, true},
-	{T_VOID, "void", 0, true, false, true},
-	{T_DELETE, "delete", 0, true, false, true},
+	{T_TYPE_OF, "typeof", 0, true, true, true},
+	{T_VOID, "void", 0, true, true, true},
+	{T_DELETE, "delete", 0, true, true, true},
 	{T_NOT, "!", 0, true, true, true},
 	{T_BIT_NOT, "~", 0, true, true, true},
 	{T_UNARY_OP_END, "unary operator end", 0, false, false, false},
-- 
2.43.0


From 6e90ac7804c45069c25fda50d7eb198bcda5126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:35 +0000
Subject: [PATCH 19/51] fix: a slash after the operator in begins a regexp

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 195b2be..49bcd10 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5490,7 +5490,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		if err = p.checkOp(ahead); err != nil {
 			return nil, err
 		}
-		opLoc := p.lexer.Next().rng
+		opLoc := p.lexer.NextRevise(op).rng
 
 		var rhs Node
 		if op != T_TS_AS {
-- 
2.43.0


From 58cd705d2e156b0238d24f7e8be072a774abad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:44 +0000
Subject: [PATCH 20/51] fix: a slash after a property named by a keyword is a
 division

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 49bcd10..db7e41d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5638,7 +5638,8 @@ func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 
 func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
 	loc := p.rng()
-	tok := p.lexer.Next()
+	// it's a name even if it reads as a keyword, eg: `a.default / b`
+	tok := p.lexer.NextRevise(T_NAME)
 	tv := tok.value
 	kw, ok := tok.CanBePropKey()
 
-- 
2.43.0


From 85cbdb37cbce789a63eec1fc368e5dab4bd536e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:34 +0000
Subject: [PATCH 21/51] fix: a call after an optional call is not optional
 itself

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index db7e41d..7da7bc8 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4691,6 +4691,8 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				}
 			} else {
 				callee = &CallExpr{N_EXPR_CALL, p.finRng(rng), callee, args, directOpt, span.Range{}, ti}
+				// only the first call is the operand of `?.`, eg: `a?.()()`
+				directOpt = false
 			}
 		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
 			callee, fo, err = p.memberExpr(callee, true, root, firstOpt)
-- 
2.43.0


From d89f749bd50e3c44a454436840ab160db33a4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:42 +0000
Subject: [PATCH 22/51] fix: a slash after ... begins a regexp

---
 ecma/parser/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 719814a..aacbc95 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -429,7 +429,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_BRACKET_L, "[", 0, false, true, true},
 	{T_BRACKET_R, "]", 0, false, false, false},
 	{T_DOT, ".", 0, false, false, false},
-	{T_DOT_TRI, "...", 0, false, false, false},
+	{T_DOT_TRI, "...", 0, false, true, false},
 	{T_SEMI, ";", 0, false, true, false},
 	{T_COMMA, ",", 0, false, true, false},
 	{T_HOOK, "?", 0, false, true, false},
-- 
2.43.0


From 40745d248abf342e8b06936c142a3980106bf61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:50 +0000
Subject: [PATCH 23/51] fix: a slash begins a regexp in a template substitution
 and divides after a template

---
 ecma/parser/parser.go | 6 +++++-
 ecma/parser/token.go  | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7da7bc8..1498c4b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4808,7 +4808,11 @@ func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
 				cooked = ext.str
 			}
 
-			p.lexer.Next()
+			if tok.IsPlainTpl() {
+				p.lexer.NextRevise(T_TPL_TAIL)
+			} else {
+				p.lexer.Next()
+			}
 			str := &StrLit{N_LIT_STR, span.Range{Lo: ext.strRng.Lo, Hi: ext.strRng.Hi}, cooked, false, span.Range{}, nil}
 			elems = append(elems, str)
 
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index aacbc95..a9593fb 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -358,8 +358,8 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_STRING, "string", 0, false, false, true},
 
 	{T_TPL_HEAD, "template head", 0, false, true, true},
-	{T_TPL_SPAN, "template span", 0, false, false, false},
-	{T_TPL_TAIL, "template tail", 0, false, true, false},
+	{T_TPL_SPAN, "template span", 0, false, true, false},
+	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
 	{T_NAME_PVT, "private identifier", 0, false, false, false},
-- 
2.43.0


From b36b4e6dd59b0f8eb1e447f50e3cb04f5781a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:21 +0000
Subject: [PATCH 24/51] fix: an object literal in parentheses keeps its nested
 values

---
 ecma/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1498c4b..9fadaf0 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4996,7 +4996,9 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		}
 		return n, nil
 	case N_PROP:
-		n := arg.(*Prop)
+		// the source is kept since it may turn out to be an expr, eg: `({ a: {} })`
+		cp := *arg.(*Prop)
+		n := &cp
 		var err error
 		if n.value != nil {
 			if n.value.Type() == N_EXPR_FN && depth > 0 {
@@ -5093,7 +5095,9 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 	case N_PAT_REST:
 		return arg, nil
 	case N_SPREAD:
-		n := arg.(*Spread)
+		// the source is kept for the same reason as in the case of `N_PROP`
+		cp := *arg.(*Spread)
+		n := &cp
 		if !n.tcLoc.Empty() {
 			return nil, p.errorAtLoc(n.tcLoc, ERR_REST_ELEM_MUST_LAST)
 		}
-- 
2.43.0


From 3adb920cc642cd5dada23223c15975f97db330a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:51 +0000
Subject: [PATCH 25/51] fix: the arguments after new function () {} belong to
 the new expression

---
 ecma/parser/parser.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9fadaf0..8a681a2 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2826,14 +2826,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 	s.Node = fnDec
 
-	if expr && p.lexer.Peek().value == T_PAREN_L {
-		node, _, err := p.callExpr(fnDec, true, false, span.Range{}, false)
-		if err != nil {
-			return nil, err
-		}
-		return node, nil
-	}
-
 	if !expr && p.ts {
 		if body == nil {
 			p.lastTsFnSig = fnDec
-- 
2.43.0


From 1fcaa559ebaca8a800be09e9dda551304a3d6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:46 +0000
Subject: [PATCH 26/51] fix: the body of an async arrow ends before a comma

---
 ecma/parser/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8a681a2..5f3ecca 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2681,7 +2681,12 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if body, err = p.fnBody(); err != nil {
 				return nil, err
 			}
-		} else if expr || arrow {
+		} else if arrow {
+			// the body does not include the operands after comma, eg: `async a => b, c`
+			if body, err = p.assignExpr(true, false, false, false); err != nil {
+				return nil, err
+			}
+		} else if expr {
 			if body, err = p.expr(); err != nil {
 				return nil, err
 			}
@@ -2809,10 +2814,14 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if expr {
 			return fn, nil
 		}
+		seq, err := p.seqExpr(fn, false)
+		if err != nil {
+			return nil, err
+		}
 		if err := p.advanceIfSemi(true); err != nil {
 			return nil, err
 		}
-		return &ExprStmt{N_STMT_EXPR, p.finRng(rng), fn, false}, nil
+		return &ExprStmt{N_STMT_EXPR, p.finRng(rng), seq, false}, nil
 	}
 
 	typ := N_STMT_FN
-- 
2.43.0


From 5823b1bb9ec87c1ef3fae2e883f88305226eee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:45 +0000
Subject: [PATCH 27/51] fix: async before * is an operand of the multiplication

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 5f3ecca..a6c2dc9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2490,7 +2490,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 		}
 		if ahead.value == T_FUNC ||
 			(p.aheadIsArgList(ahead) && !prop) ||
-			ahead.value == T_MUL {
+			(prop && ahead.value == T_MUL) {
 			return true
 		}
 		_, canProp := ahead.CanBePropKey()
-- 
2.43.0


From c5ae966b6ba4646ccc705ec5526fdbb3a0bde425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:22 +0000
Subject: [PATCH 28/51] fix: async before in is an operand

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a6c2dc9..ca52008 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2501,7 +2501,8 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 			return true
 		}
 		if ahead.value == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
+			// `async in a` is always a binary expr
+			if IsName(ahead, "in", false) || p.scope().IsKind(SPK_NOT_IN) && IsName(ahead, "of", false) {
 				return false
 			}
 			return true
-- 
2.43.0


From 3ebfe05c913deea9a03f96f2da28613d5ee9d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:52 +0000
Subject: [PATCH 29/51] fix: deleting an optional call does not panic

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ca52008..e63c4ab 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4324,7 +4324,8 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			if at == N_EXPR_MEMBER {
 				m = arg.(*MemberExpr)
 			} else if at == N_EXPR_CHAIN {
-				m = arg.(*ChainExpr).expr.(*MemberExpr)
+				// it's not a member expr in `delete a?.()`
+				m, _ = arg.(*ChainExpr).expr.(*MemberExpr)
 			}
 
 			if m != nil && m.prop.Type() == N_NAME {
-- 
2.43.0


From 78acc2a6ce718823741cbac37582b5404f624a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:23 +0000
Subject: [PATCH 30/51] fix: a replacement character in a template does not
 hang the lexer

---
 ecma/parser/lexer.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 66d58fb..e7cbf4e 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -577,8 +577,6 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				return
 			}
 			text = utf8.AppendRune(text, r)
-		} else if c == utf8.RuneError {
-			errEscape = ERR_BAD_RUNE
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
 			return
-- 
2.43.0


From beee393c2eb9edb00f366378ea5651c1484c1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:32 +0000
Subject: [PATCH 31/51] fix: a string of line continuations only is empty

---
 ecma/parser/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index e7cbf4e..29bdeca 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1167,6 +1167,10 @@ func (l *Lexer) readStr() *Token {
 
 	if buf != nil {
 		tok.text = util.Bytes2str(&buf)
+		if len(buf) == 0 {
+			// the content consists of line continuations only
+			tok.txt.Lo = tok.txt.Hi
+		}
 	}
 
 	tok.ext = &TokExtStr{open, legacyOctalEscapeSeq}
-- 
2.43.0


From 145784a96e709d356a7e2ba1ebb29ca9e410fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:40 +0000
Subject: [PATCH 32/51] fix: a bad hex escape does not consume the end of the
 template

---
 ecma/parser/lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 29bdeca..2e3f9aa 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1266,10 +1266,12 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 
 func (l *Lexer) readHexEscapeSeq() (rune, string) {
 	hex := [2]rune{}
-	hex[0] = l.src.Read()
-	hex[1] = l.src.Read()
-	if !IsHexDigit(hex[0]) || !IsHexDigit(hex[1]) {
-		return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+	for i := range hex {
+		// the character which ends the sequence is not part of it
+		if !IsHexDigit(l.src.Peek()) {
+			return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+		}
+		hex[i] = l.src.Read()
 	}
 	r, err := strconv.ParseInt(string(hex[:]), 16, 32)
 	if err != nil {
-- 
2.43.0


From ffd4a17646f25c99eeab0e92bbba648ec10c123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:48 +0000
Subject: [PATCH 33/51] fix: \0 is a legal escape in a template

---
 ecma/parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 2e3f9aa..e44e228 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1243,7 +1243,7 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 	octal = append(octal, first)
 	zeroToThree := first >= '0' && first <= '3'
 	i := 1
-	if l.IsMode(LM_TEMPLATE) {
+	if l.IsMode(LM_TEMPLATE) && (first != '0' || IsDecimalDigit(l.src.Peek())) {
 		return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, 0
 	}
 	for {
-- 
2.43.0


From 7563bb425183a292ee4907aa58ccf1be7af38d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 34/51] fix: an escape of the replacement character is legal in
 a template

---
 ecma/parser/lexer.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index e44e228..c1fcb62 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -565,11 +565,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 
 			// just records the first occurred escape error
 			if errEscape == "" {
-				if e != "" {
-					errEscape = e
-				} else if r == utf8.RuneError {
-					errEscape = ERR_BAD_ESCAPE_SEQ
-				}
+				errEscape = e
 			}
 
 			if r == span.EOF {
-- 
2.43.0


From 762c7bdee5f2472c970b302ada1196628ebe6c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:04 +0000
Subject: [PATCH 35/51] fix: an escaped surrogate pair is one character

---
 ecma/parser/lexer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index c1fcb62..b2f486c 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"unicode"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	span "github.com/hsiaosiyuan0/mole/span"
@@ -528,6 +529,7 @@ func (l *Lexer) readTplSpan() *Token {
 
 func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err string, legacyOctalEscapeSeq bool, errEscape string) {
 	text = make([]byte, 0, 10)
+	var prev rune // the previous character if it's escaped
 	for {
 		ofst = l.src.Ofst()
 		pos = l.src.Pos()
@@ -541,6 +543,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				break
 			}
 			text = utf8.AppendRune(text, c)
+			prev = 0
 		} else if c == '\\' {
 			l.src.Read()
 			nc := l.src.Peek()
@@ -572,7 +575,8 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				err = ERR_UNTERMINATED_TPL
 				return
 			}
-			text = utf8.AppendRune(text, r)
+			text = appendEscaped(text, prev, r)
+			prev = r
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
 			return
@@ -582,11 +586,21 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 			break
 		} else {
 			text = utf8.AppendRune(text, l.src.Read())
+			prev = 0
 		}
 	}
 	return
 }
 
+// appends the escaped `r` to `buf`, `prev` is the escaped character just before it or zero, a pair
+// of surrogates makes one character
+func appendEscaped(buf []byte, prev, r rune) []byte {
+	if c := utf16.DecodeRune(prev, r); c != utf8.RuneError {
+		return utf8.AppendRune(buf[:len(buf)-utf8.RuneLen(utf8.RuneError)], c)
+	}
+	return utf8.AppendRune(buf, r)
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-IdentifierName
 func (l *Lexer) readName(jsx bool) *Token {
 	tok := l.newToken()
@@ -1106,6 +1120,7 @@ func (l *Lexer) readStr() *Token {
 	legacyOctalEscapeSeq := false
 
 	var buf []byte
+	var prev rune // the previous character if it's escaped
 	start := tok.txt.Lo
 	for {
 		c := l.src.Read()
@@ -1147,7 +1162,8 @@ func (l *Lexer) readStr() *Token {
 					}
 				}
 
-				buf = utf8.AppendRune(buf, r)
+				buf = appendEscaped(buf, prev, r)
+				prev = r
 			}
 		} else if l.IsLineTerminator(c) {
 			return l.errTokMsg(tok, ERR_UNTERMINATED_STR)
@@ -1158,6 +1174,7 @@ func (l *Lexer) readStr() *Token {
 			if buf != nil {
 				buf = utf8.AppendRune(buf, c)
 			}
+			prev = 0
 		}
 	}
 
-- 
2.43.0


From 7713ca9f432ae953ddd96a09f6f0441de8f5d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 36/51] fix: each entity of a JSX text is read by itself

---
 ecma/parser/lexer.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index b2f486c..11e3ca3 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1697,43 +1697,52 @@ func (l *Lexer) readJSXTxt() *Token {
 
 	rs := make([]byte, 0)
 
-	i := 0
+	// the pending entity, includes its leading `&`
 	entity := make([]byte, 0, MaxHTMLEntityName)
 
 	for {
 		c := l.src.Peek()
 		if c == '{' || c == '<' || c == span.EOF {
-			if i == 0 && c == span.EOF {
+			if len(entity) == 0 && c == span.EOF {
 				l.src.Read()
 				return l.finToken(tok, T_EOF)
 			}
 			break
-		} else if c == '&' || i > 0 {
-			if c == '&' {
-			}
+		}
 
-			l.src.Read()
+		c = l.src.Read()
+		if len(entity) > 0 && c == ';' {
+			key := string(entity) + ";"
+			if ed, ok := HTMLEntities[key]; ok {
+				rs = append(rs, ed.Bytes...)
+			} else {
+				return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, key))
+			}
+			entity = entity[:0]
+			continue
+		}
 
-			i += 1
+		if c == '&' || len(entity) > 0 && !isEntityPart(c) {
+			// the `&` pending is not the start of an entity
+			rs = append(rs, entity...)
+			entity = entity[:0]
+		}
+		if c == '&' || len(entity) > 0 {
 			entity = utf8.AppendRune(entity, c)
-			if c == ';' {
-				key := string(entity[0:i])
-				if ed, ok := HTMLEntities[key]; ok {
-					rs = append(rs, ed.Bytes...)
-				} else {
-					return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, key))
-				}
-				i = 0
-			}
 		} else {
-			rs = utf8.AppendRune(rs, l.src.Read())
+			rs = utf8.AppendRune(rs, c)
 		}
 	}
+	rs = append(rs, entity...)
 
 	tok.ext = preWs + util.Bytes2str(&rs)
 	return l.finToken(tok, T_JSX_TXT)
 }
 
+func isEntityPart(c rune) bool {
+	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || IsDecimalDigit(c) || c == '#'
+}
+
 func (l *Lexer) error(msg string) *LexerError {
 	return newLexerError(msg, l.src.Path, l.src.Ofst(), l.src)
 }
-- 
2.43.0


From 689876cc9b8fbe9214bd362547f9061a8cf9d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:13 +0000
Subject: [PATCH 37/51] fix: identifiers follow ID_Start and ID_Continue

---
 ecma/parser/lexer.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 11e3ca3..916cb3b 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1829,27 +1829,17 @@ func IsIdStart(c rune) bool {
 		c == '\\' {
 		return true
 	}
-	if unicode.In(c, unicode.Upper, unicode.Lower,
-		unicode.Title, unicode.Modi,
-		unicode.Other_Lowercase,
-		unicode.Other_Uppercase,
-		unicode.Other_ID_Start) {
-		return true
-	}
-
-	// CJK Unified Ideographs Extension D(U+2B740 to U+2B81F) is in `Lo`
-	// but not permitted as the id start
-	if unicode.In(c, unicode.Lo) && c <= 0x2B81D {
-		return true
-	}
-	return false
+	// https://www.unicode.org/reports/tr31/#D1
+	return unicode.In(c, unicode.L, unicode.Nl, unicode.Other_ID_Start) &&
+		!unicode.In(c, unicode.Pattern_Syntax, unicode.Pattern_White_Space)
 }
 
 func IsIdPart(c rune) bool {
 	return c >= '0' && c <= '9' || c == 0x200C || c == 0x200D ||
 		unicode.In(c,
 			unicode.Pc,
-			unicode.Mark,
+			unicode.Mn,
+			unicode.Mc,
 			unicode.Nd,
 			unicode.Other_ID_Continue)
 }
-- 
2.43.0


From 87426f330d5843217d13c2e836b63944f4fd9f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:51 +0000
Subject: [PATCH 38/51] fix: a line break before or in any of several comments
 counts

---
 ecma/parser/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 916cb3b..674a48e 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -412,11 +412,11 @@ func (l *Lexer) readTokWithComment() *Token {
 func (l *Lexer) lexTok() *Token {
 	prt := T_ILLEGAL
 	prtAtm := false
-	prtExt := false
+	lineTerm := false // whether there is a line terminator before or in the comments
 	for {
 		tok := l.readTokWithComment()
 		if tok.value != T_COMMENT {
-			if !tok.afterLineTerm && prt == T_COMMENT && prtExt == true {
+			if lineTerm {
 				tok.afterLineTerm = true
 			}
 			return tok
@@ -428,7 +428,8 @@ func (l *Lexer) lexTok() *Token {
 		}
 		prt = tok.value
 		prtAtm = tok.afterLineTerm
-		prtExt = tok.ext.(bool) // indicates whether the comment is multiline or not
+		// `ext` indicates whether the comment is multiline or not
+		lineTerm = lineTerm || tok.afterLineTerm || tok.ext.(bool)
 	}
 }
 
-- 
2.43.0


From 5f7a3d2da543c61a3c7d8180ab49f4930a68e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:34 +0000
Subject: [PATCH 39/51] fix: an escaped character of an identifier must be
 allowed there

---
 ecma/parser/lexer.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 674a48e..590d6c8 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1589,8 +1589,12 @@ type FixedOfstErr struct {
 }
 
 func (l *Lexer) readIdStart() (rune, bool, *FixedOfstErr) {
-	c := l.src.Read()
-	return l.readUnicodeEscape(c, true)
+	ofst := l.src.Ofst()
+	c, escape, err := l.readUnicodeEscape(l.src.Read(), true)
+	if err == nil && escape && !IsIdStart(c) {
+		return utf8.RuneError, escape, &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, ofst}
+	}
+	return c, escape, err
 }
 
 func (l *Lexer) readIdPart(jsx bool) (rs []byte, containsEscape bool, err *FixedOfstErr) {
@@ -1633,7 +1637,11 @@ func (l *Lexer) readUnicodeEscape(c rune, id bool) (r rune, containsEscape bool,
 
 func (l *Lexer) readUnicodeEscapeSeq(id bool, start uint32) (rune, *FixedOfstErr) {
 	if l.src.AheadIsCh('{') {
-		return l.readCodepoint()
+		r, err := l.readCodepoint()
+		if err == nil && id && (!IsIdStart(r) && !IsIdPart(r) || r == '\\') {
+			return utf8.RuneError, &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, start}
+		}
+		return r, err
 	}
 	return l.readHex4Digits(id, start)
 }
-- 
2.43.0


From 13b6c5c214d79382fbfdd519436249786a9404ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:47 +0000
Subject: [PATCH 40/51] fix: a decorated field without TypeScript does not
 panic

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e63c4ab..e6aeacb 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1700,6 +1700,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		ds = p.hangingDecorators
 		rng = ds[0].Range()
 		p.hangingDecorators = nil
+		if ti == nil {
+			ti = NewTypInfo()
+		}
 		ti.decorators = ds
 	}
 	return &Field{N_FIELD, p.finRng(rng), key, isStatic, !compute.Empty(), value, ti}, nil
-- 
2.43.0


From a5162917fbd6c52c959cc1f940d2ec386ebe8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:57 +0000
Subject: [PATCH 41/51] fix: a temporary scope does not replace a settled one
 in the symbol table

---
 ecma/parser/symtab.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 4cdeb22..ae28fd3 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -580,7 +580,10 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 		}
 	}
 
-	s.Scopes[scope.Id] = scope
+	// a temporary scope shares its id with a settled one, which it must not replace
+	if settled {
+		s.Scopes[scope.Id] = scope
+	}
 
 	scope.Up = s.Cur
 	s.Cur.Down = append(s.Cur.Down, scope)
@@ -591,8 +594,6 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 
 func (s *SymTab) LeaveScope() *Scope {
 	cur := s.Cur
-	// prevent the scope being overlaid by its tmp child
-	s.Scopes[s.Cur.Up.Id] = s.Cur.Up
 	s.Cur = s.Cur.Up
 	return cur
 }
-- 
2.43.0


From cf8240fe118f3984ba695abdcd5f86c129d4bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:30 +0000
Subject: [PATCH 42/51] fix: the walk enters the scope that the parser has
 opened for the node

---
 ecma/parser/ast.go    |  4 ++--
 ecma/parser/parser.go | 14 +++++++++++---
 ecma/walk/ctx.go      | 34 ++++++++++++++++++++++++++++------
 ecma/walk/visitor.go  |  6 ++++++
 4 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 5f3421f..d98bfa0 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1546,7 +1546,7 @@ func (n *ForStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Left,Right,Body)]
+// #[visitor(PUSH_SCOPE,Left,Right,Body)]
 type ForInOfStmt struct {
 	typ   NodeType
 	rng   span.Range
@@ -2038,7 +2038,7 @@ func (n *Field) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(Body)]
+// #[visitor(PUSH_SCOPE,Body)]
 type StaticBlock struct {
 	typ  NodeType
 	rng  span.Range
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e6aeacb..72b55ca 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1717,7 +1717,11 @@ func (p *Parser) staticBlock(static span.Range) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &StaticBlock{N_STATIC_BLOCK, p.finRng(static), block.body, p.newTypInfo(N_STATIC_BLOCK)}, nil
+	n := &StaticBlock{N_STATIC_BLOCK, p.finRng(static), block.body, p.newTypInfo(N_STATIC_BLOCK)}
+	// the block is dissolved in the node, which therefore introduces its scope
+	down := p.scope().Down
+	down[len(down)-1].Node = n
+	return n, nil
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-EmptyStatement
@@ -3094,9 +3098,13 @@ func (p *Parser) blockStmt(newScope bool, scopeKind ScopeKind) (*BlockStmt, erro
 				}
 			}
 		}
-		p.symtab.LeaveScope()
 	}
-	return &BlockStmt{N_STMT_BLOCK, p.finRng(rng), stmts, newScope}, nil
+	block := &BlockStmt{N_STMT_BLOCK, p.finRng(rng), stmts, newScope}
+	if newScope {
+		s := p.symtab.LeaveScope()
+		s.Node = block
+	}
+	return block, nil
 }
 
 func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index ae576bd..84bf76c 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -19,10 +19,11 @@ type WalkCtx struct {
 	Root   parser.Node    // the root node to start walking
 	Symtab *parser.SymTab // the symtab associated with the Root
 
-	vc          *VisitorCtx // ctx of current running visitor
-	scopeIdSeed int         // the seed of scope id
-	scopeIds    []int       // 1-based Id of the scope which current Node belongs to, 0 is reserved for the Global scope
-	stop        bool        // whether to stop the walk
+	vc          *VisitorCtx         // ctx of current running visitor
+	scopeIdSeed int                 // the seed of scope id
+	scopeOf     map[parser.Node]int // ids of the scopes of the Symtab, by the node which introduces them
+	scopeIds    []int               // 1-based Id of the scope which current Node belongs to, 0 is reserved for the Global scope
+	stop        bool                // whether to stop the walk
 }
 
 func NewWalkCtx(root parser.Node, symtab *parser.SymTab) *WalkCtx {
@@ -34,6 +35,14 @@ func NewWalkCtx(root parser.Node, symtab *parser.SymTab) *WalkCtx {
 	c.vc = &VisitorCtx{c, c.vc, []string{}, root}
 	c.scopeIds = []int{0}
 	c.scopeIdSeed = len(c.scopeIds)
+	if symtab != nil {
+		c.scopeOf = make(map[parser.Node]int, len(symtab.Scopes))
+		for id, scope := range symtab.Scopes {
+			if scope.Node != nil {
+				c.scopeOf[scope.Node] = id
+			}
+		}
+	}
 	return c
 }
 
@@ -53,14 +62,27 @@ type CondNewScope interface {
 	NewScope() bool
 }
 
+// the node which introduces the scope being pushed, the scope of the class body
+// is introduced by the class
+func (c *WalkCtx) scopeNode() parser.Node {
+	if c.vc.Node.Type() == parser.N_CLASS_BODY {
+		return c.vc.ParentNode()
+	}
+	return c.vc.Node
+}
+
 func (c *WalkCtx) PushScope() {
 	newScope := true
 	if v, ok := c.vc.Node.(CondNewScope); ok {
 		newScope = v.NewScope()
 	}
 	if newScope {
-		c.scopeIds = append(c.scopeIds, c.scopeIdSeed)
-		c.scopeIdSeed += 1
+		id, ok := c.scopeOf[c.scopeNode()]
+		if !ok {
+			id = c.scopeIdSeed
+			c.scopeIdSeed += 1
+		}
+		c.scopeIds = append(c.scopeIds, id)
 	}
 }
 
diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 36c2105..4b9a13d 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1956,6 +1956,9 @@ func VisitAssignPatAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitStaticBlock(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.StaticBlock)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STATIC_BLOCK_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STATIC_BLOCK_AFTER, n, key, ctx)
 
@@ -2071,6 +2074,9 @@ func VisitTsTypOpAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitForInOfStmt(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ForInOfStmt)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STMT_FOR_IN_OF_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STMT_FOR_IN_OF_AFTER, n, key, ctx)
 
-- 
2.43.0


From cb234698e413ffdf6f31fe4cd259c26595dfd6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 43/51] fix: the walk raises the events of the node's own type
 when types share a struct

---
 ecma/walk/visitor.go       | 36 ++++++++++++++++++------------------
 script/visitor_gen/main.go | 26 +++++++++++++++++++-------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 4b9a13d..c6c87d0 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1085,8 +1085,8 @@ func VisitTsInterfaceBodyAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsDec)
 
-	CallVisitor(N_TS_DEC_TYP_DEC_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_DEC_TYP_DEC_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.Name(), "Name", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1100,11 +1100,11 @@ func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitSuper(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1243,8 +1243,8 @@ func VisitExportSpecAfter(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsPredef(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NULL_BEFORE, node, key, ctx)
-	CallListener(N_TS_NULL_AFTER, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxEmpty(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1428,8 +1428,8 @@ func VisitDoWhileStmtAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.FnDec)
 
-	CallVisitor(N_EXPR_FN_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_FN_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1451,11 +1451,11 @@ func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitFnDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitFnDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitIdent(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1611,8 +1611,8 @@ func VisitAssignExprAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ClassDec)
 
-	CallVisitor(N_EXPR_CLASS_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_CLASS_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1631,11 +1631,11 @@ func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitClassDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitClassDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxSpreadChild(node parser.Node, key string, ctx *VisitorCtx) {
@@ -2463,8 +2463,8 @@ func VisitJsxAttrAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsNewSig)
 
-	CallVisitor(N_TS_NEW_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_NEW_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.TypParams(), "TypParams", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -2483,11 +2483,11 @@ func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsNewSigBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsNewSigAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitForStmt(node parser.Node, key string, ctx *VisitorCtx) {
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index 15c9000..00b6cb7 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -28,6 +28,7 @@ type StructInfo struct {
 	TypName   string
 	PushScope bool
 	Methods   []*MethodInfo
+	TypCnt    int // how many node types share the struct
 }
 
 func genVisitor(output io.Writer, s *StructInfo) error {
@@ -48,8 +49,13 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
 
       {{ if eq $key 0 }}
-        CallVisitor(N_{{ $.TypName | UnPrefix }}_BEFORE, n, key, ctx)
-        defer CallVisitor(N_{{ $.TypName | UnPrefix }}_AFTER, n, key, ctx)
+        {{ if gt $.TypCnt 1 }}
+          CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+          defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
+        {{- else }}
+          CallVisitor(N_{{ $.TypName | UnPrefix }}_BEFORE, n, key, ctx)
+          defer CallVisitor(N_{{ $.TypName | UnPrefix }}_AFTER, n, key, ctx)
+        {{- end }}
       {{- end }}
 
       {{ if ne $value.Name "PUSH_SCOPE" }}
@@ -64,18 +70,23 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
     {{- end }}
   {{- else}}
-    CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
-    CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+    {{- if gt .TypCnt 1 }}
+      CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
+      CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
+    {{- else }}
+      CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
+      CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+    {{- end }}
   {{- end }}
 }
 
 {{ if ge (len .Methods) 1 }}
 func Visit{{ .Name }}Before(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
+  CallListener({{ if gt .TypCnt 1 }}NodeBeforeEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, node, key, ctx)
 }
 
 func Visit{{ .Name }}After(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+  CallListener({{ if gt .TypCnt 1 }}NodeAfterEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, node, key, ctx)
 }
 {{- end}}
   `)
@@ -317,7 +328,7 @@ func main() {
 		if ok {
 			return s
 		}
-		structColl[name] = &StructInfo{name, "", false, []*MethodInfo{}}
+		structColl[name] = &StructInfo{name, "", false, []*MethodInfo{}, 0}
 		return structColl[name]
 	}
 
@@ -333,6 +344,7 @@ func main() {
 
 			s := getStruct(structName)
 			s.TypName = nodeTyp
+			s.TypCnt += 1
 		} else if name, _, ok := macro.IsStructDec(ctx.Node); ok {
 			s := getStruct(name)
 			for _, n := range ctx.Args {
-- 
2.43.0


From a12c9f3d60e5668edc1302916b0b4967ee90d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:16 +0000
Subject: [PATCH 44/51] fix: the path of a visited node has a storage of its
 own

---
 ecma/walk/ctx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index 84bf76c..b9ecb43 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -99,7 +99,9 @@ func (c *WalkCtx) PopScope() {
 func (c *WalkCtx) PushVisitorCtx(node parser.Node, path string) {
 	vc := &VisitorCtx{c, c.vc, nil, node}
 	if c.Path {
-		vc.Path = append(c.vc.Path, path)
+		// siblings must not share the storage of their paths
+		parent := c.vc.Path
+		vc.Path = append(parent[:len(parent):len(parent)], path)
 	}
 	c.vc = vc
 }
-- 
2.43.0


From eeaee51e78947357de3ff5ef47248d1d271d0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:34 +0000
Subject: [PATCH 45/51] fix: a walk stopped in a before event visits nothing
 more

---
 ecma/walk/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index b9ecb43..51259f0 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -161,7 +161,8 @@ func (vc *VisitorCtx) ParentIsJmp(key string) bool {
 }
 
 func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
-	if n == nil {
+	// the walk may have been stopped in the before event of the parent
+	if n == nil || ctx.WalkCtx.stop {
 		return
 	}
 	ctx.WalkCtx.PushVisitorCtx(n, key)
-- 
2.43.0


From 0140d408957d4658d649e3953fa1c03fb91a48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:57 +0000
Subject: [PATCH 46/51] fix: the keys evicted from the LRU cache are forgotten

---
 util/lru.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..6ea9b73 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -16,6 +16,10 @@ func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
 	if clear == 0 || clear > cap {
 		clear = cap / 3
 	}
+	// a full store must be relieved of one element at least
+	if clear < 1 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
@@ -57,7 +61,7 @@ func (c *LruCache[K, V]) Set(key K, val V) {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-				c.store.list.Remove(elem)
+				c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 			}
 		}
 	}
-- 
2.43.0


From 8f78dda7e415624b802ce990a680659cdf12582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:48 +0000
Subject: [PATCH 47/51] fix: keep string literal expressions of templates when
 converting to ESTree

The strings and the expressions of a template alternate; telling them apart by
their node type turned ${'b'} into another quasi.
---
 ecma/estree/convert.go | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 11284d3..f13989f 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -147,28 +147,10 @@ func tplLiteral(tplLoc span.Range, elems []parser.Node, ctx *ConvertCtx) *Templa
 	exprs := make([]Expression, 0)
 	cnt := len(elems)
 	for i, elem := range elems {
-		first := i == 0
 		last := i == cnt-1
-		if elem.Type() != parser.N_LIT_STR {
-			if first || last {
-				lc := locOfRng(tplLoc, ctx.Parser.Source(), ctx)
-				if first {
-					lc.End.Column = lc.Start.Column
-				} else {
-					lc.Start.Column = lc.End.Column
-				}
-				quasis = append(quasis, &TemplateElement{
-					Type:  "TemplateElement",
-					Start: int(tplLoc.Lo),
-					End:   int(tplLoc.Hi),
-					Loc:   lc,
-					Tail:  last,
-					Value: &TemplateElementValue{
-						Cooked: "",
-						Raw:    "",
-					},
-				})
-			}
+		// the strings and the expressions of a template alternate, starting with a string, the
+		// expressions can be string literals themselves: `a${"b"}c`
+		if i%2 == 1 {
 			exprs = append(exprs, Convert(elem, ctx))
 		} else {
 			str := elem.(*parser.StrLit)
-- 
2.43.0


From ab569364bdd205d11aab6e175bf3e57813dba827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:52 +0000
Subject: [PATCH 48/51] fix: no nil dereference when converting to ESTree
 without line and column

With LineCol off, as in the ast command, there are no locations to widen for
type annotations, decorators and tags.
---
 ecma/estree/convert.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index f13989f..bc7988a 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -341,7 +341,9 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	firstRng, firstLoc := FirstLoc(s, ctx, starLocList...)
 	rng.Lo = firstRng.Lo
-	loc.Start = firstLoc.Start
+	if loc != nil {
+		loc.Start = firstLoc.Start
+	}
 
 	endLocList := []span.Range{}
 	if ti.TypAnnot() != nil {
@@ -351,14 +353,16 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	endRng, endLoc := LastLoc(s, ctx, endLocList...)
 	rng.Hi = endRng.Hi
-	loc.End = endLoc.End
+	if loc != nil {
+		loc.End = endLoc.End
+	}
 
 	return
 }
 
 func TplLocWithTag(n *parser.TplExpr, s *span.Source, ctx *ConvertCtx) *SrcLoc {
 	loc := CalcLoc(n, s, ctx)
-	if n.Tag() != nil {
+	if n.Tag() != nil && loc != nil {
 		tl := CalcLoc(n.Tag(), s, ctx)
 		loc.Start = tl.Start
 		loc.End = tl.End
@@ -409,7 +413,9 @@ func locWithDecorator(node parser.Node, ds []parser.Node, s *span.Source, ctx *C
 	}
 	d := ds[0]
 	dLoc := locOfNode(d, s, ctx)
-	loc.Start = dLoc.Start
+	if loc != nil {
+		loc.Start = dLoc.Start
+	}
 	rng.Lo = d.Range().Lo
 	return
 }
-- 
2.43.0


From 179c7ded783a5241cb66f7dce293325df5bc0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:26 +0000
Subject: [PATCH 49/51] fix: keep the type parameters of declared type aliases
 when converting to ESTree

---
 ecma/estree/ts_convert.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index e357329..18e34de 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -428,6 +428,7 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 			End:            int(n.Range().Hi),
 			Loc:            locOfNode(n, ctx.Parser.Source(), ctx),
 			Id:             Convert(dec.Id(), ctx),
+			TypeParameters: ConvertTsTyp(dec.TypParams(), ctx),
 			TypeAnnotation: typAnnot(dec.TypInfo(), ctx),
 			Declare:        true,
 		}
-- 
2.43.0


From ce11759a72812bc108c5d46661a247140b314234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 50/51] fix: keep type parameters, type arguments and
 implements of declared classes when converting to ESTree

---
 ecma/estree/ts_convert.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index 18e34de..54a660a 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -283,15 +283,18 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 		n := node.(*parser.TsDec)
 		cls := n.Inner().(*parser.ClassDec)
 		return &TSClassDeclaration{
-			Type:       "ClassDeclaration",
-			Start:      int(n.Range().Lo),
-			End:        int(cls.Range().Hi),
-			Loc:        locOfNode(n, ctx.Parser.Source(), ctx),
-			Id:         Convert(cls.Id(), ctx),
-			SuperClass: Convert(cls.Super(), ctx),
-			Body:       Convert(cls.Body(), ctx),
-			Declare:    true,
-			Abstract:   cls.Abstract(),
+			Type:                "ClassDeclaration",
+			Start:               int(n.Range().Lo),
+			End:                 int(cls.Range().Hi),
+			Loc:                 locOfNode(n, ctx.Parser.Source(), ctx),
+			Id:                  Convert(cls.Id(), ctx),
+			TypeParameters:      ConvertTsTyp(cls.TypParams(), ctx),
+			SuperClass:          Convert(cls.Super(), ctx),
+			SuperTypeParameters: ConvertTsTyp(cls.SuperTypArgs(), ctx),
+			Implements:          elems(cls.Implements(), ctx),
+			Body:                Convert(cls.Body(), ctx),
+			Declare:             true,
+			Abstract:            cls.Abstract(),
 		}
 	case parser.N_TS_IDX_SIG:
 		n := node.(*parser.TsIdxSig)
-- 
2.43.0


From bfdbd6377509ffcd03c6ceaa28643f1776c72c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:10 +0000
Subject: [PATCH 51/51] fix: no nil dereference for a TypeScript property named
 by a string

---
 ecma/parser/ts_ast.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/ts_ast.go b/ecma/parser/ts_ast.go
index aa471d8..d08d899 100644
--- a/ecma/parser/ts_ast.go
+++ b/ecma/parser/ts_ast.go
@@ -439,7 +439,10 @@ func (n *TsProp) Optional() bool {
 }
 
 func (n *TsProp) Readonly() bool {
-	if wt, ok := n.key.(NodeWithTypInfo); ok {
+	if n.readonly {
+		return true
+	}
+	if wt, ok := n.key.(NodeWithTypInfo); ok && wt.TypInfo() != nil {
 		return wt.TypInfo().Readonly()
 	}
 	return false
-- 
2.43.0

