package walk

// ---------------------------------------------------------------- the trace of a walk
// tr records which visitor or listener function was called with which node, key and parent
// context; sc records the scope current at each of these calls
sort Tr
ghost tr Tr
ghost sc Tr
fun w_dyn(Tr, Visitor, parser.Node, string, *VisitorCtx) Tr
fun w_sc(Tr, Visitor, parser.Node, int) Tr
fun w_stop(Tr) bool
fun w_opens(parser.Node) bool
fun visits(Tr, Ref, int, int, string, *VisitorCtx) Tr
fun svisits(Tr, Ref, int, int, int, *VisitorCtx) Tr
fun listened(Tr, parser.NodeType, parser.Node, string, *VisitorCtx) Tr
fun slistened(Tr, parser.NodeType, parser.Node, int, *VisitorCtx) Tr

// node kinds are those of the AST, not events of a walk
axiom trusted ntyp_range = forall n parser.Node :: {ntyp(n)} 0 <= ntyp(n) && ntyp(n) < parser.N_NODE_DEF_END

def sid(c *WalkCtx) = c.scopeIds[len(c.scopeIds) - 1]
def bev(t parser.NodeType) = N_BEFORE_AFTER_DEF_BEGIN + (parser.N_NODE_DEF_END - t) * 2 - 1
def aev(t parser.NodeType) = N_BEFORE_AFTER_DEF_BEGIN + (parser.N_NODE_DEF_END - t) * 2
def called(t Tr, ctx *VisitorCtx, e parser.NodeType, n parser.Node, key string, p *VisitorCtx) =
  ite(ctx.WalkCtx.Visitors[e] == nil, t, w_dyn(t, ctx.WalkCtx.Visitors[e], n, key, p))
def scalled(t Tr, ctx *VisitorCtx, e parser.NodeType, n parser.Node, id int) =
  ite(ctx.WalkCtx.Visitors[e] == nil, t, w_sc(t, ctx.WalkCtx.Visitors[e], n, id))
def visit(t Tr, ctx *VisitorCtx, n parser.Node, key string) = ite(n == nil || w_stop(t), t, called(t, ctx, ntyp(n), n, key, ctx))
def svisit(t Tr, ctx *VisitorCtx, n parser.Node, id int) = ite(n == nil, t, scalled(t, ctx, ntyp(n), n, id))

// the walk context is in step with the visitor context
def lsn(c *WalkCtx, t int) = c.Listeners[t] == nil || (c.Listeners[t].list != nil && (forall e *list.Element :: {lowner(lists, e)} (e != nil && lowner(lists, e) == c.Listeners[t].list) ==> (hastype(e.Value, type(*util.KvPair[string, *Listener])) && e.Value.(*util.KvPair[string, *Listener]) != nil && lsnr(e) != nil && lsnr(e).Handle != nil)))
def wk(ctx *VisitorCtx) = (forall t int :: {ctx.WalkCtx.Listeners[t]} (0 <= t && t < N_BEFORE_AFTER_DEF_END) ==> lsn(ctx.WalkCtx, t)) && ctx != nil && ctx.WalkCtx != nil && ctx.WalkCtx.vc == ctx && len(ctx.WalkCtx.scopeIds) > 0 && ctx.WalkCtx.stop == w_stop(tr)
def nodeIs(ctx *VisitorCtx, n parser.Node) = ctx.Node == n && n != nil
def sameScopes(c *WalkCtx) = len(c.scopeIds) == old(len(c.scopeIds)) && (forall i int :: {c.scopeIds[i]} (0 <= i && i < len(c.scopeIds)) ==> c.scopeIds[i] == old(c.scopeIds[i]))
def kept(ctx *VisitorCtx) = ctx.WalkCtx.vc == ctx && ctx.WalkCtx.stop == w_stop(tr) && sameScopes(ctx.WalkCtx)
def pushes(n parser.Node) = !hastype(n, type(CondNewScope)) || w_opens(n)

modset walking = ghost tr, ghost sc, field(WalkCtx, stop), field(WalkCtx, vc), field(WalkCtx, scopeIds), field(WalkCtx, scopeIdSeed), anyelems(int)

// a visitor or listener function: may do anything but disturb the walk context and the tree
callback dyn(fn, node, key, ctx)
  requires wk(ctx) && nodeIs(ctx, node)
  modifies *walking
  ensures tr == w_dyn(old(tr), fn, node, key, ctx.Parent)
  ensures sc == w_sc(old(sc), fn, node, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

iface CondNewScope.NewScope(n) (b)
  pure
  ensures b == w_opens(n)

extern log.Fatalf(format, v)
  pure
  ensures false

// ---------------------------------------------------------------- contexts
func WalkCtx.ScopeId(c) (id)
  property C09
  requires len(c.scopeIds) > 0
  ensures id == sid(c)

func WalkCtx.Scope(c) (s)
  property C09
  requires len(c.scopeIds) > 0 && c.Symtab != nil
  ensures s == c.Symtab.Scopes[sid(c)]

func WalkCtx.PushVisitorCtx(c, node, path)
  property C09
  requires c.vc != nil
  modifies c.vc
  ensures fresh(c.vc) && c.vc.WalkCtx == c && c.vc.Parent == old(c.vc) && c.vc.Node == node
  // the path of the node is that of its parent and its key, in storage of its own
  ensures c.Path ==> (len(c.vc.Path) == old(len(c.vc.Path)) + 1 && c.vc.Path[len(c.vc.Path) - 1] == path)
  ensures c.Path ==> (fresh(arr(c.vc.Path)) && (forall i int :: {c.vc.Path[i]} (0 <= i && i < old(len(c.vc.Path))) ==> c.vc.Path[i] == old(c.vc.Path[i])))
  ensures !c.Path ==> len(c.vc.Path) == 0

func WalkCtx.PopVisitorCtx(c)
  property C09
  requires c.vc != nil
  modifies c.vc
  ensures c.vc == old(c.vc.Parent)

func WalkCtx.PushScope(c)
  property C09
  let n = c.vc.Node
  let by = ite(ntyp(n) == parser.N_CLASS_BODY, ite(c.vc.Parent == nil, nil, c.vc.Parent.Node), n)
  requires c.vc != nil && c.vc.Node != nil
  modifies c.scopeIds, c.scopeIdSeed, elems(c.scopeIds)
  ensures !pushes(n) ==> sameScopes(c)
  ensures pushes(n) ==> (len(c.scopeIds) == old(len(c.scopeIds)) + 1 && (forall i int :: {c.scopeIds[i]} (0 <= i && i < old(len(c.scopeIds))) ==> c.scopeIds[i] == old(c.scopeIds[i])))
  // the scope that the parser has opened for the node
  ensures (pushes(n) && by in c.scopeOf) ==> sid(c) == c.scopeOf[by]
  ensures (pushes(n) && !(by in c.scopeOf)) ==> sid(c) == old(c.scopeIdSeed)
  ensures arr(c.scopeIds) == old(arr(c.scopeIds)) || fresh(arr(c.scopeIds))

func WalkCtx.PopScope(c)
  property C09
  let n = c.vc.Node
  requires c.vc != nil && c.vc.Node != nil && (pushes(c.vc.Node) ==> len(c.scopeIds) > 0)
  modifies c.scopeIds
  ensures !pushes(n) ==> sameScopes(c)
  ensures pushes(n) ==> (len(c.scopeIds) == old(len(c.scopeIds)) - 1 && (forall i int :: {c.scopeIds[i]} (0 <= i && i < len(c.scopeIds)) ==> c.scopeIds[i] == old(c.scopeIds[i])))

// ---------------------------------------------------------------- the steps of a walk
func CallVisitor(t, n, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, n) && 0 <= t && t < N_BEFORE_AFTER_DEF_END
  modifies *walking
  ensures tr == called(old(tr), ctx, t, n, key, ctx.Parent)
  ensures sc == scalled(old(sc), ctx, t, n, old(sid(ctx.WalkCtx)))
  ensures kept(ctx)

func VisitNode(n, key, ctx)
  property C09
  requires wk(ctx)
  modifies *walking
  ensures tr == visit(old(tr), ctx, n, key)
  ensures sc == ite(w_stop(old(tr)), old(sc), svisit(old(sc), ctx, n, old(sid(ctx.WalkCtx))))
  ensures kept(ctx)

func VisitNodes(n, ns, key, ctx)
  property C09
  requires wk(ctx)
  given f(int) Tr
  where f(0) == tr
  where forall i int :: {f(i)} (0 < i && i <= len(ns)) ==> f(i) == visit(f(i - 1), ctx, ns[i - 1], idxkey(key, i - 1))
  modifies *walking
  // the elements in order, up to the one at which the walk is stopped
  ensures exists k int :: {f(k)} 0 <= k && k <= len(ns) && tr == f(k) && (k < len(ns) ==> w_stop(f(k))) && (forall i int :: {f(i)} (0 < i && i < k) ==> !w_stop(f(i)))
  ensures kept(ctx)
  names tr == visits(old(tr), arr(ns), off(ns), len(ns), key, ctx)
  names sc == svisits(old(sc), arr(ns), off(ns), len(ns), old(sid(ctx.WalkCtx)), ctx)
  loop 0
    invariant kept(ctx) && tr == f($rangeindex + 1) && (forall i int :: {f(i)} (0 < i && i <= $rangeindex + 1) ==> !w_stop(f(i)))

def lst(ctx *VisitorCtx, t int) = ctx.WalkCtx.Listeners[t]
def lsnr(e *list.Element) = e.Value.(*util.KvPair[string, *Listener]).Val
func CallListener(t, n, key, ctx)
  property C09
  requires wk(ctx) && nodeIs(ctx, n) && 0 <= t && t < N_BEFORE_AFTER_DEF_END
  // each listener is called after those that were added before it, until one stops the walk
  given g(*list.Element) Tr
  where lst(ctx, t) != nil ==> g(lfront(lists, lst(ctx, t).list)) == tr
  where lst(ctx, t) != nil ==> (forall e *list.Element :: {g(lnext(lists, e))} (e != nil && lowner(lists, e) == lst(ctx, t).list) ==> g(lnext(lists, e)) == w_dyn(g(e), lsnr(e).Handle, n, key, ctx.Parent))
  modifies *walking
  ensures lst(ctx, t) == nil ==> tr == old(tr) && sc == old(sc)
  ensures lst(ctx, t) != nil ==> (exists e *list.Element :: {g(e)} tr == g(e) && (e != nil ==> (lowner(lists, e) == lst(ctx, t).list && w_stop(tr))) && (forall x *list.Element :: {g(x)} (x != nil && lowner(lists, x) == lst(ctx, t).list && x != lfront(lists, lst(ctx, t).list) && (e == nil || lrank(lists, x) < lrank(lists, e))) ==> !w_stop(g(x))))
  ensures kept(ctx)
  names tr == listened(old(tr), t, n, key, ctx)
  loop 0
    invariant forall x *list.Element :: {g(x)} (x != nil && lowner(lists, x) == lst(ctx, t).list && x != lfront(lists, lst(ctx, t).list) && (elem == nil || lrank(lists, x) <= lrank(lists, elem))) ==> !w_stop(g(x))
    invariant kept(ctx) && tr == g(elem) && (elem != nil ==> lowner(lists, elem) == lst(ctx, t).list)

func NodeBeforeEvent(t) (r)
  property C09
  requires 0 <= t && t < parser.N_NODE_DEF_END
  ensures r == bev(t)
func NodeAfterEvent(t) (r)
  property C09
  requires 0 <= t && t < parser.N_NODE_DEF_END
  ensures r == aev(t)

func NewWalkCtx(root, symtab) (c)
  property C09
  requires symtab != nil ==> (forall id int :: {id in symtab.Scopes} id in symtab.Scopes ==> symtab.Scopes[id] != nil)
  ensures c != nil && fresh(c) && c.Root == root && c.Symtab == symtab && !c.stop && !c.Path
  ensures c.vc != nil && c.vc.Node == root && c.vc.Parent == nil && c.vc.WalkCtx == c && len(c.vc.Path) == 0
  ensures len(c.scopeIds) == 1 && c.scopeIds[0] == 0
  // every visitor and listener is the default one
  ensures forall t int :: {c.Visitors[t]} (0 <= t && t < N_BEFORE_AFTER_DEF_END) ==> c.Visitors[t] == DefaultVisitors[t]
  ensures forall t int :: {c.Listeners[t]} (0 <= t && t < N_BEFORE_AFTER_DEF_END) ==> c.Listeners[t] == DefaultListeners[t]
  // the scopes of the symbol table by the node that introduces them
  ensures symtab != nil ==> (forall id int :: {id in symtab.Scopes} (id in symtab.Scopes && symtab.Scopes[id].Node != nil) ==> symtab.Scopes[id].Node in c.scopeOf)
  ensures symtab != nil ==> (forall n parser.Node :: {n in c.scopeOf} n in c.scopeOf ==> (c.scopeOf[n] in symtab.Scopes && symtab.Scopes[c.scopeOf[n]].Node == n))
  loop 0
    invariant forall id int :: {$visited[id]} ($visited[id] ==> id in symtab.Scopes) && (($visited[id] && symtab.Scopes[id].Node != nil) ==> symtab.Scopes[id].Node in c.scopeOf)
    invariant forall n parser.Node :: {n in c.scopeOf} n in c.scopeOf ==> (c.scopeOf[n] in symtab.Scopes && symtab.Scopes[c.scopeOf[n]].Node == n)
