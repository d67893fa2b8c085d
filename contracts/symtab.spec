package parser

bvtype ScopeKind
bvtype RefDefType

// ---------------------------------------------------------------- flag sets
func Feature.On(f, flag) (r)
  property C08
  ensures r == f | flag
func Feature.Off(f, flag) (r)
  property C08
  ensures r == f &^ flag
func Feature.Turn(f, flag, on) (r)
  property C08
  ensures on ==> r == f | flag
  ensures !on ==> r == f &^ flag
func RefDefType.On(t, flag) (r)
  property C08
  ensures r == t | flag
func RefDefType.Off(t, flag) (r)
  property C08
  ensures r == t &^ flag
func RefDefType.IsTyp(t) (b)
  property C08
  ensures b <==> t & RDT_TYPE != RDT_NONE
def pureTyp(t RefDefType) = t & RDT_TYPE != RDT_NONE && (t & RDT_CLASS == RDT_NONE || t & RDT_ENUM == RDT_NONE || t & RDT_CONST_ENUM == RDT_NONE)
func RefDefType.IsPureTyp(t) (b)
  property C08
  ensures b <==> pureTyp(t)
func RefDefType.IsVal(t) (b)
  property C08
  ensures b <==> !pureTyp(t)
func RefDefType.IsPureVal(t) (b)
  property C08
  ensures b <==> t & RDT_TYPE == RDT_NONE

// ---------------------------------------------------------------- scopes
func Scope.IsKind(s, kind) (b)
  property C08
  pure
  ensures b <==> s.Kind & kind != SPK_NONE
func Scope.AddKind(s, kind) (r)
  property C08
  modifies s.Kind
  ensures r == s && s.Kind == old(s.Kind) | kind
func Scope.EraseKind(s, kind) (r)
  property C08
  modifies s.Kind
  ensures r == s && s.Kind == old(s.Kind) &^ kind
func Scope.Local(s, name) (r)
  property C08
  ensures r == s.Refs[name]

func NewScope() (s)
  property C08
  ensures fresh(s) && s.Id == 0 && s.Kind == SPK_NONE && s.Up == nil && len(s.Down) == 0 && len(s.Labels) == 0 && len(s.Exports) == 0
  ensures s.Refs != nil && fresh(s.Refs) && len(s.Refs) == 0 && (forall n string :: {n in s.Refs} !(n in s.Refs))
  ensures s.uniqueLabels != nil && fresh(s.uniqueLabels) && len(s.uniqueLabels) == 0 && (forall n string :: {n in s.uniqueLabels} !(n in s.uniqueLabels))

// the nearest scope of a kind, going outwards; nil when there is none
func Scope.UpperFn(s) (r)
  property C08
  given near(*Scope) *Scope
  where near(nil) == nil
  where forall x *Scope :: {near(x)} x != nil ==> near(x) == ite(x.Kind & (SPK_FUNC | SPK_GLOBAL) != SPK_NONE, x, near(x.Up))
  ensures r == near(s)
  loop 0
    invariant near(scope) == near(s)

func Scope.UpperCls(s) (r)
  property C08
  given near(*Scope) *Scope
  where near(nil) == nil
  where forall x *Scope :: {near(x)} x != nil ==> near(x) == ite(x.Kind & SPK_CLASS != SPK_NONE, x, near(x.Up))
  ensures r == near(s)
  loop 0
    invariant near(scope) == near(s)

func Scope.UpperLoop(s) (r)
  property C08
  given near(*Scope) *Scope
  where near(nil) == nil
  where forall x *Scope :: {near(x)} x != nil ==> near(x) == ite(x.Kind & SPK_LOOP_DIRECT != SPK_NONE, x, near(x.Up))
  ensures r == near(s)
  loop 0
    invariant near(scope) == near(s)

def ofKind(x *Scope, ks *[]ScopeKind) = exists j int :: {deref(ks)[j]} 0 <= j && j < len(deref(ks)) && x.Kind & deref(ks)[j] != SPK_NONE
func Scope.UpperScope(s, kinds) (r)
  property C08
  requires kinds != nil
  given near(*Scope) *Scope
  where near(nil) == nil
  where forall x *Scope :: {near(x)} x != nil ==> near(x) == ite(ofKind(x, kinds), x, near(x.Up))
  ensures r == near(s)
  loop 0
    invariant near(scope) == near(s)
  loop 1
    invariant near(scope) == near(s) && scope != nil
    invariant forall j int :: {deref(kinds)[j]} 0 <= j && j <= $rangeindex ==> scope.Kind & deref(kinds)[j] == SPK_NONE

func Scope.OuterScope(s) (r)
  property C08
  ensures r == ite(s.Kind & SPK_GLOBAL != SPK_NONE, s, s.Up)

func Scope.OuterFn(s) (r)
  property C08
  given near(*Scope) *Scope
  where near(nil) == nil
  where forall x *Scope :: {near(x)} x != nil ==> near(x) == ite(x.Kind & (SPK_FUNC | SPK_GLOBAL) != SPK_NONE, x, near(x.Up))
  ensures r == near(ite(s.Kind & SPK_GLOBAL != SPK_NONE, s, s.Up))
  loop 0
    invariant near(scope) == near(ite(s.Kind & SPK_GLOBAL != SPK_NONE, s, s.Up))

// name resolution: the innermost enclosing scope that binds the name decides
func Scope.BindingOf(s, name) (r)
  property C08
  given binding(*Scope) *Ref
  where binding(nil) == nil
  where forall x *Scope :: {binding(x)} x != nil ==> binding(x) == ite(x.Refs[name] != nil, x.Refs[name], binding(x.Up))
  ensures r == binding(s)
  loop 0
    invariant binding(scope) == binding(s)

func Scope.HasName(s, name) (b)
  property C08
  given binding(*Scope) *Ref
  where binding(nil) == nil
  where forall x *Scope :: {binding(x)} x != nil ==> binding(x) == ite(x.Refs[name] != nil, x.Refs[name], binding(x.Up))
  ensures b <==> binding(s) != nil

func Scope.HasLabel(s, name) (b)
  property C08
  ensures b <==> name in s.uniqueLabels

// labels are looked up to the nearest function boundary, not beyond
func Scope.GetLabel(s, name) (r)
  property C08
  given label(*Scope) Node
  where label(nil) == nil
  where forall x *Scope :: {label(x)} x != nil ==> label(x) == ite(x.uniqueLabels[name] != nil, x.uniqueLabels[name], ite(x.Kind & SPK_FUNC != SPK_NONE, nil, label(x.Up)))
  ensures r == label(s)
  loop 0
    invariant label(scope) == label(s)

func Scope.DelLocal(s, ref)
  property C08
  requires s.Refs != nil && ref != nil && ref.Id != nil
  modifies mapof(s.Refs)
  ensures s.Refs[ref.Id.val] == nil
  ensures forall n string :: {s.Refs[n]} n != ref.Id.val ==> s.Refs[n] == old(s.Refs[n])

func Ref.RetainBy(r, ref)
  property C08
  requires ref != nil
  modifies ref.Forward
  ensures ref.Forward == r

// ---------------------------------------------------------------- what may share a name
def has(r *Ref, f RefDefType) = r.Typ & f != RDT_NONE
func IsCallableClass(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> ite(has(r1, RDT_FN), has(r2, RDT_CLASS) && has(r2, RDT_TYPE), has(r2, RDT_FN) && has(r1, RDT_CLASS) && has(r1, RDT_TYPE))
func IsBothFnTypDec(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (has(r1, RDT_FN) && has(r1, RDT_TYPE) && has(r2, RDT_FN) && has(r2, RDT_TYPE))
func IsBothTyp(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (has(r1, RDT_TYPE) && has(r2, RDT_TYPE))
def isVal(r *Ref) = !pureTyp(r.Typ)
func IsBothVal(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (isVal(r1) && isVal(r2))
func IsClsAndIft(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> ite(has(r1, RDT_CLASS), has(r2, RDT_ITF), has(r2, RDT_CLASS) && has(r1, RDT_ITF))
func IsBothEnum(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (has(r1, RDT_ENUM) && has(r2, RDT_ENUM) || has(r1, RDT_CONST_ENUM) && has(r2, RDT_CONST_ENUM))
func IsEnumAndVal(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (has(r1, RDT_ENUM) != has(r2, RDT_ENUM))
func IsBothItf(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (has(r1, RDT_ITF) && has(r2, RDT_ITF))
func IsOneOfNs(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> (has(r1, RDT_NS) || has(r2, RDT_NS))

def callableCls(a *Ref, b *Ref) = ite(has(a, RDT_FN), has(b, RDT_CLASS) && has(b, RDT_TYPE), has(b, RDT_FN) && has(a, RDT_CLASS) && has(a, RDT_TYPE))
def clsItf(a *Ref, b *Ref) = ite(has(a, RDT_CLASS), has(b, RDT_ITF), has(b, RDT_CLASS) && has(a, RDT_ITF))
def mayShare(a *Ref, b *Ref) =
  callableCls(a, b) || (has(a, RDT_FN) && has(a, RDT_TYPE) && has(b, RDT_FN) && has(b, RDT_TYPE)) || clsItf(a, b)
  || (has(a, RDT_ENUM) && has(b, RDT_ENUM) || has(a, RDT_CONST_ENUM) && has(b, RDT_CONST_ENUM))
  || (has(a, RDT_ENUM) == has(b, RDT_ENUM) && (has(a, RDT_ITF) && has(b, RDT_ITF) || has(a, RDT_NS) || has(b, RDT_NS)
      || (!(has(a, RDT_TYPE) && has(b, RDT_TYPE)) && !(isVal(a) && isVal(b)))))
func CheckRefDup(r1, r2) (b)
  property C08
  requires r1 != nil && r2 != nil
  ensures b <==> mayShare(r1, r2)

// ---------------------------------------------------------------- adding a binding
def clashLocal(l *Ref, r *Ref) = l != nil && ((l.BindKind != BK_VAR && l.BindKind != BK_PARAM && l.Typ != RDT_FN && l.Scope.Id != 0) || r.BindKind != BK_VAR)
def clashFn(l *Ref, r *Ref) = l != nil && l.BindKind != BK_PARAM && ((l.BindKind != BK_VAR && l.Typ != RDT_FN) || (l.Scope.Id == 0 && l.Typ == RDT_FN))

func Scope.AddLocal(s, ref, name, checkDup) (ok)
  property C08
  given near(*Scope) *Scope
  where near(nil) == nil
  where forall x *Scope :: {near(x)} x != nil ==> near(x) == ite(x.Kind & (SPK_FUNC | SPK_GLOBAL) != SPK_NONE, x, near(x.Up))
  let ps = near(s)
  let inScope = s.Refs[name]
  let inFn = ps.Refs[name]
  let isVar = ref.BindKind == BK_VAR
  let caught = s.Kind & SPK_CATCH != SPK_NONE && inScope != nil
  let stopFn = isVar && checkDup && clashFn(inFn, ref)
  let stopHere = checkDup && clashLocal(inScope, ref)
  requires ref != nil && s.Refs != nil
  requires ref.BindKind == BK_VAR ==> near(s) != nil && near(s).Refs != nil
  requires inScope != nil ==> inScope.Scope != nil
  requires ref.BindKind == BK_VAR && inFn != nil ==> inFn.Scope != nil
  modifies mapof(s.Refs), mapof(near(s).Refs), ref.Scope
  // a catch parameter may not be redeclared in its own scope
  ensures caught ==> !ok
  // a clash is accepted exactly when the two declarations may share a name
  ensures !caught && stopFn ==> (ok <==> mayShare(inFn, ref))
  ensures !caught && !stopFn && stopHere ==> (ok <==> mayShare(inScope, ref))
  // otherwise the binding is recorded here ...
  ensures !caught && !stopFn && !stopHere ==> ok && s.Refs[name] == ref && ref.Scope == s
  // ... and a `var` also in the enclosing function scope
  ensures !caught && !stopFn && isVar ==> ps.Refs[name] == ref
  // rejected or merged declarations leave the scope as it was
  ensures caught || stopFn ==> s.Refs[name] == inScope
  ensures stopHere && !isVar ==> s.Refs[name] == inScope
  ensures caught || stopFn || stopHere ==> ref.Scope == old(ref.Scope)
  // no other name is touched
  ensures forall n string :: {s.Refs[n]} n != name ==> s.Refs[n] == old(s.Refs[n]) && ((n in s.Refs) <==> old(n in s.Refs))
  ensures isVar ==> (forall n string :: {ps.Refs[n]} n != name ==> ps.Refs[n] == old(ps.Refs[n]))
  ensures !isVar && ps != nil && ps.Refs != s.Refs ==> (forall n string :: {ps.Refs[n]} ps.Refs[n] == old(ps.Refs[n]))

// ---------------------------------------------------------------- scope tree
func SymTab.HasExternal(s, name) (b)
  property C08
  ensures b <==> (exists k int :: {s.Externals[k]} 0 <= k && k < len(s.Externals) && s.Externals[k] == name)
  loop 0
    invariant forall k int :: {s.Externals[k]} (0 <= k && k <= $rangeindex) ==> s.Externals[k] != name

func SymTab.LeaveScope(s) (r)
  property C08
  requires s.Cur != nil && s.Cur.Up != nil && s.Scopes != nil
  // every settled scope stays registered under its id
  modifies s.Cur
  ensures r == old(s.Cur) && s.Cur == old(s.Cur.Up)

func NewSymTab(externals) (s)
  property C08
  ensures fresh(s) && s.Root != nil && s.Cur == s.Root && s.Scopes != nil && s.Scopes[0] == s.Root && s.Root.Id == 0 && s.Root.Up == nil
  ensures s.Externals == externals

// what a scope passes on to the scopes opened inside it
func SymTab.EnterScope(s, fn, arrow, settled) (r)
  property C08
  let cur = s.Cur
  let k = s.Cur.Kind
  requires s.Cur != nil && s.Scopes != nil && s.scopeIdSeed < 9223372036854775807
  modifies s.scopeIdSeed, s.Cur, mapof(s.Scopes), s.Cur.Down, anyelems(*Scope)
  // a new, empty scope, linked to the one it was opened in
  ensures fresh(r) && s.Cur == r && r.Up == cur && r.Id == s.scopeIdSeed
  ensures s.scopeIdSeed == ite(settled, old(s.scopeIdSeed) + 1, old(s.scopeIdSeed))
  ensures r.Refs != nil && fresh(r.Refs) && (forall n string :: {n in r.Refs} !(n in r.Refs))
  ensures settled ==> s.Scopes[r.Id] == r
  // a settled scope is never replaced, in particular not by a temporary one
  ensures forall i int :: {s.Scopes[i]} (!settled || i != r.Id) ==> s.Scopes[i] == old(s.Scopes[i])
  ensures len(cur.Down) == old(len(cur.Down)) + 1 && cur.Down[len(cur.Down) - 1] == r
  ensures forall i int :: {cur.Down[i]} 0 <= i && i < old(len(cur.Down)) ==> cur.Down[i] == old(cur.Down[i])
  // labels reach into blocks but not into functions
  ensures r.uniqueLabels != nil && fresh(r.uniqueLabels)
  ensures fn ==> (forall n string :: {n in r.uniqueLabels} !(n in r.uniqueLabels))
  ensures !fn ==> (forall n string :: {n in r.uniqueLabels} ((n in r.uniqueLabels) <==> (n in cur.uniqueLabels)) && r.uniqueLabels[n] == cur.uniqueLabels[n])
  // exactly these kinds are passed on
  ensures (r.Kind & SPK_FUNC != SPK_NONE) <==> fn
  ensures (r.Kind & SPK_BLOCK != SPK_NONE) <==> !fn
  ensures (r.Kind & SPK_LOOP_INDIRECT != SPK_NONE) <==> (!fn && k & (SPK_LOOP_DIRECT | SPK_LOOP_INDIRECT) != SPK_NONE)
  ensures (r.Kind & SPK_SWITCH_INDIRECT != SPK_NONE) <==> (!fn && k & (SPK_SWITCH | SPK_SWITCH_INDIRECT) != SPK_NONE)
  ensures (r.Kind & SPK_TRY_INDIRECT != SPK_NONE) <==> (!fn && k & (SPK_TRY | SPK_TRY_INDIRECT) != SPK_NONE)
  ensures (r.Kind & SPK_FORMAL_PARAMS != SPK_NONE) <==> (!fn && k & (SPK_FORMAL_PARAMS) != SPK_NONE)
  ensures (r.Kind & SPK_GENERATOR != SPK_NONE) <==> (!fn && k & (SPK_GENERATOR) != SPK_NONE)
  ensures (r.Kind & SPK_ASYNC != SPK_NONE) <==> (!fn && k & (SPK_ASYNC) != SPK_NONE)
  ensures (r.Kind & SPK_FUNC_INDIRECT != SPK_NONE) <==> (k & (SPK_FUNC | SPK_FUNC_INDIRECT) != SPK_NONE)
  ensures (r.Kind & SPK_CLASS_INDIRECT != SPK_NONE) <==> (k & (SPK_CLASS | SPK_CLASS_INDIRECT) != SPK_NONE)
  ensures (r.Kind & SPK_CLASS_HAS_SUPER != SPK_NONE) <==> (k & (SPK_CLASS_HAS_SUPER) != SPK_NONE)
  ensures (r.Kind & SPK_STRICT != SPK_NONE) <==> (k & (SPK_STRICT) != SPK_NONE)
  ensures (r.Kind & SPK_ABSTRACT_CLASS != SPK_NONE) <==> (k & (SPK_ABSTRACT_CLASS) != SPK_NONE)
  ensures (r.Kind & SPK_TS_DECLARE != SPK_NONE) <==> (k & (SPK_TS_DECLARE) != SPK_NONE)
  ensures (r.Kind & SPK_TS_MODULE_INDIRECT != SPK_NONE) <==> (k & (SPK_TS_MODULE | SPK_TS_MODULE_INDIRECT) != SPK_NONE)
  ensures (r.Kind & SPK_CTOR != SPK_NONE) <==> ((!fn || arrow) && k & (SPK_CTOR) != SPK_NONE)
  ensures r.Kind &^ (SPK_FUNC | SPK_BLOCK | SPK_LOOP_INDIRECT | SPK_SWITCH_INDIRECT | SPK_TRY_INDIRECT | SPK_FORMAL_PARAMS | SPK_GENERATOR | SPK_ASYNC | SPK_FUNC_INDIRECT | SPK_CLASS_INDIRECT | SPK_CLASS_HAS_SUPER | SPK_STRICT | SPK_ABSTRACT_CLASS | SPK_TS_DECLARE | SPK_TS_MODULE_INDIRECT | SPK_CTOR) == SPK_NONE
  loop 0
    invariant forall n string :: {n in scope.uniqueLabels} (n in scope.uniqueLabels) <==> n in $visited
    invariant forall n string :: {n in $visited} n in $visited ==> n in cur.uniqueLabels
    invariant forall n string :: {scope.uniqueLabels[n]} n in $visited ==> scope.uniqueLabels[n] == cur.uniqueLabels[n]
    invariant forall n string :: {n in cur.uniqueLabels} (n in cur.uniqueLabels) <==> old(n in cur.uniqueLabels)
    invariant forall n string :: {cur.uniqueLabels[n]} cur.uniqueLabels[n] == old(cur.uniqueLabels[n])
