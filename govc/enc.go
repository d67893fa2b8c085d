package main

// Verification-condition generator: SSA of the real code -> SMT-LIB.
//
// Memory model (per-field heaps, Burstall/Bornat): every struct field, slice
// element type and pointed-to scalar type has its own map from references to
// values.  References are an algebraic datatype (root objects, embedded
// sub-objects, array elements), so distinct places are distinct by
// construction.  Loops are cut at their headers by invariants, calls are
// replaced by contracts (or inlined when the callee has none).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

type Val struct {
	T     types.Type
	L     []string
	Addr  *Addr
	Fn    *FuncVal
	Tuple []Val
	Dyn   *Val // for interface values: the concrete value boxed, when known
	Iter  *IterVal
	Lit   bool // untyped integer literal of the contract language
	LF    *FunDecl
}

type Addr struct {
	Struct *types.Struct
	SKey   string
	Field  int
	Base   string
}

type FuncVal struct {
	Fn   *ssa.Function
	Bind []Val
}

type IterVal struct {
	Over Val
	Key  string // ghost heap key holding the visited set / position
}

type State struct {
	vb    int
	reach string
	heap  map[string]string
	epoch int
}

func (s *State) clone() *State {
	h := make(map[string]string, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.vb, s.reach, h, s.epoch}
}

type fact struct {
	vb   int
	term string
}

type Obligation struct {
	Func   string
	Label  string
	Kind   string
	Pos    string
	Props  []string
	vb     int
	nfacts int
	reach  string
	goal   string
	Result string
	Solver string
	TimeMs int64
	Model  string
	Output string
	key    string
}

type Enc struct {
	pr         *Program
	specs      *SpecSet
	fn         *ssa.Function
	con        *Contract
	decls      []string
	declSet    map[string]bool
	facts      []fact
	obls       []*Obligation
	vbPar      [][]int
	n          int
	heapSort   map[string]string
	strLits    map[string]string
	litOrder   []string
	tags       map[string]int
	tagTyps    []types.Type
	ifaces     map[string]types.Type
	fids       map[string]int
	loopMods   map[string]map[string]bool
	loopEpoch  map[string]bool
	restart    bool
	entry      *State
	topFrame   *frame
	mods       []modRef
	modAll     bool
	globals    map[string]int
	usedFuns   map[string]bool
	externUsed map[string]bool
	inlined    map[string]bool
	called     map[string]bool
	stores     map[string]storeDef
	lfCache    map[string][]Val
	oblCount   map[string]int
	depth      int
	metaSel    map[string]int
	metaOpts   map[string]int
	unrolled   map[string]bool
	axInProg   bool
	trusted    map[string]bool
	named      map[string]string
	immVals    map[string]Val
	heapKey    map[string]string     // SMT name of a heap version -> heap key
	heapTyp    map[string]types.Type // Go type held in a heap's cells, when integral
}

type modRef struct {
	key  string // heap key; prefix match when all
	cond func(r string) string
}

func (e *Enc) fresh(p string) string {
	e.n++
	return fmt.Sprintf("%s!%d", sanitize(p), e.n)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '@' || c == '$' {
			b.WriteRune(c)
		} else {
			b.WriteRune('_')
		}
	}
	return b.String()
}

func (e *Enc) declare(name, sort string) string {
	if !e.declSet[name] {
		e.declSet[name] = true
		e.decls = append(e.decls, fmt.Sprintf("(declare-const %s %s)", name, sort))
	}
	return name
}

func (e *Enc) constOf(p, sort string) string { return e.declare(e.fresh(p), sort) }

// assume adds a fact that holds when the current point is reached.
func (e *Enc) assume(st *State, t string) {
	if t == "true" || t == "" {
		return
	}
	if st.reach == "true" {
		e.facts = append(e.facts, fact{st.vb, t})
		return
	}
	e.facts = append(e.facts, fact{st.vb, "(=> " + st.reach + " " + t + ")"})
}

// define adds an unconditional definitional fact.
func (e *Enc) define(st *State, t string) { e.facts = append(e.facts, fact{st.vb, t}) }

func (e *Enc) oblige(st *State, kind, label, pos, goal string, props []string) {
	if goal == "true" {
		// still counted: trivially discharged by construction
	}
	k := kind + ":" + label
	e.oblCount[k]++
	o := &Obligation{Func: e.key(), Label: label, Kind: kind, Pos: pos, Props: props, vb: st.vb, nfacts: len(e.facts), reach: st.reach, goal: goal}
	o.key = fmt.Sprintf("%s#%s#%d", e.key(), k, e.oblCount[k])
	e.obls = append(e.obls, o)
	// a checked fact may be used afterwards
	if kind != "frame" {
		e.assume(st, goal)
	}
}

func (e *Enc) key() string { return e.con.Pkg + "." + e.con.Name }

func (e *Enc) newVB(parents ...int) int {
	e.vbPar = append(e.vbPar, parents)
	return len(e.vbPar) - 1
}

// ---------------------------------------------------------------- sorts

const fltSort = "(_ FloatingPoint 11 53)"

type ghostType struct {
	types.Type
	name string
}

func (g *ghostType) Underlying() types.Type { return g }
func (g *ghostType) String() string         { return "ghost " + g.name }

func typeKey(t types.Type) string {
	return canonAny(canonTyp(t, func(p *types.Package) string { return p.Name() }))
}

// canonTyp prints a type with type arguments left out and every type parameter
// written alike: all instances of a generic type are one type in the encoding.
func canonTyp(t types.Type, q types.Qualifier) string {
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return "TPar"
	case *types.Pointer:
		return "*" + canonTyp(t.Elem(), q)
	case *types.Slice:
		return "[]" + canonTyp(t.Elem(), q)
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), canonTyp(t.Elem(), q))
	case *types.Map:
		return "map[" + canonTyp(t.Key(), q) + "]" + canonTyp(t.Elem(), q)
	case *types.Named:
		if t.TypeArgs().Len() > 0 || t.TypeParams().Len() > 0 {
			if p := t.Obj().Pkg(); p != nil {
				if q == nil {
					return p.Path() + "." + t.Obj().Name()
				}
				return q(p) + "." + t.Obj().Name()
			}
			return t.Obj().Name()
		}
	}
	return types.TypeString(types.Unalias(t), q)
}

func (e *Enc) intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

func (e *Enc) isBV(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return e.specs.BVTypes[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
}

type Leaf struct {
	Suffix string
	Sort   string
	T      types.Type
}

func (e *Enc) leaves(t types.Type) []Leaf {
	if g, ok := t.(*ghostType); ok {
		return []Leaf{{"", g.name, t}}
	}
	if e.isBV(t) {
		b, _, _ := e.intInfo(t)
		return []Leaf{{"", fmt.Sprintf("(_ BitVec %d)", b), t}}
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return []Leaf{{"", "TPar", t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", "Bool", t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", "Int", t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", fltSort, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", "Str", t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", "Ref", t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", "Ref", t}}
		}
		unsupported("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", "Ref", t}}
	case *types.Interface:
		return []Leaf{{"", "Iface", t}}
	case *types.Slice:
		return []Leaf{{"#arr", "Ref", t}, {"#off", "Int", t}, {"#len", "Int", t}, {"#cap", "Int", t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range e.leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Suffix, l.Sort, l.T})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		if smallArr(t) {
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range e.leaves(u.Elem()) {
					out = append(out, Leaf{fmt.Sprintf("[%d]%s", i, l.Suffix), l.Sort, l.T})
				}
			}
			return out
		}
		for _, l := range e.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Suffix, "(Array Int " + l.Sort + ")", l.T})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, e.leaves(u.At(i).Type())...)
		}
		return out
	}
	unsupported("type %s", t)
	return nil
}

func (e *Enc) zeroLeaf(sort string) string {
	switch {
	case sort == "Int":
		return "0"
	case sort == "Bool":
		return "false"
	case sort == "Str":
		return e.strLit("")
	case sort == "Ref":
		return "nil"
	case sort == "Iface":
		return "inil"
	case sort == "TPar":
		return "tpzero"
	case sort == fltSort:
		return "(_ +zero 11 53)"
	case strings.HasPrefix(sort, "(_ BitVec "):
		return fmt.Sprintf("(_ bv0 %s", sort[len("(_ BitVec "):])
	case strings.HasPrefix(sort, "(Array Int "):
		return fmt.Sprintf("((as const %s) %s)", sort, e.zeroLeaf(sort[len("(Array Int "):len(sort)-1]))
	}
	unsupported("zero of sort %s", sort)
	return ""
}

func (e *Enc) zero(t types.Type) Val {
	v := Val{T: t}
	for _, l := range e.leaves(t) {
		v.L = append(v.L, e.zeroLeaf(l.Sort))
	}
	return v
}

// wf states what every value of Go type t satisfies in any execution.
func (e *Enc) wf(st *State, v Val) string {
	var out []string
	ls := e.leaves(v.T)
	for i, l := range ls {
		if i >= len(v.L) {
			break
		}
		x := v.L[i]
		if l.Sort == "Int" {
			if strings.HasSuffix(l.Suffix, "#off") || strings.HasSuffix(l.Suffix, "#len") {
				out = append(out, "(<= 0 "+x+")")
				if strings.HasSuffix(l.Suffix, "#len") {
					out = append(out, "(<= "+x+" "+v.L[i+1]+")")
				}
			} else if strings.HasSuffix(l.Suffix, "#cap") {
				out = append(out, "(<= "+x+" 1099511627776)")
			} else if f := e.rangeFact(l.T, x); f != "" {
				out = append(out, f)
			}
		} else if l.Sort == "Ref" && !strings.HasSuffix(l.Suffix, "[]") {
			out = append(out, "(< (rootid "+x+") "+e.next(st)+")")
			if strings.HasSuffix(l.Suffix, "#arr") {
				out = append(out, "(=> (= "+x+" nil) (= "+v.L[i+3]+" 0))")
			}
		} else if l.Sort == "Iface" {
			out = append(out, "(=> (and ((_ is imk) "+x+") ((_ is pref) (ipay "+x+"))) (< (rootid (pr (ipay "+x+"))) "+e.next(st)+"))")
			if it, ok := l.T.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				out = append(out, "(=> (not (= "+x+" inil)) (implements (itag "+x+") "+e.ifaceID(l.T)+"))")
			}
		}
	}
	return and(out...)
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "" || x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	if len(ys) == 0 {
		return "true"
	}
	if len(ys) == 1 {
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "" || x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	if len(ys) == 0 {
		return "false"
	}
	if len(ys) == 1 {
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	return "(not " + x + ")"
}

func (e *Enc) rangeFact(t types.Type, x string) string {
	b, s, ok := e.intInfo(t)
	if !ok {
		return ""
	}
	if s {
		switch b {
		case 8:
			return "(<= (- 128) " + x + " 127)"
		case 16:
			return "(<= (- 32768) " + x + " 32767)"
		case 32:
			return "(<= (- 2147483648) " + x + " 2147483647)"
		}
		return "(<= (- 9223372036854775808) " + x + " 9223372036854775807)"
	}
	switch b {
	case 8:
		return "(<= 0 " + x + " 255)"
	case 16:
		return "(<= 0 " + x + " 65535)"
	case 32:
		return "(<= 0 " + x + " 4294967295)"
	}
	return "(<= 0 " + x + " 18446744073709551615)"
}

// wrap reduces a mathematical result to machine range. Signed 64-bit
// arithmetic is left mathematical (recorded as an assumption).
func (e *Enc) wrap(t types.Type, x string) string {
	b, s, ok := e.intInfo(t)
	if !ok || (s && b == 64) {
		return x
	}
	var m, half string
	switch b {
	case 8:
		m, half = "256", "128"
	case 16:
		m, half = "65536", "32768"
	case 32:
		m, half = "4294967296", "2147483648"
	default:
		m, half = "18446744073709551616", "9223372036854775808"
	}
	if s {
		return "(- (mod (+ " + x + " " + half + ") " + m + ") " + half + ")"
	}
	return "(mod " + x + " " + m + ")"
}

func intLit(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (e *Enc) strLit(s string) string {
	if n, ok := e.strLits[s]; ok {
		return n
	}
	n := fmt.Sprintf("str!%d", len(e.strLits))
	e.strLits[s] = n
	e.litOrder = append(e.litOrder, s)
	return n
}

func (e *Enc) tag(t types.Type) string {
	t = types.Unalias(t)
	k := typeKeyFull(t)
	if n, ok := e.tags[k]; ok {
		return fmt.Sprint(n)
	}
	n := len(e.tags) + 1
	e.tags[k] = n
	e.tagTyps = append(e.tagTyps, t)
	return fmt.Sprint(n)
}

func typeKeyFull(t types.Type) string { return canonAny(canonTyp(t, nil)) }

var anyRe = regexp.MustCompile(`\bany\b`)

// any and interface{} are one type
func canonAny(s string) string { return anyRe.ReplaceAllString(s, "interface{}") }

func (e *Enc) ifaceID(t types.Type) string {
	k := "if:" + typeKeyFull(t)
	e.ifaces[k] = t
	if _, ok := e.fids[k]; !ok {
		e.fids[k] = len(e.fids) + 1
	}
	return fmt.Sprint(e.fids[k])
}

func (e *Enc) fid(skey string, f int, name string) string {
	k := skey + "." + name
	if _, ok := e.fids[k]; !ok {
		e.fids[k] = len(e.fids) + 1
	}
	return fmt.Sprint(e.fids[k])
}

// ---------------------------------------------------------------- heap

func (e *Enc) heapName(st *State, key, sort string) string {
	if s, ok := e.heapSort[key]; ok && s != sort {
		unsupported("heap %s used at sorts %s and %s", key, s, sort)
	}
	e.heapSort[key] = sort
	n, ok := st.heap[key]
	if !ok {
		n = fmt.Sprintf("H.%s@%d", sanitize(key), st.epoch)
		st.heap[key] = n
	}
	e.declare(n, e.heapSMT(key))
	e.heapKey[n] = key
	return n
}

func (e *Enc) heapSMT(key string) string {
	s := e.heapSort[key]
	if strings.HasPrefix(key, "ghost:") {
		return s
	}
	return "(Array Ref " + s + ")"
}

func (e *Enc) next(st *State) string { return e.heapName(st, "ghost:next!", "Int") }

func (e *Enc) heapSet(st *State, key, sort, ref, val string) {
	old := e.heapName(st, key, sort)
	n := e.fresh("H." + key)
	e.declare(n, e.heapSMT(key))
	st.heap[key] = n
	e.define(st, fmt.Sprintf("(= %s (store %s %s %s))", n, old, ref, val))
	e.stores[n] = storeDef{old, ref, val}
}

func (e *Enc) heapFresh(st *State, key string) (old, nw string) {
	old = e.heapName(st, key, e.heapSort[key])
	nw = e.fresh("H." + key)
	e.declare(nw, e.heapSMT(key))
	st.heap[key] = nw
	return
}

// storeDef: a heap version made from another one by a single store.
type storeDef struct{ base, ref, val string }

// mergeStores joins heap versions that differ from a common one by stores to
// one cell only: the join is then a single store of the selected value.
func (e *Enc) mergeStores(s *State, k, n string, names []string, ins []edgeIn) bool {
	seen := map[string]int{}
	for _, nm := range names {
		for c, d := nm, 0; d < 64; d++ {
			seen[c]++
			sd, ok := e.stores[c]
			if !ok {
				break
			}
			c = sd.base
		}
	}
	// the nearest version all of them descend from
	base := names[0]
	for seen[base] < len(names) {
		sd, ok := e.stores[base]
		if !ok {
			return false
		}
		base = sd.base
	}
	ref := ""
	vals := make([]string, len(names))
	for i, nm := range names {
		for c := nm; c != base; {
			sd, ok := e.stores[c]
			if !ok || ref != "" && sd.ref != ref {
				return false
			}
			ref = sd.ref
			if vals[i] == "" {
				vals[i] = sd.val
			}
			c = sd.base
		}
	}
	if ref == "" {
		return false
	}
	v := "(select " + base + " " + ref + ")"
	for i := range vals {
		if vals[i] == "" {
			vals[i] = v
		}
	}
	t := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		t = "(ite " + ins[i].reach + " " + vals[i] + " " + t + ")"
	}
	so := e.heapSort[k]
	m := e.constOf("mg", so)
	e.define(s, "(= "+m+" "+t+")")
	e.define(s, fmt.Sprintf("(= %s (store %s %s %s))", n, base, ref, m))
	e.stores[n] = storeDef{base, ref, m}
	return true
}

type cell struct {
	key, ref, sort string
}

// heapAxiom: cells of integer type hold machine integers of that type.
func (e *Enc) heapAxiom(name, key string) string {
	if strings.HasPrefix(key, "ghost:") || e.heapSort[key] != "Int" {
		return ""
	}
	sel := "(select " + name + " r!q)"
	f := ""
	switch {
	case strings.HasSuffix(key, "#len"), strings.HasSuffix(key, "#off"), strings.HasSuffix(key, "#cap"):
		f = "(<= 0 " + sel + ")"
	default:
		t := e.heapTyp[key]
		if t == nil {
			return ""
		}
		f = e.rangeFact(t, sel)
	}
	return "(forall ((r!q Ref)) (! " + f + " :pattern (" + sel + ")))"
}

func structKey(t types.Type) string {
	return typeKey(t)
}

// cells lists the memory cells that make up a T stored at ref, in leaf order.
func (e *Enc) cells(t types.Type, ref string) []cell {
	var out []cell
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if _, g := t.(*ghostType); g {
			break
		}
		sk := structKey(t)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, e.fieldCells(t, u, sk, i, ref)...)
		}
		return out
	case *types.Array:
		if u.Len() > 16 {
			unsupported("whole-array access %s", t)
		}
		// one cell per element leaf; not in value-leaf order (arrays are not loaded as values)
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e.cells(u.Elem(), fmt.Sprintf("(elem %s %d)", ref, i))...)
		}
		return out
	}
	k := "cell." + typeKey(t)
	for _, l := range e.leaves(t) {
		e.heapTyp[k+l.Suffix] = l.T
		out = append(out, cell{k + l.Suffix, ref, l.Sort})
	}
	return out
}

func (e *Enc) fieldCells(t types.Type, u *types.Struct, sk string, i int, ref string) []cell {
	f := u.Field(i)
	switch f.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		return e.cells(f.Type(), fmt.Sprintf("(fld %s %s)", e.fid(sk, i, f.Name()), ref))
	}
	var out []cell
	for _, l := range e.leaves(f.Type()) {
		e.heapTyp[sk+"."+f.Name()+l.Suffix] = l.T
		out = append(out, cell{sk + "." + f.Name() + l.Suffix, ref, l.Sort})
	}
	return out
}

// smallArr: array values of up to 8 elements are kept element by element.
func smallArr(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() <= 8
}

// arrIndex selects element i of an array value.
func (e *Enc) arrIndex(b Val, i string) Val {
	u := b.T.Underlying().(*types.Array)
	v := Val{T: u.Elem()}
	if !smallArr(b.T) {
		for _, l := range b.L {
			v.L = append(v.L, "(select "+l+" "+i+")")
		}
		return v
	}
	n := len(e.leaves(u.Elem()))
	for j := 0; j < n; j++ {
		t := ""
		for k := int(u.Len()) - 1; k >= 0; k-- {
			x := b.L[k*n+j]
			if t == "" {
				t = x
			} else {
				t = fmt.Sprintf("(ite (= %s %d) %s %s)", i, k, x, t)
			}
		}
		v.L = append(v.L, t)
	}
	return v
}

func hasArray(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return !smallArr(t) || hasArray(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *Enc) loadCells(st *State, cs []cell) []string {
	var out []string
	for _, c := range cs {
		out = append(out, fmt.Sprintf("(select %s %s)", e.heapName(st, c.key, c.sort), c.ref))
	}
	return out
}

func (e *Enc) addrCells(p Val) (types.Type, []cell) {
	et := deref(p.T)
	if p.Addr != nil {
		sk := p.Addr.SKey
		f := p.Addr.Struct.Field(p.Addr.Field)
		var out []cell
		for _, l := range e.leaves(f.Type()) {
			e.heapTyp[sk+"."+f.Name()+l.Suffix] = l.T
			out = append(out, cell{sk + "." + f.Name() + l.Suffix, p.Addr.Base, l.Sort})
		}
		return et, out
	}
	return et, e.cells(et, p.ref())
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	unsupported("not a pointer: %s", t)
	return nil
}

func (v Val) ref() string {
	if len(v.L) == 0 {
		if v.Addr != nil {
			unsupported("address of scalar field %s escapes", v.Addr.Struct.Field(v.Addr.Field).Name())
		}
		unsupported("value without term (%v)", v.T)
	}
	return v.L[0]
}

func (e *Enc) load(st *State, p Val) Val {
	t := deref(p.T)
	var cs []cell
	if a, ok := t.Underlying().(*types.Array); !ok || a.Len() <= 16 {
		t, cs = e.addrCells(p)
	}
	if _, ok := t.Underlying().(*types.Array); ok && !smallArr(t) {
		// array value: lambda over the element cells
		v := Val{T: t}
		el := t.Underlying().(*types.Array).Elem()
		ecs := e.cells(el, fmt.Sprintf("(elem %s 0)", p.ref()))
		for i, c := range ecs {
			nm := e.constOf("arrv", "(Array Int "+c.sort+")")
			cs2 := e.cells(el, fmt.Sprintf("(elem %s i!q)", p.ref()))
			e.define(st, fmt.Sprintf("(forall ((i!q Int)) (! (= (select %s i!q) (select %s %s)) :pattern ((select %s i!q))))", nm, e.heapName(st, c.key, c.sort), cs2[i].ref, nm))
			v.L = append(v.L, nm)
		}
		return v
	}
	if hasArray(t) {
		unsupported("load of struct with array %s", t)
	}
	v := Val{T: t, L: e.loadCells(st, cs)}
	// name the loaded leaves so that terms stay small
	ls := e.leaves(t)
	for i := range v.L {
		c := e.constOf("ld", ls[i].Sort)
		e.define(st, "(= "+c+" "+v.L[i]+")")
		v.L[i] = c
		if h := e.heapName(st, cs[i].key, cs[i].sort); ls[i].Sort == "Ref" && strings.HasSuffix(h, "@0") && e.entry != nil {
			// what an object allocated before entry held then was allocated before entry
			n0 := e.next(e.entry)
			e.define(st, "(=> (< (rootid "+cs[i].ref+") "+n0+") (< (rootid "+c+") "+n0+"))")
		}
	}
	e.assume(st, e.wf(st, v))
	return v
}

func (e *Enc) store(st *State, p Val, v Val) {
	t := deref(p.T)
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 16 {
		ref := p.ref()
		for i, c0 := range e.cells(at.Elem(), "(elem "+ref+" 0)") {
			if c0.ref != "(elem "+ref+" 0)" {
				unsupported("store of an array of %s", at.Elem())
			}
			e.heapName(st, c0.key, c0.sort)
			old, nw := e.heapFresh(st, c0.key)
			e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (= (select %s r!q) (ite (and ((_ is elem) r!q) (= (ebase r!q) %s)) (select %s (eidx r!q)) (select %s r!q))) :pattern ((select %s r!q))))", nw, ref, v.L[i], old, nw))
		}
		return
	}
	t, cs := e.addrCells(p)
	if at, ok := t.Underlying().(*types.Array); ok && !smallArr(t) {
		el := at.Elem()
		n := len(e.leaves(el))
		for i := int64(0); i < at.Len(); i++ {
			cs2 := e.cells(el, fmt.Sprintf("(elem %s %d)", p.ref(), i))
			for j := 0; j < n; j++ {
				e.heapSet(st, cs2[j].key, cs2[j].sort, cs2[j].ref, fmt.Sprintf("(select %s %d)", v.L[j], i))
			}
		}
		return
	}
	if hasArray(t) {
		unsupported("store of struct with array %s", t)
	}
	if len(cs) != len(v.L) {
		unsupported("store leaf mismatch %s: %d cells, %d leaves", t, len(cs), len(v.L))
	}
	e.setCells(st, cs, v.L)
}

// setCells writes several distinct cells; many cells of one heap share one new version.
func (e *Enc) setCells(st *State, cs []cell, vals []string) {
	cnt := map[string]int{}
	for _, c := range cs {
		cnt[c.key]++
	}
	done := map[string]bool{}
	for i, c := range cs {
		if cnt[c.key] <= 2 {
			e.heapSet(st, c.key, c.sort, c.ref, vals[i])
			continue
		}
		if done[c.key] {
			continue
		}
		done[c.key] = true
		old := e.heapName(st, c.key, c.sort)
		_, nw := e.heapFresh(st, c.key)
		var hit []string
		for j, d := range cs {
			if d.key == c.key {
				e.define(st, fmt.Sprintf("(= (select %s %s) %s)", nw, d.ref, vals[j]))
				hit = append(hit, fmt.Sprintf("(= r!q %s)", d.ref))
			}
		}
		e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (or %s (= (select %s r!q) (select %s r!q))) :pattern ((select %s r!q))))", or(hit...), nw, old, nw))
	}
}

func (e *Enc) alloc(st *State, t types.Type, hint string) string {
	nx := e.next(st)
	r := e.constOf("new."+hint, "Ref")
	e.define(st, fmt.Sprintf("(= %s (obj %s))", r, nx))
	n2 := e.fresh("H.ghost:next")
	e.declare(n2, "Int")
	st.heap["ghost:next!"] = n2
	e.define(st, fmt.Sprintf("(= %s (+ %s 1))", n2, nx))
	_ = t
	return r
}

func (e *Enc) zeroInit(st *State, t types.Type, ref string) {
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() > 16 {
		el := at.Elem()
		for _, c0 := range e.cells(el, "(elem "+ref+" 0)") {
			e.heapName(st, c0.key, c0.sort)
			old, nw := e.heapFresh(st, c0.key)
			e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (= (select %s r!q) (ite (and ((_ is elem) r!q) (= (ebase r!q) %s)) %s (select %s r!q))) :pattern ((select %s r!q))))", nw, ref, e.zeroLeaf(c0.sort), old, nw))
		}
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok && hasArray(t) {
		sk := structKey(t)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if hasArray(f.Type()) {
				e.zeroInit(st, f.Type(), fmt.Sprintf("(fld %s %s)", e.fid(sk, i, f.Name()), ref))
				continue
			}
			cs := e.fieldCells(t, u, sk, i, ref)
			var vals []string
			for _, c := range cs {
				vals = append(vals, e.zeroLeaf(c.sort))
			}
			e.setCells(st, cs, vals)
		}
		return
	}
	cs := e.cells(t, ref)
	var vals []string
	for _, c := range cs {
		vals = append(vals, e.zeroLeaf(c.sort))
	}
	e.setCells(st, cs, vals)
}

func (e *Enc) globalRef(g *ssa.Global) string {
	k := g.Pkg.Pkg.Path() + "." + g.Name()
	if _, ok := e.globals[k]; !ok {
		e.globals[k] = e.pr.globalID(k)
	}
	return fmt.Sprintf("(obj (- %d))", e.globals[k])
}

// freshVal makes a fresh value of type t.
func (e *Enc) freshVal(st *State, t types.Type, hint string) Val {
	v := Val{T: t}
	if tt, ok := t.(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			v.Tuple = append(v.Tuple, e.freshVal(st, tt.At(i).Type(), hint))
		}
		return v
	}
	for _, l := range e.leaves(t) {
		v.L = append(v.L, e.constOf(hint, l.Sort))
	}
	e.assume(st, e.wf(st, v))
	return v
}

// ---------------------------------------------------------------- constants

func (e *Enc) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		unsupported("type parameter %s", tp)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []string{fmt.Sprint(constant.BoolVal(c.Value))}}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			return e.intConst(t, v.ExactString())
		case u.Info()&types.IsString != 0:
			return Val{T: t, L: []string{e.strLit(constant.StringVal(c.Value))}}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Val{T: t, L: []string{fltLit(f)}}
		}
	}
	unsupported("constant %s of type %s", c, t)
	return Val{}
}

func fltLit(f float64) string {
	b := math.Float64bits(f)
	return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1))
}

func (e *Enc) intConst(t types.Type, s string) Val {
	if e.isBV(t) {
		b, _, _ := e.intInfo(t)
		if strings.HasPrefix(s, "-") {
			return Val{T: t, L: []string{fmt.Sprintf("(bvneg (_ bv%s %d))", s[1:], b)}}
		}
		return Val{T: t, L: []string{fmt.Sprintf("(_ bv%s %d)", s, b)}}
	}
	return Val{T: t, L: []string{intLit(s)}}
}

// ---------------------------------------------------------------- frames and CFG

type frame struct {
	fn      *ssa.Function
	con     *Contract // loop specifications and names
	vals    map[ssa.Value]Val
	prefix  string
	defers  []*deferRec
	rets    []retRec
	parent  *frame
	loops   map[*ssa.BasicBlock]*loopInfo
	params  []Val
	recvOld *State
	callPos string
	oldSt   *State
	lfuns   map[string]Val
}

type deferRec struct {
	st   *State
	blk  *ssa.BasicBlock
	inst *ssa.Defer
	call func(st *State) *State
}

type retRec struct {
	st  *State
	res []Val
	pos token.Pos
}

type loopInfo struct {
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	index   int
	spec    *LoopSpec
	key     string
	entrySt *State
	hdrSt   *State
	phis    map[*ssa.Phi]Val
	decAt   []string
}

type edgeIn struct {
	reach string
	st    *State
	pred  *ssa.BasicBlock
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, map[[2]int]bool) {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	back := map[[2]int]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				back[[2]int{b.Index, s.Index}] = true
				li := loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = li
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var hs []*loopInfo
	for _, l := range loops {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool {
		pi, pj := loopPos(hs[i]), loopPos(hs[j])
		if pi != pj {
			return pi < pj
		}
		return len(hs[i].body) > len(hs[j].body)
	})
	for i, l := range hs {
		l.index = i
	}
	return loops, back
}

func loopPos(l *loopInfo) token.Pos {
	best := token.Pos(1 << 40)
	for b := range l.body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if in.Pos().IsValid() && in.Pos() < best {
				best = in.Pos()
			}
		}
	}
	return best
}

func topo(fn *ssa.Function, back map[[2]int]bool) []*ssa.BasicBlock {
	var order []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if back[[2]int{b.Index, s.Index}] {
				continue
			}
			if state[s] == 1 {
				unsupported("irreducible control flow in %s", fn)
			}
			if state[s] == 0 {
				visit(s)
			}
		}
		state[b] = 2
		order = append(order, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	return order
}

// merge joins control-flow edges into one state.
func (e *Enc) merge(ins []edgeIn) *State {
	if len(ins) == 1 {
		s := ins[0].st.clone()
		if ins[0].reach == s.reach {
			return s
		}
		s.vb = e.newVB(ins[0].st.vb)
		r := e.constOf("reach", "Bool")
		s.reach = r
		e.define(s, "(= "+r+" "+ins[0].reach+")")
		return s
	}
	var pars []int
	var rs []string
	for _, in := range ins {
		pars = append(pars, in.st.vb)
		rs = append(rs, in.reach)
	}
	s := &State{vb: e.newVB(pars...), heap: map[string]string{}}
	s.reach = e.constOf("reach", "Bool")
	e.define(s, "(= "+s.reach+" "+or(rs...)+")")
	sameEpoch := true
	for _, in := range ins {
		if in.st.epoch != ins[0].st.epoch {
			sameEpoch = false
		}
	}
	keys := map[string]bool{}
	for _, in := range ins {
		for k := range in.st.heap {
			keys[k] = true
		}
	}
	if sameEpoch {
		s.epoch = ins[0].st.epoch
	} else {
		e.n++
		s.epoch = e.n
	}
	for _, k := range sortedKeys(keys) {
		so := e.heapSort[k]
		names := make([]string, len(ins))
		same := true
		for i, in := range ins {
			names[i] = e.heapName(in.st, k, so)
			if names[i] != names[0] {
				same = false
			}
		}
		if same {
			s.heap[k] = names[0]
			continue
		}
		n := e.fresh("H." + k)
		e.declare(n, e.heapSMT(k))
		s.heap[k] = n
		if !strings.HasPrefix(k, "ghost:") && e.mergeStores(s, k, n, names, ins) {
			continue
		}
		for i, in := range ins {
			e.define(s, fmt.Sprintf("(=> %s (= %s %s))", in.reach, n, names[i]))
		}
	}
	return s
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// mergeVals selects among values by edge condition.
func (e *Enc) mergeVals(st *State, t types.Type, conds []string, vs []Val, hint string) Val {
	if tt, ok := t.(*types.Tuple); ok {
		out := Val{T: t}
		for i := 0; i < tt.Len(); i++ {
			var xs []Val
			for _, v := range vs {
				xs = append(xs, v.Tuple[i])
			}
			out.Tuple = append(out.Tuple, e.mergeVals(st, tt.At(i).Type(), conds, xs, hint))
		}
		return out
	}
	same := true
	for _, v := range vs {
		if v.Fn != nil || len(v.L) != len(vs[0].L) {
			same = false
			break
		}
		for i := range v.L {
			if v.L[i] != vs[0].L[i] {
				same = false
			}
		}
	}
	if same && vs[0].Addr == nil {
		return vs[0]
	}
	if vs[0].Addr != nil {
		for _, v := range vs {
			if v.Addr == nil || *v.Addr != *vs[0].Addr {
				unsupported("phi of field addresses")
			}
		}
		return vs[0]
	}
	out := Val{T: t}
	for i, l := range e.leaves(t) {
		n := e.constOf(hint, l.Sort)
		out.L = append(out.L, n)
		for j, v := range vs {
			e.define(st, fmt.Sprintf("(=> %s (= %s %s))", conds[j], n, e.leafOf(v, i)))
		}
	}
	return out
}

func (e *Enc) leafOf(v Val, i int) string {
	if v.Fn != nil && len(v.L) == 0 {
		return e.fnRef(v.Fn)
	}
	if i >= len(v.L) {
		v.ref()
	}
	return v.L[i]
}

func (e *Enc) fnRef(f *FuncVal) string {
	k := "func:" + f.Fn.String()
	if _, ok := e.globals[k]; !ok {
		e.globals[k] = e.pr.globalID(k)
	}
	return fmt.Sprintf("(obj (- %d))", e.globals[k])
}

func (e *Enc) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.pr.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// encodeBody encodes one function body starting in st; returns the merged exit.
func (e *Enc) encodeBody(f *frame, st0 *State) (*State, []Val, bool) {
	fn := f.fn
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	loops, back := findLoops(fn)
	f.loops = loops
	order := topo(fn, back)
	ins := map[*ssa.BasicBlock][]edgeIn{}
	ins[fn.Blocks[0]] = []edgeIn{{st0.reach, st0, nil}}
	if fn.Recover != nil && usesRecover(fn) {
		unsupported("recover in %s", fn)
	}
	for _, b := range order {
		in := ins[b]
		if len(in) == 0 {
			continue
		}
		st := e.merge(in)
		li := loops[b]
		var phis []*ssa.Phi
		for _, instr := range b.Instrs {
			if p, ok := instr.(*ssa.Phi); ok {
				phis = append(phis, p)
			}
		}
		// phi values on entry edges
		phiIn := map[*ssa.Phi]Val{}
		for _, p := range phis {
			var cs []string
			var vs []Val
			usedK := map[int]bool{}
			for _, i := range in {
				for k, pb := range b.Preds {
					if pb == i.pred && !usedK[k] && !back[[2]int{pb.Index, b.Index}] {
						usedK[k] = true
						cs = append(cs, i.reach)
						vs = append(vs, e.val(f, p.Edges[k]))
						break
					}
				}
			}
			phiIn[p] = e.mergeVals(st, p.Type(), cs, vs, "phi."+p.Comment)
		}
		if li != nil {
			e.loopHeader(f, li, st, phis, phiIn)
			st = li.hdrSt.clone()
		} else {
			for _, p := range phis {
				f.vals[p] = phiIn[p]
			}
		}
		end := false
		for _, instr := range b.Instrs {
			if end {
				break
			}
			switch x := instr.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := e.val(f, x.Cond).L[0]
				e.edge(f, loops, back, ins, st, b, b.Succs[0], and(st.reach, c), 0)
				e.edge(f, loops, back, ins, st, b, b.Succs[1], and(st.reach, not(c)), 1)
				end = true
			case *ssa.Jump:
				e.edge(f, loops, back, ins, st, b, b.Succs[0], st.reach, 0)
				end = true
			case *ssa.Return:
				var rs []Val
				for _, r := range x.Results {
					rs = append(rs, e.val(f, r))
				}
				f.rets = append(f.rets, retRec{st, rs, x.Pos()})
				end = true
			case *ssa.Panic:
				e.panicAt(st, "explicit panic", e.pos(x.Pos()))
				end = true
			case *ssa.RunDefers:
				st = e.runDefers(f, st, b)
			default:
				st = e.instr(f, st, b, instr)
				if st == nil {
					end = true
				}
			}
		}
	}
	if len(f.rets) == 0 {
		return nil, nil, false
	}
	if len(f.rets) == 1 {
		return f.rets[0].st, f.rets[0].res, true
	}
	var es []edgeIn
	var cs []string
	for _, r := range f.rets {
		es = append(es, edgeIn{r.st.reach, r.st, nil})
		cs = append(cs, r.st.reach)
	}
	out := e.merge(es)
	var res []Val
	sig := fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		var vs []Val
		for _, r := range f.rets {
			vs = append(vs, r.res[i])
		}
		res = append(res, e.mergeVals(out, sig.At(i).Type(), cs, vs, "ret"))
	}
	return out, res, true
}

func usesRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
			if d, ok := in.(*ssa.Defer); ok {
				var g *ssa.Function
				if m, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					g = m.Fn.(*ssa.Function)
				} else if ff, ok := d.Call.Value.(*ssa.Function); ok {
					g = ff
				}
				if g != nil && g != fn && usesRecover(g) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Enc) panicAt(st *State, what, pos string) {
	e.obligeSafe(st, what, pos, "false")
}

func (e *Enc) obligeSafe(st *State, what, pos, goal string) {
	if e.con.MayPanic != nil {
		ctx := e.specCtx(e.topFrame, e.entry, e.entry)
		may := ctx.boolean(e.con.MayPanic)
		if may != "true" {
			e.oblige(st, "safe", what, pos, or(goal, may), nil)
		} else {
			e.trusted["no panic in "+e.key()+" (its contract is about normal returns)"] = true
		}
		// after a permitted panic the path is over
		e.assume(st, goal)
		return
	}
	e.oblige(st, "safe", what, pos, goal, nil)
}

func (e *Enc) edge(f *frame, loops map[*ssa.BasicBlock]*loopInfo, back map[[2]int]bool, ins map[*ssa.BasicBlock][]edgeIn, st *State, from, to *ssa.BasicBlock, reach string, succIdx int) {
	if reach == "false" {
		return
	}
	if back[[2]int{from.Index, to.Index}] {
		s := e.merge([]edgeIn{{reach, st, from}})
		e.backEdge(f, loops[to], s, from)
		return
	}
	// both branches to the same block: keep two edges; phi selection uses pred
	es := st
	if reach != st.reach {
		es = st.clone()
	}
	ins[to] = append(ins[to], edgeIn{reach, es, from})
}

// ---------------------------------------------------------------- loops

func (e *Enc) loopSpecOf(f *frame, li *loopInfo) *LoopSpec {
	if f.con == nil {
		return nil
	}
	for _, l := range f.con.Loops {
		if l.Index == li.index {
			return l
		}
	}
	return nil
}

func (e *Enc) loopKey(f *frame, li *loopInfo) string {
	k := fmt.Sprintf("%s#%d", f.fn.String(), li.index)
	for p := f; p.parent != nil; p = p.parent {
		k = p.callPos + ">" + k
	}
	return k
}

func (e *Enc) loopHeader(f *frame, li *loopInfo, st *State, phis []*ssa.Phi, phiIn map[*ssa.Phi]Val) {
	li.key = e.loopKey(f, li)
	li.spec = e.loopSpecOf(f, li)
	li.entrySt = st.clone()
	// 1. invariants on entry
	saved := map[*ssa.Phi]Val{}
	for _, p := range phis {
		saved[p] = phiIn[p]
	}
	e.checkInv(f, li, st, saved, "entry")
	// 2. havoc
	h := &State{vb: e.newVB(st.vb), reach: st.reach, heap: map[string]string{}, epoch: st.epoch}
	for k, v := range st.heap {
		h.heap[k] = v
	}
	if e.loopEpoch[li.key] {
		e.n++
		h.epoch = e.n
		h.heap = map[string]string{}
		for k := range st.heap {
			_ = k
		}
	} else {
		for _, k := range sortedKeys(e.loopMods[li.key]) {
			if _, ok := e.heapSort[k]; !ok {
				unsupported("loop modifies the unknown heap %s", k)
			}
			n := e.fresh("H." + k)
			e.declare(n, e.heapSMT(k))
			h.heap[k] = n
		}
	}
	e.assume(h, fmt.Sprintf("(>= %s %s)", e.next(h), e.next(st)))
	li.phis = map[*ssa.Phi]Val{}
	for _, p := range phis {
		in := phiIn[p]
		if in.Addr != nil || in.Fn != nil {
			li.phis[p] = in
			f.vals[p] = in
			continue
		}
		v := Val{T: p.Type()}
		for _, l := range e.leaves(p.Type()) {
			v.L = append(v.L, e.constOf("phi."+p.Comment, l.Sort))
		}
		e.assume(h, e.wf(h, v))
		li.phis[p] = v
		f.vals[p] = v
	}
	// 3. assume invariants and the function's frame condition
	if li.spec != nil {
		ctx := e.loopCtx(f, li, h, li.phis)
		for _, c := range li.spec.Inv {
			e.assume(h, ctx.boolean(c.E))
		}
		for _, d := range li.spec.Dec {
			t := ctx.eval(d)
			n := e.constOf("dec", "Int")
			e.define(h, "(= "+n+" "+t.L[0]+")")
			li.decAt = append(li.decAt, n)
		}
	}
	for _, g := range e.autoInv(f, li, h, li.phis, phiIn) {
		e.assume(h, g)
	}
	for _, k := range sortedKeys(e.loopMods[li.key]) {
		if g := e.frameGoal(h, k); g != "" {
			e.assume(h, g)
		}
	}
	li.hdrSt = h
	if li.spec == nil {
		e.pr.noteUnspecLoop(e.key(), f.fn.String(), li.index)
		e.unspecLoops(f, li)
	}
}

func (e *Enc) unspecLoops(f *frame, li *loopInfo) {
	e.unrolled["unspecified loop "+fmt.Sprint(li.index)+" of "+f.fn.String()] = true
}

// autoInv: range-loop index facts that hold by construction of Go's range lowering.
func (e *Enc) autoInv(f *frame, li *loopInfo, st *State, phis map[*ssa.Phi]Val, in map[*ssa.Phi]Val) []string {
	var out []string
	for p, v := range phis {
		if p.Comment == "rangeindex" {
			out = append(out, "(<= (- 1) "+v.L[0]+")")
			// bound: the If of the header compares index+1 with the length
			for _, instr := range li.header.Instrs {
				if b, ok := instr.(*ssa.BinOp); ok && b.Op == token.LSS {
					if _, isphi := b.Y.(*ssa.Phi); !isphi {
						if y, ok := e.maybeVal(f, b.Y); ok {
							out = append(out, "(or (< "+v.L[0]+" "+y.L[0]+") (= "+v.L[0]+" (- 1)))")
						}
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func (e *Enc) maybeVal(f *frame, v ssa.Value) (r Val, ok bool) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return e.val(f, v), true
	}
	r, ok = f.vals[v]
	return
}

func (e *Enc) loopCtx(f *frame, li *loopInfo, st *State, phis map[*ssa.Phi]Val) *sctx {
	ctx := e.specCtx(f, st, f.oldSt)
	ctx.loop = li
	ctx.phis = phis
	ctx.loopEntry = li.entrySt
	return ctx
}

func (e *Enc) checkInv(f *frame, li *loopInfo, st *State, phis map[*ssa.Phi]Val, when string) {
	if li.spec != nil {
		ctx := e.loopCtx(f, li, st, phis)
		for i, c := range li.spec.Inv {
			lbl := c.Label
			if lbl == "" {
				lbl = c.E.String()
			}
			_ = i
			e.oblige(st, "invariant-"+when, fmt.Sprintf("loop %d: %s", li.index, lbl), c.Pos, ctx.boolean(c.E), c.Props)
		}
	}
	if when == "back" {
		for _, g := range e.autoInv(f, li, st, phis, nil) {
			e.oblige(st, "invariant-"+when, fmt.Sprintf("loop %d: range index", li.index), "", g, nil)
		}
	}
}

func (e *Enc) backEdge(f *frame, li *loopInfo, st *State, from *ssa.BasicBlock) {
	if li == nil {
		unsupported("back edge to unknown loop")
	}
	// discover heaps modified by the body
	mods := e.loopMods[li.key]
	if mods == nil {
		mods = map[string]bool{}
		e.loopMods[li.key] = mods
	}
	if st.epoch != li.hdrSt.epoch && !e.loopEpoch[li.key] {
		e.loopEpoch[li.key] = true
		e.restart = true
	}
	for k := range st.heap {
		hv, ok := li.hdrSt.heap[k]
		if !ok {
			hv = fmt.Sprintf("H.%s@%d", sanitize(k), li.hdrSt.epoch)
		}
		if st.heap[k] != hv && !mods[k] {
			mods[k] = true
			e.restart = true
		}
	}
	if e.restart {
		return
	}
	phis := map[*ssa.Phi]Val{}
	for _, instr := range li.header.Instrs {
		p, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pb := range li.header.Preds {
			if pb == from {
				phis[p] = e.val(f, p.Edges[k])
			}
		}
		if li.phis[p].Addr != nil {
			a := phis[p].Addr
			if a == nil || *a != *li.phis[p].Addr {
				unsupported("loop-varying field address")
			}
		}
	}
	e.checkInv(f, li, st, phis, "back")
	if li.spec != nil && len(li.spec.Dec) > 0 {
		ctx := e.loopCtx(f, li, st, phis)
		// lexicographic decrease, bounded below
		goal := "false"
		for i := len(li.spec.Dec) - 1; i >= 0; i-- {
			t := ctx.eval(li.spec.Dec[i])
			goal = or("(and (< "+t.L[0]+" "+li.decAt[i]+") (<= 0 "+li.decAt[i]+"))", and("(= "+t.L[0]+" "+li.decAt[i]+")", goal))
		}
		e.oblige(st, "termination", fmt.Sprintf("loop %d decreases %s", li.index, li.spec.Dec[0]), li.spec.Dec[0].Pos, goal, nil)
	}
	for _, k := range sortedKeys(mods) {
		if g := e.frameGoal(st, k); g != "" {
			e.oblige(st, "invariant-back", fmt.Sprintf("loop %d: frame %s", li.index, k), "", g, nil)
		}
	}
}

// frameGoal: objects that existed on entry and are not listed in modifies keep their value.
func (e *Enc) frameGoal(st *State, key string) string {
	if e.modAll {
		return ""
	}
	cur := e.heapName(st, key, e.heapSort[key])
	ent := e.entry.heap[key]
	if ent == "" {
		ent = e.heapName(e.entry, key, e.heapSort[key])
	}
	if cur == ent || key == "ghost:next!" {
		return ""
	}
	if strings.HasPrefix(key, "ghost:") {
		if strings.HasPrefix(key, "ghost:iter") {
			return ""
		}
		for _, m := range e.mods {
			if m.key == key {
				return ""
			}
		}
		return "(= " + cur + " " + ent + ")"
	}
	conds := []string{"(< (rootid r!q) " + e.next(e.entry) + ")"}
	for _, m := range e.mods {
		if m.key == key {
			if m.cond == nil {
				return ""
			}
			conds = append(conds, not(m.cond("r!q")))
		}
	}
	return fmt.Sprintf("(forall ((r!q Ref)) (! (=> %s (= (select %s r!q) (select %s r!q))) :pattern ((select %s r!q))))", and(conds...), cur, ent, cur)
}
