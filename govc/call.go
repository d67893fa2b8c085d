package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func recvName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return typeKey(t)
}

// fnKey names a function: package name (repo) or path (external) + receiver + name.
func (e *Enc) fnKey(fn *ssa.Function) string { return e.pr.fnKey(fn) }

func (pr *Program) fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := fn.Name()
	if fn.Parent() != nil {
		p := pr.fnKey(fn.Parent())
		return p + strings.TrimPrefix(name, fn.Parent().Name())
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	pk := ""
	if pkg != nil {
		pk = pkg.Path()
		if strings.HasPrefix(pk, pr.ModPath) {
			pk = pkg.Name()
		}
	}
	if r := fn.Signature.Recv(); r != nil {
		return pk + "." + recvName(r.Type()) + "." + name
	}
	return pk + "." + name
}

func (e *Enc) inRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		p = fn.Object().Pkg()
	}
	return p != nil && strings.HasPrefix(p.Path(), e.pr.ModPath)
}

func (e *Enc) call(f *frame, st *State, x *ssa.Call) *State {
	st2, res := e.doCall(f, st, &x.Call, x, x.Pos())
	if st2 == nil {
		return nil
	}
	sig := x.Call.Signature().Results()
	switch {
	case x.Type() == nil:
	case sig.Len() == 1:
		f.vals[x] = res[0]
	default:
		f.vals[x] = Val{T: x.Type(), Tuple: res}
	}
	return st2
}

func (e *Enc) doCall(f *frame, st *State, c *ssa.CallCommon, v *ssa.Call, pos token.Pos) (*State, []Val) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range c.Args {
			args = append(args, e.val(f, a))
		}
		return e.builtin(st, b.Name(), args, v, e.pos(pos))
	}
	var args []Val
	if c.IsInvoke() {
		recv := e.val(f, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(f, a))
		}
		return e.invoke(f, st, recv, c, args, pos)
	}
	for _, a := range c.Args {
		args = append(args, e.val(f, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			fv := e.val(f, mc).Fn
			return e.callFn(f, st, fv.Fn, fv.Bind, args, pos)
		}
		return e.callFn(f, st, fn, nil, args, pos)
	}
	fv := e.val(f, c.Value)
	if fv.Fn != nil {
		return e.callFn(f, st, fv.Fn.Fn, fv.Fn.Bind, args, pos)
	}
	// dynamic call through a function value: callback contract by type name
	e.nonNil(st, fv.ref(), "call of nil function", e.pos(pos))
	key := "callback"
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		key = n.Obj().Pkg().Name() + "." + n.Obj().Name()
	} else {
		key = e.con.Pkg + "." + "dyn"
	}
	con := e.specs.Contracts[key]
	if con == nil {
		unsupported("dynamic call of %s (no callback contract %s)", c.Value.Type(), key)
	}
	e.externUsed["callback "+key] = true
	return e.applyContract(f, st, con, append([]Val{fv}, args...), c.Signature(), e.pos(pos), nil)
}

func (e *Enc) invoke(f *frame, st *State, recv Val, c *ssa.CallCommon, args []Val, pos token.Pos) (*State, []Val) {
	if recv.Dyn != nil {
		if fn := e.pr.Prog.LookupMethod(recv.Dyn.T, c.Method.Pkg(), c.Method.Name()); fn != nil {
			return e.callFn(f, st, fn, nil, append([]Val{*recv.Dyn}, args...), pos)
		}
	}
	e.obligeSafe(st, "method call on nil interface", e.pos(pos), "(not (= "+recv.L[0]+" inil))")
	var keys []string
	if n, ok := types.Unalias(recv.T).(*types.Named); ok && n.Obj().Pkg() != nil {
		keys = append(keys, n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+c.Method.Name())
	}
	if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			p := "."
			if n.Obj().Pkg() != nil {
				p = n.Obj().Pkg().Name() + "."
			}
			keys = append(keys, p+n.Obj().Name()+"."+c.Method.Name())
		}
	}
	for _, k := range append(e.local(keys), keys...) {
		if con := e.specs.Contracts[k]; con != nil {
			e.externUsed["interface "+k] = true
			return e.applyContract(f, st, con, append([]Val{recv}, args...), c.Signature(), e.pos(pos), nil)
		}
	}
	unsupported("interface call %v without contract", keys)
	return nil, nil
}

// local: contracts that a package states of the functions of another package it calls
func (e *Enc) local(keys []string) []string {
	var r []string
	for _, k := range keys {
		r = append(r, e.con.Pkg+"."+k)
	}
	return r
}

func (e *Enc) callFn(f *frame, st *State, fn *ssa.Function, bind []Val, args []Val, pos token.Pos) (*State, []Val) {
	key := e.fnKey(fn)
	con := e.specs.Contracts[key]
	if c := e.specs.Contracts[e.con.Pkg+"."+key]; c != nil {
		key, con = e.con.Pkg+"."+key, c
	}
	if con != nil && !con.Inline {
		if con.Trusted {
			e.externUsed[key] = true
		} else {
			e.called[key] = true
		}
		return e.applyContract(f, st, con, args, fn.Signature, e.pos(pos), fn)
	}
	if st2, res, ok := e.intrinsic(f, st, key, fn, args, pos); ok {
		return st2, res
	}
	if !e.inRepo(fn) && con == nil && fn.Synthetic == "" {
		unsupported("external function %s has no contract", key)
	}
	for p := f; p != nil; p = p.parent {
		if p.fn == fn {
			unsupported("recursive call of %s without contract", key)
		}
	}
	depth := 0
	for p := f; p != nil; p = p.parent {
		depth++
	}
	if depth > 14 {
		unsupported("inlining too deep at %s", key)
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", key)
	}
	e.inlined[key] = true
	nf := &frame{fn: fn, con: con, vals: map[ssa.Value]Val{}, parent: f, callPos: e.pos(pos), oldSt: st.clone()}
	for i, p := range fn.Params {
		nf.vals[p] = args[i]
		nf.params = append(nf.params, args[i])
	}
	for i, fv := range fn.FreeVars {
		nf.vals[fv] = bind[i]
	}
	out, res, ok := e.encodeBody(nf, st)
	if !ok {
		return nil, nil
	}
	return out, res
}

// intrinsic: functions with a built-in meaning.
func (e *Enc) intrinsic(f *frame, st *State, key string, fn *ssa.Function, args []Val, pos token.Pos) (*State, []Val, bool) {
	switch key {
	case "math.Floor":
		return st, []Val{{T: args[0].T, L: []string{e.bind(st, fltSort, "fl", "(fp.roundToIntegral RTN "+args[0].L[0]+")")}}}, true
	case "math.NaN":
		return st, []Val{{T: types.Typ[types.Float64], L: []string{"(_ NaN 11 53)"}}}, true
	case "math.IsNaN":
		return st, []Val{{T: types.Typ[types.Bool], L: []string{"(fp.isNaN " + args[0].L[0] + ")"}}}, true
	case "math.Abs":
		return st, []Val{{T: types.Typ[types.Float64], L: []string{"(fp.abs " + args[0].L[0] + ")"}}}, true
	case "math.Trunc":
		return st, []Val{{T: args[0].T, L: []string{e.bind(st, fltSort, "fl", "(fp.roundToIntegral RTZ "+args[0].L[0]+")")}}}, true
	case "math.Inf":
		x := args[0].L[0]
		return st, []Val{{T: types.Typ[types.Float64], L: []string{"(ite (>= " + x + " 0) (_ +oo 11 53) (_ -oo 11 53))"}}}, true
	case "math.IsInf":
		x := args[0].L[0]
		s := args[1].L[0]
		return st, []Val{{T: types.Typ[types.Bool], L: []string{"(or (and (>= " + s + " 0) (= " + x + " (_ +oo 11 53))) (and (<= " + s + " 0) (= " + x + " (_ -oo 11 53))))"}}}, true
	case "math.Signbit":
		return st, []Val{{T: types.Typ[types.Bool], L: []string{"(fp.isNegative " + args[0].L[0] + ")"}}}, true
	}
	return nil, nil, false
}

func (e *Enc) builtin(st *State, name string, args []Val, v *ssa.Call, pos string) (*State, []Val) {
	var rt types.Type = types.Typ[types.Int]
	if v != nil {
		rt = v.Type()
	}
	one := func(t string) []Val { return []Val{{T: rt, L: []string{t}}} }
	switch name {
	case "len":
		return st, one(e.lenOf(st, args[0]))
	case "cap":
		return st, one(args[0].L[3])
	case "append":
		if len(args) == 1 {
			return st, []Val{args[0]}
		}
		return st, []Val{e.appendSlice(st, args[0], args[1], rt)}
	case "delete":
		e.mapDelete(st, args[0], args[1])
		return st, nil
	case "copy":
		return st, one(e.copySlice(st, args[0], args[1]))
	case "panic":
		e.panicAt(st, "explicit panic", pos)
		return nil, nil
	case "print", "println":
		return st, nil
	case "ssa:wrapnilchk":
		e.nonNil(st, args[0].ref(), "nil receiver", pos)
		return st, []Val{args[0]}
	case "min", "max":
		if len(args) == 2 && e.leaves(args[0].T)[0].Sort == "Int" {
			op := "<="
			if name == "max" {
				op = ">="
			}
			return st, one(fmt.Sprintf("(ite (%s %s %s) %s %s)", op, args[0].L[0], args[1].L[0], args[0].L[0], args[1].L[0]))
		}
	}
	unsupported("builtin %s", name)
	return nil, nil
}

func (e *Enc) copySlice(st *State, d, s Val) string {
	ls := "(slen " + s.L[0] + ")"
	isStr := true
	if _, ok := s.T.Underlying().(*types.Slice); ok {
		ls = s.L[2]
		isStr = false
	}
	n := e.bind(st, "Int", "cpn", "(ite (<= "+d.L[2]+" "+ls+") "+d.L[2]+" "+ls+")")
	el := d.T.Underlying().(*types.Slice).Elem()
	for _, c0 := range e.cells(el, "(elem BASE IDX)") {
		old := e.heapName(st, c0.key, c0.sort)
		_, nw := e.heapFresh(st, c0.key)
		if strings.HasPrefix(c0.ref, "(fld ") {
			unsupported("copy of nested struct elements")
		}
		src := ""
		k := "(- (eidx r!q) " + d.L[1] + ")"
		if isStr {
			src = "(sat " + s.L[0] + " " + k + ")"
		} else {
			src = "(select " + old + " (elem " + s.L[0] + " " + ix(s.L[1], k) + "))"
		}
		e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (= (select %s r!q) (ite (and ((_ is elem) r!q) (= (ebase r!q) %s) (<= %s (eidx r!q)) (< (eidx r!q) (+ %s %s))) %s (select %s r!q))) :pattern ((select %s r!q))))",
			nw, d.L[0], d.L[1], d.L[1], n, src, old, nw))
	}
	return n
}

func (e *Enc) lenOf(st *State, v Val) string {
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		return "(slen " + v.L[0] + ")"
	case *types.Slice:
		return v.L[2]
	case *types.Map:
		_, lk, _, _ := e.mapKeys(v.T)
		h := e.heapName(st, lk, "Int")
		t := "(ite (= " + v.ref() + " nil) 0 (select " + h + " " + v.ref() + "))"
		return t
	case *types.Array:
		return fmt.Sprint(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return fmt.Sprint(a.Len())
		}
	}
	unsupported("len of %s", v.T)
	return ""
}

// ---------------------------------------------------------------- contracts at call sites

func (e *Enc) applyContract(f *frame, st *State, con *Contract, args []Val, sig *types.Signature, pos string, fn *ssa.Function) (*State, []Val) {
	pre := st.clone()
	env := map[string]Val{}
	for i, a := range args {
		if i < len(con.Params) {
			env[con.Params[i]] = a
		}
	}
	if len(con.Params) != len(args) {
		unsupported("contract %s: %d parameters named, %d passed", con.Name, len(con.Params), len(args))
	}
	for k, v := range e.localFuns(con) {
		env[k] = v
	}
	ctx := &sctx{e: e, st: pre, old: pre, env: env, pkg: con.Pkg, callee: con}
	e.instLocals(con, ctx, st)
	ctx.lets(con.Lets)
	if fn != nil && fn.Signature.Recv() != nil && !con.Trusted {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			e.nonNil(st, args[0].ref(), "nil receiver of "+con.Name, pos)
		}
	}
	for _, r := range con.Requires {
		lbl := r.Label
		if lbl == "" {
			lbl = r.E.String()
		}
		e.oblige(st, "precondition", con.Name+" requires "+lbl, pos, ctx.boolean(r.E), nil)
	}
	if con.MayPanic != nil {
		goal := not(ctx.boolean(con.MayPanic))
		if e.con.MayPanic != nil {
			goal = or(goal, e.specCtx(e.topFrame, e.entry, e.entry).boolean(e.con.MayPanic))
		}
		if goal != "true" {
			e.oblige(st, "safe", con.Name+" does not panic", pos, goal, nil)
		}
	}
	post := st.clone()
	post.vb = e.newVB(st.vb)
	e.applyModifies(post, ctx, con)
	if !con.Pure {
		n2 := e.fresh("H.ghost:next")
		e.declare(n2, "Int")
		old := e.next(pre)
		post.heap["ghost:next!"] = n2
		e.assume(post, "(>= "+n2+" "+old+")")
	}
	var res []Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		v := e.freshVal(post, rs.At(i).Type(), "r."+con.Name)
		res = append(res, v)
	}
	env2 := map[string]Val{}
	for k, v := range ctx.env {
		env2[k] = v
	}
	bindResults(env2, con, res)
	ectx := &sctx{e: e, st: post, old: pre, env: env2, pkg: con.Pkg, callee: con}
	for _, en := range con.Ensures {
		e.assume(post, ectx.boolean(en.E))
	}
	for _, en := range con.Names {
		e.assume(post, ectx.boolean(en.E))
	}
	return post, res
}

func bindResults(env map[string]Val, con *Contract, res []Val) {
	for i, r := range res {
		if i < len(con.Results) {
			env[con.Results[i]] = r
		}
		env[fmt.Sprintf("result%d", i)] = r
	}
	if len(res) == 1 {
		env["result"] = res[0]
	}
}

func (e *Enc) applyModifies(st *State, ctx *sctx, con *Contract) {
	for _, m := range con.Modifies {
		switch m.Kind {
		case "nothing":
		case "everything":
			nx := e.next(st)
			e.n++
			keep := map[string]string{}
			for k, v := range st.heap {
				if strings.HasPrefix(k, "ghost:iter") {
					keep[k] = v
				}
			}
			st.heap = keep
			st.epoch = e.n
			e.assume(st, "(>= "+e.next(st)+" "+nx+")")
		case "ghost":
			g := e.specs.Ghosts[m.Name]
			if g == nil {
				unsupported("unknown ghost %s", m.Name)
			}
			k := "ghost:" + m.Name
			e.heapName(st, k, e.leaves(ctx.typ(g.Typ))[0].Sort)
			e.heapFresh(st, k)
		default:
			for _, r := range e.modRefs(ctx, m) {
				if _, ok := e.heapSort[r.key]; !ok {
					e.heapSort[r.key] = r.sort
				}
				e.heapName(st, r.key, r.sort)
				if e.con.Coarse && e.freeKey(r.key) {
					e.heapFresh(st, r.key)
					continue
				}
				if r.ref != "" {
					// a single cell
					fv := e.constOf("hv", r.sort)
					e.heapSet(st, r.key, r.sort, r.ref, fv)
					continue
				}
				old, nw := e.heapFresh(st, r.key)
				if r.cond != nil {
					e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (=> %s (= (select %s r!q) (select %s r!q))) :pattern ((select %s r!q))))", not(r.cond("r!q")), nw, old, nw))
				}
			}
			e.modWF(st, ctx, m)
		}
	}
}

func (e *Enc) freeKey(k string) bool {
	for _, m := range e.mods {
		if m.key == k && m.cond == nil {
			return true
		}
	}
	return false
}

// modWF: the new values of modified cells are well formed for their types.
func (e *Enc) modWF(st *State, ctx *sctx, m ModItem) {
	if m.Kind != "sel" {
		return
	}
	p, idxs := ctx.lvalue(m)
	_ = idxs
	if p.Addr == nil && len(p.L) == 0 {
		return
	}
	t, cs := e.addrCells(p)
	if hasArray(t) {
		return
	}
	v := Val{T: t, L: e.loadCells(st, cs)}
	e.assume(st, e.wf(st, v))
}

type modCell struct {
	key, sort, ref string
	cond           func(r string) string
}

// modRefs evaluates a modifies item in the pre-state.
func (e *Enc) modRefs(ctx *sctx, m ModItem) []modCell {
	var out []modCell
	switch m.Kind {
	case "sel":
		p, _ := ctx.lvalue(m)
		_, cs := e.addrCells(p)
		for _, c := range cs {
			out = append(out, modCell{key: c.key, sort: c.sort, ref: c.ref})
		}
	case "deref":
		p := ctx.eval(m.E)
		_, cs := e.addrCells(p)
		for _, c := range cs {
			out = append(out, modCell{key: c.key, sort: c.sort, ref: c.ref})
		}
	case "elems":
		s := ctx.eval(m.E)
		var el types.Type
		base := ""
		switch u := s.T.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
			base = s.L[0]
		case *types.Pointer:
			el = u.Elem().Underlying().(*types.Array).Elem()
			base = s.ref()
		}
		if el == nil {
			unsupported("elems of %s", s.T)
		}
		for _, c := range e.cells(el, "(elem BASE IDX)") {
			ref := c.ref
			out = append(out, modCell{key: c.key, sort: c.sort, cond: func(r string) string {
				inner, g := peel(ref, r)
				g = append(g, "((_ is elem) "+inner+")", "(= (ebase "+inner+") "+base+")")
				return and(g...)
			}})
		}
	case "map":
		mv := ctx.eval(m.E)
		_, _, _, keys, sorts := e.mapHeaps(ctx.st, mv.T)
		for i, k := range keys {
			out = append(out, modCell{key: k, sort: sorts[i], ref: mv.ref()})
		}
	case "anymap":
		t := ctx.typ(m.Typ)
		_, _, _, keys, sorts := e.mapHeaps(ctx.st, t)
		for i, k := range keys {
			out = append(out, modCell{key: k, sort: sorts[i]})
		}
	case "anyelems":
		t := ctx.typ(m.Typ)
		for _, c := range e.cells(t, "(elem BASE IDX)") {
			out = append(out, modCell{key: c.key, sort: c.sort})
		}
	case "field":
		t := ctx.typ(m.Typ)
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			unsupported("field(%s, ..): not a struct", t)
		}
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == m.Name {
				found = true
				for _, c := range e.fieldCells(t, u, structKey(t), i, "R") {
					out = append(out, modCell{key: c.key, sort: c.sort})
				}
			}
		}
		if !found {
			unsupported("no field %s in %s", m.Name, t)
		}
	}
	return out
}

// ---------------------------------------------------------------- defer

func (e *Enc) deferInstr(f *frame, st *State, b *ssa.BasicBlock, x *ssa.Defer) {
	for _, li := range f.loops {
		if li.body[b] {
			unsupported("defer in loop")
		}
	}
	// arguments are evaluated now
	type argT struct{ v Val }
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, e.val(f, a))
	}
	var recv Val
	if x.Call.IsInvoke() {
		recv = e.val(f, x.Call.Value)
	}
	var fv Val
	_, isB := x.Call.Value.(*ssa.Builtin)
	if !x.Call.IsInvoke() && !isB {
		fv = e.val(f, x.Call.Value)
	}
	d := &deferRec{st: st.clone(), blk: b, inst: x}
	d.call = func(s *State) *State {
		if x.Call.IsInvoke() {
			s2, _ := e.invoke(f, s, recv, &x.Call, args, x.Pos())
			return s2
		}
		if isB {
			s2, _ := e.builtin(s, x.Call.Value.Name(), args, nil, e.pos(x.Pos()))
			return s2
		}
		if fv.Fn == nil {
			unsupported("deferred dynamic call")
		}
		s2, _ := e.callFn(f, s, fv.Fn.Fn, fv.Fn.Bind, args, x.Pos())
		return s2
	}
	f.defers = append(f.defers, d)
}

func reaches(a, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for _, s := range a.Succs {
		if reaches(s, b, seen) {
			return true
		}
	}
	return false
}

func (e *Enc) runDefers(f *frame, st *State, b *ssa.BasicBlock) *State {
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		if d.blk.Dominates(b) {
			st = d.call(st)
			if st == nil {
				return nil
			}
			continue
		}
		if !reaches(d.blk, b, map[*ssa.BasicBlock]bool{}) {
			continue
		}
		// executed only on paths that registered it
		in := e.merge([]edgeIn{{and(st.reach, d.st.reach), st, nil}})
		out := d.call(in)
		if out == nil {
			unsupported("deferred call does not return")
		}
		st = e.merge([]edgeIn{{out.reach, out, nil}, {and(st.reach, not(d.st.reach)), st, nil}})
	}
	return st
}
