package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Enc) val(f *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return Val{T: x.Type(), L: []string{e.globalRef(x)}}
	case *ssa.Function:
		return Val{T: x.Type(), Fn: &FuncVal{Fn: x}}
	case *ssa.Builtin:
		unsupported("builtin value %s", x)
	}
	r, ok := f.vals[v]
	if !ok {
		unsupported("no value for %s (%T) in %s", v.Name(), v, f.fn)
	}
	return r
}

func (e *Enc) bind(st *State, sort, hint, term string) string {
	n := e.constOf(hint, sort)
	e.define(st, "(= "+n+" "+term+")")
	return n
}

func (e *Enc) instr(f *frame, st *State, b *ssa.BasicBlock, instr ssa.Instruction) *State {
	switch x := instr.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		r := e.alloc(st, t, x.Comment)
		e.zeroInit(st, t, r)
		f.vals[x] = Val{T: x.Type(), L: []string{r}}
	case *ssa.BinOp:
		f.vals[x] = e.binop(st, x.Op, e.val(f, x.X), e.val(f, x.Y), x.Type(), e.pos(x.Pos()))
	case *ssa.UnOp:
		f.vals[x] = e.unop(f, st, x)
	case *ssa.FieldAddr:
		f.vals[x] = e.fieldAddr(st, e.val(f, x.X), x.Field, x.Type(), e.pos(x.Pos()))
	case *ssa.Field:
		f.vals[x] = e.fieldOf(e.val(f, x.X), x.Field)
	case *ssa.IndexAddr:
		f.vals[x] = e.indexAddr(f, st, x)
	case *ssa.Index:
		f.vals[x] = e.index(f, st, x)
	case *ssa.Store:
		p := e.val(f, x.Addr)
		if p.Addr == nil {
			e.nonNil(st, p.ref(), "store through nil pointer", e.pos(x.Pos()))
		}
		v := e.val(f, x.Val)
		e.checkTypeInv(st, p, v, e.pos(x.Pos()))
		e.store(st, p, e.materialize(v))
	case *ssa.Extract:
		f.vals[x] = e.val(f, x.Tuple).Tuple[x.Index]
	case *ssa.ChangeType:
		v := e.val(f, x.X)
		v.T = x.Type()
		f.vals[x] = v
	case *ssa.ChangeInterface:
		v := e.val(f, x.X)
		v.T = x.Type()
		f.vals[x] = v
	case *ssa.Convert:
		f.vals[x] = e.convert(st, e.val(f, x.X), x.Type(), e.pos(x.Pos()))
	case *ssa.MakeInterface:
		f.vals[x] = e.makeIface(st, e.val(f, x.X), x.Type())
	case *ssa.TypeAssert:
		f.vals[x] = e.typeAssert(st, e.val(f, x.X), x)
	case *ssa.MakeClosure:
		fv := &FuncVal{Fn: x.Fn.(*ssa.Function)}
		for _, bnd := range x.Bindings {
			fv.Bind = append(fv.Bind, e.val(f, bnd))
		}
		f.vals[x] = Val{T: x.Type(), Fn: fv}
	case *ssa.MakeSlice:
		l := e.val(f, x.Len).L[0]
		c := e.val(f, x.Cap).L[0]
		e.obligeSafe(st, "makeslice length in range", e.pos(x.Pos()), and("(<= 0 "+l+")", "(<= "+l+" "+c+")"))
		f.vals[x] = e.makeSlice(st, x.Type(), l, c)
	case *ssa.Slice:
		f.vals[x] = e.slice(f, st, x)
	case *ssa.MakeMap:
		r := e.alloc(st, x.Type(), "map")
		e.mapInit(st, x.Type(), r)
		f.vals[x] = Val{T: x.Type(), L: []string{r}}
	case *ssa.MapUpdate:
		m := e.val(f, x.Map)
		e.nonNil(st, m.ref(), "assignment to entry in nil map", e.pos(x.Pos()))
		e.mapStore(st, m, e.val(f, x.Key), e.materialize(e.val(f, x.Value)))
	case *ssa.Lookup:
		f.vals[x] = e.lookup(st, e.val(f, x.X), e.val(f, x.Index), x)
	case *ssa.Range:
		f.vals[x] = e.rangeStart(st, e.val(f, x.X), x)
	case *ssa.Next:
		f.vals[x] = e.rangeNext(f, st, x)
	case *ssa.Call:
		return e.call(f, st, x)
	case *ssa.Defer:
		e.deferInstr(f, st, b, x)
	case *ssa.MakeChan:
		r := e.alloc(st, x.Type(), "chan")
		f.vals[x] = Val{T: x.Type(), L: []string{r}}
	default:
		unsupported("instruction %T (%s) in %s", instr, instr, f.fn)
	}
	return st
}

// materialize turns static function values into references for storing.
func (e *Enc) materialize(v Val) Val {
	if v.Fn != nil && len(v.L) == 0 {
		v.L = []string{e.fnRef(v.Fn)}
	}
	return v
}

func (e *Enc) nonNil(st *State, ref, what, pos string) {
	if strings.HasPrefix(ref, "(fld ") || strings.HasPrefix(ref, "(elem ") || strings.HasPrefix(ref, "(obj ") || strings.HasPrefix(ref, "new.") {
		return
	}
	e.obligeSafe(st, what, pos, "(not (= "+ref+" nil))")
}

func (e *Enc) fieldAddr(st *State, base Val, idx int, rt types.Type, pos string) Val {
	bt := deref(base.T)
	u := bt.Underlying().(*types.Struct)
	e.nonNil(st, base.ref(), "nil dereference (field "+u.Field(idx).Name()+")", pos)
	return e.fieldAddrRaw(base, idx, rt)
}

func (e *Enc) fieldAddrRaw(base Val, idx int, rt types.Type) Val {
	bt := deref(base.T)
	u := bt.Underlying().(*types.Struct)
	fld := u.Field(idx)
	sk := structKey(bt)
	if rt == nil {
		rt = types.NewPointer(fld.Type())
	}
	switch fld.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		return Val{T: rt, L: []string{fmt.Sprintf("(fld %s %s)", e.fid(sk, idx, fld.Name()), base.ref())}}
	}
	return Val{T: rt, Addr: &Addr{Struct: u, SKey: sk, Field: idx, Base: base.ref()}}
}

func (e *Enc) fieldOf(v Val, idx int) Val {
	u := v.T.Underlying().(*types.Struct)
	o := 0
	for i := 0; i < idx; i++ {
		o += len(e.leaves(u.Field(i).Type()))
	}
	n := len(e.leaves(u.Field(idx).Type()))
	return Val{T: u.Field(idx).Type(), L: v.L[o : o+n]}
}

func (e *Enc) elemRef(base, idx string) string { return fmt.Sprintf("(elem %s %s)", base, idx) }

// ix is the position of element i of a slice starting at off (a named
// function so that quantifier triggers contain no arithmetic).
func ix(off, i string) string {
	if off == "0" {
		return i
	}
	return "(ix " + off + " " + i + ")"
}

func plus(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func (e *Enc) idxTerm(v Val) string {
	if e.isBV(v.T) {
		return "(bv2nat " + v.L[0] + ")"
	}
	return v.L[0]
}

func (e *Enc) indexAddr(f *frame, st *State, x *ssa.IndexAddr) Val {
	b := e.val(f, x.X)
	i := e.idxTerm(e.val(f, x.Index))
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		e.obligeSafe(st, "index in range", e.pos(x.Pos()), "(and (<= 0 "+i+") (< "+i+" "+b.L[2]+"))")
		return Val{T: x.Type(), L: []string{e.elemRef(b.L[0], ix(b.L[1], i))}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		e.nonNil(st, b.ref(), "nil dereference", e.pos(x.Pos()))
		e.obligeSafe(st, "index in range", e.pos(x.Pos()), fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, at.Len()))
		return Val{T: x.Type(), L: []string{e.elemRef(b.ref(), i)}}
	}
	unsupported("IndexAddr on %s", b.T)
	return Val{}
}

func (e *Enc) index(f *frame, st *State, x *ssa.Index) Val {
	b := e.val(f, x.X)
	i := e.idxTerm(e.val(f, x.Index))
	switch u := b.T.Underlying().(type) {
	case *types.Basic: // string
		e.obligeSafe(st, "string index in range", e.pos(x.Pos()), "(and (<= 0 "+i+") (< "+i+" (slen "+b.L[0]+")))")
		n := e.bind(st, "Int", "ch", "(sat "+b.L[0]+" "+i+")")
		return Val{T: x.Type(), L: []string{n}}
	case *types.Array:
		e.obligeSafe(st, "index in range", e.pos(x.Pos()), fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, u.Len()))
		return e.arrIndex(b, i)
	}
	unsupported("Index on %s", b.T)
	return Val{}
}

func (e *Enc) unop(f *frame, st *State, x *ssa.UnOp) Val {
	v := e.val(f, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if r, ok := e.immutableGlobal(st, g); ok {
				return r
			}
		}
		if v.Addr == nil {
			e.nonNil(st, v.ref(), "nil dereference", e.pos(x.Pos()))
		}
		return e.load(st, v)
	case token.NOT:
		return Val{T: x.Type(), L: []string{not(v.L[0])}}
	case token.SUB:
		ls := e.leaves(x.Type())[0]
		switch {
		case ls.Sort == "Int":
			return Val{T: x.Type(), L: []string{e.bind(st, "Int", "neg", e.wrap(x.Type(), "(- "+v.L[0]+")"))}}
		case ls.Sort == fltSort:
			return Val{T: x.Type(), L: []string{"(fp.neg " + v.L[0] + ")"}}
		}
		return Val{T: x.Type(), L: []string{"(bvneg " + v.L[0] + ")"}}
	case token.XOR:
		if e.isBV(x.Type()) {
			return Val{T: x.Type(), L: []string{"(bvnot " + v.L[0] + ")"}}
		}
		_, s, _ := e.intInfo(x.Type())
		if s {
			return Val{T: x.Type(), L: []string{"(- (- " + v.L[0] + ") 1)"}}
		}
		return Val{T: x.Type(), L: []string{e.wrap(x.Type(), "(- (- "+v.L[0]+") 1)")}}
	case token.ARROW:
		unsupported("channel receive")
	}
	unsupported("unop %s", x.Op)
	return Val{}
}

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (e *Enc) binop(st *State, op token.Token, x, y Val, rt types.Type, pos string) Val {
	mk := func(sort, t string) Val { return Val{T: rt, L: []string{e.bind(st, sort, "b", t)}} }
	switch op {
	case token.EQL, token.NEQ:
		t := e.eq(x, y)
		if op == token.NEQ {
			t = not(t)
		}
		return mk("Bool", t)
	}
	ls := e.leaves(x.T)
	s := ls[0].Sort
	a, b := x.L[0], y.L[0]
	switch {
	case s == "Bool":
		unsupported("bool op %s", op)
	case s == "Str":
		switch op {
		case token.ADD:
			return mk("Str", "(scat "+a+" "+b+")")
		case token.LSS:
			return mk("Bool", "(slt "+a+" "+b+")")
		case token.GTR:
			return mk("Bool", "(slt "+b+" "+a+")")
		case token.LEQ:
			return mk("Bool", "(not (slt "+b+" "+a+"))")
		case token.GEQ:
			return mk("Bool", "(not (slt "+a+" "+b+"))")
		}
	case s == fltSort:
		m := map[token.Token]string{token.ADD: "fp.add RNE", token.SUB: "fp.sub RNE", token.MUL: "fp.mul RNE", token.QUO: "fp.div RNE"}
		if o, ok := m[op]; ok {
			return mk(fltSort, "("+o+" "+a+" "+b+")")
		}
		c := map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}
		if o, ok := c[op]; ok {
			return mk("Bool", "("+o+" "+a+" "+b+")")
		}
	case strings.HasPrefix(s, "(_ BitVec"):
		bits, signed, _ := e.intInfo(x.T)
		m := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
		if o, ok := m[op]; ok {
			return mk(s, "("+o+" "+a+" "+b+")")
		}
		c := map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}
		if o, ok := c[op]; ok {
			p := "bvu"
			if signed {
				p = "bvs"
			}
			return mk("Bool", "("+p+o+" "+a+" "+b+")")
		}
		switch op {
		case token.AND_NOT:
			return mk(s, "(bvand "+a+" (bvnot "+b+"))")
		case token.SHL, token.SHR:
			sh := b
			if !e.isBV(y.T) {
				sh = fmt.Sprintf("((_ int2bv %d) %s)", bits, b)
			}
			if op == token.SHL {
				return mk(s, "(bvshl "+a+" "+sh+")")
			}
			if signed {
				return mk(s, "(bvashr "+a+" "+sh+")")
			}
			return mk(s, "(bvlshr "+a+" "+sh+")")
		}
	case s == "Int":
		switch op {
		case token.ADD:
			return mk("Int", e.wrap(rt, "(+ "+a+" "+b+")"))
		case token.SUB:
			return mk("Int", e.wrap(rt, "(- "+a+" "+b+")"))
		case token.MUL:
			return mk("Int", e.wrap(rt, "(* "+a+" "+b+")"))
		case token.QUO, token.REM:
			e.obligeSafe(st, "division by zero", pos, "(not (= "+b+" 0))")
			if op == token.QUO {
				if isUint(x.T) {
					return mk("Int", "(div "+a+" "+b+")")
				}
				return mk("Int", "(tdiv "+a+" "+b+")")
			}
			if isUint(x.T) {
				return mk("Int", "(mod "+a+" "+b+")")
			}
			return mk("Int", "(tmod "+a+" "+b+")")
		case token.LSS:
			return mk("Bool", "(< "+a+" "+b+")")
		case token.LEQ:
			return mk("Bool", "(<= "+a+" "+b+")")
		case token.GTR:
			return mk("Bool", "(> "+a+" "+b+")")
		case token.GEQ:
			return mk("Bool", "(>= "+a+" "+b+")")
		case token.SHL:
			if n, ok := smallInt(b); ok && n < 63 {
				return mk("Int", e.wrap(rt, fmt.Sprintf("(* %s %d)", a, int64(1)<<uint(n))))
			}
			return mk("Int", e.wrap(rt, "(* "+a+" (pow2 "+b+"))"))
		case token.SHR:
			if n, ok := smallInt(b); ok && n < 63 {
				return mk("Int", fmt.Sprintf("(div %s %d)", a, int64(1)<<uint(n)))
			}
			return mk("Int", "(div "+a+" (pow2 "+b+"))")
		case token.AND:
			for i := 0; i < 2; i++ {
				if n, ok := smallInt(b); ok && n >= 0 && (n&(n+1)) == 0 {
					return mk("Int", fmt.Sprintf("(mod %s %d)", a, n+1))
				}
				a, b = b, a
			}
			return mk("Int", "(ibitand "+a+" "+b+")")
		case token.OR:
			return mk("Int", "(ibitor "+a+" "+b+")")
		case token.XOR:
			return mk("Int", "(ibitxor "+a+" "+b+")")
		}
	}
	unsupported("binop %s on %s", op, x.T)
	return Val{}
}

func smallInt(s string) (int64, bool) {
	var n int64
	if s == "" {
		return 0, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int64(c-'0')
		if n > 1<<60 {
			return 0, false
		}
	}
	return n, true
}

// eq is Go equality.
func (e *Enc) eq(x, y Val) string {
	if x.Fn != nil || y.Fn != nil {
		// a static function is never nil
		return "false"
	}
	if _, ok := x.T.Underlying().(*types.Slice); ok {
		// only comparison with nil is legal Go
		return "(= " + x.L[0] + " " + y.L[0] + ")"
	}
	// mixed interface / concrete comparison
	_, xi := x.T.Underlying().(*types.Interface)
	_, yi := y.T.Underlying().(*types.Interface)
	if xi != yi {
		unsupported("mixed interface comparison")
	}
	var cs []string
	ls := e.leaves(x.T)
	for i := range ls {
		if i >= len(y.L) || i >= len(x.L) {
			x.ref()
			y.ref()
		}
		if ls[i].Sort == fltSort {
			cs = append(cs, "(fp.eq "+x.L[i]+" "+y.L[i]+")")
		} else {
			cs = append(cs, "(= "+x.L[i]+" "+y.L[i]+")")
		}
	}
	return and(cs...)
}

func (e *Enc) convert(st *State, v Val, t types.Type, pos string) Val {
	from, to := v.T.Underlying(), t.Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		fi := fb.Info()&types.IsInteger != 0
		ti := tb.Info()&types.IsInteger != 0
		switch {
		case fi && ti:
			return e.convInt(st, v, t)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return Val{T: t, L: v.L}
		case fi && tb.Info()&types.IsFloat != 0:
			if e.isBV(v.T) {
				unsupported("bv to float")
			}
			n := e.bind(st, fltSort, "f", "(int2flt "+v.L[0]+")")
			return Val{T: t, L: []string{n}}
		case fb.Info()&types.IsFloat != 0 && ti:
			n := e.bind(st, "Int", "i", "(flt2int "+v.L[0]+")")
			r := Val{T: t, L: []string{n}}
			e.assume(st, e.rangeFact(t, n))
			return r
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return Val{T: t, L: v.L}
		case fi && tb.Info()&types.IsString != 0:
			n := e.bind(st, "Str", "s", "(runestr "+v.L[0]+")")
			return Val{T: t, L: []string{n}}
		}
	}
	if ts, ok := to.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		el := ts.Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Int32 {
			s := e.makeSliceUninit(st, t, "(nrunes "+v.L[0]+")")
			k := "cell." + typeKey(ts.Elem())
			h := e.heapName(st, k, "Int")
			e.assume(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= 0 i!q) (< i!q (nrunes %s))) (= (select %s (elem %s i!q)) (runeat %s i!q))) :pattern ((select %s (elem %s i!q)))))", v.L[0], h, s.L[0], v.L[0], h, s.L[0]))
			return s
		}
		if el.Kind() == types.Uint8 {
			s := e.makeSliceUninit(st, t, "(slen "+v.L[0]+")")
			k := "cell." + typeKey(ts.Elem())
			h := e.heapName(st, k, "Int")
			e.assume(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= 0 i!q) (< i!q (slen %s))) (= (select %s (elem %s i!q)) (sat %s i!q))) :pattern ((select %s (elem %s i!q))) :pattern ((sat %s i!q))))", v.L[0], h, s.L[0], v.L[0], h, s.L[0], v.L[0]))
			return s
		}
	}
	if fs, ok := from.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		el := fs.Elem().Underlying().(*types.Basic)
		k := "cell." + typeKey(fs.Elem())
		h := e.heapName(st, k, "Int")
		if el.Kind() == types.Uint8 {
			n := e.constOf("s", "Str")
			e.assume(st, "(= (slen "+n+") "+v.L[2]+")")
			e.assume(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= 0 i!q) (< i!q (slen %s))) (= (sat %s i!q) (select %s (elem %s %s)))) :pattern ((sat %s i!q))))", n, n, h, v.L[0], ix(v.L[1], "i!q"), n))
			return Val{T: t, L: []string{n}}
		}
		if el.Kind() == types.Int32 {
			n := e.bind(st, "Str", "s", fmt.Sprintf("(runes2str (runeseq %s %s %s %s))", h, v.L[0], v.L[1], v.L[2]))
			el := func(i string) string { return "(select " + h + " (elem " + v.L[0] + " " + ix(v.L[1], i) + "))" }
			// code points below 128 are written as one byte each
			e.assume(st, fmt.Sprintf("(=> (forall ((i!q Int)) (! (=> (and (<= 0 i!q) (< i!q %s)) (and (<= 0 %s) (< %s 128))) :pattern (%s))) (and (= (slen %s) %s) (forall ((i!q Int)) (! (=> (and (<= 0 i!q) (< i!q %s)) (= (sat %s i!q) %s)) :pattern ((sat %s i!q))))))",
				v.L[2], el("i!q"), el("i!q"), el("i!q"), n, v.L[2], v.L[2], n, el("i!q"), n))
			return Val{T: t, L: []string{n}}
		}
	}
	unsupported("convert %s to %s", v.T, t)
	return Val{}
}

func (e *Enc) convInt(st *State, v Val, t types.Type) Val {
	fbv, tbv := e.isBV(v.T), e.isBV(t)
	fb, fs, _ := e.intInfo(v.T)
	tb, ts, _ := e.intInfo(t)
	switch {
	case fbv && tbv:
		switch {
		case fb == tb:
			return Val{T: t, L: v.L}
		case fb > tb:
			return Val{T: t, L: []string{fmt.Sprintf("((_ extract %d 0) %s)", tb-1, v.L[0])}}
		case fs:
			return Val{T: t, L: []string{fmt.Sprintf("((_ sign_extend %d) %s)", tb-fb, v.L[0])}}
		}
		return Val{T: t, L: []string{fmt.Sprintf("((_ zero_extend %d) %s)", tb-fb, v.L[0])}}
	case fbv:
		n := "(bv2nat " + v.L[0] + ")"
		if fs {
			n = fmt.Sprintf("(ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s))", v.L[0], fb, v.L[0], pow2s(fb), v.L[0])
		}
		if !ts || tb < fb {
			n = e.wrap(t, n)
		}
		return Val{T: t, L: []string{e.bind(st, "Int", "cv", n)}}
	case tbv:
		if n, ok := smallInt(v.L[0]); ok {
			return Val{T: t, L: []string{fmt.Sprintf("(_ bv%d %d)", n, tb)}}
		}
		return Val{T: t, L: []string{fmt.Sprintf("((_ int2bv %d) %s)", tb, v.L[0])}}
	}
	// widening conversions keep the value
	if tb > fb && (ts || !fs) || tb == fb && ts == fs {
		return Val{T: t, L: v.L}
	}
	if ts && tb == 64 && !fs && fb == 64 {
		x := v.L[0]
		return Val{T: t, L: []string{e.bind(st, "Int", "cv", "(ite (< "+x+" 9223372036854775808) "+x+" (- "+x+" 18446744073709551616))")}}
	}
	return Val{T: t, L: []string{e.bind(st, "Int", "cv", e.wrap(t, v.L[0]))}}
}

func pow2s(b int) string {
	if b == 64 {
		return "18446744073709551616"
	}
	return fmt.Sprint(int64(1) << uint(b))
}

// ---------------------------------------------------------------- interfaces

func (e *Enc) makeIface(st *State, v Val, t types.Type) Val {
	ls := e.leaves(v.T)
	v = e.materialize(v)
	var pay string
	if len(ls) == 1 && v.Addr == nil {
		x := v.L[0]
		switch s := ls[0].Sort; {
		case s == "Ref":
			pay = "(pref " + x + ")"
		case s == "Int":
			pay = "(pint " + x + ")"
		case s == "Str":
			pay = "(pstr " + x + ")"
		case s == "Bool":
			pay = "(pbool " + x + ")"
		case s == fltSort:
			pay = "(pflt " + x + ")"
		case strings.HasPrefix(s, "(_ BitVec"):
			pay = "(pint (bv2nat " + x + "))"
		}
	}
	if pay == "" {
		r := e.alloc(st, v.T, "box")
		if len(v.L) > 0 {
			e.store(st, Val{T: types.NewPointer(v.T), L: []string{r}}, v)
		}
		pay = "(pref " + r + ")"
	}
	cv := v
	n := e.bind(st, "Iface", "if", "(imk "+e.tag(v.T)+" "+pay+")")
	return Val{T: t, L: []string{n}, Dyn: &cv}
}

func (e *Enc) unbox(st *State, x string, t types.Type) Val {
	ls := e.leaves(t)
	if len(ls) == 1 {
		switch s := ls[0].Sort; {
		case s == "Ref":
			return Val{T: t, L: []string{"(pr (ipay " + x + "))"}}
		case s == "Int":
			return Val{T: t, L: []string{"(pi (ipay " + x + "))"}}
		case s == "Str":
			return Val{T: t, L: []string{"(ps (ipay " + x + "))"}}
		case s == "Bool":
			return Val{T: t, L: []string{"(pb (ipay " + x + "))"}}
		case s == fltSort:
			return Val{T: t, L: []string{"(pf (ipay " + x + "))"}}
		case strings.HasPrefix(s, "(_ BitVec"):
			b, _, _ := e.intInfo(t)
			return Val{T: t, L: []string{fmt.Sprintf("((_ int2bv %d) (pi (ipay %s)))", b, x)}}
		}
	}
	p := Val{T: types.NewPointer(t), L: []string{"(pr (ipay " + x + "))"}}
	_, cs := e.addrCells(p)
	return Val{T: t, L: e.loadCells(st, cs)}
}

func (e *Enc) hasType(x string, from, t types.Type) string {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return "(not (= " + x + " inil))"
		}
		if types.Implements(from, it) {
			return "(not (= " + x + " inil))"
		}
		return "(and (not (= " + x + " inil)) (implements (itag " + x + ") " + e.ifaceID(t) + "))"
	}
	return "(and (not (= " + x + " inil)) (= (itag " + x + ") " + e.tag(t) + ") ((_ is " + e.payCtor(t) + ") (ipay " + x + ")))"
}

func (e *Enc) payCtor(t types.Type) string {
	ls := e.leaves(t)
	if len(ls) == 1 {
		switch s := ls[0].Sort; {
		case s == "Ref":
			return "pref"
		case s == "Int", strings.HasPrefix(s, "(_ BitVec"):
			return "pint"
		case s == "Str":
			return "pstr"
		case s == "Bool":
			return "pbool"
		case s == fltSort:
			return "pflt"
		}
	}
	return "pref"
}

func (e *Enc) typeAssert(st *State, v Val, x *ssa.TypeAssert) Val {
	ok := e.bind(st, "Bool", "ok", e.hasType(v.L[0], v.T, x.AssertedType))
	var r Val
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		r = Val{T: x.AssertedType, L: v.L}
	} else {
		r = e.unbox(st, v.L[0], x.AssertedType)
		ls := e.leaves(x.AssertedType)
		for i := range r.L {
			r.L[i] = e.bind(st, ls[i].Sort, "ta", r.L[i])
		}
		w := e.wf(st, r)
		if w != "true" {
			e.assume(st, "(=> "+ok+" "+w+")")
		}
	}
	if x.CommaOk {
		z := e.zero(x.AssertedType)
		ls := e.leaves(x.AssertedType)
		res := Val{T: x.AssertedType}
		for i := range r.L {
			res.L = append(res.L, e.bind(st, ls[i].Sort, "ta", "(ite "+ok+" "+r.L[i]+" "+z.L[i]+")"))
		}
		return Val{T: x.Type(), Tuple: []Val{res, {T: types.Typ[types.Bool], L: []string{ok}}}}
	}
	e.obligeSafe(st, "type assertion to "+typeKey(x.AssertedType)+" holds", e.pos(x.Pos()), ok)
	return r
}

// ---------------------------------------------------------------- slices

func (e *Enc) makeSliceUninit(st *State, t types.Type, l string) Val {
	r := e.alloc(st, t, "slice")
	ln := e.bind(st, "Int", "len", l)
	e.assume(st, "(<= 0 "+ln+" 1099511627776)")
	return Val{T: t, L: []string{r, "0", ln, ln}}
}

func (e *Enc) makeSlice(st *State, t types.Type, l, c string) Val {
	r := e.alloc(st, t, "slice")
	el := t.Underlying().(*types.Slice).Elem()
	if n, ok := smallInt(c); ok && n <= 8 {
		for i := int64(0); i < n; i++ {
			e.zeroInit(st, el, fmt.Sprintf("(elem %s %d)", r, i))
		}
	} else {
		for _, c0 := range e.cells(el, "(elem "+r+" 0)") {
			e.heapName(st, c0.key, c0.sort)
			if !strings.HasPrefix(c0.ref, "(elem ") {
				// nested sub-object of the element: zero for every index
				old, nw := e.heapFresh(st, c0.key)
				pat := strings.Replace(c0.ref, "(elem "+r+" 0)", "(elem "+r+" i!q)", 1)
				e.define(st, fmt.Sprintf("(forall ((i!q Int)) (! (= (select %s %s) %s) :pattern ((select %s %s))))", nw, pat, e.zeroLeaf(c0.sort), nw, pat))
				e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (=> (not (= (rootid r!q) (rootid %s))) (= (select %s r!q) (select %s r!q))) :pattern ((select %s r!q))))", r, nw, old, nw))
				continue
			}
			old, nw := e.heapFresh(st, c0.key)
			e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (= (select %s r!q) (ite (and ((_ is elem) r!q) (= (ebase r!q) %s)) %s (select %s r!q))) :pattern ((select %s r!q))))", nw, r, e.zeroLeaf(c0.sort), old, nw))
		}
	}
	e.assume(st, "(<= "+c+" 1099511627776)")
	return Val{T: t, L: []string{r, "0", l, c}}
}

func (e *Enc) slice(f *frame, st *State, x *ssa.Slice) Val {
	v := e.val(f, x.X)
	pos := e.pos(x.Pos())
	get := func(y ssa.Value, d string) string {
		if y == nil {
			return d
		}
		return e.idxTerm(e.val(f, y))
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		lo := get(x.Low, "0")
		hi := get(x.High, "(slen "+v.L[0]+")")
		e.obligeSafe(st, "string slice bounds", pos, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (slen "+v.L[0]+"))"))
		return Val{T: x.Type(), L: []string{e.bind(st, "Str", "sub", "(ssub "+v.L[0]+" "+lo+" "+hi+")")}}
	case *types.Slice:
		lo := get(x.Low, "0")
		hi := get(x.High, v.L[2])
		mx := get(x.Max, v.L[3])
		e.obligeSafe(st, "slice bounds", pos, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+mx+")", "(<= "+mx+" "+v.L[3]+")"))
		return Val{T: x.Type(), L: []string{v.L[0], e.bind(st, "Int", "off", plus(v.L[1], lo)), e.bind(st, "Int", "len", "(- "+hi+" "+lo+")"), e.bind(st, "Int", "cap", "(- "+mx+" "+lo+")")}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		lo := get(x.Low, "0")
		hi := get(x.High, n)
		mx := get(x.Max, n)
		e.nonNil(st, v.ref(), "nil dereference", pos)
		e.obligeSafe(st, "slice bounds", pos, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+mx+")", "(<= "+mx+" "+n+")"))
		if lo == "0" {
			if hi == mx {
				return Val{T: x.Type(), L: []string{v.ref(), "0", hi, mx}}
			}
			return Val{T: x.Type(), L: []string{v.ref(), "0", hi, mx}}
		}
		return Val{T: x.Type(), L: []string{v.ref(), lo, "(- " + hi + " " + lo + ")", "(- " + mx + " " + lo + ")"}}
	}
	unsupported("slice of %s", v.T)
	return Val{}
}

// appendSlice models append(a, b...) including the in-place case.
func (e *Enc) appendSlice(st *State, a, b Val, rt types.Type) Val {
	el := rt.Underlying().(*types.Slice).Elem()
	la, lb := a.L[2], b.L[2]
	strSrc := false
	if bb, ok := b.T.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
		strSrc = true
		lb = "(slen " + b.L[0] + ")"
	}
	nl := e.bind(st, "Int", "alen", plus(la, lb))
	grow := e.bind(st, "Bool", "grow", "(> "+nl+" "+a.L[3]+")")
	fr := e.alloc(st, rt, "append")
	arr := e.bind(st, "Ref", "aarr", "(ite "+grow+" "+fr+" "+a.L[0]+")")
	off := e.bind(st, "Int", "aoff", "(ite "+grow+" 0 "+a.L[1]+")")
	cp := e.constOf("acap", "Int")
	e.assume(st, "(and (>= "+cp+" "+nl+") (=> (not "+grow+") (= "+cp+" "+a.L[3]+")) (<= "+cp+" 1099511627776))")
	n, isConst := smallInt(lb)
	base := e.cells(el, "(elem BASE IDX)")
	olds, nws := map[string]string{}, map[string]string{}
	frames := map[string][]string{}
	var korder []string
	for _, c0 := range base {
		if _, ok := olds[c0.key]; !ok {
			olds[c0.key] = e.heapName(st, c0.key, c0.sort)
			_, nws[c0.key] = e.heapFresh(st, c0.key)
			korder = append(korder, c0.key)
		}
		old, nw := olds[c0.key], nws[c0.key]
		// position of a cell in the new array
		at := func(arr, idx string) string {
			return strings.Replace(strings.Replace(c0.ref, "BASE", arr, 1), "IDX", idx, 1)
		}
		// copied prefix
		e.define(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= 0 i!q) (< i!q %s)) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))",
			la, nw, at(arr, ix(off, "i!q")), old, at(a.L[0], ix(a.L[1], "i!q")), nw, at(arr, ix(off, "i!q"))))
		// also triggered by reads with an absolute index
		e.define(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= %s i!q) (< i!q (+ %s %s))) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))",
			off, off, la, nw, at(arr, "i!q"), old, at(a.L[0], ix(a.L[1], "(- i!q "+off+")")), nw, at(arr, "i!q")))
		// appended part
		if isConst && n <= 8 && !strSrc {
			for i := int64(0); i < n; i++ {
				e.define(st, fmt.Sprintf("(= (select %s %s) (select %s %s))", nw, at(arr, ix(off, plus(la, fmt.Sprint(i)))), old, at(b.L[0], ix(b.L[1], fmt.Sprint(i)))))
			}
		} else if strSrc {
			e.define(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= (+ %s %s) i!q) (< i!q (+ %s %s))) (= (select %s %s) (sat %s (- i!q (+ %s %s))))) :pattern ((select %s %s))))",
				off, la, off, nl, nw, at(arr, "i!q"), b.L[0], off, la, nw, at(arr, "i!q")))
		} else {
			e.define(st, fmt.Sprintf("(forall ((i!q Int)) (! (=> (and (<= (+ %s %s) i!q) (< i!q (+ %s %s))) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))",
				off, la, off, nl, nw, at(arr, "i!q"), old, at(b.L[0], ix(b.L[1], "(- i!q (+ "+off+" "+la+"))")), nw, at(arr, "i!q")))
		}
		// everything else is unchanged
		inner, guard := peel(c0.ref, "r!q")
		inNew := and(append(guard, fmt.Sprintf("((_ is elem) %s)", inner), fmt.Sprintf("(= (ebase %s) %s)", inner, arr), fmt.Sprintf("(or %s (<= (+ %s %s) (eidx %s)))", grow, off, la, inner))...)
		dup := false
		for _, x := range frames[c0.key] {
			dup = dup || x == inNew
		}
		if !dup {
			frames[c0.key] = append(frames[c0.key], inNew)
		}
	}
	for _, k := range korder {
		e.define(st, fmt.Sprintf("(forall ((r!q Ref)) (! (=> (not %s) (= (select %s r!q) (select %s r!q))) :pattern ((select %s r!q))))", or(frames[k]...), nws[k], olds[k], nws[k]))
	}
	return Val{T: rt, L: []string{arr, off, nl, cp}}
}

// peel walks from the cell address r down to the slice element it is nested in,
// following the shape of the template ref (which ends in "(elem BASE IDX)").
func peel(ref, r string) (inner string, guard []string) {
	inner = r
	for ref != "(elem BASE IDX)" {
		switch {
		case strings.HasPrefix(ref, "(fld "):
			k := strings.Index(ref[5:], " ") + 5
			guard = append(guard, "((_ is fld) "+inner+")", "(= (fid "+inner+") "+ref[5:k]+")")
			inner = "(fbase " + inner + ")"
			ref = ref[k+1 : len(ref)-1]
		case strings.HasPrefix(ref, "(elem "):
			guard = append(guard, "((_ is elem) "+inner+")")
			inner = "(ebase " + inner + ")"
			ref = ref[6:strings.LastIndex(ref, " ")]
		default:
			unsupported("cell template %s", ref)
		}
	}
	return
}

// ---------------------------------------------------------------- maps

func (e *Enc) mapKeys(t types.Type) (dom, ln string, ks string, vals []Leaf) {
	mt := t.Underlying().(*types.Map)
	kl := e.leaves(mt.Key())
	if len(kl) != 1 {
		unsupported("map key type %s", mt.Key())
	}
	k := "map." + typeKey(mt)
	return k + "#dom", k + "#len", kl[0].Sort, e.leaves(mt.Elem())
}

func (e *Enc) mapHeaps(st *State, t types.Type) (dom string, ln string, vals []string, keys []string, sorts []string) {
	dk, lk, ks, vl := e.mapKeys(t)
	dom = e.heapName(st, dk, "(Array "+ks+" Bool)")
	ln = e.heapName(st, lk, "Int")
	k := "map." + typeKey(t.Underlying())
	keys = []string{dk, lk}
	sorts = []string{"(Array " + ks + " Bool)", "Int"}
	for _, l := range vl {
		so := "(Array " + ks + " " + l.Sort + ")"
		kk := k + "#val" + l.Suffix
		vals = append(vals, e.heapName(st, kk, so))
		keys = append(keys, kk)
		sorts = append(sorts, so)
	}
	return
}

func (e *Enc) mapInit(st *State, t types.Type, r string) {
	_, _, _, keys, sorts := e.mapHeaps(st, t)
	e.heapSet(st, keys[0], sorts[0], r, "((as const "+sorts[0]+") false)")
	e.heapSet(st, keys[1], "Int", r, "0")
}

func (e *Enc) mapStore(st *State, m, k, v Val) {
	dom, ln, vals, keys, sorts := e.mapHeaps(st, m.T)
	r := m.ref()
	kk := k.L[0]
	d := "(select (select " + dom + " " + r + ") " + kk + ")"
	e.heapSet(st, keys[1], "Int", r, "(ite "+d+" (select "+ln+" "+r+") (+ 1 (select "+ln+" "+r+")))")
	e.heapSet(st, keys[0], sorts[0], r, "(store (select "+dom+" "+r+") "+kk+" true)")
	for i, h := range vals {
		e.heapSet(st, keys[2+i], sorts[2+i], r, "(store (select "+h+" "+r+") "+kk+" "+v.L[i]+")")
	}
}

func (e *Enc) mapDelete(st *State, m, k Val) {
	dom, ln, _, keys, sorts := e.mapHeaps(st, m.T)
	r := m.ref()
	kk := k.L[0]
	d := "(select (select " + dom + " " + r + ") " + kk + ")"
	e.heapSet(st, keys[1], "Int", r, "(ite "+d+" (- (select "+ln+" "+r+") 1) (select "+ln+" "+r+"))")
	e.heapSet(st, keys[0], sorts[0], r, "(store (select "+dom+" "+r+") "+kk+" false)")
}

func (e *Enc) mapGet(st *State, m, k Val) (Val, string) {
	dom, _, vals, _, _ := e.mapHeaps(st, m.T)
	mt := m.T.Underlying().(*types.Map)
	r := m.ref()
	in := "(and (not (= " + r + " nil)) (select (select " + dom + " " + r + ") " + k.L[0] + "))"
	z := e.zero(mt.Elem())
	v := Val{T: mt.Elem()}
	for i, h := range vals {
		v.L = append(v.L, "(ite "+in+" (select (select "+h+" "+r+") "+k.L[0]+") "+z.L[i]+")")
	}
	return v, in
}

func (e *Enc) lookup(st *State, m, k Val, x *ssa.Lookup) Val {
	if _, ok := m.T.Underlying().(*types.Map); !ok {
		i := e.idxTerm(k)
		e.obligeSafe(st, "string index in range", e.pos(x.Pos()), "(and (<= 0 "+i+") (< "+i+" (slen "+m.L[0]+")))")
		n := e.bind(st, "Int", "ch", "(sat "+m.L[0]+" "+i+")")
		e.assume(st, "(<= 0 "+n+" 255)")
		return Val{T: x.Type(), L: []string{n}}
	}
	v, in := e.mapGet(st, m, k)
	ls := e.leaves(v.T)
	for i := range v.L {
		v.L[i] = e.bind(st, ls[i].Sort, "mv", v.L[i])
	}
	e.assume(st, e.wf(st, v))
	if x.CommaOk {
		ok := e.bind(st, "Bool", "ok", in)
		return Val{T: x.Type(), Tuple: []Val{v, {T: types.Typ[types.Bool], L: []string{ok}}}}
	}
	return v
}

func (e *Enc) rangeStart(st *State, v Val, x *ssa.Range) Val {
	it := &IterVal{Over: v, Key: "ghost:iter." + x.Name() + "." + sanitize(x.Parent().Name())}
	if _, ok := v.T.Underlying().(*types.Map); ok {
		_, _, ks, _ := e.mapKeys(v.T)
		so := "(Array " + ks + " Bool)"
		e.heapName(st, it.Key, so)
		_, nw := e.heapFresh(st, it.Key)
		e.define(st, "(= "+nw+" ((as const "+so+") false))")
	} else {
		e.heapName(st, it.Key, "Int")
		_, nw := e.heapFresh(st, it.Key)
		e.define(st, "(= "+nw+" 0)")
	}
	return Val{T: x.Type(), Iter: it}
}

func (e *Enc) rangeNext(f *frame, st *State, x *ssa.Next) Val {
	v := e.val(f, x.Iter)
	it := v.Iter
	tt := x.Type().(*types.Tuple)
	ok := e.constOf("ok", "Bool")
	res := Val{T: x.Type()}
	if x.IsString {
		s := it.Over.L[0]
		p := e.heapName(st, it.Key, "Int")
		e.define(st, "(= "+ok+" (< "+p+" (slen "+s+")))")
		r := e.bind(st, "Int", "rn", "(drune "+s+" "+p+")")
		_, nw := e.heapFresh(st, it.Key)
		e.define(st, "(= "+nw+" (ite "+ok+" (+ "+p+" (dsize "+s+" "+p+")) "+p+"))")
		res.Tuple = []Val{{T: types.Typ[types.Bool], L: []string{ok}}, {T: types.Typ[types.Int], L: []string{p}}, {T: types.Typ[types.Int32], L: []string{r}}}
		return res
	}
	mt := it.Over.T.Underlying().(*types.Map)
	dom, _, _, _, _ := e.mapHeaps(st, it.Over.T)
	_, _, ks, _ := e.mapKeys(it.Over.T)
	m := it.Over.ref()
	vis := e.heapName(st, it.Key, "(Array "+ks+" Bool)")
	k := e.constOf("key", ks)
	kv := Val{T: mt.Key(), L: []string{k}}
	e.assume(st, "(=> "+ok+" (and (not (= "+m+" nil)) (select (select "+dom+" "+m+") "+k+") (not (select "+vis+" "+k+"))))")
	e.assume(st, fmt.Sprintf("(=> (not %s) (forall ((k!q %s)) (! (=> (and (not (= %s nil)) (select (select %s %s) k!q)) (select %s k!q)) :pattern ((select %s k!q)) :pattern ((select (select %s %s) k!q)))))", ok, ks, m, dom, m, vis, vis, dom, m))
	_, mln, _, _, _ := e.mapHeaps(st, it.Over.T)
	e.assume(st, "(=> (and (not "+ok+") (= "+vis+" ((as const (Array "+ks+" Bool)) false))) (or (= "+m+" nil) (= (select "+mln+" "+m+") 0)))")
	_, nw := e.heapFresh(st, it.Key)
	e.define(st, "(= "+nw+" (ite "+ok+" (store "+vis+" "+k+" true) "+vis+"))")
	val, _ := e.mapGet(st, it.Over, kv)
	ls := e.leaves(val.T)
	for i := range val.L {
		val.L[i] = e.bind(st, ls[i].Sort, "mv", val.L[i])
	}
	e.assume(st, e.wf(st, val))
	e.assume(st, e.wf(st, kv))
	_ = tt
	res.Tuple = []Val{{T: types.Typ[types.Bool], L: []string{ok}}, kv, val}
	return res
}

// immutableGlobal: a package variable declared immutable in the contracts,
// assigned exactly once (in the package initializer, checked here on the
// SSA of the whole program) has the value its initializer computes.
func (e *Enc) immutableGlobal(st *State, g *ssa.Global) (Val, bool) {
	key := g.Pkg.Pkg.Name() + "." + g.Name()
	if !e.specs.Immutable[key] {
		return Val{}, false
	}
	if v, ok := e.immVals[key]; ok {
		return v, true
	}
	v := e.pr.soleInit(g)
	t := deref(g.Type())
	var out Val
	switch x := v.(type) {
	case *ssa.Const:
		out = e.constVal(x)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil {
			unsupported("immutable %s: initializer is not a static call", key)
		}
		con := e.specs.Contracts[e.fnKey(fn)]
		if con == nil {
			unsupported("immutable %s: initializer %s has no contract", key, e.fnKey(fn))
		}
		env := map[string]Val{}
		for i, a := range x.Call.Args {
			c, ok := a.(*ssa.Const)
			if !ok {
				unsupported("immutable %s: initializer argument is not constant", key)
			}
			env[con.Params[i]] = e.constVal(c)
		}
		out = Val{T: t}
		for _, l := range e.leaves(t) {
			out.L = append(out.L, e.constOf("g."+key, l.Sort))
		}
		bindResults(env, con, []Val{out})
		ctx := &sctx{e: e, st: e.entry, old: e.entry, env: env, pkg: con.Pkg}
		for _, en := range con.Ensures {
			if strings.Contains(en.E.String(), "fresh(") {
				continue
			}
			e.facts = append(e.facts, fact{0, ctx.boolean(en.E)})
		}
		e.externUsed[e.fnKey(fn)] = true
	default:
		unsupported("immutable %s: initializer %T", key, v)
	}
	e.immVals[key] = out
	return out, true
}

// soleInit returns the value of the only store to g, which must be in init.
func (pr *Program) soleInit(g *ssa.Global) ssa.Value {
	var v ssa.Value
	for _, fn := range pr.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					if v != nil || fn.Name() != "init" {
						unsupported("global %s is assigned outside its initializer (%s)", g.Name(), fn)
					}
					v = s.Val
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == g {
						if u, ok := in.(*ssa.UnOp); ok && u.X == g {
							continue
						}
						if _, ok := in.(*ssa.DebugRef); ok {
							continue
						}
						unsupported("address of immutable global %s taken in %s", g.Name(), fn)
					}
				}
			}
		}
	}
	if v == nil {
		unsupported("global %s has no initializer store", g.Name())
	}
	return v
}

func (e *Enc) checkTypeInv(st *State, p, v Val, pos string) {}
