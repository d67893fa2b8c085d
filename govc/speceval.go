package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sctx evaluates contract expressions to SMT terms in a state.
type sctx struct {
	e         *Enc
	st        *State
	old       *State
	env       map[string]Val
	pkg       string
	frame     *frame
	loop      *loopInfo
	phis      map[*ssa.Phi]Val
	loopEntry *State
	callee    *Contract
	noHeap    bool
	depth     int
}

func (e *Enc) specCtx(f *frame, st, old *State) *sctx {
	env := map[string]Val{}
	con := f.con
	pkg := e.con.Pkg
	for i, p := range f.fn.Params {
		name := p.Name()
		if con != nil && i < len(con.Params) {
			name = con.Params[i]
		}
		env[name] = f.params[i]
	}
	if con != nil {
		pkg = con.Pkg
		if f.lfuns == nil {
			f.lfuns = e.localFuns(con)
		}
		for k, v := range f.lfuns {
			env[k] = v
		}
	}
	c := &sctx{e: e, st: st, old: old, env: env, pkg: pkg, frame: f}
	if con != nil && f.oldSt != nil {
		o := &sctx{e: e, st: f.oldSt, old: f.oldSt, env: env, pkg: pkg, frame: f}
		o.lets(con.Lets)
	}
	return c
}

// localFuns makes fresh symbols for the functions local to one instance of a contract.
func (e *Enc) localFuns(con *Contract) map[string]Val {
	out := map[string]Val{}
	for _, f := range con.LocalFuns {
		g := *f
		g.Name = e.fresh("lf." + f.Name)
		out["@"+f.Name] = Val{LF: &g}
	}
	return out
}

var boundName = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*!b[0-9]+`)

// instLocals assumes the defining equations of a contract instance's local
// functions. Two instances whose equations read the same (same definition,
// same heap versions, same arguments) denote the same functions, so they share
// symbols: the functions are a fixed choice for each entry state.
func (e *Enc) instLocals(con *Contract, ctx *sctx, st *State) {
	if len(con.LocalFuns) == 0 {
		return
	}
	var facts []string
	for _, w := range con.Where {
		facts = append(facts, ctx.boolean(w.E))
	}
	key := strings.Join(facts, "\n")
	for i, f := range con.LocalFuns {
		key = strings.ReplaceAll(key, "f."+ctx.env["@"+f.Name].LF.Name, fmt.Sprintf("@%d", i))
	}
	// bound variables are numbered in order of appearance
	ren := map[string]string{}
	key = boundName.ReplaceAllStringFunc(key, func(m string) string {
		if _, ok := ren[m]; !ok {
			ren[m] = fmt.Sprintf("?%d", len(ren))
		}
		return ren[m]
	})
	if prev, ok := e.lfCache[key]; ok {
		for i, f := range con.LocalFuns {
			ctx.env["@"+f.Name] = prev[i]
		}
		facts = nil
		for _, w := range con.Where {
			facts = append(facts, ctx.boolean(w.E))
		}
	} else {
		var vs []Val
		for _, f := range con.LocalFuns {
			vs = append(vs, ctx.env["@"+f.Name])
		}
		e.lfCache[key] = vs
	}
	for _, f := range facts {
		e.assume(st, f)
	}
}

func (c *sctx) lets(ls []LetDef) {
	for _, l := range ls {
		v := c.eval(l.E)
		c.env[l.Name] = v
	}
}

func (c *sctx) fail(x *Expr, f string, a ...interface{}) {
	unsupported("contract %s: %s in %q", x.Pos, fmt.Sprintf(f, a...), x.String())
}

func (c *sctx) boolean(x *Expr) string {
	v := c.eval(x)
	if len(v.L) != 1 {
		c.fail(x, "not a boolean")
	}
	return v.L[0]
}

func boolVal(t string) Val { return Val{T: types.Typ[types.Bool], L: []string{t}} }
func intVal(t string) Val  { return Val{T: types.Typ[types.Int], L: []string{t}} }

func (c *sctx) typ(t *TypeExpr) types.Type { return c.e.pr.resolveType(c.e.specs, t, c.pkg) }

func (c *sctx) sub(st *State) *sctx {
	d := *c
	d.st = st
	return &d
}

func (c *sctx) withEnv(extra map[string]Val) *sctx {
	d := *c
	d.env = map[string]Val{}
	for k, v := range c.env {
		d.env[k] = v
	}
	for k, v := range extra {
		d.env[k] = v
	}
	return &d
}

func (c *sctx) eval(x *Expr) Val {
	e := c.e
	switch x.Op {
	case "int":
		return Val{T: types.Typ[types.UntypedInt], L: []string{intLit(x.Int)}, Lit: true}
	case "str":
		return Val{T: types.Typ[types.String], L: []string{e.strLit(x.Name)}}
	case "ident":
		return c.ident(x)
	case "old":
		if c.old == nil {
			c.fail(x, "old not available")
		}
		return c.sub(c.old).eval(x.Kids[0])
	case "un":
		return c.unary(x)
	case "bin":
		return c.binary(x)
	case "sel":
		return c.sel(x)
	case "index":
		return c.index(x)
	case "slice":
		return c.sliceExpr(x)
	case "call":
		return c.callExpr(x)
	case "quant":
		return c.quant(x)
	case "typeassert":
		v := c.eval(x.Kids[0])
		return e.unbox(c.st, v.L[0], c.typ(x.Typ))
	case "type":
		return intVal(e.tag(c.typ(x.Typ)))
	}
	c.fail(x, "unknown expression")
	return Val{}
}

func (c *sctx) ident(x *Expr) Val {
	e := c.e
	if v, ok := c.env[x.Name]; ok {
		if c.loop != nil && c.st != c.old {
			if p, ok := c.phiOf(x.Name); ok {
				return p
			}
		}
		return v
	}
	switch x.Name {
	case "true", "false":
		return boolVal(x.Name)
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], L: []string{"nil"}}
	}
	if c.frame != nil {
		if v, ok := c.local(x.Name); ok {
			return v
		}
	}
	if g, ok := e.specs.Ghosts[x.Name]; ok {
		t := c.typ(g.Typ)
		l := e.leaves(t)[0]
		return Val{T: t, L: []string{e.heapName(c.st, "ghost:"+x.Name, l.Sort)}}
	}
	if f, ok := e.specs.Funs[x.Name]; ok && len(f.Params) == 0 {
		return c.callFun(x, f, nil)
	}
	if v, ok := c.pkgObj(c.pkg, x.Name); ok {
		return v
	}
	c.fail(x, "unknown name %s", x.Name)
	return Val{}
}

func (c *sctx) pkgObj(pkg, name string) (Val, bool) {
	e := c.e
	p := e.pr.byName(pkg)
	if p == nil {
		return Val{}, false
	}
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		t := o.Type()
		switch o.Val().Kind() {
		case constant.Int:
			v := e.intConst(t, o.Val().ExactString())
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				v.Lit = true
			}
			return v, true
		case constant.Bool:
			return boolVal(fmt.Sprint(constant.BoolVal(o.Val()))), true
		case constant.String:
			return Val{T: t, L: []string{e.strLit(constant.StringVal(o.Val()))}}, true
		}
	case *types.Var:
		sp := e.pr.Prog.Package(p)
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			ptr := Val{T: g.Type(), L: []string{e.globalRef(g)}}
			return c.loadPure(ptr), true
		}
	}
	return Val{}, false
}

func (c *sctx) loadPure(p Val) Val {
	if _, ok := deref(p.T).Underlying().(*types.Array); ok && p.Addr == nil {
		return Val{T: p.T, L: p.L}
	}
	t, cs := c.e.addrCells(p)
	if _, ok := t.Underlying().(*types.Array); ok {
		// keep as location: index applies on the element cells
		return Val{T: types.NewPointer(t), L: p.L}
	}
	if hasArray(t) {
		return Val{T: types.NewPointer(t), L: p.L}
	}
	return Val{T: t, L: c.e.loadCells(c.st, cs)}
}

// phiOf: the current value of a parameter that the loop (or one around it) reassigns.
func (c *sctx) phiOf(name string) (Val, bool) {
	isParam := false
	for _, p := range c.frame.fn.Params {
		isParam = isParam || p.Name() == name
	}
	if !isParam {
		return Val{}, false
	}
	for _, in := range c.loop.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p.Comment == name {
			if v, ok := c.phis[p]; ok {
				return v, true
			}
		}
	}
	for b := c.loop.header.Idom(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok && p.Comment == name {
				if v, ok := c.frame.vals[p]; ok {
					return v, true
				}
			}
		}
	}
	return Val{}, false
}

// local resolves the name of a Go local variable at a loop header.
func (c *sctx) local(name string) (Val, bool) {
	f := c.frame
	if c.loop != nil {
		for _, in := range c.loop.header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			if p.Comment == name {
				if v, ok := c.phis[p]; ok {
					return v, true
				}
			}
		}
		if name == "$rangeindex" {
			for _, in := range c.loop.header.Instrs {
				if p, ok := in.(*ssa.Phi); ok && p.Comment == "rangeindex" {
					return c.phis[p], true
				}
			}
		}
		if strings.HasPrefix(name, "$visited") || name == "$iterpos" {
			if k := c.iterKey(); k != "" {
				so := c.e.heapSort[k]
				return Val{T: &ghostType{name: so}, L: []string{c.e.heapName(c.st, k, so)}}, true
			}
		}
	}
	// heap-allocated or dominating definition
	var hdr *ssa.BasicBlock
	if c.loop != nil {
		hdr = c.loop.header
	}
	var best Val
	found := false
	for _, b := range f.fn.Blocks {
		if hdr != nil && !(b.Dominates(hdr)) {
			continue
		}
		if hdr == nil {
			continue
		}
		for _, in := range b.Instrs {
			switch d := in.(type) {
			case *ssa.Alloc:
				if d.Comment == name {
					if v, ok := f.vals[d]; ok {
						return c.loadPure(v), true
					}
				}
			case *ssa.DebugRef:
				if b == hdr || d.IsAddr {
					continue
				}
				if d.Object() != nil && d.Object().Name() == name {
					if v, ok := c.e.maybeVal(f, d.X); ok {
						best, found = v, true
					}
				}
			case *ssa.Phi:
				if b != hdr && d.Comment == name {
					if v, ok := f.vals[d]; ok {
						best, found = v, true
					}
				}
			}
		}
	}
	if found {
		return best, true
	}
	for i, p := range f.fn.Params {
		if p.Name() == name {
			return f.params[i], true
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == name {
			if v, ok := f.vals[p]; ok {
				if _, isP := v.T.Underlying().(*types.Pointer); isP {
					return c.loadPure(v), true
				}
				return v, true
			}
		}
	}
	return Val{}, false
}

// iterKey finds the iterator advanced by the current loop.
func (c *sctx) iterKey() string {
	for b := range c.loop.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if v, ok := c.frame.vals[n.Iter]; ok && v.Iter != nil {
					// the iterator of this loop, not of a nested one
					inner := false
					for _, l := range c.frame.loops {
						if l != c.loop && c.loop.body[l.header] && l.body[b] {
							inner = true
						}
					}
					if !inner {
						return v.Iter.Key
					}
				}
			}
		}
	}
	return ""
}

func (c *sctx) unary(x *Expr) Val {
	v := c.eval(x.Kids[0])
	switch x.Name {
	case "!":
		return boolVal(not(v.L[0]))
	case "-":
		if v.Lit {
			if strings.HasPrefix(v.L[0], "(- ") {
				v.L = []string{v.L[0][3 : len(v.L[0])-1]}
			} else {
				v.L = []string{"(- " + v.L[0] + ")"}
			}
			return v
		}
		if c.e.leaves(v.T)[0].Sort == fltSort {
			return Val{T: v.T, L: []string{"(fp.neg " + v.L[0] + ")"}}
		}
		return intVal("(- " + v.L[0] + ")")
	case "^":
		return Val{T: v.T, L: []string{"(bvnot " + v.L[0] + ")"}}
	case "*":
		return c.loadPure(v)
	}
	c.fail(x, "unary")
	return Val{}
}

func (c *sctx) coerce(x *Expr, a, b Val) (Val, Val) {
	ab, bb := a.Lit, b.Lit
	fix := func(l Val, o Val) Val {
		if c.e.isBV(o.T) {
			s := l.L[0]
			if strings.HasPrefix(s, "(- ") {
				s = "-" + s[3:len(s)-1]
			}
			return c.e.intConst(o.T, s)
		}
		ls := c.e.leaves(o.T)
		if len(ls) == 1 && ls[0].Sort == fltSort {
			return Val{T: o.T, L: []string{"((_ to_fp 11 53) RNE " + l.L[0] + ".0)"}}
		}
		return Val{T: o.T, L: l.L}
	}
	if ab && !bb {
		a = fix(a, b)
	} else if bb && !ab {
		b = fix(b, a)
	}
	isNil := func(v Val) bool {
		t, ok := v.T.(*types.Basic)
		return ok && t.Kind() == types.UntypedNil
	}
	nilOf := func(o Val) Val {
		if _, ok := o.T.Underlying().(*types.Interface); ok {
			return Val{T: o.T, L: []string{"inil"}}
		}
		if _, ok := o.T.Underlying().(*types.Slice); ok {
			return Val{T: o.T, L: []string{"nil", "0", "0", "0"}}
		}
		return Val{T: o.T, L: []string{"nil"}}
	}
	if isNil(a) && !isNil(b) {
		a = nilOf(b)
	}
	if isNil(b) && !isNil(a) {
		b = nilOf(a)
	}
	return a, b
}

func (c *sctx) binary(x *Expr) Val {
	e := c.e
	switch x.Name {
	case "==>":
		a, b := c.boolean(x.Kids[0]), c.boolean(x.Kids[1])
		return boolVal("(=> " + a + " " + b + ")")
	case "<==>":
		return boolVal("(= " + c.boolean(x.Kids[0]) + " " + c.boolean(x.Kids[1]) + ")")
	case "&&":
		return boolVal(and(c.boolean(x.Kids[0]), c.boolean(x.Kids[1])))
	case "||":
		return boolVal(or(c.boolean(x.Kids[0]), c.boolean(x.Kids[1])))
	case "in":
		m := c.eval(x.Kids[1])
		k := c.eval(x.Kids[0])
		if g, ok := m.T.(*ghostType); ok {
			_ = g
			return boolVal("(select " + m.L[0] + " " + k.L[0] + ")")
		}
		_, in := e.mapGet(c.st, m, k)
		return boolVal(in)
	}
	a, b := c.coerce(x, c.eval(x.Kids[0]), c.eval(x.Kids[1]))
	switch x.Name {
	case "==", "!=":
		var t string
		a, b = e.materialize(a), e.materialize(b)
		if _, ok := a.T.Underlying().(*types.Slice); ok && b.L[0] == "nil" {
			t = "(= " + a.L[0] + " nil)"
		} else {
			if len(a.L) != len(b.L) {
				c.fail(x, "shape mismatch %v vs %v", a.T, b.T)
			}
			var cs []string
			for i := range a.L {
				cs = append(cs, "(= "+a.L[i]+" "+b.L[i]+")")
			}
			t = and(cs...)
		}
		if x.Name == "!=" {
			t = not(t)
		}
		return boolVal(t)
	}
	s := e.leaves(a.T)[0].Sort
	p, q := a.L[0], b.L[0]
	rt := a.T
	switch {
	case s == "Str":
		if x.Name == "+" {
			return Val{T: a.T, L: []string{"(scat " + p + " " + q + ")"}}
		}
	case s == "Int":
		switch x.Name {
		case "+", "-", "*":
			v := intVal("(" + x.Name + " " + p + " " + q + ")")
			return v
		case "/":
			return intVal("(div " + p + " " + q + ")")
		case "%":
			return intVal("(mod " + p + " " + q + ")")
		case "<", "<=", ">", ">=":
			return boolVal("(" + x.Name + " " + p + " " + q + ")")
		case "&":
			if n, ok := smallInt(q); ok && n&(n+1) == 0 {
				return intVal(fmt.Sprintf("(mod %s %d)", p, n+1))
			}
			return intVal("(ibitand " + p + " " + q + ")")
		case "|":
			return intVal("(ibitor " + p + " " + q + ")")
		}
	case strings.HasPrefix(s, "(_ BitVec"):
		m := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "&": "bvand", "|": "bvor", "^": "bvxor"}
		if o, ok := m[x.Name]; ok {
			return Val{T: rt, L: []string{"(" + o + " " + p + " " + q + ")"}}
		}
		if x.Name == "&^" {
			return Val{T: rt, L: []string{"(bvand " + p + " (bvnot " + q + "))"}}
		}
		if x.Name == "<<" {
			return Val{T: rt, L: []string{"(bvshl " + p + " " + q + ")"}}
		}
		cmp := map[string]string{"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
		if o, ok := cmp[x.Name]; ok {
			_, sg, _ := e.intInfo(a.T)
			if sg {
				return boolVal("(bvs" + o + " " + p + " " + q + ")")
			}
			return boolVal("(bvu" + o + " " + p + " " + q + ")")
		}
	case s == fltSort:
		m := map[string]string{"+": "fp.add RNE", "-": "fp.sub RNE", "*": "fp.mul RNE", "/": "fp.div RNE"}
		if o, ok := m[x.Name]; ok {
			return Val{T: rt, L: []string{"(" + o + " " + p + " " + q + ")"}}
		}
		cmp := map[string]string{"<": "fp.lt", "<=": "fp.leq", ">": "fp.gt", ">=": "fp.geq"}
		if o, ok := cmp[x.Name]; ok {
			return boolVal("(" + o + " " + p + " " + q + ")")
		}
	}
	c.fail(x, "operator %s on %s", x.Name, a.T)
	return Val{}
}

// fieldPath finds field name in struct type t (through embedding).
func fieldPath(t types.Type, pkg *types.Package, name string) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			ft := st.Field(i).Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if r := fieldPath(ft, pkg, name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

func (c *sctx) sel(x *Expr) Val {
	// package-qualified name?
	if x.Kids[0].Op == "ident" {
		n := x.Kids[0].Name
		if _, ok := c.env[n]; !ok {
			if c.e.pr.byName(n) != nil {
				shadow := false
				if c.frame != nil {
					_, shadow = c.local(n)
				}
				if !shadow {
					if v, ok := c.pkgObj(n, x.Name); ok {
						return v
					}
				}
			}
		}
	}
	v := c.eval(x.Kids[0])
	return c.selVal(x, v, x.Name)
}

func (c *sctx) selVal(x *Expr, v Val, name string) Val {
	if v.T == nil {
		c.fail(x, "selector on untyped value")
	}
	bt := v.T
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	path := fieldPath(bt, nil, name)
	if path == nil {
		c.fail(x, "no field %s in %s", name, v.T)
	}
	for _, i := range path {
		if _, ok := v.T.Underlying().(*types.Pointer); ok {
			v = c.loadPure(c.e.fieldAddrRaw(v, i, nil))
		} else {
			v = c.e.fieldOf(v, i)
		}
	}
	return v
}

// lvalue evaluates a modifies target x.f to an address.
func (c *sctx) lvalue(m ModItem) (Val, []int) {
	v := c.lvBase(m.E)
	if v.T == nil {
		unsupported("bad modifies base")
	}
	bt := v.T
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	} else {
		unsupported("modifies target is not an object: %s.%s", m.E, m.Name)
	}
	path := fieldPath(bt, nil, m.Name)
	if path == nil {
		unsupported("no field %s in %s", m.Name, bt)
	}
	for k, i := range path {
		if k > 0 && v.Addr != nil {
			v = c.loadPure(v)
		}
		v = c.e.fieldAddrRaw(v, i, nil)
	}
	return v, path
}

// lvBase keeps embedded structs as locations.
func (c *sctx) lvBase(x *Expr) Val {
	if x.Op == "sel" {
		b := c.lvBase(x.Kids[0])
		if p, ok := b.T.Underlying().(*types.Pointer); ok {
			path := fieldPath(p.Elem(), nil, x.Name)
			if path != nil {
				v := b
				for k, i := range path {
					if k > 0 {
						if pp, ok := v.T.Underlying().(*types.Pointer); ok {
							if v.Addr != nil {
								v = c.loadPure(v)
							}
							_ = pp
						}
					}
					v = c.e.fieldAddrRaw(v, i, nil)
				}
				ft := deref(v.T)
				switch ft.Underlying().(type) {
				case *types.Struct, *types.Array:
					if v.Addr == nil {
						return v
					}
				}
				return c.loadPure(v)
			}
		}
	}
	if x.Op == "index" {
		if v, ok := c.elemAddr(x); ok {
			if _, ok := deref(v.T).Underlying().(*types.Struct); ok {
				return v
			}
			return c.loadPure(v)
		}
	}
	return c.eval(x)
}

// elemAddr is the location of b[i] for slices and array locations.
func (c *sctx) elemAddr(x *Expr) (Val, bool) {
	b := c.lvBase(x.Kids[0])
	i := c.eval(x.Kids[1])
	e := c.e
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		return Val{T: types.NewPointer(u.Elem()), L: []string{e.elemRef(b.L[0], ix(b.L[1], e.idxTerm(i)))}}, true
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			return Val{T: types.NewPointer(at.Elem()), L: []string{e.elemRef(b.ref(), e.idxTerm(i))}}, true
		}
	}
	return Val{}, false
}

func (c *sctx) index(x *Expr) Val {
	b := c.eval(x.Kids[0])
	i := c.eval(x.Kids[1])
	e := c.e
	if g, ok := b.T.(*ghostType); ok {
		_ = g
		return Val{T: types.Typ[types.Int], L: []string{"(select " + b.L[0] + " " + i.L[0] + ")"}}
	}
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		ref := e.elemRef(b.L[0], ix(b.L[1], e.idxTerm(i)))
		return c.loadPure(Val{T: types.NewPointer(u.Elem()), L: []string{ref}})
	case *types.Map:
		if i.Lit {
			i, _ = c.coerce(x, i, Val{T: u.Key()})
		}
		v, _ := e.mapGet(c.st, b, i)
		return v
	case *types.Basic:
		return Val{T: types.Typ[types.Uint8], L: []string{"(sat " + b.L[0] + " " + e.idxTerm(i) + ")"}}
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			return c.loadPure(Val{T: types.NewPointer(at.Elem()), L: []string{e.elemRef(b.ref(), e.idxTerm(i))}})
		}
	case *types.Array:
		return e.arrIndex(b, e.idxTerm(i))
	}
	c.fail(x, "index of %s", b.T)
	return Val{}
}

func (c *sctx) sliceExpr(x *Expr) Val {
	b := c.eval(x.Kids[0])
	lo, hi := "0", ""
	if x.Kids[1] != nil {
		lo = c.eval(x.Kids[1]).L[0]
	}
	if x.Kids[2] != nil {
		hi = c.eval(x.Kids[2]).L[0]
	}
	switch b.T.Underlying().(type) {
	case *types.Basic:
		if hi == "" {
			hi = "(slen " + b.L[0] + ")"
		}
		return Val{T: b.T, L: []string{"(ssub " + b.L[0] + " " + lo + " " + hi + ")"}}
	case *types.Slice:
		if hi == "" {
			hi = b.L[2]
		}
		return Val{T: b.T, L: []string{b.L[0], plus(b.L[1], lo), "(- " + hi + " " + lo + ")", "(- " + b.L[3] + " " + lo + ")"}}
	}
	c.fail(x, "slice expression")
	return Val{}
}

var preludeFuns = map[string]struct {
	smt string
	ret types.Type
}{
	"drune": {"drune", types.Typ[types.Int32]}, "dsize": {"dsize", types.Typ[types.Int]},
	"nrunes": {"nrunes", types.Typ[types.Int]}, "runestr": {"runestr", types.Typ[types.String]},
	"ibitor": {"ibitor", types.Typ[types.Int]}, "ibitand": {"ibitand", types.Typ[types.Int]},
	"slt": {"slt", types.Typ[types.Bool]}, "flt2int": {"flt2int", types.Typ[types.Int]}, "int2flt": {"int2flt", types.Typ[types.Float64]},
	"isNaN": {"fp.isNaN", types.Typ[types.Bool]}, "isInf": {"fp.isInfinite", types.Typ[types.Bool]}, "isNeg": {"fp.isNegative", types.Typ[types.Bool]},
	"isZero": {"fp.isZero", types.Typ[types.Bool]}, "fabs": {"fp.abs", types.Typ[types.Float64]}, "pow2": {"pow2", types.Typ[types.Int]},
	"feq": {"fp.eq", types.Typ[types.Bool]}, "runeat": {"runeat", types.Typ[types.Int32]}, "tmod": {"tmod", types.Typ[types.Int]}, "tdiv": {"tdiv", types.Typ[types.Int]},
}

func (c *sctx) callExpr(x *Expr) Val {
	e := c.e
	if x.Kids[0].Op != "ident" {
		c.fail(x, "call of expression")
	}
	n := x.Kids[0].Name
	args := x.Kids[1:]
	switch n {
	case "len":
		v := c.eval(args[0])
		return intVal(e.lenOf(c.st, v))
	case "cap":
		return intVal(c.eval(args[0]).L[3])
	case "ite":
		b := c.boolean(args[0])
		p, q := c.coerce(x, c.eval(args[1]), c.eval(args[2]))
		r := Val{T: p.T}
		if p.Lit && q.Lit {
			r.T = types.Typ[types.Int]
		}
		for i := range p.L {
			r.L = append(r.L, "(ite "+b+" "+p.L[i]+" "+q.L[i]+")")
		}
		return r
	case "pre":
		if c.loopEntry == nil {
			c.fail(x, "pre outside loop")
		}
		return c.sub(c.loopEntry).eval(args[0])
	case "hastype":
		v := c.eval(args[0])
		return boolVal(e.hasType(v.L[0], v.T, c.typ(args[1].Typ)))
	case "nilptr":
		v := c.eval(args[0])
		return boolVal("(= (pr (ipay " + v.L[0] + ")) nil)")
	case "typeof":
		v := c.eval(args[0])
		return intVal("(itag " + v.L[0] + ")")
	case "fresh":
		v := c.eval(args[0])
		r := v.L[0]
		if _, ok := v.T.Underlying().(*types.Interface); ok {
			r = "(pr (ipay " + r + "))"
		}
		return boolVal("(and (>= (rootid " + r + ") " + e.next(c.old) + ") (not (= " + r + " nil)))")
	case "deref":
		return c.loadPure(c.eval(args[0]))
	case "allocated":
		v := c.eval(args[0])
		return boolVal("(< (rootid " + v.L[0] + ") " + e.next(c.st) + ")")
	case "arr":
		return Val{T: types.Typ[types.UnsafePointer], L: []string{c.eval(args[0]).L[0]}}
	case "off":
		return intVal(c.eval(args[0]).L[1])
	case "addr":
		if args[0].Op == "ident" && c.frame != nil {
			for _, b := range c.frame.fn.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && a.Comment == args[0].Name {
						if v, ok := c.frame.vals[a]; ok {
							return v
						}
					}
				}
			}
		}
		if args[0].Op == "index" {
			if v, ok := c.elemAddr(args[0]); ok {
				return v
			}
		}
		v := c.lvBase(args[0])
		return v
	case "mkiface":
		return c.mkiface(x, c.eval(args[0]))
	case "int", "rune", "uint32", "uint8", "uint", "int32":
		v := c.eval(args[0])
		if e.isBV(v.T) {
			return intVal("(bv2nat " + v.L[0] + ")")
		}
		if n != "int" && !v.Lit {
			t := types.Universe.Lookup(n).Type()
			return Val{T: t, L: []string{e.wrap(t, v.L[0])}}
		}
		return intVal(v.L[0])
	case "float":
		v := c.eval(args[0])
		return Val{T: types.Typ[types.Float64], L: []string{"((_ to_fp 11 53) RNE (to_real " + v.L[0] + "))"}}
	case "nan":
		return Val{T: types.Typ[types.Float64], L: []string{"(_ NaN 11 53)"}}
	case "inf":
		return Val{T: types.Typ[types.Float64], L: []string{"(_ +oo 11 53)"}}
	case "store":
		m, k, v := c.eval(args[0]), c.eval(args[1]), c.eval(args[2])
		return Val{T: m.T, L: []string{"(store " + m.L[0] + " " + k.L[0] + " " + v.L[0] + ")"}}
	case "keyset":
		m := c.eval(args[0])
		dom, _, _, _, _ := e.mapHeaps(c.st, m.T)
		_, _, ks, _ := e.mapKeys(m.T)
		return Val{T: &ghostType{name: "(Array " + ks + " Bool)"}, L: []string{"(select " + dom + " " + m.ref() + ")"}}
	case "bv":
		v := c.eval(args[0])
		t := c.typ(args[1].Typ)
		return e.convInt(c.st, v, t)
	}
	if p, ok := preludeFuns[n]; ok {
		var as []string
		for _, a := range args {
			as = append(as, c.eval(a).L...)
		}
		return Val{T: p.ret, L: []string{"(" + p.smt + " " + strings.Join(as, " ") + ")"}}
	}
	if d, ok := e.specs.Defs[n]; ok {
		if len(d.Params) != len(args) {
			c.fail(x, "wrong number of arguments")
		}
		env := map[string]Val{}
		for i, a := range args {
			v := c.eval(a)
			t := c.e.pr.resolveType(e.specs, d.Params[i].Typ, d.Pkg)
			if v.Lit {
				if e.isBV(t) {
					v = e.intConst(t, strings.TrimSuffix(strings.Replace(v.L[0], "(- ", "-", 1), ")"))
				} else {
					v = Val{T: t, L: v.L}
				}
			}
			if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				v = e.zero(t)
			}
			if _, isI := t.Underlying().(*types.Interface); isI {
				if _, vI := v.T.Underlying().(*types.Interface); !vI {
					if _, g := v.T.(*ghostType); !g {
						v = c.mkiface(x, v)
					}
				}
			}
			env[d.Params[i].Name] = v
		}
		if c.depth > 20 {
			c.fail(x, "recursive def")
		}
		for k, v := range c.env {
			if k[0] == '@' {
				env[k] = v
			}
		}
		dc := &sctx{e: e, st: c.st, old: c.old, env: env, pkg: d.Pkg, callee: c.callee, depth: c.depth + 1, loopEntry: c.loopEntry}
		return e.name(dc.eval(d.Body), n)
	}
	f, isFun := e.specs.Funs[n]
	if v, ok := c.env["@"+n]; ok {
		f, isFun = v.LF, true
	}
	if isFun {
		var as []Val
		for i, a := range args {
			v := c.eval(a)
			t := c.funTyp(f, f.Params[i])
			if v.Lit && e.isBV(t) {
				v = e.intConst(t, v.L[0])
			}
			if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				v = e.zero(t)
			}
			if len(v.L) != len(e.leaves(t)) {
				c.fail(x, "argument %d: shape %s vs %s", i, v.T, t)
			}
			// a concrete pointer passed where an interface is expected
			if _, isI := t.Underlying().(*types.Interface); isI {
				if _, vI := v.T.Underlying().(*types.Interface); !vI {
					if _, g := v.T.(*ghostType); !g {
						v = c.mkiface(x, v)
					}
				}
			}
			as = append(as, v)
		}
		if len(args) != len(f.Params) {
			c.fail(x, "wrong number of arguments")
		}
		return c.callFun(x, f, as)
	}
	c.fail(x, "unknown function %s", n)
	return Val{}
}

func (c *sctx) mkiface(x *Expr, v Val) Val {
	e := c.e
	ls := e.leaves(v.T)
	if len(ls) != 1 {
		c.fail(x, "mkiface of composite")
	}
	pay := map[string]string{"Ref": "pref", "Int": "pint", "Str": "pstr", "Bool": "pbool", fltSort: "pflt"}[ls[0].Sort]
	return Val{T: types.NewInterfaceType(nil, nil), L: []string{"(imk " + e.tag(v.T) + " (" + pay + " " + v.L[0] + "))"}}
}

func (c *sctx) callFun(x *Expr, f *FunDecl, args []Val) Val {
	e := c.e
	t := c.funTyp(f, f.Result)
	e.declFun(c, f)
	var as []string
	for _, a := range args {
		as = append(as, a.L...)
	}
	v := Val{T: t}
	ls := e.leaves(t)
	for i := range ls {
		nm := "f." + f.Name
		if len(ls) > 1 {
			nm = fmt.Sprintf("f.%s.%d", f.Name, i)
		}
		if len(as) == 0 {
			v.L = append(v.L, nm)
		} else {
			v.L = append(v.L, "("+nm+" "+strings.Join(as, " ")+")")
		}
	}
	return v
}

var boundVar = regexp.MustCompile("![bq][0-9]*|!q")

// name gives a long closed term a constant, so that definitions used several
// times do not grow the query.
func (e *Enc) name(v Val, hint string) Val {
	if !e.con.Coarse || len(v.L) != 1 || v.Addr != nil || v.Fn != nil || len(v.L[0]) < 160 || boundVar.MatchString(v.L[0]) {
		return v
	}
	if n, ok := e.named[v.L[0]]; ok {
		v.L = []string{n}
		return v
	}
	n := e.constOf("d."+hint, e.leaves(v.T)[0].Sort)
	e.facts = append(e.facts, fact{0, "(= " + n + " " + v.L[0] + ")"})
	e.named[v.L[0]] = n
	v.L = []string{n}
	return v
}

func (c *sctx) funTyp(f *FunDecl, t *TypeExpr) types.Type {
	if f.Pkg != "" {
		return c.e.pr.resolveType(c.e.specs, t, f.Pkg)
	}
	return c.typ(t)
}

func (e *Enc) declFun(c *sctx, f *FunDecl) {
	t := c.funTyp(f, f.Result)
	ls := e.leaves(t)
	var ps []string
	for _, p := range f.Params {
		for _, l := range e.leaves(c.funTyp(f, p)) {
			ps = append(ps, l.Sort)
		}
	}
	for i := range ls {
		nm := "f." + f.Name
		if len(ls) > 1 {
			nm = fmt.Sprintf("f.%s.%d", f.Name, i)
		}
		if !e.declSet[nm] {
			e.declSet[nm] = true
			e.decls = append(e.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", nm, strings.Join(ps, " "), ls[i].Sort))
		}
	}
	e.usedFuns[f.Name] = true
}

func (c *sctx) quant(x *Expr) Val {
	e := c.e
	env := map[string]Val{}
	var decl []string
	var guards []string
	for _, b := range x.Vars {
		t := c.typ(b.Typ)
		v := Val{T: t}
		for _, l := range e.leaves(t) {
			e.n++
			n := fmt.Sprintf("%s!b%d", b.Name, e.n)
			decl = append(decl, "("+n+" "+l.Sort+")")
			v.L = append(v.L, n)
		}
		env[b.Name] = v
	}
	d := c.withEnv(env)
	body := d.boolean(x.Kids[0])
	if len(guards) > 0 {
		if x.Name == "forall" {
			body = "(=> " + and(guards...) + " " + body + ")"
		} else {
			body = and(append(guards, body)...)
		}
	}
	pats := ""
	for _, tr := range x.Trig {
		var ts []string
		for _, t := range tr {
			ts = append(ts, d.trigger(t))
		}
		pats += " :pattern (" + strings.Join(ts, " ") + ")"
	}
	if pats != "" {
		body = "(! " + body + pats + ")"
	}
	return boolVal("(" + x.Name + " (" + strings.Join(decl, " ") + ") " + body + ")")
}

// trigger gives the pattern term of an expression: map reads are triggered by
// the membership lookup they contain, since patterns may hold no connectives.
func (c *sctx) trigger(t *Expr) string {
	var m, k *Expr
	if t.Op == "bin" && t.Name == "in" {
		k, m = t.Kids[0], t.Kids[1]
	} else if t.Op == "index" && len(t.Kids) == 2 {
		m, k = t.Kids[0], t.Kids[1]
	}
	if m != nil {
		mv := c.eval(m)
		if _, ok := mv.T.(*ghostType); !ok {
			if _, ok := mv.T.Underlying().(*types.Map); ok {
				dom, _, _, _, _ := c.e.mapHeaps(c.st, mv.T)
				return "(select (select " + dom + " " + mv.ref() + ") " + c.eval(k).L[0] + ")"
			}
		}
	}
	return c.eval(t).L[0]
}
