package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A table is a package variable of array type, filled by its initializer with
// pointers to composite literals of constants. The contents are read from the
// SSA of the package initializer of the current source; the whole program is
// scanned to make sure nothing else stores into the array or into a field of
// the element type.
type tableData struct {
	g    *ssa.Global
	elem *types.Named
	rows map[int64]map[int]*ssa.Const
}

func (pr *Program) table(g *ssa.Global) *tableData {
	at, ok := deref(g.Type()).Underlying().(*types.Array)
	if !ok {
		unsupported("table %s is not an array", g.Name())
	}
	pt, ok := at.Elem().Underlying().(*types.Pointer)
	if !ok {
		unsupported("table %s does not hold pointers", g.Name())
	}
	named, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		unsupported("table %s: element type", g.Name())
	}
	td := &tableData{g: g, elem: named, rows: map[int64]map[int]*ssa.Const{}}
	fields := map[*ssa.Alloc]map[int]*ssa.Const{}
	rowOf := map[int64]*ssa.Alloc{}
	// the initializer may build the array in a temporary first
	var tmp ssa.Value
	nwhole := 0
	for _, fn := range pr.all {
		if fn.Synthetic != "package initializer" || fn.Pkg != g.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					nwhole++
					if u, ok := s.Val.(*ssa.UnOp); ok {
						if al, ok := u.X.(*ssa.Alloc); ok {
							tmp = al
						}
					}
				}
			}
		}
	}
	if nwhole > 1 || nwhole == 1 && tmp == nil {
		unsupported("table %s: initializer", g.Name())
	}
	for _, fn := range pr.all {
		init := fn.Synthetic == "package initializer" && fn.Pkg == g.Pkg
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					switch a := s.Addr.(type) {
					case *ssa.FieldAddr:
						if types.Identical(deref(a.X.Type()), named) {
							al, isAl := a.X.(*ssa.Alloc)
							c, isC := s.Val.(*ssa.Const)
							if isAl && isC && init {
								if fields[al] == nil {
									fields[al] = map[int]*ssa.Const{}
								}
								if _, dup := fields[al][a.Field]; dup {
									unsupported("table %s: field stored twice", g.Name())
								}
								fields[al][a.Field] = c
								continue
							}
							if isAl && !init {
								continue // a new value under construction elsewhere
							}
							unsupported("table %s: a field of %s is assigned in %s", g.Name(), named.Obj().Name(), fn)
						}
					case *ssa.IndexAddr:
						if a.X == g || tmp != nil && a.X == tmp {
							i, isC := a.Index.(*ssa.Const)
							al, isAl := s.Val.(*ssa.Alloc)
							if !init || !isC || !isAl {
								unsupported("table %s: an element is assigned in %s", g.Name(), fn)
							}
							n, _ := constant.Int64Val(constant.ToInt(i.Value))
							if rowOf[n] != nil {
								unsupported("table %s: element %d stored twice", g.Name(), n)
							}
							rowOf[n] = al
							continue
						}
					}
					if s.Addr == g && init && nwhole == 1 {
						continue
					}
					if s.Addr == g || s.Val == g || types.Identical(deref2(s.Addr.Type()), named) {
						unsupported("table %s is assigned in %s", g.Name(), fn)
					}
				}
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch u := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.IndexAddr:
						for _, r := range *u.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if r.Addr != u {
									unsupported("table %s: address of an element escapes in %s", g.Name(), fn)
								}
							default:
								unsupported("table %s: address of an element escapes in %s", g.Name(), fn)
							}
						}
					default:
						unsupported("table %s: address taken in %s", g.Name(), fn)
					}
				}
			}
		}
	}
	for n, al := range rowOf {
		td.rows[n] = fields[al]
	}
	return td
}

func deref2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// tableFacts assumes the contents of the table in the entry state.
func (e *Enc) tableFacts(st *State, name string) {
	pkg := e.pr.byName(e.con.Pkg)
	sp := e.pr.Prog.Package(pkg)
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		unsupported("table %s not found", name)
	}
	td := e.pr.table(g)
	us := td.elem.Underlying().(*types.Struct)
	at := deref(g.Type()).Underlying().(*types.Array)
	var ks []int64
	for k := range td.rows {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	if int64(len(ks)) != at.Len() {
		unsupported("table %s: %d of %d elements initialized", name, len(ks), at.Len())
	}
	for _, k := range ks {
		p := Val{T: types.NewPointer(at.Elem()), L: []string{e.elemRef(e.globalRef(g), fmt.Sprint(k))}}
		el := e.load(st, p)
		r := Val{T: at.Elem(), L: []string{e.constOf(fmt.Sprintf("tab.%s.%d", name, k), "Ref")}}
		e.assume(st, "(= "+el.L[0]+" "+r.L[0]+")")
		e.assume(st, "(not (= "+r.L[0]+" nil))")
		for i := 0; i < us.NumFields(); i++ {
			c := td.rows[k][i]
			var cv Val
			if c == nil {
				cv = e.zero(us.Field(i).Type())
			} else {
				cv = e.constVal(c)
			}
			if len(cv.L) != 1 || isString(us.Field(i).Type()) {
				continue
			}
			fv := e.load(st, e.fieldAddrRaw(r, i, nil))
			e.assume(st, "(= "+fv.L[0]+" "+cv.L[0]+")")
		}
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
