package parser

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/hsiaosiyuan0/mole/span"
)

func c08Parse(code string) (Node, *Parser, error) {
	p := NewParser(span.NewSource("", code), NewParserOpts())
	n, err := p.Prog()
	return n, p, err
}

// ---- random statements together with the verdict of the jump rules

type c08Ctx struct {
	loop, sw, fn bool
	labels       map[string]bool // label -> labels a loop
}

func (c c08Ctx) with(name string, loop bool) c08Ctx {
	m := map[string]bool{}
	for k, v := range c.labels {
		m[k] = v
	}
	m[name] = loop
	c.labels = m
	return c
}

type c08Gen struct {
	r   *rand.Rand
	ok  bool
	bad int // percentage of jumps chosen without regard to the rules
	n   int
}

var c08Names = []string{"a", "b", "c", "d"}

func (g *c08Gen) stmts(c c08Ctx, d int) string {
	var b strings.Builder
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		b.WriteString(g.stmt(c, d))
	}
	return b.String()
}

func (g *c08Gen) jump(c c08Ctx) string {
	wild := g.r.Intn(100) < g.bad
	for try := 0; try < 10; try++ {
		s, ok := ";", true
		switch g.r.Intn(6) {
		case 0:
			s, ok = "break;", c.loop || c.sw
		case 1:
			s, ok = "continue;", c.loop
		case 2:
			l := c08Names[g.r.Intn(4)]
			_, has := c.labels[l]
			s, ok = "break "+l+";", has
		case 3:
			l := c08Names[g.r.Intn(4)]
			isLoop, has := c.labels[l]
			if has && !isLoop {
				continue
			}
			s, ok = "continue "+l+";", has && isLoop
		case 4:
			s, ok = "return;", c.fn
		}
		if ok {
			return s
		}
		if wild {
			g.ok = false
			return s
		}
	}
	return ";"
}

func (g *c08Gen) stmt(c c08Ctx, d int) string {
	if d <= 0 || g.r.Intn(5) == 0 {
		return g.jump(c)
	}
	d--
	lp := c
	lp.loop = true
	fn := c08Ctx{fn: true, labels: map[string]bool{}}
	switch g.r.Intn(20) {
	case 0:
		return "{" + g.stmts(c, d) + "}"
	case 1:
		return "while(1)" + g.stmt(lp, d)
	case 2:
		return "do " + g.stmt(lp, d) + " while(0);"
	case 3:
		return "for(;;)" + g.stmt(lp, d)
	case 4:
		return "for(var x of [])" + g.stmt(lp, d)
	case 5:
		return "for(let y in o){" + g.stmts(lp, d) + "}"
	case 6:
		s := c
		s.sw = true
		return "switch(1){case 1:" + g.stmts(s, d) + "default:" + g.stmts(s, d) + "}"
	case 7:
		return "try{" + g.stmts(c, d) + "}catch(e){" + g.stmts(c, d) + "}"
	case 8:
		return "try{" + g.stmts(c, d) + "}catch{" + g.stmts(c, d) + "}finally{" + g.stmts(c, d) + "}"
	case 9:
		g.n++
		return fmt.Sprintf("{function f%d(){%s}}", g.n, g.stmts(fn, d))
	case 10:
		return "(()=>{" + g.stmts(fn, d) + "})();"
	case 11:
		return "(function(){" + g.stmts(fn, d) + "});"
	case 12:
		return "(class{m(){" + g.stmts(fn, d) + "}});"
	case 13:
		return "({get m(){" + g.stmts(fn, d) + "}});"
	case 14, 15:
		return "if(1)" + g.stmt(c, d) + " else " + g.stmt(c, d)
	case 16:
		return "if(1){" + g.stmts(c, d) + "}else;" // no dangling else
	default:
		l := c08Names[g.r.Intn(4)]
		if _, dup := c.labels[l]; dup {
			if g.r.Intn(100) >= g.bad {
				return g.jump(c)
			}
			g.ok = false
		}
		loop := g.r.Intn(2) == 0
		in := c.with(l, loop)
		if loop {
			in.loop = true
			switch g.r.Intn(3) {
			case 0:
				return l + ":while(1)" + g.stmt(in, d)
			case 1:
				return l + ":for(;;){" + g.stmts(in, d) + "}"
			}
			return l + ":do " + g.stmt(in, d) + " while(0);"
		}
		switch g.r.Intn(3) {
		case 0:
			return l + ":{" + g.stmts(in, d) + "}"
		case 1:
			return l + ":if(1)" + g.stmt(in, d) + " else " + g.stmt(in, d)
		}
		return l + ":try{" + g.stmts(in, d) + "}catch(e){" + g.stmts(in, d) + "}"
	}
}

// TestVerifC08: scopes, bindings, labels and jump targets follow the language rules.
func TestVerifC08(t *testing.T) {
	v := vNew(t, "C08")
	r := vRand()

	// jumps and labels
	for n := 0; n < vPick(20000, 400000) && v.more(); n++ {
		g := &c08Gen{r: r, ok: true, bad: []int{0, 0, 15}[r.Intn(3)]}
		code := g.stmts(c08Ctx{labels: map[string]bool{}}, 1+r.Intn(6))
		v.check("jump", code, func() string {
			_, _, err := c08Parse(code)
			if (err == nil) != g.ok {
				return fmt.Sprintf("legal %v, the parser says %v", g.ok, err)
			}
			return ""
		})
	}
	for _, code := range []string{"a: { continue a; }", "b: if (1) { for (;;) { continue b; } }"} {
		v.check("continue-label-not-loop", code, func() string {
			if _, _, err := c08Parse(code); err == nil {
				return "continue to the label of a statement that is no loop is accepted"
			}
			return ""
		})
	}

	c08Decls(v)
	c08Scopes(v, r)
	c08Refs(v, r)
	v.done()
}

func c08Decls(v *vrun) {
	wrap := map[string]string{
		"global": "%s", "function": "function f(){%s}", "arrow": "(()=>{%s})", "method": "({m(){%s}})",
		"block": "{%s}", "fn block": "function f(){{%s}}", "loop": "while(0){%s}", "switch": "switch(1){case 1:%s}",
		"try": "try{%s}catch(e){}", "class": "(class{m(){%s}})", "async": "(async function(){%s})", "gen": "(function*(){%s})",
		"if": "if(1){%s}", "finally": "try{}finally{%s}",
	}
	isFn := map[string]bool{"global": true, "function": true, "arrow": true, "method": true, "class": true, "async": true, "gen": true}
	dec := map[string]string{"var": "var x;", "let": "let x;", "const": "const x=1;"}
	try := func(key, code string, ok bool) {
		v.check(key, code, func() string {
			_, _, err := c08Parse(code)
			if (err == nil) != ok {
				return fmt.Sprintf("legal %v, the parser says %v", ok, err)
			}
			return ""
		})
	}
	for w, tpl := range wrap {
		for a, da := range dec {
			for b, db := range dec {
				same := a == "var" && b == "var"
				try("decl:same scope", fmt.Sprintf(tpl, da+db), same)
				try("decl:same scope", fmt.Sprintf(tpl, da+"f();"+db), same)
				try("decl:other function", fmt.Sprintf(tpl, da+"(function(){"+db+"});"), true)
				try("decl:other function", fmt.Sprintf(tpl, "(()=>{"+da+"});"+db), true)
				try("decl:sibling", fmt.Sprintf(tpl, "{"+da+"}{"+db+"}"), true)
				try("decl:sibling", fmt.Sprintf(tpl, "for(;;){"+da+"}if(1){"+db+"}"), true)
				try("decl:other name", fmt.Sprintf(tpl, da+strings.Replace(db, "x", "y", 1)), true)
				// an inner let or const shadows, an inner var reaches the function scope
				if b != "var" {
					try("decl:shadow", fmt.Sprintf(tpl, da+"{"+db+"}"), true)
					try("decl:shadow", fmt.Sprintf(tpl, da+"{{"+db+"}}"), true)
					if a != "var" {
						try("decl:shadow", fmt.Sprintf(tpl, "{"+da+"}"+db), true)
					}
				} else if isFn[w] {
					try("decl:hoist", fmt.Sprintf(tpl, da+"{"+db+"}"), same)
					try("decl:hoist", fmt.Sprintf(tpl, da+"{{"+db+"}}"), same)
					try("decl:hoist", fmt.Sprintf(tpl, da+"try{"+db+"}finally{}"), same)
				}
				if a == "var" && isFn[w] {
					try("decl:hoist", fmt.Sprintf(tpl, "{"+da+"}"+db), same)
				}
			}
		}
	}
	// parameters and catch variables
	for d, s := range dec {
		for _, f := range []string{"function f(x){%s}", "((x)=>{%s})", "({m(x){%s}})", "(function(y,x){%s})", "(async(x)=>{%s})"} {
			try("decl:param", fmt.Sprintf(f, s), d == "var")
			try("decl:param", fmt.Sprintf(f, "{"+s+"}"), true)
		}
		if d != "var" {
			try("decl:catch", fmt.Sprintf("try{}catch(x){%s}", s), false)
			try("decl:catch", fmt.Sprintf("try{}catch({x}){%s}", s), false)
		}
		try("decl:catch", fmt.Sprintf("try{}catch(y){%s}", s), true)
	}
	// recorded findings, one input each
	for _, k := range []struct {
		key, code string
		ok        bool
	}{
		{"decl:class-unchecked", "let x; class x {}", false},
		{"decl:function-overreject", "function f(){function x(){} function x(){}}", true},
		{"decl:var-through-block", "{ let x; { var x; } }", false},
	} {
		try(k.key, k.code, k.ok)
	}
}

// lookups along the scope chain, against a model
func c08Scopes(v *vrun, r *rand.Rand) {
	kinds := []ScopeKind{SPK_FUNC, SPK_BLOCK, SPK_GLOBAL, SPK_CLASS, SPK_LOOP_DIRECT, SPK_SWITCH, SPK_NONE}
	for n := 0; n < vPick(3000, 30000) && v.more(); n++ {
		depth := 1 + r.Intn(6)
		var chain []*Scope // innermost last
		desc := []string{}
		var up *Scope
		for i := 0; i < depth; i++ {
			s := NewScope()
			s.Kind = kinds[r.Intn(len(kinds))]
			if r.Intn(3) == 0 {
				s.Kind |= kinds[r.Intn(len(kinds))]
			}
			s.Id = i + 1
			s.Up = up
			for _, nm := range []string{"p", "q"} {
				if r.Intn(3) == 0 {
					s.Refs[nm] = NewRef()
				}
				if r.Intn(4) == 0 {
					s.Refs[nm] = nil
				}
				if r.Intn(3) == 0 {
					s.uniqueLabels[nm] = &LabelStmt{}
				}
			}
			desc = append(desc, fmt.Sprintf("kind %d refs %d labels %d", s.Kind, len(s.Refs), len(s.uniqueLabels)))
			chain = append(chain, s)
			up = s
		}
		nearest := func(from int, k ScopeKind) *Scope {
			for i := from; i >= 0; i-- {
				if chain[i].Kind&k != 0 {
					return chain[i]
				}
			}
			return nil
		}
		s := chain[depth-1]
		v.check("scope-chain", desc, func() string {
			if g, w := s.UpperFn(), nearest(depth-1, SPK_FUNC|SPK_GLOBAL); g != w {
				return "UpperFn is not the nearest function or global scope"
			}
			if g, w := s.UpperCls(), nearest(depth-1, SPK_CLASS); g != w {
				return "UpperCls is not the nearest class scope"
			}
			if g, w := s.UpperLoop(), nearest(depth-1, SPK_LOOP_DIRECT); g != w {
				return "UpperLoop is not the nearest loop scope"
			}
			if g, w := s.UpperScope(&[]ScopeKind{SPK_SWITCH, SPK_LOOP_DIRECT}), nearest(depth-1, SPK_SWITCH|SPK_LOOP_DIRECT); g != w {
				return "UpperScope is not the nearest scope of the kinds"
			}
			outer := depth - 2
			if s.Kind&SPK_GLOBAL != 0 {
				outer = depth - 1
			}
			if g, w := s.OuterFn(), nearest(outer, SPK_FUNC|SPK_GLOBAL); g != w {
				return "OuterFn is not the nearest outer function or global scope"
			}
			for _, nm := range []string{"p", "q", "r"} {
				var ref *Ref
				for i := depth - 1; i >= 0 && ref == nil; i-- {
					ref = chain[i].Refs[nm]
				}
				if g := s.BindingOf(nm); g != ref {
					return "BindingOf does not give the innermost binding of " + nm
				}
				if s.HasName(nm) != (ref != nil) {
					return "HasName disagrees with the bindings of " + nm
				}
				var lb Node
				for i := depth - 1; i >= 0; i-- {
					if l, ok := chain[i].uniqueLabels[nm]; ok && l != nil {
						lb = l
						break
					}
					if chain[i].Kind&SPK_FUNC != 0 {
						break
					}
				}
				if g := s.GetLabel(nm); g != lb {
					return "GetLabel does not give the innermost label of the function"
				}
			}
			return ""
		})
	}

	// opening and leaving scopes
	for n := 0; n < vPick(3000, 30000) && v.more(); n++ {
		st := NewSymTab([]string{"ext"})
		st.Root.AddKind(SPK_GLOBAL)
		var log []string
		stack := []*Scope{st.Root}
		seed := 0
		bad := ""
		reg := map[int]*Scope{0: st.Root}
		for i := 0; i < 12 && bad == ""; i++ {
			top := stack[len(stack)-1]
			if r.Intn(3) == 0 && len(stack) > 1 {
				log = append(log, "leave")
				got := st.LeaveScope()
				stack = stack[:len(stack)-1]
				if got != top || st.Cur != stack[len(stack)-1] {
					bad = "leaving does not return to the enclosing scope"
				}
				continue
			}
			if r.Intn(2) == 0 {
				top.AddKind(1 << uint(1+r.Intn(35)))
			}
			fn, arrow, settled := r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(3) > 0
			if r.Intn(2) == 0 {
				top.uniqueLabels[c08Names[r.Intn(4)]] = &LabelStmt{}
			}
			log = append(log, fmt.Sprintf("enter fn=%v arrow=%v settled=%v from kind %d", fn, arrow, settled, top.Kind))
			if settled {
				seed++
			}
			k := top.Kind
			s := st.EnterScope(fn, arrow, settled)
			w := SPK_BLOCK
			if fn {
				w = SPK_FUNC
			}
			pass := func(from, to ScopeKind, cond bool) {
				if cond && k&from != 0 {
					w |= to
				}
			}
			pass(SPK_LOOP_DIRECT|SPK_LOOP_INDIRECT, SPK_LOOP_INDIRECT, !fn)
			pass(SPK_SWITCH|SPK_SWITCH_INDIRECT, SPK_SWITCH_INDIRECT, !fn)
			pass(SPK_TRY|SPK_TRY_INDIRECT, SPK_TRY_INDIRECT, !fn)
			pass(SPK_FORMAL_PARAMS, SPK_FORMAL_PARAMS, !fn)
			pass(SPK_GENERATOR, SPK_GENERATOR, !fn)
			pass(SPK_ASYNC, SPK_ASYNC, !fn)
			pass(SPK_FUNC|SPK_FUNC_INDIRECT, SPK_FUNC_INDIRECT, true)
			pass(SPK_CLASS|SPK_CLASS_INDIRECT, SPK_CLASS_INDIRECT, true)
			pass(SPK_CLASS_HAS_SUPER, SPK_CLASS_HAS_SUPER, true)
			pass(SPK_STRICT, SPK_STRICT, true)
			pass(SPK_ABSTRACT_CLASS, SPK_ABSTRACT_CLASS, true)
			pass(SPK_TS_DECLARE, SPK_TS_DECLARE, true)
			pass(SPK_TS_MODULE|SPK_TS_MODULE_INDIRECT, SPK_TS_MODULE_INDIRECT, true)
			pass(SPK_CTOR, SPK_CTOR, !fn || arrow)
			switch {
			case s.Up != top || st.Cur != s || len(top.Down) == 0 || top.Down[len(top.Down)-1] != s:
				bad = "the new scope is not linked to the enclosing one"
			case settled && s.Id != seed:
				bad = "scope id"
			case s.Kind != w:
				bad = fmt.Sprintf("kind %b, want %b", s.Kind, w)
			case len(s.Refs) != 0:
				bad = "new scope has bindings"
			case fn && len(s.uniqueLabels) != 0:
				bad = "labels reach into a function"
			case !fn && len(s.uniqueLabels) != len(top.uniqueLabels):
				bad = "labels do not reach into a block"
			}
			stack = append(stack, s)
			if settled {
				reg[seed] = s
			}
			for id, x := range reg {
				if st.Scopes[id] != x && bad == "" {
					bad = fmt.Sprintf("scope %d is not registered under its id", id)
				}
			}
		}
		for id, x := range reg {
			if st.Scopes[id] != x && bad == "" {
				bad = fmt.Sprintf("scope %d is not registered under its id any more", id)
			}
		}
		v.check("scope-tree", log, func() string { return bad })
	}
}

// bindings added to scopes
func c08Refs(v *vrun, r *rand.Rand) {
	flags := []RefDefType{RDT_NONE, RDT_FN, RDT_CLASS, RDT_ENUM, RDT_CONST_ENUM, RDT_ITF, RDT_NS, RDT_TYPE, RDT_IMPORT, RDT_PVT_FIELD}
	pick := func() RefDefType {
		t := RDT_NONE
		for n := r.Intn(3); n > 0; n-- {
			t |= flags[r.Intn(len(flags))]
		}
		return t
	}
	h := func(t, f RefDefType) bool { return t&f != 0 }
	share := func(a, b RefDefType) bool {
		both := func(f RefDefType) bool { return h(a, f) && h(b, f) }
		one := func(f, g RefDefType) bool { return h(a, f) && h(b, g) || h(b, f) && h(a, g) }
		_ = one
		fnCls := false
		if h(a, RDT_FN) {
			fnCls = h(b, RDT_CLASS) && h(b, RDT_TYPE)
		} else if h(b, RDT_FN) {
			fnCls = h(a, RDT_CLASS) && h(a, RDT_TYPE)
		}
		clsItf := false
		if h(a, RDT_CLASS) {
			clsItf = h(b, RDT_ITF)
		} else if h(b, RDT_CLASS) {
			clsItf = h(a, RDT_ITF)
		}
		val := func(t RefDefType) bool {
			return !(h(t, RDT_TYPE) && !(h(t, RDT_CLASS) && h(t, RDT_ENUM) && h(t, RDT_CONST_ENUM)))
		}
		switch {
		case fnCls, both(RDT_FN) && both(RDT_TYPE), clsItf, both(RDT_ENUM), both(RDT_CONST_ENUM):
			return true
		case h(a, RDT_ENUM) != h(b, RDT_ENUM):
			return false
		case both(RDT_ITF), h(a, RDT_NS), h(b, RDT_NS):
			return true
		}
		return !both(RDT_TYPE) && !(val(a) && val(b))
	}
	for n := 0; n < vPick(20000, 200000) && v.more(); n++ {
		a, b := pick(), pick()
		v.check("share", []RefDefType{a, b}, func() string {
			if g := CheckRefDup(&Ref{Typ: a}, &Ref{Typ: b}); g != share(a, b) {
				return fmt.Sprintf("CheckRefDup gives %v", g)
			}
			return ""
		})
	}
	bks := []BindKind{BK_NONE, BK_VAR, BK_PARAM, BK_LET, BK_CONST}
	for n := 0; n < vPick(20000, 200000) && v.more(); n++ {
		fn := NewScope()
		fn.Kind = []ScopeKind{SPK_FUNC, SPK_GLOBAL}[r.Intn(2)]
		fn.Id = r.Intn(2)
		cur := fn
		for i := r.Intn(3); i > 0; i-- {
			s := NewScope()
			s.Kind = SPK_BLOCK
			if r.Intn(4) == 0 {
				s.Kind |= SPK_CATCH
			}
			s.Up, s.Id = cur, cur.Id+1
			cur = s
		}
		put := func(s *Scope) {
			if r.Intn(2) == 0 {
				s.Refs["x"] = &Ref{Scope: s, BindKind: bks[r.Intn(len(bks))], Typ: pick()}
			}
		}
		put(fn)
		if cur != fn {
			put(cur)
		}
		other := &Ref{Scope: fn}
		fn.Refs["y"] = other
		ref := &Ref{BindKind: bks[r.Intn(len(bks))], Typ: pick()}
		dup := r.Intn(3) > 0
		l, lf := cur.Refs["x"], fn.Refs["x"]
		// the rules
		isVar := ref.BindKind == BK_VAR
		ok, here, there := true, true, isVar
		clashFn := lf != nil && lf.BindKind != BK_PARAM && ((lf.BindKind != BK_VAR && lf.Typ != RDT_FN) || (lf.Scope.Id == 0 && lf.Typ == RDT_FN))
		clash := l != nil && (!isVar || (l.BindKind != BK_VAR && l.BindKind != BK_PARAM && l.Typ != RDT_FN && l.Scope.Id != 0))
		switch {
		case cur.Kind&SPK_CATCH != 0 && l != nil:
			ok, here, there = false, false, false
		case isVar && dup && clashFn:
			ok, here, there = share(lf.Typ, ref.Typ), false, false
		case dup && clash:
			ok, here = share(l.Typ, ref.Typ), false
		}
		desc := fmt.Sprintf("bind %d typ %d dup %v into %v (local %+v, function %+v)", ref.BindKind, ref.Typ, dup, cur.Kind, l, lf)
		v.check("add-local", desc, func() string {
			if g := cur.AddLocal(ref, "x", dup); g != ok {
				return fmt.Sprintf("AddLocal gives %v, want %v", g, ok)
			}
			wantCur, wantFn := l, lf
			if there {
				wantFn = ref
				if cur == fn {
					wantCur = ref
				}
			}
			if here {
				wantCur = ref
				if cur == fn {
					wantFn = ref
				}
			}
			if cur.Refs["x"] != wantCur || fn.Refs["x"] != wantFn {
				return "the binding is not recorded where it belongs"
			}
			if here && ref.Scope != cur {
				return "the binding does not know its scope"
			}
			if fn.Refs["y"] != other {
				return "another name was touched"
			}
			return ""
		})
	}
}
