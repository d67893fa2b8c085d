package walk

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

// ---- random programs

type c09Gen struct {
	r     *rand.Rand
	async bool
	fn    bool
	loop  bool
	n     int
}

func (g *c09Gen) id() string {
	g.n++
	return fmt.Sprintf("v%d", g.n)
}

func (g *c09Gen) ref() string {
	return []string{"a", "b", "c", "d", "v1", "v2", "v3"}[g.r.Intn(7)]
}

func (g *c09Gen) inFn(async bool, f func() string) string {
	a, fn, l := g.async, g.fn, g.loop
	g.async, g.fn, g.loop = async, true, false
	s := f()
	g.async, g.fn, g.loop = a, fn, l
	return s
}

func (g *c09Gen) inLoop(f func() string) string {
	l := g.loop
	g.loop = true
	s := f()
	g.loop = l
	return s
}

func (g *c09Gen) list(n int, f func() string) string {
	var p []string
	for i := g.r.Intn(n + 1); i > 0; i-- {
		p = append(p, f())
	}
	return strings.Join(p, ",")
}

func (g *c09Gen) params(d int) string {
	s := g.list(3, func() string {
		if g.r.Intn(3) == 0 {
			return g.pat(d-1) + "=" + g.expr(d-1)
		}
		return g.pat(d - 1)
	})
	if g.r.Intn(5) == 0 {
		if s != "" {
			s += ","
		}
		s += "..." + g.pat(d-1)
	}
	return s
}

func (g *c09Gen) body(d int) string { return "{" + g.stmts(d-1) + "}" }

// binding pattern
func (g *c09Gen) pat(d int) string {
	if d <= 0 {
		return g.id()
	}
	switch g.r.Intn(6) {
	case 0:
		return "[" + g.list(3, func() string {
			switch g.r.Intn(4) {
			case 0:
				return ""
			case 1:
				return g.pat(d-1) + "=" + g.expr(d-1)
			}
			return g.pat(d - 1)
		}) + "]"
	case 1:
		s := g.list(3, func() string {
			switch g.r.Intn(4) {
			case 0:
				return g.id()
			case 1:
				return g.id() + "=" + g.expr(d-1)
			case 2:
				return "[" + g.expr(d-1) + "]:" + g.pat(d-1)
			}
			return "k:" + g.pat(d-1) + "=" + g.expr(d-1)
		})
		if g.r.Intn(3) == 0 {
			if s != "" {
				s += ","
			}
			s += "..." + g.id()
		}
		return "{" + s + "}"
	}
	return g.id()
}

func (g *c09Gen) expr(d int) string {
	if d <= 0 {
		return []string{g.ref(), "1", "'s'", "null", "true", "this", "/x/g"}[g.r.Intn(7)]
	}
	e := func() string { return g.expr(d - 1) }
	switch g.r.Intn(26) {
	case 0:
		return "(" + e() + "+" + e() + ")"
	case 1:
		return "(" + e() + "&&" + e() + ")"
	case 2:
		return "(" + g.ref() + "=" + e() + ")"
	case 3:
		return "[" + e() + ",...(" + e() + ")]"
	case 4:
		return "({" + g.list(3, func() string { return g.prop(d) }) + "})"
	case 5:
		return "(" + e() + "?" + e() + ":" + e() + ")"
	case 6:
		return g.ref() + "(" + g.list(3, e) + ")"
	case 7:
		return "new " + g.ref() + "(" + g.list(2, e) + ")"
	case 8:
		return g.ref() + ".k[" + e() + "]"
	case 9:
		return g.ref() + "?.k?.[" + e() + "]"
	case 10:
		return "(!" + e() + ")"
	case 11:
		return "(typeof " + g.ref() + ")"
	case 12:
		return "(" + g.ref() + "++)"
	case 13:
		return g.inFn(false, func() string { return "(function " + g.id() + "(" + g.params(d-1) + ")" + g.body(d) + ")" })
	case 14:
		return g.inFn(false, func() string { return "((" + g.params(d-1) + ")=>" + g.body(d) + ")" })
	case 15:
		return g.inFn(false, func() string { return "((" + g.params(d-1) + ")=>" + g.expr(d-1) + ")" })
	case 16:
		return "(" + g.class(d, "") + ")"
	case 17:
		return "`p${" + e() + "}q${" + e() + "}`"
	case 18:
		return g.ref() + "`p${" + e() + "}`"
	case 19:
		return "(" + e() + "," + e() + ")"
	case 20:
		if g.async {
			return "(await " + e() + ")"
		}
		return "import(" + e() + ")"
	case 21:
		return g.inFn(true, func() string { return "(async (" + g.params(d-1) + ")=>" + g.body(d) + ")" })
	case 22:
		return "((" + g.expr(d-1) + "))"
	case 23:
		return "(" + g.jsx(d) + ")"
	case 24:
		return "(function*(){yield " + e() + ";yield* " + e() + "})"
	case 25:
		return "([" + g.ref() + ",{k:" + g.ref() + ".k}=" + e() + "]=" + e() + ")"
	}
	return "1"
}

func (g *c09Gen) jsx(d int) string {
	if d <= 0 {
		return "<x/>"
	}
	switch g.r.Intn(4) {
	case 0:
		return "<x a='s' b={" + g.expr(d-1) + "} {..." + g.ref() + "}/>"
	case 1:
		return "<x.y>t{" + g.expr(d-1) + "}" + g.jsx(d-1) + "</x.y>"
	case 2:
		return "<>" + g.jsx(d-1) + "</>"
	}
	return "<x>{/* */}</x>"
}

func (g *c09Gen) prop(d int) string {
	switch g.r.Intn(7) {
	case 0:
		return g.ref()
	case 1:
		return "k:" + g.expr(d-1)
	case 2:
		return "[" + g.expr(d-1) + "]:" + g.expr(d-1)
	case 3:
		return g.inFn(false, func() string { return "m(" + g.params(d-1) + ")" + g.body(d) })
	case 4:
		return g.inFn(false, func() string { return "get g()" + g.body(d) })
	case 5:
		return g.inFn(true, func() string { return "async m(" + g.params(d-1) + ")" + g.body(d) })
	}
	return "...(" + g.expr(d-1) + ")"
}

func (g *c09Gen) class(d int, name string) string {
	s := "class " + name
	if g.r.Intn(2) == 0 {
		s += " extends " + g.ref()
	}
	s += "{"
	for i := g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(6) {
		case 0:
			s += "p=" + g.inFn(false, func() string { return g.expr(d - 1) }) + ";"
		case 1:
			s += g.inFn(false, func() string { return "m(" + g.params(d-1) + ")" + g.body(d) })
		case 2:
			s += g.inFn(false, func() string { return "static{" + strings.ReplaceAll(g.stmts(d-1), "return ", "") + "}" })
		case 3:
			s += g.inFn(false, func() string { return "static set s(" + g.pat(d-1) + ")" + g.body(d) })
		case 4:
			s += "[" + g.expr(d-1) + "]=1;"
		case 5:
			s += "q;static 'r'=1;"
		}
	}
	return s + "}"
}

func (g *c09Gen) stmts(d int) string {
	var b strings.Builder
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		b.WriteString(g.stmt(d))
	}
	return b.String()
}

func (g *c09Gen) stmt(d int) string {
	if d <= 0 {
		return g.ref() + ";"
	}
	s := func() string { return "{" + g.stmts(d-1) + "}" }
	e := func() string { return g.expr(d - 1) }
	switch g.r.Intn(22) {
	case 0:
		return "var " + g.pat(d-1) + "=" + e() + "," + g.id() + ";"
	case 1:
		return "let " + g.pat(d-1) + "=" + e() + ";"
	case 2:
		return "const " + g.id() + "=" + e() + ";"
	case 3:
		return g.inFn(false, func() string { return "function " + g.id() + "(" + g.params(d-1) + ")" + g.body(d) })
	case 4:
		return g.class(d, g.id())
	case 5:
		return "if(" + e() + ")" + s() + "else " + s()
	case 6:
		return "if(" + e() + ")" + g.ref() + ";"
	case 7:
		return g.inLoop(func() string { return "for(let " + g.id() + "=" + e() + ";" + e() + ";" + e() + ")" + s() })
	case 8:
		return g.inLoop(func() string { return "for(var " + g.id() + " in " + e() + ")" + s() })
	case 9:
		return g.inLoop(func() string { return "for(const " + g.pat(d-1) + " of " + e() + ")" + s() })
	case 10:
		return g.inLoop(func() string { return "while(" + e() + ")" + s() })
	case 11:
		return g.inLoop(func() string { return "do" + s() + "while(" + e() + ");" })
	case 12:
		return "switch(" + e() + "){case " + e() + ":" + g.stmts(d-1) + "default:let " + g.id() + "=" + e() + ";}"
	case 13:
		return "try" + s() + "catch(" + g.pat(d-1) + ")" + s() + "finally" + s()
	case 14:
		return "try" + s() + "catch" + s()
	case 15:
		return "throw " + e() + ";"
	case 16:
		return g.id() + ":" + s()
	case 17:
		return s()
	case 18:
		if g.fn {
			return "return " + e() + ";"
		}
		return "debugger;"
	case 19:
		if g.loop {
			return []string{"break;", "continue;"}[g.r.Intn(2)]
		}
		return "debugger;"
	case 20:
		return g.inFn(true, func() string {
			return "async function " + g.id() + "(" + g.params(d-1) + "){for await(let " + g.id() + " of " + g.expr(d-1) + ")" + g.body(d) + "}"
		})
	}
	return e() + ";"
}

var c09Fixed = []string{
	"import a,{b as c,d} from 'e';import * as f from 'g';import 'h';export {a as i};export * from 'j';export * as k from 'l';export const n=1;export default function o(p){q};import.meta.p",
	"export default class A{};export function f(x){y};export {a,b as c} from 'd'",
	"with(m)n",
	"class A extends B{constructor(a){super(a);super.x}#p=2;get x(){return this.#p}static{y}[k](){}async*m(b){yield b}}",
	"(function q(){new.target})",
	"<a:b c:d='e'/>",
	"l1:for(;;){l2:for(;;){break l1;continue l2}}",
	"a;;b",
}

var c09FixedTs = []string{
	"let a:number=1;function f<T extends U=V>(b?:string,...c:any[]):void{}",
	"type A=B|C&D;type G=new(a:b)=>c;type F=(a:b)=>c;type T=[a:b,c?:d];type TQ=typeof a;type L='a'|1|true",
	"interface I extends J<K>{a:number;b?():void;(x):y;new(z):w;[k:string]:v}",
	"enum E{A,B=1}namespace N{export let q=1}declare module 'm'{}declare function df():void;declare global{}",
	"abstract class C<T> extends D<T> implements I{private readonly x:number;constructor(public y:string){super()}m():void{}}",
	"let x=y as Z;let q=w as any;let z=a!;f<number>(1)",
	"type M={readonly[K in keyof T]?:T[K]};type Cn=A extends infer U?U:never;type Im=import('a').B<C>;type P=(A);type O={a:any;b:unknown;c:never;d:null;e:undefined;f:void;g:symbol;h:bigint;i:object;j:string;k:boolean}",
	"import x=require('y');import z2=A.B;function isS(x):x is string{return true}",
}

func c09Parse(code string, ts bool) (parser.Node, *parser.SymTab) {
	for _, mod := range []bool{true, false} {
		o := parser.NewParserOpts()
		if !mod {
			o.Feature = o.Feature.Off(parser.FEAT_MODULE).Off(parser.FEAT_STRICT)
		}
		if ts {
			o.Feature = o.Feature.On(parser.FEAT_TS)
		}
		p := parser.NewParser(span.NewSource("", code), o)
		ast, err := p.Prog()
		if err == nil {
			return ast, p.Symtab()
		}
	}
	return nil, nil
}

// ---- the children of a node, from its fields

var c09NodeT = reflect.TypeOf((*parser.Node)(nil)).Elem()

// fields which are not part of the tree: bookkeeping of jumps, and the nodes
// the walk leaves to the type information and to decorators
var c09Skip = map[string]bool{"target": true, "rets": true, "names": true, "ti": true, "decorators": true, "tsTyp": true}

type c09Kid struct {
	field string
	n     parser.Node
}

func c09Kids(n parser.Node) (out []c09Kid) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		if c09Skip[name] {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		add := func(x reflect.Value) {
			if x.IsNil() {
				return
			}
			k := x.Interface().(parser.Node)
			if reflect.ValueOf(k).IsNil() || k.Type() == parser.N_STMT_EMPTY {
				return
			}
			out = append(out, c09Kid{name, k})
		}
		if f.Type().Implements(c09NodeT) && (f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr) {
			add(f)
		} else if f.Kind() == reflect.Slice && f.Type().Elem() == c09NodeT {
			for j := 0; j < f.Len(); j++ {
				add(f.Index(j))
			}
		}
	}
	if p, ok := n.(*parser.ParenExpr); ok && len(out) == 1 {
		// nested parentheses are taken off
		out[0].n = p.Expr()
	}
	return
}

// the child that a key names
func c09ByKey(n parser.Node, key string) (parser.Node, bool) {
	name, idx := key, -1
	if i := strings.IndexByte(key, '['); i >= 0 {
		name = key[:i]
		fmt.Sscanf(key[i:], "[%d]", &idx)
	}
	m := reflect.ValueOf(n).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return nil, false
	}
	r := m.Call(nil)[0]
	if idx >= 0 {
		if r.Kind() != reflect.Slice || idx >= r.Len() {
			return nil, false
		}
		r = r.Index(idx)
	}
	k, ok := r.Interface().(parser.Node)
	return k, ok
}

// ---- walking

type c09Ev struct {
	kind string // visit, leave, before, after
	n    parser.Node
	key  string
	path string
	par  parser.Node
	sc   int
}

func c09Walk(ast parser.Node, st *parser.SymTab, stopAt int, skip parser.Node) (evs []c09Ev, bad string) {
	ctx := NewWalkCtx(ast, st)
	ctx.Path = true
	cnt := 0
	var open []*VisitorCtx
	note := func(kind string, n parser.Node, key string, c *VisitorCtx) {
		if c != ctx.VisitorCtx() || c.Node != n || c.WalkCtx != ctx {
			bad = fmt.Sprintf("%s of %T gets a context of another node", kind, n)
		}
		evs = append(evs, c09Ev{kind, n, key, strings.Join(c.Path, "/"), c.ParentNode(), c.ScopeId()})
		if kind == "visit" || kind == "before" {
			cnt++
			if cnt == stopAt {
				ctx.Stop()
			}
		}
	}
	for ty := range NodeTypes {
		ov := ctx.Visitors[ty]
		SetVisitor(&ctx.Visitors, ty, func(n parser.Node, k string, c *VisitorCtx) {
			if len(open) > 0 && c.Parent != open[len(open)-1] {
				bad = fmt.Sprintf("the parent context of %T is not that of the node being visited", n)
			}
			open = append(open, c)
			note("visit", n, k, c)
			if !ctx.Stopped() && n != skip {
				ov(n, k, c)
			}
			note("leave", n, k, c)
			open = open[:len(open)-1]
		})
	}
	for ty := range NodeTypes {
		ty := ty
		AddNodeBeforeListener(&ctx.Listeners, ty, &Listener{"b", func(n parser.Node, k string, c *VisitorCtx) {
			if n.Type() != ty {
				bad = fmt.Sprintf("the before event of type %d is raised for %T of type %d", ty, n, n.Type())
			}
			note("before", n, k, c)
		}})
		AddNodeAfterListener(&ctx.Listeners, ty, &Listener{"a", func(n parser.Node, k string, c *VisitorCtx) {
			if n.Type() != ty {
				bad = fmt.Sprintf("the after event of type %d is raised for %T of type %d", ty, n, n.Type())
			}
			note("after", n, k, c)
		}})
	}
	VisitNode(ast, "Root", ctx.VisitorCtx())
	if ctx.VisitorCtx().Node != ast || ctx.VisitorCtx().Parent != nil || ctx.ScopeId() != 0 {
		bad = "the contexts are not restored at the end of the walk"
	}
	return
}

func c09Check(code string, ts bool, r *rand.Rand) string {
	ast, st := c09Parse(code, ts)
	if ast == nil {
		return ""
	}
	evs, bad := c09Walk(ast, st, 0, nil)
	if bad != "" {
		return bad
	}
	// the shape of the trace
	type fr struct {
		e             c09Ev
		before, after int
		kids          []c09Ev
	}
	var stack []*fr
	for _, e := range evs {
		switch e.kind {
		case "visit":
			f := &fr{e: e}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				if e.par != p.e.n {
					return fmt.Sprintf("%T is visited below %T but its parent is reported as %T", e.n, p.e.n, e.par)
				}
				if p.before != 1 || p.after != 0 {
					return fmt.Sprintf("%T in %T is visited outside of the before and after events", e.n, p.e.n)
				}
				k, ok := c09ByKey(p.e.n, e.key)
				if !ok || k != e.n {
					return fmt.Sprintf("%T in %T is visited under the key %s", e.n, p.e.n, e.key)
				}
				for _, o := range p.kids {
					if o.key == e.key {
						return fmt.Sprintf("key %s of %T is visited twice", e.key, p.e.n)
					}
					a, b := strings.IndexByte(o.key, '['), strings.IndexByte(e.key, '[')
					if a > 0 && b > 0 && o.key[:a] == e.key[:b] {
						var x, y int
						fmt.Sscanf(o.key[a:], "[%d]", &x)
						fmt.Sscanf(e.key[b:], "[%d]", &y)
						if x > y {
							return fmt.Sprintf("%s of %T is visited after %s", e.key, p.e.n, o.key)
						}
					}
				}
				if e.path != p.e.path+"/"+e.key {
					return fmt.Sprintf("the path of %T is %q below %q under %q", e.n, e.path, p.e.path, e.key)
				}
				p.kids = append(p.kids, e)
			}
			stack = append(stack, f)
		case "leave":
			f := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if f.e.n != e.n || f.before != 1 || f.after != 1 || e.sc != f.e.sc {
				return fmt.Sprintf("%T: before raised %d times, after %d times, scope %d at its start and %d at its end", f.e.n, f.before, f.after, f.e.sc, e.sc)
			}
			if e.n.Type() == parser.N_TS_IDX_SIG {
				continue
			}
			// each child once
			got := map[parser.Node]int{}
			for _, k := range f.kids {
				got[k.n]++
			}
			want := map[parser.Node]string{}
			if _, ok := e.n.(*parser.TsRef); !ok {
				for _, k := range c09Kids(e.n) {
					want[k.n] = k.field
				}
				for n, f := range want {
					if got[n] == 0 && NodeTypes[n.Type()] {
						return fmt.Sprintf("child %T (%s) of %T is not visited", n, f, e.n)
					}
					_, isProp := e.n.(*parser.Prop)
					_, isSpec := e.n.(*parser.ImportSpec)
					_, isESpec := e.n.(*parser.ExportSpec)
					if got[n] > 1 && !isProp && !isSpec && !isESpec {
						return fmt.Sprintf("child %T (%s) of %T is visited %d times", n, f, e.n, got[n])
					}
				}
			}
		case "before", "after":
			f := stack[len(stack)-1]
			if f.e.n != e.n || f.e.key != e.key || f.e.path != e.path || f.e.par != e.par {
				return fmt.Sprintf("the %s event of %T is raised while %T is visited", e.kind, e.n, f.e.n)
			}
			if e.kind == "before" {
				f.before++
			} else {
				f.after++
			}
		}
	}
	if len(stack) != 0 || len(evs) == 0 || evs[0].n != ast {
		return "the walk does not begin and end with the root"
	}
	// scopes: a name is visited in a scope in which the parser has bound it
	if !ts {
		bound := map[parser.Node]map[int]bool{}
		var names []parser.Node
		for id, s := range st.Scopes {
			for _, ref := range s.Refs {
				if ref.Id == nil {
					continue
				}
				if bound[ref.Id] == nil {
					bound[ref.Id] = map[int]bool{}
					names = append(names, ref.Id)
				}
				bound[ref.Id][id] = true
			}
		}
		at := map[parser.Node][]c09Ev{}
		for _, e := range evs {
			if e.kind == "visit" {
				at[e.n] = append(at[e.n], e)
			}
		}
		for _, n := range names {
			for _, e := range at[n] {
				if s := st.Scopes[e.sc]; s == nil {
					return fmt.Sprintf("%s is visited in scope %d, which does not exist", n.(*parser.Ident).Val(), e.sc)
				}
				switch e.par.(type) {
				case *parser.ImportSpec, *parser.ExportSpec, *parser.FnDec, *parser.ClassDec:
					continue // the name of a function belongs to the scopes on both sides
				}
				if !bound[n][e.sc] {
					return fmt.Sprintf("%s is visited in scope %d but bound in %v", n.(*parser.Ident).Val(), e.sc, bound[n])
				}
			}
		}
	}
	// stopping leaves a prefix of the visits
	starts := 0
	for _, e := range evs {
		if e.kind == "visit" || e.kind == "before" {
			starts++
		}
	}
	for i := 0; i < 3; i++ {
		k := 1 + r.Intn(starts)
		se, bad := c09Walk(ast, st, k, nil)
		if bad != "" {
			return "stopped walk: " + bad
		}
		j, c := 0, 0
		for _, e := range se {
			if e.kind != "visit" && e.kind != "before" {
				continue
			}
			for evs[j].kind != "visit" && evs[j].kind != "before" {
				j++
			}
			if evs[j] != e {
				return fmt.Sprintf("a stopped walk visits %T where the whole walk visits %T", e.n, evs[j].n)
			}
			j++
			c++
		}
		if c != k {
			return fmt.Sprintf("a walk stopped at step %d takes %d steps", k, c)
		}
		// every node that was entered is left
		depth := 0
		for _, e := range se {
			if e.kind == "visit" {
				depth++
			} else if e.kind == "leave" {
				depth--
			}
		}
		if depth != 0 {
			return "a stopped walk leaves nodes open"
		}
	}
	// a visitor that does not go on hides exactly its subtree
	var visits []int
	for i, e := range evs {
		if e.kind == "visit" {
			visits = append(visits, i)
		}
	}
	hid := evs[visits[r.Intn(len(visits))]].n
	he, bad := c09Walk(ast, st, 0, hid)
	if bad != "" {
		return "walk with a replaced visitor: " + bad
	}
	var want []c09Ev
	in := 0
	for _, e := range evs {
		if e.kind == "leave" && e.n == hid {
			in--
		}
		if in == 0 {
			want = append(want, e)
		}
		if e.kind == "visit" && e.n == hid {
			in++
		}
	}
	if !reflect.DeepEqual(len(want), len(he)) {
		return fmt.Sprintf("a walk that skips one %T has %d steps instead of %d", hid, len(he), len(want))
	}
	for i := range want {
		if want[i] != he[i] {
			return fmt.Sprintf("a walk that skips one %T differs at %s of %T", hid, he[i].kind, he[i].n)
		}
	}
	return ""
}

// listeners are called in the order they were added, without those removed
func c09Listeners(r *rand.Rand) string {
	ast, st := c09Parse("a", false)
	ctx := NewWalkCtx(ast, st)
	var ids, got []string
	ls := map[string]*Listener{}
	ev := N_NAME_BEFORE
	if r.Intn(2) == 0 {
		ev = N_STMT_EXPR_AFTER
	}
	for i := 0; i < 1+r.Intn(10); i++ {
		id := string(rune('a' + r.Intn(6)))
		at := -1
		for j, x := range ids {
			if x == id {
				at = j
			}
		}
		if r.Intn(3) > 0 {
			l := &Listener{id, func(parser.Node, string, *VisitorCtx) { got = append(got, id) }}
			err := AddListener(&ctx.Listeners, ev, l)
			if (err != nil) != (at >= 0) {
				return fmt.Sprintf("adding listener %s to %v: %v", id, ids, err)
			}
			if at < 0 {
				ids = append(ids, id)
				ls[id] = l
			}
		} else if at >= 0 {
			RemoveListener(&ctx.Listeners, ev, ls[id])
			ids = append(append([]string{}, ids[:at]...), ids[at+1:]...)
		}
	}
	VisitNode(ast, "", ctx.VisitorCtx())
	if fmt.Sprint(got) != fmt.Sprint(ids) {
		return fmt.Sprintf("listeners %v are called as %v", ids, got)
	}
	// another walk has none of them
	got = nil
	VisitNode(ast, "", NewWalkCtx(ast, st).VisitorCtx())
	if len(got) > 0 {
		return "listeners of one walk are called in another"
	}
	return ""
}

func TestVerifC09(t *testing.T) {
	v := vNew(t, "C09")
	defer v.done()
	r := vRand()
	for i := 0; i < vPick(300, 3000) && v.more(); i++ {
		s := r.Int63()
		v.check("listeners", s, func() string { return c09Listeners(rand.New(rand.NewSource(s))) })
	}
	for rep := 0; rep < 5; rep++ {
		for _, c := range c09Fixed {
			v.check("walk", c, func() string { return c09Check(c, false, r) })
		}
		for _, c := range c09FixedTs {
			v.check("walkts", c, func() string { return c09Check(c, true, r) })
		}
	}
	parsed := 0
	n := vPick(4000, 40000)
	i := 0
	for ; i < n && v.more(); i++ {
		g := &c09Gen{r: r}
		code := g.stmts(1 + r.Intn(4))
		if len(code) > 4000 {
			continue
		}
		if ast, _ := c09Parse(code, false); ast != nil {
			parsed++
		}
		v.check("walk", code, func() string { return c09Check(code, false, r) })
	}
	fmt.Println("parsed", parsed, "of", i)
}
