package estree

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"
	"unsafe"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

// ---- random programs

type c10Gen struct {
	r     *rand.Rand
	async bool
	fn    bool
	loop  bool
	n     int
}

func (g *c10Gen) id() string {
	g.n++
	return fmt.Sprintf("v%d", g.n)
}

func (g *c10Gen) ref() string {
	return []string{"a", "b", "c", "d", "v1", "v2", "v3"}[g.r.Intn(7)]
}

func (g *c10Gen) inFn(async bool, f func() string) string {
	a, fn, l := g.async, g.fn, g.loop
	g.async, g.fn, g.loop = async, true, false
	s := f()
	g.async, g.fn, g.loop = a, fn, l
	return s
}

func (g *c10Gen) inLoop(f func() string) string {
	l := g.loop
	g.loop = true
	s := f()
	g.loop = l
	return s
}

func (g *c10Gen) list(n int, f func() string) string {
	var p []string
	for i := g.r.Intn(n + 1); i > 0; i-- {
		p = append(p, f())
	}
	return strings.Join(p, ",")
}

func (g *c10Gen) params(d int) string {
	s := g.list(3, func() string {
		if g.r.Intn(3) == 0 {
			return g.pat(d-1) + "=" + g.expr(d-1)
		}
		return g.pat(d - 1)
	})
	if g.r.Intn(5) == 0 {
		if s != "" {
			s += ","
		}
		s += "..." + g.pat(d-1)
	}
	return s
}

func (g *c10Gen) body(d int) string { return "{" + g.stmts(d-1) + "}" }

// binding pattern
func (g *c10Gen) pat(d int) string {
	if d <= 0 {
		return g.id()
	}
	switch g.r.Intn(6) {
	case 0:
		return "[" + g.list(3, func() string {
			switch g.r.Intn(4) {
			case 0:
				return ""
			case 1:
				return g.pat(d-1) + "=" + g.expr(d-1)
			}
			return g.pat(d - 1)
		}) + "]"
	case 1:
		s := g.list(3, func() string {
			switch g.r.Intn(4) {
			case 0:
				return g.id()
			case 1:
				return g.id() + "=" + g.expr(d-1)
			case 2:
				return "[" + g.expr(d-1) + "]:" + g.pat(d-1)
			}
			return "k:" + g.pat(d-1) + "=" + g.expr(d-1)
		})
		if g.r.Intn(3) == 0 {
			if s != "" {
				s += ","
			}
			s += "..." + g.id()
		}
		return "{" + s + "}"
	}
	return g.id()
}

func (g *c10Gen) expr(d int) string {
	if d <= 0 {
		return []string{g.ref(), "1", "'s'", "null", "true", "this", "/x/g", "0x1f", "12n", "'a\\n\u00e9'", "\n1.5e3", "`\n\\x41`", "\"q\"", "false", "/[/]\\d/iu"}[g.r.Intn(15)]
	}
	e := func() string { return g.expr(d - 1) }
	switch g.r.Intn(26) {
	case 0:
		return "(" + e() + "+" + e() + ")"
	case 1:
		return "(" + e() + "&&" + e() + ")"
	case 2:
		return "(" + g.ref() + "=" + e() + ")"
	case 3:
		return "[" + e() + ",...(" + e() + ")]"
	case 4:
		return "({" + g.list(3, func() string { return g.prop(d) }) + "})"
	case 5:
		return "(" + e() + "?" + e() + ":" + e() + ")"
	case 6:
		return g.ref() + "(" + g.list(3, e) + ")"
	case 7:
		return "new " + g.ref() + "(" + g.list(2, e) + ")"
	case 8:
		return g.ref() + ".k[" + e() + "]"
	case 9:
		return g.ref() + "?.k?.[" + e() + "]"
	case 10:
		return "(!" + e() + ")"
	case 11:
		return "(typeof " + g.ref() + ")"
	case 12:
		return "(" + g.ref() + "++)"
	case 13:
		return g.inFn(false, func() string { return "(function " + g.id() + "(" + g.params(d-1) + ")" + g.body(d) + ")" })
	case 14:
		return g.inFn(false, func() string { return "((" + g.params(d-1) + ")=>" + g.body(d) + ")" })
	case 15:
		return g.inFn(false, func() string { return "((" + g.params(d-1) + ")=>" + g.expr(d-1) + ")" })
	case 16:
		return "(" + g.class(d, "") + ")"
	case 17:
		return "`p${" + e() + "}q${" + e() + "}`"
	case 18:
		return g.ref() + "`p${" + e() + "}`"
	case 19:
		return "(" + e() + "," + e() + ")"
	case 20:
		if g.async {
			return "(await " + e() + ")"
		}
		return "import(" + e() + ")"
	case 21:
		return g.inFn(true, func() string { return "(async (" + g.params(d-1) + ")=>" + g.body(d) + ")" })
	case 22:
		return "((" + g.expr(d-1) + "))"
	case 23:
		return "(" + g.jsx(d) + ")"
	case 24:
		return "(function*(){yield " + e() + ";yield* " + e() + "})"
	case 25:
		return "([" + g.ref() + ",{k:" + g.ref() + ".k}=" + e() + "]=" + e() + ")"
	}
	return "1"
}

func (g *c10Gen) jsx(d int) string {
	if d <= 0 {
		return "<x/>"
	}
	switch g.r.Intn(4) {
	case 0:
		return "<x a='s' b={" + g.expr(d-1) + "} {..." + g.ref() + "}/>"
	case 1:
		return "<x.y>t{" + g.expr(d-1) + "}" + g.jsx(d-1) + "</x.y>"
	case 2:
		return "<>" + g.jsx(d-1) + "</>"
	}
	return "<x>{/* */}</x>"
}

func (g *c10Gen) prop(d int) string {
	switch g.r.Intn(7) {
	case 0:
		return g.ref()
	case 1:
		return "k:" + g.expr(d-1)
	case 2:
		return "[" + g.expr(d-1) + "]:" + g.expr(d-1)
	case 3:
		return g.inFn(false, func() string { return "m(" + g.params(d-1) + ")" + g.body(d) })
	case 4:
		return g.inFn(false, func() string { return "get g()" + g.body(d) })
	case 5:
		return g.inFn(true, func() string { return "async m(" + g.params(d-1) + ")" + g.body(d) })
	}
	return "...(" + g.expr(d-1) + ")"
}

func (g *c10Gen) class(d int, name string) string {
	s := "class " + name
	if g.r.Intn(2) == 0 {
		s += " extends " + g.ref()
	}
	s += "{"
	for i := g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(6) {
		case 0:
			s += "p=" + g.inFn(false, func() string { return g.expr(d - 1) }) + ";"
		case 1:
			s += g.inFn(false, func() string { return "m(" + g.params(d-1) + ")" + g.body(d) })
		case 2:
			s += g.inFn(false, func() string { return "static{" + strings.ReplaceAll(g.stmts(d-1), "return ", "") + "}" })
		case 3:
			s += g.inFn(false, func() string { return "static set s(" + g.pat(d-1) + ")" + g.body(d) })
		case 4:
			s += "[" + g.expr(d-1) + "]=1;"
		case 5:
			s += "q;static 'r'=1;"
		}
	}
	return s + "}"
}

func (g *c10Gen) stmts(d int) string {
	var b strings.Builder
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		b.WriteString(g.stmt(d))
	}
	return b.String()
}

func (g *c10Gen) stmt(d int) string {
	if d <= 0 {
		return g.ref() + ";"
	}
	s := func() string { return "{" + g.stmts(d-1) + "}" }
	e := func() string { return g.expr(d - 1) }
	switch g.r.Intn(22) {
	case 0:
		return "var " + g.pat(d-1) + "=" + e() + "," + g.id() + ";"
	case 1:
		return "let " + g.pat(d-1) + "=" + e() + ";"
	case 2:
		return "const " + g.id() + "=" + e() + ";"
	case 3:
		return g.inFn(false, func() string { return "function " + g.id() + "(" + g.params(d-1) + ")" + g.body(d) })
	case 4:
		return g.class(d, g.id())
	case 5:
		return "if(" + e() + ")" + s() + "else " + s()
	case 6:
		return "if(" + e() + ")" + g.ref() + ";"
	case 7:
		return g.inLoop(func() string { return "for(let " + g.id() + "=" + e() + ";" + e() + ";" + e() + ")" + s() })
	case 8:
		return g.inLoop(func() string { return "for(var " + g.id() + " in " + e() + ")" + s() })
	case 9:
		return g.inLoop(func() string { return "for(const " + g.pat(d-1) + " of " + e() + ")" + s() })
	case 10:
		return g.inLoop(func() string { return "while(" + e() + ")" + s() })
	case 11:
		return g.inLoop(func() string { return "do" + s() + "while(" + e() + ");" })
	case 12:
		return "switch(" + e() + "){case " + e() + ":" + g.stmts(d-1) + "default:let " + g.id() + "=" + e() + ";}"
	case 13:
		return "try" + s() + "catch(" + g.pat(d-1) + ")" + s() + "finally" + s()
	case 14:
		return "try" + s() + "catch" + s()
	case 15:
		return "throw " + e() + ";"
	case 16:
		return g.id() + ":" + s()
	case 17:
		return s()
	case 18:
		if g.fn {
			return "return " + e() + ";"
		}
		return "debugger;"
	case 19:
		if g.loop {
			return []string{"break;", "continue;"}[g.r.Intn(2)]
		}
		return "debugger;"
	case 20:
		return g.inFn(true, func() string {
			return "async function " + g.id() + "(" + g.params(d-1) + "){for await(let " + g.id() + " of " + g.expr(d-1) + ")" + g.body(d) + "}"
		})
	}
	return e() + ";"
}

// ---- random TypeScript

func (g *c10Gen) opt(n int, s string) string {
	if g.r.Intn(n) == 0 {
		return s
	}
	return ""
}

func (g *c10Gen) pick(l ...string) string { return l[g.r.Intn(len(l))] }

func (g *c10Gen) typ(d int) string {
	if d <= 0 {
		return g.pick("A", "B.C", "string", "number", "boolean", "any", "void", "never", "unknown", "object", "symbol", "bigint", "null", "undefined", "'l'", "1", "true", "this")
	}
	t := func() string { return g.typ(d - 1) }
	switch g.r.Intn(20) {
	case 0:
		return t() + "|" + t()
	case 1:
		return t() + "&" + t()
	case 2:
		return "(" + t() + ")[]"
	case 3:
		return "[" + g.list(3, t) + "]"
	case 4:
		return "[a:" + t() + ",b?:" + t() + "]"
	case 5:
		return "(" + g.tsTypParams(d-1) + "(" + g.tsParams(d-1, false) + ")=>" + t() + ")"
	case 6:
		return "(" + g.opt(2, "abstract ") + "new(" + g.tsParams(d-1, false) + ")=>" + t() + ")"
	case 7:
		return "{" + g.tsMembers(d) + "}"
	case 8:
		return "(A extends " + t() + "?" + t() + ":" + t() + ")"
	case 9:
		return "(A extends infer U?" + t() + ":" + t() + ")"
	case 10:
		return "{" + g.pick("", "readonly ", "-readonly ", "+readonly ") + "[K in " + t() + g.opt(3, " as "+t()) + "]" + g.pick("", "?", "-?", "+?") + ":" + t() + "}"
	case 11:
		return "A[" + t() + "]"
	case 12:
		return "typeof " + g.pick("a", "a.b", "a.b.c")
	case 13:
		return "keyof " + t()
	case 14:
		return "readonly (" + t() + ")[]"
	case 15:
		return "(" + t() + ")"
	case 16:
		return "import('m')" + g.pick("", ".A", ".A.B") + g.opt(2, "<"+t()+">")
	case 17:
		return g.pick("A", "B.C") + "<" + t() + "," + t() + ">"
	case 18:
		return "[" + t() + "?,...(" + t() + ")[]]"
	}
	return g.typ(0)
}

func (g *c10Gen) tsTypParams(d int) string {
	if g.r.Intn(3) != 0 {
		return ""
	}
	return "<T" + g.opt(2, " extends "+g.typ(d)) + g.opt(2, "= "+g.typ(d)) + g.opt(2, ",U") + " >"
}

func (g *c10Gen) tsMods(l ...string) string {
	s := ""
	for _, m := range l {
		s += g.opt(2, m+" ")
	}
	return s
}

func (g *c10Gen) tsParams(d int, props bool) string {
	n := g.r.Intn(4)
	var ps []string
	for i := 0; i < n; i++ {
		p := ""
		if props {
			p = g.opt(4, "@d ") + g.opt(4, "@e() ") + g.pick("", "public ", "private ", "protected ") + g.tsMods("override", "readonly")
		}
		p += g.id()
		if i == n-1 {
			p += g.opt(2, "?")
		}
		p += g.opt(2, ":"+g.typ(d))
		ps = append(ps, p)
	}
	return strings.Join(ps, ",")
}

func (g *c10Gen) tsMembers(d int) string {
	s := ""
	for i := g.r.Intn(4); i > 0; i-- {
		switch g.r.Intn(6) {
		case 0:
			s += g.opt(2, "readonly ") + g.pick("a", "'b'", "1", "[c]") + g.opt(2, "?") + ":" + g.typ(d-1)
		case 1:
			s += g.pick("a", "'b'", "[c]") + g.opt(2, "?") + "(" + g.tsParams(d-1, false) + "):" + g.typ(d-1)
		case 2:
			s += "(" + g.tsParams(d-1, false) + "):" + g.typ(d-1)
		case 3:
			s += "new(" + g.tsParams(d-1, false) + "):" + g.typ(d-1)
		case 4:
			s += "[k:" + g.pick("string", "number") + "]:" + g.typ(d-1)
		case 5:
			s += g.pick("get a():"+g.typ(d-1), "set a(v:"+g.typ(d-1)+")")
		}
		s += ";"
	}
	return s
}

func (g *c10Gen) tsClassMember(d int) string {
	s := g.opt(4, "@d ") + g.opt(6, "@e(1) ")
	switch g.r.Intn(5) {
	case 0, 1:
		return s + g.pick("", "public ", "private ", "protected ") + g.tsMods("static", "override", "readonly") + g.pick("a", "'b'", "[c]", "d") + g.pick("", "?", "!") + ":" + g.typ(d-1) + g.opt(3, "="+g.expr(1)) + ";"
	case 2:
		return s + g.pick("", "public ", "private ", "protected ") + g.tsMods("static", "override", "async") + g.opt(3, "*") + g.pick("m", "'n'", "[o]") + g.tsTypParams(d-1) + "(" + g.tsParams(d-1, false) + ")" + g.opt(2, ":"+g.typ(d-1)) + "{}"
	case 3:
		return "constructor(" + g.tsParams(d-1, true) + "){super()}"
	}
	return s + g.pick("", "public ", "protected ") + g.opt(2, "static ") + g.pick("get g():"+g.typ(d-1)+"{return 1}", "set g(v:"+g.typ(d-1)+"){}")
}

func (g *c10Gen) ts(d int) string {
	t := func() string { return g.typ(d) }
	switch g.r.Intn(16) {
	case 0, 1, 2:
		return g.opt(4, "@x ") + g.opt(4, "@y.z() ") + g.opt(4, "abstract ") + "class C" + g.tsTypParams(d) + " extends B" + g.opt(2, "<"+t()+">") + g.opt(2, " implements I,J<"+t()+">"+g.opt(2, ",K")+g.opt(3, ",L.M<"+t()+">")+g.opt(3, ",N")) + "{" + g.tsClassMember(d) + g.tsClassMember(d) + g.tsClassMember(d) + "}"
	case 3:
		return g.opt(3, "async ") + "function" + g.opt(3, "*") + " f" + g.tsTypParams(d) + "(" + g.tsParams(d, false) + ")" + g.opt(2, ":"+g.pick(t(), "x is "+t(), "asserts x", "asserts x is "+t())) + "{}"
	case 4:
		return "let a:" + t() + ",{b}:" + t() + "=c,[e]:" + t() + "=f"
	case 5:
		return g.opt(3, "declare ") + "type A" + g.opt(3, "<T,U>") + " = " + t()
	case 6:
		return g.opt(3, "declare ") + "interface I" + g.opt(2, "<T>") + g.opt(2, " extends J,K.L<"+t()+">"+g.opt(2, ",M")+g.opt(3, ",N<"+t()+",O>")+g.opt(3, ",P.Q")) + "{" + g.tsMembers(d) + "}"
	case 7:
		return g.opt(3, "declare ") + g.opt(3, "const ") + "enum E{" + g.list(3, func() string { return g.pick("a", "'b'", "c=1", "d='e'", "f=1|2") }) + "}"
	case 8:
		return "x=(y as " + t() + ")+(z! as " + t() + ")"
	case 9:
		return "f" + g.pick("<"+t()+">", "") + "(1," + g.expr(1) + ")"
	case 10:
		return "new D<" + t() + ">(" + g.expr(1) + ")"
	case 11:
		return "x=(" + g.tsParams(d, false) + ")" + g.opt(2, ":"+t()) + "=>" + g.pick("{}", "1")
	case 12:
		return "declare " + g.pick("function f"+g.tsTypParams(d)+"("+g.tsParams(d, false)+"):"+t(), "var a:"+t()+",b", "let c:"+t(), "const e:"+t(), "class C{a:"+t()+"}", "abstract class C<T> extends B<"+t()+"> implements J{}", "namespace N{let a:"+t()+"}", "module 'm'{}", "global{}")
	case 13:
		return "namespace N" + g.opt(2, ".M") + "{" + g.ts(d-1) + "}"
	case 14:
		return "x=" + g.opt(2, "async ") + "function" + g.opt(3, "*") + "(" + g.tsParams(d, false) + ")" + g.opt(2, ":"+t()) + "{}"
	}
	return "x=class" + g.tsTypParams(d) + " extends B" + g.opt(2, "<"+t()+">") + "{" + g.tsClassMember(d) + g.tsClassMember(d) + "}"
}

var c10Fixed = []string{
	"import a,{b as c,d} from 'e';import * as f from 'g';import 'h';export {a as i};export * from 'j';export * as k from 'l';export const n=1;export default function o(p){q};import.meta.p",
	"export default class A{};export function f(x){y};export {a,b as c} from 'd'",
	"with(m)n",
	"class A extends B{constructor(a){super(a);super.x}#p=2;get x(){return this.#p}static{y}[k](){}async*m(b){yield b}}",
	"(function q(){new.target})",
	"<a:b c:d='e'/>",
	"l1:for(;;){l2:for(;;){break l1;continue l2}}",
	"a;;b",
}

var c10FixedTs = []string{
	"let a:number=1;function f<T extends U=V>(b?:string,...c:any[]):void{}",
	"type A=B|C&D;type G=new(a:b)=>c;type F=(a:b)=>c;type T=[a:b,c?:d];type TQ=typeof a;type L='a'|1|true",
	"interface I extends J<K>{a:number;b?():void;(x):y;new(z):w;[k:string]:v}",
	"enum E{A,B=1}namespace N{let q=1}declare module 'm'{}declare function df():void;declare global{}",
	"abstract class C<T> extends D<T> implements I{private readonly x:number;constructor(public y:string){super()}m():void{}}",
	"let x=y as Z;let q=w as any;let z=a!;f<number>(1)",
	"type M={readonly[K in keyof T]?:T[K]};type Cn=A extends infer U?U:never;type Im=import('a').B<C>;type P=(A);type O={a:any;b:unknown;c:never;d:null;e:undefined;f:void;g:symbol;h:bigint;i:object;j:string;k:boolean}",
	"import x=require('y');import z2=A.B;function isS(x):x is string{return true}",
}

var c10FixedMore = []string{
	"'use strict';'not\\x41one';a",
	"function f(){'use strict';\"d\\u0032\";'x'+1;'z'}",
	"`${'a'}b${`c${'d'}`}${\"e\"}`;`x`;``;t`a${'s'}\\u{41}`;`\r\n$`",
	"a\r\nb\u2028c\u2029d\n\r\ne;'\u00e9\U0001F600';x",
	"a=b;a+=1;a-=1;a*=1;a/=1;a%=1;a**=1;a<<=1;a>>=1;a>>>=1;a&=1;a|=1;a^=1;a&&=1;a||=1;a??=1",
	"a+b;a-b;a*b;a/b;a%b;a**b;a<<b;a>>b;a>>>b;a&b;a|b;a^b;a&&b;a||b;a??b;a==b;a!=b;a===b;a!==b;a<b;a>b;a<=b;a>=b;a in b;a instanceof b",
	"+a;-a;~a;!a;typeof a;void a;delete a.b;++a;--a;a++;a--;async()=>await a",
	"for(;;);for(a;;);for(;a;);for(;;a);for(var i=0,j;i<j;i++);for(a in b);for(a of b);for(let[x]of y);async function f(){for await(a of b);}",
	"switch(a){};switch(a){default:}switch(a){case 1:case 2:b;c;break;default:d;case 3:}",
	"if(a)b;else if(c)d;else e;while(a)b;do a;while(b);l:for(;;){continue l;break l;continue;break}",
	"try{a}catch{b};try{a}finally{c};try{a}catch({x,y:[z]}){b}finally{c}",
	"({a,b:1,'c':2,3:4,[d]:5,get e(){return 1},set e(v){},f(){},async g(){},*h(){},async*i(){},...j,get(){},set:1,async:2})",
	"class A{static a=1;static async*b(){}get c(){return 1}static set c(v){}constructor(){}static{a;b}#d;#e(){this.#d in this}'f'(){}[g](){}static get;set;async;static static;}",
	"(class{});(class B extends(C,D){});", "x=class extends Y{constructor(){super();super.a;super[b]()}}", "x=class extends Y{constructor(){super();super.a}}",
	"[a,,b,...c];[,];[a=1,,[b],{c,d:e=2,...f},...g]=h;({a,b:c=1,[d]:e,...f}=g)",
	"a?.b;a?.[b];a?.(b);a?.b.c?.d(e);(a?.b).c;a?.b.c;new a;new a(b,...c);new a.b();new(a());a(b)(c)",
	"(a,b),c;((a));(a)=(b);(((a+b)))*c;(function(){})();(()=>{})();a=>b;(a)=>({});async a=>b;async(a,b)=>{};(a,{b},[c]=d,...e)=>f",
	"function*g(){yield;yield a;yield*b}async function h(){await a;for await(x of y);};import('a');function k(a=1,{b},[c],...d){new.target}",
	"null;true;false;1;1.5;.5;1e3;0xff;0b11;0o17;1_000;9007199254740993;10n;0xfn;1e400;/a/;/[/]/gimsuy",
	"var a;let b=1,c;const d=2;{}debugger;throw a;;",
	"<a/>;<a b c='d' e={f} {...g} h:i='j' k=<l/>/>", "<a.b.c>t &amp; \n x{d}{/* c */}<f/></a.b.c>", "<a>{...e}</a>", "<></>;<>a{b}<c></c></>;<a:b></a:b>",
	"let a,c,e;import a2 from'b';import*as c2 from'd';import{e2,f as g,default as h}from'i';import j,{k}from'l';import m,*as n from'o';import'p';export{a};export{c as q,e as default};export{r}from's';export*from't';export*as u from'v';export let w=1;export function x(){};export class y{};export default(1,2);import.meta",
	"export default async function(){}", "export default class extends A{}", "export default function f(){}", "export default [a]",
	"with(a)b;arguments;yield=1;let=3;async=4;of=5;get=6",
}

var c10FixedTsMore = strings.Split(`@a @b.c() class D{}
class D{@e f=1;@g() h(){}@i static j;@k get l(){return 1}}
class D{m(@n o,@p() q:r){}}
class A<T>extends B<C>implements D,E.F<G>{}
class A{private a:b=1;protected readonly c?:d;public static e!:f}
class A{declare g:h;override i(){}}
class A extends B{constructor(private j:k,readonly l=1,public readonly m?:n,protected o=p){super()}}
class A{get o():p{return 1}q?():r;[s:string]:t}
class A{readonly [s:string]:t;static [u:number]:v}
abstract class U{abstract v:w;abstract x():y}
x=class<T>extends A<T>implements B{}
f<A>(b);new C<D,E>(f);p!;q!.r;s as T as U;(v as W).x
a<B>`+"`c${d}`"+`
(f:G):H=>i;async(k:L)=>m
x=<N>o
<E,>(f:G):H=>i
async<J>(k:L)=>m
function f(this:A,b?:C,...d:E[]):F{}
function f(b?:C):F;function f(){}
function g<T,U extends V=W>(x:T):asserts x is U{}
function h(x):asserts x{}
function h(x):x is string{}
let i:(a:B,c?:D,...e:F[])=>g
let {j}:K=l,[m]:N=o
function k({a}:B={},[c]:D=[],...e:F){}
type A<T,U=V> = T
declare type B=C
declare type B2<T> = C<T>
type D={a:b;c?:d;readonly e:f}
type D={[g]:h}
type D={i():j;k?(m:n):o}
type D={k?<L>(m:n):o}
type D={(p:q):r;new(s:t):u}
type D={get v():w;set x(y:z)}
type E=readonly a[]
type F=keyof typeof b
type G=unique symbol
type H=a['b']
type I=[a?,...b[]]
type J=[c:d,e?:f]
type J=[...g:h]
type A=B extends C<infer D>?E:F
type G={[H in I]:J}
type K={readonly[L in M as N]?:O}
type P={-readonly[Q in R]-?:S}
type T={+readonly[U in V]+?:W}
type X=import('y')
type Z=import('a').b.c<D>
type Q2=typeof e.f
type R2=abstract new()=>g
type S2=this
type U2=-1
type A='b'|"c"|1|true|false|null|undefined|void|never|unknown|any|object|symbol|bigint|string|number|boolean
type B=|C|D
type E=&F&G
type H=(I|J)[]
interface A{}
interface B<T>extends C,D.E<F>{g:h;readonly i?:j;k():l}
interface B{new<M>(n:o):p;<Q>(r:s):t;[u:number]:v}
interface B{new(n:o):p;(r:s):t}
declare interface W{}
declare interface W<T> extends X<T>{a:b}
enum A{}
enum B{c,d=1,'e'=2,f=c|d}
const enum G{h}
declare enum I{j}
declare const enum K{l}
namespace A.B.C{export const d=1}
module E{}
declare module 'f'{export let g:h}
declare namespace I{}
declare global{var j:k}
declare var l:m,n
declare let o
declare const p:q
declare function r<S>(t:u):v
declare class W{x:y}
declare class W<T> extends X<T>{}
declare class W extends X<T>{}
declare class W<T> implements X<T>,Y{}
class W<T> extends V<T> implements X<T>,Y{}
class W implements X<T>{}
declare abstract class Z{}
import type A from'b'
import type{C,D as E}from'f'
import{type G,type H as I}from'j'
let K;export type{K}
let L;export{type L}
import type*as M from'n'
export type O=P
export interface Q{}
export enum R{}
export namespace S{}
export declare const T:u
export abstract class V{}
export default interface W{}
export default abstract class W{}
import a=require('b')
export import c=d.e
export=f
export as namespace G
export import a=require('b')
<A<B>c='d'/>
let a:A.B.C<D>[][]
let b:(new()=>C)|(()=>D)
for(const x of y as Z);
try{}catch(e:any){}`, "\n")

// ---- fields of the tree

func c10Ptr(n interface{}) reflect.Value {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return reflect.Value{}
	}
	return v.Elem()
}

// get reads a field of a node; ok is false when there is no such field
func c10Get(n interface{}, path string) (interface{}, bool) {
	for _, name := range strings.Split(path, ".") {
		v := c10Ptr(n)
		if !v.IsValid() {
			return nil, false
		}
		f := v.FieldByName(name)
		if !f.IsValid() {
			return nil, false
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if (f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr) && f.IsNil() {
			n = nil
		} else {
			n = f.Interface()
			if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
				n = nil
			}
		}
	}
	return n, true
}

func c10Node(n interface{}, path string) parser.Node {
	x, _ := c10Get(n, path)
	k, _ := x.(parser.Node)
	return k
}

func c10Nodes(n interface{}, path string) ([]parser.Node, bool) {
	x, ok := c10Get(n, path)
	if !ok {
		return nil, false
	}
	k, ok := x.([]parser.Node)
	return k, ok
}

func c10Bool(n interface{}, path string) bool {
	x, _ := c10Get(n, path)
	b, _ := x.(bool)
	return b
}

func c10Rng(n interface{}, path string) span.Range {
	x, _ := c10Get(n, path)
	r, _ := x.(span.Range)
	return r
}

func c10Has(n interface{}, path string) bool {
	x, ok := c10Get(n, path)
	return ok && x != nil
}

func c10Op(n interface{}) parser.TokenValue {
	x, _ := c10Get(n, "op")
	t, _ := x.(parser.TokenValue)
	return t
}

func c10Ti(n parser.Node) interface{} {
	x, _ := c10Get(n, "ti")
	if t, ok := x.(*parser.TypInfo); ok && t != nil {
		return t
	}
	return nil
}

// ---- the reference

type c10 struct {
	code    string
	p       *parser.Parser
	lineCol bool
	lines   []int
	bad     string
	seen    map[string]bool
}

func (c *c10) fail(n parser.Node, f string, a ...interface{}) {
	if c.bad == "" {
		c.bad = fmt.Sprintf("%T at %d..%d: ", n, n.Range().Lo, n.Range().Hi) + fmt.Sprintf(f, a...)
	}
}

// the lines of the text begin here
func (c *c10) prepare() {
	c.lines = []int{0}
	for i := 0; i < len(c.code); {
		r, w := utf8.DecodeRuneInString(c.code[i:])
		i += w
		if r == '\r' && i < len(c.code) && c.code[i] == '\n' {
			i++
		}
		if r == '\n' || r == '\r' {
			c.lines = append(c.lines, i)
		}
	}
}

func (c *c10) lc(o int) (int, int) {
	l := 0
	for l+1 < len(c.lines) && c.lines[l+1] <= o {
		l++
	}
	return l + 1, utf8.RuneCountInString(c.code[c.lines[l]:o])
}

type c10Obj = map[string]interface{}

func c10Num(o c10Obj, k string) int {
	f, ok := o[k].(float64)
	if !ok {
		return -1
	}
	return int(f)
}

func (c *c10) span(n parser.Node, o c10Obj, lo, hi int) {
	if c10Num(o, "start") != lo || c10Num(o, "end") != hi {
		c.fail(n, "%v spans %v..%v, not %d..%d", o["type"], o["start"], o["end"], lo, hi)
		return
	}
	loc, _ := o["loc"].(c10Obj)
	if !c.lineCol {
		if loc != nil {
			c.fail(n, "%v has a place although no places were asked for", o["type"])
		}
		return
	}
	if loc == nil {
		c.fail(n, "%v has no place", o["type"])
		return
	}
	for k, off := range map[string]int{"start": lo, "end": hi} {
		q, _ := loc[k].(c10Obj)
		l, cl := c.lc(off)
		if q == nil || c10Num(q, "line") != l || c10Num(q, "column") != cl {
			c.fail(n, "%v: %s is at %v, not at line %d column %d", o["type"], k, q, l, cl)
		}
	}
}

func c10Empty(n parser.Node) bool {
	r := n.Range()
	return r.Lo == 0 && r.Hi == 0
}

func (c *c10) typedSpan(n parser.Node, ti interface{}, prop bool) (int, int) {
	r := n.Range()
	lo, hi := int(r.Lo), int(r.Hi)
	if tp := c10Node(ti, "typParams"); tp != nil && !c10Empty(tp) && int(tp.Range().Lo) < lo {
		lo = int(tp.Range().Lo)
	}
	if prop && c10Has(ti, "clsTyp") {
		if b := c10Rng(ti, "clsTyp.beginRng"); !(b.Lo == 0 && b.Hi == 0) && int(b.Lo) < lo {
			lo = int(b.Lo)
		}
	}
	if ta := c10Node(ti, "typAnnot"); ta != nil && int(ta.Range().Hi) > hi {
		hi = int(ta.Range().Hi)
	}
	if q := c10Rng(ti, "ques"); int(q.Hi) > hi {
		hi = int(q.Hi)
	}
	return lo, hi
}

func (c *c10) decorators(n parser.Node, v interface{}, ti interface{}) {
	ds, _ := c10Nodes(ti, "decorators")
	c.list(n, "decorators", v, ds, c.conv)
}

func (c *c10) list(n parser.Node, key string, v interface{}, ns []parser.Node, f func(parser.Node, interface{}, parser.Node)) {
	l, ok := v.([]interface{})
	if !ok && v != nil {
		c.fail(n, "%s is not a list", key)
		return
	}
	if len(l) != len(ns) {
		c.fail(n, "%s has %d entries, not %d", key, len(l), len(ns))
		return
	}
	for i := range ns {
		f(ns[i], l[i], n)
	}
}

func (c *c10) text(n parser.Node) string {
	r := n.Range()
	return c.code[r.Lo:r.Hi]
}

func c10Norm(s string) string {
	b, _ := json.Marshal(s)
	var r string
	json.Unmarshal(b, &r)
	return r
}

func (c *c10) val(n parser.Node, o c10Obj, key string, want interface{}) {
	got := o[key]
	if s, ok := want.(string); ok {
		want = c10Norm(s)
	}
	if got == nil && (want == "" || want == false) {
		return
	}
	if got != want {
		c.fail(n, "%v.%s is %#v, not %#v", o["type"], key, got, want)
	}
}

func c10KindText(k parser.PropKind) string {
	switch k {
	case parser.PK_INIT:
		return "init"
	case parser.PK_GETTER:
		return "get"
	case parser.PK_SETTER:
		return "set"
	case parser.PK_CTOR:
		return "constructor"
	case parser.PK_METHOD:
		return "method"
	}
	return ""
}

func c10ModKind(ts bool) string {
	if ts {
		return "type"
	}
	return "value"
}

// a parameter: converted, or inside a parameter property
func (c *c10) param(n parser.Node, v interface{}, up parser.Node) {
	if n != nil && reflect.ValueOf(n).Kind() == reflect.Ptr {
		if _, ok := n.(parser.NodeWithTypInfo); ok {
			ti := c10Ti(n)
			if ti != nil && c10Has(ti, "clsTyp") {
				acc, _ := c10Get(ti, "clsTyp.accMod")
				ro, ov := c10Bool(ti, "clsTyp.readonly"), c10Bool(ti, "clsTyp.override")
				if ro || ov || acc != parser.ACC_MOD_NONE {
					o, _ := v.(c10Obj)
					if o == nil || o["type"] != "TSParameterProperty" {
						c.fail(n, "a parameter property is converted to %v", v)
						return
					}
					lo, hi := c.typedSpan(n, ti, true)
					c.span(n, o, lo, hi)
					c.val(n, o, "readonly", ro)
					c.val(n, o, "override", ov)
					c.val(n, o, "accessibility", map[interface{}]string{parser.ACC_MOD_PUB: "public", parser.ACC_MOD_PRI: "private", parser.ACC_MOD_PRO: "protected", parser.ACC_MOD_NONE: ""}[acc])
					c.decorators(n, o["decorators"], ti)
					c.conv(n, o["parameter"], up)
					return
				}
			}
		}
	}
	c.conv(n, v, up)
}

// kind: condition; type; span (std, typed, dec, none); fields
type c10Row struct {
	kind parser.NodeType
	cond func(parser.Node) bool
	typ  string
	span string
	flds string
}

func c10IsLog(n parser.Node) bool {
	o := c10Op(n)
	return o == parser.T_AND || o == parser.T_OR || o == parser.T_NULLISH
}

func c10F(f string) func(parser.Node) bool { return func(n parser.Node) bool { return c10Bool(n, f) } }
func c10Not(f func(parser.Node) bool) func(parser.Node) bool {
	return func(n parser.Node) bool { return !f(n) }
}
func c10Frag(n parser.Node) bool { return c10Node(n, "open.name") == nil }
func c10FnDec(n parser.Node) bool {
	return c10Ti(n) != nil && c10Node(n, "body") == nil
}
func c10IdxField(n parser.Node) bool {
	if c10Ti(n) == nil || c10Node(n, "val") != nil || !c10Bool(n, "computed") {
		return false
	}
	k := c10Node(n, "key")
	if _, ok := k.(parser.NodeWithTypInfo); !ok {
		return false
	}
	return c10Has(k, "ti") && c10Has(k, "ti.typAnnot")
}

const c10FnF = "c id id;p params params;c body body;v generator generator;v async async"
const c10ClsF = "c id id;c superClass super;c body body;T"

var c10Rows = []c10Row{
	{parser.N_STMT_EXPR, nil, "ExpressionStatement", "std", "c expression expr;D"},
	{parser.N_EXPR_NEW, nil, "NewExpression", "std", "c callee callee;l arguments args;A"},
	{parser.N_EXPR_THIS, nil, "ThisExpression", "std", ""},
	{parser.N_LIT_NULL, nil, "Literal", "std", "0 value"},
	{parser.N_LIT_BOOL, nil, "Literal", "std", "v value val"},
	{parser.N_LIT_STR, nil, "Literal", "std", "v value val;t raw"},
	{parser.N_LIT_NUM, nil, "Literal", "std", "t raw;N"},
	{parser.N_LIT_REGEXP, nil, "Literal", "std", "R"},
	{parser.N_EXPR_BIN, c10IsLog, "LogicalExpression", "std", "o;c left lhs;c right rhs"},
	{parser.N_EXPR_BIN, func(n parser.Node) bool { return c10Op(n) == parser.T_TS_AS }, "TSAsExpression", "std", "c expression lhs;c typeAnnotation rhs"},
	{parser.N_EXPR_BIN, nil, "BinaryExpression", "std", "o;c left lhs;c right rhs"},
	{parser.N_EXPR_ASSIGN, nil, "AssignmentExpression", "std", "o;c left lhs;c right rhs"},
	{parser.N_LIT_ARR, nil, "ArrayExpression", "std", "l elements elems"},
	{parser.N_LIT_OBJ, nil, "ObjectExpression", "std", "l properties props"},
	{parser.N_PROP, nil, "Property", "std", "c key key;c value value;k kind;v computed computed;v shorthand shorthand;M"},
	{parser.N_STMT_BLOCK, nil, "BlockStatement", "std", "l body body"},
	{parser.N_EXPR_FN, nil, "FunctionExpression", "std", c10FnF + ";P"},
	{parser.N_STMT_FN, c10FnDec, "TSDeclareFunction", "std", "c id id;p params params;v async async;P"},
	{parser.N_STMT_FN, nil, "FunctionDeclaration", "std", c10FnF + ";P"},
	{parser.N_EXPR_ARROW, nil, "ArrowFunctionExpression", "typed", "0 id;p params params;c body body;v async async;v expression expr;P"},
	{parser.N_EXPR_YIELD, nil, "YieldExpression", "std", "v delegate delegate;c argument arg"},
	{parser.N_STMT_RET, nil, "ReturnStatement", "std", "c argument arg"},
	{parser.N_SPREAD, nil, "SpreadElement", "std", "c argument arg"},
	{parser.N_PAT_ARRAY, nil, "ArrayPattern", "typed", "l elements elems;a"},
	{parser.N_PAT_ASSIGN, nil, "AssignmentPattern", "std", "c left lhs;c right rhs"},
	{parser.N_PAT_OBJ, nil, "ObjectPattern", "typed", "l properties props;a"},
	{parser.N_PAT_REST, nil, "RestElement", "std", "c argument arg;a"},
	{parser.N_STMT_IF, nil, "IfStatement", "std", "c test test;c consequent cons;c alternate alt"},
	{parser.N_EXPR_CALL, nil, "CallExpression", "std", "c callee callee;l arguments args;v optional optional;A"},
	{parser.N_STMT_SWITCH, nil, "SwitchStatement", "std", "c discriminant test;l cases cases"},
	{parser.N_SWITCH_CASE, nil, "SwitchCase", "std", "c test test;l consequent cons"},
	{parser.N_STMT_VAR_DEC, nil, "VariableDeclaration", "std", "K kind;l declarations decList"},
	{parser.N_VAR_DEC, nil, "VariableDeclarator", "std", "c id id;c init init"},
	{parser.N_EXPR_MEMBER, nil, "MemberExpression", "std", "c object obj;c property prop;v computed compute;v optional optional"},
	{parser.N_EXPR_SEQ, nil, "SequenceExpression", "std", "l expressions elems"},
	{parser.N_EXPR_UPDATE, nil, "UpdateExpression", "std", "o;c argument arg;v prefix prefix"},
	{parser.N_EXPR_UNARY, func(n parser.Node) bool { return c10Op(n) == parser.T_AWAIT }, "AwaitExpression", "std", "c argument arg"},
	{parser.N_EXPR_UNARY, nil, "UnaryExpression", "std", "o;c argument arg;1 prefix"},
	{parser.N_EXPR_COND, nil, "ConditionalExpression", "std", "c test test;c consequent cons;c alternate alt"},
	{parser.N_STMT_EMPTY, nil, "EmptyStatement", "std", ""},
	{parser.N_STMT_DO_WHILE, nil, "DoWhileStatement", "std", "c test test;c body body"},
	{parser.N_STMT_WHILE, nil, "WhileStatement", "std", "c test test;c body body"},
	{parser.N_STMT_FOR, nil, "ForStatement", "std", "c init init;c test test;c update update;c body body"},
	{parser.N_STMT_FOR_IN_OF, c10F("in"), "ForInStatement", "std", "c left left;c right right;c body body"},
	{parser.N_STMT_FOR_IN_OF, nil, "ForOfStatement", "std", "c left left;c right right;c body body;v await await"},
	{parser.N_STMT_CONT, nil, "ContinueStatement", "std", "c label label"},
	{parser.N_STMT_BRK, nil, "BreakStatement", "std", "c label label"},
	{parser.N_STMT_LABEL, nil, "LabeledStatement", "std", "c label label;c body body"},
	{parser.N_STMT_THROW, nil, "ThrowStatement", "std", "c argument arg"},
	{parser.N_STMT_TRY, nil, "TryStatement", "std", "c block try;c handler catch;c finalizer fin"},
	{parser.N_CATCH, nil, "CatchClause", "std", "c param param;c body body"},
	{parser.N_STMT_DEBUG, nil, "DebuggerStatement", "std", ""},
	{parser.N_STMT_WITH, nil, "WithStatement", "std", "c object expr;c body body"},
	{parser.N_IMPORT_CALL, nil, "ImportExpression", "std", "c source src"},
	{parser.N_META_PROP, nil, "MetaProperty", "std", "c meta meta;c property prop"},
	{parser.N_CLASS_BODY, nil, "ClassBody", "std", "l body elems"},
	{parser.N_SUPER, nil, "Super", "std", ""},
	{parser.N_STATIC_BLOCK, nil, "StaticBlock", "std", "l body body"},
	{parser.N_EXPR_CHAIN, nil, "ChainExpression", "std", "c expression expr"},
	{parser.N_STMT_CLASS, nil, "ClassDeclaration", "dec", c10ClsF + ";v declare declare;d"},
	{parser.N_EXPR_CLASS, nil, "ClassExpression", "std", c10ClsF},
	{parser.N_METHOD, nil, "MethodDefinition", "dec", "c key key;c value val;v computed computed;v static static;k kind;d;m val.ti"},
	{parser.N_FIELD, c10IdxField, "TSIndexSignature", "dec", "v static static;d;I"},
	{parser.N_FIELD, nil, "PropertyDefinition", "dec", "c key key;c value val;v computed computed;v static static;d;m ti;a"},
	{parser.N_STMT_IMPORT, nil, "ImportDeclaration", "std", "l specifiers specs;c source src;S importKind"},
	{parser.N_JSX_ID, nil, "JSXIdentifier", "std", "v name val"},
	{parser.N_JSX_NS, nil, "JSXNamespacedName", "std", "v namespace ns.val;v name name.val"},
	{parser.N_JSX_MEMBER, nil, "JSXMemberExpression", "std", "c object obj;c property prop"},
	{parser.N_JSX_ELEM, c10Frag, "JSXFragment", "std", "l children children;f openingFragment open JSXOpeningFragment;f closingFragment close JSXClosingFragment"},
	{parser.N_JSX_ELEM, nil, "JSXElement", "std", "c openingElement open;l children children;c closingElement close"},
	{parser.N_JSX_OPEN, nil, "JSXOpeningElement", "std", "c name name;l attributes attrs;v selfClosing closed"},
	{parser.N_JSX_CLOSE, nil, "JSXClosingElement", "std", "c name name"},
	{parser.N_JSX_TXT, nil, "JSXText", "std", "v value val;t raw"},
	{parser.N_JSX_EXPR_SPAN, nil, "JSXExpressionContainer", "std", "c expression expr"},
	{parser.N_JSX_ATTR, nil, "JSXAttribute", "std", "c name name;c value val"},
	{parser.N_JSX_ATTR_SPREAD, nil, "JSXSpreadAttribute", "std", "c argument arg"},
	{parser.N_JSX_CHILD_SPREAD, nil, "JSXSpreadChild", "std", "c expression expr"},
	{parser.N_JSX_EMPTY, nil, "JSXEmptyExpression", "std", ""},
	{parser.N_DECORATOR, nil, "Decorator", "std", "c expression expr"},

	{parser.N_TS_TYP_ANNOT, nil, "TSTypeAnnotation", "std", "c typeAnnotation tsTyp"},
	{parser.N_TS_NUM, nil, "TSNumberKeyword", "std", ""},
	{parser.N_TS_STR, nil, "TSStringKeyword", "std", ""},
	{parser.N_TS_ANY, nil, "TSAnyKeyword", "std", ""},
	{parser.N_TS_BOOL, nil, "TSBooleanKeyword", "std", ""},
	{parser.N_TS_VOID, nil, "TSVoidKeyword", "std", ""},
	{parser.N_TS_INTRINSIC, nil, "TSIntrinsicKeyword", "std", ""},
	{parser.N_TS_NEVER, nil, "TSNeverKeyword", "std", ""},
	{parser.N_TS_SYM, nil, "TSSymbolKeyword", "std", ""},
	{parser.N_TS_UNDEF, nil, "TSUndefinedKeyword", "std", ""},
	{parser.N_TS_BIGINT, nil, "TSBigIntKeyword", "std", ""},
	{parser.N_TS_NULL, nil, "TSNullKeyword", "std", ""},
	{parser.N_TS_THIS, nil, "TSThisType", "std", ""},
	{parser.N_TS_UNKNOWN, nil, "TSUnknownKeyword", "std", ""},
	{parser.N_TS_OBJ, nil, "TSObjectKeyword", "std", ""},
	{parser.N_TS_REF, nil, "TSTypeReference", "std", "c typeName name;c typeParameters args"},
	{parser.N_TS_PARAM_INST, nil, "TSTypeParameterInstantiation", "std", "l params params"},
	{parser.N_TS_PARAM_DEC, nil, "TSTypeParameterDeclaration", "std", "l params params"},
	{parser.N_TS_PARAM, nil, "TSTypeParameter", "std", "c name name;c constraint cons;c default val"},
	{parser.N_TS_ARR, nil, "TSArrayType", "std", "c elementType arg"},
	{parser.N_TS_LIT_OBJ, nil, "TSTypeLiteral", "std", "l members props"},
	{parser.N_TS_CALL_SIG, nil, "TSCallSignatureDeclaration", "std", "p params params;c typeParameters typParams;c returnType retTyp"},
	{parser.N_TS_PROP, func(n parser.Node) bool {
		v := c10Node(n, "val")
		return v != nil && v.Type() == parser.N_TS_CALL_SIG
	}, "TSMethodSignature", "std", "c key key;c value val;e computed compute;e optional ques;k kind"},
	{parser.N_TS_PROP, nil, "TSPropertySignature", "std", "c key key;c typeAnnotation val;e computed compute;e optional ques;k kind;r"},
	{parser.N_TS_TYP_PREDICATE, nil, "TSTypePredicate", "std", "c parameterName name;c typeAnnotation des;v asserts assert"},
	{parser.N_TS_TYP_ASSERT, nil, "TSTypeAssertion", "std", "c expression arg;c typeAnnotation des"},
	{parser.N_TS_NO_NULL, nil, "TSNonNullExpression", "std", "c expression arg"},
	{parser.N_TS_UNION_TYP, nil, "TSUnionType", "std", "l types elems"},
	{parser.N_TS_INTERSECT_TYP, nil, "TSIntersectionType", "std", "l types elems"},
	{parser.N_TS_NS_NAME, nil, "TSQualifiedName", "std", "c left lhs;c right rhs"},
	{parser.N_TS_DEC_VAR_DEC, nil, "VariableDeclaration", "std", "K kind inner;l declarations inner.decList;1 declare"},
	{parser.N_TS_INTERFACE, nil, "TSInterfaceDeclaration", "std", "c id name;c typeParameters params;E extends supers;c body body;F declare"},
	{parser.N_TS_DEC_INTERFACE, nil, "TSInterfaceDeclaration", "std", "c id inner.name;c typeParameters inner.params;E extends inner.supers;c body inner.body;1 declare"},
	{parser.N_TS_INTERFACE_BODY, nil, "TSInterfaceBody", "std", "l body body"},
	{parser.N_TS_ENUM, nil, "TSEnumDeclaration", "std", "c id name;v const cons;l members items;F declare"},
	{parser.N_TS_DEC_ENUM, nil, "TSEnumDeclaration", "std", "c id inner.name;v const inner.cons;l members inner.items;1 declare"},
	{parser.N_TS_ENUM_MEMBER, nil, "TSEnumMember", "std", "c id key;c initializer val"},
	{parser.N_TS_TYP_DEC, nil, "TSTypeAliasDeclaration", "std", "c id name;c typeParameters ti.typParams;c typeAnnotation ti.typAnnot;F declare"},
	{parser.N_TS_DEC_TYP_DEC, nil, "TSTypeAliasDeclaration", "std", "c id inner.name;c typeParameters inner.ti.typParams;c typeAnnotation inner.ti.typAnnot;1 declare"},
	{parser.N_TS_DEC_CLASS, nil, "ClassDeclaration", "none", "c id inner.id;c superClass inner.super;c body inner.body;1 declare;c typeParameters inner.ti.typParams;s inner"},
	{parser.N_TS_DEC_FN, nil, "TSDeclareFunction", "none", "c id inner.id;p params inner.params;v async inner.async;c body inner.body"},
	{parser.N_TS_DEC_MODULE, nil, "TSModuleDeclaration", "std", "c id name;c body inner;1 declare;F global"},
	{parser.N_TS_DEC_GLOBAL, nil, "TSModuleDeclaration", "std", "c id name;c body inner;1 declare;1 global"},
	{parser.N_TS_DEC_NS, nil, "TSModuleDeclaration", "std", "c id inner.name;c body inner.body;1 declare"},
	{parser.N_TS_NAMESPACE, nil, "TSModuleDeclaration", "std", "c id name;c body body;F declare"},
	{parser.N_TS_EXPORT_ASSIGN, nil, "TSExportAssignment", "std", "c expression expr"},
	{parser.N_TS_LIT, nil, "TSLiteralType", "std", "c literal lit"},
	{parser.N_TS_IMPORT_ALIAS, nil, "TSImportEqualsDeclaration", "std", "c id name;c moduleReference val;v isExport export"},
	{parser.N_TS_NEW_SIG, nil, "TSConstructSignatureDeclaration", "std", "p params params;c typeParameters typParams;c returnType retTyp;v abstract abstract"},
	{parser.N_TS_NEW, nil, "TSConstructorType", "std", "p params params;c typeParameters typParams;c returnType retTyp;v abstract abstract"},
	{parser.N_TS_FN_TYP, nil, "TSFunctionType", "std", "p params params;c typeParameters typParams;c returnType retTyp"},
	{parser.N_TS_IMPORT_TYP, nil, "TSImportType", "std", "c argument arg;c qualifier qualifier;c typeParameters typArgs"},
	{parser.N_TS_TYP_QUERY, nil, "TSTypeQuery", "std", "c exprName arg"},
	{parser.N_TS_COND, nil, "TSConditionalType", "std", "c checkType check;c extendsType ext;c trueType trueTyp;c falseType falseTyp"},
	{parser.N_TS_TYP_INFER, nil, "TSInferType", "std", "c typeParameter arg"},
	{parser.N_TS_PAREN, nil, "TSParenthesizedType", "std", "c typeAnnotation arg"},
	{parser.N_TS_IDX_ACCESS, nil, "TSIndexedAccessType", "std", "c objectType obj;c indexType idx"},
	{parser.N_TS_MAPPED, nil, "TSMappedType", "std", "q readonly readonly;q optional optional;c typeParameter key;c nameType name;c typeAnnotation val"},
	{parser.N_TS_TYP_OP, nil, "TSTypeOperator", "std", "v operator op;c typeAnnotation arg"},
	{parser.N_TS_TUPLE, nil, "TSTupleType", "std", "l elementTypes args"},
	{parser.N_TS_TUPLE_NAMED_MEMBER, nil, "TSNamedTupleMember", "std", "v optional opt;c label label;c elementType val"},
	{parser.N_TS_REST, nil, "TSRestType", "std", "c typeAnnotation arg"},
	{parser.N_TS_OPT, nil, "TSOptionalType", "std", "c typeAnnotation arg"},
}

func (c *c10) params(n parser.Node, v interface{}, ps parser.Node, typ string) {
	var l []parser.Node
	if ps != nil {
		l, _ = c10Nodes(ps, "params")
	}
	if len(l) == 0 {
		if v != nil {
			c.fail(n, "type parameters of nothing: %v", v)
		}
		return
	}
	o, _ := v.(c10Obj)
	if o == nil || o["type"] != typ {
		c.fail(n, "the type parameters are lost: %v", v)
		return
	}
	c.span(ps, o, int(ps.Range().Lo), int(ps.Range().Hi))
	c.list(ps, "params", o["params"], l, c.conv)
}

// the type arguments of the superclass
func c10SuperArgs(n parser.Node) (sup parser.Node) {
	if s := c10Node(n, "super"); s != nil {
		if _, ok := s.(parser.NodeWithTypInfo); ok {
			if sti := c10Ti(s); sti != nil && c10Has(sti, "clsTyp") {
				sup = c10Node(sti, "clsTyp.superTypArgs")
			}
		}
	}
	return
}

func (c *c10) fields(n parser.Node, o c10Obj, flds string) {
	ti := c10Ti(n)
	for _, f := range strings.Split(flds, ";") {
		if f == "" {
			continue
		}
		w := strings.Split(f, " ")
		switch w[0] {
		case "c": // a child
			x, ok := c10Get(n, w[2])
			if !ok {
				continue
			}
			k, _ := x.(parser.Node)
			if k == nil && x != nil {
				continue
			}
			c.conv(k, o[w[1]], n)
		case "l", "p", "E":
			x, ok := c10Nodes(n, w[2])
			if !ok {
				continue
			}
			g := c.conv
			if w[0] == "p" {
				g = c.param
			}
			if w[0] == "E" {
				g = c.super
			}
			c.list(n, w[1], o[w[1]], x, g)
		case "v":
			if x, ok := c10Get(n, w[2]); ok {
				c.val(n, o, w[1], x)
			}
		case "e": // a range which is there or not
			if x, ok := c10Get(n, w[2]); ok {
				if r, ok := x.(span.Range); ok {
					c.val(n, o, w[1], !(r.Lo == 0 && r.Hi == 0))
				}
			}
		case "q":
			if x, ok := c10Get(n, w[2]); ok {
				if i, ok := x.(int); ok && i >= 0 && i < 4 {
					c.val(n, o, w[1], []interface{}{"", true, "+", "-"}[i])
				}
			}
		case "t":
			c.val(n, o, w[1], c.text(n))
		case "0":
			if o[w[1]] != nil {
				c.fail(n, "%s is %v, not null", w[1], o[w[1]])
			}
		case "1":
			c.val(n, o, w[1], true)
		case "F":
			c.val(n, o, w[1], false)
		case "o":
			c.val(n, o, "operator", parser.TokenKinds[c10Op(n)].Name)
		case "K":
			var d interface{} = n
			if len(w) > 2 {
				d, _ = c10Get(n, w[2])
			}
			if x, ok := c10Get(d, "kind"); ok {
				if t, ok := x.(parser.TokenValue); ok {
					c.val(n, o, "kind", parser.TokenKinds[t].Name)
				}
			}
		case "k":
			if x, ok := c10Get(n, "kind"); ok {
				if t, ok := x.(parser.PropKind); ok {
					c.val(n, o, "kind", c10KindText(t))
				}
			}
		case "M":
			if x, ok := c10Get(n, "kind"); ok {
				c.val(n, o, "method", x == parser.PK_INIT && c10Bool(n, "method"))
			}
		case "S":
			c.val(n, o, w[1], c10ModKind(c10Bool(n, "tsTyp")))
		case "D":
			if c10Bool(n, "dir") {
				if x, ok := c10Get(n, "expr.val"); ok {
					c.val(n, o, "directive", x)
				}
			} else if o["directive"] != nil {
				c.fail(n, "is no directive")
			}
		case "N":
			if strings.HasSuffix(c.text(n), "n") {
				if _, ok := o["bigint"]; !ok {
					c.fail(n, "the bigint is lost")
				}
				continue
			}
			want := parser.NodeToFloat(n, c.p.Source())
			if want > 1.7976931348623157e308 {
				want = 0
			}
			c.val(n, o, "value", want)
		case "R":
			r, _ := o["regexp"].(c10Obj)
			if r == nil {
				c.fail(n, "the pattern is lost")
				continue
			}
			t := c.text(n)
			i := strings.LastIndexByte(t, '/')
			if t[0] != '/' || i <= 0 {
				continue
			}
			c.val(n, r, "pattern", t[1:i])
			c.val(n, r, "flags", t[i+1:])
		case "A":
			if ti != nil {
				c.params(n, o["typeParameters"], c10Node(ti, "typArgs"), "TSTypeParameterInstantiation")
			}
		case "P":
			if ti != nil {
				c.params(n, o["typeParameters"], c10Node(ti, "typParams"), "TSTypeParameterDeclaration")
				c.conv(c10Node(ti, "typAnnot"), o["returnType"], n)
			}
		case "a":
			if ti != nil {
				c.conv(c10Node(ti, "typAnnot"), o["typeAnnotation"], n)
				if n.Type() != parser.N_FIELD {
					if x, ok := o["optional"]; ok && n.Type() != parser.N_PAT_REST {
						q := c10Rng(ti, "ques")
						if x != !(q.Lo == 0 && q.Hi == 0) {
							c.fail(n, "optional is %v", x)
						}
					}
				}
			}
		case "d":
			c.decorators(n, o["decorators"], ti)
		case "s":
			in := c10Node(n, w[1])
			c.conv(c10SuperArgs(in), o["superTypeParameters"], n)
			if im, ok := c10Nodes(in, "ti.clsTyp.implements"); ok {
				c.list(n, "implements", o["implements"], im, c.conv)
			}
		case "T":
			c.conv(c10Node(ti, "typParams"), o["typeParameters"], n)
			sup := c10SuperArgs(n)
			c.conv(sup, o["superTypeParameters"], n)
			if ti != nil && c10Has(ti, "clsTyp") && (c10Has(ti, "typParams") || sup != nil) {
				if im, ok := c10Nodes(ti, "clsTyp.implements"); ok {
					c.list(n, "implements", o["implements"], im, c.conv)
				}
			}
			if ti != nil && c10Has(ti, "clsTyp") {
				c.val(n, o, "abstract", c10Bool(ti, "clsTyp.abstract"))
			}
		case "r":
			if x, ok := c10Get(n, "readonly"); ok {
				c.val(n, o, "readonly", x == true || c10Bool(n, "key.ti.clsTyp.readonly"))
			}
		case "m":
			x, ok := c10Get(n, w[1])
			if t, isTi := x.(*parser.TypInfo); ok && isTi && t != nil {
				e := func(f string) bool { r := c10Rng(t, f); return !(r.Lo == 0 && r.Hi == 0) }
				c.val(n, o, "optional", e("ques"))
				c.val(n, o, "definite", e("not"))
				for _, k := range []string{"abstract", "override", "readonly", "declare"} {
					if _, ok := o[k]; ok {
						c.val(n, o, k, c10Has(t, "clsTyp") && c10Bool(t, "clsTyp."+k))
					}
				}
				if c10Has(t, "clsTyp") {
					acc, _ := c10Get(t, "clsTyp.accMod")
					c.val(n, o, "accessibility", map[interface{}]string{parser.ACC_MOD_PUB: "public", parser.ACC_MOD_PRI: "private", parser.ACC_MOD_PRO: "protected", parser.ACC_MOD_NONE: ""}[acc])
				}
			}
		case "I":
			c.list(n, "parameters", o["parameters"], []parser.Node{c10Node(n, "key")}, c.conv)
			c.conv(c10Node(ti, "typAnnot"), o["typeAnnotation"], n)
		case "f":
			k := c10Node(n, w[2])
			q, _ := o[w[1]].(c10Obj)
			if k == nil {
				continue
			}
			if q == nil || q["type"] != w[3] {
				c.fail(n, "%s is %v", w[1], o[w[1]])
				continue
			}
			c.span(k, q, int(k.Range().Lo), int(k.Range().Hi))
		}
	}
}

// what an interface extends
func (c *c10) super(n parser.Node, v interface{}, up parser.Node) {
	o, _ := v.(c10Obj)
	if o == nil || o["type"] != "TSExpressionWithTypeArguments" {
		c.fail(n, "a supertype is converted to %v", v)
		return
	}
	if n.Type() == parser.N_TS_REF {
		c.conv(c10Node(n, "name"), o["expression"], n)
		c.conv(c10Node(n, "args"), o["typeParameters"], n)
	} else {
		c.conv(n, o["expression"], up)
	}
}

func (c *c10) tpl(n parser.Node, v interface{}) {
	o, _ := v.(c10Obj)
	if o == nil || o["type"] != "TemplateLiteral" {
		c.fail(n, "a template is converted to %v", v)
		return
	}
	c.span(n, o, int(n.Range().Lo), int(n.Range().Hi))
	el, ok := c10Nodes(n, "elems")
	if !ok {
		return
	}
	var qs, es []parser.Node
	for i, e := range el {
		if i%2 == 0 {
			qs = append(qs, e)
		} else {
			es = append(es, e)
		}
	}
	i := 0
	c.list(n, "quasis", o["quasis"], qs, func(q parser.Node, v interface{}, _ parser.Node) {
		i++
		e, _ := v.(c10Obj)
		if e == nil || e["type"] != "TemplateElement" {
			c.fail(q, "a string of a template is converted to %v", v)
			return
		}
		c.span(q, e, int(q.Range().Lo), int(q.Range().Hi))
		c.val(q, e, "tail", i == len(qs) && len(el)%2 == 1)
		d, _ := e["value"].(c10Obj)
		if d == nil {
			c.fail(q, "a string of a template has no value")
			return
		}
		if x, ok := c10Get(q, "val"); ok {
			c.val(q, d, "cooked", x)
		}
		c.val(q, d, "raw", c.text(q))
	})
	c.list(n, "expressions", o["expressions"], es, c.conv)
}

func (c *c10) conv(n parser.Node, v interface{}, up parser.Node) {
	if c.bad != "" {
		return
	}
	if n == nil || reflect.ValueOf(n).IsNil() {
		if v != nil {
			if up != nil {
				c.fail(up, "nothing is converted to %v", v)
			} else {
				c.bad = fmt.Sprintf("nothing is converted to %v", v)
			}
		}
		return
	}
	if n.Type() == parser.N_EXPR_PAREN {
		c.conv(c10Node(n, "expr"), v, n)
		return
	}
	o, _ := v.(c10Obj)
	if o == nil {
		c.fail(n, "is converted to %v", v)
		return
	}
	lo, hi := int(n.Range().Lo), int(n.Range().Hi)
	ti := c10Ti(n)
	switch n.Type() {
	case parser.N_NAME:
		name, _ := c10Get(n, "val")
		c.val(n, o, "name", name)
		if c10Bool(n, "pvt") {
			c.val(n, o, "type", "PrivateIdentifier")
		} else {
			c.val(n, o, "type", "Identifier")
			if ti != nil {
				lo, hi = c.typedSpan(n, ti, false)
				q := c10Rng(ti, "ques")
				c.val(n, o, "optional", !(q.Lo == 0 && q.Hi == 0))
				c.conv(c10Node(ti, "typAnnot"), o["typeAnnotation"], n)
				c.decorators(n, o["decorators"], ti)
			}
		}
		c.span(n, o, lo, hi)
		return
	case parser.N_EXPR_TPL:
		tag := c10Node(n, "tag")
		if tag == nil {
			c.tpl(n, v)
			return
		}
		c.val(n, o, "type", "TaggedTemplateExpression")
		c.span(n, o, int(tag.Range().Lo), hi)
		c.conv(tag, o["tag"], n)
		c.tpl(n, o["quasi"])
		if _, ok := tag.(parser.NodeWithTypInfo); ok && c10Ti(tag) != nil {
			c.params(n, o["typeParameters"], c10Node(c10Ti(tag), "typArgs"), "TSTypeParameterInstantiation")
		}
		return
	case parser.N_STMT_EXPORT:
		c.export(n, o)
		return
	case parser.N_IMPORT_SPEC:
		c.span(n, o, lo, hi)
		c.conv(c10Node(n, "local"), o["local"], n)
		switch {
		case c10Bool(n, "def"):
			c.val(n, o, "type", "ImportDefaultSpecifier")
		case c10Bool(n, "ns"):
			c.val(n, o, "type", "ImportNamespaceSpecifier")
		default:
			c.val(n, o, "type", "ImportSpecifier")
			c.conv(c10Node(n, "id"), o["imported"], n)
			c.val(n, o, "importKind", c10ModKind(c10Bool(n, "tsTyp")))
		}
		return
	case parser.N_EXPORT_SPEC:
		c.span(n, o, lo, hi)
		c.val(n, o, "type", "ExportSpecifier")
		c.conv(c10Node(n, "local"), o["local"], n)
		c.conv(c10Node(n, "id"), o["exported"], n)
		c.val(n, o, "exportKind", c10ModKind(c10Bool(n, "tsTyp")))
		return
	case parser.N_TS_IDX_SIG:
		c.val(n, o, "type", "TSIndexSignature")
		c.span(n, o, lo, hi)
		c.conv(c10Node(n, "val"), o["typeAnnotation"], n)
		if l, _ := o["parameters"].([]interface{}); len(l) != 1 {
			c.fail(n, "parameters are %v", o["parameters"])
		} else if p, _ := l[0].(c10Obj); p != nil {
			if k := c10Node(n, "key"); k != nil {
				if name, ok := c10Get(k, "val"); ok {
					c.val(n, p, "name", name)
				}
				if p["typeAnnotation"] == nil {
					c.fail(n, "the type of the key is lost")
				}
			}
		}
		return
	case parser.N_TS_IMPORT_REQUIRE:
		c.val(n, o, "type", "TSImportEqualsDeclaration")
		c.span(n, o, lo, hi)
		c.conv(c10Node(n, "name"), o["id"], n)
		m, _ := o["moduleReference"].(c10Obj)
		call := c10Node(n, "expr")
		if m == nil {
			c.fail(n, "the module is lost")
		} else if call != nil {
			c.val(n, m, "type", "TSExternalModuleReference")
			c.span(n, m, int(call.Range().Lo), int(call.Range().Hi))
			if as, ok := c10Nodes(call, "args"); ok && len(as) > 0 {
				c.conv(as[0], m["expression"], n)
			}
		}
		return
	}
	for _, r := range c10Rows {
		if r.kind != n.Type() || (r.cond != nil && !r.cond(n)) {
			continue
		}
		if o["type"] != r.typ {
			c.fail(n, "is converted to %v, not %s", o["type"], r.typ)
			return
		}
		switch r.span {
		case "typed":
			if ti != nil {
				lo, hi = c.typedSpan(n, ti, false)
			}
		case "dec":
			if ds, _ := c10Nodes(ti, "decorators"); len(ds) > 0 {
				lo = int(ds[0].Range().Lo)
			}
		}
		if r.span != "none" {
			c.span(n, o, lo, hi)
		}
		c.fields(n, o, r.flds)
		return
	}
	c.fail(n, "there is no rule for this kind (%d)", n.Type())
}

func (c *c10) export(n parser.Node, o c10Obj) {
	dec := c10Node(n, "dec")
	if dec != nil && dec.Type() == parser.N_TS_IMPORT_REQUIRE {
		c.conv(dec, o, n)
		c.val(n, o, "isExport", true)
		return
	}
	c.span(n, o, int(n.Range().Lo), int(n.Range().Hi))
	specs, _ := c10Nodes(n, "specs")
	def := c10Rng(n, "def")
	switch {
	case c10Bool(n, "all"):
		c.val(n, o, "type", "ExportAllDeclaration")
		c.conv(c10Node(n, "src"), o["source"], n)
		if len(specs) == 1 {
			c.conv(c10Node(specs[0], "local"), o["exported"], n)
		} else if o["exported"] != nil {
			c.fail(n, "exported is %v", o["exported"])
		}
	case !(def.Lo == 0 && def.Hi == 0):
		c.val(n, o, "type", "ExportDefaultDeclaration")
		c.conv(dec, o["declaration"], n)
	case dec != nil && dec.Type() == parser.N_TS_NAMESPACE && c10Bool(dec, "alias"):
		c.val(n, o, "type", "TSNamespaceExportDeclaration")
		c.conv(c10Node(dec, "name"), o["id"], n)
	default:
		c.val(n, o, "type", "ExportNamedDeclaration")
		c.conv(dec, o["declaration"], n)
		c.list(n, "specifiers", o["specifiers"], specs, c.conv)
		c.conv(c10Node(n, "src"), o["source"], n)
		c.val(n, o, "exportKind", c10ModKind(c10Bool(n, "tsTyp")))
	}
}

// c10Parse parses with the first set of features that accepts the text.
func c10Parse(code string, ts bool) (*parser.Prog, *parser.Parser) {
	for i := 0; i < 6; i++ {
		o := parser.NewParserOpts()
		o.Feature = o.Feature.On(parser.FEAT_JSX_NS)
		if i&1 != 0 {
			o.Feature = o.Feature.Off(parser.FEAT_MODULE).Off(parser.FEAT_STRICT)
		}
		if ts {
			o.Feature = o.Feature.On(parser.FEAT_TS)
			switch i / 2 {
			case 1:
				o.Feature = o.Feature.Off(parser.FEAT_JSX)
			case 2:
				o.Feature = o.Feature.On(parser.FEAT_DTS)
			}
		} else if i > 1 {
			break
		}
		p := parser.NewParser(span.NewSource("", code), o)
		ast, err := p.Prog()
		if err == nil {
			if g, ok := ast.(*parser.Prog); ok {
				return g, p
			}
		}
	}
	return nil, nil
}

func TestVerifC10(t *testing.T) {
	v := vNew(t, "C10")
	defer v.done()
	one := func(code string, ts, lineCol bool) {
		ast, p := c10Parse(code, ts)
		if ast == nil {
			return
		}
		v.check("convert", code, func() string {
			ctx := NewConvertCtx(p)
			ctx.LineCol = lineCol
			scope := ctx.Scope
			b, err := json.Marshal(ConvertProg(ast, ctx))
			if err != nil {
				return "the result cannot be written as JSON: " + err.Error()
			}
			if ctx.Scope != scope {
				return "the scope of the conversion is not left"
			}
			var o c10Obj
			json.Unmarshal(b, &o)
			c := &c10{code: code, p: p, lineCol: lineCol}
			c.prepare()
			c.val(ast, o, "type", "Program")
			c.span(ast, o, int(ast.Range().Lo), int(ast.Range().Hi))
			stmts, ok := c10Nodes(ast, "stmts")
			if ok {
				c.list(ast, "body", o["body"], stmts, c.conv)
			}
			return c.bad
		})
	}
	for _, ts := range []bool{false, true} {
		l := append(append([]string{}, c10Fixed...), c10FixedMore...)
		if ts {
			l = append(append([]string{}, c10FixedTs...), c10FixedTsMore...)
		}
		for _, s := range l {
			one(s, ts, true)
			one(s, ts, false)
			for _, part := range strings.Split(s, ";") {
				one("\n "+part, ts, true)
			}
		}
	}
	r := vRand()
	for i := 0; i < vPick(3000, 30000) && v.more(); i++ {
		g := &c10Gen{r: r}
		code := g.stmts(2 + r.Intn(3))
		one(code, r.Intn(6) == 0, r.Intn(8) != 0)
	}
	for i := 0; i < vPick(12000, 100000) && v.more(); i++ {
		g := &c10Gen{r: r}
		one(g.pick("", "\n", "é;")+g.ts(r.Intn(4)), true, r.Intn(8) != 0)
	}
}
