package main

// Contract language: lexer, parser and syntax tree.
//
// The language is Gobra-like: requires / ensures / modifies / invariant /
// decreases clauses attached to functions and loops of the real code.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- expressions

type Expr struct {
	Op   string // ident int str char bin un call sel index slice old quant typeassert type float
	Name string // identifier, operator, selector
	Int  string
	Kids []*Expr
	Vars []Binding
	Trig [][]*Expr
	Typ  *TypeExpr
	Pos  string
}

type Binding struct {
	Name string
	Typ  *TypeExpr
}

type TypeExpr struct {
	Kind string // name ptr slice map array
	Name string // possibly pkg.Name
	Elem *TypeExpr
	Key  *TypeExpr
	N    int
	Args []*TypeExpr // type arguments
}

func (t *TypeExpr) String() string {
	switch t.Kind {
	case "ptr":
		return "*" + t.Elem.String()
	case "slice":
		return "[]" + t.Elem.String()
	case "map":
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	}
	return t.Name
}

func (e *Expr) String() string {
	switch e.Op {
	case "ident":
		return e.Name
	case "int":
		return e.Int
	case "str":
		return strconv.Quote(e.Name)
	case "bin":
		return "(" + e.Kids[0].String() + " " + e.Name + " " + e.Kids[1].String() + ")"
	case "un":
		return e.Name + e.Kids[0].String()
	case "call":
		a := []string{}
		for _, k := range e.Kids[1:] {
			a = append(a, k.String())
		}
		return e.Kids[0].String() + "(" + strings.Join(a, ", ") + ")"
	case "sel":
		return e.Kids[0].String() + "." + e.Name
	case "index":
		return e.Kids[0].String() + "[" + e.Kids[1].String() + "]"
	case "slice":
		return e.Kids[0].String() + "[..]"
	case "old":
		return "old(" + e.Kids[0].String() + ")"
	case "quant":
		v := []string{}
		for _, b := range e.Vars {
			v = append(v, b.Name+" "+b.Typ.String())
		}
		return e.Name + " " + strings.Join(v, ", ") + " :: " + e.Kids[0].String()
	case "typeassert":
		return e.Kids[0].String() + ".(" + e.Typ.String() + ")"
	case "type":
		return "type(" + e.Typ.String() + ")"
	}
	return "?" + e.Op
}

// ---------------------------------------------------------------- contracts

type Clause struct {
	Label string
	E     *Expr
	Pos   string
	Props []string // empty: every property of the function
}

type LoopSpec struct {
	Index int
	Inv   []*Clause
	Dec   []*Expr
	Lets  []LetDef
}

type LetDef struct {
	Name string
	E    *Expr
}

type ModItem struct {
	Kind string // sel star elems map ghost everything field mapelems
	E    *Expr
	Name string
	Typ  *TypeExpr
}

type Contract struct {
	Pkg      string
	Name     string // pkg-relative: Type.Method or Func
	Params   []string
	Results  []string
	Requires []*Clause
	Assumes  []*Clause // assumed of the body, not asked of callers; reported as an assumption
	Ensures  []*Clause
	Proves   []*Clause // proved at the returns, not needed (and not assumed) at calls
	Names    []*Clause // definitional: a result gets a name (assumed at calls, nothing to prove)
	Modifies []ModItem
	Loops    []*LoopSpec
	Lets     []LetDef
	GhostUpd []GhostUpd
	Props    []string
	Trusted  bool   // contract assumed, body not verified (extern or interface/callback)
	Kind     string // func, extern, iface, callback
	Pure     bool
	NoPanic  bool
	MayPanic *Expr // nil: must never panic
	Inline   bool
	Reveal   []string // abbreviations expanded
	Pos      string
	Timeout  int
	Note     string
	Decr     *Expr
	Decl     string
	Split    bool
	Fresh    bool
	Unroll   int
	UseLemma []string
	Coarse   bool     // calls havoc whole heaps where this contract lets the whole heap change
	Tables   []string // package tables whose contents the proof may use
	Strings  bool
	// functions of the entry state, local to one instance of the contract,
	// and the equations that define them (assumed in the entry state)
	LocalFuns []*FunDecl
	Where     []*Clause
}

type GhostUpd struct {
	Name string
	E    *Expr
}

type FunDecl struct {
	Name   string
	Params []*TypeExpr
	Result *TypeExpr
	Pkg    string // package in which the types are read
}

type DefDecl struct {
	Name   string
	Pkg    string
	Params []Binding
	Body   *Expr
}

type AxiomDecl struct {
	Name string
	Kind string // def (conservative definition), hidden (one that is used on demand), kind (trusted, on demand), trusted (assumption about an external), lemma (proved)
	E    *Expr
	Pkg  string
	Pos  string
}

type GhostDecl struct {
	Name string
	Typ  *TypeExpr
}

type SpecSet struct {
	Contracts      map[string]*Contract // key "pkg.Type.Method"
	Funs           map[string]*FunDecl
	Defs           map[string]*DefDecl
	Axioms         []*AxiomDecl
	Ghosts         map[string]*GhostDecl
	BVTypes        map[string]bool
	Sorts          map[string]bool
	Consts         map[string]string
	Datatypes      []string
	Immutable      map[string]bool // globals whose initial value is taken as is
	Order          []string
	FunSpecsInFile map[string][]string
	TypeInv        []*TypeInv
}

type TypeInv struct {
	Typ  *TypeExpr
	Var  string
	E    *Expr
	Pkg  string
	Name string
}

func NewSpecSet() *SpecSet {
	return &SpecSet{Contracts: map[string]*Contract{}, Funs: map[string]*FunDecl{}, Defs: map[string]*DefDecl{},
		Ghosts: map[string]*GhostDecl{}, BVTypes: map[string]bool{}, Sorts: map[string]bool{}, Consts: map[string]string{}, Immutable: map[string]bool{}}
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k    string // id int str char op nl eof
	s    string
	line int
}

type sparser struct {
	file string
	toks []tok
	i    int
	set  *SpecSet
	pkg  string
}

type specErr struct{ msg string }

func (p *sparser) fail(f string, a ...interface{}) {
	t := p.peek()
	panic(specErr{fmt.Sprintf("%s:%d: %s (at %q)", p.file, t.line, fmt.Sprintf(f, a...), t.s)})
}

func lexSpec(src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "&^", "::", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", ":="}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			i++
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' {
			i++
			continue
		}
		if c == '/' && i+1 < len(src) && src[i+1] == '/' {
			// a comment; "//@" introduces contract text and is skipped as a marker only
			if i+2 < len(src) && src[i+2] == '@' {
				i += 3
				continue
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_') {
				j++
			}
			n, err := strconv.ParseInt(src[i:j], 0, 64)
			if err != nil {
				u, err2 := strconv.ParseUint(src[i:j], 0, 64)
				if err2 != nil {
					panic(specErr{fmt.Sprintf("line %d: bad number %s", line, src[i:j])})
				}
				out = append(out, tok{"int", strconv.FormatUint(u, 10), line})
			} else {
				out = append(out, tok{"int", strconv.FormatInt(n, 10), line})
			}
			i = j
			continue
		}
		if c == '"' || c == '`' {
			j := i + 1
			for j < len(src) && src[j] != c {
				if c == '"' && src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(specErr{fmt.Sprintf("line %d: bad string", line)})
			}
			out = append(out, tok{"str", s, line})
			line += strings.Count(src[i:j+1], "\n")
			i = j + 1
			continue
		}
		if c == '\'' {
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(specErr{fmt.Sprintf("line %d: bad char", line)})
			}
			out = append(out, tok{"int", strconv.Itoa(int(r)), line})
			i = j + 1
			continue
		}
		matched := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, line})
				i += len(o)
				matched = true
				break
			}
		}
		if matched {
			continue
		}
		out = append(out, tok{"op", string(c), line})
		i++
	}
	out = append(out, tok{"eof", "", line})
	return out
}

func (p *sparser) peek() tok { return p.toks[p.i] }
func (p *sparser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *sparser) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line) }

func (p *sparser) typ() *TypeExpr {
	if p.accept("*") {
		return &TypeExpr{Kind: "ptr", Elem: p.typ()}
	}
	if p.accept("[") {
		if p.peek().k == "int" {
			n, _ := strconv.Atoi(p.next().s)
			p.expect("]")
			return &TypeExpr{Kind: "array", N: n, Elem: p.typ()}
		}
		p.expect("]")
		return &TypeExpr{Kind: "slice", Elem: p.typ()}
	}
	if p.accept("map") {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Kind: "map", Key: k, Elem: p.typ()}
	}
	if p.accept("interface") {
		p.expect("{")
		p.expect("}")
		return &TypeExpr{Kind: "name", Name: "any"}
	}
	n := p.ident()
	for p.is(".") {
		p.next()
		n += "." + p.ident()
	}
	t := &TypeExpr{Kind: "name", Name: n}
	if p.accept("[") {
		for {
			t.Args = append(t.Args, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	return t
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "|": 6, "^": 6,
	"*": 7, "/": 7, "%": 7, "&": 7, "<<": 7, ">>": 7, "&^": 7,
}

func (p *sparser) expr() *Expr { return p.binary(1) }

func (p *sparser) binary(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		pos := p.pos()
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.binary(nm)
		l = &Expr{Op: "bin", Name: t.s, Kids: []*Expr{l, r}, Pos: pos}
	}
}

func (p *sparser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "^" || t.s == "*") {
		pos := p.pos()
		p.next()
		return &Expr{Op: "un", Name: t.s, Kids: []*Expr{p.unary()}, Pos: pos}
	}
	return p.postfix(p.primary())
}

func (p *sparser) primary() *Expr {
	pos := p.pos()
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Int: t.s, Pos: pos}
	case "str":
		return &Expr{Op: "str", Name: t.s, Pos: pos}
	case "id":
		switch t.s {
		case "forall", "exists":
			q := &Expr{Op: "quant", Name: t.s, Pos: pos}
			for {
				n := p.ident()
				q.Vars = append(q.Vars, Binding{n, p.typ()})
				if !p.accept(",") {
					break
				}
			}
			p.expect("::")
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				q.Trig = append(q.Trig, tr)
			}
			q.Kids = []*Expr{p.expr()}
			return q
		case "old":
			p.expect("(")
			e := p.expr()
			p.expect(")")
			return &Expr{Op: "old", Kids: []*Expr{e}, Pos: pos}
		case "type":
			p.expect("(")
			ty := p.typ()
			p.expect(")")
			return &Expr{Op: "type", Typ: ty, Pos: pos}
		}
		return &Expr{Op: "ident", Name: t.s, Pos: pos}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	p.i--
	p.fail("unexpected token")
	return nil
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		pos := p.pos()
		switch {
		case p.is("."):
			p.next()
			if p.accept("(") {
				ty := p.typ()
				p.expect(")")
				e = &Expr{Op: "typeassert", Typ: ty, Kids: []*Expr{e}, Pos: pos}
				continue
			}
			e = &Expr{Op: "sel", Name: p.ident(), Kids: []*Expr{e}, Pos: pos}
		case p.is("("):
			p.next()
			c := &Expr{Op: "call", Kids: []*Expr{e}, Pos: pos}
			for !p.is(")") {
				c.Kids = append(c.Kids, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.is("["):
			p.next()
			var lo *Expr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Kids: []*Expr{e, lo, hi}, Pos: pos}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Kids: []*Expr{e, lo}, Pos: pos}
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------- file level

func (p *sparser) nameList() []string {
	var out []string
	p.expect("(")
	for !p.is(")") {
		out = append(out, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

func (p *sparser) dotted() string {
	n := p.ident()
	for p.is(".") || p.is("/") {
		o := p.next().s
		n += o + p.ident()
	}
	return n
}

func (p *sparser) props() []string {
	var out []string
	for p.peek().k == "id" {
		out = append(out, p.ident())
		if !p.accept(",") {
			break
		}
	}
	return out
}

func (p *sparser) clause() *Clause {
	c := &Clause{Pos: p.pos()}
	if p.peek().k == "str" && p.toks[p.i+1].s == ":" {
		c.Label = p.next().s
		p.next()
	}
	if p.is("[") {
		p.next()
		c.Props = p.props()
		p.expect("]")
	}
	c.E = p.expr()
	return c
}

var modsets = map[string][]ModItem{}

func (p *sparser) modItem() ModItem {
	switch {
	case p.accept("everything"):
		return ModItem{Kind: "everything"}
	case p.accept("nothing"):
		return ModItem{Kind: "nothing"}
	case p.accept("ghost"):
		return ModItem{Kind: "ghost", Name: p.ident()}
	case p.accept("elems"):
		p.expect("(")
		e := p.expr()
		p.expect(")")
		return ModItem{Kind: "elems", E: e}
	case p.accept("deref"):
		p.expect("(")
		e := p.expr()
		p.expect(")")
		return ModItem{Kind: "deref", E: e}
	case p.accept("mapof"):
		p.expect("(")
		e := p.expr()
		p.expect(")")
		return ModItem{Kind: "map", E: e}
	case p.accept("anymap"):
		p.expect("(")
		t := p.typ()
		p.expect(")")
		return ModItem{Kind: "anymap", Typ: t}
	case p.accept("anyelems"):
		p.expect("(")
		t := p.typ()
		p.expect(")")
		return ModItem{Kind: "anyelems", Typ: t}
	case p.accept("field"):
		p.expect("(")
		t := p.typ()
		p.expect(",")
		n := p.ident()
		p.expect(")")
		return ModItem{Kind: "field", Typ: t, Name: n}
	}
	e := p.unaryNoStar()
	if e.Op == "sel" {
		return ModItem{Kind: "sel", E: e.Kids[0], Name: e.Name}
	}
	p.fail("bad modifies item")
	return ModItem{}
}

func (p *sparser) unaryNoStar() *Expr { return p.postfix(p.primary()) }

func parseSpecFile(file string, set *SpecSet) (err error) {
	b, e := os.ReadFile(file)
	if e != nil {
		return e
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", file, se.msg)
				return
			}
			panic(r)
		}
	}()
	p := &sparser{file: file, toks: lexSpec(string(b)), set: set}
	for p.peek().k != "eof" {
		t := p.next()
		switch t.s {
		case "package":
			p.pkg = p.ident()
		case "modset":
			// a named list of modifies items; the names in it are resolved where it is used
			n := p.ident()
			p.expect("=")
			var ms []ModItem
			for {
				ms = append(ms, p.modItem())
				if !p.accept(",") {
					break
				}
			}
			modsets[n] = ms
		case "bvtype":
			set.BVTypes[p.qual(p.dotted())] = true
		case "sort":
			set.Sorts[p.ident()] = true
		case "immutable":
			set.Immutable[p.qual(p.dotted())] = true
		case "ghost":
			n := p.ident()
			set.Ghosts[n] = &GhostDecl{n, p.typ()}
		case "fun":
			f := &FunDecl{Name: p.ident(), Pkg: p.pkg}
			p.expect("(")
			for !p.is(")") {
				f.Params = append(f.Params, p.typ())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			f.Result = p.typ()
			set.Funs[f.Name] = f
		case "def":
			d := &DefDecl{Name: p.ident(), Pkg: p.pkg}
			p.expect("(")
			for !p.is(")") {
				n := p.ident()
				d.Params = append(d.Params, Binding{n, p.typ()})
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			p.expect("=")
			d.Body = p.expr()
			set.Defs[d.Name] = d
		case "axiom", "lemma":
			a := &AxiomDecl{Pkg: p.pkg, Pos: p.pos()}
			if t.s == "lemma" {
				a.Kind = "lemma"
			} else {
				a.Kind = p.ident()
				if a.Kind != "def" && a.Kind != "trusted" && a.Kind != "hidden" && a.Kind != "kind" {
					p.fail("axiom kind must be def, hidden, kind or trusted")
				}
			}
			a.Name = p.ident()
			p.expect("=")
			a.E = p.expr()
			set.Axioms = append(set.Axioms, a)
		case "typeinv":
			ti := &TypeInv{Pkg: p.pkg, Name: p.ident()}
			p.expect("(")
			ti.Var = p.ident()
			ti.Typ = p.typ()
			p.expect(")")
			p.expect("=")
			ti.E = p.expr()
			set.TypeInv = append(set.TypeInv, ti)
		case "func", "extern", "iface", "callback":
			c := &Contract{Pkg: p.pkg, Kind: t.s, Pos: p.pos()}
			c.Name = p.dotted()
			c.Params = p.nameList()
			if p.is("(") {
				c.Results = p.nameList()
			}
			c.Trusted = t.s != "func"
			p.contractBody(c)
			key := p.pkg + "." + c.Name
			if t.s == "extern" {
				key = c.Name
			}
			if set.Contracts[key] != nil {
				p.fail("duplicate contract %s", key)
			}
			set.Contracts[key] = c
			set.Order = append(set.Order, key)
		default:
			p.i--
			p.fail("unexpected declaration")
		}
	}
	return nil
}

func (p *sparser) qual(n string) string {
	if strings.Contains(n, ".") {
		return n
	}
	return p.pkg + "." + n
}

func (p *sparser) contractBody(c *Contract) {
	var loop *LoopSpec
	for {
		t := p.peek()
		if t.k != "id" {
			return
		}
		switch t.s {
		case "requires":
			p.next()
			c.Requires = append(c.Requires, p.clause())
		case "assumes":
			p.next()
			c.Assumes = append(c.Assumes, p.clause())
		case "ensures":
			p.next()
			c.Ensures = append(c.Ensures, p.clause())
		case "proves":
			p.next()
			c.Proves = append(c.Proves, p.clause())
		case "names":
			p.next()
			c.Names = append(c.Names, p.clause())
		case "modifies":
			p.next()
			for {
				if p.accept("*") {
					n := p.ident()
					ms, ok := modsets[n]
					if !ok {
						p.fail("unknown modset %s", n)
					}
					c.Modifies = append(c.Modifies, ms...)
				} else {
					c.Modifies = append(c.Modifies, p.modItem())
				}
				if !p.accept(",") {
					break
				}
			}
		case "property":
			p.next()
			c.Props = append(c.Props, p.props()...)
		case "trusted":
			p.next()
			c.Trusted = true
		case "inline":
			p.next()
			c.Inline = true
		case "split":
			p.next()
			c.Split = true
		case "maypanic":
			p.next()
			c.MayPanic = p.expr()
		case "timeout":
			p.next()
			n, _ := strconv.Atoi(p.next().s)
			c.Timeout = n
		case "unroll":
			p.next()
			n, _ := strconv.Atoi(p.next().s)
			c.Unroll = n
		case "note":
			p.next()
			c.Note = p.next().s
		case "uses":
			p.next()
			c.UseLemma = append(c.UseLemma, p.props()...)
		case "coarse":
			p.next()
			c.Coarse = true
		case "table":
			p.next()
			c.Tables = append(c.Tables, p.ident())
		case "pure":
			p.next()
			c.Pure = true
		case "loop":
			p.next()
			n, _ := strconv.Atoi(p.next().s)
			loop = &LoopSpec{Index: n}
			c.Loops = append(c.Loops, loop)
		case "invariant":
			p.next()
			cl := p.clause()
			if loop == nil {
				p.fail("invariant outside loop")
			}
			loop.Inv = append(loop.Inv, cl)
		case "decreases":
			p.next()
			if loop == nil {
				c.Decr = p.expr()
				continue
			}
			for {
				loop.Dec = append(loop.Dec, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "given":
			p.next()
			f := &FunDecl{Name: p.ident(), Pkg: p.pkg}
			p.expect("(")
			for !p.is(")") {
				f.Params = append(f.Params, p.typ())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			f.Result = p.typ()
			c.LocalFuns = append(c.LocalFuns, f)
		case "where":
			p.next()
			c.Where = append(c.Where, p.clause())
		case "let":
			p.next()
			n := p.ident()
			p.expect("=")
			d := LetDef{n, p.expr()}
			if loop != nil {
				loop.Lets = append(loop.Lets, d)
			} else {
				c.Lets = append(c.Lets, d)
			}
		default:
			return
		}
	}
}

func loadSpecs(dir string) (*SpecSet, error) {
	set := NewSpecSet()
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := parseSpecFile(f, set); err != nil {
			return nil, err
		}
	}
	return set, nil
}
