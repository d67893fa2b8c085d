package main

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

const preludeCore = `
(declare-datatypes ((Ref 0)) (((nil) (obj (oid Int)) (fld (fid Int) (fbase Ref)) (elem (ebase Ref) (eidx Int)))))
(declare-sort Str 0)
(declare-sort TPar 0)
(declare-const tpzero TPar)
(declare-datatypes ((Pay 0)) (((pref (pr Ref)) (pint (pi Int)) (pstr (ps Str)) (pbool (pb Bool)) (pflt (pf (_ FloatingPoint 11 53))))))
(declare-datatypes ((Iface 0)) (((inil) (imk (itag Int) (ipay Pay)))))
(declare-fun rootid (Ref) Int)
(assert (= (rootid nil) (- 1000000)))
(assert (forall ((i Int)) (! (= (rootid (obj i)) i) :pattern ((obj i)))))
(assert (forall ((f Int) (b Ref)) (! (= (rootid (fld f b)) (rootid b)) :pattern ((fld f b)))))
(assert (forall ((a Ref) (i Int)) (! (= (rootid (elem a i)) (rootid a)) :pattern ((elem a i)))))
(declare-fun implements (Int Int) Bool)
(declare-fun ix (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (= (ix a b) (+ a b)) :pattern ((ix a b)))))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun tmod ((a Int) (b Int)) Int (- a (* b (tdiv a b))))
`

// each group is included only when one of its symbols is used
var preludeGroups = []struct{ sym, text string }{
	{"slen|sat|ssub|scat|drune|dsize|nrunes|str!|runestr|slt", `
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(assert (forall ((s Str)) (! (<= 0 (slen s) 1099511627776) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (<= 0 (sat s i) 255) :pattern ((sat s i)))))
`},
	{"slt", `(declare-fun slt (Str Str) Bool)
(assert (forall ((a Str) (b Str)) (! (=> (slt a b) (not (slt b a))) :pattern ((slt a b)))))
(assert (forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a)))))
`},
	{"ssub", `
(declare-fun ssub (Str Int Int) Str)
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((s Str) (j Int)) (! (=> (= j (slen s)) (= (ssub s 0 j) s)) :pattern ((ssub s 0 j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (ssub (ssub s i j) k l) (ssub s (+ i k) (+ i l)))) :pattern ((ssub (ssub s i j) k l)))))
`},
	{"scat", `
(declare-fun scat (Str Str) Str)
(assert (forall ((s Str) (t Str)) (! (= (slen (scat s t)) (+ (slen s) (slen t))) :pattern ((scat s t)))))
(assert (forall ((s Str) (t Str) (i Int)) (! (= (sat (scat s t) i) (ite (< i (slen s)) (sat s i) (sat t (- i (slen s))))) :pattern ((sat (scat s t) i)))))
(assert (forall ((s Str) (t Str)) (! (=> (= (slen t) 0) (= (scat s t) s)) :pattern ((scat s t)))))
(assert (forall ((s Str) (t Str)) (! (=> (= (slen s) 0) (= (scat s t) t)) :pattern ((scat s t)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
`},
	{"drune|dsize", `
(declare-fun drune (Str Int) Int)
(declare-fun dsize (Str Int) Int)
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (and (<= 1 (dsize s i) 4) (<= (+ i (dsize s i)) (slen s)))) :pattern ((dsize s i)))))
(assert (forall ((s Str) (i Int)) (! (=> (>= i (slen s)) (and (= (dsize s i) 0) (= (drune s i) 65533))) :pattern ((dsize s i)) :pattern ((drune s i)))))
(assert (forall ((s Str) (i Int)) (! (<= 0 (drune s i) 1114111) :pattern ((drune s i)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (ite (< (sat s i) 128) (and (= (drune s i) (sat s i)) (= (dsize s i) 1)) (>= (drune s i) 128))) :pattern ((drune s i)) :pattern ((dsize s i)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s)) (= (drune s i) 65533)) (or (= (dsize s i) 1) (= (dsize s i) 3))) :pattern ((drune s i)))))
`},
	{"+drune&ssub", `
(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (= b (slen s)) (<= 0 a) (<= a b) (<= 0 i)) (= (drune (ssub s a b) i) (drune s (+ a i)))) :pattern ((drune (ssub s a b) i)))))
(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (= b (slen s)) (<= 0 a) (<= a b) (<= 0 i)) (= (dsize (ssub s a b) i) (dsize s (+ a i)))) :pattern ((dsize (ssub s a b) i)))))
`},
	{"nrunes", `
(declare-fun nrunes (Str) Int)
(assert (forall ((s Str)) (! (<= 0 (nrunes s) (slen s)) :pattern ((nrunes s)))))
(assert (forall ((s Str)) (! (= (= (nrunes s) 0) (= (slen s) 0)) :pattern ((nrunes s)))))
`},
	{"runeat", "(declare-fun runeat (Str Int) Int)\n"},
	{"runestr", `(declare-fun runestr (Int) Str)
(assert (forall ((c Int)) (! (<= 1 (slen (runestr c)) 4) :pattern ((runestr c)))))
(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (and (= (slen (runestr c)) 1) (= (sat (runestr c) 0) c))) :pattern ((runestr c)))))
(assert (forall ((c Int) (d Int)) (! (=> (and (<= 0 c 55295) (<= 0 d 55295) (= (runestr c) (runestr d))) (= c d)) :pattern ((runestr c) (runestr d)))))
`},
	{"runes2str|runeseq", "(declare-sort RSeq 0)\n(declare-fun runeseq ((Array Ref Int) Ref Int Int) RSeq)\n(declare-fun runes2str (RSeq) Str)\n"},
	{"ibitand", "(declare-fun ibitand (Int Int) Int)\n(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (<= 0 (ibitand a b)) (<= (ibitand a b) a) (<= (ibitand a b) b))) :pattern ((ibitand a b)))))\n"},
	{"ibitor", "(declare-fun ibitor (Int Int) Int)\n(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (>= b 0)) (and (>= (ibitor a b) a) (>= (ibitor a b) b) (<= (ibitor a b) (+ a b)))) :pattern ((ibitor a b)))))\n(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (<= 0 b 15) (= (mod a 16) 0)) (= (ibitor a b) (+ a b))) :pattern ((ibitor a b)))))\n(assert (forall ((a Int) (b Int)) (! (=> (and (>= a 0) (<= 0 b 7) (= (mod a 8) 0)) (= (ibitor a b) (+ a b))) :pattern ((ibitor a b)))))\n"},
	{"ibitxor", "(declare-fun ibitxor (Int Int) Int)\n"},
	{"pow2", "(declare-fun pow2 (Int) Int)\n(assert (= (pow2 0) 1))\n(assert (forall ((n Int)) (! (=> (> n 0) (= (pow2 n) (* 2 (pow2 (- n 1))))) :pattern ((pow2 n)))))\n(assert (forall ((n Int)) (! (=> (>= n 0) (>= (pow2 n) 1)) :pattern ((pow2 n)))))\n"},
	{"flt2int|int2flt", `(declare-fun flt2int ((_ FloatingPoint 11 53)) Int)
(declare-fun int2flt (Int) (_ FloatingPoint 11 53))
(assert (forall ((p (_ FloatingPoint 11 53)) (n Int)) (! (=> (and (<= 0 n 9007199254740992) (fp.leq (_ +zero 11 53) p) (fp.lt p (int2flt n)) (fp.eq p (fp.roundToIntegral RTZ p))) (and (<= 0 (flt2int p)) (< (flt2int p) n) (fp.eq (int2flt (flt2int p)) p))) :pattern ((flt2int p) (int2flt n)))))
(assert (forall ((n Int)) (! (=> (<= 0 n 9007199254740992) (= (flt2int (int2flt n)) n)) :pattern ((int2flt n)))))
(assert (forall ((n Int)) (! (=> (<= 0 n) (fp.leq (_ +zero 11 53) (int2flt n))) :pattern ((int2flt n)))))
(assert (forall ((p (_ FloatingPoint 11 53)) (n Int)) (! (=> (and (<= 0 n 9007199254740992) (fp.eq p (int2flt n))) (and (= (flt2int p) n) (fp.eq p (fp.roundToIntegral RTZ p)))) :pattern ((flt2int p) (int2flt n)))))
(assert (forall ((m Int) (n Int)) (! (=> (and (<= 0 m 9007199254740992) (<= 0 n 9007199254740992)) (= (fp.lt (int2flt m) (int2flt n)) (< m n))) :pattern ((int2flt m) (int2flt n)))))
`},
}

type VC struct {
	o    *Obligation
	text string
}

// ancestors of a virtual block
func (e *Enc) ancestors(vb int) map[int]bool {
	seen := map[int]bool{vb: true}
	stack := []int{vb}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, p := range e.vbPar[x] {
			if !seen[p] {
				seen[p] = true
				stack = append(stack, p)
			}
		}
	}
	return seen
}

func symbols(s string, out map[string]bool) {
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '(' || c == ')' || c == ' ' || c == '\n' {
			i++
			continue
		}
		j := i
		for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
			j++
		}
		out[s[i:j]] = true
		i = j
	}
}

type axiomTerm struct {
	name, term, kind string
	funs             map[string]bool
}

// axiomTerms evaluates the declared axioms once per encoder.
func (e *Enc) axiomTerms() []axiomTerm {
	var out []axiomTerm
	st := &State{vb: 0, reach: "true", heap: map[string]string{}}
	for _, a := range e.specs.Axioms {
		if a.Kind == "lemma" || a.Kind == "hidden" || a.Kind == "kind" {
			use := false
			for _, u := range e.con.UseLemma {
				if u == a.Name || u == a.Kind {
					use = true
				}
			}
			if !use {
				continue
			}
		}
		c := &sctx{e: e, st: st, env: map[string]Val{}, pkg: a.Pkg}
		save := e.usedFuns
		e.usedFuns = map[string]bool{}
		t := c.boolean(a.E)
		fs := e.usedFuns
		e.usedFuns = save
		out = append(out, axiomTerm{a.Name, t, a.Kind, fs})
	}
	return out
}

func (e *Enc) buildVC(o *Obligation, axs []axiomTerm, negate bool) string {
	anc := e.ancestors(o.vb)
	var body []string
	for i := 0; i < o.nfacts; i++ {
		if anc[e.facts[i].vb] {
			body = append(body, e.facts[i].term)
		}
	}
	goal := and(o.reach, not(o.goal))
	return e.assemble(body, goal, axs)
}

func (e *Enc) assemble(body []string, goal string, axs []axiomTerm) string {
	syms := map[string]bool{}
	for _, b := range body {
		symbols(b, syms)
	}
	symbols(goal, syms)
	// axioms reachable through shared uninterpreted functions
	incl := make([]bool, len(axs))
	for changed := true; changed; {
		changed = false
		for i, a := range axs {
			if incl[i] {
				continue
			}
			use := len(a.funs) == 0
			for f := range a.funs {
				if syms["f."+f] || syms["f."+f+".0"] {
					use = true
				}
			}
			if use {
				incl[i] = true
				changed = true
				symbols(a.term, syms)
				if a.kind == "trusted" || a.kind == "kind" {
					e.trusted["axiom "+a.name] = true
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString(preludeCore)
	for _, n := range sortedKeys(e.specs.Sorts) {
		b.WriteString("(declare-sort " + n + " 0)\n")
	}
	// string literals actually used
	var lits []string
	for _, l := range e.litOrder {
		if syms[e.strLits[l]] {
			lits = append(lits, l)
		}
	}
	if len(lits) > 0 {
		syms["slen"] = true
	}
	for _, g := range preludeGroups {
		if strings.HasPrefix(g.sym, "+") {
			all := true
			for _, s := range strings.Split(g.sym[1:], "&") {
				if !hasSym(syms, s) {
					all = false
				}
			}
			if all {
				b.WriteString(g.text)
			}
			continue
		}
		for _, s := range strings.Split(g.sym, "|") {
			if hasSym(syms, s) {
				b.WriteString(g.text)
				break
			}
		}
	}
	for s := range e.specs.Sorts {
		b.WriteString("")
		_ = s
	}
	for _, d := range e.specs.Datatypes {
		b.WriteString(d + "\n")
	}
	for _, l := range lits {
		n := e.strLits[l]
		fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(l))
		for i := 0; i < len(l) && i < 40; i++ {
			fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", n, i, l[i])
		}
		if l == "" {
			fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", n)
		}
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range lits {
			b.WriteString(" " + e.strLits[l])
		}
		b.WriteString("))\n")
	}
	for _, d := range e.decls {
		f := strings.Fields(d)
		if syms[f[1]] {
			b.WriteString(d + "\n")
		}
	}
	// interface implementation facts for the concrete types mentioned
	var ks []string
	for k := range e.ifaces {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		it := e.ifaces[k].Underlying().(*types.Interface)
		for i, t := range e.tagTyps {
			v := types.Implements(t, it)
			fmt.Fprintf(&b, "(assert (= (implements %d %d) %v))\n", i+1, e.fids[k], v)
		}
	}
	var hk []string
	for n := range e.heapKey {
		if syms[n] {
			hk = append(hk, n)
		}
	}
	sort.Strings(hk)
	for _, n := range hk {
		if a := e.heapAxiom(n, e.heapKey[n]); a != "" {
			b.WriteString("(assert " + a + ")\n")
		}
	}
	for i, a := range axs {
		if incl[i] {
			fmt.Fprintf(&b, "(assert %s) ; axiom %s\n", a.term, a.name)
		}
	}
	for _, f := range body {
		b.WriteString("(assert " + f + ")\n")
	}
	b.WriteString("(assert " + goal + ")\n")
	return b.String()
}

func hasSym(syms map[string]bool, s string) bool {
	if strings.HasSuffix(s, "!") {
		for k := range syms {
			if strings.HasPrefix(k, s) {
				return true
			}
		}
		return false
	}
	return syms[s]
}

type attempt struct {
	name string
	args []string
	pre  string
	post string
}

func attempts(timeout int) []attempt {
	t := fmt.Sprint(timeout)
	return []attempt{
		{"z3-5.3.2", []string{"z3-new", "-in", "-T:" + t, "smt.mbqi=false", "auto_config=false"}, "", ""},
		{"z3-5.3.2-mbqi", []string{"z3-new", "-in", "-T:" + t}, "", ""},
		{"cvc5-1.1.2", []string{"cvc5", "--lang=smt2", "--tlimit=" + t + "000", "--full-saturate-quant"}, "(set-logic ALL)\n", ""},
		{"z3-4.8.12", []string{"z3", "-in", "-T:" + t, "smt.mbqi=false", "auto_config=false"}, "", ""},
	}
}

// procSem keeps the number of running solvers at the number of cores.
var procSem = make(chan struct{}, runtime.NumCPU())

func runSolver(a attempt, text string, timeout int) (string, string) {
	return runSolverCtx(context.Background(), a, text, timeout)
}

func runSolverCtx(parent context.Context, a attempt, text string, timeout int) (string, string) {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if parent.Err() != nil {
		return "unknown", "cancelled"
	}
	ctx, cancel := context.WithTimeout(parent, time.Duration(timeout+3)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, a.args[0], a.args[1:]...)
	cmd.Stdin = strings.NewReader(a.pre + text + "(check-sat)\n" + a.post)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := strings.TrimSpace(out.String())
	line := s
	if i := strings.Index(s, "\n"); i >= 0 {
		line = s[:i]
	}
	switch line {
	case "unsat", "sat", "unknown", "timeout":
		return line, s
	}
	if strings.Contains(s, "error") {
		return "error", s
	}
	return "unknown", s
}

// sargs lists the elements of an s-expression.
func sargs(t string) []string {
	if len(t) < 2 || t[0] != '(' {
		return []string{t}
	}
	var out []string
	depth, start := 0, -1
	in := t[1 : len(t)-1]
	bar := false
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c == '|' {
			bar = !bar
		}
		if bar || c == '|' {
			if start < 0 {
				start = i
			}
			continue
		}
		switch {
		case c == '(':
			if start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				out = append(out, in[start:i+1])
				start = -1
			}
		case c == ' ' || c == '\n':
			if depth == 0 && start >= 0 {
				out = append(out, in[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, in[start:])
	}
	return out
}

// conjuncts splits a goal into goals whose conjunction is equivalent to it.
func conjuncts(t string) []string {
	switch {
	case strings.HasPrefix(t, "(and "):
		var out []string
		for _, a := range sargs(t)[1:] {
			out = append(out, conjuncts(a)...)
		}
		return out
	case strings.HasPrefix(t, "(=> "):
		a := sargs(t)
		if len(a) == 3 {
			if ps := conjuncts(a[2]); len(ps) > 1 {
				for i, p := range ps {
					ps[i] = "(=> " + a[1] + " " + p + ")"
				}
				return ps
			}
		}
	case strings.HasPrefix(t, "(forall "):
		a := sargs(t)
		body := a[2]
		if strings.HasPrefix(body, "(! ") {
			body = sargs(body)[1]
		}
		if ps := conjuncts(body); len(ps) > 1 {
			for i, p := range ps {
				ps[i] = "(forall " + a[1] + " " + p + ")"
			}
			return ps
		}
	}
	return []string{t}
}

var splitSem = make(chan struct{}, 8)

// decideSplit tries the whole goal, then its conjuncts one by one.
func decideSplit(v *VC, timeout int) (res, solver, output string, ms int64) {
	parts := conjuncts(v.o.goal)
	tail := "(assert " + and(v.o.reach, not(v.o.goal)) + ")\n"
	if len(parts) < 4 || !strings.HasSuffix(v.text, tail) {
		return decide(v.text, timeout)
	}
	t0 := time.Now()
	if r, _ := runSolver(attempts(3)[0], v.text, 3); r == "unsat" {
		return "unsat", "z3-5.3.2", "", time.Since(t0).Milliseconds()
	}
	base := strings.TrimSuffix(v.text, tail)
	used := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, p := range parts {
		wg.Add(1)
		go func(p string) {
			defer wg.Done()
			splitSem <- struct{}{}
			defer func() { <-splitSem }()
			mu.Lock()
			stop := res != ""
			mu.Unlock()
			if stop {
				return
			}
			r, s, o, _ := decide(base+"(assert "+and(v.o.reach, not(p))+")\n", timeout)
			mu.Lock()
			defer mu.Unlock()
			if r != "unsat" {
				if res == "" {
					res, solver, output = r, s, "conjunct "+p+"\n"+o
				}
				return
			}
			used[s] = true
		}(p)
	}
	wg.Wait()
	if res != "" {
		return res, solver, output, time.Since(t0).Milliseconds()
	}
	var ss []string
	for s := range used {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return "unsat", strings.Join(ss, "+"), "", time.Since(t0).Milliseconds()
}

// decide runs the portfolio on one VC.
func decide(text string, timeout int) (res, solver, output string, ms int64) {
	t0 := time.Now()
	last := "unknown"
	outp := ""
	if qf := groundPart(text); qf != "" {
		// the ground facts alone often suffice, and are decided at once
		if r, _ := runSolver(attempts(2)[0], qf, 2); r == "unsat" {
			return "unsat", "z3-5.3.2", "", time.Since(t0).Milliseconds()
		}
	}
	if timeout > 3 {
		// a short round first: most obligations need only one of the solvers a moment
		for _, a := range attempts(2) {
			if r, _ := runSolver(a, text, 2); r == "unsat" {
				return "unsat", a.name, "", time.Since(t0).Milliseconds()
			}
		}
	}
	// the long round: all solvers side by side, the first answer counts
	type answer struct {
		i    int
		name string
		r, o string
	}
	as := attempts(timeout)
	ch := make(chan answer, len(as))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i, a := range as {
		go func(i int, a attempt) {
			r, o := runSolverCtx(ctx, a, text, timeout)
			ch <- answer{i, a.name, r, o}
		}(i, a)
	}
	for range as {
		x := <-ch
		if x.r == "unsat" || x.r == "sat" {
			o := x.o
			if x.r == "unsat" {
				o = ""
			}
			return x.r, x.name, o, time.Since(t0).Milliseconds()
		}
		if x.r == "error" && x.i == 0 {
			return "error", x.name, x.o, time.Since(t0).Milliseconds()
		}
		if x.r != "error" {
			last = x.r
		}
		outp += x.name + ": " + x.o + "\n"
	}
	return last, "portfolio", outp, time.Since(t0).Milliseconds()
}

func solveAll(vcs []*VC, par int, timeout int, dump string) {
	var wg sync.WaitGroup
	ch := make(chan *VC)
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := range ch {
				if v.o.goal == "true" {
					v.o.Result, v.o.Solver = "unsat", "syntactic"
					continue
				}
				v.o.Result, v.o.Solver, v.o.Output, v.o.TimeMs = decideSplit(v, timeout)
				if os.Getenv("GOVC_SLOW") != "" && v.o.TimeMs > 1500 {
					fmt.Fprintf(os.Stderr, "slow %dms %s %s %s\n", v.o.TimeMs, v.o.Solver, v.o.Kind, v.o.Label)
				}
				if dump != "" && v.o.Result != "unsat" {
					os.MkdirAll(dump, 0o755)
					os.WriteFile(filepath.Join(dump, clip(sanitize(v.o.key), 150)+".smt2"), []byte(v.text+"(check-sat)\n"), 0o644)
				}
			}
		}()
	}
	for _, v := range vcs {
		ch <- v
	}
	close(ch)
	wg.Wait()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// groundPart drops the quantified facts of a VC (fewer assumptions: unsat stays
// conclusive); empty when the goal itself is quantified.
func groundPart(text string) string {
	lines := strings.SplitAfter(text, "\n")
	var b strings.Builder
	last := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "(assert ") {
			last = l
			if strings.Contains(l, "(forall ") || strings.Contains(l, "(exists ") {
				continue
			}
		}
		b.WriteString(l)
	}
	if strings.Contains(last, "(forall ") || strings.Contains(last, "(exists ") {
		return ""
	}
	return b.String()
}
