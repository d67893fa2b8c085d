package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Func        string
	Pos         string
	Status      string // proved, failed, unfit, missing, vacuous
	Reason      string
	Obligations int
	Discharged  int
	Failed      []*Obligation
	Inlined     []string
	Called      []string
	Externs     []string
	Trusted     []string
	Unspecified []string
	SolverMs    int64
	Backends    map[string]int
	Kinds       map[string]int
}

type Report struct {
	Property  string
	Funcs     []*FuncReport
	Lemmas    []*FuncReport
	WallMs    int64
	Contracts int
}

func newEnc(pr *Program, specs *SpecSet, fn *ssa.Function, con *Contract) *Enc {
	return &Enc{pr: pr, specs: specs, fn: fn, con: con, loopMods: map[string]map[string]bool{}, loopEpoch: map[string]bool{}}
}

func (e *Enc) reset() {
	e.decls, e.facts, e.obls, e.vbPar = nil, nil, nil, nil
	e.declSet = map[string]bool{}
	e.n = 0
	if e.heapSort == nil { // kept between passes: a heap first touched inside a loop is havocked at its header in the next pass
		e.heapSort = map[string]string{}
	}
	e.strLits = map[string]string{}
	e.litOrder = nil
	e.tags = map[string]int{}
	e.tagTyps = nil
	e.ifaces = map[string]typesType{}
	e.fids = map[string]int{}
	e.globals = map[string]int{}
	e.usedFuns = map[string]bool{}
	e.externUsed = map[string]bool{}
	e.inlined = map[string]bool{}
	e.called = map[string]bool{}
	e.oblCount = map[string]int{}
	e.stores = map[string]storeDef{}
	e.lfCache = map[string][]Val{}
	e.unrolled = map[string]bool{}
	e.trusted = map[string]bool{}
	e.named = map[string]string{}
	e.immVals = map[string]Val{}
	e.heapKey = map[string]string{}
	e.heapTyp = map[string]typesType{}
	e.mods = nil
	e.modAll = false
	e.restart = false
}

// encode generates all obligations of one function.
func (e *Enc) encode() (smoke []*Obligation) {
	for iter := 0; ; iter++ {
		if iter > 60 {
			unsupported("loop modification analysis did not converge")
		}
		e.reset()
		smoke = e.encodeOnce()
		if !e.restart {
			return
		}
	}
}

func (e *Enc) encodeOnce() (smoke []*Obligation) {
	fn, con := e.fn, e.con
	st := &State{vb: e.newVB(), reach: "true", heap: map[string]string{}}
	f := &frame{fn: fn, con: con, vals: map[ssa.Value]Val{}}
	e.assume(st, "(> "+e.next(st)+" 0)")
	for _, p := range fn.Params {
		v := e.freshVal(st, p.Type(), "p."+p.Name())
		f.vals[p] = v
		f.params = append(f.params, v)
	}
	for _, p := range fn.FreeVars {
		v := e.freshVal(st, p.Type(), "fv."+p.Name())
		f.vals[p] = v
	}
	if len(con.Params) != len(fn.Params) {
		unsupported("contract %s names %d parameters, the function has %d", con.Name, len(con.Params), len(fn.Params))
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*typesPointer); ok {
			e.assume(st, "(not (= "+f.params[0].L[0]+" nil))")
		}
	}
	e.entry = st
	e.topFrame = f
	f.oldSt = st
	ctx := e.specCtx(f, st, st)
	e.instLocals(con, ctx, st)
	for _, t := range con.Tables {
		e.tableFacts(st, t)
	}
	for _, r := range con.Requires {
		e.assume(st, ctx.boolean(r.E))
	}
	for _, r := range con.Assumes {
		e.assume(st, ctx.boolean(r.E))
		e.trusted["assumed of the input of "+con.Name+": "+fmt.Sprint(r.E)] = true
	}
	for _, m := range con.Modifies {
		switch m.Kind {
		case "everything":
			e.modAll = true
		case "nothing":
		case "ghost":
			e.mods = append(e.mods, modRef{key: "ghost:" + m.Name})
		default:
			for _, c := range e.modRefs(ctx, m) {
				cond := c.cond
				if c.ref != "" {
					ref := c.ref
					cond = func(r string) string { return "(= " + r + " " + ref + ")" }
				}
				e.mods = append(e.mods, modRef{key: c.key, cond: cond})
			}
		}
	}
	smoke = append(smoke, &Obligation{Func: e.key(), Kind: "smoke", Label: "precondition satisfiable", vb: st.vb, nfacts: len(e.facts), reach: "true", goal: "false"})
	cur := st.clone()
	cur.vb = e.newVB(st.vb)
	e.encodeBodyTop(f, cur, &smoke)
	return
}

func (e *Enc) encodeBodyTop(f *frame, st *State, smoke *[]*Obligation) {
	_, _, ok := e.encodeBody(f, st)
	if e.restart {
		return
	}
	if !ok {
		if e.con.MayPanic == nil {
			unsupported("%s never returns", e.key())
		}
		return
	}
	for _, r := range f.rets {
		ctx := e.specCtx(f, r.st, e.entry)
		bindResults(ctx.env, e.con, r.res)
		for _, en := range e.con.Ensures {
			lbl := en.Label
			if lbl == "" {
				lbl = en.E.String()
			}
			e.oblige(r.st, "ensures", lbl, e.pos(r.pos), ctx.boolean(en.E), en.Props)
		}
		if len(e.con.Proves) > 0 {
			var cs []string
			for _, en := range e.con.Proves {
				cs = append(cs, ctx.boolean(en.E))
			}
			e.oblige(r.st, "ensures", fmt.Sprintf("the result has the shape of its kind (%d clauses)", len(cs)), e.pos(r.pos), and(cs...), nil)
		}
		var ks []string
		for k := range r.st.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if g := e.frameGoal(r.st, k); g != "" {
				e.oblige(r.st, "frame", "only listed locations change: "+k, e.pos(r.pos), g, nil)
			}
		}
		*smoke = append(*smoke, &Obligation{Func: e.key(), Kind: "smoke", Label: "return reachable", Pos: e.pos(r.pos), vb: r.st.vb, nfacts: len(e.facts), reach: r.st.reach, goal: "false"})
	}
}

type job struct {
	rep   *FuncReport
	enc   *Enc
	smoke []*Obligation
	vcs   []*VC
	svcs  []*VC
}

func encodeFunc(pr *Program, specs *SpecSet, key string, con *Contract) (j *job) {
	rep := &FuncReport{Func: key, Backends: map[string]int{}, Kinds: map[string]int{}}
	j = &job{rep: rep}
	fn := pr.find(key)
	if fn == nil {
		rep.Status, rep.Reason = "missing", "no such function in the current tree"
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				rep.Status, rep.Reason = "unfit", u.msg
				j.vcs = nil
				return
			}
			rep.Status, rep.Reason = "unfit", fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
			j.vcs = nil
		}
	}()
	e := newEnc(pr, specs, fn, con)
	j.enc = e
	rep.Pos = ""
	j.smoke = e.encode()
	rep.Pos = e.pos(fn.Pos())
	for k := range e.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	for k := range e.called {
		rep.Called = append(rep.Called, k)
	}
	for k := range e.externUsed {
		rep.Externs = append(rep.Externs, k)
	}
	for k := range e.unrolled {
		rep.Unspecified = append(rep.Unspecified, k)
	}
	axs := e.axiomTerms()
	for _, o := range e.obls {
		j.vcs = append(j.vcs, &VC{o, e.buildVC(o, axs, true)})
	}
	for _, o := range j.smoke {
		j.svcs = append(j.svcs, &VC{o, e.buildVC(o, axs, true)})
	}
	for k := range e.trusted {
		rep.Trusted = append(rep.Trusted, k)
	}
	sort.Strings(rep.Inlined)
	sort.Strings(rep.Called)
	sort.Strings(rep.Externs)
	sort.Strings(rep.Unspecified)
	sort.Strings(rep.Trusted)
	return
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id")
	fnName := flag.String("func", "", "only this function (substring)")
	out := flag.String("json", "", "write report here")
	dump := flag.String("dump", "", "directory for failing VCs")
	timeout := flag.Int("timeout", 10, "seconds per solver attempt")
	retry := flag.Int("retry", 0, "seconds for the second try of timed-out obligations")
	verbose := flag.Bool("v", false, "verbose")
	par := flag.Int("j", runtime.NumCPU(), "parallel solvers")
	pats := flag.String("pkgs", "./...", "packages")
	showSSA := flag.Bool("ssa", false, "print SSA")
	noSmoke := flag.Bool("nosmoke", false, "skip vacuity checks")
	flag.Parse()
	t0 := time.Now()
	specs, err := loadSpecs(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	pr, err := loadProgram(*repo, strings.Fields(*pats))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	tl := time.Since(t0)
	var jobs []*job
	rep := &Report{Property: *prop}
	for _, k := range specs.Order {
		c := specs.Contracts[k]
		if c.Trusted || c.Inline {
			continue
		}
		if *fnName != "" && !strings.Contains(k, *fnName) {
			continue
		}
		if *prop != "" {
			has := false
			for _, p := range c.Props {
				if p == *prop {
					has = true
				}
			}
			if !has {
				continue
			}
		}
		rep.Contracts++
		if *showSSA {
			if fn := pr.find(k); fn != nil {
				fn.WriteTo(os.Stderr)
			}
		}
		jobs = append(jobs, encodeFunc(pr, specs, k, c))
	}
	var vcs []*VC
	for _, j := range jobs {
		vcs = append(vcs, j.vcs...)
	}
	te := time.Since(t0)
	solveAll(vcs, *par, *timeout, *dump)
	// a few obligations that only ran out of time get a longer second try
	var again []*VC
	for _, v := range vcs {
		if v.o.Result == "unknown" || v.o.Result == "timeout" {
			again = append(again, v)
		}
	}
	if len(again) > 0 && len(again) <= 6 && *retry > 0 {
		solveAll(again, 2, *retry, *dump)
	}
	if !*noSmoke {
		var sv []*VC
		for _, j := range jobs {
			sv = append(sv, j.svcs...)
		}
		solveSmoke(sv, *par)
	}
	for _, j := range jobs {
		r := j.rep
		rep.Funcs = append(rep.Funcs, r)
		for _, v := range j.vcs {
			r.Obligations++
			r.Kinds[v.o.Kind]++
			r.SolverMs += v.o.TimeMs
			if v.o.Result == "unsat" {
				r.Discharged++
				r.Backends[v.o.Solver]++
			} else {
				r.Failed = append(r.Failed, v.o)
			}
		}
		if r.Status == "" {
			r.Status = "proved"
			if len(r.Failed) > 0 {
				r.Status = "failed"
			}
			if r.Status == "proved" && !*noSmoke {
				anyRet, okRet := false, false
				for _, v := range j.svcs {
					if v.o.Label == "precondition satisfiable" && v.o.Result == "unsat" {
						r.Status, r.Reason = "vacuous", "precondition unsatisfiable"
					}
					if v.o.Label == "return reachable" {
						anyRet = true
						if v.o.Result != "unsat" {
							okRet = true
						}
					}
				}
				if anyRet && !okRet {
					r.Status, r.Reason = "vacuous", "no reachable return"
				}
			}
		}
	}
	rep.WallMs = time.Since(t0).Milliseconds()
	for _, r := range rep.Funcs {
		fmt.Printf("%-8s %-45s %d/%d obligations %dms %s\n", r.Status, r.Func, r.Discharged, r.Obligations, r.SolverMs, r.Reason)
		for _, o := range r.Failed {
			fmt.Printf("    FAILED %s [%s] %s at %s (%s)\n", o.Kind, o.Result, o.Label, o.Pos, o.Solver)
			if o.Result == "error" || *verbose {
				fmt.Println("      ", firstLines(o.Output, 3))
			}
		}
		if *verbose && len(r.Unspecified) > 0 {
			fmt.Println("    unspecified:", r.Unspecified)
		}
	}
	fmt.Printf("load %v encode %v total %v\n", tl, te-tl, time.Since(t0))
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n       ")
}

func solveSmoke(vcs []*VC, par int) {
	sem := make(chan bool, par)
	done := make(chan bool)
	for _, v := range vcs {
		go func(v *VC) {
			sem <- true
			r, _ := runSolver(attempts(2)[0], v.text, 2)
			v.o.Result = r
			<-sem
			done <- true
		}(v)
	}
	for range vcs {
		<-done
	}
}
