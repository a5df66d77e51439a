package main

// Roots: a root is a contract to verify, a lemma to prove, or a theorem.

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type RootResult struct {
	Root    string
	Obls    []*Obligation
	Reached map[string]bool
	Assumed []*ssa.Function // contracts used
	Inlined []string
	Used    []string
	Loops   map[string]int
	Wall    time.Duration
	Paths   int
	Skipped bool
}

// runRoot verifies a root; what fails with little time is tried again with more.
func (p *Prog) runRoot(name string) *RootResult {
	r := p.runRootP(name, false)
	if len(r.failed()) > 0 {
		hard := false
		for _, o := range r.failed() {
			if o.Kind == "specification" || o.Res == Sat && len(o.Ways) == 1 {
				hard = true
			}
		}
		if !hard && !falsified.Load() && time.Now().Before(globalDeadline) {
			w := r.Wall
			r = p.runRootP(name, true)
			r.Wall += w
		}
	}
	return r
}

func (p *Prog) runRootP(name string, patient bool) *RootResult {
	rr := &RootResult{Root: name}
	t0 := time.Now()
	defer func() { rr.Wall = time.Since(t0) }()
	bad := func(kind, msg string) {
		rr.Obls = append(rr.Obls, &Obligation{Root: name, Kind: kind, Label: msg, Goal: msg, Name: name + "/" + kind, Unsupp: true})
	}
	fn := p.pkg.Func(name)
	if strings.HasPrefix(name, "contract_") && p.droppedSet[name] {
		// The function it specifies is gone or has changed its signature; what
		// took its place is verified where the theorems use it.
		rr.Skipped = true
		return rr
	}
	if fn == nil || p.droppedSet[name] {
		bad("specification", "the specification no longer fits the code's declarations")
		return rr
	}
	e := NewExec(p, name)
	e.patient = patient
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupp:
					bad("unsupported", x.msg)
				case budgetExceeded:
					bad("unsupported", "time budget exceeded")
				default:
					bad("unsupported", fmt.Sprintf("engine: %v\n%s", r, debug.Stack()))
				}
			}
		}()
		st := e.rootState()
		ctx := &contractCtx{fn: fn, verify: true}
		if strings.HasPrefix(name, "contract_") {
			ctx.target = p.targetOf(fn)
		}
		args := make([]Value, len(fn.Params))
		for i, q := range fn.Params {
			args[i] = e.anyVal(st, q.Type(), q.Name())
		}
		fr := &Frame{fn: fn, env: map[ssa.Value]Value{}}
		for i, q := range fn.Params {
			fr.env[q] = args[i]
		}
		fr.ctr = ctx
		if strings.HasPrefix(name, "fact_spec") {
			// by induction along the function's recursion
			e.proveFact(st, fr, fn, args)
			rr.Paths++
			return
		}
		e.guard(st, fr, func() {
			e.block(st, fr, fn.Blocks[0], 0, func(st *State, res []Value) { rr.Paths++ })
		})
	}()
	_ = token.NoPos
	rr.Obls = append(rr.Obls, e.obls...)
	rr.Reached = e.reached
	for f := range e.assumed {
		rr.Assumed = append(rr.Assumed, f)
	}
	for f := range e.inlined {
		rr.Inlined = append(rr.Inlined, f.RelString(p.pkg.Pkg))
	}
	sort.Strings(rr.Inlined)
	for u := range e.used {
		rr.Used = append(rr.Used, u)
	}
	sort.Strings(rr.Used)
	rr.Loops = e.loops
	discharge := func(obls []*Obligation, scale int) {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 16)
		for _, o := range obls {
			if o.Unsupp || o.Res == Unsat {
				continue
			}
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				o.discharge(scale)
				<-sem
			}()
		}
		wg.Wait()
	}
	if patient {
		discharge(rr.Obls, 1)
	} else {
		discharge(rr.Obls, 6)
		if f := rr.failed(); len(f) <= 8 {
			discharge(f, 1)
		}
	}
	if rr.Paths == 0 && len(rr.Obls) == 0 {
		bad("vacuous", "no path reaches the end and nothing was to be proved")
	}
	for l, ok := range e.reached {
		if !ok {
			bad("vacuous", "not reachable: "+l)
		}
	}
	return rr
}

func (o *Obligation) discharge(scale int) {
	t0 := time.Now()
	for i, t := range o.Ways {
		if time.Now().After(globalDeadline) {
			break
		}
		ms := oblMS / scale
		if i < len(o.Ways)-1 {
			ms /= 2
		}
		var at int
		o.Res, o.Backend, at = t.runAt(ms)
		if o.Res != Unsat && i <= 1 && strings.HasPrefix(t[at], ";") {
			o.Residual, _, _ = strings.Cut(t[at], "\n")
			o.Residual += fmt.Sprintf(" (case %d of %d)", at+1, len(t))
			if dumpDir != "" {
				os.WriteFile(dumpDir+"/fail.smt2", []byte(t[at]), 0o644)
			}
		}
		if o.Res == Unsat {
			o.Strategy = i
			break
		}
	}
	o.MS = time.Since(t0).Milliseconds()
}

func (r *RootResult) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if o.Unsupp || o.Res != Unsat {
			out = append(out, o)
		}
	}
	return out
}

func (r *RootResult) summary() string {
	return fmt.Sprintf("%d obligations, %d failed, %d paths, loops %v", len(r.Obls), len(r.failed()), r.Paths, r.Loops)
}

func (r *RootResult) print(verbose bool) {
	for _, o := range r.Obls {
		if verbose && o.MS > 500 {
			fmt.Printf("SLOW %s %d ms strategy %d of %d %s\n", o.Name, o.MS, o.Strategy, len(o.Ways), o.Backend)
		}
	}
	for i, o := range r.failed() {
		if i > 12 && !verbose {
			fmt.Printf("  ...\n")
			break
		}
		fmt.Printf("FAIL %s [%s] %s %v (%s %d ms)\n   goal %s\n   residual %s\n   trace %v\n", o.Name, o.Pos, o.Kind, o.Res, o.Backend, o.MS, trunc(o.Goal, 1500), trunc(o.Residual, 3000), o.Trace)
	}
}

// proveFact proves a fact about a specification function for arbitrary
// arguments; it is assumed of the applications its definition leads to.
func (e *Exec) proveFact(st *State, fr *Frame, fn *ssa.Function, args []Value) {
	name := strings.TrimPrefix(fn.Name(), "fact_")
	if i := strings.LastIndex(name, "__"); i >= 0 {
		name = name[:i]
	}
	sf := e.prog.specByName[name]
	if sf == nil {
		fail("%s is not about a specification function", fn.Name())
	}
	ts := make([]*Term, len(args))
	for i := range args {
		ts[i] = e.reify(st, args[i], fn.Params[i].Type())
	}
	e.factSkip = e.UF(sf.Name(), e.sortOf(sf.Signature.Results().At(0).Type()), ts...)
	st2, r := e.pureEval(st, fn, args, nil)
	e.oblige(st2, fr, "ensures", "fact", fn.Pos(), e.term(r[0]))
}
