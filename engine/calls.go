package main

// Calls: intrinsics of the specification language, contracts, models of
// dependencies, specification functions, and plain inlining.

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contractCtx struct {
	fn      *ssa.Function // the contract function
	target  *ssa.Function // the function it specifies (nil for lemmas and theorems)
	verify  bool
	mods    []PtrV
	results []Value
	before  map[int]*Obj
	measure *Term
	hints   map[int]types.Type
	called  bool
}

func (e *Exec) callCommon(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos, k K) {
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.val(st, fr, a)
	}
	if c.IsInvoke() {
		e.invoke(st, fr, e.val(st, fr, c.Value), c.Method, args, pos, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(st, fr, b, c, args, pos, k)
		return
	}
	e.callValue(st, fr, e.val(st, fr, c.Value), args, pos, k)
}

func (e *Exec) callValue(st *State, fr *Frame, fv Value, args []Value, pos token.Pos, k K) {
	f, ok := fv.(FuncV)
	if !ok {
		fail("call of %T", fv)
	}
	if f.Bi != nil {
		fail("deferred builtin %s", f.Bi.Name())
	}
	if f.Fn == nil {
		e.oblige(st, fr, "nil", "no call of a nil function", pos, e.False)
		return
	}
	e.call(st, fr, f.Fn, args, f.Bind, pos, k)
}

func (e *Exec) invoke(st *State, fr *Frame, recv Value, m *types.Func, args []Value, pos token.Pos, k K) {
	switch r := recv.(type) {
	case IfaceV:
		if r.Dyn == nil {
			e.oblige(st, fr, "nil", "no method call on a nil interface", pos, e.False)
			return
		}
		if types.IsInterface(r.Dyn) {
			e.invokeSym(st, fr, r.V, r.Dyn, m, pos, k)
			return
		}
		fn := e.prog.method(r.Dyn, m)
		if fn == nil {
			fail("no method %s on %s", m.Name(), r.Dyn)
		}
		e.call(st, fr, fn, append([]Value{r.V}, args...), nil, pos, k)
		return
	case *Term:
		e.invokeSym(st, fr, r, m.Signature().Recv().Type(), m, pos, k)
		return
	case PoisonV:
		fail("method call on an unknown value (%s)", r.Why)
	}
	fail("method %s of %T", m.Name(), recv)
}

// invokeSym calls a method of an interface value that is a term.
func (e *Exec) invokeSym(st *State, fr *Frame, v Value, t types.Type, m *types.Func, pos token.Pos, k K) {
	x, ok := v.(*Term)
	if !ok {
		fail("method %s of symbolic %T", m.Name(), v)
	}
	if x.Sort == LinkS {
		if !e.oblige(st, fr, "nil", "no method call on a nil link", pos, e.Not(e.Is(x, "LNil"))) {
			return
		}
		switch m.Name() {
		case "String", "Binary":
			k(st, []Value{e.UF("link"+m.Name(), StrS, x)})
			return
		}
	} else if x.Sort == IntS && m.Name() == "Error" {
		if !e.oblige(st, fr, "nil", "no method call on a nil error", pos, e.Not(e.Eq(x, e.Int(0)))) {
			return
		}
		k(st, []Value{e.UF("errText", StrS, x)})
		return
	}
	fail("method %s of a symbolic %s", m.Name(), t)
}

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.Name()
	}
	return fn.Name()
}

func (e *Exec) call(st *State, fr *Frame, fn *ssa.Function, args []Value, bind []Value, pos token.Pos, k K) {
	p := e.prog
	if p.inOverlay(fn) && fn.Signature.Recv() == nil && fn.Parent() == nil {
		name := baseName(fn)
		if in, ok := intrinsics[name]; ok {
			in(e, st, fr, fn, args, pos, k)
			return
		}
		switch {
		case strings.HasPrefix(name, "spec"):
			k2, v := e.pureCall(st, fn, args)
			k(k2, v)
			return
		case strings.HasPrefix(name, "uf_"):
			k(st, []Value{e.ufCall(st, fn, args)})
			return
		case strings.HasPrefix(name, "lemma_"), strings.HasPrefix(name, "axiom_"):
			e.lemmaCall(st, fr, fn, args, pos, k)
			return
		}
	}
	// inside its own contract: the call of the specified function
	if fr != nil && fr.ctr != nil && fr.ctr.target == fn {
		e.targetCall(st, fr, fn, args, bind, pos, k)
		return
	}
	if c := p.contracts[fn]; c != nil && !p.inOverlay(fn) {
		if e.pure > 0 {
			fail("specification calls %s", fn)
		}
		e.contractCall(st, fr, c, fn, args, pos, k)
		return
	}
	if m := p.models[modelKey(fn)]; m != nil && !p.inOverlay(fn) {
		e.used["model "+modelKey(fn)] = true
		e.run(st, fr, m, args, nil, nil, k)
		return
	}
	if n, ok := natives[modelKey(fn)]; ok {
		e.used["native "+modelKey(fn)] = true
		n(e, st, fr, fn, args, pos, k)
		return
	}
	if fn.Blocks == nil {
		e.prog.build(fn)
	}
	if fn.Blocks == nil {
		fail("call of %s, which has no model", fn)
	}
	if !p.inlinable(fn) {
		fail("call of %s, which has no model", fn)
	}
	if fn.Pkg == p.pkg && !p.inOverlay(fn) && e.dry == 0 && e.pure == 0 {
		e.inlined[fn] = true
	}
	e.run(st, fr, fn, args, bind, nil, k)
}

// modelKey names a function of a dependency: pkg.Func or pkg.Type.Method.
func modelKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Name()
			}
			return pkg + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}

// ---- contracts ----

// targetCall is the call of the specified function within its contract.
func (e *Exec) targetCall(st *State, fr *Frame, fn *ssa.Function, args, bind []Value, pos token.Pos, k K) {
	c := fr.ctr
	c.called = true
	if c.verify {
		before := st.heap
		st = st.clone()
		e.run(st, fr, fn, args, bind, nil, func(st *State, res []Value) {
			e.frameCheck(st, fr, before, c.mods, pos)
			k(st, res)
		})
		return
	}
	// havoc what it may modify, and its results
	for _, m := range c.mods {
		e.havocAt(st, m, fn.Name())
	}
	rs := fn.Signature.Results()
	var hint []int
	res := make([]Value, rs.Len())
	for i := range res {
		if _, ok := c.hints[i]; ok {
			hint = append(hint, i)
			continue
		}
		nm := rs.At(i).Name()
		if nm == "" {
			nm = "r"
		}
		res[i] = e.freshVal(st, rs.At(i).Type(), fn.Name()+"."+nm)
	}
	if len(hint) == 0 {
		c.results = res
		k(st, res)
		return
	}
	if len(hint) > 1 {
		fail("more than one hint")
	}
	// an interface result: nil, or of the hinted type
	b := e.Fresh("isnil", BoolS)
	e.fork(st, fr, []*Term{b, e.Not(b)}, func(n int, st *State) {
		r := append([]Value{}, res...)
		if n == 0 {
			r[hint[0]] = IfaceV{}
		} else {
			ht := c.hints[hint[0]]
			pt := under(ht).(*types.Pointer)
			id := e.newObj(st, pt.Elem(), e.freshVal(st, pt.Elem(), fn.Name()+".node"))
			r[hint[0]] = IfaceV{Dyn: ht, V: PtrV{Obj: id}}
		}
		c.results = r
		k(st, r)
	})
}

// contractCall uses the contract of fn at a call.
func (e *Exec) contractCall(st *State, fr *Frame, cfn, fn *ssa.Function, args []Value, pos token.Pos, k K) {
	if e.dry == 0 {
		e.assumed[fn] = true
	}
	for i, a := range args {
		if _, ok := under(fn.Params[i].Type()).(*types.Pointer); ok {
			// contracts speak about non-nil pointers
			if p, isP := a.(PtrV); isP && p.Obj != 0 {
				continue
			}
			q, ok := e.deref(st, fr, a, pos)
			if !ok {
				return
			}
			args[i] = q
		}
	}
	ctx := &contractCtx{fn: cfn, target: fn}
	e.run(st, fr, cfn, args, nil, ctx, func(st *State, _ []Value) {
		k(st, ctx.results)
	})
}

// lemmaCall uses a lemma: its precondition is an obligation, its conclusion
// is assumed.
func (e *Exec) lemmaCall(st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
	if e.pure > 0 {
		fail("lemma used in a specification")
	}
	e.used[fn.Name()] = true
	ctx := &contractCtx{fn: fn}
	e.run(st, fr, fn, args, nil, ctx, func(st *State, _ []Value) { k(st, nil) })
}

// frameCheck obliges that only the declared locations changed.
func (e *Exec) frameCheck(st *State, fr *Frame, before map[int]*Obj, mods []PtrV, pos token.Pos) {
	covered := func(id int, path []Sel) bool {
		for _, m := range mods {
			if m.Obj != id || len(m.Path) > len(path) {
				continue
			}
			ok := true
			for i := range m.Path {
				if m.Path[i] != path[i] {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	for id, o := range before {
		n := st.heap[id]
		if n == o || n == nil {
			continue
		}
		if covered(id, nil) {
			continue
		}
		what := "object " + shortType(o.T)
		if o.Arr || o.Map != nil {
			var same *Term
			if o.Map != nil {
				same = e.Eq(o.Map, e.mapTerm(st, id))
			} else if sameElems(o, n) {
				continue
			} else {
				same = e.Eq(e.arrTerm(st, o), e.arrTerm(st, n))
			}
			e.oblige(st, fr, "frame", what+" unchanged", pos, same)
			continue
		}
		var diff func(a, b Value, path []Sel, t types.Type)
		diff = func(a, b Value, path []Sel, t types.Type) {
			if sameVal(a, b) || covered(id, path) {
				return
			}
			x, ok1 := a.(*StructV)
			y, ok2 := b.(*StructV)
			if ok1 && ok2 {
				u := under(e.modelT(t)).(*types.Struct)
				for i := range x.F {
					diff(x.F[i], y.F[i], append(path[:len(path):len(path)], Sel{F: i}), u.Field(i).Type())
				}
				return
			}
			g := e.False
			if e.sortOf(t) != nil {
				g = e.Eq(e.reify(st, a, t), e.reify(st, b, t))
			}
			e.oblige(st, fr, "frame", what+" unchanged", pos, g)
		}
		diff(o.Val, n.Val, nil, o.T)
	}
}

func sameElems(a, b *Obj) bool {
	if a.Base != b.Base || len(a.Elems) != len(b.Elems) {
		return false
	}
	for i := range a.Elems {
		if !sameVal(a.Elems[i], b.Elems[i]) {
			return false
		}
	}
	return true
}

// havocAt replaces a location by an arbitrary value.
func (e *Exec) havocAt(st *State, p PtrV, name string) {
	o := st.get(p.Obj)
	if o.Arr || o.Map != nil {
		fail("modifies an array or map")
	}
	t := o.T
	for _, s := range p.Path {
		t = under(e.modelT(t)).(*types.Struct).Field(s.F).Type()
	}
	e.storePtr(st, p, e.freshVal(st, t, name+".mod"))
}

// ---- specification functions ----

type pureRes struct {
	st  *State
	dec []decision
	res []Value
}

// pureCall evaluates a specification function; recursive ones become
// applications unfolded on demand.
func (e *Exec) pureCall(st *State, fn *ssa.Function, args []Value) (*State, []Value) {
	if e.prog.opaque[fn] {
		return st, []Value{e.specApp(st, fn, args)}
	}
	return e.pureEval(st, fn, args, nil)
}

func (e *Exec) specApp(st *State, fn *ssa.Function, args []Value) Value {
	ts := make([]*Term, len(args))
	for i, a := range args {
		ts[i] = e.reify(st, a, fn.Params[i].Type())
	}
	rs := fn.Signature.Results()
	if rs.Len() != 1 {
		fail("recursive specification %s must have one result", fn)
	}
	rt := rs.At(0).Type()
	so := e.sortOf(rt)
	if so == nil {
		fail("recursive specification %s: no sort for %s", fn, rt)
	}
	return e.unreify(st, e.UF(fn.Name(), so, ts...), rt)
}

func (e *Exec) ufCall(st *State, fn *ssa.Function, args []Value) Value {
	return e.specApp(st, fn, args)
}

// pureEval runs fn on all paths and merges the results.
func (e *Exec) pureEval(st *State, fn *ssa.Function, args, bind []Value) (*State, []Value) {
	var out []pureRes
	s := st.clone()
	s.dec = nil
	e.pure++
	lm := e.loopDisabled
	e.loopDisabled = true
	func() {
		defer func() { e.pure--; e.loopDisabled = lm }()
		e.run(s, nil, fn, args, bind, nil, func(st *State, res []Value) {
			out = append(out, pureRes{st, st.dec, res})
			if len(out) > 5000 {
				fail("specification %s has too many cases", fn)
			}
		})
	}()
	if len(out) == 0 {
		fail("specification %s has no result", fn)
	}
	if len(out) == 1 {
		r := out[0].st
		r.dec = st.dec
		r.pc = st.pc
		r.facts = st.facts
		return r, out[0].res
	}
	// several paths: results as terms
	rs := fn.Signature.Results()
	terms := make([][]*Term, len(out))
	for i, o := range out {
		for j := range o.res {
			terms[i] = append(terms[i], e.reify(o.st, o.res[j], rs.At(j).Type()))
		}
	}
	var build func(idx []int, d, j int) *Term
	build = func(idx []int, d, j int) *Term {
		if len(idx) == 1 {
			return terms[idx[0]][j]
		}
		if len(out[idx[0]].dec) <= d {
			fail("specification %s: merge", fn)
		}
		c := out[idx[0]].dec[d].c
		var ts, fs []int
		for _, i := range idx {
			if len(out[i].dec) <= d || out[i].dec[d].c != c {
				fail("specification %s: merge", fn)
			}
			if out[i].dec[d].v {
				ts = append(ts, i)
			} else {
				fs = append(fs, i)
			}
		}
		if len(ts) == 0 {
			return build(fs, d+1, j)
		}
		if len(fs) == 0 {
			return build(ts, d+1, j)
		}
		return e.Ite(c, build(ts, d+1, j), build(fs, d+1, j))
	}
	idx := make([]int, len(out))
	for i := range idx {
		idx[i] = i
	}
	st2 := st.clone()
	res := make([]Value, rs.Len())
	for j := range res {
		res[j] = e.unreify(st2, build(idx, 0, j), rs.At(j).Type())
	}
	return st2, res
}

// closureBool evaluates a func() bool argument to a term.
func (e *Exec) closureBool(st *State, v Value) (*State, *Term) {
	f, ok := v.(FuncV)
	if !ok || f.Fn == nil {
		fail("closure expected")
	}
	st2, r := e.pureEval(st, f.Fn, nil, f.Bind)
	return st2, e.term(r[0])
}

// unfold gives the defining equation of an application of a specification
// function.
func (e *Exec) unfold(app *Term) *Term {
	if d, ok := e.unfolded[app.id]; ok {
		return d
	}
	e.unfolded[app.id] = e.True
	fn := e.prog.specByName[app.Op[3:]]
	if fn == nil {
		return e.True
	}
	st := e.emptyState()
	args := make([]Value, len(app.Args))
	for i, a := range app.Args {
		args[i] = e.unreify(st, a, fn.Params[i].Type())
	}
	// evaluate the body itself, with recursive calls left as applications
	if verboseLoops {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "cannot unfold %.200s: %v\n", app, r)
				panic(r)
			}
		}()
	}
	st2, r := e.pureEval(st, fn, args, nil)
	t := e.reify(st2, r[0], fn.Signature.Results().At(0).Type())
	d := e.Eq(app, t)
	e.defs[app.id] = t
	e.unfolded[app.id] = d
	return d
}

// factsAbout instantiates the assumed facts about an uninterpreted function.
func (e *Exec) factsAbout(app *Term) []*Term {
	if r, ok := e.factMem[app.id]; ok {
		return r
	}
	var out []*Term
	e.factMem[app.id] = nil
	if app == e.factSkip {
		return nil
	}
	for _, fn := range e.prog.facts[app.Op[3:]] {
		e.used[fn.Name()] = true
		st := e.emptyState()
		args := make([]Value, len(app.Args))
		for i, a := range app.Args {
			args[i] = e.unreify(st, a, fn.Params[i].Type())
		}
		_, r := e.pureEval(st, fn, args, nil)
		out = append(out, e.term(r[0]))
	}
	e.factMem[app.id] = out
	return out
}

func (e *Exec) emptyState() *State {
	return &State{heap: map[int]*Obj{}, symM: map[int]int{}}
}

// prepare completes the asserts of a query with unfoldings of specification
// functions, facts about uninterpreted ones, and byte ranges.
func (e *Exec) prepare(as []*Term, fuel int) []*Term {
	f := e.factsOf(as)
	seen := map[int]bool{}
	var apps []*Term
	var extra []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a)
		}
		if strings.HasPrefix(t.Op, "uf:") {
			apps = append(apps, t)
		}
		if t.Op == "str.to_code" {
			extra = append(extra, e.Lt(t, e.Int(256)))
		}
	}
	for _, a := range as {
		walk(a)
	}
	out := append([]*Term{}, as...)
	for depth := 0; depth <= fuel && len(apps) > 0; depth++ {
		cur := apps
		apps = nil
		var defs []*Term
		for _, a := range cur {
			name := a.Op[3:]
			if e.prog.specByName[name] != nil {
				if depth < fuel {
					defs = append(defs, e.unfold(a))
				}
			}
			if e.prog.facts[name] != nil {
				defs = append(defs, e.factsAbout(a)...)
			}
		}
		for _, d := range defs {
			d = e.simp(d, f)
			if d.IsTrue() {
				continue
			}
			out = append(out, d)
			walk(d)
		}
	}
	return append(out, extra...)
}

func (e *Exec) eachApp(ts []*Term, do func(a *Term)) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a)
		}
		if strings.HasPrefix(t.Op, "uf:") && e.prog.facts[t.Op[3:]] != nil {
			do(t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

// specApps are the applications of specification functions in ts, in order.
func (e *Exec) specApps(ts []*Term) (out []*Term) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a)
		}
		if strings.HasPrefix(t.Op, "uf:") && e.prog.specByName[t.Op[3:]] != nil {
			out = append(out, t)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// direct rewrites goal and the facts pc with those definitions of specification
// functions whose case is decided by the facts. Where nothing is decided, it
// may distinguish cases (splits times). It returns the sets of asserts that all
// have to be refuted; none if the goal became trivial.
func (e *Exec) direct(pc []*Term, goal *Term, m0 map[int]*Term, splits int, left *int) (leaves []leaf) {
	e.checkTime()
	f := e.factsOf(pc)
	done := map[int]bool{}
	m := maps.Clone(m0)
	if m == nil {
		m = map[int]*Term{}
	}
	facted := map[int]bool{}
	defined := map[int]bool{}
	argd := map[int]bool{}
	var known []*Term
	cur := append([]*Term{}, pc...)
	var cond *Term
	for round := 0; round < 24; round++ {
		for i := 0; i < 4; i++ {
			g := e.simp(e.subst(goal, m), f)
			if g == goal {
				break
			}
			goal = g
		}
		if goal.IsTrue() {
			return nil
		}
		if goal.Op == "and" && splits > 0 {
			break
		}
		e.eachApp(append([]*Term{goal}, cur...), func(a *Term) {
			if !facted[a.id] {
				facted[a.id] = true
				for _, t := range e.factsAbout(a) {
					u := e.subst(t, m)
					e.addFact(f, u)
					known = append(known, u)
				}
			}
		})
		// unit consequences
		for i, t := range known {
			if t.Op == "or" {
				if u := e.simp(t, f); !u.IsConst() && u.Op != "or" {
					known[i] = u
					e.addFact(f, u)
					cur = append(cur, u)
				}
			}
		}
		for i, t := range cur {
			if t.Op == "or" {
				var open []*Term
				for _, a := range t.Args {
					u := e.simp(a, f)
					if u.IsTrue() {
						open = nil
						break
					}
					if !u.IsFalse() {
						open = append(open, u)
					}
				}
				if len(open) == 1 {
					cur[i] = open[0]
					e.addFact(f, open[0])
				}
			}
		}
		changed := false
		cond = nil
		condN := 0
		for _, t := range cur {
			if e.orient(t, m) {
				changed = true
			}
		}
		if e.wholes(cur, m, f) {
			changed = true
		}
		if !changed {
			// definitions, outermost first; those in the goal before others
			seen := map[int]bool{}
			inGoal := true
			undecided := map[int]*Term{}
			var walk func(t *Term)
			walk = func(t *Term) {
				if seen[t.id] {
					return
				}
				seen[t.id] = true
				if strings.HasPrefix(t.Op, "uf:") && !done[t.id] && e.prog.specByName[t.Op[3:]] != nil && !e.hasIte(t) {
					if rhs := e.defOf(t); rhs != nil {
						rhs = e.simp(e.subst(e.simp(e.subst(rhs, m), f), m), f)
						if e.newIte(rhs, t) {
							rhs = e.settle(rhs, m, f)
						}
						if !e.newIte(rhs, t) || e.bold && inGoal && !e.prog.recursive[t.Op[3:]] {
							done[t.id] = true
							changed = true
							m[t.id] = rhs
							return
						}
						if inGoal {
							// the application the facts say most about
							n := e.iteCount(rhs)
							if structured(t) || splits == maxSplits && len(m) == 0 || n < e.iteCount(e.defOf(t)) {
								if cond == nil || n < condN {
									cond, condN = e.iteCond(rhs), n
								}
							}
						}
						undecided[t.id] = rhs
					}
				}
				if inGoal && t.Sort.K == SBool && (t.Op == "=" || t.Op == ">=0") && !done[t.id] {
					n := len(undecided)
					for _, a := range t.Args {
						walk(a)
					}
					if len(undecided) > n && len(undecided) < 8 && !changed {
						u := e.simp(e.subst(t, undecided), f)
						if u.IsConst() {
							m[t.id] = u
							changed = true
							done[t.id] = true
						}
					}
					return
				}
				for _, a := range t.Args {
					walk(a)
				}
			}
			walk(goal)
			if !changed {
				inGoal = false
				for _, t := range cur {
					if t.Op == "=" && (m[t.Args[0].id] == t.Args[1] || m[t.Args[1].id] == t.Args[0]) {
						continue
					}
					walk(t)
				}
			}
		}
		if !changed {
			// arguments by what is known
			for _, t := range e.specApps(cur) {
				if _, ok := m[t.id]; ok || argd[t.id] {
					continue
				}
				argd[t.id] = true
				as := make([]*Term, len(t.Args))
				diff := false
				for i, a := range t.Args {
					as[i] = e.simp(e.subst(a, m), f)
					diff = diff || as[i] != a
				}
				if diff {
					if u := e.UF(t.Op[3:], t.Sort, as...); u != t {
						m[t.id] = u
						done[t.id] = true
						changed = true
					}
				}
			}
		}
		if !changed {
			// what is known of an application holds with its arguments rewritten
			var keys []int
			for k := range m {
				if t := e.terms[k]; !argd[k] && !done[k] && !defined[k] && strings.HasPrefix(t.Op, "uf:") && e.prog.specByName[t.Op[3:]] != nil {
					keys = append(keys, k)
				}
			}
			sort.Ints(keys)
			for _, k := range keys {
				t := e.terms[k]
				as := make([]*Term, len(t.Args))
				diff := false
				for i, a := range t.Args {
					as[i] = e.simp(e.subst(a, m), f)
					diff = diff || as[i] != a
				}
				if !diff {
					continue
				}
				argd[k] = true
				if q := e.simp(e.Eq(e.UF(t.Op[3:], t.Sort, as...), m[k]), f); !q.IsTrue() {
					cur = append(cur, q)
					changed = true
				}
			}
		}
		if !changed {
			// applications rewritten to something else still are what they are defined as
			var keys []int
			for k := range m {
				if t := e.terms[k]; !done[k] && !defined[k] && strings.HasPrefix(t.Op, "uf:") && e.prog.specByName[t.Op[3:]] != nil && !e.hasIte(t) {
					keys = append(keys, k)
				}
			}
			sort.Ints(keys)
			for _, k := range keys {
				t := e.terms[k]
				if rhs := e.defOf(t); rhs != nil {
					rhs = e.simp(e.subst(e.simp(e.subst(rhs, m), f), m), f)
					if e.newIte(rhs, t) {
						rhs = e.settle(rhs, m, f)
					}
					if !e.newIte(rhs, t) {
						defined[k] = true
						q := e.simp(e.Eq(rhs, m[k]), f)
						if q.IsFalse() {
							return nil
						}
						if !q.IsTrue() {
							changed = true
							cur = append(cur, q)
							e.addFact(f, q)
						}
					}
				}
			}
		}
		if !changed {
			// variables in the goal that are one of several things
			for _, t := range cur {
				if t.Op != "=" {
					continue
				}
				a, b := t.Args[0], t.Args[1]
				if a.Op != "var" || b.Op == "var" && b.id > a.id {
					a, b = b, a
				}
				if a.Op == "var" && m[a.id] == nil && contains(goal, a) {
					if r := e.subst(b, m); !contains(r, a) {
						e.bindTo(m, a, r)
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			break
		}
		for i, t := range cur {
			if t.Op == "=" && (m[t.Args[0].id] == t.Args[1] || m[t.Args[1].id] == t.Args[0]) {
				continue // the equation that orders a rewrite
			}
			u := e.subst(t, m)
			if u != t {
				cur[i] = u
				e.addFact(f, u)
				if u.IsFalse() {
					return nil
				}
			}
		}
	}
	if dbg := os.Getenv("VERIF_DBG"); dbg != "" && (splits == maxSplits || os.Getenv("VERIF_DB0") != "" && e.dry == 0) && strings.Contains(goal.String(), dbg) {
		fmt.Fprintf(os.Stderr, "\nDBG goal %s\nDBG cond %v\n", goal, cond)
		for _, a := range e.specApps([]*Term{goal}) {
			if rhs := e.defOf(a); rhs != nil && strings.Contains(a.String(), dbg) && len(a.String()) < 200 {
				fmt.Fprintf(os.Stderr, "DBG def %s := %s\n", a, e.simp(e.subst(e.simp(e.subst(rhs, m), f), m), f))
			}
		}
		for k, v := range m {
			fmt.Fprintf(os.Stderr, "DBG m %.300s := %.300s\n", e.terms[k], v)
		}
		for _, t := range cur {
			if strings.Contains(t.String(), dbg) || strings.Contains(t.String(), os.Getenv("VERIF_DBC")) {
				fmt.Fprintf(os.Stderr, "DBG cur %s\n", t)
			}
		}
	}
	if splits > 0 && *left > 0 {
		if goal.Op == "and" {
			*left -= len(goal.Args) - 1
			var out []leaf
			for _, g := range goal.Args {
				out = append(out, e.direct(cur, g, m, splits, left)...)
			}
			return out
		}
		if k := e.iteCond(goal); k != nil {
			cond = k
		}
		if cond != nil {
			*left--
			out := e.direct(append(append([]*Term{}, cur...), cond), goal, m, splits-1, left)
			return append(out, e.direct(append(append([]*Term{}, cur...), e.Not(cond)), goal, m, splits-1, left)...)
		}
	}
	as := append(append([]*Term{}, cur...), e.Not(goal))
	// what the rewrites say is not lost
	ids := make([]int, 0, len(m))
	for k := range m {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		if t := e.terms[k]; t.Op != "var" && (!done[k] || t.Sort.K == SBool) {
			as = append(as, e.Eq(t, m[k]))
		}
	}
	as = e.prepare(as, 0)
	for _, a := range as {
		if a.IsFalse() {
			return nil
		}
	}
	return []leaf{{as, goal}}
}

// settle replaces the applications in t of specification functions that do not
// call themselves by what they are, where the facts decide that.
func (e *Exec) settle(t *Term, m map[int]*Term, f *Facts) *Term {
	for round := 0; round < 4; round++ {
		loc := map[int]*Term{}
		for _, a := range e.specApps([]*Term{t}) {
			if e.prog.recursive[a.Op[3:]] || m[a.id] != nil || e.hasIte(a) {
				continue
			}
			if d := e.defOf(a); d != nil {
				d = e.simp(e.subst(e.simp(e.subst(d, m), f), m), f)
				if !e.newIte(d, a) {
					loc[a.id] = d
				}
			}
		}
		if len(loc) == 0 {
			break
		}
		t = e.simp(e.subst(e.simp(e.subst(t, loc), f), m), f)
	}
	return t
}

func (e *Exec) hasIte(t *Term) bool { return e.iteCond(t) != nil }

// iteCond is the condition of an outermost conditional in t.
func (e *Exec) iteCond(t *Term) *Term {
	seen := map[int]bool{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if t.Op == "ite" {
			return t.Args[0]
		}
		if c := e.indexCond(t); c != nil {
			return c
		}
		for _, a := range t.Args {
			if c := w(a); c != nil {
				return c
			}
		}
		return nil
	}
	return w(t)
}

// iteCount is the number of conditionals in t.
func (e *Exec) iteCount(t *Term) int {
	if t == nil {
		return 0
	}
	if n, ok := e.iteN[t.id]; ok {
		return n
	}
	seen := map[int]bool{}
	n := 0
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "ite" {
			n++
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
	e.iteN[t.id] = n
	return n
}

// orient makes a rewrite of an equation about a specification function's result.
func (e *Exec) orient(t *Term, m map[int]*Term) bool {
	if t.Op == "and" {
		r := false
		for _, a := range t.Args {
			if e.orient(a, m) {
				r = true
			}
		}
		return r
	}
	if t.Op != "=" {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	spec := func(t *Term) bool {
		for t.Op == "sel" {
			t = t.Args[0]
		}
		return strings.HasPrefix(t.Op, "uf:") && e.prog.specByName[t.Op[3:]] != nil
	}
	// variables: eliminated
	if a.Op != "var" || b.Op == "var" && b.id > a.id {
		a, b = b, a
	}
	if a.Op == "var" && m[a.id] == nil && !spec(b) && (e.bold || !e.hasIte(b)) {
		r := e.subst(b, m)
		if !contains(r, a) {
			e.bindTo(m, a, r)
			return true
		}
	}
	a, b = t.Args[0], t.Args[1]
	if m[b.id] != nil && m[a.id] == nil {
		a, b = b, a
	}
	if m[b.id] != nil {
		return false
	}
	if m[a.id] != nil {
		if !spec(b) || m[a.id] == b {
			return false
		}
		a, b = b, a
		b = e.subst(b, m)
		if contains(b, a) {
			return false
		}
		e.bindTo(m, a, b)
		return true
	}
	if !spec(a) || spec(b) && b.id < a.id {
		a, b = b, a
	}
	if a.Op != "sel" && b.Op == "sel" && spec(b) {
		a, b = b, a
	}
	if contains(b, a) && spec(b) {
		a, b = b, a
	}
	if !spec(a) || a.IsConst() {
		return false
	}
	b = e.subst(b, m)
	if contains(b, a) || b == a {
		return false
	}
	// b holds no rewritten term now; what led to a leads to b
	e.bindTo(m, a, b)
	return true
}

// bindTo adds the rewrite of a to b to m, whose other rewrites it applies to.
func (e *Exec) bindTo(m map[int]*Term, a, b *Term) {
	one := map[int]*Term{a.id: b}
	keys := make([]int, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		if contains(m[k], a) {
			m[k] = e.subst(m[k], one)
		}
		if kt := e.terms[k]; contains(kt, a) {
			kt = e.subst(kt, one)
			if !kt.IsConst() && m[kt.id] == nil && m[k] != kt {
				m[kt.id] = m[k]
			}
		}
	}
	m[a.id] = b
}

const maxSplits = 6

// structured tells whether an application's arguments show how they are built.
func structured(t *Term) bool {
	for _, a := range t.Args {
		switch a.Op {
		case "str.++", "seq.++", "seq.unit":
			return true
		case "mk":
			if structured(a) {
				return true
			}
		}
	}
	return false
}

// wholes rewrites an application all of whose fields are known.
func (e *Exec) wholes(cur []*Term, m map[int]*Term, f *Facts) bool {
	any := false
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op != "sel" || !strings.HasPrefix(t.Args[0].Op, "uf:") {
			return
		}
		x := t.Args[0]
		if m[x.id] != nil || len(x.Sort.DT.Ctors) != 1 || seen[-x.id] {
			return
		}
		seen[-x.id] = true
		ct := x.Sort.DT.Ctors[0]
		var fs []*Term
		for i := range ct.Fields {
			s := e.Sel(x, 0, i)
			v := m[s.id]
			if v == nil {
				v = f.eq[s.id]
			}
			if v == nil && s.Sort.K == SBool {
				if b, ok := f.lit[s.id]; ok {
					v = e.Bool(b)
				}
			}
			if v == nil || contains(v, x) {
				return
			}
			fs = append(fs, v)
		}
		v := e.Mk(x.Sort, ct.Name, fs...)
		e.bindTo(m, x, v)
		any = true
	}
	for _, t := range cur {
		walk(t)
	}
	return any
}

func contains(t, s *Term) bool {
	seen := map[int]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == s {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// defOf is the body of a specification function's application.
func (e *Exec) defOf(app *Term) *Term {
	if d, ok := e.defs[app.id]; ok {
		return d
	}
	e.unfold(app)
	return e.defs[app.id]
}

// A strategy is a list of queries that together prove a goal if all are refuted.
type strategy []string

type leaf struct {
	as   []*Term
	goal *Term
}

func asStrategy(leaves []leaf) strategy {
	var s strategy
	for _, l := range leaves {
		t, _ := Script(l.as)
		if l.goal != nil {
			t = "; " + strings.ReplaceAll(trunc(l.goal.String(), 4000), "\n", " ") + "\n" + t
		}
		s = append(s, t)
	}
	return s
}

func (s strategy) run(ms int) (Result, string) {
	r, be, _ := s.runAt(ms)
	return r, be
}

// runAt also tells which query was not refuted.
func (s strategy) runAt(ms int) (Result, string, int) {
	be := "simplifier"
	for i, t := range s {
		var r Result
		r, be = solveText(t, ms)
		if r != Unsat {
			return r, be, i
		}
	}
	return Unsat, be, 0
}

// strategies gives ways to prove goal from pc.
func (e *Exec) strategies(pc []*Term, goal *Term) (ss []strategy, proved bool) {
	all := pc
	pc = e.relevant(pc, goal)
	n := 0
	d := e.direct(pc, goal, nil, 0, &n)
	if len(d) == 0 {
		return nil, true
	}
	ss = append(ss, asStrategy(d))
	if len(pc) < len(all) && e.dry == 0 {
		// The path itself may be impossible.
		for _, b := range []bool{false, true} {
			n = 0
			e.bold = b
			d = e.direct(all, e.False, nil, 0, &n)
			e.bold = false
			if len(d) == 0 {
				return nil, true
			}
		}
	}
	n = 0
	e.bold = true
	bold := e.direct(pc, goal, nil, 0, &n)
	e.bold = false
	if len(bold) == 0 {
		return nil, true
	}
	n = 40
	d = e.direct(pc, goal, nil, maxSplits, &n)
	if len(d) == 0 {
		return nil, true
	}
	ss = append(ss, asStrategy(d))
	if e.dry == 0 {
		ss = append(ss, asStrategy(bold))
	}
	all = append(append([]*Term{}, pc...), e.Not(goal))
	last := -1
	for fu := 1; fu <= fuel; fu++ {
		q := e.prepare(all, fu)
		if len(q) == last {
			break
		}
		for _, a := range q {
			if a.IsFalse() {
				return nil, true
			}
		}
		last = len(q)
		ss = append(ss, asStrategy([]leaf{{q, nil}}))
	}
	return ss, false
}

// proves tries to prove goal from pc now.
func (e *Exec) proves(pc []*Term, goal *Term, ms int) bool {
	ss, ok := e.strategies(pc, goal)
	if ok {
		return true
	}
	for _, q := range ss {
		if r, _ := q.run(ms); r == Unsat {
			return true
		}
	}
	return false
}

// ---- builtins ----

func (e *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos, k K) {
	one := func(v Value) { k(st, []Value{v}) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			one(e.Len(x))
		case SliceV:
			one(x.Len)
		case arrayV:
			one(e.arrLen(x.o))
		case MapV:
			if x.Obj == 0 {
				one(e.Int(0))
				return
			}
			n := e.UF("maplen_"+mangle(e.mapTerm(st, x.Obj).Sort.Name), IntS, e.mapTerm(st, x.Obj))
			e.assume(st, e.Ge(n, e.Int(0)))
			one(n)
		case PtrV:
			one(e.arrLen(st.get(x.Obj)))
		default:
			fail("len of %T", x)
		}
		return
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			one(s.Cap)
			return
		}
	case "append":
		one(e.appendB(st, fr, args[0], args[1], c.Args[0].Type(), c.Args[1].Type()))
		return
	case "copy":
		dst := args[0].(SliceV)
		var src *Term
		switch s := args[1].(type) {
		case *Term:
			src = s
		case SliceV:
			src = e.sliceTerm(st, s)
		}
		sl := e.Len(src)
		n := e.Ite(e.Le(sl, dst.Len), sl, dst.Len)
		if d := e.simp(e.Le(sl, dst.Len), e.factsFor(st)); d.IsTrue() {
			n = sl
		} else if d.IsFalse() {
			n = dst.Len
		}
		if dst.Arr != 0 {
			e.writeInto(st, dst, e.Substr(src, e.Int(0), n), n)
		}
		one(n)
		return
	case "print", "println":
		k(st, nil)
		return
	case "min", "max":
		a, bb := e.term(args[0]), e.term(args[1])
		if len(args) == 2 {
			c := e.Le(a, bb)
			if b.Name() == "max" {
				c = e.Ge(a, bb)
			}
			one(e.Ite(c, a, bb))
			return
		}
	case "ssa:wrapnilchk":
		p, ok := e.deref(st, fr, args[0], pos)
		if !ok {
			return
		}
		one(p)
		return
	case "recover":
		fail("recover")
	case "delete":
		m := args[0].(MapV)
		if m.Obj == 0 {
			k(st, nil)
			return
		}
		t := e.mapTerm(st, m.Obj)
		o := st.get(m.Obj)
		cc := *o
		mt := under(o.T).(*types.Map)
		cc.Map = e.Store(t, e.reify(st, args[1], mt.Key()), e.None(t.Sort.Elem))
		st.put(&cc)
		k(st, nil)
		return
	}
	fail("builtin %s", b.Name())
}

// writeInto overwrites the first n elements of a slice.
func (e *Exec) writeInto(st *State, dst SliceV, src *Term, n *Term) {
	o := st.get(dst.Arr)
	if o.Frozen != "" {
		fail("write to memory after %s", o.Frozen)
	}
	if o.To != nil {
		if d, ok := e.constDiff(dst.Off, o.To); !ok || d < 0 {
			fail("write to array elements after they were captured in a term")
		}
	}
	t := e.arrTerm(st, o)
	end := e.Add(dst.Off, n)
	c := *o
	c.Base = e.SeqConcat(t.Sort, e.Substr(t, e.Int(0), dst.Off), src, e.Substr(t, end, e.Sub(e.Len(t), end)))
	c.Elems = nil
	st.put(&c)
}

// appendB models append as allocating. Where Go may have overwritten memory
// shared with another slice, that memory becomes unreadable.
func (e *Exec) appendB(st *State, fr *Frame, a, b Value, ta, tb types.Type) Value {
	s, ok := a.(SliceV)
	if !ok {
		fail("append to %T", a)
	}
	el := under(ta).(*types.Slice).Elem()
	var addTerm *Term
	var addElems []Value
	var n *Term
	switch x := b.(type) {
	case *Term:
		addTerm, n = x, e.Len(x)
	case SliceV:
		n = x.Len
		if x.Arr != 0 {
			o := st.get(x.Arr)
			if o.Tainted != "" {
				fail("read of memory that %s", o.Tainted)
			}
			if o.Base == nil && x.Off.Op == "int" && x.Len.Op == "int" && x.Len.I >= 0 && x.Off.I+x.Len.I <= int64(len(o.Elems)) {
				addElems = o.Elems[x.Off.I : x.Off.I+x.Len.I]
			} else {
				addTerm = e.sliceTerm(st, x)
			}
		}
	default:
		fail("append of %T", b)
	}
	if n.Op == "int" && n.I == 0 {
		return s
	}
	var base *Term
	var elems []Value
	var to *Term
	app := 0
	if s.Arr != 0 {
		o := st.get(s.Arr)
		if o.Tainted != "" {
			fail("read of memory that %s", o.Tainted)
		}
		whole := s.Off.Op == "int" && s.Off.I == 0
		if d, ok := e.constDiff(e.Add(s.Off, s.Len), e.arrLen(o)); !ok || d != 0 {
			// append in the middle of an array may overwrite what follows
			if !(s.Cap == s.Len && s.Capped) && e.pure == 0 {
				c := *o
				c.Tainted = "an append may have overwritten"
				st.put(&c)
			}
			base = e.Substr(e.arrTerm(st, o), s.Off, s.Len)
		} else if whole {
			base, elems, to = o.Base, o.Elems, o.To
		} else {
			base = e.sliceTerm(st, s)
		}
		app = s.Arr
	}
	finish := func(id int) Value {
		if app != 0 && e.pure == 0 {
			// two appends to the same end may share memory: the first one's
			// result can be overwritten by the second
			if o := st.get(app); o.AppTo != 0 && !(s.Cap == s.Len && s.Capped) {
				if b, ok := st.heap[o.AppTo]; ok {
					c := *b
					c.Tainted = "an append to a slice sharing it may have overwritten"
					st.put(&c)
				}
			}
			c := *st.get(app)
			c.AppTo = id
			st.put(&c)
		}
		ln := e.Add(s.Len, n)
		return SliceV{Arr: id, Off: e.Int(0), Len: ln, Cap: ln, Nil: e.And(s.Nil, e.Eq(n, e.Int(0))), Elem: el}
	}
	if isByte(el) {
		var t *Term = e.Str("")
		if base != nil {
			t = base
		}
		for _, v := range elems {
			t = e.Concat(t, e.FromCode(e.term(v)))
		}
		for _, v := range addElems {
			t = e.Concat(t, e.FromCode(e.term(v)))
		}
		if addTerm != nil {
			t = e.Concat(t, addTerm)
		}
		return finish(e.newArr(st, el, t, nil))
	}
	if addTerm != nil {
		es := e.sortOf(el)
		var ps []*Term
		if base != nil {
			ps = append(ps, base)
		}
		for _, v := range elems {
			ps = append(ps, e.SeqUnit(e.reify(st, v, el)))
		}
		ps = append(ps, addTerm)
		base, elems = e.SeqConcat(e.SeqOf(es), ps...), nil
	} else {
		elems = append(append([]Value{}, elems...), addElems...)
	}
	id := e.newArr(st, el, base, elems)
	if to != nil {
		c := *st.get(id)
		c.To = to
		st.put(&c)
	}
	return finish(id)
}

// relevant keeps the hypotheses connected with the goal through variables.
func (e *Exec) relevant(pc []*Term, goal *Term) []*Term {
	gv := e.varsOf(goal)
	if len(gv) == 0 || len(pc) < 4 {
		return pc
	}
	in := map[int]bool{}
	for _, v := range gv {
		in[v] = true
	}
	keep := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if keep[i] {
				continue
			}
			vs := e.varsOf(t)
			hit := len(vs) == 0
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				changed = true
				for _, v := range vs {
					in[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pc {
		if keep[i] {
			out = append(out, t)
		}
	}
	return out
}

// varsOf are the variables in t.
func (e *Exec) varsOf(t *Term) []int {
	if v, ok := e.varMem[t.id]; ok {
		return v
	}
	set := map[int]bool{}
	if t.Op == "var" {
		set[t.id] = true
	}
	for _, a := range t.Args {
		for _, v := range e.varsOf(a) {
			set[v] = true
		}
	}
	out := make([]int, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	e.varMem[t.id] = out
	return out
}
