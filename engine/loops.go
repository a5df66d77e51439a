package main

// Loops: either unrolled, when every decision to leave them is concrete, or
// cut at the header by invariants. Invariants are instances of the templates
// in the specification (conserved quantities, predicates, variants), bound by
// type to what the loop changes, and filtered to an inductive set. Every one
// that is used is an obligation at each back edge.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	header *ssa.BasicBlock
	back   func(st *State, fr *Frame, n int, k K)
	dry    bool // leaving the loop ends the path
	sym    bool // a symbolic exit was seen
}

type loopMemo struct {
	w    map[wkey]bool
	phis map[*ssa.Phi]bool
	keep map[string]bool // candidates found inductive so far; nil: not tried
	bad  map[string]bool
}

// wkey names a heap location the loop changes.
type wkey struct {
	obj  int
	path string
}

const unrollMax = 300
const unrollSym = 12

// unrolled: these functions of the specification loop over what is known.
func unrolled(fn string) bool {
	return strings.HasPrefix(fn, "fill") || strings.HasPrefix(fn, "check") || strings.HasPrefix(fn, "order")
}

func (e *Exec) enterLoop(st *State, fr *Frame, h *ssa.BasicBlock, n int, k K) {
	if e.pure > 0 || e.loopDisabled || len(e.prog.templates) == 0 || e.inSpec(fr.fn) && unrolled(fr.fn.Name()) {
		e.unroll(st, fr, h, n, k)
		return
	}
	lp := &loopRun{e: e, h: h, n: n, entry: st.clone(), efr: fr.clone(), w: map[wkey]bool{}, phis: map[*ssa.Phi]bool{}}
	if !lp.prepare() {
		e.unroll(st, fr, h, n, k)
		return
	}
	lp.final(k)
}

func (e *Exec) unroll(st *State, fr *Frame, h *ssa.BasicBlock, n int, k K) {
	count := 0
	fr = fr.clone()
	var ctx *loopCtx
	mk := func(c int) *loopCtx { return nil }
	mk = func(c int) *loopCtx {
		ctx := &loopCtx{header: h}
		ctx.back = func(st *State, fr *Frame, n int, k K) {
			if c > unrollMax || (e.loopSym[h] && c > unrollSym) {
				fail("loop without an invariant (%s)", e.posOf(h.Instrs[len(h.Instrs)-1].Pos()))
			}
			f := fr.clone()
			f.loops = append(f.loops[:len(f.loops)-1:len(f.loops)-1], mk(c+1))
			e.block(st, f, h, n, k)
		}
		return ctx
	}
	ctx = mk(0)
	_ = count
	fr.loops = append(fr.loops, ctx)
	e.loops["unrolled"]++
	e.block(st, fr, h, n, k)
}

type cand struct {
	t     *template
	key   string
	args  []locator
	entry *Term // cons: value at entry
	head  *Term // at the header: cons, value; var, value; inv, predicate
	hyp   *Term
	auto  func(st *State, fr *Frame) *Term
}

type locator struct {
	key string
	get func(st *State, fr *Frame) Value
	chg bool
}

type loopRun struct {
	e     *Exec
	h     *ssa.BasicBlock
	n     int
	entry *State
	efr   *Frame
	w     map[wkey]bool
	wp    map[wkey][]Sel
	phis  map[*ssa.Phi]bool
	cands []*cand
	idx   map[int]bool // arrays indexed in the body
}

func pathKey(p []Sel) string {
	var b strings.Builder
	for _, s := range p {
		fmt.Fprintf(&b, ".%d", s.F)
	}
	return b.String()
}

func (l *loopRun) phiList() []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.h.Instrs[:l.n] {
		out = append(out, in.(*ssa.Phi))
	}
	return out
}

// prepare finds what the loop changes and which templates are inductive. It
// reports whether any conserved quantity or predicate applies.
func (l *loopRun) prepare() bool {
	e := l.e
	l.wp = map[wkey][]Sel{}
	memo := e.loopMem[l.h]
	if memo == nil {
		memo = &loopMemo{w: map[wkey]bool{}, phis: map[*ssa.Phi]bool{}, bad: map[string]bool{}}
		e.loopMem[l.h] = memo
	}
	// 1. what changes
	outer := e.indexed
	e.indexed = map[int]bool{}
	l.idx = e.indexed
	defer func() {
		for a := range l.idx {
			if outer != nil {
				outer[a] = true
			}
		}
	}()
	for p := range memo.phis {
		l.phis[p] = true
	}
	for round := 0; ; round++ {
		if round > 20 {
			fail("loop: what it changes does not settle")
		}
		st, fr := l.havoc(nil, true)
		grew := false
		base := st.heap
		l.pass(st, fr, func(bst *State, bfr *Frame) {
			if l.diff(base, bst, fr, bfr) {
				grew = true
			}
		})
		if !grew {
			break
		}
	}
	for p := range l.phis {
		memo.phis[p] = true
	}
	e.indexed = outer
	// 2. candidates
	l.instances()
	var cs []*cand
	for _, c := range l.cands {
		if !memo.bad[c.key] {
			cs = append(cs, c)
		}
	}
	l.cands = cs
	if len(l.cands) == 0 {
		return false
	}
	useful := false
	for _, c := range l.cands {
		if c.t != nil && c.t.kind != "var" {
			useful = true
		}
	}
	if !useful {
		return false
	}
	// 3. inductive subset
	for {
		st, fr := l.havoc(l.cands, true)
		dead := map[*cand]bool{}
		var jobs []*houJob
		l.pass(st, fr, func(bst *State, bfr *Frame) {
			for _, c := range l.cands {
				if dead[c] {
					continue
				}
				ok := false
				e.guardQuiet(func() {
					s := bst.clone()
					g := l.goal(c, s, bfr)
					gs := e.simp(g, e.factsFor(s))
					if gs.IsTrue() {
						ok = true
						return
					}
					if gs.IsFalse() {
						return
					}
					qs, triv := e.strategies(s.pc, g)
					ok = true
					if triv {
						return
					}
					j := &houJob{c: c, ways: qs}
					if verboseLoops {
						j.note = fmt.Sprintf("  loop %s: drop %s\n     trace %v\n     goal %s\n", e.posOf(l.h.Instrs[len(l.h.Instrs)-1].Pos()), c.key, bst.trace, trunc(gs.String(), 3000))
					}
					jobs = append(jobs, j)
				})
				if !ok {
					dead[c] = true
				}
			}
		})
		e.checkTime()
		runJobs(jobs, dead, e.patient)
		if len(dead) == 0 {
			break
		}
		var keep []*cand
		for _, c := range l.cands {
			if !dead[c] {
				keep = append(keep, c)
			} else {
				memo.bad[c.key] = true
			}
		}
		l.cands = keep
	}
	if os.Getenv("VERIF_LOOPS") != "" {
		for _, c := range l.cands {
			fmt.Fprintf(os.Stderr, "  loop %s: keep %s\n", e.posOf(l.h.Instrs[len(l.h.Instrs)-1].Pos()), c.key)
		}
	}
	for _, c := range l.cands {
		if c.t != nil && c.t.kind != "var" {
			return true
		}
	}
	return false
}

// pass runs the body once, without obligations, from the header.
func (l *loopRun) pass(st *State, fr *Frame, back func(st *State, fr *Frame)) {
	e := l.e
	e.dry++
	defer func() { e.dry-- }()
	ctx := &loopCtx{header: l.h, dry: true}
	ctx.back = func(st *State, fr *Frame, n int, k K) { back(st, fr) }
	fr.loops = append(fr.loops, ctx)
	e.guard(st, fr, func() {
		e.block(st, fr, l.h, l.n, func(*State, []Value) {})
	})
}

// final runs the body and what follows the loop, with obligations.
func (l *loopRun) final(k K) {
	e := l.e
	st, fr := l.havoc(l.cands, false)
	e.loops["invariant"]++
	base := st.heap
	var variant *cand
	for _, c := range l.cands {
		if c.t == nil || c.t.kind == "var" {
			variant = c
			break
		}
	}
	pos := l.h.Instrs[len(l.h.Instrs)-1].Pos()
	if variant == nil {
		e.oblige(st.clone(), fr, "terminates", "loop has a variant", pos, e.False)
	}
	ctx := &loopCtx{header: l.h}
	hfr := fr.clone()
	ctx.back = func(st *State, bfr *Frame, n int, k K) {
		if l.diff(base, st, hfr, bfr) {
			fail("loop changes more than was found")
		}
		for _, c := range l.cands {
			if c == variant || c.t != nil && c.t.kind != "var" {
				kind, label := "invariant", c.key
				if c == variant {
					kind = "terminates"
				}
				s := l.without(st).clone()
				g := l.goal(c, s, bfr)
				e.oblige(s, bfr, kind, label, pos, g)
			}
		}
	}
	fr.loops = append(fr.loops, ctx)
	e.block(st, fr, l.h, l.n, k)
}

// goal is what must hold at a back edge for candidate c.
func (l *loopRun) goal(c *cand, st *State, fr *Frame) *Term {
	e := l.e
	if c.auto != nil || c.t.kind == "var" {
		v := l.eval(c, st, fr)
		return e.And(e.Ge(c.head, e.Int(0)), e.Lt(v, c.head))
	}
	v := l.eval(c, st, fr)
	if c.t.kind == "inv" {
		return v
	}
	return e.Eq(v, c.head) // the value at the header equals the one at entry
}

// without drops the hypotheses that conserved quantities have their entry
// values, which their preservation does not need.
func (l *loopRun) without(st *State) *State {
	hyp := map[*Term]bool{}
	for _, c := range l.cands {
		if c.hyp != nil {
			hyp[c.hyp] = true
		}
	}
	if len(hyp) == 0 {
		return st
	}
	st = st.clone()
	var pc []*Term
	for _, t := range st.pc {
		if !hyp[t] {
			pc = append(pc, t)
		}
	}
	st.pc = pc
	return st
}

func (l *loopRun) eval(c *cand, st *State, fr *Frame) *Term {
	e := l.e
	if c.auto != nil {
		return c.auto(st, fr)
	}
	args := make([]Value, len(c.args))
	for i, a := range c.args {
		args[i] = a.get(st, fr)
	}
	st2, r := e.pureEval(st, c.t.fn, args, nil)
	*st = *st2
	return e.reify(st, r[0], c.t.fn.Signature.Results().At(0).Type())
}

// havoc makes the state at the header of an arbitrary iteration.
func (l *loopRun) havoc(cands []*cand, quiet bool) (*State, *Frame) {
	e := l.e
	st, fr := l.entry.clone(), l.efr.clone()
	st.own()
	var ks []wkey
	for k := range l.w {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].obj < ks[j].obj || ks[i].obj == ks[j].obj && ks[i].path < ks[j].path
	})
	for _, k := range ks {
		o := st.get(k.obj)
		c := *o
		switch {
		case o.Map != nil:
			c.Map, c.Upd = e.Fresh("loopmap", o.Map.Sort), nil
			st.put(&c)
		case o.Arr:
			t := e.arrTerm(st, o)
			f := e.Fresh("looparr", t.Sort)
			e.assume(st, e.Eq(e.Len(f), e.Len(t)))
			c.Base, c.Elems, c.To = f, nil, nil
			st.put(&c)
		default:
			path := l.wp[k]
			t := o.T
			for _, s := range path {
				t = under(e.modelT(t)).(*types.Struct).Field(s.F).Type()
			}
			v := e.freshVal(st, t, "loop")
			if _, ok := v.(PoisonV); ok {
				v = PoisonV{"changed by a loop"}
			}
			c := *st.get(k.obj)
			c.Val = e.setPath(c.Val, path, v)
			st.put(&c)
		}
	}
	for _, p := range l.phiList() {
		if l.phis[p] {
			fr.env[p] = e.freshVal(st, p.Type(), "phi_"+p.Comment)
		}
	}
	bounded := quiet
	for _, c := range cands {
		s := st
		t := l.eval(c, s, fr)
		c.head = t
		if c.auto != nil || c.t.kind == "var" {
			if !bounded {
				// what decreases in every iteration is not above its first value
				bounded = true
				t0 := l.eval(c, l.entry.clone(), l.efr)
				e.assume(st, e.Or(e.Le(t, t0), e.Eq(t, t0)))
			}
			continue
		}
		switch c.t.kind {
		case "cons":
			c.hyp = e.Eq(t, c.entry)
			if !quiet {
				e.assume(st, c.hyp)
			}
		case "inv":
			e.assume(st, t)
		}
	}
	return st, fr
}

// diff adds what changed between the header and a back edge to the set of
// changed locations; it reports whether the set grew.
func (l *loopRun) diff(base map[int]*Obj, bst *State, hfr, bfr *Frame) bool {
	e := l.e
	grew := false
	for _, p := range l.phiList() {
		if !l.phis[p] && !sameVal(hfr.env[p], bfr.env[p]) {
			l.phis[p] = true
			grew = true
		}
	}
	for id, o := range base {
		n := bst.heap[id]
		if n == o || n == nil {
			continue
		}
		if _, ok := l.entry.heap[id]; !ok {
			continue // made by the havoc itself
		}
		if o.Map != nil {
			if n.Map != o.Map || len(n.Upd) != len(o.Upd) {
				k := wkey{id, ""}
				if !l.w[k] {
					l.w[k], grew = true, true
				}
			}
			continue
		}
		if o.Arr {
			if !sameElems(o, n) {
				k := wkey{id, ""}
				if !l.w[k] {
					l.w[k], grew = true, true
				}
			}
			continue
		}
		var rec func(a, b Value, path []Sel, t types.Type)
		rec = func(a, b Value, path []Sel, t types.Type) {
			if sameVal(a, b) {
				return
			}
			k := wkey{id, pathKey(path)}
			if l.w[k] {
				return
			}
			x, ok1 := a.(*StructV)
			y, ok2 := b.(*StructV)
			if ok1 && ok2 {
				u := under(e.modelT(t)).(*types.Struct)
				for i := range x.F {
					rec(x.F[i], y.F[i], append(path[:len(path):len(path)], Sel{F: i}), u.Field(i).Type())
				}
				return
			}
			l.w[k] = true
			l.wp[k] = path
			grew = true
		}
		rec(o.Val, n.Val, nil, o.T)
	}
	return grew
}

// ---- binding templates ----

func isText(t types.Type) bool { return isNamed(t, "ipldgit", "vText") }

// liveIns are values defined outside the loop that it uses.
func (l *loopRun) liveIns() []ssa.Value {
	body := l.e.prog.loopInfo(l.h.Parent()).body[l.h]
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var bs []*ssa.BasicBlock
	for b := range body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				v := *op
				if seen[v] {
					continue
				}
				seen[v] = true
				if ins, ok := v.(ssa.Instruction); ok && body[ins.Block()] {
					continue
				}
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					continue
				}
				if _, ok := l.efr.env[v]; ok {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// reachable objects from the frame, with one pointer step.
func (l *loopRun) objects() []int {
	e := l.e
	seen := map[int]bool{}
	var out []int
	var addV func(v Value, d int)
	addV = func(v Value, d int) {
		switch x := v.(type) {
		case PtrV:
			if x.Obj != 0 && !seen[x.Obj] {
				seen[x.Obj] = true
				out = append(out, x.Obj)
				if o, ok := l.entry.heap[x.Obj]; ok && !o.Arr && o.Map == nil && d > 0 {
					addV(o.Val, d-1)
				}
			}
		case IfaceV:
			if x.Dyn != nil {
				addV(x.V, d)
			}
		case *StructV:
			for _, f := range x.F {
				addV(f, d)
			}
		case FuncV:
			for _, b := range x.Bind {
				addV(b, d)
			}
		}
	}
	for k := range l.w {
		if !seen[k.obj] {
			seen[k.obj] = true
			out = append(out, k.obj)
		}
	}
	for _, v := range l.efr.env {
		addV(v, 4)
	}
	sort.Ints(out)
	_ = e
	return out
}

// leaves lists the locations inside an object, with their types.
func (l *loopRun) leaves(id int, f func(path []Sel, t types.Type)) {
	e := l.e
	o, ok := l.entry.heap[id]
	if !ok || o.Arr || o.Map != nil {
		return
	}
	var rec func(v Value, path []Sel, t types.Type, d int)
	rec = func(v Value, path []Sel, t types.Type, d int) {
		f(path, t)
		x, ok := v.(*StructV)
		if !ok || d == 0 {
			return
		}
		u, ok := under(e.modelT(t)).(*types.Struct)
		if !ok {
			return
		}
		for i := range x.F {
			rec(x.F[i], append(path[:len(path):len(path)], Sel{F: i}), u.Field(i).Type(), d-1)
		}
	}
	rec(o.Val, nil, o.T, 4)
}

func (l *loopRun) wHas(id int, path []Sel) bool {
	p := pathKey(path)
	for k := range l.w {
		if k.obj == id && (strings.HasPrefix(k.path, p) || strings.HasPrefix(p, k.path)) {
			return true
		}
	}
	return false
}

func (l *loopRun) locators(t types.Type) []locator {
	e := l.e
	t = types.Unalias(t)
	var out []locator
	seen := map[string]bool{}
	add := func(lc locator) {
		if !seen[lc.key] {
			seen[lc.key] = true
			out = append(out, lc)
		}
	}
	textT := isText(t)
	match := func(u types.Type) bool {
		u = types.Unalias(u)
		if textT {
			if s, ok := under(u).(*types.Slice); ok {
				return isByte(s.Elem())
			}
			b, ok := under(u).(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		}
		return types.Identical(e.modelT(u), e.modelT(t))
	}
	conv := func(st *State, v Value) Value {
		if textT {
			return e.strOf(st, v)
		}
		return v
	}
	isInt := false
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		isInt = true
	}
	for i, p := range l.phiList() {
		if !match(p.Type()) {
			continue
		}
		if textT && !l.phis[p] {
			continue
		}
		p := p
		add(locator{fmt.Sprintf("phi%d", i), func(st *State, fr *Frame) Value { return conv(st, fr.env[p]) }, l.phis[p]})
		if isInt {
			add(locator{fmt.Sprintf("phi%d+1", i), func(st *State, fr *Frame) Value { return e.Add(e.term(fr.env[p]), e.Int(1)) }, l.phis[p]})
		}
	}
	if isInt {
		add(locator{"0", func(st *State, fr *Frame) Value { return e.Int(0) }, false})
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		for _, id := range l.objects() {
			id := id
			l.leaves(id, func(path []Sel, u types.Type) {
				if types.Identical(e.modelT(types.Unalias(u)), e.modelT(types.Unalias(pt.Elem()))) && l.wHas(id, path) {
					add(locator{fmt.Sprintf("obj%d%s", id, pathKey(path)), func(*State, *Frame) Value { return PtrV{id, path} }, true})
				}
			})
		}
	}
	if !textT {
		for i, v := range l.liveIns() {
			if match(v.Type()) {
				v := v
				add(locator{fmt.Sprintf("in%d:%s", i, v.Name()), func(st *State, fr *Frame) Value { return fr.env[v] }, false})
			}
		}
	}
	if _, isPtr := under(t).(*types.Pointer); !isPtr && !isInt {
		if _, isB := under(t).(*types.Basic); !isB || textT {
			for _, id := range l.objects() {
				id := id
				l.leaves(id, func(path []Sel, u types.Type) {
					if !match(u) {
						return
					}
					ch := l.wHas(id, path)
					if textT && !ch {
						return
					}
					add(locator{fmt.Sprintf("mem%d%s", id, pathKey(path)), func(st *State, fr *Frame) Value {
						return conv(st, e.loadPtr(st, PtrV{id, path}, false))
					}, ch})
				})
			}
		}
	}
	return out
}

// indexedOnly leaves out lists that do not change and are not looked into in
// the loop, and repetitions.
func (l *loopRun) indexedOnly(ls []locator) []locator {
	var out []locator
	type id struct {
		arr           int
		off, len, nil *Term
	}
	seen := map[id]bool{}
	for _, lc := range ls {
		if !lc.chg {
			if s, ok := lc.get(l.entry, l.efr).(SliceV); ok {
				k := id{s.Arr, s.Off, s.Len, s.Nil}
				if !l.idx[s.Arr] || seen[k] {
					continue
				}
				seen[k] = true
			}
		}
		out = append(out, lc)
	}
	return out
}

func (l *loopRun) instances() {
	e := l.e
	l.cands = nil
	for _, t := range e.prog.templates {
		ps := t.fn.Params
		opts := make([][]locator, len(ps))
		total := 1
		for i, p := range ps {
			opts[i] = l.indexedOnly(l.locators(p.Type()))
			total *= len(opts[i])
			if total == 0 {
				break
			}
		}
		if total == 0 {
			continue
		}
		if total > 400 {
			continue
		}
		for x := 0; x < total; x++ {
			y := x
			c := &cand{t: t}
			chg := false
			var ks []string
			used := map[string]bool{}
			dup := false
			for i := range ps {
				lc := opts[i][y%len(opts[i])]
				y /= len(opts[i])
				c.args = append(c.args, lc)
				ks = append(ks, lc.key)
				chg = chg || lc.chg
				if used[lc.key] && lc.key != "0" {
					dup = true
				}
				used[lc.key] = true
			}
			if !chg || dup {
				continue
			}
			c.key = t.fn.Name() + "(" + strings.Join(ks, ",") + ")"
			l.addCand(c)
		}
	}
	// variants: distance of an index to a length, length of a shrinking slice
	for i, p := range l.phiList() {
		p := p
		if !l.phis[p] {
			continue
		}
		switch v := l.efr.env[p].(type) {
		case *Term:
			if v.Sort.K == SInt {
				if e.isErrorT(p.Type()) {
					continue
				}
				for j, in := range l.liveIns() {
					in := in
					if s, ok := l.efr.env[in].(SliceV); ok {
						l.addCand(&cand{key: fmt.Sprintf("len(in%d)-phi%d", j, i), auto: func(st *State, fr *Frame) *Term {
							return e.Sub(s.Len, e.term(fr.env[p]))
						}})
					}
					if b, ok := l.efr.env[in].(*Term); ok && b.Sort.K == SInt && !e.isErrorT(in.Type()) {
						l.addCand(&cand{key: fmt.Sprintf("in%d-phi%d", j, i), auto: func(st *State, fr *Frame) *Term {
							return e.Sub(b, e.term(fr.env[p]))
						}})
					}
				}
			} else if v.Sort.K == SStr {
				l.addCand(&cand{key: fmt.Sprintf("len(phi%d)", i), auto: func(st *State, fr *Frame) *Term {
					return e.Len(e.term(fr.env[p]))
				}})
			}
		case SliceV:
			l.addCand(&cand{key: fmt.Sprintf("len(phi%d)", i), auto: func(st *State, fr *Frame) *Term {
				return fr.env[p].(SliceV).Len
			}})
		}
	}
}

var verboseLoops = os.Getenv("VERIF_LOOPS") != ""

// A houJob is a candidate's preservation on one way round the loop.
type houJob struct {
	c    *cand
	ways []strategy
	note string
}

func runJobs(jobs []*houJob, dead map[*cand]bool, patient bool) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			for i, t := range j.ways {
				mu.Lock()
				d := dead[j.c] || time.Now().After(globalDeadline)
				if d {
					dead[j.c] = true
				}
				mu.Unlock()
				if d {
					return
				}
				ms := houdiniMS / 2
				if i == len(j.ways)-1 {
					ms = houdiniMS
				}
				if !patient {
					ms = 1000
					if i > 2 {
						break
					}
				}
				r, _, at := t.runAt(ms)
				if r == Unsat {
					return
				}
				if verboseLoops && i == 1 && strings.HasPrefix(t[at], ";") {
					l, _, _ := strings.Cut(t[at], "\n")
					fmt.Fprintf(os.Stderr, "  residual %d of %d: %s\n", at+1, len(t), trunc(l, 3000))
					os.WriteFile("/tmp/fail.smt2", []byte(t[at]), 0o644)
				}
			}
			mu.Lock()
			dead[j.c] = true
			mu.Unlock()
			if j.note != "" {
				fmt.Fprint(os.Stderr, j.note)
			}
		}()
	}
	wg.Wait()
}

// simpArgs simplifies the arguments of an application under what is known.
func (e *Exec) simpArgs(t *Term, st *State) *Term {
	if !strings.HasPrefix(t.Op, "uf:") {
		return t
	}
	f := e.factsFor(st)
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = e.simp(a, f)
	}
	return e.UF(t.Op[3:], t.Sort, as...)
}

func (l *loopRun) addCand(c *cand) {
	e := l.e
	e.guardQuiet(func() {
		if c.auto != nil || c.t.kind == "var" {
			l.cands = append(l.cands, c)
			return
		}
		st := l.entry.clone()
		t := l.eval(c, st, l.efr)
		if c.t.kind == "inv" {
			g := e.simp(t, e.factsFor(st))
			if !g.IsTrue() {
				if !e.proves(st.pc, t, 1000) {
					return
				}
			}
		}
		if c.t.kind == "cons" {
			t = e.simpArgs(t, st)
		}
		c.entry = t
		// must change with the loop
		hs, hf := l.havoc(nil, true)
		if l.eval(c, hs, hf) == t {
			return
		}
		l.cands = append(l.cands, c)
	})
}
