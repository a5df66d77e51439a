package main

// Symbolic execution of go/ssa, path by path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one root.
type Exec struct {
	*Ctx
	prog    *Prog
	root    string
	nextObj int
	sorts   map[string]*Sort

	dry  int // >0: no obligations are recorded
	pure int // >0: evaluating a specification: no obligations, merge branches

	obls         []*Obligation
	oblSeen      map[string]int
	globals      map[*ssa.Global]int
	postdoms     map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	indexed      map[int]bool // arrays indexed so far, if collected
	globInit     map[int]*Obj
	errs         map[int64]IfaceV // error constants made from a typed value
	nextErr      int64
	unfolded     map[int]*Term
	defs         map[int]*Term
	patient      bool
	factSkip     *Term
	iteN         map[int]int
	bold         bool // take definitions with conditionals for rewrites
	factMem      map[int][]*Term
	loopMem      map[*ssa.BasicBlock]*loopMemo
	lemmas       []*contractCtx
	inlined      map[*ssa.Function]bool
	assumed      map[*ssa.Function]bool
	used         map[string]bool // models, facts, lemmas, natives used
	inputs       []*Term
	deadline     time.Time
	steps        int
	loops        map[string]int
	loopDisabled bool
	reached      map[string]bool
	initVals     map[*ssa.Global]Value
	initHeap     []*Obj
	globPC       []*Term
	globErrs     int64
	globAux      map[int]int
	varMem       map[int][]int
	loopSym      map[*ssa.BasicBlock]bool
}

func NewExec(p *Prog, root string) *Exec {
	e := &Exec{Ctx: NewCtx(), prog: p, root: root, sorts: map[string]*Sort{}, oblSeen: map[string]int{},
		globals: map[*ssa.Global]int{}, postdoms: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, globInit: map[int]*Obj{}, errs: map[int64]IfaceV{}, nextErr: 1000,
		unfolded: map[int]*Term{}, defs: map[int]*Term{}, iteN: map[int]int{}, factMem: map[int][]*Term{}, loopMem: map[*ssa.BasicBlock]*loopMemo{},
		inlined: map[*ssa.Function]bool{}, assumed: map[*ssa.Function]bool{}, used: map[string]bool{}, loops: map[string]int{},
		reached: map[string]bool{}, varMem: map[int][]int{}, globAux: map[int]int{}, loopSym: map[*ssa.BasicBlock]bool{}}
	e.deadline = time.Now().Add(rootBudget)
	if globalDeadline.Before(e.deadline) {
		e.deadline = globalDeadline
	}
	return e
}

type K func(st *State, res []Value)

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	inst *ssa.Defer
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	loops  []*loopCtx
	joins  []*joinCtx
	ctr    *contractCtx
	depth  int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	n.joins = f.joins[:len(f.joins):len(f.joins)]
	return &n
}

// ---- assumptions and obligations ----

func (e *Exec) factsFor(st *State) *Facts {
	if st.facts == nil {
		st.facts = e.factsOf(st.pc)
	}
	return st.facts
}

func (e *Exec) assume(st *State, t *Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			e.assume(st, a)
		}
		return
	}
	st.pc = append(st.pc, t)
	st.facts = nil
}

func (e *Exec) isDead(st *State) bool {
	for i := len(st.pc) - 1; i >= 0 && i >= len(st.pc)-8; i-- {
		if st.pc[i].IsFalse() {
			return true
		}
	}
	return false
}

// feasible reports whether the path may be taken (unknown counts as yes).
func (e *Exec) feasible(st *State, c *Term) bool {
	if c.IsFalse() {
		return false
	}
	e.checkTime()
	as := e.prepare(append(append([]*Term{}, st.pc...), c), 0)
	r, _ := solve(as, feasMS)
	return r != Unsat
}

func (e *Exec) checkTime() {
	if time.Now().After(e.deadline) {
		panic(budgetExceeded{})
	}
}

type budgetExceeded struct{}

type Obligation struct {
	Root, Func, Kind, Label, Pos string
	Name                         string
	Ways                         []strategy
	Residual                     string
	Strategy                     int
	Goal                         string
	Res                          Result
	Backend                      string
	Unsupp                       bool
	MS                           int64
	Trace                        []string
	Model                        map[string]string
}

func (e *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.prog.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records the obligation that goal holds here, then assumes it. It
// reports whether the path continues.
func (e *Exec) oblige(st *State, fr *Frame, kind, label string, pos token.Pos, goal *Term) bool {
	if e.pure > 0 && kind == "bounds" {
		return true // specifications are total
	}
	g := e.simp(goal, e.factsFor(st))
	if g.IsTrue() {
		if e.dry == 0 && e.pure == 0 {
			e.record(st, fr, kind, label, pos, g, nil)
		}
		return true
	}
	if e.dry == 0 && e.pure == 0 {
		qs, ok := e.strategies(st.pc, goal)
		if ok {
			qs = nil
		}
		e.record(st, fr, kind, label, pos, g, qs)
	}
	if g.IsFalse() {
		return false
	}
	e.assume(st, goal)
	return true
}

func (e *Exec) record(st *State, fr *Frame, kind, label string, pos token.Pos, g *Term, qs []strategy) {
	o := &Obligation{Root: e.root, Kind: kind, Label: label, Pos: e.posOf(pos), Goal: g.String(), Trace: st.trace}
	if fr != nil {
		o.Func = fr.fn.RelString(e.prog.pkg.Pkg)
	}
	base := fmt.Sprintf("%s/%s/%s/%s", e.root, o.Func, kind, label)
	e.oblSeen[base]++
	o.Name = fmt.Sprintf("%s#%d", base, e.oblSeen[base])
	if qs == nil {
		o.Res, o.Backend = Unsat, "simplifier"
	}
	o.Ways = qs

	e.obls = append(e.obls, o)
}

// unsupported records that a path could not be decided.
func (e *Exec) unsupported(st *State, fr *Frame, pos token.Pos, msg string) {
	if e.dry > 0 || e.pure > 0 {
		return
	}
	if !e.feasible(st, e.True) {
		return
	}
	o := &Obligation{Root: e.root, Kind: "unsupported", Label: msg, Pos: e.posOf(pos), Unsupp: true, Trace: st.trace, Goal: msg}
	if fr != nil {
		o.Func = fr.fn.RelString(e.prog.pkg.Pkg)
	}
	o.Name = fmt.Sprintf("%s/%s/unsupported/%s", e.root, o.Func, msg)
	e.obls = append(e.obls, o)
}

// guard runs f, turning an unsupported construct into a failed obligation.
func (e *Exec) guard(st *State, fr *Frame, f func()) {
	if e.pure > 0 {
		f()
		return
	}
	d, p := e.dry, e.pure
	nl := len(e.lemmas)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupp)
			if !ok {
				if os.Getenv("VERIF_PANIC") != "" {
					debug.PrintStack()
					os.Exit(3)
				}
				panic(r)
			}
			e.dry, e.pure = d, p
			e.lemmas = e.lemmas[:nl]
			var pos token.Pos
			if os.Getenv("VERIF_STACK") != "" {
				panic(r)
			}
			e.unsupported(st, fr, pos, u.msg)
		}
	}()
	f()
}

// ---- functions ----

const maxDepth = 60

func (e *Exec) run(st *State, parent *Frame, fn *ssa.Function, args []Value, bind []Value, ctr *contractCtx, k K) {
	if fn.Blocks == nil {
		fail("call of %s, which has no body here", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, ctr: ctr}
	if parent != nil {
		fr.depth = parent.depth + 1
		if fr.depth > maxDepth {
			fail("calls nested too deeply (recursion in %s?)", fn)
		}
	}
	if len(args) != len(fn.Params) {
		fail("arity of %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	e.block(st, fr, fn.Blocks[0], 0, k)
}

func (e *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Builtin:
		return FuncV{Bi: x}
	case *ssa.Global:
		return PtrV{Obj: e.global(st, x)}
	}
	r, ok := fr.env[v]
	if !ok {
		fail("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (e *Exec) constVal(st *State, x *ssa.Const) Value {
	t := types.Unalias(x.Type())
	if x.Value == nil {
		return e.zero(st, t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		fail("constant of %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsInteger != 0:
		if i, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
			return e.Int(i)
		}
		return e.mk("bigint", IntS, 0, x.Value.ExactString())
	case b.Info()&types.IsString != 0:
		return e.Str(constant.StringVal(x.Value))
	}
	return PoisonV{"constant " + x.String()}
}

func (e *Exec) block(st *State, fr *Frame, b *ssa.BasicBlock, i int, k K) {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps%512 == 0 {
			e.checkTime()
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			e.branch(st, fr, b, in, k)
			return
		case *ssa.Jump:
			e.jump(st, fr, b, b.Succs[0], k)
			return
		case *ssa.Return:
			res := make([]Value, len(in.Results))
			for j, r := range in.Results {
				res[j] = e.val(st, fr, r)
			}
			k(st, res)
			return
		case *ssa.Panic:
			e.oblige(st, fr, "panic", "panic is not reached", in.Pos(), e.False)
			return
		case *ssa.Call:
			j := i + 1
			e.callCommon(st, fr, &in.Call, in.Pos(), func(st *State, res []Value) {
				f := fr.clone()
				switch in.Type().(type) {
				case *types.Tuple:
					f.env[in] = TupleV(res)
				default:
					if len(res) == 1 {
						f.env[in] = res[0]
					}
				}
				e.block(st, f, b, j, k)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, inst: in}
			if !in.Call.IsInvoke() {
				d.fn = e.val(st, fr, in.Call.Value)
			} else {
				d.fn = e.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			j := i + 1
			e.runDefers(st, fr, len(fr.defers)-1, func(st *State, _ []Value) {
				f := fr.clone()
				f.defers = nil
				e.block(st, f, b, j, k)
			})
			return
		case *ssa.Go, *ssa.Select, *ssa.Send:
			fail("concurrency: %s", in)
		case *ssa.TypeAssert:
			j := i + 1
			e.typeAssert(st, fr, in, func(st *State, res []Value) {
				f := fr.clone()
				f.env[in] = res[0]
				e.block(st, f, b, j, k)
			})
			return
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.Store, *ssa.Slice, *ssa.Index, *ssa.Lookup, *ssa.MapUpdate:
			if !e.instr(st, fr, in) {
				return
			}
		default:
			if !e.instr(st, fr, in) {
				return
			}
		}
	}
}

func (e *Exec) runDefers(st *State, fr *Frame, i int, k K) {
	if i < 0 {
		k(st, nil)
		return
	}
	d := fr.defers[i]
	next := func(st *State, _ []Value) { e.runDefers(st, fr, i-1, k) }
	if d.call.IsInvoke() {
		e.invoke(st, fr, d.fn, d.call.Method, d.args, d.inst.Pos(), next)
		return
	}
	e.callValue(st, fr, d.fn, d.args, d.inst.Pos(), next)
}

func (e *Exec) branch(st *State, fr *Frame, b *ssa.BasicBlock, in *ssa.If, k K) {
	cv := e.val(st, fr, in.Cond)
	c, ok := cv.(*Term)
	if !ok {
		if p, isP := cv.(PoisonV); isP {
			fail("branch on an unknown value (%s)", p.Why)
		}
		fail("branch on %T", cv)
	}
	c = e.simp(c, e.factsFor(st))
	if c.IsTrue() {
		e.jump(st, fr, b, b.Succs[0], k)
		return
	}
	if c.IsFalse() {
		e.jump(st, fr, b, b.Succs[1], k)
		return
	}
	if e.pure > 0 {
		s1, s2 := st.clone(), st.clone()
		s1.dec = append(s1.dec, decision{c, true})
		s2.dec = append(s2.dec, decision{c, false})
		e.assume(s1, c)
		e.assume(s2, e.Not(c))
		e.jump(s1, fr.clone(), b, b.Succs[0], k)
		e.jump(s2, fr.clone(), b, b.Succs[1], k)
		return
	}
	line := e.posOf(in.Cond.Pos())
	var jc *joinCtx
	if j := e.meets(fr, b); j != nil {
		jc = &joinCtx{to: j}
	}
	if len(fr.loops) > 0 {
		h := fr.loops[len(fr.loops)-1].header
		body := e.prog.loopInfo(fr.fn).body[h]
		if !body[b.Succs[0]] || !body[b.Succs[1]] {
			if os.Getenv("VERIF_LOOPS") != "" {
				fmt.Fprintln(os.Stderr, "  loop symbolic:", fr.fn, line, trunc(c.String(), 200))
			}
			e.loopSym[h] = true
		}
	}
	for i := 0; i < 2; i++ {
		ci := c
		if i == 1 {
			ci = e.Not(c)
		}
		if !e.feasible(st, ci) {
			continue
		}
		s, f := st.clone(), fr.clone()
		e.assume(s, ci)
		if line != "" {
			s.trace = append(s.trace, fmt.Sprintf("%s %v", line, i == 0))
		}
		if jc != nil {
			f.joins = append(f.joins, jc)
		}
		e.guard(s, f, func() { e.jump(s, f, b, b.Succs[i], k) })
	}
	if jc != nil {
		e.joined(st, c, jc, k)
	}
}

// fork explores alternatives under the given conditions.
func (e *Exec) fork(st *State, fr *Frame, conds []*Term, f func(i int, st *State)) {
	for i, c := range conds {
		ci := e.simp(c, e.factsFor(st))
		if ci.IsFalse() {
			continue
		}
		if e.pure > 0 {
			// decisions must form a binary tree
			s := st.clone()
			for j := 0; j < i; j++ {
				s.dec = append(s.dec, decision{conds[j], false})
				e.assume(s, e.Not(conds[j]))
			}
			if i < len(conds)-1 {
				s.dec = append(s.dec, decision{c, true})
			}
			e.assume(s, c)
			f(i, s)
			continue
		}
		if !ci.IsTrue() && !e.feasible(st, ci) {
			continue
		}
		s := st.clone()
		e.assume(s, ci)
		e.guard(s, fr, func() { f(i, s) })
	}
}

func (e *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock, k K) {
	li := e.prog.loopInfo(fr.fn)
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if li.body[top.header][to] {
			break
		}
		if top.dry {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	// phis
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, fr, ph.Edges[pi]))
		n++
	}
	for j := 0; j < n; j++ {
		fr.env[to.Instrs[j].(*ssa.Phi)] = vals[j]
	}
	if m := len(fr.joins); m > 0 && fr.joins[m-1].to == to {
		jc := fr.joins[m-1]
		fr.joins = fr.joins[:m-1]
		jc.got = append(jc.got, arrival{st, fr, n})
		return
	}
	if li.body[to] != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
			fr.loops[len(fr.loops)-1].back(st, fr, n, k)
			return
		}
		e.enterLoop(st, fr, to, n, k)
		return
	}
	e.block(st, fr, to, n, k)
}

// ---- instructions ----

// instr executes a straight-line instruction; it reports whether the path
// continues.
func (e *Exec) instr(st *State, fr *Frame, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		fr.env[x] = e.alloc(st, under(x.Type()).(*types.Pointer).Elem())
	case *ssa.BinOp:
		v, ok := e.binop(st, fr, x)
		if !ok {
			return false
		}
		fr.env[x] = v
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := e.deref(st, fr, e.val(st, fr, x.X), x.Pos())
			if !ok {
				return false
			}
			fr.env[x] = e.loadPtr(st, p, false)
		case token.NOT:
			fr.env[x] = e.Not(e.term(e.val(st, fr, x.X)))
		case token.SUB:
			fr.env[x] = e.Sub(e.Int(0), e.term(e.val(st, fr, x.X)))
		default:
			fail("unary %s", x.Op)
		}
	case *ssa.Store:
		p, ok := e.deref(st, fr, e.val(st, fr, x.Addr), x.Pos())
		if !ok {
			return false
		}
		e.storePtr(st, p, e.val(st, fr, x.Val))
	case *ssa.FieldAddr:
		p, ok := e.deref(st, fr, e.val(st, fr, x.X), x.Pos())
		if !ok {
			return false
		}
		fr.env[x] = PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], Sel{F: x.Field})}
	case *ssa.Field:
		fr.env[x] = e.getPath(st, e.val(st, fr, x.X), []Sel{{F: x.Field}})
	case *ssa.IndexAddr:
		return e.indexAddr(st, fr, x)
	case *ssa.Index:
		return e.index(st, fr, x)
	case *ssa.Lookup:
		return e.lookup(st, fr, x)
	case *ssa.MapUpdate:
		m, ok := e.val(st, fr, x.Map).(MapV)
		if !ok {
			fail("map update of %T", e.val(st, fr, x.Map))
		}
		if m.Obj == 0 {
			e.oblige(st, fr, "nil", "no write to a nil map", x.Pos(), e.False)
			return false
		}
		o := st.get(m.Obj)
		mt := under(o.T).(*types.Map)
		c := *o
		c.Upd = append(o.Upd[:len(o.Upd):len(o.Upd)], mapUpd{e.reify(st, e.val(st, fr, x.Key), mt.Key()), e.val(st, fr, x.Value)})
		st.put(&c)
	case *ssa.MakeMap:
		fr.env[x] = e.makeMap(st, x.Type())
	case *ssa.MakeSlice:
		n := e.term(e.val(st, fr, x.Len))
		cp := e.term(e.val(st, fr, x.Cap))
		if !e.oblige(st, fr, "bounds", "make length is not negative", x.Pos(), e.And(e.Ge(n, e.Int(0)), e.Le(n, cp))) {
			return false
		}
		el := under(x.Type()).(*types.Slice).Elem()
		fr.env[x] = e.makeSlice(st, el, n, cp)
	case *ssa.Slice:
		return e.slice(st, fr, x)
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.env[x] = e.changeType(st, e.val(st, fr, x.X), x.Type())
	case *ssa.ChangeInterface:
		fr.env[x] = e.changeIface(e.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		fr.env[x] = e.makeIface(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(st, fr, b))
		}
		fr.env[x] = f
	case *ssa.Extract:
		t, ok := e.val(st, fr, x.Tuple).(TupleV)
		if !ok {
			fail("extract from %T", e.val(st, fr, x.Tuple))
		}
		fr.env[x] = t[x.Index]
	case *ssa.Phi:
		fail("phi out of place")
	case *ssa.Range:
		fr.env[x] = e.rangeOver(st, e.val(st, fr, x.X), x)
	case *ssa.Next:
		fail("range over map or string")
	case *ssa.SliceToArrayPointer:
		fail("slice to array conversion")
	default:
		fail("instruction %T", in)
	}
	return true
}

func (e *Exec) rangeOver(st *State, v Value, x *ssa.Range) Value { return PoisonV{"range iterator"} }

func (e *Exec) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, isP := v.(PoisonV); isP {
			fail("use of an unknown value (%s)", p.Why)
		}
		fail("scalar expected, got %T", v)
	}
	return t
}

func (e *Exec) alloc(st *State, t types.Type) PtrV {
	t = types.Unalias(t)
	if a, ok := under(t).(*types.Array); ok {
		if isByte(a.Elem()) {
			return PtrV{Obj: e.newArr(st, a.Elem(), e.Str(strings.Repeat("\x00", int(a.Len()))), nil)}
		}
		if a.Len() > 4096 {
			fail("large array")
		}
		var el []Value
		for i := int64(0); i < a.Len(); i++ {
			el = append(el, e.zero(st, a.Elem()))
		}
		return PtrV{Obj: e.newArr(st, a.Elem(), nil, el)}
	}
	return PtrV{Obj: e.newObj(st, t, e.zero(st, t))}
}

func (e *Exec) makeMap(st *State, t types.Type) MapV {
	s := e.sortOf(t)
	e.nextObj++
	o := &Obj{ID: e.nextObj, T: t}
	if s != nil {
		o.Map = e.ConstArr(s, e.None(s.Elem))
	} else {
		o.Tainted = "is a map whose contents are not modelled"
	}
	st.put(o)
	return MapV{o.ID}
}

func (e *Exec) makeSlice(st *State, el types.Type, n, cp *Term) SliceV {
	if isByte(el) {
		var base *Term
		if n.Op == "int" && n.I <= 1<<16 {
			base = e.Str(strings.Repeat("\x00", int(n.I)))
		} else {
			base = e.Fresh("zeros", StrS)
			e.assume(st, e.Eq(e.Len(base), n))
		}
		return SliceV{Arr: e.newArr(st, el, base, nil), Off: e.Int(0), Len: n, Cap: cp, Nil: e.False, Elem: el}
	}
	if n.Op == "int" && n.I <= 4096 {
		var els []Value
		for i := int64(0); i < n.I; i++ {
			els = append(els, e.zero(st, el))
		}
		return SliceV{Arr: e.newArr(st, el, nil, els), Off: e.Int(0), Len: n, Cap: cp, Nil: e.False, Elem: el}
	}
	s := e.sortOf(el)
	if s == nil {
		fail("make of %s with symbolic length", el)
	}
	base := e.Fresh("made", e.SeqOf(s))
	e.assume(st, e.Eq(e.Len(base), n))
	return SliceV{Arr: e.newArr(st, el, base, nil), Off: e.Int(0), Len: n, Cap: cp, Nil: e.False, Elem: el}
}

// deref checks a pointer for nil and gives the location.
func (e *Exec) deref(st *State, fr *Frame, v Value, pos token.Pos) (PtrV, bool) {
	switch p := v.(type) {
	case PtrV:
		if p.Obj == 0 {
			e.oblige(st, fr, "nil", "no nil dereference", pos, e.False)
			return p, false
		}
		return p, true
	case SymPtrV:
		if !e.oblige(st, fr, "nil", "no nil dereference", pos, e.Not(e.Is(p.T, p.T.Sort.DT.Ctors[0].Name))) {
			return PtrV{}, false
		}
		return e.materialise(st, p), true
	case PoisonV:
		fail("dereference of an unknown pointer (%s)", p.Why)
	}
	fail("dereference of %T", v)
	return PtrV{}, false
}

func (e *Exec) indexAddr(st *State, fr *Frame, x *ssa.IndexAddr) bool {
	idx := e.term(e.val(st, fr, x.Index))
	switch b := e.val(st, fr, x.X).(type) {
	case SliceV:
		if e.indexed != nil {
			e.indexed[b.Arr] = true
		}
		if !e.oblige(st, fr, "bounds", "index in range", x.Pos(), e.And(e.Ge(idx, e.Int(0)), e.Lt(idx, b.Len))) {
			return false
		}
		fr.env[x] = PtrV{b.Arr, []Sel{{Idx: e.Add(b.Off, idx)}}}
	case PtrV:
		o := st.get(b.Obj)
		if !o.Arr || len(b.Path) > 0 {
			fail("index into nested array")
		}
		if !e.oblige(st, fr, "bounds", "index in range", x.Pos(), e.And(e.Ge(idx, e.Int(0)), e.Lt(idx, e.arrLen(o)))) {
			return false
		}
		fr.env[x] = PtrV{b.Obj, []Sel{{Idx: idx}}}
	case PoisonV:
		fail("index of an unknown value (%s)", b.Why)
	default:
		fail("index address of %T", b)
	}
	return true
}

func (e *Exec) index(st *State, fr *Frame, x *ssa.Index) bool {
	idx := e.term(e.val(st, fr, x.Index))
	switch b := e.val(st, fr, x.X).(type) {
	case *Term:
		if !e.oblige(st, fr, "bounds", "string index in range", x.Pos(), e.And(e.Ge(idx, e.Int(0)), e.Lt(idx, e.Len(b)))) {
			return false
		}
		fr.env[x] = e.ToCode(e.Substr1(b, idx))
	case arrayV:
		fr.env[x] = e.arrGet(st, b.o, idx)
	default:
		fail("index of %T", b)
	}
	return true
}

func (e *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) bool {
	switch m := e.val(st, fr, x.X).(type) {
	case *Term:
		idx := e.term(e.val(st, fr, x.Index))
		if !e.oblige(st, fr, "bounds", "string index in range", x.Pos(), e.And(e.Ge(idx, e.Int(0)), e.Lt(idx, e.Len(m)))) {
			return false
		}
		fr.env[x] = e.ToCode(e.Substr1(m, idx))
		return true
	case MapV:
		mt := under(x.X.Type()).(*types.Map)
		key := e.reify(st, e.val(st, fr, x.Index), mt.Key())
		v, ok := e.mapGet(st, m, mt, key)
		if x.CommaOk {
			fr.env[x] = TupleV{v, ok}
		} else {
			fr.env[x] = v
		}
		return true
	default:
		fail("lookup in %T", m)
	}
	return true
}

func (e *Exec) mapGet(st *State, m MapV, mt *types.Map, key *Term) (Value, *Term) {
	if m.Obj == 0 {
		return e.zero(st, mt.Elem()), e.False
	}
	o := st.get(m.Obj)
	if o.Tainted != "" {
		fail("read of memory that %s", o.Tainted)
	}
	for i := len(o.Upd) - 1; i >= 0; i-- {
		eq := e.simp(e.Eq(o.Upd[i].k, key), e.factsFor(st))
		if eq.IsTrue() {
			return o.Upd[i].v, e.True
		}
		if !eq.IsFalse() {
			e.mapTerm(st, m.Obj)
			o = st.get(m.Obj)
			break
		}
	}
	opt := e.Select(o.Map, key)
	some := e.Not(e.Is(opt, opt.Sort.DT.Ctors[0].Name))
	zs := e.sortOf(mt.Elem())
	zt := e.zeroTerm(st, mt.Elem(), zs)
	v := e.Ite(some, e.Sel(opt, 1, 0), zt)
	return e.unreify(st, v, mt.Elem()), some
}

func (e *Exec) zeroTerm(st *State, t types.Type, s *Sort) *Term {
	return e.reify(st, e.zero(st, t), t)
}

func (e *Exec) slice(st *State, fr *Frame, x *ssa.Slice) bool {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(e.val(st, fr, v))
	}
	zero := e.Int(0)
	switch b := e.val(st, fr, x.X).(type) {
	case *Term: // string
		n := e.Len(b)
		lo, hi := opt(x.Low, zero), opt(x.High, n)
		if !e.oblige(st, fr, "bounds", "string slice in range", x.Pos(), e.And(e.Le(zero, lo), e.Le(lo, hi), e.Le(hi, n))) {
			return false
		}
		fr.env[x] = e.Substr(b, lo, e.Sub(hi, lo))
	case SliceV:
		lo, hi := opt(x.Low, zero), opt(x.High, b.Len)
		cp := b.Cap
		if !e.oblige(st, fr, "bounds", "slice in range", x.Pos(), e.And(e.Le(zero, lo), e.Le(lo, hi), e.Le(hi, cp))) {
			return false
		}
		if x.High != nil {
			// reslicing beyond the length would expose memory the term does not hold
			g := e.simp(e.Le(hi, b.Len), e.factsFor(st))
			if !g.IsTrue() && e.pure == 0 {
				e.assumeOrFail(st, fr, g, "reslice beyond the length of a slice")
			}
		}
		nb := b
		nb.Off, nb.Len, nb.Cap = e.Add(b.Off, lo), e.Sub(hi, lo), e.Sub(cp, lo)
		if x.Max != nil {
			nb.Cap = e.Sub(opt(x.Max, cp), lo)
			nb.Capped = true
		}
		fr.env[x] = nb
	case PtrV: // array
		if b.Obj == 0 || len(b.Path) > 0 {
			fail("slice of array inside an object")
		}
		o := st.get(b.Obj)
		n := e.arrLen(o)
		lo, hi := opt(x.Low, zero), opt(x.High, n)
		if !e.oblige(st, fr, "bounds", "slice in range", x.Pos(), e.And(e.Le(zero, lo), e.Le(lo, hi), e.Le(hi, n))) {
			return false
		}
		fr.env[x] = SliceV{Arr: b.Obj, Off: lo, Len: e.Sub(hi, lo), Cap: e.Sub(n, lo), Nil: e.False, Elem: o.T}
	default:
		fail("slice of %T", b)
	}
	return true
}

// assumeOrFail continues under g, which must hold for the engine's model to be
// faithful.
func (e *Exec) assumeOrFail(st *State, fr *Frame, g *Term, what string) {
	if g.IsTrue() {
		return
	}
	if e.dry == 0 && e.pure == 0 {
		as := e.prepare(append(append([]*Term{}, st.pc...), e.Not(g)), 1)
		if r, _ := solve(as, oblMS); r != Unsat {
			fail("%s", what)
		}
	}
	e.assume(st, g)
}

func (e *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	if p, ok := v.(PoisonV); ok {
		return p
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Slice:
				if isByte(f.Elem()) {
					return e.sliceTerm(st, v.(SliceV))
				}
				fail("conversion of %s to string", from)
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				if f.Info()&types.IsInteger != 0 {
					x := e.term(v)
					if x.Op == "int" && x.I >= 0 && x.I < 128 {
						return e.FromCode(x)
					}
					fail("conversion of a symbolic rune to string")
				}
			}
		case t.Info()&types.IsInteger != 0:
			f, ok := fu.(*types.Basic)
			if !ok || f.Info()&types.IsInteger == 0 {
				fail("conversion of %s to %s", from, to)
			}
			return e.wrap(e.term(v), t, f)
		}
	case *types.Slice:
		if f, ok := fu.(*types.Basic); ok && f.Info()&types.IsString != 0 {
			if !isByte(t.Elem()) {
				fail("conversion of string to %s", to)
			}
			return e.bytesVal(st, e.term(v))
		}
		return v
	case *types.Pointer:
		return v
	}
	fail("conversion of %s to %s", from, to)
	return nil
}

func bits(b *types.Basic) (n int, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	}
	return 64, true
}

// wrap converts between integer types. 64-bit integers are mathematical.
func (e *Exec) wrap(x *Term, to, from *types.Basic) *Term {
	tn, tu := bits(to)
	fn, fu := bits(from)
	if tn == 64 && (fn < 64 || !tu || fu) {
		return x
	}
	if x.Op == "int" {
		if tu {
			if tn < 64 {
				return e.Mod(x, e.Int(1<<tn))
			}
			if x.I >= 0 {
				return x
			}
			fail("conversion of a negative constant to unsigned")
		}
	}
	if tn > fn && fu || tn == fn && tu == fu {
		return x
	}
	if x.Op == "str.to_code" && tn >= 8 {
		return x
	}
	if tu && tn < 64 {
		return e.Mod(x, e.Int(1<<tn))
	}
	if tu {
		return x // int to uint64: mathematical, see assumptions
	}
	m := e.Mod(e.Add(x, e.Int(1<<(tn-1))), e.Int(1<<tn))
	return e.Sub(m, e.Int(1<<(tn-1)))
}

func (e *Exec) changeType(st *State, v Value, to types.Type) Value {
	if s, ok := v.(*StructV); ok {
		return &StructV{T: to, F: s.F}
	}
	return v
}

// Interfaces of type error and ipld.Link are terms; all others are IfaceV.
func (e *Exec) makeIface(st *State, v Value, from, to types.Type) Value {
	if e.isErrorT(to) {
		iv := IfaceV{types.Unalias(from), v}
		e.nextErr++
		e.errs[e.nextErr] = iv
		return e.Int(e.nextErr)
	}
	if isLinkT(to) {
		if isNamed(from, "cidlink", "Link") {
			return e.Mk(LinkS, "LCid", e.reify(st, v, from))
		}
		if p, ok := v.(PtrV); ok && p.Obj == 0 {
			return e.Mk(LinkS, "LOther", e.Int(-1))
		}
		return e.Mk(LinkS, "LOther", e.Fresh("otherlink", IntS))
	}
	return IfaceV{types.Unalias(from), v}
}

func (e *Exec) changeIface(v Value, from, to types.Type) Value {
	fe, te := e.isErrorT(from), e.isErrorT(to)
	fl, tl := isLinkT(from), isLinkT(to)
	if fe == te && fl == tl {
		return v
	}
	if t, ok := v.(*Term); ok && fe {
		if t.Op == "int" && t.I == 0 {
			return IfaceV{}
		}
		if t.Op == "int" {
			if iv, ok := e.errs[t.I]; ok {
				return iv
			}
		}
		return IfaceV{Dyn: from, V: t}
	}
	if t, ok := v.(*Term); ok && fl {
		return IfaceV{Dyn: from, V: t}
	}
	if te {
		if iv, ok := v.(IfaceV); ok && iv.Dyn == nil {
			return e.Int(0)
		}
	}
	fail("interface conversion %s to %s", from, to)
	return nil
}

func (e *Exec) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert, k K) {
	v := e.val(st, fr, x.X)
	at := types.Unalias(x.AssertedType)
	ret := func(st *State, ok *Term, val Value) {
		if x.CommaOk {
			k(st, []Value{TupleV{val, ok}})
			return
		}
		if !e.oblige(st, fr, "typeassert", "type assertion to "+shortType(at)+" holds", x.Pos(), ok) {
			return
		}
		k(st, []Value{val})
	}
	zero := func() Value { return e.zero(st, at) }
	switch i := v.(type) {
	case IfaceV:
		if i.Dyn == nil {
			ret(st, e.False, zero())
			return
		}
		if types.IsInterface(at) {
			if types.IsInterface(i.Dyn) {
				if types.Identical(i.Dyn, at) {
					ret(st, e.True, i.V)
					return
				}
				fail("type assertion on a symbolic interface")
			}
			ok := types.Implements(i.Dyn, under(at).(*types.Interface))
			if !ok {
				ret(st, e.False, zero())
				return
			}
			if e.isErrorT(at) {
				ret(st, e.True, e.makeIface(st, i.V, i.Dyn, at))
				return
			}
			ret(st, e.True, i)
			return
		}
		if types.IsInterface(i.Dyn) {
			fail("type assertion on a symbolic interface")
		}
		if types.Identical(i.Dyn, at) {
			ret(st, e.True, i.V)
		} else {
			ret(st, e.False, zero())
		}
		return
	case *Term:
		if isLinkT(x.X.Type()) {
			if isNamed(at, "cidlink", "Link") {
				is := e.Is(i, "LCid")
				ci := 1
				e.fork(st, fr, []*Term{is, e.Not(is)}, func(n int, st *State) {
					if n == 0 {
						ret(st, e.True, e.unreify(st, e.Sel(i, ci, 0), at))
					} else {
						ret(st, e.False, e.zero(st, at))
					}
				})
				return
			}
			fail("type assertion of a link to %s", at)
		}
		if e.isErrorT(x.X.Type()) {
			if i.Op == "int" {
				if iv, ok := e.errs[i.I]; ok && !types.IsInterface(at) {
					if types.Identical(iv.Dyn, at) {
						ret(st, e.True, iv.V)
					} else {
						ret(st, e.False, zero())
					}
					return
				}
				if i.I == 0 {
					ret(st, e.False, zero())
					return
				}
			}
			fail("type assertion on a symbolic error")
		}
	case PoisonV:
		fail("type assertion on an unknown value (%s)", i.Why)
	}
	fail("type assertion on %T", v)
}

// eqVal compares two values of type t.
func (e *Exec) eqVal(st *State, a, b Value, t types.Type) *Term {
	t = types.Unalias(t)
	switch x := a.(type) {
	case *Term:
		switch y := b.(type) {
		case *Term:
			return e.Eq(x, y)
		case IfaceV:
			if y.Dyn == nil && e.isErrorT(t) {
				return e.Eq(x, e.Int(0))
			}
			if y.Dyn == nil && isLinkT(t) {
				return e.Is(x, "LNil")
			}
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			break
		}
		u := under(x.T).(*types.Struct)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, e.eqVal(st, x.F[i], y.F[i], u.Field(i).Type()))
		}
		return e.And(cs...)
	case PtrV:
		switch y := b.(type) {
		case PtrV:
			if sameVal(x, y) {
				return e.True
			}
			if x.Obj != y.Obj {
				// A materialised data pointer may alias nothing else.
				return e.False
			}
			if len(x.Path) == len(y.Path) {
				var cs []*Term
				for i := range x.Path {
					p, q := x.Path[i], y.Path[i]
					if p.Idx == nil && q.Idx == nil {
						if p.F != q.F {
							return e.False
						}
					} else if p.Idx != nil && q.Idx != nil {
						cs = append(cs, e.Eq(p.Idx, q.Idx))
					} else {
						fail("pointer comparison")
					}
				}
				return e.And(cs...)
			}
			return e.False
		case SymPtrV:
			return e.eqVal(st, b, a, t)
		}
	case SymPtrV:
		if y, ok := b.(PtrV); ok {
			if y.Obj == 0 {
				return e.Is(x.T, x.T.Sort.DT.Ctors[0].Name)
			}
			if id, ok := st.symM[x.T.id]; ok && id == y.Obj {
				return e.True
			}
		}
		if y, ok := b.(SymPtrV); ok && y.T == x.T {
			return e.True
		}
		fail("comparison of data pointers")
	case SliceV:
		// only comparison with nil is possible in Go
		y, ok := b.(SliceV)
		if ok && y.Arr == 0 && y.Nil.IsTrue() {
			return x.Nil
		}
		if ok && x.Arr == 0 && x.Nil.IsTrue() {
			return y.Nil
		}
	case MapV:
		y, ok := b.(MapV)
		if ok && (x.Obj == 0 || y.Obj == 0) {
			return e.Bool(x.Obj == y.Obj)
		}
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			if x.Dyn == nil || y.Dyn == nil {
				return e.Bool(x.Dyn == nil && y.Dyn == nil)
			}
			if !types.Identical(x.Dyn, y.Dyn) {
				if types.IsInterface(x.Dyn) || types.IsInterface(y.Dyn) {
					fail("comparison of symbolic interfaces")
				}
				return e.False
			}
			return e.eqVal(st, x.V, y.V, x.Dyn)
		case *Term:
			return e.eqVal(st, b, a, t)
		}
	case FuncV:
		y, ok := b.(FuncV)
		if ok && (x.Fn == nil || y.Fn == nil) {
			return e.Bool(x.Fn == nil && y.Fn == nil)
		}
	case PoisonV:
		fail("comparison of an unknown value (%s)", x.Why)
	}
	if p, ok := b.(PoisonV); ok {
		fail("comparison of an unknown value (%s)", p.Why)
	}
	fail("comparison of %T and %T", a, b)
	return nil
}

func (e *Exec) binop(st *State, fr *Frame, x *ssa.BinOp) (Value, bool) {
	a, b := e.val(st, fr, x.X), e.val(st, fr, x.Y)
	switch x.Op {
	case token.EQL:
		return e.eqVal(st, a, b, x.X.Type()), true
	case token.NEQ:
		return e.Not(e.eqVal(st, a, b, x.X.Type())), true
	}
	s, t := e.term(a), e.term(b)
	bt, _ := under(x.X.Type()).(*types.Basic)
	isStr := bt != nil && bt.Info()&types.IsString != 0
	norm := func(r *Term) *Term {
		if bt == nil {
			return r
		}
		if n, u := bits(bt); n < 64 {
			if r.Op == "int" && u {
				return e.Mod(r, e.Int(1<<n))
			}
			if u {
				return e.Mod(r, e.Int(1<<n))
			}
		}
		return r
	}
	switch x.Op {
	case token.ADD:
		if isStr {
			return e.Concat(s, t), true
		}
		return norm(e.Add(s, t)), true
	case token.SUB:
		return norm(e.Sub(s, t)), true
	case token.MUL:
		return norm(e.Mul(s, t)), true
	case token.QUO, token.REM:
		if !e.oblige(st, fr, "divzero", "no division by zero", x.Pos(), e.Not(e.Eq(t, e.Int(0)))) {
			return nil, false
		}
		if t.Op == "int" && t.I > 0 {
			// Go truncates: split on sign
			nonneg := e.Ge(s, e.Int(0))
			ns := e.Sub(e.Int(0), s)
			if x.Op == token.QUO {
				return e.Ite(nonneg, e.Div(s, t), e.Sub(e.Int(0), e.Div(ns, t))), true
			}
			return e.Ite(nonneg, e.Mod(s, t), e.Sub(e.Int(0), e.Mod(ns, t))), true
		}
		fail("division by a symbolic value")
	case token.LSS:
		if isStr {
			return e.mk("str.<", BoolS, 0, "", s, t), true
		}
		return e.Lt(s, t), true
	case token.LEQ:
		if isStr {
			return e.mk("str.<=", BoolS, 0, "", s, t), true
		}
		return e.Le(s, t), true
	case token.GTR:
		if isStr {
			return e.mk("str.<", BoolS, 0, "", t, s), true
		}
		return e.Gt(s, t), true
	case token.GEQ:
		if isStr {
			return e.mk("str.<=", BoolS, 0, "", t, s), true
		}
		return e.Ge(s, t), true
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		return e.bitop(x.Op, s, t), true
	}
	fail("operator %s", x.Op)
	return nil, false
}

// bitop handles constants, and symbolic values masked with constants.
func (e *Exec) bitop(op token.Token, s, t *Term) *Term {
	if s.Op == "int" && t.Op == "int" {
		a, b := s.I, t.I
		switch op {
		case token.AND:
			return e.Int(a & b)
		case token.OR:
			return e.Int(a | b)
		case token.XOR:
			return e.Int(a ^ b)
		case token.AND_NOT:
			return e.Int(a &^ b)
		case token.SHL:
			return e.Int(a << uint(b))
		case token.SHR:
			return e.Int(a >> uint(b))
		}
	}
	if s.Op == "int" && (op == token.AND || op == token.OR) {
		s, t = t, s
	}
	if t.Op != "int" || t.I < 0 {
		fail("bit operation on symbolic values")
	}
	switch op {
	case token.SHL:
		return e.Mul(s, e.Int(1<<uint(t.I)))
	case token.SHR:
		return e.Div(s, e.Int(1<<uint(t.I)))
	}
	bit := func(i uint) *Term { // bit i of s as 0/1
		return e.Mod(e.Div(s, e.Int(1<<i)), e.Int(2))
	}
	and := e.Int(0)
	for i := uint(0); i < 62; i++ {
		if t.I&(1<<i) != 0 {
			and = e.Add(and, e.Mul(e.Int(1<<i), bit(i)))
		}
	}
	switch op {
	case token.AND:
		return and
	case token.OR:
		return e.Sub(e.Add(s, t), and)
	case token.AND_NOT:
		return e.Sub(s, and)
	case token.XOR:
		return e.Sub(e.Add(s, t), e.Mul(e.Int(2), and))
	}
	fail("bit operation")
	return nil
}
