package main

// Joining paths: where the two sides of a branch meet again and differ only in
// plain values, one path goes on, with the differing values chosen by the
// branch's condition.

import (
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joinCtx collects what arrives at the block where a branch's sides meet.
type joinCtx struct {
	to  *ssa.BasicBlock
	got []arrival
}

type arrival struct {
	st *State
	fr *Frame
	n  int // phis of the block
}

// postdom gives each block's immediate post-dominator, or nil.
func postdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// sets of post-dominators, by index; n stands for the exit
	pd := make([]map[int]bool, n)
	for i := range pd {
		pd[i] = map[int]bool{}
		for j := 0; j < n; j++ {
			pd[i][j] = true
		}
	}
	for chg := true; chg; {
		chg = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var m map[int]bool
			if len(b.Succs) == 0 {
				m = map[int]bool{}
			}
			for _, s := range b.Succs {
				if m == nil {
					m = map[int]bool{}
					for k := range pd[s.Index] {
						m[k] = true
					}
					continue
				}
				for k := range m {
					if !pd[s.Index][k] {
						delete(m, k)
					}
				}
			}
			m[i] = true
			if len(m) != len(pd[i]) {
				pd[i] = m
				chg = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := range pd {
		for j := range pd[i] {
			if j != i && len(pd[j]) == len(pd[i])-1 {
				out[fn.Blocks[i]] = fn.Blocks[j]
			}
		}
	}
	return out
}

func (e *Exec) inSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.HasPrefix(filepath.Base(fn.Prog.Fset.Position(fn.Pos()).Filename), ovPrefix)
}

// meets gives the block at which the sides of a branch are to be joined.
func (e *Exec) meets(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	if e.inSpec(fr.fn) {
		return nil
	}
	pd, ok := e.postdoms[fr.fn]
	if !ok {
		pd = postdom(fr.fn)
		e.postdoms[fr.fn] = pd
	}
	j := pd[b]
	if j == nil {
		return nil
	}
	li := e.prog.loopInfo(fr.fn)
	if li.body[j] != nil {
		return nil // a loop's header
	}
	for h := range li.body {
		if li.body[h][b] != li.body[h][j] {
			return nil
		}
	}
	return j
}

// joined goes on from where the sides of a branch met.
func (e *Exec) joined(base *State, c *Term, jc *joinCtx, k K) {
	got := jc.got
	if len(got) == 2 {
		if m := e.merge(base, c, jc.to, got[0], got[1]); m != nil {
			e.guard(m.st, m.fr, func() { e.block(m.st, m.fr, jc.to, m.n, k) })
			return
		}
	}
	for _, a := range got {
		e.guard(a.st, a.fr, func() { e.block(a.st, a.fr, jc.to, a.n, k) })
	}
}

func hasPrefix(a, b []*Term) bool {
	if len(a) < len(b) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// merge joins two states; it gives nil if they differ in more than plain values.
func (e *Exec) merge(base *State, c *Term, to *ssa.BasicBlock, a, b arrival) *arrival {
	if !hasPrefix(a.st.pc, base.pc) || !hasPrefix(b.st.pc, base.pc) || a.n != b.n || len(a.fr.defers) != len(b.fr.defers) || len(a.fr.loops) != len(b.fr.loops) {
		return nil
	}
	for i := range a.fr.loops {
		if a.fr.loops[i] != b.fr.loops[i] {
			return nil
		}
	}
	// which side is which
	la, lb := a.st.pc[len(base.pc):], b.st.pc[len(base.pc):]
	if len(la) == 0 || len(lb) == 0 || la[0] != c || lb[0] != e.Not(c) {
		return nil
	}
	st := base.clone()
	st.own()
	j := &joiner{e: e, c: c, a: a.st, b: b.st, st: st}
	j.da, j.db = e.defsOf(base, la[1:]), e.defsOf(base, lb[1:])
	for _, t := range la[1:] {
		e.assume(st, e.Or(e.Not(c), t))
	}
	for _, t := range lb[1:] {
		e.assume(st, e.Or(c, t))
	}
	// memory
	for id, o := range a.st.heap {
		p, ok := b.st.heap[id]
		if !ok || o == p {
			st.put(o)
			continue
		}
		j.later = append(j.later, id)
	}
	for id, p := range b.st.heap {
		if _, ok := a.st.heap[id]; !ok {
			st.put(p)
		}
	}
	for _, id := range j.later {
		m := j.obj(a.st.heap[id], b.st.heap[id])
		if m == nil {
			return nil
		}
		st.put(m)
	}
	fr := a.fr.clone()
	for i := 0; i < a.n; i++ {
		p := to.Instrs[i].(*ssa.Phi)
		v, ok := j.val(a.fr.env[p], b.fr.env[p])
		if !ok {
			return nil
		}
		fr.env[p] = v
	}
	for _, f := range j.froze {
		if o, ok := st.heap[f[0]]; ok {
			o := *o
			o.Frozen, o.AppTo = "two paths were joined", f[1]
			st.put(&o)
		}
	}
	if a.st.symM != nil || b.st.symM != nil {
		st.symM = map[int]int{}
		for k, v := range a.st.symM {
			st.symM[k] = v
		}
		for k, v := range b.st.symM {
			if w, ok := st.symM[k]; ok && w != v {
				return nil
			}
			st.symM[k] = v
		}
	}
	st.steps = a.st.steps
	return &arrival{st, fr, a.n}
}

// defs finds what new variables are said to equal.
func (e *Exec) defsOf(base *State, fs []*Term) map[int]*Term {
	var m map[int]*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "and" {
			for _, x := range t.Args {
				add(x)
			}
			return
		}
		if t.Op != "=" {
			return
		}
		for i := 0; i < 2; i++ {
			v, d := t.Args[i], t.Args[1-i]
			if v.Op != "var" || m[v.id] != nil {
				continue
			}
			if m != nil {
				d = e.subst(d, m)
			}
			ok := true
			for _, x := range e.varsOf(d) {
				if x == v.id {
					ok = false
				}
			}
			if ok {
				if m == nil {
					m = map[int]*Term{}
				}
				m[v.id] = d
				return
			}
		}
	}
	for _, t := range fs {
		add(t)
	}
	return m
}

type joiner struct {
	e      *Exec
	c      *Term
	a, b   *State
	st     *State
	da, db map[int]*Term
	later  []int
	froze  [][2]int // arrays, and the arrays that go on from them
}

func (j *joiner) term(x, y *Term) *Term {
	e := j.e
	if x == y {
		return x
	}
	if j.da != nil {
		x = e.subst(x, j.da)
	}
	if j.db != nil {
		y = e.subst(y, j.db)
	}
	if x.Sort.K == SStr {
		return e.iteStr(j.c, x, y)
	}
	return e.Ite(j.c, x, y)
}

// iteStr is one of two texts, with what they have in common outside.
func (e *Exec) iteStr(c, x, y *Term) *Term {
	parts := func(t *Term) []*Term {
		if t.Op == "str.++" {
			return t.Args
		}
		return []*Term{t}
	}
	p, q := parts(x), parts(y)
	var pre, suf []*Term
	for len(p) > 0 && len(q) > 0 && p[0] == q[0] {
		pre = append(pre, p[0])
		p, q = p[1:], q[1:]
	}
	// constants with a common beginning
	if len(p) > 0 && len(q) > 0 && p[0].Op == "str" && q[0].Op == "str" {
		s, t := p[0].S, q[0].S
		n := 0
		for n < len(s) && n < len(t) && s[n] == t[n] {
			n++
		}
		if n > 0 {
			pre = append(pre, e.Str(s[:n]))
			p = append([]*Term{e.Str(s[n:])}, p[1:]...)
			q = append([]*Term{e.Str(t[n:])}, q[1:]...)
		}
	}
	for len(p) > 0 && len(q) > 0 && p[len(p)-1] == q[len(q)-1] {
		suf = append([]*Term{p[len(p)-1]}, suf...)
		p, q = p[:len(p)-1], q[:len(q)-1]
	}
	mid := e.Ite(c, e.Concat(p...), e.Concat(q...))
	return e.Concat(append(append(pre, mid), suf...)...)
}

func (j *joiner) val(x, y Value) (Value, bool) {
	if sameVal(x, y) {
		return x, true
	}
	switch v := x.(type) {
	case *Term:
		w, ok := y.(*Term)
		if !ok || v.Sort != w.Sort {
			return nil, false
		}
		return j.term(v, w), true
	case *StructV:
		w, ok := y.(*StructV)
		if !ok || len(v.F) != len(w.F) {
			return nil, false
		}
		n := &StructV{T: v.T, F: make([]Value, len(v.F))}
		for i := range v.F {
			if n.F[i], ok = j.val(v.F[i], w.F[i]); !ok {
				return nil, false
			}
		}
		return n, true
	case SliceV:
		w, ok := y.(SliceV)
		if !ok || !isByte(v.Elem) || !types.Identical(v.Elem, w.Elem) {
			return nil, false
		}
		e := j.e
		text := func(st *State, s SliceV) *Term {
			if s.Arr == 0 {
				return e.Str("")
			}
			if st.get(s.Arr).Tainted != "" {
				return nil
			}
			return e.sliceTerm(st, s)
		}
		p, q := text(j.a, v), text(j.b, w)
		if p == nil || q == nil {
			return nil, false
		}
		t := j.term(p, q)
		id := e.newArr(j.st, v.Elem, t, nil)
		n := SliceV{Arr: id, Off: e.Int(0), Len: e.Len(t), Cap: e.Len(t), Nil: e.Ite(j.c, v.Nil, w.Nil), Elem: v.Elem}
		if arr, ok := e.arrOf(j.st, id); ok {
			arr.To = n.Len
			j.st.put(arr)
		}
		for _, old := range []int{v.Arr, w.Arr} {
			if old == 0 {
				continue
			}
			j.froze = append(j.froze, [2]int{old, id})
		}
		return n, true
	case IfaceV:
		w, ok := y.(IfaceV)
		if !ok || v.Dyn == nil || w.Dyn == nil || !types.Identical(v.Dyn, w.Dyn) {
			return nil, false
		}
		n, ok := j.val(v.V, w.V)
		return IfaceV{v.Dyn, n}, ok
	case PoisonV:
		return v, true
	}
	if p, ok := y.(PoisonV); ok {
		return p, true
	}
	return nil, false
}

func (e *Exec) arrOf(st *State, id int) (*Obj, bool) {
	o, ok := st.heap[id]
	if !ok {
		return nil, false
	}
	c := *o
	return &c, true
}

func (j *joiner) obj(x, y *Obj) *Obj {
	if x.Arr != y.Arr || (x.Map == nil) != (y.Map == nil) || x.Map != nil && (x.Map != y.Map || len(x.Upd) != len(y.Upd)) {
		return nil
	}
	n := *x
	if x.Frozen == "" {
		n.Frozen = y.Frozen
	}
	if x.Tainted == "" {
		n.Tainted = y.Tainted
	}
	if x.AppTo != y.AppTo {
		// only one array made by appending is remembered: allow no more
		if n.AppTo == 0 {
			n.AppTo = y.AppTo
		} else if y.AppTo != 0 {
			n.Frozen, n.Tainted = "two paths were joined", "two paths that were joined appended to"
		}
	}
	if x.To != y.To {
		n.Frozen = "two paths were joined"
	}
	if x.Arr {
		if x.Base != y.Base || len(x.Elems) != len(y.Elems) {
			return nil
		}
		n.Elems = make([]Value, len(x.Elems))
		for i := range x.Elems {
			v, ok := j.val(x.Elems[i], y.Elems[i])
			if !ok {
				return nil
			}
			n.Elems[i] = v
		}
		return &n
	}
	if x.Map != nil {
		for i := range x.Upd {
			if x.Upd[i].k != y.Upd[i].k || !sameVal(x.Upd[i].v, y.Upd[i].v) {
				return nil
			}
		}
		return &n
	}
	v, ok := j.val(x.Val, y.Val)
	if !ok {
		return nil
	}
	n.Val = v
	return &n
}
