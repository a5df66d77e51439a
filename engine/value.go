package main

// Symbolic values and heap.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, *StructV, PtrV, SymPtrV, SliceV, MapV, IfaceV, FuncV,
// TupleV, PoisonV.
//
// Scalars, strings, errors and ipld.Link values are terms. []byte is a SliceV
// like any other slice; its backing array is a String term.
type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}

type Sel struct {
	F   int
	Idx *Term // non-nil: array index
}

// PtrV points into an object of the heap. Obj 0 is nil.
type PtrV struct {
	Obj  int
	Path []Sel
}

// SymPtrV is a pointer to immutable data known only as an option term.
type SymPtrV struct {
	T    *Term
	Elem types.Type
}

type SliceV struct {
	Arr           int
	Off, Len, Cap *Term
	Nil           *Term
	Elem          types.Type
	Capped        bool // Cap comes from a full slice expression
}

// MapV refers to a map object; Obj 0 is nil.
type MapV struct{ Obj int }

type IfaceV struct {
	Dyn types.Type // nil: nil interface
	V   Value
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Recv Value // bound method value
	Bi   *ssa.Builtin
}

type TupleV []Value

type PoisonV struct{ Why string }

// Obj is a heap object. Objects are immutable: updates replace them.
type Obj struct {
	ID      int
	T       types.Type // type of the object; element type if Arr
	Arr     bool
	Val     Value   // not Arr
	Base    *Term   // Arr: leading elements as one term (may be nil)
	Elems   []Value // Arr: the elements after Base
	Map     *Term   // map content, before Upd
	Upd     []mapUpd
	To      *Term  // Arr: elements below this index must not be written
	Frozen  string // why writes are not allowed
	Tainted string // why reads are not allowed
	AppTo   int    // Arr: the array an append to this one made
}

type mapUpd struct {
	k *Term
	v Value
}

type State struct {
	heap  map[int]*Obj
	owned bool // heap map may be written in place
	pc    []*Term
	facts *Facts
	dec   []decision
	trace []string
	symM  map[int]int // SymPtr term id -> materialised object
	steps int
}

type decision struct {
	c *Term
	v bool
}

func (s *State) clone() *State {
	s.owned = false
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.dec = s.dec[:len(s.dec):len(s.dec)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.owned = false
	return &n
}

func (s *State) own() {
	if s.owned {
		return
	}
	h := make(map[int]*Obj, len(s.heap)+8)
	for k, v := range s.heap {
		h[k] = v
	}
	s.heap = h
	m := make(map[int]int, len(s.symM))
	for k, v := range s.symM {
		m[k] = v
	}
	s.symM = m
	s.owned = true
}

func (s *State) put(o *Obj) {
	s.own()
	s.heap[o.ID] = o
}

func (s *State) get(id int) *Obj {
	o, ok := s.heap[id]
	if !ok {
		panic(unsupp{fmt.Sprintf("unknown object %d", id)})
	}
	return o
}

type unsupp struct{ msg string }

func (u unsupp) Error() string { return u.msg }

func fail(format string, args ...any) { panic(unsupp{fmt.Sprintf(format, args...)}) }

func (e *Exec) newObj(st *State, t types.Type, v Value) int {
	e.nextObj++
	id := e.nextObj
	st.put(&Obj{ID: id, T: t, Val: v})
	return id
}

func (e *Exec) newArr(st *State, elem types.Type, base *Term, elems []Value) int {
	e.nextObj++
	id := e.nextObj
	st.put(&Obj{ID: id, T: elem, Arr: true, Base: base, Elems: elems})
	return id
}

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Exec) isErrorT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isNamed(t types.Type, pkgName, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Name() == pkgName
}

func isLinkT(t types.Type) bool { return isNamed(t, "datamodel", "Link") }

// modelT replaces a dependency's type by its model type from the overlay.
func (e *Exec) modelT(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return t
	}
	k := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	if m, ok := e.prog.modelTypes[k]; ok {
		return m
	}
	return t
}

// sortOf gives the sort of values of type t, or nil if values of t have no
// representation as terms.
func (e *Exec) sortOf(t types.Type) *Sort {
	t = e.modelT(types.Unalias(t))
	if e.isErrorT(t) {
		return IntS
	}
	if isLinkT(t) {
		return LinkS
	}
	key := types.TypeString(t, nil)
	if s, ok := e.sorts[key]; ok {
		return s
	}
	s := e.sortOf1(t, key)
	e.sorts[key] = s
	return s
}

func (e *Exec) sortOf1(t types.Type, key string) *Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsString != 0:
			return StrS
		}
		return nil
	case *types.Slice:
		if isByte(u.Elem()) {
			return StrS
		}
		es := e.sortOf(u.Elem())
		if es == nil {
			return nil
		}
		return e.SeqOf(es)
	case *types.Array:
		if isByte(u.Elem()) {
			return StrS
		}
		es := e.sortOf(u.Elem())
		if es == nil {
			return nil
		}
		return e.SeqOf(es)
	case *types.Pointer:
		if _, ok := under(u.Elem()).(*types.Struct); !ok {
			return nil
		}
		es := e.sortOf(u.Elem())
		if es == nil {
			return nil
		}
		return e.OptOf(es)
	case *types.Map:
		ks, vs := e.sortOf(u.Key()), e.sortOf(u.Elem())
		if ks == nil || vs == nil {
			return nil
		}
		return e.ArrOf(ks, e.OptOf(vs))
	case *types.Struct:
		if u.NumFields() == 1 {
			return e.sortOf(u.Field(0).Type())
		}
		// Conversions between named types of one underlying type keep the
		// value: name the sort by the underlying structure's first name.
		ukey := "struct:" + types.TypeString(u, nil)
		if s, ok := e.sorts[ukey]; ok {
			return s
		}
		n := "D_" + mangle(shortType(t))
		dt := &DataType{Name: n}
		ct := Ctor{Name: "mk_" + n}
		for i := 0; i < u.NumFields(); i++ {
			fs := e.sortOf(u.Field(i).Type())
			if fs == nil {
				return nil
			}
			ct.Fields = append(ct.Fields, CField{fmt.Sprintf("%s_%d_%s", n, i, u.Field(i).Name()), fs})
		}
		dt.Ctors = []Ctor{ct}
		s := &Sort{K: SData, Name: n, DT: dt}
		e.sorts[ukey] = s
		return s
	}
	return nil
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- construction ----

func (e *Exec) nilSlice(elem types.Type) SliceV {
	z := e.Int(0)
	return SliceV{Off: z, Len: z, Cap: z, Nil: e.True, Elem: elem}
}

func (e *Exec) zero(st *State, t types.Type) Value {
	t = e.modelT(types.Unalias(t))
	if e.isErrorT(t) {
		return e.Int(0)
	}
	if isLinkT(t) {
		return e.None(LinkS)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.False
		case u.Info()&types.IsInteger != 0:
			return e.Int(0)
		case u.Info()&types.IsString != 0:
			return e.Str("")
		case u.Kind() == types.UntypedNil:
			return IfaceV{}
		}
		return PoisonV{"zero of " + t.String()}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return e.nilSlice(u.Elem())
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Chan:
		return PoisonV{"chan"}
	case *types.Array:
		return PoisonV{"array value"}
	}
	return PoisonV{"zero of " + t.String()}
}

// freshVal makes an arbitrary value of type t.
func (e *Exec) freshVal(st *State, t types.Type, name string) Value {
	t = e.modelT(types.Unalias(t))
	if e.isErrorT(t) {
		v := e.Fresh(name, IntS)
		e.assume(st, e.Ge(v, e.Int(0)))
		return v
	}
	if isLinkT(t) {
		return e.Fresh(name, LinkS)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.freshVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Basic:
		so := e.sortOf(t)
		if so == nil {
			return PoisonV{"fresh " + t.String()}
		}
		v := e.Fresh(name, so)
		e.assumeRange(st, v, u)
		return v
	}
	so := e.sortOf(t)
	if so == nil {
		return PoisonV{"fresh " + t.String()}
	}
	return e.unreify(st, e.Fresh(name, so), t)
}

func (e *Exec) assumeRange(st *State, v *Term, u *types.Basic) {
	switch u.Kind() {
	case types.Uint8:
		e.assume(st, e.Ge(v, e.Int(0)))
		e.assume(st, e.Le(v, e.Int(255)))
	case types.Uint, types.Uint16, types.Uint32, types.Uint64:
		e.assume(st, e.Ge(v, e.Int(0)))
	}
}

// ---- terms <-> values ----

// reify turns a value of type t into a term.
func (e *Exec) reify(st *State, v Value, t types.Type) *Term {
	t = e.modelT(types.Unalias(t))
	if p, ok := v.(PoisonV); ok {
		fail("use of an unknown value (%s)", p.Why)
	}
	if x, ok := v.(*Term); ok {
		return x
	}
	switch x := v.(type) {
	case *StructV:
		u, ok := under(t).(*types.Struct)
		if !ok {
			fail("reify struct as %s", t)
		}
		if u.NumFields() == 1 {
			return e.reify(st, x.F[0], u.Field(0).Type())
		}
		s := e.sortOf(t)
		if s == nil {
			fail("no term representation for %s", t)
		}
		args := make([]*Term, len(x.F))
		for i := range x.F {
			args[i] = e.reify(st, x.F[i], u.Field(i).Type())
		}
		return e.Mk(s, s.DT.Ctors[0].Name, args...)
	case SliceV:
		return e.sliceTerm(st, x)
	case SymPtrV:
		return x.T
	case PtrV:
		s := e.sortOf(t)
		if s == nil {
			fail("no term representation for pointer %s", t)
		}
		if x.Obj == 0 {
			return e.None(s)
		}
		val := e.loadPtr(st, x, false)
		// What a term has captured must not change afterwards.
		e.freeze(st, x.Obj, "it was captured in a term")
		return e.Some(s, e.reify(st, val, under(t).(*types.Pointer).Elem()))
	case MapV:
		s := e.sortOf(t)
		if s == nil {
			fail("no term representation for map %s", t)
		}
		if x.Obj == 0 {
			return e.ConstArr(s, e.None(s.Elem))
		}
		return e.mapTerm(st, x.Obj)
	case IfaceV:
		if x.Dyn == nil {
			if e.isErrorT(t) {
				return e.Int(0)
			}
			if isLinkT(t) {
				return e.None(LinkS)
			}
		}
	}
	fail("cannot represent %T (%s) as a term", v, t)
	return nil
}

func (e *Exec) freeze(st *State, id int, why string) {
	o := st.get(id)
	c := *o
	if o.Arr {
		c.To = e.arrLen(o)
	} else if o.Frozen != "" {
		return
	} else {
		c.Frozen = why
	}
	st.put(&c)
}

// mapTerm folds the updates of a map object into its term.
func (e *Exec) mapTerm(st *State, id int) *Term {
	o := st.get(id)
	if len(o.Upd) == 0 {
		return o.Map
	}
	mt := under(o.T).(*types.Map)
	vs := o.Map.Sort.Elem
	m := o.Map
	for _, u := range o.Upd {
		m = e.Store(m, u.k, e.Some(vs, e.reify(st, u.v, mt.Elem())))
	}
	c := *st.get(id)
	c.Map, c.Upd = m, nil
	st.put(&c)
	return m
}

func (e *Exec) unreify(st *State, x *Term, t types.Type) Value {
	t = e.modelT(types.Unalias(t))
	if e.isErrorT(t) || isLinkT(t) {
		return x
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return x
	case *types.Struct:
		s := &StructV{T: t}
		if u.NumFields() == 1 {
			s.F = []Value{e.unreify(st, x, u.Field(0).Type())}
			return s
		}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.unreify(st, e.Sel(x, 0, i), u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		if x == e.SeqEmpty(x.Sort) {
			n := e.nilSlice(u.Elem())
			n.Nil = e.Fresh("isnil", BoolS)
			n.Arr = e.newArr(st, u.Elem(), x, nil)
			return n
		}
		// one array object per term: aliases of one value stay one value
		id := e.newArr(st, u.Elem(), x, nil)
		n := e.Len(x)
		if !isByte(u.Elem()) {
			e.freeze(st, id, "")
		}
		isnil := e.UF("isnil_"+mangle(x.Sort.Name), BoolS, x)
		isnil = e.And(isnil, e.Eq(n, e.Int(0)))
		return SliceV{Arr: id, Off: e.Int(0), Len: n, Cap: n, Nil: isnil, Elem: u.Elem()}
	case *types.Pointer:
		if x.Op == "mk" && len(x.Args) == 0 {
			return PtrV{}
		}
		return SymPtrV{x, u.Elem()}
	case *types.Map:
		e.nextObj++
		id := e.nextObj
		st.put(&Obj{ID: id, T: t, Map: x})
		return MapV{id}
	}
	fail("cannot make a %s from a term", t)
	return nil
}

func (e *Exec) arrTerm(st *State, o *Obj) *Term {
	if o.Tainted != "" {
		fail("read of memory that %s", o.Tainted)
	}
	var s *Sort
	if isByte(o.T) {
		s = StrS
	} else {
		es := e.sortOf(o.T)
		if es == nil {
			fail("no term representation for elements %s", o.T)
		}
		s = e.SeqOf(es)
	}
	var ps []*Term
	if o.Base != nil {
		ps = append(ps, o.Base)
	}
	for _, v := range o.Elems {
		x := e.reify(st, v, o.T)
		if s.K == SStr {
			ps = append(ps, e.FromCode(x))
		} else {
			ps = append(ps, e.SeqUnit(x))
		}
	}
	return e.SeqConcat(s, ps...)
}

func (e *Exec) sliceTerm(st *State, s SliceV) *Term {
	if s.Arr == 0 {
		if isByte(s.Elem) {
			return e.Str("")
		}
		es := e.sortOf(s.Elem)
		if es == nil {
			fail("no term representation for elements %s", s.Elem)
		}
		return e.SeqEmpty(e.SeqOf(es))
	}
	return e.Substr(e.arrTerm(st, st.get(s.Arr)), s.Off, s.Len)
}

// bytesVal makes a fresh []byte holding x.
func (e *Exec) bytesVal(st *State, x *Term) SliceV {
	bt := types.Typ[types.Uint8]
	id := e.newArr(st, bt, x, nil)
	n := e.Len(x)
	return SliceV{Arr: id, Off: e.Int(0), Len: n, Cap: n, Nil: e.False, Elem: bt}
}

func (e *Exec) arrLen(o *Obj) *Term {
	n := e.Int(int64(len(o.Elems)))
	if o.Base != nil {
		n = e.Add(n, e.Len(o.Base))
	}
	return n
}

// arrGet reads element idx of an array object.
func (e *Exec) arrGet(st *State, o *Obj, idx *Term) Value {
	if o.Tainted != "" {
		fail("read of memory that %s", o.Tainted)
	}
	bl := e.Int(0)
	if o.Base != nil {
		bl = e.Len(o.Base)
	}
	if d, ok := e.constDiff(idx, bl); ok && d >= 0 && d < int64(len(o.Elems)) {
		return o.Elems[d]
	}
	t := e.arrTerm(st, o)
	if t.Sort.K == SStr {
		return e.ToCode(e.Substr1(t, idx))
	}
	return e.unreify(st, e.Nth(t, idx), o.T)
}

func (e *Exec) arrSet(st *State, o *Obj, idx *Term, v Value) {
	c := *o
	if o.Frozen != "" {
		fail("write to memory after %s", o.Frozen)
	}
	if o.To != nil {
		if d, ok := e.constDiff(idx, o.To); !ok || d < 0 {
			fail("write to an array element after it was captured in a term")
		}
	}
	bl := e.Int(0)
	if o.Base != nil {
		bl = e.Len(o.Base)
	}
	if d, ok := e.constDiff(idx, bl); ok && d >= 0 && d < int64(len(o.Elems)) {
		c.Elems = append([]Value{}, o.Elems...)
		c.Elems[d] = v
		st.put(&c)
		return
	}
	t := e.arrTerm(st, o)
	n := e.Len(t)
	x := e.reify(st, v, o.T)
	var u *Term
	if t.Sort.K == SStr {
		u = e.FromCode(x)
	} else {
		u = e.SeqUnit(x)
	}
	after := e.Add(idx, e.Int(1))
	c.Base = e.SeqConcat(t.Sort, e.Substr(t, e.Int(0), idx), u, e.Substr(t, after, e.Sub(n, after)))
	c.Elems = nil
	st.put(&c)
}

// ---- loads and stores ----

func (e *Exec) getPath(st *State, v Value, path []Sel) Value {
	for i, s := range path {
		if p, ok := v.(PoisonV); ok {
			fail("use of an unknown value (%s)", p.Why)
		}
		if s.Idx != nil {
			fail("index path into %T", v)
		}
		sv, ok := v.(*StructV)
		if !ok {
			fail("field path into %T", v)
		}
		v = sv.F[s.F]
		_ = i
	}
	return v
}

func (e *Exec) setPath(v Value, path []Sel, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	sv, ok := v.(*StructV)
	if !ok {
		fail("store into field of %T", v)
	}
	c := &StructV{T: sv.T, F: append([]Value{}, sv.F...)}
	c.F[path[0].F] = e.setPath(sv.F[path[0].F], path[1:], nv)
	return c
}

func (e *Exec) loadPtr(st *State, p PtrV, _ bool) Value {
	o := st.get(p.Obj)
	if o.Tainted != "" {
		fail("read of memory that %s", o.Tainted)
	}
	if o.Arr {
		if len(p.Path) == 0 {
			return e.arrValue(o)
		}
		return e.getPath(st, e.arrGet(st, o, p.Path[0].Idx), p.Path[1:])
	}
	return e.getPath(st, o.Val, p.Path)
}

// arrValue is an array read as a value.
type arrayV struct{ o *Obj }

func (e *Exec) arrValue(o *Obj) Value { return arrayV{o} }

func (e *Exec) storePtr(st *State, p PtrV, v Value) {
	o := st.get(p.Obj)
	if o.Frozen != "" {
		fail("write to memory after %s", o.Frozen)
	}
	if av, ok := v.(arrayV); ok {
		if !o.Arr || len(p.Path) != 0 {
			fail("array store")
		}
		c := *av.o
		c.ID = o.ID
		st.put(&c)
		return
	}
	if o.Arr {
		if len(p.Path) == 0 {
			if _, ok := v.(PoisonV); ok { // zero array
				return
			}
			fail("array store")
		}
		if len(p.Path) == 1 {
			e.arrSet(st, o, p.Path[0].Idx, v)
			return
		}
		old := e.arrGet(st, o, p.Path[0].Idx)
		e.arrSet(st, st.get(p.Obj), p.Path[0].Idx, e.setPath(old, p.Path[1:], v))
		return
	}
	c := *o
	c.Val = e.setPath(o.Val, p.Path, v)
	st.put(&c)
}

// materialise gives an object for a symbolic data pointer (known not nil).
func (e *Exec) materialise(st *State, p SymPtrV) PtrV {
	if id, ok := st.symM[p.T.id]; ok {
		return PtrV{Obj: id}
	}
	st.own()
	v := e.unreify(st, e.Sel(p.T, 1, 0), p.Elem)
	id := e.newObj(st, p.Elem, v)
	o := st.get(id)
	c := *o
	c.Frozen = "it was handed in as immutable data"
	st.put(&c)
	st.symM[p.T.id] = id
	return PtrV{Obj: id}
}

// sameVal reports whether two values are certainly the same.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case SymPtrV:
		y, ok := b.(SymPtrV)
		return ok && x.T == y.T
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.Arr == y.Arr && x.Off == y.Off && x.Len == y.Len && x.Nil == y.Nil
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.Dyn == nil) != (y.Dyn == nil) {
			return false
		}
		if x.Dyn == nil {
			return true
		}
		return types.Identical(x.Dyn, y.Dyn) && sameVal(x.V, y.V)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case PoisonV:
		_, ok := b.(PoisonV)
		return ok
	case nil:
		return b == nil
	case arrayV:
		y, ok := b.(arrayV)
		return ok && x.o == y.o
	}
	return false
}
