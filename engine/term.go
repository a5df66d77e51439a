package main

// SMT terms: hash-consed, simplified on construction.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SStr
	SSeq
	SData
	SArr
)

// Sort is an SMT sort.
type Sort struct {
	K    SortKind
	Name string // SMT text
	Elem *Sort  // element of a sequence, value of an array
	Key  *Sort
	DT   *DataType
}

type DataType struct {
	Name  string
	Ctors []Ctor
}

type Ctor struct {
	Name   string
	Fields []CField
}

type CField struct {
	Name string
	Sort *Sort
}

var (
	BoolS = &Sort{K: SBool, Name: "Bool"}
	IntS  = &Sort{K: SInt, Name: "Int"}
	StrS  = &Sort{K: SStr, Name: "String"}
)

// LinkDT is the sort of ipld.Link values: nil, a cidlink.Link holding the CID's
// binary form, or some other implementation.
var linkDT = &DataType{Name: "Link", Ctors: []Ctor{
	{Name: "LNil"},
	{Name: "LCid", Fields: []CField{{"lcid", StrS}}},
	{Name: "LOther", Fields: []CField{{"lother", IntS}}},
}}
var LinkS = &Sort{K: SData, Name: "Link", DT: linkDT}

type Term struct {
	Op   string // "int" "str" "bool" "var" or an operator
	Args []*Term
	Sort *Sort
	I    int64
	S    string
	id   int
}

// Ctx owns the terms of one verification root.
type Ctx struct {
	table  map[string]*Term
	terms  []*Term
	nextID int
	fresh  map[string]int
	seqs   map[*Sort]*Sort
	arrs   map[[2]*Sort]*Sort
	opts   map[*Sort]*Sort
	True   *Term
	False  *Term
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, fresh: map[string]int{}, seqs: map[*Sort]*Sort{}, arrs: map[[2]*Sort]*Sort{}, opts: map[*Sort]*Sort{}}
	c.True = c.mk("bool", BoolS, 1, "")
	c.False = c.mk("bool", BoolS, 0, "")
	return c
}

func (c *Ctx) SeqOf(e *Sort) *Sort {
	if s, ok := c.seqs[e]; ok {
		return s
	}
	s := &Sort{K: SSeq, Name: "(Seq " + e.Name + ")", Elem: e}
	c.seqs[e] = s
	return s
}

func (c *Ctx) ArrOf(k, v *Sort) *Sort {
	kk := [2]*Sort{k, v}
	if s, ok := c.arrs[kk]; ok {
		return s
	}
	s := &Sort{K: SArr, Name: "(Array " + k.Name + " " + v.Name + ")", Key: k, Elem: v}
	c.arrs[kk] = s
	return s
}

// OptOf is the sort of pointers to immutable data: none (nil) or some value.
func (c *Ctx) OptOf(e *Sort) *Sort {
	if s, ok := c.opts[e]; ok {
		return s
	}
	n := "Opt_" + mangle(e.Name)
	dt := &DataType{Name: n, Ctors: []Ctor{{Name: "none_" + n}, {Name: "some_" + n, Fields: []CField{{"val_" + n, e}}}}}
	s := &Sort{K: SData, Name: n, DT: dt}
	c.opts[e] = s
	return s
}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) mk(op string, s *Sort, i int64, str string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	b.WriteByte('|')
	if i != 0 {
		b.WriteString(strconv.FormatInt(i, 10))
	}
	b.WriteByte('|')
	b.WriteString(str)
	b.WriteByte('|')
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	k := b.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: s, I: i, S: str, id: c.nextID}
	c.nextID++
	c.table[k] = t
	c.terms = append(c.terms, t)
	return t
}

func (c *Ctx) Int(i int64) *Term  { return c.mk("int", IntS, i, "") }
func (c *Ctx) Str(s string) *Term { return c.mk("str", StrS, 0, s) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, s *Sort) *Term { return c.mk("var", s, 0, name) }
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	prefix = mangle(prefix)
	c.fresh[prefix]++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), s)
}
func (c *Ctx) UF(name string, s *Sort, args ...*Term) *Term {
	return c.mk("uf:"+name, s, 0, "", args...)
}

func (t *Term) IsConst() bool { return t.Op == "int" || t.Op == "str" || t.Op == "bool" }
func (t *Term) IsTrue() bool  { return t.Op == "bool" && t.I == 1 }
func (t *Term) IsFalse() bool { return t.Op == "bool" && t.I == 0 }

// ---- boolean ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "bool":
		return c.Bool(a.I == 0)
	case "not":
		return a.Args[0]
	case ">=0": // not (x>=0)  ==  -x-1>=0
		l := c.toLin(a.Args[0])
		l = l.scale(-1)
		l.k--
		return c.geZero(l)
	}
	return c.mk("not", BoolS, 0, "", a)
}

func (c *Ctx) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsTrue() || seen[t.id] {
			return true
		}
		if t.IsFalse() {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.False
		}
	}
	for _, o := range out {
		if seen[c.Not(o).id] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", BoolS, 0, "", out...)
}

func (c *Ctx) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.IsFalse() || seen[t.id] {
			return true
		}
		if t.IsTrue() {
			return false
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.True
		}
	}
	for _, o := range out {
		if seen[c.Not(o).id] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", BoolS, 0, "", out...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if k.Op == "not" {
		return c.Ite(k.Args[0], b, a)
	}
	if a.Sort.K == SBool {
		if a.IsTrue() {
			return c.Or(k, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(k), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(k), a)
		}
		if b.IsFalse() {
			return c.And(k, a)
		}
		if a == k {
			return c.Or(k, b)
		}
		if b == k {
			return c.And(k, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == k {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == k {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite over the same constructor: push inside, so selectors see through it.
	if a.Op == "mk" && b.Op == "mk" && a.S == b.S && len(a.Args) > 0 {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = c.Ite(k, a.Args[i], b.Args[i])
		}
		return c.Mk(a.Sort, a.S, args...)
	}
	return c.mk("ite", a.Sort, 0, "", k, a, b)
}

// ---- equality ----

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort.K != b.Sort.K {
		panic(fmt.Sprintf("Eq of different sorts: %s %s", a.Sort.Name, b.Sort.Name))
	}
	switch a.Sort.K {
	case SBool:
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
	case SInt:
		// distribute over ite with constant branches (tags, error codes)
		if r := c.eqIte(a, b); r != nil {
			return r
		}
		l := c.toLin(a).sub(c.toLin(b))
		if len(l.m) == 0 {
			return c.Bool(l.k == 0)
		}
		if len(l.m) == 1 {
			for t, co := range l.m {
				if co < 0 {
					co, l = -co, l.scale(-1)
				}
				if l.k%co != 0 {
					return c.False
				}
				v := -l.k / co
				if t.Op == "str.to_code" && v >= 0 && v < 256 {
					return c.Eq(t.Args[0], c.Str(string([]byte{byte(v)})))
				}
				if (t.Op == "str.len" || t.Op == "seq.len") && v < 0 {
					return c.False
				}
				if t.Op == "str.indexof" && t.Args[2].Op == "int" && t.Args[2].I == 0 {
					if v == -1 {
						return c.Not(c.Contains(t.Args[0], t.Args[1]))
					}
					if v < -1 {
						return c.False
					}
				}
				if t.Op == "str.len" && v == 0 {
					return c.Eq(t.Args[0], c.Str(""))
				}
				if t.Op == "seq.len" && v == 0 {
					return c.Eq(t.Args[0], c.SeqEmpty(t.Args[0].Sort))
				}
				return c.mk("=", BoolS, 0, "", t, c.Int(v))
			}
		}
		// canonical sign
		ts := l.sorted()
		if l.m[ts[0]] < 0 {
			l = l.scale(-1)
		}
		k := l.k
		l.k = 0
		return c.mk("=", BoolS, 0, "", c.fromLin(l), c.Int(-k))
	case SStr:
		if a.IsConst() && b.IsConst() {
			return c.False
		}
		if r := c.eqIte(a, b); r != nil {
			return r
		}
		if x, y, ok := c.stripConcat(a, b, "str.++"); ok {
			if x == nil {
				return c.False
			}
			if x != a || y != b {
				return c.Eq(x, y)
			}
		}
		if b.Op == "str" {
			a, b = b, a
		}
		// the first and the last character
		if a.Op == "str" && len(a.S) == 1 && b.Op == "str.at" {
			if i := b.Args[1]; i.Op == "int" && i.I == 0 {
				return c.Prefix(a, b.Args[0])
			}
			if d, ok := c.constDiff(c.Len(b.Args[0]), b.Args[1]); ok && d == 1 {
				return c.Suffix(a, b.Args[0])
			}
		}
		if a.Op == "str" && len(a.S) > 1 && (b.Op == "str.at" || b.Op == "str.from_code") {
			return c.False
		}
		if a.Op == "str" && a.S == "" && b.Op == "str.++" {
			var cs []*Term
			for _, p := range b.Args {
				cs = append(cs, c.Eq(p, a))
			}
			return c.And(cs...)
		}
	case SSeq:
		if r := c.eqIte(a, b); r != nil {
			return r
		}
		if x, y, ok := c.stripConcat(a, b, "seq.++"); ok {
			if x == nil {
				return c.False
			}
			if x != a || y != b {
				return c.Eq(x, y)
			}
		}
		if a.Op == "seq.unit" && b.Op == "seq.unit" {
			return c.Eq(a.Args[0], b.Args[0])
		}
		e := a
		o := b
		if b.Op == "seq.empty" {
			e, o = b, a
		}
		if e.Op == "seq.empty" {
			if o.Op == "seq.unit" {
				return c.False
			}
			if o.Op == "seq.++" {
				var cs []*Term
				for _, p := range o.Args {
					cs = append(cs, c.Eq(p, e))
				}
				return c.And(cs...)
			}
		}
	case SData:
		if a.Op == "mk" && b.Op == "mk" {
			if a.S != b.S {
				return c.False
			}
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
			}
			return c.And(cs...)
		}
		// structs: compare field by field (single constructor)
		if len(a.Sort.DT.Ctors) == 1 && (a.Op == "mk" || b.Op == "mk") {
			var cs []*Term
			for i := range a.Sort.DT.Ctors[0].Fields {
				cs = append(cs, c.Eq(c.Sel(a, 0, i), c.Sel(b, 0, i)))
			}
			return c.And(cs...)
		}
		if a.Op != "mk" && b.Op == "mk" {
			a, b = b, a
		}
		if a.Op == "mk" && len(a.Args) == 0 {
			return c.Is(b, a.S)
		}
		if r := c.eqIte(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", BoolS, 0, "", a, b)
}

// eqIte decides equality of a constant with an ite that has constant leaves.
func (c *Ctx) eqIte(a, b *Term) *Term {
	if a.Op != "ite" {
		a, b = b, a
	}
	if a.Op != "ite" {
		return nil
	}
	conc := func(t *Term) bool {
		return t.IsConst() || t.Op == "mk" || t.Op == "seq.empty" || t.Op == "seq.unit" || t.Op == "seq.++"
	}
	if !conc(b) {
		return nil
	}
	if conc(a.Args[1]) || conc(a.Args[2]) {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	return nil
}

func (c *Ctx) pieces(t *Term, op string) []*Term {
	if t.Op == op {
		return t.Args
	}
	if t.Op == "str" && t.S == "" || t.Op == "seq.empty" {
		return nil
	}
	return []*Term{t}
}

// stripConcat removes the common prefix and suffix of two concatenations.
// It returns nil terms if they are certainly different.
func (c *Ctx) stripConcat(a, b *Term, op string) (*Term, *Term, bool) {
	if a.Op != op && b.Op != op {
		return a, b, false
	}
	pa := append([]*Term{}, c.pieces(a, op)...)
	pb := append([]*Term{}, c.pieces(b, op)...)
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := len(x.S)
			if len(y.S) < n {
				n = len(y.S)
			}
			if x.S[:n] != y.S[:n] {
				return nil, nil, true
			}
			pa, pb = pa[1:], pb[1:]
			if len(x.S) > n {
				pa = append([]*Term{c.Str(x.S[n:])}, pa...)
			}
			if len(y.S) > n {
				pb = append([]*Term{c.Str(y.S[n:])}, pb...)
			}
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := len(x.S)
			if len(y.S) < n {
				n = len(y.S)
			}
			if x.S[len(x.S)-n:] != y.S[len(y.S)-n:] {
				return nil, nil, true
			}
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			if len(x.S) > n {
				pa = append(append([]*Term{}, pa...), c.Str(x.S[:len(x.S)-n]))
			}
			if len(y.S) > n {
				pb = append(append([]*Term{}, pb...), c.Str(y.S[:len(y.S)-n]))
			}
			changed = true
			continue
		}
		break
	}
	if len(pa) == 0 || len(pb) == 0 {
		rest := pa
		if len(pa) == 0 {
			rest = pb
		}
		for _, p := range rest {
			if p.Op == "str" || p.Op == "seq.unit" {
				return nil, nil, true
			}
		}
	}
	if !changed {
		return a, b, true
	}
	if op == "str.++" {
		return c.Concat(pa...), c.Concat(pb...), true
	}
	return c.SeqConcat(a.Sort, pa...), c.SeqConcat(a.Sort, pb...), true
}

// ---- integers ----

type lin struct {
	m map[*Term]int64
	k int64
}

func (c *Ctx) toLin(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	var rec func(t *Term, co int64)
	rec = func(t *Term, co int64) {
		switch t.Op {
		case "int":
			l.k += co * t.I
		case "+":
			for _, a := range t.Args {
				rec(a, co)
			}
		case "*":
			if t.Args[0].Op == "int" {
				rec(t.Args[1], co*t.Args[0].I)
				return
			}
			fallthrough
		default:
			l.m[t] += co
			if l.m[t] == 0 {
				delete(l.m, t)
			}
		}
	}
	rec(t, 1)
	return l
}

func (l lin) scale(k int64) lin {
	r := lin{m: map[*Term]int64{}, k: l.k * k}
	for t, c := range l.m {
		r.m[t] = c * k
	}
	return r
}

func (l lin) sub(o lin) lin {
	r := lin{m: map[*Term]int64{}, k: l.k - o.k}
	for t, c := range l.m {
		r.m[t] = c
	}
	for t, c := range o.m {
		r.m[t] -= c
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (l lin) sorted() []*Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func (c *Ctx) fromLin(l lin) *Term {
	var args []*Term
	for _, t := range l.sorted() {
		co := l.m[t]
		if co == 1 {
			args = append(args, t)
		} else {
			args = append(args, c.mk("*", IntS, 0, "", c.Int(co), t))
		}
	}
	if l.k != 0 || len(args) == 0 {
		args = append(args, c.Int(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", IntS, 0, "", args...)
}

func (c *Ctx) Add(a, b *Term) *Term {
	return c.fromLin(c.toLin(a).sub(c.toLin(b).scale(-1)))
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(c.toLin(a).sub(c.toLin(b))) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		return c.fromLin(c.toLin(b).scale(a.I))
	}
	return c.mk("*", IntS, 0, "", a, b)
}
func (c *Ctx) Div(a, b *Term) *Term { // floor/euclid division, b>0
	if a.Op == "int" && b.Op == "int" && b.I > 0 {
		q := a.I / b.I
		if a.I%b.I < 0 {
			q--
		}
		return c.Int(q)
	}
	return c.mk("div", IntS, 0, "", a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I > 0 {
		r := a.I % b.I
		if r < 0 {
			r += b.I
		}
		return c.Int(r)
	}
	return c.mk("mod", IntS, 0, "", a, b)
}

func nonNeg(t *Term) bool {
	return t.Op == "str.len" || t.Op == "seq.len" || t.Op == "mod"
}

func (c *Ctx) geZero(l lin) *Term {
	if len(l.m) == 0 {
		return c.Bool(l.k >= 0)
	}
	if len(l.m) == 1 {
		for t, co := range l.m {
			if t.Op == "str.indexof" && t.Args[2].Op == "int" && t.Args[2].I == 0 {
				if co == 1 && l.k == 0 {
					return c.Contains(t.Args[0], t.Args[1])
				}
				if co == -1 && l.k == -1 {
					return c.Not(c.Contains(t.Args[0], t.Args[1]))
				}
				if co == 1 && l.k >= 1 {
					return c.True
				}
				if co == -1 && l.k < -1 && t.Args[1].Op == "str" {
					return c.False // idx <= -2
				}
			}
		}
	}
	allp, alln := true, true
	for t, co := range l.m {
		if !nonNeg(t) {
			allp, alln = false, false
			break
		}
		if co < 0 {
			allp = false
		} else {
			alln = false
		}
	}
	if allp && l.k >= 0 {
		return c.True
	}
	if alln && l.k < 0 {
		return c.False
	}
	if alln && l.k == 0 && len(l.m) == 1 {
		for t := range l.m { // -len >= 0
			return c.Eq(t, c.Int(0))
		}
	}
	if allp && l.k == -1 && len(l.m) == 1 {
		for t, co := range l.m {
			if co == 1 && t.Op != "mod" { // len >= 1
				return c.Not(c.Eq(t, c.Int(0)))
			}
		}
	}
	return c.mk(">=0", BoolS, 0, "", c.fromLin(l))
}

func (c *Ctx) Le(a, b *Term) *Term { return c.geZero(c.toLin(b).sub(c.toLin(a))) }
func (c *Ctx) Lt(a, b *Term) *Term {
	l := c.toLin(b).sub(c.toLin(a))
	l.k--
	return c.geZero(l)
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// constDiff returns a-b if it is a constant.
func (c *Ctx) constDiff(a, b *Term) (int64, bool) {
	l := c.toLin(a).sub(c.toLin(b))
	if len(l.m) == 0 {
		return l.k, true
	}
	return 0, false
}

// ---- strings ----

func (c *Ctx) Concat(xs ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "str.++" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.Op == "str" {
			if t.S == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == "str" {
				out[n-1] = c.Str(out[n-1].S + t.S)
				return
			}
		}
		// adjacent substrings of the same string
		if n := len(out); n > 0 && t.Op == "str.substr" && out[n-1].Op == "str.substr" && out[n-1].Args[0] == t.Args[0] {
			p := out[n-1]
			// substr(s,o,l) ++ substr(s,o+l,m): equal to substr(s,o,l+m) when in range.
			if o, ok := c.constDiff(c.Add(p.Args[1], p.Args[2]), t.Args[1]); ok && o == 0 && p.Args[1].Op == "int" && p.Args[2].Op == "int" && c.inRange(t) {
				out[n-1] = c.Substr(t.Args[0], p.Args[1], c.Add(p.Args[2], t.Args[2]))
				return
			}
		}
		out = append(out, t)
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("str.++", StrS, 0, "", out...)
}

func (c *Ctx) inRange(t *Term) bool { return false }

func (c *Ctx) Len(t *Term) *Term {
	switch t.Op {
	case "str":
		return c.Int(int64(len(t.S)))
	case "str.++":
		l := c.Int(0)
		for _, a := range t.Args {
			l = c.Add(l, c.Len(a))
		}
		return l
	case "str.from_code":
		return c.Int(1) // only built for bytes
	case "seq.unit":
		return c.Int(1)
	case "seq.empty":
		return c.Int(0)
	case "seq.++":
		l := c.Int(0)
		for _, a := range t.Args {
			l = c.Add(l, c.Len(a))
		}
		return l
	case "ite":
		if t.Args[1].IsConst() && t.Args[2].IsConst() || t.Sort.K == SSeq {
			return c.Ite(t.Args[0], c.Len(t.Args[1]), c.Len(t.Args[2]))
		}
	}
	if t.Sort.K == SStr {
		return c.mk("str.len", IntS, 0, "", t)
	}
	return c.mk("seq.len", IntS, 0, "", t)
}

// cut splits the pieces of t at offset off, if a boundary is known.
func (c *Ctx) cut(ps []*Term, off *Term) (before, after []*Term, ok bool) {
	pos := c.Int(0)
	for i, p := range ps {
		d, k := c.constDiff(off, pos)
		if k {
			if d == 0 {
				return ps[:i], ps[i:], true
			}
			if d > 0 && p.Op == "str" && d < int64(len(p.S)) {
				b := append(append([]*Term{}, ps[:i]...), c.Str(p.S[:d]))
				a := append([]*Term{c.Str(p.S[d:])}, ps[i+1:]...)
				return b, a, true
			}
		}
		pos = c.Add(pos, c.Len(p))
	}
	if d, k := c.constDiff(off, pos); k && d == 0 {
		return ps, nil, true
	}
	return nil, nil, false
}

// Substr is s[off:off+n] (SMT semantics when out of range).
func (c *Ctx) Substr(s, off, n *Term) *Term {
	op := "str.++"
	join := func(ps []*Term) *Term { return c.Concat(ps...) }
	sub := "str.substr"
	if s.Sort.K == SSeq {
		op, sub = "seq.++", "seq.extract"
		join = func(ps []*Term) *Term { return c.SeqConcat(s.Sort, ps...) }
	}
	if off.Op == "int" && off.I == 0 {
		if d, ok := c.constDiff(n, c.Len(s)); ok && d >= 0 {
			return s
		}
	}
	if n.Op == "int" && n.I <= 0 {
		return join(nil)
	}
	if s.Op == "str" && off.Op == "int" && n.Op == "int" {
		o, m := off.I, n.I
		if o < 0 || o >= int64(len(s.S)) {
			return c.Str("")
		}
		if o+m > int64(len(s.S)) {
			m = int64(len(s.S)) - o
		}
		return c.Str(s.S[o : o+m])
	}
	ps := c.pieces(s, op)
	if len(ps) > 1 || s.Op == "str" || s.Op == "seq.unit" {
		if _, aft, ok := c.cut(ps, off); ok {
			if mid, _, ok := c.cut(aft, n); ok {
				return join(mid)
			}
			if off.Op != "int" || off.I != 0 {
				if !(len(aft) == len(ps)) {
					return c.Substr(join(aft), c.Int(0), n)
				}
			}
		} else if len(ps) > 1 {
			// drop trailing pieces beyond the end, if the end is a boundary
			if bef, _, ok := c.cut(ps, c.Add(off, n)); ok && len(bef) < len(ps) {
				return c.Substr(join(bef), off, n)
			}
			// cut leading pieces before a constant lower bound of off
			if d, ok := c.constDiff(off, c.Len(ps[0])); ok && d > 0 {
				return c.Substr(join(ps[1:]), c.Int(d), n)
			}
		}
	}
	// substr(substr(s,a,b),o,n) with o>=0 const, reaching the end of the inner one
	if s.Op == sub && off.Op == "int" && off.I >= 0 {
		if ia := s.Args[1]; ia.Op == "int" && ia.I >= 0 {
			if d, ok := c.constDiff(c.Add(s.Args[2], ia), c.Len(s.Args[0])); ok && d == 0 {
				// inner is a suffix of s.Args[0]
				return c.Substr(s.Args[0], c.Add(ia, off), n2(c, s, off, n))
			}
		}
	}
	return c.mk(sub, s.Sort, 0, "", s, off, n)
}

// n2 rewrites a length given in terms of the inner string's length when the
// inner string is a constant-offset suffix.
func n2(c *Ctx, inner, off, n *Term) *Term {
	// len(inner) = max(0, len(outer)-ia); if n = len(inner)-k then the result runs
	// to k before the end of outer.
	il := c.mk("str.len", IntS, 0, "", inner)
	if inner.Sort.K == SSeq {
		il = c.mk("seq.len", IntS, 0, "", inner)
	}
	l := c.toLin(n)
	if co, ok := l.m[il]; ok && co == 1 {
		r := c.Sub(n, il)
		return c.Add(r, c.Sub(c.Len(inner.Args[0]), inner.Args[1]))
	}
	return n
}

func (c *Ctx) At(s, i *Term) *Term { return c.Substr1(s, i) }

func (c *Ctx) Substr1(s, i *Term) *Term {
	r := c.Substr(s, i, c.Int(1))
	if r.Op == "str.substr" {
		if d, ok := c.constDiff(r.Args[2], c.Int(1)); ok && d == 0 {
			return c.mk("str.at", StrS, 0, "", r.Args[0], r.Args[1])
		}
	}
	return r
}

func (c *Ctx) ToCode(s *Term) *Term {
	if s.Op == "str" && len(s.S) == 1 {
		return c.Int(int64(s.S[0]))
	}
	if s.Op == "str.from_code" {
		return s.Args[0]
	}
	return c.mk("str.to_code", IntS, 0, "", s)
}

func (c *Ctx) FromCode(i *Term) *Term {
	if i.Op == "int" && i.I >= 0 && i.I < 256 {
		return c.Str(string([]byte{byte(i.I)}))
	}
	if i.Op == "str.to_code" {
		return i.Args[0]
	}
	return c.mk("str.from_code", StrS, 0, "", i)
}

func (c *Ctx) Prefix(p, s *Term) *Term {
	if p.Op == "str" && p.S == "" {
		return c.True
	}
	if p.Op == "str" {
		ps := c.pieces(s, "str.++")
		if s.Op == "str" {
			return c.Bool(strings.HasPrefix(s.S, p.S))
		}
		if len(ps) > 0 && ps[0].Op == "str" {
			n := len(p.S)
			if len(ps[0].S) < n {
				n = len(ps[0].S)
			}
			if p.S[:n] != ps[0].S[:n] {
				return c.False
			}
			if n == len(p.S) {
				return c.True
			}
			return c.Prefix(c.Str(p.S[n:]), c.Concat(ps[1:]...))
		}
		if len(ps) == 0 {
			return c.False
		}
		if s.Op == "ite" && s.Args[1].Op == "str" && s.Args[2].Op == "str" {
			return c.Ite(s.Args[0], c.Prefix(p, s.Args[1]), c.Prefix(p, s.Args[2]))
		}
	}
	if p == s {
		return c.True
	}
	// pieces both begin with
	pp, sp := c.pieces(p, "str.++"), c.pieces(s, "str.++")
	n := 0
	for n < len(pp) && n < len(sp) && pp[n] == sp[n] {
		n++
	}
	if n > 0 {
		return c.Prefix(c.Concat(pp[n:]...), c.Concat(sp[n:]...))
	}
	// what s begins with, cut
	if p.Op == "str.substr" && p.Args[1].Op == "int" && p.Args[1].I == 0 {
		xp := c.pieces(p.Args[0], "str.++")
		n := 0
		for n < len(xp) && n < len(sp) && xp[n] == sp[n] {
			n++
		}
		if n == len(xp) {
			return c.True
		}
		if n == len(xp)-1 && n < len(sp) && xp[n].Op == "str" && sp[n].Op == "str" && strings.HasPrefix(sp[n].S, xp[n].S) {
			return c.True
		}
	}
	return c.mk("str.prefixof", BoolS, 0, "", p, s)
}

func (c *Ctx) Suffix(p, s *Term) *Term {
	if p.Op == "str" && p.S == "" || p == s {
		return c.True
	}
	if p.Op == "str" && s.Op == "str" {
		return c.Bool(strings.HasSuffix(s.S, p.S))
	}
	if p.Op == "str" && s.Op == "str.++" {
		last := s.Args[len(s.Args)-1]
		if last.Op == "str" {
			if len(last.S) >= len(p.S) {
				return c.Bool(strings.HasSuffix(last.S, p.S))
			}
			if !strings.HasSuffix(p.S, last.S) {
				return c.False
			}
		}
	}
	return c.mk("str.suffixof", BoolS, 0, "", p, s)
}

func (c *Ctx) Contains(s, p *Term) *Term {
	if p.Op == "str" && p.S == "" || p == s {
		return c.True
	}
	if s.Op == "str" && p.Op == "str" {
		return c.Bool(strings.Contains(s.S, p.S))
	}
	if p.Op == "str" && len(p.S) == 1 && s.Op == "str.++" {
		var os []*Term
		for _, a := range s.Args {
			os = append(os, c.Contains(a, p))
		}
		return c.Or(os...)
	}
	return c.mk("str.contains", BoolS, 0, "", s, p)
}

// IndexOf is the first index of p in s from off, or -1.
func (c *Ctx) IndexOf(s, p, off *Term) *Term {
	if s.Op == "str" && p.Op == "str" && off.Op == "int" && off.I >= 0 && off.I <= int64(len(s.S)) {
		i := strings.Index(s.S[off.I:], p.S)
		if i < 0 {
			return c.Int(-1)
		}
		return c.Int(int64(i) + off.I)
	}
	if s.Op == "str.++" && s.Args[0].Op == "str" && p.Op == "str" && off.Op == "int" && off.I == 0 {
		if i := strings.Index(s.Args[0].S, p.S); i >= 0 {
			return c.Int(int64(i))
		}
	}
	return c.mk("str.indexof", IntS, 0, "", s, p, off)
}

func (c *Ctx) FromInt(i *Term) *Term {
	if i.Op == "int" {
		if i.I < 0 {
			return c.Str("")
		}
		return c.Str(strconv.FormatInt(i.I, 10))
	}
	return c.mk("str.from_int", StrS, 0, "", i)
}

func (c *Ctx) ToInt(s *Term) *Term {
	if s.Op == "str" {
		if s.S == "" {
			return c.Int(-1)
		}
		for _, b := range []byte(s.S) {
			if b < '0' || b > '9' {
				return c.Int(-1)
			}
		}
		if len(s.S) <= 18 {
			n, _ := strconv.ParseInt(s.S, 10, 64)
			return c.Int(n)
		}
	}
	return c.mk("str.to_int", IntS, 0, "", s)
}

// ---- sequences ----

func (c *Ctx) SeqEmpty(s *Sort) *Term {
	if s.K == SStr {
		return c.Str("")
	}
	return c.mk("seq.empty", s, 0, "")
}
func (c *Ctx) SeqUnit(e *Term) *Term { return c.mk("seq.unit", c.SeqOf(e.Sort), 0, "", e) }
func (c *Ctx) SeqConcat(s *Sort, xs ...*Term) *Term {
	if s.K == SStr {
		return c.Concat(xs...)
	}
	var out []*Term
	for _, x := range xs {
		if x.Op == "seq.++" {
			out = append(out, x.Args...)
		} else if x.Op != "seq.empty" {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return c.SeqEmpty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("seq.++", s, 0, "", out...)
}

func (c *Ctx) Nth(s, i *Term) *Term {
	ps := c.pieces(s, "seq.++")
	if _, aft, ok := c.cut(ps, i); ok && len(aft) > 0 {
		if aft[0].Op == "seq.unit" {
			return aft[0].Args[0]
		}
		if len(aft) < len(ps) {
			// index 0 of what follows; only certain if that piece is not empty
			return c.mk("seq.nth", s.Sort.Elem, 0, "", c.SeqConcat(s.Sort, aft...), c.Int(0))
		}
	}
	if s.Op == "seq.extract" {
		// nth(extract(s,a,n),i) = nth(s,a+i) when in range; callers check ranges
		if s.Args[1].Op == "int" && s.Args[1].I >= 0 && i.Op == "int" && i.I >= 0 {
			if d, ok := c.constDiff(c.Add(s.Args[1], s.Args[2]), c.Len(s.Args[0])); ok && d == 0 {
				return c.Nth(s.Args[0], c.Add(s.Args[1], i))
			}
		}
	}
	return c.mk("seq.nth", s.Sort.Elem, 0, "", s, i)
}

// ---- data types ----

func (c *Ctx) Mk(s *Sort, ctor string, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x for single-constructor types
	if len(s.DT.Ctors) == 1 && len(args) > 0 {
		var x *Term
		ok := true
		for i, a := range args {
			if a.Op != "sel" || a.I != int64(i) || a.Args[0].Sort != s || x != nil && a.Args[0] != x {
				ok = false
				break
			}
			x = a.Args[0]
		}
		if ok {
			return x
		}
	}
	return c.mk("mk", s, 0, ctor, args...)
}

func (s *Sort) ctorIdx(name string) int {
	for i, ct := range s.DT.Ctors {
		if ct.Name == name {
			return i
		}
	}
	panic("no constructor " + name)
}

// Sel selects field i of constructor ci.
func (c *Ctx) Sel(t *Term, ci, i int) *Term {
	ct := t.Sort.DT.Ctors[ci]
	if t.Op == "mk" && t.S == ct.Name {
		return t.Args[i]
	}
	if t.Op == "ite" {
		a, b := t.Args[1], t.Args[2]
		if a.Op == "mk" || b.Op == "mk" || a.Op == "ite" || b.Op == "ite" {
			return c.Ite(t.Args[0], c.Sel(a, ci, i), c.Sel(b, ci, i))
		}
	}
	return c.mk("sel", ct.Fields[i].Sort, int64(i), ct.Fields[i].Name, t)
}

func (c *Ctx) Is(t *Term, ctor string) *Term {
	if len(t.Sort.DT.Ctors) == 1 {
		return c.True
	}
	if t.Op == "mk" {
		return c.Bool(t.S == ctor)
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.Is(t.Args[1], ctor), c.Is(t.Args[2], ctor))
	}
	if cs := t.Sort.DT.Ctors; len(cs) == 2 && ctor == cs[1].Name {
		return c.Not(c.Is(t, cs[0].Name))
	}
	return c.mk("is", BoolS, 0, ctor, t)
}

func (c *Ctx) None(s *Sort) *Term          { return c.mk("mk", s, 0, s.DT.Ctors[0].Name) }
func (c *Ctx) Some(s *Sort, v *Term) *Term { return c.mk("mk", s, 0, s.DT.Ctors[1].Name, v) }

// ---- arrays ----

func (c *Ctx) Select(a, k *Term) *Term {
	for a.Op == "store" {
		e := c.Eq(a.Args[1], k)
		if e.IsTrue() {
			return a.Args[2]
		}
		if !e.IsFalse() {
			break
		}
		a = a.Args[0]
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return c.mk("select", a.Sort.Elem, 0, "", a, k)
}
func (c *Ctx) Store(a, k, v *Term) *Term { return c.mk("store", a.Sort, 0, "", a, k, v) }
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk("constarr", s, 0, "", v)
}

// rebuild makes the same operator with other arguments, simplifying.
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	same := true
	for i := range a {
		if a[i] != t.Args[i] {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "+":
		r := c.Int(0)
		for _, x := range a {
			r = c.Add(r, x)
		}
		return r
	case "*":
		return c.Mul(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case ">=0":
		return c.geZero(c.toLin(a[0]))
	case "str.++":
		return c.Concat(a...)
	case "str.len", "seq.len":
		return c.Len(a[0])
	case "str.substr", "seq.extract":
		return c.Substr(a[0], a[1], a[2])
	case "str.at":
		return c.Substr1(a[0], a[1])
	case "str.to_code":
		return c.ToCode(a[0])
	case "str.from_code":
		return c.FromCode(a[0])
	case "str.prefixof":
		return c.Prefix(a[0], a[1])
	case "str.suffixof":
		return c.Suffix(a[0], a[1])
	case "str.contains":
		return c.Contains(a[0], a[1])
	case "str.indexof":
		return c.IndexOf(a[0], a[1], a[2])
	case "str.from_int":
		return c.FromInt(a[0])
	case "str.to_int":
		return c.ToInt(a[0])
	case "seq.++":
		return c.SeqConcat(t.Sort, a...)
	case "seq.unit":
		return c.SeqUnit(a[0])
	case "seq.nth":
		return c.Nth(a[0], a[1])
	case "mk":
		return c.Mk(t.Sort, t.S, a...)
	case "sel":
		for ci, ct := range a[0].Sort.DT.Ctors {
			for fi, f := range ct.Fields {
				if f.Name == t.S && int64(fi) == t.I {
					return c.Sel(a[0], ci, fi)
				}
			}
		}
		panic("sel")
	case "is":
		return c.Is(a[0], t.S)
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	}
	return c.mk(t.Op, t.Sort, t.I, t.S, a...)
}

// Facts are literals known to hold; simp rewrites terms under them.
type Facts struct {
	lit map[int]bool  // term id -> truth
	eq  map[int]*Term // term id -> constant it equals
	bd  map[int]*bound
}

func (c *Ctx) factsOf(pc []*Term) *Facts {
	f := &Facts{lit: map[int]bool{}, eq: map[int]*Term{}, bd: map[int]*bound{}}
	for _, t := range pc {
		c.addFact(f, t)
	}
	return f
}

func (c *Ctx) addFact(f *Facts, t *Term) {
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			c.addFact(f, a)
		}
		return
	case "not":
		if t.Args[0].Op == "or" {
			for _, a := range t.Args[0].Args {
				c.addFact(f, c.Not(a))
			}
			return
		}
		f.lit[t.Args[0].id] = false
		c.intFact(f, t.Args[0], false)
		if e := t.Args[0]; e.Op == "=" && (e.Args[0].Op == "str" && e.Args[0].S == "" || e.Args[0].Op == "seq.empty") {
			c.addFact(f, c.mk(">=0", BoolS, 0, "", c.Sub(c.Len(e.Args[1]), c.Int(1))))
		} else if e.Op == "=" && (e.Args[1].Op == "str" && e.Args[1].S == "" || e.Args[1].Op == "seq.empty") {
			c.addFact(f, c.mk(">=0", BoolS, 0, "", c.Sub(c.Len(e.Args[0]), c.Int(1))))
		}
	case "str.prefixof", "str.suffixof":
		c.hasLen(f, t.Args[1], t.Args[0])
	case "str.contains":
		c.hasLen(f, t.Args[0], t.Args[1])
	case ">=0":
		c.intFact(f, t, true)
	case "=":
		c.intFact(f, t, true)
		a, b := t.Args[0], t.Args[1]
		if b.IsConst() || b.Op == "mk" && len(b.Args) == 0 {
			f.eq[a.id] = b
		} else if a.IsConst() || a.Op == "mk" && len(a.Args) == 0 {
			f.eq[b.id] = a
		}
	case "is":
		{
			for _, ct := range t.Args[0].Sort.DT.Ctors {
				if ct.Name == t.S && len(ct.Fields) == 0 {
					f.eq[t.Args[0].id] = c.mk("mk", t.Args[0].Sort, 0, ct.Name)
				} else if ct.Name != t.S {
					f.lit[c.mk("is", BoolS, 0, ct.Name, t.Args[0]).id] = false
				}
			}
		}
	}
	f.lit[t.id] = true
	n := c.Not(t)
	f.lit[n.id] = false
}

// hasLen: s is at least as long as the constant p.
func (c *Ctx) hasLen(f *Facts, s, p *Term) {
	if p.Op == "str" && len(p.S) > 0 {
		c.intFact(f, c.mk(">=0", BoolS, 0, "", c.Sub(c.Len(s), c.Int(int64(len(p.S))))), true)
		f.lit[c.Eq(s, c.Str("")).id] = false
	}
}

func (c *Ctx) simp(t *Term, f *Facts) *Term {
	mem := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.IsConst() {
			return t
		}
		if r, ok := mem[t.id]; ok {
			return r
		}
		var r *Term
		if t.Sort.K == SBool {
			if v, ok := f.lit[t.id]; ok {
				r = c.Bool(v)
			}
		} else if e, ok := f.eq[t.id]; ok {
			r = e
		}
		if r == nil {
			if t.Op == "ite" {
				k := rec(t.Args[0])
				if k.IsTrue() {
					r = rec(t.Args[1])
				} else if k.IsFalse() {
					r = rec(t.Args[2])
				} else {
					r = c.Ite(k, rec(t.Args[1]), rec(t.Args[2]))
				}
			} else if len(t.Args) == 0 {
				r = t
			} else {
				a := make([]*Term, len(t.Args))
				for i := range a {
					a[i] = rec(t.Args[i])
				}
				r = c.rebuild(t, a)
				if r.Op != "mk" && len(r.Args) > 0 {
					for i := 0; i < 4; i++ {
						u := c.underFacts(r, f)
						if u == r {
							break
						}
						r = u
					}
				}
				if r != t {
					if r.Sort.K == SBool && !r.IsConst() {
						if v, ok := f.lit[r.id]; ok {
							r = c.Bool(v)
						}
					} else if e, ok := f.eq[r.id]; ok {
						r = e
					}
				}
			}
		}
		mem[t.id] = r
		return r
	}
	return rec(t)
}

// subst replaces variables.
func (c *Ctx) subst(t *Term, m map[int]*Term) *Term {
	mem := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := mem[t.id]; ok {
			return r
		}
		a := make([]*Term, len(t.Args))
		for i := range a {
			a[i] = rec(t.Args[i])
		}
		r := c.rebuild(t, a)
		mem[t.id] = r
		return r
	}
	return rec(t)
}

// ---- printing ----

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\' || ch < 32 || ch > 126:
			fmt.Fprintf(&b, `\u{%x}`, ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(i int64) string {
	if i < 0 {
		return "(- " + strconv.FormatUint(uint64(-i), 10) + ")"
	}
	return strconv.FormatInt(i, 10)
}

func smtSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.') {
			return "|" + s + "|"
		}
	}
	return s
}

// head prints the operator of an application.
func (t *Term) head() string {
	switch t.Op {
	case "mk":
		return smtSym(t.S)
	case "sel":
		return smtSym(t.S)
	case "is":
		return "(_ is " + smtSym(t.S) + ")"
	case "constarr":
		return "(as const " + t.Sort.Name + ")"
	}
	if strings.HasPrefix(t.Op, "uf:") {
		return smtSym(t.Op[3:])
	}
	return t.Op
}

// String prints the term as a tree, abbreviated, for reports.
func (t *Term) String() string {
	var b strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 400 {
			b.WriteString("…")
			return
		}
		switch t.Op {
		case "int":
			b.WriteString(smtInt(t.I))
			return
		case "str":
			b.WriteString(smtStr(t.S))
			return
		case "bool":
			b.WriteString(map[int64]string{0: "false", 1: "true"}[t.I])
			return
		case "var":
			b.WriteString(t.S)
			return
		case "seq.empty":
			b.WriteString("[]")
			return
		}
		b.WriteString("(" + t.head())
		for _, a := range t.Args {
			b.WriteByte(' ')
			rec(a)
		}
		b.WriteByte(')')
	}
	rec(t)
	return b.String()
}
