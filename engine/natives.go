package main

// Intrinsics of the specification language and natively modelled functions of
// the standard library.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K)

var intrinsics map[string]nativeFn
var natives map[string]nativeFn

func (e *Exec) ctr(fr *Frame, what string) *contractCtx {
	if fr == nil || fr.ctr == nil {
		fail("%s outside a contract", what)
	}
	return fr.ctr
}

func constStr(v Value) string {
	t, ok := v.(*Term)
	if !ok || t.Op != "str" {
		fail("constant string expected")
	}
	return t.S
}

// variadic gives the elements of a variadic argument.
func (e *Exec) variadic(st *State, v Value) []Value {
	s, ok := v.(SliceV)
	if !ok {
		fail("variadic %T", v)
	}
	if s.Arr == 0 {
		return nil
	}
	o := st.get(s.Arr)
	if o.Base != nil || s.Off.Op != "int" || s.Len.Op != "int" {
		fail("variadic arguments of unknown number")
	}
	return o.Elems[s.Off.I : s.Off.I+s.Len.I]
}

func init() {
	intrinsics = map[string]nativeFn{
		"vRequires": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			c := e.ctr(fr, "vRequires")
			st, g := e.closureBool(st, args[0])
			if c.verify {
				e.assume(st, g)
				k(st, nil)
				return
			}
			name := c.fn.Name()
			if c.target != nil {
				name = c.target.Name()
			}
			if e.oblige(st, fr, "requires", "precondition of "+name, pos, g) {
				k(st, nil)
			}
		},
		"vEnsures": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			c := e.ctr(fr, "vEnsures")
			st, g := e.closureBool(st, args[1])
			if c.verify {
				if e.oblige(st, fr, "ensures", constStr(args[0]), pos, g) {
					k(st, nil)
				}
				return
			}
			g = e.simp(g, e.factsFor(st))
			if g.IsFalse() {
				return
			}
			e.assume(st, g)
			k(st, nil)
		},
		"vAssert": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			st, g := e.closureBool(st, args[1])
			if e.oblige(st, fr, "assert", constStr(args[0]), pos, g) {
				k(st, nil)
			}
		},
		"vAssume": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			st, g := e.closureBool(st, args[0])
			if g.IsFalse() {
				return
			}
			e.assume(st, g)
			k(st, nil)
		},
		"vReach": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			if e.dry == 0 {
				e.reach(st, constStr(args[0]))
			}
			k(st, nil)
		},
		"vUnreachable": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			e.oblige(st, fr, "assert", constStr(args[0]), pos, e.False)
		},
		"vModifies": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			c := e.ctr(fr, "vModifies")
			c.mods = nil
			for _, v := range e.variadic(st, args[0]) {
				iv, ok := v.(IfaceV)
				if !ok {
					fail("vModifies")
				}
				p, ok := iv.V.(PtrV)
				if !ok || p.Obj == 0 {
					fail("vModifies of %T", iv.V)
				}
				c.mods = append(c.mods, p)
			}
			k(st, nil)
		},
		"vProof": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			c := e.ctr(fr, "vProof")
			if !c.verify {
				k(st, nil)
				return
			}
			f := args[0].(FuncV)
			e.run(st, fr, f.Fn, nil, f.Bind, nil, k)
		},
		"vDecreases": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			c := e.ctr(fr, "vDecreases")
			m := e.term(args[0])
			if c.verify {
				if !e.oblige(st, fr, "decreases", "measure is not negative", pos, e.Ge(m, e.Int(0))) {
					return
				}
				c.measure = m
				e.lemmas = append(e.lemmas, c)
				k(st, nil)
				return
			}
			for _, l := range e.lemmas {
				if l.fn == c.fn {
					if !e.oblige(st, fr, "decreases", "measure decreases", pos, e.And(e.Ge(m, e.Int(0)), e.Lt(m, l.measure))) {
						return
					}
				}
			}
			k(st, nil)
		},
		"vAny": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			t := fn.Signature.Results().At(0).Type()
			name := "any"
			if len(args) > 0 {
				name = constStr(args[0])
			}
			v := e.anyVal(st, t, name)
			k(st, []Value{v})
		},
		"vEq": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			t := fn.Params[0].Type()
			k(st, []Value{e.Eq(e.reify(st, args[0], t), e.reify(st, args[1], t))})
		},
		"vSnap": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			t := fn.Params[0].Type()
			k(st, []Value{e.unreify(st, e.reify(st, args[0], t), t)})
		},
		"vModel": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			iv, ok := args[0].(IfaceV)
			if !ok {
				fail("vModel of %T", args[0])
			}
			v := iv.V
			if sp, ok := v.(SymPtrV); ok {
				v = e.materialise(st, sp)
			}
			k(st, []Value{v})
		},
		"vHint": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			c := e.ctr(fr, "vHint")
			if c.hints == nil {
				c.hints = map[int]types.Type{}
			}
			c.hints[int(e.term(args[0]).I)] = types.Unalias(fn.TypeArgs()[0])
			k(st, nil)
		},
		"vCast": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			iv, ok := args[0].(IfaceV)
			if !ok {
				fail("vCast of %T", args[0])
			}
			k(st, []Value{e.unreify(st, e.reify(st, iv.V, iv.Dyn), fn.Signature.Results().At(0).Type())})
		},
		"vDynType": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			iv, ok := args[0].(IfaceV)
			k(st, []Value{e.Bool(ok && iv.Dyn != nil && types.Identical(iv.Dyn, types.Unalias(fn.TypeArgs()[0])))})
		},
		"vStrToInt": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.ToInt(e.term(args[0]))})
		},
		"vIntToStr": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.decimal(e.term(args[0]))})
		},
		"vMapPut": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			mt := under(fn.Params[0].Type()).(*types.Map)
			m := e.reify(st, args[0], mt)
			n := e.Store(m, e.reify(st, args[1], mt.Key()), e.Some(m.Sort.Elem, e.reify(st, args[2], mt.Elem())))
			k(st, []Value{e.unreify(st, n, mt)})
		},
		"vIsNil": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{args[0].(SliceV).Nil})
		},
		"vCatBytes": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.bytesVal(st, e.term(args[0]))})
		},
		"vWriteInto": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			// vWriteInto(dst []byte, src string): dst[:len(src)] = src
			d := args[0].(SliceV)
			s := e.term(args[1])
			if d.Arr != 0 {
				e.writeInto(st, d, s, e.Len(s))
			}
			k(st, nil)
		},
		"vErrType": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			// vErrType[T](err): the dynamic type of err is T
			t := types.Unalias(fn.TypeArgs()[0])
			x := e.term(args[0])
			var rec func(x *Term) *Term
			rec = func(x *Term) *Term {
				if x.Op == "ite" {
					return e.Ite(x.Args[0], rec(x.Args[1]), rec(x.Args[2]))
				}
				if x.Op == "int" {
					iv, ok := e.errs[x.I]
					return e.Bool(ok && types.Identical(iv.Dyn, t))
				}
				return e.UF("errtype_"+mangle(shortType(t)), BoolS, x)
			}
			k(st, []Value{rec(x)})
		},
		"vEvents": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.Int(int64(len(st.trace)))})
		},
		"vRunInit": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			// run the package's init functions (not variable initialisers)
			e.runInits(st, fr, pos, k)
		},
		"vSameFunc": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			get := func(v Value) FuncV {
				if iv, ok := v.(IfaceV); ok {
					v = iv.V
				}
				f, _ := v.(FuncV)
				return f
			}
			a, b := get(args[0]), get(args[1])
			k(st, []Value{e.Bool(a.Fn != nil && a.Fn == b.Fn)})
		},
	}
	str := func(f func(e *Exec, a, b *Term) Value) nativeFn {
		return func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{f(e, e.strOf(st, args[0]), e.strOf(st, args[1]))})
		}
	}
	hasPrefix := str(func(e *Exec, a, b *Term) Value { return e.Prefix(b, a) })
	hasSuffix := str(func(e *Exec, a, b *Term) Value { return e.Suffix(b, a) })
	contains := str(func(e *Exec, a, b *Term) Value { return e.Contains(a, b) })
	equal := str(func(e *Exec, a, b *Term) Value { return e.Eq(a, b) })
	index := str(func(e *Exec, a, b *Term) Value { return e.IndexOf(a, b, e.Int(0)) })
	indexByte := func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
		k(st, []Value{e.IndexOf(e.strOf(st, args[0]), e.FromCode(e.term(args[1])), e.Int(0))})
	}
	natives = map[string]nativeFn{
		"strings.HasPrefix": hasPrefix, "bytes.HasPrefix": hasPrefix,
		"strings.HasSuffix": hasSuffix, "bytes.HasSuffix": hasSuffix,
		"strings.Contains": contains, "bytes.Contains": contains,
		"bytes.Equal": equal, "strings.Index": index, "bytes.Index": index,
		"strings.IndexByte": indexByte, "bytes.IndexByte": indexByte,
		"fmt.Errorf": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.newErr()})
		},
		"errors.New": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.newErr()})
		},
		"errors.Is": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.Eq(e.term(args[0]), e.term(args[1]))})
		},
		"fmt.Println": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.Int(0), e.Int(0)})
		},
		"fmt.Printf": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.Int(0), e.Int(0)})
		},
		"fmt.Sprintf": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.format(st, e.term(args[0]), e.variadic(st, args[1]))})
		},
		"fmt.Sprint": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.sprint(st, e.variadic(st, args[0]))})
		},
		"fmt.Fprintf": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			e.writeTo(st, fr, args[0], e.format(st, e.term(args[1]), e.variadic(st, args[2])), pos, k)
		},
		"fmt.Appendf": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			t := fn.Params[0].Type()
			k(st, []Value{e.appendB(st, fr, args[0], e.format(st, e.term(args[1]), e.variadic(st, args[2])), t, t)})
		},
		"fmt.Fprint": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			e.writeTo(st, fr, args[0], e.sprint(st, e.variadic(st, args[1])), pos, k)
		},
		"fmt.Fprintln": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			vs := e.variadic(st, args[1])
			var ps []*Term
			for i, v := range vs {
				if i > 0 {
					ps = append(ps, e.Str(" "))
				}
				ps = append(ps, e.fmtArg(st, 'v', v))
			}
			ps = append(ps, e.Str("\n"))
			e.writeTo(st, fr, args[0], e.Concat(ps...), pos, k)
		},
		"strconv.Itoa": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			k(st, []Value{e.itoa(e.term(args[0]))})
		},
		"strconv.FormatInt": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			if b := e.term(args[1]); b.Op != "int" || b.I != 10 {
				fail("strconv.FormatInt in another base")
			}
			k(st, []Value{e.itoa(e.term(args[0]))})
		},
		"strconv.AppendInt": func(e *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, pos token.Pos, k K) {
			if b := e.term(args[2]); b.Op != "int" || b.I != 10 {
				fail("strconv.AppendInt in another base")
			}
			t := fn.Params[0].Type()
			k(st, []Value{e.appendB(st, fr, args[0], e.itoa(e.term(args[1])), t, t)})
		},
	}
}

func (e *Exec) newErr() *Term {
	e.nextErr++
	return e.Int(e.nextErr)
}

// anyVal makes an arbitrary value; pointers point to fresh objects.
func (e *Exec) anyVal(st *State, t types.Type, name string) Value {
	t = types.Unalias(t)
	if p, ok := under(t).(*types.Pointer); ok {
		return PtrV{Obj: e.newObj(st, p.Elem(), e.freshVal(st, p.Elem(), name))}
	}
	if types.IsInterface(t) && !e.isErrorT(t) && !isLinkT(t) {
		m := e.prog.foreign[shortType(t)]
		if m == nil {
			fail("arbitrary %s", t)
		}
		if p, ok := types.Unalias(m).(*types.Pointer); ok {
			return IfaceV{m, PtrV{Obj: e.newObj(st, p.Elem(), e.freshVal(st, p.Elem(), name))}}
		}
		return IfaceV{m, e.freshVal(st, m, name)}
	}
	return e.freshVal(st, t, name)
}

func (e *Exec) strOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case SliceV:
		return e.sliceTerm(st, x)
	case PoisonV:
		fail("use of an unknown value (%s)", x.Why)
	}
	fail("string expected, got %T", v)
	return nil
}

// decimal is the decimal form of a non-negative number.
func (e *Exec) decimal(n *Term) *Term {
	if n.Op == "int" {
		return e.FromInt(n)
	}
	return e.UF("uf_itoa", StrS, n)
}

func (e *Exec) itoa(n *Term) *Term {
	if n.Op == "int" || nonNeg(n) {
		if n.Op == "int" && n.I < 0 {
			return e.Concat(e.Str("-"), e.decimal(e.Int(-n.I)))
		}
		return e.decimal(n)
	}
	l := e.toLin(n)
	pos := l.k >= 0
	for t, c := range l.m {
		if !nonNeg(t) || c < 0 {
			pos = false
		}
	}
	if pos {
		return e.decimal(n)
	}
	return e.Ite(e.Ge(n, e.Int(0)), e.decimal(n), e.Concat(e.Str("-"), e.decimal(e.Sub(e.Int(0), n))))
}

// fmtArg formats one argument.
func (e *Exec) fmtArg(st *State, verb byte, v Value) *Term {
	iv, ok := v.(IfaceV)
	if !ok {
		return e.Fresh("fmt", StrS)
	}
	if iv.Dyn != nil {
		// a String or Error method would be used
		ms := types.NewMethodSet(iv.Dyn)
		if ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil {
			switch x := iv.V.(type) {
			case *Term:
				switch {
				case x.Sort.K == SStr && (verb == 's' || verb == 'v'):
					return x
				case x.Sort.K == SInt && (verb == 'd' || verb == 'v'):
					return e.itoa(x)
				}
			case SliceV:
				if isByte(x.Elem) {
					switch verb {
					case 's':
						return e.sliceTerm(st, x)
					case 'x':
						if f := e.prog.pkg.Func("uf_hexenc"); f != nil {
							return e.UF("uf_hexenc", StrS, e.sliceTerm(st, x))
						}
					}
				}
			}
			if x, ok := iv.V.(*Term); ok && x.Sort.K == SStr && verb == 'x' {
				return e.UF("uf_hexenc", StrS, x)
			}
		}
	}
	return e.Fresh("fmt", StrS)
}

// format models Sprintf for constant formats of plain verbs.
func (e *Exec) format(st *State, f *Term, args []Value) *Term {
	if f.Op != "str" {
		f = e.simp(f, e.factsFor(st))
	}
	if f.Op != "str" {
		fail("format that is not constant")
	}
	var ps []*Term
	s := f.S
	n := 0
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 || i+1 >= len(s) {
			ps = append(ps, e.Str(s))
			break
		}
		ps = append(ps, e.Str(s[:i]))
		verb := s[i+1]
		s = s[i+2:]
		if verb == '%' {
			ps = append(ps, e.Str("%"))
			continue
		}
		if strings.IndexByte("sdvxqTw", verb) < 0 {
			fail("format verb %q", verb)
		}
		if n >= len(args) {
			fail("format with too few arguments")
		}
		ps = append(ps, e.fmtArg(st, verb, args[n]))
		n++
	}
	if n != len(args) {
		fail("format with too many arguments")
	}
	return e.Concat(ps...)
}

func (e *Exec) sprint(st *State, args []Value) *Term {
	var ps []*Term
	for i, a := range args {
		iv, _ := a.(IfaceV)
		isStr := false
		if iv.Dyn != nil {
			if b, ok := under(iv.Dyn).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && !isStr {
			fail("fmt.Print of several operands")
		}
		ps = append(ps, e.fmtArg(st, 'v', a))
	}
	return e.Concat(ps...)
}

// writeTo calls w.Write once with s, as package fmt does.
func (e *Exec) writeTo(st *State, fr *Frame, w Value, s *Term, pos token.Pos, k K) {
	iv, ok := w.(IfaceV)
	if !ok || iv.Dyn == nil {
		fail("write to an unknown writer")
	}
	fn := e.prog.methodByName(iv.Dyn, "Write")
	if fn == nil {
		fail("no Write on %s", iv.Dyn)
	}
	e.call(st, fr, fn, []Value{iv.V, e.bytesVal(st, s)}, nil, pos, k)
}

// reach records that this point must be reachable (a guard against vacuity).
func (e *Exec) reach(st *State, label string) {
	as := e.prepare(append([]*Term{}, st.pc...), 1)
	r, _ := solve(as, feasMS)
	e.reached[label] = e.reached[label] || r != Unsat
}

func (e *Exec) runInits(st *State, fr *Frame, pos token.Pos, k K) {
	var fns []*ssa.Function
	for _, m := range e.prog.pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		a, b := fns[i].Name(), fns[j].Name()
		return len(a) < len(b) || len(a) == len(b) && a < b
	})
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(fns) {
			k(st, nil)
			return
		}
		e.run(st, fr, fns[i], nil, nil, nil, func(st *State, _ []Value) { rec(st, i+1) })
	}
	rec(st, 0)
}
