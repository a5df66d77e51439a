package main

// Loading: the package in /repo is parsed and type checked together with the
// specification files, and translated to SSA by golang.org/x/tools/go/ssa.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Prog struct {
	fset       *token.FileSet
	ssa        *ssa.Program
	pkg        *ssa.Package
	modelTypes map[string]types.Type
	models     map[string]*ssa.Function
	contracts  map[*ssa.Function]*ssa.Function
	opaque     map[*ssa.Function]bool
	specByName map[string]*ssa.Function
	recursive  map[string]bool // specification functions that call themselves
	facts      map[string][]*ssa.Function
	foreign    map[string]types.Type
	templates  []*template
	overlay    map[string]bool // file names
	dropped    []string        // specification declarations that no longer type check
	droppedSet map[string]bool
	own        map[string]*ast.FuncDecl
	repoDir    string
	mutable    map[*ssa.Global]bool
	mu         sync.Mutex
	li         map[*ssa.Function]*loopInfo
	built      map[*ssa.Package]bool
	nFuncs     int
}

type template struct {
	fn   *ssa.Function
	kind string // cons, inv, var
}

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

const ovPrefix = "zz_verif_"

func loadProg(repo, specDir string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset, Tests: false}
	// dependencies of the specification files that the package itself lacks
	pats := []string{".", "bytes", "strings", "io", "bufio", "strconv", "encoding/hex", "compress/zlib", "errors", "slices", "unicode/utf8", "encoding/binary"}
	loaded, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	all := map[string]*packages.Package{}
	packages.Visit(loaded, nil, func(p *packages.Package) { all[p.PkgPath] = p })
	var main *packages.Package
	for _, p := range loaded {
		if p.Dir == repo || p.Name == "ipldgit" {
			main = p
		}
	}
	if main == nil {
		return nil, fmt.Errorf("package not found in %s", repo)
	}
	for _, e := range main.Errors {
		return nil, fmt.Errorf("the package does not compile: %v", e)
	}
	p := &Prog{fset: fset, repoDir: repo, modelTypes: map[string]types.Type{}, models: map[string]*ssa.Function{},
		contracts: map[*ssa.Function]*ssa.Function{}, opaque: map[*ssa.Function]bool{}, specByName: map[string]*ssa.Function{}, recursive: map[string]bool{},
		facts: map[string][]*ssa.Function{}, foreign: map[string]types.Type{}, overlay: map[string]bool{},
		droppedSet: map[string]bool{}, li: map[*ssa.Function]*loopInfo{}, built: map[*ssa.Package]bool{}, own: map[string]*ast.FuncDecl{}}
	var files []*ast.File
	for _, f := range main.CompiledGoFiles {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
	}
	specs, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
	sort.Strings(specs)
	var ov []*ast.File
	for _, f := range specs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		name := filepath.Join(repo, ovPrefix+filepath.Base(f))
		a, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			return nil, err
		}
		p.overlay[name] = true
		ov = append(ov, a)
	}
	imp := importerFn(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if q := all[path]; q != nil && q.Types != nil {
			return q.Types, nil
		}
		return nil, fmt.Errorf("no package %s", path)
	})
	var tp *types.Package
	var info *types.Info
	for round := 0; ; round++ {
		info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
		var bad []types.Error
		tc := &types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {
			if te, ok := err.(types.Error); ok {
				bad = append(bad, te)
			}
		}}
		tp, _ = tc.Check(main.PkgPath, fset, append(append([]*ast.File{}, files...), ov...), info)
		if len(bad) == 0 {
			break
		}
		n := 0
		for _, te := range bad {
			file := fset.Position(te.Pos).Filename
			if !p.overlay[file] {
				// a clash between a specification's name and the package's: drop ours
				if strings.Contains(te.Msg, "redeclared") {
					continue
				}
				return nil, fmt.Errorf("%v", te)
			}
			if p.dropDecl(ov, te.Pos, te.Msg) {
				n++
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("specifications do not type check: %v", bad[0])
		}
		if round > 50 {
			return nil, fmt.Errorf("specifications do not type check: %v", bad[0])
		}
	}
	p.ssa = ssa.NewProgram(fset, ssa.InstantiateGenerics)
	packages.Visit(loaded, nil, func(q *packages.Package) {
		if q == main || q.Types == nil {
			return
		}
		p.ssa.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
	})
	p.pkg = p.ssa.CreatePackage(tp, append(append([]*ast.File{}, files...), ov...), info, true)
	p.pkg.Build()
	p.built[p.pkg] = true
	for _, q := range p.ssa.AllPackages() {
		if inlinePkgs[q.Pkg.Path()] {
			q.Build()
			p.built[q] = true
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				_ = fd
				p.nFuncs++
			}
		}
	}
	return p, p.index()
}

type importerFn func(path string) (*types.Package, error)

func (f importerFn) Import(path string) (*types.Package, error) { return f(path) }

func (p *Prog) dropDecl(ov []*ast.File, pos token.Pos, why string) bool {
	for _, f := range ov {
		if pos < f.FileStart || pos > f.FileEnd {
			continue
		}
		for i, d := range f.Decls {
			if pos < d.Pos() || pos > d.End() {
				continue
			}
			name := "declaration"
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					// unused import after dropping: drop the spec
					for j, s := range x.Specs {
						if pos >= s.Pos() && pos <= s.End() {
							x.Specs = append(x.Specs[:j:j], x.Specs[j+1:]...)
							for k, im := range f.Imports {
								if im == s {
									f.Imports = append(f.Imports[:k:k], f.Imports[k+1:]...)
									break
								}
							}
							return true
						}
					}
					return false
				}
				for j, s := range x.Specs {
					if len(x.Specs) > 1 && pos >= s.Pos() && pos <= s.End() {
						x.Specs = append(x.Specs[:j:j], x.Specs[j+1:]...)
						p.noteDrop("declaration", why)
						return true
					}
				}
				if len(x.Specs) == 1 {
					switch s := x.Specs[0].(type) {
					case *ast.TypeSpec:
						name = s.Name.Name
					case *ast.ValueSpec:
						name = s.Names[0].Name
					}
				}
			}
			f.Decls = append(f.Decls[:i:i], f.Decls[i+1:]...)
			p.noteDrop(name, why)
			return true
		}
	}
	return false
}

func (p *Prog) noteDrop(name, why string) {
	p.dropped = append(p.dropped, name+": "+why)
	p.droppedSet[name] = true
}

func (p *Prog) inOverlay(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != p.pkg && fn.Pkg != nil {
		return false
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return p.overlay[p.fset.Position(fn.Pos()).Filename]
}

func (p *Prog) index() error {
	sc := p.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if tn, ok := o.(*types.TypeName); ok && p.overlay[p.fset.Position(o.Pos()).Filename] {
			switch {
			case strings.HasPrefix(n, "m_"):
				p.modelTypes[dotted(n[2:], 2)] = tn.Type()
			case strings.HasPrefix(n, "f_"):
				p.foreign[dotted(n[2:], 2)] = types.NewPointer(tn.Type())
			}
		}
	}
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := p.pkg.Members[n].(*ssa.Function)
		if !ok || !p.inOverlay(fn) {
			continue
		}
		switch {
		case strings.HasPrefix(n, "model_"):
			p.models[dotted(n[6:], strings.Count(n[6:], "_")+1)] = fn
		case strings.HasPrefix(n, "contract_"):
			t := p.targetOf(fn)
			if t == nil {
				p.noteDrop(n, "calls no function of the package")
				continue
			}
			if p.contracts[t] != nil {
				return fmt.Errorf("two contracts for %s", t)
			}
			p.contracts[t] = fn
		case strings.HasPrefix(n, "fact_"):
			u := n[5:]
			if i := strings.LastIndex(u, "__"); i >= 0 {
				u = u[:i]
			}
			p.facts[u] = append(p.facts[u], fn)
		case strings.HasPrefix(n, "loopcons_"):
			p.templates = append(p.templates, &template{fn, "cons"})
		case strings.HasPrefix(n, "loopinv_"):
			p.templates = append(p.templates, &template{fn, "inv"})
		case strings.HasPrefix(n, "loopvar_"):
			p.templates = append(p.templates, &template{fn, "var"})
		}
	}
	// recursive specification functions are kept as applications
	var reach func(fn, to *ssa.Function, seen map[*ssa.Function]bool) bool
	reach = func(fn, to *ssa.Function, seen map[*ssa.Function]bool) bool {
		for _, c := range callees(fn) {
			if c == to {
				return true
			}
			if !seen[c] && p.inOverlay(c) {
				seen[c] = true
				if reach(c, to, seen) {
					return true
				}
			}
		}
		return false
	}
	for _, n := range names {
		fn, ok := p.pkg.Members[n].(*ssa.Function)
		if !ok || !p.inOverlay(fn) || !strings.HasPrefix(n, "spec") {
			continue
		}
		rec := reach(fn, fn, map[*ssa.Function]bool{})
		p.recursive[n] = rec
		if rec || strings.HasPrefix(n, "specOpaque") {
			p.opaque[fn] = true
			p.specByName[n] = fn
		}
	}
	p.findMutable()
	return nil
}

func callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					out = append(out, f)
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, m.Fn.(*ssa.Function))
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, callees(a)...)
	}
	return out
}

// targetOf finds the function a contract specifies: the one it calls.
func (p *Prog) targetOf(c *ssa.Function) *ssa.Function {
	var t *ssa.Function
	for _, b := range c.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				f := ci.Common().StaticCallee()
				if f != nil && f.Pkg == p.pkg && !p.inOverlay(f) {
					t = f
				}
			}
		}
	}
	return t
}

func dotted(s string, n int) string { return strings.Join(strings.SplitN(s, "_", n), ".") }

// findMutable finds the package's variables that something other than their
// initialisation may change.
func (p *Prog) findMutable() {
	p.mutable = map[*ssa.Global]bool{}
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != p.pkg {
						continue
					}
					if !p.readOnlyUse(in, g) {
						p.mutable[g] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for _, f := range p.allFuncs() {
		if f.Name() == "init" && f.Signature.Recv() == nil {
			continue
		}
		scan(f)
	}
}

func (p *Prog) readOnlyUse(in ssa.Instruction, addr ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		for _, r := range *x.Referrers() {
			if !p.readOnlyUse(r, x) {
				return false
			}
		}
		return true
	case *ssa.IndexAddr:
		for _, r := range *x.Referrers() {
			if !p.readOnlyUse(r, x) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		// &fieldName handed out as a node: nodes are immutable
		return true
	case *ssa.Store:
		return x.Addr != addr
	case *ssa.Return, *ssa.Phi:
		return true
	}
	return false
}

// allFuncs lists the package's functions and methods (not the overlay's).
func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Pkg == p.pkg && !p.inOverlay(f) && f.Synthetic == "" {
			seen[f] = true
			out = append(out, f)
		}
	}
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.pkg.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			nt, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				add(p.ssa.FuncValue(nt.Method(i)))
			}
		}
	}
	return out
}

// dependency packages whose functions are executed as they are
var inlinePkgs = map[string]bool{
	"github.com/ipld/go-ipld-prime/node/mixins":    true,
	"github.com/ipld/go-ipld-prime/schema":         true,
	"github.com/ipld/go-ipld-prime/datamodel":      true,
	"github.com/ipld/go-ipld-prime/linking/cid":    true,
	"github.com/ipld/go-ipld-prime/node/basicnode": true,
	"slices": true, "maps": true, "cmp": true,
}

func (p *Prog) inlinable(fn *ssa.Function) bool {
	q := fn.Pkg
	if q == nil && fn.Origin() != nil {
		q = fn.Origin().Pkg
	}
	for f := fn; q == nil && f.Parent() != nil; f = f.Parent() {
		q = f.Parent().Pkg
	}
	if q == nil { // wrappers and thunks
		return true
	}
	return q == p.pkg || inlinePkgs[q.Pkg.Path()]
}

func (p *Prog) build(fn *ssa.Function) {
	q := fn.Pkg
	if q == nil && fn.Origin() != nil {
		q = fn.Origin().Pkg
	}
	if q == nil || !(q == p.pkg || inlinePkgs[q.Pkg.Path()]) {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[q] {
		q.Build()
		p.built[q] = true
	}
}

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Prog) methodByName(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) loopInfo(fn *ssa.Function) *loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.li[fn]; ok {
		return l
	}
	l := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := l.body[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				l.body[h] = body
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if body[x] {
					continue
				}
				body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	p.li[fn] = l
	return l
}

// ---- package variables ----

var knownErrs = map[string]int64{"io.EOF": 1, "io.ErrUnexpectedEOF": 2}

// nullTypes gives the types of the data model's singleton nodes.
var nullTypes = map[string]string{"Null": "nullNode", "Absent": "absentNode"}

// singleton finds a type declared beside the interface t.
func (e *Exec) singleton(t types.Type, name string) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	o, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return o.Type()
}

// global gives the object of a package-level variable.
func (e *Exec) global(st *State, g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		if _, ok := st.heap[id]; !ok {
			st.put(e.globInit[id])
		}
		return id
	}
	t := under(g.Type()).(*types.Pointer).Elem()
	s := e.emptyState()
	id := e.newObj(s, t, PoisonV{"variable " + g.String()})
	set := func(v Value) {
		o := *s.get(id)
		o.Val = v
		s.put(&o)
	}
	if g.Pkg == e.prog.pkg {
		if e.prog.mutable[g] {
			e.guardQuiet(func() { set(e.freshVal(s, t, g.Name())) })
			if len(s.pc) > 0 {
				e.globPC = append(e.globPC, s.pc...)
			}
		} else {
			set(e.zero(s, t))
			e.initGlobals()
			if v, ok := e.initVals[g]; ok {
				set(v)
			}
		}
	} else {
		key := g.Pkg.Pkg.Name() + "." + g.Name()
		switch {
		case e.isErrorT(t):
			n, ok := knownErrs[key]
			if !ok {
				e.globErrs++
				n = 100 + e.globErrs
			}
			set(e.Int(n))
		case key == "multihash.DefaultLengths":
			so := e.sortOf(t)
			e.nextObj++
			mid := e.nextObj
			s.put(&Obj{ID: mid, T: t, Map: e.Fresh("mh.DefaultLengths", so), Upd: []mapUpd{{e.Int(0x11), e.Int(20)}}})
			e.globInit[mid] = s.get(mid)
			e.globAux[id] = mid
			set(MapV{mid})
		case key == "cid.Undef":
			set(e.zero(s, t))
		case nullTypes[g.Name()] != "" && (key == "ipld."+g.Name() || key == "datamodel."+g.Name()):
			if u := e.singleton(t, nullTypes[g.Name()]); u != nil {
				set(IfaceV{Dyn: u, V: e.zero(s, u)})
			}
		}
	}
	for oid, o := range s.heap {
		e.globInit[oid] = o
		if oid != id {
			st.put(o)
		}
	}
	e.globals[g] = id
	st.put(e.globInit[id])
	return id
}

func (e *Exec) guardQuiet(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupp); !ok {
				panic(r)
			}
		}
	}()
	f()
}

// initGlobals evaluates the initialisers of the package's variables.
func (e *Exec) initGlobals() {
	if e.initVals != nil {
		return
	}
	e.initVals = map[*ssa.Global]Value{}
	fn := e.prog.pkg.Func("init")
	if fn == nil {
		return
	}
	st := e.emptyState()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}}
	e.dry++
	defer func() { e.dry-- }()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					var v Value = PoisonV{"initialiser of " + g.Name()}
					e.guardQuiet(func() { v = e.val(st, fr, x.Val) })
					if g.Name() != "init$guard" {
						e.initVals[g] = v
					}
					continue
				}
				e.guardQuiet(func() { e.initStore(st, fr, x) })
			case *ssa.FieldAddr:
				if g, ok := x.X.(*ssa.Global); ok {
					fr.env[x] = initAddr{g, []int{x.Field}}
					continue
				}
				if a, ok := fr.env[x.X].(initAddr); ok {
					fr.env[x] = initAddr{a.g, append(a.path[:len(a.path):len(a.path)], x.Field)}
					continue
				}
				e.guardQuiet(func() { e.instr(st, fr, in) })
			case *ssa.Call:
				fr.env[x] = PoisonV{"initialiser"}
				e.guardQuiet(func() {
					f := x.Call.StaticCallee()
					if f == nil || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
						return
					}
					e.callCommon(st, fr, &x.Call, x.Pos(), func(s2 *State, res []Value) {
						st = s2
						if len(res) == 1 {
							fr.env[x] = res[0]
						}
					})
				})
			case *ssa.If, *ssa.Jump, *ssa.Return:
			default:
				if v, ok := in.(ssa.Value); ok {
					fr.env[v] = PoisonV{"initialiser"}
				}
				e.guardQuiet(func() { e.instr(st, fr, in) })
			}
		}
	}
	for id, o := range st.heap {
		e.globInit[id] = o
		e.initHeap = append(e.initHeap, o)
	}
}

type initAddr struct {
	g    *ssa.Global
	path []int
}

func (e *Exec) initStore(st *State, fr *Frame, x *ssa.Store) {
	a, ok := fr.env[x.Addr].(initAddr)
	if !ok {
		e.instr(st, fr, x)
		return
	}
	cur, ok := e.initVals[a.g]
	if !ok {
		cur = e.zero(st, under(a.g.Type()).(*types.Pointer).Elem())
	}
	path := make([]Sel, len(a.path))
	for i, f := range a.path {
		path[i] = Sel{F: f}
	}
	e.initVals[a.g] = e.setPath(cur, path, e.val(st, fr, x.Val))
}

// rootState is the state every root starts in.
func (e *Exec) rootState() *State {
	st := e.emptyState()
	st.owned = true
	e.initGlobals()
	for _, o := range e.initHeap {
		st.put(o)
	}
	var names []string
	for n := range e.prog.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g, ok := e.prog.pkg.Members[n].(*ssa.Global); ok {
			e.global(st, g)
		}
	}
	for _, t := range e.globPC {
		e.assume(st, t)
	}
	return st
}
