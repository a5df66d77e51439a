package main

// Discharging queries with external SMT solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Script renders asserts (whose conjunction is to be refuted) as SMT-LIB.
func Script(asserts []*Term) (text string, vars []*Term) {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	refs := map[int]int{}
	var order []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.id]++
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	// sorts
	declared := map[string]bool{}
	var declSort func(s *Sort)
	declSort = func(s *Sort) {
		if s == nil || declared[s.Name] {
			return
		}
		declared[s.Name] = true
		declSort(s.Elem)
		declSort(s.Key)
		if s.K == SData {
			for _, ct := range s.DT.Ctors {
				for _, f := range ct.Fields {
					declSort(f.Sort)
				}
			}
			fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", s.Name)
			for _, ct := range s.DT.Ctors {
				fmt.Fprintf(&b, "(%s", smtSym(ct.Name))
				for _, f := range ct.Fields {
					fmt.Fprintf(&b, " (%s %s)", smtSym(f.Name), f.Sort.Name)
				}
				b.WriteString(")")
			}
			b.WriteString(")))\n")
		}
	}
	for _, t := range order {
		declSort(t.Sort)
	}
	ufs := map[string]bool{}
	for _, t := range order {
		if t.Op == "var" {
			vars = append(vars, t)
			fmt.Fprintf(&b, "(declare-const %s %s)\n", smtSym(t.S), t.Sort.Name)
		} else if strings.HasPrefix(t.Op, "uf:") && !ufs[t.Op] {
			ufs[t.Op] = true
			fmt.Fprintf(&b, "(declare-fun %s (", smtSym(t.Op[3:]))
			for i, a := range t.Args {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(a.Sort.Name)
			}
			fmt.Fprintf(&b, ") %s)\n", t.Sort.Name)
		}
	}
	name := map[int]string{}
	var pr func(t *Term, top bool) string
	pr = func(t *Term, top bool) string {
		if n, ok := name[t.id]; ok && !top {
			return n
		}
		switch t.Op {
		case "int":
			return smtInt(t.I)
		case "str":
			return smtStr(t.S)
		case "bool":
			if t.I == 1 {
				return "true"
			}
			return "false"
		case "var":
			return smtSym(t.S)
		case "seq.empty":
			return "(as seq.empty " + t.Sort.Name + ")"
		case ">=0":
			return "(>= " + pr(t.Args[0], false) + " 0)"
		}
		if len(t.Args) == 0 {
			return t.head()
		}
		var sb strings.Builder
		sb.WriteString("(" + t.head())
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(pr(a, false))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	for _, t := range order {
		if refs[t.id] > 1 && len(t.Args) > 0 {
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.Name, pr(t, true))
			name[t.id] = n
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", pr(a, false))
	}
	return b.String(), vars
}

type solverStats struct {
	queries  int64
	nanos    int64
	byEngine sync.Map // name -> *int64 queries decided
	unknowns int64
}

var stats solverStats

var solverSem = make(chan struct{}, 8)

var qcache sync.Map // sha256 -> Result

func count(m *sync.Map, k string) {
	v, _ := m.LoadOrStore(k, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

type backend struct {
	name string
	args func(ms int) []string
}

var backends = map[string]backend{
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"cvc5", "--strings-exp", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}
	}},
	"z3": {"z3", func(ms int) []string {
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	}},
}

var dumpDir = os.Getenv("VERIF_DUMP")
var dumpN int64

func runSolver(be, text string, ms int) (Result, string) {
	args := backends[be].args(ms)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	solverSem <- struct{}{}
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0)
	<-solverSem
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, int64(d))
	o := out.String()
	first, _, _ := strings.Cut(o, "\n")
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, o
	case "sat":
		return Sat, o
	}
	if strings.Contains(o, "error") || strings.Contains(errb.String(), "rror") {
		if !strings.Contains(o, "timeout") && !strings.Contains(errb.String(), "interrupted") {
			os.WriteFile("/tmp/verif_solver_error.smt2", []byte(text), 0o644)
			fmt.Fprintf(os.Stderr, "solver error: %s %s\n", trunc(o, 300), trunc(errb.String(), 300))
		}
	}
	return Unknown, o + errb.String()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// solve decides whether the conjunction of asserts is satisfiable.
func solve(asserts []*Term, ms int) (Result, string) {
	for _, a := range asserts {
		if a.IsFalse() {
			return Unsat, "simplifier"
		}
	}
	text, _ := Script(asserts)
	return solveText(text, ms)
}

type cacheEntry struct {
	r  Result
	be string
	ms int
}

func solveText(text string, ms int) (Result, string) {
	text += "(check-sat)\n"
	h := sha256.Sum256([]byte(text))
	if v, ok := qcache.Load(h); ok {
		ce := v.(cacheEntry)
		if ce.r != Unknown || ce.ms >= ms {
			return ce.r, ce.be
		}
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", dumpDir, n), []byte(text), 0o644)
	}
	t0 := time.Now()
	r, _ := runSolver("cvc5", text, ms)
	be := "cvc5"
	if dumpDir != "" && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %d: %v %v\n", atomic.LoadInt64(&dumpN), time.Since(t0), r)
	}
	if r == Unknown && ms >= 3000 {
		if r2, _ := runSolver("z3", text, ms/2); r2 != Unknown {
			r, be = r2, "z3"
		}
	}
	if r == Unknown {
		atomic.AddInt64(&stats.unknowns, 1)
	} else {
		count(&stats.byEngine, be)
	}
	qcache.Store(h, cacheEntry{r, be, ms})
	return r, be
}

// model asks for the values of variables in a satisfying assignment.
func model(asserts []*Term, want []*Term, ms int) map[string]string {
	text, vars := Script(asserts)
	have := map[string]bool{}
	for _, v := range vars {
		have[v.S] = true
	}
	var names []string
	for _, w := range want {
		if w.Op == "var" && have[w.S] {
			names = append(names, smtSym(w.S))
		}
	}
	if want == nil {
		for _, v := range vars {
			names = append(names, smtSym(v.S))
		}
	}
	sort.Strings(names)
	text = "(set-option :produce-models true)\n" + text + "(check-sat)\n"
	for _, n := range names {
		text += "(get-value (" + n + "))\n"
	}
	r, out := runSolver("cvc5", text, ms)
	res := map[string]string{}
	if r != Sat {
		return res
	}
	lines := strings.Split(out, "\n")
	for _, l := range lines[1:] {
		l = strings.TrimSpace(l)
		l = strings.TrimSuffix(strings.TrimPrefix(l, "(("), "))")
		n, v, ok := strings.Cut(l, " ")
		if ok {
			res[n] = v
		}
	}
	return res
}
