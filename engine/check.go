package main

// The check of one property: its roots and everything they rest on are
// verified against the current source; what fails is reported, with a failing
// input of the real code where one can be found.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Property struct {
	Roots []string `json:"roots"`
	Conc  string   `json:"conc"` // concrete test of the property
	Notes []string `json:"notes"`
}

var (
	globalDeadline = time.Now().Add(24 * time.Hour)
	falsified      atomic.Bool
)

func checkMain(repo, dir, prop, tier string, seed int64) int {
	t0 := time.Now()
	props := map[string]*Property{}
	b, err := os.ReadFile(filepath.Join(dir, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	pr := props[prop]
	if err != nil || pr == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop, err)
		return 2
	}
	concS, moreS, proofS := 20, 100, 480
	if tier == "thorough" {
		concS, moreS, proofS = 240, 240, 3000
		rootBudget = 1500 * time.Second
		oblMS *= 4
		houdiniMS *= 2
	}
	globalDeadline = t0.Add(time.Duration(proofS) * time.Second)
	evDir := filepath.Join(dir, "evidence")
	os.MkdirAll(evDir, 0o755)
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	p, err := loadProg(repo, filepath.Join(dir, "spec"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	conc := &concRunner{repo: repo, dir: dir, scratch: scratch, test: pr.Conc}
	concDone := make(chan struct{})
	go func() {
		defer close(concDone)
		conc.build()
		conc.run(seed, concS)
		if conc.found != "" {
			falsified.Store(true)
		}
	}()

	results := p.runAll(pr.Roots)
	<-concDone

	var failed []*Obligation
	obls, discharged := 0, 0
	live := 0
	for _, r := range results {
		if !r.Skipped {
			live++
		}
	}
	if live == 0 {
		results = append(results, &RootResult{Root: "none", Obls: []*Obligation{{Name: "specification", Kind: "specification", Label: "none of the specifications fits the code", Unsupp: true}}})
	}
	for _, r := range results {
		f := r.failed()
		failed = append(failed, f...)
		obls += len(r.Obls)
		discharged += len(r.Obls) - len(f)
		fmt.Printf("%-45s %s, %v\n", r.Root, r.summary(), r.Wall.Round(time.Millisecond))
	}
	if len(failed) > 0 && conc.found == "" {
		left := int((850*time.Second - time.Since(t0)).Seconds())
		if tier != "thorough" && moreS > left {
			moreS = left
		}
		if moreS > 5 {
			conc.run(seed+1000, moreS)
		}
	}
	list, _ := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	for _, k := range conc.known {
		if !strings.Contains(string(list), "known: property="+prop+" "+k+"\n") {
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}

	violation := len(failed) > 0 || conc.found != ""
	p.writeEvidence(filepath.Join(evDir, prop+".json"), prop, tier, seed, pr, results, conc, obls, discharged, violation, time.Since(t0))
	fmt.Printf("%s: %d obligations, %d discharged, %d concrete cases, %v\n", prop, obls, discharged, conc.cases, time.Since(t0).Round(time.Millisecond))
	if !violation {
		return 0
	}
	var rb strings.Builder
	for i, o := range failed {
		if i == 40 {
			fmt.Fprintf(&rb, "... %d more\n", len(failed)-i)
			break
		}
		why := "the verifier could not discharge it"
		if o.Unsupp {
			why = "the verifier could not generate it"
		} else if o.Res == Sat {
			why = "the solver refutes it"
		}
		fmt.Fprintf(&rb, "failed obligation %s\n  kind: %s, at %s\n  label: %s\n  %s\n  goal: %s\n", o.Name, o.Kind, o.Pos, trunc(o.Label, 2000), why, trunc(o.Goal, 3000))
		if o.Residual != "" {
			fmt.Fprintf(&rb, "  remaining: %s\n", trunc(o.Residual, 3000))
		}
		if len(o.Trace) > 0 {
			fmt.Fprintf(&rb, "  path: %v\n", o.Trace)
		}
		if i < 8 {
			fmt.Printf("failed obligation: %s at %s: %s\n", o.Name, o.Pos, trunc(o.Label, 200))
		}
	}
	tail := ""
	if conc.found != "" {
		fmt.Fprintf(&rb, "\nfailing input, replayed on the real code:\n%s\n\nto replay: VERIF_CONC_SEED=%d, test %s\n", conc.found, conc.foundSeed, conc.test)
		fmt.Println("failing input:", trunc(conc.found, 600))
	} else {
		tail = " no-failing-input-found"
		fmt.Fprintf(&rb, "\nno failing input found in %d cases\n%s\n", conc.cases, trunc(conc.trouble, 4000))
	}
	replay := filepath.Join(evDir, prop+".replay.txt")
	os.WriteFile(replay, []byte(rb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, tail)
	return 1
}

// runAll verifies roots and, transitively, the contracts, lemmas and facts
// they rest on.
func (p *Prog) runAll(roots []string) []*RootResult {
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[string]bool{}
	deps := map[string][]string{}
	var results []*RootResult
	sem := make(chan struct{}, 6)
	var add func(r string)
	add = func(r string) {
		if seen[r] {
			return
		}
		seen[r] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			rr := p.runRoot(r)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			results = append(results, rr)
			ds := rr.deps(p)
			deps[r] = ds
			for _, d := range ds {
				add(d)
			}
		}()
	}
	mu.Lock()
	for _, r := range roots {
		add(r)
	}
	mu.Unlock()
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Root < results[j].Root })
	// lemmas may use themselves, on smaller arguments, but not each other in a circle
	state := map[string]int{}
	var visit func(r string) bool
	visit = func(r string) bool {
		switch state[r] {
		case 1:
			return true
		case 2:
			return false
		}
		state[r] = 1
		for _, d := range deps[r] {
			if d != r && !strings.HasPrefix(d, "contract_") && visit(d) {
				return true
			}
		}
		state[r] = 2
		return false
	}
	for _, rr := range results {
		if visit(rr.Root) {
			rr.Obls = append(rr.Obls, &Obligation{Root: rr.Root, Kind: "specification", Label: "circular lemmas", Name: rr.Root + "/circular", Unsupp: true})
			break
		}
	}
	return results
}

func (r *RootResult) deps(p *Prog) []string {
	var out []string
	for _, f := range r.Assumed {
		out = append(out, p.contracts[f].Name())
	}
	for _, u := range r.Used {
		if strings.HasPrefix(u, "lemma_") || strings.HasPrefix(u, "fact_spec") {
			out = append(out, u)
		}
	}
	return out
}

func (p *Prog) writeEvidence(path, prop, tier string, seed int64, pr *Property, results []*RootResult, conc *concRunner, obls, discharged int, violation bool, wall time.Duration) {
	set := func(f func(r *RootResult) []string) []string {
		m := map[string]bool{}
		for _, r := range results {
			for _, s := range f(r) {
				m[s] = true
			}
		}
		out := []string{}
		for s := range m {
			out = append(out, s)
		}
		sort.Strings(out)
		return out
	}
	under := set(func(r *RootResult) []string {
		if fn := p.pkg.Func(r.Root); fn != nil && strings.HasPrefix(r.Root, "contract_") {
			if t := p.targetOf(fn); t != nil {
				return []string{t.RelString(p.pkg.Pkg)}
			}
		}
		return nil
	})
	inlined := set(func(r *RootResult) []string { return r.Inlined })
	pick := func(prefix string) []string {
		return set(func(r *RootResult) []string {
			var out []string
			for _, u := range r.Used {
				if strings.HasPrefix(u, prefix) {
					out = append(out, strings.TrimPrefix(u, prefix))
				}
			}
			return out
		})
	}
	models, nats, facts := pick("model "), pick("native "), pick("fact_uf")
	for i := range facts {
		facts[i] = "fact_uf" + facts[i]
	}
	byBackend := map[string]int{}
	kinds := map[string]int{}
	perRoot := []map[string]any{}
	loops := map[string]int{}
	for _, r := range results {
		for _, o := range r.Obls {
			kinds[o.Kind]++
			if !o.Unsupp && o.Res == Unsat {
				be := o.Backend
				if be == "" {
					be = "simplifier"
				}
				byBackend[be]++
			}
		}
		for k, v := range r.Loops {
			loops[k] += v
		}
		perRoot = append(perRoot, map[string]any{"root": r.Root, "obligations": len(r.Obls), "failed": len(r.failed()), "paths": r.Paths, "wall_s": r.Wall.Seconds()})
	}
	queries := map[string]int64{}
	stats.byEngine.Range(func(k, v any) bool { queries[k.(string)] = *v.(*int64); return true })
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": wall.Seconds(),
		"violations": map[bool]int{true: 1, false: 0}[violation],
		"coverage": map[string]any{
			"obligations": obls, "discharged": discharged,
			"checker_cmd": fmt.Sprintf("./check.sh %s %s", prop, tier),
			"trusted_base": append([]string{
				"the verifier in /verif/engine (symbolic execution, simplifier, induction schemes)",
				"golang.org/x/tools/go/ssa", "cvc5 1.1.2", "z3", "the Go compiler and runtime",
				"models of dependencies: " + strings.Join(models, ", "),
				"dependencies interpreted by the verifier: " + strings.Join(nats, ", "),
			}, "assumed facts: "+strings.Join(facts, ", ")),
			"functions_under_contract":           under,
			"functions_verified_in_place":        inlined,
			"roots":                              perRoot,
			"obligation_kinds":                   kinds,
			"obligations_by_back_end":            byBackend,
			"solver_queries_decided":             queries,
			"solver_seconds":                     time.Duration(stats.nanos).Seconds(),
			"loop_invariants":                    loops,
			"concrete_cases":                     conc.cases,
			"concrete_model_validation":          conc.summary,
			"specification_declarations_dropped": p.dropped,
		},
		"assumptions": append([]string{
			"int and int64 are mathematical integers in the proofs",
			"allocation does not fail; stack depth is not limited",
			"arguments of the entry points do not alias each other",
			"errors are compared by identity (errors.Is as ==)",
		}, pr.Notes...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// ---- running the real code ----

type concRunner struct {
	repo, dir, scratch, test string
	bin                      string
	cases                    int
	found                    string
	foundSeed                int64
	known                    []string
	summary                  string
	trouble                  string
}

func (c *concRunner) env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// build compiles the package's tests with the executable parts of the
// specification and the concrete tests laid over it.
func (c *concRunner) build() {
	if c.test == "" {
		return
	}
	rep := map[string]string{}
	add := func(pat string) {
		fs, _ := filepath.Glob(filepath.Join(c.dir, pat))
		for _, f := range fs {
			n := strings.TrimSuffix(filepath.Base(f), ".go")
			n = strings.TrimSuffix(n, "_test")
			rep[filepath.Join(c.repo, "zz_verif_"+n+"_test.go")] = f
		}
	}
	add("spec/lang.go")
	add("spec/models.go")
	add("spec/spec_*.go")
	add("conc/*.go")
	// the package's own tests are not part of the check
	own, _ := filepath.Glob(filepath.Join(c.repo, "*_test.go"))
	for _, f := range own {
		rep[f] = ""
	}
	bin := filepath.Join(c.scratch, "conc.test")
	for round := 0; round < 6; round++ {
		b, _ := json.Marshal(map[string]any{"Replace": rep})
		ov := filepath.Join(c.scratch, "overlay.json")
		os.WriteFile(ov, b, 0o644)
		cmd := exec.Command("go", "test", "-vet=off", "-c", "-gcflags=-e", "-overlay", ov, "-o", bin, ".")
		cmd.Dir = c.repo
		cmd.Env = c.env()
		out, err := cmd.CombinedOutput()
		if err == nil {
			c.bin = bin
			return
		}
		c.trouble = "concrete tests do not build: " + trunc(string(out), 2000)
		// leave out the files that name things the package no longer has
		n := 0
		for f, src := range rep {
			base := filepath.Base(f)
			if src != "" && strings.Contains(src, "/conc/") && bytes.Contains(out, []byte(base)) {
				delete(rep, f)
				n++
			}
		}
		if n == 0 {
			return
		}
	}
}

var casesRE = regexp.MustCompile(`(?m)^CASES (\d+)$`)
var knownRE = regexp.MustCompile(`(?m)^KNOWN (.*)$`)

// run tries inputs for some seconds.
func (c *concRunner) run(seed int64, secs int) {
	if c.bin == "" || c.found != "" {
		return
	}
	procs := runtime.NumCPU()
	if secs < 30 {
		procs = 2
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var known string
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+60)*time.Second)
	defer cancel()
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := seed*100 + int64(i)
			work := filepath.Join(c.scratch, fmt.Sprintf("w%d", s))
			os.MkdirAll(work, 0o755)
			var out bytes.Buffer
			cmd := exec.CommandContext(ctx, c.bin, "-test.run", "^TestVerif("+c.test+"|Models|Known"+c.test+")$", "-test.timeout", fmt.Sprintf("%ds", secs+50), "-test.v")
			cmd.Dir = work
			cmd.Env = append(c.env(), fmt.Sprintf("VERIF_CONC_SEED=%d", s), fmt.Sprintf("VERIF_CONC_SECONDS=%d", secs), fmt.Sprintf("VERIF_CONC_WORKER=%d", i), "VERIF_REPO="+c.repo, "GOMEMLIMIT=2GiB")
			cmd.Stdout, cmd.Stderr = &out, &out
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			o := out.String()
			for _, m := range casesRE.FindAllStringSubmatch(o, -1) {
				n := 0
				fmt.Sscan(m[1], &n)
				c.cases += n
			}
			if i == 0 {
				known = o
			}
			if err != nil && ctx.Err() == nil && c.found == "" {
				j := strings.Index(o, "FALSIFIED")
				if j < 0 {
					j = strings.Index(o, "panic: ")
				}
				if j < 0 {
					j = strings.Index(o, "fatal error: ")
				}
				if j >= 0 {
					c.found = trunc(o[j:], 6000)
					c.foundSeed = s
					cancel()
				} else {
					c.trouble = "concrete test failed: " + trunc(o, 2000)
				}
			}
		}()
	}
	wg.Wait()
	if c.known == nil {
		for _, m := range knownRE.FindAllStringSubmatch(known, -1) {
			c.known = append(c.known, m[1])
		}
	}
	c.summary = fmt.Sprintf("%d cases of test %s and of the models run against the real code", c.cases, c.test)
}
