package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var scriptSink *bool

func crossCheck(solver, script string, secs int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	switch solver {
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "-")
	case "z3-4.8":
		cmd = exec.CommandContext(ctx, "z3", fmt.Sprintf("-T:%d", secs), "-in")
	}
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// CResult is the verification result of one contract.
type CResult struct {
	Name     string
	Kind     string
	File     string
	Line     int
	Status   string // proved, failed, unsupported
	Reason   string
	Obls     []*Obl
	Assum    []string
	Inlined  []string
	Lemmas   []string
	Demoted  []string
	Queries  int
	SolverMs int
	WallMs   int
	Loops    int
	Paths    int
	Unfold   int
	Live     int // paths that reach the end
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// verifyContract checks one contract, its cases side by side.
func verifyContract(p *Program, sf *SpecFunc, prop string, noLemma map[string]bool, budget time.Duration, debug bool) *CResult {
	n := splits(sf.Fn)
	if n == 0 {
		return verifyCase(p, sf, prop, noLemma, budget, debug, 0, false)
	}
	cases := make([]*CResult, 1<<n)
	var wg sync.WaitGroup
	for i := range cases {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cases[i] = verifyCase(p, sf, prop, noLemma, budget, debug, i, true)
		}(i)
	}
	wg.Wait()
	return mergeCases(cases)
}

// splits counts the case distinctions of a contract.
func splits(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "Split" && f.Pkg != nil && f.Pkg.Pkg.Path() == kitPath {
					n++
				}
			}
		}
	}
	return n
}

func mergeCases(cases []*CResult) *CResult {
	res := cases[0]
	live := res.Live
	set := func(a, b []string) []string {
		m := map[string]bool{}
		for _, x := range append(append([]string(nil), a...), b...) {
			m[x] = true
		}
		return keysOf(m)
	}
	for _, r := range cases[1:] {
		live += r.Live
		res.Obls = append(res.Obls, r.Obls...)
		res.Assum, res.Inlined = set(res.Assum, r.Assum), set(res.Inlined, r.Inlined)
		res.Lemmas, res.Demoted = set(res.Lemmas, r.Lemmas), set(res.Demoted, r.Demoted)
		res.Queries += r.Queries
		res.SolverMs += r.SolverMs
		if r.WallMs > res.WallMs {
			res.WallMs = r.WallMs
		}
		res.Loops += r.Loops
		res.Paths += r.Paths
		res.Unfold += r.Unfold
		if r.Status == "unsupported" && res.Status != "unsupported" || r.Status == "failed" && res.Status == "proved" {
			res.Status, res.Reason = r.Status, r.Reason
		}
	}
	if live == 0 {
		res.Obls = append(res.Obls, &Obl{Contract: res.Name, Label: "precondition is satisfiable", Kind: "reach", Result: "failed", Detail: "no case reaches the end of the contract"})
		if res.Status == "proved" {
			res.Status, res.Reason = "failed", "reach precondition is satisfiable: failed"
		}
	}
	return res
}

// verifyCase checks one case of a contract.
func verifyCase(p *Program, sf *SpecFunc, prop string, noLemma map[string]bool, budget time.Duration, debug bool, caseNo int, oneOf bool) (res *CResult) {
	t0 := time.Now()
	v := newV(p, sf, prop)
	v.caseNo = caseNo
	v.debug = debug
	v.deadline = t0.Add(budget)
	for k := range noLemma {
		v.noLemma[k] = true
	}
	res = &CResult{Name: sf.Name, File: filepath.Base(sf.File), Line: sf.Line, Kind: "property"}
	if sf.Lemma != "" {
		res.Kind = "contract of " + sf.Lemma
	}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOCV_TRACE") != "" {
					panic(r)
				}
				u = unsupported(fmt.Sprint("internal: ", r))
			}
			res.Status = "unsupported"
			res.Reason = string(u)
		}
		v.sv.Close()
		res.Obls = v.obls
		res.Assum = keysOf(v.assum)
		res.Inlined = keysOf(v.inlined)
		res.Lemmas = keysOf(v.lemUsed)
		res.Demoted = keysOf(noLemma)
		res.Queries = v.sv.Queries
		res.SolverMs = int(v.sv.Time.Milliseconds())
		res.WallMs = int(time.Since(t0).Milliseconds())
		res.Loops = v.loops
		res.Unfold = len(v.unfolded)
	}()
	v.machine = sf.Opts["machine"] != ""
	if d := sf.Opts["depth"]; d != "" {
		fmt.Sscan(d, &v.sv.Depth)
	}
	st := &State{heap: map[string]*Term{}, cells: map[int]Value{}, escCells: map[int]bool{}}
	st.heapOwn, st.cellOwn = true, true
	st.world = v.st.Sym("world", v.st.WorldS)
	v.runInits(st, sf.Fn.Pkg)
	v.st.stamp++
	fn := sf.Fn
	var args []Value
	for _, prm := range fn.Params {
		args = append(args, v.paramValue(prm.Name(), prm.Type()))
	}
	v.entryStamp = v.st.stamp
	fr := v.newFrame(fn, nil, args, nil, -1)
	fr.spec = true
	fr.ctx = &lemmaCtx{sf: sf, where: "check"}
	if sf.Lemma != "" {
		fr.ctx.target = p.findFunc(fn.Pkg, sf.Lemma)
	}
	outs := v.execFrom(work{st: st, fr: fr, blk: fn.Blocks[0]}, nil)
	res.Paths = len(outs)
	live := 0
	for _, o := range outs {
		if o.kind == oPanic {
			if fr.ctx.mayPanic {
				live++
				continue
			}
			o.st.trace = append(o.st.trace, o.why)
			v.oblige(o.st, "safety", "no unexpected panic ("+o.why+")", v.st.False)
			continue
		}
		if v.sv.Check(o.st.pcTerms()) != Unsat {
			live++
		}
	}
	res.Live = live
	if live == 0 && oneOf {
		res.Status = "proved" // a case that cannot happen
		for _, o := range v.obls {
			if o.Result != "discharged" {
				res.Status, res.Reason = "failed", o.Kind+" "+o.Label+": "+o.Result
			}
		}
		return res
	}
	if live == 0 {
		v.obls = append(v.obls, &Obl{Contract: sf.Name, Label: "precondition is satisfiable", Kind: "reach", Result: "failed", Detail: "no execution reaches the end of the contract"})
	} else {
		v.obls = append(v.obls, &Obl{Contract: sf.Name, Label: "no unexpected panic; end reachable", Kind: "safety", Result: "discharged", Solver: "paths"})
	}
	n := 0
	for _, o := range v.obls {
		if o.Kind == "ensures" || o.Kind == "assert" {
			n++
		}
	}
	if n == 0 {
		v.obls = append(v.obls, &Obl{Contract: sf.Name, Label: "postcondition reached", Kind: "reach", Result: "failed", Detail: "no postcondition was reached"})
	}
	res.Status = "proved"
	for _, o := range v.obls {
		if o.Result != "discharged" {
			res.Status = "failed"
			if res.Reason == "" {
				res.Reason = o.Kind + " " + o.Label + ": " + o.Result
			}
		}
	}
	return res
}

func (v *V) paramValue(name string, T types.Type) Value {
	return v.fresh(name, T)
}

type verdict struct {
	mu    sync.Mutex
	res   map[string]*CResult // by contract name
	order []string
}

// runProps verifies all contracts of a property, with the lemmas they use.
func runProps(p *Program, prop string, filter string, budget time.Duration, debug bool, par int) (props, lemmas []*CResult, dropped []string) {
	var todo []*SpecFunc
	for _, sf := range p.Specs {
		for _, q := range sf.Props {
			if (prop == "all" || q == prop) && (filter == "" || strings.Contains(sf.Name, filter)) {
				todo = append(todo, sf)
				break
			}
		}
	}
	byName := map[string]*SpecFunc{}
	for _, sf := range p.Specs {
		byName[sf.Name] = sf
	}
	sem := make(chan struct{}, par)
	end := time.Now().Add(budget + budget/4) // for all contracts together
	run := func(list []*SpecFunc, no map[string]map[string]bool) map[string]*CResult {
		out := map[string]*CResult{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for _, sf := range list {
			wg.Add(1)
			go func(sf *SpecFunc) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				pr := prop
				if pr == "all" {
					pr = ""
				}
				own := budget
				if left := time.Until(end); left < own {
					own = left
				}
				if own < time.Second {
					own = time.Second
				}
				r := verifyContract(p, sf, pr, no[sf.Name], own, debug)
				mu.Lock()
				out[sf.Name] = r
				mu.Unlock()
			}(sf)
		}
		wg.Wait()
		return out
	}
	res := run(todo, nil)
	// lemmas, transitively
	lem := map[string]*CResult{}
	bad := map[string]bool{}
	for round := 0; round < 8; round++ {
		need := map[string]bool{}
		for _, r := range res {
			for _, l := range r.Lemmas {
				need[l] = true
			}
		}
		for _, r := range lem {
			if r.Status == "proved" {
				for _, l := range r.Lemmas {
					need[l] = true
				}
			}
		}
		var list []*SpecFunc
		for l := range need {
			if r := res[l]; r != nil && lem[l] == nil {
				lem[l] = r // already checked as a property of its own
			}
			if lem[l] == nil {
				list = append(list, byName[l])
			}
		}
		sort.Slice(list, func(i, j int) bool { return list[i].Name < list[j].Name })
		if len(list) > 0 {
			for k, r := range run(list, nil) {
				lem[k] = r
			}
			continue
		}
		// demote failed lemmas
		newBad := false
		for n, r := range lem {
			if r.Status != "proved" && !bad[n] {
				bad[n] = true
				newBad = true
			}
		}
		if !newBad {
			break
		}
		var again []*SpecFunc
		no := map[string]map[string]bool{}
		for _, sf := range todo {
			for _, l := range res[sf.Name].Lemmas {
				if bad[l] {
					again = append(again, sf)
					no[sf.Name] = bad
					break
				}
			}
		}
		for k, r := range run(again, no) {
			res[k] = r
		}
		var lagain []*SpecFunc
		for n, r := range lem {
			if r.Status != "proved" {
				continue
			}
			for _, l := range r.Lemmas {
				if bad[l] {
					lagain = append(lagain, byName[n])
					no[n] = bad
					break
				}
			}
		}
		for k, r := range run(lagain, no) {
			lem[k] = r
		}
	}
	for _, sf := range todo {
		props = append(props, res[sf.Name])
	}
	used := map[string]bool{}
	var mark func(ls []string)
	mark = func(ls []string) {
		for _, l := range ls {
			if !used[l] {
				used[l] = true
				if lem[l] != nil {
					mark(lem[l].Lemmas)
				}
			}
		}
	}
	for _, r := range props {
		mark(r.Lemmas)
	}
	for _, n := range keysOf(used) {
		if lem[n] != nil {
			lemmas = append(lemmas, lem[n])
		}
	}
	for n := range bad {
		if !used[n] {
			dropped = append(dropped, n)
			lemmas = append(lemmas, lem[n])
		}
	}
	sort.Strings(dropped)
	return
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv check PROP | debug PROP [contract] | ssa FUNC")
		os.Exit(2)
	}
	repo := envOr("GOCV_REPO", "/repo")
	verif := envOr("GOCV_VERIF", "/verif")
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(repo, verif, os.Args[2:]))
	case "debug":
		p, err := Load(repo, filepath.Join(verif, "specs"), []string{"./..."})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p.checkImmut()
		for _, d := range p.Dropped {
			fmt.Println("dropped:", d)
		}
		for _, d := range p.ImmutV {
			fmt.Println("immutability:", d)
		}
		filter := ""
		if len(os.Args) > 3 {
			filter = os.Args[3]
		}
		ps, ls, _ := runProps(p, os.Args[2], filter, 300*time.Second, true, 8)
		for _, r := range append(ps, ls...) {
			printResult(r)
		}
	case "ssa":
		p, err := Load(repo, filepath.Join(verif, "specs"), []string{"./..."})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, sp := range p.Pkgs {
			if f := p.findFunc(sp, os.Args[2]); f != nil {
				var b bytes.Buffer
				f.WriteTo(&b)
				fmt.Println(b.String())
			}
		}
	}
}

func envOr(k, d string) string {
	if x := os.Getenv(k); x != "" {
		return x
	}
	return d
}

func printResult(r *CResult) {
	n, d := 0, 0
	for _, o := range r.Obls {
		n++
		if o.Result == "discharged" {
			d++
		}
	}
	fmt.Printf("%-11s %-36s %3d/%3d obligations, %d paths, %d loops, %d queries, solver %d ms, wall %d ms %s\n", r.Status, r.Name, d, n, r.Paths, r.Loops, r.Queries, r.SolverMs, r.WallMs, r.Reason)
	for _, o := range r.Obls {
		if o.Result != "discharged" {
			fmt.Printf("      %s %s %q\n", o.Result, o.Kind, o.Label)
		}
	}
	if os.Getenv("GOCV_V") != "" {
		fmt.Println("    lemmas:", r.Lemmas, "demoted:", r.Demoted)
		fmt.Println("    inlined:", r.Inlined)
		fmt.Println("    assumptions:", r.Assum)
		for _, o := range r.Obls {
			fmt.Printf("      %s %s %q %s %.1fms\n", o.Result, o.Kind, o.Label, o.Solver, o.Ms)
		}
	}
	os.Stdout.Sync()
}

var _ = json.Marshal
