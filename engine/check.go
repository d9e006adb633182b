package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type finding struct {
	prop, key, what string
}

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var fs []finding
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			fs = append(fs, finding{m[1], m[2], m[3]})
		}
	}
	return fs
}

type replayResult struct {
	Pkgs    []string
	Evals   int
	Nontriv int
	Rule    string
	Samples []string
	Fails   []replayFail
	Broken  string // could not be built or ended abnormally
	Out     string
	Cmd     string
	WallMs  int
}

type replayFail struct {
	Key, Text string
}

// replayPkgs finds the packages with a replay test for the property.
func replayPkgs(dir, prop string) map[string]bool {
	pk := map[string]bool{}
	re := regexp.MustCompile(`func TestReplay_` + prop + `\b`)
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		if re.Match(b) {
			rel, _ := filepath.Rel(dir, filepath.Dir(p))
			pk[rel] = true
		}
		return nil
	})
	return pk
}

func runReplay(repo, verif, prop, tier string, deep bool) *replayResult {
	r := &replayResult{}
	dir := filepath.Join(verif, "replay")
	pk := replayPkgs(dir, prop)
	if len(pk) == 0 {
		return r
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "gocv-replay-")
	if err != nil {
		r.Broken = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(dir, p)
			d := filepath.Dir(rel)
			if pk[d] || strings.HasPrefix(d, "zzverif") {
				rep[filepath.Join(repo, rel)] = p
			}
		}
		return nil
	})
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	args := []string{"test", "-v", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "600s", "-run", "^TestReplay_" + prop + "$"}
	for d := range pk {
		r.Pkgs = append(r.Pkgs, d)
	}
	sort.Strings(r.Pkgs)
	for _, d := range r.Pkgs {
		args = append(args, "./"+d)
	}
	secs := 280
	if tier == "thorough" {
		secs = 700
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	lvl := "1"
	if deep {
		lvl = "2"
	}
	if tier == "thorough" {
		lvl = "3"
	}
	cmd.Env = append(os.Environ(), "VERIF_LEVEL="+lvl, "GOMEMLIMIT=6GiB", "VERIF_REPLAY_DIR="+tmp)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	r.WallMs = int(time.Since(t0).Milliseconds())
	r.Out = out.String()
	r.Cmd = "go " + strings.Join(args, " ")
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if i := strings.Index(l, "REPLAY-FAIL "); i >= 0 {
			l = l[i+len("REPLAY-FAIL "):]
			key, text, _ := strings.Cut(l, " ")
			r.Fails = append(r.Fails, replayFail{strings.TrimPrefix(key, "key="), text})
		}
		if i := strings.Index(l, "REPLAY-COUNT "); i >= 0 {
			var n, m int
			fmt.Sscanf(l[i:], "REPLAY-COUNT evaluations=%d nontrivial=%d", &n, &m)
			r.Evals += n
			r.Nontriv += m
		}
		if i := strings.Index(l, "REPLAY-SAMPLE "); i >= 0 && len(r.Samples) < 12 {
			r.Samples = append(r.Samples, l[i+len("REPLAY-SAMPLE "):])
		}
		if i := strings.Index(l, "REPLAY-RULE "); i >= 0 {
			if r.Rule != "" {
				r.Rule += "; "
			}
			r.Rule += l[i+len("REPLAY-RULE "):]
		}
	}
	if err != nil && len(r.Fails) == 0 {
		if strings.Contains(r.Out, "fatal error: ") || strings.Contains(r.Out, "panic: ") {
			if !strings.Contains(r.Out, "test timed out") {
				k := r.Out
				if i := strings.Index(k, "fatal error: "); i >= 0 {
					k = k[i:]
				} else if i := strings.Index(k, "panic: "); i >= 0 {
					k = k[i:]
				}
				if len(k) > 300 {
					k = k[:300]
				}
				in, _ := os.ReadFile(filepath.Join(tmp, "current"))
				r.Fails = append(r.Fails, replayFail{"crash", fmt.Sprintf("input %s: the process died: %s", in, strings.ReplaceAll(k, "\n", " | "))})
				return r
			}
		}
		r.Broken = "the replay did not run: " + err.Error()
	}
	return r
}

func checkMain(repo, verif string, args []string) int {
	if len(args) < 1 {
		return 2
	}
	prop := args[0]
	tier := envOr("VERIF_TIER", "quick")
	if len(args) > 1 && args[1] == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	t0 := time.Now()
	if tier == "thorough" {
		b := true
		scriptSink = &b
	}
	type rr struct{ r *replayResult }
	ch := make(chan *replayResult, 1)
	go func() { ch <- runReplay(repo, verif, prop, tier, false) }()

	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	var props, lemmas []*CResult
	var demoted []string
	var notes []string
	p, err := Load(repo, filepath.Join(verif, "specs"), []string{"./..."})
	loaded := err == nil
	if err != nil {
		notes = append(notes, "not loaded: "+err.Error())
	} else {
		p.checkImmut()
		props, lemmas, demoted = runProps(p, prop, "", budget, false, 6)
		for _, d := range p.Dropped {
			notes = append(notes, "contract not applicable to this source: "+d)
		}
	}
	rep := <-ch

	// verdict of the verifier
	type failedObl struct {
		c *CResult
		o *Obl
	}
	var failed []failedObl
	var undecided []*CResult
	nObl, nDis := 0, 0
	backends := map[string]int{}
	solverMs := 0
	var slow []string
	funcs := map[string]bool{}
	inl := map[string]bool{}
	assum := map[string]bool{}
	var contracts []map[string]interface{}
	loops, paths, queries := 0, 0, 0
	tally := func(r *CResult, counts bool) {
		n, d := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Result == "discharged" {
				d++
				backends[o.Solver]++
			}
			if o.Ms > 2000 {
				slow = append(slow, fmt.Sprintf("%s/%s %.0f ms", r.Name, o.Label, o.Ms))
			}
		}
		if counts {
			nObl += n
			nDis += d
		}
		solverMs += r.SolverMs
		loops += r.Loops
		paths += r.Paths
		queries += r.Queries
		for _, x := range r.Inlined {
			inl[x] = true
		}
		for _, x := range r.Assum {
			assum[x] = true
		}
		contracts = append(contracts, map[string]interface{}{"contract": r.Name, "at": fmt.Sprintf("%s:%d", r.File, r.Line), "kind": r.Kind,
			"status": r.Status, "obligations": n, "discharged": d, "paths": r.Paths, "loops_cut": r.Loops, "solver_ms": r.SolverMs, "reason": r.Reason, "uses_contracts": r.Lemmas})
	}
	for _, r := range props {
		tally(r, true)
		funcs[r.Name] = true
		switch r.Status {
		case "failed":
			for _, o := range r.Obls {
				if o.Result != "discharged" {
					failed = append(failed, failedObl{r, o})
				}
			}
		case "unsupported":
			undecided = append(undecided, r)
		}
	}
	dem := map[string]bool{}
	for _, d := range demoted {
		dem[d] = true
	}
	for _, r := range lemmas {
		tally(r, r.Status == "proved")
		if r.Status != "proved" {
			notes = append(notes, "contract "+r.Name+" not proved on this source ("+r.Reason+"); its callers were verified against the body")
		}
	}
	if loaded && len(p.ImmutV) > 0 {
		for _, iv := range p.ImmutV {
			notes = append(notes, "declared immutable but written: "+iv)
		}
		if len(props) > 0 {
			undecided = append(undecided, &CResult{Name: "immutability", Reason: strings.Join(p.ImmutV, "; ")})
		}
	}

	// a failed proof triggers a deeper search for a failing input
	if (len(failed) > 0 || len(undecided) > 0) && len(rep.Fails) == 0 && rep.Broken == "" && tier == "quick" {
		deep := runReplay(repo, verif, prop, tier, true)
		deep.Evals += rep.Evals
		deep.Nontriv += rep.Nontriv
		rep = deep
	}

	// known findings
	known := loadFindings(filepath.Join(verif, "known_findings.txt"))
	isKnown := func(key string) *finding {
		for i := range known {
			if known[i].prop == prop && known[i].key == key {
				return &known[i]
			}
		}
		return nil
	}
	printed := map[string]bool{}
	var newFails []replayFail
	for _, f := range rep.Fails {
		if k := isKnown(f.Key); k != nil {
			if !printed[k.key] {
				printed[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
			}
			continue
		}
		newFails = append(newFails, f)
	}
	var newObl []failedObl
	for _, f := range failed {
		if k := isKnown(f.c.Name + "/" + strings.ReplaceAll(f.o.Label, " ", "_")); k != nil {
			if !printed[k.key] {
				printed[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
			}
			continue
		}
		newObl = append(newObl, f)
	}

	code := 0
	violations := 0
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	rfile := filepath.Join(rdir, prop+".txt")
	os.Remove(rfile)
	var b strings.Builder
	for _, f := range newObl {
		fmt.Fprintf(&b, "failed obligation: contract %s (%s:%d), %s %q: %s\n", f.c.Name, f.c.File, f.c.Line, f.o.Kind, f.o.Label, f.o.Result)
		fmt.Fprintf(&b, "%s\n", f.o.Detail)
		if f.o.Model != "" {
			m := f.o.Model
			if len(m) > 6000 {
				m = m[:6000] + "\n..."
			}
			fmt.Fprintf(&b, "verifier output (model):\n%s\n", m)
		}
	}
	for _, r := range undecided {
		fmt.Fprintf(&b, "undecided contract: %s: %s\n", r.Name, r.Reason)
	}
	for _, n := range notes {
		fmt.Fprintf(&b, "note: %s\n", n)
	}
	if len(newFails) > 0 {
		var h strings.Builder
		for i, f := range newFails {
			if i < 20 {
				fmt.Fprintf(&h, "failing input (confirmed on the real code): %s %s\n", f.Key, f.Text)
			}
		}
		fmt.Fprintf(&h, "reproduce: VERIF_SEED=%d /verif/check %s   (runs: %s in %s)\n\n", seed, prop, rep.Cmd, repo)
		os.WriteFile(rfile, []byte(h.String()+b.String()), 0644)
		fmt.Printf("property %s: %d failing inputs, first: %s\n", prop, len(newFails), newFails[0].Text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rfile)
		code = 1
		violations = len(newFails)
	} else if len(newObl) > 0 {
		os.WriteFile(rfile, []byte(b.String()+"\nreplay search: "+rep.Cmd+"\n"+rep.Broken+"\n"), 0644)
		for i, f := range newObl {
			if i < 5 {
				fmt.Printf("property %s: obligation %s/%q %s\n", prop, f.c.Name, f.o.Label, f.o.Result)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rfile)
		code = 1
		violations = len(newObl)
	} else {
		for _, r := range undecided {
			fmt.Printf("UNDECIDED: property=%s contract %s: %s (bounded replay found nothing)\n", prop, r.Name, r.Reason)
		}
		if rep.Broken != "" {
			fmt.Printf("NOTE: %s\n", rep.Broken)
		}
		if !loaded && (rep.Broken != "" || rep.Evals == 0) {
			fmt.Println("the source could not be analysed:", err)
			if rep.Out != "" {
				fmt.Println(tail(rep.Out, 2000))
			}
			return 2
		}
	}

	// evidence
	level := "proof"
	if len(props) == 0 {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis,
		"checker_cmd":               "gocv check " + prop + " (VCs from go/ssa of /repo's working tree, discharged by z3-new 4.x over stdin; cvc5 on unknowns)",
		"trusted_base":              trusted(assum),
		"functions_under_contract":  keysOf(funcs),
		"contracts":                 contracts,
		"functions_verified_inline": keysOf(inl),
		"back_ends":                 backends,
		"solver_ms":                 solverMs,
		"queries":                   queries,
		"paths":                     paths,
		"loops_with_inferred_or_given_invariants": loops,
		"slow_obligations":                        slow,
		"undecided_contracts":                     len(undecided),
		"notes":                                   notes,
		"bounded_replay": map[string]interface{}{
			"label": "bounded stand-in and replay on the real code, never counted as proved", "evaluations": rep.Evals, "packages": rep.Pkgs, "wall_ms": rep.WallMs, "broken": rep.Broken,
		},
	}
	if rep.Evals > 0 {
		cov["evaluations"] = rep.Evals
		cov["distinct_nontrivial"] = rep.Nontriv
		cov["rule"] = rep.Rule
		if len(rep.Samples) > 0 {
			cov["samples"] = rep.Samples
		}
	}
	if tier == "thorough" && loaded {
		cov["cross_check"] = crossAll(append(append([]*CResult{}, props...), lemmas...))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": trusted(assum), "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0644)
	if code == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d contracts=%d replay=%d wall=%.1fs\n", prop, nObl, nDis, len(props)+len(lemmas), rep.Evals, time.Since(t0).Seconds())
	}
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func trusted(assum map[string]bool) []string {
	base := []string{
		"the verification condition generator (gocv, /verif/engine) and go/ssa's translation",
		"z3 (quantifier-free, one query per obligation)",
		"slice lengths below 2^48; allocation never fails",
		"package-level variables never assigned outside initialisers keep their initial value",
		"floating-point operations are uninterpreted functions",
	}
	return append(base, keysOf(assum)...)
}

// crossAll re-discharges every solver obligation with independent solvers.
func crossAll(rs []*CResult) map[string]int {
	res := map[string]int{}
	type job struct{ s string }
	sem := make(chan struct{}, 6)
	done := make(chan [2]string, 64)
	n := 0
	for _, r := range rs {
		if r == nil {
			continue
		}
		for _, o := range r.Obls {
			if o.Script == "" {
				continue
			}
			n++
			go func(s string) {
				sem <- struct{}{}
				a := crossCheck("cvc5", s, 20)
				b := crossCheck("z3-4.8", s, 20)
				<-sem
				done <- [2]string{a, b}
			}(o.Script)
		}
	}
	for i := 0; i < n; i++ {
		x := <-done
		res["cvc5 "+x[0]]++
		res["z3-4.8 "+x[1]]++
	}
	return res
}
