package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Result of a query.
type Result int

// Query results.
const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives a persistent SMT-LIB process.
type Solver struct {
	st       *Store
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	emitted  map[int]bool
	levels   []*level // what is asserted
	depthOf  map[*Term]int
	inOut    map[*Term]bool
	factPos  int
	declS    map[string]bool
	declF    map[string]bool
	bin      string
	args     []string
	Queries  int
	Time     time.Duration
	cache    map[string]Result
	unfold   func(t *Term) []*Term // definitional facts of an application
	extra    func(cone map[*Term]bool) []*Term
	Depth    int
	Timeout  int // ms
	Slowest  time.Duration
	slowDesc string
	Unknowns int
	LastLog  string
	keepLog  bool
	log      strings.Builder
}

func newSolver(st *Store) *Solver {
	return &Solver{st: st, bin: "z3-new", args: []string{"-in"}, cache: map[string]Result{}, Depth: 3, Timeout: 4000}
}

func (sv *Solver) start() error {
	sv.cmd = exec.Command(sv.bin, sv.args...)
	in, err := sv.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := sv.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	sv.cmd.Stderr = nil
	if err := sv.cmd.Start(); err != nil {
		return err
	}
	sv.in, sv.out = in, bufio.NewReaderSize(out, 1<<16)
	sv.emitted = map[int]bool{}
	sv.declS = map[string]bool{"Bool": true, "Int": true}
	sv.declF = map[string]bool{}
	sv.send(sv.prelude())
	sv.reset()
	return nil
}

func (sv *Solver) prelude() string {
	return fmt.Sprintf("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n(set-option :smt.arith.solver 2)\n(set-logic ALL)\n", sv.Timeout)
}

// Close ends the process.
func (sv *Solver) Close() {
	if sv.cmd != nil {
		sv.in.Close()
		sv.cmd.Process.Kill()
		sv.cmd.Wait()
		sv.cmd = nil
	}
}

func (sv *Solver) send(s string) {
	if sv.keepLog {
		sv.log.WriteString(s)
	}
	io.WriteString(sv.in, s)
}

func (sv *Solver) declSort(b *strings.Builder, s *Sort) {
	if sv.declS[s.Name] {
		return
	}
	sv.declS[s.Name] = true
	if s.IsArr() {
		sv.declSort(b, s.Idx)
		sv.declSort(b, s.Elem)
		return
	}
	if s.IsData {
		for _, f := range s.Fields {
			sv.declSort(b, f)
		}
		fmt.Fprintf(b, "(declare-datatypes ((%s 0)) (((|mk.%s|", s.Name, s.Name)
		for i, f := range s.Fields {
			fmt.Fprintf(b, " (|%s.%s.%d| %s)", s.Name, s.FNames[i], i, f.Name)
		}
		b.WriteString("))))\n")
		return
	}
	fmt.Fprintf(b, "(declare-sort %s 0)\n", s.Name)
}

func (sv *Solver) ref(t *Term) string {
	switch t.op {
	case OSym, OInt, OTrue, OFalse:
		return sv.st.body(t, nil)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (sv *Solver) emit(b *strings.Builder, t *Term) {
	if sv.emitted[t.id] {
		return
	}
	sv.emitted[t.id] = true
	for _, a := range t.args {
		sv.emit(b, a)
	}
	sv.declSort(b, t.sort)
	switch t.op {
	case OInt, OTrue, OFalse:
		return
	case OSym:
		fmt.Fprintf(b, "(declare-const %s %s)\n", smtName(t.name), t.sort.Name)
		return
	case OApp:
		if !sv.declF[t.name] {
			sv.declF[t.name] = true
			d := sv.st.funcs[t.name]
			var as []string
			for _, a := range d.args {
				sv.declSort(b, a)
				as = append(as, a.Name)
			}
			sv.declSort(b, d.ret)
			fmt.Fprintf(b, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), d.ret.Name)
		}
	}
	fmt.Fprintf(b, "(define-fun t%d () %s %s)\n", t.id, t.sort.Name, sv.st.body(t, sv.ref))
}

// closure computes the assertions to send: goal terms plus facts and
// definitional unfoldings of everything in their cone.
func (sv *Solver) closure(as []*Term) []*Term {
	st := sv.st
	out := append([]*Term(nil), as...)
	inOut := map[*Term]bool{}
	for _, a := range as {
		inOut[a] = true
	}
	depth := map[*Term]int{}
	seen := map[*Term]bool{}
	var apps []*Term
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp {
			depth[t] = d
			apps = append(apps, t)
		}
		for _, a := range t.args {
			visit(a, d)
		}
		for _, f := range st.facts[t] {
			if !inOut[f] {
				inOut[f] = true
				out = append(out, f)
				visit(f, d)
			}
		}
	}
	for _, a := range as {
		visit(a, 0)
	}
	for rounds := 0; rounds < 6; rounds++ {
		grew := false
		for i := 0; i < len(apps); i++ {
			t := apps[i]
			d := depth[t]
			if d >= sv.Depth || sv.unfold == nil {
				continue
			}
			for _, f := range sv.unfold(t) {
				if f != st.True && !inOut[f] {
					inOut[f] = true
					out = append(out, f)
					visit(f, d+1)
					grew = true
				}
			}
		}
		if sv.extra != nil {
			for _, f := range sv.extra(seen) {
				if f != st.True && !inOut[f] {
					inOut[f] = true
					out = append(out, f)
					visit(f, 0)
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	return out
}

// level is one asserted term with its cone's facts.
type level struct {
	term  *Term
	depth int
	seen  []*Term // newly seen or seen at less depth
	old   []int   // their depth before; -1: not seen
	added []*Term
}

func (sv *Solver) reset() {
	sv.levels, sv.depthOf, sv.inOut = nil, map[*Term]int{}, map[*Term]bool{}
}

func (sv *Solver) popTo(b *strings.Builder, n int) {
	k := len(sv.levels) - n
	if k <= 0 {
		return
	}
	for i := len(sv.levels) - 1; i >= n; i-- {
		l := sv.levels[i]
		for j := len(l.seen) - 1; j >= 0; j-- {
			if l.old[j] < 0 {
				delete(sv.depthOf, l.seen[j])
			} else {
				sv.depthOf[l.seen[j]] = l.old[j]
			}
		}
		for _, f := range l.added {
			delete(sv.inOut, f)
		}
	}
	sv.levels = sv.levels[:n]
	fmt.Fprintf(b, "(pop %d)\n", k)
}

// align makes the solver's assertions those of the query: the common part
// with the query before stays.
func (sv *Solver) align(b *strings.Builder, fs []*Term) {
	if sv.depthOf == nil {
		sv.reset()
	}
	n := 0
	for n < len(fs) && n < len(sv.levels) && sv.levels[n].term == fs[n] && sv.levels[n].depth == sv.Depth {
		n++
	}
	// facts found meanwhile about terms that are already asserted
	for ; sv.factPos < len(sv.st.factLog); sv.factPos++ {
		t := sv.st.factLog[sv.factPos][0]
		if _, ok := sv.depthOf[t]; !ok || sv.inOut[sv.st.factLog[sv.factPos][1]] {
			continue
		}
		for i := 0; i < n; i++ {
			for _, x := range sv.levels[i].seen {
				if x == t && i < n {
					n = i
				}
			}
		}
	}
	sv.popTo(b, n)
	for i := n; i < len(fs); i++ {
		b.WriteString("(push 1)\n")
		sv.levels = append(sv.levels, &level{term: fs[i], depth: sv.Depth})
		sv.addTerm(b, fs[i], 0)
	}
	if sv.extra != nil && len(sv.levels) > 0 {
		for round := 0; round < 6; round++ {
			cone := make(map[*Term]bool, len(sv.depthOf))
			for t := range sv.depthOf {
				cone[t] = true
			}
			grew := false
			for _, f := range sv.extra(cone) {
				if f != sv.st.True && !sv.inOut[f] {
					grew = true
					sv.addTerm(b, f, 0)
				}
			}
			if !grew {
				break
			}
		}
	}
}

// addTerm asserts a term with the facts of its cone on the top level.
func (sv *Solver) addTerm(b *strings.Builder, t *Term, d int) {
	l := sv.levels[len(sv.levels)-1]
	var queue []*Term
	var visit func(t *Term, d int)
	add := func(f *Term) {
		if !sv.inOut[f] {
			sv.inOut[f] = true
			l.added = append(l.added, f)
			sv.emit(b, f)
			fmt.Fprintf(b, "(assert %s)\n", sv.ref(f))
		}
	}
	visit = func(t *Term, d int) {
		old, ok := sv.depthOf[t]
		if ok && old <= d {
			return
		}
		if !ok {
			old = -1
		}
		l.seen = append(l.seen, t)
		l.old = append(l.old, old)
		sv.depthOf[t] = d
		if t.op == OApp {
			queue = append(queue, t)
		}
		for _, a := range t.args {
			visit(a, d)
		}
		for _, f := range sv.st.facts[t] {
			add(f)
			visit(f, d)
		}
	}
	add(t)
	visit(t, d)
	for i := 0; i < len(queue); i++ {
		t := queue[i]
		d := sv.depthOf[t]
		if d >= sv.Depth || sv.unfold == nil {
			continue
		}
		for _, f := range sv.unfold(t) {
			if f != sv.st.True {
				add(f)
				visit(f, d+1)
			}
		}
	}
}

// slowDir: where queries over a second are written (development aid).
var slowDir = os.Getenv("GOCV_SLOW")

var slowMin = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("GOCV_SLOWMIN")); err == nil {
		return d
	}
	return time.Second
}()

// Check decides satisfiability of the conjunction.
func (sv *Solver) Check(as []*Term) Result {
	r, _ := sv.check(as, false, 0)
	return r
}

func (sv *Solver) check(as []*Term, wantModel bool, timeout int) (Result, string) {
	var ids []int
	seen := map[*Term]bool{}
	var fs []*Term
	for _, a := range as {
		if a.op == OFalse {
			return Unsat, ""
		}
		if a.op == OTrue || seen[a] {
			continue
		}
		if seen[sv.st.Not(a)] {
			return Unsat, ""
		}
		seen[a] = true
		fs = append(fs, a)
		ids = append(ids, a.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids, sv.Depth)
	if r, ok := sv.cache[key]; ok && !wantModel {
		return r, ""
	}
	if sv.cmd == nil {
		if err := sv.start(); err != nil {
			panic("cannot start solver: " + err.Error())
		}
	}
	var b strings.Builder
	sv.align(&b, fs)
	if timeout > 0 {
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeout)
	}
	b.WriteString("(check-sat)\n(echo \"done\")\n")
	t0 := time.Now()
	sv.send(b.String())
	lines, err := sv.readTo("done")
	dt := time.Since(t0)
	sv.Queries++
	sv.Time += dt
	if dt > sv.Slowest {
		sv.Slowest = dt
	}
	if slowDir != "" && dt > slowMin {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", slowDir, sv.Queries), []byte(sv.Script(as)), 0644)
	}
	if err != nil {
		sv.Close()
		sv.Unknowns++
		return Unknown, "solver died"
	}
	r := Unknown
	model := ""
	for _, l := range lines {
		switch {
		case l == "unsat":
			r = Unsat
		case l == "sat":
			r = Sat
		case l == "unknown":
			r = Unknown
		case strings.HasPrefix(l, "(error"):
			panic("solver: " + l)
		}
	}
	if r == Unknown {
		sv.Unknowns++
	}
	if wantModel && r != Unsat {
		sv.send("(get-model)\n(echo \"done\")\n")
		ml, _ := sv.readTo("done")
		model = strings.Join(ml, "\n")
	}
	if timeout > 0 {
		sv.send(fmt.Sprintf("(set-option :timeout %d)\n", sv.Timeout))
	}
	sv.cache[key] = r
	return r, model
}

func (sv *Solver) readTo(mark string) ([]string, error) {
	var ls []string
	for {
		l, err := sv.out.ReadString('\n')
		if err != nil {
			return ls, err
		}
		l = strings.TrimSpace(l)
		if l == mark {
			return ls, nil
		}
		ls = append(ls, l)
	}
}

// Script renders a self-contained SMT-LIB script for the conjunction, for
// cross-checking with another solver.
func (sv *Solver) Script(as []*Term) string {
	all := sv.closure(as)
	tmp := &Solver{st: sv.st, emitted: map[int]bool{}, declS: map[string]bool{"Bool": true, "Int": true}, declF: map[string]bool{}}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, a := range all {
		tmp.emit(&b, a)
	}
	for _, a := range all {
		fmt.Fprintf(&b, "(assert %s)\n", tmp.ref(a))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
