package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outKind int

const (
	oRet outKind = iota
	oPanic
	oStop
)

// Outcome is one way an execution ends.
type Outcome struct {
	kind      outKind
	st        *State
	vals      []Value
	pv        *Term
	blk, prev *ssa.BasicBlock
	fr        *Frame
	why       string
}

type work struct {
	st        *State
	fr        *Frame
	blk, prev *ssa.BasicBlock
	ip        int
	started   bool    // phis of blk already evaluated / loop decision taken
	phis      []Value // of the block, when its predecessor does not tell
	stop      map[*ssa.BasicBlock]bool
}

const maxSteps = 4000000

func (v *V) tick() {
	v.steps++
	if v.steps&1023 == 0 && !v.deadline.IsZero() && time.Now().After(v.deadline) {
		panic(unsupported("time budget exhausted"))
	}
	if v.steps > maxSteps {
		panic(unsupported("step budget exhausted"))
	}
}

// feasible asks whether the path can continue under c.
func (v *V) feasible(st *State, c *Term) bool {
	if c == v.st.True {
		return true
	}
	if c == v.st.False {
		return false
	}
	n := v.st.Not(c)
	for p := st.pc; p != nil; p = p.prev {
		if p.t == c {
			return true
		}
		if p.t == n {
			return false
		}
	}
	v.feasQ++
	q := append(st.pcTerms(), c)
	r := v.sv.Check(q)
	return r != Unsat
}

// decide folds a condition under the path condition without branching.
func (v *V) holdsSyn(st *State, c *Term) (val, known bool) {
	if c == v.st.True {
		return true, true
	}
	if c == v.st.False {
		return false, true
	}
	n := v.st.Not(c)
	for p := st.pc; p != nil; p = p.prev {
		if p.t == c {
			return true, true
		}
		if p.t == n {
			return false, true
		}
	}
	return false, false
}

func (v *V) prove(st *State, goal *Term) bool {
	if goal == v.st.True {
		return true
	}
	q := append(st.pcTerms(), v.st.Not(goal))
	return v.sv.Check(q) == Unsat
}

func (v *V) execFrom(w0 work, stop map[*ssa.BasicBlock]bool) []Outcome {
	var outs []Outcome
	q := []work{w0}
	for len(q) > 0 {
		w := q[len(q)-1]
		q = q[:len(q)-1]
		v.runPath(w, stop, &q, &outs)
	}
	return outs
}

func (v *V) evalPhis(w *work) {
	var phis []*ssa.Phi
	var vals []Value
	pi := -1
	for i, p := range w.blk.Preds {
		if p == w.prev {
			pi = i
			break
		}
	}
	for _, ins := range w.blk.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		if w.phis != nil {
			vals = append(vals, w.phis[len(vals)])
			continue
		}
		vals = append(vals, v.get(w.st, w.fr, ph.Edges[pi]))
	}
	w.phis = nil
	for i, ph := range phis {
		w.fr.env[ph] = vals[i]
	}
	w.ip = len(phis)
	w.started = true
}

func (v *V) runPath(w work, stop map[*ssa.BasicBlock]bool, q *[]work, outs *[]Outcome) {
	w.stop = stop
	for {
		if !w.started {
			if stop[w.blk] {
				*outs = append(*outs, Outcome{kind: oStop, st: w.st, fr: w.fr, blk: w.blk, prev: w.prev})
				return
			}
			if lp := v.loopAt(w.blk); lp != nil {
				if !v.unrollOK(&w, lp) {
					*outs = append(*outs, v.cutLoop(w, lp, stop)...)
					return
				}
			}
			v.evalPhis(&w)
		}
		next, done := v.step(&w, q, outs)
		if done {
			return
		}
		if next != nil {
			w.prev = w.blk
			w.blk = next
			w.ip = 0
			w.started = false
		}
	}
}

// fork adds a sibling path resuming after the current instruction.
func (w *work) forkNext(st *State, set func(fr *Frame)) work {
	n := work{st: st, fr: w.fr.clone(), blk: w.blk, prev: w.prev, ip: w.ip, started: true}
	if set != nil {
		set(n.fr)
	}
	return n
}

// step executes instructions until the block ends. It returns the next block.
// shortCircuit joins the paths of a condition x || y || ... (or its dual):
// blocks that only evaluate a further condition and share a successor with
// the current block. The joined path assumes the disjunction.
func (v *V) shortCircuit(w *work, c *Term, q *[]work) (*ssa.BasicBlock, bool) {
	s := v.st
	for dir := 0; dir < 2; dir++ {
		T, b := w.blk.Succs[dir], w.blk.Succs[1-dir]
		if T == b {
			continue
		}
		acc := c
		if dir == 1 {
			acc = s.Not(c)
		}
		st, fr := w.st.clone(), w.fr.clone()
		st.assume(s.Not(acc))
		prev, n := w.blk, 0
		for b != T && len(b.Preds) == 1 && onlyCondition(b, T) && samePhis(T, w.blk, b) {
			w2 := work{st: st.clone(), fr: fr.clone(), blk: b, prev: prev, started: true}
			var q2 []work
			var outs2 []Outcome
			v.stopIf = true
			v.step(&w2, &q2, &outs2)
			v.stopIf = false
			if len(q2) > 0 || len(outs2) > 0 || w2.ip != len(b.Instrs) {
				break
			}
			st, fr = w2.st, w2.fr
			c2 := v.term(st, v.get(st, fr, b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond))
			next := b.Succs[1]
			if b.Succs[1] == T {
				c2, next = s.Not(c2), b.Succs[0]
			}
			acc = s.Or(acc, c2)
			st.assume(s.Not(c2))
			prev, b = b, next
			n++
		}
		if n == 0 {
			continue
		}
		if w.fr.spec && w.fr.ctx == nil || v.sv.Check(st.pcTerms()) != Unsat {
			*q = append(*q, work{st: st, fr: fr, blk: b, prev: prev})
		}
		if loopDebug && v.mute == 0 {
			fmt.Fprintln(os.Stderr, "join", v.pos(w.blk.Instrs[len(w.blk.Instrs)-1]), w.blk, n)
		}
		w.st.assume(acc)
		return T, true
	}
	return nil, false
}

// chooseText joins the two ways of an if that does nothing but choose between
// two strings.
func (v *V) chooseText(w *work, c *Term) *ssa.BasicBlock {
	via := func(b *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) { // target, predecessor
		if len(b.Instrs) == 1 && len(b.Preds) == 1 {
			if _, ok := b.Instrs[0].(*ssa.Jump); ok {
				return b.Succs[0], b
			}
		}
		return b, w.blk
	}
	b0, b1 := w.blk.Succs[0], w.blk.Succs[1]
	j0, p0 := via(b0)
	j1, p1 := via(b1)
	switch {
	case j0 == b1:
		j1, p1 = b1, w.blk
	case j1 == b0:
		j0, p0 = b0, w.blk
	case j0 != j1:
		return nil
	}
	if p0 == p1 || len(j0.Preds) != 2 || w.stop[j0] {
		return nil
	}
	i0 := 0
	if j0.Preds[0] != p0 {
		i0 = 1
	}
	if j0.Preds[i0] != p0 || j0.Preds[1-i0] != p1 {
		return nil
	}
	var vals []Value
	for _, ins := range j0.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		x := v.get(w.st, w.fr, ph.Edges[i0])
		y := v.get(w.st, w.fr, ph.Edges[1-i0])
		if x == y {
			vals = append(vals, x)
			continue
		}
		b, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			return nil
		}
		vals = append(vals, v.st.Ite(c, v.term(w.st, x), v.term(w.st, y)))
	}
	w.phis = vals
	return j0
}

// onlyCondition: the block computes a condition without effects, and T is one
// of its two successors.
func onlyCondition(b, T *ssa.BasicBlock) bool {
	for k, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType:
		case *ssa.UnOp:
			if i.Op == token.ARROW || i.CommaOk {
				return false
			}
		case *ssa.BinOp:
			if i.Op == token.QUO || i.Op == token.REM {
				return false
			}
		case *ssa.If:
			return k == len(b.Instrs)-1 && (b.Succs[0] == T) != (b.Succs[1] == T)
		default:
			return false
		}
	}
	return false
}

// samePhis: T does not tell the two predecessors apart.
func samePhis(T, a, b *ssa.BasicBlock) bool {
	pa, pb := -1, -1
	for k, p := range T.Preds {
		if p == a {
			pa = k
		}
		if p == b {
			pb = k
		}
	}
	if pa < 0 || pb < 0 {
		return false
	}
	for _, ins := range T.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := ph.Edges[pa], ph.Edges[pb]
		if x != y {
			cx, okx := x.(*ssa.Const)
			cy, oky := y.(*ssa.Const)
			if !okx || !oky || cx.String() != cy.String() {
				return false
			}
		}
	}
	return true
}

func (v *V) step(w *work, q *[]work, outs *[]Outcome) (*ssa.BasicBlock, bool) {
	s := v.st
	for {
		v.tick()
		if w.ip >= len(w.blk.Instrs) {
			panic("fell off block")
		}
		ins := w.blk.Instrs[w.ip]
		w.ip++
		fr, st := w.fr, w.st
		// guard raises a runtime panic when bad can hold; it returns false if
		// the normal path is infeasible.
		guard := func(bad *Term, why string) bool {
			if bad == nil || fr.spec && !v.machine || bad == s.False {
				return true
			}
			if !v.feasible(st, bad) {
				return true
			}
			bst := st.clone()
			bst.assume(bad)
			v.raise(bst, fr.clone(), v.runtimeErr(why), outs, why+" at "+v.pos(ins))
			good := s.Not(bad)
			if !v.feasible(st, good) {
				return false
			}
			st.assume(good)
			return true
		}
		nilGuard := func(p Value) bool {
			if t, ok := p.(*Term); ok {
				if t.sort == s.IntS {
					return guard(s.Eq(t, s.Int(0)), "nil dereference")
				}
			}
			return true
		}
		switch i := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			T := i.Type().Underlying().(*types.Pointer).Elem()
			fr.env[i] = v.alloc(st, T, i.Heap)
		case *ssa.BinOp:
			x, y := v.get(st, fr, i.X), v.get(st, fr, i.Y)
			val, bad := v.binopV(st, i, x, y, fr.spec && !v.machine)
			if !guard(bad, "runtime error in "+i.Op.String()) {
				return nil, true
			}
			fr.env[i] = val
		case *ssa.UnOp:
			x := v.get(st, fr, i.X)
			switch i.Op {
			case token.MUL:
				if !nilGuard(x) {
					return nil, true
				}
				fr.env[i] = v.load(st, x, i.Type())
			case token.NOT:
				fr.env[i] = s.Not(v.term(st, x))
			case token.SUB:
				t := v.term(st, x)
				switch t.sort {
				case s.IntS:
					fr.env[i] = v.wrapTo(st, s.Neg(t), i.Type(), fr.spec && !v.machine, true)
				case s.FltS:
					fr.env[i] = v.fneg(t)
				default:
					fr.env[i] = s.App("cneg", t.sort, t)
				}
			case token.XOR:
				t := v.term(st, x)
				if lo, _, _ := intRange(i.Type()); lo.Sign() < 0 {
					fr.env[i] = s.Sub(s.Int(-1), t)
				} else {
					_, hi, _ := intRange(i.Type())
					fr.env[i] = s.Sub(s.Big(hi), t)
				}
			default:
				panic(unsupported("unary " + i.Op.String()))
			}
		case *ssa.Phi:
			panic("phi out of place")
		case *ssa.ChangeType:
			fr.env[i] = v.get(st, fr, i.X)
		case *ssa.ChangeInterface:
			fr.env[i] = v.get(st, fr, i.X)
		case *ssa.Convert:
			fr.env[i] = v.convert(st, v.get(st, fr, i.X), i.X.Type(), i.Type(), fr.spec && !v.machine)
		case *ssa.MakeInterface:
			x := v.get(st, fr, i.X)
			fr.env[i] = v.mkAny(i.X.Type(), v.term(st, x))
		case *ssa.MakeClosure:
			c := &Closure{fn: i.Fn.(*ssa.Function)}
			for _, b := range i.Bindings {
				c.bind = append(c.bind, v.get(st, fr, b))
			}
			fr.env[i] = c
		case *ssa.MakeMap:
			fr.env[i] = v.newMap(st, i.Type())
		case *ssa.MakeSlice:
			ln := v.term(st, v.get(st, fr, i.Len))
			cp := v.term(st, v.get(st, fr, i.Cap))
			if !guard(s.Or(s.Lt(ln, s.Int(0)), s.Lt(cp, ln)), "makeslice") {
				return nil, true
			}
			T := i.Type().Underlying().(*types.Slice).Elem()
			fr.env[i] = v.makeSlice(st, T, ln, cp)
		case *ssa.MakeChan:
			fr.env[i] = v.newObj(st)
		case *ssa.FieldAddr:
			x := v.get(st, fr, i.X)
			if !nilGuard(x) {
				return nil, true
			}
			fr.env[i] = v.fieldAddr(st, x, i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field)
		case *ssa.Field:
			fr.env[i] = s.Sel(v.term(st, v.get(st, fr, i.X)), i.Field)
		case *ssa.IndexAddr:
			x := v.get(st, fr, i.X)
			ix := v.term(st, v.get(st, fr, i.Index))
			loc, bad := v.indexAddr(st, x, i.X.Type(), ix)
			if !guard(bad, "index out of range") {
				return nil, true
			}
			fr.env[i] = loc
		case *ssa.Index:
			x := v.get(st, fr, i.X)
			ix := v.term(st, v.get(st, fr, i.Index))
			val, bad := v.index(st, x, i.X.Type(), ix)
			if !guard(bad, "index out of range") {
				return nil, true
			}
			fr.env[i] = val
		case *ssa.Lookup:
			x := v.get(st, fr, i.X)
			k := v.term(st, v.get(st, fr, i.Index))
			if _, ok := i.X.Type().Underlying().(*types.Map); ok {
				val, ok := v.mapLookup(st, v.term(st, x), k, i.X.Type())
				if i.CommaOk {
					fr.env[i] = Tuple{val, ok}
				} else {
					fr.env[i] = val
				}
			} else {
				val, bad := v.index(st, x, i.X.Type(), k)
				if !guard(bad, "index out of range") {
					return nil, true
				}
				fr.env[i] = val
			}
		case *ssa.Slice:
			val, bad := v.slice(st, fr, i)
			if !guard(bad, "slice bounds out of range") {
				return nil, true
			}
			fr.env[i] = val
		case *ssa.TypeAssert:
			x := v.term(st, v.get(st, fr, i.X))
			val, ok := v.typeAssert(x, i.AssertedType)
			if i.CommaOk {
				z := v.zero(i.AssertedType)
				if ok == s.True {
					z = val
				}
				fr.env[i] = Tuple{s.Ite(ok, val, z), ok}
			} else {
				if !guard(s.Not(ok), "type assertion") {
					return nil, true
				}
				fr.env[i] = val
			}
		case *ssa.Extract:
			fr.env[i] = v.get(st, fr, i.Tuple).(Tuple)[i.Index]
		case *ssa.Store:
			p := v.get(st, fr, i.Addr)
			if !nilGuard(p) {
				return nil, true
			}
			v.storeLoc(st, p, i.Val.Type(), v.get(st, fr, i.Val))
		case *ssa.MapUpdate:
			m := v.term(st, v.get(st, fr, i.Map))
			if !guard(s.Eq(m, s.Int(0)), "assignment to entry in nil map") {
				return nil, true
			}
			v.mapStore(st, m, v.term(st, v.get(st, fr, i.Key)), v.term(st, v.get(st, fr, i.Value)), i.Map.Type(), false)
		case *ssa.Range:
			fr.env[i] = v.mkRange(st, v.get(st, fr, i.X), i.X.Type())
		case *ssa.Next:
			fr.env[i] = v.next(st, fr, i)
		case *ssa.Jump:
			return w.blk.Succs[0], false
		case *ssa.If:
			if v.stopIf {
				return nil, true
			}
			c := v.term(st, v.get(st, fr, i.Cond))
			if val, known := v.holdsSyn(st, c); known {
				if val {
					return w.blk.Succs[0], false
				}
				return w.blk.Succs[1], false
			}
			n := s.Not(c)
			ft, ff := true, true
			if !(fr.spec && fr.ctx == nil) {
				ft = v.feasible(st, c)
				if ft {
					ff = v.feasible(st, n)
				}
			}
			if !ft {
				st.assume(n)
				return w.blk.Succs[1], false
			}
			if !ff {
				st.assume(c)
				return w.blk.Succs[0], false
			}
			if !v.inInit {
				if t, ok := v.shortCircuit(w, c, q); ok {
					return t, t == nil
				}
			}
			if !fr.spec && !v.inInit {
				if t := v.chooseText(w, c); t != nil {
					return t, false
				}
			}
			if loopDebug && v.mute == 0 {
				fmt.Fprintln(os.Stderr, "fork", v.pos(i), w.blk)
			}
			st2 := st.clone()
			st2.assume(n)
			*q = append(*q, work{st: st2, fr: fr.clone(), blk: w.blk.Succs[1], prev: w.blk})
			st.assume(c)
			return w.blk.Succs[0], false
		case *ssa.Return:
			var vals []Value
			for _, r := range i.Results {
				vals = append(vals, v.get(st, fr, r))
			}
			*outs = append(*outs, Outcome{kind: oRet, st: st, vals: vals, fr: fr})
			return nil, true
		case *ssa.Panic:
			v.raise(st, fr, v.term(st, v.get(st, fr, i.X)), outs, "panic at "+v.pos(i))
			return nil, true
		case *ssa.RunDefers:
			ds := v.runDefers(st, fr, nil, "")
			for k, d := range ds {
				if d.pv != nil {
					*outs = append(*outs, Outcome{kind: oPanic, st: d.st, pv: d.pv, fr: d.fr, why: d.why})
					continue
				}
				if d.recovered {
					v.recoverExit(d, outs)
					continue
				}
				if k == len(ds)-1 {
					w.st, w.fr = d.st, d.fr
					goto cont
				}
				*q = append(*q, work{st: d.st, fr: d.fr, blk: w.blk, prev: w.prev, ip: w.ip, started: true})
			}
			return nil, true
		case *ssa.Defer:
			d := deferred{call: &i.Call}
			if i.Call.IsInvoke() {
				d.recv = v.get(st, fr, i.Call.Value)
			} else {
				d.fn = v.get(st, fr, i.Call.Value)
			}
			for _, a := range i.Call.Args {
				d.args = append(d.args, v.get(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			var args []Value
			for _, a := range i.Call.Args {
				args = append(args, v.get(st, fr, a))
			}
			var f Value
			if !i.Call.IsInvoke() {
				f = v.get(st, fr, i.Call.Value)
			} else {
				f = v.get(st, fr, i.Call.Value)
			}
			co := v.call(st, fr, &i.Call, f, args, -1, v.pos(i))
			var live []Outcome
			for _, o := range co {
				if o.kind == oPanic {
					v.raise(o.st, fr.clone(), o.pv, outs, o.why)
					continue
				}
				live = append(live, o)
			}
			if len(live) == 0 {
				return nil, true
			}
			set := func(fr *Frame, o Outcome) {
				switch len(o.vals) {
				case 0:
					fr.env[i] = Tuple{}
				case 1:
					fr.env[i] = o.vals[0]
				default:
					fr.env[i] = Tuple(o.vals)
				}
			}
			for _, o := range live[:len(live)-1] {
				o := o
				*q = append(*q, w.forkNext(o.st, func(fr *Frame) { set(fr, o) }))
			}
			w.st = live[len(live)-1].st
			set(fr, live[len(live)-1])
		case *ssa.Go:
			panic(unsupported("go statement"))
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", ins)))
		}
	cont:
	}
}

func (v *V) pos(i ssa.Instruction) string {
	p := v.p.Fset.Position(i.Pos())
	if !p.IsValid() {
		return i.Parent().String()
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, v.p.Repo+"/"), p.Line)
}

func (v *V) runtimeErr(why string) *Term {
	return v.st.Cons(v.st.AnyS, v.typeID(rtErrType()), v.st.App("rterr."+cleanName(why), v.st.IntS))
}

var rtErrT, errStrT, rtypeT types.Type

// rtypeType stands for the unexported *reflect.rtype; the payload of a
// reflect.Type is the type's number.
func rtypeType() types.Type {
	rtMu.Lock()
	defer rtMu.Unlock()
	if rtypeT == nil {
		pkg := types.NewPackage("reflect", "reflect")
		tn := types.NewTypeName(token.NoPos, pkg, "rtype", nil)
		n := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
		rtypeT = types.NewPointer(n)
	}
	return rtypeT
}

// errStringType stands for the unexported *errors.errorString.
func errStringType() types.Type {
	rtMu.Lock()
	defer rtMu.Unlock()
	if errStrT == nil {
		pkg := types.NewPackage("errors", "errors")
		tn := types.NewTypeName(token.NoPos, pkg, "errorString", nil)
		n := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
		errStrT = types.NewPointer(n)
	}
	return errStrT
}

func rtErrType() types.Type {
	rtMu.Lock()
	defer rtMu.Unlock()
	if rtErrT == nil {
		pkg := types.NewPackage("runtime", "runtime")
		tn := types.NewTypeName(token.NoPos, pkg, "errorValue", nil)
		n := types.NewNamed(tn, types.Typ[types.Int], nil)
		recv := types.NewVar(token.NoPos, pkg, "e", n)
		sig := types.NewSignatureType(recv, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, pkg, "", types.Typ[types.String])), false)
		n.AddMethod(types.NewFunc(token.NoPos, pkg, "Error", sig))
		sig2 := types.NewSignatureType(recv, nil, nil, nil, nil, false)
		n.AddMethod(types.NewFunc(token.NoPos, pkg, "RuntimeError", sig2))
		rtErrT = n
	}
	return rtErrT
}

// ---- panics, defers

type deferOut struct {
	st        *State
	fr        *Frame
	pv        *Term
	recovered bool
	why       string
}

func (v *V) raise(st *State, fr *Frame, pv *Term, outs *[]Outcome, why string) {
	if len(fr.defers) == 0 {
		*outs = append(*outs, Outcome{kind: oPanic, st: st, pv: pv, fr: fr, why: why})
		return
	}
	for _, d := range v.runDefers(st, fr, pv, why) {
		if d.pv != nil {
			*outs = append(*outs, Outcome{kind: oPanic, st: d.st, pv: d.pv, fr: d.fr, why: d.why})
			continue
		}
		v.recoverExit(d, outs)
	}
}

func (v *V) recoverExit(d deferOut, outs *[]Outcome) {
	fn := d.fr.fn
	if fn.Recover == nil {
		var vals []Value
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, v.zero(rs.At(i).Type()))
		}
		*outs = append(*outs, Outcome{kind: oRet, st: d.st, vals: vals, fr: d.fr})
		return
	}
	d.fr.defers = nil
	*outs = append(*outs, v.execFrom(work{st: d.st, fr: d.fr, blk: fn.Recover}, nil)...)
}

// runDefers runs the deferred calls, last first.
func (v *V) runDefers(st *State, fr *Frame, pv *Term, why string) []deferOut {
	var res []deferOut
	var rec func(st *State, fr *Frame, pv *Term, recovered bool, why string)
	rec = func(st *State, fr *Frame, pv *Term, recovered bool, why string) {
		if len(fr.defers) == 0 {
			res = append(res, deferOut{st, fr, pv, recovered, why})
			return
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
		idx := -1
		if pv != nil {
			idx = len(st.pan)
			st.pan = append(append([]panicRec(nil), st.pan...), panicRec{val: pv})
		}
		f := d.fn
		if d.call.IsInvoke() {
			f = d.recv
		}
		outs := v.call(st, fr, d.call, f, d.args, idx, "deferred call in "+fr.fn.String())
		for k, o := range outs {
			nf := fr
			if k < len(outs)-1 {
				nf = fr.clone()
			}
			npv, nrec, nwhy := pv, recovered, why
			if idx >= 0 {
				if o.st.pan[idx].rec {
					npv, nrec = nil, true
				}
				o.st.pan = append([]panicRec(nil), o.st.pan[:idx]...)
			}
			if o.kind == oPanic {
				npv, nwhy, nrec = o.pv, o.why, false
			}
			rec(o.st, nf, npv, nrec, nwhy)
		}
	}
	rec(st, fr, pv, false, why)
	return res
}

// ---- allocation and addressing

func (v *V) alloc(st *State, T types.Type, heap bool) Value {
	if heap {
		if structOf(T) != nil {
			r := v.newObj(st)
			v.initObj(st, r, T)
			return r
		}
		if a, ok := T.Underlying().(*types.Array); ok {
			r := v.newObj(st)
			k := elemKey(a.Elem())
			so := v.sortOf(T)
			st.setHeap(k, v.st.StoreT(v.heapGet(st, k, so), r, v.zero(T)))
			return r
		}
	}
	return &Loc{kind: LCell, cell: v.newCell(st, T, v.zero(T)), root: T, typ: T}
}

func (v *V) initObj(st *State, r *Term, T types.Type) {
	u := structOf(T)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if structOf(ft) != nil {
			v.initObj(st, v.subRef(r, T, i), ft)
			continue
		}
		k := fieldKey(T, i)
		st.setHeap(k, v.st.StoreT(v.heapGet(st, k, v.sortOf(ft)), r, v.zero(ft)))
	}
}

func (v *V) makeSlice(st *State, T types.Type, ln, cp *Term) *Term {
	r := v.newObj(st)
	k := elemKey(T)
	so := v.st.arr(v.st.IntS, v.sortOf(T))
	st.setHeap(k, v.st.StoreT(v.heapGet(st, k, so), r, v.st.ConstArr(so, v.zero(T))))
	return v.st.Cons(v.st.SliceS, r, v.st.Int(0), ln, cp)
}

func (v *V) indexAddr(st *State, x Value, xt types.Type, ix *Term) (Value, *Term) {
	s := v.st
	oob := func(n *Term) *Term { return s.Or(s.Lt(ix, s.Int(0)), s.Le(n, ix)) }
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		if rs, ok := x.(*RowSlice); ok {
			return &Loc{kind: LRow, ref: rs.row, idx: s.Add(rs.off, ix), root: u.Elem(), typ: u.Elem()}, nil
		}
		ref, off, ln, _ := v.sliceParts(v.term(st, x))
		return &Loc{kind: LElem, key: elemKey(u.Elem()), ref: ref, idx: s.Add(off, ix), root: u.Elem(), typ: u.Elem()}, oob(ln)
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		n := s.Int(a.Len())
		switch l := x.(type) {
		case *Term:
			return &Loc{kind: LElem, key: elemKey(a.Elem()), ref: l, idx: ix, root: a.Elem(), typ: a.Elem()}, oob(n)
		case *Loc:
			c := *l
			c.path = append(append([]PathElem(nil), l.path...), PathElem{idx: ix})
			c.typ = a.Elem()
			return &c, oob(n)
		}
	}
	panic(unsupported("index address of " + xt.String()))
}

func (v *V) index(st *State, x Value, xt types.Type, ix *Term) (Value, *Term) {
	s := v.st
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		t := v.term(st, x)
		n := v.slen(t)
		return v.sat(t, ix), s.Or(s.Lt(ix, s.Int(0)), s.Le(n, ix))
	case *types.Array:
		t := v.term(st, x)
		return s.Select(t, ix), s.Or(s.Lt(ix, s.Int(0)), s.Le(s.Int(u.Len()), ix))
	}
	panic(unsupported("index of " + xt.String()))
}

func (v *V) slice(st *State, fr *Frame, i *ssa.Slice) (Value, *Term) {
	s := v.st
	x := v.get(st, fr, i.X)
	opt := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return v.term(st, v.get(st, fr, e))
	}
	zero := s.Int(0)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		t := v.term(st, x)
		n := v.slen(t)
		lo, hi := opt(i.Low, zero), opt(i.High, n)
		bad := s.Or(s.Lt(lo, zero), s.Lt(hi, lo), s.Lt(n, hi))
		return v.ssub(t, lo, hi), bad
	case *types.Slice:
		if rs, ok := x.(*RowSlice); ok {
			lo, hi := opt(i.Low, zero), opt(i.High, rs.ln)
			return &RowSlice{row: rs.row, off: s.Add(rs.off, lo), ln: s.Sub(hi, lo), elem: rs.elem}, nil
		}
		ref, off, ln, cp := v.sliceParts(v.term(st, x))
		lo, hi := opt(i.Low, zero), opt(i.High, ln)
		mx := opt(i.Max, cp)
		bad := s.Or(s.Lt(lo, zero), s.Lt(hi, lo), s.Lt(mx, hi), s.Lt(cp, mx))
		// s[0:0] of nil stays nil
		noff := s.Add(off, lo)
		return s.Cons(s.SliceS, ref, noff, s.Sub(hi, lo), s.Sub(mx, lo)), bad
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		n := s.Int(a.Len())
		lo, hi := opt(i.Low, zero), opt(i.High, n)
		mx := opt(i.Max, n)
		bad := s.Or(s.Lt(lo, zero), s.Lt(hi, lo), s.Lt(mx, hi), s.Lt(n, mx))
		r, ok := x.(*Term)
		if !ok {
			panic(unsupported("slice of a local array"))
		}
		return s.Cons(s.SliceS, r, lo, s.Sub(hi, lo), s.Sub(mx, lo)), bad
	}
	panic(unsupported("slice of " + i.X.Type().String()))
}

// binopV handles operands that are not terms.
func (v *V) binopV(st *State, i *ssa.BinOp, x, y Value, spec bool) (*Term, *Term) {
	s := v.st
	if i.Op == token.EQL || i.Op == token.NEQ {
		isNil := func(z Value) bool { t, ok := z.(*Term); return ok && t.op == OInt && t.k.Sign() == 0 }
		neg := func(b bool) *Term { return s.Bool(b == (i.Op == token.EQL)) }
		for k := 0; k < 2; k++ {
			switch z := x.(type) {
			case *Closure:
				if isNil(y) {
					return neg(false), nil
				}
			case *Loc:
				if isNil(y) {
					return neg(false), nil
				}
				if l2, ok := y.(*Loc); ok && z.kind == LCell && l2.kind == LCell && len(z.path) == 0 && len(l2.path) == 0 {
					return neg(z.cell == l2.cell), nil
				}
			case *RowSlice:
				t := s.Eq(z.ln, s.Int(0))
				if i.Op == token.NEQ {
					t = s.Not(t)
				}
				return t, nil
			}
			x, y = y, x
		}
	}
	// comparing an interface with a concrete value: go/ssa inserts MakeInterface
	return v.binop(st, i.Op, i.X.Type(), i.Type(), v.term(st, x), v.term(st, y), i.Y.Type(), spec)
}

func (v *V) fneg(t *Term) *Term {
	if t.op == OApp && t.name == "i2f" && t.args[0].op == OInt && t.args[0].k.Sign() != 0 {
		return v.i2f(v.st.Neg(t.args[0]))
	}
	return v.st.App("fneg", v.st.FltS, t)
}

// ---- iteration

func (v *V) mkRange(st *State, x Value, T types.Type) Value {
	if m, ok := T.Underlying().(*types.Map); ok {
		t := v.term(st, x)
		it := &mapIter{m: t, kt: m.Key(), vt: m.Elem(), mt: T, row: v.mapRow(st, t, T)}
		so := v.st.arr(v.sortOf(m.Key()), v.st.BoolS)
		it.cell = v.newCell(st, nil, v.st.ConstArr(so, v.st.False))
		v.iters = append(v.iters, it)
		return it
	}
	return &strIter{s: v.term(st, x), cell: v.newCell(st, types.Typ[types.Int], v.st.Int(0))}
}

func (v *V) next(st *State, fr *Frame, i *ssa.Next) Value {
	s := v.st
	switch it := v.get(st, fr, i.Iter).(type) {
	case *mapIter:
		ok := v.fresh("more", types.Typ[types.Bool])
		k := v.fresh("key", it.kt)
		val, has := v.mapLookup(st, it.m, k, it.mt)
		seen, _ := st.cells[it.cell].(*Term)
		if seen == nil {
			panic(unsupported("iteration"))
		}
		st.assume(s.Implies(ok, s.And(has, s.Not(s.Select(seen, k)))))
		if v.mapRow(st, it.m, it.mt) == it.row { // unchanged: it ends when every entry has been visited
			for _, x := range v.mapKeys[mapKey(it.mt)] {
				_, in := v.mapLookup(st, it.m, x, it.mt)
				st.assume(s.Or(ok, s.Not(in), s.Select(seen, x)))
			}
		}
		for _, ws := range st.writes {
			ws.cells[it.cell] = true
		}
		st.setCell(it.cell, s.Ite(ok, s.StoreT(seen, k, s.True), seen))
		return Tuple{ok, k, val}
	case *strIter:
		pos := v.term(st, st.cells[it.cell])
		n := v.slen(it.s)
		ok := s.Lt(pos, n)
		r, w := v.decodeRune(it.s, pos)
		for _, ws := range st.writes {
			ws.cells[it.cell] = true
		}
		st.setCell(it.cell, s.Ite(ok, s.Add(pos, w), pos))
		return Tuple{ok, pos, r}
	}
	panic(unsupported("iteration"))
}

func (v *V) decodeRune(str, pos *Term) (r, w *Term) {
	s := v.st
	if l, ok := v.litOf(str); ok && pos.op == OInt {
		p := int(pos.k.Int64())
		if p < len(l) {
			for j, c := range l[p:] {
				if j == 0 {
					n := len(l) - p
					for k := range l[p:] {
						if k > 0 {
							n = k
							break
						}
					}
					return s.Int(int64(c)), s.Int(int64(n))
				}
			}
		}
	}
	b := v.sat(str, pos)
	r = s.App("srune", s.IntS, str, pos)
	w = s.App("srunew", s.IntS, str, pos)
	if !v.typed[r] {
		v.typed[r] = true
		n := v.slen(str)
		in := s.And(s.Le(s.Int(0), pos), s.Lt(pos, n))
		asc := s.Lt(b, s.Int(128))
		f := s.Implies(in, s.Ite(asc, s.And(s.Eq(r, b), s.Eq(w, s.Int(1))),
			s.And(s.Le(s.Int(128), r), s.Le(r, s.Int(0x10FFFF)), s.Le(s.Int(1), w), s.Le(w, s.Int(4)), s.Le(s.Add(pos, w), n))))
		s.AddFact(r, f)
		s.AddFact(w, f)
	}
	return r, w
}

// ---- merging

// pureMerge joins the outcomes of a call that changed no state.
func (v *V) pureMerge(base *State, outs []Outcome, force bool) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	s := v.st
	for _, o := range outs {
		if o.kind != oRet || !v.sameState(base, o.st) {
			return outs
		}
		for k, x := range o.vals {
			t, ok := x.(*Term)
			if !ok {
				return outs
			}
			if !force && t.sort != s.BoolS && t.sort != s.IntS {
				return outs
			}
			if t0, ok := outs[0].vals[k].(*Term); !ok || t0.sort != t.sort {
				return outs
			}
		}
	}
	conds := make([]*Term, len(outs))
	for i, o := range outs {
		var ts []*Term
		p := o.st.pc
		for ; p != nil && p != base.pc; p = p.prev {
			ts = append(ts, p.t)
		}
		if p != base.pc {
			return outs
		}
		conds[i] = s.And(ts...)
	}
	n := len(outs) - 1
	vals := append([]Value(nil), outs[n].vals...)
	for i := n - 1; i >= 0; i-- {
		for k := range vals {
			vals[k] = s.Ite(conds[i], outs[i].vals[k].(*Term), vals[k].(*Term))
		}
	}
	st := base.clone()
	all := s.Or(conds...)
	if all != s.True && !force {
		st.assume(all)
	}
	return []Outcome{{kind: oRet, st: st, vals: vals}}
}

func (v *V) sameState(a, b *State) bool {
	if a.world != b.world || a.epoch != b.epoch || a.reqs != b.reqs || len(a.invs) != len(b.invs) || len(a.newrefs) != len(b.newrefs) || len(a.pan) != len(b.pan) {
		return false
	}
	for i := range a.pan {
		if a.pan[i] != b.pan[i] {
			return false
		}
	}
	for k, t := range b.heap {
		if a.heap[k] != t {
			return false
		}
	}
	for k, x := range a.cells {
		if b.cells[k] != x {
			return false
		}
	}
	return len(a.escCells) == len(b.escCells)
}

// ---- obligations

func (v *V) oblige(st *State, kind, label string, goal *Term) bool {
	if v.mute > 0 {
		return true
	}
	v.labels[label] = true
	o := &Obl{Contract: v.sf.Name, Label: label, Kind: kind}
	v.obls = append(v.obls, o)
	t0 := time.Now()
	defer func() { o.Ms = float64(time.Since(t0).Microseconds()) / 1000 }()
	if goal == v.st.True {
		o.Result, o.Solver = "discharged", "simplifier"
		return true
	}
	if v.failSpent > 60*time.Second {
		o.Result, o.Detail = "unknown", "not tried: the time set aside for failing obligations of this contract is used up"
		return false
	}
	defer func() {
		if o.Result != "discharged" {
			v.failSpent += time.Since(t0)
		}
	}()
	q := append(st.pcTerms(), v.st.Not(goal))
	if os.Getenv("GOCV_DUMP") == label {
		os.WriteFile("/tmp/gocv_dump.smt2", []byte(v.sv.Script(q)), 0644)
	}
	r, model := v.sv.check(q, true, 0)
	if r == Unsat {
		o.Result, o.Solver = "discharged", "z3"
		if scriptSink != nil {
			o.Script = v.sv.Script(q)
		}
		return true
	}
	old := v.sv.Depth
	for d := old + 2; d <= old+4 && r != Unsat && v.failSpent < 20*time.Second; d += 2 {
		v.sv.Depth = d
		r, model = v.sv.check(q, true, 15000)
	}
	v.sv.Depth = old
	if r == Unsat {
		o.Result, o.Solver = "discharged", "z3"
		return true
	}
	if r == Unknown && v.failSpent < 20*time.Second {
		if alt := crossCheck("cvc5", v.sv.Script(q), 20); alt == "unsat" {
			o.Result, o.Solver = "discharged", "cvc5"
			return true
		}
		o.Result = "unknown"
	} else if r == Unknown {
		o.Result = "unknown"
	} else {
		o.Result = "failed"
	}
	o.Model = model
	if v.debug {
		fmt.Fprintf(os.Stderr, "FAILED %s %s %q\n goal: %s\n", v.sf.Name, kind, label, v.st.String(goal))
		for _, t := range st.pcTerms() {
			fmt.Fprintf(os.Stderr, "   pc: %s\n", v.st.String(t))
		}
		if os.Getenv("GOCV_MODEL") != "" {
			fmt.Fprintln(os.Stderr, model)
		}
		for _, l := range st.trace {
			fmt.Fprintln(os.Stderr, "   trace:", l)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "goal: %s\npath condition:\n", v.st.String(goal))
	for _, t := range st.pcTerms() {
		fmt.Fprintf(&b, "  %s\n", v.st.String(t))
	}
	o.Detail = b.String()
	return false
}
