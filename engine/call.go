package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *V) ret(st *State, vals ...Value) []Outcome {
	return []Outcome{{kind: oRet, st: st, vals: vals}}
}

// call dispatches any call.
func (v *V) call(st *State, fr *Frame, cc *ssa.CallCommon, f Value, args []Value, panIdx int, pos string) []Outcome {
	s := v.st
	if cc.IsInvoke() {
		recv := v.term(st, f)
		return v.invoke(st, fr, cc, recv, args, panIdx, pos)
	}
	switch g := f.(type) {
	case *ssa.Builtin:
		return v.builtin(st, fr, g, cc, args, panIdx, pos)
	case *Closure:
		return v.callFn(st, fr, g.fn, args, g.bind, panIdx, pos)
	case *Term:
		return v.callTerm(st, fr, g, cc.Signature(), args, panIdx, pos)
	}
	_ = s
	panic(unsupported(fmt.Sprintf("call of %T", f)))
}

// callTerm calls a function value held in a term.
func (v *V) callTerm(st *State, fr *Frame, g *Term, sig *types.Signature, args []Value, panIdx int, pos string) []Outcome {
	s := v.st
	if c := v.funcs[g]; c != nil {
		return v.callFn(st, fr, c.fn, args, c.bind, panIdx, pos)
	}
	if g.op == OInt && g.k.Sign() == 0 {
		return []Outcome{{kind: oPanic, st: st, pv: v.runtimeErr("nil func call"), why: "call of nil function at " + pos}}
	}
	if g.op == OIte {
		return v.forkOn(st, g.args[0], func(st *State, b bool) []Outcome {
			if b {
				return v.callTerm(st, fr, g.args[1], sig, args, panIdx, pos)
			}
			return v.callTerm(st, fr, g.args[2], sig, args, panIdx, pos)
		})
	}
	key := "func" + strings.TrimPrefix(types.TypeString(sig, func(p *types.Package) string { return p.Path() }), "func")
	key = sigKey(sig)
	if a := v.p.Abs[key]; a != nil {
		var outs []Outcome
		bad := s.Eq(g, s.Int(0))
		if !fr.spec && v.feasible(st, bad) {
			b := st.clone()
			b.assume(bad)
			outs = append(outs, Outcome{kind: oPanic, st: b, pv: v.runtimeErr("nil func call"), why: "call of nil function at " + pos})
			st.assume(s.Not(bad))
		}
		return append(outs, v.runSpec(st, fr, a, append([]Value{g}, args...))...)
	}
	panic(unsupported("call of unknown function value " + key + " at " + pos))
}

func sigKey(sig *types.Signature) string {
	q := func(p *types.Package) string { return p.Path() }
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, types.TypeString(sig.Params().At(i).Type(), q))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, types.TypeString(sig.Results().At(i).Type(), q))
	}
	return "func(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

func (v *V) forkOn(st *State, c *Term, k func(st *State, b bool) []Outcome) []Outcome {
	s := v.st
	if val, known := v.holdsSyn(st, c); known {
		return k(st, val)
	}
	ft := v.feasible(st, c)
	ff := !ft || v.feasible(st, s.Not(c))
	if ft && ff {
		st2 := st.clone()
		st2.assume(s.Not(c))
		st.assume(c)
		return append(k(st, true), k(st2, false)...)
	}
	if ft {
		st.assume(c)
		return k(st, true)
	}
	st.assume(s.Not(c))
	return k(st, false)
}

// runSpec runs an abstraction or model written as a specification function.
func (v *V) runSpec(st *State, fr *Frame, a *SpecFunc, args []Value) []Outcome {
	nf := v.newFrame(a.Fn, fr, args, nil, -1)
	nf.spec = true
	nf.ctx = &lemmaCtx{sf: a, use: true, where: "abs"}
	return v.execFrom(work{st: st, fr: nf, blk: a.Fn.Blocks[0]}, nil)
}

func (v *V) newFrame(fn *ssa.Function, caller *Frame, args, bind []Value, panIdx int) *Frame {
	nf := &Frame{fn: fn, env: make(map[ssa.Value]Value, 32), panIdx: panIdx, caller: caller}
	if caller != nil {
		nf.depth = caller.depth + 1
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fvr := range fn.FreeVars {
		nf.env[fvr] = bind[i]
	}
	return nf
}

func (v *V) invoke(st *State, fr *Frame, cc *ssa.CallCommon, recv *Term, args []Value, panIdx int, pos string) []Outcome {
	s := v.st
	if recv.op == OIte {
		return v.forkOn(st, recv.args[0], func(st *State, b bool) []Outcome {
			if b {
				return v.invoke(st, fr, cc, recv.args[1], args, panIdx, pos)
			}
			return v.invoke(st, fr, cc, recv.args[2], args, panIdx, pos)
		})
	}
	ty := s.Sel(recv, 0)
	if ty.op == OIte {
		py := s.Sel(recv, 1)
		return v.forkOn(st, ty.args[0], func(st *State, b bool) []Outcome {
			t := ty.args[2]
			p := py
			if b {
				t = ty.args[1]
			}
			if py.op == OIte && py.args[0] == ty.args[0] {
				p = py.args[2]
				if b {
					p = py.args[1]
				}
			}
			return v.invoke(st, fr, cc, s.Cons(s.AnyS, t, p), args, panIdx, pos)
		})
	}
	if ty.op == OInt && ty.k.Sign() == 0 {
		return []Outcome{{kind: oPanic, st: st, pv: v.runtimeErr("nil dereference"), why: "method call on nil interface at " + pos}}
	}
	if ct := v.typeOfID(ty); ct != nil {
		ms := v.p.SSA.MethodSets.MethodSet(ct)
		sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel == nil {
			if ct == errStringType() {
				return v.ret(st, s.App("err.text", s.StrS, recv))
			}
			if ct == rtypeType() {
				v.assumption("library contract of reflect.Type." + cc.Method.Name())
				return v.rtypeMethod(st, cc.Method.Name(), recv, args, pos)
			}
			if ct == rtErrType() {
				return v.ret(st, s.App("rterr.text", s.StrS, s.Sel(recv, 1)))
			}
			panic(unsupported("method " + cc.Method.Name() + " of " + ct.String()))
		}
		fn := v.p.SSA.MethodValue(sel)
		x := v.unbox(ct, s.Sel(recv, 1))
		return v.callFn(st, fr, fn, append([]Value{x}, args...), nil, panIdx, pos)
	}
	// type known from the path condition?
	for p := st.pc; p != nil; p = p.prev {
		if p.t.op == OEq {
			for i := 0; i < 2; i++ {
				if len(p.t.args) != 2 {
					break
				}
				if o := p.t.args[1-i]; p.t.args[i] == recv && o.op == OCons && s.Sel(o, 1).op == OInt && v.typeOfID(s.Sel(o, 0)) != nil {
					return v.invoke(st, fr, cc, o, args, panIdx, pos)
				}
			}
			if id := v.eqConst(p.t, ty); id != nil && v.typeOfID(id) != nil {
				return v.invoke(st, fr, cc, s.Cons(s.AnyS, id, s.Sel(recv, 1)), args, panIdx, pos)
			}
		}
	}
	var outs []Outcome
	if !fr.spec {
		bad := s.Eq(ty, s.Int(0))
		if v.feasible(st, bad) {
			b := st.clone()
			b.assume(bad)
			outs = append(outs, Outcome{kind: oPanic, st: b, pv: v.runtimeErr("nil dereference"), why: "method call on nil interface at " + pos})
			if !v.feasible(st, s.Not(bad)) {
				return outs
			}
			st.assume(s.Not(bad))
		}
	}
	key := "(" + typeKey(cc.Value.Type()) + ")." + cc.Method.Name()
	if a := v.p.Abs[key]; a != nil {
		return append(outs, v.runSpec(st, fr, a, append([]Value{recv}, args...))...)
	}
	if key == "(error).Error" {
		return append(outs, v.ret(st, s.App("err.text", s.StrS, recv))...)
	}
	panic(unsupported("interface call " + key + " at " + pos))
}

// eqConst: if eq is (t == literal) return the literal.
func (v *V) eqConst(eq, t *Term) *Term {
	s := v.st
	if len(eq.args) == 1 {
		d := eq.args[0]
		k, xs, cs := s.linParts(d)
		if len(xs) == 1 && xs[0] == t {
			if cs[0].Cmp(bigOne) == 0 {
				return s.Neg(s.Big(k))
			}
			if cs[0].Sign() < 0 && cs[0].CmpAbs(bigOne) == 0 {
				return s.Big(k)
			}
		}
	}
	return nil
}

var purePkgs = map[string]bool{"fmt": true, "errors": true, "strconv": true, "strings": true, "math": true, "unicode": true, "unicode/utf8": true, "math/cmplx": true}

func (v *V) isLocal(fn *ssa.Function) bool {
	return fn.Blocks != nil
}

func (v *V) onStack(fr *Frame, fn *ssa.Function) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// callFn calls a known function.
func (v *V) callFn(st *State, fr *Frame, fn *ssa.Function, args, bind []Value, panIdx int, pos string) []Outcome {
	v.tick()
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	if org.Pkg != nil && org.Pkg.Pkg.Path() == kitPath || org.Object() != nil && org.Object().Pkg() != nil && org.Object().Pkg().Path() == kitPath {
		return v.kit(st, fr, fn, org.Name(), args, pos)
	}
	name := fn.String()
	for _, m := range v.p.Models[name] {
		if fr.fn != m.Fn && !v.modelOff(m, fr) {
			v.assumption("model of " + name + " (" + m.Name + ")")
			return v.runSpec(st, fr, m, args)
		}
	}
	if m := nativeModels[name]; m != nil {
		v.assumption("library contract of " + name)
		return m(v, st, fr, fn, args, pos)
	}
	sf := v.p.ByFn[fn]
	if sf != nil && sf.has("uf") {
		return v.ret(st, v.ufApp(st, sf.Pkg[strings.LastIndex(sf.Pkg, "/")+1:]+"."+sf.Name, fn.Signature, args)...)
	}
	isSpec := v.p.isSpecFile(fn)
	if isSpec && fn.Parent() == nil && v.p.Lemmas[fn] == nil && (v.recursive(fn) || v.opaque(fn)) {
		return v.ret(st, v.specApp(st, fn, args)...)
	}
	if l := v.p.Lemmas[fn]; l != nil && !v.noLemma[l.Name] && !v.inInit && l.Opts["use"] != "no" {
		// the harness's own subject call runs the body; everything else uses the contract
		subject := fr.ctx != nil && fr.ctx.target == fn && !fr.ctx.inSubj && !fr.ctx.use
		if !subject && !(fr.ctx != nil && fr.ctx.use && fr.ctx.target == fn) {
			return v.useLemma(st, fr, l, fn, args, pos)
		}
	}
	if fr.ctx != nil && fr.ctx.target == fn && fr.ctx.use {
		return v.subjectUse(st, fr, fn)
	}
	if fn.Blocks == nil {
		return v.external(st, fr, fn, name, args, pos)
	}
	if fr.depth > 60 || v.onStack(fr, fn) > 6 {
		panic(unsupported("recursion of " + name + " without a contract at " + pos))
	}
	nf := v.newFrame(fn, fr, args, bind, panIdx)
	nf.spec = isSpec
	if isSpec && fn.Parent() != nil && fr.ctx != nil {
		nf.ctx = fr.ctx // closures of the harness
	} else if isSpec && fr.spec {
		if nf.up = fr.ctx; nf.up == nil {
			nf.up = fr.up // helpers of the harness
		}
	}
	if isSpec && fn.Parent() == nil {
		nf.ctx = nil
	}
	if !isSpec && !v.inInit && fn.Synthetic == "" && v.mute == 0 {
		v.inlined[name] = true
	}
	base := st
	snapshot := st.clone()
	tracking := fr.ctx != nil && fr.ctx.target == fn && !fr.ctx.use
	var ws *WriteSet
	if tracking {
		fr.ctx.inSubj = true
		ws = newWriteSet()
		st.writes = append(st.writes[:len(st.writes):len(st.writes)], ws)
	}
	outs := v.execFrom(work{st: base, fr: nf, blk: fn.Blocks[0]}, nil)
	if tracking {
		fr.ctx.inSubj = false
		for _, o := range outs {
			o.st.writes = snapshot.writes
		}
		v.checkFrame(fr.ctx, snapshot, ws)
	}
	return v.pureMerge(snapshot, outs, isSpec && nf.ctx == nil && v.p.Lemmas[fn] == nil)
}

func (v *V) modelOff(m *SpecFunc, fr *Frame) bool {
	if m.Opts["scope"] == "recursive" && fr.spec { // the contract's own call is of the code
		return true
	}
	if m.Opts["scope"] == "file" && m.File != v.sf.File {
		return true
	}
	o := v.sf.Opts["nomodel"]
	return o != "" && strings.Contains(","+o+",", ","+m.Name+",")
}

// checkFrame: everything the subject wrote must be declared.
func (v *V) checkFrame(ctx *lemmaCtx, st *State, ws *WriteSet) {
	if ctx.sf.Lemma == "" {
		return
	}
	s := v.st
	if ws.all && !ctx.modAll {
		v.oblige(st, "frame", "frame: havoc of the heap", s.False)
		return
	}
	for key, refs := range ws.heap {
		if ctx.modAll && !v.p.Immut[key] { // everything but what abstract code keeps
			continue
		}
		for r := range refs {
			ok := false
			if r == nil {
				for _, m := range ctx.mods {
					if m.kind == LGlobal && m.key == key {
						ok = true
					}
				}
				if !ok {
					v.oblige(st, "frame", "frame: "+key, s.False)
				}
				continue
			}
			if s.isNewRef(r) && s.newRef[r.k.String()] > v.entryStamp {
				continue
			}
			var alts []*Term
			for _, m := range ctx.mods {
				if m.key == key && m.ref != nil {
					alts = append(alts, s.Eq(m.ref, r))
				}
			}
			v.oblige(st, "frame", "frame: "+key, s.Or(alts...))
		}
	}
}

// useLemma applies a contract at a call site.
func (v *V) useLemma(st *State, fr *Frame, l *SpecFunc, fn *ssa.Function, args []Value, pos string) []Outcome {
	if v.mute == 0 {
		v.lemUsed[l.Name] = true
	}
	nf := v.newFrame(l.Fn, fr, args, nil, -1)
	nf.spec = true
	nf.ctx = &lemmaCtx{sf: l, use: true, target: fn, where: pos}
	outs := v.execFrom(work{st: st, fr: nf, blk: l.Fn.Blocks[0]}, nil)
	live := outs[:0]
	for _, o := range outs {
		if v.sv.Check(o.st.pcTerms()) != Unsat {
			live = append(live, o)
		}
	}
	return live
}

// subjectUse is the call of the subject inside an applied contract.
func (v *V) subjectUse(st *State, fr *Frame, fn *ssa.Function) []Outcome {
	s := v.st
	ctx := fr.ctx
	if ctx.modAll {
		v.havocHeap(st, nil)
	}
	for _, m := range ctx.mods {
		v.havocLoc(st, m)
	}
	var vals []Value
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, v.fresh("ret."+fn.Name(), rs.At(i).Type()))
	}
	outs := v.ret(st, vals...)
	if ctx.mayPanic {
		p := st.clone()
		b := v.fresh("panics", types.Typ[types.Bool])
		p.assume(b)
		st.assume(s.Not(b))
		outs = append(outs, Outcome{kind: oPanic, st: p, pv: v.fresh("pval", anyType), why: "panic of " + fn.String()})
	}
	return outs
}

var anyType = types.NewInterfaceType(nil, nil)

func (v *V) havocLoc(st *State, m *Loc) {
	switch m.kind {
	case LField:
		v.noteWrite(st, m.key, m.ref)
		so := v.sortOf(m.root)
		st.setHeap(m.key, v.st.StoreT(v.heapGet(st, m.key, so), m.ref, v.fresh("mod."+m.key, m.root)))
	case LElem: // whole row
		v.noteWrite(st, m.key, m.ref)
		so := v.st.arr(v.st.IntS, v.sortOf(m.root))
		st.setHeap(m.key, v.st.StoreT(v.heapGet(st, m.key, so), m.ref, v.st.Sym("mod."+m.key, so)))
	case LGlobal:
		v.noteWrite(st, m.key, nil)
		st.setHeap(m.key, v.fresh("mod."+m.key, m.root))
	case LCell:
		for _, w := range st.writes {
			w.cells[m.cell] = true
		}
		v.storeLoc(st, m, m.root, v.fresh("mod.cell", m.root))
	}
}

// external is a function without a body.
func (v *V) external(st *State, fr *Frame, fn *ssa.Function, name string, args []Value, pos string) []Outcome {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if purePkgs[pk] && fn.Signature.Recv() == nil {
		v.assumption("external " + name + ": a deterministic total function of its arguments")
		vals := v.ufApp(st, "ext."+name, fn.Signature, args)
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isError(rs.At(i).Type()) && rs.Len() == 1 {
				// errors.New and friends return a non-nil error
				v.st.AddFact(vals[i].(*Term), v.st.Not(v.st.Eq(v.st.Sel(vals[i].(*Term), 0), v.st.Int(0))))
			}
		}
		return v.ret(st, vals...)
	}
	panic(unsupported("external function " + name + " at " + pos))
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// content turns an argument into terms describing its value.
func (v *V) content(st *State, x Value, T types.Type, ext bool) []*Term {
	s := v.st
	if sl, ok := T.Underlying().(*types.Slice); ok {
		if rs, ok := x.(*RowSlice); ok {
			return []*Term{v.shiftRow(rs.row, rs.off), rs.ln}
		}
		t := v.term(st, x)
		ref, off, ln, _ := v.sliceParts(t)
		if n, ok := smallLen(ln); ok && ext {
			// small known length: element list
			row := s.Select(v.heapGet(st, elemKey(sl.Elem()), s.arr(s.IntS, v.sortOf(sl.Elem()))), ref)
			l := s.App("nil."+cleanName(v.sortOf(sl.Elem()).Name), s.IntS)
			for i := int64(0); i < n; i++ {
				l = s.App("snoc."+cleanName(v.sortOf(sl.Elem()).Name), s.IntS, l, v.rowAt(row, s.Add(off, s.Int(i)), sl.Elem()))
			}
			return []*Term{s.ConstArr(s.arr(s.IntS, v.sortOf(sl.Elem())), v.zero(sl.Elem())), s.Sub(s.App("list", s.IntS, l), s.Int(1))}
		}
		row := s.Select(v.heapGet(st, elemKey(sl.Elem()), s.arr(s.IntS, v.sortOf(sl.Elem()))), ref)
		return []*Term{v.shiftRow(row, off), ln}
	}
	return []*Term{v.term(st, x)}
}

func smallLen(t *Term) (int64, bool) {
	if t.op == OInt && t.k.IsInt64() && t.k.Int64() <= 16 {
		return t.k.Int64(), true
	}
	return 0, false
}

// ufApp applies an uninterpreted function to argument values.
func (v *V) ufApp(st *State, name string, sig *types.Signature, args []Value) []Value {
	var as []*Term
	for i, a := range args {
		as = append(as, v.content(st, a, sig.Params().At(i).Type(), strings.HasPrefix(name, "ext."))...)
	}
	var out []Value
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		n := "uf." + cleanName(name)
		if rs.Len() > 1 {
			n += fmt.Sprintf(".%d", i)
		}
		t := v.st.App(n, v.sortOf(rs.At(i).Type()), as...)
		v.typeFactsDeep(rs.At(i).Type(), t)
		out = append(out, t)
	}
	return out
}

// ---- builtins

func (v *V) builtin(st *State, fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, panIdx int, pos string) []Outcome {
	s := v.st
	switch b.Name() {
	case "len", "cap":
		T := cc.Args[0].Type().Underlying()
		switch u := T.(type) {
		case *types.Slice:
			if rs, ok := args[0].(*RowSlice); ok {
				return v.ret(st, rs.ln)
			}
			_, _, ln, cp := v.sliceParts(v.term(st, args[0]))
			if b.Name() == "cap" {
				return v.ret(st, cp)
			}
			return v.ret(st, ln)
		case *types.Basic:
			return v.ret(st, v.slen(v.term(st, args[0])))
		case *types.Map:
			return v.ret(st, v.mapLen(st, v.term(st, args[0]), cc.Args[0].Type()))
		case *types.Array:
			return v.ret(st, s.Int(u.Len()))
		case *types.Pointer:
			return v.ret(st, s.Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		return v.appendB(st, fr, cc, args)
	case "copy":
		return v.copyB(st, cc, args)
	case "delete":
		v.mapStore(st, v.term(st, args[0]), v.term(st, args[1]), nil, cc.Args[0].Type(), true)
		return v.ret(st)
	case "recover":
		nilv := v.nilAny()
		if fr.panIdx < 0 || fr.panIdx >= len(st.pan) || st.pan[fr.panIdx].rec {
			return v.ret(st, nilv)
		}
		val := st.pan[fr.panIdx].val
		st.pan = append([]panicRec(nil), st.pan...)
		st.pan[fr.panIdx].rec = true
		return v.ret(st, val)
	case "real", "imag":
		c := v.term(st, args[0])
		if c.op == OApp && c.name == "complex" {
			if b.Name() == "real" {
				return v.ret(st, c.args[0])
			}
			return v.ret(st, c.args[1])
		}
		r := s.App(b.Name(), s.FltS, c)
		return v.ret(st, r)
	case "complex":
		return v.ret(st, s.App("complex", s.CpxS, v.term(st, args[0]), v.term(st, args[1])))
	case "min", "max":
		r := v.term(st, args[0])
		if r.sort == s.IntS {
			for _, a := range args[1:] {
				t := v.term(st, a)
				if b.Name() == "min" {
					r = s.Ite(s.Le(r, t), r, t)
				} else {
					r = s.Ite(s.Le(t, r), r, t)
				}
			}
			return v.ret(st, r)
		}
	case "print", "println":
		return v.ret(st)
	case "ssa:wrapnilchk":
		return v.ret(st, args[0])
	case "panic":
		return []Outcome{{kind: oPanic, st: st, pv: v.term(st, args[0]), why: "panic at " + pos}}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (v *V) rowOf(st *State, t *Term, elem types.Type) (row, off, ln *Term) {
	ref, off, ln, _ := v.sliceParts(t)
	return v.st.Select(v.heapGet(st, elemKey(elem), v.st.arr(v.st.IntS, v.sortOf(elem))), ref), off, ln
}

func (v *V) appendB(st *State, fr *Frame, cc *ssa.CallCommon, args []Value) []Outcome {
	s := v.st
	sl := cc.Args[0].Type().Underlying().(*types.Slice)
	k := elemKey(sl.Elem())
	so := s.arr(s.IntS, v.sortOf(sl.Elem()))
	if len(args) < 2 {
		return v.ret(st, args[0])
	}
	if rs, ok := args[0].(*RowSlice); ok {
		row2, off2, n2 := v.rowArg(st, args[1], sl.Elem())
		return v.ret(st, &RowSlice{row: v.catRow(v.shiftRow(rs.row, rs.off), rs.ln, n2, row2, off2), off: s.Int(0), ln: s.Add(rs.ln, n2), elem: sl.Elem()})
	}
	a := v.term(st, args[0])
	var row2, off2, n2 *Term
	if bt, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		str := v.term(st, args[1])
		row2, off2, n2 = v.sbytes(str), s.Int(0), v.slen(str)
	} else {
		row2, off2, n2 = v.rowArg(st, args[1], sl.Elem())
	}
	if n2.op == OInt && n2.k.Sign() == 0 {
		return v.ret(st, a)
	}
	ref, off, ln, cp := v.sliceParts(a)
	nl := s.Add(ln, n2)
	if fr.spec {
		// specification code: always a fresh object
		row := s.Select(v.heapGet(st, k, so), ref)
		r := v.newObj(st)
		st.setHeap(k, s.StoreT(v.heapGet(st, k, so), r, v.catRow(v.shiftRow(row, off), ln, n2, row2, off2)))
		return v.ret(st, s.Cons(s.SliceS, r, s.Int(0), nl, nl))
	}
	return v.forkOn(st, s.Le(nl, cp), func(st *State, fits bool) []Outcome {
		h := v.heapGet(st, k, so)
		row := s.Select(h, ref)
		if fits {
			v.noteWrite(st, k, ref)
			st.setHeap(k, s.StoreT(h, ref, v.catRow(row, s.Add(off, ln), n2, row2, off2)))
			return v.ret(st, s.Cons(s.SliceS, ref, off, nl, cp))
		}
		r := v.newObj(st)
		st.setHeap(k, s.StoreT(h, r, v.catRow(v.shiftRow(row, off), ln, n2, row2, off2)))
		nc := v.st.Sym("cap", s.IntS)
		s.AddFact(nc, s.Le(nl, nc))
		s.AddFact(nc, s.Le(nc, s.Big(maxLen)))
		return v.ret(st, s.Cons(s.SliceS, r, s.Int(0), nl, nc))
	})
}

func (v *V) rowArg(st *State, x Value, elem types.Type) (row, off, ln *Term) {
	if rs, ok := x.(*RowSlice); ok {
		return rs.row, rs.off, rs.ln
	}
	return v.rowOf(st, v.term(st, x), elem)
}

func (v *V) copyB(st *State, cc *ssa.CallCommon, args []Value) []Outcome {
	s := v.st
	sl := cc.Args[0].Type().Underlying().(*types.Slice)
	k := elemKey(sl.Elem())
	so := s.arr(s.IntS, v.sortOf(sl.Elem()))
	dst := v.term(st, args[0])
	ref, off, ln, _ := v.sliceParts(dst)
	var row2, off2, n2 *Term
	if bt, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		str := v.term(st, args[1])
		row2, off2, n2 = v.sbytes(str), s.Int(0), v.slen(str)
	} else {
		row2, off2, n2 = v.rowOf(st, v.term(st, args[1]), sl.Elem())
	}
	n := s.Ite(s.Le(ln, n2), ln, n2)
	if n == s.Int(0) {
		return v.ret(st, n)
	}
	h := v.heapGet(st, k, so)
	v.noteWrite(st, k, ref)
	st.setHeap(k, s.StoreT(h, ref, v.catRow(s.Select(h, ref), off, n, row2, off2)))
	return v.ret(st, n)
}

// ---- the specification kit

func (v *V) kit(st *State, fr *Frame, fn *ssa.Function, name string, args []Value, pos string) []Outcome {
	s := v.st
	ctx := fr.ctx
	if ctx == nil {
		ctx = fr.up
	}
	label := func() string {
		if t, ok := args[0].(*Term); ok {
			if l, ok := v.litOf(t); ok {
				return l
			}
		}
		return "?"
	}
	boolArg := func(i int) *Term { return v.term(st, args[i]) }
	switch name {
	case "Requires":
		c := boolArg(1)
		if ctx != nil && ctx.use {
			v.oblige(st, "requires", label()+" @ "+pos+" <- "+ctx.where, c)
			st.assume(c)
			return v.ret(st)
		}
		st.assume(c)
		st.reqs++
		return v.liveOnly(st)
	case "Split":
		if ctx == nil || ctx.use {
			return v.ret(st)
		}
		c := boolArg(0)
		if v.caseNo>>st.splits&1 == 1 {
			c = v.st.Not(c)
		}
		st.splits++
		st.assume(c)
		return v.liveOnly(st)
	case "Ensures", "Assert":
		c := boolArg(1)
		l := label()
		if ps, text, ok := strings.Cut(l, ": "); ok && v.prop != "" && isPropList(ps) {
			if !strings.Contains(","+ps+",", ","+v.prop+",") {
				return v.ret(st)
			}
			l = text
		}
		if ctx != nil && ctx.use {
			st.assume(c)
			if c == v.st.False {
				return nil
			}
			return v.ret(st) // useLemma looks at the path once
		}
		if v.oblige(st, strings.ToLower(name), l, c) && name == "Assert" && v.mute == 0 {
			st.assume(c) // proved: a step for what follows
		}
		return v.ret(st)
	case "Assume":
		if ctx == nil || !ctx.use {
			v.assumption("assumed in " + v.sf.Name + ": " + label())
		}
		st.assume(boolArg(1))
		st.reqs++
		return v.liveOnly(st)
	case "Inv", "Decr":
		if ctx != nil && ctx.use {
			return v.ret(st)
		}
		c, ok := args[0].(*Closure)
		if !ok {
			panic(unsupported("invariant is not a function literal"))
		}
		st.invs = append(st.invs[:len(st.invs):len(st.invs)], invCand{cl: c, decr: name == "Decr"})
		return v.ret(st)
	case "Mod":
		l, ok := args[0].(*Loc)
		if !ok {
			t := v.term(st, args[0])
			T := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			v.modStruct(ctx, t, T)
			return v.ret(st)
		}
		if l.kind == LElem {
			l = &Loc{kind: LElem, key: l.key, ref: l.ref, root: l.root, typ: l.typ}
		}
		if len(l.path) > 0 {
			c := *l
			c.path = nil
			l = &c
		}
		ctx.mods = append(ctx.mods, l)
		return v.ret(st)
	case "ModElems":
		T := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		ref, _, _, _ := v.sliceParts(v.term(st, args[0]))
		ctx.mods = append(ctx.mods, &Loc{kind: LElem, key: elemKey(T), ref: ref, root: T, typ: T})
		return v.ret(st)
	case "ModAll":
		ctx.modAll = true
		return v.ret(st)
	case "MayPanic":
		ctx.mayPanic = true
		return v.ret(st)
	case "Try":
		c, ok := args[0].(*Closure)
		if !ok {
			panic(unsupported("Try of a non-literal"))
		}
		var outs []Outcome
		for _, o := range v.callFn(st, fr, c.fn, nil, c.bind, -1, pos) {
			if o.kind == oPanic {
				o.st.trace = append(o.st.trace, o.why)
				outs = append(outs, Outcome{kind: oRet, st: o.st, vals: []Value{s.True, o.pv}})
			} else {
				outs = append(outs, Outcome{kind: oRet, st: o.st, vals: []Value{s.False, v.nilAny()}})
			}
		}
		return outs
	case "Panic":
		return []Outcome{{kind: oPanic, st: st, pv: v.term(st, args[0]), why: "abstract panic"}}
	case "RuntimeError":
		return v.ret(st, s.Ite(s.Eq(s.Sel(v.term(st, args[0]), 0), v.typeID(rtErrType())), s.True, s.False))
	case "GetWorld":
		if st.world == nil {
			st.world = s.Sym("world", s.WorldS)
		}
		return v.ret(st, st.world)
	case "SetWorld":
		st.world = v.term(st, args[0])
		for _, w := range st.writes {
			w.world = true
		}
		return v.ret(st)
	case "HavocHeap":
		var roots []*Term
		for f := fr; f != nil; f = f.caller {
			if f.spec {
				for _, p := range f.fn.Params {
					if t, ok := f.env[p].(*Term); ok {
						roots = append(roots, t)
					}
				}
				break
			}
		}
		v.havocHeap(st, roots)
		return v.ret(st)
	case "Fresh":
		return v.ret(st, v.fresh("any", fn.Signature.Results().At(0).Type()))
	case "Same":
		return v.ret(st, s.Eq(v.term(st, args[0]), v.term(st, args[1])))
	case "Implies":
		return v.ret(st, s.Implies(boolArg(0), boolArg(1)))
	case "Eq": // equality of contents for slices, identity otherwise
		T := fn.Signature.Params().At(0).Type()
		r := s.True
		if sl, ok := T.Underlying().(*types.Slice); ok {
			r1, o1, n1 := v.rowArg(st, args[0], sl.Elem())
			r2, o2, n2 := v.rowArg(st, args[1], sl.Elem())
			for _, n := range []*Term{n1, n2} {
				if k, ok := smallLen(n); ok {
					r = s.Eq(n1, n2)
					for i := int64(0); i < k; i++ {
						r = s.And(r, s.Eq(v.rowAt(r1, s.Add(o1, s.Int(i)), sl.Elem()), v.rowAt(r2, s.Add(o2, s.Int(i)), sl.Elem())))
					}
					return v.ret(st, r)
				}
			}
		}
		a, b := v.content(st, args[0], T, false), v.content(st, args[1], T, false)
		if bt, ok := T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 { // strings are the same if their bytes are
			x, y := a[0], b[0]
			e := s.Eq(x, y)
			if e.op != OTrue && e.op != OFalse && !v.typed[e] {
				v.typed[e] = true
				k := s.App("sdiff", s.IntS, x, y)
				s.AddFact(e, s.Or(e, s.Not(s.Eq(v.slen(x), v.slen(y))),
					s.And(s.Le(s.Int(0), k), s.Lt(k, v.slen(x)), s.Not(s.Eq(v.sat(x, k), v.sat(y, k))))))
			}
		}
		for i := range a {
			r = s.And(r, s.Eq(a[i], b[i]))
		}
		return v.ret(st, r)
	case "Seq": // same elements in the same order
		return v.ret(st, v.seqArgs(st, args[0], args[1], fn.Signature.Params().At(0).Type()))
	case "Disjoint": // different arrays
		r1, _, _, _ := v.sliceParts(v.term(st, args[0]))
		r2, _, _, _ := v.sliceParts(v.term(st, args[1]))
		return v.ret(st, s.Not(s.Eq(r1, r2)))
	case "Feq": // IEEE-independent identity of floats
		return v.ret(st, s.Eq(v.term(st, args[0]), v.term(st, args[1])))
	case "TypeIs":
		T := fn.TypeArgs()[0]
		x := v.term(st, args[0])
		_, ok := v.typeAssert(x, T)
		return v.ret(st, ok)
	case "IsNew": // allocated during this contract
		t := v.term(st, args[0])
		return v.ret(st, s.Lt(t, s.Big(refBase)))
	case "Captured": // the variable of that type which a function literal shares
		c, ok := args[0].(*Closure)
		if !ok {
			if c = v.funcs[v.term(st, args[0])]; c == nil {
				panic(unsupported("Captured of an unknown function"))
			}
		}
		T := fn.TypeArgs()[0]
		var got []Value
		for i, fv := range c.fn.FreeVars {
			if p, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), T) && i < len(c.bind) {
				got = append(got, c.bind[i])
			}
		}
		if len(got) != 1 {
			panic(unsupported("no single captured variable of type " + T.String()))
		}
		return v.ret(st, got[0])
	case "Visited": // an iteration over the map has come to the key
		m, k, r := v.term(st, args[0]), v.term(st, args[1]), s.False
		for _, it := range v.iters {
			if seen, ok := st.cells[it.cell].(*Term); ok && it.m == m {
				r = s.Or(r, s.Select(seen, k))
			}
		}
		return v.ret(st, r)
	case "Raw": // what a reflect.Value holds
		return v.ret(st, v.term(st, args[0]))
	case "Undecided":
		if v.mute == 0 {
			panic(unsupported("the contract does not fit this code: " + label()))
		}
		return nil
	case "Unreachable":
		v.oblige(st, "assert", label(), s.False)
		return nil
	case "Cover":
		if v.mute == 0 {
			v.vac[label()] = true
		}
		return v.ret(st)
	}
	panic(unsupported("kit function " + name))
}

func isPropList(s string) bool {
	for _, p := range strings.Split(s, ",") {
		if len(p) != 3 || p[0] < 'A' || p[0] > 'Z' || p[1] < '0' || p[1] > '9' || p[2] < '0' || p[2] > '9' {
			return false
		}
	}
	return true
}

// liveOnly drops the path when the assumption contradicts it.
func (v *V) liveOnly(st *State) []Outcome {
	if v.sv.Check(st.pcTerms()) == Unsat {
		return nil
	}
	return v.ret(st)
}

func (v *V) modStruct(ctx *lemmaCtx, t *Term, T types.Type) {
	u := structOf(T)
	if u == nil {
		ctx.mods = append(ctx.mods, &Loc{kind: LField, key: cellKey(T), ref: t, root: T, typ: T})
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if structOf(ft) != nil {
			v.modStruct(ctx, v.subRef(t, T, i), ft)
			continue
		}
		ctx.mods = append(ctx.mods, &Loc{kind: LField, key: fieldKey(T, i), ref: t, root: ft, typ: ft})
	}
}

// havocHeap forgets everything reachable by unknown code.
// ghostKey: a package variable of a specification. Abstract code does not
// know it.
func ghostKey(key string) bool {
	if !strings.HasPrefix(key, "G:") {
		return false
	}
	n := key[strings.LastIndexByte(key, '.')+1:]
	return strings.HasPrefix(n, "verif") || strings.HasPrefix(n, "Verif")
}

func (v *V) havocHeap(st *State, roots []*Term) {
	s := v.st
	isNew := map[*Term]bool{}
	for _, r := range st.newrefs {
		isNew[r] = true
	}
	esc := map[*Term]bool{}
	var queue []*Term
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isNew[t] && !esc[t] {
			esc[t] = true
			queue = append(queue, t)
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for id := range st.escCells {
		if t, ok := st.cells[id].(*Term); ok {
			mark(t)
		}
	}
	markClosure := func(c *Closure) {
		for _, b := range c.bind {
			switch x := b.(type) {
			case *Term:
				mark(x)
			case *Loc:
				if x.ref != nil {
					mark(x.ref)
				}
				if x.kind == LCell {
					switch y := st.cells[x.cell].(type) {
					case *Term:
						mark(y)
					case *Fwd:
						mark(y.ref)
					}
				}
			}
		}
	}
	chain := func(h *Term, f func(ref, val *Term)) {
		for h.op == OStore {
			f(h.args[1], h.args[2])
			h = h.args[0]
		}
		if h.op == OIte {
			f(h, h)
		}
	}
	// stores into objects that are not private
	for {
		n := len(esc)
		for key, h := range st.heap {
			if h.sort.IsArr() && !strings.HasPrefix(key, "G:") {
				chain(h, func(ref, val *Term) {
					if isNew[ref] && !esc[ref] {
						return
					}
					mark(val)
				})
			} else if !ghostKey(key) {
				mark(h)
			}
		}
		for r := range esc {
			if c := v.funcs[r]; c != nil {
				markClosure(c)
			}
		}
		if len(esc) == n {
			break
		}
	}
	s.stamp++
	st.epoch = s.stamp
	old := st.heap
	st.heap = map[string]*Term{}
	st.heapOwn = true
	for key, h := range old {
		if v.p.Immut[key] {
			if v.p.Keeps[key] {
				v.assumption("abstract code leaves " + key + " as it is")
			}
			st.heap[key] = h
			continue
		}
		if strings.HasPrefix(key, "G:") {
			if !v.mutGlob[key] {
				st.heap[key] = h
			}
			continue
		}
		nh := v.heapGet(st, key, h.sort.Elem)
		done := map[*Term]bool{}
		chain(h, func(ref, val *Term) {
			if isNew[ref] && !esc[ref] && nh.op != OIte {
				nh = s.StoreT(nh, ref, s.Select(h, ref))
				done[ref] = true
			}
		})
		if nh.op != OIte { // objects of this path whose rows a loop's invariants describe
			for _, ref := range st.newrefs {
				if v.refKeys[key][ref] && !esc[ref] && !done[ref] {
					nh = s.StoreT(nh, ref, s.Select(h, ref))
				}
			}
		}
		st.heap[key] = nh
	}
	for key, t := range v.initHeap {
		_ = key
		_ = t
	}
	for id := range st.escCells {
		T := v.cellTypes[id]
		if _, ok := st.cells[id].(*Fwd); ok {
			continue
		}
		st.setCell(id, v.fresh("esc", T))
		for _, w := range st.writes {
			w.cells[id] = true
		}
	}
	for _, w := range st.writes {
		w.all = true
	}
}
