package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	exits map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	at map[*ssa.BasicBlock]*loopT
}

// loopAt finds the natural loop headed at a block.
func (v *V) loopAt(b *ssa.BasicBlock) *loopT {
	fn := b.Parent()
	li := v.loopMemo[fn]
	if li == nil {
		li = &loopInfo{at: map[*ssa.BasicBlock]*loopT{}}
		v.loopMemo[fn] = li
		for _, x := range fn.Blocks {
			for _, h := range x.Succs {
				if h.Dominates(x) {
					l := li.at[h]
					if l == nil {
						l = &loopT{head: h, body: map[*ssa.BasicBlock]bool{h: true}, exits: map[*ssa.BasicBlock]bool{}}
						li.at[h] = l
					}
					var stack []*ssa.BasicBlock
					if !l.body[x] {
						l.body[x] = true
						stack = append(stack, x)
					}
					for len(stack) > 0 {
						y := stack[len(stack)-1]
						stack = stack[:len(stack)-1]
						for _, p := range y.Preds {
							if !l.body[p] {
								l.body[p] = true
								stack = append(stack, p)
							}
						}
					}
				}
			}
		}
		for _, l := range li.at {
			for x := range l.body {
				for _, y := range x.Succs {
					if !l.body[y] {
						l.exits[y] = true
					}
				}
			}
		}
	}
	return li.at[b]
}

// unrollOK reports whether the loop's next test is decided already, so that
// the iteration can be executed as it is.
func (v *V) unrollOK(w *work, l *loopT) bool {
	fr := w.fr
	if v.sf.Opts["nounroll"] == "yes" && !v.inInit {
		return false
	}
	if fr.unroll == nil {
		fr.unroll = map[*ssa.BasicBlock]int{}
	}
	if !l.body[w.prev] {
		fr.unroll[l.head] = 0
	}
	max := 70
	if fr.spec && fr.ctx == nil || v.inInit {
		max = 1000
	}
	if fr.unroll[l.head] > max {
		return false
	}
	last := l.head.Instrs[len(l.head.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	// dry run of the header
	ok = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupported); !is {
					panic(r)
				}
				ok = false
			}
		}()
		v.mute++
		defer func() { v.mute-- }()
		d := work{st: w.st.clone(), fr: w.fr.clone(), blk: w.blk, prev: w.prev}
		v.evalPhis(&d)
		for _, ins := range l.head.Instrs[d.ip : len(l.head.Instrs)-1] {
			switch i := ins.(type) {
			case *ssa.BinOp:
				x, _ := v.binopV(d.st, i, v.get(d.st, d.fr, i.X), v.get(d.st, d.fr, i.Y), true)
				d.fr.env[i] = x
			case *ssa.UnOp:
				if i.Op.String() == "*" {
					d.fr.env[i] = v.load(d.st, v.get(d.st, d.fr, i.X), i.Type())
				} else if i.Op.String() == "!" {
					d.fr.env[i] = v.st.Not(v.term(d.st, v.get(d.st, d.fr, i.X)))
				} else {
					ok = false
					return
				}
			case *ssa.FieldAddr:
				d.fr.env[i] = v.fieldAddr(d.st, v.get(d.st, d.fr, i.X), i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field)
			case *ssa.Call:
				b, isB := i.Call.Value.(*ssa.Builtin)
				if !isB || b.Name() != "len" {
					ok = false
					return
				}
				o := v.builtin(d.st, d.fr, b, &i.Call, []Value{v.get(d.st, d.fr, i.Call.Args[0])}, -1, "")
				d.fr.env[i] = o[0].vals[0]
			case *ssa.Next:
				if it, isS := v.get(d.st, d.fr, i.Iter).(*strIter); isS {
					if _, lit := v.litOf(it.s); lit {
						d.fr.env[i] = v.next(d.st, d.fr, i)
						continue
					}
				}
				ok = false
				return
			case *ssa.Extract:
				d.fr.env[i] = v.get(d.st, d.fr, i.Tuple).(Tuple)[i.Index]
			case *ssa.Phi, *ssa.DebugRef:
			default:
				ok = false
				return
			}
		}
		c := v.term(d.st, v.get(d.st, d.fr, iff.Cond))
		if _, known := v.holdsSyn(d.st, c); !known {
			ok = false
		}
	}()
	if ok {
		fr.unroll[l.head]++
	}
	return ok
}

type cand struct {
	desc  string
	eval  func(st *State, fr *Frame) *Term
	alive bool
	user  bool
}

// cutLoop replaces a loop by its inferred inductive invariant.
func (v *V) cutLoop(w work, l *loopT, stop map[*ssa.BasicBlock]bool) []Outcome {
	s := v.st
	v.loops++
	entry := w
	entry.fr = w.fr.clone()
	v.evalPhis(&entry)
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	est, efr := entry.st, entry.fr
	entryVal := map[*ssa.Phi]Value{}
	for _, p := range phis {
		entryVal[p] = efr.env[p]
	}
	fixed := map[*ssa.Phi]bool{} // phis that cannot be havocked stay constant
	for _, p := range phis {
		switch entryVal[p].(type) {
		case *Closure, *Loc, *RowSlice, *mapIter, *strIter:
			fixed[p] = true
		}
	}
	mods := newWriteSet()
	stamp := s.stamp
	cands := v.genCands(est, efr, l, phis, entryVal, mods)
	for _, c := range cands {
		c.alive = v.candHolds(est, efr, c)
		if c.user && loopDebug {
			fmt.Fprintln(os.Stderr, "loop", w.fr.fn.Name(), c.desc, "entry:", c.alive)
			if t := v.evalCand(est, efr, c); !c.alive && t != nil && os.Getenv("GOCV_LOOP") == "2" {
				fmt.Fprintln(os.Stderr, "   goal", s.String(t))
			} else if t == nil {
				fmt.Fprintln(os.Stderr, "   not evaluated")
			}
		}
	}
	s.stamp++
	var hst *State
	var hfr *Frame
	havoc := func() {
		hst = est.clone()
		hst.writes = nil
		hfr = efr.clone()
		for _, p := range phis {
			if !fixed[p] {
				hfr.env[p] = v.fresh(phiName(p), p.Type())
			}
		}
		v.havocMods(hst, mods, stamp)
		for _, p := range phis {
			if e, ok := entryVal[p].(*Term); ok && e.sort == s.IntS && counter(p, l, p, map[*ssa.Phi]bool{}) {
				v.assumption("no loop runs 2^58 times (a counter stepping by at most 16 does not wrap)")
				hst.assume(s.Le(hfr.env[p].(*Term), s.Add(e, s.Big(new(big.Int).Lsh(bigOne, 62)))))
			}
		}
		for _, c := range cands {
			if c.alive {
				t := v.evalCand(hst, hfr, c)
				if t == nil {
					c.alive = false
					continue
				}
				hst.assume(t)
			}
		}
	}
	inner := map[*ssa.BasicBlock]bool{l.head: true}
	for b := range stop {
		inner[b] = true
	}
	probe := map[*ssa.BasicBlock]bool{}
	for b := range inner {
		probe[b] = true
	}
	for b := range l.exits {
		probe[b] = true
	}
	nip := 0
	for _, ins := range l.head.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			nip++
		}
	}
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsupported("loop invariant does not converge in " + w.fr.fn.String()))
		}
		havoc()
		ws := newWriteSet()
		body := work{st: hst.clone(), fr: hfr.clone(), blk: l.head, ip: nip, started: true}
		body.st.writes = []*WriteSet{ws}
		v.mute++
		outs := v.execFrom(body, probe)
		v.mute--
		changed := false
		if v.mergeMods(est, mods, ws, stamp) {
			changed = true
			nc := v.cellCands(est, efr, mods, cands)
			for _, c := range nc {
				c.alive = v.candHolds(est, efr, c)
			}
			cands = append(cands, nc...)
		}
		for _, o := range outs {
			if o.kind != oStop || o.blk != l.head {
				continue
			}
			b := work{st: o.st.clone(), fr: o.fr.clone(), blk: o.blk, prev: o.prev}
			v.evalPhis(&b)
			for _, p := range phis {
				if fixed[p] && b.fr.env[p] != entryVal[p] {
					panic(unsupported("loop-carried value of kind " + p.String()))
				}
			}
			var alive []*cand
			for _, c := range cands {
				if c.alive {
					alive = append(alive, c)
				}
			}
			for _, c := range alive {
				if !v.candHolds(b.st, b.fr, c) {
					if c.user && loopDebug {
						fmt.Fprintln(os.Stderr, "loop", w.fr.fn.Name(), c.desc, "dies in round", round)
						if os.Getenv("GOCV_LOOP") == "2" {
							if t := v.evalCand(b.st, b.fr, c); t != nil {
								fmt.Fprintln(os.Stderr, "   goal", v.st.String(t))
								os.WriteFile("/tmp/gocv_loop.smt2", []byte(v.sv.Script(append(b.st.pcTerms(), v.st.Not(t)))), 0644)
							}
							for p := b.st.pc; p != nil; p = p.prev {
								fmt.Fprintln(os.Stderr, "   pc", v.st.String(p.t))
							}
						}
						if t := v.evalCand(b.st, b.fr, c); t != nil && t.op == OAnd {
							for _, a := range t.args {
								if !v.prove(b.st, a) {
									fmt.Fprintln(os.Stderr, "   conjunct", v.st.String(a))
								}
							}
						}
					}
					c.alive = false
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// final pass
	havoc()
	hst.writes = est.writes
	for _, ws := range hst.writes {
		v.addMods(ws, mods, stamp)
	}
	decr := v.decrTerms(hst, hfr, phis)
	var res []Outcome
	outs := v.execFrom(work{st: hst.clone(), fr: hfr.clone(), blk: l.head, ip: nip, started: true}, inner)
	for _, o := range outs {
		if o.kind == oStop && o.blk == l.head {
			if len(decr) > 0 && v.mute == 0 {
				b := work{st: o.st.clone(), fr: o.fr.clone(), blk: o.blk, prev: o.prev}
				v.evalPhis(&b)
				var alts []*Term
				now := v.decrTerms(b.st, b.fr, phis)
				for k := range decr {
					alts = append(alts, s.And(s.Le(s.Int(0), decr[k]), s.Lt(now[k], decr[k])))
				}
				v.oblige(o.st, "termination", "the loop in "+w.fr.fn.Name()+" terminates", s.Or(alts...))
			}
			continue
		}
		res = append(res, o)
	}
	return res
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (v *V) evalCand(st *State, fr *Frame, c *cand) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			t = nil
		}
	}()
	return c.eval(st, fr)
}

func (v *V) candHolds(st *State, fr *Frame, c *cand) bool {
	t := v.evalCand(st, fr, c)
	return t != nil && v.prove(st, t)
}

// genCands proposes invariants.
func (v *V) genCands(st *State, fr *Frame, l *loopT, phis []*ssa.Phi, entry map[*ssa.Phi]Value, mods *WriteSet) []*cand {
	s := v.st
	var cs []*cand
	add := func(desc string, f func(st *State, fr *Frame) *Term) {
		cs = append(cs, &cand{desc: desc, eval: f})
	}
	// bounds: values available at entry that the loop mentions
	used := map[ssa.Value]bool{}
	var order []ssa.Value
	for _, b := range fr.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil || used[*op] {
					continue
				}
				if in, ok := (*op).(ssa.Instruction); ok && l.body[in.Block()] {
					if _, isPhi := (*op).(*ssa.Phi); !isPhi {
						continue // not a value of the loop's entry
					}
				}
				if _, ok := fr.env[*op]; ok {
					used[*op] = true
					order = append(order, *op)
				}
			}
		}
	}
	// values that were there before the loop, for the contract's candidates
	var outer []ssa.Value
	for _, b := range fr.fn.Blocks {
		if l.body[b] || b == l.head || !b.Dominates(l.head) {
			continue
		}
		for _, ins := range b.Instrs {
			if x, ok := ins.(ssa.Value); ok && !used[x] {
				if _, ok := fr.env[x]; ok {
					outer = append(outer, x)
				}
			}
		}
	}
	var bounds []*Term
	for _, x := range order {
		if _, isPhi := x.(*ssa.Phi); isPhi && entry[x.(*ssa.Phi)] != nil {
			continue
		}
		t, ok := fr.env[x].(*Term)
		if !ok {
			continue
		}
		switch t.sort {
		case s.IntS:
			if _, isB := x.Type().Underlying().(*types.Basic); isB {
				bounds = append(bounds, t)
			}
		case s.SliceS:
			bounds = append(bounds, s.Sel(t, 2))
		case s.StrS:
			bounds = append(bounds, v.slen(t))
		}
	}
	for _, p := range phis {
		p := p
		e, ok := entry[p].(*Term)
		if !ok {
			continue
		}
		get := func(fr *Frame) *Term { t, _ := fr.env[p].(*Term); return t }
		add("const", func(st *State, fr *Frame) *Term { return s.Eq(get(fr), e) })
		switch e.sort {
		case s.IntS:
			if _, isB := p.Type().Underlying().(*types.Basic); isB {
				add("lo", func(st *State, fr *Frame) *Term { return s.Le(e, get(fr)) })
				add("hi", func(st *State, fr *Frame) *Term { return s.Le(get(fr), e) })
				for _, b := range bounds {
					b := b
					add("bound", func(st *State, fr *Frame) *Term { return s.Le(get(fr), b) })
					add("bound-", func(st *State, fr *Frame) *Term { return s.Lt(get(fr), b) })
				}
			} else {
				add("nonnil", func(st *State, fr *Frame) *Term { return s.Not(s.Eq(get(fr), s.Int(0))) })
			}
		case s.SliceS:
			add("sref", func(st *State, fr *Frame) *Term { return s.Eq(s.Sel(get(fr), 0), s.Sel(e, 0)) })
			add("soff", func(st *State, fr *Frame) *Term { return s.Le(s.Sel(e, 1), s.Sel(get(fr), 1)) })
			add("soffc", func(st *State, fr *Frame) *Term { return s.Eq(s.Sel(e, 1), s.Sel(get(fr), 1)) })
			add("send", func(st *State, fr *Frame) *Term {
				return s.Eq(s.Add(s.Sel(e, 1), s.Sel(e, 2)), s.Add(s.Sel(get(fr), 1), s.Sel(get(fr), 2)))
			})
			add("scap", func(st *State, fr *Frame) *Term {
				return s.Eq(s.Add(s.Sel(e, 1), s.Sel(e, 3)), s.Add(s.Sel(get(fr), 1), s.Sel(get(fr), 3)))
			})
		}
		for _, p2 := range phis {
			p2 := p2
			e2, ok := entry[p2].(*Term)
			if !ok || p2 == p || e2.sort != s.IntS || e.sort != s.IntS {
				continue
			}
			add("le", func(st *State, fr *Frame) *Term { return s.Le(get(fr), fr.env[p2].(*Term)) })
		}
	}
	// candidates of the contract
	for _, ic := range st.invs {
		if ic.decr {
			// in a loop within another, the measure does not grow
			if ic := ic; len(ic.cl.fn.Params) == 0 {
				eval := func(st *State, fr *Frame) *Term { return v.evalPred(st, fr, ic.cl, nil) }
				if e := v.evalCand(st, fr, &cand{eval: eval}); e != nil && e.sort == s.IntS {
					add("measure", func(st *State, fr *Frame) *Term { return s.Le(eval(st, fr), e) })
				}
			}
			continue
		}
		for _, sel := range v.instances(ic.cl, fr, phis, order, outer) {
			ic, sel := ic, sel
			cs = append(cs, &cand{desc: "user" + pickNames(ic.cl, sel), user: true, eval: func(st *State, fr *Frame) *Term {
				return v.evalPred(st, fr, ic.cl, sel)
			}})
		}
	}
	return cs
}

type pick struct {
	val ssa.Value
	add int64
}

// instances matches the parameters of a candidate with loop values by type.
func (v *V) instances(c *Closure, fr *Frame, phis []*ssa.Phi, order, outer []ssa.Value) [][]pick {
	res := [][]pick{nil}
	for _, prm := range c.fn.Params {
		var opts []pick
		for _, p := range phis {
			if types.Identical(p.Type(), prm.Type()) {
				opts = append(opts, pick{p, 0})
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					opts = append(opts, pick{p, 1})
				}
			}
		}
		if len(opts) == 0 {
			for _, x := range order {
				if types.Identical(x.Type(), prm.Type()) {
					opts = append(opts, pick{x, 0})
				}
			}
		}
		if len(opts) == 0 {
			for _, x := range outer {
				if types.Identical(x.Type(), prm.Type()) {
					opts = append(opts, pick{x, 0})
				}
			}
		}
		if len(opts) == 0 {
			for _, x := range fr.fn.Params {
				if types.Identical(x.Type(), prm.Type()) {
					opts = append(opts, pick{x, 0})
				}
			}
		}
		var nr [][]pick
		for _, r := range res {
			for _, o := range opts {
				nr = append(nr, append(append([]pick(nil), r...), o))
			}
		}
		res = nr
		if len(res) > 200 {
			res = res[:200]
		}
	}
	return res
}

func (v *V) evalPred(st *State, fr *Frame, c *Closure, sel []pick) *Term {
	var args []Value
	for _, p := range sel {
		x := v.get(st, fr, p.val)
		if p.add != 0 {
			x = v.st.Add(v.term(st, x), v.st.Int(p.add))
		}
		args = append(args, x)
	}
	nf := v.newFrame(c.fn, nil, args, c.bind, -1)
	nf.spec = true
	v.mute++
	defer func() { v.mute-- }()
	b := st.clone()
	outs := v.pureMerge(b.clone(), v.execFrom(work{st: b, fr: nf, blk: c.fn.Blocks[0]}, nil), true)
	if len(outs) != 1 || outs[0].kind != oRet {
		return nil
	}
	return v.term(st, outs[0].vals[0])
}

func (v *V) decrTerms(st *State, fr *Frame, phis []*ssa.Phi) []*Term {
	var ts []*Term
	for _, ic := range st.invs {
		if !ic.decr {
			continue
		}
		for _, sel := range v.instances(ic.cl, fr, phis, nil, nil) {
			if t := v.evalCand(st, fr, &cand{eval: func(st *State, fr *Frame) *Term { return v.evalPred(st, fr, ic.cl, sel) }}); t != nil {
				ts = append(ts, t)
			}
		}
	}
	return ts
}

// cellCands proposes invariants for modified local cells and fields.
func (v *V) cellCands(st *State, fr *Frame, mods *WriteSet, have []*cand) []*cand {
	s := v.st
	var cs []*cand
	seen := map[string]bool{}
	for _, c := range have {
		seen[c.desc] = true
	}
	var ids []int
	for id := range mods.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		e, ok := st.cells[id].(*Term)
		d := "cell" + s.Int(int64(id)).k.String()
		if !ok || seen[d+"="] {
			continue
		}
		cs = append(cs, &cand{desc: d + "=", eval: func(st *State, fr *Frame) *Term {
			t, ok := st.cells[id].(*Term)
			if !ok {
				return nil
			}
			return s.Eq(e, t)
		}})
		if e.sort.IsData && e.sort.Name != "Slice" {
			for i := range e.sort.Fields {
				i := i
				cs = append(cs, &cand{desc: d + "." + e.sort.FNames[i] + "=", eval: func(st *State, fr *Frame) *Term {
					t, ok := st.cells[id].(*Term)
					if !ok || t.sort != e.sort {
						return nil
					}
					return s.Eq(s.Sel(e, i), s.Sel(t, i))
				}})
			}
		}
		if e.sort != s.IntS {
			continue
		}
		cs = append(cs, &cand{desc: d, eval: func(st *State, fr *Frame) *Term {
			t, ok := st.cells[id].(*Term)
			if !ok {
				return nil
			}
			return s.Le(e, t)
		}})
	}
	return cs
}

// mergeMods adds the writes of an iteration to the modification set.
func (v *V) mergeMods(est *State, mods, ws *WriteSet, stamp int) bool {
	s := v.st
	ch := false
	if ws.all && !mods.all {
		mods.all = true
		ch = true
	}
	if ws.world && !mods.world {
		mods.world = true
		ch = true
	}
	for c := range ws.cells {
		if _, ok := est.cells[c]; !ok {
			continue // allocated by the iteration
		}
		if !mods.cells[c] {
			if loopDebug {
				fmt.Fprintln(os.Stderr, "   writes cell", c)
			}
			mods.cells[c] = true
			ch = true
		}
	}
	for k, refs := range ws.heap {
		for r := range refs {
			if r != nil {
				if s.isNewRef(r) && r.born > stamp {
					continue
				}
				if r.born > stamp {
					r = nil
				}
			}
			if mods.heap[k][nil] {
				continue
			}
			if !mods.heap[k][r] {
				if loopDebug {
					fmt.Fprintln(os.Stderr, "   writes", k, r == nil)
				}
				mods.add(k, r)
				ch = true
			}
		}
	}
	return ch
}

func (v *V) addMods(ws, mods *WriteSet, stamp int) {
	for k, refs := range mods.heap {
		for r := range refs {
			if r == nil && !strings.HasPrefix(k, "G:") {
				// unknown reference of this key
				ws.add(k, v.st.Sym("anyref", v.st.IntS))
				continue
			}
			ws.add(k, r)
		}
	}
	for c := range mods.cells {
		ws.cells[c] = true
	}
	if mods.world {
		ws.world = true
	}
	if mods.all {
		ws.all = true
	}
}

// havocMods forgets what an iteration may change.
func (v *V) havocMods(st *State, mods *WriteSet, stamp int) {
	s := v.st
	if mods.all {
		v.havocHeap(st, nil)
	}
	var keys []string
	for k := range mods.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		refs := mods.heap[k]
		h := st.heap[k]
		if h == nil {
			h = v.anyHeap(st, k)
			if h == nil {
				continue
			}
		}
		if !h.sort.IsArr() || strings.HasPrefix(k, "G:") {
			st.setHeap(k, v.st.Sym("havoc", h.sort))
			continue
		}
		if refs[nil] {
			st.setHeap(k, s.Sym("havoc."+k, h.sort))
			continue
		}
		var rs []*Term
		for r := range refs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			h = s.StoreT(h, r, s.Sym("havoc."+k, h.sort.Elem))
		}
		st.setHeap(k, h)
	}
	var ids []int
	for id := range mods.cells {
		if _, ok := st.cells[id]; ok {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		switch x := st.cells[id].(type) {
		case *Term:
			if v.cellTypes[id] == nil {
				st.setCell(id, s.Sym("cell", x.sort))
				continue
			}
			st.setCell(id, v.fresh("cell", v.cellTypes[id]))
		case *Fwd:
		default:
			if _, ok := v.cellTypes[id]; ok {
				st.setCell(id, v.fresh("cell", v.cellTypes[id]))
			}
		}
	}
	if mods.world {
		st.world = s.Sym("world", s.WorldS)
	}
}

func (v *V) anyHeap(st *State, k string) *Term {
	for suffix, t := range v.initHeap {
		if i := strings.LastIndex(suffix, "@"); i >= 0 && suffix[:i] == k {
			if t.sort.IsArr() {
				return v.heapGet(st, k, t.sort.Elem)
			}
			return t
		}
	}
	return nil
}

var loopDebug = os.Getenv("GOCV_LOOP") != ""

func pickNames(c *Closure, sel []pick) string {
	r := " " + c.fn.Name() + "("
	for i, p := range sel {
		if i > 0 {
			r += ", "
		}
		n := p.val.Name()
		if ph, ok := p.val.(*ssa.Phi); ok {
			n = phiName(ph)
		}
		r += n
		if p.add != 0 {
			r += "+1"
		}
	}
	return r + ")"
}

// counter reports whether p changes in an iteration only by adding small
// constants once.
func counter(p *ssa.Phi, l *loopT, q *ssa.Phi, seen map[*ssa.Phi]bool) bool {
	if lo, _, ok := intRange(p.Type()); !ok || lo.BitLen() < 60 {
		return false
	}
	seen[q] = true
	for i, e := range q.Edges {
		if !l.body[q.Block().Preds[i]] {
			if p == q {
				continue
			}
			return false
		}
		if e == ssa.Value(p) {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && b.Op.String() == "+" && b.X == ssa.Value(p) {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 && c.Int64() <= 16 {
				continue
			}
		}
		if r, ok := e.(*ssa.Phi); ok && l.body[r.Block()] && (seen[r] || counter(p, l, r, seen)) {
			continue
		}
		return false
	}
	return true
}
