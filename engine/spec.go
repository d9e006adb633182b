package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type readKey struct {
	key  string
	elem *Sort
}

// recursive reports whether a specification function can call itself.
func (v *V) recursive(fn *ssa.Function) bool {
	if r, ok := v.recMemo[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil || !v.p.isSpecFile(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if g == fn {
							found = true
						}
						dfs(g)
					}
				}
			}
		}
	}
	dfs(fn)
	v.recMemo[fn] = found
	return found
}

// readKeys lists the heap maps a recursive specification function reads.
func (v *V) readKeys(fn *ssa.Function) []readKey {
	if r, ok := v.readMemo[fn]; ok {
		return r
	}
	m := map[string]*Sort{}
	seen := map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	var addStruct func(T types.Type)
	addStruct = func(T types.Type) {
		u := structOf(T)
		for i := 0; i < u.NumFields(); i++ {
			if structOf(u.Field(i).Type()) != nil {
				addStruct(u.Field(i).Type())
				continue
			}
			m[fieldKey(T, i)] = v.sortOf(u.Field(i).Type())
		}
	}
	dfs = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.UnOp:
					if i.Op != token.MUL {
						continue
					}
					T := i.Type()
					switch a := i.X.(type) {
					case *ssa.FieldAddr:
						PT := a.X.Type().Underlying().(*types.Pointer).Elem()
						if structOf(T) != nil {
							addStruct(T)
						} else if !localBase(a.X) {
							m[fieldKey(PT, a.Field)] = v.sortOf(T)
						}
					case *ssa.IndexAddr:
						if !paramSlice(a.X, map[ssa.Value]bool{}) {
							if sl, ok := a.X.Type().Underlying().(*types.Slice); ok {
								m[elemKey(sl.Elem())] = v.st.arr(v.st.IntS, v.sortOf(sl.Elem()))
							}
						}
					case *ssa.Global:
						if structOf(T) == nil {
							m["G:"+a.Pkg.Pkg.Path()+"."+a.Name()] = nil
						}
					case *ssa.Alloc:
					default:
						if structOf(T) != nil {
							addStruct(T)
						} else {
							m[cellKey(T)] = v.sortOf(T)
						}
					}
				case *ssa.Lookup:
					if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
						_ = mt
						m[mapKey(i.X.Type())] = v.mapSort(i.X.Type())
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						dfs(g)
					}
				}
			}
		}
	}
	dfs(fn)
	var ks []readKey
	for k, e := range m {
		if e == nil {
			continue
		}
		ks = append(ks, readKey{k, e})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	v.readMemo[fn] = ks
	return ks
}

func localBase(x ssa.Value) bool {
	switch a := x.(type) {
	case *ssa.Alloc:
		return !a.Heap
	case *ssa.FieldAddr:
		return localBase(a.X)
	}
	return false
}

func paramSlice(x ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	switch a := x.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Slice:
		return paramSlice(a.X, seen)
	case *ssa.Phi:
		for _, e := range a.Edges {
			if !paramSlice(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// specApp is the application term of a recursive specification function.
func (v *V) specApp(st *State, fn *ssa.Function, args []Value) []Value {
	s := v.st
	var as []*Term
	vals := make([]Value, len(args))
	for i, a := range args {
		T := fn.Params[i].Type()
		if sl, ok := T.Underlying().(*types.Slice); ok {
			row, off, ln := v.rowArg(st, a, sl.Elem())
			row = v.shiftRow(row, off)
			vals[i] = &RowSlice{row: row, off: s.Int(0), ln: ln, elem: sl.Elem()}
			as = append(as, row, ln)
			continue
		}
		t := v.term(st, a)
		vals[i] = t
		as = append(as, t)
	}
	for _, k := range v.readKeys(fn) {
		as = append(as, v.heapGet(st, k.key, k.elem))
	}
	var out []Value
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := s.App(fmt.Sprintf("spec.%s.%d", cleanName(fn.String()), i), v.sortOf(rs.At(i).Type()), as...)
		if v.appMeta[t] == nil && !v.opaque(fn) {
			v.appMeta[t] = &appMeta{fn: fn, args: vals, st: st.clone(), res: i}
		}
		out = append(out, t)
	}
	return out
}

// opaque: a spec function whose definition this contract does not need.
func (v *V) opaque(fn *ssa.Function) bool {
	o := v.sf.Opts["opaque"]
	return o != "" && strings.Contains(","+o+",", ","+fn.Name()+",")
}

// unfoldApp gives the defining equation of an application.
func (v *V) unfoldApp(t *Term) []*Term {
	m := v.appMeta[t]
	if m == nil {
		return nil
	}
	if f, ok := v.unfolded[t]; ok {
		return f
	}
	v.unfolded[t] = nil
	st := m.st.clone()
	st.pc = nil
	st.writes = nil
	fr := v.newFrame(m.fn, nil, m.args, nil, -1)
	fr.spec = true
	v.mute++
	defer func() { v.mute-- }()
	base := st.clone()
	outs := v.pureMerge(base, v.execFrom(work{st: st, fr: fr, blk: m.fn.Blocks[0]}, nil), true)
	if len(outs) != 1 || outs[0].kind != oRet {
		panic(unsupported("specification function " + m.fn.String() + " is not mergeable"))
	}
	r := v.term(st, outs[0].vals[m.res])
	f := []*Term{v.st.Eq(t, r)}
	v.unfolded[t] = f
	return f
}

// ---- package initialisation

// runInits executes the package initialisers of the module packages the
// contract can see, tolerating what cannot be executed.
func (v *V) runInits(st *State, root *ssa.Package) {
	v.inInit = true
	v.mute++
	defer func() { v.inInit = false; v.mute-- }()
	// globals written outside initialisers hold arbitrary values
	for k := range v.p.mutGlobals() {
		v.mutGlob[k] = true
	}
	done := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if done[tp] {
			return
		}
		done[tp] = true
		for _, im := range tp.Imports() {
			visit(im)
		}
		if !strings.HasPrefix(tp.Path(), v.p.module) {
			return
		}
		sp := v.p.SSA.Package(tp)
		if sp == nil {
			return
		}
		if fn := sp.Func("init"); fn != nil && fn.Blocks != nil {
			v.tolerantRun(st, fn)
		}
	}
	if v.sf.Opts["init"] != "no" { // else: variables hold anything
		visit(root.Pkg)
	}
	for k := range v.mutGlob {
		if t := st.heap[k]; t != nil {
			st.setHeap(k, v.st.mk(&Term{op: OSym, name: "mut." + k, sort: t.sort}))
		}
	}
	st.newrefs = nil
	st.refKeys = v.refKeys
	st.pc = nil
}

// mutGlobals finds globals assigned outside initialisers.
func (p *Program) mutGlobals() map[string]bool {
	p.mutOnce.Do(func() {
		m := map[string]bool{}
		var scan func(fn *ssa.Function, init bool)
		scan = func(fn *ssa.Function, init bool) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && !init {
							// a contract sets up a variable of the code
							if p.isSpecFile(fn) && !strings.Contains(filepath.Base(p.Fset.Position(g.Pos()).Filename), "zz_verif") {
								continue
							}
							m["G:"+g.Pkg.Pkg.Path()+"."+g.Name()] = true
						}
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				scan(a, false)
			}
		}
		for _, sp := range p.Pkgs {
			for _, mem := range sp.Members {
				switch x := mem.(type) {
				case *ssa.Function:
					scan(x, x.Name() == "init" || strings.HasPrefix(x.Name(), "init#"))
				case *ssa.Type:
					for _, T := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
						ms := p.SSA.MethodSets.MethodSet(T)
						for i := 0; i < ms.Len(); i++ {
							if f := p.SSA.MethodValue(ms.At(i)); f != nil {
								scan(f, false)
							}
						}
					}
				}
			}
		}
		p.mutG = m
	})
	return p.mutG
}

func (v *V) tolerantRun(st *State, fn *ssa.Function) {
	fr := v.newFrame(fn, nil, nil, nil, -1)
	// straight-line: the guard block, then the body
	blk := fn.Blocks[0]
	if len(fn.Blocks) > 1 {
		blk = fn.Blocks[1]
	}
	seen := map[*ssa.BasicBlock]bool{}
	for blk != nil && !seen[blk] {
		seen[blk] = true
		var next *ssa.BasicBlock
		for ip, ins := range blk.Instrs {
			switch i := ins.(type) {
			case *ssa.Jump:
				next = blk.Succs[0]
				continue
			case *ssa.Return:
				return
			case *ssa.If:
				return // not straight-line: stop
			case *ssa.Call:
				if g := i.Call.StaticCallee(); g != nil && g.Name() == "init" && g.Pkg != fn.Pkg {
					continue
				}
			}
			v.tolerantStep(st, fr, blk, ip)
		}
		blk = next
	}
}

func (v *V) tolerantStep(st *State, fr *Frame, blk *ssa.BasicBlock, ip int) {
	mute := v.mute
	defer func() {
		v.mute = mute
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok && os.Getenv("GOCV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init:", fr.fn, blk.Instrs[ip], u)
			} else if !ok {
				panic(r)
			}
		}
	}()
	ins := blk.Instrs[ip]
	if c, ok := ins.(*ssa.Call); ok {
		var args []Value
		for _, a := range c.Call.Args {
			args = append(args, v.get(st, fr, a))
		}
		tmp := st.clone()
		outs := v.call(tmp, fr, &c.Call, v.get(tmp, fr, c.Call.Value), args, -1, "init")
		if len(outs) != 1 || outs[0].kind != oRet {
			return
		}
		*st = *outs[0].st
		st.heapOwn, st.cellOwn = false, false
		switch len(outs[0].vals) {
		case 0:
		case 1:
			fr.env[c] = outs[0].vals[0]
		default:
			fr.env[c] = Tuple(outs[0].vals)
		}
		return
	}
	w := work{st: st, fr: fr, blk: &ssa.BasicBlock{Instrs: []ssa.Instruction{ins, stopIns}}, ip: 0, started: true}
	var q []work
	var outs []Outcome
	v.step(&w, &q, &outs)
}

var stopIns = &ssa.Return{}
