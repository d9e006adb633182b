package main

import (
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Value is a *Term or one of the Go-side value kinds below.
type Value interface{}

// Tuple is a multi-value result.
type Tuple []Value

// Closure is a known function value.
type Closure struct {
	fn   *ssa.Function
	bind []Value
}

// RowSlice is a slice by content (specification functions only).
type RowSlice struct {
	row, off, ln *Term
	elem         types.Type
}

// LocKind says what a Loc points to.
type LocKind int

// Location kinds.
const (
	LCell LocKind = iota
	LField
	LElem
	LGlobal
	LRow
)

// Loc is a pointer whose target is known.
type Loc struct {
	kind     LocKind
	cell     int
	key      string
	ref, idx *Term // field: ref; elem: ref + idx; row: ref is the row
	path     []PathElem
	root     types.Type // type of the root object
	typ      types.Type // type of the pointee
}

// PathElem is a step inside a value.
type PathElem struct {
	field int
	idx   *Term
}

// Fwd replaces a cell whose address escaped to the heap.
type Fwd struct {
	ref *Term
	typ types.Type
}

// mapIter iterates a map.
type mapIter struct {
	m  *Term
	kt types.Type
	vt types.Type
	mt types.Type

	cell int   // the keys that have been visited
	row  *Term // the map when the iteration began
}

// strIter iterates a string.
type strIter struct {
	s    *Term
	cell int
}

// PC is the path condition.
type PC struct {
	t    *Term
	prev *PC
	n    int
}

type deferred struct {
	fn   Value // *Closure or method spec
	call *ssa.CallCommon
	args []Value
	recv Value
}

// Frame is an activation record.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	spec   bool      // specification code: mathematical, no runtime checks
	ctx    *lemmaCtx // contract this frame belongs to (harness code only)
	up     *lemmaCtx // contract that called this helper
	panIdx int       // index into State.pan recoverable here, or -1
	caller *Frame
	depth  int
	unroll map[*ssa.BasicBlock]int
}

func (f *Frame) clone() *Frame {
	c := *f
	c.env = make(map[ssa.Value]Value, len(f.env)+4)
	for k, x := range f.env {
		c.env[k] = x
	}
	c.defers = f.defers[:len(f.defers):len(f.defers)]
	if f.unroll != nil {
		c.unroll = map[*ssa.BasicBlock]int{}
		for k, x := range f.unroll {
			c.unroll[k] = x
		}
	}
	return &c
}

type lemmaCtx struct {
	sf       *SpecFunc
	use      bool
	target   *ssa.Function
	mods     []*Loc
	modRows  []*Term
	modAll   bool
	mayPanic bool
	inSubj   bool
	where    string
}

type panicRec struct {
	val *Term
	rec bool
}

// invariant candidate
type invCand struct {
	cl   *Closure
	decr bool
}

// State is one symbolic execution path.
type State struct {
	heap     map[string]*Term
	heapOwn  bool
	cells    map[int]Value
	cellOwn  bool
	escCells map[int]bool
	pc       *PC
	world    *Term
	invs     []invCand
	writes   []*WriteSet
	newrefs  []*Term
	reqs     int                       // preconditions stated so far
	splits   int                       // case distinctions passed
	refKeys  map[string]map[*Term]bool // rows ever written, by heap key
	pan      []panicRec
	trace    []string
	epoch    int
	dead     bool
}

// WriteSet records heap writes.
type WriteSet struct {
	heap  map[string]map[*Term]bool // key -> refs written (nil ref = whole key)
	cells map[int]bool
	world bool
	all   bool
}

func newWriteSet() *WriteSet {
	return &WriteSet{heap: map[string]map[*Term]bool{}, cells: map[int]bool{}}
}

func (w *WriteSet) add(key string, ref *Term) {
	m := w.heap[key]
	if m == nil {
		m = map[*Term]bool{}
		w.heap[key] = m
	}
	m[ref] = true
}

func (st *State) clone() *State {
	n := *st
	st.heapOwn, n.heapOwn = false, false
	st.cellOwn, n.cellOwn = false, false
	n.writes = st.writes[:len(st.writes):len(st.writes)]
	n.invs = st.invs[:len(st.invs):len(st.invs)]
	n.newrefs = st.newrefs[:len(st.newrefs):len(st.newrefs)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.pan = append([]panicRec(nil), st.pan...)
	return &n
}

func (st *State) setHeap(k string, t *Term) {
	if !st.heapOwn {
		m := make(map[string]*Term, len(st.heap)+4)
		for a, b := range st.heap {
			m[a] = b
		}
		st.heap = m
		st.heapOwn = true
	}
	st.heap[k] = t
	if st.refKeys != nil && t.op == OStore && t.args[1].op == OInt {
		m := st.refKeys[k]
		if m == nil {
			m = map[*Term]bool{}
			st.refKeys[k] = m
		}
		m[t.args[1]] = true
	}
}

func (st *State) ownCells() {
	if !st.cellOwn {
		m := make(map[int]Value, len(st.cells)+4)
		for a, b := range st.cells {
			m[a] = b
		}
		st.cells = m
		e := map[int]bool{}
		for k := range st.escCells {
			e[k] = true
		}
		st.escCells = e
		st.cellOwn = true
	}
}

func (st *State) setCell(id int, x Value) {
	st.ownCells()
	st.cells[id] = x
}

func (st *State) assume(t *Term) {
	if t.op == OTrue {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.t == t {
			return
		}
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &PC{t, st.pc, n + 1}
}

func (st *State) pcTerms() []*Term {
	var ts []*Term
	for p := st.pc; p != nil; p = p.prev {
		ts = append(ts, p.t)
	}
	for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
		ts[i], ts[j] = ts[j], ts[i]
	}
	return ts
}

// Obl is a generated proof obligation.
type Obl struct {
	Contract string
	Label    string
	Kind     string // ensures, requires, safety, invariant, frame, termination, reach
	Path     int
	Result   string // discharged, failed, unknown
	Solver   string
	Ms       float64
	Detail   string
	Model    string
	Props    []string
	Script   string
}

// V verifies one contract.
type V struct {
	seqRels     map[*Term]*seqRel
	seqInst     map[seqKey]*Term
	machine     bool          // the arithmetic of the contract itself is that of the machine
	failSpent   time.Duration // on obligations that were not discharged
	p           *Program
	st          *Store
	sv          *Solver
	structSorts map[string]*Sort
	typeIDs     map[string]int
	idTypes     []types.Type
	typed       map[*Term]bool
	lits        map[*Term]string
	litDone     map[*Term]bool
	initHeap    map[string]*Term
	refKeys     map[string]map[*Term]bool
	funcs       map[*Term]*Closure
	thunks      map[string]*ssa.Function
	iters       []*mapIter
	mapKeys     map[string][]*Term
	fnRefs      map[*ssa.Function]*Term
	globRefs    map[string]*Term
	cellTypes   map[int]types.Type
	nCells      int
	sf          *SpecFunc
	prop        string
	obls        []*Obl
	mute        int
	assum       map[string]bool
	inlined     map[string]bool
	lemUsed     map[string]bool
	caseNo      int             // which case of the contract
	noLemma     map[string]bool // demoted
	ended       int
	labels      map[string]bool
	deadline    time.Time
	loopMemo    map[*ssa.Function]*loopInfo
	appMeta     map[*Term]*appMeta
	unfolded    map[*Term][]*Term
	readMemo    map[*ssa.Function][]readKey
	recMemo     map[*ssa.Function]bool
	pdomMemo    map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	implApps    map[string]types.Type
	epochs      int
	steps       int
	debug       bool
	mutGlob     map[string]bool
	inInit      bool
	stopIf      bool
	loops       int
	outcomes    int
	feasQ       int
	vac         map[string]bool
	entryStamp  int
}

type appMeta struct {
	fn   *ssa.Function
	args []Value
	st   *State
	res  int
}

func newV(p *Program, sf *SpecFunc, prop string) *V {
	st := newStore()
	v := &V{p: p, st: st, sv: newSolver(st), structSorts: map[string]*Sort{}, typeIDs: map[string]int{},
		typed: map[*Term]bool{}, lits: map[*Term]string{}, litDone: map[*Term]bool{}, initHeap: map[string]*Term{}, refKeys: map[string]map[*Term]bool{},
		funcs: map[*Term]*Closure{}, fnRefs: map[*ssa.Function]*Term{}, globRefs: map[string]*Term{}, cellTypes: map[int]types.Type{},
		sf: sf, prop: prop, assum: map[string]bool{}, inlined: map[string]bool{}, lemUsed: map[string]bool{},
		labels: map[string]bool{}, loopMemo: map[*ssa.Function]*loopInfo{},
		appMeta: map[*Term]*appMeta{}, unfolded: map[*Term][]*Term{}, readMemo: map[*ssa.Function][]readKey{},
		implApps: map[string]types.Type{}, noLemma: map[string]bool{}, recMemo: map[*ssa.Function]bool{},
		pdomMemo: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, mutGlob: map[string]bool{}, vac: map[string]bool{}}
	v.sv.unfold = v.unfoldApp
	v.sv.extra = v.extraFacts
	return v
}

// heapGet reads the current term of a heap map.
func (v *V) heapGet(st *State, key string, elem *Sort) *Term {
	if t := st.heap[key]; t != nil {
		return t
	}
	e := st.epoch
	if v.p.Immut[key] {
		e = 0
	}
	k := fmt.Sprintf("%s@%d", key, e)
	t := v.initHeap[k]
	if t == nil {
		t = v.st.mk(&Term{op: OSym, name: "H." + k, sort: v.st.arr(v.st.IntS, elem), born: e})
		v.initHeap[k] = t
	}
	return t
}

func (v *V) noteWrite(st *State, key string, ref *Term) {
	for _, w := range st.writes {
		w.add(key, ref)
	}
}

func (v *V) newObj(st *State) *Term {
	r := v.st.NewRef()
	st.newrefs = append(st.newrefs, r)
	return r
}

func (v *V) newCell(st *State, t types.Type, x Value) int {
	v.nCells++
	st.setCell(v.nCells, x)
	v.cellTypes[v.nCells] = t
	return v.nCells
}

func (v *V) assumption(s string) { v.assum[s] = true }

func fieldKey(T types.Type, i int) string {
	return "F:" + shortKey(T) + "." + structOf(T).Field(i).Name()
}

func elemKey(T types.Type) string { return "E:" + shortKey(T) }
func cellKey(T types.Type) string { return "C:" + shortKey(T) }

// subRef is the reference of an embedded struct.
func (v *V) subRef(ref *Term, T types.Type, i int) *Term {
	f := structOf(T).Field(i)
	if ref.op == OIte {
		return v.st.Ite(ref.args[0], v.subRef(ref.args[1], T, i), v.subRef(ref.args[2], T, i))
	}
	name := "sub." + cleanName(shortKey(T)) + "." + f.Name()
	t := v.st.App(name, v.st.IntS, ref)
	if !v.typed[t] {
		v.typed[t] = true
		inv := v.st.App("un"+name, v.st.IntS, t)
		v.st.AddFact(t, v.st.Eq(inv, ref))
		// negative, so distinct from any ordinary reference
		v.st.AddFact(t, v.st.Lt(t, v.st.Int(0)))
		v.st.AddFact(t, v.st.Lt(v.st.Big(refBase), t))
	}
	return t
}

// loadRef loads a value of type T stored at reference ref.
func (v *V) loadRef(st *State, ref *Term, T types.Type) *Term {
	if u := structOf(T); u != nil {
		so := v.sortOf(T)
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = v.loadField(st, ref, T, i)
		}
		return v.st.Cons(so, as...)
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		return v.st.Select(v.heapGet(st, elemKey(a.Elem()), v.sortOf(T)), ref)
	}
	k := cellKey(T)
	t := v.st.Select(v.heapGet(st, k, v.sortOf(T)), ref)
	v.typeFacts(T, t)
	return t
}

func (v *V) loadField(st *State, ref *Term, T types.Type, i int) *Term {
	f := structOf(T).Field(i)
	if structOf(f.Type()) != nil {
		return v.loadRef(st, v.subRef(ref, T, i), f.Type())
	}
	t := v.st.Select(v.heapGet(st, fieldKey(T, i), v.sortOf(f.Type())), ref)
	v.typeFactsDeep(f.Type(), t)
	return t
}

// typeFactsDeep attaches facts below ites.
func (v *V) typeFactsDeep(T types.Type, t *Term) {
	if t.op == OIte {
		v.typeFactsDeep(T, t.args[1])
		v.typeFactsDeep(T, t.args[2])
		return
	}
	v.typeFacts(T, t)
}

func (v *V) storeRef(st *State, ref *Term, T types.Type, x *Term) {
	if u := structOf(T); u != nil {
		for i := 0; i < u.NumFields(); i++ {
			v.storeField(st, ref, T, i, v.st.Sel(x, i))
		}
		return
	}
	k := cellKey(T)
	so := v.sortOf(T)
	if a, ok := T.Underlying().(*types.Array); ok {
		k = elemKey(a.Elem())
	}
	v.noteWrite(st, k, ref)
	st.setHeap(k, v.st.StoreT(v.heapGet(st, k, so), ref, x))
}

func (v *V) storeField(st *State, ref *Term, T types.Type, i int, x *Term) {
	f := structOf(T).Field(i)
	if structOf(f.Type()) != nil {
		v.storeRef(st, v.subRef(ref, T, i), f.Type(), x)
		return
	}
	k := fieldKey(T, i)
	v.noteWrite(st, k, ref)
	st.setHeap(k, v.st.StoreT(v.heapGet(st, k, v.sortOf(f.Type())), ref, x))
}

// project follows a path inside a value.
func (v *V) project(x Value, path []PathElem) Value {
	for _, p := range path {
		t, ok := x.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("projection of %T", x)))
		}
		if p.idx != nil {
			x = v.st.Select(t, p.idx)
		} else {
			x = v.st.Sel(t, p.field)
		}
	}
	return x
}

func (v *V) update(x *Term, path []PathElem, y *Term) *Term {
	if len(path) == 0 {
		return y
	}
	p := path[0]
	if p.idx != nil {
		return v.st.StoreT(x, p.idx, v.update(v.st.Select(x, p.idx), path[1:], y))
	}
	return v.st.With(x, p.field, v.update(v.st.Sel(x, p.field), path[1:], y))
}

// globalRef is the reference of a struct-typed global.
func (v *V) globalRef(name string) *Term {
	if t := v.globRefs[name]; t != nil {
		return t
	}
	t := v.st.NewRef()
	// globals exist from the start
	t.born = 0
	v.globRefs[name] = t
	return t
}
