package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var rtMu sync.Mutex

// ---- constants and operands

func (v *V) constVal(c *ssa.Const) Value {
	st := v.st
	t := c.Type()
	if c.Value == nil {
		if isNilType(t) {
			return st.Int(0)
		}
		return v.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return st.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return v.strLit(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		k, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return st.Big(k)
	case b.Info()&types.IsFloat != 0:
		return v.fltConst(c.Value)
	case b.Info()&types.IsComplex != 0:
		return st.App("cpxlit."+c.Value.ExactString(), st.CpxS)
	}
	panic(unsupported("constant " + c.String()))
}

func (v *V) fltConst(cv constant.Value) *Term {
	if i := constant.ToInt(cv); i.Kind() == constant.Int {
		k, _ := new(big.Int).SetString(i.ExactString(), 10)
		return v.i2f(v.st.Big(k))
	}
	t := v.fltLit(cv.ExactString())
	if !v.typed[t] {
		v.typed[t] = true
		f, _ := constant.Float64Val(cv)
		v.fltFacts(t, f)
	}
	return t
}

func (v *V) i2f(x *Term) *Term {
	t := v.st.App("i2f", v.st.FltS, x)
	if !v.typed[t] {
		v.typed[t] = true
		if x.op == OInt {
			f, _ := new(big.Float).SetInt(x.k).Float64()
			v.fltFacts(t, f)
		} else {
			v.st.AddFact(t, v.st.Not(v.fnan(t)))
		}
	}
	return t
}

// floats are ordered by their rank (the usual embedding of the finitely many
// float64 values in the integers), NaN aside.
func (v *V) fltFacts(t *Term, f float64) {
	v.st.AddFact(t, v.st.Not(v.fnan(t)))
	v.st.AddFact(t, v.st.Eq(v.frank(t), v.st.Int(fltRank(f))))
}

func fltRank(f float64) int64 {
	b := math.Float64bits(f)
	if b>>63 == 0 {
		return int64(b)
	}
	return -int64(b &^ (1 << 63))
}

func (v *V) fnan(t *Term) *Term  { return v.st.App("fnan", v.st.BoolS, t) }
func (v *V) frank(t *Term) *Term { return v.st.App("frank", v.st.IntS, t) }

func (v *V) fcmp(x, y *Term, rel func(a, b *Term) *Term) *Term {
	s := v.st
	return s.And(s.Not(v.fnan(x)), s.Not(v.fnan(y)), rel(v.frank(x), v.frank(y)))
}

func isNilType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// get evaluates an SSA operand.
func (v *V) get(st *State, fr *Frame, x ssa.Value) Value {
	switch y := x.(type) {
	case *ssa.Const:
		return v.constVal(y)
	case *ssa.Function:
		return &Closure{fn: y}
	case *ssa.Global:
		return v.globalLoc(y)
	case *ssa.Builtin:
		return y
	}
	r, ok := fr.env[x]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s undefined in %s", x.Name(), fr.fn)))
	}
	return r
}

func (v *V) globalLoc(g *ssa.Global) Value {
	T := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if structOf(T) != nil {
		return v.globalRef(name)
	}
	if _, ok := T.Underlying().(*types.Array); ok {
		return v.globalRef(name)
	}
	return &Loc{kind: LGlobal, key: "G:" + name, root: T, typ: T}
}

// term converts a value to a term; addresses escape to the heap.
func (v *V) term(st *State, x Value) *Term {
	switch y := x.(type) {
	case *Term:
		return y
	case *Closure:
		return v.funcRef(st, y)
	case *Loc:
		return v.escape(st, y)
	case *RowSlice:
		// materialise: a fresh object with that content
		r := v.newObj(st)
		k := elemKey(y.elem)
		so := v.st.arr(v.st.IntS, v.sortOf(y.elem))
		st.setHeap(k, v.st.StoreT(v.heapGet(st, k, so), r, y.row))
		return v.st.Cons(v.st.SliceS, r, y.off, y.ln, y.ln)
	case *Fwd:
		return y.ref
	}
	panic(unsupported(fmt.Sprintf("value of kind %T as a term", x)))
}

func (v *V) funcRef(st *State, c *Closure) *Term {
	if len(c.bind) == 0 {
		if c.fn.Synthetic != "" && strings.HasSuffix(c.fn.Name(), "$thunk") {
			// every use of a method expression makes its own thunk
			k := c.fn.String()
			if v.thunks == nil {
				v.thunks = map[string]*ssa.Function{}
			}
			if v.thunks[k] == nil {
				v.thunks[k] = c.fn
			}
			c = &Closure{fn: v.thunks[k]}
		}
		if t := v.fnRefs[c.fn]; t != nil {
			return t
		}
		t := v.st.NewRef()
		t.born = 0
		v.fnRefs[c.fn] = t
		v.funcs[t] = c
		return t
	}
	for t, d := range v.funcs {
		if d == c {
			v.escapeBinds(st, c)
			return t
		}
	}
	t := v.newObj(st)
	v.funcs[t] = c
	v.escapeBinds(st, c)
	return t
}

func (v *V) escapeBinds(st *State, c *Closure) {
	for _, b := range c.bind {
		if l, ok := b.(*Loc); ok && l.kind == LCell && !st.escCells[l.cell] {
			st.ownCells()
			st.escCells[l.cell] = true
			if d, ok := st.cells[l.cell].(*Closure); ok {
				v.escapeBinds(st, d)
			}
		}
		if d, ok := b.(*Closure); ok {
			v.escapeBinds(st, d)
		}
	}
}

func (v *V) escape(st *State, l *Loc) *Term {
	if l.kind == LCell && len(l.path) == 0 {
		cur := st.cells[l.cell]
		if f, ok := cur.(*Fwd); ok {
			return f.ref
		}
		T := v.cellTypes[l.cell]
		r := v.newObj(st)
		v.storeRef(st, r, T, v.term(st, cur))
		st.setCell(l.cell, &Fwd{r, T})
		return r
	}
	if l.kind == LGlobal && len(l.path) == 0 {
		panic(unsupported("address of global " + l.key + " escapes"))
	}
	if l.kind == LField && len(l.path) == 0 {
		// an interior pointer: a reference whose cell aliases a field is
		// not represented
		panic(unsupported("address of field " + l.key + " escapes"))
	}
	panic(unsupported("interior address escapes"))
}

// ---- loads and stores

func (v *V) load(st *State, p Value, T types.Type) Value {
	switch l := p.(type) {
	case *Term:
		if l.op == OIte && structOf(T) == nil {
			return v.st.Ite(l.args[0], v.term(st, v.load(st, l.args[1], T)), v.term(st, v.load(st, l.args[2], T)))
		}
		return v.loadRef(st, l, T)
	case *Loc:
		switch l.kind {
		case LCell:
			cur := st.cells[l.cell]
			if f, ok := cur.(*Fwd); ok {
				return v.loadFwd(st, f, l)
			}
			return v.project(cur, l.path)
		case LField:
			h := v.heapGet(st, l.key, v.sortOf(l.root))
			x := v.st.Select(h, l.ref)
			v.typeFactsDeep(l.root, x)
			r := v.project(x, l.path)
			if t, ok := r.(*Term); ok {
				v.typeFactsDeep(T, t)
			}
			return r
		case LElem:
			h := v.heapGet(st, l.key, v.st.arr(v.st.IntS, v.sortOf(l.root)))
			x := v.rowAt(v.st.Select(h, l.ref), l.idx, l.root)
			r := v.project(x, l.path)
			if t, ok := r.(*Term); ok {
				v.typeFactsDeep(T, t)
			}
			return r
		case LRow:
			x := v.rowAt(l.ref, l.idx, l.root)
			r := v.project(x, l.path)
			if t, ok := r.(*Term); ok {
				v.typeFactsDeep(T, t)
			}
			return r
		case LGlobal:
			return v.project(v.loadGlobal(st, l), l.path)
		}
	case *Closure:
		panic(unsupported("load through a function"))
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (v *V) loadFwd(st *State, f *Fwd, l *Loc) Value {
	if len(l.path) == 0 {
		return v.loadRef(st, f.ref, f.typ)
	}
	if structOf(f.typ) != nil && l.path[0].idx == nil {
		return v.project(v.loadField(st, f.ref, f.typ, l.path[0].field), l.path[1:])
	}
	return v.project(v.loadRef(st, f.ref, f.typ), l.path)
}

// rowAt reads row[i], seeing through content operators.
func (v *V) rowAt(row, i *Term, T types.Type) *Term {
	st := v.st
	switch row.op {
	case OStore:
		if row.args[1] == i {
			return row.args[2]
		}
		if st.diseq(row.args[1], i) {
			return v.rowAt(row.args[0], i, T)
		}
		if specialRow(row.args[0]) {
			return st.Ite(st.Eq(row.args[1], i), row.args[2], v.rowAt(row.args[0], i, T))
		}
	case OIte:
		return st.Ite(row.args[0], v.rowAt(row.args[1], i, T), v.rowAt(row.args[2], i, T))
	case OApp:
		switch row.name {
		case "sbytes":
			return v.sat(row.args[0], i)
		}
		if strings.HasPrefix(row.name, "shiftrow.") {
			return v.rowAt(row.args[0], st.Add(row.args[1], i), T)
		}
		if strings.HasPrefix(row.name, "catrow.") { // base, a, n2, row2, off2
			a, n2 := row.args[1], row.args[2]
			return st.Ite(st.Lt(i, a), v.rowAt(row.args[0], i, T),
				st.Ite(st.Lt(i, st.Add(a, n2)), v.rowAt(row.args[3], st.Sub(st.Add(row.args[4], i), a), T), v.rowAt(row.args[0], i, T)))
		}
	}
	x := st.Select(row, i)
	v.typeFactsDeep(T, x)
	return x
}

// specialRow: the row is built from content operators the solver does not
// interpret.
func specialRow(row *Term) bool {
	for row.op == OStore {
		row = row.args[0]
	}
	if row.op == OIte {
		return specialRow(row.args[1]) || specialRow(row.args[2])
	}
	return row.op == OApp && (row.name == "sbytes" || strings.HasPrefix(row.name, "shiftrow.") || strings.HasPrefix(row.name, "catrow."))
}

func (v *V) shiftRow(row, off *Term) *Term {
	if row.op == OApp && strings.HasPrefix(row.name, "shiftrow.") {
		return v.shiftRow(row.args[0], v.st.Add(row.args[1], off))
	}
	if off.op == OInt && off.k.Sign() == 0 {
		return row
	}
	return v.st.App("shiftrow."+cleanName(row.sort.Name), row.sort, row, off)
}

func (v *V) catRow(base, a, n2, row2, off2 *Term) *Term {
	if n2.op == OInt && n2.k.Sign() == 0 {
		return base
	}
	if n2.op == OInt && n2.k.IsInt64() && n2.k.Int64() <= 16 {
		r := base
		for i := int64(0); i < n2.k.Int64(); i++ {
			r = v.st.StoreT(r, v.st.Add(a, v.st.Int(i)), v.rowAtRaw(row2, v.st.Add(off2, v.st.Int(i))))
		}
		return r
	}
	return v.st.App("catrow."+cleanName(base.sort.Name), base.sort, base, a, n2, row2, off2)
}

func (v *V) rowAtRaw(row, i *Term) *Term {
	if specialRow(row) {
		return v.rowAt(row, i, types.Typ[types.Bool])
	}
	return v.st.Select(row, i)
}

func (v *V) loadGlobal(st *State, l *Loc) Value {
	so := v.sortOf(l.root)
	if t := st.heap[l.key]; t != nil {
		return t
	}
	e := st.epoch
	if !v.mutGlob[l.key] || v.p.Immut[l.key] {
		e = 0 // no abstract code changes it
	}
	k := fmt.Sprintf("%s@%d", l.key, e)
	t := v.initHeap[k]
	if t == nil {
		t = v.st.mk(&Term{op: OSym, name: "init." + k, sort: so, born: e})
		v.typeFacts(l.root, t)
		v.initHeap[k] = t
	}
	return t
}

func (v *V) storeLoc(st *State, p Value, T types.Type, x Value) {
	switch l := p.(type) {
	case *Term:
		v.storeRef(st, l, T, v.term(st, x))
		return
	case *Loc:
		switch l.kind {
		case LCell:
			for _, w := range st.writes {
				w.cells[l.cell] = true
			}
			cur := st.cells[l.cell]
			if f, ok := cur.(*Fwd); ok {
				if len(l.path) == 0 {
					v.storeRef(st, f.ref, f.typ, v.term(st, x))
				} else if structOf(f.typ) != nil {
					i := l.path[0].field
					old := v.loadField(st, f.ref, f.typ, i)
					v.storeField(st, f.ref, f.typ, i, v.update(old, l.path[1:], v.term(st, x)))
				} else {
					old := v.loadRef(st, f.ref, f.typ)
					v.storeRef(st, f.ref, f.typ, v.update(old, l.path, v.term(st, x)))
				}
				return
			}
			if len(l.path) == 0 {
				if c, ok := x.(*Closure); ok {
					st.setCell(l.cell, c)
					return
				}
				if ll, ok := x.(*Loc); ok {
					st.setCell(l.cell, ll)
					return
				}
				st.setCell(l.cell, v.term(st, x))
				return
			}
			st.setCell(l.cell, v.update(v.term(st, cur), l.path, v.term(st, x)))
			return
		case LField:
			h := v.heapGet(st, l.key, v.sortOf(l.root))
			nx := v.term(st, x)
			if len(l.path) > 0 {
				nx = v.update(v.st.Select(h, l.ref), l.path, nx)
			}
			v.noteWrite(st, l.key, l.ref)
			st.setHeap(l.key, v.st.StoreT(v.heapGet(st, l.key, v.sortOf(l.root)), l.ref, nx))
			return
		case LElem:
			nx := v.term(st, x)
			h := v.heapGet(st, l.key, v.st.arr(v.st.IntS, v.sortOf(l.root)))
			row := v.st.Select(h, l.ref)
			if len(l.path) > 0 {
				nx = v.update(v.rowAt(row, l.idx, l.root), l.path, nx)
			}
			v.noteWrite(st, l.key, l.ref)
			st.setHeap(l.key, v.st.StoreT(h, l.ref, v.st.StoreT(row, l.idx, nx)))
			return
		case LGlobal:
			nx := v.term(st, x)
			if len(l.path) > 0 {
				nx = v.update(v.term(st, v.loadGlobal(st, l)), l.path, nx)
			}
			v.noteWrite(st, l.key, nil)
			st.setHeap(l.key, nx)
			return
		}
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

// fieldAddr is &p.f.
func (v *V) fieldAddr(st *State, p Value, T types.Type, i int) Value {
	ft := structOf(T).Field(i).Type()
	switch l := p.(type) {
	case *Term:
		if structOf(ft) != nil {
			return v.subRef(l, T, i)
		}
		return &Loc{kind: LField, key: fieldKey(T, i), ref: l, root: ft, typ: ft}
	case *Loc:
		if l.kind == LCell {
			if f, ok := st.cells[l.cell].(*Fwd); ok && len(l.path) == 0 {
				return v.fieldAddr(st, f.ref, T, i)
			}
		}
		n := *l
		n.path = append(append([]PathElem(nil), l.path...), PathElem{field: i})
		n.typ = ft
		return &n
	}
	panic(unsupported(fmt.Sprintf("field address of %T", p)))
}

// sliceParts gives ref, off, len, cap of a slice value.
func (v *V) sliceParts(t *Term) (ref, off, ln, cp *Term) {
	return v.st.Sel(t, 0), v.st.Sel(t, 1), v.st.Sel(t, 2), v.st.Sel(t, 3)
}

// ---- arithmetic

func (v *V) inRange(st *State, t, lo, hi *Term, spec bool) bool {
	if spec {
		return true
	}
	a, b := v.st.Le(lo, t), v.st.Le(t, hi)
	if a == v.st.True && b == v.st.True {
		return true
	}
	if st == nil {
		return false
	}
	q := append(st.pcTerms(), v.st.Not(v.st.And(a, b)))
	return v.sv.Check(q) == Unsat
}

func (v *V) wrapTo(st *State, t *Term, T types.Type, spec, small bool) *Term {
	lo, hi, ok := intRange(T)
	if !ok {
		return t
	}
	l, h := v.st.Big(lo), v.st.Big(hi)
	if v.inRange(st, t, l, h, spec) {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	if small {
		return v.st.Ite(v.st.Lt(h, t), v.st.Sub(t, v.st.Big(size)), v.st.Ite(v.st.Lt(t, l), v.st.Add(t, v.st.Big(size)), t))
	}
	return v.st.Add(v.st.Mod(v.st.Sub(t, l), v.st.Big(size)), l)
}

func pow2exp(t *Term) int {
	if t.op != OInt || t.k.Sign() <= 0 {
		return -1
	}
	n := t.k.BitLen() - 1
	if new(big.Int).Lsh(bigOne, uint(n)).Cmp(t.k) == 0 {
		return n
	}
	return -1
}

func goQuo(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }

// binop evaluates a binary operator. It returns the panic condition (nil if
// none) and the value.
func (v *V) binop(st *State, op token.Token, T types.Type, RT types.Type, x, y *Term, yT types.Type, spec bool) (val, bad *Term) {
	s := v.st
	switch op {
	case token.EQL:
		return v.goEq(st, T, x, y, yT)
	case token.NEQ:
		e, b := v.goEq(st, T, x, y, yT)
		return s.Not(e), b
	}
	switch x.sort {
	case s.IntS:
		switch op {
		case token.ADD:
			return v.wrapTo(st, s.Add(x, y), RT, spec, true), nil
		case token.SUB:
			return v.wrapTo(st, s.Sub(x, y), RT, spec, true), nil
		case token.MUL:
			if x.op == OInt || y.op == OInt {
				return v.wrapTo(st, s.Mul(x, y), RT, spec, false), nil
			}
			if spec {
				return s.Mul(x, y), nil
			}
			r := v.comm("imul."+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, nil
		case token.QUO, token.REM:
			bad := s.Eq(y, s.Int(0))
			if spec {
				bad = nil
			}
			if x.op == OInt && y.op == OInt && y.k.Sign() != 0 {
				q := goQuo(x.k, y.k)
				if op == token.QUO {
					return v.wrapTo(st, s.Big(q), RT, spec, false), bad
				}
				return s.Big(new(big.Int).Rem(x.k, y.k)), bad
			}
			if y.op == OInt && y.k.Sign() > 0 {
				q := s.Ite(s.Le(s.Int(0), x), s.Div(x, y), s.Neg(s.Div(s.Neg(x), y)))
				if op == token.QUO {
					return q, bad
				}
				return s.Sub(x, s.Mul(q, y)), bad
			}
			nm := "iquo."
			if op == token.REM {
				nm = "irem."
			}
			r := s.App(nm+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, bad
		case token.LSS:
			return s.Lt(x, y), nil
		case token.LEQ:
			return s.Le(x, y), nil
		case token.GTR:
			return s.Lt(y, x), nil
		case token.GEQ:
			return s.Le(y, x), nil
		case token.SHL:
			if y.op == OInt && y.k.IsInt64() && y.k.Int64() >= 0 && y.k.Int64() < 200 {
				return v.wrapTo(st, s.Mul(x, s.Big(pow2(uint(y.k.Int64())))), RT, spec, false), nil
			}
			r := s.App("ishl."+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, v.negShift(y, yT)
		case token.SHR:
			if y.op == OInt && y.k.IsInt64() && y.k.Int64() >= 0 && y.k.Int64() < 200 {
				return s.Div(x, s.Big(pow2(uint(y.k.Int64())))), nil
			}
			r := s.App("ishr."+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, v.negShift(y, yT)
		case token.AND:
			if x.op == OInt {
				x, y = y, x
			}
			if y.op == OInt {
				if x.op == OInt {
					return s.Big(new(big.Int).And(x.k, y.k)), nil
				}
				if y.k.Sign() == 0 {
					return s.Int(0), nil
				}
				if n := pow2exp(y); n >= 0 {
					return s.Mul(s.Mod(s.Div(x, y), s.Int(2)), y), nil
				}
				if n := pow2exp(s.Add(y, s.Int(1))); n >= 0 {
					return s.Mod(x, s.Add(y, s.Int(1))), nil
				}
			}
			r := v.comm("iand."+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, nil
		case token.OR, token.XOR:
			if x.op == OInt && y.op == OInt {
				if op == token.OR {
					return s.Big(new(big.Int).Or(x.k, y.k)), nil
				}
				return s.Big(new(big.Int).Xor(x.k, y.k)), nil
			}
			if x.op == OInt && x.k.Sign() == 0 {
				return y, nil
			}
			if y.op == OInt && y.k.Sign() == 0 {
				return x, nil
			}
			nm := "ior."
			if op == token.XOR {
				nm = "ixor."
			}
			r := v.comm(nm+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, nil
		case token.AND_NOT:
			r := s.App("iandnot."+intName(RT), s.IntS, x, y)
			v.typeFacts(RT, r)
			return r, nil
		}
	case s.FltS:
		switch op {
		case token.ADD:
			return v.comm("fadd", s.FltS, x, y), nil
		case token.SUB:
			return s.App("fsub", s.FltS, x, y), nil
		case token.MUL:
			return v.comm("fmul", s.FltS, x, y), nil
		case token.QUO:
			return s.App("fquo", s.FltS, x, y), nil
		case token.LSS:
			return v.fcmp(x, y, s.Lt), nil
		case token.LEQ:
			return v.fcmp(x, y, s.Le), nil
		case token.GTR:
			return v.fcmp(y, x, s.Lt), nil
		case token.GEQ:
			return v.fcmp(y, x, s.Le), nil
		}
	case s.CpxS:
		switch op {
		case token.ADD:
			return v.comm("cadd", s.CpxS, x, y), nil
		case token.SUB:
			return s.App("csub", s.CpxS, x, y), nil
		case token.MUL:
			return v.comm("cmul", s.CpxS, x, y), nil
		case token.QUO:
			return s.App("cquo", s.CpxS, x, y), nil
		}
	case s.StrS:
		switch op {
		case token.ADD:
			return v.scat(x, y), nil
		case token.LSS:
			return s.App("slt", s.BoolS, x, y), nil
		case token.GTR:
			return s.App("slt", s.BoolS, y, x), nil
		case token.LEQ:
			return s.Not(s.App("slt", s.BoolS, y, x)), nil
		case token.GEQ:
			return s.Not(s.App("slt", s.BoolS, x, y)), nil
		}
	case s.BoolS:
		switch op {
		case token.AND:
			return s.And(x, y), nil
		case token.OR:
			return s.Or(x, y), nil
		}
	}
	panic(unsupported("operator " + op.String() + " on " + T.String()))
}

func (v *V) negShift(y *Term, T types.Type) *Term {
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return nil
	}
	return v.st.Lt(y, v.st.Int(0))
}

func intName(T types.Type) string {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return "int"
	}
	switch b.Kind() {
	case types.UntypedInt, types.Int64:
		return "int"
	case types.Uint64, types.Uintptr:
		return "uint"
	}
	return b.Name()
}

// goEq is Go's == on type T, with its panic condition.
func (v *V) goEq(st *State, T types.Type, x, y *Term, yT types.Type) (val, bad *Term) {
	s := v.st
	switch x.sort {
	case s.FltS:
		return v.fcmp(x, y, s.Eq), nil
	case s.CpxS:
		return v.comm("ceq", s.BoolS, x, y), nil
	case s.AnyS:
		xt, yt := s.Sel(x, 0), s.Sel(y, 0)
		e := s.Eq(x, y)
		if e == s.False {
			return e, nil
		}
		if xt.op == OInt && xt.k.Sign() == 0 || yt.op == OInt && yt.k.Sign() == 0 {
			return s.Eq(xt, yt), nil
		}
		// pointer-like dynamic type known: plain identity
		for _, ty := range []*Term{xt, yt} {
			if ct := v.typeOfID(ty); ct != nil {
				switch u := ct.Underlying().(type) {
				case *types.Pointer, *types.Chan:
					return e, nil
				case *types.Basic:
					if u.Info()&(types.IsFloat|types.IsComplex) == 0 {
						return e, nil
					}
				}
			}
		}
		same := s.Eq(xt, yt)
		unc := s.App("uncomparable", s.BoolS, xt)
		v.uncFact(xt)
		v.uncFact(yt)
		// floats compare by value
		f64 := v.typeID(types.Typ[types.Float64])
		fx, fy := v.unbox(types.Typ[types.Float64], s.Sel(x, 1)), v.unbox(types.Typ[types.Float64], s.Sel(y, 1))
		e = s.Ite(s.And(s.Eq(xt, f64), s.Eq(yt, f64)), v.fcmp(fx, fy, s.Eq), e)
		return e, s.And(same, unc)
	case s.SliceS:
		// only comparison with nil is legal in code; specifications compare identity
		if y.op == OCons && y.args[0].op == OInt && y.args[0].k.Sign() == 0 && y.args[3].op == OInt {
			return s.Eq(s.Sel(x, 0), s.Int(0)), nil
		}
		if x.op == OCons && x.args[0].op == OInt && x.args[0].k.Sign() == 0 && x.args[3].op == OInt {
			return s.Eq(s.Sel(y, 0), s.Int(0)), nil
		}
	}
	return s.Eq(x, y), nil
}

func (v *V) uncFact(ty *Term) {
	if ct := v.typeOfID(ty); ct != nil {
		t := v.st.App("uncomparable", v.st.BoolS, ty)
		if types.Comparable(ct) {
			v.st.AddFact(t, v.st.Not(t))
		} else {
			v.st.AddFact(t, t)
		}
	}
}

// extraFacts supplies facts about type tags for a query cone.
func (v *V) extraFacts(cone map[*Term]bool) []*Term {
	var out []*Term
	s := v.st
	for t := range cone {
		if t.op != OApp {
			continue
		}
		if T, ok := v.implApps[t.name]; ok && t.args[0].op != OInt {
			for i, ct := range v.idTypes {
				id := s.Int(int64(i + 1))
				g := s.App(t.name, s.BoolS, id)
				if types.Implements(ct, T.Underlying().(*types.Interface)) {
					out = append(out, g)
				} else {
					out = append(out, s.Not(g))
				}
			}
			out = append(out, s.Not(s.App(t.name, s.BoolS, s.Int(0))))
		}
		if t.name == "uncomparable" && t.args[0].op != OInt {
			for i, ct := range v.idTypes {
				g := s.App("uncomparable", s.BoolS, s.Int(int64(i+1)))
				if types.Comparable(ct) {
					out = append(out, s.Not(g))
				} else {
					out = append(out, g)
				}
			}
			out = append(out, s.Not(s.App("uncomparable", s.BoolS, s.Int(0))))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return append(out, v.seqFacts(cone)...)
}

// convert evaluates ssa.Convert.
func (v *V) convert(st *State, x Value, from, to types.Type, spec bool) Value {
	s := v.st
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		t := v.term(st, x)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			lo1, hi1, _ := intRange(from)
			lo2, hi2, _ := intRange(to)
			if lo1.Cmp(lo2) >= 0 && hi1.Cmp(hi2) <= 0 {
				return t
			}
			return v.wrapTo(st, t, to, spec, false)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			r := v.i2f(t)
			if tb.Kind() == types.Float32 {
				r = s.App("f64to32", s.FltS, r)
			}
			return r
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := s.App("f2i."+intName(to), s.IntS, t)
			v.typeFacts(to, r)
			return r
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() || tb.Kind() == types.Float64 || fb.Kind() == types.UntypedFloat {
				return t
			}
			return s.App("f64to32", s.FltS, t)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return v.runeStr(t)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsComplex != 0:
			return t
		case fi&types.IsBoolean != 0:
			return t
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			if rs, ok := x.(*RowSlice); ok {
				return v.bstr(rs.row, rs.off, rs.ln)
			}
			t := v.term(st, x)
			ref, off, ln, _ := v.sliceParts(t)
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				row := s.Select(v.heapGet(st, elemKey(sl.Elem()), s.arr(s.IntS, s.IntS)), ref)
				return v.bstr(row, off, ln)
			}
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				t := v.term(st, x)
				r := v.newObj(st)
				k := elemKey(sl.Elem())
				st.setHeap(k, s.StoreT(v.heapGet(st, k, s.arr(s.IntS, s.IntS)), r, v.sbytes(t)))
				n := v.slen(t)
				return s.Cons(s.SliceS, r, s.Int(0), n, n)
			}
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Struct:
		return x
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

func (v *V) runeStr(t *Term) *Term {
	if t.op == OInt && t.k.IsInt64() {
		n := t.k.Int64()
		if n < -1<<31 || n > 1<<31-1 {
			n = 0xFFFD
		}
		return v.strLit(string(rune(n)))
	}
	r := v.st.App("runestr", v.st.StrS, t)
	// ASCII runes are one byte
	if !v.typed[r] {
		v.typed[r] = true
		s := v.st
		asc := s.And(s.Le(s.Int(0), t), s.Lt(t, s.Int(128)))
		s.AddFact(r, s.Implies(asc, s.And(s.Eq(v.rawLen(r), s.Int(1)), s.Eq(v.rawAt(r, s.Int(0)), t))))
		s.AddFact(r, s.Le(s.Int(1), v.rawLen(r)))
		s.AddFact(r, s.Le(v.rawLen(r), s.Int(4)))
	}
	return r
}

// implements is the dynamic test "type tag ty implements interface T".
func (v *V) implements(ty *Term, T types.Type) *Term {
	it := T.Underlying().(*types.Interface)
	s := v.st
	if it.NumMethods() == 0 {
		return s.Not(s.Eq(ty, s.Int(0)))
	}
	if ty.op == OInt && ty.k.Sign() == 0 {
		return s.False
	}
	if ct := v.typeOfID(ty); ct != nil {
		return s.Bool(types.Implements(ct, it))
	}
	if ty.op == OIte {
		return s.Ite(ty.args[0], v.implements(ty.args[1], T), v.implements(ty.args[2], T))
	}
	name := "impl." + cleanName(shortKey(T))
	v.implApps[name] = T
	return s.App(name, s.BoolS, ty)
}

// typeAssert gives (value, ok).
func (v *V) typeAssert(x *Term, T types.Type) (*Term, *Term) {
	s := v.st
	ty, py := s.Sel(x, 0), s.Sel(x, 1)
	if _, ok := T.Underlying().(*types.Interface); ok {
		return x, v.implements(ty, T)
	}
	return v.unbox(T, py), s.Eq(ty, v.typeID(T))
}

// ---- maps

func (v *V) optSort(T types.Type) *Sort {
	so := v.sortOf(T)
	return v.st.dataSort("Opt_"+cleanName(so.Name), []string{"ok", "val"}, []*Sort{v.st.BoolS, so})
}

func mapKey(mt types.Type) string {
	m := mt.Underlying().(*types.Map)
	return "M:" + shortKey(m.Key()) + ":" + shortKey(m.Elem())
}

func (v *V) mapSort(mt types.Type) *Sort {
	m := mt.Underlying().(*types.Map)
	return v.st.arr(v.sortOf(m.Key()), v.optSort(m.Elem()))
}

func (v *V) mapRow(st *State, m *Term, mt types.Type) *Term {
	if m.op == OInt && m.k.Sign() == 0 {
		return v.emptyMap(mt)
	}
	return v.st.Select(v.heapGet(st, mapKey(mt), v.mapSort(mt)), m)
}

func (v *V) emptyMap(mt types.Type) *Term {
	u := mt.Underlying().(*types.Map)
	return v.st.ConstArr(v.mapSort(mt), v.st.Cons(v.optSort(u.Elem()), v.st.False, v.zero(u.Elem())))
}

func (v *V) mapLookup(st *State, m, k *Term, mt types.Type) (val, ok *Term) {
	v.keyOf(mapKey(mt), k)
	u := mt.Underlying().(*types.Map)
	o := v.mapSel(v.mapRow(st, m, mt), k)
	ok = v.st.Sel(o, 0)
	x := v.st.Sel(o, 1)
	v.typeFactsDeep(u.Elem(), x)
	return v.st.Ite(ok, x, v.zero(u.Elem())), ok
}

// keyOf remembers a key that is looked up in some map of a type.
func (v *V) keyOf(mk string, k *Term) {
	for _, x := range v.mapKeys[mk] {
		if x == k {
			return
		}
	}
	if v.mapKeys == nil {
		v.mapKeys = map[string][]*Term{}
	}
	if len(v.mapKeys[mk]) < 16 {
		v.mapKeys[mk] = append(v.mapKeys[mk], k)
	}
}

// mapSel selects through stores, case-splitting on undecided key equality.
func (v *V) mapSel(row, k *Term) *Term {
	if row.op == OStore {
		e := v.st.Eq(row.args[1], k)
		if e == v.st.True {
			return row.args[2]
		}
		if e == v.st.False {
			return v.mapSel(row.args[0], k)
		}
		return v.st.Ite(e, row.args[2], v.mapSel(row.args[0], k))
	}
	if row.op == OIte {
		return v.st.Ite(row.args[0], v.mapSel(row.args[1], k), v.mapSel(row.args[2], k))
	}
	return v.st.Select(row, k)
}

func (v *V) mapLen(st *State, m *Term, mt types.Type) *Term {
	if m.op == OInt && m.k.Sign() == 0 {
		return v.st.Int(0)
	}
	l := v.st.Select(v.heapGet(st, "L"+mapKey(mt), v.st.IntS), m)
	if opaque(l) && !v.typed[l] {
		v.typed[l] = true
		v.st.AddFact(l, v.st.Le(v.st.Int(0), l))
		v.st.AddFact(l, v.st.Le(l, v.st.Big(maxLen)))
	}
	return l
}

func (v *V) mapStore(st *State, m, k, x *Term, mt types.Type, del bool) {
	s := v.st
	u := mt.Underlying().(*types.Map)
	row := v.mapRow(st, m, mt)
	had := s.Sel(v.mapSel(row, k), 0)
	n := v.mapLen(st, m, mt)
	key := mapKey(mt)
	var o, n2 *Term
	if del {
		o = s.Cons(v.optSort(u.Elem()), s.False, v.zero(u.Elem()))
		n2 = s.Ite(had, s.Sub(n, s.Int(1)), n)
	} else {
		o = s.Cons(v.optSort(u.Elem()), s.True, x)
		n2 = s.Ite(had, n, s.Add(n, s.Int(1)))
	}
	v.noteWrite(st, key, m)
	v.noteWrite(st, "L"+key, m)
	st.setHeap(key, s.StoreT(v.heapGet(st, key, v.mapSort(mt)), m, s.StoreT(row, k, o)))
	st.setHeap("L"+key, s.StoreT(v.heapGet(st, "L"+key, s.IntS), m, n2))
}

// newMap allocates an empty map.
func (v *V) newMap(st *State, mt types.Type) *Term {
	r := v.newObj(st)
	key := mapKey(mt)
	st.setHeap(key, v.st.StoreT(v.heapGet(st, key, v.mapSort(mt)), r, v.emptyMap(mt)))
	st.setHeap("L"+key, v.st.StoreT(v.heapGet(st, "L"+key, v.st.IntS), r, v.st.Int(0)))
	return r
}
