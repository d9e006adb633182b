package main

// Hash-consed terms of a many-sorted first-order logic (bool, mathematical
// integers, arrays, datatypes, uninterpreted sorts and functions), with
// simplification at construction and SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an interned SMT sort.
type Sort struct {
	Name string // SMT-LIB text
	// arrays
	Idx, Elem *Sort
	// datatypes
	Fields []*Sort
	IsData bool
	FNames []string
	unint  bool // uninterpreted: needs declare-sort
}

func (s *Sort) IsArr() bool { return s.Elem != nil }

// Op is a term operator.
type Op uint8

// Operators.
const (
	OSym Op = iota
	OInt
	OTrue
	OFalse
	OLin // k + sum coef*arg
	OMul
	ODiv // Euclidean division (SMT div)
	OMod
	OIte
	OEq // int: args[0] == 0 (one arg); otherwise two args
	OLe // args[0] <= 0
	OAnd
	OOr
	ONot
	OSelect
	OStore
	OConstArr
	OCons
	OSel
	OApp
)

// Term is a hash-consed term.
type Term struct {
	id   int
	op   Op
	sort *Sort
	name string
	args []*Term
	k    *big.Int
	coef []*big.Int
	idx  int // selector index
	born int // latest creation stamp among leaves
	size int
}

// Store is a per-contract term store.
type Store struct {
	tab     map[string]*Term
	all     []*Term
	stamp   int
	sorts   map[string]*Sort
	True    *Term
	False   *Term
	facts   map[*Term][]*Term
	factLog [][2]*Term     // terms and their facts, in order
	newRef  map[string]int // newref literal -> stamp
	nRefs   int
	names   map[string]int
	// declared uninterpreted functions: name -> (arg sorts, ret)
	funcs map[string]*UFDecl
	order []string

	BoolS, IntS, StrS, FltS, CpxS, AnyS, SliceS, WorldS *Sort
}

// UFDecl is the signature of an uninterpreted function.
type UFDecl struct {
	name string
	args []*Sort
	ret  *Sort
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)
var refBase = new(big.Int).Neg(new(big.Int).Lsh(bigOne, 70))

func newStore() *Store {
	s := &Store{tab: map[string]*Term{}, sorts: map[string]*Sort{}, facts: map[*Term][]*Term{},
		newRef: map[string]int{}, names: map[string]int{}, funcs: map[string]*UFDecl{}}
	s.BoolS = s.baseSort("Bool", false)
	s.IntS = s.baseSort("Int", false)
	s.StrS = s.baseSort("Str", true)
	s.FltS = s.baseSort("Flt", true)
	s.CpxS = s.baseSort("Cpx", true)
	s.WorldS = s.baseSort("World", true)
	s.AnyS = s.dataSort("Any", []string{"typ", "pay"}, []*Sort{s.IntS, s.IntS})
	s.SliceS = s.dataSort("Slice", []string{"ref", "off", "len", "cap"}, []*Sort{s.IntS, s.IntS, s.IntS, s.IntS})
	s.True = s.mk(&Term{op: OTrue, sort: s.BoolS})
	s.False = s.mk(&Term{op: OFalse, sort: s.BoolS})
	return s
}

func (s *Store) baseSort(n string, unint bool) *Sort {
	if x := s.sorts[n]; x != nil {
		return x
	}
	x := &Sort{Name: n, unint: unint}
	s.sorts[n] = x
	return x
}

func (s *Store) arr(idx, elem *Sort) *Sort {
	n := "(Array " + idx.Name + " " + elem.Name + ")"
	if x := s.sorts[n]; x != nil {
		return x
	}
	x := &Sort{Name: n, Idx: idx, Elem: elem}
	s.sorts[n] = x
	return x
}

func (s *Store) dataSort(n string, fn []string, fs []*Sort) *Sort {
	if x := s.sorts[n]; x != nil {
		return x
	}
	x := &Sort{Name: n, IsData: true, Fields: fs, FNames: fn}
	s.sorts[n] = x
	return x
}

func (s *Store) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s|%d", t.op, t.sort.Name, t.name, t.idx)
	if t.k != nil {
		b.WriteByte('|')
		b.WriteString(t.k.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coef != nil {
			b.WriteByte('*')
			b.WriteString(t.coef[i].String())
		}
	}
	key := b.String()
	if x := s.tab[key]; x != nil {
		return x
	}
	t.id = len(s.all)
	for _, a := range t.args {
		if a.born > t.born {
			t.born = a.born
		}
		t.size += a.size
	}
	t.size++
	s.all = append(s.all, t)
	s.tab[key] = t
	return t
}

// Sym makes a fresh symbol.
func (s *Store) Sym(hint string, so *Sort) *Term {
	s.stamp++
	hint = cleanName(hint)
	s.names[hint]++
	n := fmt.Sprintf("%s!%d", hint, s.names[hint])
	t := s.mk(&Term{op: OSym, name: n, sort: so, born: s.stamp})
	return t
}

func cleanName(h string) string {
	var b strings.Builder
	for _, c := range h {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}

// NewRef makes a fresh reference literal, distinct from every value that
// exists already.
func (s *Store) NewRef() *Term {
	s.stamp++
	s.nRefs++
	k := new(big.Int).Sub(refBase, big.NewInt(int64(s.nRefs)))
	t := s.mk(&Term{op: OInt, sort: s.IntS, k: k, born: s.stamp})
	s.newRef[k.String()] = s.stamp
	return t
}

func (s *Store) isNewRef(t *Term) bool { return t.op == OInt && t.k.Cmp(refBase) < 0 }

// Int makes an integer literal.
func (s *Store) Int(n int64) *Term { return s.Big(big.NewInt(n)) }

// Big makes an integer literal.
func (s *Store) Big(k *big.Int) *Term { return s.mk(&Term{op: OInt, sort: s.IntS, k: k}) }

// Bool makes a boolean literal.
func (s *Store) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}

// ---- linear arithmetic

func (s *Store) linParts(t *Term) (*big.Int, []*Term, []*big.Int) {
	switch t.op {
	case OInt:
		return t.k, nil, nil
	case OLin:
		return t.k, t.args, t.coef
	}
	return bigZero, []*Term{t}, []*big.Int{bigOne}
}

func (s *Store) lin(k *big.Int, m map[*Term]*big.Int) *Term {
	var as []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return s.Big(k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k.Sign() == 0 && m[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return s.mk(&Term{op: OLin, sort: s.IntS, k: k, args: as, coef: cs})
}

func (s *Store) linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	add := func(t *Term, c int64) {
		bc := big.NewInt(c)
		k0, as, cs := s.linParts(t)
		k.Add(k, new(big.Int).Mul(bc, k0))
		for i, x := range as {
			v := new(big.Int).Mul(bc, cs[i])
			if o := m[x]; o != nil {
				v.Add(v, o)
			}
			m[x] = v
		}
	}
	add(a, ca)
	add(b, cb)
	return s.lin(k, m)
}

// Add is integer addition.
func (s *Store) Add(a, b *Term) *Term { return s.linComb(a, 1, b, 1) }

// Sub is integer subtraction.
func (s *Store) Sub(a, b *Term) *Term { return s.linComb(a, 1, b, -1) }

// Neg is integer negation.
func (s *Store) Neg(a *Term) *Term { return s.linComb(a, -1, s.Int(0), 0) }

// Mul is integer multiplication.
func (s *Store) Mul(a, b *Term) *Term {
	if a.op == OInt {
		a, b = b, a
	}
	if b.op == OInt {
		k, as, cs := s.linParts(a)
		m := map[*Term]*big.Int{}
		for i, x := range as {
			m[x] = new(big.Int).Mul(cs[i], b.k)
		}
		return s.lin(new(big.Int).Mul(k, b.k), m)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(&Term{op: OMul, sort: s.IntS, args: []*Term{a, b}})
}

// Div is SMT-LIB div by a constant or term (Euclidean).
func (s *Store) Div(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.k.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.k, b.k, new(big.Int))
		return s.Big(q)
	}
	if b.op == OInt && b.k.Cmp(bigOne) == 0 {
		return a
	}
	return s.mk(&Term{op: ODiv, sort: s.IntS, args: []*Term{a, b}})
}

// Mod is SMT-LIB mod (Euclidean).
func (s *Store) Mod(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.k.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.k, b.k, new(big.Int))
		return s.Big(m)
	}
	if b.op == OInt && b.k.Cmp(bigOne) == 0 {
		return s.Int(0)
	}
	return s.mk(&Term{op: OMod, sort: s.IntS, args: []*Term{a, b}})
}

// Le is a <= b.
func (s *Store) Le(a, b *Term) *Term {
	d := s.Sub(a, b)
	if d.op == OInt {
		return s.Bool(d.k.Sign() <= 0)
	}
	if d.op == OIte && (d.args[1].op == OInt || d.args[2].op == OInt) {
		x, y := s.Le(d.args[1], s.Int(0)), s.Le(d.args[2], s.Int(0))
		if x.isBoolLit() || y.isBoolLit() {
			return s.Ite(d.args[0], x, y)
		}
	}
	// normalise by gcd
	if d.op == OLin {
		g := new(big.Int)
		for _, c := range d.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			m := map[*Term]*big.Int{}
			for i, x := range d.args {
				m[x] = new(big.Int).Quo(d.coef[i], g)
			}
			// sum + k <= 0  ->  sum/g <= floor(-k/g) -> sum/g + ceil(k/g) <= 0
			nk := new(big.Int).Neg(d.k)
			q, _ := new(big.Int).DivMod(nk, g, new(big.Int))
			d = s.lin(q.Neg(q), m)
		}
	}
	return s.mk(&Term{op: OLe, sort: s.BoolS, args: []*Term{d}})
}

// Lt is a < b.
func (s *Store) Lt(a, b *Term) *Term { return s.Le(s.Add(a, s.Int(1)), b) }

func (t *Term) isBoolLit() bool { return t.op == OTrue || t.op == OFalse }

// ---- booleans

// Not negates.
func (s *Store) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return s.False
	case OFalse:
		return s.True
	case ONot:
		return a.args[0]
	case OLe: // !(d <= 0) -> d >= 1 -> 1-d <= 0
		return s.Le(s.Sub(s.Int(1), a.args[0]), s.Int(0))
	}
	return s.mk(&Term{op: ONot, sort: s.BoolS, args: []*Term{a}})
}

func (s *Store) nary(op Op, unit, zero *Term, as []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(as []*Term) bool
	walk = func(as []*Term) bool {
		for _, a := range as {
			if a == unit {
				continue
			}
			if a == zero {
				return false
			}
			if a.op == op {
				if !walk(a.args) {
					return false
				}
				continue
			}
			if seen[a] {
				continue
			}
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	if !walk(as) {
		return zero
	}
	for _, a := range out {
		if seen[s.Not(a)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return s.mk(&Term{op: op, sort: s.BoolS, args: out})
}

// And conjoins.
func (s *Store) And(as ...*Term) *Term { return s.nary(OAnd, s.True, s.False, as) }

// Or disjoins.
func (s *Store) Or(as ...*Term) *Term { return s.nary(OOr, s.False, s.True, as) }

// Implies is implication.
func (s *Store) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }

// Ite is if-then-else.
func (s *Store) Ite(c, a, b *Term) *Term {
	if c.op == OTrue || a == b {
		return a
	}
	if c.op == OFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s / %s", a.sort.Name, b.sort.Name))
	}
	if c.op == ONot {
		return s.Ite(c.args[0], b, a)
	}
	if a.sort == s.BoolS {
		switch {
		case a == s.True:
			return s.Or(c, b)
		case a == s.False:
			return s.And(s.Not(c), b)
		case b == s.True:
			return s.Or(s.Not(c), a)
		case b == s.False:
			return s.And(c, a)
		case a == c:
			return s.Or(c, b)
		case b == c:
			return s.And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == OCons && b.op == OCons && len(a.args) == len(b.args) && a.sort == b.sort {
		as := make([]*Term, len(a.args))
		for i := range as {
			as[i] = s.Ite(c, a.args[i], b.args[i])
		}
		return s.Cons(a.sort, as...)
	}
	// ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return s.Ite(s.Or(c, b.args[0]), a, b.args[2])
	}
	return s.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// Eq is equality.
func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s / %s", a.sort.Name, b.sort.Name))
	}
	if a.sort == s.BoolS {
		if a.isBoolLit() {
			a, b = b, a
		}
		if b == s.True {
			return a
		}
		if b == s.False {
			return s.Not(a)
		}
		if s.Not(a) == b {
			return s.False
		}
	}
	if s.diseq(a, b) {
		return s.False
	}
	for i := 0; i < 2; i++ {
		if a.op == OIte {
			x, y := s.eqTry(a.args[1], b), s.eqTry(a.args[2], b)
			if x != nil && y != nil {
				return s.Ite(a.args[0], x, y)
			}
			if x != nil {
				y = s.Eq(a.args[2], b)
				return s.Ite(a.args[0], x, y)
			}
			if y != nil {
				x = s.Eq(a.args[1], b)
				return s.Ite(a.args[0], x, y)
			}
		}
		a, b = b, a
	}
	if a.op == OCons && b.op == OCons {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, s.Eq(a.args[i], b.args[i]))
		}
		return s.And(cs...)
	}
	if a.sort == s.IntS {
		d := s.Sub(a, b)
		if d.op == OInt {
			return s.Bool(d.k.Sign() == 0)
		}
		neg := false
		if d.op == OLin {
			g := new(big.Int)
			for _, c := range d.coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if new(big.Int).Mod(d.k, g).Sign() != 0 {
				return s.False
			}
			neg = d.coef[0].Sign() < 0
			if neg {
				g.Neg(g)
			}
			if g.Cmp(bigOne) != 0 {
				m := map[*Term]*big.Int{}
				for i, x := range d.args {
					m[x] = new(big.Int).Quo(d.coef[i], g)
				}
				d = s.lin(new(big.Int).Quo(d.k, g), m)
			}
		}
		return s.mk(&Term{op: OEq, sort: s.BoolS, args: []*Term{d}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(&Term{op: OEq, sort: s.BoolS, args: []*Term{a, b}})
}

// eqTry returns a literal when a==b folds to one.
func (s *Store) eqTry(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if s.diseq(a, b) {
		return s.False
	}
	return nil
}

// diseq reports syntactic disequality.
func (s *Store) diseq(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OInt && b.op == OInt {
		return a.k.Cmp(b.k) != 0
	}
	if a.sort == s.IntS {
		if s.isNewRef(a) && s.refDiseq(a, b) || s.isNewRef(b) && s.refDiseq(b, a) {
			return true
		}
		if a.op == OApp && b.op == OApp && strings.HasPrefix(a.name, "sub.") && strings.HasPrefix(b.name, "sub.") {
			if a.name != b.name {
				return true
			}
			return s.diseq(a.args[0], b.args[0])
		}
		if a.op == OApp && strings.HasPrefix(a.name, "sub.") && b.op == OInt || b.op == OApp && strings.HasPrefix(b.name, "sub.") && a.op == OInt {
			return true
		}
		if a.op != OIte && b.op != OIte {
			d := s.Sub(a, b)
			return d.op == OInt && d.k.Sign() != 0
		}
		return false
	}
	if a.op == OCons && b.op == OCons {
		for i := range a.args {
			if s.diseq(a.args[i], b.args[i]) {
				return true
			}
		}
		return false
	}
	if a.sort == s.StrS && a.op == OApp && b.op == OApp && strings.HasPrefix(a.name, "lit.") && strings.HasPrefix(b.name, "lit.") {
		return true
	}
	return false
}

// refDiseq: n is a new-reference literal; t denotes a value built only from
// leaves created before n, so it cannot be n.
func (s *Store) refDiseq(n, t *Term) bool {
	if t.op == OInt {
		return t.k.Cmp(n.k) != 0
	}
	if t.op == OLin || t.op == OMul {
		return false
	}
	return older(t, n.born, 12)
}

// older: whatever t denotes existed before the stamp. What is read out of a heap
// existed when that heap did, however young the index.
func older(t *Term, stamp, depth int) bool {
	if t.born < stamp {
		return true
	}
	if depth == 0 {
		return false
	}
	switch t.op {
	case OSelect, OSel:
		return older(t.args[0], stamp, depth-1)
	case OIte:
		return older(t.args[1], stamp, depth-1) && older(t.args[2], stamp, depth-1)
	case OStore:
		return older(t.args[0], stamp, depth-1) && older(t.args[2], stamp, depth-1)
	}
	return false
}

// ---- arrays

// Select reads an array.
func (s *Store) Select(a, i *Term) *Term {
	if !a.sort.IsArr() {
		panic("select from " + a.sort.Name)
	}
	for {
		switch a.op {
		case OStore:
			if a.args[1] == i {
				return a.args[2]
			}
			if s.diseq(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if i.op == OIte && a.sort.Elem.IsArr() && s.isNewRef(a.args[1]) { // a row of one of two objects
				return s.Ite(i.args[0], s.Select(a, i.args[1]), s.Select(a, i.args[2]))
			}
		case OConstArr:
			return a.args[0]
		case OIte:
			return s.Ite(a.args[0], s.Select(a.args[1], i), s.Select(a.args[2], i))
		case OApp:
			if a.name == "shiftrow" { // shiftrow(row, off)[i] = row[off+i]
				return s.Select(a.args[0], s.Add(a.args[1], i))
			}
		}
		break
	}
	return s.mk(&Term{op: OSelect, sort: a.sort.Elem, args: []*Term{a, i}})
}

// StoreT writes an array.
func (s *Store) StoreT(a, i, v *Term) *Term {
	if !a.sort.IsArr() || a.sort.Elem != v.sort || a.sort.Idx != i.sort {
		panic(fmt.Sprintf("store %s [%s] <- %s", a.sort.Name, i.sort.Name, v.sort.Name))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == OStore && s.diseq(a.args[1], i) && a.args[1].id > i.id {
		// canonical order of independent stores
		inner := s.StoreT(a.args[0], i, v)
		return s.mk(&Term{op: OStore, sort: a.sort, args: []*Term{inner, a.args[1], a.args[2]}})
	}
	return s.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

// ConstArr is a constant array.
func (s *Store) ConstArr(so *Sort, v *Term) *Term {
	return s.mk(&Term{op: OConstArr, sort: so, args: []*Term{v}})
}

// ---- datatypes

// Cons builds a datatype value.
func (s *Store) Cons(so *Sort, args ...*Term) *Term {
	if len(args) != len(so.Fields) {
		panic("cons arity " + so.Name)
	}
	// eta: cons(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].op == OSel && args[0].args[0].sort == so {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != OSel || a.idx != i || a.args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	for i, a := range args {
		if a.sort != so.Fields[i] {
			panic(fmt.Sprintf("cons %s field %d: %s for %s", so.Name, i, a.sort.Name, so.Fields[i].Name))
		}
	}
	return s.mk(&Term{op: OCons, sort: so, args: append([]*Term(nil), args...)})
}

// Sel selects a field.
func (s *Store) Sel(t *Term, i int) *Term {
	if !t.sort.IsData {
		panic("sel of " + t.sort.Name)
	}
	if t.op == OCons {
		return t.args[i]
	}
	if t.op == OIte {
		return s.Ite(t.args[0], s.Sel(t.args[1], i), s.Sel(t.args[2], i))
	}
	return s.mk(&Term{op: OSel, sort: t.sort.Fields[i], idx: i, args: []*Term{t}})
}

// With updates a field.
func (s *Store) With(t *Term, i int, v *Term) *Term {
	as := make([]*Term, len(t.sort.Fields))
	for j := range as {
		if j == i {
			as[j] = v
		} else {
			as[j] = s.Sel(t, j)
		}
	}
	return s.Cons(t.sort, as...)
}

// App applies an uninterpreted function.
func (s *Store) App(name string, ret *Sort, args ...*Term) *Term {
	d := s.funcs[name]
	if d == nil {
		d = &UFDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		s.funcs[name] = d
		s.order = append(s.order, name)
	} else {
		if d.ret != ret || len(d.args) != len(args) {
			panic(fmt.Sprintf("UF %s used at two signatures", name))
		}
		for i, a := range args {
			if d.args[i] != a.sort {
				panic(fmt.Sprintf("UF %s arg %d: %s vs %s", name, i, d.args[i].Name, a.sort.Name))
			}
		}
	}
	t := &Term{op: OApp, sort: ret, name: name, args: append([]*Term(nil), args...)}
	return s.mk(t)
}

// AddFact attaches a true formula to a term; it is asserted in every query
// whose cone contains the term.
func (s *Store) AddFact(t *Term, f *Term) {
	if f == s.True {
		return
	}
	for _, g := range s.facts[t] {
		if g == f {
			return
		}
	}
	s.facts[t] = append(s.facts[t], f)
	s.factLog = append(s.factLog, [2]*Term{t, f})
}

// ---- printing

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func smtName(n string) string { return "|" + n + "|" }

// body prints the defining expression of a term given child names.
func (s *Store) body(t *Term, ref func(*Term) string) string {
	var b strings.Builder
	app := func(f string, as ...*Term) {
		b.WriteByte('(')
		b.WriteString(f)
		for _, a := range as {
			b.WriteByte(' ')
			b.WriteString(ref(a))
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OSym:
		return smtName(t.name)
	case OInt:
		return smtInt(t.k)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLin:
		b.WriteString("(+ ")
		b.WriteString(smtInt(t.k))
		for i, a := range t.args {
			if t.coef[i].Cmp(bigOne) == 0 {
				b.WriteString(" " + ref(a))
			} else {
				b.WriteString(" (* " + smtInt(t.coef[i]) + " " + ref(a) + ")")
			}
		}
		b.WriteByte(')')
	case OMul:
		app("*", t.args...)
	case ODiv:
		app("div", t.args...)
	case OMod:
		app("mod", t.args...)
	case OIte:
		app("ite", t.args...)
	case OEq:
		if len(t.args) == 1 {
			return "(= " + ref(t.args[0]) + " 0)"
		}
		app("=", t.args...)
	case OLe:
		return "(<= " + ref(t.args[0]) + " 0)"
	case OAnd:
		app("and", t.args...)
	case OOr:
		app("or", t.args...)
	case ONot:
		app("not", t.args...)
	case OSelect:
		app("select", t.args...)
	case OStore:
		app("store", t.args...)
	case OConstArr:
		return "((as const " + t.sort.Name + ") " + ref(t.args[0]) + ")"
	case OCons:
		if len(t.args) == 0 {
			return smtName("mk." + t.sort.Name)
		}
		app(smtName("mk."+t.sort.Name), t.args...)
	case OSel:
		app(smtName(fmt.Sprintf("%s.%s.%d", t.args[0].sort.Name, t.args[0].sort.FNames[t.idx], t.idx)), t.args...)
	case OApp:
		if len(t.args) == 0 {
			return smtName(t.name)
		}
		app(smtName(t.name), t.args...)
	}
	return b.String()
}

// String renders a term for reports (depth-limited).
func (s *Store) String(t *Term) string { return s.str(t, 8) }

func (s *Store) str(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	return strings.ReplaceAll(s.body(t, func(a *Term) string { return s.str(a, d-1) }), "|", "")
}
