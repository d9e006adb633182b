package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// kitPath is the import path of the specification kit (overlay only).
const kitPath = "github.com/qiniu/text/zzverif/v"

func isNamed(t types.Type, path string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == path
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

func shortKey(t types.Type) string {
	s := typeKey(t)
	s = strings.ReplaceAll(s, "github.com/qiniu/text/", "")
	return s
}

// scalarStruct reports struct types that are one logical value, not a set of
// fields: reflect.Value is represented by the interface value it holds.
func scalarStruct(t types.Type) bool {
	return isNamed(t, "reflect.Value") || isNamed(t, kitPath+".World")
}

func structOf(t types.Type) *types.Struct {
	if scalarStruct(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// sortOf maps a Go type to a sort.
func (v *V) sortOf(t types.Type) *Sort {
	st := v.st
	t = types.Unalias(t)
	if isNamed(t, "reflect.Value") {
		return st.AnyS
	}
	if isNamed(t, kitPath+".World") {
		return st.WorldS
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.BoolS
		case u.Info()&types.IsInteger != 0:
			return st.IntS
		case u.Info()&types.IsFloat != 0:
			return st.FltS
		case u.Info()&types.IsComplex != 0:
			return st.CpxS
		case u.Info()&types.IsString != 0:
			return st.StrS
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return st.IntS
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return st.IntS
	case *types.Slice:
		return st.SliceS
	case *types.Interface:
		return st.AnyS
	case *types.Array:
		return st.arr(st.IntS, v.sortOf(u.Elem()))
	case *types.Struct:
		k := shortKey(t)
		if s := v.structSorts[k]; s != nil {
			return s
		}
		var fn []string
		var fs []*Sort
		for i := 0; i < u.NumFields(); i++ {
			fn = append(fn, cleanName(u.Field(i).Name()))
			fs = append(fs, v.sortOf(u.Field(i).Type()))
		}
		s := st.dataSort(fmt.Sprintf("S%d_%s", len(v.structSorts), cleanName(lastSeg(k))), fn, fs)
		v.structSorts[k] = s
		return s
	case *types.TypeParam:
		panic(unsupported("type parameter " + t.String()))
	}
	panic(unsupported("sort of " + t.String()))
}

func lastSeg(s string) string {
	if i := strings.LastIndexAny(s, "/."); i >= 0 {
		s = s[i+1:]
	}
	if len(s) > 24 {
		s = s[:24]
	}
	return s
}

// unsupported is the error raised when code leaves the verified subset.
type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

// zero is the zero value term of a type.
func (v *V) zero(t types.Type) *Term {
	st := v.st
	so := v.sortOf(t)
	switch {
	case so == st.BoolS:
		return st.False
	case so == st.IntS:
		return st.Int(0)
	case so == st.StrS:
		return v.strLit("")
	case so == st.FltS:
		return v.fltLit("0")
	case so == st.CpxS:
		return st.App("cpxlit.0", st.CpxS)
	case so == st.AnyS:
		return st.Cons(st.AnyS, st.Int(0), st.Int(0))
	case so == st.SliceS:
		return st.Cons(st.SliceS, st.Int(0), st.Int(0), st.Int(0), st.Int(0))
	case so == st.WorldS:
		return st.App("world.zero", st.WorldS)
	case so.IsArr():
		return st.ConstArr(so, v.zero(t.Underlying().(*types.Array).Elem()))
	case so.IsData:
		u := t.Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, v.zero(u.Field(i).Type()))
		}
		return st.Cons(so, as...)
	}
	panic("zero " + t.String())
}

func (v *V) nilAny() *Term { return v.st.Cons(v.st.AnyS, v.st.Int(0), v.st.Int(0)) }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// intRange gives the range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := uint(64), true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne), true
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), bigOne), true
}

func opaque(t *Term) bool {
	switch t.op {
	case OSym, OSelect, OSel, OApp:
		return true
	}
	return false
}

var maxLen = pow2(48)

// typeFacts attaches what the Go type system guarantees about a value.
func (v *V) typeFacts(t types.Type, x *Term) {
	if !opaque(x) || v.typed[x] {
		return
	}
	v.typed[x] = true
	st := v.st
	if scalarStruct(t) {
		if x.sort == st.AnyS {
			v.anyFacts(x)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			st.AddFact(x, st.Le(st.Big(lo), x))
			st.AddFact(x, st.Le(x, st.Big(hi)))
		}
	case *types.Slice:
		ref, off, ln, cp := st.Sel(x, 0), st.Sel(x, 1), st.Sel(x, 2), st.Sel(x, 3)
		st.AddFact(x, st.Le(st.Int(0), off))
		st.AddFact(x, st.Le(st.Int(0), ln))
		st.AddFact(x, st.Le(ln, cp))
		st.AddFact(x, st.Le(st.Add(off, cp), st.Big(maxLen)))
		st.AddFact(x, st.Implies(st.Eq(ref, st.Int(0)), st.Eq(cp, st.Int(0))))
		st.AddFact(x, st.Implies(st.Eq(ref, st.Int(0)), st.Eq(off, st.Int(0))))
		for _, y := range []*Term{ref, off, ln, cp} {
			v.typed[y] = true
			for _, f := range st.facts[x] {
				st.AddFact(y, f)
			}
		}
	case *types.Interface:
		v.anyFacts(x)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := st.Sel(x, i)
			v.typeFacts(u.Field(i).Type(), f)
			for _, ff := range st.facts[f] {
				st.AddFact(x, ff)
			}
		}
	}
}

func (v *V) anyFacts(x *Term) {
	st := v.st
	ty, py := st.Sel(x, 0), st.Sel(x, 1)
	st.AddFact(x, st.Le(st.Int(0), ty))
	st.AddFact(x, st.Implies(st.Eq(ty, st.Int(0)), st.Eq(py, st.Int(0))))
	for _, f := range st.facts[x] {
		st.AddFact(ty, f)
		st.AddFact(py, f)
	}
}

// fresh makes an arbitrary value of a type.
func (v *V) fresh(hint string, t types.Type) *Term {
	x := v.st.Sym(hint, v.sortOf(t))
	v.typeFacts(t, x)
	return x
}

// typeID gives the interface type tag of a concrete type.
func (v *V) typeID(t types.Type) *Term {
	k := typeKey(t)
	id, ok := v.typeIDs[k]
	if !ok {
		id = len(v.typeIDs) + 1
		v.typeIDs[k] = id
		v.idTypes = append(v.idTypes, t)
	}
	return v.st.Int(int64(id))
}

func (v *V) typeOfID(t *Term) types.Type {
	if t.op != OInt || !t.k.IsInt64() {
		return nil
	}
	n := int(t.k.Int64())
	if n < 1 || n > len(v.idTypes) {
		return nil
	}
	return v.idTypes[n-1]
}

// box converts a value of concrete type t to an interface payload.
func (v *V) box(t types.Type, x *Term) *Term {
	st := v.st
	switch x.sort {
	case st.IntS:
		return x
	case st.BoolS:
		return st.Ite(x, st.Int(1), st.Int(0))
	}
	if x.op == OApp && x.name == "unbox."+x.sort.Name {
		return x.args[0]
	}
	b := st.App("box."+boxName(x.sort), st.IntS, x)
	st.AddFact(b, st.Eq(st.App("unbox."+x.sort.Name, x.sort, b), x))
	return b
}

func boxName(s *Sort) string { return s.Name }

// unbox is the inverse of box.
func (v *V) unbox(t types.Type, p *Term) *Term {
	st := v.st
	so := v.sortOf(t)
	switch so {
	case st.IntS:
		v.typeFacts(t, p)
		return p
	case st.BoolS:
		return st.Eq(p, st.Int(1))
	}
	if p.op == OApp && p.name == "box."+boxName(so) {
		return p.args[0]
	}
	if p.op == OIte {
		return st.Ite(p.args[0], v.unbox(t, p.args[1]), v.unbox(t, p.args[2]))
	}
	x := st.App("unbox."+so.Name, so, p)
	v.typeFacts(t, x)
	if x.op == OApp {
		st.AddFact(x, st.Eq(st.App("box."+boxName(so), st.IntS, x), p))
	}
	return x
}

// mkAny builds an interface value.
func (v *V) mkAny(t types.Type, x *Term) *Term {
	if scalarStruct(t) && x.sort == v.st.AnyS {
		return v.st.Cons(v.st.AnyS, v.typeID(t), v.box(t, x))
	}
	return v.st.Cons(v.st.AnyS, v.typeID(t), v.box(t, x))
}

// ---- strings

func (v *V) strLit(s string) *Term {
	st := v.st
	t := st.App("lit."+litName(s), st.StrS)
	if !v.litDone[t] {
		v.litDone[t] = true
		v.lits[t] = s
		st.AddFact(t, st.Eq(v.rawLen(t), st.Int(int64(len(s)))))
		if len(s) <= 16 {
			for i := 0; i < len(s); i++ {
				st.AddFact(t, st.Eq(v.rawAt(t, st.Int(int64(i))), st.Int(int64(s[i]))))
			}
		}
	}
	return t
}

func litName(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == ' ' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "$%02x", c)
		}
	}
	return b.String()
}

func (v *V) litOf(t *Term) (string, bool) {
	s, ok := v.lits[t]
	return s, ok
}

func (v *V) rawLen(t *Term) *Term   { return v.st.App("slen", v.st.IntS, t) }
func (v *V) rawAt(t, i *Term) *Term { return v.st.App("sat", v.st.IntS, t, i) }

// slen is the length of a string term.
func (v *V) slen(t *Term) *Term {
	st := v.st
	if s, ok := v.litOf(t); ok {
		return st.Int(int64(len(s)))
	}
	switch t.op {
	case OIte:
		return st.Ite(t.args[0], v.slen(t.args[1]), v.slen(t.args[2]))
	case OApp:
		switch t.name {
		case "scat":
			return st.Add(v.slen(t.args[0]), v.slen(t.args[1]))
		case "bstr":
			return t.args[2]
		case "ssub":
			return st.Sub(t.args[2], t.args[1])
		}
	}
	l := v.rawLen(t)
	if l.op == OApp && !v.typed[l] {
		v.typed[l] = true
		st.AddFact(l, st.Le(st.Int(0), l))
		st.AddFact(l, st.Le(l, st.Big(maxLen)))
		// the empty string is unique
		st.AddFact(l, st.Implies(st.Eq(l, st.Int(0)), st.Eq(t, v.strLit(""))))
	}
	return l
}

// sat is byte i of a string term.
func (v *V) sat(t, i *Term) *Term {
	st := v.st
	if s, ok := v.litOf(t); ok && i.op == OInt && i.k.IsInt64() {
		n := i.k.Int64()
		if n >= 0 && n < int64(len(s)) {
			return st.Int(int64(s[n]))
		}
	}
	switch t.op {
	case OIte:
		return st.Ite(t.args[0], v.sat(t.args[1], i), v.sat(t.args[2], i))
	case OApp:
		switch t.name {
		case "bstr":
			return v.rowAt(t.args[0], st.Add(t.args[1], i), types.Typ[types.Uint8])
		case "ssub":
			return v.sat(t.args[0], st.Add(t.args[1], i))
		case "scat":
			n := v.slen(t.args[0])
			return st.Ite(st.Lt(i, n), v.sat(t.args[0], i), v.sat(t.args[1], st.Sub(i, n)))
		}
	}
	x := v.rawAt(t, i)
	v.typeFacts(types.Typ[types.Uint8], x)
	return x
}

// scat concatenates.
func (v *V) scat(a, b *Term) *Term {
	st := v.st
	sa, oka := v.litOf(a)
	sb, okb := v.litOf(b)
	if oka && okb {
		return v.strLit(sa + sb)
	}
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	if b.op == OApp && b.name == "scat" { // right-nested to left-nested
		return v.scat(v.scat(a, b.args[0]), b.args[1])
	}
	if okb && a.op == OApp && a.name == "scat" {
		if s2, ok := v.litOf(a.args[1]); ok {
			return v.scat(a.args[0], v.strLit(s2+sb))
		}
	}
	return st.App("scat", st.StrS, a, b)
}

// ssub is s[i:j].
func (v *V) ssub(s, i, j *Term) *Term {
	st := v.st
	if l, ok := v.litOf(s); ok && i.op == OInt && j.op == OInt {
		a, b := i.k.Int64(), j.k.Int64()
		if 0 <= a && a <= b && b <= int64(len(l)) {
			return v.strLit(l[a:b])
		}
	}
	if i.op == OInt && i.k.Sign() == 0 && j == v.slen(s) {
		return s
	}
	if s.op == OApp && s.name == "bstr" {
		return v.bstr(s.args[0], st.Add(s.args[1], i), st.Sub(j, i))
	}
	if s.op == OApp && s.name == "ssub" {
		return v.ssub(s.args[0], st.Add(s.args[1], i), st.Add(s.args[1], j))
	}
	return st.App("ssub", st.StrS, s, i, j)
}

// bstr is string(row[off:off+len]).
func (v *V) bstr(row, off, ln *Term) *Term {
	st := v.st
	if ln.op == OInt && ln.k.Sign() == 0 {
		return v.strLit("")
	}
	if row.op == OApp && row.name == "sbytes" && off.op == OInt && off.k.Sign() == 0 && ln == v.slen(row.args[0]) {
		return row.args[0]
	}
	if ln.op == OInt && ln.k.IsInt64() && ln.k.Int64() <= 64 && ln.k.Sign() > 0 {
		n := ln.k.Int64()
		bs := make([]byte, 0, n)
		for i := int64(0); i < n; i++ {
			c := st.Select(row, st.Add(off, st.Int(i)))
			if c.op != OInt || !c.k.IsInt64() {
				break
			}
			bs = append(bs, byte(c.k.Int64()))
		}
		if int64(len(bs)) == n {
			return v.strLit(string(bs))
		}
	}
	t := st.App("bstr", st.StrS, row, off, ln)
	if !v.typed[t] {
		v.typed[t] = true
		st.AddFact(t, st.Eq(v.rawLen(t), ln))
	}
	return t
}

// sbytes is the row of bytes of a string.
func (v *V) sbytes(s *Term) *Term {
	st := v.st
	if l, ok := v.litOf(s); ok && len(l) <= 4096 {
		row := st.ConstArr(st.arr(st.IntS, st.IntS), st.Int(0))
		if len(l) <= 64 {
			for i := 0; i < len(l); i++ {
				row = st.StoreT(row, st.Int(int64(i)), st.Int(int64(l[i])))
			}
			return row
		}
	}
	return st.App("sbytes", st.arr(st.IntS, st.IntS), s)
}

// ---- floats

func (v *V) fltLit(s string) *Term { return v.st.App("flt."+s, v.st.FltS) }

func (v *V) comm(name string, ret *Sort, a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return v.st.App(name, ret, a, b)
}
