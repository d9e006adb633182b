package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// native models of library functions the contracts rely on.
var nativeModels map[string]func(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome

func init() {
	nativeModels = map[string]func(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome{
		"errors.New":                mErrorsNew,
		"reflect.TypeOf":            mTypeOf,
		"reflect.Zero":              mZero,
		"(reflect.Value).Type":      mValueType,
		"(reflect.Value).Complex":   mComplex,
		"(reflect.Value).String":    mString,
		"(reflect.Value).Bool":      mBool,
		"reflect.ValueOf":           mIdent,
		"(reflect.Value).Interface": mInterface,
		"(reflect.Value).Kind":      mKind,
		"(reflect.Value).Float":     mFloat,
		"(reflect.Value).Int":       mInt,
		"(reflect.Value).Uint":      mUint,
		"(reflect.Value).IsValid":   mIsValid,
	}
}

// mErrorsNew: a new error object carrying the text.
func mErrorsNew(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	s := v.st
	r := s.Cons(s.AnyS, v.typeID(errStringType()), v.newObj(st))
	s.AddFact(r, s.Eq(s.App("err.text", s.StrS, r), v.term(st, args[0])))
	return v.ret(st, r)
}

func mIdent(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.term(st, args[0]))
}

func mIsValid(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.st.Not(v.st.Eq(v.st.Sel(v.term(st, args[0]), 0), v.st.Int(0))))
}

func kindOfType(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (v *V) kindOf(ty *Term) *Term {
	s := v.st
	if ty.op == OIte {
		return s.Ite(ty.args[0], v.kindOf(ty.args[1]), v.kindOf(ty.args[2]))
	}
	if ty.op == OInt && ty.k.Sign() == 0 {
		return s.Int(0)
	}
	if ct := v.typeOfID(ty); ct != nil {
		return s.Int(int64(kindOfType(ct)))
	}
	k := s.App("kind", s.IntS, ty)
	if !v.typed[k] {
		v.typed[k] = true
		s.AddFact(k, s.Le(s.Int(0), k))
		s.AddFact(k, s.Le(k, s.Int(26)))
		s.AddFact(k, s.Eq(s.Eq(k, s.Int(0)), s.Eq(ty, s.Int(0))))
	}
	return k
}

func mKind(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.kindOf(v.st.Sel(v.term(st, args[0]), 0)))
}

// ofKind: a method of reflect.Value for some kinds only; a panic for others.
func (v *V) ofKind(st *State, x *Term, lo, hi reflect.Kind, what, pos string, f func() *Term) []Outcome {
	s := v.st
	k := v.kindOf(s.Sel(x, 0))
	bad := s.Not(s.And(s.Le(s.Int(int64(lo)), k), s.Le(k, s.Int(int64(hi)))))
	if bad == s.False || !v.feasible(st, bad) {
		return v.ret(st, f())
	}
	b := st.clone()
	b.assume(bad)
	outs := []Outcome{{kind: oPanic, st: b, pv: v.runtimeErr("wrong kind"), why: what + " of a reflect.Value of another kind at " + pos}}
	if !v.feasible(st, s.Not(bad)) {
		return outs
	}
	st.assume(s.Not(bad))
	return append(outs, v.ret(st, f())...)
}

func mFloat(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	x := v.term(st, args[0])
	return v.ofKind(st, x, reflect.Float32, reflect.Float64, "Float", pos, func() *Term { return v.unbox(types.Typ[types.Float64], v.st.Sel(x, 1)) })
}

func mInt(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	x := v.term(st, args[0])
	return v.ofKind(st, x, reflect.Int, reflect.Int64, "Int", pos, func() *Term { return v.st.Sel(x, 1) })
}

func mUint(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	x := v.term(st, args[0])
	return v.ofKind(st, x, reflect.Uint, reflect.Uintptr, "Uint", pos, func() *Term { return v.st.Sel(x, 1) })
}

func mComplex(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.unbox(types.Typ[types.Complex128], v.st.Sel(v.term(st, args[0]), 1)))
}

func mString(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.unbox(types.Typ[types.String], v.st.Sel(v.term(st, args[0]), 1)))
}

func mBool(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.unbox(types.Typ[types.Bool], v.st.Sel(v.term(st, args[0]), 1)))
}

// rtype makes a reflect.Type of a type number (nil for number 0).
func (v *V) rtype(id *Term) *Term {
	s := v.st
	if id.op == OInt {
		if id.k.Sign() == 0 {
			return v.nilAny()
		}
		return s.Cons(s.AnyS, v.typeID(rtypeType()), id)
	}
	return s.Cons(s.AnyS, s.Ite(s.Eq(id, s.Int(0)), s.Int(0), v.typeID(rtypeType())), id)
}

func mTypeOf(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	return v.ret(st, v.rtype(v.st.Sel(v.term(st, args[0]), 0)))
}

// mValueType: the type of a valid Value; a panic on the zero Value.
func mValueType(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	s := v.st
	id := s.Sel(v.term(st, args[0]), 0)
	ok := s.Cons(s.AnyS, v.typeID(rtypeType()), id)
	bad := s.Eq(id, s.Int(0))
	if bad == s.False || !v.feasible(st, bad) {
		return v.ret(st, ok)
	}
	b := st.clone()
	b.assume(bad)
	outs := []Outcome{{kind: oPanic, st: b, pv: v.runtimeErr("zero Value"), why: "Type of the zero reflect.Value at " + pos}}
	if !v.feasible(st, s.Not(bad)) {
		return outs
	}
	st.assume(s.Not(bad))
	return append(outs, v.ret(st, ok)...)
}

// mZero: the zero value of a type. That of an interface type is a Value of
// that type (interface kind), whose content is nil.
func mZero(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	s := v.st
	id := s.Sel(v.term(st, args[0]), 1)
	if ct := v.typeOfID(id); ct != nil {
		if types.IsInterface(ct) {
			return v.ret(st, s.Cons(s.AnyS, id, s.Int(0)))
		}
		return v.ret(st, v.mkAny(ct, v.zero(ct)))
	}
	return v.ret(st, s.Cons(s.AnyS, id, s.App("zeroOf", s.IntS, id)))
}

func mInterface(v *V, st *State, fr *Frame, fn *ssa.Function, args []Value, pos string) []Outcome {
	x := v.term(st, args[0])
	if ct := v.typeOfID(v.st.Sel(x, 0)); ct != nil && types.IsInterface(ct) {
		return v.ret(st, v.nilAny())
	}
	return v.ret(st, x)
}

// rtypeMethod: methods of reflect.Type on a type number.
func (v *V) rtypeMethod(st *State, name string, recv *Term, args []Value, pos string) []Outcome {
	s := v.st
	id := s.Sel(recv, 1)
	ct := v.typeOfID(id)
	num := func(n string, as ...*Term) *Term {
		t := s.App("rtype."+n, s.IntS, append([]*Term{id}, as...)...)
		if !v.typed[t] {
			v.typed[t] = true
			s.AddFact(t, s.Le(s.Int(0), t))
			s.AddFact(t, s.Le(t, s.Int(1<<20)))
		}
		return t
	}
	some := func(n string, as ...*Term) []Outcome {
		t := num(n, as...)
		s.AddFact(t, s.Le(s.Int(1), t))
		return v.ret(st, s.Cons(s.AnyS, v.typeID(rtypeType()), t))
	}
	var sig *types.Signature
	if ct != nil {
		sig, _ = ct.Underlying().(*types.Signature)
	}
	switch name {
	case "Kind":
		return v.ret(st, v.kindOf(id))
	case "String", "Name", "PkgPath":
		return v.ret(st, s.App("rtype."+name, s.StrS, id))
	case "NumIn", "NumOut", "NumMethod":
		if sig != nil && name == "NumIn" {
			return v.ret(st, s.Int(int64(sig.Params().Len())))
		}
		if sig != nil && name == "NumOut" {
			return v.ret(st, s.Int(int64(sig.Results().Len())))
		}
		t := num(name)
		if name == "NumIn" {
			va := s.App("rtype.IsVariadic", s.BoolS, id)
			s.AddFact(va, s.Implies(va, s.Le(s.Int(1), t)))
		}
		return v.ret(st, t)
	case "IsVariadic":
		if sig != nil {
			return v.ret(st, s.Bool(sig.Variadic()))
		}
		num("NumIn")
		va := s.App("rtype.IsVariadic", s.BoolS, id)
		s.AddFact(va, s.Implies(va, s.Le(s.Int(1), num("NumIn"))))
		return v.ret(st, va)
	case "In", "Out":
		i := v.term(st, args[0])
		if sig != nil && i.op == OInt && i.k.IsInt64() {
			tu := sig.Params()
			if name == "Out" {
				tu = sig.Results()
			}
			if k := int(i.k.Int64()); k >= 0 && k < tu.Len() {
				return v.ret(st, s.Cons(s.AnyS, v.typeID(rtypeType()), v.typeID(tu.At(k).Type())))
			}
		}
		n := num("Num" + name)
		if name == "In" {
			s.AddFact(n, s.True)
		}
		bad := s.Or(s.Lt(i, s.Int(0)), s.Le(n, i))
		if v.feasible(st, bad) {
			b := st.clone()
			b.assume(bad)
			outs := []Outcome{{kind: oPanic, st: b, pv: v.runtimeErr("index out of range"), why: "reflect.Type." + name + " out of range at " + pos}}
			if !v.feasible(st, s.Not(bad)) {
				return outs
			}
			st.assume(s.Not(bad))
			return append(outs, some(name, i)...)
		}
		return some(name, i)
	case "Elem":
		if ct != nil {
			switch u := ct.Underlying().(type) {
			case *types.Slice:
				return v.ret(st, s.Cons(s.AnyS, v.typeID(rtypeType()), v.typeID(u.Elem())))
			case *types.Pointer:
				return v.ret(st, s.Cons(s.AnyS, v.typeID(rtypeType()), v.typeID(u.Elem())))
			case *types.Map:
				return v.ret(st, s.Cons(s.AnyS, v.typeID(rtypeType()), v.typeID(u.Elem())))
			}
		}
		return some(name)
	case "Key":
		if ct != nil {
			if u, ok := ct.Underlying().(*types.Map); ok {
				return v.ret(st, s.Cons(s.AnyS, v.typeID(rtypeType()), v.typeID(u.Key())))
			}
		}
		return some(name)
	}
	panic(unsupported("reflect.Type method " + name + " at " + pos))
}
