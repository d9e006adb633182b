//go:build go1.18

package qlang

import (
	"github.com/qiniu/text/tpl/interpreter.util"

	"github.com/qiniu/text/zzverif/v"
)

//verif:immutable F:tpl/qlang/cl.Object.vars F:tpl/qlang/cl.Object.Cls F:tpl/qlang/cl.Class.Fns F:tpl/qlang/cl.Class.engine F:tpl/qlang/cl.Class.parent F:tpl/qlang/cl.thisDeref.this F:tpl/qlang/cl.thisDeref.fn

// ---- Q07: objects

//verif:prop Q07
//verif:opt init=no
func propSetVar(o, other *Object, name string, x interface{}, n2 string) {
	v.Requires("an object", o != nil && o.Cls != nil && o.Cls.Fns != nil && o.vars != nil && other != nil && other.vars != nil)
	_, method := o.Cls.Fns[name]
	old := other.vars[n2]
	bad, _ := v.Try(func() { o.SetVar(name, x) })
	v.Ensures("a method is not overwritten", bad == method)
	v.Ensures("the field has the value", v.Implies(!bad, v.Same(o.vars[name], x)))
	v.Ensures("no other field changes", v.Implies(bad || n2 != name || !v.Same(o.vars, other.vars), v.Same(other.vars[n2], old)))
}

//verif:prop Q07
func propMember(p *Interpreter, o *Object, name string) {
	v.Requires("an object", p != nil && p.stk != nil && o != nil && o.Cls != nil && o.Cls.Fns != nil && o.vars != nil)
	n := len(*p.stk)
	p.stk.Push(o)
	field, has := o.vars[name]
	fn, method := o.Cls.Fns[name]
	var err error
	bad, _ := v.Try(func() { err = p.MemberRef(name) })
	v.Ensures("no panic", !bad)
	v.Ensures("an unknown member is an error", (err != nil) == (!has && !method))
	v.Ensures("one value for the object", v.Implies(err == nil, len(*p.stk) == n+1))
	if has {
		v.Ensures("its own field", v.Same((*p.stk)[n], field))
	} else if method {
		t, ok := (*p.stk)[n].(*thisDeref)
		v.Ensures("or the method of its class bound to it", ok && t.this == o && t.fn == fn)
	}
}

//verif:prop Q07
func propClassMember(p *Interpreter, c *Class, name string) {
	v.Requires("a class", p != nil && p.stk != nil && c != nil && c.Fns != nil)
	n := len(*p.stk)
	p.stk.Push(c)
	fn, has := c.Fns[name]
	var err error
	bad, _ := v.Try(func() { err = p.MemberRef(name) })
	v.Ensures("no panic", !bad)
	v.Ensures("an unknown method is an error", (err != nil) == !has)
	v.Ensures("the method", v.Implies(has, len(*p.stk) == n+1 && v.Same((*p.stk)[n], interface{}(fn))))
}

// ---- the call of a function, abstractly: its contract is Q05

//verif:uf
func fnW(w v.World, f *Function, n int) v.World { return w }

//verif:uf
func fnVal(w v.World, f *Function, n int) interface{} { return nil }

//verif:uf
func fnBad(w v.World, f *Function, n int) bool { return false }

//verif:uf
func fnPV(w v.World, f *Function, n int) interface{} { return nil }

//verif:keeps G:github.com/qiniu/text/tpl/qlang/cl.verifArgs
var verifArgs []interface{}

//verif:model (*github.com/qiniu/text/tpl/qlang/cl.Function).Call
func modelFnCall(f *Function, args ...interface{}) interface{} {
	w, n := v.GetWorld(), len(args)
	v.SetWorld(fnW(w, f, n))
	verifArgs = append([]interface{}{}, args...)
	v.HavocHeap()
	if fnBad(w, f, n) {
		v.Panic(fnPV(w, f, n))
	}
	return fnVal(w, f, n)
}

//verif:prop Q07
//verif:opt init=no
func propMethodCall(t *thisDeref, a []interface{}) {
	v.Requires("a bound method", t != nil && t.fn != nil)
	w, n := v.GetWorld(), len(a)
	this, f := t.this, t.fn
	given := append([]interface{}{}, a...)
	v.Inv(func(i int, args []interface{}) bool {
		return len(args) == n+1 && v.Same(args[0], interface{}(this)) && v.Seq(args[1:1+i], given[:i])
	})
	var r interface{}
	bad, pv := v.Try(func() { r = t.Call(a...) })
	v.Ensures("the method is called once", v.Same(v.GetWorld(), fnW(w, f, n+1)) && bad == fnBad(w, f, n+1) && v.Implies(bad, v.Same(pv, fnPV(w, f, n+1))))
	v.Ensures("with the object and the arguments", len(verifArgs) == n+1 && v.Same(verifArgs[0], interface{}(this)) && v.Seq(verifArgs[1:], given))
	v.Ensures("its result is that of the call", v.Implies(!bad, v.Same(r, fnVal(w, f, n+1))))
}

var _ interpreter.Engine

// ---- new

//verif:prop Q07
//verif:opt init=no
func propNew(p *Interpreter, c *Class, n, j int, name string) {
	newContract(p, c, n, 1, j, name)
}

//verif:prop Q07
//verif:opt init=no
func propNewNoArgs(p *Interpreter, c *Class, j int, name string) {
	newContract(p, c, 0, 0, j, name)
}

// The operands: the class; with arguments (has = 1) these and their number; has.
func newContract(p *Interpreter, c *Class, n, has, j int, name string) {
	v.Requires("a class", p != nil && p.stk != nil && c != nil && c.Fns != nil)
	stk := p.stk
	s := *stk
	m := len(s)
	lo := m - 1 - has - n - 1
	v.Requires("arguments or none", n >= 0 && lo >= 0 && v.Same(s[m-1], interface{}(has)) && v.Same(s[lo], interface{}(c)))
	if has == 1 {
		v.Requires("the number of arguments", v.Same(s[m-2], interface{}(n)))
	}
	v.Requires("a value below", 0 <= j && j < lo)
	given := append([]interface{}{}, s[lo+1:lo+1+n]...)
	below := s[j]
	ini, isIni := c.Fns["_init"]
	v.Requires("methods are functions", v.Implies(isIni, ini != nil))
	w := v.GetWorld()
	v.Inv(func(i int, a []interface{}) bool { return v.Implies(len(a) == n, v.Seq(a[:i], given[:i])) })
	v.Inv(func(i int, a []interface{}) bool {
		return v.Implies(len(a) == n+1, v.Seq(a[1:1+i], given[:i]))
	})
	v.Inv(func(a []interface{}) bool { return v.Disjoint(a, *stk) })
	v.Inv(func(t *thisDeref, a []interface{}) bool {
		return v.Implies(len(a) == n+1, v.Same(a[0], interface{}(t.this)))
	})
	var err error
	bad, pv := v.Try(func() { err = p.New() })
	if isIni {
		v.Ensures("the initialiser runs once", v.Same(v.GetWorld(), fnW(w, ini, n+1)) && bad == fnBad(w, ini, n+1) && v.Implies(bad, v.Same(pv, fnPV(w, ini, n+1))))
		v.Ensures("with the given arguments", len(verifArgs) == n+1 && v.Seq(verifArgs[1:], given))
	} else {
		v.Ensures("nothing runs", !bad && v.Same(v.GetWorld(), w))
	}
	if !bad {
		v.Ensures("one value", err == nil && len(*stk) == lo+1 && v.TypeIs[*Object]((*stk)[lo]))
		o := (*stk)[lo].(*Object)
		v.Ensures("a new object of the class", v.IsNew(o) && o.Cls == c)
		if isIni {
			v.Ensures("that is initialised", v.Same(verifArgs[0], interface{}(o)))
		} else {
			_, set := o.vars[name]
			v.Ensures("without fields", o.vars != nil && !set)
		}
		v.Ensures("the values below stay", v.Same((*stk)[j], below))
	}
}

//verif:prop Q07
//verif:opt init=no
func propNewNotClass(p *Interpreter, x interface{}) {
	v.Requires("no class", p != nil && p.stk != nil && !v.TypeIs[*Class](x) && ErrNewObjectWithNotClass != nil && ErrNewWithoutClassName != nil)
	s := *p.stk
	v.Requires("no arguments", len(s) >= 2 && v.Same(s[len(s)-1], interface{}(0)) && v.Same(s[len(s)-2], x))
	w := v.GetWorld()
	var err error
	bad, _ := v.Try(func() { err = p.New() })
	v.Ensures("an error, nothing runs", (bad || err != nil) && v.Same(v.GetWorld(), w))
}

// ---- class declarations

//verif:prop Q07
//verif:opt init=no
func propMemberFuncDecl(p *Interpreter, n, k, i, j int, body, x interface{}) {
	v.Requires("an interpreter", p != nil && p.stk != nil)
	s := *p.stk
	m := len(s)
	lo := m - 3 - n - 1
	v.Requires("name, parameters, their number, variadic or not, and the body", n >= 0 && lo >= 0 && v.Same(s[m-1], body) && v.Same(s[m-2], interface{}(k)) && v.Same(s[m-3], interface{}(n)))
	v.Requires("a value below, the name or a parameter", 0 <= j && j < lo && 0 <= i && i <= n && v.Same(s[lo+i], x))
	below := s[j]
	v.Inv(func(c int, a []string) bool {
		return v.Implies(c > i, v.TypeIs[string](x) && v.Same(interface{}(a[i]), x))
	})
	var err error
	bad, _ := v.Try(func() { err = p.MemberFuncDecl() })
	if !bad {
		v.Ensures("one value", err == nil && len(*p.stk) == lo+1 && v.TypeIs[*FunctionInfo]((*p.stk)[lo]))
		f := (*p.stk)[lo].(*FunctionInfo)
		v.Ensures("a method with this name and these parameters", len(f.args) == n+1 && v.Same(interface{}(f.args[i]), x) && f.variadic == (k != 0))
		v.Ensures("and this body", v.Same(f.fnb, body))
		v.Ensures("the values below stay", v.Same((*p.stk)[j], below))
	}
}

//verif:prop Q07
//verif:opt init=no
func propSetMemberVar(o *Object, n1, n2 string, x1, x2 interface{}) {
	v.Requires("an object", o != nil && o.Cls != nil && o.Cls.Fns != nil && o.vars != nil && n1 != n2)
	_, m1 := o.Cls.Fns[n1]
	_, m2 := o.Cls.Fns[n2]
	bad, _ := v.Try(func() { SetMemberVar(o, n1, x1, n2, x2) })
	v.Ensures("a method is not overwritten", bad == (m1 || m2))
	v.Ensures("the fields have the values", v.Implies(!bad, v.Same(o.vars[n1], x1) && v.Same(o.vars[n2], x2)))
}

// A declaration with two methods (any: the names, parameters and bodies).
//
//verif:prop Q07
//verif:opt init=no
func propClassDecl(p *Interpreter, e interpreter.Engine, a, b *FunctionInfo, i int) {
	v.Requires("two methods", p != nil && p.stk != nil && a != nil && b != nil && a != b && len(a.args) > 0 && len(b.args) > 0 && v.Disjoint(a.args, b.args))
	v.Requires("a parameter", 0 < i && i < len(a.args))
	m := len(*p.stk)
	na, nb, ai, bv, la := a.args[0], b.args[0], a.args[i], b.variadic, len(a.args)
	p.stk.Push(a)
	p.stk.Push(b)
	p.stk.Push(2)
	bad, _ := v.Try(func() { p.Class(e) })
	v.Ensures("one value, a class", !bad && len(*p.stk) == m+1 && v.TypeIs[*Class]((*p.stk)[m]))
	c := (*p.stk)[m].(*Class)
	fa, fb := c.Fns[na], c.Fns[nb]
	v.Ensures("has the methods, a later one replaces an earlier one of that name", fb != nil && v.Same(fb.fnb, b.fnb) && fb.Variadic == bv && fb.Cls == c && fb.parent == p && v.Same(fb.engine, e))
	if na != nb {
		v.Ensures("each with its parameters and body", fa != nil && v.Same(fa.fnb, a.fnb) && len(fa.Args) == la && fa.Args[0] == "this" && fa.Args[i] == ai && fa.Cls == c && fa.parent == p && v.Same(fa.engine, e))
	}
	v.Ensures("the first parameter is the object", fb.Args[0] == "this")
}

//verif:prop Q07
//verif:opt init=no
func propClassNames(p *Interpreter, e interpreter.Engine, a, b *FunctionInfo, other string) {
	v.Requires("two methods", p != nil && p.stk != nil && a != nil && b != nil && a != b && len(a.args) > 0 && len(b.args) > 0 && v.Disjoint(a.args, b.args))
	v.Requires("another name", other != a.args[0] && other != b.args[0])
	m := len(*p.stk)
	p.stk.Push(a)
	p.stk.Push(b)
	p.stk.Push(2)
	bad, _ := v.Try(func() { p.Class(e) })
	v.Ensures("one value, a class", !bad && len(*p.stk) == m+1 && v.TypeIs[*Class]((*p.stk)[m]))
	_, has := (*p.stk)[m].(*Class).Fns[other]
	v.Ensures("no other method", !has)
}
