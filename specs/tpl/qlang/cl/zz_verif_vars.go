//go:build go1.18

package qlang

import (
	qlang "github.com/qiniu/text/tpl/qlang/spec"

	"github.com/qiniu/text/zzverif/v"
)

// nearest: the first scope from t outwards that has the name.
//
//verif:spec
func nearest(t *Interpreter, name string) *Interpreter {
	if t == nil {
		return nil
	}
	if _, ok := t.vars[name]; ok {
		return t
	}
	return nearest(t.parent, name)
}

// A scope that read a variable of an outer one refers to it there.
func holder(t *Interpreter, name string) map[string]interface{} {
	if e, ok := t.vars[name].(externVar); ok {
		return e.vars
	}
	return t.vars
}

// The scope seen from p: its own, or the nearest outer one unless the name is private.
func visible(p *Interpreter, name string) *Interpreter {
	if _, ok := p.vars[name]; ok {
		return p
	}
	if name[0] == '_' {
		return nil
	}
	return nearest(p.parent, name)
}

//verif:prop Q04
//verif:opt init=no
func propRef(p *Interpreter, name, other string, tbl map[string]interface{}) {
	qlang.Fntable = tbl // the functions of the language: any table
	v.Requires("an interpreter", p != nil && p.stk != nil && p.vars != nil && tbl != nil && len(name) > 0 && name != "unset" && other != name)
	n := len(*p.stk)
	t := visible(p, name)
	want, has := tbl[name]
	var in map[string]interface{}
	if t != nil {
		in = holder(t, name)
		want, has = in[name], true
		v.Requires("a referred variable is a value", !v.TypeIs[externVar](want))
	}
	o := p.vars[other]
	r := nearest(p.parent, name)
	v.Inv(func(t *Interpreter) bool { return nearest(t, name) == r })
	bad, _ := v.Try(func() { p.Ref(name) })
	v.Ensures("the value in the nearest scope that has it, or a function of the language", v.Implies(has, !bad && len(*p.stk) == n+1 && v.Same((*p.stk)[n], want)))
	v.Ensures("a name defined nowhere is an error", v.Implies(!has, bad))
	if t != nil {
		v.Ensures("from now on the scope refers to that variable", v.Same(holder(p, name), in) || t == p)
		v.Ensures("which keeps its value", v.Same(in[name], want) || v.Same(in, p.vars))
	}
	v.Ensures("no other variable changes", v.Same(p.vars[other], o))
}

// The scope whose variable an assignment in p writes.
func target(p *Interpreter, name string) map[string]interface{} {
	if _, ok := p.vars[name]; ok {
		return holder(p, name)
	}
	return p.vars
}

// Only an outer scope has the variable and p did not read it.
func refused(p *Interpreter, name string) bool {
	_, ok := p.vars[name]
	return !ok && name[0] != '_' && nearest(p.parent, name) != nil
}

// A variable of any scope.
type anyVar struct {
	vars map[string]interface{}
	name string
}

func (a anyVar) is(m map[string]interface{}, name string) bool {
	return v.Same(a.vars, m) && a.name == name
}

//verif:prop Q04
//verif:opt init=no
func propAssign(p *Interpreter, name string, x interface{}, av anyVar, j int) {
	v.Requires("an interpreter", p != nil && p.stk != nil && p.vars != nil && len(name) > 0 && av.vars != nil)
	s := *p.stk
	n := len(s)
	v.Requires("a value to assign", n > 0 && v.Same(s[n-1], x))
	v.Requires("a value below", 0 <= j && j < n-1)
	below := s[j]
	no, in, old := refused(p, name), target(p, name), av.vars[av.name]
	v.Requires("a scope", in != nil)
	r := nearest(p.parent, name)
	v.Inv(func(t *Interpreter) bool { return nearest(t, name) == r })
	var err error
	bad, _ := v.Try(func() { err = p.Assign(name) })
	v.Ensures("the variable only an outer scope has is refused", bad == no)
	v.Ensures("the variable of the scope gets the value", v.Implies(!no, err == nil && v.Same(in[name], x)))
	v.Ensures("the value is that of the assignment", v.Implies(!no, len(*p.stk) == n && v.Same((*p.stk)[n-1], x) && v.Same((*p.stk)[j], below)))
	v.Ensures("no other variable changes", v.Implies(no || !av.is(in, name), v.Same(av.vars[av.name], old)))
}

//verif:prop Q04
//verif:opt init=no
func propAssignRead(p *Interpreter, name string, x interface{}) {
	v.Requires("an interpreter", p != nil && p.stk != nil && p.vars != nil && len(name) > 0 && name != "unset")
	s := *p.stk
	n := len(s)
	v.Requires("a value to assign", n > 0 && v.Same(s[n-1], x) && !v.TypeIs[externVar](x))
	v.Requires("it may be assigned", !refused(p, name) && target(p, name) != nil)
	v.Requires("a reference is to another scope", v.Same(target(p, name), p.vars) == !v.TypeIs[externVar](p.vars[name]))
	r := nearest(p.parent, name)
	v.Inv(func(t *Interpreter) bool { return nearest(t, name) == r })
	bad, _ := v.Try(func() {
		p.Assign(name)
		p.Ref(name)
	})
	v.Ensures("a variable reads as what was assigned", !bad && len(*p.stk) == n+1 && v.Same((*p.stk)[n], x))
}

//verif:uf
func op1Val(f func(a interface{}) interface{}, a interface{}) interface{} { return nil }

//verif:uf
func op1Bad(f func(a interface{}) interface{}, a interface{}) bool { return false }

//verif:uf
func op1PV(f func(a interface{}) interface{}, a interface{}) interface{} { return nil }

// An operator of the language: a function of its operand.
//
//verif:abs func(interface{})(interface{})
func absOp1(f func(a interface{}) interface{}, a interface{}) interface{} {
	if op1Bad(f, a) {
		v.Panic(op1PV(f, a))
	}
	return op1Val(f, a)
}

// v op= x: the operator is applied to the value the variable has and x.
func opAssign(p *Interpreter, name string, x interface{}, av anyVar, j int, op func(a, b interface{}) interface{}, run func() error) {
	v.Requires("an interpreter", p != nil && p.stk != nil && p.vars != nil && len(name) > 0 && av.vars != nil && op != nil)
	s := *p.stk
	n := len(s)
	v.Requires("an operand", n > 0 && v.Same(s[n-1], x))
	v.Requires("a value below", 0 <= j && j < n-1)
	below := s[j]
	in, old := target(p, name), av.vars[av.name]
	_, has := p.vars[name]
	v.Requires("a scope", in != nil)
	cur := in[name]
	want := op2Val(op, cur, x)
	var err error
	bad, _ := v.Try(func() { err = run() })
	v.Ensures("only a variable of the scope, or one read here, is updated", v.Implies(!has, bad))
	v.Ensures("an error of the operator is one of the assignment", v.Implies(has, bad == op2Bad(op, cur, x)))
	v.Ensures("the variable gets the result", v.Implies(!bad, err == nil && v.Same(in[name], want)))
	v.Ensures("the result is the value of the assignment", v.Implies(!bad, len(*p.stk) == n && v.Same((*p.stk)[n-1], want) && v.Same((*p.stk)[j], below)))
	v.Ensures("no other variable changes", v.Implies(bad || !av.is(in, name), v.Same(av.vars[av.name], old)))
}

func opAssign1(p *Interpreter, name string, av anyVar, j int, op func(a interface{}) interface{}, run func() error) {
	v.Requires("an interpreter", p != nil && p.stk != nil && p.vars != nil && len(name) > 0 && av.vars != nil && op != nil)
	s := *p.stk
	n := len(s)
	v.Requires("a value below", 0 <= j && j < n)
	below := s[j]
	in, old := target(p, name), av.vars[av.name]
	_, has := p.vars[name]
	v.Requires("a scope", in != nil)
	cur := in[name]
	want := op1Val(op, cur)
	var err error
	bad, _ := v.Try(func() { err = run() })
	v.Ensures("only a variable of the scope, or one read here, is updated", v.Implies(!has, bad))
	v.Ensures("an error of the operator is one of the assignment", v.Implies(has, bad == op1Bad(op, cur)))
	v.Ensures("the variable gets the result", v.Implies(!bad, err == nil && v.Same(in[name], want)))
	v.Ensures("the result is the value of the assignment", v.Implies(!bad, len(*p.stk) == n+1 && v.Same((*p.stk)[n], want) && v.Same((*p.stk)[j], below)))
	v.Ensures("no other variable changes", v.Implies(bad || !av.is(in, name), v.Same(av.vars[av.name], old)))
}

//verif:prop Q04
//verif:opt init=no
func propAddAssign(p *Interpreter, name string, x interface{}, av anyVar, j int, op func(a, b interface{}) interface{}) {
	qlang.Add = op
	opAssign(p, name, x, av, j, op, func() error { return p.AddAssign(name) })
}

//verif:prop Q04
//verif:opt init=no
func propSubAssign(p *Interpreter, name string, x interface{}, av anyVar, j int, op func(a, b interface{}) interface{}) {
	qlang.Sub = op
	opAssign(p, name, x, av, j, op, func() error { return p.SubAssign(name) })
}

//verif:prop Q04
//verif:opt init=no
func propMulAssign(p *Interpreter, name string, x interface{}, av anyVar, j int, op func(a, b interface{}) interface{}) {
	qlang.Mul = op
	opAssign(p, name, x, av, j, op, func() error { return p.MulAssign(name) })
}

//verif:prop Q04
//verif:opt init=no
func propQuoAssign(p *Interpreter, name string, x interface{}, av anyVar, j int, op func(a, b interface{}) interface{}) {
	qlang.Quo = op
	opAssign(p, name, x, av, j, op, func() error { return p.QuoAssign(name) })
}

//verif:prop Q04
//verif:opt init=no
func propModAssign(p *Interpreter, name string, x interface{}, av anyVar, j int, op func(a, b interface{}) interface{}) {
	qlang.Mod = op
	opAssign(p, name, x, av, j, op, func() error { return p.ModAssign(name) })
}

//verif:prop Q04
//verif:opt init=no
func propInc(p *Interpreter, name string, av anyVar, j int, op func(a interface{}) interface{}) {
	qlang.Inc = op
	opAssign1(p, name, av, j, op, func() error { return p.Inc(name) })
}

//verif:prop Q04
//verif:opt init=no
func propDec(p *Interpreter, name string, av anyVar, j int, op func(a interface{}) interface{}) {
	qlang.Dec = op
	opAssign1(p, name, av, j, op, func() error { return p.Dec(name) })
}
