//go:build go1.18

package qlang

import (
	"github.com/qiniu/text/tpl/interpreter.util"

	"github.com/qiniu/text/zzverif/v"
)

// ---- Q06: deferred calls

//verif:immutable F:tpl/qlang/cl.Function.Args F:tpl/qlang/cl.Function.fnb F:tpl/qlang/cl.Function.engine F:tpl/qlang/cl.Function.parent F:tpl/qlang/cl.Function.Variadic
//verif:immutable F:tpl/qlang/cl.Defer.next F:tpl/qlang/cl.Defer.src F:tpl/qlang/cl.Interpreter.vars

// The course of the deferred calls d and of those registered meanwhile: the
// last one first, each once; the state at the end, whether one of them fails,
// the failure (the last one), and the panic that is still to be recovered.
//
//verif:spec
func deferW(w v.World, e interpreter.Engine, p *Interpreter, d *Defer) v.World {
	if d == nil {
		return w
	}
	return deferW(evW(w, e, p, "expr", d.src), e, p, evDefers(w, e, p, "expr", d.src, d.next))
}

//verif:spec
func deferBad(w v.World, e interpreter.Engine, p *Interpreter, d *Defer) bool {
	if d == nil {
		return false
	}
	return evBad(w, e, p, "expr", d.src) || deferBad(evW(w, e, p, "expr", d.src), e, p, evDefers(w, e, p, "expr", d.src, d.next))
}

//verif:spec
func deferPV(w v.World, e interpreter.Engine, p *Interpreter, d *Defer) interface{} {
	if d == nil {
		return nil
	}
	w1, d1 := evW(w, e, p, "expr", d.src), evDefers(w, e, p, "expr", d.src, d.next)
	if deferBad(w1, e, p, d1) {
		return deferPV(w1, e, p, d1)
	}
	return evFail(w, e, p, "expr", d.src)
}

//verif:spec
func deferRecov(w v.World, e interpreter.Engine, p *Interpreter, d *Defer, rec interface{}) interface{} {
	if d == nil {
		return rec
	}
	return deferRecov(evW(w, e, p, "expr", d.src), e, p, evDefers(w, e, p, "expr", d.src, d.next), evRecov(w, e, p, "expr", d.src, rec))
}

//verif:spec
func deferRet(w v.World, e interpreter.Engine, p *Interpreter, d *Defer, ret interface{}) interface{} {
	if d == nil {
		return ret
	}
	return deferRet(evW(w, e, p, "expr", d.src), e, p, evDefers(w, e, p, "expr", d.src, d.next), evRet(w, e, p, "expr", d.src, ret))
}

//verif:prop Q05 Q06
//verif:opt init=no
//verif:lemma (*Interpreter).ExecDefers
func propExecDefers(p *Interpreter, e interpreter.Engine) {
	v.Requires("an interpreter", p != nil && p.stk != nil && e != nil)
	w, d, rec, ret := v.GetWorld(), p.defers, p.Recov, p.ret
	stk := append([]interface{}{}, (*p.stk)...)
	v.ModAll()
	v.MayPanic()
	v.Mod(&p.defers)
	v.Mod(&p.Recov)
	v.Mod(&p.ret)
	v.Mod(p.stk)
	v.ModElems(*p.stk)
	bad, pv := v.Try(func() { p.ExecDefers(e) })
	v.Ensures("the deferred calls run once each, the last one first", v.Same(v.GetWorld(), deferW(w, e, p, d)))
	v.Ensures("none is left", p.defers == nil)
	v.Ensures("all of them run even if one fails, the last failure counts", bad == deferBad(w, e, p, d) && v.Implies(bad, v.Same(pv, deferPV(w, e, p, d))))
	v.Ensures("what they recovered", v.Same(p.Recov, deferRecov(w, e, p, d, rec)))
	v.Ensures("what they returned", v.Same(p.ret, deferRet(w, e, p, d, ret)))
	v.Ensures("the operands below stay", len(*p.stk) >= len(stk) && v.Seq((*p.stk)[:len(stk)], stk))
	if bad {
		v.Panic(pv)
	}
}

// ---- Q05: script functions

// What the first i parameters bind the name to.
//
//verif:spec
func boundHas(params []string, i int, name string) bool {
	if i <= 0 {
		return false
	}
	return params[i-1] == name || boundHas(params, i-1, name)
}

//verif:spec
func boundVal(params []string, args []interface{}, i int, name string) interface{} {
	if i <= 0 {
		return nil
	}
	if params[i-1] == name {
		return args[i-1]
	}
	return boundVal(params, args, i-1, name)
}

// The call of a function with a body: the parameters are bound, the body is
// evaluated in a new scope inside that of the definition, the deferred calls
// run, the operands are those of before, and the result is the returned value.
// n is the number of parameters bound to one argument each.
func fnCall(f *Function, args []interface{}, name string, j int, n int) {
	e, w0, stk := f.engine, v.GetWorld(), f.parent.stk
	s := *stk
	m := len(s)
	v.Requires("a value below", 0 <= j && j < m)
	below := s[j]
	params := append([]string{}, f.Args...)
	given := append([]interface{}{}, args...)
	verifName = name
	fnb, parent := f.fnb, f.parent
	v.Inv(func(i int, vars map[string]interface{}) bool {
		val, has := vars[name]
		return 0 <= i && i <= n && has == boundHas(params, i, name) && v.Same(val, boundVal(params, given, i, name))
	})
	var r interface{}
	bad, pv := v.Try(func() { r = f.Call(args...) })
	p := verifScope
	w1, d1 := evW(w0, e, p, "doc", fnb), evDefers(w0, e, p, "doc", fnb, nil)
	returned := evPanics(w0, e, p, "doc", fnb) && v.Same(evPV(w0, e, p, "doc", fnb), interface{}(ErrReturn))
	failed := evPanics(w0, e, p, "doc", fnb) && !returned
	var rec interface{}
	if failed {
		rec = evPV(w0, e, p, "doc", fnb)
	}
	rec = deferRecov(w1, e, p, d1, rec)
	v.Ensures("a new scope in that of the definition", p.parent == parent && p.stk == stk && verifBase == m && verifDefers == nil && verifRet == nil && verifRecov == nil)
	if f.Variadic && name == params[n] {
		v.Ensures("the last parameter is bound to the list of the remaining arguments", verifHas && v.Same(verifVal, interface{}(args[n:])))
	} else {
		v.Ensures("the parameters are bound to the arguments, nothing else is", verifHas == boundHas(params, n, name) && v.Same(verifVal, boundVal(params, given, n, name)))
	}
	v.Ensures("the body is evaluated once and then the deferred calls", v.Same(v.GetWorld(), deferW(w1, e, p, d1)))
	if deferBad(w1, e, p, d1) {
		v.Ensures("a failure of a deferred call is one of the call", bad && v.Same(pv, deferPV(w1, e, p, d1)))
	} else if rec != nil {
		v.Ensures("a panic that is not recovered is one of the call", bad && v.Same(pv, rec))
	} else if !evPanics(w0, e, p, "doc", fnb) && evErr(w0, e, p, "doc", fnb) != nil {
		v.Ensures("an error of the body is one of the call", bad && v.Same(pv, interface{}(evErr(w0, e, p, "doc", fnb))))
	} else {
		v.Ensures("else the call ends with what was returned", !bad && v.Same(r, deferRet(w1, e, p, d1, evRet(w0, e, p, "doc", fnb, nil))))
		v.Ensures("and the operands of before", len(*stk) == m && v.Same((*stk)[j], below))
	}
}

//verif:prop Q05 Q06
//verif:opt init=no
//verif:opt nomodel=modelFnCall
func propCall(f *Function, args []interface{}, name string, j int) {
	v.Requires("a function", f != nil && f.fnb != nil && f.engine != nil && f.parent != nil && f.parent.stk != nil && ErrReturn != nil)
	v.Requires("the right number of arguments", !f.Variadic && len(args) == len(f.Args))
	fnCall(f, args, name, j, len(args))
}

//verif:prop Q05 Q06
//verif:opt init=no
//verif:opt nomodel=modelFnCall
func propCallVariadic(f *Function, args []interface{}, name string, j int) {
	v.Requires("a function", f != nil && f.fnb != nil && f.engine != nil && f.parent != nil && f.parent.stk != nil && ErrReturn != nil)
	v.Requires("at least as many arguments as parameters but the last", f.Variadic && len(f.Args) > 0 && len(args) >= len(f.Args)-1)
	fnCall(f, args, name, j, len(f.Args)-1)
}

//verif:prop Q05
//verif:opt init=no
//verif:opt nomodel=modelFnCall
func propCallArity(f *Function, args []interface{}) {
	v.Requires("a function", f != nil)
	n := len(f.Args)
	v.Requires("the wrong number of arguments", (!f.Variadic && len(args) != n) || (f.Variadic && len(args) < n-1))
	w := v.GetWorld()
	bad, _ := v.Try(func() { f.Call(args...) })
	v.Ensures("refused, nothing is evaluated", bad && v.Same(v.GetWorld(), w))
}

//verif:prop Q05
//verif:opt init=no
//verif:opt nomodel=modelFnCall
func propCallEmpty(f *Function, args []interface{}) {
	v.Requires("a function without statements", f != nil && f.fnb == nil)
	n := len(f.Args)
	v.Requires("the right number of arguments", (!f.Variadic && len(args) == n) || (f.Variadic && len(args) >= n-1))
	w := v.GetWorld()
	var r interface{}
	bad, _ := v.Try(func() { r = f.Call(args...) })
	v.Ensures("nothing", !bad && r == nil && v.Same(v.GetWorld(), w))
}

// return sets the result of the function and leaves it.
//
//verif:prop Q05
//verif:opt init=no
func propReturn(p *Interpreter, e interpreter.Engine, n int, x interface{}) {
	v.Requires("inside a function", p != nil && p.stk != nil && p.parent != nil && ErrReturn != nil)
	s := *p.stk
	m := len(s)
	v.Requires("a value or none", 0 <= n && n <= 1 && m > n && v.Same(s[m-1], interface{}(n)))
	if n == 1 {
		v.Requires("the value", v.Same(s[m-2], x))
	} else {
		v.Requires("no value", x == nil)
	}
	w, d := v.GetWorld(), p.defers
	bad, pv := v.Try(func() { p.Return(e) })
	v.Ensures("the function is left", bad && v.Same(pv, interface{}(ErrReturn)))
	v.Ensures("with the value", v.Same(p.ret, x))
	v.Ensures("the deferred calls are left to the function", v.Same(v.GetWorld(), w) && p.defers == d)
}

//verif:prop Q06
//verif:opt init=no
func propDefer(p, o *Interpreter, x interface{}) {
	v.Requires("an interpreter", p != nil && p.stk != nil && o != nil && o != p)
	s := *p.stk
	m := len(s)
	v.Requires("the call", m > 0 && v.Same(s[m-1], x))
	w, d, od := v.GetWorld(), p.defers, o.defers
	p.Defer()
	v.Ensures("it is the first to run", p.defers != nil && v.Same(p.defers.src, x) && p.defers.next == d)
	v.Ensures("when the function ends", v.Same(v.GetWorld(), w))
	v.Ensures("only this one", o.defers == od)
	v.Ensures("defer has no value", len(*p.stk) == m && (*p.stk)[m-1] == nil)
}

//verif:prop Q06
//verif:opt init=no
func propRecover(p *Interpreter) {
	v.Requires("inside a function", p != nil && p.stk != nil && p.parent != nil && p.parent != p)
	f, x, m := p.parent, p.parent.Recov, len(*p.stk)
	p.Recover()
	v.Ensures("the panic of the function it is in", len(*p.stk) == m+1 && v.Same((*p.stk)[m], x))
	v.Ensures("is stopped", f.Recov == nil)
}

//verif:prop Q05
//verif:opt init=no
func propFunction(p *Interpreter, e interpreter.Engine, n, k, i, j int, body, x interface{}) {
	v.Requires("an interpreter", p != nil && p.stk != nil)
	s := *p.stk
	m := len(s)
	lo := m - 3 - n
	v.Requires("parameters, their number, variadic or not, and the body", n >= 0 && lo >= 0 && v.Same(s[m-1], body) && v.Same(s[m-2], interface{}(k)) && v.Same(s[m-3], interface{}(n)))
	v.Requires("a value below and a parameter", 0 <= j && j < lo && 0 <= i && i < n && v.Same(s[lo+i], x))
	below := s[j]
	v.Inv(func(c int, a []string) bool {
		return v.Implies(c > i, v.TypeIs[string](x) && v.Same(interface{}(a[i]), x))
	})
	var err error
	bad, _ := v.Try(func() { err = p.Function(e) })
	if !bad {
		v.Ensures("one value", err == nil && len(*p.stk) == lo+1 && v.TypeIs[*Function]((*p.stk)[lo]))
		f := (*p.stk)[lo].(*Function)
		v.Ensures("a function with these parameters", len(f.Args) == n && v.Same(interface{}(f.Args[i]), x) && f.Variadic == (k != 0))
		v.Ensures("and this body, in the scope of its definition", v.Same(f.fnb, body) && f.parent == p && v.Same(f.engine, e))
		v.Ensures("the values below stay", v.Same((*p.stk)[j], below))
	}
}
