//go:build go1.18

package qlang

import (
	"github.com/qiniu/text/tpl/interpreter.util"
	qlang "github.com/qiniu/text/tpl/qlang/spec"

	"github.com/qiniu/text/zzverif/v"
)

// The evaluation of a captured piece of code, abstractly: it depends on the
// state of the program, the interpreter it runs in, the rule and the code; it
// fails, panics, or pushes one value. It leaves the operand stack below as it
// was (a list of statements does so when the frame base is the top of the
// stack, which is a precondition).
//
//verif:immutable F:tpl/qlang/cl.Interpreter.stk F:tpl/qlang/cl.Interpreter.parent
//verif:keeps E:interface{} C:tpl/qlang/cl.Stack F:tpl/qlang/cl.Interpreter.defers F:tpl/qlang/cl.Interpreter.Recov F:tpl/qlang/cl.Interpreter.ret F:tpl/qlang/cl.Interpreter.base

//verif:uf
func evW(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) v.World {
	return w
}

//verif:uf
func evVal(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) interface{} {
	return nil
}

//verif:uf
func evErr(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) error {
	return nil
}

//verif:uf
func evPanics(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) bool {
	return false
}

//verif:uf
func evPV(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) interface{} {
	return nil
}

func evBad(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) bool {
	return evPanics(w, e, p, name, code) || evErr(w, e, p, name, code) != nil
}

func evFail(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) interface{} {
	if evPanics(w, e, p, name, code) {
		return evPV(w, e, p, name, code)
	}
	return evErr(w, e, p, name, code)
}

// What the code does to the deferred calls of the function it is in, to its
// result and to the panic to recover.
//
//verif:uf
func evDefers(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}, old *Defer) *Defer {
	return nil
}

//verif:uf
func evRet(w v.World, e interpreter.Engine, p *Interpreter, name string, code, old interface{}) interface{} {
	return nil
}

//verif:uf
func evRecovers(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) bool {
	return false
}

func evRecov(w v.World, e interpreter.Engine, p *Interpreter, name string, code, old interface{}) interface{} {
	if evRecovers(w, e, p, name, code) {
		return nil
	}
	return old
}

// It may leave an operand when it fails.
//
//verif:uf
func evJunk(w v.World, e interpreter.Engine, p *Interpreter, name string, code interface{}) bool {
	return false
}

// The interpreter in which the last statements were evaluated and its state
// when they began; verifName is any name.
//
//verif:keeps G:github.com/qiniu/text/tpl/qlang/cl.verifScope G:github.com/qiniu/text/tpl/qlang/cl.verifName G:github.com/qiniu/text/tpl/qlang/cl.verifVal G:github.com/qiniu/text/tpl/qlang/cl.verifHas
//verif:keeps G:github.com/qiniu/text/tpl/qlang/cl.verifBase G:github.com/qiniu/text/tpl/qlang/cl.verifDefers G:github.com/qiniu/text/tpl/qlang/cl.verifRet G:github.com/qiniu/text/tpl/qlang/cl.verifRecov
var (
	verifScope            *Interpreter
	verifName             string
	verifVal              interface{}
	verifHas              bool
	verifBase             int
	verifDefers           *Defer
	verifRet, verifRecov  interface{}
)

//verif:abs (github.com/qiniu/text/tpl/interpreter.util.Engine).EvalCode
func absEvalCode(e interpreter.Engine, ip interpreter.Interface, name string, code interface{}) error {
	p := ip.(*Interpreter)
	v.Requires("statements start at the frame base", v.Implies(name == "doc", p.base == len(*p.stk)))
	w := v.GetWorld()
	v.SetWorld(evW(w, e, p, name, code))
	if name == "doc" {
		verifScope = p
		verifVal, verifHas = p.vars[verifName]
		verifBase, verifDefers, verifRet, verifRecov = p.base, p.defers, p.ret, p.Recov
	}
	v.HavocHeap()
	p.defers = evDefers(w, e, p, name, code, p.defers)
	p.ret = evRet(w, e, p, name, code, p.ret)
	p.Recov = evRecov(w, e, p, name, code, p.Recov)
	if evBad(w, e, p, name, code) && evJunk(w, e, p, name, code) {
		p.stk.Push(nil)
	}
	if evPanics(w, e, p, name, code) {
		v.Panic(evPV(w, e, p, name, code))
	}
	if err := evErr(w, e, p, name, code); err != nil {
		return err
	}
	p.stk.Push(evVal(w, e, p, name, code))
	return nil
}

// ---- if

// The course of the branches br = cond, body, cond, body, ... from number i
// on: the state at the end, whether it fails, and the value.
//
//verif:spec
func ifW(w v.World, e interpreter.Engine, p *Interpreter, br []interface{}, i, n int, els interface{}) v.World {
	if i >= n {
		return bodyW(w, e, p, els)
	}
	c := br[2*i]
	w1 := evW(w, e, p, "expr", c)
	if evBad(w, e, p, "expr", c) || !v.TypeIs[bool](evVal(w, e, p, "expr", c)) {
		return w1
	}
	if v.Same(evVal(w, e, p, "expr", c), interface{}(true)) {
		return bodyW(w1, e, p, br[2*i+1])
	}
	return ifW(w1, e, p, br, i+1, n, els)
}

//verif:spec
func ifBad(w v.World, e interpreter.Engine, p *Interpreter, br []interface{}, i, n int, els interface{}) bool {
	if i >= n {
		return bodyBad(w, e, p, els)
	}
	c := br[2*i]
	w1 := evW(w, e, p, "expr", c)
	if evBad(w, e, p, "expr", c) || !v.TypeIs[bool](evVal(w, e, p, "expr", c)) {
		return true
	}
	if v.Same(evVal(w, e, p, "expr", c), interface{}(true)) {
		return bodyBad(w1, e, p, br[2*i+1])
	}
	return ifBad(w1, e, p, br, i+1, n, els)
}

//verif:spec
func ifVal(w v.World, e interpreter.Engine, p *Interpreter, br []interface{}, i, n int, els interface{}) interface{} {
	if i >= n {
		return bodyVal(w, e, p, els)
	}
	c := br[2*i]
	w1 := evW(w, e, p, "expr", c)
	if v.Same(evVal(w, e, p, "expr", c), interface{}(true)) {
		return bodyVal(w1, e, p, br[2*i+1])
	}
	return ifVal(w1, e, p, br, i+1, n, els)
}

func bodyW(w v.World, e interpreter.Engine, p *Interpreter, code interface{}) v.World {
	if code == nil {
		return w
	}
	return evW(w, e, p, "doc", code)
}

func bodyBad(w v.World, e interpreter.Engine, p *Interpreter, code interface{}) bool {
	return code != nil && evBad(w, e, p, "doc", code)
}

func bodyVal(w v.World, e interpreter.Engine, p *Interpreter, code interface{}) interface{} {
	if code == nil {
		return nil
	}
	return evVal(w, e, p, "doc", code)
}

// The operands of an if, from the top of the stack: whether there is an else
// branch and the branch, the number of elifs, and the conditions and bodies.
//
//verif:prop Q02
func propIf(p *Interpreter, ctx *interpreter.Context, k, ne, j int, els interface{}) {
	v.Requires("an interpreter", p != nil && p.stk != nil && ctx != nil && ctx.Engine != nil)
	stk := p.stk
	s := *stk
	m := len(s)
	base := p.base
	lo := m - 2 - ne - 2*(k+1)
	v.Requires("an else branch or none", 0 <= ne && ne <= 1 && m >= 2+ne && v.Same(s[m-1], interface{}(ne)))
	v.Requires("the else branch", v.Implies(ne == 1, v.Same(s[m-2], els)) && v.Implies(ne == 0, els == nil))
	v.Requires("the number of elifs", k >= 0 && v.Same(s[m-2-ne], interface{}(k)) && lo >= 0)
	v.Requires("a value below", 0 <= j && j < lo)
	below := s[j]
	br := append([]interface{}{}, s[lo:m-2-ne]...)
	w, e := v.GetWorld(), ctx.Engine
	wantW, wantBad, wantVal := ifW(w, e, p, br, 0, k+1, els), ifBad(w, e, p, br, 0, k+1, els), ifVal(w, e, p, br, 0, k+1, els)
	v.Inv(func(i int, args []interface{}) bool {
		return v.Seq(args[:i], br[:i])
	})
	v.Inv(func(args []interface{}) bool { return v.Disjoint(args, *stk) })
	v.Inv(func(i int) bool { return v.Disjoint(br, *stk) && p.base == base })
	v.Inv(func(args []interface{}) bool { return v.Seq(args, br) })
	v.Inv(func(i int) bool {
		w1 := v.GetWorld()
		return 0 <= i && i <= k+1 && len(*stk) == lo && v.Same((*stk)[j], below) && v.Same(ifW(w1, e, p, br, i, k+1, els), wantW) && ifBad(w1, e, p, br, i, k+1, els) == wantBad && v.Same(ifVal(w1, e, p, br, i, k+1, els), wantVal)
	})
	bad, _ := v.Try(func() { p.If(ctx) })
	v.Ensures("the conditions up to the first true one and its branch are evaluated, nothing else", v.Same(v.GetWorld(), wantW))
	v.Ensures("an error of these or a condition that is no boolean is one of the if", bad == wantBad)
	v.Ensures("one value is left", v.Implies(!bad, len(*stk) == lo+1 && v.Same((*stk)[lo], wantVal)))
	v.Ensures("the values below stay", v.Implies(!bad, v.Same((*stk)[j], below)))
	v.Ensures("the frame is restored", v.Implies(!bad, p.base == base))
}

// ---- && and ||

//verif:prop Q02
func propAnd(p *Interpreter, e interpreter.Engine, a, code interface{}, j int) {
	v.Requires("an interpreter", p != nil && p.stk != nil && e != nil)
	s := *p.stk
	m := len(s)
	v.Requires("the operands", m >= 2 && v.Same(s[m-2], a) && v.Same(s[m-1], code))
	v.Requires("a value below", 0 <= j && j < m-2)
	below, base := s[j], p.base
	w := v.GetWorld()
	bad, _ := v.Try(func() { p.And(e) })
	v.Ensures("a left operand that is no boolean is an error", v.Implies(!v.TypeIs[bool](a), bad && v.Same(v.GetWorld(), w)))
	if v.Same(a, interface{}(false)) {
		v.Ensures("false decides", !bad && v.Same(v.GetWorld(), w) && len(*p.stk) == m-1 && v.Same((*p.stk)[m-2], interface{}(false)))
	}
	if v.Same(a, interface{}(true)) {
		v.Ensures("the right operand is evaluated once", v.Same(v.GetWorld(), evW(w, e, p, "term3", code)) && bad == evBad(w, e, p, "term3", code))
		v.Ensures("it is the value", v.Implies(!bad, len(*p.stk) == m-1 && v.Same((*p.stk)[m-2], evVal(w, e, p, "term3", code))))
	}
	v.Ensures("the values below stay", v.Implies(!bad, v.Same((*p.stk)[j], below) && p.base == base))
}

//verif:prop Q02
func propOr(p *Interpreter, e interpreter.Engine, a, code interface{}, j int) {
	v.Requires("an interpreter", p != nil && p.stk != nil && e != nil)
	s := *p.stk
	m := len(s)
	v.Requires("the operands", m >= 2 && v.Same(s[m-2], a) && v.Same(s[m-1], code))
	v.Requires("a value below", 0 <= j && j < m-2)
	below, base := s[j], p.base
	w := v.GetWorld()
	bad, _ := v.Try(func() { p.Or(e) })
	v.Ensures("a left operand that is no boolean is an error", v.Implies(!v.TypeIs[bool](a), bad && v.Same(v.GetWorld(), w)))
	if v.Same(a, interface{}(true)) {
		v.Ensures("true decides", !bad && v.Same(v.GetWorld(), w) && len(*p.stk) == m-1 && v.Same((*p.stk)[m-2], interface{}(true)))
	}
	if v.Same(a, interface{}(false)) {
		v.Ensures("the right operand is evaluated once", v.Same(v.GetWorld(), evW(w, e, p, "term4", code)) && bad == evBad(w, e, p, "term4", code))
		v.Ensures("it is the value", v.Implies(!bad, len(*p.stk) == m-1 && v.Same((*p.stk)[m-2], evVal(w, e, p, "term4", code))))
	}
	v.Ensures("the values below stay", v.Implies(!bad, v.Same((*p.stk)[j], below) && p.base == base))
}

// ---- switch

//verif:uf
func op2Val(f func(a, b interface{}) interface{}, a, b interface{}) interface{} { return nil }

//verif:uf
func op2Bad(f func(a, b interface{}) interface{}, a, b interface{}) bool { return false }

//verif:uf
func op2PV(f func(a, b interface{}) interface{}, a, b interface{}) interface{} { return nil }

// An operator of the language: a function of its operands.
//
//verif:abs func(interface{},interface{})(interface{})
func absOp2(f func(a, b interface{}) interface{}, a, b interface{}) interface{} {
	if op2Bad(f, a, b) {
		v.Panic(op2PV(f, a, b))
	}
	return op2Val(f, a, b)
}

func eqTrue(eq func(a, b interface{}) interface{}, a, b interface{}) bool { return v.Same(op2Val(eq, a, b), interface{}(true)) }

//verif:spec
func swW(w v.World, e interpreter.Engine, p *Interpreter, eq func(a, b interface{}) interface{}, sv interface{}, br []interface{}, i, n int, els interface{}) v.World {
	if i >= n {
		return bodyW(w, e, p, els)
	}
	c := br[2*i]
	w1 := evW(w, e, p, "expr", c)
	if evBad(w, e, p, "expr", c) || op2Bad(eq, sv, evVal(w, e, p, "expr", c)) {
		return w1
	}
	if eqTrue(eq, sv, evVal(w, e, p, "expr", c)) {
		return bodyW(w1, e, p, br[2*i+1])
	}
	return swW(w1, e, p, eq, sv, br, i+1, n, els)
}

//verif:spec
func swBad(w v.World, e interpreter.Engine, p *Interpreter, eq func(a, b interface{}) interface{}, sv interface{}, br []interface{}, i, n int, els interface{}) bool {
	if i >= n {
		return bodyBad(w, e, p, els)
	}
	c := br[2*i]
	w1 := evW(w, e, p, "expr", c)
	if evBad(w, e, p, "expr", c) || op2Bad(eq, sv, evVal(w, e, p, "expr", c)) {
		return true
	}
	if eqTrue(eq, sv, evVal(w, e, p, "expr", c)) {
		return bodyBad(w1, e, p, br[2*i+1])
	}
	return swBad(w1, e, p, eq, sv, br, i+1, n, els)
}

//verif:spec
func swVal(w v.World, e interpreter.Engine, p *Interpreter, eq func(a, b interface{}) interface{}, sv interface{}, br []interface{}, i, n int, els interface{}) interface{} {
	if i >= n {
		return bodyVal(w, e, p, els)
	}
	c := br[2*i]
	w1 := evW(w, e, p, "expr", c)
	if eqTrue(eq, sv, evVal(w, e, p, "expr", c)) {
		return bodyVal(w1, e, p, br[2*i+1])
	}
	return swVal(w1, e, p, eq, sv, br, i+1, n, els)
}

//verif:prop Q02
func propSwitch(p *Interpreter, e interpreter.Engine, k, ne, j int, els interface{}, eq func(a, b interface{}) interface{}) {
	qlang.EQ = eq // == of the language: any function (its meaning is Q01)
	v.Requires("an interpreter", p != nil && p.stk != nil && e != nil && qlang.EQ != nil)
	stk := p.stk
	s := *stk
	m := len(s)
	base := p.base
	lo := m - 2 - ne - 2*k
	v.Requires("a default branch or none", 0 <= ne && ne <= 1 && m >= 2+ne && v.Same(s[m-1], interface{}(ne)))
	v.Requires("the default branch", v.Implies(ne == 1, v.Same(s[m-2], els)) && v.Implies(ne == 0, els == nil))
	v.Requires("the number of cases", k >= 0 && v.Same(s[m-2-ne], interface{}(k)) && lo >= 1)
	v.Requires("a value below", 0 <= j && j < lo-1)
	below, sc := s[j], s[lo-1]
	br := append([]interface{}{}, s[lo:m-2-ne]...)
	w0 := v.GetWorld()
	w, sv, bad0 := w0, interface{}(true), false
	if sc != nil {
		w, sv, bad0 = evW(w0, e, p, "expr", sc), evVal(w0, e, p, "expr", sc), evBad(w0, e, p, "expr", sc)
	}
	wantW, wantBad, wantVal := swW(w, e, p, eq, sv, br, 0, k, els), swBad(w, e, p, eq, sv, br, 0, k, els), swVal(w, e, p, eq, sv, br, 0, k, els)
	if bad0 {
		wantW, wantBad = w, true
	}
	v.Inv(func(i int, args []interface{}) bool {
		return v.Seq(args[:i], br[:i])
	})
	v.Inv(func(args []interface{}) bool { return v.Disjoint(args, *stk) })
	v.Inv(func(i int) bool { return v.Disjoint(br, *stk) && p.base == base })
	v.Inv(func(args []interface{}) bool { return v.Seq(args, br) })
	v.Inv(func(i int) bool {
		w1 := v.GetWorld()
		return 0 <= i && i <= k && len(*stk) == lo-1 && v.Same((*stk)[j], below) && v.Same(swW(w1, e, p, eq, sv, br, i, k, els), wantW) && swBad(w1, e, p, eq, sv, br, i, k, els) == wantBad && v.Same(swVal(w1, e, p, eq, sv, br, i, k, els), wantVal)
	})
	bad, _ := v.Try(func() { p.Switch(e) })
	v.Ensures("the value, the cases up to the first equal one and its branch are evaluated, nothing else", v.Same(v.GetWorld(), wantW))
	v.Ensures("an error of these is one of the switch", bad == wantBad)
	v.Ensures("one value is left", v.Implies(!bad, len(*stk) == lo && v.Same((*stk)[lo-1], wantVal)))
	v.Ensures("the values below stay", v.Implies(!bad, v.Same((*stk)[j], below)))
	v.Ensures("the frame is restored", v.Implies(!bad, p.base == base))
}
