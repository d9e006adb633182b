//go:build go1.18

package qlang

import (
	"github.com/qiniu/text/tpl/interpreter.util"

	"github.com/qiniu/text/zzverif/v"
)

// The course of a loop from the condition on: the state in which it ends and
// whether it fails. Without a condition it only ends by failing.
//
//verif:spec
func forW(w v.World, e interpreter.Engine, p *Interpreter, cond, body, step interface{}) v.World {
	w1 := w
	if cond != nil {
		w1 = evW(w, e, p, "s", cond)
		if evBad(w, e, p, "s", cond) || !v.Same(evVal(w, e, p, "s", cond), interface{}(true)) {
			return w1
		}
	}
	w2 := bodyW(w1, e, p, body)
	if bodyBad(w1, e, p, body) {
		return w2
	}
	w3 := stmtW(w2, e, p, step)
	if stmtBad(w2, e, p, step) {
		return w3
	}
	return forW(w3, e, p, cond, body, step)
}

//verif:spec
func forBad(w v.World, e interpreter.Engine, p *Interpreter, cond, body, step interface{}) bool {
	w1 := w
	if cond != nil {
		w1 = evW(w, e, p, "s", cond)
		if evBad(w, e, p, "s", cond) || !v.TypeIs[bool](evVal(w, e, p, "s", cond)) {
			return true
		}
		if !v.Same(evVal(w, e, p, "s", cond), interface{}(true)) {
			return false
		}
	}
	w2 := bodyW(w1, e, p, body)
	if bodyBad(w1, e, p, body) {
		return true
	}
	if stmtBad(w2, e, p, step) {
		return true
	}
	return forBad(stmtW(w2, e, p, step), e, p, cond, body, step)
}

func stmtW(w v.World, e interpreter.Engine, p *Interpreter, code interface{}) v.World {
	if code == nil {
		return w
	}
	return evW(w, e, p, "s", code)
}

func stmtBad(w v.World, e interpreter.Engine, p *Interpreter, code interface{}) bool {
	return code != nil && evBad(w, e, p, "s", code)
}

// The operands: init, cond, step (n = 3), cond (n = 1) or nothing (n = 0), n,
// and the body.
//
//verif:prop Q03
//verif:opt nounroll=yes
func propFor0(p *Interpreter, e interpreter.Engine, j int, body interface{}) {
	forContract(p, e, 0, j, nil, nil, nil, body)
}

//verif:prop Q03
//verif:opt nounroll=yes
func propFor1(p *Interpreter, e interpreter.Engine, j int, cond, body interface{}) {
	forContract(p, e, 1, j, nil, cond, nil, body)
}

//verif:prop Q03
//verif:opt nounroll=yes
func propFor3(p *Interpreter, e interpreter.Engine, j int, in, cond, step, body interface{}) {
	forContract(p, e, 3, j, in, cond, step, body)
}

func forContract(p *Interpreter, e interpreter.Engine, n, j int, in, cond, step, body interface{}) {
	v.Requires("an interpreter", p != nil && p.stk != nil && e != nil)
	stk := p.stk
	s := *stk
	m, base := len(s), p.base
	lo := m - 2 - n
	v.Requires("the body", lo >= 0 && v.Same(s[m-1], body))
	v.Requires("a number of clauses", v.Same(s[m-2], interface{}(n)))
	if n == 1 {
		v.Requires("a condition", v.Same(s[lo], cond))
	}
	if n == 3 {
		v.Requires("three clauses", v.Same(s[lo], in) && v.Same(s[lo+1], cond) && v.Same(s[lo+2], step))
	}
	v.Requires("a value below", 0 <= j && j < lo)
	below := s[j]
	w0 := v.GetWorld()
	w1 := stmtW(w0, e, p, in)
	wantW, wantBad := forW(w1, e, p, cond, body, step), forBad(w1, e, p, cond, body, step)
	if stmtBad(w0, e, p, in) {
		wantW, wantBad = w1, true
	}
	br := append([]interface{}{}, s[lo:m-2]...)
	v.Inv(func(i int, args []interface{}) bool { return v.Seq(args[:i], br[:i]) })
	v.Inv(func() bool { return len(*stk) == lo })
	v.Inv(func() bool { return v.Same((*stk)[j], below) && p.base == base })
	v.Inv(func() bool {
		w := v.GetWorld()
		return v.Same(forW(w, e, p, cond, body, step), wantW) && forBad(w, e, p, cond, body, step) == wantBad
	})
	bad, _ := v.Try(func() { p.For(e) })
	v.Ensures("initialiser once, then condition, body and step in turn until the condition is false", v.Same(v.GetWorld(), wantW))
	v.Ensures("the loop fails when one of these does, or a condition is no boolean", bad == wantBad)
	v.Ensures("one value, nil, is left", v.Implies(!bad, len(*stk) == lo+1 && v.Same((*stk)[lo], interface{}(nil))))
	v.Ensures("the values below stay", v.Implies(!bad, v.Same((*stk)[j], below)))
	v.Ensures("the frame is restored", v.Implies(!bad, p.base == base))
}

//verif:prop Q03
func propForForm(p *Interpreter, e interpreter.Engine, n int) {
	v.Requires("an interpreter", p != nil && p.stk != nil && e != nil)
	s := *p.stk
	v.Requires("another number of clauses", n != 0 && n != 1 && n != 3 && len(s) >= 2 && v.Same(s[len(s)-2], interface{}(n)))
	w := v.GetWorld()
	bad, _ := v.Try(func() { p.For(e) })
	v.Ensures("an error, nothing is evaluated", bad && v.Same(v.GetWorld(), w))
}
