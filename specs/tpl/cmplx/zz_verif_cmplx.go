//go:build go1.18

package cmplx

import (
	"math/cmplx"
	"reflect"
	"strconv"

	"github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/zzverif/v"
)

//verif:prop N01
func propPushPop(stk *Stack, x complex128, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("some element", 0 <= k && k < n)
	e := old[k]
	stk.Push(x)
	v.Ensures("push adds one element", len(*stk) == n+1)
	v.Ensures("push puts the value on top", v.Same((*stk)[n], x))
	v.Ensures("push keeps the elements below", v.Same((*stk)[k], e))
	y, ok := stk.Pop()
	v.Ensures("pop after push succeeds", ok)
	v.Ensures("pop returns the last pushed value", v.Same(y, x))
	v.Ensures("pop restores the depth", len(*stk) == n)
	v.Ensures("pop keeps the elements below", v.Same((*stk)[k], e))
}

//verif:prop N01
func propPopEmpty(stk *Stack) {
	v.Requires("an empty stack", stk != nil && len(*stk) == 0)
	_, ok := stk.Pop()
	v.Ensures("pop of an empty stack fails", !ok)
	v.Ensures("a failed pop leaves the stack empty", len(*stk) == 0)
}

//verif:prop N01
func propClear(stk *Stack) {
	v.Requires("a stack", stk != nil)
	stk.Clear()
	v.Ensures("clear empties the stack", len(*stk) == 0)
	_, ok := stk.Pop()
	v.Ensures("nothing left to pop", !ok)
}

//verif:prop N01
func propPopArgs(stk *Stack, arity, k, m int) {
	v.Requires("a stack", stk != nil && arity >= 0)
	old := *stk
	n := len(old)
	v.Requires("enough arguments", n >= arity)
	v.Requires("an argument", 0 <= k && k < arity)
	want := old[n-arity+k]
	v.Inv(func(i int, args []reflect.Value) bool {
		return v.Implies(0 <= k && k < i, v.Same(args[k].Interface(), interface{}(want)))
	})
	args, ok := stk.PopArgs(arity)
	v.Ensures("enough arguments: success", ok)
	v.Ensures("as many arguments as asked", len(args) == arity)
	v.Ensures("arguments in push order", v.Same(args[k].Interface(), interface{}(want)))
	v.Ensures("exactly the arguments are removed", len(*stk) == n-arity)
}

//verif:prop N01
func propPopArgsFail(stk *Stack, arity, k int) {
	v.Requires("a stack", stk != nil && arity >= 0)
	old := *stk
	n := len(old)
	v.Requires("too few arguments", n < arity)
	_, ok := stk.PopArgs(arity)
	v.Ensures("too few arguments: refused", !ok)
	v.Ensures("a refused call removes nothing", len(*stk) == n)
	v.Requires("an element", 0 <= k && k < n)
	v.Ensures("a refused call changes nothing", v.Same((*stk)[k], old[k]))
}

// ---- operators

//verif:prop N02
func propOps(a, b complex128) {
	v.Ensures("Neg", v.Same(Neg(a), -a))
	v.Ensures("Mul", v.Same(Mul(a, b), a*b))
	v.Ensures("Quo", v.Same(Quo(a, b), a/b))
	v.Ensures("Add", v.Same(Add(a, b), a+b))
	v.Ensures("Sub", v.Same(Sub(a, b), a-b))
	v.Ensures("Real", v.Same(Real(a), complex(real(a), 0)))
	v.Ensures("Imag", v.Same(Imag(a), complex(imag(a), 0)))
	v.Ensures("Abs", v.Same(Abs(a), complex(cmplx.Abs(a), 0)))
	v.Ensures("Phase", v.Same(Phase(a), complex(cmplx.Phase(a), 0)))
}

//verif:prop N02
func propRectComplex(a, b complex128) {
	var r, c complex128
	rp, _ := v.Try(func() { r = Rect(a, b) })
	cp, _ := v.Try(func() { c = Complex(a, b) })
	bad := imag(a) != 0 || imag(b) != 0
	v.Ensures("rect refuses exactly complex arguments", rp == bad)
	v.Ensures("complex refuses exactly complex arguments", cp == bad)
	v.Ensures("rect", v.Implies(!bad, v.Same(r, cmplx.Rect(real(a), real(b)))))
	v.Ensures("complex", v.Implies(!bad, v.Same(c, complex(real(a), real(b)))))
}

//verif:prop N02
func propMarks(stk *Stack, x float64, lit string, arity, k int) {
	v.Requires("a stack", stk != nil)
	v.Requires("an imaginary literal", len(lit) > 0)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	stk.PushReal(x)
	v.Ensures("a real literal", len(*stk) == n+1 && v.Same((*stk)[n], complex(x, 0)))
	stk.PushImag(lit)
	f, _ := strconv.ParseFloat(lit[:len(lit)-1], 64)
	v.Ensures("an imaginary literal", len(*stk) == n+2 && v.Same((*stk)[n+1], complex(0, f)))
	Arity(stk, arity)
	v.Ensures("the number of arguments", len(*stk) == n+3 && v.Same((*stk)[n+2], complex(float64(arity), 0)))
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
}

//verif:prop N02,N03
func propPushRet(stk *Stack, c complex128, x float64, i int, j uint64, s string, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	err := stk.PushRet([]reflect.Value{reflect.ValueOf(c), reflect.ValueOf(x), reflect.ValueOf(i), reflect.ValueOf(j)})
	v.Ensures("numeric results are accepted", err == nil)
	v.Ensures("one element per result", len(*stk) == n+4)
	v.Ensures("a complex result", v.Same((*stk)[n], c))
	v.Ensures("a float result", v.Same((*stk)[n+1], complex(x, 0)))
	v.Ensures("an integer result", v.Same((*stk)[n+2], complex(float64(i), 0)))
	v.Ensures("an unsigned result", v.Same((*stk)[n+3], complex(float64(j), 0)))
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
	err = stk.PushRet([]reflect.Value{reflect.ValueOf(s)})
	v.Ensures("other results are refused", err != nil && len(*stk) == n+4)
}

// ---- calls

//verif:prop N03
func propCall(p *Calculator, name string) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	fn, ok := fntable[name]
	old := *p.stk
	n := len(old)
	v.Requires("a known function and an argument count", ok && n > 0 && imag(old[n-1]) == 0)
	w := v.GetWorld()
	stk := interpreter.Stack(p.stk)
	arity := int(real(old[n-1]))
	err := p.Call(name)
	v.Ensures("the function is called once, with the counted arguments", v.Same(v.GetWorld(), interpreter.VerifCallW(w, stk, fn, arity)))
	v.Ensures("the call fails exactly when the function call is refused", (err == nil) == (interpreter.VerifCallErr(w, stk, fn, arity) == nil))
}

//verif:prop N03
func propCallRefused(p *Calculator, name string) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	_, ok := fntable[name]
	n := len(*p.stk)
	v.Requires("an unknown function or no argument count", !ok || n == 0 || imag((*p.stk)[n-1]) != 0)
	w := v.GetWorld()
	err := p.Call(name)
	v.Ensures("refused", err != nil)
	v.Ensures("nothing is called", v.Same(v.GetWorld(), w))
	v.Ensures("an unknown function leaves the stack alone", v.Implies(!ok, len(*p.stk) == n))
}

//verif:prop N01,N03
func propRet(p *Calculator) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	old := *p.stk
	n := len(old)
	x, ok := p.Ret()
	v.Ensures("a result exactly when there is one", ok == (n > 0))
	v.Ensures("the stack is empty afterwards", len(*p.stk) == 0)
	v.Requires("some result", n > 0)
	v.Ensures("the last value is the result", v.Same(x, old[n-1]))
}
