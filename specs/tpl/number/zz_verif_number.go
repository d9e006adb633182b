//go:build go1.18

package number

import (
	"github.com/qiniu/text/tpl/interpreter.util"
	"math"
	"reflect"

	"github.com/qiniu/text/zzverif/v"
)

//verif:prop N01
func propPushPop(stk *Stack, x float64, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("some element", 0 <= k && k < n)
	e := old[k]
	stk.Push(x)
	v.Ensures("push adds one element", len(*stk) == n+1)
	v.Ensures("push puts the value on top", v.Same((*stk)[n], x))
	v.Ensures("push keeps the elements below", v.Same((*stk)[k], e))
	y, ok := stk.Pop()
	v.Ensures("pop after push succeeds", ok)
	v.Ensures("pop returns the last pushed value", v.Same(y, x))
	v.Ensures("pop restores the depth", len(*stk) == n)
	v.Ensures("pop keeps the elements below", v.Same((*stk)[k], e))
}

//verif:prop N01
func propPopEmpty(stk *Stack) {
	v.Requires("an empty stack", stk != nil && len(*stk) == 0)
	_, ok := stk.Pop()
	v.Ensures("pop of an empty stack fails", !ok)
	v.Ensures("a failed pop leaves the stack empty", len(*stk) == 0)
}

//verif:prop N01
func propClear(stk *Stack) {
	v.Requires("a stack", stk != nil)
	stk.Clear()
	v.Ensures("clear empties the stack", len(*stk) == 0)
	_, ok := stk.Pop()
	v.Ensures("nothing left to pop", !ok)
}

//verif:prop N01
func propPopArgs(stk *Stack, arity, k, m int) {
	v.Requires("a stack", stk != nil && arity >= 0)
	old := *stk
	n := len(old)
	v.Requires("enough arguments", n >= arity)
	v.Requires("an argument", 0 <= k && k < arity)
	want := old[n-arity+k]
	v.Inv(func(i int, args []reflect.Value) bool {
		return v.Implies(0 <= k && k < i, v.Same(args[k].Interface(), interface{}(want)))
	})
	args, ok := stk.PopArgs(arity)
	v.Ensures("enough arguments: success", ok)
	v.Ensures("as many arguments as asked", len(args) == arity)
	v.Ensures("arguments in push order", v.Same(args[k].Interface(), interface{}(want)))
	v.Ensures("exactly the arguments are removed", len(*stk) == n-arity)
}

//verif:prop N01
func propPopArgsFail(stk *Stack, arity, k int) {
	v.Requires("a stack", stk != nil && arity >= 0)
	old := *stk
	n := len(old)
	v.Requires("too few arguments", n < arity)
	_, ok := stk.PopArgs(arity)
	v.Ensures("too few arguments: refused", !ok)
	v.Ensures("a refused call removes nothing", len(*stk) == n)
	v.Requires("an element", 0 <= k && k < n)
	v.Ensures("a refused call changes nothing", v.Same((*stk)[k], old[k]))
}

// ---- operators

//verif:prop N02
func propOps(a, b float64) {
	v.Ensures("Neg", v.Same(Neg(a), -a))
	v.Ensures("Mul", v.Same(Mul(a, b), a*b))
	v.Ensures("Quo", v.Same(Quo(a, b), a/b))
	v.Ensures("Add", v.Same(Add(a, b), a+b))
	v.Ensures("Sub", v.Same(Sub(a, b), a-b))
	v.Ensures("Jn", v.Same(Jn(a, b), math.Jn(int(a), b)))
	v.Ensures("Yn", v.Same(Yn(a, b), math.Yn(int(a), b)))
	v.Ensures("Ldexp", v.Same(Ldexp(a, b), math.Ldexp(a, int(b))))
	v.Ensures("Pow10", v.Same(Pow10(a), math.Pow10(int(a))))
}

//verif:spec
func member(a []float64, n int, x float64) bool {
	return n > 0 && (a[n-1] == x || member(a, n-1, x))
}

func number(x float64) bool { return x == x }

//verif:prop N02
func propMax(args []float64, k int) {
	v.Requires("an element", 0 <= k && k < len(args))
	v.Requires("numbers", number(args[0]) && number(args[k]))
	v.Inv(func(i int, m float64) bool {
		return number(m) && member(args, i, m) && v.Implies(k < i, m >= args[k])
	})
	m := Max(args...)
	v.Ensures("no argument exceeds the maximum", m >= args[k])
	v.Ensures("the maximum is an argument", member(args, len(args), m))
}

//verif:prop N02
func propMin(args []float64, k int) {
	v.Requires("an element", 0 <= k && k < len(args))
	v.Requires("numbers", number(args[0]) && number(args[k]))
	v.Inv(func(i int, m float64) bool {
		return number(m) && member(args, i, m) && v.Implies(k < i, m <= args[k])
	})
	m := Min(args...)
	v.Ensures("no argument is below the minimum", m <= args[k])
	v.Ensures("the minimum is an argument", member(args, len(args), m))
}

//verif:prop N02
func propNone(args []float64) {
	v.Requires("no arguments", len(args) == 0)
	v.Ensures("the maximum of nothing is zero", Max(args...) == 0)
	v.Ensures("the minimum of nothing is zero", Min(args...) == 0)
}

// ---- the marks push what they denote

//verif:prop N02
func propArity(stk *Stack, arity, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	Arity(stk, arity)
	v.Ensures("one element more", len(*stk) == n+1)
	v.Ensures("the number of arguments", v.Same((*stk)[n], float64(arity)))
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
}

//verif:prop N02
func propIdent(stk *Stack, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	stk.PushIdent("e")
	v.Ensures("e", len(*stk) == n+1 && (*stk)[n] == math.E)
	stk.PushIdent("pi")
	v.Ensures("pi", len(*stk) == n+2 && (*stk)[n+1] == math.Pi)
	stk.PushIdent("phi")
	v.Ensures("phi", len(*stk) == n+3 && (*stk)[n+2] == math.Phi)
	stk.PushIdent("Inf")
	v.Ensures("Inf", len(*stk) == n+4 && v.Same((*stk)[n+3], math.Inf(1)))
	stk.PushIdent("NaN")
	v.Ensures("NaN", len(*stk) == n+5 && v.Same((*stk)[n+4], math.NaN()))
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
}

//verif:prop N02
func propIdentUnknown(stk *Stack, name string) {
	v.Requires("a stack", stk != nil)
	v.Requires("unknown", name != "e" && name != "pi" && name != "phi" && name != "Inf" && name != "NaN")
	old := *stk
	p, _ := v.Try(func() { stk.PushIdent(name) })
	v.Ensures("an unknown name is refused", p)
	v.Ensures("nothing is pushed", len(*stk) == len(old))
}

//verif:prop N02,N03
func propPushRet(stk *Stack, x float64, i int, j uint64, s string, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	err := stk.PushRet([]reflect.Value{reflect.ValueOf(x), reflect.ValueOf(i), reflect.ValueOf(j)})
	v.Ensures("numeric results are accepted", err == nil)
	v.Ensures("one element per result", len(*stk) == n+3)
	v.Ensures("a float result", v.Same((*stk)[n], x))
	v.Ensures("an integer result", v.Same((*stk)[n+1], float64(i)))
	v.Ensures("an unsigned result", v.Same((*stk)[n+2], float64(j)))
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
	err = stk.PushRet([]reflect.Value{reflect.ValueOf(s)})
	v.Ensures("other results are refused", err != nil && len(*stk) == n+3)
}

// ---- calls

//verif:prop N03
func propCall(p *Calculator, name string) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	fn, ok := fntable[name]
	old := *p.stk
	n := len(old)
	v.Requires("a known function and an argument count", ok && n > 0)
	w := v.GetWorld()
	stk := interpreter.Stack(p.stk)
	arity := int(old[n-1])
	err := p.Call(name)
	v.Ensures("the function is called once, with the counted arguments", v.Same(v.GetWorld(), interpreter.VerifCallW(w, stk, fn, arity)))
	v.Ensures("the call fails exactly when the function call is refused", (err == nil) == (interpreter.VerifCallErr(w, stk, fn, arity) == nil))
}

//verif:prop N03
func propCallRefused(p *Calculator, name string) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	_, ok := fntable[name]
	n := len(*p.stk)
	v.Requires("an unknown function or no argument count", !ok || n == 0)
	w := v.GetWorld()
	err := p.Call(name)
	v.Ensures("refused", err != nil)
	v.Ensures("nothing is called", v.Same(v.GetWorld(), w))
	v.Ensures("an unknown function leaves the stack alone", v.Implies(!ok, len(*p.stk) == n))
}

//verif:prop N01,N03
func propRet(p *Calculator) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	old := *p.stk
	n := len(old)
	x, ok := p.Ret()
	v.Ensures("a result exactly when there is one", ok == (n > 0))
	v.Ensures("the stack is empty afterwards", len(*p.stk) == 0)
	v.Requires("some result", n > 0)
	v.Ensures("the last value is the result", v.Same(x, old[n-1]))
}

//verif:prop N02
func propTable() {
	t := (&Calculator{}).Fntable()
	v.Ensures("$neg", v.Same(t["$neg"], interface{}(Neg)))
	v.Ensures("$mul", v.Same(t["$mul"], interface{}(Mul)))
	v.Ensures("$quo", v.Same(t["$quo"], interface{}(Quo)))
	v.Ensures("$mod", v.Same(t["$mod"], interface{}(math.Mod)))
	v.Ensures("$add", v.Same(t["$add"], interface{}(Add)))
	v.Ensures("$sub", v.Same(t["$sub"], interface{}(Sub)))
	v.Ensures("$ARITY", v.Same(t["$ARITY"], interface{}(Arity)))
	v.Ensures("$call", v.Same(t["$call"], interface{}((*Calculator).Call)))
	v.Ensures("$push", v.Same(t["$push"], interface{}((*Stack).Push)))
	v.Ensures("max", v.Same(t["max"], interface{}(Max)))
	v.Ensures("min", v.Same(t["min"], interface{}(Min)))
	v.Ensures("sin", v.Same(t["sin"], interface{}(math.Sin)))
	v.Ensures("ln", v.Same(t["ln"], interface{}(math.Log)))
}
