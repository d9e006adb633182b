//go:build go1.18

package rat

import (
	"math/big"
	"reflect"

	"github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/zzverif/v"
)

//verif:prop N01
func propPushPop(stk *Stack, x *big.Rat, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("some element", 0 <= k && k < n)
	e := old[k]
	stk.Push(x)
	v.Ensures("push adds one element", len(*stk) == n+1)
	v.Ensures("push puts the value on top", v.Same((*stk)[n], x))
	v.Ensures("push keeps the elements below", v.Same((*stk)[k], e))
	y, ok := stk.Pop()
	v.Ensures("pop after push succeeds", ok)
	v.Ensures("pop returns the last pushed value", v.Same(y, x))
	v.Ensures("pop restores the depth", len(*stk) == n)
	v.Ensures("pop keeps the elements below", v.Same((*stk)[k], e))
}

//verif:prop N01
func propPopEmpty(stk *Stack) {
	v.Requires("an empty stack", stk != nil && len(*stk) == 0)
	_, ok := stk.Pop()
	v.Ensures("pop of an empty stack fails", !ok)
	v.Ensures("a failed pop leaves the stack empty", len(*stk) == 0)
}

//verif:prop N01
func propClear(stk *Stack) {
	v.Requires("a stack", stk != nil)
	stk.Clear()
	v.Ensures("clear empties the stack", len(*stk) == 0)
	_, ok := stk.Pop()
	v.Ensures("nothing left to pop", !ok)
}

//verif:prop N01
func propPopArgs(stk *Stack, arity, k, m int) {
	v.Requires("a stack", stk != nil && arity >= 0)
	old := *stk
	n := len(old)
	v.Requires("enough arguments", n >= arity)
	v.Requires("an argument", 0 <= k && k < arity)
	want := old[n-arity+k]
	v.Inv(func(i int, args []reflect.Value) bool {
		return v.Implies(0 <= k && k < i, v.Same(args[k].Interface(), interface{}(want)))
	})
	args, ok := stk.PopArgs(arity)
	v.Ensures("enough arguments: success", ok)
	v.Ensures("as many arguments as asked", len(args) == arity)
	v.Ensures("arguments in push order", v.Same(args[k].Interface(), interface{}(want)))
	v.Ensures("exactly the arguments are removed", len(*stk) == n-arity)
}

//verif:prop N01
func propPopArgsFail(stk *Stack, arity, k int) {
	v.Requires("a stack", stk != nil && arity >= 0)
	old := *stk
	n := len(old)
	v.Requires("too few arguments", n < arity)
	_, ok := stk.PopArgs(arity)
	v.Ensures("too few arguments: refused", !ok)
	v.Ensures("a refused call removes nothing", len(*stk) == n)
	v.Requires("an element", 0 <= k && k < n)
	v.Ensures("a refused call changes nothing", v.Same((*stk)[k], old[k]))
}

// ---- the rational numbers: what the library is assumed to do. Relations
// between number objects, and an order given by ranks.

//verif:uf
func isUn(op string, z, x *big.Rat) bool { return false }

//verif:uf
func isBin(op string, z, x, y *big.Rat) bool { return false }

//verif:uf
func rank(x *big.Rat) int { return 0 }

//verif:uf
func numOf(x *big.Rat) *big.Int { return nil }

//verif:uf
func denomOf(x *big.Rat) *big.Int { return nil }

//verif:uf
func isInt(z *big.Rat, x *big.Int) bool { return false }

//verif:uf
func isRat(z *big.Rat, a, b int64) bool { return false }

//verif:uf
func isText(z *big.Rat, s string) bool { return false }

func un(op string, z, x *big.Rat) *big.Rat {
	v.Requires("operands", z != nil && x != nil)
	v.Assume("library", isUn(op, z, x))
	return z
}

func bin(op string, z, x, y *big.Rat) *big.Rat {
	v.Requires("operands", z != nil && x != nil && y != nil)
	v.Assume("library", isBin(op, z, x, y))
	return z
}

//verif:model (*math/big.Rat).Cmp
func mCmp(x, y *big.Rat) int {
	if rank(x) < rank(y) {
		return -1
	}
	if rank(x) > rank(y) {
		return 1
	}
	return 0
}

//verif:model (*math/big.Rat).Sign
func mSign(x *big.Rat) int {
	if rank(x) < 0 {
		return -1
	}
	if rank(x) > 0 {
		return 1
	}
	return 0
}

//verif:model (*math/big.Rat).Add
func mAdd(z, x, y *big.Rat) *big.Rat { return bin("+", z, x, y) }

//verif:model (*math/big.Rat).Sub
func mSub(z, x, y *big.Rat) *big.Rat { return bin("-", z, x, y) }

//verif:model (*math/big.Rat).Mul
func mMul(z, x, y *big.Rat) *big.Rat { return bin("*", z, x, y) }

//verif:model (*math/big.Rat).Quo
func mQuo(z, x, y *big.Rat) *big.Rat { return bin("/", z, x, y) }

//verif:model (*math/big.Rat).Neg
func mNeg(z, x *big.Rat) *big.Rat { return un("neg", z, x) }

//verif:model (*math/big.Rat).Abs
func mAbs(z, x *big.Rat) *big.Rat { return un("abs", z, x) }

//verif:model (*math/big.Rat).Inv
func mInv(z, x *big.Rat) *big.Rat { return un("inv", z, x) }

//verif:model (*math/big.Rat).Num
func mNum(x *big.Rat) *big.Int { return numOf(x) }

//verif:model (*math/big.Rat).Denom
func mDenom(x *big.Rat) *big.Int { return denomOf(x) }

//verif:uf
func intVal(x *big.Int) int64 { return 0 }

//verif:uf
func isInteger(x *big.Rat) bool { return false }

//verif:model (*math/big.Rat).IsInt
func mIsInt(x *big.Rat) bool { return isInteger(x) }

//verif:model (*math/big.Int).Int64
func mInt64(x *big.Int) int64 { return intVal(x) }

//verif:model (*math/big.Rat).SetInt
func mSetInt(z *big.Rat, x *big.Int) *big.Rat {
	v.Assume("library", isInt(z, x))
	return z
}

//verif:model math/big.NewRat
func mNewRat(a, b int64) *big.Rat {
	z := new(big.Rat)
	v.Assume("library", isRat(z, a, b))
	return z
}

//verif:model (*math/big.Rat).SetString
func mSetString(z *big.Rat, s string) (*big.Rat, bool) {
	if v.Fresh[bool]() {
		return nil, false
	}
	v.Assume("library", isText(z, s))
	return z, true
}

// ---- operators: the result is a new number, the operands are as they were

//verif:prop N02
func propOps(a, b *big.Rat) {
	v.Requires("operands", a != nil && b != nil)
	r := Neg(a)
	v.Ensures("Neg", isUn("neg", r, a) && v.IsNew(r))
	r = Abs(a)
	v.Ensures("Abs", isUn("abs", r, a) && v.IsNew(r))
	r = Inv(a)
	v.Ensures("Inv", isUn("inv", r, a) && v.IsNew(r))
	r = Mul(a, b)
	v.Ensures("Mul", isBin("*", r, a, b) && v.IsNew(r))
	r = Quo(a, b)
	v.Ensures("Quo", isBin("/", r, a, b) && v.IsNew(r))
	r = Add(a, b)
	v.Ensures("Add", isBin("+", r, a, b) && v.IsNew(r))
	r = Sub(a, b)
	v.Ensures("Sub", isBin("-", r, a, b) && v.IsNew(r))
	r = Num(a)
	v.Ensures("Num", isInt(r, numOf(a)) && v.IsNew(r))
	r = Denom(a)
	v.Ensures("Denom", isInt(r, denomOf(a)) && v.IsNew(r))
}

//verif:spec
func member(a []*big.Rat, n int, x *big.Rat) bool {
	return n > 0 && (a[n-1] == x || member(a, n-1, x))
}

//verif:prop N02
func propMax(args []*big.Rat, k int) {
	v.Requires("an element", 0 <= k && k < len(args))
	v.Inv(func(i int, m *big.Rat) bool {
		return member(args, i, m) && v.Implies(k < i, rank(m) >= rank(args[k]))
	})
	m := Max(args...)
	v.Ensures("no argument exceeds the maximum", rank(m) >= rank(args[k]))
	v.Ensures("the maximum is an argument", member(args, len(args), m))
}

//verif:prop N02
func propMin(args []*big.Rat, k int) {
	v.Requires("an element", 0 <= k && k < len(args))
	v.Inv(func(i int, m *big.Rat) bool {
		return member(args, i, m) && v.Implies(k < i, rank(m) <= rank(args[k]))
	})
	m := Min(args...)
	v.Ensures("no argument is below the minimum", rank(m) <= rank(args[k]))
	v.Ensures("the minimum is an argument", member(args, len(args), m))
}

//verif:prop N02
func propNone(args []*big.Rat) {
	v.Requires("no arguments", len(args) == 0)
	v.Ensures("the maximum of nothing is zero", Max(args...) == zero)
	v.Ensures("the minimum of nothing is zero", Min(args...) == zero)
}

//verif:prop N02
func propMarks(stk *Stack, x int64, lit string, arity, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	stk.PushInt(x)
	v.Ensures("an integer", len(*stk) == n+1 && isRat((*stk)[n], x, 1))
	Arity(stk, arity)
	v.Ensures("the number of arguments", len(*stk) == n+2 && isRat((*stk)[n+1], int64(arity), 1))
	stk.PushString(lit)
	v.Ensures("a literal", len(*stk) == n+3 && ((*stk)[n+2] == nil || isText((*stk)[n+2], lit)))
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
}

// ---- calls

//verif:prop N03
func propCall(p *Calculator, name string) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	fn, ok := fntable[name]
	old := *p.stk
	n := len(old)
	v.Requires("a known function and an argument count", ok && n > 0 && isInteger(old[n-1]))
	w := v.GetWorld()
	stk := interpreter.Stack(p.stk)
	arity := int(intVal(numOf(old[n-1])))
	err := p.Call(name)
	v.Ensures("the function is called once, with the counted arguments", v.Same(v.GetWorld(), interpreter.VerifCallW(w, stk, fn, arity)))
	v.Ensures("the call fails exactly when the function call is refused", (err == nil) == (interpreter.VerifCallErr(w, stk, fn, arity) == nil))
}

//verif:prop N03
func propCallRefused(p *Calculator, name string) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	_, ok := fntable[name]
	n := len(*p.stk)
	v.Requires("an unknown function or no argument count", !ok || n == 0 || !isInteger((*p.stk)[n-1]))
	w := v.GetWorld()
	err := p.Call(name)
	v.Ensures("refused", err != nil)
	v.Ensures("nothing is called", v.Same(v.GetWorld(), w))
	v.Ensures("an unknown function leaves the stack alone", v.Implies(!ok, len(*p.stk) == n))
}

//verif:prop N01,N03
func propRet(p *Calculator) {
	v.Requires("a calculator", p != nil && p.stk != nil)
	old := *p.stk
	n := len(old)
	x, ok := p.Ret()
	v.Ensures("a result exactly when there is one", ok == (n > 0))
	v.Ensures("the stack is empty afterwards", len(*p.stk) == 0)
	v.Requires("some result", n > 0)
	v.Ensures("the last value is the result", v.Same(x, old[n-1]))
}

//verif:prop N02,N03
func propPushRet(stk *Stack, x, y *big.Rat, z float64, k int) {
	v.Requires("a stack", stk != nil)
	old := *stk
	n := len(old)
	v.Requires("an element", 0 <= k && k < n)
	e := old[k]
	err := stk.PushRet([]reflect.Value{reflect.ValueOf(x), reflect.ValueOf(y)})
	v.Ensures("rational results are accepted", err == nil)
	v.Ensures("one element per result, in order", len(*stk) == n+2 && (*stk)[n] == x && (*stk)[n+1] == y)
	v.Ensures("the others are kept", v.Same((*stk)[k], e))
	err = stk.PushRet([]reflect.Value{reflect.ValueOf(z)})
	v.Ensures("other results are refused", err != nil && len(*stk) == n+2)
}
