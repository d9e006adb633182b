//go:build go1.18

package interpreter

import (
	"reflect"

	"github.com/qiniu/text/zzverif/v"
)

// ---- I04: calls of native functions.

// The recorded call of a function through reflect: which function, with which
// arguments, and what it returned.
//
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifCalls
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifCallee
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifIn
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifOut
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.verifPops
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.verifPopped
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.verifPushes
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.verifPushed
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.verifPushErr
var (
	VerifCalls   int
	VerifCallee  reflect.Value
	VerifIn      []reflect.Value
	VerifOut     []reflect.Value
	verifPops    int
	verifPopped  []reflect.Value
	verifPushes  int
	verifPushed  []reflect.Value
	verifPushErr error
)

//verif:model (reflect.Value).Call
func modelReflectCall(f reflect.Value, in []reflect.Value) []reflect.Value {
	VerifCalls++
	VerifCallee = f
	VerifIn = append([]reflect.Value{}, in...)
	v.HavocHeap()
	if v.Fresh[bool]() {
		v.Panic(v.Fresh[interface{}]())
	}
	VerifOut = v.Fresh[[]reflect.Value]()
	return VerifOut
}

//verif:uf
func verifMethod(x reflect.Value, name string) reflect.Value { return x }

//verif:model (reflect.Value).MethodByName
func modelMethodByName(x reflect.Value, name string) reflect.Value {
	r := verifMethod(x, name)
	v.Assume("a method is a function", !r.IsValid() || r.Kind() == reflect.Func)
	return r
}

// Any operand stack: it gives the number of values asked for, or refuses.
//
//verif:abs (github.com/qiniu/text/tpl/interpreter.util.Stack).PopArgs
func absPopArgs(s Stack, arity int) ([]reflect.Value, bool) {
	verifPops++
	if v.Fresh[bool]() {
		return nil, false
	}
	n := arity
	if n < 0 {
		n = 0
	}
	args := make([]reflect.Value, n)
	k := v.Fresh[int]()
	_ = k
	fill := v.Fresh[[]reflect.Value]()
	v.Assume("the values popped", len(fill) == n)
	copy(args, fill)
	verifPopped = append([]reflect.Value{}, args...)
	return args, true
}

//verif:abs (github.com/qiniu/text/tpl/interpreter.util.Stack).PushRet
func absPushRet(s Stack, ret []reflect.Value) error {
	verifPushes++
	verifPushed = ret
	verifPushErr = v.Fresh[error]()
	return verifPushErr
}

// conv: the value passed for an argument x to a parameter of type t.
func conv(x reflect.Value, t reflect.Type) (y reflect.Value, ok bool) {
	k := t.Kind()
	if k == reflect.Interface || k == reflect.Ptr {
		if !x.IsValid() {
			return reflect.Zero(t), true
		}
		return x, true
	}
	if !x.IsValid() {
		return x, false
	}
	if x.Type() == t {
		return x, true
	}
	if t == reflect.TypeOf(float64(0)) {
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return reflect.ValueOf(float64(x.Int())), true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return reflect.ValueOf(float64(x.Uint())), true
		case reflect.Float32:
			return reflect.ValueOf(x.Float()), true
		}
	}
	return x, false
}

// param: the type of the k-th argument of a function of type t.
func param(t reflect.Type, k int) reflect.Type {
	n := t.NumIn()
	if t.IsVariadic() && k >= n-1 {
		return t.In(n - 1).Elem()
	}
	return t.In(k)
}

//verif:prop I04
func propValidate(x reflect.Value, f interface{}) {
	v.Requires("a function", f != nil && reflect.ValueOf(f).Kind() == reflect.Func && reflect.TypeOf(f).NumIn() > 0)
	t := reflect.TypeOf(f).In(0) // any type
	want, ok := conv(x, t)
	y := x
	var err error
	bad, _ := v.Try(func() { err = validateType(&y, t) })
	v.Ensures("an argument that converts is passed as its conversion", v.Implies(ok, !bad && err == nil && v.Same(y, want)))
	v.Ensures("one that does not is refused", v.Implies(!ok, bad || err != nil))
}

// after: what a call of fn with arity arguments must have done; k is any argument's index.
func checkCall(vfn reflect.Value, in []reflect.Value, tfn reflect.Type, arity, k int, err error, bad bool) {
	v.Ensures("at most one call", VerifCalls == 0 || VerifCalls == 1)
	if VerifCalls == 1 {
		v.Ensures("of the function", v.Same(VerifCallee, vfn))
		v.Ensures("with as many arguments", len(VerifIn) == arity)
		if 0 <= k && k < arity {
			want, ok := conv(in[k], param(tfn, k))
			v.Ensures("never with an argument that does not convert", ok)
			v.Ensures("in the order written", v.Same(VerifIn[k], want))
		}
		if !bad {
			v.Ensures("its results are pushed", verifPushes == 1 && v.Same(verifPushed, VerifOut) && v.Same(err, verifPushErr))
		} else {
			v.Ensures("nothing is pushed when it panics", verifPushes == 0)
		}
	} else {
		v.Ensures("a refused call is an error", bad || err != nil)
		v.Ensures("and pushes nothing", verifPushes == 0)
	}
}

// converted: the k-th argument is the conversion of the value popped.
func converted(in []reflect.Value, t reflect.Type, k int) bool {
	want, ok := conv(verifPopped[k], param(t, k))
	return ok && v.Same(in[k], want)
}

//verif:prop I04
//verif:opt nomodel=modelCall,modelDoCall
func propCall(stk Stack, fn interface{}, arity, k int) {
	v.Requires("a stack and a function", stk != nil && fn != nil && reflect.ValueOf(fn).Kind() == reflect.Func)
	v.Requires("an argument count", 0 <= arity && arity < 1<<40)
	VerifCalls, verifPops, verifPushes = 0, 0, 0
	tfn := reflect.TypeOf(fn)
	n := tfn.NumIn()
	v.Inv(func(i int, in []reflect.Value) bool {
		return 0 <= i && i <= arity
	})
	v.Inv(func(i int, in []reflect.Value) bool {
		return v.Disjoint(in, verifPopped)
	})
	// what holds of the k-th argument while the arguments are converted in
	// place, the variadic ones first, then the fixed ones
	nv := n
	if tfn.IsVariadic() {
		nv--
	}
	arg := 0 <= k && k < arity
	v.Inv(func(i int, in []reflect.Value) bool { return i >= nv })
	v.Inv(func(i int, in []reflect.Value) bool { return i <= nv })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && nv <= k && k < i) || converted(in, tfn, k) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && k < nv) || v.Same(in[k], verifPopped[k]) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && i <= k) || v.Same(in[k], verifPopped[k]) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && i <= k && k < nv) || v.Same(in[k], verifPopped[k]) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && k < i) || converted(in, tfn, k) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && nv <= k) || converted(in, tfn, k) })
	var err error
	bad, _ := v.Try(func() { err = Call(stk, fn, arity) })
	match := arity == n
	if tfn.IsVariadic() {
		match = arity >= n-1
	}
	v.Ensures("a wrong number of arguments is refused", v.Implies(!match, !bad && err != nil && VerifCalls == 0 && verifPops == 0))
	if match {
		v.Ensures("the arguments are popped once", v.Implies(arity > 0, verifPops == 1) && v.Implies(arity == 0, verifPops <= 1))
		checkCall(reflect.ValueOf(fn), verifPopped, tfn, arity, k, err, bad)
	}
}

// VCall: the function is below its arguments; what is no function has a method Call.
//
//verif:prop I04
func propVCall(stk Stack, arity, k int) {
	v.Requires("a stack", stk != nil)
	v.Requires("an argument count", 0 <= arity && arity < 1<<40)
	VerifCalls, verifPops, verifPushes = 0, 0, 0
	arg := 0 <= k && k < arity
	v.Inv(func(i int, in []reflect.Value) bool { return 0 <= i && i <= arity })
	v.Inv(func(i int, in []reflect.Value) bool { return v.Disjoint(in, verifPopped) })
	v.Inv(func(i int, in []reflect.Value) bool { return i >= vfixed() })
	v.Inv(func(i int, in []reflect.Value) bool { return i <= vfixed() })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && vfixed() <= k && k < i) || vconverted(in, k) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && k < vfixed()) || v.Same(in[k], verifPopped[k+1]) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && i <= k) || v.Same(in[k], verifPopped[k+1]) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && i <= k && k < vfixed()) || v.Same(in[k], verifPopped[k+1]) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && k < i) || vconverted(in, k) })
	v.Inv(func(i int, in []reflect.Value) bool { return !(arg && vfixed() <= k) || vconverted(in, k) })
	var err error
	bad, _ := v.Try(func() { err = VCall(stk, arity) })
	v.Ensures("the function and its arguments are popped once", verifPops == 1)
	if VerifCalls > 0 {
		f := vfunc()
		v.Ensures("only a function is called", f.Kind() == reflect.Func)
		t := f.Type()
		v.Ensures("a wrong number of arguments is refused", arity == t.NumIn() || t.IsVariadic() && arity >= t.NumIn()-1)
		checkCall(f, verifPopped[1:], t, arity, k, err, bad)
	} else {
		v.Ensures("a refused call is an error", bad || err != nil)
		v.Ensures("and pushes nothing", verifPushes == 0)
	}
}

func vfunc() reflect.Value {
	f := verifPopped[0]
	if f.Kind() != reflect.Func {
		f = verifMethod(f, "Call")
	}
	return f
}

// vfixed: the number of fixed parameters.
func vfixed() int {
	t := vfunc().Type()
	if t.IsVariadic() {
		return t.NumIn() - 1
	}
	return t.NumIn()
}

func vconverted(in []reflect.Value, k int) bool {
	want, ok := conv(verifPopped[k+1], param(vfunc().Type(), k))
	return ok && v.Same(in[k], want)
}
