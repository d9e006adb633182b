//go:build go1.18

package interpreter

import "github.com/qiniu/text/zzverif/v"

// The call of a function of the function table, for the callers' contracts:
// an arbitrary effect and result, recorded with what it was called with.

//verif:uf
func VerifCallW(w v.World, stk Stack, fn interface{}, arity int) v.World { return w }

//verif:uf
func VerifCallErr(w v.World, stk Stack, fn interface{}, arity int) error { return nil }

//verif:model github.com/qiniu/text/tpl/interpreter.util.Call
func modelCall(stk Stack, fn interface{}, arity int) error {
	w := v.GetWorld()
	v.SetWorld(VerifCallW(w, stk, fn, arity))
	v.HavocHeap()
	return VerifCallErr(w, stk, fn, arity)
}

//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifDoCalls
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifDoFn
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.util.VerifDoN
var (
	VerifDoCalls int
	VerifDoFn    interface{}
	VerifDoN     int
)

//verif:model github.com/qiniu/text/tpl/interpreter.util.DoCall
func modelDoCall(stk Stack, fn interface{}, arity, n int, isVariadic bool) error {
	VerifDoCalls++
	VerifDoFn, VerifDoN = fn, arity
	v.HavocHeap()
	return v.Fresh[error]()
}
