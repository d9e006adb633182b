//go:build go1.18

package builtin

import (
	"github.com/qiniu/text/zzverif/v"
)

// ---- arithmetic: Go's result for the same operands, mixed ones as floats

//verif:prop Q01
//verif:opt machine=yes
func propAddInt(a, b int) {
	v.Ensures("integers", v.Same(Add(a, b), interface{}(a + b)))
}

//verif:prop Q01
func propAddFloat(a, b int, x, y float64) {
	v.Ensures("floats", v.Same(Add(x, y), interface{}(x + y)))
	v.Ensures("integer and float", v.Same(Add(a, y), interface{}(float64(a) + y)))
	v.Ensures("float and integer", v.Same(Add(x, b), interface{}(x + float64(b))))
}

//verif:prop Q01
func propAddStr(a, b string) {
	r, ok := Add(a, b).(string)
	v.Ensures("strings give a string", ok)
	v.Ensures("strings are concatenated", r == a+b)
}

//verif:prop Q01
func propAddRefuses(a, b interface{}) {
	v.Requires("no numbers", !(isNum(a) && isNum(b)))
	v.Requires("no strings", !(v.TypeIs[string](a) && v.TypeIs[string](b)))
	bad, _ := v.Try(func() { Add(a, b) })
	v.Ensures("operands without the operation are refused", bad)
}

//verif:prop Q01
//verif:opt machine=yes
func propSubInt(a, b int) {
	v.Ensures("integers", v.Same(Sub(a, b), interface{}(a - b)))
}

//verif:prop Q01
func propSubFloat(a, b int, x, y float64) {
	v.Ensures("floats", v.Same(Sub(x, y), interface{}(x - y)))
	v.Ensures("integer and float", v.Same(Sub(a, y), interface{}(float64(a) - y)))
	v.Ensures("float and integer", v.Same(Sub(x, b), interface{}(x - float64(b))))
}

//verif:prop Q01
func propSubRefuses(a, b interface{}) {
	v.Requires("no numbers", !(isNum(a) && isNum(b)))
	bad, _ := v.Try(func() { Sub(a, b) })
	v.Ensures("operands without the operation are refused", bad)
}

//verif:prop Q01
//verif:opt machine=yes
func propMulInt(a, b int) {
	v.Ensures("integers", v.Same(Mul(a, b), interface{}(a * b)))
}

//verif:prop Q01
func propMulFloat(a, b int, x, y float64) {
	v.Ensures("floats", v.Same(Mul(x, y), interface{}(x * y)))
	v.Ensures("integer and float", v.Same(Mul(a, y), interface{}(float64(a) * y)))
	v.Ensures("float and integer", v.Same(Mul(x, b), interface{}(x * float64(b))))
}

//verif:prop Q01
func propMulRefuses(a, b interface{}) {
	v.Requires("no numbers", !(isNum(a) && isNum(b)))
	bad, _ := v.Try(func() { Mul(a, b) })
	v.Ensures("operands without the operation are refused", bad)
}

//verif:prop Q01
//verif:opt machine=yes
func propQuoInt(a, b int) {
	v.Requires("a divisor", b != 0)
	v.Ensures("integers", v.Same(Quo(a, b), interface{}(a / b)))
}

//verif:prop Q01
func propQuoZero(a int) {
	bad, _ := v.Try(func() { Quo(a, 0) })
	v.Ensures("integer division by zero is refused", bad)
}

//verif:prop Q01
func propQuoFloat(a, b int, x, y float64) {
	v.Ensures("floats", v.Same(Quo(x, y), interface{}(x / y)))
	v.Ensures("integer and float", v.Same(Quo(a, y), interface{}(float64(a) / y)))
	v.Ensures("float and integer", v.Same(Quo(x, b), interface{}(x / float64(b))))
}

//verif:prop Q01
func propQuoRefuses(a, b interface{}) {
	v.Requires("no numbers", !(isNum(a) && isNum(b)))
	bad, _ := v.Try(func() { Quo(a, b) })
	v.Ensures("operands without the operation are refused", bad)
}

//verif:prop Q01
//verif:opt machine=yes
func propModInt(a, b int) {
	v.Requires("a divisor", b != 0)
	v.Ensures("integers", v.Same(Mod(a, b), interface{}(a % b)))
}

//verif:prop Q01
func propModZero(a int) {
	bad, _ := v.Try(func() { Mod(a, 0) })
	v.Ensures("integer division by zero is refused", bad)
}

//verif:prop Q01
func propModRefuses(a, b interface{}) {
	v.Requires("no numbers", !(v.TypeIs[int](a) && v.TypeIs[int](b)))
	bad, _ := v.Try(func() { Mod(a, b) })
	v.Ensures("operands without the operation are refused", bad)
}

func isNum(a interface{}) bool { return v.TypeIs[int](a) || v.TypeIs[float64](a) }

func isOrd(a interface{}) bool {
	return v.TypeIs[int](a) || v.TypeIs[float64](a) || v.TypeIs[byte](a)
}

// ---- orderings; bytes are compared as integers

//verif:prop Q01
func propLT(a, b int, x, y float64, p, q byte) {
	v.Ensures("integers", v.Same(LT(a, b), interface{}(a < b)))
	v.Ensures("floats", v.Same(LT(x, y), interface{}(x < y)))
	v.Ensures("integer and float", v.Same(LT(a, y), interface{}(float64(a) < y)))
	v.Ensures("float and integer", v.Same(LT(x, b), interface{}(x < float64(b))))
	v.Ensures("bytes", v.Same(LT(p, q), interface{}(p < q)))
	v.Ensures("byte and integer", v.Same(LT(p, b), interface{}(int(p) < b)))
	v.Ensures("integer and byte", v.Same(LT(a, q), interface{}(a < int(q))))
	v.Ensures("byte and float", v.Same(LT(p, y), interface{}(float64(int(p)) < y)))
	v.Ensures("float and byte", v.Same(LT(x, q), interface{}(x < float64(int(q)))))
}

//verif:prop Q01
func propLTStr(a, b string) {
	v.Ensures("strings", v.Same(LT(a, b), interface{}(a < b)))
}

//verif:prop Q01
func propLTRefuses(a, b interface{}) {
	v.Requires("no numbers", !(isOrd(a) && isOrd(b)))
	v.Requires("no strings", !(v.TypeIs[string](a) && v.TypeIs[string](b)))
	bad, _ := v.Try(func() { LT(a, b) })
	v.Ensures("operands without an order are refused", bad)
}

//verif:prop Q01
func propGT(a, b int, x, y float64, p, q byte) {
	v.Ensures("integers", v.Same(GT(a, b), interface{}(a > b)))
	v.Ensures("floats", v.Same(GT(x, y), interface{}(x > y)))
	v.Ensures("integer and float", v.Same(GT(a, y), interface{}(float64(a) > y)))
	v.Ensures("float and integer", v.Same(GT(x, b), interface{}(x > float64(b))))
	v.Ensures("bytes", v.Same(GT(p, q), interface{}(p > q)))
	v.Ensures("byte and integer", v.Same(GT(p, b), interface{}(int(p) > b)))
	v.Ensures("integer and byte", v.Same(GT(a, q), interface{}(a > int(q))))
	v.Ensures("byte and float", v.Same(GT(p, y), interface{}(float64(int(p)) > y)))
	v.Ensures("float and byte", v.Same(GT(x, q), interface{}(x > float64(int(q)))))
}

//verif:prop Q01
func propGTStr(a, b string) {
	v.Ensures("strings", v.Same(GT(a, b), interface{}(a > b)))
}

//verif:prop Q01
func propGTRefuses(a, b interface{}) {
	v.Requires("no numbers", !(isOrd(a) && isOrd(b)))
	v.Requires("no strings", !(v.TypeIs[string](a) && v.TypeIs[string](b)))
	bad, _ := v.Try(func() { GT(a, b) })
	v.Ensures("operands without an order are refused", bad)
}

//verif:prop Q01
func propLE(a, b int, x, y float64, p, q byte) {
	v.Ensures("integers", v.Same(LE(a, b), interface{}(a <= b)))
	v.Ensures("floats", v.Same(LE(x, y), interface{}(x <= y)))
	v.Ensures("integer and float", v.Same(LE(a, y), interface{}(float64(a) <= y)))
	v.Ensures("float and integer", v.Same(LE(x, b), interface{}(x <= float64(b))))
	v.Ensures("bytes", v.Same(LE(p, q), interface{}(p <= q)))
	v.Ensures("byte and integer", v.Same(LE(p, b), interface{}(int(p) <= b)))
	v.Ensures("integer and byte", v.Same(LE(a, q), interface{}(a <= int(q))))
	v.Ensures("byte and float", v.Same(LE(p, y), interface{}(float64(int(p)) <= y)))
	v.Ensures("float and byte", v.Same(LE(x, q), interface{}(x <= float64(int(q)))))
}

//verif:prop Q01
func propLEStr(a, b string) {
	v.Ensures("strings", v.Same(LE(a, b), interface{}(a <= b)))
}

//verif:prop Q01
func propLERefuses(a, b interface{}) {
	v.Requires("no numbers", !(isOrd(a) && isOrd(b)))
	v.Requires("no strings", !(v.TypeIs[string](a) && v.TypeIs[string](b)))
	bad, _ := v.Try(func() { LE(a, b) })
	v.Ensures("operands without an order are refused", bad)
}

//verif:prop Q01
func propGE(a, b int, x, y float64, p, q byte) {
	v.Ensures("integers", v.Same(GE(a, b), interface{}(a >= b)))
	v.Ensures("floats", v.Same(GE(x, y), interface{}(x >= y)))
	v.Ensures("integer and float", v.Same(GE(a, y), interface{}(float64(a) >= y)))
	v.Ensures("float and integer", v.Same(GE(x, b), interface{}(x >= float64(b))))
	v.Ensures("bytes", v.Same(GE(p, q), interface{}(p >= q)))
	v.Ensures("byte and integer", v.Same(GE(p, b), interface{}(int(p) >= b)))
	v.Ensures("integer and byte", v.Same(GE(a, q), interface{}(a >= int(q))))
	v.Ensures("byte and float", v.Same(GE(p, y), interface{}(float64(int(p)) >= y)))
	v.Ensures("float and byte", v.Same(GE(x, q), interface{}(x >= float64(int(q)))))
}

//verif:prop Q01
func propGEStr(a, b string) {
	v.Ensures("strings", v.Same(GE(a, b), interface{}(a >= b)))
}

//verif:prop Q01
func propGERefuses(a, b interface{}) {
	v.Requires("no numbers", !(isOrd(a) && isOrd(b)))
	v.Requires("no strings", !(v.TypeIs[string](a) && v.TypeIs[string](b)))
	bad, _ := v.Try(func() { GE(a, b) })
	v.Ensures("operands without an order are refused", bad)
}

// ---- equality compares type and value

//verif:prop Q01
//verif:opt machine=yes
func propEQ(a, b interface{}) {
	var want bool
	bad, _ := v.Try(func() { want = a == b })
	var eq, ne interface{}
	bad1, _ := v.Try(func() { eq = EQ(a, b) })
	bad2, _ := v.Try(func() { ne = NE(a, b) })
	v.Ensures("refused as Go refuses", bad1 == bad && bad2 == bad)
	v.Ensures("== is Go's", v.Implies(!bad, v.Same(eq, interface{}(want))))
	v.Ensures("!= is Go's", v.Implies(!bad, v.Same(ne, interface{}(!want))))
}

//verif:prop Q01
func propEQTypes(a int, x float64, s string, b byte, t bool) {
	v.Ensures("an integer is no float", v.Same(EQ(a, x), interface{}(false)) && v.Same(NE(x, a), interface{}(true)))
	v.Ensures("a byte is no integer", v.Same(EQ(a, b), interface{}(false)) && v.Same(NE(b, a), interface{}(true)))
	v.Ensures("a string is no number", v.Same(EQ(s, a), interface{}(false)) && v.Same(NE(s, x), interface{}(true)))
	v.Ensures("a boolean is no number", v.Same(EQ(t, a), interface{}(false)) && v.Same(NE(t, a), interface{}(true)))
	v.Ensures("nil is only nil", v.Same(EQ(nil, a), interface{}(false)) && v.Same(EQ(nil, nil), interface{}(true)))
}

// ---- unary operators

//verif:prop Q01
//verif:opt machine=yes
func propUnary(a int, x float64, b byte, t bool) {
	v.Ensures("minus of an integer", v.Same(Neg(a), interface{}(-a)))
	v.Ensures("minus of a float", v.Same(Neg(x), interface{}(-x)))
	v.Ensures("not", v.Same(Not(t), interface{}(!t)))
	v.Ensures("increment", v.Same(Inc(a), interface{}(a+1)))
	v.Ensures("increment of a byte", v.Same(Inc(b), interface{}(b+1)))
	v.Ensures("decrement", v.Same(Dec(a), interface{}(a-1)))
	v.Ensures("decrement of a byte", v.Same(Dec(b), interface{}(b-1)))
}

//verif:prop Q01
func propNegRefuses(a interface{}) {
	v.Requires("no number", !isNum(a))
	bad, _ := v.Try(func() { Neg(a) })
	v.Ensures("refused", bad)
}

//verif:prop Q01
func propNotRefuses(a interface{}) {
	v.Requires("no boolean", !v.TypeIs[bool](a))
	bad, _ := v.Try(func() { Not(a) })
	v.Ensures("refused", bad)
}

//verif:prop Q01
func propIncRefuses(a interface{}) {
	v.Requires("no integer", !v.TypeIs[int](a) && !v.TypeIs[byte](a))
	bad, _ := v.Try(func() { Inc(a) })
	v.Ensures("increment refused", bad)
	bad, _ = v.Try(func() { Dec(a) })
	v.Ensures("decrement refused", bad)
}

// ---- the operators of the grammar are these functions

func is(name string, f interface{}) bool { return v.Same(exports[name], f) }

//verif:prop Q01
func propTable() {
	v.Ensures("$add", is("$add", Add))
	v.Ensures("$sub", is("$sub", Sub))
	v.Ensures("$mul", is("$mul", Mul))
	v.Ensures("$quo", is("$quo", Quo))
	v.Ensures("$mod", is("$mod", Mod))
	v.Ensures("$neg", is("$neg", Neg))
	v.Ensures("$not", is("$not", Not))
	v.Ensures("$lt", is("$lt", LT))
	v.Ensures("$gt", is("$gt", GT))
	v.Ensures("$le", is("$le", LE))
	v.Ensures("$ge", is("$ge", GE))
	v.Ensures("$eq", is("$eq", EQ))
	v.Ensures("$ne", is("$ne", NE))
}
