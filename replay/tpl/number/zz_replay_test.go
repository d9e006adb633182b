package number_test

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"strings"
	"testing"

	tcmplx "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
	"github.com/qiniu/text/zzverif/rt"
)

func sameF(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

func sameC(a, b complex128) bool { return sameF(real(a), real(b)) && sameF(imag(a), imag(b)) }

// ---- N01: stacks -----------------------------------------------------------

func TestReplay_N01(t *testing.T) {
	r := rt.New(t, "random push/pop/popargs/clear histories of the three stacks against a list")
	defer r.Done()
	n := r.Scale(3000)
	for it := 0; it < n && r.Left(); it++ {
		var log []string
		switch it % 3 {
		case 0:
			stk := number.NewStack()
			var ref []float64
			for k := 0; k < 40; k++ {
				switch op := r.Rnd.Intn(10); {
				case op < 5:
					x := r.Rnd.NormFloat64()
					log = append(log, fmt.Sprintf("push %v", x))
					stk.Push(x)
					ref = append(ref, x)
				case op < 7:
					log = append(log, "pop")
					v, ok := stk.Pop()
					if ok != (len(ref) > 0) || ok && !sameF(v, ref[len(ref)-1]) {
						r.Fail("number-pop", "%v: got %v,%v want stack %v", log, v, ok, ref)
					}
					if len(ref) > 0 {
						ref = ref[:len(ref)-1]
					}
				case op < 9:
					a := r.Rnd.Intn(5)
					log = append(log, fmt.Sprintf("popargs %d", a))
					args, ok := stk.PopArgs(a)
					if ok != (len(ref) >= a) {
						r.Fail("number-popargs", "%v: ok=%v with %d elements", log, ok, len(ref))
						break
					}
					if ok {
						if len(args) != a {
							r.Fail("number-popargs", "%v: %d args", log, len(args))
							break
						}
						for i := range args {
							if !sameF(args[i].Interface().(float64), ref[len(ref)-a+i]) {
								r.Fail("number-popargs", "%v: argument %d is %v, stack %v", log, i, args[i], ref)
							}
						}
						ref = ref[:len(ref)-a]
					}
				default:
					log = append(log, "clear")
					stk.Clear()
					ref = ref[:0]
				}
				if len(*stk) != len(ref) {
					r.Fail("number-depth", "%v: depth %d want %d", log, len(*stk), len(ref))
					break
				}
				for i := range ref {
					if !sameF((*stk)[i], ref[i]) {
						r.Fail("number-content", "%v: %v want %v", log, *stk, ref)
					}
				}
			}
		case 1:
			stk := rat.NewStack()
			var ref []*big.Rat
			for k := 0; k < 40; k++ {
				switch op := r.Rnd.Intn(10); {
				case op < 5:
					x := big.NewRat(r.Rnd.Int63n(100), 7)
					log = append(log, fmt.Sprintf("push %v", x))
					stk.Push(x)
					ref = append(ref, x)
				case op < 7:
					log = append(log, "pop")
					v, ok := stk.Pop()
					if ok != (len(ref) > 0) || ok && v != ref[len(ref)-1] {
						r.Fail("rat-pop", "%v: got %v,%v want stack %v", log, v, ok, ref)
					}
					if len(ref) > 0 {
						ref = ref[:len(ref)-1]
					}
				case op < 9:
					a := r.Rnd.Intn(5)
					log = append(log, fmt.Sprintf("popargs %d", a))
					args, ok := stk.PopArgs(a)
					if ok != (len(ref) >= a) || ok && len(args) != a {
						r.Fail("rat-popargs", "%v: ok=%v with %d elements", log, ok, len(ref))
						break
					}
					if ok {
						for i := range args {
							if args[i].Interface().(*big.Rat) != ref[len(ref)-a+i] {
								r.Fail("rat-popargs", "%v: argument %d is %v, stack %v", log, i, args[i], ref)
							}
						}
						ref = ref[:len(ref)-a]
					}
				default:
					log = append(log, "clear")
					stk.Clear()
					ref = ref[:0]
				}
				if fmt.Sprint(*stk) != fmt.Sprint(rat.Stack(ref)) && len(*stk)+len(ref) > 0 {
					r.Fail("rat-content", "%v: %v want %v", log, *stk, ref)
					break
				}
			}
		default:
			stk := tcmplx.NewStack()
			var ref []complex128
			for k := 0; k < 40; k++ {
				switch op := r.Rnd.Intn(10); {
				case op < 3:
					x := complex(r.Rnd.NormFloat64(), r.Rnd.NormFloat64())
					log = append(log, fmt.Sprintf("push %v", x))
					stk.Push(x)
					ref = append(ref, x)
				case op < 5:
					x := r.Rnd.NormFloat64()
					log = append(log, fmt.Sprintf("pushreal %v", x))
					stk.PushReal(x)
					ref = append(ref, complex(x, 0))
				case op < 7:
					log = append(log, "pop")
					v, ok := stk.Pop()
					if ok != (len(ref) > 0) || ok && !sameC(v, ref[len(ref)-1]) {
						r.Fail("cmplx-pop", "%v: got %v,%v want stack %v", log, v, ok, ref)
					}
					if len(ref) > 0 {
						ref = ref[:len(ref)-1]
					}
				case op < 9:
					a := r.Rnd.Intn(5)
					log = append(log, fmt.Sprintf("popargs %d", a))
					args, ok := stk.PopArgs(a)
					if ok != (len(ref) >= a) || ok && len(args) != a {
						r.Fail("cmplx-popargs", "%v: ok=%v with %d elements", log, ok, len(ref))
						break
					}
					if ok {
						for i := range args {
							if !sameC(args[i].Interface().(complex128), ref[len(ref)-a+i]) {
								r.Fail("cmplx-popargs", "%v: argument %d is %v, stack %v", log, i, args[i], ref)
							}
						}
						ref = ref[:len(ref)-a]
					}
				default:
					log = append(log, "clear")
					stk.Clear()
					ref = ref[:0]
				}
				if len(*stk) != len(ref) {
					r.Fail("cmplx-depth", "%v: depth %d want %d", log, len(*stk), len(ref))
					break
				}
				for i := range ref {
					if !sameC((*stk)[i], ref[i]) {
						r.Fail("cmplx-content", "%v: %v want %v", log, *stk, ref)
					}
				}
			}
		}
		r.Case(strings.Join(log, ";"))
	}
}

// ---- N02 / N03: expressions ------------------------------------------------

type calcs struct {
	num  *number.Calculator
	rat  *rat.Calculator
	cpx  *tcmplx.Calculator
	en   *interpreter.Engine
	er   *interpreter.Engine
	ec   *interpreter.Engine
	rest func()
}

func newCalcs(r *rt.R) *calcs {
	c := &calcs{num: number.New(), rat: rat.New(), cpx: tcmplx.New()}
	var err error
	if c.en, err = interpreter.New(c.num, nil); err != nil {
		r.Fail("number-new", "interpreter.New(number): %v", err)
	}
	if c.er, err = interpreter.New(c.rat, nil); err != nil {
		r.Fail("rat-new", "interpreter.New(rat): %v", err)
	}
	if c.ec, err = interpreter.New(c.cpx, nil); err != nil {
		r.Fail("cmplx-new", "interpreter.New(cmplx): %v", err)
	}
	return c
}

func guard(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return f()
}

// an expression in the three number systems at once
type node struct {
	op   string // "lit" "neg" "pos" "+" "-" "*" "/" "%" "call"
	lit  string
	args []*node
}

type kind int

const (
	kNum kind = iota
	kRat
	kCpx
)

func gen(r *rt.R, k kind, d int) *node {
	if d == 0 || r.Rnd.Intn(6) == 0 {
		switch k {
		case kRat:
			return &node{op: "lit", lit: fmt.Sprint(1 + r.Rnd.Intn(40))}
		case kNum:
			switch r.Rnd.Intn(6) {
			case 0:
				return &node{op: "lit", lit: fmt.Sprintf("%d.%d", r.Rnd.Intn(20), r.Rnd.Intn(100))}
			case 1:
				return &node{op: "lit", lit: fmt.Sprintf("%de%d", 1+r.Rnd.Intn(9), r.Rnd.Intn(3))}
			case 2:
				return &node{op: "id", lit: []string{"e", "pi", "phi"}[r.Rnd.Intn(3)]}
			}
			return &node{op: "lit", lit: fmt.Sprint(1 + r.Rnd.Intn(40))}
		default:
			if r.Rnd.Intn(3) == 0 {
				return &node{op: "imag", lit: fmt.Sprint(1 + r.Rnd.Intn(9))}
			}
			return &node{op: "lit", lit: fmt.Sprint(1 + r.Rnd.Intn(40))}
		}
	}
	switch r.Rnd.Intn(8) {
	case 0:
		return &node{op: "neg", args: []*node{gen(r, k, d-1)}}
	case 1:
		return &node{op: "pos", args: []*node{gen(r, k, d-1)}}
	case 2:
		f := fns[k][r.Rnd.Intn(len(fns[k]))]
		n := f.n
		if n < 0 {
			n = 1 + r.Rnd.Intn(4)
		}
		c := &node{op: "call", lit: f.name}
		for i := 0; i < n; i++ {
			c.args = append(c.args, gen(r, k, d-1))
		}
		return c
	}
	ops := []string{"+", "-", "*", "/"}
	if k == kNum {
		ops = append(ops, "%")
	}
	return &node{op: ops[r.Rnd.Intn(len(ops))], args: []*node{gen(r, k, d-1), gen(r, k, d-1)}}
}

type fn struct {
	name string
	n    int
	f    func(a []float64) float64
	r    func(a []*big.Rat) *big.Rat
	c    func(a []complex128) complex128
}

func f1(name string, f func(float64) float64) fn {
	return fn{name: name, n: 1, f: func(a []float64) float64 { return f(a[0]) }}
}
func f2(name string, f func(a, b float64) float64) fn {
	return fn{name: name, n: 2, f: func(a []float64) float64 { return f(a[0], a[1]) }}
}
func c1(name string, f func(complex128) complex128) fn {
	return fn{name: name, n: 1, c: func(a []complex128) complex128 { return f(a[0]) }}
}

var fns = [3][]fn{
	kNum: {
		f1("abs", math.Abs), f1("acos", math.Acos), f1("acosh", math.Acosh), f1("asin", math.Asin), f1("asinh", math.Asinh),
		f1("atan", math.Atan), f2("atan2", math.Atan2), f1("atanh", math.Atanh), f1("cbrt", math.Cbrt), f1("ceil", math.Ceil),
		f2("copysign", math.Copysign), f1("cos", math.Cos), f1("cosh", math.Cosh), f2("dim", math.Dim), f1("erf", math.Erf),
		f1("erfc", math.Erfc), f1("exp", math.Exp), f1("exp2", math.Exp2), f1("expm1", math.Expm1), f1("floor", math.Floor),
		f1("gamma", math.Gamma), f2("hypot", math.Hypot), f1("j0", math.J0), f1("j1", math.J1), f1("ln", math.Log), f1("log", math.Log),
		f1("log10", math.Log10), f1("log1p", math.Log1p), f1("log2", math.Log2), f1("logb", math.Logb), f2("mod", math.Mod),
		f2("nextafter", math.Nextafter), f2("pow", math.Pow), f2("remainder", math.Remainder), f1("sin", math.Sin), f1("sinh", math.Sinh),
		f1("sqrt", math.Sqrt), f1("tan", math.Tan), f1("tanh", math.Tanh), f1("trunc", math.Trunc), f1("y0", math.Y0), f1("y1", math.Y1),
		{name: "max", n: -1, f: func(a []float64) float64 {
			m := a[0]
			for _, x := range a {
				if x > m {
					m = x
				}
			}
			return m
		}},
		{name: "min", n: -1, f: func(a []float64) float64 {
			m := a[0]
			for _, x := range a {
				if x < m {
					m = x
				}
			}
			return m
		}},
	},
	kRat: {
		{name: "abs", n: 1, r: func(a []*big.Rat) *big.Rat { return new(big.Rat).Abs(a[0]) }},
		{name: "inv", n: 1, r: func(a []*big.Rat) *big.Rat { return new(big.Rat).Inv(a[0]) }},
		{name: "num", n: 1, r: func(a []*big.Rat) *big.Rat { return new(big.Rat).SetInt(a[0].Num()) }},
		{name: "denom", n: 1, r: func(a []*big.Rat) *big.Rat { return new(big.Rat).SetInt(a[0].Denom()) }},
		{name: "max", n: -1, r: func(a []*big.Rat) *big.Rat {
			m := a[0]
			for _, x := range a {
				if x.Cmp(m) > 0 {
					m = x
				}
			}
			return m
		}},
		{name: "min", n: -1, r: func(a []*big.Rat) *big.Rat {
			m := a[0]
			for _, x := range a {
				if x.Cmp(m) < 0 {
					m = x
				}
			}
			return m
		}},
	},
	kCpx: {
		c1("acos", cmplx.Acos), c1("acosh", cmplx.Acosh), c1("asin", cmplx.Asin), c1("asinh", cmplx.Asinh), c1("atan", cmplx.Atan),
		c1("atanh", cmplx.Atanh), c1("conj", cmplx.Conj), c1("cos", cmplx.Cos), c1("cosh", cmplx.Cosh), c1("cot", cmplx.Cot),
		c1("exp", cmplx.Exp), c1("log", cmplx.Log), c1("log10", cmplx.Log10), c1("sin", cmplx.Sin), c1("sinh", cmplx.Sinh),
		c1("sqrt", cmplx.Sqrt), c1("tan", cmplx.Tan), c1("tanh", cmplx.Tanh),
		c1("abs", func(a complex128) complex128 { return complex(cmplx.Abs(a), 0) }),
		c1("phase", func(a complex128) complex128 { return complex(cmplx.Phase(a), 0) }),
		c1("real", func(a complex128) complex128 { return complex(real(a), 0) }),
		c1("imag", func(a complex128) complex128 { return complex(imag(a), 0) }),
		{name: "pow", n: 2, c: func(a []complex128) complex128 { return cmplx.Pow(a[0], a[1]) }},
		{name: "complex", n: 2, c: func(a []complex128) complex128 {
			if imag(a[0]) != 0 || imag(a[1]) != 0 {
				panic("type")
			}
			return complex(real(a[0]), real(a[1]))
		}},
		{name: "rect", n: 2, c: func(a []complex128) complex128 {
			if imag(a[0]) != 0 || imag(a[1]) != 0 {
				panic("type")
			}
			return cmplx.Rect(real(a[0]), real(a[1]))
		}},
	},
}

const (
	pAdd = iota
	pMul
	pFac
)

// str prints with the minimal parentheses of the calculator grammar.
func (n *node) str(p int) string {
	switch n.op {
	case "lit", "id":
		return n.lit
	case "imag":
		return n.lit + "i"
	case "neg":
		return "- " + n.args[0].str(pFac)
	case "pos":
		return "+ " + n.args[0].str(pFac)
	case "call":
		var a []string
		for _, x := range n.args {
			a = append(a, x.str(pAdd))
		}
		return n.lit + "(" + strings.Join(a, ", ") + ")"
	}
	my := pAdd
	if n.op != "+" && n.op != "-" {
		my = pMul
	}
	s := n.args[0].str(my) + " " + n.op + " " + n.args[1].str(my+1)
	if p > my {
		return "(" + s + ")"
	}
	return s
}

func find(k kind, name string) fn {
	for _, f := range fns[k] {
		if f.name == name {
			return f
		}
	}
	panic(name)
}

func (n *node) num() float64 {
	var a []float64
	for _, x := range n.args {
		a = append(a, x.num())
	}
	switch n.op {
	case "lit":
		var f float64
		fmt.Sscanf(n.lit, "%g", &f)
		return f
	case "id":
		return map[string]float64{"e": math.E, "pi": math.Pi, "phi": math.Phi}[n.lit]
	case "neg":
		return -a[0]
	case "pos":
		return a[0]
	case "+":
		return a[0] + a[1]
	case "-":
		return a[0] - a[1]
	case "*":
		return a[0] * a[1]
	case "/":
		return a[0] / a[1]
	case "%":
		return math.Mod(a[0], a[1])
	}
	return find(kNum, n.lit).f(a)
}

func (n *node) rat() *big.Rat {
	var a []*big.Rat
	for _, x := range n.args {
		a = append(a, x.rat())
	}
	z := new(big.Rat)
	switch n.op {
	case "lit":
		z.SetString(n.lit)
		return z
	case "neg":
		return z.Neg(a[0])
	case "pos":
		return a[0]
	case "+":
		return z.Add(a[0], a[1])
	case "-":
		return z.Sub(a[0], a[1])
	case "*":
		return z.Mul(a[0], a[1])
	case "/":
		return z.Quo(a[0], a[1])
	}
	return find(kRat, n.lit).r(a)
}

func (n *node) cpx() complex128 {
	var a []complex128
	for _, x := range n.args {
		a = append(a, x.cpx())
	}
	var f float64
	switch n.op {
	case "lit":
		fmt.Sscanf(n.lit, "%g", &f)
		return complex(f, 0)
	case "imag":
		fmt.Sscanf(n.lit, "%g", &f)
		return complex(0, f)
	case "neg":
		return -a[0]
	case "pos":
		return a[0]
	case "+":
		return a[0] + a[1]
	case "-":
		return a[0] - a[1]
	case "*":
		return a[0] * a[1]
	case "/":
		return a[0] / a[1]
	}
	return find(kCpx, n.lit).c(a)
}

func TestReplay_N02(t *testing.T) {
	r := rt.New(t, "operator functions on sample operands; random expressions of the float, rational and complex calculators against Go arithmetic; max/min against every order")
	defer r.Done()
	c := newCalcs(r)
	if c.en == nil || c.er == nil || c.ec == nil {
		return
	}
	vals := []float64{0, math.Copysign(0, -1), 1, -1, 2, 3.5, -7.25, 1e300, 1e-300, math.Inf(1), math.Inf(-1), math.NaN()}
	for _, a := range vals {
		if !sameF(number.Neg(a), -a) {
			r.Fail("number-neg", "Neg(%v) = %v", a, number.Neg(a))
		}
		for _, b := range vals {
			r.Case(fmt.Sprint("ops ", a, b))
			for _, o := range []struct {
				n    string
				g, w float64
			}{{"Add", number.Add(a, b), a + b}, {"Sub", number.Sub(a, b), a - b}, {"Mul", number.Mul(a, b), a * b}, {"Quo", number.Quo(a, b), a / b}} {
				if !sameF(o.g, o.w) {
					r.Fail("number-"+o.n, "%s(%v, %v) = %v want %v", o.n, a, b, o.g, o.w)
				}
			}
			x, y := complex(a, b), complex(b, 2)
			if a == a && b == b {
				for _, o := range []struct {
					n    string
					g, w complex128
				}{{"Add", tcmplx.Add(x, y), x + y}, {"Sub", tcmplx.Sub(x, y), x - y}, {"Mul", tcmplx.Mul(x, y), x * y}, {"Quo", tcmplx.Quo(x, y), x / y}, {"Neg", tcmplx.Neg(x), -x}, {"Real", tcmplx.Real(x), complex(real(x), 0)}, {"Imag", tcmplx.Imag(x), complex(imag(x), 0)}} {
					if !sameC(o.g, o.w) {
						r.Fail("cmplx-"+o.n, "%s(%v, %v) = %v want %v", o.n, x, y, o.g, o.w)
					}
				}
			}
		}
	}
	// max, min: the result is an argument not below / above any other
	fin := []float64{-3, -2.5, 0, 1, 2, 7, math.Inf(1), math.Inf(-1)}
	if number.Max() != 0 || number.Min() != 0 || rat.Max().Sign() != 0 || rat.Min().Sign() != 0 {
		r.Fail("max-empty", "maximum or minimum of nothing is not zero")
	}
	for it := 0; it < r.Scale(3000); it++ {
		n := 1 + r.Rnd.Intn(6)
		a := make([]float64, n)
		q := make([]*big.Rat, n)
		for i := range a {
			a[i] = fin[r.Rnd.Intn(len(fin))]
			q[i] = big.NewRat(int64(r.Rnd.Intn(9)-4), int64(1+r.Rnd.Intn(3)))
		}
		r.Case(fmt.Sprint("max", a))
		mx, mn := number.Max(a...), number.Min(a...)
		hasx, hasn := false, false
		for _, x := range a {
			hasx = hasx || x == mx
			hasn = hasn || x == mn
			if x > mx {
				r.Fail("number-max", "Max(%v) = %v", a, mx)
			}
			if x < mn {
				r.Fail("number-min", "Min(%v) = %v", a, mn)
			}
		}
		if !hasx || !hasn {
			r.Fail("number-maxmin", "Max/Min(%v) = %v/%v is no argument", a, mx, mn)
		}
		before := fmt.Sprint(q)
		rx, rn := rat.Max(q...), rat.Min(q...)
		hasx, hasn = false, false
		for _, x := range q {
			hasx = hasx || x.Cmp(rx) == 0
			hasn = hasn || x.Cmp(rn) == 0
			if x.Cmp(rx) > 0 {
				r.Fail("rat-max", "Max(%v) = %v", q, rx)
			}
			if x.Cmp(rn) < 0 {
				r.Fail("rat-min", "Min(%v) = %v", q, rn)
			}
		}
		if !hasx || !hasn || fmt.Sprint(q) != before {
			r.Fail("rat-maxmin", "Max/Min(%v) = %v/%v is no argument or changed one", q, rx, rn)
		}
		x, y := q[0], q[n-1]
		for _, o := range []struct {
			n    string
			g, w *big.Rat
		}{{"Add", rat.Add(x, y), new(big.Rat).Add(x, y)}, {"Sub", rat.Sub(x, y), new(big.Rat).Sub(x, y)}, {"Mul", rat.Mul(x, y), new(big.Rat).Mul(x, y)}, {"Neg", rat.Neg(x), new(big.Rat).Neg(x)}, {"Abs", rat.Abs(x), new(big.Rat).Abs(x)}} {
			if o.g.Cmp(o.w) != 0 {
				r.Fail("rat-"+o.n, "%s(%v, %v) = %v want %v", o.n, x, y, o.g, o.w)
			}
		}
		if y.Sign() != 0 && (rat.Quo(x, y).Cmp(new(big.Rat).Quo(x, y)) != 0 || rat.Inv(y).Cmp(new(big.Rat).Inv(y)) != 0) {
			r.Fail("rat-Quo", "Quo(%v, %v) = %v, Inv = %v", x, y, rat.Quo(x, y), rat.Inv(y))
		}
		if fmt.Sprint(q) != before {
			r.Fail("rat-operands", "an operation changed its operands %v to %v", before, q)
		}
	}
	for it := 0; it < r.Scale(4000) && r.Left(); it++ {
		k := kind(it % 3)
		n := gen(r, k, 1+r.Rnd.Intn(4))
		s := n.str(pAdd)
		r.Current(s)
		r.Case(s)
		evalCheck(r, c, k, n, s)
	}
}

func evalCheck(r *rt.R, c *calcs, k kind, n *node, s string) {
	switch k {
	case kNum:
		c.num.Ret()
		want := n.num()
		if err := guard(func() error { return c.en.Eval(s) }); err != nil {
			r.Fail("number-eval", "%q: %v", s, err)
			return
		}
		depth := len(*c.num.Stack().(*number.Stack))
		got, ok := c.num.Ret()
		if !ok || !sameF(got, want) {
			r.Fail("number-eval", "%q = %v, want %v", s, got, want)
		}
		if depth != 1 {
			r.Fail("number-eval-depth", "%q leaves %d operands", s, depth)
		}
	case kRat:
		c.rat.Ret()
		var want *big.Rat
		refused := guard(func() error { want = n.rat(); return nil }) != nil
		err := guard(func() error { return c.er.Eval(s) })
		if refused {
			if err == nil {
				r.Fail("rat-refuse", "%q accepted", s)
			}
			return
		}
		if err != nil {
			r.Fail("rat-eval", "%q: %v", s, err)
			return
		}
		depth := len(*c.rat.Stack().(*rat.Stack))
		got, ok := c.rat.Ret()
		if !ok || got.Cmp(want) != 0 {
			r.Fail("rat-eval", "%q = %v, want %v", s, got, want)
		}
		if depth != 1 {
			r.Fail("rat-eval-depth", "%q leaves %d operands", s, depth)
		}
	default:
		c.cpx.Ret()
		var want complex128
		refused := guard(func() error { want = n.cpx(); return nil }) != nil
		err := guard(func() error { return c.ec.Eval(s) })
		if refused {
			if err == nil {
				r.Fail("cmplx-refuse", "%q accepted", s)
			}
			return
		}
		if err != nil {
			r.Fail("cmplx-eval", "%q: %v", s, err)
			return
		}
		depth := len(*c.cpx.Stack().(*tcmplx.Stack))
		got, ok := c.cpx.Ret()
		if !ok || !sameC(got, want) {
			r.Fail("cmplx-eval", "%q = %v, want %v", s, got, want)
		}
		if depth != 1 {
			r.Fail("cmplx-eval-depth", "%q leaves %d operands", s, depth)
		}
	}
}

func TestReplay_N03(t *testing.T) {
	r := rt.New(t, "every function of the three calculators with 0..5 arguments, unknown names, missing arity")
	defer r.Done()
	c := newCalcs(r)
	if c.en == nil || c.er == nil || c.ec == nil {
		return
	}
	for k := kNum; k <= kCpx; k++ {
		for _, f := range fns[k] {
			for n := 0; n <= 5; n++ {
				call := &node{op: "call", lit: f.name}
				for i := 0; i < n; i++ {
					call.args = append(call.args, &node{op: "lit", lit: fmt.Sprint(2 + i)})
				}
				// below and above: other operands that must be kept
				s := call.str(pAdd)
				r.Case(s)
				if f.n < 0 && n == 0 {
					continue // checked below
				}
				if f.n < 0 || f.n == n {
					evalCheck(r, c, k, call, s)
					sum := &node{op: "+", args: []*node{{op: "lit", lit: "5"}, call}}
					evalCheck(r, c, k, sum, sum.str(pAdd))
					sum = &node{op: "-", args: []*node{call, {op: "lit", lit: "5"}}}
					evalCheck(r, c, k, sum, sum.str(pAdd))
					continue
				}
				var err error
				switch k {
				case kNum:
					err = guard(func() error { return c.en.Eval(s) })
					c.num.Ret()
				case kRat:
					err = guard(func() error { return c.er.Eval(s) })
					c.rat.Ret()
				default:
					err = guard(func() error { return c.ec.Eval(s) })
					c.cpx.Ret()
				}
				if err == nil {
					r.Fail("arity", "%q accepted, %s takes %d arguments", s, f.name, f.n)
				} else if !strings.Contains(err.Error(), f.name) {
					r.Fail("arity-message", "%q: %v does not name the function", s, err)
				}
			}
		}
		for _, name := range []string{"nosuch", "Abs", "maxx", "x", "ABS"} {
			for n := 0; n < 3; n++ {
				call := &node{op: "call", lit: name}
				for i := 0; i < n; i++ {
					call.args = append(call.args, &node{op: "lit", lit: "1"})
				}
				s := call.str(pAdd)
				r.Case(s)
				var err error
				switch k {
				case kNum:
					err = guard(func() error { return c.en.Eval(s) })
					c.num.Ret()
				case kRat:
					err = guard(func() error { return c.er.Eval(s) })
					c.rat.Ret()
				default:
					err = guard(func() error { return c.ec.Eval(s) })
					c.cpx.Ret()
				}
				if err == nil || !strings.Contains(err.Error(), name) {
					r.Fail("unknown-function", "%q: error %v", s, err)
				}
			}
		}
	}
	// no arguments: variadic functions give zero, constants their value
	for _, x := range []struct {
		s string
		v float64
	}{{"max()", 0}, {"min()", 0}, {"inf(1)", math.Inf(1)}, {"inf(0-1)", math.Inf(-1)}, {"NaN()", math.NaN()}, {"ldexp(3,4)", 48}, {"pow10(3)", 1000},
		{"jn(2,3)", math.Jn(2, 3)}, {"yn(2,3)", math.Yn(2, 3)}, {"1+max()", 1}, {"Inf", math.Inf(1)}, {"NaN", math.NaN()}} {
		r.Case(x.s)
		if err := guard(func() error { return c.en.Eval(x.s) }); err != nil {
			r.Fail("number-call", "%q: %v", x.s, err)
			continue
		}
		if v, ok := c.num.Ret(); !ok || !sameF(v, x.v) {
			r.Fail("number-call", "%q = %v, want %v", x.s, v, x.v)
		}
	}
	// the call mark itself
	for i, call := range []func(string) error{c.num.Call, c.rat.Call, c.cpx.Call} {
		c.num.Ret()
		c.rat.Ret()
		c.cpx.Ret()
		if err := call("max"); err == nil && i != 2 {
			r.Fail("call-without-arity", "calculator %d: a call without an arity is accepted", i)
		}
		if err := call("nosuch"); err == nil || !strings.Contains(err.Error(), "nosuch") {
			r.Fail("unknown-function", "calculator %d: Call(nosuch): %v", i, err)
		}
	}
	c.num.Stack().(*number.Stack).Push(1)
	c.num.Stack().(*number.Stack).Push(3)
	if err := c.num.Call("max"); err == nil {
		r.Fail("number-call-few", "max called with 3 arguments of which one is there")
	}
}
