package qlang_test

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/qiniu/text/tpl/qlang"
	"github.com/qiniu/text/tpl/qlang/lib/builtin"
	spec "github.com/qiniu/text/tpl/qlang/spec"
	"github.com/qiniu/text/zzverif/rt"
)

// sg generates scripts.
type sg struct {
	r     *rand.Rand
	n     int // trace numbers
	fn    int // depth of functions
	loops int
	w     map[string]int // weights of statements
	names []string
	bad   int // one in bad expressions is ill-typed (0: none)
}

func (g *sg) id() *sx { g.n++; return &sx{op: "lit", v: g.n} }

func (g *sg) tr(v *sx) *sx { return call(vr("tr"), g.id(), v) }

func vr(n string) *sx                { return &sx{op: "var", s: n} }
func lit(v interface{}) *sx          { return &sx{op: "lit", v: v} }
func call(f *sx, a ...*sx) *sx       { return &sx{op: "call", k: append([]*sx{f}, a...)} }
func op(o string, k ...*sx) *sx      { return &sx{op: o, k: k} }
func asg(n string, v *sx) *sx        { return &sx{op: "assign", s: n, k: []*sx{v}} }
func mem(o *sx, n string) *sx        { return &sx{op: "mem", s: n, k: []*sx{o}} }
func blk(s ...*sx) *sx               { return &sx{op: "block", k: s} }
func fnl(p []string, b ...*sx) *sx   { return &sx{op: "fn", pars: p, k: b} }
func (g *sg) name() string           { return g.names[g.r.Intn(len(g.names))] }
func boolv(b bool) *sx               { return vr(fmt.Sprint(b)) }
func (g *sg) chance(one int) bool    { return one > 0 && g.r.Intn(one) == 0 }

func (g *sg) intx(d int) *sx {
	if d <= 0 || g.r.Intn(3) == 0 {
		switch g.r.Intn(4) {
		case 0:
			return vr(g.name())
		case 1:
			return g.tr(lit(g.r.Intn(5)))
		}
		return lit(g.r.Intn(7))
	}
	switch g.r.Intn(8) {
	case 0, 1, 2, 3:
		return op([]string{"+", "-", "*", "/", "%"}[g.r.Intn(5)], g.intx(d-1), g.intx(d-1))
	case 4:
		return op("neg", g.intx(d-1))
	case 5:
		return g.tr(g.intx(d - 1))
	case 6:
		if g.w["call"] > 0 {
			return g.callx(d - 1)
		}
	}
	return lit(g.r.Intn(9))
}

func (g *sg) boolx(d int) *sx {
	if g.chance(g.bad) {
		return g.tr(g.intx(d - 1))
	}
	if d <= 0 {
		return g.tr(boolv(g.r.Intn(2) == 0))
	}
	switch g.r.Intn(6) {
	case 0, 1:
		return op([]string{"&&", "||"}[g.r.Intn(2)], g.boolx(d-1), g.boolx(d-1))
	case 2:
		return op("!", g.boolx(d-1))
	case 3, 4:
		return op([]string{"<", ">", "<=", ">=", "==", "!="}[g.r.Intn(6)], g.intx(d-1), g.intx(d-1))
	}
	return g.tr(boolv(g.r.Intn(2) == 0))
}

func (g *sg) callx(d int) *sx {
	var a []*sx
	for k := g.r.Intn(4); k > 0; k-- {
		a = append(a, g.intx(d-1))
	}
	f := vr(g.name())
	if g.r.Intn(3) == 0 {
		f = g.fnx(d - 1)
		if len(f.pars) > len(a) && g.r.Intn(4) > 0 {
			for len(f.pars) > len(a) {
				a = append(a, g.intx(0))
			}
		} else if !f.vari && len(a) > len(f.pars) && g.r.Intn(6) > 0 {
			a = a[:len(f.pars)]
		}
	}
	c := call(f, a...)
	if len(a) > 0 && g.r.Intn(8) == 0 {
		var e []*sx
		for k := g.r.Intn(3); k > 0; k-- {
			e = append(e, g.intx(0))
		}
		c.k[len(c.k)-1] = &sx{op: "list", k: e}
		c.vari = true
	}
	return c
}

func (g *sg) fnx(d int) *sx {
	f := &sx{op: "fn"}
	for k := g.r.Intn(3); k > 0; k-- {
		f.pars = append(f.pars, []string{"a", "b", "p", "q", "_u"}[g.r.Intn(5)]+[]string{"", fmt.Sprint(k)}[g.r.Intn(2)])
	}
	for i := range f.pars {
		for j := range f.pars[:i] {
			if f.pars[i] == f.pars[j] {
				f.pars[i] += "x"
			}
		}
	}
	f.vari = len(f.pars) > 0 && g.r.Intn(4) == 0
	old := g.names
	g.names = append(append([]string{}, g.names...), f.pars...)
	g.fn++
	f.k = g.block(d)
	if g.r.Intn(2) == 0 {
		f.k = append(f.k, &sx{op: "return", k: []*sx{g.intx(d - 1)}})
	}
	g.fn--
	g.names = old
	return f
}

func (g *sg) block(d int) (b []*sx) {
	for k := g.r.Intn(4); k > 0; k-- {
		b = append(b, g.stmt(d-1))
	}
	return
}

func (g *sg) stmt(d int) *sx {
	var keys []string
	tot := 0
	for _, k := range []string{"trace", "assign", "opas", "massign", "if", "switch", "for", "fn", "call", "return", "defer", "panic", "recover", "logic"} {
		if (k == "return" || k == "recover" || k == "defer") && g.fn == 0 || d <= 0 && (k == "if" || k == "switch" || k == "for" || k == "fn") {
			continue
		}
		for i := 0; i < g.w[k]; i++ {
			keys = append(keys, k)
		}
		tot += g.w[k]
	}
	switch keys[g.r.Intn(len(keys))] {
	case "trace":
		return g.tr(g.intx(d))
	case "logic":
		return g.tr(g.boolx(d))
	case "assign":
		n := g.name()
		if g.r.Intn(3) == 0 {
			return asg(n, g.tr(g.intx(d)))
		}
		return asg(n, g.intx(d))
	case "opas":
		switch g.r.Intn(3) {
		case 0:
			return &sx{op: []string{"inc", "dec"}[g.r.Intn(2)], s: g.name()}
		}
		return &sx{op: "opas", s: g.name(), v: []string{"+", "-", "*", "/", "%"}[g.r.Intn(5)], k: []*sx{g.intx(d)}}
	case "massign":
		n := 2 + g.r.Intn(2)
		x := &sx{op: "massign", k: []*sx{{op: "list"}}}
		m := n
		if g.chance(8) {
			m = 1 + g.r.Intn(4)
		}
		for i := 0; i < n; i++ {
			x.pars = append(x.pars, g.name())
		}
		for i := 0; i < m; i++ {
			x.k[0].k = append(x.k[0].k, g.intx(d-1))
		}
		if g.chance(12) {
			x.k[0] = g.intx(d)
		}
		return x
	case "if":
		x := op("if", g.boolx(d-1), blk(g.block(d)...))
		for k := g.r.Intn(3); k > 0; k-- {
			x.k = append(x.k, g.boolx(d-1), blk(g.block(d)...))
		}
		if g.r.Intn(2) == 0 {
			x.k = append(x.k, blk(g.block(d)...))
		}
		return x
	case "switch":
		x := op("switch", nil)
		mk := func() *sx { return g.boolx(d - 1) }
		if g.r.Intn(3) > 0 {
			x.k[0] = g.tr(lit(g.r.Intn(3)))
			mk = func() *sx { return g.tr(lit(g.r.Intn(3))) }
		}
		for k := g.r.Intn(4); k > 0; k-- {
			x.k = append(x.k, mk(), blk(g.block(d)...))
		}
		if g.r.Intn(2) == 0 {
			x.k = append(x.k, blk(g.block(d)...))
		}
		return x
	case "for":
		g.loops++
		i := fmt.Sprintf("i%d", g.loops)
		b := blk(g.block(d)...)
		if g.r.Intn(2) == 0 {
			c := call(vr("nx"), g.id(), lit(g.r.Intn(4)))
			return op("for", c, b)
		}
		init := asg(i, g.tr(lit(0)))
		cond := op("<", vr(i), g.tr(lit(g.r.Intn(4))))
		if g.chance(g.bad) {
			cond = g.tr(lit(1))
		}
		b.k = append(b.k, g.tr(vr(i)))
		var step *sx = &sx{op: "inc", s: i}
		if g.r.Intn(2) == 0 {
			step = &sx{op: "opas", s: i, v: "+", k: []*sx{g.tr(lit(1 + g.r.Intn(2)))}}
		}
		return op("for", init, cond, step, b)
	case "fn":
		return asg(g.name(), g.fnx(d-1))
	case "call":
		return g.tr(g.callx(d))
	case "return":
		if g.r.Intn(3) == 0 {
			return op("return")
		}
		return op("return", g.intx(d))
	case "defer":
		switch g.r.Intn(3) {
		case 0:
			return op("defer", g.tr(g.intx(d)))
		case 1:
			f := fnl(nil, g.block(d-1)...)
			f.k = append([]*sx{g.tr(op("recover"))}, f.k...)
			return op("defer", call(f))
		}
		g.fn++
		f := fnl(nil, g.block(d-1)...)
		g.fn--
		return op("defer", call(f))
	case "panic":
		if g.r.Intn(2) == 0 {
			return call(vr("panic"), g.tr(lit(g.r.Intn(90))))
		}
		return call(vr("panic"), lit("text"))
	case "recover":
		return g.tr(op("recover"))
	}
	return lit(1)
}

func sweep(r *rt.R, key string, n int, bad int, w map[string]int) {
	for i := 0; i < n && r.Left(); i++ {
		g := &sg{r: r.Rnd, w: w, names: []string{"a", "b", "c", "_v"}, bad: bad}
		var prog []*sx
		for _, v := range g.names {
			if g.r.Intn(4) > 0 {
				prog = append(prog, asg(v, lit(g.r.Intn(6))))
			}
		}
		for k := 2 + g.r.Intn(4); k > 0; k-- {
			prog = append(prog, g.stmt(3))
		}
		if g.r.Intn(4) == 0 {
			cut := g.r.Intn(len(prog))
			runBoth(r, key, prog[:cut], prog[cut:])
		} else {
			runBoth(r, key, prog)
		}
	}
}

var opVals = []interface{}{0, 1, -1, 7, -7, 3, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 0.0, math.Copysign(0, -1), 1.5, -2.5, 1e308, -1e308, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, "", "a", "b", "ab", "\x00", "é", byte(0), byte(1), byte(7), byte(255), true, false, nil, []int{1}, map[string]int{}, int64(1), float32(1), uint(1), struct{ a int }{1}, spec.Undefined, rune(5)}

func sameVal(a, b interface{}) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(a, b)
}

func TestReplay_Q01(t *testing.T) {
	r := rt.New(t, "every operator on all pairs of a table of integers, floats, strings, bytes and other values and on random numbers, against arbitrary-precision integers and Go's floats; random expressions in scripts; distinct operand pairs")
	defer r.Done()
	ops := map[string]func(a, b interface{}) interface{}{"+": builtin.Add, "-": builtin.Sub, "*": builtin.Mul, "/": builtin.Quo, "%": builtin.Mod, "<": builtin.LT, ">": builtin.GT, "<=": builtin.LE, ">=": builtin.GE, "==": builtin.EQ, "!=": builtin.NE}
	tab := map[string]string{"+": "$add", "-": "$sub", "*": "$mul", "/": "$quo", "%": "$mod", "<": "$lt", ">": "$gt", "<=": "$le", ">=": "$ge", "==": "$eq", "!=": "$ne"}
	check := func(o string, a, b interface{}) {
		r.Case(fmt.Sprintf("%#v %s %#v", a, o, b))
		want, ok := arith(o, a, b)
		f2, _ := spec.Fntable[tab[o]].(func(a, b interface{}) interface{})
		for i, f := range []func(a, b interface{}) interface{}{ops[o], f2} {
			if f == nil {
				r.Fail("table", "operator %s is not in the table", o)
				continue
			}
			var got interface{}
			p, _ := r.Try("op", o, func() { got = f(a, b) })
			if p == ok || ok && !sameVal(got, want) {
				r.Fail("op", "%#v %s %#v = %#v (panic %v, %d), want %#v (%v)", a, o, b, got, p, i, want, ok)
			}
		}
	}
	for o := range ops {
		for _, a := range opVals {
			for _, b := range opVals {
				check(o, a, b)
			}
		}
	}
	rv := func() interface{} {
		switch r.Rnd.Intn(5) {
		case 0:
			return int(r.Rnd.Uint64())
		case 1:
			return r.Rnd.Intn(20) - 10
		case 2:
			return math.Float64frombits(r.Rnd.Uint64())
		case 3:
			return float64(r.Rnd.Intn(20)-10) / 2
		}
		return opVals[r.Rnd.Intn(len(opVals))]
	}
	for i := 0; i < r.Scale(20000) && r.Left(); i++ {
		for o := range ops {
			check(o, rv(), rv())
		}
	}
	un := func(name string, f func(a interface{}) interface{}, a interface{}, want interface{}, ok bool) {
		var got interface{}
		r.Case(fmt.Sprintf("%s %#v", name, a))
		p, _ := r.Try("op", name, func() { got = f(a) })
		if p == ok || ok && !sameVal(got, want) {
			r.Fail("unary", "%s %#v = %#v (panic %v), want %#v (%v)", name, a, got, p, want, ok)
		}
	}
	for i := 0; i < len(opVals)+200; i++ {
		a := rv()
		if i < len(opVals) {
			a = opVals[i]
		}
		b, isb := a.(bool)
		un("!", builtin.Not, a, !b, isb)
		switch x := a.(type) {
		case int:
			un("-", builtin.Neg, a, 0-x, true)
			un("++", builtin.Inc, a, x+1, true)
			un("--", builtin.Dec, a, x-1, true)
		case float64:
			un("-", builtin.Neg, a, math.Copysign(x, map[bool]float64{true: 1, false: -1}[math.Signbit(x)]), true)
			un("++", builtin.Inc, a, nil, false)
			un("--", builtin.Dec, a, nil, false)
		case byte:
			un("-", builtin.Neg, a, nil, false)
			un("++", builtin.Inc, a, byte(int(x)+1), true)
			un("--", builtin.Dec, a, byte(int(x)+255), true)
		default:
			un("-", builtin.Neg, a, nil, false)
			un("++", builtin.Inc, a, nil, false)
			un("--", builtin.Dec, a, nil, false)
		}
	}
	// expressions of scripts
	var ex func(d int) *sx
	ex = func(d int) *sx {
		if d <= 0 {
			switch r.Rnd.Intn(8) {
			case 0, 1, 2, 3:
				return lit(r.Rnd.Intn(50))
			case 4, 5:
				return lit(float64(r.Rnd.Intn(40)) / 4)
			case 6:
				return lit([]string{"a", "b", ""}[r.Rnd.Intn(3)])
			}
			return lit(byte('a' + r.Rnd.Intn(3)))
		}
		if r.Rnd.Intn(8) == 0 {
			return op([]string{"neg", "!"}[r.Rnd.Intn(2)], ex(d-1))
		}
		o := []string{"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "+", "-", "*"}[r.Rnd.Intn(14)]
		return op(o, ex(d-1-r.Rnd.Intn(2)), ex(d-1-r.Rnd.Intn(2)))
	}
	for i := 0; i < r.Scale(1500) && r.Left(); i++ {
		runBoth(r, "script", []*sx{asg("x", ex(1+r.Rnd.Intn(4)))})
	}
}

func TestReplay_Q02(t *testing.T) {
	r := rt.New(t, "random scripts of nested if, switch, && and || with traced conditions and branches (some ill-typed), against a reference interpreter; distinct scripts")
	defer r.Done()
	sweep(r, "branch", r.Scale(1500), 25, map[string]int{"trace": 3, "assign": 2, "if": 4, "switch": 4, "logic": 4})
	sweep(r, "branch", r.Scale(500), 0, map[string]int{"trace": 2, "if": 4, "switch": 4, "logic": 4, "fn": 1, "call": 1, "return": 1})
}

func TestReplay_Q03(t *testing.T) {
	r := rt.New(t, "random scripts of nested loops with traced initialisers, conditions, bodies and steps (some failing), against a reference interpreter; distinct scripts")
	defer r.Done()
	sweep(r, "loop", r.Scale(1500), 40, map[string]int{"trace": 3, "assign": 2, "for": 6, "if": 1})
	sweep(r, "loop", r.Scale(500), 0, map[string]int{"trace": 3, "for": 6, "fn": 1, "call": 2, "return": 1, "panic": 1})
}

func TestReplay_Q04(t *testing.T) {
	r := rt.New(t, "random scripts of nested functions that read, assign, multiply assign and update shared, private and undefined names, against a reference interpreter with lexical scopes; distinct scripts")
	defer r.Done()
	sweep(r, "scope", r.Scale(3000), 0, map[string]int{"trace": 4, "assign": 5, "opas": 3, "massign": 3, "fn": 3, "call": 4, "if": 1, "return": 1})
}

func TestReplay_Q05(t *testing.T) {
	r := rt.New(t, "random scripts that define and call functions (variadic, spread arguments, nested, recursive, wrong argument counts) and use their results, against a reference interpreter; distinct scripts")
	defer r.Done()
	sweep(r, "call", r.Scale(2500), 0, map[string]int{"trace": 4, "assign": 2, "fn": 4, "call": 6, "return": 3, "if": 1, "for": 1})
	sweep(r, "call", r.Scale(500), 0, map[string]int{"trace": 4, "assign": 2, "fn": 4, "call": 6, "return": 3, "if": 1, "for": 1, "defer": 1, "panic": 1})
}

func TestReplay_Q06(t *testing.T) {
	r := rt.New(t, "random scripts with deferred calls, panics and recovers in nested functions, loops and branches, against a reference interpreter; distinct scripts")
	defer r.Done()
	sweep(r, "defer", r.Scale(3000), 0, map[string]int{"trace": 3, "assign": 1, "fn": 4, "call": 6, "return": 2, "defer": 6, "panic": 1, "recover": 1, "if": 1, "for": 1})
}

func TestReplay_Q07(t *testing.T) {
	r := rt.New(t, "random scripts that define classes with methods and initialisers, create objects, set and read fields and call methods, against a reference interpreter; distinct scripts")
	defer r.Done()
	fields := []string{"x", "y", "m", "g", "z"}
	for i := 0; i < r.Scale(2500) && r.Left(); i++ {
		g := &sg{r: r.Rnd, w: map[string]int{"trace": 3, "assign": 1, "if": 1, "return": 1}, names: []string{"a", "b"}}
		pick := func(s ...string) string { return s[g.r.Intn(len(s))] }
		obj := func() *sx { return vr(pick("o", "p", "q")) }
		var val func(d int) *sx
		val = func(d int) *sx {
			switch g.r.Intn(5) {
			case 0:
				return mem(obj(), pick(fields...))
			case 1:
				c := call(mem(obj(), pick("m", "g", "x")))
				for k := g.r.Intn(3); k > 0 && d > 0; k-- {
					c.k = append(c.k, val(d-1))
				}
				return c
			case 2:
				return op("+", lit(g.r.Intn(9)), lit(1))
			}
			return lit(g.r.Intn(99))
		}
		set := func(o *sx) *sx { return call(vr("set"), o, lit(pick(fields...)), val(1)) }
		method := func(name string) *sx {
			f := &sx{op: "fn", s: name}
			for k := g.r.Intn(3); k > 0; k-- {
				f.pars = append(f.pars, fmt.Sprintf("v%d", k))
			}
			if name == "_init" && len(f.pars) > 0 && g.r.Intn(3) > 0 {
				f.pars = f.pars[:1]
			}
			f.vari = len(f.pars) > 0 && g.chance(6)
			g.fn++
			for k := g.r.Intn(3); k > 0; k-- {
				switch g.r.Intn(4) {
				case 0:
					f.k = append(f.k, g.tr(mem(vr("this"), pick(fields...))))
				case 1:
					f.k = append(f.k, set(vr("this")))
				case 2:
					if len(f.pars) > 0 {
						f.k = append(f.k, call(vr("set"), vr("this"), lit(pick("x", "y", "z")), vr(f.pars[0])))
					}
				case 3:
					f.k = append(f.k, g.tr(lit(g.r.Intn(9))))
				}
			}
			if name != "_init" {
				switch g.r.Intn(4) {
				case 0:
					f.k = append(f.k, op("return", mem(vr("this"), pick(fields...))))
				case 1:
					f.k = append(f.k, op("return", vr("this")))
				case 2:
					if len(f.pars) > 0 {
						f.k = append(f.k, op("return", vr(f.pars[0])))
					}
				}
			}
			g.fn--
			return f
		}
		var prog []*sx
		for _, c := range []string{"C", "D"} {
			cls := &sx{op: "class"}
			for _, n := range []string{"_init", "m", "g"} {
				if g.r.Intn(3) > 0 {
					cls.fns = append(cls.fns, method(n))
				}
			}
			prog = append(prog, asg(c, cls))
		}
		mk := func() *sx {
			n := &sx{op: "new", s: pick("C", "D")}
			for k := g.r.Intn(2); k > 0; k-- {
				n.k = append(n.k, lit(g.r.Intn(50)))
			}
			n.vari = len(n.k) == 0 && g.r.Intn(2) == 0
			if g.chance(30) {
				n.s = "a"
			}
			return n
		}
		prog = append(prog, asg("a", lit(1)), asg("o", mk()), asg("p", mk()), asg("q", []*sx{mk(), vr("o"), mk()}[g.r.Intn(3)]))
		for k := 2 + g.r.Intn(5); k > 0; k-- {
			switch g.r.Intn(6) {
			case 0, 1:
				prog = append(prog, set(obj()))
			case 2, 3:
				prog = append(prog, g.tr(val(2)))
			case 4:
				prog = append(prog, asg(pick("o", "p", "q"), obj()))
			case 5:
				prog = append(prog, g.tr(op("==", obj(), obj())), g.tr(call(mem(vr(pick("C", "D")), pick("m", "g")), obj(), lit(5))))
			}
		}
		runBoth(r, "object", prog)
	}
}

// ---- containers ---------------------------------------------------------------

func TestReplay_Q08(t *testing.T) {
	r := rt.New(t, "random operations (read, store, append, slice, delete, len, literals) on lists of every element type, strings and maps, with keys of right and wrong type and range, against Go's own containers; distinct operations")
	defer r.Done()
	scal := []interface{}{0, 1, -2, 7, 1.5, -0.5, "s", "", "k", true, byte(3), nil, spec.Undefined}
	any := func() interface{} { return scal[r.Rnd.Intn(len(scal))] }
	of := func(k int) interface{} {
		switch k {
		case 0:
			return r.Rnd.Intn(9) - 3
		case 1:
			return float64(r.Rnd.Intn(9)) / 2
		case 2:
			return []string{"a", "b", "c", ""}[r.Rnd.Intn(4)]
		case 3:
			if r.Rnd.Intn(2) == 0 {
				return r.Rnd.Intn(9)
			}
			return float64(r.Rnd.Intn(9)) / 2
		}
		return any()
	}
	model := func(v interface{}) []interface{} {
		var out []interface{}
		x := reflect.ValueOf(v)
		for i := 0; i < x.Len(); i++ {
			out = append(out, x.Index(i).Interface())
		}
		return out
	}
	eq := func(a, b []interface{}) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	// elem tells how a value is stored in a list
	elem := func(l interface{}, v interface{}, app bool) (interface{}, bool) {
		switch l.(type) {
		case []interface{}:
			return v, true
		case []int:
			if v == nil {
				return 0, true
			}
			_, ok := v.(int)
			return v, ok
		case []float64:
			switch x := v.(type) {
			case int:
				return float64(x), app
			case float64:
				return x, true
			case nil:
				return 0.0, !app
			}
			return nil, false
		case []string:
			if v == nil {
				return "", true
			}
			_, ok := v.(string)
			return v, ok
		}
		return nil, false
	}
	for i := 0; i < r.Scale(1500) && r.Left(); i++ {
		kind := r.Rnd.Intn(5)
		var els []interface{}
		for k := r.Rnd.Intn(6); k > 0; k-- {
			els = append(els, of(kind))
		}
		var l interface{}
		p, e := r.Try("list", fmt.Sprint(els), func() { l = builtin.SliceFrom(els...) })
		if p {
			r.Fail("literal", "sliceFrom(%#v) panics: %v", els, e)
			continue
		}
		want := els
		if len(els) > 0 {
			want = model(mklist(els))
			if reflect.TypeOf(l) != reflect.TypeOf(mklist(els)) {
				r.Fail("literal", "sliceFrom(%#v) is a %T", els, l)
				continue
			}
		}
		if !eq(model(l), want) {
			r.Fail("literal", "sliceFrom(%#v) = %#v", els, l)
			continue
		}
		want = append([]interface{}{}, want...)
		for k := 0; k < 8; k++ {
			var idx interface{} = r.Rnd.Intn(len(want)+3) - 1
			if r.Rnd.Intn(12) == 0 {
				idx = any()
			}
			n, isInt := idx.(int)
			in := isInt && n >= 0 && n < len(want)
			v := of(kind)
			if r.Rnd.Intn(6) == 0 {
				v = any()
			}
			d := fmt.Sprintf("%#v[%#v] %#v", want, idx, v)
			r.Case(d)
			switch r.Rnd.Intn(5) {
			case 0:
				var got interface{}
				p, _ := r.Try("get", d, func() { got = builtin.Get(l, idx) })
				if p == in || in && !sameVal(got, want[n]) {
					r.Fail("get", "%s: get gives %#v (panic %v)", d, got, p)
				}
			case 1:
				w, ok := elem(l, v, false)
				p, _ := r.Try("set", d, func() { builtin.Set(l, idx, v) })
				if p == (ok && in) {
					r.Fail("set", "%s: set: panic %v", d, p)
				}
				if ok && in {
					want[n] = w
				}
				if !eq(model(l), want) {
					r.Fail("set", "%s: after set the list is %#v", d, l)
					k = 99
				}
			case 2:
				w, ok := elem(l, v, true)
				w2, ok2 := elem(l, idx, true)
				var got interface{}
				p, _ := r.Try("append", d, func() { got = builtin.Append(l, v, idx) })
				nw := append(append([]interface{}{}, want...), w, w2)
				if p == (ok && ok2) || !p && (!eq(model(got), nw) || reflect.TypeOf(got) != reflect.TypeOf(l)) {
					r.Fail("append", "%s: append gives %#v (panic %v)", d, got, p)
					k = 99
				} else if !p && r.Rnd.Intn(2) == 0 {
					l, want = got, nw
				}
				if !eq(model(l), want) {
					r.Fail("append", "%s: append changed the list to %#v", d, l)
					k = 99
				}
			case 3:
				var j interface{} = r.Rnd.Intn(len(want)+3) - 1
				if r.Rnd.Intn(5) == 0 {
					j = nil
				}
				if r.Rnd.Intn(5) == 0 {
					idx = nil
				}
				a, b, ok := 0, len(want), true
				if idx != nil {
					a, ok = idx.(int)
				}
				if j != nil {
					b = j.(int)
				}
				ok = ok && a >= 0 && a <= b && b <= len(want)
				if b > len(want) && b <= reflect.ValueOf(l).Cap() {
					continue // within the capacity: as Go, beyond this table
				}
				var got interface{}
				p, _ := r.Try("sub", d, func() { got = builtin.SubSlice(l, idx, j) })
				if p == ok || ok && (!eq(model(got), want[a:b]) || reflect.TypeOf(got) != reflect.TypeOf(l)) {
					r.Fail("sub", "%s: [%v:%v] gives %#v (panic %v)", d, idx, j, got, p)
				}
			case 4:
				if builtin.Len(l) != len(want) {
					r.Fail("len", "%s: len is %d", d, builtin.Len(l))
				}
			}
		}
	}
	if builtin.Len(nil) != 0 {
		r.Fail("len", "len(nil)")
	}
	for i := 0; i < r.Scale(500) && r.Left(); i++ { // strings
		s := strings.Repeat("aé\x00b", 2)[:r.Rnd.Intn(8)]
		n, m := r.Rnd.Intn(12)-2, r.Rnd.Intn(12)-2
		d := fmt.Sprintf("%q %d %d", s, n, m)
		r.Case(d)
		var got interface{}
		p, _ := r.Try("get", d, func() { got = builtin.Get(s, n) })
		if in := n >= 0 && n < len(s); p == in || in && got != interface{}(s[n]) {
			r.Fail("string", "%s: get gives %#v", d, got)
		}
		p, _ = r.Try("sub", d, func() { got = builtin.SubSlice(s, n, m) })
		if in := n >= 0 && n <= m && m <= len(s); p == in || in && got != interface{}(s[n:m]) {
			r.Fail("string", "%s: sub gives %#v", d, got)
		}
		if builtin.Len(s) != len(s) {
			r.Fail("string", "%s: len", d)
		}
	}
	for i := 0; i < r.Scale(1500) && r.Left(); i++ { // maps
		kk, vk := r.Rnd.Intn(2)*2, r.Rnd.Intn(5) // int or string keys
		if kk == 0 && r.Rnd.Intn(2) == 0 {
			kk = 2
		}
		want := map[interface{}]interface{}{}
		var args []interface{}
		for k := r.Rnd.Intn(5); k > 0; k-- {
			args = append(args, of(kk), of(vk))
		}
		var m interface{}
		p, e := r.Try("map", fmt.Sprint(args), func() { m = builtin.MapFrom(args...) })
		if p {
			r.Fail("literal", "mapFrom(%#v) panics: %v", args, e)
			continue
		}
		var vals []interface{}
		for k := 1; k < len(args); k += 2 {
			vals = append(vals, args[k])
		}
		if len(vals) > 0 {
			vals = model(mklist(vals))
		}
		for k := 0; k < len(args); k += 2 {
			if vals[k/2] != spec.Undefined {
				want[args[k]] = vals[k/2]
			}
		}
		dup := map[interface{}]bool{}
		same := true
		for k := 0; k < len(args); k += 2 {
			if dup[args[k]] && vk == 4 {
				same = false // a repeated key with an undefined value
			}
			dup[args[k]] = true
		}
		if !same {
			continue
		}
		mt := reflect.TypeOf(m)
		conv := func() bool {
			x := reflect.ValueOf(m)
			if x.Len() != len(want) || builtin.Len(m) != len(want) {
				return false
			}
			for k, v := range want {
				g := x.MapIndex(reflect.ValueOf(k))
				if !g.IsValid() || !sameVal(g.Interface(), v) {
					return false
				}
			}
			return true
		}
		if !conv() {
			r.Fail("literal", "mapFrom(%#v) = %#v", args, m)
			continue
		}
		for k := 0; k < 8; k++ {
			key := of(kk)
			if r.Rnd.Intn(8) == 0 {
				key = any()
			}
			v := of(vk)
			if r.Rnd.Intn(6) == 0 {
				v = any()
			}
			d := fmt.Sprintf("%#v[%#v] %#v", m, key, v)
			r.Case(d)
			keyOK := key != nil && reflect.TypeOf(key) == mt.Key()
			if key == nil {
				continue
			}
			switch r.Rnd.Intn(4) {
			case 0:
				var got interface{}
				p, _ := r.Try("get", d, func() { got = builtin.Get(m, key) })
				w, has := want[key]
				if !has {
					w = spec.Undefined
				}
				if p == keyOK || keyOK && !sameVal(got, w) {
					r.Fail("get", "%s: get gives %#v (panic %v)", d, got, p)
				}
			case 1:
				w, ok := v, keyOK
				if v == nil {
					w = reflect.Zero(mt.Elem()).Interface()
				} else if v != spec.Undefined {
					ok = ok && reflect.TypeOf(v).AssignableTo(mt.Elem())
				}
				p, _ := r.Try("set", d, func() { builtin.Set(m, key, v) })
				if p == ok {
					r.Fail("set", "%s: set: panic %v", d, p)
				}
				if ok && v == spec.Undefined {
					delete(want, key)
				} else if ok {
					want[key] = w
				}
			case 2:
				p, _ := r.Try("delete", d, func() { builtin.Delete(m, key) })
				if p == keyOK {
					r.Fail("delete", "%s: delete: panic %v", d, p)
				}
				if keyOK {
					delete(want, key)
				}
			}
			if !conv() {
				r.Fail("store", "%s: afterwards the map is %#v, want %#v", d, m, want)
				break
			}
		}
	}
	// literals and indexing in scripts
	for i := 0; i < r.Scale(800) && r.Left(); i++ {
		var l []*sx
		kind := r.Rnd.Intn(4)
		for k := r.Rnd.Intn(5); k > 0; k-- {
			l = append(l, lit(of(kind)))
		}
		for _, x := range l {
			switch v := x.v.(type) {
			case int:
				if v < 0 {
					x.v = -v
				}
			}
		}
		idx := lit(r.Rnd.Intn(5))
		if r.Rnd.Intn(10) == 0 {
			idx = lit("a")
		}
		runBoth(r, "script", []*sx{asg("l", &sx{op: "list", k: l}), asg("n", call(vr("len"), vr("l"))), asg("e", op("index", vr("l"), idx))})
	}
	for _, c := range [][2]string{
		{`m = {"a": 1, "b": 2}; set(m, "b", 5); x = m["b"]; y = m["z"]; n = len(m)`, "x=5:int y=UNDEF n=2:int"},
		{`m = {"a": 1, "b": 2}; delete(m, "a"); x = m["a"]; y = m.b`, "x=UNDEF y=2:int"},
		{`l = [1, 2, 3, 4]; a = l[1:3]; b = l[:2]; c = l[2:]; d = l[:]`, "a=[2 3][]int b=[1 2][]int c=[3 4][]int d=[1 2 3 4][]int"},
		{`l = append([1, 2], 3); m = append([1.5], 2); n = [1, 2.5]; o = [1, "a"]`, "l=[1 2 3][]int m=[1.5 2][]float64 n=[1 2.5][]float64 o=[1:int a:string]var"},
		{`s = "hello"; x = s[1]; y = s[1:3]; z = s[3:]`, "x=101:uint8 y=el:string z=lo:string"},
		{`m = {1: "a", 2: "b"}; x = m[2]; l = mkmap("string:int"); set(l, "q", 4); y = l["q"]; k = slice("int", 2); set(k, 1, 9); z = k`, "x=b:string y=4:int z=[0 9][]int"},
		{`x = sub([1, 2, 3], 1, 2); y = get({"k": 2}, "k"); z = {}`, "x=[2][]int y=2:int z=map[]map[string]interface {}"},
	} {
		lang, err := qlang.New(nil)
		if err != nil {
			r.Fail("new", "%v", err)
			break
		}
		r.Case(c[0])
		cur = &realMach{left: map[int]int{}}
		if err := lang.SafeEval(c[0]); err != nil {
			r.Fail("script", "%s: %v", c[0], err)
			continue
		}
		for _, w := range strings.Split(c[1], " ") {
			i := strings.IndexByte(w, '=')
			if i < 1 || len(w) < 2 {
				continue
			}
			g, _ := lang.Var(w[:i])
			if s := show(g); !strings.HasPrefix(s, w[i+1:]) || !strings.Contains(c[1], w[:i]+"="+s) {
				r.Fail("script", "%s: %s is %s, want %s", c[0], w[:i], s, c[1])
			}
		}
	}
}

func TestReplay_I01(t *testing.T) {
	r := rt.New(t, "numeric, string and character literals in scripts; distinct literals")
	defer r.Done()
	for _, c := range []struct {
		l string
		v interface{}
	}{{"0", 0}, {"42", 42}, {"017", 15}, {"0x1F", 31}, {"0X0", 0}, {"9223372036854775807", math.MaxInt64}, {"9223372036854775808", nil}, {"0xffffffffffffffffff", nil}, {"08.5", 8.5}, {"1.5", 1.5}, {".25", .25}, {"1e3", 1000.0}, {"5.", 5.0}, {`"a\n\x41\u00e9\\"`, "a\nAé\\"}, {"`r\\n`", "r\\n"}, {`""`, ""}, {`'a'`, byte('a')}, {`'\n'`, byte('\n')}, {`'\x7f'`, byte(0x7f)}, {`'\''`, byte('\'')}, {`'\377'`, byte(255)}, {`'\u00e9'`, nil}, {"'é'", nil}} {
		lang, err := qlang.New(nil)
		if err != nil {
			r.Fail("new", "%v", err)
			return
		}
		r.Case(c.l)
		p, e := r.Try("script", c.l, func() { err = lang.SafeEval("x = " + c.l) })
		g, _ := lang.Var("x")
		if p || (err == nil) != (c.v != nil) || c.v != nil && !sameVal(g, c.v) {
			r.Fail("script", "%s evaluates to %#v (%v, %v), want %#v", c.l, g, err, e, c.v)
		}
	}
}
