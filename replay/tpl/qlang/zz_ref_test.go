package qlang_test

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/qiniu/text/tpl/qlang"
	cl "github.com/qiniu/text/tpl/qlang/cl"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	spec "github.com/qiniu/text/tpl/qlang/spec"
	"github.com/qiniu/text/zzverif/rt"
)

// ---- scripts -----------------------------------------------------------------

// sx is a statement or an expression.
type sx struct {
	op   string
	s    string
	v    interface{}
	k    []*sx
	pars []string
	vari bool
	fns  []*sx // methods of a class: fn nodes with names
}

func quote(s string) string { return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

func litText(v interface{}) string {
	switch x := v.(type) {
	case int:
		return fmt.Sprint(x)
	case float64:
		s := fmt.Sprint(x)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case string:
		return quote(x)
	case byte:
		return "'" + string(rune(x)) + "'"
	case bool:
		return fmt.Sprint(x)
	case nil:
		return "nil"
	}
	panic("lit")
}

var binLvl = map[string]int{"||": 1, "&&": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "==": 3, "!=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}

func block(b []*sx) string {
	var p []string
	for _, s := range b {
		p = append(p, s.text(0))
	}
	return "{" + strings.Join(p, "; ") + "}"
}

func (x *sx) args(from int) string {
	var p []string
	for _, a := range x.k[from:] {
		p = append(p, a.text(0))
	}
	return strings.Join(p, ", ")
}

func (x *sx) text(lvl int) string {
	switch x.op {
	case "lit":
		return litText(x.v)
	case "var":
		return x.s
	case "assign":
		return x.s + " = " + x.k[0].text(0)
	case "opas":
		return x.s + " " + x.v.(string) + "= " + x.k[0].text(0)
	case "inc", "dec":
		return x.s + map[string]string{"inc": "++", "dec": "--"}[x.op]
	case "massign":
		return strings.Join(x.pars, ", ") + " = " + x.k[0].text(0)
	case "return":
		if len(x.k) == 0 {
			return "return"
		}
		return "return " + x.k[0].text(0)
	case "defer":
		return "defer " + x.k[0].text(0)
	case "!", "neg":
		if t := x.k[0].text(7); t[0] == '-' || t[0] == '+' {
			return map[string]string{"!": "!", "neg": "-"}[x.op] + "(" + t + ")"
		}
		return map[string]string{"!": "!", "neg": "-"}[x.op] + x.k[0].text(7)
	case "fn":
		p := strings.Join(x.pars, ", ")
		if x.vari {
			p += "..."
		}
		return "fn(" + p + ") " + block(x.k)
	case "call":
		t := ""
		if x.vari {
			t = "..."
		}
		return x.k[0].text(8) + "(" + x.args(1) + t + ")"
	case "mem":
		return x.k[0].text(8) + "." + x.s
	case "index":
		return x.k[0].text(8) + "[" + x.k[1].text(0) + "]"
	case "sub":
		a, b := "", ""
		if x.k[1] != nil {
			a = x.k[1].text(0)
		}
		if x.k[2] != nil {
			b = x.k[2].text(0)
		}
		return x.k[0].text(8) + "[" + a + ":" + b + "]"
	case "list":
		return "[" + x.args(0) + "]"
	case "map":
		var p []string
		for i := 0; i < len(x.k); i += 2 {
			p = append(p, x.k[i].text(0)+": "+x.k[i+1].text(0))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case "if": // cond, block, cond, block, ..., [else block]
		t := "if "
		for i := 0; i+1 < len(x.k); i += 2 {
			if i > 0 {
				t += " elif "
			}
			t += x.k[i].text(0) + " " + block(x.k[i+1].k)
		}
		if len(x.k)%2 == 1 {
			t += " else " + block(x.k[len(x.k)-1].k)
		}
		return t
	case "switch": // subject or nil, case, block, ..., [default]
		t := "switch "
		if x.k[0] != nil {
			t += x.k[0].text(0) + " "
		}
		t += "{"
		for i := 1; i+1 < len(x.k); i += 2 {
			b := block(x.k[i+1].k)
			t += " case " + x.k[i].text(0) + ": " + b[1:len(b)-1]
		}
		if len(x.k)%2 == 0 {
			b := block(x.k[len(x.k)-1].k)
			t += " default: " + b[1:len(b)-1]
		}
		return t + "}"
	case "for": // init, cond, step, body; or cond, body; or body
		b := x.k[len(x.k)-1]
		switch len(x.k) {
		case 4:
			return "for " + x.k[0].text(0) + "; " + x.k[1].text(0) + "; " + x.k[2].text(0) + " " + block(b.k)
		case 2:
			return "for " + x.k[0].text(0) + " " + block(b.k)
		}
		return "for " + block(b.k)
	case "class":
		var p []string
		for _, f := range x.fns {
			p = append(p, "fn "+f.s+f.text(0)[2:])
		}
		return "class {" + strings.Join(p, "; ") + "}"
	case "new":
		if x.vari {
			return "new " + x.s
		}
		return "new " + x.s + "(" + x.args(0) + ")"
	case "recover":
		return "recover()"
	}
	l := binLvl[x.op]
	t := x.k[0].text(l) + " " + x.op + " " + x.k[1].text(l+1)
	if lvl > l {
		return "(" + t + ")"
	}
	return t
}

func wrap(x *sx) *sx { return x }

// ---- the reference interpreter -------------------------------------------------

type rscope struct {
	vars   map[string]interface{}
	links  map[string]*rscope
	parent *rscope
	recov  interface{} // the panic the function ended with
	defers []*sx
}

type rfn struct {
	pars []string
	vari bool
	body []*sx
	sc   *rscope
	this interface{}
}
type rclass struct{ fns map[string]*rfn }
type robj struct {
	vars map[string]interface{}
	cls  *rclass
}
type rerr struct{ v interface{} } // an error of the script; v is the value of a raw panic
type rret struct{ v interface{} }
type rnative func(a []interface{}) interface{}
type rstuck string

type rmach struct {
	trace []string
	steps int
	nat   map[string]rnative
}

var opaque = fmt.Errorf("opaque")

func bad() { panic(rerr{opaque}) }

func (m *rmach) step() {
	if m.steps++; m.steps > 3000 {
		panic(rstuck("steps"))
	}
}

func (sc *rscope) get(m *rmach, n string) interface{} {
	if v, ok := sc.vars[n]; ok {
		return v
	}
	if l, ok := sc.links[n]; ok {
		return l.vars[n]
	}
	if n[0] != '_' {
		for t := sc.parent; t != nil; t = t.parent {
			o := t
			if l, ok := t.links[n]; ok {
				o = l
			}
			if v, ok := o.vars[n]; ok {
				sc.links[n] = o
				return v
			}
		}
	}
	if f, ok := m.nat[n]; ok {
		return f
	}
	switch n {
	case "true":
		return true
	case "false":
		return false
	case "nil":
		return nil
	case "undefined":
		return spec.Undefined
	}
	bad()
	return nil
}

// owner is the scope an assignment goes to.
func (sc *rscope) owner(n string) *rscope {
	if _, ok := sc.vars[n]; ok {
		return sc
	}
	if l, ok := sc.links[n]; ok {
		return l
	}
	if n[0] != '_' {
		for t := sc.parent; t != nil; t = t.parent {
			if _, ok := t.vars[n]; ok || t.links[n] != nil {
				bad()
			}
		}
	}
	return sc
}

func (sc *rscope) existing(n string) *rscope {
	if _, ok := sc.vars[n]; ok {
		return sc
	}
	if l, ok := sc.links[n]; ok {
		return l
	}
	bad()
	return nil
}

func num(v interface{}) bool {
	switch v.(type) {
	case int, float64:
		return true
	}
	return false
}

func flt(v interface{}) float64 {
	if i, ok := v.(int); ok {
		return float64(i)
	}
	return v.(float64)
}

// arith is Go's result of the operator, if there is one.
func arith(op string, a, b interface{}) (interface{}, bool) {
	switch op {
	case "==", "!=":
		eq := false
		if reflect.TypeOf(a) == reflect.TypeOf(b) {
			if a != nil && !reflect.TypeOf(a).Comparable() {
				return nil, false
			}
			eq = a == b
		}
		return eq == (op == "=="), true
	case "<", ">", "<=", ">=":
		if x, ok := a.(byte); ok {
			a = int(x)
		}
		if x, ok := b.(byte); ok {
			b = int(x)
		}
		c, nan := 0, false
		as, ok1 := a.(string)
		bs, ok2 := b.(string)
		ai, ok3 := a.(int)
		bi, ok4 := b.(int)
		switch {
		case ok1 && ok2:
			c = strings.Compare(as, bs)
		case ok3 && ok4:
			c = new(big.Int).SetInt64(int64(ai)).Cmp(new(big.Int).SetInt64(int64(bi)))
		case num(a) && num(b):
			x, y := flt(a), flt(b)
			nan = x != x || y != y
			if !nan {
				c = big.NewFloat(x).Cmp(big.NewFloat(y))
			}
		default:
			return nil, false
		}
		r := map[string]bool{"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
		return r && !nan, true
	}
	if x, ok := a.(string); ok && op == "+" {
		y, ok := b.(string)
		return x + y, ok
	}
	x, ok1 := a.(int)
	y, ok2 := b.(int)
	if ok1 && ok2 {
		p, q := big.NewInt(int64(x)), big.NewInt(int64(y))
		r := new(big.Int)
		switch op {
		case "+":
			r.Add(p, q)
		case "-":
			r.Sub(p, q)
		case "*":
			r.Mul(p, q)
		case "/":
			if y == 0 {
				return nil, false
			}
			r.Quo(p, q)
		case "%":
			if y == 0 {
				return nil, false
			}
			r.Rem(p, q)
		}
		r.And(r, new(big.Int).SetUint64(1<<64-1))
		return int(r.Uint64()), true
	}
	if !num(a) || !num(b) || op == "%" {
		return nil, false
	}
	f, g := flt(a), flt(b)
	switch op {
	case "+":
		return f + g, true
	case "-":
		return f - g, true
	case "*":
		return f * g, true
	}
	return f / g, true
}

// mklist is the value of a list literal.
func mklist(e []interface{}) interface{} {
	if len(e) == 0 {
		return []interface{}(nil)
	}
	ni, nf, ns := 0, 0, 0
	for _, v := range e {
		switch v.(type) {
		case int:
			ni++
		case float64:
			nf++
		case string:
			ns++
		}
	}
	n := len(e)
	switch {
	case ni == n:
		var r []int
		for _, v := range e {
			r = append(r, v.(int))
		}
		return r
	case ni+nf == n:
		var r []float64
		for _, v := range e {
			r = append(r, flt(v))
		}
		return r
	case ns == n:
		var r []string
		for _, v := range e {
			r = append(r, v.(string))
		}
		return r
	}
	return append([]interface{}{}, e...)
}

func (m *rmach) call(f interface{}, args []interface{}) interface{} {
	m.step()
	switch fn := f.(type) {
	case rnative:
		return fn(args)
	case *rfn:
		if fn.this != nil {
			args = append([]interface{}{fn.this}, args...)
		}
		n := len(fn.pars)
		if !fn.vari && len(args) != n || fn.vari && len(args) < n-1 {
			bad()
		}
		sc := &rscope{vars: map[string]interface{}{}, links: map[string]*rscope{}, parent: fn.sc}
		for i, p := range fn.pars {
			if fn.vari && i == n-1 {
				sc.vars[p] = append([]interface{}{}, args[i:]...)
			} else {
				sc.vars[p] = args[i]
			}
		}
		var ret interface{}
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case rret:
					ret = e.v
				case rerr:
					sc.recov = e
				default:
					panic(e)
				}
			}()
			m.block(fn.body, sc)
		}()
		m.defers(sc)
		if sc.recov != nil {
			panic(sc.recov)
		}
		return ret
	}
	bad()
	return nil
}

// defers runs the deferred calls of sc, all of them, last first.
func (m *rmach) defers(sc *rscope) {
	if len(sc.defers) == 0 {
		return
	}
	d := sc.defers[len(sc.defers)-1]
	sc.defers = sc.defers[:len(sc.defers)-1]
	defer m.defers(sc)
	m.eval(d, sc)
}

func (m *rmach) block(b []*sx, sc *rscope) (v interface{}) {
	for _, s := range b {
		v = m.eval(s, sc)
	}
	return
}

func (m *rmach) evals(k []*sx, sc *rscope) (r []interface{}) {
	for _, x := range k {
		r = append(r, m.eval(x, sc))
	}
	return
}

func (m *rmach) eval(x *sx, sc *rscope) interface{} {
	m.step()
	switch x.op {
	case "lit":
		return x.v
	case "var":
		return sc.get(m, x.s)
	case "assign":
		v := m.eval(x.k[0], sc)
		sc.owner(x.s).vars[x.s] = v
		return v
	case "opas":
		v := m.eval(x.k[0], sc)
		o := sc.existing(x.s)
		r, ok := arith(x.v.(string), o.vars[x.s], v)
		if !ok {
			bad()
		}
		o.vars[x.s] = r
		return r
	case "inc", "dec":
		o := sc.existing(x.s)
		d := 1
		if x.op == "dec" {
			d = -1
		}
		switch v := o.vars[x.s].(type) {
		case int:
			o.vars[x.s] = v + d
		case byte:
			o.vars[x.s] = byte(int(v) + d)
		default:
			bad()
		}
		return o.vars[x.s]
	case "massign":
		v := m.eval(x.k[0], sc)
		r := reflect.ValueOf(v)
		if v == nil || r.Kind() != reflect.Slice || r.Len() != len(x.pars) {
			bad()
		}
		for i, n := range x.pars {
			sc.owner(n).vars[n] = r.Index(i).Interface()
		}
		return v
	case "return":
		var v interface{}
		if len(x.k) > 0 {
			v = m.eval(x.k[0], sc)
		}
		panic(rret{v})
	case "defer":
		sc.defers = append(sc.defers, x.k[0])
		return nil
	case "recover":
		p := sc.parent
		if p == nil || p.recov == nil {
			return nil
		}
		e := p.recov.(rerr)
		p.recov = nil
		return e.v
	case "!":
		b, ok := m.eval(x.k[0], sc).(bool)
		if !ok {
			bad()
		}
		return !b
	case "neg":
		switch v := m.eval(x.k[0], sc).(type) {
		case int:
			return -v
		case float64:
			return -v
		}
		bad()
	case "&&", "||":
		b, ok := m.eval(x.k[0], sc).(bool)
		if !ok {
			bad()
		}
		if b == (x.op == "||") {
			return b
		}
		return m.eval(x.k[1], sc)
	case "fn":
		return &rfn{pars: x.pars, vari: x.vari, body: x.k, sc: sc}
	case "call":
		f := m.eval(x.k[0], sc)
		a := m.evals(x.k[1:], sc)
		if x.vari {
			l := reflect.ValueOf(a[len(a)-1])
			if a[len(a)-1] == nil || l.Kind() != reflect.Slice {
				bad()
			}
			a = a[:len(a)-1]
			for i := 0; i < l.Len(); i++ {
				a = append(a, l.Index(i).Interface())
			}
		}
		return m.call(f, a)
	case "mem":
		switch o := m.eval(x.k[0], sc).(type) {
		case *robj:
			if v, ok := o.vars[x.s]; ok {
				return v
			}
			if f, ok := o.cls.fns[x.s]; ok {
				g := *f
				g.this = o
				return &g
			}
		case *rclass:
			if f, ok := o.fns[x.s]; ok {
				return f
			}
		case map[string]interface{}:
			if v, ok := o[x.s]; ok {
				return v
			}
		case map[string]int:
			if v, ok := o[x.s]; ok {
				return v
			}
		default:
			panic(rstuck("member"))
		}
		bad()
	case "list":
		return mklist(m.evals(x.k, sc))
	case "index":
		o := m.eval(x.k[0], sc)
		i := m.eval(x.k[1], sc)
		v := reflect.ValueOf(o)
		n, ok := i.(int)
		if o == nil || v.Kind() != reflect.Slice && v.Kind() != reflect.String || !ok || n < 0 || n >= v.Len() {
			bad()
		}
		return v.Index(n).Interface()
	case "if":
		for i := 0; i+1 < len(x.k); i += 2 {
			c, ok := m.eval(x.k[i], sc).(bool)
			if !ok {
				bad()
			}
			if c {
				return m.block(x.k[i+1].k, sc)
			}
		}
		if len(x.k)%2 == 1 {
			return m.block(x.k[len(x.k)-1].k, sc)
		}
		return nil
	case "switch":
		var s interface{} = true
		if x.k[0] != nil {
			s = m.eval(x.k[0], sc)
		}
		for i := 1; i+1 < len(x.k); i += 2 {
			c, ok := arith("==", s, m.eval(x.k[i], sc))
			if !ok {
				bad()
			}
			if c == true {
				return m.block(x.k[i+1].k, sc)
			}
		}
		if len(x.k)%2 == 0 {
			return m.block(x.k[len(x.k)-1].k, sc)
		}
		return nil
	case "for":
		b := x.k[len(x.k)-1]
		var cond, step *sx
		if len(x.k) == 4 {
			m.eval(x.k[0], sc)
			cond, step = x.k[1], x.k[2]
		} else if len(x.k) == 2 {
			cond = x.k[0]
		}
		for {
			if cond != nil {
				c, ok := m.eval(cond, sc).(bool)
				if !ok {
					bad()
				}
				if !c {
					return nil
				}
			}
			m.block(b.k, sc)
			if step != nil {
				m.eval(step, sc)
			}
			m.step()
		}
	case "class":
		c := &rclass{map[string]*rfn{}}
		for _, f := range x.fns {
			c.fns[f.s] = &rfn{pars: append([]string{"this"}, f.pars...), vari: f.vari, body: f.k, sc: sc}
		}
		return c
	case "new":
		cv := sc.get(m, x.s)
		a := m.evals(x.k, sc)
		c, ok := cv.(*rclass)
		if !ok {
			bad()
		}
		o := &robj{map[string]interface{}{}, c}
		if f, ok := c.fns["_init"]; ok {
			g := *f
			g.this = o
			m.call(&g, a)
		}
		return o
	default:
		a := m.eval(x.k[0], sc)
		b := m.eval(x.k[1], sc)
		v, ok := arith(x.op, a, b)
		if !ok {
			bad()
		}
		return v
	}
	return nil
}

// show renders a value the same way for both sides.
func show(v interface{}) string {
	switch x := v.(type) {
	case *rfn, rnative, *cl.Function:
		return "FN"
	case *robj, *cl.Object:
		return "OBJ"
	case *rclass, *cl.Class:
		return "CLS"
	case []interface{}:
		var p []string
		for _, e := range x {
			p = append(p, show(e))
		}
		return "[" + strings.Join(p, " ") + "]var"
	case []int, []float64, []string, map[string]int, map[string]interface{}:
		return fmt.Sprintf("%v%T", v, v)
	case error:
		if x == spec.Undefined {
			return "UNDEF"
		}
		return "ERR"
	case nil, int, float64, bool, string, byte:
		return fmt.Sprintf("%v:%T", v, v)
	}
	if reflect.TypeOf(v).Kind() == reflect.Func || strings.Contains(fmt.Sprintf("%T", v), "Deref") {
		return "FN"
	}
	return fmt.Sprintf("%T", v)
}

// ---- running both -----------------------------------------------------------

type realMach struct {
	trace []string
	left  map[int]int
}

var cur *realMach

func init() {
	qlang.Import("", map[string]interface{}{
		"tr": func(k int, v interface{}) interface{} {
			cur.trace = append(cur.trace, fmt.Sprint(k, "=", show(v)))
			return v
		},
		"nx": func(k, n int) bool {
			cur.trace = append(cur.trace, fmt.Sprint("nx", k))
			if cur.left[k] >= n {
				cur.left[k] = 0
				return false
			}
			cur.left[k]++
			return true
		},
	})
}

// natives of the reference
func (m *rmach) init() {
	left := map[int]int{}
	ints := func(a []interface{}, n int) {
		if len(a) != n {
			bad()
		}
		for i, v := range a {
			if _, ok := v.(int); !ok && (n == 2 && i == 1 || i == 0) && !(n == 3) {
				bad()
			}
		}
	}
	m.nat = map[string]rnative{
		"tr": func(a []interface{}) interface{} {
			if len(a) != 2 {
				bad()
			}
			k, ok := a[0].(int)
			if !ok {
				bad()
			}
			m.trace = append(m.trace, fmt.Sprint(k, "=", show(a[1])))
			return a[1]
		},
		"nx": func(a []interface{}) interface{} {
			ints(a, 2)
			k, n := a[0].(int), a[1].(int)
			m.trace = append(m.trace, fmt.Sprint("nx", k))
			if left[k] >= n {
				left[k] = 0
				return false
			}
			left[k]++
			return true
		},
		"panic": func(a []interface{}) interface{} {
			if len(a) != 1 {
				bad()
			}
			switch a[0].(type) {
			case string, error:
				panic(rerr{opaque})
			case nil:
				panic(rstuck("panic(nil)"))
			}
			panic(rerr{a[0]})
		},
		"set": func(a []interface{}) interface{} {
			if len(a) != 3 {
				panic(rstuck("set"))
			}
			o, ok := a[0].(*robj)
			n, ok2 := a[1].(string)
			if !ok {
				panic(rstuck("set"))
			}
			if !ok2 || o.cls.fns[n] != nil {
				bad()
			}
			o.vars[n] = a[2]
			return nil
		},
		"len": func(a []interface{}) interface{} {
			if len(a) != 1 {
				bad()
			}
			if a[0] == nil {
				return 0
			}
			v := reflect.ValueOf(a[0])
			switch v.Kind() {
			case reflect.Slice, reflect.String, reflect.Map:
				return v.Len()
			}
			bad()
			return nil
		},
	}
}

type pending struct{ prog []*sx }

// runBoth runs the scripts one after another on one interpreter and compares;
// a difference is reported for the smallest script found that has one.
func runBoth(r *rt.R, key string, progs ...[]*sx) {
	all, msg := runOne(r, key, progs)
	if all != "" {
		r.Case(all)
	}
	if msg == "" {
		return
	}
	for again, n := true, 0; again && n < 400; {
		again = false
		for i := range progs {
			old := progs[i]
			small(&sx{op: "block", k: old}, func(x *sx) bool {
				n++
				progs[i] = x.k
				_, m := runOne(r, key, progs)
				if m != "" {
					msg, again = m, true
					return true
				}
				progs[i] = old
				return n > 400
			})
		}
	}
	r.Fail(key, "%s", msg)
}

// small calls f with the nodes one step smaller than x until f returns true.
func small(x *sx, f func(*sx) bool) bool {
	del := map[string]int{"block": 1, "fn": 1, "list": 1}[x.op]
	for i, k := range x.k {
		if del > 0 {
			y := *x
			y.k = append(append([]*sx{}, x.k[:i]...), x.k[i+1:]...)
			if f(&y) {
				return true
			}
		}
		if k == nil {
			continue
		}
		put := func(z *sx) bool {
			y := *x
			y.k = append([]*sx{}, x.k...)
			y.k[i] = z
			return f(&y)
		}
		if k.op != "block" && k.op != "fn" {
			for _, z := range k.k {
				if z != nil && z.op == "block" && x.op == "block" {
					y := *x
					y.k = append(append(append([]*sx{}, x.k[:i]...), z.k...), x.k[i+1:]...)
					if f(&y) {
						return true
					}
				} else if z != nil && z.op != "block" && put(z) {
					return true
				}
			}
		}
		if small(k, put) {
			return true
		}
	}
	return false
}

// runOne is the scripts and how they differ, if they do.
func runOne(r *rt.R, key string, progs [][]*sx) (all, msg string) {
	lang, err := qlang.New(nil)
	if err != nil {
		return "", fmt.Sprint("New: ", err)
	}
	m := &rmach{}
	m.init()
	sc := &rscope{vars: map[string]interface{}{}, links: map[string]*rscope{}}
	cur = &realMach{left: map[int]int{}}
	for _, prog := range progs {
		if len(prog) == 0 {
			continue
		}
		b := block(prog)
		src := b[1 : len(b)-1]
		all += src + "\n"
		var want interface{}
		fail, stuck := false, false
		var raw interface{}
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case rerr:
					fail = true
					raw = e.v
				case rstuck:
					stuck = true
				case rret:
					stuck = true
				default:
					panic(e)
				}
			}()
			want = m.block(prog, sc)
		}()
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case rerr:
					fail, raw = true, e.v
				default:
					stuck = true
				}
			}()
			if !stuck {
				m.defers(sc)
			}
		}()
		if stuck {
			return "", ""
		}
		var got error
		p, val := try(func() { got = lang.SafeEval(src) })
		if p && fail && raw != opaque && raw != nil && show(val) == show(raw) {
			p, got = false, fmt.Errorf("panic")
		}
		if p {
			return all, fmt.Sprintf("%s: panics with %v", all, val)
		}
		if w, g := strings.Join(m.trace, " "), strings.Join(cur.trace, " "); w != g {
			return all, fmt.Sprintf("%s: evaluates %s, want %s", all, g, w)
		}
		if (got != nil) != fail {
			return all, fmt.Sprintf("%s: error %v, want an error: %v", all, got, fail)
		}
		for n, v := range sc.vars {
			g, ok := lang.Var(n)
			if !ok || show(g) != show(v) {
				return all, fmt.Sprintf("%s: afterwards %s is %s, want %s", all, n, show(g), show(v))
			}
		}
		if fail {
			return all, ""
		}
		if d := lang.Stack().(*cl.Stack).BaseFrame(); d != 1 && len(prog) > 0 {
			return all, fmt.Sprintf("%s: leaves %d values on the operand stack, want the result only", all, d)
		}
		if g, _ := lang.Ret(); show(g) != show(want) {
			return all, fmt.Sprintf("%s: the result is %s, want %s", all, show(g), show(want))
		}
	}
	return all, ""
}

func try(f func()) (p bool, v interface{}) {
	p = true
	defer func() {
		if p {
			v = recover()
		}
	}()
	f()
	p = false
	return
}
