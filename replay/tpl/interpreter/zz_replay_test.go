package interpreter_test

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/qiniu/text/tpl"
	eng "github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/zzverif/rt"
)

func allIn(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

const dec, oct, hex = "0123456789", "01234567", "0123456789abcdefABCDEF"

// intOf is the value of an integer literal.
func intOf(l string) (v *big.Int, ok bool) {
	switch {
	case len(l) > 1 && l[0] == '0' && (l[1] == 'x' || l[1] == 'X'):
		if !allIn(l[2:], hex) {
			return nil, false
		}
		v, _ = new(big.Int).SetString(l[2:], 16)
	case len(l) > 1 && l[0] == '0':
		if !allIn(l, oct) {
			return nil, false
		}
		v, _ = new(big.Int).SetString(l, 8)
	default:
		if !allIn(l, dec) {
			return nil, false
		}
		v, _ = new(big.Int).SetString(l, 10)
	}
	return v, v.IsInt64()
}

// floatOf is the value of a decimal floating-point literal (with a fraction or an exponent).
func floatOf(l string) (float64, bool) {
	i := strings.IndexAny(l, "eE")
	m, e := l, ""
	if i >= 0 {
		m, e = l[:i], l[i+1:]
		if strings.HasPrefix(e, "+") || strings.HasPrefix(e, "-") {
			e = e[1:]
		}
		if !allIn(e, dec) || len(e) > 6 {
			return 0, false
		}
	}
	j := strings.IndexByte(m, '.')
	if i < 0 && j < 0 {
		return 0, false
	}
	if j >= 0 {
		m = m[:j] + m[j+1:]
	}
	if !allIn(m, dec) {
		return 0, false
	}
	f, _, err := big.ParseFloat(l, 10, 3000, big.ToNearestEven)
	if err != nil {
		return 0, false
	}
	v, _ := f.Float64()
	return v, !math.IsInf(v, 0)
}

func TestReplay_I01(t *testing.T) {
	r := rt.New(t, "integer and float literals of every base, at the limits of the machine integer, ill-formed ones and random digit strings, against arbitrary-precision arithmetic; distinct literals")
	defer r.Done()
	check := func(l string) {
		r.Case(l)
		if strings.HasPrefix(l, "-") || strings.HasPrefix(l, "+") {
			return // a sign is no part of a literal
		}
		want, ok := intOf(l)
		var v int64
		var err error
		if p, e := r.Try("int", l, func() { v, err = eng.ParseInt(l) }); p {
			r.Fail("int-panic", "ParseInt(%q) panics: %v", l, e)
		} else if ok != (err == nil) || ok && v != want.Int64() {
			r.Fail("int", "ParseInt(%q) = %v, %v, want %v (%v)", l, v, err, want, ok)
		}
		for _, ty := range []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(int64(0))} {
			var g reflect.Value
			p, _ := r.Try("value", l, func() { g, err = eng.GetValue(ty, l) })
			if p || ok != (err == nil) || ok && (g.Type() != ty || g.Int() != want.Int64()) {
				r.Fail("value", "GetValue(%v, %q) = %v, %v (panic %v), want %v (%v)", ty, l, g, err, p, want, ok)
			}
		}
		var g reflect.Value
		if p, _ := r.Try("value", l, func() { g, err = eng.GetValue(reflect.TypeOf(""), l) }); p || err != nil || g.Interface() != interface{}(l) {
			r.Fail("value", "GetValue(string, %q) = %v, %v", l, g, err)
		}
		var f float64
		p, e := r.Try("float", l, func() { f, err = eng.ParseFloat(l) })
		if p {
			r.Fail("float-panic", "ParseFloat(%q) panics: %v", l, e)
			return
		}
		p, _ = r.Try("value", l, func() { g, _ = eng.GetValue(reflect.TypeOf(0.0), l) })
		if p || g.IsValid() != (err == nil) || err == nil && g.Interface() != interface{}(f) && f == f {
			r.Fail("value", "GetValue(float64, %q) = %v, ParseFloat gives %v, %v", l, g, f, err)
		}
		if w, good := floatOf(l); good {
			if err != nil || f != w {
				r.Fail("float", "ParseFloat(%q) = %v, %v, want %v", l, f, err, w)
			}
			return
		}
		if ok {
			if w, _ := new(big.Float).SetInt(want).Float64(); err != nil || f != w {
				r.Fail("float", "ParseFloat(%q) = %v, %v, want %v", l, f, err, w)
			}
			return
		}
		if want != nil { // too big for the machine integer: an error or the value
			if w, _ := new(big.Float).SetInt(want).Float64(); err == nil && f != w {
				r.Fail("float", "ParseFloat(%q) = %v, want %v or an error", l, f, w)
			}
			return
		}
		if err == nil && !(len(l) > 1 && l[0] == '0' && allIn(l, dec)) {
			r.Fail("float-refuse", "ParseFloat(%q) = %v, want an error", l, f)
		}
	}
	lits := []string{"", "0", "00", "007", "08", "09", "0x", "0X", "0x0", "0X1f", "0xG", "0x-5", "0-5", "0+5", "0x+5", "1", "12", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0777777777777777777777", "01000000000000000000000", "02000000000000000000000", "07777777777777777777777777", "1.5", ".5", "5.", "0.5", "00.5", "1e3", "0e0", "01e1", "1e", "1e400", "a", "1a", "0b1", "0o7", " 1", "1 ", "0x1p4", "1.2.3", ".", "e", "١"}
	for _, l := range lits {
		check(l)
	}
	for _, k := range []reflect.Type{reflect.TypeOf(true), reflect.TypeOf(uint(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(float32(0)), reflect.TypeOf([]int{})} {
		if _, err := eng.GetValue(k, "1"); err == nil {
			r.Fail("value", "GetValue(%v) gives no error", k)
		}
	}
	for i := 0; i < r.Scale(20000) && r.Left(); i++ {
		n := 1 + r.Rnd.Intn(24)
		set := []string{dec, oct, hex, "0123456789abcdefABCDEF.xX+-eEgG"}[r.Rnd.Intn(4)]
		b := make([]byte, n)
		for k := range b {
			b[k] = set[r.Rnd.Intn(len(set))]
		}
		l := string(b)
		switch r.Rnd.Intn(5) {
		case 0:
			l = "0" + l
		case 1:
			l = "0x" + l
		case 2:
			l += "." + l[:r.Rnd.Intn(n)]
		case 3:
			l += "e" + []string{"", "+", "-"}[r.Rnd.Intn(3)] + fmt.Sprint(r.Rnd.Intn(330))
		}
		check(l)
	}
}

// ---- a small language for the engine ---------------------------------------

const zgrammar = `
doc = ';' *item

block = '{'/_mute ?doc/_code '}'/_unmute

item =
	INT/num |
	FLOAT/_unum |
	IDENT/glob |
	STRING/_uglob |
	'<'/_mute |
	'>'/_unmute |
	'?'/err |
	'~'/boom |
	'*'/merr |
	block/ev |
	'@' block/evitem

one = item
`

type zstack struct{ items []interface{} }

func (p *zstack) PopArgs(arity int) (args []reflect.Value, ok bool) {
	n := len(p.items)
	if n < arity {
		return
	}
	for _, v := range p.items[n-arity:] {
		args = append(args, reflect.ValueOf(v))
	}
	p.items = p.items[:n-arity]
	return args, true
}

func (p *zstack) PushRet(ret []reflect.Value) error {
	for _, v := range ret {
		p.items = append(p.items, v.Interface())
	}
	return nil
}

type zip struct {
	w  *zworld
	id int
}

type zworld struct {
	stk   *zstack
	trace []string
	next  int
	eng   *eng.Engine
	bad   string
}

func (p *zip) Grammar() string           { return zgrammar }
func (p *zip) Stack() interpreter.Stack  { return p.w.stk }
func (w *zworld) log(f string, a ...interface{}) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

type zboom struct{ n int }

func (p *zip) Fntable() map[string]interface{} {
	w := p.w
	ev := func(p *zip, e interpreter.Engine, rule string) {
		n := len(w.stk.items)
		code := w.stk.items[n-1]
		w.stk.items = w.stk.items[:n-1]
		if code == nil {
			w.log("empty")
			return
		}
		w.next++
		sub := &zip{w, w.next}
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					w.log("panic")
				}
			}()
			err = e.EvalCode(sub, rule, code)
			if err != nil {
				w.log("error")
			} else {
				w.log("done")
			}
		}()
		if w.eng.Interpreter != interpreter.Interface(p) {
			w.bad = "the current interpreter is not restored"
		}
	}
	return map[string]interface{}{
		"$num":    func(p *zip, v int) { w.log("num%d:%d", v, p.id) },
		"$_unum":  func(p *zip, v float64) { w.log("unum%v:%d", v, p.id) },
		"$glob":   func(s *zstack, lit string) { w.log("glob" + lit) },
		"$_uglob": func(s *zstack, lit string) { w.log("uglob" + lit) },
		"$err":    func(p *zip) error { w.log("err:%d", p.id); return errors.New("zerr") },
		"$boom":   func(p *zip) { w.log("boom:%d", p.id); panic(zboom{p.id}) },
		"$merr":   func(p *zip) { w.log("merr:%d", p.id); panic("text") },
		"$_code":  func(s *zstack, code interface{}) { s.items = append(s.items, code) },
		"$ev":     func(p *zip, e interpreter.Engine) { ev(p, e, "doc") },
		"$evitem": func(p *zip, e interpreter.Engine) { ev(p, e, "one") },
	}
}

// zref predicts the trace.
type zref struct {
	mute  int
	trace []string
	next  int
	steps int
}
type zabort struct{}

func (x *zref) log(f string, a ...interface{}) { x.trace = append(x.trace, fmt.Sprintf(f, a...)) }

func (x *zref) run(mark string) bool { return x.mute <= 0 || x.mute == 1 && mark[0] == '_' }

// items runs tokens from p to the closing brace or the end; it returns the
// position after the last item it could run.
func (x *zref) items(t []string, p, ip, max int) int {
	for n := 0; p < len(t) && n < max; n++ {
		if x.steps++; x.steps > 4000 {
			panic("steps")
		}
		c := t[p]
		switch {
		case c == "}":
			return p
		case c == "{" || c == "@" && p+1 < len(t) && t[p+1] == "{":
			q := p
			if c == "@" {
				q++
			}
			d, e := 0, q
			for ; e < len(t); e++ {
				if t[e] == "{" {
					d++
				}
				if t[e] == "}" {
					if d--; d == 0 {
						break
					}
				}
			}
			if e == len(t) {
				panic("unbalanced")
			}
			x.mute++
			code := t[q+1 : e]
			captured := false
			if len(code) == 0 || code[0] == ";" {
				if len(code) > 0 {
					if k := x.items(code, 1, ip, 1<<30); k != len(code) {
						panic("unsettled")
					}
				}
				captured = x.run("_code")
			} else {
				panic("unsettled")
			}
			x.mute--
			mark, rule := "ev", "doc"
			if c == "@" {
				mark, rule = "evitem", "one"
			}
			if x.run(mark) {
				if !captured {
					panic("unsettled")
				}
				x.eval(code, rule)
			}
			p = e + 1
			continue
		case c == "<":
			x.mute++
		case c == ">":
			x.mute--
			if x.mute < 0 {
				panic("unsettled")
			}
		case c == "?" || c == "~" || c == "*":
			m := map[string]string{"?": "err", "~": "boom", "*": "merr"}[c]
			if x.run(m) {
				x.log("%s:%d", m, ip)
				panic(zabort{})
			}
		case c[0] == '"':
			if x.run("_uglob") {
				x.log("uglob" + c)
			}
		case strings.Contains(c, "."):
			if x.run("_unum") {
				x.log("unum%v:%d", c, ip)
			}
		case c[0] >= '0' && c[0] <= '9':
			if x.run("num") {
				x.log("num%s:%d", c, ip)
			}
		case c[0] >= 'a' && c[0] <= 'z':
			if x.run("glob") {
				x.log("glob" + c)
			}
		default:
			return p
		}
		p++
	}
	return p
}

func (x *zref) eval(code []string, rule string) {
	if len(code) == 0 {
		x.log("empty")
		return
	}
	x.next++
	id, m := x.next, x.mute
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(zabort); !ok {
				panic(e)
			}
			x.log("panic")
		}
		x.mute = m
	}()
	if rule == "one" { // a captured fragment begins with a semicolon, no item does
		x.log("error")
		return
	}
	x.items(code, 1, id, 1<<30)
	x.log("done")
}

func zgen(r *rt.R, d int, t []string, depth *int) []string {
	for k := r.Rnd.Intn(6); k >= 0; k-- {
		switch c := r.Rnd.Intn(16); {
		case c < 3:
			t = append(t, fmt.Sprint(r.Rnd.Intn(90)))
		case c < 5:
			t = append(t, fmt.Sprintf("%d.5", r.Rnd.Intn(9)))
		case c < 6:
			t = append(t, "id")
		case c < 7:
			t = append(t, `"s"`)
		case c < 9:
			*depth++
			t = append(t, "<")
		case c < 11:
			if *depth > 0 {
				*depth--
				t = append(t, ">")
			}
		case c < 12:
			t = append(t, []string{"?", "~", "*"}[r.Rnd.Intn(3)])
		default:
			if d > 0 {
				if r.Rnd.Intn(4) == 0 {
					t = append(t, "@")
				}
				t = append(t, "{")
				if r.Rnd.Intn(6) > 0 {
					t = append(t, ";")
					in := 0
					t = zgen(r, d-1, t, &in)
				}
				t = append(t, "}")
			}
		}
	}
	return t
}

func zsweep(r *rt.R, n int, blocks int) {
	w := &zworld{stk: &zstack{}}
	ip := &zip{w, 0}
	e, err := eng.New(ip, nil)
	if err != nil {
		r.Fail("new", "%v", err)
		return
	}
	w.eng = e
	for i := 0; i < n && r.Left(); i++ {
		dep := 0
		toks := append([]string{";"}, zgen(r, blocks, nil, &dep)...)
		if r.Rnd.Intn(12) == 0 {
			toks = append(toks, "|") // no item: the match fails here
		}
		src := strings.Join(toks, " ")
		x := &zref{}
		aborted, settled, left := false, true, 0
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(zabort); ok {
						aborted = true
					} else {
						settled = false
					}
				}
			}()
			left = len(toks) - x.items(toks, 1, 0, 1<<30)
		}()
		if !settled {
			continue
		}
		w.trace, w.next, w.bad, w.stk.items = nil, 0, "", nil
		e.Interpreter = ip
		var merr error
		p, _ := r.Try("run", src, func() { merr = e.MatchExactly([]byte(src), "") })
		d := ""
		if len(w.trace) > 0 {
			d = src
		}
		r.Case(d)
		if got, want := strings.Join(w.trace, " "), strings.Join(x.trace, " "); got != want {
			r.Fail("trace", "%q runs %s, want %s", src, got, want)
			w = &zworld{stk: &zstack{}}
			return
		}
		if p != aborted || !p && (merr != nil) != (left > 0) {
			r.Fail("end", "%q ends with panic %v error %v", src, p, merr)
		}
		if w.bad != "" {
			r.Fail("restore", "%q: %s", src, w.bad)
		}
		if e.Interpreter != interpreter.Interface(ip) {
			r.Fail("restore", "%q: the interpreter is another one afterwards", src)
		}
	}
}

// zfn has no receiver: its actions go through the operand stack.
type zfn struct {
	stk  *zstack
	n    int
	fnc  bool
	tail string
}

func (p *zfn) Grammar() string { return "doc = *(INT/push | '+'/add | '<'/_mute | '>'/_unmute)\n" }
func (p *zfn) Stack() interpreter.Stack { return p.stk }
func (p *zfn) Fntable() map[string]interface{} {
	return map[string]interface{}{"$push": func(s *zstack, v int) { s.items = append(s.items, v) }, "$add": func(a, b int) int { p.n++; return a*10 + b }}
}

type zfnc struct{ zfn }

func (p *zfnc) CallFn(fn interface{}) {
	a, _ := p.stk.PopArgs(2)
	p.stk.PushRet(reflect.ValueOf(fn).Call(a))
}

func TestReplay_I02(t *testing.T) {
	r := rt.New(t, "random programs of a small language with mute and unmute marks nested to any depth, actions of every kind, errors and panics, run one after another on one engine; distinct programs that run an action")
	defer r.Done()
	for _, k := range []bool{false, true} {
		f := &zfn{stk: &zstack{}}
		var ip interpreter.Interface = f
		if k {
			c := &zfnc{}
			c.stk = &zstack{}
			f, ip = &c.zfn, c
		}
		e, err := eng.New(ip, nil)
		if err != nil {
			r.Fail("new", "%v", err)
			continue
		}
		for i := 0; i < 300; i++ {
			f.stk.items = nil
			var toks []string
			var want []interface{}
			m := 0
			for k := r.Rnd.Intn(12); k >= 0; k-- {
				switch c := r.Rnd.Intn(6); {
				case c < 3:
					toks = append(toks, fmt.Sprint(c))
					if m == 0 {
						want = append(want, c)
					}
				case c == 3:
					if n := len(want); m > 0 || n > 1 {
						toks = append(toks, "+")
						if m == 0 {
							want = append(want[:n-2:n-2], want[n-2].(int)*10+want[n-1].(int))
						}
					}
				case c == 4:
					toks = append(toks, "<")
					m++
				default:
					if m > 0 {
						toks = append(toks, ">")
						m--
					}
				}
			}
			src := strings.Join(toks, " ")
			r.Case(src)
			p, v := r.Try("stack", src, func() { err = e.MatchExactly([]byte(src), "") })
			if p || err != nil || fmt.Sprint(f.stk.items) != fmt.Sprint(want) {
				r.Fail("stack", "%q leaves %v (%v %v), want %v", src, f.stk.items, err, v, want)
			}
		}
	}
	zsweep(r, r.Scale(4000), 1)
}

func TestReplay_I03(t *testing.T) {
	r := rt.New(t, "random programs of a small language that evaluate captured, nested code fragments with other interpreters, succeeding, failing or panicking, muted inside or not; the trace names the interpreter of every action; distinct programs")
	defer r.Done()
	zsweep(r, r.Scale(6000), 3)
	// the fragment must match its rule completely
	w := &zworld{stk: &zstack{}}
	ip := &zip{w, 0}
	e, err := eng.New(ip, nil)
	if err != nil {
		r.Fail("new", "%v", err)
		return
	}
	w.eng = e
	for i := 0; i < r.Scale(800) && r.Left(); i++ {
		dep := 0
		toks := zgen(r, 1, []string{";"}, &dep)
		src := strings.Join(toks, " ")
		ts, err := e.Tokenize([]byte(src), "")
		if err != nil || len(ts) < 2 {
			continue
		}
		lo := 0
		if r.Rnd.Intn(3) == 0 {
			lo = 1
		}
		hi := lo + 1 + r.Rnd.Intn(len(ts)-lo)
		if hi > len(ts) {
			hi = len(ts)
		}
		rule := []string{"doc", "one", "block"}[r.Rnd.Intn(3)]
		x := &zref{}
		n, aborted, settled := 0, false, true
		func() {
			defer func() {
				if e := recover(); e != nil {
					_, aborted = e.(zabort)
					settled = aborted
				}
			}()
			part := toks[lo:hi]
			switch {
			case rule == "doc" && part[0] == ";":
				n = x.items(part, 1, 7, 1<<30)
			case rule == "one":
				n = x.items(part, 0, 7, 1)
			case rule == "doc" || part[0] != "{":
			default:
				settled = false
			}
		}()
		if !settled {
			continue
		}
		w.trace, w.next, w.bad, w.stk.items = nil, 0, "", nil
		e.Interpreter = ip
		sub := &zip{w, 7}
		var everr error
		e.Init()
		p, _ := r.Try("eval", src, func() { everr = e.EvalCode(sub, rule, []tpl.Token(ts[lo:hi])) })
		r.Case(fmt.Sprint(rule, " ", toks[lo:hi]))
		whole := n == hi-lo
		if p != aborted || !p && (everr == nil) != whole {
			r.Fail("whole", "EvalCode(%s, %v): panic %v error %v, the rule matches %d of %d tokens", rule, toks[lo:hi], p, everr, n, hi-lo)
		}
		if e.Interpreter != interpreter.Interface(ip) {
			r.Fail("restore", "EvalCode(%s, %v): the interpreter is another one afterwards", rule, toks[lo:hi])
		}
		w.trace = nil
		if err := e.MatchExactly([]byte("; 1"), ""); err != nil || fmt.Sprint(w.trace) != "[num1:0]" {
			r.Fail("restore", "EvalCode(%s, %v): then \"; 1\" runs %v (%v)", rule, toks[lo:hi], w.trace, err)
		}
	}
}
