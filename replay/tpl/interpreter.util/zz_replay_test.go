package interpreter_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	interpreter "github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/zzverif/rt"
)

type pair struct{ A, B int }
type named float64

var argTypes = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(0.0), reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(float32(0)), reflect.TypeOf([]int(nil)), reflect.TypeOf(pair{}), reflect.TypeOf((*pair)(nil)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(named(0))}

var argVals = []interface{}{nil, 0, -3, 1 << 53, 2.5, "s", "", true, int8(-7), int64(-9), int16(3), int32(4), uint8(200), uint16(1), uint32(5), uint64(6), uint(8), uintptr(9), float32(0.1), []int{1}, []int(nil), pair{1, 2}, &pair{3, 4}, named(1.5), error(fmt.Errorf("e")), map[string]int{"a": 1}}

type vstack struct {
	items []interface{}
	popN  int
	pops  int
	push  int
	ret   []interface{}
	fail  error
}

func (p *vstack) PopArgs(arity int) (args []reflect.Value, ok bool) {
	p.pops++
	n := len(p.items)
	if n < arity {
		return
	}
	for _, v := range p.items[n-arity:] {
		args = append(args, reflect.ValueOf(v))
	}
	p.items = p.items[:n-arity]
	p.popN += arity
	return args, true
}

func (p *vstack) PushRet(ret []reflect.Value) error {
	p.push++
	p.ret = nil
	for _, v := range ret {
		p.ret = append(p.ret, v.Interface())
	}
	return p.fail
}

// convert is what the parameter gets for the argument.
func convert(v interface{}, t reflect.Type) (interface{}, bool) {
	if v == nil {
		return reflect.Zero(t).Interface(), t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr
	}
	if reflect.TypeOf(v) == t {
		return v, true
	}
	if t.Kind() == reflect.Interface {
		return v, reflect.TypeOf(v).Implements(t)
	}
	if t == argTypes[1] {
		switch x := v.(type) {
		case int:
			return float64(x), true
		case int8:
			return float64(x), true
		case int16:
			return float64(x), true
		case int32:
			return float64(x), true
		case int64:
			return float64(x), true
		case uint:
			return float64(x), true
		case uint8:
			return float64(x), true
		case uint16:
			return float64(x), true
		case uint32:
			return float64(x), true
		case uint64:
			return float64(x), true
		case uintptr:
			return float64(x), true
		case float32:
			return float64(x), true
		}
	}
	return nil, false
}

type fncall struct {
	got  []interface{}
	n    int
	kind string
}

// mkfn makes a function of the given parameter types that records its arguments.
func mkfn(rec *fncall, in []reflect.Type, variadic bool, outs []interface{}) interface{} {
	var ot []reflect.Type
	for _, o := range outs {
		ot = append(ot, reflect.TypeOf(o))
	}
	if variadic {
		in = append(append([]reflect.Type{}, in[:len(in)-1]...), reflect.SliceOf(in[len(in)-1]))
	}
	return reflect.MakeFunc(reflect.FuncOf(in, ot, variadic), func(a []reflect.Value) []reflect.Value {
		rec.n++
		rec.got = nil
		for i, v := range a {
			if variadic && i == len(a)-1 {
				for k := 0; k < v.Len(); k++ {
					rec.got = append(rec.got, v.Index(k).Interface())
				}
				break
			}
			rec.got = append(rec.got, v.Interface())
		}
		var r []reflect.Value
		for _, o := range outs {
			r = append(r, reflect.ValueOf(o))
		}
		return r
	}).Interface()
}

// Caller is an object with a Call method.
type Caller struct{ f func(a ...interface{}) interface{} }

// Call calls it.
func (p *Caller) Call(a ...interface{}) interface{} { return p.f(a...) }

// Caller2 has fixed parameters.
type Caller2 struct {
	f func(a int, b float64) string
}

// Call calls it.
func (p *Caller2) Call(a int, b float64) string { return p.f(a, b) }

func eq(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if reflect.TypeOf(a[i]) != reflect.TypeOf(b[i]) || !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func oneCall(r *rt.R, rnd *rand.Rand, api int, in []reflect.Type, variadic bool, args, outs, below []interface{}) {
	rec := &fncall{}
	fn := mkfn(rec, in, variadic, outs)
	st := &vstack{}
	st.items = append(st.items, below...)
	if api == 2 {
		if rnd.Intn(4) == 0 {
			if rnd.Intn(2) == 0 {
				in, variadic, outs = []reflect.Type{argTypes[10]}, true, []interface{}{"r"}
				fn = &Caller{func(a ...interface{}) interface{} { rec.n++; rec.got = append([]interface{}{}, a...); return "r" }}
			} else {
				in, variadic, outs = []reflect.Type{argTypes[0], argTypes[1]}, false, []interface{}{"r"}
				fn = &Caller2{func(a int, b float64) string { rec.n++; rec.got = []interface{}{a, b}; return "r" }}
			}
		}
		st.items = append(st.items, fn)
	}
	st.items = append(st.items, args...)
	if rnd.Intn(5) == 0 {
		st.fail = fmt.Errorf("push")
	}
	var err error
	desc := fmt.Sprintf("api %d params %v variadic %v args %#v", api, in, variadic, args)
	p, _ := r.Try("call", desc, func() {
		switch api {
		case 0:
			err = interpreter.Call(st, fn, len(args))
		case 1:
			err = interpreter.DoCall(st, fn, len(args), len(in), variadic)
		case 2:
			err = interpreter.VCall(st, len(args))
		}
	})
	ok := len(args) == len(in) || variadic && len(args) >= len(in)-1
	var want []interface{}
	for i, a := range args {
		if !ok || len(in) == 0 {
			break
		}
		t := in[len(in)-1:]
		if i < len(in) {
			t = in[i:]
		}
		c, good := convert(a, t[0])
		ok = ok && good
		want = append(want, c)
	}
	r.Case(desc)
	if !ok {
		if rec.n != 0 {
			r.Fail("refuse", "%s: called with %#v", desc, rec.got)
		} else if !p && err == nil {
			r.Fail("refuse", "%s: not called, yet no error", desc)
		}
		return
	}
	if p || err != st.fail {
		r.Fail("call", "%s: panic %v error %v", desc, p, err)
		return
	}
	if rec.n != 1 || !eq(rec.got, want) {
		r.Fail("args", "%s: called %d times with %#v, want %#v", desc, rec.n, rec.got, want)
		return
	}
	n := len(args)
	if api == 2 {
		n++
	}
	if st.popN != n || len(st.items) != len(below) {
		r.Fail("pop", "%s: popped %d", desc, st.popN)
	}
	if st.push != 1 || !eq(st.ret, outs) {
		r.Fail("push", "%s: pushed %d times %#v, want %#v", desc, st.push, st.ret, outs)
	}
}

func TestReplay_I04(t *testing.T) {
	r := rt.New(t, "random function types (fixed and variadic, up to 4 parameters, results) called through Call, DoCall and VCall with random argument values and counts, compared with the parameter conversion rules; distinct calls")
	defer r.Done()
	anyOf := func() reflect.Type { return argTypes[r.Rnd.Intn(len(argTypes))] }
	for _, t := range argTypes { // every parameter type with every argument
		for _, v := range argVals {
			for api := 0; api < 3; api++ {
				oneCall(r, r.Rnd, api, []reflect.Type{t}, false, []interface{}{v}, nil, nil)
				oneCall(r, r.Rnd, api, []reflect.Type{t}, true, []interface{}{v}, []interface{}{1}, []interface{}{"x"})
				oneCall(r, r.Rnd, api, []reflect.Type{argTypes[0], t}, true, []interface{}{1, v, v}, nil, nil)
			}
		}
	}
	for i := 0; i < r.Scale(15000) && r.Left(); i++ {
		var in []reflect.Type
		n := r.Rnd.Intn(5)
		for k := 0; k < n; k++ {
			in = append(in, anyOf())
		}
		variadic := n > 0 && r.Rnd.Intn(3) == 0
		c := n
		if variadic {
			c = n - 1 + r.Rnd.Intn(4)
		}
		api := r.Rnd.Intn(3)
		if r.Rnd.Intn(6) == 0 && api != 1 {
			c = r.Rnd.Intn(6)
		}
		var args, outs, below []interface{}
		for k := 0; k < c; k++ {
			t := reflect.TypeOf(0)
			if k < n {
				t = in[k]
			} else if n > 0 {
				t = in[n-1]
			}
			v := argVals[r.Rnd.Intn(len(argVals))]
			if _, ok := convert(v, t); !ok && r.Rnd.Intn(12) > 0 {
				for try := 0; try < 40 && !ok; try++ {
					v = argVals[r.Rnd.Intn(len(argVals))]
					_, ok = convert(v, t)
				}
			}
			args = append(args, v)
		}
		for k := r.Rnd.Intn(3); k > 0; k-- {
			outs = append(outs, argVals[1+r.Rnd.Intn(5)])
		}
		for k := r.Rnd.Intn(3); k > 0; k-- {
			below = append(below, k)
		}
		oneCall(r, r.Rnd, api, in, variadic, args, outs, below)
	}
}
