//go:build go1.18

package builtin

import (
	"reflect"

	qlang "github.com/qiniu/text/tpl/qlang/spec"
	"github.com/qiniu/text/zzverif/v"
)

// ---- reflect: what its documentation says of the containers of the language
// (lists of int, float64, string and any value, maps from string or int to
// the same, and strings)

// text, whole, real: a value that has to be of the type.
func text(x interface{}) string {
	s, ok := x.(string)
	if !ok {
		v.Panic("no string")
	}
	return s
}

func whole(x interface{}) int {
	n, ok := x.(int)
	if !ok {
		v.Panic("no int")
	}
	return n
}

func real(x interface{}) float64 {
	f, ok := x.(float64)
	if !ok {
		v.Panic("no float64")
	}
	return f
}

// place: an element of a list, where a value can be stored.
type place struct {
	list interface{}
	i    int
}

//verif:opt scope=file
//verif:model (reflect.Value).Interface
func modelInterface(x reflect.Value) interface{} {
	if p, ok := v.Raw(x).(place); ok {
		switch a := p.list.(type) {
		case []interface{}:
			return a[p.i]
		case []int:
			return a[p.i]
		case []float64:
			return a[p.i]
		case []string:
			return a[p.i]
		}
	}
	if x.Kind() == reflect.Interface {
		return nil
	}
	return v.Raw(x)
}

//verif:opt scope=file
//verif:model (reflect.Value).Index
func modelIndex(x reflect.Value, i int) reflect.Value {
	var n int
	switch a := v.Raw(x).(type) {
	case string:
		if i < 0 || i >= len(a) {
			v.Panic("index out of range")
		}
		return reflect.ValueOf(a[i])
	case []interface{}:
		n = len(a)
	case []int:
		n = len(a)
	case []float64:
		n = len(a)
	case []string:
		n = len(a)
	default:
		v.Panic("not indexed")
	}
	if i < 0 || i >= n {
		v.Panic("index out of range")
	}
	return reflect.ValueOf(place{v.Raw(x), i})
}

// held: the value itself, and whether there is one.
func held(x reflect.Value) (y interface{}, ok bool) {
	if !x.IsValid() {
		return nil, false
	}
	if x.Kind() == reflect.Interface {
		return nil, true
	}
	return v.Raw(x), true
}

//verif:opt scope=file
//verif:model (reflect.Value).Set
func modelSet(x, y reflect.Value) {
	p, ok := v.Raw(x).(place)
	if !ok {
		v.Panic("not settable")
	}
	val, ok := held(y)
	if !ok {
		v.Panic("no value")
	}
	switch a := p.list.(type) {
	case []interface{}:
		a[p.i] = val
	case []int:
		a[p.i] = whole(val)
	case []float64:
		a[p.i] = real(val)
	case []string:
		a[p.i] = text(val)
	}
}

// dynamic: the type of a value is never an interface type.
func dynamic(x interface{}) {
	v.Assume("the type of a value is no interface type", reflect.ValueOf(x).Kind() != reflect.Interface && !v.TypeIs[place](x))
}

func entry(val interface{}, ok bool) reflect.Value {
	dynamic(val)
	if !ok {
		return reflect.Value{}
	}
	if val == nil {
		return reflect.Zero(reflect.TypeOf([]interface{}(nil)).Elem())
	}
	return reflect.ValueOf(val)
}

//verif:opt scope=file
//verif:model (reflect.Value).MapIndex
func modelMapIndex(x, key reflect.Value) reflect.Value {
	k := v.Raw(key)
	switch m := v.Raw(x).(type) {
	case map[string]interface{}:
		e, ok := m[text(k)]
		return entry(e, ok)
	case map[string]int:
		e, ok := m[text(k)]
		return entry(e, ok)
	case map[string]float64:
		e, ok := m[text(k)]
		return entry(e, ok)
	case map[string]string:
		e, ok := m[text(k)]
		return entry(e, ok)
	case map[int]interface{}:
		e, ok := m[whole(k)]
		return entry(e, ok)
	case map[int]int:
		e, ok := m[whole(k)]
		return entry(e, ok)
	case map[int]float64:
		e, ok := m[whole(k)]
		return entry(e, ok)
	case map[int]string:
		e, ok := m[whole(k)]
		return entry(e, ok)
	}
	v.Panic("no map")
	return reflect.Value{}
}

//verif:opt scope=file
//verif:model (reflect.Value).SetMapIndex
func modelSetMapIndex(x, key, val reflect.Value) {
	k := v.Raw(key)
	e, ok := held(val)
	switch m := v.Raw(x).(type) {
	case map[string]interface{}:
		if !ok {
			delete(m, text(k))
		} else {
			m[text(k)] = e
		}
	case map[string]int:
		if !ok {
			delete(m, text(k))
		} else {
			m[text(k)] = whole(e)
		}
	case map[string]float64:
		if !ok {
			delete(m, text(k))
		} else {
			m[text(k)] = real(e)
		}
	case map[string]string:
		if !ok {
			delete(m, text(k))
		} else {
			m[text(k)] = text(e)
		}
	case map[int]interface{}:
		if !ok {
			delete(m, whole(k))
		} else {
			m[whole(k)] = e
		}
	case map[int]int:
		if !ok {
			delete(m, whole(k))
		} else {
			m[whole(k)] = whole(e)
		}
	case map[int]float64:
		if !ok {
			delete(m, whole(k))
		} else {
			m[whole(k)] = real(e)
		}
	case map[int]string:
		if !ok {
			delete(m, whole(k))
		} else {
			m[whole(k)] = text(e)
		}
	default:
		v.Panic("no map")
	}
}

//verif:opt scope=file
//verif:model (reflect.Value).Len
func modelLen(x reflect.Value) int {
	switch a := v.Raw(x).(type) {
	case string:
		return len(a)
	case []interface{}:
		return len(a)
	case []int:
		return len(a)
	case []float64:
		return len(a)
	case []string:
		return len(a)
	case map[string]interface{}:
		return len(a)
	case map[string]int:
		return len(a)
	case map[string]float64:
		return len(a)
	case map[string]string:
		return len(a)
	case map[int]interface{}:
		return len(a)
	case map[int]int:
		return len(a)
	case map[int]float64:
		return len(a)
	case map[int]string:
		return len(a)
	}
	v.Panic("no length")
	return 0
}

//verif:opt scope=file
//verif:model (reflect.Value).Cap
func modelCap(x reflect.Value) int {
	switch a := v.Raw(x).(type) {
	case []interface{}:
		return cap(a)
	case []int:
		return cap(a)
	case []float64:
		return cap(a)
	case []string:
		return cap(a)
	}
	v.Panic("no capacity")
	return 0
}

func inRange(i, j, n int) {
	if i < 0 || i > j || j > n {
		v.Panic("slice bounds out of range")
	}
}

//verif:opt scope=file
//verif:model (reflect.Value).Slice
func modelSlice(x reflect.Value, i, j int) reflect.Value {
	switch a := v.Raw(x).(type) {
	case string:
		inRange(i, j, len(a))
		return reflect.ValueOf(a[i:j])
	case []interface{}:
		inRange(i, j, cap(a))
		return reflect.ValueOf(a[i:j])
	case []int:
		inRange(i, j, cap(a))
		return reflect.ValueOf(a[i:j])
	case []float64:
		inRange(i, j, cap(a))
		return reflect.ValueOf(a[i:j])
	case []string:
		inRange(i, j, cap(a))
		return reflect.ValueOf(a[i:j])
	}
	v.Panic("no list")
	return reflect.Value{}
}

//verif:opt scope=file
//verif:model reflect.Append
func modelAppend(x reflect.Value, vals ...reflect.Value) reflect.Value {
	switch a := v.Raw(x).(type) {
	case []int:
		for _, y := range vals {
			e, _ := held(y)
			a = append(a, whole(e))
		}
		return reflect.ValueOf(a)
	case []string:
		for _, y := range vals {
			e, _ := held(y)
			a = append(a, text(e))
		}
		return reflect.ValueOf(a)
	}
	v.Panic("no list of the model")
	return reflect.Value{}
}

// ---- lists

// listGet: element i of a list, or none.
func listGet(a interface{}, i int) (x interface{}, ok bool) {
	switch a := a.(type) {
	case string:
		if 0 <= i && i < len(a) {
			return a[i], true
		}
	case []interface{}:
		if 0 <= i && i < len(a) {
			return a[i], true
		}
	case []int:
		if 0 <= i && i < len(a) {
			return a[i], true
		}
	case []float64:
		if 0 <= i && i < len(a) {
			return a[i], true
		}
	case []string:
		if 0 <= i && i < len(a) {
			return a[i], true
		}
	}
	return nil, false
}

func getsElement(a, key interface{}) {
	i, isInt := key.(int)
	want, ok := listGet(a, i)
	var got interface{}
	bad, _ := v.Try(func() { got = Get(a, key) })
	v.Ensures("an index out of range or of another type is an error", bad == !(isInt && ok))
	v.Ensures("the element at the index", bad || v.Same(got, want))
}

//verif:prop Q08
func propGetAny(a []interface{}, key interface{}) { getsElement(a, key) }

//verif:prop Q08
func propGetInt(a []int, key interface{}) { getsElement(a, key) }

//verif:prop Q08
func propGetFloat(a []float64, key interface{}) { getsElement(a, key) }

//verif:prop Q08
func propGetStr(a []string, key interface{}) { getsElement(a, key) }

//verif:prop Q08
func propGetText(a string, key interface{}) { getsElement(a, key) }

func getsEntry(m, key, want interface{}, ok, keyOK bool) {
	var got interface{}
	bad, _ := v.Try(func() { got = Get(m, key) })
	v.Ensures("a key of another type is an error", bad == !keyOK)
	v.Ensures("the value under the key", bad || !ok || v.Same(got, want))
	v.Ensures("an absent key reads as undefined", bad || ok || v.Same(got, qlang.Undefined))
}

//verif:prop Q08
func propGetStrAny(m map[string]interface{}, key interface{}) {
	k, keyOK := key.(string)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetStrInt(m map[string]int, key interface{}) {
	k, keyOK := key.(string)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetStrFloat(m map[string]float64, key interface{}) {
	k, keyOK := key.(string)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetStrStr(m map[string]string, key interface{}) {
	k, keyOK := key.(string)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetIntAny(m map[int]interface{}, key interface{}) {
	k, keyOK := key.(int)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetIntInt(m map[int]int, key interface{}) {
	k, keyOK := key.(int)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetIntFloat(m map[int]float64, key interface{}) {
	k, keyOK := key.(int)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

//verif:prop Q08
func propGetIntStr(m map[int]string, key interface{}) {
	k, keyOK := key.(int)
	want, ok := m[k]
	getsEntry(m, key, want, ok, keyOK)
}

// ---- storing one element

//verif:prop Q08
func propSetAny(a []interface{}, key, val interface{}, j int) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModElems(a)
	i, isInt := key.(int)
	ok := isInt && 0 <= i && i < len(a)
	old, in := listGet(a, j)
	bad, _ := v.Try(func() { Set(a, key, val) })
	v.Ensures("an index out of range or of another type is an error", bad == !ok)
	v.Ensures("the element stored", bad || v.Same(a[i], val))
	v.Ensures("the others stay", !in || ok && i == j || v.Same(a[j], old))
}

//verif:prop Q08
func propSetInt(a []int, key, val interface{}, j int) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModElems(a)
	i, isInt := key.(int)
	x, valOK := val.(int)
	ok := isInt && 0 <= i && i < len(a) && (valOK || val == nil)
	old, in := listGet(a, j)
	bad, _ := v.Try(func() { Set(a, key, val) })
	v.Ensures("an index or a value of another type is an error", bad == !ok)
	v.Ensures("the element stored", bad || a[i] == x)
	v.Ensures("the others stay", !in || ok && i == j || v.Same(interface{}(a[j]), old))
}

//verif:prop Q08
func propSetFloat(a []float64, key, val interface{}, j int) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModElems(a)
	i, isInt := key.(int)
	x, valOK := val.(float64)
	ok := isInt && 0 <= i && i < len(a) && (valOK || val == nil)
	old, in := listGet(a, j)
	bad, _ := v.Try(func() { Set(a, key, val) })
	v.Ensures("an index or a value of another type is an error", bad == !ok)
	v.Ensures("the element stored", bad || v.Same(a[i], x))
	v.Ensures("the others stay", !in || ok && i == j || v.Same(interface{}(a[j]), old))
}

//verif:prop Q08
func propSetStr(a []string, key, val interface{}, j int) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModElems(a)
	i, isInt := key.(int)
	x, valOK := val.(string)
	ok := isInt && 0 <= i && i < len(a) && (valOK || val == nil)
	old, in := listGet(a, j)
	bad, _ := v.Try(func() { Set(a, key, val) })
	v.Ensures("an index or a value of another type is an error", bad == !ok)
	v.Ensures("the element stored", bad || v.Same(a[i], x))
	v.Ensures("the others stay", !in || ok && i == j || v.Same(interface{}(a[j]), old))
}

//verif:prop Q08
func propSetStrAny(m map[string]interface{}, key, val interface{}, other string) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModAll()
	v.Requires("a map", m != nil)
	k, keyOK := key.(string)
	was, had := m[other]
	bad, _ := v.Try(func() { Set(m, key, val) })
	v.Ensures("a key of another type is an error", bad == !keyOK)
	got, ok := m[k]
	v.Ensures("undefined removes the key", bad || ok == !v.Same(val, qlang.Undefined))
	v.Ensures("the value stored", bad || !ok || v.Same(got, val))
	now, has := m[other]
	v.Ensures("the others stay", keyOK && other == k || has == had && v.Same(now, was))
}

//verif:prop Q08
func propSetStrInt(m map[string]int, key, val interface{}, other string) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModAll()
	v.Requires("a map", m != nil)
	k, keyOK := key.(string)
	x, valOK := val.(int)
	none := v.Same(val, qlang.Undefined)
	was, had := m[other]
	bad, _ := v.Try(func() { Set(m, key, val) })
	v.Ensures("a key or a value of another type is an error", bad == !(keyOK && (valOK || val == nil || none)))
	got, ok := m[k]
	v.Ensures("undefined removes the key", bad || ok == !none)
	v.Ensures("the value stored", bad || !ok || got == x)
	now, has := m[other]
	v.Ensures("the others stay", !bad && other == k || has == had && now == was)
}

//verif:prop Q08
func propSetIntAny(m map[int]interface{}, key, val interface{}, other int) {
	dynamic(val)
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModAll()
	v.Requires("a map", m != nil)
	k, keyOK := key.(int)
	was, had := m[other]
	bad, _ := v.Try(func() { Set(m, key, val) })
	v.Ensures("a key of another type is an error", bad == !keyOK)
	got, ok := m[k]
	v.Ensures("undefined removes the key", bad || ok == !v.Same(val, qlang.Undefined))
	v.Ensures("the value stored", bad || !ok || v.Same(got, val))
	now, has := m[other]
	v.Ensures("the others stay", keyOK && other == k || has == had && v.Same(now, was))
}

//verif:prop Q08
func propDelete(m map[string]interface{}, key interface{}, other string) {
	v.Requires("the zero value", !zeroVal.IsValid())
	v.ModAll()
	k, keyOK := key.(string)
	was, had := m[other]
	bad, _ := v.Try(func() { Delete(m, key) })
	v.Ensures("a key of another type is an error", bad == !keyOK)
	now, has := m[other]
	v.Ensures("the key is gone, the others stay", keyOK && other == k && !has || !(keyOK && other == k) && has == had && v.Same(now, was))
}

// ---- length, parts

//verif:prop Q08
func propLens(a []interface{}, b []int, c []float64, d []string, s string, m map[string]interface{}, n map[int]int) {
	v.Ensures("the number of elements", Len(a) == len(a) && Len(b) == len(b) && Len(c) == len(c) && Len(d) == len(d) && Len(s) == len(s) && Len(m) == len(m) && Len(n) == len(n))
	v.Ensures("nil is empty", Len(nil) == 0)
	v.Ensures("the capacity", Cap(a) == cap(a) && Cap(b) == cap(b) && Cap(c) == cap(c) && Cap(d) == cap(d) && Cap(nil) == 0)
}

// bounds: what is cut out of a list of n elements.
func bounds(i, j interface{}, n, max int) (lo, hi int, ok bool) {
	lo, okLo := i.(int)
	hi, okHi := j.(int)
	if j == nil {
		hi, okHi = n, true
	}
	return lo, hi, (okLo || i == nil) && okHi && 0 <= lo && lo <= hi && hi <= max
}

//verif:prop Q08
func propCutAny(a []interface{}, i, j interface{}) {
	lo, hi, ok := bounds(i, j, len(a), cap(a))
	var r interface{}
	bad, _ := v.Try(func() { r = SubSlice(a, i, j) })
	v.Ensures("bounds of another type or out of range are an error", bad == !ok)
	if !bad {
		x, isList := r.([]interface{})
		v.Ensures("the part of the list", isList && v.Same(x, a[lo:hi]))
	}
}

//verif:prop Q08
func propCutInt(a []int, i, j interface{}) {
	lo, hi, ok := bounds(i, j, len(a), cap(a))
	var r interface{}
	bad, _ := v.Try(func() { r = SubSlice(a, i, j) })
	v.Ensures("bounds of another type or out of range are an error", bad == !ok)
	if !bad {
		x, isList := r.([]int)
		v.Ensures("the part of the list", isList && v.Same(x, a[lo:hi]))
	}
}

//verif:prop Q08
func propCutText(a string, i, j interface{}, k int) {
	lo, hi, ok := bounds(i, j, len(a), len(a))
	var r interface{}
	bad, _ := v.Try(func() { r = SubSlice(a, i, j) })
	v.Ensures("bounds of another type or out of range are an error", bad == !ok)
	if !bad {
		x, isText := r.(string)
		v.Ensures("the part of the text", isText && len(x) == hi-lo && (k < 0 || k >= hi-lo || x[k] == a[lo+k]))
	}
}

// ---- append

//verif:prop Q08
func propAppendAny(a []interface{}, vals []interface{}, j int) {
	v.ModElems(a[:cap(a)])
	n := len(a)
	old, in := listGet(a, j)
	add, more := listGet(vals, j-n)
	v.Requires("other elements", v.Disjoint(a, vals))
	r, ok := Append(a, vals...).([]interface{})
	v.Ensures("a list of both", ok && len(r) == n+len(vals))
	v.Ensures("the elements of the list first", !in || v.Same(r[j], old))
	v.Ensures("the new ones after them", !more || v.Same(r[j], add))
}

// ofType: every value from i on is a number (k 0), an integer or nil (1) or
// a text or nil (2).
//
//verif:spec
func ofType(vals []interface{}, i, k int) bool {
	if i < 0 || i >= len(vals) {
		return true
	}
	x := vals[i]
	_, isInt := x.(int)
	_, isFloat := x.(float64)
	_, isFloat32 := x.(float32)
	_, isText := x.(string)
	return (k == 0 && (isInt || isFloat || isFloat32) || k == 1 && (isInt || x == nil) || k == 2 && (isText || x == nil)) && ofType(vals, i+1, k)
}

func asNum(x interface{}) float64 {
	switch x := x.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	case float32:
		return float64(x)
	}
	return 0
}

//verif:prop Q08
//verif:opt nounroll=yes
func propAppendFloat(a []float64, vals []interface{}, j int) {
	v.ModElems(a[:cap(a)])
	n := len(a)
	old, in := listGet(a, j)
	add, more := listGet(vals, j-n)
	good := ofType(vals, 0, 0)
	v.Inv(func(k int) bool { return -1 <= k && k < len(vals) && ofType(vals, k+1, 0) == good })
	v.Inv(func(k int, x []float64) bool { return len(x) == n+k+1 })
	v.Inv(func(x []float64) bool { return !in || j < len(x) && v.Same(interface{}(x[j]), old) })
	v.Inv(func(k int, x []float64) bool { return !more || j > n+k || j < len(x) && v.Same(x[j], asNum(add)) })
	var res interface{}
	bad, _ := v.Try(func() { res = Append(a, vals...) })
	v.Ensures("a value of another type is an error", bad == !good)
	if bad {
		return
	}
	r, ok := res.([]float64)
	v.Ensures("a list of both", ok && len(r) == n+len(vals))
	v.Ensures("the elements of the list first", !in || v.Same(interface{}(r[j]), old))
	v.Ensures("the new ones after them, integers as floats", !more || v.Same(r[j], asNum(add)))
}
