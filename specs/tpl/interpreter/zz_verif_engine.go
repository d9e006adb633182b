//go:build go1.18

package interpreter

import (
	"reflect"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/zzverif/v"
)

// ---- any interpreter

//verif:uf
func ipStack(ip interpreter.Interface) interpreter.Stack { return nil }

//verif:uf
func ipTable(ip interpreter.Interface) map[string]interface{} { return nil }

//verif:abs (github.com/qiniu/text/tpl/interpreter.util.Interface).Stack
func absStack(ip interpreter.Interface) interpreter.Stack {
	s := ipStack(ip)
	v.Assume("an operand stack", s != nil)
	return s
}

//verif:abs (github.com/qiniu/text/tpl/interpreter.util.Interface).Fntable
func absFntable(ip interpreter.Interface) map[string]interface{} { return ipTable(ip) }

//verif:abs (github.com/qiniu/text/tpl/interpreter.util.Interface).Grammar
func absGrammar(ip interpreter.Interface) string { return v.Fresh[string]() }

// CallFn, the optional method.
//
//verif:abs (github.com/qiniu/text/tpl/interpreter.fnCaller).CallFn
func absCallFn(c fnCaller, fn interface{}) {
	verifCallFns++
	verifCallFn = fn
	v.HavocHeap()
	if v.Fresh[bool]() {
		v.Panic(v.Fresh[interface{}]())
	}
}

// Compiling the grammar: the marker and the initialiser are what it is given.
//
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifCompiler
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifCallFns
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifCallFn
var (
	verifCompiler *tpl.Compiler
	verifCallFns  int
	verifCallFn   interface{}
)

//verif:model (*github.com/qiniu/text/tpl.Compiler).Cl
//verif:opt scope=file
func modelCl(p *tpl.Compiler) (ret tpl.CompileRet, err error) {
	verifCompiler = p
	ret.Matcher = new(tpl.Matcher)
	return ret, nil
}

// A rule that matches n tokens.
type verifRule struct{ n, length int }

func (p *verifRule) Match(src []tpl.Token, ctx tpl.Context) (int, error)            { return p.n, nil }
func (p *verifRule) Marshal(b []byte, t tpl.Tokener, lvl int) []byte                { return b }
func (p *verifRule) Len() int                                                       { return p.length }

func calls() int { return interpreter.VerifCalls + interpreter.VerifDoCalls + verifCallFns }

// marked compiles the interpreter's grammar and applies a mark to a rule of n tokens.
func marked(ipt interpreter.Interface, options *Options, mark string, n, length, mute int) (*Engine, tpl.Grammar) {
	eng, err := New(ipt, options)
	v.Ensures("the engine is made", err == nil && eng != nil)
	var g tpl.Grammar
	bad, _ := v.Try(func() { g = verifCompiler.Marker(&verifRule{n, length}, mark) })
	_, ok := ipTable(ipt)["$"+mark]
	v.Ensures("an unknown mark is refused", v.Implies(!ok && mark != "_mute" && mark != "_unmute" && mark != "_tr", bad))
	if bad {
		return eng, nil
	}
	interpreter.VerifCalls, interpreter.VerifDoCalls, verifCallFns = 0, 0, 0
	eng.mute = mute
	return eng, g
}

func markArgs(ipt interpreter.Interface, mark string, src []tpl.Token, n, mute int) (fn interface{}, ok bool) {
	v.Requires("an interpreter", ipt != nil)
	v.Requires("a mark", mark != "" && mark != "_" && len(mark) < 1<<40)
	v.Requires("matched tokens", 0 <= n && n <= len(src))
	v.Requires("a muting state", 0 <= mute && mute < 1<<40)
	fn, ok = ipTable(ipt)["$"+mark]
	v.Requires("no nil function", !ok || fn != nil)
	return
}

//verif:prop I02
func propMuteMarks(ipt interpreter.Interface, options *Options, mark string, src []tpl.Token, n, length, mute int) {
	_, ok := markArgs(ipt, mark, src, n, mute)
	v.Requires("no function of that name", !ok)
	eng, g := marked(ipt, options, mark, n, length, mute)
	if g == nil {
		return
	}
	failed, _ := v.Try(func() { g.Match(src, nil) })
	v.Ensures("a mute mark calls nothing", calls() == 0 && (!failed || mark == "_tr"))
	want := mute
	if mark == "_mute" {
		want++
	} else if mark == "_unmute" {
		want--
	}
	v.Ensures("muting is switched by the mute marks", eng.mute == want)
}

//verif:prop I02
func propMuted(ipt interpreter.Interface, options *Options, mark string, src []tpl.Token, n, length, mute int) {
	_, ok := markArgs(ipt, mark, src, n, mute)
	v.Requires("a function of that name", ok)
	v.Requires("muted", mute > 1 || mute == 1 && mark[0] != '_')
	eng, g := marked(ipt, options, mark, n, length, mute)
	if g == nil {
		return
	}
	failed, _ := v.Try(func() { g.Match(src, nil) })
	v.Ensures("muted: nothing is called", calls() == 0)
	v.Ensures("muted: nothing fails", !failed)
	v.Ensures("muted: the state stays", eng.mute == mute)
}

//verif:prop I02
func propNotMuted(ipt interpreter.Interface, options *Options, mark string, src []tpl.Token, n, length, mute int) {
	fn, ok := markArgs(ipt, mark, src, n, mute)
	v.Requires("a function of that name", ok)
	v.Requires("options", options != nil)
	v.Requires("not muted", mute == 0 || mute == 1 && mark[0] == '_')
	eng, g := marked(ipt, options, mark, n, length, mute)
	if g == nil {
		return
	}
	failed, _ := v.Try(func() { g.Match(src, nil) })
	v.Ensures("one call, or the mark does not fit", calls() == 1 || failed)
	v.Ensures("at most one call", calls() <= 1)
	v.Ensures("of the marked function", v.Implies(interpreter.VerifCalls == 1, v.Same(interpreter.VerifCallee, reflect.ValueOf(fn))) &&
		v.Implies(interpreter.VerifDoCalls == 1, v.Same(interpreter.VerifDoFn, fn)) && v.Implies(verifCallFns == 1, v.Same(verifCallFn, fn)))
	v.Ensures("a mark that does not fit leaves the muting as it was", v.Implies(calls() == 0, eng.mute == mute))
}

//verif:prop I02
func propUnmuted(ipt interpreter.Interface, options *Options, mute int) {
	v.Requires("an interpreter", ipt != nil)
	eng, err := New(ipt, options)
	v.Ensures("the engine is made", err == nil && eng != nil)
	v.Ensures("muting is off at first", eng.mute == 0)
	eng.mute = mute
	v.Ensures("there is an initialiser", verifCompiler.Init != nil)
	verifCompiler.Init()
	v.Ensures("muting is off when an interpretation starts", eng.mute == 0)
}

// ---- I03: evaluation of captured code

var verifIP interpreter.Interface
var verifSubs int
var verifSubErr error
var verifSubSrc interface{}
var verifSubName string

//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifIP
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifEng
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifSubs
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifSubErr
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifSubPV
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifSubSrc
//verif:keeps G:github.com/qiniu/text/tpl/interpreter.verifSubName
var verifEng *Engine
var verifSubPV interface{}

//verif:model (github.com/qiniu/text/tpl.CompileRet).EvalSub
//verif:opt scope=file
func modelEvalSub(p tpl.CompileRet, name string, src interface{}) error {
	verifSubs++
	verifSubSrc, verifSubName = src, name
	if verifEng != nil {
		v.Ensures("the fragment's interpreter is current while it is evaluated", v.Same(verifEng.Interpreter, verifIP))
	}
	v.HavocHeap()
	if v.Fresh[bool]() {
		verifSubPV = v.Fresh[interface{}]()
		v.Panic(verifSubPV)
	}
	verifSubErr = v.Fresh[error]()
	return verifSubErr
}

//verif:prop I03
func propEvalCode(p *Engine, fn interpreter.Interface, name string, src interface{}) {
	v.Requires("an engine", p != nil && p.CompileRet != nil)
	verifEng, verifIP, verifSubs = p, fn, 0
	ip, mute, ret := p.Interpreter, p.mute, p.CompileRet
	_ = ret
	var err error
	bad, pv := v.Try(func() { err = p.EvalCode(fn, name, src) })
	v.Ensures("the interpreter is restored", v.Same(p.Interpreter, ip))
	v.Ensures("the muting state is restored", p.mute == mute)
	v.Ensures("the fragment is evaluated once", verifSubs == 1 && verifSubName == name && v.Same(verifSubSrc, src))
	v.Ensures("a panic goes on", v.Implies(bad, v.Same(pv, verifSubPV)))
	v.Ensures("its error is reported", v.Implies(!bad, v.Same(err, verifSubErr)))
}

// GetValue by its contract (proved below): a value or an error.
//
//verif:model github.com/qiniu/text/tpl/interpreter.GetValue
//verif:opt scope=file
func modelGetValue(t reflect.Type, lit string) (reflect.Value, error) {
	return v.Fresh[reflect.Value](), v.Fresh[error]()
}

// ctxValue: a context, whatever its positions.
//
//verif:model (*github.com/qiniu/text/tpl/interpreter.Engine).ctxValue
//verif:opt scope=file
func modelCtxValue(p *Engine, tokens []tpl.Token) reflect.Value {
	return reflect.ValueOf(new(interpreter.Context))
}
