//go:build go1.18

package qlang

import "github.com/qiniu/text/zzverif/v"

// The actions of the grammar are these functions.

func action(name string, f interface{}) bool { return v.Same(exports[name], f) }

//verif:prop Q02
func propTableBranches() {
	v.Ensures("if", action("$if", (*Interpreter).If))
	v.Ensures("switch", action("$switch", (*Interpreter).Switch))
	v.Ensures("and", action("$and", (*Interpreter).And))
	v.Ensures("or", action("$or", (*Interpreter).Or))
}

//verif:prop Q03
func propTableFor() { v.Ensures("for", action("$for", (*Interpreter).For)) }

//verif:prop Q04
func propTableVars() {
	v.Ensures("read", action("$ref", (*Interpreter).Ref))
	v.Ensures("assign", action("$assign", (*Interpreter).Assign))
	v.Ensures("multiple assign", action("$massign", (*Interpreter).MultiAssign))
	v.Ensures("++", action("$inc", (*Interpreter).Inc))
	v.Ensures("--", action("$dec", (*Interpreter).Dec))
	v.Ensures("+=", action("$adda", (*Interpreter).AddAssign))
	v.Ensures("-=", action("$suba", (*Interpreter).SubAssign))
	v.Ensures("*=", action("$mula", (*Interpreter).MulAssign))
	v.Ensures("/=", action("$quoa", (*Interpreter).QuoAssign))
	v.Ensures("%=", action("$moda", (*Interpreter).ModAssign))
}

//verif:prop Q05
func propTableFuncs() {
	v.Ensures("fn", action("$fn", (*Interpreter).Function))
	v.Ensures("call", action("$call", (*Interpreter).VCall))
	v.Ensures("return", action("$return", (*Interpreter).Return))
}

//verif:prop Q06
func propTableDefer() {
	v.Ensures("defer", action("$defer", (*Interpreter).Defer))
	v.Ensures("recover", action("$recover", (*Interpreter).Recover))
}

//verif:prop Q07
func propTableClass() {
	v.Ensures("class", action("$class", (*Interpreter).Class))
	v.Ensures("method", action("$mfn", (*Interpreter).MemberFuncDecl))
	v.Ensures("new", action("$new", (*Interpreter).New))
	v.Ensures("member", action("$mref", (*Interpreter).MemberRef))
}

//verif:prop Q08
func propTableContainers() {
	v.Ensures("list", action("$slice", (*Interpreter).VSlice))
	v.Ensures("map", action("$map", (*Interpreter).VMap))
	v.Ensures("index", action("$index", Index))
}
