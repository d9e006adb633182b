//go:build go1.18

package tpl

import (
	"github.com/qiniu/text/zzverif/v"
)

// ---- M09: what is printed for a rule, given what is printed for its operands
//
// An operand is printed at the level of the operator it stands under, and an
// operator under a tighter one is parenthesised; the grammar of grammars (C01)
// reads such a text back as the rule: a sequence or a choice within one of its
// own kind is the same sequence or choice (unless it has a cut, which acts
// within its own sequence only), and % takes the list as its left operand.

// enclosed: a text, in parentheses where they are needed.
func enclosed(text string, paren bool) string {
	if paren {
		return "(" + text + ")"
	}
	return text
}

// cutIn: one of the elements from i on is a cut.
//
//verif:spec
func cutIn(gs []Grammar, i int) bool {
	if i < 0 || i >= len(gs) {
		return false
	}
	return gs[i] == nil || cutIn(gs, i+1)
}

// andPiece: what element i adds to the text of a sequence.
func andPiece(gs []Grammar, t Tokener, i int) string {
	text := "!"
	if gs[i] != nil {
		text = gText(gs[i], t, lvlAnd)
	}
	if i == 0 {
		return text
	}
	return " " + text
}

// andLen: the length of the text of the first n elements of a sequence.
//
//verif:spec
func andLen(gs []Grammar, t Tokener, n int) int {
	if n <= 0 || n > len(gs) {
		return 0
	}
	return andLen(gs, t, n-1) + len(andPiece(gs, t, n-1))
}

// andChr: character j of that text.
//
//verif:spec
func andChr(gs []Grammar, t Tokener, n, j int) byte {
	if n <= 0 || n > len(gs) {
		return 0
	}
	if k := j - andLen(gs, t, n-1); k >= 0 && k < len(andPiece(gs, t, n-1)) {
		return andPiece(gs, t, n-1)[k]
	}
	return andChr(gs, t, n-1, j)
}

func orPiece(gs []Grammar, t Tokener, i int) string {
	if i == 0 {
		return gText(gs[i], t, lvlOr)
	}
	return " | " + gText(gs[i], t, lvlOr)
}

// orLen, orChr: the text of the first n alternatives of a choice.
//
//verif:spec
func orLen(gs []Grammar, t Tokener, n int) int {
	if n <= 0 || n > len(gs) {
		return 0
	}
	return orLen(gs, t, n-1) + len(orPiece(gs, t, n-1))
}

//verif:spec
func orChr(gs []Grammar, t Tokener, n, j int) byte {
	if n <= 0 || n > len(gs) {
		return 0
	}
	if k := j - orLen(gs, t, n-1); k >= 0 && k < len(orPiece(gs, t, n-1)) {
		return orPiece(gs, t, n-1)[k]
	}
	return orChr(gs, t, n-1, j)
}

// printing: r is what was printed before it, and the text.
func printing(r []byte, old, text string) {
	j, want := v.Fresh[int](), old+text
	v.Ensures("as long as its text", len(r) == len(want))
	v.Ensures("what was printed before it stays, and its text follows", j < 0 || j >= len(r) || r[j] == want[j])
}

//verif:prop M09
//verif:opt init=no
func propPrintToken(k uint, b []byte, t Tokener, lvl int) {
	v.Requires("a tokenizer", t != nil)
	old := string(b)
	printing(Gr(k).Marshal(b, t, lvl), old, tkTtol(t, k))
}

//verif:prop M09
//verif:opt init=no
func propPrintLeaves(b []byte, t Tokener, lvl int, last bool) {
	old := string(b)
	if last {
		printing(grEOF{}.Marshal(b, t, lvl), old, "EOF")
	} else {
		printing(grTrue{}.Marshal(b, t, lvl), old, "1")
	}
}

//verif:prop M09
//verif:opt init=no
func propPrintLook(g Grammar, b []byte, t Tokener, lvl int, not bool) {
	v.Requires("a rule and a tokenizer", g != nil && t != nil)
	old := string(b)
	if not {
		printing(Not(g).Marshal(b, t, lvl), old, "~"+gText(g, t, lvlRepeat))
	} else {
		printing(Peek(g).Marshal(b, t, lvl), old, "@"+gText(g, t, lvlRepeat))
	}
}

//verif:prop M09
//verif:opt init=no
func propPrintRepeat(g Grammar, b []byte, t Tokener, lvl int, opt bool) {
	v.Requires("a rule and a tokenizer", g != nil && t != nil)
	old := string(b)
	if opt {
		printing(Repeat01(g).Marshal(b, t, lvl), old, "?"+gText(g, t, lvlRepeat))
	} else {
		printing(Repeat0(g).Marshal(b, t, lvl), old, "*"+gText(g, t, lvlRepeat))
	}
}

//verif:prop M09
//verif:opt init=no
func propPrintRepeat1(g Grammar, b []byte, t Tokener, lvl int) {
	v.Requires("a rule and a tokenizer", g != nil && t != nil)
	old := string(b)
	r := Repeat1(g).Marshal(b, t, lvl)
	text := gText(g, t, lvlRepeat)
	if len(text) > 0 && text[0] == '+' { // "++" is another token
		text = " " + text
	}
	printing(r, old, "+"+text)
}

//verif:prop M09
//verif:opt init=no
func propPrintList(x, y Grammar, b []byte, t Tokener, lvl int, empty bool) {
	v.Requires("rules and a tokenizer", x != nil && y != nil && t != nil)
	old := string(b)
	g, op := List(x, y), " % "
	if empty {
		g, op = List0(x, y), " %= "
	}
	r := g.Marshal(b, t, lvl)
	printing(r, old, enclosed(gText(x, t, lvlList)+op+gText(y, t, lvlRepeat), lvl > lvlList))
}

//verif:prop M09
//verif:opt init=no
//verif:lemma (*grAnd).hasCut
func propHasCut(p *grAnd) bool {
	v.Requires("a sequence", p != nil)
	v.Inv(func(k int) bool { return 0 <= k && k <= len(p.gs) && cutIn(p.gs, k) == cutIn(p.gs, 0) })
	v.Inv(func(k int) bool { return -1 <= k && k < len(p.gs) && cutIn(p.gs, k+1) == cutIn(p.gs, 0) })
	r := p.hasCut()
	v.Ensures("it has a cut", r == cutIn(p.gs, 0))
	return r
}

//verif:prop M09
//verif:opt init=no nounroll=yes
func propPrintAnd(gs []Grammar, b []byte, t Tokener, lvl, j int) {
	v.Requires("a tokenizer", t != nil)
	was, old := len(b), string(b)
	paren := lvl > lvlAnd || lvl == lvlAnd && cutIn(gs, 0)
	n := was
	if paren {
		n++
	}
	v.Inv(func(k int) bool { return -1 <= k && k < len(gs) })
	v.Inv(func(k int, b []byte) bool { return len(b) == n+andLen(gs, t, k+1) })
	v.Inv(func(b []byte) bool { return j < 0 || j >= was || j < len(b) && b[j] == old[j] })
	v.Inv(func(b []byte) bool { return !paren || was < len(b) && b[was] == '(' })
	v.Inv(func(k int, b []byte) bool { return j < n || j >= len(b) || b[j] == andChr(gs, t, k+1, j-n) })
	r := (&grAnd{gs}).Marshal(b, t, lvl)
	end := n + andLen(gs, t, len(gs))
	if paren {
		v.Ensures("as long as its text", len(r) == end+1)
		v.Ensures("parenthesised", len(r) == end+1 && r[was] == '(' && r[end] == ')')
	} else {
		v.Ensures("as long as its text", len(r) == end)
	}
	v.Ensures("what was printed before it stays", j < 0 || j >= was || j < len(r) && r[j] == old[j])
	v.Ensures("its text follows", j < n || j >= end || j < len(r) && r[j] == andChr(gs, t, len(gs), j-n))
}

//verif:prop M09
//verif:opt init=no nounroll=yes
func propPrintOr(gs []Grammar, b []byte, t Tokener, lvl, j int) {
	v.Requires("a tokenizer", t != nil)
	v.Requires("alternatives", !cutIn(gs, 0))
	v.Inv(func(k int) bool { return -1 <= k && cutIn(gs, k+1) == cutIn(gs, 0) })
	was, old := len(b), string(b)
	paren := lvl > lvlOr
	n := was
	if paren {
		n++
	}
	v.Inv(func(k int) bool { return -1 <= k && k < len(gs) })
	v.Inv(func(k int, b []byte) bool { return len(b) == n+orLen(gs, t, k+1) })
	v.Inv(func(b []byte) bool { return j < 0 || j >= was || j < len(b) && b[j] == old[j] })
	v.Inv(func(b []byte) bool { return !paren || was < len(b) && b[was] == '(' })
	v.Inv(func(k int, b []byte) bool { return j < n || j >= len(b) || b[j] == orChr(gs, t, k+1, j-n) })
	r := Or(gs...).Marshal(b, t, lvl)
	end := n + orLen(gs, t, len(gs))
	if paren {
		v.Ensures("as long as its text", len(r) == end+1)
		v.Ensures("parenthesised", len(r) == end+1 && r[was] == '(' && r[end] == ')')
	} else {
		v.Ensures("as long as its text", len(r) == end)
	}
	v.Ensures("what was printed before it stays", j < 0 || j >= was || j < len(r) && r[j] == old[j])
	v.Ensures("its text follows", j < n || j >= end || j < len(r) && r[j] == orChr(gs, t, len(gs), j-n))
}

//verif:prop M09
//verif:opt init=no
func propPrintNames(x *GrVar, n *GrNamed, b []byte, t Tokener, lvl int, isVar bool) {
	v.Requires("named", x != nil && n != nil)
	old := string(b)
	if isVar {
		name := x.Name
		printing(x.Marshal(b, t, lvl), old, name)
	} else {
		name := n.name
		printing(n.Marshal(b, t, lvl), old, name)
	}
}

//verif:prop M09
//verif:opt init=no
func propPrintActions(g Grammar, act func([]Token, Grammar), begin func() interface{}, end func(interface{}, error), b []byte, t Tokener, lvl int, trans bool) {
	v.Requires("a rule and a tokenizer", g != nil && t != nil)
	old := string(b)
	if trans {
		printing(Transaction(g, begin, end).Marshal(b, t, lvl), old, gText(g, t, lvl))
	} else {
		printing(Action(g, act).Marshal(b, t, lvl), old, gText(g, t, lvl))
	}
}

//verif:prop M09
//verif:opt init=no
func propCode(g Grammar, t Tokener) {
	v.Requires("a rule and a tokenizer", g != nil && t != nil)
	printing([]byte(Code(g, t)), "", gText(g, t, lvlBase))
}
