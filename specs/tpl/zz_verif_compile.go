//go:build go1.18

package tpl

import (
	"go/token"

	"github.com/qiniu/text/zzverif/v"
)

// ---- the grammar of grammars and its actions
//
// Compiling matches the text with a grammar of grammars whose actions build
// the rules on a stack. The contracts check that this grammar is the one
// documented, and each action for any stack, operands and names.

//verif:keeps G:github.com/qiniu/text/tpl.verifDoc
//verif:keeps G:github.com/qiniu/text/tpl.verifMatches
var (
	verifDoc     *Matcher // what the text is matched with
	verifMatches int
	verifMatched error

	verifNames bool // the names that the actions have bound
	verifRules map[string]Grammar
	verifVars  map[string]*GrVar
)

//verif:model (*github.com/qiniu/text/tpl.Matcher).MatchExactly
//verif:opt scope=file
func modelMatchExactly(m *Matcher, src []byte, fname string) error {
	verifDoc = m
	verifMatches++
	if verifNames {
		a := compiled(nil)
		*v.Captured[map[string]Grammar](a.assign) = verifRules
		*v.Captured[map[string]*GrVar](a.assign) = verifVars
	}
	return verifMatched
}

type act = func(tokens []Token, g Grammar)

// action: the rule and the action of an Action.
func action(g Grammar) (Grammar, act) {
	p, ok := g.(*grAction)
	if !ok {
		v.Undecided("an action")
	}
	return p.g, p.act
}

// parts: the n rules of a sequence.
func parts(g Grammar, n int) []Grammar {
	p, ok := g.(*grAnd)
	if !ok || len(p.gs) != n {
		v.Undecided("a sequence")
	}
	return p.gs
}

// choices: the n alternatives of a choice.
func choices(g Grammar, n int) []Grammar {
	p, ok := g.(*grOr)
	if !ok || len(p.gs) != n {
		v.Undecided("a choice")
	}
	return p.gs
}

// kindOf: the kind of token that a rule for one token is for.
func kindOf(g Grammar) uint {
	p, ok := g.(grToken)
	if !ok {
		v.Undecided("a token")
	}
	return p.Kind
}

// acts are the actions of the grammar of grammars.
type acts struct {
	list, list0, mark, and, or, assign, null                      act
	ident, char, str, one, repeat0, repeat1, repeat01, not, peek act
}

// compiled: the actions of a compiler.
func compiled(c *Compiler) (ret acts) {
	doc, ok := verifDoc.Grammar.(*grRepeat1)
	if !ok {
		v.Undecided("one or more rules")
	}
	g, assign := action(doc.g)
	ps := parts(g, 4)
	v.Ensures("a definition", kindOf(ps[0]) == IDENT && kindOf(ps[1]) == '=' && kindOf(ps[3]) == ';')
	ret.assign = assign
	grammar := ps[2]
	g, ret.or = action(grammar)
	list, ok := g.(*grList)
	if !ok {
		v.Undecided("a list")
	}
	v.Ensures("alternatives", !list.list0 && kindOf(list.b) == '|')
	g, ret.and = action(list.a)
	seq, ok := g.(*grRepeat1)
	if !ok {
		v.Undecided("one or more terms")
	}
	cs := choices(seq.g, 2)
	cut, null := action(cs[1])
	v.Ensures("a cut", kindOf(cut) == '!')
	ret.null = null
	ts := parts(cs[0], 2)
	factor, ok := ts[0].(*GrVar)
	if !ok {
		v.Undecided("a factor")
	}
	tail, ok := ts[1].(*grRepeat0)
	if !ok {
		v.Undecided("operators after a factor")
	}
	for _, c := range choices(tail.g, 3) {
		ps := parts(c, 2)
		g, a := action(ps[1])
		switch kindOf(ps[0]) {
		case '%':
			v.Ensures("a list of factors", g == Grammar(factor))
			ret.list = a
		case REM_ASSIGN:
			v.Ensures("a list of factors", g == Grammar(factor))
			ret.list0 = a
		case '/':
			v.Ensures("a mark", kindOf(g) == IDENT)
			ret.mark = a
		}
	}
	for _, c := range choices(factor.Elem, 10) {
		if a, ok := c.(*grAction); ok {
			switch kindOf(a.g) {
			case IDENT:
				ret.ident = a.act
			case CHAR:
				ret.char = a.act
			case STRING:
				ret.str = a.act
			case INT:
				ret.one = a.act
			}
			continue
		}
		ps := c.(*grAnd).gs
		k := kindOf(ps[0])
		if k == '(' {
			v.Ensures("a rule in parentheses", len(ps) == 3 && ps[1] == grammar && kindOf(ps[2]) == ')')
			continue
		}
		g, a := action(parts(c, 2)[1])
		v.Ensures("a factor after the operator", g == Grammar(factor))
		switch k {
		case '*':
			ret.repeat0 = a
		case '+':
			ret.repeat1 = a
		case '?':
			ret.repeat01 = a
		case '~':
			ret.not = a
		case '@':
			ret.peek = a
		}
	}
	return
}

// prepare compiles with any outcome of the match.
func prepare(c *Compiler) {
	v.Requires("a compiler", c != nil)
	verifMatches, verifNames = 0, false
	c.Cl()
	v.Ensures("the text is matched once", verifMatches == 1)
}

//verif:prop C01
//verif:opt init=no
func propGrammarOfGrammars(c *Compiler) {
	prepare(c)
	a := compiled(c)
	v.Ensures("semicolons are inserted after a rule", verifDoc.ScanMode == InsertSemis && v.Same(verifDoc.Scanner, c.Scanner))
	v.Ensures("every operator", a.list != nil && a.list0 != nil && a.mark != nil && a.ident != nil && a.char != nil && a.str != nil && a.one != nil &&
		a.repeat0 != nil && a.repeat1 != nil && a.repeat01 != nil && a.not != nil && a.peek != nil)
}

// stacked: any stack with n operands at its end.
type stacked struct {
	stk  *[]Grammar
	n, k int
	j    int
	x    Grammar // the j-th, below the operands
}

func stackOf(a act, stack []Grammar, n, j int) (s stacked) {
	v.Requires("operands", n >= 0 && len(stack) >= n && len(stack) < 1<<40)
	v.Requires("any place", j < len(stack))
	s.stk = v.Captured[[]Grammar](a)
	*s.stk = stack
	s.n, s.k, s.j = len(stack), n, j
	if 0 <= j && j < len(stack)-n {
		s.x = stack[j]
	}
	return
}

// replaced: the operands are replaced by n rules, of which it gives the last;
// the stack below stays.
func (s stacked) replaced(n int) Grammar {
	stk := *s.stk
	v.Ensures("one rule for its operands", len(stk) == s.n-s.k+n)
	v.Ensures("the stack below stays", s.j < 0 || s.j >= s.n-s.k || v.Same(stk[s.j], s.x))
	if n == 0 {
		return nil
	}
	return stk[len(stk)-1]
}

//verif:prop C01
//verif:opt init=no
func propPrefix(c *Compiler, stack []Grammar, op uint, j int, tokens []Token, g Grammar) {
	prepare(c)
	a := compiled(c)
	s := stackOf(a.list, stack, 1, j)
	x := stack[len(stack)-1]
	v.Requires("an operand", x != nil)
	switch op {
	case '*':
		a.repeat0(tokens, g)
		p, ok := s.replaced(1).(*grRepeat0)
		v.Ensures("any number", ok && v.Same(p.g, x))
	case '+':
		a.repeat1(tokens, g)
		p, ok := s.replaced(1).(*grRepeat1)
		v.Ensures("one or more", ok && v.Same(p.g, x))
	case '?':
		a.repeat01(tokens, g)
		p, ok := s.replaced(1).(*grRepeat01)
		v.Ensures("one or none", ok && v.Same(p.g, x))
	case '~':
		a.not(tokens, g)
		p, ok := s.replaced(1).(*grNot)
		v.Ensures("not", ok && v.Same(p.g, x))
	case '@':
		a.peek(tokens, g)
		p, ok := s.replaced(1).(*grPeek)
		v.Ensures("ahead", ok && v.Same(p.g, x))
	}
}

//verif:prop C01
//verif:opt init=no
func propInfix(c *Compiler, stack []Grammar, list0 bool, j int, tokens []Token, g Grammar) {
	prepare(c)
	a := compiled(c)
	s := stackOf(a.list, stack, 2, j)
	x, y := stack[len(stack)-2], stack[len(stack)-1]
	v.Requires("operands", x != nil && y != nil)
	if list0 {
		a.list0(tokens, g)
	} else {
		a.list(tokens, g)
	}
	p, ok := s.replaced(1).(*grList)
	v.Ensures("a list", ok && p.list0 == list0)
	v.Ensures("the items, then the separator", ok && v.Same(p.a, x) && v.Same(p.b, y))
}

//verif:prop C01
//verif:opt init=no
func propMark(c *Compiler, stack []Grammar, j int, tokens []Token, g, r Grammar, marker bool) {
	v.Requires("a mark", len(tokens) > 0)
	v.Requires("a compiler", c != nil)
	var x Grammar
	name, n := "", 0
	c.Marker = nil
	if marker {
		c.Marker = func(g Grammar, mark string) Grammar {
			x, name = g, mark
			n++
			return r
		}
	}
	prepare(c)
	a := compiled(c)
	s := stackOf(a.mark, stack, 1, j)
	f := stack[len(stack)-1]
	n = 0
	a.mark(tokens, g)
	top := s.replaced(1)
	if marker {
		v.Ensures("the mark is applied once, to the factor", n == 1 && v.Same(x, f) && name == tokens[0].Literal)
		v.Ensures("the marked rule", v.Same(top, r))
		return
	}
	v.Ensures("no marks", v.Same(top, f))
}

// verifSized is a rule that has matched n parts.
type verifSized struct{ n int }

func (p *verifSized) Match(src []Token, ctx Context) (int, error)    { return 0, nil }
func (p *verifSized) Marshal(b []byte, t Tokener, lvl int) []byte    { return b }
func (p *verifSized) Len() int                                       { return p.n }

//verif:prop C01
//verif:opt init=no
func propParts(c *Compiler, stack []Grammar, m, j, i int, tokens []Token, or bool) {
	prepare(c)
	a := compiled(c)
	v.Requires("parts", m >= 1 && 0 <= i && i < m)
	s := stackOf(a.list, stack, m, j)
	y, top := stack[len(stack)-m+i], stack[len(stack)-1]
	v.Requires("a rule beside a cut", top != nil || !or)
	f := a.and
	if or {
		f = a.or
	}
	v.Inv(func(k int, dest []Grammar) bool { return 0 <= k && k <= m && (i >= k || v.Same(dest[i], y)) })
	f(tokens, &verifSized{m})
	if m == 1 && top != nil {
		v.Ensures("a single part is itself", v.Same(s.replaced(1), top))
		return
	}
	r := s.replaced(1)
	if or {
		p, ok := r.(*grOr)
		v.Ensures("a choice of all", ok && len(p.gs) == m)
		v.Ensures("in their order", ok && v.Same(p.gs[i], y))
		v.Ensures("its own", ok && v.Disjoint(p.gs, *s.stk))
		return
	}
	p, ok := r.(*grAnd)
	v.Ensures("a sequence of all", ok && len(p.gs) == m)
	v.Ensures("in their order", ok && v.Same(p.gs[i], y))
	v.Ensures("its own", ok && v.Disjoint(p.gs, *s.stk))
}

// verifTokens is a tokenizer that knows a kind for every spelling.
type verifTokens struct {
	kind  uint
	asked string
	n     int
}

func (p *verifTokens) Ltot(lit string) uint {
	p.asked = lit
	p.n++
	return p.kind
}

func (p *verifTokens) Ttol(tok uint) string { return "" }
func (p *verifTokens) Scan() (t Token)      { return }
func (p *verifTokens) Source() (s TokenSource) {
	return
}
func (p *verifTokens) Init(file *token.File, src []byte, err ScanErrorHandler, mode ScanMode) {}

//verif:prop C01,C02
//verif:opt init=no
func propToken(c *Compiler, stack []Grammar, j int, tokens []Token, g Grammar, kind uint, which int) {
	v.Requires("a token", c != nil && len(tokens) > 0)
	sc := &verifTokens{kind: kind}
	c.Scanner = sc
	prepare(c)
	a := compiled(c)
	lit := tokens[0].Literal
	s := stackOf(a.list, stack, 0, j)
	f := a.char
	if which == 1 {
		f = a.str
	} else if which == 2 {
		v.Requires("a name in capitals", lit != "" && 'A' <= lit[0] && lit[0] <= 'Z')
		f = a.ident
	}
	failed, _ := v.Try(func() { f(tokens, g) })
	v.Ensures("the tokenizer is asked", sc.n == 1 && sc.asked == lit)
	v.Ensures("C02: an unknown token is refused", failed == (kind == ILLEGAL))
	if failed {
		return
	}
	p, ok := s.replaced(1).(grToken)
	v.Ensures("the rule of the token", ok && p.Kind == kind)
}

//verif:prop C01,C02
func propOne(c *Compiler, stack []Grammar, j int, tokens []Token, g Grammar, null bool) {
	v.Requires("a token", len(tokens) > 0)
	prepare(c)
	a := compiled(c)
	s := stackOf(a.list, stack, 0, j)
	if null {
		a.null(tokens, g)
		v.Ensures("a cut", s.replaced(1) == nil)
		return
	}
	failed, _ := v.Try(func() { a.one(tokens, g) })
	v.Ensures("C02: no other number than 1", failed == (tokens[0].Literal != "1"))
	if !failed {
		v.Ensures("the empty rule", v.Same(s.replaced(1), Grammar(grTrue{})))
	}
}

// named: any rules and variables under their names.
func named(a act, rules map[string]Grammar, vars map[string]*GrVar) {
	v.Requires("rules and variables", rules != nil && vars != nil)
	*v.Captured[map[string]Grammar](a) = rules
	*v.Captured[map[string]*GrVar](a) = vars
}

//verif:prop C01
func propIdent(c *Compiler, stack []Grammar, j int, tokens []Token, g Grammar, rules map[string]Grammar, vars map[string]*GrVar, other string) {
	v.Requires("a token", len(tokens) > 0)
	prepare(c)
	a := compiled(c)
	name := tokens[0].Literal
	v.Requires("a name", name != "" && !('A' <= name[0] && name[0] <= 'Z'))
	s := stackOf(a.list, stack, 0, j)
	named(a.ident, rules, vars)
	r, isRule := rules[name]
	x, isVar := vars[name]
	v.Requires("no name is both", !isRule || !isVar)
	y, had := vars[other]
	a.ident(tokens, g)
	top := s.replaced(1)
	switch {
	case isRule:
		p, ok := top.(*GrNamed)
		v.Ensures("a rule that is defined", ok && v.Same(p.g, r) && p.name == name)
	case isVar:
		p, ok := top.(*GrVar)
		v.Ensures("a rule that is used already", ok && p == x)
	case name == "true":
		v.Ensures("the empty rule", v.Same(top, Grammar(grTrue{})))
	default:
		p, ok := top.(*GrVar)
		v.Ensures("a rule that is not defined yet", ok && p != nil && p.Elem == nil && p.Name == name && vars[name] == p)
		if other == name {
			return
		}
	}
	y2, has := vars[other]
	v.Ensures("the other names stay", has == had && y2 == y)
}

//verif:prop C01,C02
func propAssign(c *Compiler, stack []Grammar, j int, tokens []Token, g Grammar, rules map[string]Grammar, vars map[string]*GrVar, other string) {
	v.Requires("a token", len(tokens) > 0)
	prepare(c)
	a := compiled(c)
	name := tokens[0].Literal
	s := stackOf(a.list, stack, 1, j)
	named(a.assign, rules, vars)
	f := stack[len(stack)-1]
	v.Requires("a rule", f != nil)
	_, isRule := rules[name]
	x, isVar := vars[name]
	v.Requires("no name is both", !isRule || !isVar)
	v.Requires("a variable", !isVar || x != nil)
	defined := isRule || isVar && x.Elem != nil
	o, had := rules[other]
	failed, _ := v.Try(func() { a.assign(tokens, g) })
	v.Ensures("C02: a rule is defined once", failed == defined)
	if failed {
		return
	}
	s.replaced(0)
	if isVar {
		v.Ensures("C01: the rule that was used", v.Same(x.Elem, f))
	} else {
		v.Ensures("C01: the rule", v.Same(rules[name], f))
		if other == name {
			return
		}
	}
	o2, has := rules[other]
	v.Ensures("C01: the other rules stay", has == had && v.Same(o, o2))
}

// propResult: what compiling gives for any names bound while the text matched.
//
//verif:prop C01,C02
func propResult(c *Compiler, rules map[string]Grammar, vars map[string]*GrVar, k string, matched error) {
	v.Requires("a compiler", c != nil)
	v.Requires("rules and variables", rules != nil && vars != nil)
	verifNames, verifRules, verifVars, verifMatched = true, rules, vars, matched
	_, isRule := rules["doc"]
	d, isVar := vars["doc"]
	v.Requires("no name is both", !isRule || !isVar)
	x, used := vars[k]
	v.Requires("variables", !used || x != nil)
	v.Inv(func() bool { return !v.Visited(vars, k) || x.Elem != nil })
	var ret CompileRet
	var err error
	if failed, _ := v.Try(func() { ret, err = c.Cl() }); failed {
		return
	}
	v.Ensures("C02: the text is no grammar", matched == nil || err != nil)
	v.Ensures("C02: the document rule is missing", isRule || isVar || err != nil)
	v.Ensures("C02: a name is used but not defined", !used || x.Elem != nil || err != nil)
	if err != nil {
		v.Ensures("C02: no rule", ret.Matcher == nil && ret.Grammars == nil && ret.Vars == nil)
		return
	}
	m := ret.Matcher
	v.Ensures("C01: a matcher", m != nil && v.Same(m.Scanner, c.Scanner) && m.ScanMode == c.ScanMode && v.Same(m.Init, c.Init))
	if isRule {
		v.Ensures("C01: of the document", m != nil && v.Same(m.Grammar, rules["doc"]))
	} else {
		v.Ensures("C01: of the document, used before it was defined", m != nil && v.Same(m.Grammar, Grammar(d)))
	}
	v.Ensures("C01: the rules by name", v.Same(ret.Grammars, rules) && v.Same(ret.Vars, vars))
}
