//go:build go1.18

package tpl

import (
	"go/token"

	"github.com/qiniu/text/zzverif/v"
)

// ---- any tokenizer: Init and Scan change the state of the program; a scan
// that meets a defect calls the error handler it was initialised with.

var verifOnError ScanErrorHandler

//verif:uf
func initW(w v.World, t Tokener, src []byte, mode ScanMode) v.World { return w }

//verif:abs (github.com/qiniu/text/tpl.Tokener).Init
func absInit(t Tokener, file *token.File, src []byte, err ScanErrorHandler, mode ScanMode) {
	v.SetWorld(initW(v.GetWorld(), t, src, mode))
	verifOnError = err
	if verifInBad {
		err(inPos(src), inMsg(src))
	}
}

// the first character is a defect
//
//verif:keeps G:github.com/qiniu/text/tpl.verifInBad
var verifInBad bool

//verif:uf
func inPos(src []byte) token.Position { return token.Position{} }

//verif:uf
func inMsg(src []byte) string { return "" }

//verif:uf
func scW(w v.World, t Tokener) v.World { return w }

//verif:uf
func scTok(w v.World, t Tokener) Token { return Token{} }

//verif:uf
func scBad(w v.World, t Tokener) bool { return false }

//verif:uf
func scPos(w v.World, t Tokener) token.Position { return token.Position{} }

//verif:uf
func scMsg(w v.World, t Tokener) string { return "" }

//verif:abs (github.com/qiniu/text/tpl.Tokener).Scan
func absScan(t Tokener) Token {
	w := v.GetWorld()
	v.SetWorld(scW(w, t))
	if scBad(w, t) {
		verifOnError(scPos(w, t), scMsg(w, t))
	}
	return scTok(w, t)
}

// the state after n scans
//
//verif:spec
func scansW(w v.World, t Tokener, n int) v.World {
	if n <= 0 {
		return w
	}
	return scW(scansW(w, t, n-1), t)
}

// scanEnd: from n scans on, the scan that meets a defect or the end of file.
//
//verif:spec
func scanEnd(w v.World, t Tokener, n int) int {
	if scBad(w, t) || scTok(w, t).Kind == EOF {
		return n
	}
	return scanEnd(scW(w, t), t, n+1)
}

//verif:spec
func scanEndW(w v.World, t Tokener) v.World {
	if scBad(w, t) || scTok(w, t).Kind == EOF {
		return w
	}
	return scanEndW(scW(w, t), t)
}

//verif:prop M07,L04
func propTokenize(p *Matcher, src []byte, fname string, j int, first bool) {
	v.Requires("a matcher with a tokenizer", p != nil && p.Scanner != nil)
	t := p.Scanner
	verifInBad = first
	w := initW(v.GetWorld(), t, src, p.ScanMode)
	end, wend := scanEnd(w, t, 0), scanEndW(w, t)
	v.Inv(func(toks []Token) bool {
		n := len(toks)
		w1 := v.GetWorld()
		return v.Same(w1, scansW(w, t, n)) && scanEnd(w1, t, n) == end && v.Same(scanEndW(w1, t), wend) &&
			v.Implies(0 <= j && j < n, v.Same(toks[j], scTok(scansW(w, t, j), t)))
	})
	toks, err := p.Tokenize(src, fname)
	if first {
		_, ok := err.(*TokenizeError)
		v.Ensures("a defect of the first character fails the tokenizing", ok)
		return
	}
	v.Ensures("M07: the text is tokenized once, up to the end of file or a defect", v.Same(v.GetWorld(), scW(wend, t)))
	if scBad(wend, t) {
		te, ok := err.(*TokenizeError)
		v.Ensures("a lexical defect fails the tokenizing", ok)
		v.Ensures("L04: the error has the position and message of the defect", ok && v.Same(te.Pos, scPos(wend, t)) && te.Msg == scMsg(wend, t))
		return
	}
	v.Ensures("a text without a defect is tokenized", err == nil)
	v.Ensures("M07: all tokens before the end of file", len(toks) == end)
	v.Ensures("M07: the tokens in order", v.Implies(0 <= j && j < end, v.Same(toks[j], scTok(scansW(w, t, j), t))))
	v.Ensures("M07: the end of file follows the tokens", cap(toks) > end && v.Same(toks[:end+1][end], scTok(wend, t)))
}

//verif:prop M07
func propDefaultScanner(p *Matcher) {
	v.Requires("a matcher without a tokenizer", p != nil && p.Scanner == nil)
	t := p.Tokener()
	v.Ensures("a matcher without a tokenizer gets the standard one", v.TypeIs[*Scanner](t) && v.Same(p.Scanner, t))
	v.Ensures("it keeps it", v.Same(p.Tokener(), t))
}

// ---- whole-input matching

// anyRule is a rule with an arbitrary outcome that records what it is applied to.
type anyRule struct {
	src   []Token
	ctx   Context
	calls int
}

//verif:uf
func ruleN(w v.World) int { return 0 }

//verif:uf
func ruleErr(w v.World) error { return nil }

//verif:uf
func ruleW(w v.World) v.World { return w }

func (r *anyRule) Match(src []Token, ctx Context) (int, error) {
	w := v.GetWorld()
	v.SetWorld(ruleW(w))
	r.src, r.ctx = src, ctx
	r.calls++
	n := ruleN(w)
	v.Assume("a rule stays within its tokens", 0 <= n && n <= len(src))
	return n, ruleErr(w)
}

func (r *anyRule) Marshal(b []byte, t Tokener, lvlParent int) []byte { return b }

func (r *anyRule) Len() int { return -1 }

//verif:uf
func hookW(w v.World, f func()) v.World { return w }

//verif:abs func()()
func absHook(f func()) { v.SetWorld(hookW(v.GetWorld(), f)) }

//verif:prop M07
func propNoGrammar(p *Matcher, src []byte, fname string, s string) {
	v.Requires("a matcher without a grammar", p != nil && p.Grammar == nil)
	w := v.GetWorld()
	_, err := p.Match(src, fname)
	v.Ensures("a matcher without a grammar fails", err != nil)
	v.Ensures("exact matching fails too", p.MatchExactly(src, fname) != nil && p.Eval(s) != nil)
	v.Ensures("nothing is run", v.Same(v.GetWorld(), w))
}

//verif:prop M07
func propMatch(p *Matcher, src []byte, fname string, text string, exact, eval bool) {
	verifInBad = false
	v.Requires("a matcher", p != nil && p.Scanner != nil)
	rule := &anyRule{}
	p.Grammar = rule
	t := p.Scanner
	if eval {
		src = []byte(text)
	}
	w := initW(v.GetWorld(), t, src, p.ScanMode)
	end, wend := scanEnd(w, t, 0), scanEndW(w, t)
	v.Inv(func(toks []Token) bool {
		n := len(toks)
		w1 := v.GetWorld()
		return v.Same(w1, scansW(w, t, n)) && scanEnd(w1, t, n) == end && v.Same(scanEndW(w1, t), wend)
	})
	var next []Token
	var err error
	switch {
	case eval:
		err = p.Eval(text)
	case exact:
		err = p.MatchExactly(src, fname)
	default:
		next, err = p.Match(src, fname)
	}
	if scBad(wend, t) {
		v.Ensures("a lexical error fails the match", err != nil)
		v.Ensures("a lexical error is reported as such", v.TypeIs[*TokenizeError](err))
		v.Ensures("the rule is not applied", rule.calls == 0 && v.Same(v.GetWorld(), scW(wend, t)))
		return
	}
	w2 := scW(wend, t)
	if p.Init != nil {
		w2 = hookW(w2, p.Init)
	}
	v.Ensures("the initialisation hook runs once, then the rule", rule.calls == 1 && v.Same(v.GetWorld(), ruleW(w2)))
	v.Ensures("the rule is applied to all tokens, within this matcher", len(rule.src) == end && v.Same(rule.ctx, Context(p)))
	if ruleErr(w2) != nil {
		v.Ensures("a failed rule fails the match", err != nil && v.Same(err, ruleErr(w2)))
		return
	}
	n := ruleN(w2)
	if exact || eval {
		v.Ensures("exact matching succeeds exactly when nothing is left", (err == nil) == (n == end))
		if n != end {
			me, ok := err.(*MatchError)
			v.Ensures("the error is about the tokens left", ok && v.Same(me.Src, rule.src[n:]) && me.IdxErr == 0 && v.Same(me.Grammar, GrEOF) && v.Same(me.Ctx, Context(p)))
		}
		return
	}
	v.Ensures("a match succeeds with its rule", err == nil)
	v.Ensures("a match returns the tokens left", v.Same(next, rule.src[n:]))
}

//verif:prop M07,I03
func propEvalSubTokens(ret CompileRet, name string, doc []Token) {
	v.Requires("a compiled grammar", ret.Matcher != nil)
	rule := &anyRule{}
	g, has := ret.Grammars[name]
	v.Requires("the rule", has && v.Same(g, Grammar(rule)))
	w := v.GetWorld()
	err := ret.EvalSub(name, doc)
	if ret.Init != nil {
		w = hookW(w, ret.Init)
	}
	v.Ensures("the hook runs once, then the rule, on the fragment", rule.calls == 1 && v.Same(v.GetWorld(), ruleW(w)) && v.Same(rule.src, doc) && v.Same(rule.ctx, Context(ret.Matcher)))
	if ruleErr(w) != nil {
		v.Ensures("a failed rule is an error", v.Same(err, ruleErr(w)))
		return
	}
	v.Ensures("a fragment must match completely", (err == nil) == (ruleN(w) == len(doc)))
}

//verif:prop M07,I03
func propEvalSubUnknown(ret CompileRet, name string, src interface{}) {
	v.Requires("a compiled grammar", ret.Matcher != nil)
	_, has := ret.Grammars[name]
	v.Requires("no such rule", !has)
	w := v.GetWorld()
	err := ret.EvalSub(name, src)
	v.Ensures("an unknown rule is an error", err != nil && v.Same(v.GetWorld(), w))
}

//verif:prop M07,I03
func propEvalSubText(ret CompileRet, name string, text []byte, s string, str bool) {
	verifInBad = false
	v.Requires("a compiled grammar", ret.Matcher != nil && ret.Scanner != nil)
	rule := &anyRule{}
	g, has := ret.Grammars[name]
	v.Requires("the rule", has && v.Same(g, Grammar(rule)))
	t := ret.Scanner
	var src interface{} = text
	if str {
		src = s
		text = []byte(s)
	}
	w := initW(v.GetWorld(), t, text, ret.ScanMode)
	end, wend := scanEnd(w, t, 0), scanEndW(w, t)
	v.Inv(func(toks []Token) bool {
		n := len(toks)
		w1 := v.GetWorld()
		return v.Same(w1, scansW(w, t, n)) && scanEnd(w1, t, n) == end && v.Same(scanEndW(w1, t), wend)
	})
	err := ret.EvalSub(name, src)
	if scBad(wend, t) {
		v.Ensures("a lexical error is an error", err != nil && rule.calls == 0)
		return
	}
	w2 := scW(wend, t)
	v.Ensures("the rule is applied once to all tokens", rule.calls == 1 && v.Same(v.GetWorld(), ruleW(w2)) && len(rule.src) == end)
	if ruleErr(w2) != nil {
		v.Ensures("a failed rule is an error", err != nil)
		return
	}
	v.Ensures("a text must match completely", (err == nil) == (ruleN(w2) == end))
}
