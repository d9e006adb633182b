//go:build go1.18

package tpl

import (
	"go/token"

	"github.com/qiniu/text/zzverif/v"
)

// ---- C03: keywords of a grammar.

// kwKnown: what the tables say about one keyword text.
func kwKnown(p *AutoKwScanner, kw string) bool {
	t, ok := p.keywords[kw]
	return !ok || (USER_TOKEN_BEGIN <= t && t < USER_TOKEN_BEGIN+uint(len(p.tokens)) &&
		p.tokens[t-USER_TOKEN_BEGIN] == "\""+kw+"\"")
}

// kwSlot: what the tables say about one keyword kind.
func kwSlot(p *AutoKwScanner, i int) bool {
	if i < 0 || i >= len(p.tokens) {
		return true
	}
	s := p.tokens[i]
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return false
	}
	t, ok := p.keywords[s[1:len(s)-1]]
	return ok && t == USER_TOKEN_BEGIN+uint(i)
}

func quoted(lit string) bool {
	return len(lit) >= 2 && lit[0] == '"' && lit[len(lit)-1] == '"'
}

func kwScanner(p *AutoKwScanner) bool {
	return p != nil && p.keywords != nil && !v.Same(p.keywords, rtokens) && len(p.tokens) < 1<<40
}

// A literal becomes a keyword: its kind and spelling are inverse from then on,
// the tables' invariant stays (for an arbitrary other text k and kind i), and
// every kind keeps its spelling.
//
//verif:prop C03
//verif:opt init=no
func propLtot(p *AutoKwScanner, lit, k string, i int) {
	v.Requires("a scanner in use", kwScanner(p))
	v.Requires("a string literal that is no operator", quoted(lit) && Lit2Token(lit) == ILLEGAL)
	kw := lit[1 : len(lit)-1]
	v.Assert("a literal is its text in quotes", v.Eq(lit, "\""+kw+"\""))
	v.Requires("the tables' invariant", kwKnown(p, kw) && kwKnown(p, k) && kwSlot(p, i))
	_, was := p.keywords[k]
	before := p.keywords[k]
	n := len(p.tokens)
	old := ""
	if 0 <= i && i < n {
		old = p.tokens[i]
	}
	t := p.Ltot(lit)
	v.Ensures("a keyword kind", t >= USER_TOKEN_BEGIN)
	v.Ensures("its spelling is the literal", p.Ttol(t) == lit)
	v.Ensures("an identifier with that text gets the kind", p.keywords[kw] == t)
	_, ok := p.keywords[kw]
	v.Ensures("the keyword is known", ok)
	v.Ensures("the literal keeps its kind", p.Ltot(lit) == t)
	v.Ensures("the invariant: texts", kwKnown(p, k))
	v.Ensures("the invariant: kinds", kwSlot(p, i))
	if len(p.tokens) > n {
		v.Ensures("the invariant: the new kind", kwSlot(p, n))
	}
	v.Ensures("at most one keyword is added", len(p.tokens) == n || len(p.tokens) == n+1)
	_, is := p.keywords[k]
	if k != kw {
		v.Ensures("other texts are what they were", was == is && before == p.keywords[k])
	}
	if 0 <= i && i < n {
		v.Ensures("every kind keeps its spelling", p.tokens[i] == old)
		v.Ensures("and Ttol gives it", p.Ttol(USER_TOKEN_BEGIN+uint(i)) == old)
	}
}

//verif:prop C03
//verif:opt init=no
func propDistinct(p *AutoKwScanner, a, b string) {
	v.Requires("a scanner in use", kwScanner(p))
	v.Requires("two literals that are no operators", quoted(a) && quoted(b) && Lit2Token(a) == ILLEGAL && Lit2Token(b) == ILLEGAL && a != b)
	v.Requires("the tables' invariant", kwKnown(p, a[1:len(a)-1]) && kwKnown(p, b[1:len(b)-1]))
	v.Assert("a literal is its text in quotes", v.Eq(a, "\""+a[1:len(a)-1]+"\""))
	v.Assert("b literal is its text in quotes", v.Eq(b, "\""+b[1:len(b)-1]+"\""))
	ta := p.Ltot(a)
	tb := p.Ltot(b)
	v.Ensures("different keywords have different kinds", ta != tb)
	v.Ensures("inverse", p.Ttol(ta) == a && p.Ttol(tb) == b)
}

// What is an operator of the language is no keyword.
//
//verif:prop C03
func propLtotOperator(p *AutoKwScanner, k string) {
	v.Requires("a scanner in use", kwScanner(p))
	n := len(p.tokens)
	before, was := p.keywords[k]
	for _, e := range kindTable() {
		if e.kind != ILLEGAL {
			v.Ensures("the operator's own kind", p.Ltot(e.lit) == e.kind)
			v.Ensures("the operator's own spelling", p.Ttol(e.kind) == e.lit)
		}
	}
	after, is := p.keywords[k]
	v.Ensures("no keyword is added", n == len(p.tokens) && was == is && before == after)
}

// Other text: no kind, nothing changes.
//
//verif:prop C03
//verif:opt init=no
func propLtotOther(p *AutoKwScanner, lit, k string) {
	v.Requires("a scanner in use", kwScanner(p))
	v.Requires("no string literal, no operator", lit != "" && lit[0] != '"' && Lit2Token(lit) == ILLEGAL)
	n := len(p.tokens)
	before, was := p.keywords[k]
	v.Ensures("illegal", p.Ltot(lit) == ILLEGAL)
	after, is := p.keywords[k]
	v.Ensures("no keyword is added", n == len(p.tokens) && was == is && before == after)
}

// The base scanner: any token.
var verifScanned Token
var verifScans int

//verif:model (*github.com/qiniu/text/tpl.Scanner).Scan
//verif:opt scope=file
//verif:keeps G:github.com/qiniu/text/tpl.verifScanned
func modelScan(s *Scanner) Token {
	verifScanned = v.Fresh[Token]()
	verifScans++
	return verifScanned
}

var verifInits int

//verif:model (*github.com/qiniu/text/tpl.Scanner).Init
//verif:opt scope=file
func modelScanInit(s *Scanner, file *token.File, src []byte, err ScanErrorHandler, mode ScanMode) {
	verifInits++
	s.file, s.src, s.err, s.mode = file, src, err, mode
}

//verif:prop C03
//verif:opt init=no
func propKwScan(p *AutoKwScanner, k string) {
	v.Requires("a scanner in use", kwScanner(p))
	scans := verifScans
	n := len(p.tokens)
	before, was := p.keywords[k]
	t := p.Scan()
	v.Ensures("one token is scanned", verifScans == scans+1)
	b := verifScanned
	v.Ensures("its place and text are those of the source", t.Pos == b.Pos && t.Literal == b.Literal)
	kw, ok := p.keywords[b.Literal]
	if b.Kind == IDENT && ok {
		v.Ensures("a keyword gets its kind", t.Kind == kw)
	} else {
		v.Ensures("anything else keeps its kind", t.Kind == b.Kind)
	}
	after, is := p.keywords[k]
	v.Ensures("scanning adds no keyword", n == len(p.tokens) && was == is && before == after)
}

//verif:prop C03
//verif:opt init=no
func propKwInit(p *AutoKwScanner, file *token.File, src []byte, err ScanErrorHandler, mode ScanMode, k string, i int) {
	v.Requires("a scanner", p != nil && len(p.tokens) < 1<<40)
	v.Requires("a map of its own", !v.Same(p.keywords, rtokens))
	v.Requires("a fresh scanner has no keywords", p.keywords != nil || len(p.tokens) == 0)
	v.Requires("the tables' invariant", kwKnown(p, k) && kwSlot(p, i))
	n := len(p.tokens)
	inits := verifInits
	before, was := p.keywords[k]
	p.Init(file, src, err, mode)
	v.Ensures("the scanner starts on the source", verifInits == inits+1 && p.file == file && v.Same(p.src, src) && p.mode == mode)
	v.Ensures("the scanner is in use", kwScanner(p))
	v.Ensures("the tables' invariant", kwKnown(p, k) && kwSlot(p, i))
	after, is := p.keywords[k]
	v.Ensures("known keywords stay", n == len(p.tokens) && was == is && before == after)
}
