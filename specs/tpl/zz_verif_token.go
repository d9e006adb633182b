//go:build go1.18

package tpl

import (
	"go/token"

	"github.com/qiniu/text/zzverif/v"
)

type kindSpec struct {
	kind uint
	lit  string
	n    int
}

// the kinds of the language, with their spelling and length
func kindTable() []kindSpec {
	return []kindSpec{
		{ADD, "'+'", 1},
		{SUB, "'-'", 1},
		{MUL, "'*'", 1},
		{QUO, "'/'", 1},
		{REM, "'%'", 1},
		{AND, "'&'", 1},
		{OR, "'|'", 1},
		{XOR, "'^'", 1},
		{LT, "'<'", 1},
		{GT, "'>'", 1},
		{ASSIGN, "'='", 1},
		{NOT, "'!'", 1},
		{LPAREN, "'('", 1},
		{LBRACK, "'['", 1},
		{LBRACE, "'{'", 1},
		{COMMA, "','", 1},
		{PERIOD, "'.'", 1},
		{RPAREN, "')'", 1},
		{RBRACK, "']'", 1},
		{RBRACE, "'}'", 1},
		{SEMICOLON, "';'", 1},
		{COLON, "':'", 1},
		{QUESTION, "'?'", 1},
		{TILDE, "'~'", 1},
		{AT, "'@'", 1},
		{SHL, "\"<<\"", 2},
		{SHR, "\">>\"", 2},
		{AND_NOT, "\"&^\"", 2},
		{ADD_ASSIGN, "\"+=\"", 2},
		{SUB_ASSIGN, "\"-=\"", 2},
		{MUL_ASSIGN, "\"*=\"", 2},
		{QUO_ASSIGN, "\"/=\"", 2},
		{REM_ASSIGN, "\"%=\"", 2},
		{AND_ASSIGN, "\"&=\"", 2},
		{OR_ASSIGN, "\"|=\"", 2},
		{XOR_ASSIGN, "\"^=\"", 2},
		{SHL_ASSIGN, "\"<<=\"", 3},
		{SHR_ASSIGN, "\">>=\"", 3},
		{AND_NOT_ASSIGN, "\"&^=\"", 3},
		{LAND, "\"&&\"", 2},
		{LOR, "\"||\"", 2},
		{ARROW, "\"<-\"", 2},
		{INC, "\"++\"", 2},
		{DEC, "\"--\"", 2},
		{EQ, "\"==\"", 2},
		{NE, "\"!=\"", 2},
		{LE, "\"<=\"", 2},
		{GE, "\">=\"", 2},
		{DEFINE, "\":=\"", 2},
		{ELLIPSIS, "\"...\"", 3},
		{EOF, "EOF", 0},
		{COMMENT, "COMMENT", 0},
		{IDENT, "IDENT", 0},
		{INT, "INT", 0},
		{FLOAT, "FLOAT", 0},
		{IMAG, "IMAG", 0},
		{CHAR, "CHAR", 0},
		{STRING, "STRING", 0},
		{ILLEGAL, "ILLEGAL", 0},
	}
}

func isKind(k uint) bool {
	for _, e := range kindTable() {
		if e.kind == k {
			return true
		}
	}
	return false
}

func isSpelling(s string) bool {
	for _, e := range kindTable() {
		if e.lit == s {
			return true
		}
	}
	return false
}

//verif:prop L06
func propKinds() {
	var s Scanner
	for _, e := range kindTable() {
		v.Ensures("the spelling of a kind", Token2Lit(e.kind) == e.lit)
		v.Ensures("the kind of a spelling", Lit2Token(e.lit) == e.kind)
		v.Ensures("the scanner's spelling", s.Ttol(e.kind) == e.lit)
		v.Ensures("the scanner's kind", s.Ltot(e.lit) == e.kind)
		v.Ensures("the length of a kind", TokenLen(e.kind) == e.n)
	}
}

//verif:prop L06
func propUnknownLit(lit string) {
	v.Requires("an unknown spelling", !isSpelling(lit))
	v.Ensures("an unknown spelling is illegal", Lit2Token(lit) == ILLEGAL)
}

//verif:prop L06
func propUnknownKind(k uint) {
	v.Requires("an unknown kind", !isKind(k))
	v.Ensures("no fixed length", TokenLen(k) == 0)
	var s string
	p, _ := v.Try(func() { s = Token2Lit(k) })
	v.Ensures("an unknown kind has no spelling", p || s == "")
}

//verif:prop L06
func propEnd(t Token) {
	v.Requires("a position in a file", t.Pos >= 0 && t.Pos < 1<<40)
	end := t.End()
	v.Ensures("the end of a token with text", v.Implies(t.Literal != "", end == t.Pos+token.Pos(len(t.Literal))))
	v.Ensures("the end of an operator", v.Implies(t.Literal == "", end == t.Pos+token.Pos(TokenLen(t.Kind))))
}
