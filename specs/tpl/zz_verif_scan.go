//go:build go1.18

package tpl

import (
	"go/token"
	"unicode"
	"unicode/utf8"

	"github.com/qiniu/text/zzverif/v"
)

// ---- the library: characters of a text, files

//verif:uf
func decRune(t string) rune { return 0 }

//verif:uf
func decWidth(t string) int { return 0 }

// The first character of t (its bytes are not ASCII): what DecodeRune gives,
// written so that its documented ranges are evident.
func runeOf(t string) rune {
	if r := decRune(t); r >= 0x80 && r <= unicode.MaxRune {
		return r
	}
	return utf8.RuneError
}

func widthOf(t string) int {
	if n := decWidth(t); n >= 1 && n <= len(t) {
		return n
	}
	return 1
}

//verif:model unicode/utf8.DecodeRune
//verif:opt scope=file
func modelDecodeRune(p []byte) (rune, int) {
	if len(p) == 0 {
		return utf8.RuneError, 0
	}
	if p[0] < 0x80 {
		return rune(p[0]), 1
	}
	t := string(p)
	return runeOf(t), widthOf(t)
}

//verif:uf
func fileBase(f *token.File) int { return 0 }

//verif:uf
func fileSize(f *token.File) int { return 0 }

// verifStart is where the token that is being scanned begins.
//
//verif:keeps G:github.com/qiniu/text/tpl.verifStart
var verifStart int

//verif:model (*go/token.File).Pos
//verif:opt scope=file
func modelFilePos(f *token.File, offs int) token.Pos {
	v.Requires("an offset in the file", f != nil && 0 <= offs && offs <= fileSize(f))
	verifStart = offs
	return token.Pos(fileBase(f) + offs)
}

//verif:model (*go/token.File).Offset
//verif:opt scope=file
func modelFileOffset(f *token.File, p token.Pos) int {
	v.Requires("a position in the file", f != nil && fileBase(f) <= int(p) && int(p) <= fileBase(f)+fileSize(f))
	return int(p) - fileBase(f)
}

//verif:model (*go/token.File).Size
//verif:opt scope=file
func modelFileSize(f *token.File) int { return fileSize(f) }

//verif:model (*go/token.File).Name
//verif:opt scope=file
func modelFileName(f *token.File) string {
	v.Requires("a file", f != nil)
	return v.Fresh[string]()
}

//verif:model path/filepath.Split
//verif:opt scope=file
func modelSplit(p string) (string, string) { return v.Fresh[string](), v.Fresh[string]() }

//verif:model (*go/token.File).AddLine
//verif:opt scope=file
func modelAddLine(f *token.File, offs int) { v.Requires("a file", f != nil) }

//verif:model (*github.com/qiniu/text/tpl.Scanner).error
//verif:opt scope=file
func modelScanError(s *Scanner, offs int, msg string) {
	v.Assert("L04: an error lies in its item", verifStart <= offs && offs <= s.offset)
	s.ErrorCount++
}

// ---- the text

// chr: the character at an offset, -1 at the end.
func chr(t string, o int) rune {
	if o >= len(t) {
		return -1
	}
	if t[o] < 0x80 {
		return rune(t[o])
	}
	return runeOf(t[o:])
}

// byt: the byte at an offset, -1 at the end.
func byt(t string, o int) int {
	if o >= len(t) {
		return -1
	}
	return int(t[o])
}

func wid(t string, o int) int {
	if o >= len(t) {
		return 0
	}
	if t[o] < 0x80 {
		return 1
	}
	return widthOf(t[o:])
}

// bad: a character that may not be there.
func bad(t string, o int) bool {
	if o >= len(t) {
		return false
	}
	if t[o] < 0x80 {
		return t[o] == 0
	}
	return runeOf(t[o:]) == utf8.RuneError && widthOf(t[o:]) == 1 || runeOf(t[o:]) == 0xFEFF && o > 0
}

// ahead: the number of bad characters after the one at o.
//
//verif:spec
func ahead(t string, o int) int {
	if o >= len(t) {
		return 0
	}
	n := o + wid(t, o)
	if bad(t, n) {
		return 1 + ahead(t, n)
	}
	return ahead(t, n)
}

func letter(ch rune) bool {
	return 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z' || ch == '_' || ch >= 0x80 && unicode.IsLetter(ch)
}

func digit(ch rune) bool {
	return '0' <= ch && ch <= '9' || ch >= 0x80 && unicode.IsDigit(ch)
}

func val(ch int) int {
	switch {
	case '0' <= ch && ch <= '9':
		return ch - '0'
	case 'a' <= ch && ch <= 'f':
		return ch - 'a' + 10
	case 'A' <= ch && ch <= 'F':
		return ch - 'A' + 10
	}
	return 16
}

// identEnd: the end of a run of letters and digits.
//
//verif:spec
func identEnd(t string, o int) int {
	if c := chr(t, o); letter(c) || digit(c) {
		return identEnd(t, o+wid(t, o))
	}
	return o
}

// digitsEnd: the end of a run of digits of a base.
//
//verif:spec
func digitsEnd(t string, o, base int) int {
	if val(byt(t, o)) < base {
		return digitsEnd(t, o+1, base)
	}
	return o
}

// blankEnd: the end of white space.
//
//verif:spec
func blankEnd(t string, o int, stop bool) int {
	if c := byt(t, o); c == ' ' || c == '\t' || c == '\r' || c == '\n' && !stop {
		return blankEnd(t, o+1, stop)
	}
	return o
}

// at: the scanner is at an offset of its text.
func at(s *Scanner, t string, o int) bool {
	return s.offset == o && 0 <= o && o <= len(t) && s.ch == chr(t, o) && s.rdOffset == o+wid(t, o)
}

func sized(s *Scanner) bool {
	return s != nil && s.file != nil && fileSize(s.file) == len(s.src) && 0 <= fileBase(s.file)
}

func moves(s *Scanner) {
	v.Mod(&s.ch)
	v.Mod(&s.offset)
	v.Mod(&s.rdOffset)
	v.Mod(&s.lineOffset)
	v.Mod(&s.ErrorCount)
}

// begin: the scanner stands somewhere in its text.
func begin(s *Scanner) (t string, o, errs int) {
	v.Requires("a scanner in its text", sized(s) && at(s, string(s.src), s.offset))
	v.Requires("a token has begun", verifStart <= s.offset)
	moves(s)
	return string(s.src), s.offset, s.ErrorCount + ahead(string(s.src), s.offset)
}

// reported: the errors found since begin, but for bad characters.
func reported(s *Scanner, t string, o int, errs int) int { return s.ErrorCount + ahead(t, o) - errs }

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no
//verif:lemma (*Scanner).next
func propNext(s *Scanner) {
	v.Requires("a scanner in its text", sized(s) && 0 <= s.rdOffset && s.rdOffset <= len(s.src))
	v.Requires("a token has begun", verifStart <= s.rdOffset)
	moves(s)
	t, p, o, errs := string(s.src), s.offset, s.rdOffset, s.ErrorCount
	was := at(s, t, p)
	s.next()
	v.Ensures("the next character", at(s, t, o))
	v.Ensures("the characters ahead", !was || ahead(t, p) == b2i(bad(t, o))+ahead(t, o))
	v.Ensures("bad characters ahead", !was || p == len(t) || anyBad(t, p) == (bad(t, o) || anyBad(t, o)))
	v.Ensures("L04: a bad character is reported", bad(t, o) && s.ErrorCount == errs+1 || !bad(t, o) && s.ErrorCount == errs)
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no
//verif:lemma isLetter
func propIsLetter(ch rune) bool {
	r := isLetter(ch)
	v.Ensures("letters", r == letter(ch))
	return r
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no
//verif:lemma isDigit
func propIsDigit(ch rune) bool {
	r := isDigit(ch)
	v.Ensures("digits", r == digit(ch))
	return r
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no
//verif:lemma digitVal
func propDigitVal(ch rune) int {
	r := digitVal(ch)
	v.Ensures("digit values", r == val(int(ch)))
	return r
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).scanIdentifier
func propScanIdentifier(s *Scanner) string {
	t, o, errs := begin(s)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return identEnd(t, s.offset) == identEnd(t, o) })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 })
	v.Decr(func() int { return len(t) - s.offset })
	lit := s.scanIdentifier()
	end := identEnd(t, o)
	v.Ensures("the longest run of letters and digits", at(s, t, end) && o <= end)
	v.Ensures("none follows", !letter(chr(t, end)) && !digit(chr(t, end)))
	v.Ensures("L04: no error", reported(s, t, end, errs) == 0)
	v.Ensures("its text", v.Same(lit, t[o:end]))
	return lit
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).scanMantissa
func propScanMantissa(s *Scanner, base int) {
	v.Requires("a base", base <= 16)
	t, o, errs := begin(s)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return digitsEnd(t, s.offset, base) == digitsEnd(t, o, base) })
	v.Inv(func() bool { return base > 10 || digitsEnd(t, s.offset, 10) == digitsEnd(t, o, 10) })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 })
	v.Decr(func() int { return len(t) - s.offset })
	s.scanMantissa(base)
	end := digitsEnd(t, o, base)
	v.Ensures("the longest run of digits", at(s, t, end) && o <= end)
	v.Ensures("none follows", val(byt(t, end)) >= base)
	v.Ensures("which are decimal digits", base > 10 || digitsEnd(t, end, 10) == digitsEnd(t, o, 10))
	v.Ensures("L04: no error", reported(s, t, end, errs) == 0)
}

// anyBad: there is a bad character after o.
//
//verif:spec
func anyBad(t string, o int) bool {
	if o >= len(t) {
		return false
	}
	n := o + wid(t, o)
	return bad(t, n) || anyBad(t, n)
}

// honest: what was reported since begin was there.
func honest(s *Scanner, t string, o, was int) bool {
	return s.ErrorCount >= was && (s.ErrorCount == was || anyBad(t, o)) && (!anyBad(t, s.offset) || anyBad(t, o))
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).skipWhitespace
func propSkipWhitespace(s *Scanner) {
	t, o, errs := begin(s)
	semi, was := s.insertSemi, s.ErrorCount
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return blankEnd(t, s.offset, semi) == blankEnd(t, o, semi) })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 })
	v.Inv(func() bool { return honest(s, t, o, was) })
	v.Decr(func() int { return len(t) - s.offset })
	s.skipWhitespace()
	end := blankEnd(t, o, semi)
	v.Ensures("the end of the white space", at(s, t, end) && o <= end)
	v.Ensures("L04: no error", reported(s, t, end, errs) == 0)
	v.Ensures("L04: only bad characters", honest(s, t, o, was))
	c := chr(t, end)
	v.Ensures("something else follows", c != ' ' && c != '\t' && c != '\r' && (c != '\n' || semi))
}

//verif:prop L01,L02,L05
//verif:opt init=no opaque=ahead,anyBad
func propSwitch2(s *Scanner, tok0, tok1 uint) {
	t, o, errs := begin(s)
	tok := s.switch2(tok0, tok1)
	if chr(t, o) == '=' {
		v.Ensures("with =", tok == tok1 && at(s, t, o+1))
	} else {
		v.Ensures("without", tok == tok0 && at(s, t, o))
	}
	v.Ensures("L04: no error", reported(s, t, s.offset, errs) == 0)
}

//verif:prop L01,L02,L05
//verif:opt init=no opaque=ahead,anyBad
func propSwitch3(s *Scanner, tok0, tok1 uint, ch2 rune, tok2 uint) {
	v.Requires("an ASCII character", ' ' < ch2 && ch2 < 0x80 && ch2 != '=')
	t, o, errs := begin(s)
	tok := s.switch3(tok0, tok1, ch2, tok2)
	switch chr(t, o) {
	case '=':
		v.Ensures("with =", tok == tok1 && at(s, t, o+1))
	case ch2:
		v.Ensures("doubled", tok == tok2 && at(s, t, o+1))
	default:
		v.Ensures("without", tok == tok0 && at(s, t, o))
	}
	v.Ensures("L04: no error", reported(s, t, s.offset, errs) == 0)
}

//verif:prop L01,L02,L05
//verif:opt init=no opaque=ahead,anyBad
func propSwitch4(s *Scanner, tok0, tok1 uint, ch2 rune, tok2, tok3 uint) {
	v.Requires("an ASCII character", ' ' < ch2 && ch2 < 0x80 && ch2 != '=')
	t, o, errs := begin(s)
	tok := s.switch4(tok0, tok1, ch2, tok2, tok3)
	switch c := chr(t, o); {
	case c == '=':
		v.Ensures("with =", tok == tok1 && at(s, t, o+1))
	case c == ch2 && chr(t, o+1) == '=':
		v.Ensures("doubled, with =", tok == tok3 && at(s, t, o+2))
	case c == ch2:
		v.Ensures("doubled", tok == tok2 && at(s, t, o+1))
	default:
		v.Ensures("without", tok == tok0 && at(s, t, o))
	}
	v.Ensures("L04: no error", reported(s, t, s.offset, errs) == 0)
}

// ---- numbers

// fraction: exponent and imaginary unit, from where they may begin.
func fraction(t string, p int, kind uint) (k uint, end int, wrong bool) {
	if c := byt(t, p); c == 'e' || c == 'E' {
		kind = FLOAT
		p++
		if c := byt(t, p); c == '+' || c == '-' {
			p++
		}
		wrong = val(byt(t, p)) >= 10
		p = digitsEnd(t, p, 10)
	}
	if byt(t, p) == 'i' {
		return IMAG, p + 1, wrong
	}
	return kind, p, wrong
}

// number: kind and end of the number at o, and whether it is ill-formed.
func number(t string, o int) (kind uint, end int, wrong bool) {
	if c := byt(t, o+1); byt(t, o) == '0' && (c == 'x' || c == 'X') {
		end = digitsEnd(t, o+2, 16)
		return INT, end, end == o+2
	}
	p := digitsEnd(t, o, 10)
	c := byt(t, p)
	if c == '.' {
		return fraction(t, digitsEnd(t, p+1, 10), FLOAT)
	}
	if c == 'e' || c == 'E' || c == 'i' {
		return fraction(t, p, INT)
	}
	return INT, p, byt(t, o) == '0' && digitsEnd(t, o+1, 8) != p
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad depth=1
//verif:lemma (*Scanner).scanNumber
func propScanNumber(s *Scanner, point bool) (uint, string) {
	t, o, errs := begin(s)
	c := chr(t, o)
	v.Requires("a digit", '0' <= c && c <= '9')
	v.Requires("a decimal point before it", !point || o > 0 && verifStart < o && t[o-1] == '.')
	v.Split(point)
	v.Split(c == '0')
	v.Split(byt(t, digitsEnd(t, o, 10)) == '.')
	kind, lit := s.scanNumber(point)
	var k uint
	var end int
	var wrong bool
	first := o
	if point {
		first = o - 1
		k, end, wrong = fraction(t, digitsEnd(t, o, 10), FLOAT)
	} else {
		k, end, wrong = number(t, o)
	}
	v.Ensures("its kind", kind == k)
	v.Ensures("a number", kind == INT || kind == FLOAT || kind == IMAG)
	v.Ensures("the longest number", at(s, t, end))
	v.Ensures("progress", s.offset > o)
	v.Ensures("its text", v.Same(lit, t[first:end]))
	v.Ensures("L04: an ill-formed number is reported", reported(s, t, end, errs) == b2i(wrong))
	return kind, lit
}

// ---- bad characters ahead: a lemma by induction over the text

// aheadFacts proves nothing itself: its contract does, one character at a
// time.
func aheadFacts(t string, o int) {
	if o < len(t) {
		aheadFacts(t, o+wid(t, o))
	}
}

//verif:prop L04
//verif:opt init=no scope=recursive
//verif:lemma aheadFacts
func propAheadFacts(t string, o int) {
	v.Requires("an offset", 0 <= o && o <= len(t))
	v.Assert("shorter", o >= len(t) || wid(t, o) >= 1)
	aheadFacts(t, o)
	v.Ensures("a number", ahead(t, o) >= 0)
	v.Ensures("none when there is none", ahead(t, o) == 0 || anyBad(t, o))
}

// ---- escapes

// escEnd: behind at most n digits of a base.
//
//verif:spec
func escEnd(t string, o, n, base int) int {
	if n == 0 || val(byt(t, o)) >= base {
		return o
	}
	return escEnd(t, o+1, n-1, base)
}

// escVal: the value of the n digits of a base, behind those of value x; -1
// when they are not there.
//
//verif:spec
func escVal(t string, o, n, base, x int) int {
	if n == 0 {
		return x
	}
	d := val(byt(t, o))
	if d >= base {
		return -1
	}
	return escVal(t, o+1, n-1, base, x*base+d)
}

// point: a value that a character can have.
func point(x, max int) bool { return 0 <= x && x <= max && !(0xD800 <= x && x < 0xE000) }

// escape: where the escape ends whose letter is at o, and whether it is one.
func escape(t string, o int, quote rune) (end int, ok bool) {
	switch c := chr(t, o); {
	case c == 'a' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 'v' || c == '\\' || c == quote:
		return o + 1, true
	case '0' <= c && c <= '7':
		return escEnd(t, o, 3, 8), point(escVal(t, o, 3, 8, 0), 255)
	case c == 'x':
		return escEnd(t, o+1, 2, 16), point(escVal(t, o+1, 2, 16, 0), 255)
	case c == 'u':
		return escEnd(t, o+1, 4, 16), point(escVal(t, o+1, 4, 16, 0), unicode.MaxRune)
	case c == 'U':
		return escEnd(t, o+1, 8, 16), point(escVal(t, o+1, 8, 16, 0), unicode.MaxRune)
	}
	return o, false
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad depth=9
//verif:lemma (*Scanner).scanEscape
func propScanEscape(s *Scanner, quote rune) bool {
	v.Requires("a quote", quote == '"' || quote == '\'')
	t, o, errs := begin(s)
	v.Split('0' <= chr(t, o) && chr(t, o) <= '7')
	v.Split(chr(t, o) == 'U')
	v.Split(chr(t, o) == 'u')
	ok := s.scanEscape(quote)
	end, good := escape(t, o, quote)
	v.Ensures("the end of the escape", at(s, t, end) && o <= end)
	v.Ensures("L04: whether it is one", ok == good)
	v.Ensures("L04: reported unless it is one", reported(s, t, end, errs) == b2i(!good))
	return ok
}

// ---- literals

// litEnd: the end of a literal, from within.
//
//verif:spec
func litEnd(t string, o int, quote rune) int {
	switch c := chr(t, o); {
	case c == '\n' || c < 0:
		return o
	case c == quote:
		return o + 1
	case c == '\\':
		end, _ := escape(t, o+1, quote)
		return litEnd(t, end, quote)
	}
	return litEnd(t, o+wid(t, o), quote)
}

// strBad: a string is not well-formed from here on.
//
//verif:spec
func strBad(t string, o int) bool {
	switch c := chr(t, o); {
	case c == '\n' || c < 0:
		return true
	case c == '"':
		return false
	case c == '\\':
		end, ok := escape(t, o+1, '"')
		return !ok || strBad(t, end)
	}
	return strBad(t, o+wid(t, o))
}

// runeBad: a character literal is not well-formed, of which n characters
// have been seen.
//
//verif:spec
func runeBad(t string, o, n int) bool {
	switch c := chr(t, o); {
	case c == '\n' || c < 0:
		return true
	case c == '\'':
		return n != 1
	case c == '\\':
		end, ok := escape(t, o+1, '\'')
		return !ok || runeBad(t, end, n+1)
	}
	return runeBad(t, o+wid(t, o), n+1)
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,escape
//verif:lemma (*Scanner).scanString
func propScanString(s *Scanner) string {
	t, o, errs := begin(s)
	v.Requires("a quote before it", o > 0 && verifStart < o)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return litEnd(t, s.offset, '"') == litEnd(t, o, '"') })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) >= 0 })
	v.Inv(func() bool { return strBad(t, o) == (reported(s, t, s.offset, errs) > 0 || strBad(t, s.offset)) })
	v.Decr(func() int { return len(t) - s.offset })
	lit := s.scanString()
	end := litEnd(t, o, '"')
	v.Ensures("the end of the string", at(s, t, end) && o <= end)
	v.Ensures("L04: an ill-formed string is reported", reported(s, t, end, errs) >= 0 && strBad(t, o) == (reported(s, t, end, errs) > 0))
	v.Ensures("its text", v.Same(lit, t[o-1:end]))
	return lit
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,escape
//verif:lemma (*Scanner).scanRune
func propScanRune(s *Scanner) string {
	t, o, errs := begin(s)
	v.Requires("a quote before it", o > 0 && verifStart < o)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return litEnd(t, s.offset, '\'') == litEnd(t, o, '\'') })
	v.Inv(func(valid bool) bool {
		return reported(s, t, s.offset, errs) >= 0 && valid == (reported(s, t, s.offset, errs) == 0)
	})
	v.Inv(func(n int) bool {
		return n >= 0 && runeBad(t, o, 0) == (reported(s, t, s.offset, errs) > 0 || runeBad(t, s.offset, n))
	})
	v.Decr(func() int { return len(t) - s.offset })
	lit := s.scanRune()
	end := litEnd(t, o, '\'')
	v.Ensures("the end of the literal", at(s, t, end) && o <= end)
	v.Ensures("L04: an ill-formed literal is reported", reported(s, t, end, errs) >= 0 && runeBad(t, o, 0) == (reported(s, t, end, errs) > 0))
	v.Ensures("its text", v.Same(lit, t[o-1:end]))
	return lit
}

// ---- raw strings

// rawEnd: the end of a raw string, from within.
//
//verif:spec
func rawEnd(t string, o int) int {
	c := chr(t, o)
	if c < 0 {
		return o
	}
	if c == '`' {
		return o + 1
	}
	return rawEnd(t, o+wid(t, o))
}

// rawOpen: it is not terminated.
//
//verif:spec
func rawOpen(t string, o int) bool {
	c := chr(t, o)
	if c < 0 {
		return true
	}
	return c != '`' && rawOpen(t, o+wid(t, o))
}

// rawCR: there is a carriage return in it.
//
//verif:spec
func rawCR(t string, o int) bool {
	c := chr(t, o)
	if c < 0 || c == '`' {
		return false
	}
	return c == '\r' || rawCR(t, o+wid(t, o))
}

//verif:uf
func stripped(t string) string { return "" }

//verif:model github.com/qiniu/text/tpl.stripCR
//verif:opt scope=file
func modelStripCR(b []byte) []byte { return []byte(stripped(string(b))) }

// rank: the characters but carriage returns among the first n of t.
//
//verif:spec
func rank(t string, n int) int {
	if n <= 0 || n > len(t) {
		return 0
	}
	if t[n-1] == '\r' {
		return rank(t, n-1)
	}
	return rank(t, n-1) + 1
}

// propStripCR: the text without its carriage returns, in the order it had: k
// is the place of any other character.
//
//verif:prop L01
//verif:opt init=no nomodel=modelStripCR
func propStripCR(b []byte, k int) []byte {
	v.Requires("a character that stays", 0 <= k && k < len(b) && b[k] != '\r')
	t := string(b)
	v.Inv(func(i, n int) bool { return 0 <= i && i <= n && n <= len(t) && i == rank(t, n) })
	v.Inv(func(i, n int) bool { return k >= n || 0 <= rank(t, k) && rank(t, k) < i && i <= n })
	v.Inv(func(i, n int, c []byte) bool { return k >= n || i <= n && rank(t, k) < i && i <= len(c) && c[rank(t, k)] == t[k] })
	c := stripCR(b)
	v.Ensures("their number", len(c) == rank(t, len(t)))
	v.Ensures("each character", 0 <= rank(t, k) && rank(t, k) < len(c) && c[rank(t, k)] == t[k])
	v.Ensures("the source stays", v.Same(string(b), t))
	return c
}

func textOf(t string, from, to int, cr bool) string {
	if cr {
		return stripped(t[from:to])
	}
	return t[from:to]
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).scanRawString
func propScanRawString(s *Scanner) string {
	t, o, errs := begin(s)
	v.Requires("a quote before it", o > 0 && verifStart < o)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return rawEnd(t, s.offset) == rawEnd(t, o) && rawOpen(t, s.offset) == rawOpen(t, o) })
	v.Inv(func(cr bool) bool { return rawCR(t, o) == (cr || rawCR(t, s.offset)) })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 })
	v.Decr(func() int { return len(t) - s.offset })
	lit := s.scanRawString()
	end := rawEnd(t, o)
	v.Ensures("the end of the raw string", at(s, t, end) && o <= end)
	v.Ensures("L04: an unterminated one is reported", reported(s, t, end, errs) == b2i(rawOpen(t, o)))
	v.Ensures("its text", v.Same(lit, textOf(t, o-1, end, rawCR(t, o))))
	return lit
}

// ---- comments

// lineEnd: the end of the line.
//
//verif:spec
func lineEnd(t string, o int) int {
	if c := chr(t, o); c == '\n' || c < 0 {
		return o
	}
	return lineEnd(t, o+wid(t, o))
}

// lineCR: there is a carriage return in the rest of the line.
//
//verif:spec
func lineCR(t string, o int) bool {
	c := chr(t, o)
	if c == '\n' || c < 0 {
		return false
	}
	return c == '\r' || lineCR(t, o+wid(t, o))
}

// blockEnd: the end of a block comment, from within.
//
//verif:spec
func blockEnd(t string, o int) int {
	c := chr(t, o)
	if c < 0 {
		return o
	}
	if c == '*' && chr(t, o+1) == '/' {
		return o + 2
	}
	return blockEnd(t, o+wid(t, o))
}

// blockOpen: it is not terminated.
//
//verif:spec
func blockOpen(t string, o int) bool {
	c := chr(t, o)
	return c < 0 || !(c == '*' && chr(t, o+1) == '/') && blockOpen(t, o+wid(t, o))
}

// blockCR: there is a carriage return in it.
//
//verif:spec
func blockCR(t string, o int) bool {
	c := chr(t, o)
	if c < 0 || c == '*' && chr(t, o+1) == '/' {
		return false
	}
	return c == '\r' || blockCR(t, o+wid(t, o))
}

// blockNL: there is a newline in it.
//
//verif:spec
func blockNL(t string, o int) bool {
	c := chr(t, o)
	if c < 0 || c == '*' && chr(t, o+1) == '/' {
		return false
	}
	return c == '\n' || blockNL(t, o+wid(t, o))
}

// comment: where the comment ends whose second character is at o, whether it
// is open, and whether there is a carriage return in it.
func comment(t string, o int) (end int, open, cr bool) {
	if chr(t, o) == '/' {
		return lineEnd(t, o+1), false, lineCR(t, o+1)
	}
	return blockEnd(t, o+1), blockOpen(t, o+1), blockCR(t, o+1)
}

//verif:model (*github.com/qiniu/text/tpl.Scanner).interpretLineComment
//verif:opt scope=file
func modelLineComment(s *Scanner, text []byte) {}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).scanComment
func propScanComment(s *Scanner) string {
	t, o, errs := begin(s)
	was := s.ErrorCount
	v.Requires("a slash before it", o > 0 && verifStart < o)
	v.Requires("the second character", chr(t, o) == '/' || chr(t, o) == '*')
	v.Split(chr(t, o) == '/')
	v.Inv(func() bool { return at(s, t, s.offset) && o < s.offset })
	v.Inv(func() bool { return lineEnd(t, s.offset) == lineEnd(t, o+1) })
	v.Inv(func(cr bool) bool { return lineCR(t, o+1) == (cr || lineCR(t, s.offset)) })
	v.Inv(func() bool { return blockEnd(t, s.offset) == blockEnd(t, o+1) })
	v.Inv(func() bool { return blockOpen(t, s.offset) == blockOpen(t, o+1) })
	v.Inv(func(cr bool) bool { return blockCR(t, o+1) == (cr || blockCR(t, s.offset)) })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 })
	v.Inv(func() bool { return honest(s, t, o, was) })
	v.Decr(func() int { return len(t) - s.offset })
	lit := s.scanComment()
	end, open, cr := comment(t, o)
	v.Ensures("the end of the comment", at(s, t, end) && o < end)
	v.Ensures("L04: an open comment is reported", reported(s, t, end, errs) == b2i(open))
	v.Ensures("L04: only bad characters", !anyBad(t, end) || anyBad(t, o))
	v.Ensures("its text", v.Same(lit, textOf(t, o-1, end, cr)))
	return lit
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).scanSharpComment
func propScanSharpComment(s *Scanner) string {
	t, o, errs := begin(s)
	was := s.ErrorCount
	v.Requires("a # before it", o > 0 && verifStart < o)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return lineEnd(t, s.offset) == lineEnd(t, o) })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 })
	v.Inv(func() bool { return honest(s, t, o, was) })
	v.Decr(func() int { return len(t) - s.offset })
	lit := s.scanSharpComment()
	end := lineEnd(t, o)
	v.Ensures("the end of the comment", at(s, t, end) && o <= end)
	v.Ensures("L04: no error", reported(s, t, end, errs) == 0)
	v.Ensures("L04: only bad characters", !anyBad(t, end) || anyBad(t, o))
	v.Ensures("its text", v.Same(lit, t[o-1:end]))
	return lit
}

// lineAhead: after the slash before o, there are only comments up to the end
// of the line.
//
//verif:spec
func lineAhead(t string, o int) bool {
	c := chr(t, o)
	return c == '/' || c == '*' && (blockNL(t, o+1) || lineBehind(t, blockEnd(t, o+1)))
}

// lineBehind: the same, after a comment that ends at o.
//
//verif:spec
func lineBehind(t string, o int) bool {
	p := blankEnd(t, o, true)
	c := chr(t, p)
	return c < 0 || c == '\n' || c == '#' || c == '/' && lineAhead(t, p+1)
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
//verif:lemma (*Scanner).findLineEnd
func propFindLineEnd(s *Scanner) bool {
	t, o, _ := begin(s)
	was := s.ErrorCount
	v.Requires("a slash before it", o > 0 && verifStart < o && t[o-1] == '/')
	v.Requires("a comment", chr(t, o) == '/' || chr(t, o) == '*')
	v.Requires("semicolons are inserted", s.insertSemi)
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset })
	v.Inv(func() bool { return honest(s, t, o, was) })
	v.Inv(func() bool { return lineAhead(t, s.offset) == lineAhead(t, o) })
	v.Inv(func() bool { return (blockNL(t, s.offset) || lineBehind(t, blockEnd(t, s.offset))) == lineAhead(t, o) })
	v.Decr(func() int { return len(t) - s.offset })
	r := s.findLineEnd()
	v.Ensures("the scanner is where it was", at(s, t, o))
	v.Ensures("whether the line ends", r == lineAhead(t, o))
	v.Ensures("L04: only bad characters", s.ErrorCount >= was && (s.ErrorCount == was || anyBad(t, o)))
	return r
}

// ---- tokens

// comments: a comment that starts with a slash begins at o.
func slashes(t string, o int) bool {
	return chr(t, o) == '/' && (chr(t, o+1) == '/' || chr(t, o+1) == '*')
}

// tokAt: where the next token begins, when comments are skipped.
//
//verif:spec
func tokAt(t string, o int, semi bool) int {
	p := blankEnd(t, o, semi)
	if slashes(t, p) && !(semi && lineAhead(t, p+1)) {
		end, _, _ := comment(t, p+1)
		return tokAt(t, end, false)
	}
	if chr(t, p) == '#' && !semi {
		return tokAt(t, lineEnd(t, p+1), false)
	}
	return p
}

// semiAt: whether a line that ends there inserts a semicolon.
//
//verif:spec
func semiAt(t string, o int, semi bool) bool {
	p := blankEnd(t, o, semi)
	if slashes(t, p) && !(semi && lineAhead(t, p+1)) {
		end, _, _ := comment(t, p+1)
		return semiAt(t, end, false)
	}
	if chr(t, p) == '#' && !semi {
		return semiAt(t, lineEnd(t, p+1), false)
	}
	return semi
}

// skipsOpen: a comment that is not terminated is skipped.
//
//verif:spec
func skipsOpen(t string, o int, semi bool) bool {
	p := blankEnd(t, o, semi)
	if slashes(t, p) && !(semi && lineAhead(t, p+1)) {
		end, open, _ := comment(t, p+1)
		return open || skipsOpen(t, end, false)
	}
	return chr(t, p) == '#' && !semi && skipsOpen(t, lineEnd(t, p+1), false)
}

// operator: the longest operator at o, and its length; 0 when there is none.
func operator(t string, o int) (kind uint, n int) {
	a, b, c := byt(t, o), byt(t, o+1), byt(t, o+2)
	switch a {
	case '<':
		return shift(b, c, '<', LT, LE, SHL, SHL_ASSIGN, b == '-')
	case '>':
		return shift(b, c, '>', GT, GE, SHR, SHR_ASSIGN, false)
	case '&':
		if b == '^' {
			return assign(c, AND_NOT, AND_NOT_ASSIGN, 2)
		}
		return double(b, '&', AND, AND_ASSIGN, LAND)
	case '.':
		if b == '.' && c == '.' {
			return ELLIPSIS, 3
		}
		return PERIOD, 1
	case '|':
		return double(b, '|', OR, OR_ASSIGN, LOR)
	case '+':
		return double(b, '+', ADD, ADD_ASSIGN, INC)
	case '-':
		return double(b, '-', SUB, SUB_ASSIGN, DEC)
	case '*':
		return assign(b, MUL, MUL_ASSIGN, 1)
	case '/':
		return assign(b, QUO, QUO_ASSIGN, 1)
	case '%':
		return assign(b, REM, REM_ASSIGN, 1)
	case '^':
		return assign(b, XOR, XOR_ASSIGN, 1)
	case '=':
		return assign(b, ASSIGN, EQ, 1)
	case '!':
		return assign(b, NOT, NE, 1)
	case ':':
		return assign(b, COLON, DEFINE, 1)
	case '(', '[', '{', ',', ')', ']', '}', ';', '?', '~', '@':
		return uint(a), 1
	}
	return ILLEGAL, 0
}

// assign: an operator of n characters, or that with = after it.
func assign(b int, op, with uint, n int) (uint, int) {
	if b == '=' {
		return with, n + 1
	}
	return op, n
}

// double: an operator, that with = after it, or doubled.
func double(b, again int, op, with, twice uint) (uint, int) {
	if b == again {
		return twice, 2
	}
	return assign(b, op, with, 1)
}

// shift: like double, which can have = after it, or an arrow.
func shift(b, c, again int, op, with, twice, twiceWith uint, arrow bool) (uint, int) {
	if b == again {
		return assign(c, twice, twiceWith, 2)
	}
	if arrow {
		return ARROW, 2
	}
	return assign(b, op, with, 1)
}

// ends: a line may end after a token of the kind.
func ends(kind uint) bool {
	switch kind {
	case IDENT, INT, FLOAT, IMAG, CHAR, STRING, RPAREN, RBRACK, RBRACE, INC, DEC:
		return true
	}
	return false
}

// scanning: what every contract of Scan starts from. The next token begins
// at q, sm says whether the end of the line there inserts a semicolon, and
// skipped whether a comment that is not terminated is passed on the way.
func scanning(s *Scanner) (t string, o, errs, q int, semi, sm, skipped bool) {
	t, o, errs = begin(s)
	v.Mod(&s.insertSemi)
	v.Mod(&verifStart)
	semi = s.insertSemi
	wants, comments := s.mode&InsertSemis != 0, s.mode&ScanComments != 0
	v.Requires("semicolons are wanted", wants || !semi)
	q, sm, skipped = tokAt(t, o, semi), semiAt(t, o, semi), skipsOpen(t, o, semi)
	if comments {
		q, sm, skipped = blankEnd(t, o, semi), semi, false
	}
	v.Inv(func() bool { return at(s, t, s.offset) && o <= s.offset && verifStart <= s.offset })
	v.Inv(func() bool { return comments || tokAt(t, s.offset, s.insertSemi) == q })
	v.Inv(func() bool { return comments || semiAt(t, s.offset, s.insertSemi) == sm })
	v.Inv(func() bool { return !comments || s.offset == o && s.insertSemi == semi })
	v.Inv(func() bool { return wants || !s.insertSemi })
	v.Inv(func() bool { return o < s.offset || s.insertSemi == semi })
	v.Inv(func() bool { return reported(s, t, s.offset, errs) >= 0 })
	v.Inv(func() bool { return !anyBad(t, s.offset) || anyBad(t, o) })
	v.Inv(func() bool {
		return comments || skipsOpen(t, s.offset, s.insertSemi) == skipped || reported(s, t, s.offset, errs) > 0 && skipped
	})
	v.Inv(func() bool { return reported(s, t, s.offset, errs) == 0 || anyBad(t, o) || skipped })
	v.Decr(func() int { return len(t) - s.offset })
	return
}

// scanned: what holds of the token, given its kind, end and text.
func scanned(s *Scanner, tok Token, t string, o, errs, q int, semi, sm, skipped bool, kind uint, end int, text string, wrong bool) {
	c := chr(t, q)
	v.Ensures("L01,L02,L03: it begins after white space and comments", tok.Pos == token.Pos(fileBase(s.file)+q))
	v.Ensures("L01,L04: the next token", verifStart == q)
	v.Ensures("L01,L02,L03: the kind of the longest token", tok.Kind == kind)
	v.Ensures("L01,L02: its end", at(s, t, end))
	v.Ensures("L01,L02,L03: its text", v.Same(tok.Literal, text))
	v.Ensures("L03: after it", s.insertSemi == (s.mode&InsertSemis != 0 && (ends(kind) || kind == ILLEGAL && sm)))
	v.Ensures("L05: at the end of the source", (tok.Kind == EOF) == (c < 0 && !sm))
	v.Ensures("L05: the end stays", tok.Kind != EOF || q == len(t) && at(s, t, q) && !s.insertSemi)
	v.Ensures("L05: progress", tok.Kind == EOF || 2*s.offset-b2i(s.insertSemi) > 2*o-b2i(semi))
	reports := reported(s, t, s.offset, errs)
	v.Ensures("L04: bad characters are reported", reports >= 0)
	v.Ensures("L04: a malformed item is reported", reports > 0 || !wrong && !skipped)
	v.Ensures("L04: nothing else is", reports == 0 || wrong || skipped || anyBad(t, o))
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanName(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a letter", letter(c))
	tok := s.Scan()
	end := identEnd(t, q)
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, IDENT, end, t[q:end], false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanDigits(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a digit", '0' <= c && c <= '9')
	tok := s.Scan()
	kind, end, wrong := number(t, q)
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, kind, end, t[q:end], wrong)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanPoint(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a point", c == '.' && '0' <= chr(t, q+1) && chr(t, q+1) <= '9')
	tok := s.Scan()
	kind, end, wrong := fraction(t, digitsEnd(t, q+1, 10), FLOAT)
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, kind, end, t[q:end], wrong)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanQuoted(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a quote", c == '"')
	tok := s.Scan()
	end := litEnd(t, q+1, '"')
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, STRING, end, t[q:end], strBad(t, q+1))
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanChar(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a quote", c == '\'')
	tok := s.Scan()
	end := litEnd(t, q+1, '\'')
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, CHAR, end, t[q:end], runeBad(t, q+1, 0))
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanRaw(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a back quote", c == '`')
	tok := s.Scan()
	end := rawEnd(t, q+1)
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, STRING, end, textOf(t, q, end, rawCR(t, q+1)), rawOpen(t, q+1))
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanLineEnd(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("the line ends", sm && (c == '\n' || c < 0 || c == '#' || slashes(t, q) && lineAhead(t, q+1)))
	tok := s.Scan()
	end := q
	if c == '\n' {
		end = q + 1
	}
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, SEMICOLON, end, "\n", false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanEOF(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("the end of the source", !sm && c < 0)
	tok := s.Scan()
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, EOF, q, "", false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanSlashes(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a comment", slashes(t, q) && !(sm && lineAhead(t, q+1)))
	tok := s.Scan()
	v.Ensures("comments are wanted", s.mode&ScanComments != 0)
	end, open, cr := comment(t, q+1)
	_ = c
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, COMMENT, end, textOf(t, q, end, cr), open)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanSharp(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a comment", c == '#' && !sm)
	tok := s.Scan()
	v.Ensures("comments are wanted", s.mode&ScanComments != 0)
	end := lineEnd(t, q+1)
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, COMMENT, end, t[q:end], false)
	return tok
}

// operand: something else than an operator begins at q.
func operand(t string, q int) bool {
	c := chr(t, q)
	return c <= ' ' || letter(c) || '0' <= c && c <= '9' || c == '"' || c == '\'' || c == '`' || c == '#' || slashes(t, q) ||
		c == '.' && '0' <= chr(t, q+1) && chr(t, q+1) <= '9'
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanBracket(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("a single character", !operand(t, q) && (c == '(' || c == '[' || c == '{' || c == ',' || c == ')' || c == ']' || c == '}' || c == ';' || c == '?' || c == '~' || c == '@' || c == '.'))
	tok := s.Scan()
	kind, n := operator(t, q)
	text := ""
	if kind == SEMICOLON {
		text = ";"
	}
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, kind, q+n, text, false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanArith(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("an operator", !operand(t, q) && (c == '*' || c == '/' || c == '%' || c == '^' || c == '=' || c == '!' || c == ':'))
	tok := s.Scan()
	kind, n := operator(t, q)
	text := ""
	if kind == SEMICOLON {
		text = ";"
	}
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, kind, q+n, text, false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanDouble(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("an operator", !operand(t, q) && (c == '|' || c == '+' || c == '-'))
	tok := s.Scan()
	kind, n := operator(t, q)
	text := ""
	if kind == SEMICOLON {
		text = ";"
	}
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, kind, q+n, text, false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanShift(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	v.Requires("an operator", !operand(t, q) && (c == '<' || c == '>' || c == '&'))
	tok := s.Scan()
	kind, n := operator(t, q)
	text := ""
	if kind == SEMICOLON {
		text = ";"
	}
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, kind, q+n, text, false)
	return tok
}

//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad,identEnd,digitsEnd,blankEnd,escape,litEnd,strBad,runeBad,rawEnd,rawOpen,rawCR,lineEnd,lineCR,blockEnd,blockOpen,blockCR,lineAhead,number,fraction
func propScanIllegal(s *Scanner) Token {
	t, o, errs, q, semi, sm, skipped := scanning(s)
	c := chr(t, q)
	_, n := operator(t, q)
	v.Requires("no operator", !operand(t, q) && n == 0 || 0 <= c && c <= ' ' && c != '\n')
	tok := s.Scan()
	scanned(s, tok, t, o, errs, q, semi, sm, skipped, ILLEGAL, q+wid(t, q), string(c), c != bom)
	return tok
}

// propScanCases: the contracts above speak about every text.
//
//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=blankEnd,lineAhead,tokAt,semiAt
func propScanCases(t string, q int, sm bool) {
	v.Requires("a position", 0 <= q && q <= len(t))
	c := chr(t, q)
	_, n := operator(t, q)
	v.Ensures("every text", letter(c) || '0' <= c && c <= '9' || c == '"' || c == '\'' || c == '`' ||
		c == '.' && '0' <= chr(t, q+1) && chr(t, q+1) <= '9' ||
		sm && (c == '\n' || c < 0 || c == '#' || slashes(t, q) && lineAhead(t, q+1)) ||
		!sm && c < 0 || slashes(t, q) && !(sm && lineAhead(t, q+1)) || c == '#' && !sm ||
		!operand(t, q) && (n == 0 ||
			c == '(' || c == '[' || c == '{' || c == ',' || c == ')' || c == ']' || c == '}' || c == ';' || c == '?' || c == '~' || c == '@' || c == '.' ||
			c == '*' || c == '/' || c == '%' || c == '^' || c == '=' || c == '!' || c == ':' ||
			c == '|' || c == '+' || c == '-' || c == '<' || c == '>' || c == '&') ||
		0 <= c && c <= ' ' && c != '\n' || c == '\n' && !sm)
}

// propSpelling: an operator's text is its fixed spelling.
//
//verif:prop L01,L02
//verif:opt opaque=blankEnd
func propSpelling(t string, q int) {
	v.Requires("a position", 0 <= q && q <= len(t))
	kind, n := operator(t, q)
	v.Requires("an operator", n > 0)
	v.Ensures("its text is in the source", q+n <= len(t))
	lit := Token2Lit(kind)
	v.Ensures("its text, in quotes", len(lit) == n+2 && lit[0] == lit[n+1] && v.Eq(t[q:q+n], lit[1:n+1]))
}

// propInit: the scanner starts at the beginning of its text, after a mark of
// the byte order.
//
//verif:prop L01,L02,L03,L04,L05
//verif:opt init=no opaque=ahead,anyBad
func propInit(s *Scanner, file *token.File, src []byte, h ScanErrorHandler, mode ScanMode) {
	v.Requires("a file of that size", s != nil && file != nil && fileSize(file) == len(src) && 0 <= fileBase(file))
	v.Requires("no token has begun", verifStart <= 0)
	v.ModAll()
	s.Init(file, src, h, mode)
	t := string(src)
	start, bads := 0, b2i(bad(t, 0))
	if chr(t, 0) == bom {
		start = wid(t, 0)
		bads = b2i(bad(t, start))
	}
	v.Ensures("its text", v.Same(s.src, src) && s.file == file && s.mode == mode)
	v.Ensures("at the beginning", at(s, t, start))
	v.Ensures("no line ends there", !s.insertSemi)
	v.Ensures("L04: a bad character is reported", s.ErrorCount == bads)
}

// ---- line comments and errors

//verif:model bytes.HasPrefix
//verif:opt scope=file
func modelHasPrefix(s, prefix []byte) bool {
	if len(s) < len(prefix) {
		return false
	}
	for i := range prefix {
		if s[i] != prefix[i] {
			return false
		}
	}
	return true
}

//verif:model bytes.LastIndex
//verif:opt scope=file
func modelLastIndex(s, sep []byte) int {
	v.Requires("one character", len(sep) == 1)
	i := v.Fresh[int]()
	v.Assume("its last place", -1 <= i && i < len(s) && (i < 0 || s[i] == sep[0]))
	return i
}

//verif:model strconv.Atoi
//verif:opt scope=file
func modelAtoi(s string) (int, error) { return v.Fresh[int](), v.Fresh[error]() }

//verif:model bytes.TrimSpace
//verif:opt scope=file
func modelTrimSpace(s []byte) []byte { return []byte(v.Fresh[string]()) }

//verif:model path/filepath.Clean
//verif:opt scope=file
func modelClean(p string) string { return v.Fresh[string]() }

//verif:model path/filepath.IsAbs
//verif:opt scope=file
func modelIsAbs(p string) bool { return v.Fresh[bool]() }

//verif:model path/filepath.Join
//verif:opt scope=file
func modelJoin(a ...string) string { return v.Fresh[string]() }

//verif:model (*go/token.File).AddLineInfo
//verif:opt scope=file
func modelAddLineInfo(f *token.File, offs int, name string, line int) {
	v.Requires("a file", f != nil)
}

// propLineComment: a comment that names a line changes the file's lines only.
//
//verif:prop L05
//verif:opt nomodel=modelLineComment
func propLineComment(s *Scanner, text []byte) {
	v.Requires("a file", s != nil && s.file != nil)
	s.interpretLineComment(text)
	v.Ensures("done", true)
}

//verif:uf
func placeOf(f *token.File, p token.Pos) token.Position { return token.Position{} }

//verif:model (*go/token.File).Position
//verif:opt scope=file
func modelFilePosition(f *token.File, p token.Pos) token.Position {
	v.Requires("a position in the file", f != nil && fileBase(f) <= int(p) && int(p) <= fileBase(f)+fileSize(f))
	return placeOf(f, p)
}

// propError: an error goes to the handler, once, with its place, and is
// counted.
//
//verif:prop L04
//verif:opt init=no nomodel=modelScanError
func propError(s *Scanner, offs int, msg string, handled bool) {
	v.Requires("an offset in the file", s != nil && s.file != nil && 0 <= offs && offs <= fileSize(s.file) && 0 <= fileBase(s.file))
	v.Requires("countable errors", 0 <= s.ErrorCount && s.ErrorCount < 1<<62)
	n, at, was := 0, token.Position{}, ""
	s.err = nil
	if handled {
		s.err = func(pos token.Position, msg string) { n, at, was = n+1, pos, msg }
	}
	v.Mod(&s.ErrorCount)
	v.Mod(&verifStart)
	errs := s.ErrorCount
	s.error(offs, msg)
	v.Ensures("counted", s.ErrorCount == errs+1)
	v.Ensures("the handler is told once", n == b2i(handled))
	v.Ensures("where and what", !handled || v.Same(at, placeOf(s.file, token.Pos(fileBase(s.file)+offs))) && was == msg)
}
