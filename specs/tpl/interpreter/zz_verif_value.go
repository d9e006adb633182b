//go:build go1.18

package interpreter

import (
	"reflect"
	"strings"

	"github.com/qiniu/text/zzverif/v"
)

// ---- strconv: what its documentation says, for the bases used here

// VerifWF: the text is a non-empty sequence of digits of the base.
//
//verif:uf
func VerifWF(s string, base int) bool { return false }

// VerifNum: the value of such a text, as far as it fits.
//
//verif:uf
func VerifNum(s string, base int) uint64 { return 0 }

// VerifFits: the value is below 1<<bits.
//
//verif:uf
func VerifFits(s string, base, bits int) bool { return false }

//verif:uf
func intText(s string, base, bits int) int64 { return 0 }

//verif:uf
func intTextErr(s string, base, bits int) error { return nil }

func digitFacts(s string, base int) {
	v.Assume("no digits, no number", v.Implies(s == "", !VerifWF(s, base)))
	v.Assume("the value of few bits is small", v.Implies(VerifFits(s, base, 63), VerifNum(s, base) < 1<<63 && VerifFits(s, base, 64)))
	if len(s) >= 2 && s[0] == '0' {
		r := s[1:]
		v.Assume("a leading 0 does not count", VerifWF(s, base) == VerifWF(r, base) && VerifNum(s, base) == VerifNum(r, base) &&
			VerifFits(s, base, 63) == VerifFits(r, base, 63) && VerifFits(s, base, 64) == VerifFits(r, base, 64))
	}
}

//verif:model strconv.ParseUint
func modelParseUint(s string, base, bits int) (uint64, error) {
	v.Assert("a base and a size of the model", (base == 8 || base == 10 || base == 16) && (bits == 63 || bits == 64))
	digitFacts(s, base)
	if VerifWF(s, base) && VerifFits(s, base, bits) {
		return VerifNum(s, base), nil
	}
	err := v.Fresh[error]()
	v.Assume("an error", err != nil)
	return v.Fresh[uint64](), err
}

//verif:model strconv.ParseInt
func modelParseInt(s string, base, bits int) (int64, error) {
	v.Assert("a base and a size of the model", (base == 8 || base == 10 || base == 16) && bits == 64)
	if s != "" && (s[0] == '+' || s[0] == '-') {
		return intText(s, base, bits), intTextErr(s, base, bits)
	}
	digitFacts(s, base)
	if VerifWF(s, base) && VerifFits(s, base, 63) {
		return int64(VerifNum(s, base)), nil
	}
	err := v.Fresh[error]()
	v.Assume("an error", err != nil)
	return v.Fresh[int64](), err
}

//verif:uf
func VerifFloat(s string) float64 { return 0 }

//verif:uf
func VerifFloatErr(s string) error { return nil }

//verif:model strconv.ParseFloat
func modelParseFloat(s string, bits int) (float64, error) {
	v.Assert("the size of the model", bits == 64)
	return VerifFloat(s), VerifFloatErr(s)
}

//verif:uf
func containsAny(s, chars string) bool { return false }

//verif:model strings.ContainsAny
func modelContainsAny(s, chars string) bool { return containsAny(s, chars) }

// ---- I01

// intLit: the value of an integer literal, or that it has none.
func intLit(lit string) (n int64, ok bool) {
	base, digits := 10, lit
	if len(lit) >= 2 && lit[0] == '0' {
		if lit[1] == 'x' || lit[1] == 'X' {
			base, digits = 16, lit[2:]
		} else {
			base, digits = 8, lit[1:]
		}
	}
	return int64(VerifNum(digits, base)), VerifWF(digits, base) && VerifFits(digits, base, 63)
}

func unsigned(lit string) bool { return lit == "" || lit[0] != '+' && lit[0] != '-' }

//verif:prop I01
func propParseInt(lit string) {
	v.Requires("a literal has no sign", unsigned(lit))
	want, ok := intLit(lit)
	n, err := ParseInt(lit)
	v.Ensures("a literal that fits has its value", v.Implies(ok, err == nil && n == want))
	v.Ensures("any other is an error", v.Implies(!ok, err != nil))
}

//verif:prop I01
func propParseIntPrefixed(lit string) {
	v.Requires("a 0 first", len(lit) >= 2 && lit[0] == '0')
	n, err := ParseInt(lit)
	v.Ensures("no negative value", v.Implies(err == nil, n >= 0))
}

// floatLit: the value of a float literal; integers in all bases are allowed.
func floatLit(lit string) (x float64, ok bool) {
	if len(lit) >= 2 && lit[0] == '0' {
		n, isInt := intLit(lit)
		if isInt {
			return float64(n), true
		}
		if lit[1] == 'x' || lit[1] == 'X' || !strings.ContainsAny(lit, ".eE89") {
			return 0, false
		}
	}
	return VerifFloat(lit), VerifFloatErr(lit) == nil
}

//verif:prop I01
func propParseFloat(lit string) {
	v.Requires("a literal has no sign", unsigned(lit))
	want, ok := floatLit(lit)
	x, err := ParseFloat(lit)
	v.Ensures("a literal has its value", v.Implies(ok, err == nil && v.Same(x, want)))
	v.Ensures("what is no float or integer literal is an error", v.Implies(!ok, err != nil))
}

//verif:prop I01
func propGetValue(lit string) {
	v.Requires("a literal has no sign", unsigned(lit))
	n, ok := intLit(lit)
	x, err := GetValue(reflect.TypeOf(int64(0)), lit)
	v.Ensures("int64", v.Implies(ok, err == nil && v.Same(x, reflect.ValueOf(n))) && v.Implies(!ok, err != nil))
	x, err = GetValue(reflect.TypeOf(int(0)), lit)
	v.Ensures("int", v.Implies(ok, err == nil && v.Same(x, reflect.ValueOf(int(n)))) && v.Implies(!ok, err != nil))
	f, ok := floatLit(lit)
	x, err = GetValue(reflect.TypeOf(float64(0)), lit)
	v.Ensures("float64", v.Implies(ok, err == nil && v.Same(x, reflect.ValueOf(f))) && v.Implies(!ok, err != nil))
	x, err = GetValue(reflect.TypeOf(""), lit)
	v.Ensures("text", err == nil && v.Same(x, reflect.ValueOf(lit)))
}

//verif:prop I01
func propGetValueOther(y interface{}, lit string) {
	v.Requires("a type", y != nil)
	k := reflect.ValueOf(y).Kind()
	v.Requires("of another kind", k != reflect.String && k != reflect.Float64 && k != reflect.Int64 && k != reflect.Int)
	_, err := GetValue(reflect.TypeOf(y), lit)
	v.Ensures("no value of another type", err != nil)
}

// ---- strconv.Unquote and UnquoteChar, strings

//verif:uf
func VerifUnquoted(s string) string { return "" }

//verif:uf
func VerifUnquoteErr(s string) error { return nil }

//verif:model strconv.Unquote
func modelUnquote(s string) (string, error) { return VerifUnquoted(s), VerifUnquoteErr(s) }

//verif:uf
func VerifChar(s string, q byte) rune { return 0 }

//verif:uf
func VerifCharMulti(s string, q byte) bool { return false }

//verif:uf
func VerifCharTail(s string, q byte) string { return "" }

//verif:uf
func VerifCharErr(s string, q byte) error { return nil }

//verif:model strconv.UnquoteChar
func modelUnquoteChar(s string, q byte) (rune, bool, string, error) {
	c := VerifChar(s, q)
	v.Assume("what is no multi-byte character is a byte", v.Implies(!VerifCharMulti(s, q), 0 <= c && c < 256))
	return c, VerifCharMulti(s, q), VerifCharTail(s, q), VerifCharErr(s, q)
}

//verif:model strings.HasSuffix
func modelHasSuffix(s, suf string) bool {
	n := len(s) - len(suf)
	return n >= 0 && v.Eq(s[n:], suf)
}

//verif:uf
func VerifLastIndex(s, sub string) int { return 0 }

//verif:model strings.LastIndex
func modelLastIndex(s, sub string) int {
	r := VerifLastIndex(s, sub)
	v.Assume("an index or -1", -1 <= r && r <= len(s)-len(sub))
	return r
}
