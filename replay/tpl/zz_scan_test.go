package tpl_test

import (
	"bytes"
	"fmt"
	"go/token"
	"math/rand"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/zzverif/rt"
)

// ---- a reference tokenizer, written from the language's lexical rules ------

type rtok struct {
	kind uint
	off  int
	lit  string
	end  int
	auto bool // inserted semicolon
}

type rbad struct{ from, to int } // an offending item

var refOps = map[string]uint{
	"+": '+', "-": '-', "*": '*', "/": '/', "%": '%', "&": '&', "|": '|', "^": '^', "<": '<', ">": '>', "=": '=', "!": '!',
	"(": '(', "[": '[', "{": '{', ",": ',', ".": '.', ")": ')', "]": ']', "}": '}', ";": ';', ":": ':', "?": '?', "~": '~', "@": '@',
	"<<": tpl.SHL, ">>": tpl.SHR, "&^": tpl.AND_NOT, "+=": tpl.ADD_ASSIGN, "-=": tpl.SUB_ASSIGN, "*=": tpl.MUL_ASSIGN, "/=": tpl.QUO_ASSIGN,
	"%=": tpl.REM_ASSIGN, "&=": tpl.AND_ASSIGN, "|=": tpl.OR_ASSIGN, "^=": tpl.XOR_ASSIGN, "<<=": tpl.SHL_ASSIGN, ">>=": tpl.SHR_ASSIGN,
	"&^=": tpl.AND_NOT_ASSIGN, "&&": tpl.LAND, "||": tpl.LOR, "<-": tpl.ARROW, "++": tpl.INC, "--": tpl.DEC, "==": tpl.EQ, "!=": tpl.NE,
	"<=": tpl.LE, ">=": tpl.GE, ":=": tpl.DEFINE, "...": tpl.ELLIPSIS,
}

type ref struct {
	src  []byte
	pos  int
	bad  []rbad
	toks []rtok
}

func (r *ref) at(i int) (rune, int) {
	if i >= len(r.src) {
		return -1, 0
	}
	if r.src[i] < 0x80 {
		return rune(r.src[i]), 1
	}
	return utf8.DecodeRune(r.src[i:])
}

func refLetter(c rune) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 && unicode.IsLetter(c)
}

func refDigit(c rune) bool { return c >= '0' && c <= '9' || c >= 0x80 && unicode.IsDigit(c) }

func hexv(c rune) int {
	if i := strings.IndexRune("0123456789abcdef", unicode.ToLower(c)); c >= 0 && c < 0x80 && i >= 0 {
		return i
	}
	return 99
}

func (r *ref) digits(base int) int {
	n := 0
	for {
		c, _ := r.at(r.pos)
		if hexv(c) >= base {
			return n
		}
		r.pos++
		n++
	}
}

// number scans the maximal numeric literal at r.pos.
func (r *ref) number() uint {
	start := r.pos
	bad := func() { r.bad = append(r.bad, rbad{start, r.pos}) }
	kind := tpl.INT
	if c, _ := r.at(r.pos); c == '0' {
		if x, _ := r.at(r.pos + 1); x == 'x' || x == 'X' {
			r.pos += 2
			if r.digits(16) == 0 {
				bad()
			}
			return kind
		}
	}
	r.digits(10)
	oct := r.src[start] == '0' && bytes.ContainsAny(r.src[start:r.pos], "89")
	if c, _ := r.at(r.pos); c == '.' {
		kind = tpl.FLOAT
		r.pos++
		r.digits(10)
	}
	if c, _ := r.at(r.pos); c == 'e' || c == 'E' {
		kind = tpl.FLOAT
		r.pos++
		if c, _ := r.at(r.pos); c == '+' || c == '-' {
			r.pos++
		}
		if r.digits(10) == 0 {
			defer bad()
		}
	}
	if c, _ := r.at(r.pos); c == 'i' {
		kind = tpl.IMAG
		r.pos++
	}
	if kind == tpl.INT && oct {
		bad()
	}
	return kind
}

// escape reads the escape after a backslash; on an error the offending
// character is not consumed.
func (r *ref) escape(q rune) bool {
	c, _ := r.at(r.pos)
	n, base, max := 0, 0, 0
	switch {
	case c == q || strings.ContainsRune("abfnrtv\\", c) && c >= 0:
		r.pos++
		return true
	case c >= '0' && c <= '7':
		n, base, max = 3, 8, 255
	case c == 'x':
		r.pos++
		n, base, max = 2, 16, 255
	case c == 'u':
		r.pos++
		n, base, max = 4, 16, 0x10ffff
	case c == 'U':
		r.pos++
		n, base, max = 8, 16, 0x10ffff
	default:
		return false
	}
	v := 0
	for i := 0; i < n; i++ {
		c, _ := r.at(r.pos)
		if hexv(c) >= base {
			return false
		}
		v = v*base + hexv(c)
		r.pos++
	}
	return v <= max && (v < 0xd800 || v > 0xdfff)
}

func (r *ref) quoted(q rune) {
	start := r.pos
	r.pos++
	bad, n := false, 0
	for {
		c, w := r.at(r.pos)
		if c < 0 || c == '\n' {
			bad = true
			break
		}
		r.pos += w
		if c == q {
			bad = bad || q == '\'' && n != 1
			break
		}
		n++
		if c == '\\' && !r.escape(q) {
			bad = true
		}
	}
	if bad {
		r.bad = append(r.bad, rbad{start, r.pos})
	}
}

func noCR(b []byte) string { return strings.ReplaceAll(string(b), "\r", "") }

// lineEnd: from a comment at i, does the line end before another token?
func (r *ref) lineEnd(i int) bool {
	for {
		s := string(r.src[i:])
		switch {
		case s == "" || s[0] == '\n' || s[0] == '#' || strings.HasPrefix(s, "//"):
			return true
		case s[0] == ' ' || s[0] == '\t' || s[0] == '\r':
			i++
		case strings.HasPrefix(s, "/*"):
			e := strings.Index(s[2:], "*/")
			if e < 0 || strings.Contains(s[:e+4], "\n") {
				return true
			}
			i += e + 4
		default:
			return false
		}
	}
}

func refScan(src []byte, mode tpl.ScanMode) (toks []rtok, bad []rbad) {
	r := &ref{src: src}
	// encoding defects, anywhere
	for i := 0; i < len(src); {
		c, w := r.at(i)
		if c == 0 || c == utf8.RuneError && w == 1 || c == 0xfeff && i > 0 {
			r.bad = append(r.bad, rbad{i, i + w})
		}
		i += w
	}
	if bytes.HasPrefix(src, []byte("\xef\xbb\xbf")) {
		r.pos = 3
	}
	semi := false
	emit := func(kind uint, start int, lit string) {
		r.toks = append(r.toks, rtok{kind: kind, off: start, lit: lit, end: r.pos})
	}
	insert := func(at int) {
		r.toks = append(r.toks, rtok{kind: ';', off: at, lit: "\n", end: at, auto: true})
		semi = false
	}
	for {
		start := r.pos
		c, w := r.at(start)
		rest := string(src[start:])
		next := false
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n' && !semi:
			r.pos++
			continue
		case c < 0:
			if semi {
				insert(start)
			}
			emit(tpl.EOF, start, "")
			return r.toks, r.bad
		case c == '\n':
			insert(start)
			r.pos++
			continue
		case refLetter(c):
			for refLetter(c) || refDigit(c) {
				r.pos += w
				c, w = r.at(r.pos)
			}
			emit(tpl.IDENT, start, string(src[start:r.pos]))
			next = true
		case c >= '0' && c <= '9' || c == '.' && len(rest) > 1 && rest[1] >= '0' && rest[1] <= '9':
			k := r.number()
			emit(k, start, string(src[start:r.pos]))
			next = true
		case c == '"' || c == '\'':
			r.quoted(c)
			k := tpl.STRING
			if c == '\'' {
				k = tpl.CHAR
			}
			emit(k, start, string(src[start:r.pos]))
			next = true
		case c == '`':
			e := strings.IndexByte(rest[1:], '`')
			if e < 0 {
				r.pos = len(src)
				r.bad = append(r.bad, rbad{start, r.pos})
			} else {
				r.pos = start + e + 2
			}
			emit(tpl.STRING, start, noCR(src[start:r.pos]))
			next = true
		case strings.HasPrefix(rest, "//") || strings.HasPrefix(rest, "/*") || c == '#':
			if semi && r.lineEnd(start) {
				insert(start)
				continue
			}
			e := strings.IndexByte(rest, '\n')
			if rest[0] == '/' && rest[1] == '*' {
				e = strings.Index(rest[2:], "*/")
				if e >= 0 {
					e += 4
				} else {
					r.bad = append(r.bad, rbad{start, len(src)})
				}
			}
			if e < 0 {
				e = len(rest)
			}
			r.pos = start + e
			if mode&tpl.ScanComments != 0 {
				lit := string(src[start:r.pos])
				if c == '/' {
					lit = noCR(src[start:r.pos])
				}
				emit(tpl.COMMENT, start, lit)
			}
		default:
			n := 3
			for ; n > 0; n-- {
				if len(rest) >= n {
					if k, ok := refOps[rest[:n]]; ok {
						r.pos += n
						lit := ""
						if k == ';' {
							lit = ";"
						}
						emit(k, start, lit)
						next = strings.Contains(")]}", rest[:n]) || rest[:n] == "++" || rest[:n] == "--"
						break
					}
				}
			}
			if n == 0 {
				r.pos += w
				if c != 0xfeff {
					r.bad = append(r.bad, rbad{start, r.pos})
				}
				emit(tpl.ILLEGAL, start, string(c))
				next = semi
			}
		}
		if mode&tpl.InsertSemis != 0 {
			semi = next
		}
	}
}

// ---- sources ----------------------------------------------------------------

var scanParts = []string{"a", "b1", "_x", "é", "日本", "if", "0", "7", "42", "0x1F", "0X", "017", "089", "089.5", "1.5", ".5", "1e3", "1e", "1E+", "1e-2", "2i", "3.i", "08i", "0.",
	"'a'", "'\\n'", "''", "'ab'", "'\\''", "'\\x41'", "'\\400'", "'\\u00e9'", "'\\ud800'", "'", "\"\"", "\"a b\"", "\"\\\"\"", "\"\\q\"", "\"\\x4\"", "\"\\U00110000\"", "\"\\777\"", "\"", "\"\\",
	"`raw`", "`r\r\nw`", "`", "// c", "// c\r", "/* c */", "/* a\nb */", "/*\r*/", "/* ", "/**/", "/***/", "# c", "#", "//line f:3",
	"+", "++", "+=", "-", "--", "-=", "*", "*=", "/", "/=", "%", "%=", "&", "&&", "&=", "&^", "&^=", "|", "||", "|=", "^", "^=",
	"<", "<<", "<<=", "<=", "<-", ">", ">>", ">>=", ">=", "=", "==", "!", "!=", "(", ")", "[", "]", "{", "}", ",", ".", "..", "...", "....", ";", ":", ":=", "?", "~", "@",
	"$", "\\", "\x00", "\xff", "\xef\xbb\xbf", "\xc3", "٣", "a٣"}

var scanSeps = []string{"", "", "", " ", " ", "\n", "\t", "\r\n", "\n\n", " \n "}

func genSource(rnd *rand.Rand, n int) []byte {
	var b bytes.Buffer
	if rnd.Intn(30) == 0 {
		b.WriteString("\xef\xbb\xbf")
	}
	for i := 0; i < n; i++ {
		if rnd.Intn(40) == 0 {
			b.WriteByte(byte(rnd.Intn(256)))
		} else {
			b.WriteString(scanParts[rnd.Intn(len(scanParts))])
		}
		b.WriteString(scanSeps[rnd.Intn(len(scanSeps))])
	}
	return b.Bytes()
}

// sources runs f on every pair of parts and on random texts.
func sources(r *rt.R, f func(src []byte, mode tpl.ScanMode)) {
	run := func(src []byte) {
		r.Current(fmt.Sprintf("%q", src))
		for mode := tpl.ScanMode(0); mode < 4; mode++ {
			r.Case(fmt.Sprintf("%q mode %d", src, mode))
			f(src, mode)
		}
	}
	run(nil)
	for i := 0; i < 256; i++ {
		run([]byte{byte(i)})
	}
	for _, a := range scanParts {
		run([]byte(a))
		for _, b := range scanParts {
			run([]byte(a + b))
			if r.Level > 1 {
				for _, s := range scanSeps[3:] {
					run([]byte(a + s + b))
				}
			}
		}
	}
	for i := 0; i < r.Scale(12000) && r.Left(); i++ {
		run(genSource(r.Rnd, 1+r.Rnd.Intn(9)))
	}
}

type serr struct {
	off int
	msg string
}

type tokener interface {
	tpl.Tokener
}

// scan runs the real scanner, at most max tokens.
func scan(s tokener, src []byte, mode tpl.ScanMode, max int) (toks []tpl.Token, errs []serr, file *token.File) {
	fset := token.NewFileSet()
	file = fset.AddFile("f", -1, len(src))
	s.Init(file, src, func(pos token.Position, msg string) { errs = append(errs, serr{pos.Offset, msg}) }, mode)
	for len(toks) < max {
		t := s.Scan()
		toks = append(toks, t)
		if t.Kind == tpl.EOF {
			break
		}
	}
	return
}

func spelling(k uint) string {
	s := tpl.Token2Lit(k)
	return s[1 : len(s)-1]
}

func TestReplay_L01(t *testing.T) {
	r := rt.New(t, "all pairs of 130 lexical items and random texts, four scan modes: tokens tile the source")
	defer r.Done()
	sources(r, func(src []byte, mode tpl.ScanMode) {
		toks, _, file := scan(new(tpl.Scanner), src, mode, 2*len(src)+4)
		at := 0
		if bytes.HasPrefix(src, []byte("\xef\xbb\xbf")) {
			at = 3
		}
		for i, tk := range toks {
			off := file.Offset(tk.Pos)
			if off < at {
				r.Fail("overlap", "%q mode %d: token %d at %d overlaps the one before it ending at %d", src, mode, i, off, at)
				return
			}
			gap := string(src[at:off])
			if mode&tpl.ScanComments == 0 {
				gap = stripComments(gap)
			}
			if strings.Trim(gap, " \t\r\n") != "" {
				r.Fail("gap", "%q mode %d: %q before token %d is in no token", src, mode, gap, i)
				return
			}
			switch {
			case tk.Kind == tpl.EOF:
				if off != len(src) {
					r.Fail("eof-pos", "%q mode %d: end of file at %d", src, mode, off)
				}
				if i != len(toks)-1 {
					r.Fail("eof-last", "%q mode %d: tokens after the end of file", src, mode)
				}
				continue
			case tk.Kind == tpl.SEMICOLON && tk.Literal == "\n":
				at = off
				continue
			case tk.Literal == "":
				if tk.Kind == tpl.ILLEGAL {
					r.Fail("empty-illegal", "%q mode %d: an illegal token without text at %d", src, mode, off)
					return
				}
				sp := spelling(tk.Kind)
				if !strings.HasPrefix(string(src[off:]), sp) {
					r.Fail("spelling", "%q mode %d: operator %q at %d", src, mode, sp, off)
					return
				}
				at = off + len(sp)
				continue
			}
			// literal text: source bytes, up to the carriage returns of
			// comments and raw strings
			if tk.Kind == tpl.ILLEGAL && tk.Literal == "\uFFFD" && off < len(src) {
				_, w := utf8.DecodeRune(src[off:])
				at = off + w
				continue
			}
			if tk.Kind == tpl.COMMENT || tk.Kind == tpl.STRING && tk.Literal[0] == '`' {
				n := off
				for j := 0; j < len(tk.Literal); {
					if n < len(src) && src[n] == tk.Literal[j] {
						n, j = n+1, j+1
					} else if n < len(src) && src[n] == '\r' {
						n++
					} else {
						r.Fail("text", "%q mode %d: token %q at %d", src, mode, tk.Literal, off)
						return
					}
				}
				for n < len(src) && src[n] == '\r' {
					n++
				}
				at = n
				if strings.Contains(tk.Literal, "\r") && !strings.HasPrefix(tk.Literal, "#") {
					r.Fail("cr", "%q mode %d: carriage return left in %q", src, mode, tk.Literal)
				}
				continue
			}
			if !strings.HasPrefix(string(src[off:]), tk.Literal) {
				r.Fail("text", "%q mode %d: token %q at %d", src, mode, tk.Literal, off)
				return
			}
			at = off + len(tk.Literal)
		}
		if len(toks) == 0 || toks[len(toks)-1].Kind != tpl.EOF {
			r.Fail("eof-missing", "%q mode %d: no end of file", src, mode)
		}
	})
}

func stripComments(s string) string {
	var b strings.Builder
	for s != "" {
		switch {
		case strings.HasPrefix(s, "//") || s[0] == '#':
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				i = len(s)
			}
			s = s[i:]
		case strings.HasPrefix(s, "/*"):
			i := strings.Index(s[2:], "*/")
			if i < 0 {
				return b.String()
			}
			s = s[i+4:]
		default:
			b.WriteByte(s[0])
			s = s[1:]
		}
	}
	return b.String()
}

func showTok(k uint, off int, lit string) string { return fmt.Sprintf("%d@%d%q", k, off, lit) }

func TestReplay_L02(t *testing.T) {
	r := rt.New(t, "all pairs of 130 lexical items and random texts against a reference tokenizer: kinds and texts")
	defer r.Done()
	sources(r, func(src []byte, mode tpl.ScanMode) {
		got, _, file := scan(new(tpl.Scanner), src, mode, 2*len(src)+4)
		want, _ := refScan(src, mode)
		var g, w []string
		for _, x := range got {
			if x.Kind == tpl.SEMICOLON && x.Literal == "\n" {
				continue
			}
			g = append(g, showTok(x.Kind, file.Offset(x.Pos), x.Literal))
		}
		for _, x := range want {
			if !x.auto {
				w = append(w, showTok(x.kind, x.off, x.lit))
			}
		}
		for i := range w {
			if i >= len(g) || g[i] != w[i] {
				r.Fail("token", "%q mode %d: tokens %v want %v", src, mode, g, w)
				return
			}
		}
	})
}

func TestReplay_L03(t *testing.T) {
	r := rt.New(t, "all pairs of 130 lexical items and random texts against a reference tokenizer: inserted semicolons")
	defer r.Done()
	sources(r, func(src []byte, mode tpl.ScanMode) {
		got, _, file := scan(new(tpl.Scanner), src, mode, 2*len(src)+4)
		want, _ := refScan(src, mode)
		var g, w []string
		for _, x := range got {
			if x.Kind == tpl.SEMICOLON && x.Literal == "\n" {
				g = append(g, fmt.Sprint("semi@", file.Offset(x.Pos)))
				if mode&tpl.InsertSemis == 0 {
					r.Fail("unasked", "%q mode %d: semicolon inserted without being asked for", src, mode)
				}
			} else if x.Kind != tpl.COMMENT {
				g = append(g, fmt.Sprint(x.Kind))
			}
		}
		for _, x := range want {
			if x.auto {
				w = append(w, fmt.Sprint("semi@", x.off))
			} else if x.kind != tpl.COMMENT {
				w = append(w, fmt.Sprint(x.kind))
			}
		}
		if fmt.Sprint(g) != fmt.Sprint(w) {
			r.Fail("semi", "%q mode %d: %v want %v", src, mode, g, w)
		}
	})
}

func TestReplay_L04(t *testing.T) {
	r := rt.New(t, "all pairs of 130 lexical items and random texts: errors reported exactly inside the offending items of a reference tokenizer")
	defer r.Done()
	sources(r, func(src []byte, mode tpl.ScanMode) {
		sc := new(tpl.Scanner)
		_, errs, _ := scan(sc, src, mode, 2*len(src)+4)
		_, bad := refScan(src, mode)
		for _, e := range errs {
			in := false
			for _, b := range bad {
				in = in || b.from <= e.off && e.off <= b.to
			}
			if !in {
				r.Fail("false-report", "%q mode %d: %q reported at %d, offending items %v", src, mode, e.msg, e.off, bad)
			}
		}
		for _, b := range bad {
			hit := false
			for _, e := range errs {
				hit = hit || b.from <= e.off && e.off <= b.to
			}
			if !hit {
				r.Fail("unreported", "%q mode %d: nothing reported for the item %d-%d %q; reports %v", src, mode, b.from, b.to, src[b.from:b.to], errs)
			}
		}
		if sc.ErrorCount != len(errs) {
			r.Fail("count", "%q mode %d: ErrorCount %d with %d reports", src, mode, sc.ErrorCount, len(errs))
		}
		m := &tpl.Matcher{Grammar: tpl.GrTrue, ScanMode: mode}
		toks, err := m.Tokenize(src, "f")
		if (err != nil) != (len(bad) > 0) {
			r.Fail("tokenize", "%q mode %d: Tokenize error %v, offending items %v", src, mode, err, bad)
		}
		if err == nil {
			want, _ := refScan(src, mode)
			if len(toks) != len(want)-1 {
				r.Fail("tokenize-count", "%q mode %d: Tokenize gives %d tokens, want %d", src, mode, len(toks), len(want)-1)
			}
		}
	})
}

func TestReplay_L05(t *testing.T) {
	r := rt.New(t, "random texts and byte strings: the scanner ends within 2n+2 tokens, does not panic, and stays at the end")
	defer r.Done()
	check := func(src []byte, mode tpl.ScanMode) {
		p, v := r.Try("scan", fmt.Sprintf("%q mode %d", src, mode), func() {
			for _, s := range []tokener{new(tpl.Scanner), new(tpl.AutoKwScanner)} {
				toks, _, file := scan(s, src, mode, 2*len(src)+2)
				if len(toks) == 0 || toks[len(toks)-1].Kind != tpl.EOF {
					r.Fail("too-many", "%q mode %d: no end of file in %d tokens", src, mode, len(toks))
					return
				}
				for i := 0; i < 3; i++ {
					if x := s.Scan(); x.Kind != tpl.EOF || file.Offset(x.Pos) != len(src) {
						r.Fail("after-eof", "%q mode %d: token %v after the end of file", src, mode, x)
					}
				}
				// the scanner can be reused
				again, _, _ := scan(s, src, mode, 2*len(src)+2)
				if len(again) != len(toks) {
					r.Fail("reuse", "%q mode %d: %d tokens, when scanned again %d", src, mode, len(toks), len(again))
				}
			}
		})
		if p {
			r.Fail("panic", "%q mode %d: panic %v", src, mode, v)
		}
	}
	sources(r, check)
	for i := 0; i < r.Scale(2000) && r.Left(); i++ {
		b := make([]byte, r.Rnd.Intn(12))
		for j := range b {
			if r.Rnd.Intn(2) == 0 {
				b[j] = "/*\n'\"`\\#0x.e+-<>=&^ \r"[r.Rnd.Intn(21)]
			} else {
				b[j] = byte(r.Rnd.Intn(256))
			}
		}
		check(b, tpl.ScanMode(i%4))
	}
}

func TestReplay_L06(t *testing.T) {
	r := rt.New(t, "every kind up to 0x400 and every spelling")
	defer r.Done()
	names := map[string]uint{"ILLEGAL": tpl.ILLEGAL, "EOF": tpl.EOF, "COMMENT": tpl.COMMENT, "IDENT": tpl.IDENT, "INT": tpl.INT, "FLOAT": tpl.FLOAT, "IMAG": tpl.IMAG, "CHAR": tpl.CHAR, "STRING": tpl.STRING}
	want := map[uint]string{}
	length := map[uint]int{}
	for n, k := range names {
		want[k] = n
	}
	for s, k := range refOps {
		if len(s) == 1 {
			want[k] = "'" + s + "'"
		} else {
			want[k] = "\"" + s + "\""
		}
		length[k] = len(s)
	}
	sc := new(tpl.Scanner)
	for k := uint(0); k < 0x400; k++ {
		r.Case(fmt.Sprint("kind ", k))
		p, v := r.Try("token2lit", fmt.Sprint("kind ", k), func() {
			w, known := want[k]
			var s string
			refused := false
			func() {
				defer func() { refused = recover() != nil }()
				s = tpl.Token2Lit(k)
			}()
			if known && (s != w || refused) {
				r.Fail("spelling", "Token2Lit(%d) = %q want %q", k, s, w)
			}
			if !known && !refused && s != "" {
				r.Fail("unknown-kind", "Token2Lit(%d) = %q", k, s)
			}
			if known {
				if b := tpl.Lit2Token(s); b != k {
					r.Fail("inverse", "Lit2Token(Token2Lit(%d)) = %d", k, b)
				}
				if sc.Ltot(sc.Ttol(k)) != k {
					r.Fail("inverse", "Ltot(Ttol(%d)) = %d", k, sc.Ltot(sc.Ttol(k)))
				}
			}
		})
		if p {
			r.Fail("panic", "kind %d: %v", k, v)
		}
		p, v = r.Try("tokenlen", fmt.Sprint("TokenLen ", k), func() {
			if n := tpl.TokenLen(k); n != length[k] {
				r.Fail("length", "TokenLen(%d) = %d want %d", k, n, length[k])
			}
			tk := tpl.Token{Kind: k, Pos: 10}
			if e := int(tk.End()) - 10; e != length[k] {
				r.Fail("end", "End of an operator token of kind %d is %d after its position, want %d", k, e, length[k])
			}
			if length[k] == 0 || k == ';' {
				tk.Literal = "abcd"
				if k == ';' {
					tk.Literal = ";"
				}
				if e := int(tk.End()) - 10; e != len(tk.Literal) {
					r.Fail("end", "End of the token %q of kind %d is %d after its position", tk.Literal, k, e)
				}
			}
		})
		if p {
			r.Fail("panic-len", "TokenLen(%d): panic %v", k, v)
		}
	}
	for _, s := range []string{"", "x", "'x'", "\"x\"", "''", "ident", "+", "'+", "'++'", "\"+\"", "EOF ", "INTT", "\"=>\"", "'\\n'"} {
		r.Case("literal " + s)
		if k := tpl.Lit2Token(s); k != tpl.ILLEGAL {
			r.Fail("unknown-literal", "Lit2Token(%q) = %d", s, k)
		}
	}
	// ends of scanned tokens
	sources(r, func(src []byte, mode tpl.ScanMode) {
		want, bad := refScan(src, mode)
		if len(bad) > 0 {
			return
		}
		toks, _, file := scan(new(tpl.Scanner), src, mode, 2*len(src)+4)
		for i, x := range toks {
			if i >= len(want) || x.Kind == tpl.EOF || want[i].auto || strings.Contains(string(src), "\r") {
				continue
			}
			if e := int(x.End()) - file.Base(); e != want[i].end {
				r.Fail("scanned-end", "%q mode %d: token %d ends at %d, want %d", src, mode, i, e, want[i].end)
				return
			}
		}
	})
}
