//go:build go1.18

package tpl

import (
	"go/token"

	"github.com/qiniu/text/zzverif/v"
)

// ---- go/token, bytes: the parts of their documentation that are used

//verif:uf
func fileOffset(f *token.File, p token.Pos) int { return 0 }

//verif:model (*go/token.File).Offset
func modelOffset(f *token.File, p token.Pos) int { return fileOffset(f, p) }

//verif:uf
func fileLine(f *token.File, p token.Pos) int { return 0 }

//verif:model (*go/token.File).Line
func modelLine(f *token.File, p token.Pos) int { return fileLine(f, p) }

//verif:uf
func fileName(f *token.File) string { return "" }

//verif:model (*go/token.File).Name
func modelName(f *token.File) string { return fileName(f) }

//verif:model go/token.NewFileSet
func modelNewFileSet() *token.FileSet {
	s := v.Fresh[*token.FileSet]()
	v.Assume("a new file set", s != nil)
	return s
}

//verif:uf
func addFile(s *token.FileSet, name string, base, size int) *token.File { return nil }

//verif:model (*go/token.FileSet).AddFile
func modelAddFile(s *token.FileSet, name string, base, size int) *token.File {
	f := addFile(s, name, base, size)
	v.Assume("a file", f != nil)
	return f
}

//verif:uf
func indexByte(b []byte, c byte) int { return 0 }

//verif:model bytes.IndexByte
func modelIndexByte(b []byte, c byte) int {
	r := indexByte(b, c)
	v.Assume("an index or -1", -1 <= r && r < len(b))
	return r
}

// ---- any tokenizer

//verif:uf
func tkSource(t Tokener) TokenSource { return TokenSource{} }

//verif:abs (github.com/qiniu/text/tpl.Tokener).Source
func absSource(t Tokener) TokenSource {
	s := tkSource(t)
	v.Assume("the tokenizer was initialised", s.File != nil)
	return s
}

//verif:uf
func tkTtol(t Tokener, k uint) string { return "" }

//verif:abs (github.com/qiniu/text/tpl.Tokener).Ttol
func absTtol(t Tokener, k uint) string { return tkTtol(t, k) }

//verif:uf
func ctxTokener(c Context) Tokener { return nil }

//verif:abs (github.com/qiniu/text/tpl.Context).Tokener
func absTokener(c Context) Tokener {
	t := ctxTokener(c)
	v.Assume("a tokenizer", t != nil)
	return t
}

// Marshal of any rule: it appends its text.
//
//verif:uf
func gText(g Grammar, t Tokener, lvl int) string { return "" }

//verif:abs (github.com/qiniu/text/tpl.Grammar).Marshal
func absMarshal(g Grammar, b []byte, t Tokener, lvl int) []byte { return append(b, gText(g, t, lvl)...) }

// ---- M08

// linesEnd: where n lines from position from on end.
//
//verif:spec
func linesEnd(src []byte, from, n int) int {
	if n <= 0 {
		return from
	}
	p := indexByte(src[from:], '\n')
	if p < 0 {
		return len(src)
	}
	return linesEnd(src, from+p+1, n-1)
}

//verif:prop M08
//verif:lemma nextLines
func propNextLines(src []byte, n int) []byte {
	v.Requires("a number of lines", n >= 0)
	end := linesEnd(src, 0, n)
	v.Inv(func(from, k int) bool {
		return 0 <= from && from <= len(src) && 0 <= k && linesEnd(src, from, k) == end
	})
	v.Decr(func(k int) int { return k })
	text := nextLines(src, n)
	v.Ensures("the first n lines", len(text) == end && 0 <= end && end <= len(src) && v.Same(text, src[:end]))
	return text
}

// errorDoc: n tokens of the source and the end-of-file token after them, at
// positions that do not decrease (property L01), and an index.
func errorDoc(doc []Token, n, idx int, t Tokener) bool {
	s := tkSource(t)
	return 0 <= n && n < cap(doc) && len(doc) == n && 0 <= idx && idx <= n &&
		0 <= fileOffset(s.File, doc[:n+1][0].Pos) && fileOffset(s.File, doc[:n+1][n].Pos) <= len(s.Src)
}

//verif:prop M08
//verif:opt nounroll=yes
func propErrorInfo(doc []Token, idx int, t Tokener) {
	n := len(doc)
	v.Requires("tokens", t != nil && n > 0 && errorDoc(doc, n, idx, t))
	all := doc[:n+1]
	s := tkSource(t)
	start, end := fileOffset(s.File, all[0].Pos), fileOffset(s.File, all[n].Pos)
	next := end
	if idx < n {
		next = fileOffset(s.File, all[idx+1].Pos)
	}
	v.Requires("positions do not decrease", start <= next && next <= end)
	v.Inv(func(from, k int) bool {
		src := s.Src[start:end]
		return 0 <= from && from <= len(src) && 0 <= k && linesEnd(src, from, k) == linesEnd(src, 0, 9)
	})
	v.Decr(func(k int) int { return k })
	line, text := calcErrorInfo(doc, idx, t)
	v.Ensures("the line of the token at which matching failed", line == fileLine(s.File, all[idx].Pos))
	m := linesEnd(s.Src[start:end], 0, 9)
	if m < next-start {
		m = next - start
	}
	v.Ensures("the quoted source starts at the first token and reaches to the failing one", len(text) == m && len(text) >= next-start)
	v.Ensures("the quoted source is source text", v.Implies(m > 0, v.Same(text, s.Src[start:start+m]) || v.Same(text[:m:m], s.Src[start:start+m:start+m])))
}

//verif:prop M08
func propErrorEmpty(doc []Token, idx int, t Tokener) {
	v.Requires("no tokens", t != nil && len(doc) == 0)
	line, text := calcErrorInfo(doc, idx, t)
	v.Ensures("nothing to quote", line == 0 && len(text) == 0)
}

//verif:prop M08
//verif:opt nounroll=yes
func propErrorMessage(e *MatchError, n int) {
	v.Requires("a match error", e != nil && e.Ctx != nil && e.Grammar != nil && len(e.Src) == n)
	t := ctxTokener(e.Ctx)
	if n > 0 {
		v.Requires("tokens", errorDoc(e.Src, n, e.IdxErr, t))
		all := e.Src[:n+1]
		s := tkSource(t)
		start, end := fileOffset(s.File, all[0].Pos), fileOffset(s.File, all[n].Pos)
		next := end
		if e.IdxErr < n {
			next = fileOffset(s.File, all[e.IdxErr+1].Pos)
		}
		v.Requires("positions do not decrease", start <= next && next <= end)
		v.Inv(func(from, k int) bool {
			src := s.Src[start:end]
			return 0 <= from && from <= len(src) && 0 <= k && len(src) >= 0
		})
	}
	v.Decr(func(k int) int { return k })
	msg := e.Error()
	v.Ensures("a message is produced", len(msg) >= 0)
}

