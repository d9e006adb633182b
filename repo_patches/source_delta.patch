From 3a603a19db3aa0d66b247c0bea9133ab125957a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 01/17] fix: scan '..' as two periods instead of a silent
 illegal token without text

---
 tpl/scanner.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..4740c19 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -668,12 +668,10 @@ scanAgain:
 			if '0' <= s.ch && s.ch <= '9' {
 				insertSemi = true
 				t.Kind, t.Literal = s.scanNumber(true)
-			} else if s.ch == '.' {
+			} else if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
 				s.next()
-				if s.ch == '.' {
-					s.next()
-					t.Kind = ELLIPSIS
-				}
+				s.next() // consume last '.'
+				t.Kind = ELLIPSIS
 			} else {
 				t.Kind = PERIOD
 			}
-- 
2.43.0


From 418d2d6dde7f514903be6e1464f661a82a6a6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 02/17] fix: report a floating-point exponent without digits

---
 tpl/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 4740c19..e0cf5d2 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -358,6 +358,9 @@ exponent:
 		if s.ch == '-' || s.ch == '+' {
 			s.next()
 		}
+		if digitVal(s.ch) >= 10 {
+			s.error(offs, "illegal floating-point exponent")
+		}
 		s.scanMantissa(10)
 	}
 
-- 
2.43.0


From 451f1a67a0dca12d9a83e854c3572cdeabd9d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 03/17] fix: insert the semicolon before a general comment
 followed by a #-style comment

---
 tpl/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index e0cf5d2..b57b63e 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -250,8 +250,8 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
-			return true
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' {
+			return true // a #-style comment always contains a newline, too
 		}
 		if s.ch != '/' {
 			// non-comment token
-- 
2.43.0


From cf2df48c8ea04bab107a2334b9906d90829f7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 04/17] fix: TokenLen of a kind that is no operator is 0 (it
 was negative or panicked)

---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From 4501783d48e801890de42f1094da43ce117dab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 05/17] fix: Token.End of a semicolon counted its text twice

---
 tpl/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index b57b63e..5b97442 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,10 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	if p.Literal != "" { // a semicolon is an operator with a literal
+		return p.Pos + token.Pos(len(p.Literal))
+	}
+	return p.Pos + token.Pos(TokenLen(p.Kind))
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From 97dc15389a34e23ac026717cb6e8e28cd6101cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 06/17] fix: a match error at the end of the input could not be
 rendered

---
 tpl/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..89ddc25 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -130,7 +130,10 @@ func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n {
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From f3d5f157959018e816886b26c92e263d78503c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 07/17] fix: a doc rule that refers to itself was reported as
 missing

---
 tpl/compiler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..754fbe7 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -338,7 +338,13 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 		return
 	}
 
-	if root, ok := grammars["doc"]; ok {
+	root, ok := grammars["doc"]
+	if !ok {
+		if v, used := vars["doc"]; used { // "doc" is used before it is defined
+			root, ok = v, true
+		}
+	}
+	if ok {
 		for name, v := range vars {
 			if v.Elem == nil {
 				err = fmt.Errorf("variable `%s` is not assigned", name)
-- 
2.43.0


From 153761ff6cf27f2039ce9b58370d7baf3367eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 08/17] fix: a sequence that is a lone cut compiled to a nil
 grammar

---
 tpl/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 754fbe7..4dd6f6b 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -190,10 +190,10 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 
 	and := func(tokens []Token, g Grammar) {
 		m := g.Len()
-		if m == 1 {
+		n := len(stk)
+		if m == 1 && stk[n-1] != nil { // a lone cut is no grammar by itself
 			return
 		}
-		n := len(stk)
 		stk[n-m] = And(Clone(stk[n-m:])...)
 		stk = stk[:n-m+1]
 	}
-- 
2.43.0


From 7cfb34ce18f9155781ee06c077edde79c2cd70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 09/17] fix: printing a grammar dropped its cuts

---
 tpl/grammar.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 89ddc25..9746273 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -311,24 +311,35 @@ func (p *grAnd) Match(src []Token, ctx Context) (n int, err error) {
 }
 
 func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
-	if lvlParent > lvlAnd {
+	paren := lvlParent > lvlAnd || (lvlParent == lvlAnd && p.hasCut()) // a cut acts within its own sequence
+	if paren {
 		b = append(b, '(')
 	}
 	for i, g := range p.gs {
-		if g == nil {
-			continue
-		}
 		if i > 0 {
 			b = append(b, ' ')
 		}
+		if g == nil {
+			b = append(b, '!')
+			continue
+		}
 		b = g.Marshal(b, t, lvlAnd)
 	}
-	if lvlParent > lvlAnd {
+	if paren {
 		b = append(b, ')')
 	}
 	return b
 }
 
+func (p *grAnd) hasCut() bool {
+	for _, g := range p.gs {
+		if g == nil {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *grAnd) Len() int {
 	return len(p.gs)
 }
-- 
2.43.0


From 841ceb287ee6ea4eed3c886527605ea2b6843e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 10/17] fix: a list as the right operand of a list was printed
 without parentheses

---
 tpl/grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 9746273..7d02295 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -558,7 +558,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlRepeat) // a % b % c is (a % b) % c
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From aa97c978c49e44526be8580a0b532f1730936042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 11/17] fix: a nested one-or-more repetition was printed as ++

---
 tpl/grammar.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 7d02295..6cbce6b 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -469,7 +469,14 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 	b = append(b, '+')
-	return p.g.Marshal(b, t, lvlRepeat)
+	n := len(b)
+	b = p.g.Marshal(b, t, lvlRepeat)
+	if len(b) > n && b[n] == '+' { // "++" is another token
+		b = append(b, 0)
+		copy(b[n+1:], b[n:])
+		b[n] = ' '
+	}
+	return b
 }
 
 // Repeat1 represents +G
-- 
2.43.0


From 9f8764d9fd92351c5f03922f765a0bad333d78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 12/17] fix: an array member lost its items that matched before
 another member

---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..c1299c4 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]map[string]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From 21eff76578042fa2004c555a69be06fc2ee7adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 13/17] fix: an empty or signed numeric literal panicked or was
 given a value

---
 tpl/interpreter/interpreter.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..d073657 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -21,35 +21,28 @@ var (
 
 // ParseInt parses an integer value.
 func ParseInt(lit string) (v int64, err error) {
-	switch lit[0] {
-	case '0':
-		if len(lit) == 1 {
-			return
-		}
-		switch lit[1] {
-		case 'x', 'X':
-			return strconv.ParseInt(lit[2:], 16, 64)
-		default:
-			return strconv.ParseInt(lit[1:], 8, 64)
-		}
-	default:
+	if len(lit) < 2 || lit[0] != '0' {
 		return strconv.ParseInt(lit, 10, 64)
 	}
+	var u uint64 // no sign after the prefix, and the value fits an int64
+	switch lit[1] {
+	case 'x', 'X':
+		u, err = strconv.ParseUint(lit[2:], 16, 63)
+	default:
+		u, err = strconv.ParseUint(lit[1:], 8, 63)
+	}
+	return int64(u), err
 }
 
 // ParseFloat parses a float value.
 func ParseFloat(lit string) (v float64, err error) {
-	switch lit[0] {
-	case '0':
-		if len(lit) == 1 {
-			return
-		}
+	if len(lit) >= 2 && lit[0] == '0' {
 		switch lit[1] {
 		case 'x', 'X':
-			v1, err1 := strconv.ParseInt(lit[2:], 16, 64)
+			v1, err1 := ParseInt(lit)
 			return float64(v1), err1
 		default:
-			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)
+			v1, err1 := ParseInt(lit)
 			if err1 == nil {
 				return float64(v1), nil
 			}
-- 
2.43.0


From f1c33034842ee2555e203123c45e4cd778ff60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 14/17] fix: a float from an octal literal that overflows was
 read as decimal

---
 tpl/interpreter/interpreter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index d073657..5b761d1 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter.util"
@@ -43,8 +44,8 @@ func ParseFloat(lit string) (v float64, err error) {
 			return float64(v1), err1
 		default:
 			v1, err1 := ParseInt(lit)
-			if err1 == nil {
-				return float64(v1), nil
+			if err1 == nil || !strings.ContainsAny(lit, ".eE89") {
+				return float64(v1), err1
 			}
 		}
 	}
-- 
2.43.0


From 023f755fae4b337a96cec76a2e6046b41b353ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 15/17] fix: a panicking deferred call kept the remaining ones
 from running

---
 tpl/qlang/cl/function.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..5fa4bf0 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -301,12 +301,15 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
-		}
+	d := p.defers
+	if d == nil {
+		return
+	}
+	p.defers = d.next
+	defer p.ExecDefers(e) // the remaining ones run even if this one panics
+	if err := e.EvalCode(p, "expr", d.src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
-- 
2.43.0


From 23900f729d7c0665e915bdc4f0ac5f4440732c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 16/17] fix: storing nil in a slice element panicked

---
 tpl/qlang/lib/builtin/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index f3a75ef..a623127 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -139,7 +139,11 @@ func Set(m interface{}, args ...interface{}) {
 		}
 	case reflect.Slice:
 		for i := 0; i < n; i += 2 {
-			o.Index(args[i].(int)).Set(reflect.ValueOf(args[i+1]))
+			val := reflect.Zero(o.Type().Elem())
+			if t := args[i+1]; t != nil {
+				val = reflect.ValueOf(t)
+			}
+			o.Index(args[i].(int)).Set(val)
 		}
 	default:
 		qlang.Set(m, args...)
-- 
2.43.0


From 151a5d80d85edc12f6b4729ed3e1accf121ee198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 17/17] fix: a leaf marked Char took the value of texts that
 are no character literal

---
 tpl/extractor/extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/extractor/extractor.go b/tpl/extractor/extractor.go
index 20f3bd7..3e0f99a 100644
--- a/tpl/extractor/extractor.go
+++ b/tpl/extractor/extractor.go
@@ -40,6 +40,9 @@ func GetValue(typ string, lit string) interface{} {
 		}
 		return v
 	case "Char":
+		if n := len(lit); n < 2 || lit[0] != '\'' || lit[n-1] != '\'' {
+			panic("invalid char: " + lit)
+		}
 		v, multibyte, tail, err := strconv.UnquoteChar(lit[1:len(lit)-1], '\'')
 		if err != nil {
 			panic(err)
-- 
2.43.0

