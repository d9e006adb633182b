package tpl_test

import (
	"fmt"
	"go/token"
	"math/rand"
	"strings"
	"testing"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/zzverif/rt"
)

// ---- a reference reader of grammar text: recursive descent -----------------

type refGrammar struct {
	toks   []rtok
	p      int
	defs   map[string]*gnode
	vars   map[string]*gnode
	kws    map[string]uint
	kwList []string
	ltot   func(lit string) uint
	marks  map[string]int
	nMarks int // applications
}

type refBad string

func (x *refGrammar) bad(f string, a ...interface{}) { panic(refBad(fmt.Sprintf(f, a...))) }

func (x *refGrammar) kind() uint {
	if x.p < len(x.toks) {
		return x.toks[x.p].kind
	}
	return tpl.EOF
}

func (x *refGrammar) take(k uint) rtok {
	if x.kind() != k {
		x.bad("unexpected token %d", x.p)
	}
	x.p++
	return x.toks[x.p-1]
}

func (x *refGrammar) lit(l string) *gnode {
	q := l[0]
	in := ""
	if len(l) >= 2 {
		in = l[1 : len(l)-1]
	}
	if k, ok := refOps[in]; ok && (q == '\'' && len(in) == 1 || q == '"' && len(in) > 1) {
		return &gnode{k: gTok, tok: k}
	}
	if q != '"' {
		x.bad("unknown literal %s", l)
	}
	k, ok := x.kws[in]
	if !ok {
		k = x.ltot(l)
		x.kws[in] = k
		x.kwList = append(x.kwList, in)
	}
	return &gnode{k: gTok, tok: k}
}

var tokenNames = map[string]uint{"EOF": tpl.EOF, "COMMENT": tpl.COMMENT, "IDENT": tpl.IDENT, "INT": tpl.INT, "FLOAT": tpl.FLOAT, "IMAG": tpl.IMAG, "CHAR": tpl.CHAR, "STRING": tpl.STRING}

func (x *refGrammar) factor() *gnode {
	un := func(k gkind) *gnode {
		x.p++
		return &gnode{k: k, kids: []*gnode{x.factor()}}
	}
	switch x.kind() {
	case tpl.IDENT:
		name := x.take(tpl.IDENT).lit
		if name[0] >= 'A' && name[0] <= 'Z' {
			k, ok := tokenNames[name]
			if !ok {
				x.bad("unknown token %s", name)
			}
			return &gnode{k: gTok, tok: k}
		}
		if g, ok := x.defs[name]; ok {
			return &gnode{k: gNamed, name: name, kids: []*gnode{g}}
		}
		if g, ok := x.vars[name]; ok {
			return g
		}
		if name == "true" {
			return &gnode{k: gTrue}
		}
		g := &gnode{k: gRef, name: name, kids: []*gnode{nil}}
		x.vars[name] = g
		return g
	case tpl.CHAR:
		return x.lit(x.take(tpl.CHAR).lit)
	case tpl.STRING:
		return x.lit(x.take(tpl.STRING).lit)
	case tpl.INT:
		if l := x.take(tpl.INT).lit; l != "1" {
			x.bad("literal %s", l)
		}
		return &gnode{k: gTrue}
	case '*':
		return un(gStar)
	case '+':
		return un(gPlus)
	case '?':
		return un(gOpt)
	case '~':
		return un(gNot)
	case '@':
		return un(gPeek)
	case '(':
		x.p++
		g := x.choice()
		x.take(')')
		return g
	}
	x.bad("no factor at token %d", x.p)
	return nil
}

func (x *refGrammar) term() *gnode {
	a := x.factor()
	for {
		switch x.kind() {
		case '%':
			x.p++
			a = &gnode{k: gList, kids: []*gnode{a, x.factor()}}
		case tpl.REM_ASSIGN:
			x.p++
			a = &gnode{k: gList0, kids: []*gnode{a, x.factor()}}
		case '/':
			x.p++
			m := x.take(tpl.IDENT).lit
			id, ok := x.marks[m]
			if !ok {
				id = len(x.marks) + 1
				x.marks[m] = id
			}
			x.nMarks++
			a = &gnode{k: gAct, id: id, kids: []*gnode{a}}
		default:
			return a
		}
	}
}

func (x *refGrammar) seq() *gnode {
	g := &gnode{k: gAnd}
	for {
		switch k := x.kind(); k {
		case '!':
			x.p++
			g.kids = append(g.kids, nil)
		case tpl.IDENT, tpl.CHAR, tpl.STRING, tpl.INT, '*', '+', '?', '~', '@', '(':
			g.kids = append(g.kids, x.term())
		default:
			if len(g.kids) == 0 {
				x.bad("empty sequence at %d", x.p)
			}
			if len(g.kids) == 1 && g.kids[0] != nil {
				return g.kids[0]
			}
			return g
		}
	}
}

func (x *refGrammar) choice() *gnode {
	g := &gnode{k: gOr, kids: []*gnode{x.seq()}}
	for x.kind() == '|' {
		x.p++
		g.kids = append(g.kids, x.seq())
	}
	if len(g.kids) == 1 {
		return g.kids[0]
	}
	return g
}

func (x *refGrammar) doc(text string) (root *gnode, err error) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(refBad)
			if !ok {
				panic(e)
			}
			root, err = nil, fmt.Errorf("%s", string(b))
		}
	}()
	x.defs, x.vars, x.kws, x.marks = map[string]*gnode{}, map[string]*gnode{}, map[string]uint{}, map[string]int{}
	toks, bad := refScan([]byte(text), tpl.InsertSemis)
	if len(bad) > 0 {
		return nil, fmt.Errorf("lexical")
	}
	for _, t := range toks {
		if t.kind != tpl.EOF {
			x.toks = append(x.toks, t)
		}
	}
	if len(x.toks) == 0 {
		x.bad("empty")
	}
	for x.p < len(x.toks) {
		name := x.take(tpl.IDENT).lit
		x.take('=')
		g := x.choice()
		x.take(';')
		if v, ok := x.vars[name]; ok {
			if v.kids[0] != nil {
				x.bad("%s defined twice", name)
			}
			v.kids[0] = g
		} else if x.defs[name] != nil {
			x.bad("%s defined twice", name)
		} else {
			x.defs[name] = g
		}
	}
	for n, v := range x.vars {
		if v.kids[0] == nil {
			x.bad("%s undefined", n)
		}
	}
	if g, ok := x.defs["doc"]; ok {
		return g, nil
	}
	if g, ok := x.vars["doc"]; ok {
		return g, nil
	}
	x.bad("no doc")
	return
}

// ---- grammar texts

func quoteTok(k uint) string {
	for _, n := range []string{"IDENT", "INT", "FLOAT", "CHAR", "STRING"} {
		if tokenNames[n] == k {
			return n
		}
	}
	for s, v := range refOps {
		if v == k {
			if len(s) == 1 {
				return "'" + s + "'"
			}
			return `"` + s + `"`
		}
	}
	return fmt.Sprintf(`"kw%d"`, k)
}

// text writes a rule with just enough parentheses, and sometimes more.
func (g *gnode) text(r *rand.Rand, lvl int) string {
	if g == nil {
		return "!"
	}
	sp := func() string { return []string{" ", " ", "  ", "\t", " /*x*/ "}[r.Intn(5)] }
	join := func(s string, l int) string {
		var ks []string
		for _, k := range g.kids {
			ks = append(ks, k.text(r, l))
		}
		return strings.Join(ks, sp()+s+sp())
	}
	out, my := "", 3
	switch g.k {
	case gTok:
		out = quoteTok(g.tok)
	case gTrue:
		out = []string{"1", "true"}[r.Intn(2)]
	case gAnd:
		out, my = join("", 2), 1
	case gOr:
		out, my = join("|", 1), 0
	case gStar, gPlus, gOpt, gNot, gPeek:
		out = map[gkind]string{gStar: "*", gPlus: "+", gOpt: "?", gNot: "~", gPeek: "@"}[g.k] + " " + g.kids[0].text(r, 3)
	case gList, gList0:
		op := "%"
		if g.k == gList0 {
			op = "%="
		}
		out, my = g.kids[0].text(r, 2)+sp()+op+sp()+g.kids[1].text(r, 3), 2
	case gAct:
		out, my = g.kids[0].text(r, 2)+"/"+g.mark, 2
	case gRef, gNamed:
		out = g.name
	}
	if my < lvl || r.Intn(10) == 0 {
		out = "(" + sp() + out + ")"
	}
	return out
}

var ruleNames = []string{"x", "yy", "_z", "é", "doc", "expr"}

func genTextRule(r *rand.Rand, d int) *gnode {
	x := &ggen{rnd: r, cuts: true, text: true, toks: []uint{tpl.IDENT, tpl.INT, tpl.FLOAT, '+', '(', tpl.REM_ASSIGN, 0xb0, 0xb1}}
	g := x.gen(d)
	var deco func(g *gnode) *gnode
	deco = func(g *gnode) *gnode {
		if g == nil {
			return nil
		}
		for i := range g.kids {
			g.kids[i] = deco(g.kids[i])
		}
		if g.k == gTok && r.Intn(4) == 0 {
			g = &gnode{k: gRef, name: ruleNames[r.Intn(len(ruleNames))]}
		}
		if r.Intn(8) == 0 {
			g = &gnode{k: gAct, mark: []string{"m", "ARITY", "_"}[r.Intn(3)], kids: []*gnode{g}}
		}
		return g
	}
	return deco(g)
}

func genGrammarText(r *rand.Rand) string {
	var b strings.Builder
	names := append([]string{}, ruleNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if r.Intn(6) == 0 {
		names = names[:1+r.Intn(len(names))]
	}
	if r.Intn(8) == 0 {
		names = append(names, names[r.Intn(len(names))])
	}
	for _, n := range names {
		fmt.Fprintf(&b, "%s =%s%s%s", n, []string{" ", "\n", "\n\t"}[r.Intn(3)], genTextRule(r, 1+r.Intn(3)).text(r, 0), []string{";", "\n", ";\n", " ;", "; // c\n"}[r.Intn(5)])
	}
	return b.String()
}

var soup = []string{"x", "doc", "=", ";", "\n", "'+'", `"kw"`, "IDENT", "INT", "EOF", "NOPE", "1", "2", "1.5", "*", "+", "?", "~", "@", "(", ")", "%", "%=", "/", "|", "!", "'a'", "`r`", `""`, `"+="`, `"+"`, "true", "m", "_", "[", "++", "'\\n'", `"`, "/*"}

func genSoup(r *rand.Rand, base string) string {
	if base != "" && r.Intn(3) > 0 { // damage a text
		toks := strings.Fields(strings.NewReplacer("/", " / ", ";", " ; ", "(", " ( ", ")", " ) ").Replace(base))
		for i := 0; i <= r.Intn(2) && len(toks) > 0; i++ {
			j := r.Intn(len(toks))
			switch r.Intn(3) {
			case 0:
				toks = append(toks[:j], toks[j+1:]...)
			case 1:
				toks[j] = soup[r.Intn(len(soup))]
			default:
				toks = append(toks[:j], append([]string{soup[r.Intn(len(soup))]}, toks[j:]...)...)
			}
		}
		return strings.Join(toks, " ")
	}
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString("doc = ")
	}
	for n := r.Intn(8); n >= 0; n-- {
		b.WriteString(soup[r.Intn(len(soup))] + " ")
	}
	if r.Intn(2) == 0 {
		b.WriteString(";")
	}
	return b.String()
}

// both compiles a text and reads it with the reference.
func both(text string) (ret tpl.CompileRet, err error, x *refGrammar, root *gnode, rerr error, real *[]string, calls *int) {
	x = &refGrammar{}
	log := []string{}
	real = &log
	calls = new(int)
	scanner := new(tpl.AutoKwScanner)
	id := map[string]int{}
	c := &tpl.Compiler{Grammar: []byte(text), Scanner: scanner, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		*calls++
		if id[mark] == 0 {
			id[mark] = len(id) + 1
		}
		k := id[mark]
		return tpl.Action(g, func(tokens []tpl.Token, g2 tpl.Grammar) {
			at := 0
			if cap(tokens) > 0 {
				at = int(tokens[:1][0].Pos) - 1
			}
			*real = append(*real, fmt.Sprintf("act%d %d+%d len%d", k, at, len(tokens), g2.Len()))
			if g2 != g {
				*real = append(*real, "another rule")
			}
		})
	}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("panic: %v", e)
			}
		}()
		ret, err = c.Cl()
	}()
	if err != nil { // the reference needs no kinds
		x.ltot = func(string) uint { return 0xb0 }
	} else {
		x.ltot = scanner.Ltot
	}
	root, rerr = x.doc(text)
	return
}

func (x *refGrammar) alphabet() []uint {
	a := []uint{tpl.IDENT, tpl.INT, '+', '('}
	for i, k := range x.kwList {
		if i < 2 {
			a = append(a, x.kws[k])
		}
	}
	return a
}

func TestReplay_C01(t *testing.T) {
	r := rt.New(t, "random grammar texts (several rules, names used before and after their definition, marks, keywords, cuts, redundant parentheses) compiled and compared in behaviour and mark calls with a recursive-descent reading of the same text; distinct texts that compile")
	defer r.Done()
	for i := 0; i < r.Scale(6000) && r.Left(); i++ {
		text := genGrammarText(r.Rnd)
		if i%7 == 0 {
			text = genSoup(r.Rnd, text)
		}
		if i < len(fixedGrammars) {
			text = fixedGrammars[i]
		}
		ret, err, x, root, rerr, real, calls := both(text)
		if rerr != nil {
			r.Case("")
			continue
		}
		r.Case(text)
		if err != nil {
			r.Fail("compile", "%q does not compile: %v", text, err)
			continue
		}
		if *calls != x.nMarks {
			r.Fail("marks", "%q: %d marks applied, want %d", text, *calls, x.nMarks)
		}
		alpha := x.alphabet()
		if !sameLang(r, "language", fmt.Sprintf("%q", text), root, ret.Grammar, alpha, 10) {
			continue
		}
		for j := 0; j < 6; j++ {
			s := genKinds(r.Rnd, 9, alpha)
			if j > 1 {
				s = root.generate(r.Rnd, 9)
			}
			c, ok := expect(root, s)
			if !ok {
				continue
			}
			*real = nil
			func() {
				defer func() { recover() }()
				ret.Grammar.Match(kindToks(s), ret.Matcher)
			}()
			if a, b := strings.Join(*real, ", "), strings.Join(c.wlog, ", "); a != b {
				r.Fail("mark-calls", "%q on %s: marks called %s, want %s", text, kindsText(s), a, b)
				break
			}
		}
		for n, g := range x.defs {
			if ret.Grammars[n] == nil {
				r.Fail("names", "%q: rule %s is not in the result", text, n)
			} else if i%10 == 0 {
				sameLang(r, "names", fmt.Sprintf("rule %s of %q", n, text), g, ret.Grammars[n], alpha[:2], 3)
			}
		}
		for n := range x.vars {
			if ret.Vars[n] == nil {
				r.Fail("names", "%q: variable %s is not in the result", text, n)
			}
		}
	}
}

var fixedGrammars = []string{
	"doc = ?doc IDENT;", "doc = IDENT doc | INT;", "doc = !;", "doc = IDENT ! INT | IDENT;", "doc = IDENT % '+' % INT;", "doc = * IDENT % '+' / m;", "doc = IDENT %= '+' INT | '+';",
	"true = INT; doc = true;", "doc = true;", "x = IDENT; doc = x x;", "doc = x x; x = IDENT;", `doc = "a" "b" "a" "+=" '+';`, "doc = 1 | IDENT", "doc = (IDENT | INT) '+'\n", "Foo = IDENT; doc = INT;", "doc = @IDENT IDENT ~INT;",
	"doc = a; a = b; b = IDENT/m a | INT/n;", "doc = IDENT/a/b/c;", "doc = (IDENT/a INT/b)/c % '+';", "doc = ? + * IDENT;", "doc = + ? (IDENT INT);", "doc = IDENT (! INT) '+' | IDENT INT INT;",
}

func TestReplay_C02(t *testing.T) {
	r := rt.New(t, "damaged and random grammar texts: compiling succeeds exactly when a recursive-descent reading accepts; distinct rejected texts")
	defer r.Done()
	bads := []string{"", ";", "x = IDENT;", "doc = ;", "doc = y;", "doc = IDENT; doc = INT;", "doc = x; x = INT; x = IDENT;", "x = INT; x = IDENT; doc = x;", "doc = 'a';", "doc = `a`;", "doc = NOPE;", "doc = ILLEGAL;", "doc = 2;", "doc = 01;", "doc = (IDENT;", "doc = IDENT);", "doc = IDENT |;", "doc = | IDENT;", "doc = IDENT %;", "doc = IDENT/;", "doc = IDENT/1;", "doc IDENT;", "doc == IDENT;", "doc = IDENT; y", "doc = x y; x = IDENT;", "doc = doc2; doc3 = 1;", "doc = [IDENT];", "doc = *;", "doc = IDENT \"x", "doc = '';", "doc = 'ab';", "y = doc; doc = y; doc = 1;", "x = z; doc = IDENT;"}
	for i := 0; i < r.Scale(30000) && r.Left(); i++ {
		var text string
		if i < len(bads) {
			text = bads[i]
		} else {
			base := ""
			if i%2 == 0 {
				base = genGrammarText(r.Rnd)
			}
			text = genSoup(r.Rnd, base)
		}
		ret, err, _, _, rerr, _, _ := both(text)
		d := ""
		if rerr != nil {
			d = text
		}
		r.Case(d)
		if (err == nil) != (rerr == nil) {
			r.Fail("reject", "%q: compiling gives %v, want %v", text, err, rerr)
		}
		if err != nil && ret.Matcher != nil {
			r.Fail("usable", "%q: rejected with a usable rule", text)
		}
	}
}

func TestReplay_C03(t *testing.T) {
	r := rt.New(t, "random sets of keyword literals (repeated, operator-like, prefixes of each other), then random texts scanned with the grammar's scanner; distinct scanned texts with keywords")
	defer r.Done()
	words := []string{"if", "else", "i", "iff", "fn", "_", "é", "x1", "While", "IDENT", "EOF", "true"}
	for i := 0; i < r.Scale(4000) && r.Left(); i++ {
		var used []string
		text := "doc = *("
		for n := 1 + r.Rnd.Intn(7); n > 0; n-- {
			w := words[r.Rnd.Intn(len(words))]
			used = append(used, w)
			text += `"` + w + `"`
			if n > 1 {
				text += []string{" ", " | ", " ?"}[r.Rnd.Intn(3)]
			}
		}
		text += `) "+=" '+';`
		c := &tpl.Compiler{Grammar: []byte(text)}
		ret, err := c.Cl()
		if err != nil {
			r.Fail("compile", "%s: %v", text, err)
			continue
		}
		s := ret.Tokener()
		kinds := map[uint]string{}
		kw := map[string]uint{}
		for _, w := range used {
			k := s.Ltot(`"` + w + `"`)
			if k < tpl.USER_TOKEN_BEGIN {
				r.Fail("kind", "%s: keyword %s has kind %d", text, w, k)
			}
			if o, ok := kinds[k]; ok && o != w {
				r.Fail("distinct", "%s: %s and %s share a kind", text, o, w)
			}
			if o, ok := kw[w]; ok && o != k {
				r.Fail("kind", "%s: keyword %s has two kinds", text, w)
			}
			kinds[k], kw[w] = w, k
			if got := s.Ttol(k); got != `"`+w+`"` {
				r.Fail("spelling", "%s: kind %d of %s is spelled %s", text, k, w, got)
			}
		}
		if s.Ltot(`"+="`) != tpl.ADD_ASSIGN || s.Ttol(tpl.ADD_ASSIGN) != `"+="` || s.Ltot("IDENT") != tpl.IDENT || s.Ttol('+') != "'+'" {
			r.Fail("operators", "%s: the spelling of an operator or token class changed", text)
		}
		for j := 0; j < 3; j++ {
			var src []string
			for n := r.Rnd.Intn(8); n > 0; n-- {
				src = append(src, append(words, "foo", "12", "+=", `"if"`, "'i'", "ifx", "+", "(", "iF")[r.Rnd.Intn(len(words)+9)])
			}
			in := strings.Join(src, []string{" ", "\n"}[r.Rnd.Intn(2)])
			var toks []tpl.Token
			if r.Rnd.Intn(2) == 0 {
				toks, err = ret.Tokenize([]byte(in), "")
				if err != nil {
					r.Fail("scan", "%s: %q: %v", text, in, err)
					continue
				}
			} else {
				s.Init(token.NewFileSet().AddFile("", -1, len(in)), []byte(in), nil, 0)
				for t := s.Scan(); t.Kind != tpl.EOF && len(toks) < 100; t = s.Scan() {
					toks = append(toks, t)
				}
			}
			want, _ := refScan([]byte(in), 0)
			d := ""
			for _, w := range src {
				if kw[w] != 0 {
					d = text + in
				}
			}
			r.Case(d)
			k := 0
			for _, t := range want {
				if t.kind == tpl.EOF {
					break
				}
				wk := t.kind
				if wk == tpl.IDENT && kw[t.lit] != 0 {
					wk = kw[t.lit]
				}
				if k >= len(toks) || toks[k].Kind != wk || toks[k].Literal != t.lit {
					r.Fail("scan", "%s: %q: token %d is not %q of kind %d", text, in, k, t.lit, wk)
					break
				}
				k++
			}
		}
	}
}
