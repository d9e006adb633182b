package tpl_test

import (
	"bytes"
	"errors"
	"fmt"
	"go/token"
	"math/rand"
	"strings"
	"testing"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/zzverif/rt"
)

// ---- a reference for grammars, written from PEG semantics ------------------

type gkind int

const (
	gTok gkind = iota
	gTrue
	gEOF
	gAnd // nil kid: cut
	gOr
	gStar
	gPlus
	gOpt
	gList
	gList0
	gNot
	gPeek
	gRef   // kids[0] is the definition (may be nil: unassigned)
	gNamed // same, but bound at once
	gAct
	gTrans
)

type gnode struct {
	k    gkind
	kids []*gnode
	tok  uint
	name string
	id   int // of actions and transactions
	n    int // elements matched last
	g    tpl.Grammar
	mark string
}

type diverge struct{}
type refAbort struct {
	at    *gnode
	start int
	idx   int
	inner gres
}

type gres struct {
	n  int
	ok bool
	by *gnode // the rule whose own error it is, nil: the unassigned variable
	at int    // where that rule was applied
}

type gref struct {
	src   []uint
	log   []string
	depth int
	steps int
}

func (r *gref) fail(g *gnode, i, n int) gres { return gres{n, false, g, i} }

func (r *gref) match(g *gnode, i int) gres {
	r.depth++
	r.steps++
	if r.depth > 120 || r.steps > 20000 {
		panic(diverge{})
	}
	defer func() { r.depth-- }()
	switch g.k {
	case gTok:
		if i < len(r.src) && (r.src[i] == g.tok || g.tok == tpl.FLOAT && r.src[i] == tpl.INT) {
			return gres{1, true, nil, 0}
		}
		return r.fail(g, i, 0)
	case gTrue:
		return gres{0, true, nil, 0}
	case gEOF:
		if i == len(r.src) {
			return gres{0, true, nil, 0}
		}
		return r.fail(g, i, 0)
	case gAnd:
		n, cut := 0, false
		for _, k := range g.kids {
			if k == nil {
				cut = true
				continue
			}
			x := r.match(k, i+n)
			if !x.ok {
				if cut {
					panic(refAbort{g, i, n + x.n, x})
				}
				x.n += n
				return x
			}
			n += x.n
		}
		return gres{n, true, nil, 0}
	case gOr:
		best, cnt := gres{}, 0
		for _, k := range g.kids {
			x := r.match(k, i)
			if x.ok {
				return x
			}
			if x.n > best.n {
				best, cnt = x, 1
			} else if x.n == best.n {
				cnt += 2
			}
		}
		if best.n > 0 && cnt == 1 {
			return best
		}
		return r.fail(g, i, best.n)
	case gStar, gPlus, gOpt:
		n, c := 0, 0
		for {
			x := r.match(g.kids[0], i+n)
			if !x.ok {
				if g.k == gPlus && c == 0 {
					g.n = 0
					return x
				}
				break
			}
			n += x.n
			c++
			if g.k == gOpt {
				break
			}
			if x.n == 0 {
				panic(diverge{})
			}
		}
		g.n = c
		return gres{n, true, nil, 0}
	case gList, gList0:
		x := r.match(g.kids[0], i)
		if !x.ok {
			g.n = 0
			if g.k == gList0 {
				return gres{0, true, nil, 0}
			}
			return x
		}
		n, c := x.n, 1
		for {
			s := r.match(g.kids[1], i+n)
			if !s.ok {
				break
			}
			e := r.match(g.kids[0], i+n+s.n)
			if !e.ok {
				break
			}
			if s.n+e.n == 0 {
				panic(diverge{})
			}
			n += s.n + e.n
			c++
		}
		g.n = c
		return gres{n, true, nil, 0}
	case gNot, gPeek:
		if r.match(g.kids[0], i).ok == (g.k == gPeek) {
			return gres{0, true, nil, 0}
		}
		return r.fail(g, i, 0)
	case gRef, gNamed:
		if g.kids[0] == nil {
			return gres{0, false, nil, i}
		}
		return r.match(g.kids[0], i)
	case gAct:
		x := r.match(g.kids[0], i)
		if x.ok {
			r.log = append(r.log, fmt.Sprintf("act%d %d+%d len%d", g.id, i, x.n, g.kids[0].length()))
		}
		return x
	case gTrans:
		r.log = append(r.log, fmt.Sprintf("begin%d", g.id))
		x := r.match(g.kids[0], i)
		r.log = append(r.log, fmt.Sprintf("end%d ok=%v", g.id, x.ok))
		return x
	}
	panic("kind")
}

func (g *gnode) length() int {
	switch g.k {
	case gAnd, gOr:
		return len(g.kids)
	case gStar, gPlus, gOpt, gList, gList0:
		return g.n
	case gAct, gTrans:
		return g.kids[0].length()
	}
	return -1
}

// ---- the same rule built with the constructors under test

type gbuild struct {
	log  []string
	nest int
	toks []tpl.Token
	bad  string
	vars map[*gnode]*tpl.GrVar
	done map[*gnode]tpl.Grammar
}

func (b *gbuild) build(g *gnode) tpl.Grammar {
	if g == nil {
		return nil
	}
	if x, ok := b.done[g]; ok {
		return x
	}
	var ks []tpl.Grammar
	if g.k != gRef {
		for _, k := range g.kids {
			ks = append(ks, b.build(k))
		}
	}
	var x tpl.Grammar
	switch g.k {
	case gTok:
		x = tpl.Gr(g.tok)
	case gTrue:
		x = tpl.GrTrue
	case gEOF:
		x = tpl.GrEOF
	case gAnd:
		x = tpl.And(ks...)
	case gOr:
		x = tpl.Or(ks...)
	case gStar:
		x = tpl.Repeat0(ks[0])
	case gPlus:
		x = tpl.Repeat1(ks[0])
	case gOpt:
		x = tpl.Repeat01(ks[0])
	case gList:
		x = tpl.List(ks[0], ks[1])
	case gList0:
		x = tpl.List0(ks[0], ks[1])
	case gNot:
		x = tpl.Not(ks[0])
	case gPeek:
		x = tpl.Peek(ks[0])
	case gNamed:
		x = tpl.Named(g.name, ks[0])
	case gRef:
		if w, ok := b.vars[g]; ok {
			return w
		}
		w := tpl.Var(g.name)
		b.vars[g] = w
		if g.kids[0] != nil {
			e := b.build(g.kids[0])
			if err := w.Assign(e); err != nil {
				b.bad = "assigning a variable: " + err.Error()
			}
		}
		x = w
	case gAct:
		id, kid := g.id, ks[0]
		x = tpl.Action(ks[0], func(tokens []tpl.Token, g tpl.Grammar) {
			at := -1
			if len(tokens) > 0 {
				at = int(tokens[0].Pos) - 1
			} else if cap(tokens) > 0 {
				at = int(tokens[:1][0].Pos) - 1
			}
			if g != kid {
				b.bad = fmt.Sprintf("action %d got another rule", id)
			}
			b.log = append(b.log, fmt.Sprintf("act%d %d+%d len%d", id, at, len(tokens), g.Len()))
			for i, t := range tokens {
				if t != b.toks[at+i] {
					b.bad = fmt.Sprintf("action %d got other tokens", id)
				}
			}
		})
	case gTrans:
		id := g.id
		x = tpl.Transaction(ks[0], func() interface{} {
			b.nest++
			b.log = append(b.log, fmt.Sprintf("begin%d", id))
			return fmt.Sprint("T", id, "/", b.nest)
		}, func(tr interface{}, err error) {
			b.log = append(b.log, fmt.Sprintf("end%d ok=%v", id, err == nil))
			if s, ok := tr.(string); !ok || !strings.HasPrefix(s, fmt.Sprint("T", id, "/")) {
				b.bad = fmt.Sprintf("transaction %d ended with %v", id, tr)
			}
		})
	}
	g.g = x
	if b.done == nil {
		b.done = map[*gnode]tpl.Grammar{}
	}
	b.done[g] = x
	return x
}

func (g *gnode) String() string {
	if g == nil {
		return "!"
	}
	var ks []string
	if g.k != gRef {
		for _, k := range g.kids {
			ks = append(ks, k.String())
		}
	}
	j := func(s string) string { return "(" + strings.Join(ks, s) + ")" }
	switch g.k {
	case gTok:
		return kindName(g.tok)
	case gTrue:
		return "1"
	case gEOF:
		return "EOF"
	case gAnd:
		return j(" ")
	case gOr:
		return j(" | ")
	case gStar:
		return "*" + ks[0]
	case gPlus:
		return "+" + ks[0]
	case gOpt:
		return "?" + ks[0]
	case gList:
		return j(" % ")
	case gList0:
		return j(" %= ")
	case gNot:
		return "~" + ks[0]
	case gPeek:
		return "@" + ks[0]
	case gNamed:
		return g.name + "=" + ks[0]
	case gRef:
		return "$" + g.name
	case gAct:
		return fmt.Sprintf("%s/act%d", ks[0], g.id)
	case gTrans:
		return fmt.Sprintf("%s/trans%d", ks[0], g.id)
	}
	return "?"
}

func kindName(k uint) string {
	switch k {
	case tpl.INT:
		return "INT"
	case tpl.FLOAT:
		return "FLOAT"
	case tpl.IDENT:
		return "IDENT"
	}
	if k < 0x80 {
		return fmt.Sprintf("'%c'", rune(k))
	}
	return fmt.Sprint("#", k)
}

func kindsText(src []uint) string {
	var ss []string
	for _, k := range src {
		ss = append(ss, kindName(k))
	}
	return "[" + strings.Join(ss, " ") + "]"
}

var alphabet = []uint{tpl.IDENT, tpl.INT, '+', ','}

type ggen struct {
	rnd   *rand.Rand
	acts  bool
	cuts  bool
	refs  bool
	text  bool // only what grammar text can say
	ids   int
	refsL []*gnode
	toks  []uint
}

func (x *ggen) gen(d int) *gnode {
	r := x.rnd
	toks := x.toks
	if toks == nil {
		toks = []uint{tpl.IDENT, tpl.INT, '+', ',', tpl.FLOAT}
	}
	if d <= 0 || r.Intn(7) == 0 {
		switch n := r.Intn(14); {
		case n == 0:
			return &gnode{k: gTrue}
		case n == 1:
			if x.text {
				return &gnode{k: gTok, tok: tpl.FLOAT}
			}
			return &gnode{k: gEOF}
		case n == 2 && x.refs && len(x.refsL) > 0:
			return x.refsL[r.Intn(len(x.refsL))]
		}
		return &gnode{k: gTok, tok: toks[r.Intn(len(toks))]}
	}
	one := func(k gkind) *gnode { return &gnode{k: k, kids: []*gnode{x.gen(d - 1)}} }
	switch n := r.Intn(20); {
	case n < 5:
		g := &gnode{k: gAnd}
		m := 1 + r.Intn(3)
		if x.text && m == 1 {
			m = 2
		}
		for i := 0; i < m; i++ {
			if x.cuts && r.Intn(6) == 0 {
				g.kids = append(g.kids, nil)
			}
			g.kids = append(g.kids, x.gen(d-1))
		}
		if x.cuts && r.Intn(20) == 0 {
			g.kids = append(g.kids, nil)
		}
		return g
	case n < 9:
		g := &gnode{k: gOr}
		for i := 0; i < 2+r.Intn(2); i++ {
			g.kids = append(g.kids, x.gen(d-1))
		}
		return g
	case n < 11:
		return one(gStar)
	case n < 12:
		return one(gPlus)
	case n < 13:
		return one(gOpt)
	case n < 14:
		return one(gNot)
	case n < 15:
		return one(gPeek)
	case n < 17:
		return &gnode{k: gList + gkind(r.Intn(2)), kids: []*gnode{x.gen(d - 1), x.gen(d - 1)}}
	case n < 19:
		if x.acts {
			x.ids++
			id := x.ids
			g := one(gAct + gkind(r.Intn(2)))
			g.id = id
			return g
		}
		return one(gOpt)
	}
	if x.refs {
		x.ids++
		g := &gnode{k: gRef, name: fmt.Sprint("v", x.ids), kids: []*gnode{nil}}
		if r.Intn(12) == 0 {
			return g
		}
		if r.Intn(3) == 0 {
			g.k = gNamed
			g.kids[0] = x.gen(d - 1)
			return g
		}
		x.refsL = append(x.refsL, g)
		g.kids[0] = x.gen(d - 1)
		return g
	}
	return one(gStar)
}

func genKinds(r *rand.Rand, max int, alpha []uint) []uint {
	n := r.Intn(max + 1)
	s := make([]uint, n)
	for i := range s {
		if i > 0 && r.Intn(3) == 0 {
			s[i] = s[i-1]
		} else {
			s[i] = alpha[r.Intn(len(alpha))]
		}
	}
	return s
}

// generate makes a token sequence the rule is likely to accept.
func (g *gnode) generate(r *rand.Rand, d int) (s []uint) {
	if g == nil || d <= 0 {
		return nil
	}
	rep := func(k *gnode, min int) {
		for i := 0; i < min+r.Intn(3); i++ {
			s = append(s, k.generate(r, d-1)...)
		}
	}
	switch g.k {
	case gTok:
		if g.tok == tpl.FLOAT && r.Intn(2) == 0 {
			return []uint{tpl.INT}
		}
		return []uint{g.tok}
	case gAnd:
		for _, k := range g.kids {
			s = append(s, k.generate(r, d-1)...)
		}
	case gOr:
		return g.kids[r.Intn(len(g.kids))].generate(r, d-1)
	case gStar, gOpt:
		rep(g.kids[0], 0)
	case gPlus:
		rep(g.kids[0], 1)
	case gList, gList0:
		s = g.kids[0].generate(r, d-1)
		for i := 0; i < r.Intn(3); i++ {
			s = append(append(s, g.kids[1].generate(r, d-1)...), g.kids[0].generate(r, d-1)...)
		}
	case gRef, gNamed, gAct, gTrans:
		return g.kids[0].generate(r, d-1)
	}
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func kindToks(src []uint) []tpl.Token {
	toks := make([]tpl.Token, len(src)+1)
	for i, k := range src {
		toks[i] = tpl.Token{Pos: token.Pos(i + 1), Kind: k, Literal: fmt.Sprint("t", i)}
	}
	toks[len(src)] = tpl.Token{Pos: token.Pos(len(src) + 1), Kind: tpl.EOF}
	return toks[:len(src)]
}

type gcase struct {
	g     *gnode
	src   []uint
	want  gres
	abort *refAbort
	wlog  []string
	rref  *gref
}

// expect runs the reference; false when the rule would not terminate.
func expect(g *gnode, src []uint) (c gcase, ok bool) {
	c.g, c.src = g, src
	r := &gref{src: src}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case diverge:
				ok = false
			case refAbort:
				c.abort = &x
				c.wlog = r.log
				ok = true
			default:
				panic(e)
			}
		}
	}()
	c.want = r.match(g, 0)
	c.wlog = r.log
	return c, true
}

// cases drives random and exhaustive small rules against token sequences.
func cases(r *rt.R, acts, cuts, refs bool, f func(c gcase)) {
	try := func(g *gnode, src []uint) {
		if c, ok := expect(g, src); ok {
			f(c)
		}
	}
	// small rules over every short sequence
	var leafs []*gnode
	for _, k := range []uint{tpl.IDENT, tpl.FLOAT, '+'} {
		leafs = append(leafs, &gnode{k: gTok, tok: k})
	}
	leafs = append(leafs, &gnode{k: gTrue}, &gnode{k: gEOF})
	a, b, p := leafs[0], leafs[1], leafs[2]
	un := func(k gkind, g *gnode) *gnode { return &gnode{k: k, kids: []*gnode{g}} }
	bin := func(k gkind, g ...*gnode) *gnode { return &gnode{k: k, kids: g} }
	lvl1 := append([]*gnode{}, leafs...)
	for _, k := range []gkind{gStar, gPlus, gOpt, gNot, gPeek} {
		lvl1 = append(lvl1, un(k, a), un(k, p))
	}
	lvl1 = append(lvl1, bin(gAnd, a, p), bin(gAnd, a, b), bin(gOr, a, p), bin(gList, a, p), bin(gList0, a, p), bin(gAnd, a), bin(gAnd), bin(gOr, a, bin(gAnd, a, p)))
	var lvl2 []*gnode
	for _, x := range lvl1 {
		for _, k := range []gkind{gStar, gPlus, gOpt, gNot, gPeek} {
			lvl2 = append(lvl2, un(k, x))
		}
		for _, y := range lvl1 {
			lvl2 = append(lvl2, bin(gAnd, x, y), bin(gOr, x, y), bin(gList, x, y), bin(gList0, x, y))
			if cuts {
				lvl2 = append(lvl2, bin(gAnd, x, nil, y), bin(gAnd, nil, x, y))
				lvl2 = append(lvl2, bin(gOr, bin(gAnd, x, nil, y), a), un(gOpt, bin(gAnd, x, nil, y)), un(gStar, bin(gAnd, x, nil, y)),
					un(gNot, bin(gAnd, x, nil, y)), un(gPeek, bin(gAnd, x, nil, y)), bin(gList, x, bin(gAnd, p, nil, y)))
			}
		}
	}
	var seqs [][]uint
	seqs = append(seqs, nil)
	for i, n := 0, 0; i < 3; i++ {
		m := len(seqs)
		for ; n < m; n++ {
			for _, k := range []uint{tpl.IDENT, tpl.INT, '+'} {
				seqs = append(seqs, append(append([]uint{}, seqs[n]...), k))
			}
		}
	}
	id := 0
	for _, g := range append(lvl1, lvl2...) {
		if acts {
			id++
			g = &gnode{k: gAct + gkind(id%2), id: id, kids: []*gnode{g}}
		}
		for _, s := range seqs {
			try(g, s)
		}
	}
	for i := 0; i < r.Scale(25000) && r.Left(); i++ {
		x := &ggen{rnd: r.Rnd, acts: acts, cuts: cuts, refs: refs}
		g := x.gen(1 + r.Rnd.Intn(4))
		for j := 0; j < 4; j++ {
			s := genKinds(r.Rnd, 8, alphabet)
			if j%2 == 0 {
				s = g.generate(r.Rnd, 8)
				if len(s) > 0 && r.Rnd.Intn(2) == 0 {
					s[r.Rnd.Intn(len(s))] = alphabet[r.Rnd.Intn(len(alphabet))]
				}
			}
			try(g, s)
		}
	}
}

type gout struct {
	n   int
	err error
	pan interface{}
	b   *gbuild
	g   tpl.Grammar
	tk  []tpl.Token
	ctx *tpl.Matcher
}

// run applies the real rule.
func (c *gcase) run() (o gout) {
	b := &gbuild{vars: map[*gnode]*tpl.GrVar{}}
	o.b = b
	o.g = b.build(c.g)
	o.tk = kindToks(c.src)
	b.toks = o.tk
	o.ctx = &tpl.Matcher{Scanner: new(tpl.Scanner)}
	func() {
		defer func() { o.pan = recover() }()
		o.n, o.err = o.g.Match(o.tk, o.ctx)
	}()
	return
}

func (c *gcase) desc() string { return c.g.String() + " on " + kindsText(c.src) }

func (o *gout) String() string {
	if o.pan != nil {
		return "aborts"
	}
	if o.err != nil {
		return fmt.Sprintf("fails after %d", o.n)
	}
	return fmt.Sprintf("consumes %d", o.n)
}

func (c *gcase) wantText() string {
	if c.abort != nil {
		return "aborts"
	}
	if !c.want.ok {
		return fmt.Sprintf("fails after %d", c.want.n)
	}
	return fmt.Sprintf("consumes %d", c.want.n)
}

func verdict(r *rt.R, c *gcase, o *gout) bool {
	if (c.abort != nil) != (o.pan != nil) || c.abort == nil && ((o.err == nil) != c.want.ok || c.want.ok && o.n != c.want.n) {
		r.Fail("verdict", "%s: %s, want: %s (panic %v)", c.desc(), o, c.wantText(), o.pan)
		return false
	}
	return true
}

func TestReplay_M01(t *testing.T) {
	r := rt.New(t, "random and small exhaustive rule trees on token sequences of up to 40 tokens against a reference PEG interpreter; distinct (rule, input) pairs that match or fail after progress")
	defer r.Done()
	cases(r, false, false, true, func(c gcase) {
		o := c.run()
		d := ""
		if c.want.n > 0 {
			d = c.desc()
		}
		r.Case(d)
		if verdict(r, &c, &o) && !c.want.ok && c.want.by == nil && !errors.Is(o.err, tpl.ErrVarNotAssigned) {
			r.Fail("unassigned", "%s: error %v, want the unassigned variable's", c.desc(), o.err)
		}
	})
	v := tpl.Var("x")
	r.Case("assigning twice")
	if e1, e2 := v.Assign(tpl.GrTrue), v.Assign(tpl.GrEOF); e1 != nil || e2 == nil {
		r.Fail("assign", "assigning a variable twice: %v, %v", e1, e2)
	}
}

func TestReplay_M02(t *testing.T) {
	r := rt.New(t, "as M01, with the reported lengths of every repetition, option and list compared after the match (actions report them at each success)")
	defer r.Done()
	cases(r, true, false, true, func(c gcase) {
		o := c.run()
		d := ""
		if c.want.n > 1 {
			d = c.desc()
		}
		r.Case(d)
		if !verdict(r, &c, &o) {
			return
		}
		if c.g.k >= gStar && c.g.k <= gList0 && o.g.Len() != c.g.n {
			r.Fail("len", "%s: length %d, want %d", c.desc(), o.g.Len(), c.g.n)
		}
		lens := func(l []string) string {
			var x []string
			for _, s := range l {
				if strings.HasPrefix(s, "act") {
					x = append(x, s)
				}
			}
			return strings.Join(x, ",")
		}
		if a, b := lens(o.b.log), lens(c.wlog); a != b {
			r.Fail("len", "%s: actions saw %s, want %s", c.desc(), a, b)
		}
	})
}

func TestReplay_M03(t *testing.T) {
	r := rt.New(t, "rules below a lookahead, the empty, end and token rules at every position of token sequences; random rules as M01")
	defer r.Done()
	for k := uint(0); k < 0xb4; k++ {
		for q := uint(0); q < 0xb4; q++ {
			g := &gnode{k: gTok, tok: k}
			c, _ := expect(g, []uint{q, k})
			o := c.run()
			d := ""
			if k == q || k == tpl.FLOAT {
				d = c.desc()
			}
			r.Case(d)
			verdict(r, &c, &o)
		}
	}
	cases(r, false, false, true, func(c gcase) {
		for _, k := range []gkind{gNot, gPeek} {
			g := &gnode{k: k, kids: []*gnode{c.g}}
			c, ok := expect(g, c.src)
			if !ok {
				continue
			}
			o := c.run()
			d := ""
			if c.want.ok {
				d = c.desc()
			}
			r.Case(d)
			verdict(r, &c, &o)
		}
	})
}

func TestReplay_M04(t *testing.T) {
	r := rt.New(t, "as M01 with cuts in the sequences; distinct aborting pairs")
	defer r.Done()
	cases(r, false, true, true, func(c gcase) {
		o := c.run()
		if c.abort == nil {
			r.Case("")
			verdict(r, &c, &o)
			return
		}
		r.Case(c.desc())
		if !verdict(r, &c, &o) {
			return
		}
		e, ok := o.pan.(*tpl.MatchError)
		if !ok {
			r.Fail("abort", "%s: aborts with %v, want a match error", c.desc(), o.pan)
			return
		}
		if e.Grammar != c.abort.at.g || len(e.Src) != len(c.src)-c.abort.start || e.IdxErr != c.abort.idx || e.Ctx != tpl.Context(o.ctx) || e.Err == nil {
			r.Fail("abort-error", "%s: error about another rule or place (index %d of %d tokens, want %d of %d, inner %v)", c.desc(), e.IdxErr, len(e.Src), c.abort.idx, len(c.src)-c.abort.start, e.Err)
		}
	})
}

func TestReplay_M05(t *testing.T) {
	r := rt.New(t, "as M01 with cuts; progress of failed rules and the error of failed choices compared; distinct failing pairs with progress")
	defer r.Done()
	cases(r, true, true, true, func(c gcase) {
		o := c.run()
		d := ""
		if c.abort == nil && !c.want.ok && c.want.n > 0 {
			d = c.desc()
		}
		r.Case(d)
		if o.n < 0 || o.n > len(c.src) {
			r.Fail("range", "%s: progress %d", c.desc(), o.n)
		}
		if !verdict(r, &c, &o) || c.abort != nil || c.want.ok {
			return
		}
		if o.n != c.want.n {
			r.Fail("progress", "%s: fails after %d, want %d", c.desc(), o.n, c.want.n)
		}
		if c.want.by == nil {
			return
		}
		e, ok := o.err.(*tpl.MatchError)
		if !ok || e.Grammar != c.want.by.g && !(c.want.by.k == gTok || c.want.by.k == gEOF) || len(e.Src) != len(c.src)-c.want.at {
			r.Fail("error", "%s: the error is not that of %s at %d", c.desc(), c.want.by, c.want.at)
		}
	})
}

func TestReplay_M06(t *testing.T) {
	r := rt.New(t, "as M01 with actions and transactions everywhere (and cuts); the order, tokens and values of all calls compared with the reference")
	defer r.Done()
	cases(r, true, true, true, func(c gcase) {
		o := c.run()
		d := ""
		if len(c.wlog) > 1 {
			d = c.desc()
		}
		r.Case(d)
		if !verdict(r, &c, &o) {
			return
		}
		if a, b := strings.Join(o.b.log, ", "), strings.Join(c.wlog, ", "); a != b {
			r.Fail("calls", "%s: calls %s, want %s", c.desc(), a, b)
		} else if o.b.bad != "" {
			r.Fail("calls", "%s: %s", c.desc(), o.b.bad)
		}
	})
}

// ---- texts

var kindSpell = map[uint][]string{tpl.IDENT: {"a", "foo", "_x1"}, tpl.INT: {"1", "0x2f", "77"}, tpl.FLOAT: {"1.5", "2e3"}, tpl.STRING: {`"s"`, "`r\n`"}, tpl.CHAR: {"'c'"}}

func textOf(r *rand.Rand, src []uint) string {
	var b strings.Builder
	for i, k := range src {
		if i > 0 {
			b.WriteString([]string{" ", " ", "\n", "  ", "\n\n", "\t", " /* c */ "}[r.Intn(7)])
		}
		if sp := kindSpell[k]; sp != nil {
			b.WriteString(sp[r.Intn(len(sp))])
		} else {
			b.WriteRune(rune(k))
		}
	}
	if r.Intn(2) == 0 {
		b.WriteString([]string{"\n", " ", "\n\n ", "/* end */"}[r.Intn(4)])
	}
	return b.String()
}

func TestReplay_M07(t *testing.T) {
	r := rt.New(t, "random rules and texts (also with lexical errors) through Match, MatchExactly, Eval, Tokenize and EvalSub, fresh and reused matchers; distinct (rule, text) pairs that match")
	defer r.Done()
	var scanner tpl.Tokener = new(tpl.Scanner)
	var order []string
	count := 0
	cases(r, false, false, false, func(c gcase) {
		count++
		if count%4 != 0 {
			return
		}
		bad := ""
		src := textOf(r.Rnd, c.src)
		if r.Rnd.Intn(12) == 0 {
			src += []string{" \"abc", " 'x", " 08", " /* c", "\x00", "\xff", "#"}[r.Rnd.Intn(6)]
			bad = "lexical"
		}
		b := &gbuild{vars: map[*gnode]*tpl.GrVar{}}
		g := b.build(c.g)
		order = nil
		m := &tpl.Matcher{Grammar: &probe{Grammar: g, f: func(n int) { order = append(order, fmt.Sprint("rule", n)) }}, Init: func() { order = append(order, "init") }}
		if r.Rnd.Intn(2) == 0 {
			m.Scanner = scanner
		}
		d := ""
		if c.want.ok && bad == "" {
			d = c.g.String() + " on " + src
		}
		r.Case(d)
		what := fmt.Sprintf("%s on %q", c.g, src)
		next, err := m.Match([]byte(src), "f")
		if bad != "" {
			if err == nil || len(order) != 0 {
				r.Fail("lexical", "%s: Match gives %v after %v, want an error and no matching", what, err, order)
			}
			if m.MatchExactly([]byte(src), "f") == nil || m.Eval(src) == nil {
				r.Fail("lexical", "%s: exact matching succeeds", what)
			}
			return
		}
		if got := strings.Join(order, " "); got != fmt.Sprintf("init rule%d", len(c.src)) {
			r.Fail("order", "%s: ran %q, want the hook, then the rule on %d tokens", what, got, len(c.src))
		}
		if (err == nil) != c.want.ok || c.want.ok && len(next) != len(c.src)-c.want.n {
			r.Fail("match", "%s: error %v with %d tokens left, want %s of %d", what, err, len(next), c.wantText(), len(c.src))
			return
		}
		if err == nil {
			for i, x := range next {
				if x.Kind != c.src[c.want.n+i] {
					r.Fail("match", "%s: other tokens left", what)
				}
			}
		}
		exact := c.want.ok && c.want.n == len(c.src)
		for i, e := range []error{m.MatchExactly([]byte(src), "f"), m.Eval(src)} {
			if (e == nil) != exact {
				r.Fail("exact", "%s: %s gives %v, want success=%v", what, []string{"MatchExactly", "Eval"}[i], e, exact)
			}
		}
		toks, err := m.Tokenize([]byte(src), "f")
		if err != nil || len(toks) != len(c.src) {
			r.Fail("tokenize", "%s: %d tokens, %v", what, len(toks), err)
			return
		}
		if cap(toks) <= len(toks) || toks[:len(toks)+1][len(toks)].Kind != tpl.EOF {
			r.Fail("tokenize", "%s: no end of file behind the tokens", what)
		}
		order = nil
		cr := tpl.CompileRet{Matcher: m, Grammars: map[string]tpl.Grammar{"r": g}}
		for i, doc := range []interface{}{toks, []byte(src), src} {
			if e := cr.EvalSub("r", doc); (e == nil) != exact {
				r.Fail("sub", "%s: EvalSub of form %d gives %v, want success=%v", what, i, e, exact)
			}
		}
		if cr.EvalSub("nope", src) == nil || cr.EvalSub("r", 3) == nil {
			r.Fail("sub", "EvalSub of an unknown rule or form succeeds")
		}
	})
	m := &tpl.Matcher{}
	if _, err := m.Match([]byte(""), ""); err == nil || m.Eval("") == nil {
		r.Fail("nogrammar", "a matcher without grammar succeeds")
	}
}

type probe struct {
	tpl.Grammar
	f func(n int)
}

func (p *probe) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	p.f(len(src))
	return p.Grammar.Match(src, ctx)
}

func TestReplay_M08(t *testing.T) {
	r := rt.New(t, "the message of a match error for every start and failure index of random texts of 0..14 lines, inserted semicolons included; distinct messages")
	defer r.Done()
	for i := 0; i < r.Scale(3000) && r.Left(); i++ {
		var b bytes.Buffer
		for n := r.Rnd.Intn(14 + r.Rnd.Intn(30)); n > 0; n-- {
			b.WriteString([]string{"a", "b1 ", " +", "\n", "\n", "\n", "\n\n\n", " ", "42 ", "/*x*/", "/*x\ny*/", "// c\n", "`r\nr`", `"s" `, ")", "\r\n", "日 "}[r.Rnd.Intn(17)])
		}
		src := b.Bytes()
		m := &tpl.Matcher{Scanner: new(tpl.Scanner)}
		if r.Rnd.Intn(2) == 0 {
			m.ScanMode = tpl.InsertSemis
		}
		toks, err := m.Tokenize(src, "f")
		if err != nil {
			r.Fail("tokenize", "%q: %v", src, err)
			continue
		}
		all := toks[:len(toks)+1]
		file := m.Tokener().Source().File
		for j := 0; j <= len(toks); j++ {
			sub := toks[j:]
			if r.Rnd.Intn(3) == 0 && j < len(toks) {
				sub = toks[j : j+1+r.Rnd.Intn(len(toks)-j)]
			}
			for idx := 0; idx <= len(sub); idx++ {
				var inner error
				if r.Rnd.Intn(3) == 0 {
					inner = errors.New("inner")
				}
				e := &tpl.MatchError{Grammar: tpl.Gr('+'), Ctx: m, Src: sub, Err: inner, IdxErr: idx}
				var msg string
				if p, v := r.Try("message", fmt.Sprintf("%q[%d:%d] at %d", src, j, j+len(sub), idx), func() { msg = e.Error() }); p {
					r.Fail("message", "%q tokens %d..%d failing at %d: Error panics: %v", src, j, j+len(sub), idx, v)
					continue
				}
				line, text := 0, ""
				if len(sub) > 0 {
					off := func(k int) int { return file.Offset(all[j+k].Pos) }
					start, end := off(0), off(len(sub))
					line = 1 + bytes.Count(src[:lineUpTo(off(idx), len(src))], []byte("\n"))
					upto := end
					if idx < len(sub) {
						upto = off(idx + 1)
					}
					n := start
					for k := 0; k < 9 && n < end; k++ {
						q := bytes.IndexByte(src[n:end], '\n')
						if q < 0 {
							n = end
						} else {
							n += q + 1
						}
					}
					if n < upto {
						n = upto
					}
					text = string(src[start:n])
				}
				want := fmt.Sprintf("line %d: match failed: `%s` doesn't match `%s`", line, text, "'+'")
				if inner != nil {
					want += "\ninner"
				}
				r.Case(want)
				if msg != want {
					r.Fail("message", "%q tokens %d..%d failing at %d: %q, want %q", src, j, j+len(sub), idx, msg, want)
				}
			}
			if len(sub) > 0 {
				f, l := tpl.FileLine(sub, m.Tokener())
				off := file.Offset(sub[0].Pos)
				if f != "f" || l != 1+bytes.Count(src[:off], []byte("\n")) {
					r.Fail("line", "%q token %d: FileLine %s:%d", src, j, f, l)
				}
				if got, want := string(tpl.Source(sub, m.Tokener())), string(src[off:file.Offset(all[j+len(sub)].Pos)]); got != want {
					r.Fail("source", "%q tokens %d..%d: Source %q, want %q", src, j, j+len(sub), got, want)
				}
			} else if f, l := tpl.FileLine(sub, m.Tokener()); f != "" || l != 0 || tpl.Source(sub, m.Tokener()) != nil {
				r.Fail("line", "FileLine or Source of no tokens")
			}
		}
	}
}

// sameLang compares a real rule with the reference rule by behaviour.
func sameLang(r *rt.R, key string, what string, g *gnode, real tpl.Grammar, alpha []uint, extra int) bool {
	check := func(s []uint) bool {
		c, ok := expect(g, s)
		if !ok {
			return true
		}
		var n int
		var err error
		var pan interface{}
		func() {
			defer func() { pan = recover() }()
			n, err = real.Match(kindToks(s), &tpl.Matcher{Scanner: new(tpl.Scanner)})
		}()
		o := gout{n: n, err: err, pan: pan}
		if (c.abort != nil) != (pan != nil) || c.abort == nil && ((err == nil) != c.want.ok || c.want.ok && n != c.want.n) {
			r.Fail(key, "%s: on %s it %s, want: %s (panic %v)", what, kindsText(s), &o, c.wantText(), pan)
			return false
		}
		return true
	}
	var rec func(s []uint, d int) bool
	rec = func(s []uint, d int) bool {
		if !check(s) {
			return false
		}
		if d > 0 {
			for _, k := range alpha {
				if !rec(append(s[:len(s):len(s)], k), d-1) {
					return false
				}
			}
		}
		return true
	}
	if !rec(nil, 3) {
		return false
	}
	for i := 0; i < extra; i++ {
		s := genKinds(r.Rnd, 9, alpha)
		if i%2 == 0 {
			s = g.generate(r.Rnd, 9)
			if len(s) > 0 && r.Rnd.Intn(2) == 0 {
				s[r.Rnd.Intn(len(s))] = alpha[r.Rnd.Intn(len(alpha))]
			}
		}
		if !check(s) {
			return false
		}
	}
	return true
}

// printable rules have sequences and choices of at least two parts.
func printable(r *rt.R, f func(g *gnode)) {
	a, b, p := &gnode{k: gTok, tok: tpl.IDENT}, &gnode{k: gTok, tok: tpl.INT}, &gnode{k: gTok, tok: '+'}
	un := func(k gkind, g *gnode) *gnode { return &gnode{k: k, kids: []*gnode{g}} }
	bin := func(k gkind, g ...*gnode) *gnode { return &gnode{k: k, kids: g} }
	lvl := []*gnode{a, {k: gTrue}}
	one := func(x, y, z *gnode) []*gnode {
		return []*gnode{un(gStar, x), un(gPlus, x), un(gOpt, x), un(gNot, x), un(gPeek, x), bin(gAnd, x, y), bin(gAnd, y, x, z), bin(gAnd, x, nil, y), bin(gAnd, nil, x, y), bin(gAnd, x, y, nil), bin(gOr, x, y), bin(gOr, y, x), bin(gList, x, p), bin(gList, a, x), bin(gList0, x, y), bin(gList0, y, x)}
	}
	lvl2 := one(a, b, p)
	for _, g := range append(lvl, lvl2...) {
		f(g)
	}
	for _, x := range lvl2 {
		for _, g := range one(x, b, p) {
			f(g)
		}
		for _, y := range lvl2 {
			for _, g := range []*gnode{bin(gAnd, x, y), bin(gAnd, x, nil, y), bin(gOr, x, y), bin(gList, x, y), bin(gList0, x, y)} {
				f(g)
			}
		}
	}
	for i := 0; i < r.Scale(1500) && r.Left(); i++ {
		x := &ggen{rnd: r.Rnd, cuts: true, text: true}
		f(x.gen(2 + r.Rnd.Intn(4)))
	}
}

func compile(text string) (ret tpl.CompileRet, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	c := &tpl.Compiler{Grammar: []byte(text)}
	return c.Cl()
}

func TestReplay_M09(t *testing.T) {
	r := rt.New(t, "printed rules (all shapes of depth three over the operators, random deeper ones, with cuts, actions and named rules) are compiled again and their behaviour compared with the reference on all token sequences up to length three and on random longer ones; distinct texts")
	defer r.Done()
	alpha := []uint{tpl.IDENT, tpl.INT, '+'}
	i := 0
	printable(r, func(g *gnode) {
		if !r.Left() {
			return
		}
		i++
		b := &gbuild{vars: map[*gnode]*tpl.GrVar{}}
		var real tpl.Grammar = b.build(g)
		if i%5 == 0 {
			real = tpl.Action(tpl.Transaction(real, func() interface{} { return nil }, func(interface{}, error) {}), func([]tpl.Token, tpl.Grammar) {})
		}
		text := tpl.Code(real, new(tpl.AutoKwScanner))
		r.Case(text)
		ret, err := compile("doc = " + text + ";")
		if err != nil {
			r.Fail("print", "%s is printed %q, which does not compile: %v", g, text, err)
			return
		}
		sameLang(r, "print", fmt.Sprintf("%s is printed %q", g, text), g, ret.Grammar, alpha, 6)
	})
	kw := new(tpl.AutoKwScanner)
	kw.Init(token.NewFileSet().AddFile("", -1, 0), nil, nil, 0)
	k := kw.Ltot(`"if"`)
	for _, x := range []struct {
		g    tpl.Grammar
		want string
	}{{tpl.Var("x"), "x"}, {tpl.Named("foo", tpl.Gr('+')), "foo"}, {tpl.Gr(tpl.REM_ASSIGN), `"%="`}, {tpl.Gr('('), `'('`}, {tpl.Gr(tpl.IDENT), "IDENT"}, {tpl.Gr(k), `"if"`},
		{tpl.And(tpl.Named("x", tpl.Or(tpl.GrTrue, tpl.GrEOF)), tpl.Gr(k)), `x "if"`}, {tpl.Action(tpl.Gr('+'), nil), `'+'`}, {tpl.GrEOF, "EOF"}, {tpl.GrTrue, "1"}} {
		r.Case(x.want)
		if got := tpl.Code(x.g, kw); got != x.want {
			r.Fail("print", "printed %q, want %q", got, x.want)
		}
	}
}

// lineUpTo: a newline at the very end starts no further line.
func lineUpTo(off, size int) int {
	if off > size-1 {
		return size - 1
	}
	return off
}
