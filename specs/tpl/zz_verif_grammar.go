//go:build go1.18

package tpl

import (
	"github.com/qiniu/text/zzverif/v"
)

// The application of a rule, abstractly: any rule, written by anybody, whose
// Match depends on the state of the program (World), the rule, the tokens and
// the context, and keeps within the tokens it was given (property M05, proved
// below for every combinator from the same assumption about its operands).
//
// Applying a rule may change anything except the structure of rules and the
// tokens:
//
//verif:immutable F:tpl.grPeek.g F:tpl.grNot.g F:tpl.grAnd.gs F:tpl.grOr.gs F:tpl.grRepeat0.g F:tpl.grRepeat1.g F:tpl.grRepeat01.g
//verif:immutable F:tpl.grList.a F:tpl.grList.b F:tpl.grList.list0 F:tpl.grAction.g F:tpl.grAction.act F:tpl.grTrans.g F:tpl.grTrans.begin F:tpl.grTrans.end
//verif:keeps E:tpl.Grammar E:tpl.Token

//verif:uf
func gN(w v.World, g Grammar, src []Token, ctx Context) int { return 0 }

//verif:uf
func gErr(w v.World, g Grammar, src []Token, ctx Context) error { return nil }

//verif:uf
func gW(w v.World, g Grammar, src []Token, ctx Context) v.World { return w }

//verif:uf
func gPanics(w v.World, g Grammar, src []Token, ctx Context) bool { return false }

//verif:uf
func gPV(w v.World, g Grammar, src []Token, ctx Context) interface{} { return nil }

// gProductive: every success of the rule consumes something. Only the
// termination contracts ask for it.
//
//verif:uf
func gProductive(g Grammar) bool { return false }

//verif:abs (github.com/qiniu/text/tpl.Grammar).Match
func absMatch(g Grammar, src []Token, ctx Context) (int, error) {
	w := v.GetWorld()
	v.SetWorld(gW(w, g, src, ctx))
	v.HavocHeap()
	if gPanics(w, g, src, ctx) {
		v.Panic(gPV(w, g, src, ctx))
	}
	n := gN(w, g, src, ctx)
	v.Assume("a rule stays within its tokens", 0 <= n && n <= len(src))
	v.Assume("a productive rule consumes something", v.Implies(gProductive(g), v.Implies(gErr(w, g, src, ctx) == nil, n > 0)))
	return n, gErr(w, g, src, ctx)
}

func gOK(w v.World, g Grammar, src []Token, ctx Context) bool {
	return !gPanics(w, g, src, ctx) && gErr(w, g, src, ctx) == nil
}

func gFails(w v.World, g Grammar, src []Token, ctx Context) bool {
	return !gPanics(w, g, src, ctx) && gErr(w, g, src, ctx) != nil
}

// ---- sequence

// The course of a sequence from part i on, n tokens consumed so far, w the
// state reached: where it ends (the first part that does not match, or the
// end), what was consumed up to there, and the state there.
//
//verif:spec
func seqAt(w v.World, gs []Grammar, i int, src []Token, n int, ctx Context) int {
	if i >= len(gs) {
		return i
	}
	if gs[i] == nil {
		return seqAt(w, gs, i+1, src, n, ctx)
	}
	if gOK(w, gs[i], src[n:], ctx) {
		return seqAt(gW(w, gs[i], src[n:], ctx), gs, i+1, src, n+gN(w, gs[i], src[n:], ctx), ctx)
	}
	return i
}

//verif:spec
func seqN(w v.World, gs []Grammar, i int, src []Token, n int, ctx Context) int {
	if i >= len(gs) {
		return n
	}
	if gs[i] == nil {
		return seqN(w, gs, i+1, src, n, ctx)
	}
	if gOK(w, gs[i], src[n:], ctx) {
		return seqN(gW(w, gs[i], src[n:], ctx), gs, i+1, src, n+gN(w, gs[i], src[n:], ctx), ctx)
	}
	return n
}

//verif:spec
func seqW(w v.World, gs []Grammar, i int, src []Token, n int, ctx Context) v.World {
	if i >= len(gs) {
		return w
	}
	if gs[i] == nil {
		return seqW(w, gs, i+1, src, n, ctx)
	}
	if gOK(w, gs[i], src[n:], ctx) {
		return seqW(gW(w, gs[i], src[n:], ctx), gs, i+1, src, n+gN(w, gs[i], src[n:], ctx), ctx)
	}
	return w
}

// andCut: there is a cut among the first k parts.
//
//verif:spec
func andCut(gs []Grammar, k int) bool {
	return k > 0 && (gs[k-1] == nil || andCut(gs, k-1))
}

//verif:prop M01,M04,M05
func propAnd(gs []Grammar, src []Token, ctx Context) {
	w := v.GetWorld()
	k, nk, wk := seqAt(w, gs, 0, src, 0, ctx), seqN(w, gs, 0, src, 0, ctx), seqW(w, gs, 0, src, 0, ctx)
	v.Inv(func(i, n int) bool {
		w1 := v.GetWorld()
		return 0 <= n && n <= len(src) && 0 <= i && i <= len(gs) && seqAt(w1, gs, i, src, n, ctx) == k && seqN(w1, gs, i, src, n, ctx) == nk && v.Same(seqW(w1, gs, i, src, n, ctx), wk)
	})
	v.Inv(func(i int, cut bool) bool { return cut == andCut(gs, i) })
	seq := And(gs...)
	var n int
	var err error
	p, pv := v.Try(func() { n, err = seq.Match(src, ctx) })
	if k == len(gs) {
		v.Ensures("a sequence whose parts all match succeeds", !p && err == nil)
		v.Ensures("M01,M05: a sequence consumes the sum of what its parts consumed", n == nk)
		v.Ensures("M01: the parts are applied once each, in order", v.Same(v.GetWorld(), wk))
		v.Ensures("M05: a sequence stays within its tokens", 0 <= n && n <= len(src))
		return
	}
	v.Ensures("M01,M04: nothing is applied after the part that does not match", v.Same(v.GetWorld(), gW(wk, gs[k], src[nk:], ctx)))
	if gPanics(wk, gs[k], src[nk:], ctx) {
		v.Ensures("M04: an abort passes through a sequence", p && v.Same(pv, gPV(wk, gs[k], src[nk:], ctx)))
		return
	}
	e := gErr(wk, gs[k], src[nk:], ctx)
	m := nk + gN(wk, gs[k], src[nk:], ctx)
	if andCut(gs, k) {
		v.Ensures("M04: a failure after a cut aborts", p)
		me, ok := pv.(*MatchError)
		v.Ensures("M04: an abort is a match error", ok)
		if ok {
			v.Ensures("M04: the abort describes the sequence", v.Same(me.Grammar, seq) && v.Same(me.Src, src) && v.Same(me.Ctx, ctx))
			v.Ensures("M04: the abort carries the failure of the part", v.Same(me.Err, e))
			v.Ensures("M04: the abort names the token where the part failed", me.IdxErr == m)
			v.Ensures("M04,M05: the index is within the tokens", 0 <= me.IdxErr && me.IdxErr <= len(src))
		}
		return
	}
	v.Ensures("M04: a failure before the cut is an ordinary failure", !p)
	v.Ensures("M01: a sequence fails with the failure of its first failing part", !p && v.Same(err, e) && err != nil)
	v.Ensures("M05: a failed sequence reports its progress", !p && n == m)
	v.Ensures("M05: the progress is within the tokens", 0 <= n && n <= len(src))
}

// ---- choice

// The course of a choice from alternative i on: the first alternative that
// does not fail (or the end), and the state when it is tried.
//
//verif:spec
func orAt(w v.World, gs []Grammar, i int, src []Token, ctx Context) int {
	if i < len(gs) && gs[i] != nil && gFails(w, gs[i], src, ctx) {
		return orAt(gW(w, gs[i], src, ctx), gs, i+1, src, ctx)
	}
	return i
}

//verif:spec
func orW(w v.World, gs []Grammar, i int, src []Token, ctx Context) v.World {
	if i < len(gs) && gs[i] != nil && gFails(w, gs[i], src, ctx) {
		return orW(gW(w, gs[i], src, ctx), gs, i+1, src, ctx)
	}
	return w
}

// The furthest progress of the failing alternatives, max being that of the
// earlier ones.
//
//verif:spec
func orMax(w v.World, gs []Grammar, i int, src []Token, ctx Context, max int) int {
	if i < len(gs) && gs[i] != nil && gFails(w, gs[i], src, ctx) {
		n := gN(w, gs[i], src, ctx)
		if n < max {
			n = max
		}
		return orMax(gW(w, gs[i], src, ctx), gs, i+1, src, ctx, n)
	}
	return max
}

// The error of the only alternative that got furthest past the start, nil
// when there is none; max and err are those of the earlier alternatives.
//
//verif:spec
func orErr(w v.World, gs []Grammar, i int, src []Token, ctx Context, max int, err error) error {
	if i < len(gs) && gs[i] != nil && gFails(w, gs[i], src, ctx) {
		n := gN(w, gs[i], src, ctx)
		w1 := gW(w, gs[i], src, ctx)
		if n > max {
			return orErr(w1, gs, i+1, src, ctx, n, gErr(w, gs[i], src, ctx))
		}
		if n == max {
			return orErr(w1, gs, i+1, src, ctx, max, nil)
		}
		return orErr(w1, gs, i+1, src, ctx, max, err)
	}
	return err
}

//verif:prop M01,M04,M05
func propOr(gs []Grammar, src []Token, ctx Context) {
	w := v.GetWorld()
	k, wk := orAt(w, gs, 0, src, ctx), orW(w, gs, 0, src, ctx)
	max, only := orMax(w, gs, 0, src, ctx, 0), orErr(w, gs, 0, src, ctx, 0, nil)
	v.Requires("rules", k >= len(gs) || gs[k] != nil)
	v.Inv(func(i int) bool {
		w1 := v.GetWorld()
		return 0 <= i && i <= len(gs) && orAt(w1, gs, i, src, ctx) == k && v.Same(orW(w1, gs, i, src, ctx), wk)
	})
	v.Inv(func(i, m int) bool {
		return 0 <= m && m <= len(src) && orMax(v.GetWorld(), gs, i, src, ctx, m) == max
	})
	v.Inv(func(i, m int, e error, multi bool) bool {
		if multi {
			e = nil
		}
		return multi == (e == nil) && v.Same(orErr(v.GetWorld(), gs, i, src, ctx, m, e), only)
	})
	or := Or(gs...)
	var n int
	var err error
	p, pv := v.Try(func() { n, err = or.Match(src, ctx) })
	if k < len(gs) {
		v.Ensures("M01,M04: nothing is tried after the first alternative that does not fail", v.Same(v.GetWorld(), gW(wk, gs[k], src, ctx)))
		if gPanics(wk, gs[k], src, ctx) {
			v.Ensures("M04: an abort passes through a choice", p && v.Same(pv, gPV(wk, gs[k], src, ctx)))
			return
		}
		v.Ensures("M01: a choice succeeds with its first matching alternative", !p && err == nil)
		v.Ensures("M01,M05: a choice consumes what that alternative consumed", n == gN(wk, gs[k], src, ctx))
		v.Ensures("M05: a choice stays within its tokens", 0 <= n && n <= len(src))
		return
	}
	v.Ensures("M01: a choice without a matching alternative fails", !p && err != nil)
	v.Ensures("M01: every alternative is tried once", v.Same(v.GetWorld(), wk))
	v.Ensures("M05: a failed choice reports the furthest progress", n == max)
	v.Ensures("M05: the progress is within the tokens", 0 <= n && n <= len(src))
	if only != nil {
		v.Ensures("M05: the error of the only furthest alternative", v.Same(err, only))
	} else {
		me, ok := err.(*MatchError)
		v.Ensures("M05: otherwise the choice's own error", ok && v.Same(me.Grammar, or) && v.Same(me.Src, src) && me.IdxErr == 0)
	}
}

// ---- variables and named rules

//verif:prop M01,M04
func propVar(name string, g Grammar, src []Token, ctx Context) {
	w := v.GetWorld()
	x := Var(name)
	if g == nil {
		n, err := x.Match(src, ctx)
		v.Ensures("M01: an unassigned variable fails", err != nil && n == 0)
		v.Ensures("M01: an unassigned variable applies nothing", v.Same(v.GetWorld(), w))
		return
	}
	e := x.Assign(g)
	v.Ensures("M01: an unassigned variable can be assigned", e == nil)
	e = x.Assign(g)
	v.Ensures("M01: a variable is assigned only once", e != nil)
	var n int
	var err error
	p, pv := v.Try(func() { n, err = x.Match(src, ctx) })
	v.Ensures("a variable aborts as its rule does", p == gPanics(w, g, src, ctx))
	v.Ensures("a variable applies its rule once", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
	if p {
		v.Ensures("a variable aborts with its rule's abort", v.Same(pv, gPV(w, g, src, ctx)))
		return
	}
	v.Ensures("a variable behaves as its rule", n == gN(w, g, src, ctx) && v.Same(err, gErr(w, g, src, ctx)))
}

//verif:prop M01,M04
func propNamed(name, name2 string, g, g2 Grammar, src []Token, ctx Context, re bool) {
	v.Requires("rules", g != nil && g2 != nil)
	w := v.GetWorld()
	x := Named(name, g)
	if re {
		x.Assign(name2, g2)
		g = g2
	}
	var n int
	var err error
	p, pv := v.Try(func() { n, err = x.Match(src, ctx) })
	v.Ensures("a named rule aborts as its rule does", p == gPanics(w, g, src, ctx))
	v.Ensures("a named rule applies its rule once", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
	if p {
		v.Ensures("a named rule aborts with its rule's abort", v.Same(pv, gPV(w, g, src, ctx)))
		return
	}
	v.Ensures("a named rule behaves as its rule", n == gN(w, g, src, ctx) && v.Same(err, gErr(w, g, src, ctx)))
}

// ---- repetition

// The course of a repetition after l successful applications: how many
// succeed in total, what they consume, and the state when the next one is
// tried (which does not succeed).
//
//verif:spec
func repK(w v.World, g Grammar, src []Token, n int, l int, ctx Context) int {
	if gOK(w, g, src[n:], ctx) {
		return repK(gW(w, g, src[n:], ctx), g, src, n+gN(w, g, src[n:], ctx), l+1, ctx)
	}
	return l
}

//verif:spec
func repN(w v.World, g Grammar, src []Token, n int, ctx Context) int {
	if gOK(w, g, src[n:], ctx) {
		return repN(gW(w, g, src[n:], ctx), g, src, n+gN(w, g, src[n:], ctx), ctx)
	}
	return n
}

//verif:spec
func repW(w v.World, g Grammar, src []Token, n int, ctx Context) v.World {
	if gOK(w, g, src[n:], ctx) {
		return repW(gW(w, g, src[n:], ctx), g, src, n+gN(w, g, src[n:], ctx), ctx)
	}
	return w
}

// A loop that has consumed n of the tokens from base on, after l elements, and
// still has to do what the whole repetition (k, nk, wk) does.
func repInv(w v.World, g Grammar, src []Token, base int, n, l int, rest []Token, ctx Context, k, nk int, wk v.World) bool {
	return 0 <= n && base+n <= len(src) && v.Same(rest, src[base+n:]) &&
		repK(w, g, src, base+n, l, ctx) == k && repN(w, g, src, base+n, ctx) == nk && v.Same(repW(w, g, src, base+n, ctx), wk)
}

//verif:prop M02,M04,M05
func propRepeat(g Grammar, src []Token, ctx Context, one bool) {
	v.Requires("a rule", g != nil)
	w := v.GetWorld()
	k, nk, wk := repK(w, g, src, 0, 0, ctx), repN(w, g, src, 0, ctx), repW(w, g, src, 0, ctx)
	v.Inv(func(l, n int, rest []Token) bool {
		return repInv(v.GetWorld(), g, src, 0, n, l, rest, ctx, k, nk, wk)
	})
	n1 := gN(w, g, src, ctx)
	v.Inv(func(l, n int, rest []Token) bool {
		return one && repInv(v.GetWorld(), g, src, n1, n, l+1, rest, ctx, k, nk, wk)
	})
	r := Repeat0(g)
	if one {
		r = Repeat1(g)
	}
	var n int
	var err error
	p, pv := v.Try(func() { n, err = r.Match(src, ctx) })
	v.Ensures("a repetition stops at the first application that does not succeed", v.Same(v.GetWorld(), gW(wk, g, src[nk:], ctx)))
	if gPanics(wk, g, src[nk:], ctx) {
		v.Ensures("M04: an abort passes through a repetition", p && v.Same(pv, gPV(wk, g, src[nk:], ctx)))
		return
	}
	v.Ensures("M02: the length is the number of elements", one && gFails(w, g, src, ctx) || r.Len() == k)
	if one && gFails(w, g, src, ctx) {
		v.Ensures("M02: one or more fails when the first application fails", !p && v.Same(err, gErr(w, g, src, ctx)) && err != nil)
		v.Ensures("M02: its length is then zero", r.Len() == 0)
		v.Ensures("M05: it reports the progress of that application", n == n1)
		v.Ensures("M05: the progress is within the tokens", 0 <= n && n <= len(src))
		return
	}
	v.Ensures("M02: a repetition succeeds", !p && err == nil)
	v.Ensures("M02,M05: a repetition consumes what the successful applications consumed", n == nk)
	v.Ensures("M05: a repetition stays within its tokens", 0 <= n && n <= len(src))
}

//verif:prop M02,M04,M05
func propOption(g Grammar, src []Token, ctx Context) {
	v.Requires("a rule", g != nil)
	w := v.GetWorld()
	r := Repeat01(g)
	var n int
	var err error
	p, pv := v.Try(func() { n, err = r.Match(src, ctx) })
	v.Ensures("an option applies its rule once", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
	if gPanics(w, g, src, ctx) {
		v.Ensures("M04: an abort passes through an option", p && v.Same(pv, gPV(w, g, src, ctx)))
		return
	}
	v.Ensures("M02: an option succeeds", !p && err == nil)
	v.Ensures("M05: an option stays within its tokens", 0 <= n && n <= len(src))
	if gErr(w, g, src, ctx) == nil {
		v.Ensures("M02: an option consumes one application", n == gN(w, g, src, ctx) && r.Len() == 1)
	} else {
		v.Ensures("M02: an option consumes nothing when its rule fails", n == 0 && r.Len() == 0)
	}
}

// ---- lists

func pairOK(w v.World, a, b Grammar, rest []Token, ctx Context) bool {
	return gOK(w, b, rest, ctx) && gOK(gW(w, b, rest, ctx), a, rest[gN(w, b, rest, ctx):], ctx)
}

func pairN(w v.World, a, b Grammar, rest []Token, ctx Context) int {
	n := gN(w, b, rest, ctx)
	return n + gN(gW(w, b, rest, ctx), a, rest[n:], ctx)
}

func pairW(w v.World, a, b Grammar, rest []Token, ctx Context) v.World {
	w1 := gW(w, b, rest, ctx)
	if !gOK(w, b, rest, ctx) {
		return w1
	}
	return gW(w1, a, rest[gN(w, b, rest, ctx):], ctx)
}

func pairPanics(w v.World, a, b Grammar, rest []Token, ctx Context) bool {
	return gPanics(w, b, rest, ctx) || gErr(w, b, rest, ctx) == nil && gPanics(gW(w, b, rest, ctx), a, rest[gN(w, b, rest, ctx):], ctx)
}

func pairPV(w v.World, a, b Grammar, rest []Token, ctx Context) interface{} {
	if gPanics(w, b, rest, ctx) {
		return gPV(w, b, rest, ctx)
	}
	return gPV(gW(w, b, rest, ctx), a, rest[gN(w, b, rest, ctx):], ctx)
}

// The course of a list after n tokens and l elements.
//
//verif:spec
func listK(w v.World, a, b Grammar, src []Token, n, l int, ctx Context) int {
	if pairOK(w, a, b, src[n:], ctx) {
		return listK(pairW(w, a, b, src[n:], ctx), a, b, src, n+pairN(w, a, b, src[n:], ctx), l+1, ctx)
	}
	return l
}

//verif:spec
func listN(w v.World, a, b Grammar, src []Token, n int, ctx Context) int {
	if pairOK(w, a, b, src[n:], ctx) {
		return listN(pairW(w, a, b, src[n:], ctx), a, b, src, n+pairN(w, a, b, src[n:], ctx), ctx)
	}
	return n
}

//verif:spec
func listW(w v.World, a, b Grammar, src []Token, n int, ctx Context) v.World {
	if pairOK(w, a, b, src[n:], ctx) {
		return listW(pairW(w, a, b, src[n:], ctx), a, b, src, n+pairN(w, a, b, src[n:], ctx), ctx)
	}
	return w
}

//verif:prop M02,M04,M05
func propList(a, b Grammar, src []Token, ctx Context, list0 bool) {
	v.Requires("rules", a != nil && b != nil)
	w0 := v.GetWorld()
	n0 := gN(w0, a, src, ctx)
	w1 := gW(w0, a, src, ctx)
	k, nk, wk := listK(w1, a, b, src, n0, 1, ctx), listN(w1, a, b, src, n0, ctx), listW(w1, a, b, src, n0, ctx)
	v.Inv(func(l, n int, rest []Token) bool {
		w := v.GetWorld()
		return 0 <= n && n <= len(src) && v.Same(rest, src[n:]) &&
			listK(w, a, b, src, n, l, ctx) == k && listN(w, a, b, src, n, ctx) == nk && v.Same(listW(w, a, b, src, n, ctx), wk)
	})
	r := List(a, b)
	if list0 {
		r = List0(a, b)
	}
	var n int
	var err error
	p, pv := v.Try(func() { n, err = r.Match(src, ctx) })
	if !gOK(w0, a, src, ctx) {
		v.Ensures("nothing is tried after the first element does not match", v.Same(v.GetWorld(), w1))
		if gPanics(w0, a, src, ctx) {
			v.Ensures("M04: an abort passes through a list", p && v.Same(pv, gPV(w0, a, src, ctx)))
			return
		}
		v.Ensures("M02: the length of no list is zero", r.Len() == 0)
		if list0 {
			v.Ensures("M02: an optional list accepts nothing", !p && err == nil && n == 0)
			return
		}
		v.Ensures("M02: a list fails when its first element fails", !p && v.Same(err, gErr(w0, a, src, ctx)) && err != nil)
		v.Ensures("M05: it reports the progress of that element", n == n0)
		v.Ensures("M05: the progress is within the tokens", 0 <= n && n <= len(src))
		return
	}
	v.Ensures("a list stops at the first pair that does not match", v.Same(v.GetWorld(), pairW(wk, a, b, src[nk:], ctx)))
	if pairPanics(wk, a, b, src[nk:], ctx) {
		v.Ensures("M04: an abort passes through a list", p && v.Same(pv, pairPV(wk, a, b, src[nk:], ctx)))
		return
	}
	v.Ensures("M02: a list whose first element matches succeeds", !p && err == nil)
	v.Ensures("M02,M05: a list consumes its elements and separators, no trailing separator", n == nk)
	v.Ensures("M02: the length is the number of elements", r.Len() == k)
	v.Ensures("M05: a list stays within its tokens", 0 <= n && n <= len(src))
}

//verif:prop M02
func propRepeatEnds(a, b Grammar, src []Token, ctx Context, kind int) {
	v.Requires("rules", a != nil && b != nil)
	v.Requires("every element consumes something", gProductive(a))
	v.Inv(func(rest []Token) bool { return 0 <= len(rest) && len(rest) <= len(src) })
	v.Decr(func(rest []Token) int { return len(rest) })
	r := Repeat0(a)
	switch kind {
	case 1:
		r = Repeat1(a)
	case 2:
		r = List(a, b)
	case 3:
		r = List0(a, b)
	}
	v.Try(func() { r.Match(src, ctx) })
	v.Ensures("the match ends", true)
}

//verif:prop M04
func propLookaheadAborts(g Grammar, src []Token, ctx Context, not bool) {
	v.Requires("a rule", g != nil)
	w := v.GetWorld()
	v.Requires("the rule aborts", gPanics(w, g, src, ctx))
	r := Peek(g)
	if not {
		r = Not(g)
	}
	p, pv := v.Try(func() { r.Match(src, ctx) })
	v.Ensures("an abort passes through a lookahead", p && v.Same(pv, gPV(w, g, src, ctx)))
	v.Ensures("nothing is tried after an abort", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
}

// ---- lookahead, empty, end, token

//verif:prop M03,M05
func propPeekNot(g Grammar, src []Token, ctx Context) {
	v.Requires("a rule", g != nil)
	w := v.GetWorld()
	v.Requires("no abort", !gPanics(w, g, src, ctx))
	ok := gErr(w, g, src, ctx) == nil
	pk := Peek(g)
	n, err := pk.Match(src, ctx)
	v.Ensures("a positive lookahead succeeds exactly when its rule matches", (err == nil) == ok)
	v.Ensures("a positive lookahead consumes nothing", n == 0)
	v.Ensures("a lookahead applies its rule once", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
	if !ok {
		me, is := err.(*MatchError)
		v.Ensures("a failed lookahead reports itself", is && v.Same(me.Grammar, pk) && v.Same(me.Src, src) && me.IdxErr == 0)
	}
	v.SetWorld(w)
	nt := Not(g)
	n, err = nt.Match(src, ctx)
	v.Ensures("a negative lookahead succeeds exactly when its rule fails", (err == nil) == !ok)
	v.Ensures("a negative lookahead consumes nothing", n == 0)
	v.Ensures("a negative lookahead applies its rule once", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
}

//verif:prop M03,M05
func propBase(src []Token, ctx Context, kind uint) {
	w := v.GetWorld()
	n, err := GrTrue.Match(src, ctx)
	v.Ensures("the empty rule succeeds consuming nothing", n == 0 && err == nil)
	n, err = GrEOF.Match(src, ctx)
	v.Ensures("the end rule consumes nothing", n == 0)
	v.Ensures("the end rule succeeds exactly at the end", (err == nil) == (len(src) == 0))
	n, err = Gr(kind).Match(src, ctx)
	want := len(src) > 0 && (src[0].Kind == kind || kind == FLOAT && src[0].Kind == INT)
	v.Ensures("a token rule matches exactly a token of its kind", (err == nil) == want)
	v.Ensures("a token rule consumes one token or none", n == 0 && !want || n == 1 && want)
	v.Ensures("the basic rules have no effect", v.Same(v.GetWorld(), w))
}

// ---- actions and transactions

//verif:uf
func actW(w v.World, f func(tokens []Token, g Grammar), tokens []Token, g Grammar) v.World { return w }

//verif:uf
func actPanics(w v.World, f func(tokens []Token, g Grammar), tokens []Token, g Grammar) bool {
	return false
}

//verif:uf
func actPV(w v.World, f func(tokens []Token, g Grammar), tokens []Token, g Grammar) interface{} {
	return nil
}

//verif:abs func([]github.com/qiniu/text/tpl.Token,github.com/qiniu/text/tpl.Grammar)()
func absAct(f func(tokens []Token, g Grammar), tokens []Token, g Grammar) {
	w := v.GetWorld()
	v.SetWorld(actW(w, f, tokens, g))
	v.HavocHeap()
	if actPanics(w, f, tokens, g) {
		v.Panic(actPV(w, f, tokens, g))
	}
}

//verif:prop M06,M05
func propAction(g Grammar, act func(tokens []Token, g Grammar), src []Token, ctx Context) {
	v.Requires("a rule", g != nil && act != nil)
	w := v.GetWorld()
	v.Requires("no abort", !gPanics(w, g, src, ctx))
	a := Action(g, act)
	w1 := gW(w, g, src, ctx)
	ng := gN(w, g, src, ctx)
	v.Requires("within the tokens", 0 <= ng && ng <= len(src))
	v.Requires("the action returns", !actPanics(w1, act, src[:ng], g))
	n, err := a.Match(src, ctx)
	v.Ensures("an action keeps its rule's result", n == ng && v.Same(err, gErr(w, g, src, ctx)))
	if err == nil {
		v.Ensures("M06: the action runs once, after the rule, with the tokens it consumed", v.Same(v.GetWorld(), actW(w1, act, src[:ng], g)))
	} else {
		v.Ensures("M06: the action does not run when the rule fails", v.Same(v.GetWorld(), w1))
	}
}

//verif:prop M06,M04
func propActionAborts(g Grammar, act func(tokens []Token, g Grammar), src []Token, ctx Context) {
	v.Requires("a rule", g != nil && act != nil)
	w := v.GetWorld()
	v.Requires("the rule aborts", gPanics(w, g, src, ctx))
	p, pv := v.Try(func() { Action(g, act).Match(src, ctx) })
	v.Ensures("an abort passes through an action", p && v.Same(pv, gPV(w, g, src, ctx)))
	v.Ensures("the action does not run on an abort", v.Same(v.GetWorld(), gW(w, g, src, ctx)))
}

//verif:uf
func begW(w v.World, f func() interface{}) v.World { return w }

//verif:uf
func begV(w v.World, f func() interface{}) interface{} { return nil }

//verif:abs func()(interface{})
func absBegin(f func() interface{}) interface{} {
	w := v.GetWorld()
	v.SetWorld(begW(w, f))
	v.HavocHeap()
	return begV(w, f)
}

//verif:uf
func endW(w v.World, f func(interface{}, error), trans interface{}, err error) v.World { return w }

//verif:abs func(interface{},error)()
func absEnd(f func(interface{}, error), trans interface{}, err error) {
	w := v.GetWorld()
	v.SetWorld(endW(w, f, trans, err))
	v.HavocHeap()
}

//verif:prop M06,M05
func propTrans(g Grammar, begin func() interface{}, end func(trans interface{}, err error), src []Token, ctx Context) {
	v.Requires("a rule", g != nil && begin != nil && end != nil)
	w := v.GetWorld()
	w1, tv := begW(w, begin), begV(w, begin)
	v.Requires("no abort", !gPanics(w1, g, src, ctx))
	n, err := Transaction(g, begin, end).Match(src, ctx)
	v.Ensures("a transaction keeps its rule's result", n == gN(w1, g, src, ctx) && v.Same(err, gErr(w1, g, src, ctx)))
	v.Ensures("M06: begin, rule, end, once each, with begin's value and the rule's error", v.Same(v.GetWorld(), endW(gW(w1, g, src, ctx), end, tv, err)))
}

//verif:prop M04
func propTransAborts(g Grammar, begin func() interface{}, end func(trans interface{}, err error), src []Token, ctx Context) {
	v.Requires("a rule", g != nil && begin != nil && end != nil)
	w1 := begW(v.GetWorld(), begin)
	v.Requires("the rule aborts", gPanics(w1, g, src, ctx))
	p, pv := v.Try(func() { Transaction(g, begin, end).Match(src, ctx) })
	v.Ensures("an abort passes through a transaction", p && v.Same(pv, gPV(w1, g, src, ctx)))
}
