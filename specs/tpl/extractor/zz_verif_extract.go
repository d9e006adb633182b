//go:build go1.18

package extractor

import (
	"strings"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/zzverif/v"
)

//verif:immutable F:tpl/extractor.Cons.tag F:tpl/extractor.Cons.val F:tpl/extractor.Cons.tail F:tpl/extractor.Cons.cate

// ---- E03

// charLit: the byte a character literal denotes.
func charLit(lit string) (c byte, ok bool) {
	n := len(lit)
	if n < 2 || lit[0] != '\'' || lit[n-1] != '\'' {
		return 0, false
	}
	in := lit[1 : n-1]
	return byte(interpreter.VerifChar(in, '\'')),
		interpreter.VerifCharErr(in, '\'') == nil && interpreter.VerifCharTail(in, '\'') == "" && !interpreter.VerifCharMulti(in, '\'')
}

//verif:prop E03
func propGetValue(typ, lit string) {
	v.Requires("a token's text has no sign", lit == "" || lit[0] != '+' && lit[0] != '-')
	var x interface{}
	bad, _ := v.Try(func() { x = GetValue(typ, lit) })
	ok := false
	switch typ {
	case "Text":
		ok = true
		v.Ensures("a text is the token's text", !bad && v.Same(x, interface{}(lit)))
	case "String":
		ok = interpreter.VerifUnquoteErr(lit) == nil
		v.Ensures("a string's value", v.Implies(ok, !bad && v.Same(x, interface{}(interpreter.VerifUnquoted(lit)))))
	case "Int":
		ok = interpreter.VerifWF(lit, 10) && interpreter.VerifFits(lit, 10, 63)
		v.Ensures("an integer's value", v.Implies(ok, !bad && v.Same(x, interface{}(int64(interpreter.VerifNum(lit, 10))))))
	case "Float":
		ok = interpreter.VerifFloatErr(lit) == nil
		v.Ensures("a float's value", v.Implies(ok, !bad && v.Same(x, interface{}(interpreter.VerifFloat(lit)))))
	case "Char":
		var c byte
		c, ok = charLit(lit)
		v.Ensures("a character's byte", v.Implies(ok, !bad && v.Same(x, interface{}(c))))
	}
	v.Ensures("a text without such a value is an error", v.Implies(!ok, bad))
}

// ---- the marker

//verif:keeps G:github.com/qiniu/text/tpl/extractor.verifCompiler
//verif:keeps G:github.com/qiniu/text/tpl/extractor.verifGets
//verif:keeps G:github.com/qiniu/text/tpl/extractor.verifGetTyp
//verif:keeps G:github.com/qiniu/text/tpl/extractor.verifGetLit
//verif:keeps G:github.com/qiniu/text/tpl/extractor.verifGot
var (
	verifCompiler *tpl.Compiler
	verifGets     int
	verifGetTyp   string
	verifGetLit   string
	verifGot      interface{}
	verifInner    *Node
)

//verif:model (*github.com/qiniu/text/tpl.Compiler).Cl
//verif:opt scope=file
func modelCl(p *tpl.Compiler) (ret tpl.CompileRet, err error) {
	verifCompiler = p
	ret.Matcher = new(tpl.Matcher)
	return ret, nil
}

// Any way to convert texts.
func getter(typ, lit string) interface{} {
	verifGets++
	verifGetTyp, verifGetLit = typ, lit
	if v.Fresh[bool]() {
		v.Panic(v.Fresh[interface{}]())
	}
	verifGot = v.Fresh[interface{}]()
	return verifGot
}

// A rule that matches n tokens, or fails, after inserting things.
type verifRule struct {
	n    int
	err  error
	eng  *Engine
	node bool
}

func (p *verifRule) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	if p.node { // whatever is extracted inside goes to the current node
		verifInner = p.eng.stk
		p.eng.stk.hd = v.Fresh[*Cons]()
	}
	return p.n, p.err
}
func (p *verifRule) Marshal(b []byte, t tpl.Tokener, lvl int) []byte { return b }
func (p *verifRule) Len() int                                        { return -1 }

// parts: name_TypeSuffix.
func parts(mark string) (name, typ string, isArray, ok bool) {
	n := len(mark)
	if strings.HasSuffix(mark, "s") {
		n, isArray = n-1, true
	} else if strings.HasSuffix(mark, "Array") {
		n, isArray = n-5, true
	}
	pos := strings.LastIndex(mark[:n], "_")
	if pos < 0 {
		return "", "", false, false
	}
	return mark[:pos], mark[pos+1 : n], isArray, true
}

func extractorFor(src []tpl.Token, n int) *Engine {
	v.Requires("matched tokens", 0 <= n && n <= len(src))
	p, err := New("", &Options{GetValue: getter})
	v.Ensures("the engine is made", err == nil && p != nil && verifCompiler.Init != nil && verifCompiler.Marker != nil)
	verifCompiler.Init()
	v.Ensures("a fresh document is empty", p.doc.hd == nil && p.stk == &p.doc)
	return p
}

//verif:prop E01,E03
func propLeaf(mark string, src []tpl.Token, n int, cur *Node) {
	v.Requires("a mark", len(mark) < 1<<40)
	p := extractorFor(src, n)
	name, typ, isArray, ok := parts(mark)
	v.Requires("a leaf mark", !ok || typ != "Node")
	v.Requires("a current node", cur != nil)
	var g tpl.Grammar
	bad, _ := v.Try(func() { g = verifCompiler.Marker(&verifRule{n: n}, mark) })
	v.Ensures("a mark without a type is refused", bad == !ok)
	if bad {
		return
	}
	p.stk = cur
	was := cur.hd
	verifGets = 0
	m := 0
	bad, _ = v.Try(func() { m, _ = g.Match(src, nil) })
	v.Ensures("the node stays current", p.stk == cur)
	if bad {
		v.Ensures("nothing is extracted when there is no value", cur.hd == was)
		return
	}
	v.Ensures("the rule's match", m == n)
	v.Ensures("one conversion, by the mark's type, of the first token's text", verifGets == 1 && verifGetTyp == typ && n > 0 && verifGetLit == src[0].Literal)
	v.Ensures("one member more, in the current node", cur.hd != nil && cur.hd != was && cur.hd.tail == was)
	v.Ensures("under the mark's name", cur.hd.tag == name)
	v.Ensures("with that value", v.Same(cur.hd.val, verifGot))
	v.Ensures("an array member if the mark says so", cur.hd.cate == cateLeaf && !isArray || cur.hd.cate == cateLeafArray && isArray)
}

//verif:prop E01,E02
func propNode(mark string, src []tpl.Token, n int, cur *Node, fail error) {
	v.Requires("a mark", len(mark) < 1<<40)
	p := extractorFor(src, n)
	name, typ, isArray, ok := parts(mark)
	v.Requires("a node mark", ok && typ == "Node")
	v.Requires("a current node", cur != nil)
	r := &verifRule{n: n, err: fail, eng: p, node: true}
	g := verifCompiler.Marker(r, mark)
	p.stk = cur
	was := cur.hd
	m, err := g.Match(src, nil)
	v.Ensures("the rule's outcome", m == n && v.Same(err, fail))
	v.Ensures("the outer node is current again", p.stk == cur)
	if fail != nil {
		v.Ensures("E02: a failed part leaves nothing", cur.hd == was)
		return
	}
	v.Ensures("E01: one member more, in the current node", cur.hd != nil && cur.hd != was && cur.hd.tail == was)
	v.Ensures("E01: under the mark's name", cur.hd.tag == name)
	in, isNode := cur.hd.val.(*Node)
	v.Ensures("E01: a new node", isNode && in != nil && in != cur && in == verifInner)
	v.Ensures("E01: an array member if the mark says so", cur.hd.cate == cateNode && !isArray || cur.hd.cate == cateNodeArray && isArray)
}

// ---- E01: the document made of what was inserted. hd is the newest member.

//verif:uf
func childMap(n *Node) map[string]interface{} { return nil }

// The document of a node inside another one, by the contract itself.
//
//verif:model (*github.com/qiniu/text/tpl/extractor.Node).toMap
//verif:opt scope=recursive
func modelToMap(n *Node) map[string]interface{} { return childMap(n) }

// count: how many members have the tag.
//
//verif:spec
func count(hd *Cons, tag string) int {
	if hd == nil {
		return 0
	}
	if hd.tag == tag {
		return 1 + count(hd.tail, tag)
	}
	return count(hd.tail, tag)
}

// kth: the value of the k-th newest member with the tag.
//
//verif:spec
func kth(hd *Cons, tag string, k int) interface{} {
	if hd == nil {
		return nil
	}
	if hd.tag == tag {
		if k == 0 {
			return hd.val
		}
		return kth(hd.tail, tag, k-1)
	}
	return kth(hd.tail, tag, k)
}

// uniform: all members with the tag are of one category.
//
//verif:spec
func uniform(hd *Cons, tag string, cate int) bool {
	if hd == nil {
		return true
	}
	return (hd.tag != tag || hd.cate == cate) && uniform(hd.tail, tag, cate)
}

// wellFormed: the members were made by insertLeaf and insertNode.
//
//verif:spec
func wellFormed(hd *Cons) bool {
	if hd == nil {
		return true
	}
	if hd.cate == cateNode || hd.cate == cateNodeArray {
		if n, ok := hd.val.(*Node); !ok || n == nil {
			return false
		}
	} else if hd.cate != cateLeaf && hd.cate != cateLeafArray {
		return false
	}
	return wellFormed(hd.tail)
}

// run: how many members in a row are of the category and tag.
//
//verif:spec
func run(hd *Cons, cate int, tag string) int {
	if hd == nil || hd.cate != cate || hd.tag != tag {
		return 0
	}
	return 1 + run(hd.tail, cate, tag)
}

//verif:prop E01
//verif:lemma arrayCollect
func propArrayCollect(hd *Cons) int {
	v.Requires("a member", hd != nil)
	want := run(hd, hd.cate, hd.tag)
	cate, tag := hd.cate, hd.tag
	v.Inv(func(h *Cons, n int) bool {
		return h != nil && h.cate == cate && h.tag == tag && n >= 1 && n-1+run(h, cate, tag) == want
	})
	n := arrayCollect(hd)
	v.Ensures("the members in a row", n == want && n >= 1)
	return n
}

// later: the array already in the document.
func later(data map[string]interface{}, tag string) []interface{} {
	x, _ := data[tag].([]interface{})
	return x
}

// more: how many values of a new array are already there.
func more(t, tag string, items []interface{}, i int) int {
	if t == tag {
		return len(items) - 1 - i
	}
	return 0
}

//verif:prop E01
//verif:opt init=no
func propLeafArrays(p *Node, tag string, k int) {
	v.Requires("a node made by the insertions", p != nil && wellFormed(p.hd))
	v.Requires("leaf arrays have names of their own", uniform(p.hd, tag, cateLeafArray))
	v.Requires("a position", k >= 0)
	hd0 := p.hd
	// between the members
	v.Inv(func(hd *Cons) bool { return wellFormed(hd) })
	v.Inv(func(hd *Cons) bool { return uniform(hd, tag, cateLeafArray) })
	v.Inv(func(hd *Cons, data map[string]interface{}) bool { return data != nil })
	v.Inv(func(data map[string]interface{}) bool {
		x, in := data[tag]
		_, ok := x.([]interface{})
		return in == (len(later(data, tag)) > 0) && (!in || ok)
	})
	v.Inv(func(hd *Cons, data map[string]interface{}) bool {
		return len(later(data, tag))+count(hd, tag) == count(hd0, tag)
	})
	v.Inv(func(hd *Cons, data map[string]interface{}) bool {
		m := len(later(data, tag))
		return k < m || v.Same(kth(hd0, tag, k), kth(hd, tag, k-m))
	})
	v.Inv(func(data map[string]interface{}) bool {
		x := later(data, tag)
		return k >= len(x) || v.Same(x[len(x)-1-k], kth(hd0, tag, k))
	})
	// within an array
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return run(hd, cateLeafArray, t) == i+1 })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool {
		return run(hd, cateNodeArray, t) == i+1
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}, data map[string]interface{}) bool {
		return len(later(data, tag))+more(t, tag, items, i)+count(hd, tag) == count(hd0, tag)
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}, data map[string]interface{}) bool {
		m := len(later(data, tag)) + more(t, tag, items, i)
		return k < m || v.Same(kth(hd0, tag, k), kth(hd, tag, k-m))
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}, data map[string]interface{}) bool {
		n := len(later(data, tag))
		m := n + more(t, tag, items, i)
		return k < n || k >= m || v.Same(items[len(items)-1-(k-n)], kth(hd0, tag, k))
	})
	doc := p.toMap()
	v.Ensures("a document without members is nil", (doc == nil) == (hd0 == nil))
	x, in := doc[tag]
	n := count(hd0, tag)
	v.Ensures("a member per name", in == (n > 0))
	if in {
		items, ok := x.([]interface{})
		v.Ensures("all parts of the name", ok && len(items) == n)
		if k < n {
			v.Ensures("in match order", v.Same(items[n-1-k], kth(hd0, tag, k)))
		}
	}
}

// inner: the document of an inner node.
func inner(x interface{}) map[string]interface{} {
	n, _ := x.(*Node)
	return childMap(n)
}

func laterNodes(data map[string]interface{}, tag string) []map[string]interface{} {
	x, _ := data[tag].([]map[string]interface{})
	return x
}

func moreNodes(t, tag string, items []map[string]interface{}, i int) int {
	if t == tag {
		return len(items) - 1 - i
	}
	return 0
}

//verif:prop E01
//verif:opt init=no
func propNodeArrays(p *Node, tag string, k int) {
	v.Requires("a node made by the insertions", p != nil && wellFormed(p.hd))
	v.Requires("node arrays have names of their own", uniform(p.hd, tag, cateNodeArray))
	v.Requires("a position", k >= 0)
	hd0 := p.hd
	// between the members
	v.Inv(func(hd *Cons) bool { return wellFormed(hd) })
	v.Inv(func(hd *Cons) bool { return uniform(hd, tag, cateNodeArray) })
	v.Inv(func(hd *Cons, data map[string]interface{}) bool { return data != nil })
	v.Inv(func(data map[string]interface{}) bool {
		x, in := data[tag]
		_, ok := x.([]map[string]interface{})
		return in == (len(laterNodes(data, tag)) > 0) && (!in || ok)
	})
	v.Inv(func(hd *Cons, data map[string]interface{}) bool {
		return len(laterNodes(data, tag))+count(hd, tag) == count(hd0, tag)
	})
	v.Inv(func(hd *Cons, data map[string]interface{}) bool {
		m := len(laterNodes(data, tag))
		return k < m || v.Same(kth(hd0, tag, k), kth(hd, tag, k-m))
	})
	v.Inv(func(data map[string]interface{}) bool {
		x := laterNodes(data, tag)
		return k >= len(x) || v.Same(x[len(x)-1-k], inner(kth(hd0, tag, k)))
	})
	// within an array
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool {
		return run(hd, cateNodeArray, t) == i+1
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return run(hd, cateLeafArray, t) == i+1 })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}, data map[string]interface{}) bool {
		return len(laterNodes(data, tag))+moreNodes(t, tag, items, i)+count(hd, tag) == count(hd0, tag)
	})
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}, data map[string]interface{}) bool {
		m := len(laterNodes(data, tag)) + moreNodes(t, tag, items, i)
		return k < m || v.Same(kth(hd0, tag, k), kth(hd, tag, k-m))
	})
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}, data map[string]interface{}) bool {
		n := len(laterNodes(data, tag))
		m := n + moreNodes(t, tag, items, i)
		return k < n || k >= m || v.Same(items[len(items)-1-(k-n)], inner(kth(hd0, tag, k)))
	})
	doc := p.toMap()
	v.Ensures("a document without members is nil", (doc == nil) == (hd0 == nil))
	x, in := doc[tag]
	n := count(hd0, tag)
	v.Ensures("a member per name", in == (n > 0))
	if in {
		items, ok := x.([]map[string]interface{})
		v.Ensures("all parts of the name", ok && len(items) == n)
		if k < n {
			v.Ensures("in match order", v.Same(items[n-1-k], inner(kth(hd0, tag, k))))
		}
	}
}

// absent: no member has the tag.
//
//verif:spec
func absent(hd *Cons, tag string) bool {
	if hd == nil {
		return true
	}
	return hd.tag != tag && absent(hd.tail, tag)
}

// once: one member has the tag, and is of the category.
//
//verif:spec
func once(hd *Cons, tag string, cate int) bool {
	if hd == nil {
		return false
	}
	if hd.tag == tag {
		return hd.cate == cate && absent(hd.tail, tag)
	}
	return once(hd.tail, tag, cate)
}

//verif:prop E01
//verif:opt init=no
func propSingleLeaf(p *Node, tag string) {
	v.Requires("a node made by the insertions", p != nil && wellFormed(p.hd))
	v.Requires("one member of the name", once(p.hd, tag, cateLeaf))
	want := kth(p.hd, tag, 0)
	v.Inv(func(hd *Cons) bool { return wellFormed(hd) })
	v.Inv(func(hd *Cons) bool { return absent(hd, tag) || once(hd, tag, cateLeaf) })
	v.Inv(func(hd *Cons) bool { return absent(hd, tag) || v.Same(kth(hd, tag, 0), want) })
	v.Inv(func(hd *Cons, data map[string]interface{}) bool {
		x, in := data[tag]
		return data != nil && (once(hd, tag, cateLeaf) || absent(hd, tag) && in && v.Same(x, want))
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return run(hd, cateLeafArray, t) == i+1 })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool {
		return run(hd, cateNodeArray, t) == i+1
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}, data map[string]interface{}) bool {
		x, in := data[tag]
		return t != tag && data != nil && (once(hd, tag, cateLeaf) || absent(hd, tag) && in && v.Same(x, want))
	})
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}, data map[string]interface{}) bool {
		x, in := data[tag]
		return t != tag && data != nil && (once(hd, tag, cateLeaf) || absent(hd, tag) && in && v.Same(x, want))
	})
	doc := p.toMap()
	x, in := doc[tag]
	v.Ensures("the member", in && v.Same(x, want))
}

//verif:prop E01
//verif:opt init=no
func propSingleNode(p *Node, tag string) {
	v.Requires("a node made by the insertions", p != nil && wellFormed(p.hd))
	v.Requires("one member of the name", once(p.hd, tag, cateNode))
	want := kth(p.hd, tag, 0)
	v.Inv(func(hd *Cons) bool { return wellFormed(hd) })
	v.Inv(func(hd *Cons) bool { return absent(hd, tag) || once(hd, tag, cateNode) })
	v.Inv(func(hd *Cons) bool { return absent(hd, tag) || v.Same(kth(hd, tag, 0), want) })
	v.Inv(func(hd *Cons, data map[string]interface{}) bool {
		x, in := data[tag]
		return data != nil && (once(hd, tag, cateNode) || absent(hd, tag) && in && v.Same(x, interface{}(inner(want))))
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []interface{}) bool { return run(hd, cateLeafArray, t) == i+1 })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool { return -1 <= i && i < len(items) })
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}) bool {
		return run(hd, cateNodeArray, t) == i+1
	})
	v.Inv(func(hd *Cons, i int, t string, items []interface{}, data map[string]interface{}) bool {
		x, in := data[tag]
		return t != tag && data != nil && (once(hd, tag, cateNode) || absent(hd, tag) && in && v.Same(x, interface{}(inner(want))))
	})
	v.Inv(func(hd *Cons, i int, t string, items []map[string]interface{}, data map[string]interface{}) bool {
		x, in := data[tag]
		return t != tag && data != nil && (once(hd, tag, cateNode) || absent(hd, tag) && in && v.Same(x, interface{}(inner(want))))
	})
	doc := p.toMap()
	x, in := doc[tag]
	v.Ensures("the member", in && v.Same(x, interface{}(inner(want))))
}
