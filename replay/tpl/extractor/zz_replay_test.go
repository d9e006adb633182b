package extractor_test

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/qiniu/text/tpl/extractor"
	"github.com/qiniu/text/zzverif/rt"
)

// ---- a reference of marked grammars ----------------------------------------

type xnode struct {
	op   string // tok, seq, alt, star, plus, opt, list, list0, leaf, node, rule
	kids []*xnode
	tok  string // token class of tok
	name string // tag of leaf and node, name of rule
	typ  string // of leaf
	arr  bool
	suf  string // s or Array
}

type xtok struct{ cls, lit string }

// xtree is a node of the extracted document.
type xitem struct {
	tag string
	arr bool
	nd  *xtree // or a value
	val interface{}
}
type xtree struct{ items []xitem }

// xref interprets grammars; with leaky set, leaves of failed parts outside a
// failed node stay.
type xref struct {
	leaky  bool
	leaked bool
	steps  int
	bad    string // the first conversion error
}

func (x *xref) match(g *xnode, in []xtok, out *xtree) (int, bool) {
	if x.steps++; x.steps > 20000 {
		panic("steps")
	}
	mark := len(out.items)
	n, ok := x.match1(g, in, out)
	if !ok && len(out.items) > mark {
		x.leaked = true
		if !x.leaky {
			out.items = out.items[:mark]
		}
	}
	return n, ok
}

func (x *xref) match1(g *xnode, in []xtok, out *xtree) (int, bool) {
	switch g.op {
	case "tok":
		if len(in) > 0 && (in[0].cls == g.tok || g.tok == "FLOAT" && in[0].cls == "INT") {
			return 1, true
		}
		return 0, false
	case "seq":
		n := 0
		for _, k := range g.kids {
			m, ok := x.match(k, in[n:], out)
			if !ok {
				return 0, false
			}
			n += m
		}
		return n, true
	case "alt":
		for _, k := range g.kids {
			if n, ok := x.match(k, in, out); ok {
				return n, true
			}
		}
		return 0, false
	case "star", "plus", "opt":
		n, c := 0, 0
		for g.op != "opt" || c == 0 {
			m, ok := x.match(g.kids[0], in[n:], out)
			if !ok {
				break
			}
			n += m
			c++
		}
		return n, g.op != "plus" || c > 0
	case "list", "list0":
		n, ok := x.match(g.kids[0], in, out)
		if !ok {
			return 0, g.op == "list0"
		}
		for {
			at := len(out.items)
			a, ok := x.match(g.kids[1], in[n:], out)
			if ok {
				var b int
				b, ok = x.match(g.kids[0], in[n+a:], out)
				a += b
			}
			if !ok {
				if len(out.items) > at {
					x.leaked = true
					if !x.leaky {
						out.items = out.items[:at]
					}
				}
				return n, true
			}
			n += a
		}
	case "leaf":
		n, ok := x.match(g.kids[0], in, out)
		if ok {
			v, good := xvalue(g.typ, in[0].lit)
			if !good {
				panic(xbad("bad " + in[0].lit))
			}
			out.items = append(out.items, xitem{tag: g.name, arr: g.arr, val: v})
		}
		return n, ok
	case "node":
		t := &xtree{}
		n, ok := x.match(g.kids[0], in, t)
		if ok {
			out.items = append(out.items, xitem{tag: g.name, arr: g.arr, nd: t})
		}
		return n, ok
	case "rule":
		return x.match(g.kids[0], in, out)
	}
	panic(g.op)
}

type xbad string

// xvalue is what a literal denotes under a type.
func xvalue(typ, lit string) (interface{}, bool) {
	switch typ {
	case "Text":
		return lit, true
	case "Int":
		if lit == "" {
			return nil, false
		}
		for i := 0; i < len(lit); i++ {
			if lit[i] < '0' || lit[i] > '9' {
				return nil, false
			}
		}
		v, ok := new(big.Int).SetString(lit, 10)
		if !ok || !v.IsInt64() {
			return nil, false
		}
		return v.Int64(), true
	case "Float":
		if !xdecimal(lit) {
			return nil, false
		}
		f, _, err := big.ParseFloat(lit, 10, 2000, big.ToNearestEven)
		if err != nil {
			return nil, false
		}
		v, _ := f.Float64()
		if v > 1.7e308 && new(big.Float).SetFloat64(1.7e308).Cmp(f) < 0 && (v != v || v*2 == v) {
			return nil, false
		}
		return v, true
	case "Char":
		s, q, ok := xunquote(lit)
		if !ok || q != '\'' || len(s) != 1 {
			return nil, false
		}
		return s[0], true
	case "String":
		s, q, ok := xunquote(lit)
		if !ok || q == '\'' {
			return nil, false
		}
		return s, true
	}
	return nil, false
}

func xdecimal(s string) bool {
	d, i := 0, 0
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		d++
	}
	if i < len(s) && s[i] == '.' {
		for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			d++
		}
	}
	if d == 0 {
		return false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		e := 0
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			e++
		}
		if e == 0 {
			return false
		}
	}
	return i == len(s)
}

// xunquote decodes a Go literal; one-byte character literals come as one byte.
func xunquote(lit string) (string, byte, bool) {
	if len(lit) < 2 || lit[0] != lit[len(lit)-1] {
		return "", 0, false
	}
	q, in := lit[0], lit[1:len(lit)-1]
	if q == '`' {
		return strings.ReplaceAll(in, "\r", ""), q, !strings.Contains(in, "`")
	}
	if q != '"' && q != '\'' {
		return "", 0, false
	}
	var out []byte
	for i := 0; i < len(in); {
		c := in[i]
		if c == q || c == '\n' {
			return "", 0, false
		}
		if c != '\\' {
			out = append(out, c)
			i++
			continue
		}
		if i+1 >= len(in) {
			return "", 0, false
		}
		c = in[i+1]
		i += 2
		if k := strings.IndexByte("abfnrtv", c); k >= 0 {
			out = append(out, "\a\b\f\n\r\t\v"[k])
			continue
		}
		if c == '\\' || c == q {
			out = append(out, c)
			continue
		}
		n, base := 0, 16
		switch {
		case c == 'x':
			n = 2
		case c == 'u':
			n = 4
		case c == 'U':
			n = 8
		case c >= '0' && c <= '7':
			n, base = 3, 8
			i--
		default:
			return "", 0, false
		}
		if i+n > len(in) {
			return "", 0, false
		}
		v := 0
		for k := 0; k < n; k++ {
			d := strings.IndexByte("0123456789abcdef", strings.ToLower(in[i+k : i+k+1])[0])
			if d < 0 || d >= base {
				return "", 0, false
			}
			v = v*base + d
		}
		i += n
		if c == 'u' || c == 'U' {
			if v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
				return "", 0, false
			}
			out = append(out, string(rune(v))...)
			if q == '\'' {
				out = append(out, "\\u"...) // not a one-byte literal
			}
		} else if v > 255 {
			return "", 0, false
		} else {
			out = append(out, byte(v))
		}
	}
	return string(out), q, true
}

// plain converts the tree; ok is false when tags collide in a way the
// statement does not settle.
func (t *xtree) plain() (map[string]interface{}, bool) {
	m := map[string]interface{}{}
	kind := map[string]string{}
	for _, it := range t.items {
		k := fmt.Sprint(it.arr, it.nd != nil)
		if old, ok := kind[it.tag]; ok && (old != k || !it.arr) {
			return nil, false
		}
		kind[it.tag] = k
		var v interface{} = it.val
		if it.nd != nil {
			c, ok := it.nd.plain()
			if !ok {
				return nil, false
			}
			v = c
		}
		if it.arr {
			if it.nd != nil {
				l, _ := m[it.tag].([]map[string]interface{})
				c, _ := v.(map[string]interface{})
				v = append(l, c)
			} else {
				l, _ := m[it.tag].([]interface{})
				v = append(l, v)
			}
		}
		m[it.tag] = v
	}
	return m, true
}

func same(a, b interface{}) bool {
	am, ok1 := a.(map[string]interface{})
	bm, ok2 := b.(map[string]interface{})
	if ok1 && ok2 {
		if len(am) != len(bm) {
			return false
		}
		for k, v := range am {
			w, ok := bm[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	}
	al, ok1 := a.([]map[string]interface{})
	bl, ok2 := b.([]map[string]interface{})
	if ok1 && ok2 {
		if len(al) != len(bl) {
			return false
		}
		for i := range al {
			if !same(al[i], bl[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// ---- texts ------------------------------------------------------------------

func (g *xnode) text(lvl int) string {
	par := func(l int, s string) string {
		if lvl > l {
			return "(" + s + ")"
		}
		return s
	}
	join := func(sep string, l int) string {
		var p []string
		for _, k := range g.kids {
			p = append(p, k.text(l))
		}
		return strings.Join(p, sep)
	}
	switch g.op {
	case "tok":
		if len(g.tok) == 1 {
			return "'" + g.tok + "'"
		}
		return g.tok
	case "seq":
		return par(1, join(" ", 2))
	case "alt":
		return par(0, join(" | ", 1))
	case "star":
		return par(3, "*"+g.kids[0].text(4))
	case "plus":
		return par(3, "+"+g.kids[0].text(4))
	case "opt":
		return par(3, "?"+g.kids[0].text(4))
	case "list":
		return par(2, g.kids[0].text(3)+" % "+g.kids[1].text(3))
	case "list0":
		return par(2, g.kids[0].text(3)+" %= "+g.kids[1].text(3))
	case "leaf":
		return par(3, g.kids[0].text(5)+"/"+g.name+"_"+g.typ+g.suf)
	case "node":
		return par(3, g.kids[0].text(5)+"/"+g.name+"_Node"+g.suf)
	case "rule":
		return g.name
	}
	panic(g.op)
}

var classes = []string{"INT", "IDENT", "STRING", "CHAR", "FLOAT", ",", ";", "+"}
var spell = map[string][]string{"INT": {"0", "7", "12", "9223372036854775807", "007"}, "IDENT": {"a", "b1", "xyz"}, "STRING": {`"s"`, `""`, "`r`", `"\x41\n"`}, "CHAR": {`'c'`, `'\n'`, `'\''`}, "FLOAT": {"1.5", "2e3", "0.25"}, ",": {","}, ";": {";"}, "+": {"+"}}

type xgen struct {
	r    *rand.Rand
	rule []*xnode
	tags int
	wild bool // leaf types that may not fit
}

func (x *xgen) tok() *xnode { return &xnode{op: "tok", tok: classes[x.r.Intn(len(classes))]} }

// gen makes a rule; must tells that it may not match nothing.
func (x *xgen) gen(d int, must bool) *xnode {
	if d <= 0 {
		return x.leaf(x.tok())
	}
	k := x.r.Intn(16)
	if must && (k == 7 || k == 9 || k == 11) {
		k = 8
	}
	switch k {
	case 0, 1, 2, 3:
		n := 2 + x.r.Intn(2)
		g := &xnode{op: "seq"}
		f := x.r.Intn(n)
		for i := 0; i < n; i++ {
			g.kids = append(g.kids, x.gen(d-1, must && i == f))
		}
		return g
	case 4, 5, 6:
		g := &xnode{op: "alt"}
		for i := 0; i < 2+x.r.Intn(2); i++ {
			g.kids = append(g.kids, x.gen(d-1, must))
		}
		return g
	case 7:
		return &xnode{op: "star", kids: []*xnode{x.gen(d-1, true)}}
	case 8:
		return &xnode{op: "plus", kids: []*xnode{x.gen(d-1, true)}}
	case 9:
		return &xnode{op: "opt", kids: []*xnode{x.gen(d-1, false)}}
	case 10:
		return &xnode{op: "list", kids: []*xnode{x.gen(d-1, true), {op: "tok", tok: ","}}}
	case 11:
		return &xnode{op: "list0", kids: []*xnode{x.gen(d-1, true), {op: "tok", tok: ";"}}}
	case 12, 13, 14:
		g := x.gen(d-1, must)
		n := &xnode{op: "node", kids: []*xnode{g}, name: x.tag()}
		x.arr(n)
		return n
	}
	if len(x.rule) > 0 && x.r.Intn(3) == 0 {
		return x.rule[x.r.Intn(len(x.rule))]
	}
	return x.leaf(x.tok())
}

func (x *xgen) arr(n *xnode) {
	if x.r.Intn(2) == 0 {
		n.arr = true
		n.suf = []string{"s", "Array"}[x.r.Intn(2)]
	}
}

func (x *xgen) tag() string {
	if x.r.Intn(3) == 0 {
		return string(rune('p' + x.r.Intn(4)))
	}
	x.tags++
	return fmt.Sprintf("t%d", x.tags) + []string{"", "_x", "Ints"}[x.r.Intn(3)]
}

func (x *xgen) leaf(t *xnode) *xnode {
	if x.r.Intn(4) == 0 || len(t.tok) == 1 { // an operator carries no text
		return t
	}
	typ := "Text"
	if x.r.Intn(2) == 0 {
		switch t.tok {
		case "INT":
			typ = []string{"Int", "Float"}[x.r.Intn(2)]
		case "FLOAT":
			typ = "Float"
		case "STRING":
			typ = "String"
		case "CHAR":
			typ = "Char"
		}
	}
	if x.wild && x.r.Intn(6) == 0 {
		typ = []string{"Int", "Float", "String", "Char"}[x.r.Intn(4)]
		if typ == "String" && t.tok == "CHAR" { // not settled by the statement
			typ = "Int"
		}
	}
	n := &xnode{op: "leaf", kids: []*xnode{t}, name: x.tag(), typ: typ}
	x.arr(n)
	return n
}

func (x *xgen) sample(g *xnode, out []xtok, d int) []xtok {
	one := func(cls string) []xtok {
		l := spell[cls]
		if cls == "FLOAT" && x.r.Intn(3) == 0 {
			cls = "INT"
			l = spell[cls]
		}
		return append(out, xtok{cls, l[x.r.Intn(len(l))]})
	}
	switch g.op {
	case "tok":
		return one(g.tok)
	case "seq":
		for _, k := range g.kids {
			out = x.sample(k, out, d+1)
		}
		return out
	case "alt":
		return x.sample(g.kids[x.r.Intn(len(g.kids))], out, d+1)
	case "star", "plus", "opt", "list", "list0":
		n := x.r.Intn(4)
		if g.op == "opt" {
			n = x.r.Intn(2)
		}
		if n == 0 && (g.op == "plus" || g.op == "list") {
			n = 1
		}
		if d > 6 && n > 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if i > 0 && len(g.kids) == 2 {
				out = x.sample(g.kids[1], out, d+1)
			}
			out = x.sample(g.kids[0], out, d+1)
		}
		return out
	}
	return x.sample(g.kids[0], out, d)
}

func run(r *rt.R, g string, in string) (doc map[string]interface{}, err error, crash interface{}) {
	var p *extractor.Engine
	e, v := r.Try("new", g, func() { p, err = extractor.New(g, nil) })
	if e || err != nil {
		return nil, err, fmt.Sprint("New: ", v, err)
	}
	e, v = r.Try("parse", g+" on "+in, func() { doc, err = p.Extract(in) })
	if e {
		return nil, nil, v
	}
	if err != nil {
		doc = nil
	}
	return
}

func sweep(r *rt.R, n int, wild bool, only func(g *xnode, leaked, bad bool) bool) {
	for i := 0; i < n && r.Left(); i++ {
		x := &xgen{r: r.Rnd, wild: wild}
		gt := ""
		for k := r.Rnd.Intn(3); k > 0; k-- {
			b := x.gen(2, true)
			ru := &xnode{op: "rule", name: fmt.Sprintf("rule%d", k), kids: []*xnode{b}}
			x.rule = append(x.rule, ru)
			gt += ru.name + " = " + b.text(0) + "\n\n"
		}
		g := x.gen(3+r.Rnd.Intn(2), false)
		gt += "doc = " + g.text(0) + "\n"
		for k := 0; k < 6; k++ {
			toks := x.sample(g, nil, 0)
			if len(toks) > 40 {
				continue
			}
			if k >= 3 && len(toks) > 0 {
				j := r.Rnd.Intn(len(toks))
				switch r.Rnd.Intn(3) {
				case 0:
					toks = append(append([]xtok{}, toks[:j]...), toks[j+1:]...)
				case 1:
					toks = append(append(append([]xtok{}, toks[:j]...), x.sample(x.tok(), nil, 0)...), toks[j:]...)
				case 2:
					toks = append(append(append([]xtok{}, toks[:j]...), x.sample(x.tok(), nil, 0)...), toks[j+1:]...)
				}
			}
			one(r, gt, g, toks, only)
		}
	}
}

func one(r *rt.R, gt string, g *xnode, toks []xtok, only func(g *xnode, leaked, bad bool) bool) {
	var lits []string
	for _, t := range toks {
		lits = append(lits, t.lit)
	}
	in := strings.Join(lits, " ")
	ref := func(leaky bool) (m map[string]interface{}, ok, settled, bad bool, x *xref) {
		x = &xref{leaky: leaky}
		settled = true
		defer func() {
			if e := recover(); e != nil {
				if _, isBad := e.(xbad); isBad {
					bad = true
				} else {
					settled = false
				}
			}
		}()
		out := &xtree{}
		n, ok := x.match(g, toks, out)
		ok = ok && n == len(toks)
		if ok {
			m, settled = out.plain()
		}
		return m, ok, settled, bad, x
	}
	want, ok, settled, bad, x := ref(false)
	if !settled || !only(g, x.leaked, bad) {
		return
	}
	doc, err, crash := run(r, gt, in)
	d := ""
	if ok || bad {
		d = gt + " <- " + in
	}
	r.Case(d)
	if crash != nil {
		r.Fail("crash", "%s on %q: %v", gt, in, crash)
		return
	}
	if !ok || bad {
		if err == nil {
			r.Fail("accepted", "%s on %q: no error, document %v", gt, in, doc)
		}
		return
	}
	if err != nil {
		r.Fail("refused", "%s on %q: %v", gt, in, err)
		return
	}
	if same(doc, want) {
		return
	}
	if x.leaked { // the listed finding: leaves of failed parts that no node mark encloses
		l, _, settled, _, _ := ref(true)
		if !settled || same(doc, l) {
			return
		}
	}
	r.Fail("document", "%s on %q: document %v, want %v", gt, in, doc, want)
}

func TestReplay_E01(t *testing.T) {
	r := rt.New(t, "random marked grammars (leaves and nodes, single and array, several rules, lists, options, choices) on texts sampled from them and damaged copies; distinct grammar and text pairs that match")
	defer r.Done()
	lf := func(cls, tag, typ, suf string) *xnode {
		return &xnode{op: "leaf", name: tag, typ: typ, suf: suf, arr: suf != "", kids: []*xnode{{op: "tok", tok: cls}}}
	}
	nd := func(tag, suf string, k *xnode) *xnode {
		return &xnode{op: "node", name: tag, suf: suf, arr: suf != "", kids: []*xnode{k}}
	}
	op := func(o string, k ...*xnode) *xnode { return &xnode{op: o, kids: k} }
	tk := func(s string) *xnode { return &xnode{op: "tok", tok: s} }
	all := func(*xnode, bool, bool) bool { return true }
	for _, g := range []*xnode{
		op("star", op("alt", lf("INT", "a", "Int", "s"), lf("STRING", "b", "String", "s"))),
		op("star", op("alt", lf("INT", "a", "Int", "s"), lf("IDENT", "b", "Text", ""))),
		op("star", op("alt", nd("n", "s", lf("INT", "a", "Int", "")), nd("m", "Array", op("seq", lf("IDENT", "b", "Text", ""), lf("IDENT", "c", "Text", ""))))),
		nd("o", "", op("star", nd("i", "s", op("plus", lf("INT", "a", "Int", "Array"))))),
		nd("o", "", op("list0", nd("i", "s", op("opt", op("plus", lf("INT", "a", "Int", "s")))), tk(","))),
		op("seq", nd("o", "", op("opt", lf("INT", "a", "Int", ""))), nd("p", "", op("star", lf("IDENT", "a", "Text", "s")))),
	} {
		x := &xgen{r: r.Rnd}
		for i := 0; i < 40; i++ {
			one(r, "doc = "+g.text(0), g, x.sample(g, nil, 0), all)
		}
	}
	sweep(r, r.Scale(1500), false, func(g *xnode, leaked, bad bool) bool { return !leaked })
}

func TestReplay_E02(t *testing.T) {
	r := rt.New(t, "random marked grammars with failing alternatives and options around node marks, compared with a reference that drops what a failed part had extracted; distinct grammar and text pairs that match")
	defer r.Done()
	// the listed finding, by its input
	doc, err, crash := run(r, "doc = (INT/a_Int ';' | INT/b_Int ',')", "1,")
	if crash != nil || err != nil {
		r.Fail("refused", "1,: %v %v", crash, err)
	} else if !same(doc, map[string]interface{}{"b": int64(1)}) {
		if same(doc, map[string]interface{}{"a": int64(1), "b": int64(1)}) {
			r.Fail("leaf-alternative", "doc = (INT/a_Int ';' | INT/b_Int ',') on \"1,\": the leaf a of the failed alternative is in the document")
		} else {
			r.Fail("document", "doc = (INT/a_Int ';' | INT/b_Int ',') on \"1,\": %v", doc)
		}
	}
	seq := func(k ...*xnode) *xnode { return &xnode{op: "seq", kids: k} }
	for i := 0; i < r.Scale(1200) && r.Left(); i++ {
		x := &xgen{r: r.Rnd}
		// a part that fails late inside a node mark, next to one that matches
		body := x.gen(2, true)
		mk := func(end string, b *xnode) *xnode {
			n := &xnode{op: "node", name: x.tag(), kids: []*xnode{seq(b, &xnode{op: "tok", tok: end})}}
			x.arr(n)
			return n
		}
		a, b := mk(";", body), mk(",", body)
		if x.r.Intn(2) == 0 {
			b = mk(",", x.gen(2, true))
		}
		var g *xnode
		switch x.r.Intn(4) {
		case 0:
			g = &xnode{op: "alt", kids: []*xnode{a, b}}
		case 1:
			g = seq(&xnode{op: "opt", kids: []*xnode{a}}, b)
		case 2:
			g = seq(&xnode{op: "star", kids: []*xnode{a}}, b)
		default:
			g = &xnode{op: "star", kids: []*xnode{{op: "alt", kids: []*xnode{a, b, x.leaf(&xnode{op: "tok", tok: "CHAR"})}}}}
		}
		if x.r.Intn(2) == 0 {
			g = seq(x.leaf(x.tok()), g, x.leaf(x.tok()))
		}
		if x.r.Intn(2) == 0 {
			g = &xnode{op: "node", name: "top", kids: []*xnode{g}}
		}
		for k := 0; k < 5; k++ {
			one(r, "doc = "+g.text(0)+"\n", g, x.sample(g, nil, 0), func(*xnode, bool, bool) bool { return true })
		}
	}
	sweep(r, r.Scale(400), false, func(g *xnode, leaked, bad bool) bool { return true })
}

func TestReplay_E03(t *testing.T) {
	r := rt.New(t, "every leaf type on tables and random numeric, string, character and other literals, directly and through a grammar; distinct literals per type")
	defer r.Done()
	check := func(typ, lit, cls string) {
		want, ok := xvalue(typ, lit)
		if typ == "String" && lit != "" && lit[0] == '\'' { // not settled by the statement
			return
		}
		r.Case(typ + " " + lit)
		var got interface{}
		p, _ := r.Try("value", typ+" "+lit, func() { got = extractor.GetValue(typ, lit) })
		if ok && (p || !same(got, want)) {
			r.Fail("value", "%s of %s is %v (panic %v), want %v", typ, lit, got, p, want)
		}
		if !ok && !p {
			r.Fail("refuse", "%s of %s is %v, want an error", typ, lit, got)
		}
		if cls == "" {
			return
		}
		for _, suf := range []string{"", "s", "Array"} {
			doc, err, crash := run(r, "doc = "+cls+"/v_"+typ+suf+"\n", lit)
			if crash != nil {
				r.Fail("crash", "%s of %s: %v", typ, lit, crash)
				continue
			}
			w := want
			if suf != "" {
				w = []interface{}{want}
			}
			if ok && (err != nil || !same(doc, map[string]interface{}{"v": w})) {
				r.Fail("value", "%s%s of %s extracts %v (%v), want %v", typ, suf, lit, doc, err, w)
			}
			if !ok && err == nil {
				r.Fail("refuse", "%s%s of %s extracts %v, want an error", typ, suf, lit, doc)
			}
		}
	}
	types := []string{"Int", "Float", "String", "Char", "Text"}
	tab := [][2]string{{"0", "INT"}, {"9", "INT"}, {"010", "INT"}, {"9223372036854775807", "INT"}, {"9223372036854775808", "INT"}, {"18446744073709551616", "INT"}, {"1.5", "FLOAT"}, {".5", "FLOAT"}, {"5.", "FLOAT"}, {"1e400", "FLOAT"}, {"1e-400", "FLOAT"}, {"1.7976931348623157e308", "FLOAT"}, {"abc", "IDENT"}, {"a", "IDENT"}, {"x9", "IDENT"},
		{`""`, "STRING"}, {`"a"`, "STRING"}, {`"ab\n\t\\\""`, "STRING"}, {`"\u00e9\x41\101"`, "STRING"}, {"`raw\\n`", "STRING"}, {"\"é\"", "STRING"},
		{`'a'`, "CHAR"}, {`'\''`, "CHAR"}, {`'"'`, "CHAR"}, {`'\x7f'`, "CHAR"}, {`'\377'`, "CHAR"}, {`'\u0041'`, "CHAR"}, {"'é'", "CHAR"}, {`'\\'`, "CHAR"}, {`'\n'`, "CHAR"}, {"2i", "IMAG"}}
	for _, c := range tab {
		for _, ty := range types {
			check(ty, c[0], c[1])
		}
	}
	for _, l := range []string{"", "-5", "+5", "-", "''", "'", `"`, `'ab'`, `"a`, "1_000", " 1", "1 ", `"\q"`, `"\'"`, `'\"'`, `"a"b"`, "'''", "\"a\nb\"", "99999999999999999999", "-9223372036854775808", "1e", "0x10"} {
		if l == "-5" || l == "+5" || l == "1_000" || l == "-9223372036854775808" || l == "0x10" {
			continue // no token has this text, or the statement does not settle it
		}
		for _, ty := range types {
			check(ty, l, "")
		}
	}
	for i := 0; i < r.Scale(3000) && r.Left(); i++ {
		n := 1 + r.Rnd.Intn(22)
		b := make([]byte, n)
		for k := range b {
			b[k] = byte('0' + r.Rnd.Intn(10))
		}
		lit, cls := string(b), "INT"
		switch r.Rnd.Intn(4) {
		case 0:
			lit, cls = lit+"."+lit[:r.Rnd.Intn(n)], "FLOAT"
		case 1:
			lit, cls = lit+"e"+[]string{"", "+", "-"}[r.Rnd.Intn(3)]+fmt.Sprint(r.Rnd.Intn(400)), "FLOAT"
		case 2:
			q := []string{`"`, `'`}[r.Rnd.Intn(2)]
			pieces := []string{"a", "é", `\n`, `\\`, `\x41`, `\u00e9`, `\101`, " ", "'", `"`, `\` + q, `\U0001F600`, `\q`, `\xg1`, `\400`, `\ud800`}
			lit, cls = q, ""
			for k := r.Rnd.Intn(3); k >= 0; k-- {
				lit += pieces[r.Rnd.Intn(len(pieces))]
			}
			lit += q
		}
		if cls == "INT" && lit[0] == '0' {
			cls = ""
		}
		if r.Rnd.Intn(5) > 0 {
			cls = ""
		}
		check(types[r.Rnd.Intn(5)], lit, cls)
	}
	sweep(r, r.Scale(300), true, func(g *xnode, leaked, bad bool) bool { return !leaked || bad })
}
