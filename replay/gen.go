package main

import (
	"math"
	"math/rand"
	"time"
)

// profile weighs what is generated for a property
type profile struct {
	kinds  [nKinds]int
	vals   map[valKind]int
	top    []kind // kinds of the root
	depth  int
	mixed  bool // attribute names may be declared with several kinds
	errs   int  // per mille chance of an error in a node or function
	nilPct int
	words  int // percentage of nodes made by functions of the vocabulary
}

type gen struct {
	r     *rand.Rand
	p     *profile
	pool  []*Node // nodes that may be used again
	attrs []*Node
	big   bool // inside a long iteration
}

func (g *gen) pick(xs ...string) string { return xs[g.r.Intn(len(xs))] }

func (g *gen) chance(pct int) bool { return g.r.Intn(100) < pct }

var pieces = []string{"a", "b", "<", ">", "&", "\"", "'", "\x00", "&amp;", "&lt", "é", "\xff", " ", "\n", "]]>", "--", "<b>", "\u2028", "x=1", ";", "0"}

func (g *gen) text() string {
	switch g.r.Intn(8) {
	case 0:
		return ""
	case 1:
		return g.pick("plain", "foo", "bar", "1")
	}
	n := g.r.Intn(6)
	s := ""
	for i := 0; i < n; i++ {
		if g.chance(10) {
			s += string(rune(g.r.Intn(256)))
		} else {
			s += pieces[g.r.Intn(len(pieces))]
		}
	}
	if g.chance(3) {
		for len(s) < 300 {
			s += s + "abcdefgh"
		}
	}
	return s
}

func (g *gen) scalar() any {
	r := g.r
	switch r.Intn(24) {
	case 0:
		return true
	case 1:
		return false
	case 2:
		return r.Intn(2000) - 1000
	case 3:
		return int8(r.Intn(256) - 128)
	case 4:
		return int16(r.Intn(65536) - 32768)
	case 5:
		return int32(r.Uint32())
	case 6:
		return int64(r.Uint64())
	case 7:
		return uint(r.Uint64())
	case 8:
		return uint8(r.Intn(256))
	case 9:
		return uint16(r.Intn(65536))
	case 10:
		return r.Uint32()
	case 11:
		return r.Uint64()
	case 12:
		return float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20)))
	case 13:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(80)-40))
	case 14:
		return []any{math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1e21, 123456789.0, -0.5}[r.Intn(9)]
	case 15:
		return []any{math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), int64(math.MinInt64), int8(-128), int32(math.MinInt32), uint32(math.MaxUint32)}[r.Intn(7)]
	case 16:
		return named(7)
	case 17:
		return strct{1}
	case 18:
		return time.Duration(r.Intn(10000000))
	case 19:
		return []any{float32(0.1), float32(3.4e38), float32(1e-40), float32(16777216)}[r.Intn(4)]
	case 20:
		return []string{"x"}
	case 21:
		return namedStr("<n>")
	case 22:
		return 'x'
	}
	return r.Intn(3)
}

var keys = []string{"k0", "k1", "k2", "flag", "no", "missing", "list", "strs", "maps"}

func (g *gen) val(d int) *Val {
	k := vStr
	tot := 0
	for _, w := range g.p.vals {
		tot += w
	}
	n := g.r.Intn(tot)
	for i := vNil; i <= vCounted; i++ {
		if n -= g.p.vals[i]; n < 0 {
			k = i
			break
		}
	}
	return g.valOf(k, d)
}

func (g *gen) valOf(k valKind, d int) *Val {
	v := &Val{K: k}
	switch k {
	case vStr, vStringer, vBytes:
		v.S = g.text()
	case vScalar:
		v.X = g.scalar()
	case vKey:
		v.S = g.pick(append(keys, ".", ".")...)
	case vAny:
		v.Subs = []*Val{g.valOf([]valKind{vStr, vScalar, vStringer, vNil, vBytes, vAny}[g.r.Intn(6-b2i(d <= 0))], d-1)}
	case vValue:
		if d <= 0 {
			return g.valOf(vStr, 0)
		}
		v.Subs = []*Val{g.val(d - 1)}
	case vConcat:
		if d <= 0 {
			return g.valOf(vStr, 0)
		}
		v.Subs = g.valList(d-1, 4)
	case vNode:
		v.Node = g.valueNode(d - 1)
	}
	return v
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// many is a number up to max, now and then a large one (of simple things)
func (g *gen) many(d, max int) (n, depth int) {
	if g.r.Intn(150) == 0 && !g.big {
		return 8 + g.r.Intn(130), 0
	}
	return g.r.Intn(max + 1), d
}

// deep puts a node inside many others
func (g *gen) deep(n *Node) *Node {
	for i := 5 + g.r.Intn(80); i > 0; i-- {
		switch g.r.Intn(5) {
		case 0:
			n = &Node{K: kCollection, Kids: []*Node{n}}
		case 1:
			n = &Node{K: kConditional, Cond: &Cond{B: true}, Kids: []*Node{n}}
		case 2:
			n = &Node{K: kIterate, Items: &Items{List: []*Val{{K: vScalar, X: i}}}, Kids: []*Node{n}}
		default:
			n = &Node{K: kElement, Name: "p", Vals: []*Val{{K: vNode, Node: n}}}
		}
	}
	return n
}

func (g *gen) valList(d, max int) []*Val {
	n, d := g.many(d, max)
	r := make([]*Val, n)
	for i := range r {
		r[i] = g.val(d)
	}
	return r
}

// valueNode is a node given as a value
func (g *gen) valueNode(d int) *Node {
	ks := []kind{kText, kText, kFragment, kAttr, kDelim, kCollection, kBool, kVoid, kComment, kDocType}
	if d <= 0 {
		ks = ks[:3]
	}
	return g.nodeOf(ks[g.r.Intn(len(ks))], d)
}

var attrNames = []string{"id", "x", "y", "title"}
var delimNames = []string{"class", "style", "rel"}
var boolNames = []string{"async", "hidden"}

func (g *gen) attrName(k kind) string {
	if g.p.mixed && g.chance(25) {
		return g.pick("id", "class", "async", "z")
	}
	switch k {
	case kDelim:
		return g.pick(delimNames...)
	case kBool:
		return g.pick(boolNames...)
	case kExtAttr:
		return g.pick("ext", "id")
	}
	return g.pick(attrNames...)
}

func (g *gen) kindOf() kind {
	tot := 0
	for _, w := range g.p.kinds {
		tot += w
	}
	n := g.r.Intn(tot)
	for i, w := range g.p.kinds {
		if n -= w; n < 0 {
			return kind(i)
		}
	}
	return kText
}

// node may be nil, or a node used elsewhere as well
func (g *gen) node(d int) *Node {
	if g.chance(g.p.nilPct) {
		return nil
	}
	if len(g.pool) > 0 && g.chance(12) {
		return g.pool[g.r.Intn(len(g.pool))]
	}
	if d > 0 && g.chance(g.p.words) {
		return g.word(d)
	}
	k := g.kindOf()
	if d <= 0 {
		leaf := []kind{kText, kAttr, kDelim, kBool, kText, kFragment, kExt}
		k = leaf[g.r.Intn(len(leaf))]
	}
	return g.nodeOf(k, d)
}

// word is a node of the vocabulary
func (g *gen) word(d int) *Node {
	if g.chance(10) {
		return g.special(d)
	}
	ws := wordsOf[g.pick("element", "void", "attribute", "boolean", "delimited", "css")]
	return g.wordNode(ws[g.r.Intn(len(ws))], d)
}

// shareValues puts values into both environments that are the same objects with another content in each
func (g *gen) shareValues(envs []*Env) {
	c, bs := &cell{}, []byte("<!>")
	for _, k := range []string{"k0", "k1", "k2"} {
		if !g.chance(40) {
			continue
		}
		v := []any{c, c, func() any { return c.s }, func() any { return c }, bs}[g.r.Intn(5)]
		for _, e := range envs {
			if e.data != nil && g.chance(90) {
				e.data[k] = v
			}
		}
	}
	for i, e := range envs {
		if g.chance(15) {
			e.cargo = c
		}
		t, ch := g.text(), byte('A'+i)
		e.set = func() { c.s, bs[1] = t, ch }
	}
}

func (g *gen) kids(d, max int) []*Node {
	n, d := g.many(d, max)
	r := make([]*Node, n)
	for i := range r {
		r[i] = g.node(d)
	}
	return r
}

func (g *gen) cond() *Cond {
	c := &Cond{}
	switch g.r.Intn(10) {
	case 0, 1, 2:
		c.B = true
	case 3:
	case 4, 5, 6:
		c.K, c.Key = 1, g.pick("flag", "no", "missing", "f2")
	case 7:
		c.K = 2
	case 8:
		c.K = 4
	case 9:
		c.K = 3
	}
	return c
}

func (g *gen) item() *Val {
	switch g.r.Intn(9) {
	case 0, 1:
		return &Val{K: vScalar, X: g.r.Intn(5)}
	case 2, 3:
		return &Val{K: vStr, S: g.text()}
	case 4, 5:
		return &Val{K: vScalar, X: map[string]any{"k0": g.r.Intn(9), "k1": "<m>", "flag": g.chance(50)}}
	case 6:
		return &Val{K: vScalar, X: map[string]any(nil)}
	case 7:
		return &Val{K: vScalar, X: namedMap{"k0": 5}}
	}
	return &Val{K: vNil}
}

func (g *gen) err() bool { return g.r.Intn(1000) < g.p.errs }

func (g *gen) nodeOf(k kind, d int) *Node {
	n := &Node{K: k}
	switch k {
	case kText, kComment, kFragment:
		n.Vals = g.valList(d, 4)
	case kPI:
		n.Name = g.pick("xml", "DOCTYPE", "p i")
		n.Vals = g.valList(d, 3)
	case kElement, kVoid, kNamed, kNamedVoid:
		n.Name = g.pick("p", "div", "br", "img", "x-y", "svg:g", "h1", "Wbr", "input", "source")
		if k == kElement || k == kVoid {
			n.Name = g.pick("p", "div", "br", "<odd>", "")
		}
		m := 5
		if g.chance(10) {
			m = 12
		}
		for i := g.r.Intn(m + 1); i > 0; i-- {
			if g.chance(75) {
				n.Vals = append(n.Vals, &Val{K: vNode, Node: g.node(d - 1)})
			} else {
				n.Vals = append(n.Vals, g.val(d-1))
			}
		}
	case kAttr:
		n.Name = g.attrName(k)
		n.Vals = g.valList(d-1, 3)
	case kDelim:
		n.Name = g.attrName(k)
		n.Delim = g.pick(" ", " ", "; ", "", ",")
		n.Vals = g.valList(d-1, 4)
	case kBool:
		n.Name = g.attrName(k)
	case kCollection:
		n.Kids = g.kids(d-1, 5)
	case kConditional:
		n.Cond = g.cond()
		n.Kids = g.kids(d-1, 4)
	case kWhen:
		n.Name = g.pick("", "!") + g.pick("flag", "no", "missing", "k0", "f2", "!x")
		n.Kids = g.kids(d-1, 4)
	case kIterate, kYield:
		n.Items = &Items{Fail: g.err()}
		if g.chance(25) {
			n.Items.Key = g.pick("list", "missing", "strs")
		} else {
			i, d2 := g.many(d, 4)
			if d2 < d {
				g.big = true
				defer func() { g.big = false }()
				d = min(d, 2)
			}
			for ; i > 0; i-- {
				n.Items.List = append(n.Items.List, g.item())
			}
		}
		if k == kYield && g.chance(20) {
			n.Items.Mark = g.pick("|", "<hr>")
		}
		n.Kids = g.kids(d-1, 3)
	case kIterateKey:
		n.Name = g.pick("list", "strs", "maps", "ints", "missing", "k0", "arr", "empty", "nilslice")
		n.Kids = g.kids(d-1, 3)
	case kCollect:
		if !g.chance(5) {
			n.Cond = g.cond()
			if n.Cond.K == 3 {
				n.Cond = &Cond{B: true}
			}
			n.Kids = g.kids(d-1, 4)
			n.Kids2 = g.kids(d-1, 2)
		}
	case kImperative:
		if g.chance(3) {
			n.Cond = &Cond{K: 3}
			break
		}
		m := 6
		if g.chance(20) {
			m = 25
		}
		tall := g.r.Intn(40) == 0
		if tall {
			m = 300
		}
		for i := g.r.Intn(m + 1); i > 0; i-- {
			o := &Op{K: opKind(g.r.Intn(int(oCtx) + 1))}
			if g.chance(30) {
				o.K = oStart
			}
			if tall && g.chance(90) {
				n.Ops = append(n.Ops, &Op{K: oStart, S: g.pick("p", "div", "br", "li", "b")})
				continue
			}
			if g.chance(20) {
				o.K = oEnd
			}
			switch o.K {
			case oStart:
				o.S = g.pick("p", "div", "br", "li", "b")
				o.Void = g.chance(25)
				for j := g.r.Intn(5); j > 0; j-- {
					if g.chance(85) {
						ks := []kind{kAttr, kDelim, kDelim, kBool, kExtAttr}
						o.Nodes = append(o.Nodes, g.nodeOf(ks[g.r.Intn(len(ks))], 1))
					} else {
						o.Nodes = append(o.Nodes, g.node(d-1))
					}
				}
			case oString, oRaw, oCtx:
				o.S = g.text()
			case oNodes:
				o.Nodes = g.kids(d-1, 3)
			}
			n.Ops = append(n.Ops, o)
		}
		n.Fail = g.err()
	case kExt:
		n.Name = g.pick("<ext/>", "E", "")
		n.Typ = []int{0, 2, 3, 5, 6, 7, 99}[g.r.Intn(7)]
		n.Fail = g.err()
	case kExtAttr:
		n.Name = g.attrName(k)
		n.Fail = g.err()
	}
	if g.chance(30) {
		g.pool = append(g.pool, n)
	}
	return n
}

// ---------------------------------------------------------------- rendering contexts

func (g *gen) env() *Env {
	e := &Env{}
	if !g.chance(10) {
		e.data = map[string]any{}
		put := func(k string, pct int, f func() any) {
			if g.chance(pct) {
				e.data[k] = f()
			}
		}
		dyn := func() any {
			switch g.r.Intn(5) {
			case 0:
				return g.text()
			case 1:
				return text(g.text())
			case 2:
				return []byte(g.text())
			case 3:
				return nil
			}
			return g.scalar()
		}
		put("k0", 80, dyn)
		put("k1", 70, dyn)
		put("k2", 40, func() any { return "" })
		put("flag", 70, func() any { return g.chance(70) })
		put("f2", 60, func() any { return g.chance(50) })
		put("no", 80, func() any { return false })
		put("list", 70, func() any {
			r := []any{}
			for i := g.r.Intn(4); i > 0; i-- {
				r = append(r, itemValue(g.item()))
			}
			return r
		})
		put("strs", 70, func() any { return []string{"a", "<b>", ""}[:g.r.Intn(4)] })
		put("ints", 70, func() any { return []int{3, 4, 0, -1}[:g.r.Intn(5)] })
		put("maps", 70, func() any {
			return []map[string]any{{"k0": 1, "flag": true}, {"k1": "z"}, nil}[:g.r.Intn(4)]
		})
		put("arr", 50, func() any { return [2]int{1, 2} })
		put("empty", 50, func() any { return []any{} })
		put("nilslice", 50, func() any { return []string(nil) })
	}
	switch g.r.Intn(5) {
	case 0:
		e.cargo = g.r.Intn(6)
	case 1:
		e.cargo = g.text()
	case 2:
		e.cargo = map[string]any{"k0": 1}
	case 3:
		e.cargo = text("<c>")
	}
	if g.chance(15) {
		e.parent = &Env{cargo: "outer", data: map[string]any{"p": 1}}
	}
	return e
}
