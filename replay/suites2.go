package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

// ---------------------------------------------------------------- vocabulary

var wordsOf = map[string][]word{}

func init() {
	for _, w := range words {
		wordsOf[w.kind] = append(wordsOf[w.kind], w)
	}
	wordsOf["all"] = words
}

func bytesVal(s string) *Val { return &Val{K: vBytes, S: s} }

func concat(vs ...*Val) *Val { return &Val{K: vConcat, Subs: vs} }

func nodeVal(n *Node) *Val { return &Val{K: vNode, Node: n} }

// wordNode is a call of the vocabulary function w with random arguments
func (g *gen) wordNode(w word, d int) *Node {
	n := &Node{Name: w.name, Delim: w.delim, Via: &via{name: w.fn, node: w.node}}
	args := g.valList(d, 4)
	switch w.kind {
	case "element", "void":
		n.K = kElement
		if w.kind == "void" {
			n.K = kVoid
		}
		for i := g.r.Intn(4); i > 0; i-- {
			args = append(args, nodeVal(g.node(d-1)))
		}
		for i := g.r.Intn(3); i > 0; i-- {
			args = append(args, nodeVal(g.wordNode(words[g.r.Intn(len(words))], 0)))
		}
		var as []*Val
		for _, a := range args {
			if a.K != vNode || a.Node == nil || a.Node.Via == nil || a.Node.K != kAttr || true {
				as = append(as, a)
			}
		}
		args = as
	case "attribute":
		n.K = kAttr
	case "boolean":
		n.K = kBool
		args = nil
	case "delimited":
		n.K = kDelim
	case "css":
		n.K, n.Name, n.Delim = kDelim, "style", "; "
		for i := range args {
			if g.chance(20) {
				args[i] = g.unitVal(d)
			}
		}
		n.Vals = []*Val{concat(append([]*Val{bytesVal(w.name)}, args...)...)}
	case "unit":
		n.K, n.Name, n.Delim = kDelim, "style", "; "
		n.Via = nil
		n.Vals = []*Val{g.unitOf(w, d)}
		return n
	}
	n.Via.args = args
	if w.kind != "css" {
		n.Vals = args
	}
	return n
}

func (g *gen) unitOf(w word, d int) *Val {
	args := g.valList(d, 3)
	return &Val{K: vConcat, Subs: append(append([]*Val{}, args...), bytesVal(w.name)), Via: &via{name: w.fn, args: args, val: func(v []any) aitch.Value { return w.val(v) }}}
}

func (g *gen) unitVal(d int) *Val {
	us := wordsOf["unit"]
	return g.unitOf(us[g.r.Intn(len(us))], d)
}

func strArg(v []any) (string, []any) { return v[0].(string), v[1:] }

// special vocabulary: prefixed names, wrappers, documents
func (g *gen) special(d int) *Node {
	args := g.valList(d, 4)
	name := g.pick("x", "", "a-b", "label", "click", "é", "long-name-of-it")
	named := &Val{K: vStr, S: name}
	withName := append([]*Val{named}, args...)
	mk := func(k kind, nm string, fn string, vals []*Val, as []*Val, f func(v []any) aitch.Node) *Node {
		return &Node{K: k, Name: nm, Vals: vals, Via: &via{name: fn, args: as, node: f}}
	}
	switch g.r.Intn(11) {
	case 0:
		return mk(kAttr, "aria-"+name, "html.Aria", args, withName, func(v []any) aitch.Node { s, r := strArg(v); return html.Aria(s, r...) })
	case 1:
		return mk(kAttr, "data-"+name, "html.Data", args, withName, func(v []any) aitch.Node { s, r := strArg(v); return html.Data(s, r...) })
	case 2:
		return mk(kAttr, "hx-on:"+name, "htmx.On", args, withName, func(v []any) aitch.Node { s, r := strArg(v); return htmx.On(s, r...) })
	case 3:
		return mk(kText, "", "html.Text", args, args, func(v []any) aitch.Node { return html.Text(v...) })
	case 4:
		return mk(kComment, "", "html.Comment", args, args, func(v []any) aitch.Node { return html.Comment(v...) })
	case 5:
		return mk(kText, "", "svg.Text", args, args, func(v []any) aitch.Node { return svg.Text(v...) })
	case 6:
		return mk(kComment, "", "svg.Comment", args, args, func(v []any) aitch.Node { return svg.Comment(v...) })
	case 7:
		return mk(kPI, name, "html.PI", args, withName, func(v []any) aitch.Node { s, r := strArg(v); return html.PI(s, r...) })
	case 8, 9:
		x := g.val(d)
		v := &Val{K: vConcat, Subs: []*Val{{K: vStr, S: name}, bytesVal(": "), x},
			Via: &via{name: "htmx.Var", args: []*Val{named, x}, val: func(v []any) aitch.Value { return htmx.Var(v[0].(string), v[1]) }}}
		y := g.val(d)
		return &Node{K: kDelim, Name: "hx-vars", Delim: ", ", Vals: []*Val{v, y}, Via: &via{name: "htmx.Vars", args: []*Val{v, y}, node: func(v []any) aitch.Node { return htmx.Vars(v...) }}}
	}
	return g.document(d)
}

func (g *gen) contents(d, max int) (r []*Val) {
	for i := g.r.Intn(max + 1); i > 0; i-- {
		if g.chance(70) {
			r = append(r, nodeVal(g.node(d-1)))
		} else {
			r = append(r, g.val(d-1))
		}
	}
	return
}

// document is html.Document(lang, head, body)
func (g *gen) document(d int) *Node {
	lang := g.val(d - 1)
	head, body := g.contents(d, 3), g.contents(d, 4)
	var root []*Val
	if lang.K == vNode && lang.Node == nil {
		lang = &Val{K: vNil}
	}
	if lang.K != vNil {
		root = append(root, nodeVal(&Node{K: kAttr, Name: "lang", Vals: []*Val{lang}}))
	}
	if len(head) > 0 {
		root = append(root, nodeVal(&Node{K: kElement, Name: "head", Vals: head}))
	}
	root = append(root, nodeVal(&Node{K: kElement, Name: "body", Vals: body}))
	doc := &Node{K: kDocument, Kids: []*Node{{K: kDocType}, {K: kElement, Name: "html", Vals: root}}}
	nh := len(head)
	doc.Via = &via{name: fmt.Sprintf("html.Document[lang, %d of head, body]", nh), args: append(append([]*Val{lang}, head...), body...),
		node: func(v []any) aitch.Node { return html.Document(v[0], v[1:1+nh], v[1+nh:]) }}
	return doc
}

func vocabSuite(kinds []string, specials int) suite {
	p := profile{kinds: weights(12, nil), vals: allVals(nil), depth: 3, nilPct: 6}
	return func(r *rand.Rand, st *stats) *failure {
		g := &gen{r: r, p: &p}
		var n *Node
		if r.Intn(100) < specials {
			n = g.special(1 + r.Intn(3))
		} else {
			ws := wordsOf[kinds[r.Intn(len(kinds))]]
			n = g.wordNode(ws[r.Intn(len(ws))], 1+r.Intn(2))
		}
		if n.K == kDelim && r.Intn(2) == 0 {
			// together with other declarations
			el := &Node{K: kElement, Name: "p"}
			for i := r.Intn(3); i >= 0; i-- {
				if r.Intn(2) == 0 {
					el.Vals = append(el.Vals, nodeVal(g.nodeOf(kDelim, 1)))
				} else {
					ws := wordsOf[kinds[r.Intn(len(kinds))]]
					el.Vals = append(el.Vals, nodeVal(g.wordNode(ws[r.Intn(len(ws))], 1)))
				}
			}
			el.Vals = append(el.Vals, nodeVal(n))
			n = el
		}
		return tryNode(g, n, features{altered: true}, st)
	}
}

// every word once, in turn, with plain arguments
func everyWord(kinds ...string) suite {
	i := 0
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	p := profile{kinds: weights(12, nil), vals: allVals(nil), depth: 2}
	return func(r *rand.Rand, st *stats) *failure {
		for !want[words[i%len(words)].kind] {
			i++
		}
		w := words[i%len(words)]
		i++
		g := &gen{r: r, p: &p}
		return tryNode(g, g.wordNode(w, 1), features{}, st)
	}
}

// ---------------------------------------------------------------- non-breaking spaces

func nbspSuite(r *rand.Rand, st *stats) *failure {
	n := r.Intn(40) - 8
	switch r.Intn(20) {
	case 0:
		n = []int{-1 << 63, -1, 0, 1, 2, 100, 1000}[r.Intn(7)]
	}
	want := ""
	if n > 0 {
		want = strings.Repeat("&nbsp;", n)
	}
	a, b := aitch.Nbsps(n), aitch.Nbsp()
	in := fmt.Sprintf("Nbsps(%d), Nbsp()", n)
	st.add(in, string(a))
	if string(a) != want || string(b) != "&nbsp;" {
		return &failure{"wrong spaces", in, want + "|&nbsp;", string(a) + "|" + string(b)}
	}
	// what is returned belongs to the caller
	for i := range a {
		a[i] = 'x'
	}
	for i := range b {
		b[i] = 'x'
	}
	if a, b = aitch.Nbsps(n), aitch.Nbsp(); string(a) != want || string(b) != "&nbsp;" {
		return &failure{"changing what was returned changes what is returned later", in, want + "|&nbsp;", string(a) + "|" + string(b)}
	}
	return nil
}

// ---------------------------------------------------------------- checked names

var nameBits = []string{"a", "Z", "z", "A", "m", "0", "9", ".", "_", "-", ":", "@", "[", "`", "{", "/", ";", " ", "\n", "\x00", "\"", "'", "<", ">", "=", "&", "é", "Ａ", "\xff", "\t", "+", "br", "img", "x", "ſ", "K"}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func goodName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !isLetter(c) && (i == 0 || !(c >= '0' && c <= '9' || strings.IndexByte("._-:", c) >= 0)) {
			return false
		}
	}
	return s != ""
}

func nameSuite(r *rand.Rand, st *stats) *failure {
	name := ""
	switch r.Intn(6) {
	case 0, 1:
		for i := r.Intn(5); i >= 0; i-- {
			name += nameBits[r.Intn(len(nameBits))]
		}
		if r.Intn(10) == 0 {
			name = ""
		}
	case 2:
		name = string([]byte{byte(r.Intn(256))})
	case 3: // one odd byte in a good name
		b := []byte("abcXYZ-1.2:z_q")[:1+r.Intn(14)]
		b = append([]byte{}, b...)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		name = string(b)
	case 4:
		name = []string{"br", "img", "Br", "BR", "wbr", "source", "hr", "link", "col", "p", "brx", "area", "input", "param", "embed", "track", "base", "meta"}[r.Intn(18)]
	default:
		for i := r.Intn(8); i >= 0; i-- {
			name += nameBits[r.Intn(11)]
		}
	}
	which := r.Intn(5)
	fn := []string{"Element", "VoidElement", "Attribute", "BooleanAttribute", "DelimitedAttribute"}[which]
	old := aitch.PanicOnInvalidName
	defer func() { aitch.PanicOnInvalidName = old }()
	aitch.PanicOnInvalidName = r.Intn(2) == 0
	var n aitch.Node
	panicked := func() (p bool) {
		defer func() {
			if x := recover(); x != nil {
				p = true
			}
		}()
		switch which {
		case 0:
			n = aitch.Element(name, "t")
		case 1:
			n = aitch.VoidElement(name, "t")
		case 2:
			n = aitch.Attribute(name, "t")
		case 3:
			n = aitch.BooleanAttribute(name)
		default:
			n = aitch.DelimitedAttribute(name, ",", "t", "u")
		}
		return false
	}()
	in := fmt.Sprintf("%s(%q) with PanicOnInvalidName=%v", fn, name, aitch.PanicOnInvalidName)
	st.add(in, fmt.Sprint(panicked, n != nil))
	ok := goodName(name)
	if panicked != (!ok && aitch.PanicOnInvalidName) {
		return &failure{"panics or not", in, fmt.Sprint(!ok && aitch.PanicOnInvalidName), fmt.Sprint(panicked)}
	}
	if panicked {
		return nil
	}
	if (n != nil) != ok {
		return &failure{"a node or nil", in, fmt.Sprintf("node: %v", ok), fmt.Sprintf("node: %v", n != nil)}
	}
	if n == nil {
		return nil
	}
	if n.Name() != name {
		return &failure{"the name", in, name, n.Name()}
	}
	want := ""
	switch which {
	case 0:
		want = "<" + name + ">t</" + name + ">"
		if htmlVoid[name] {
			want = "<" + name + ">"
		}
	case 1:
		want = "<" + name + ">"
	case 2:
		want = " " + name + `="t"`
	case 3:
		want = " " + name
	case 4:
		want = " " + name + `="t,u"`
	}
	typ := aitch.AttributeNode
	if which < 2 {
		typ = aitch.ElementNode
	}
	if n.Type() != typ {
		return &failure{"the type", in, fmt.Sprint(typ), fmt.Sprint(n.Type())}
	}
	var b bytes.Buffer
	_ = n.Render(context.New(&b, nil, nil))
	if b.String() != want {
		return &failure{"what is written", in, want, b.String()}
	}
	return nil
}

// ---------------------------------------------------------------- typed lookup

type inner struct {
	K1     int
	Shared string
	hidden int
}

type Outer struct {
	inner
	K0    any
	K2    []int
	Str   string
	Err   error
	small string
}

type withPtr struct {
	*inner
	K0 int
}

type twoLevels struct {
	Outer
	*withPtr
	Flag bool
}

type cargoCase struct {
	cargo  any
	fields map[string]any // what can be looked up
	desc   string
}

type intKey int

func randomValue(r *rand.Rand) any {
	switch r.Intn(13) {
	case 0:
		return nil
	case 1:
		return r.Intn(5)
	case 2:
		return fmt.Sprint("s", r.Intn(5))
	case 3:
		return true
	case 4:
		return errors.New("e")
	case 5:
		return text("t")
	case 6:
		return []int{1, 2}
	case 7:
		return Outer{Str: "o"}
	case 8:
		return &Outer{Str: "p"}
	case 9:
		return (*Outer)(nil)
	case 10:
		return map[string]any{"a": 1}
	case 11:
		return namedStr("n")
	}
	return 1.5
}

func randomCargo(r *rand.Rand, depth int) cargoCase {
	ks := []string{"K0", "K1", "K2", "Str", "k"}
	m := map[string]any{}
	for _, k := range ks {
		if r.Intn(2) == 0 {
			m[k] = randomValue(r)
		}
	}
	in := inner{K1: r.Intn(9), Shared: "sh", hidden: 3}
	out := Outer{inner: in, K0: randomValue(r), K2: []int{4}, Str: "str", small: "no"}
	if r.Intn(2) == 0 {
		out.Err = errors.New("field")
	}
	outF := map[string]any{"K0": out.K0, "K1": in.K1, "Shared": "sh", "K2": out.K2, "Str": "str", "Err": out.Err}
	switch r.Intn(22) {
	case 0:
		return cargoCase{nil, nil, "nil"}
	case 1:
		return cargoCase{m, m, fmt.Sprintf("%#v", m)}
	case 2:
		x := map[namedStr]any{}
		for k, v := range m {
			x[namedStr(k)] = v
		}
		return cargoCase{x, m, fmt.Sprintf("%#v", x)}
	case 3:
		x, f := map[string]int{}, map[string]any{}
		for i, k := range ks {
			if r.Intn(2) == 0 {
				x[k], f[k] = i, i
			}
		}
		return cargoCase{x, f, fmt.Sprintf("%#v", x)}
	case 4:
		return cargoCase{map[int]any{1: 2}, nil, "map[int]any"}
	case 5:
		return cargoCase{map[any]any{"K0": 2}, nil, "map[any]any"}
	case 6:
		return cargoCase{out, outF, fmt.Sprintf("%#v", out)}
	case 7:
		return cargoCase{&out, outF, fmt.Sprintf("&%#v", out)}
	case 8:
		return cargoCase{&m, m, fmt.Sprintf("&%#v", m)}
	case 9:
		return cargoCase{(*Outer)(nil), nil, "(*Outer)(nil)"}
	case 10:
		return cargoCase{(map[string]any)(nil), nil, "nil map"}
	case 11:
		p := &out
		return cargoCase{&p, nil, "pointer to pointer"}
	case 12:
		return cargoCase{withPtr{nil, 6}, map[string]any{"K0": 6}, "struct with a nil embedded pointer"}
	case 13:
		return cargoCase{&withPtr{&in, 6}, map[string]any{"K0": 6, "K1": in.K1, "Shared": "sh"}, "struct with an embedded pointer"}
	case 14:
		return cargoCase{[]any{1, 2}, nil, "slice"}
	case 15:
		return cargoCase{"K0", nil, "string"}
	case 16:
		var e error
		return cargoCase{&e, nil, "pointer to a nil interface"}
	case 17:
		return cargoCase{struct{ K0, k int }{1, 2}, map[string]any{"K0": 1}, "anonymous struct"}
	case 18:
		var a any = m
		return cargoCase{&a, nil, "pointer to an interface"}
	case 19:
		x := map[namedStr]string{"K0": "v"}
		return cargoCase{&x, map[string]any{"K0": "v"}, "pointer to a map of named strings"}
	case 20:
		return cargoCase{func() {}, nil, "function"}
	}
	return cargoCase{map[[1]string]any{{"K0"}: 1}, nil, "map of arrays"}
}

func lookup[T any](ctx *context.Context, key string, data map[string]any, c cargoCase) *failure {
	var want T
	wantOK := false
	if v, ok := data[key]; ok {
		want, wantOK = v.(T)
	}
	if v, ok := c.fields[key]; !wantOK && ok {
		want, wantOK = v.(T)
	}
	got, ok, bad := func() (x T, ok bool, bad string) {
		defer func() {
			if p := recover(); p != nil {
				bad = fmt.Sprint("panic: ", p)
			}
		}()
		x, ok = context.Get[T](ctx, key)
		return
	}()
	in := fmt.Sprintf("Get[%v](data=%#v, cargo=%s, %q)", reflect.TypeOf(&want).Elem(), data, c.desc, key)
	w, g := fmt.Sprintf("%#v %v", want, wantOK), fmt.Sprintf("%#v %v", got, ok)
	if bad != "" || w != g {
		return &failure{"the lookup gives something else " + bad, in, w, g}
	}
	m, panicked := func() (x T, p bool) {
		defer func() {
			if e := recover(); e != nil {
				p = true
			}
		}()
		return context.MustGet[T](ctx, key), false
	}()
	if panicked == wantOK || (!panicked && fmt.Sprintf("%#v", m) != fmt.Sprintf("%#v", want)) {
		return &failure{"MustGet", in, w, fmt.Sprintf("%#v panicked: %v", m, panicked)}
	}
	return nil
}

func lookupSuite(r *rand.Rand, st *stats) *failure {
	key := []string{"K0", "K0", "K1", "K2", "Str", "Err", "Shared", "hidden", "small", "k", "inner", "Outer", "", "é", "Flag"}[r.Intn(15)]
	var data map[string]any
	if r.Intn(4) > 0 {
		data = map[string]any{}
		for _, k := range []string{key, "K0", "K1"} {
			if r.Intn(3) == 0 {
				data[k] = randomValue(r)
			}
		}
	}
	c := randomCargo(r, 0)
	if key == "Outer" {
		o := Outer{Str: "deep", inner: inner{K1: 4}}
		c = cargoCase{twoLevels{Outer: o, withPtr: nil}, map[string]any{"Outer": o}, "two levels"}
	} else if r.Intn(12) == 0 {
		o := Outer{Str: "deep", inner: inner{K1: 4, Shared: "s2"}, K2: []int{5}}
		// K0 and K1 are ambiguous or hidden by depth: K0 is in Outer and withPtr at the same depth
		c = cargoCase{&twoLevels{Outer: o, withPtr: &withPtr{K0: 3}, Flag: true},
			map[string]any{"Outer": o, "K2": o.K2, "Str": "deep", "Err": o.Err, "Flag": true}, "two levels"}
		if key == "K0" || key == "K1" || key == "Shared" || key == "hidden" {
			delete(c.fields, key)
		}
	}
	var ctx *context.Context
	switch r.Intn(12) {
	case 0:
		c, data = cargoCase{}, nil
	case 1:
		ctx = &context.Context{Data: data, Cargo: c.cargo, Parent: context.New(nil, map[string]any{"K0": 99, "K1": "x"}, nil)}
	default:
		ctx = context.New(nil, data, c.cargo)
	}
	st.add(fmt.Sprintf("Get(data=%#v, cargo=%s, %q)", data, c.desc, key), "x")
	for _, f := range []func() *failure{
		func() *failure { return lookup[int](ctx, key, data, c) },
		func() *failure { return lookup[string](ctx, key, data, c) },
		func() *failure { return lookup[any](ctx, key, data, c) },
		func() *failure { return lookup[bool](ctx, key, data, c) },
		func() *failure { return lookup[error](ctx, key, data, c) },
		func() *failure { return lookup[fmt.Stringer](ctx, key, data, c) },
		func() *failure { return lookup[[]int](ctx, key, data, c) },
		func() *failure { return lookup[Outer](ctx, key, data, c) },
		func() *failure { return lookup[*Outer](ctx, key, data, c) },
		func() *failure { return lookup[namedStr](ctx, key, data, c) },
		func() *failure { return lookup[map[string]any](ctx, key, data, c) },
		func() *failure { return lookup[float64](ctx, key, data, c) },
	} {
		if x := f(); x != nil {
			return x
		}
	}
	return nil
}

// ---------------------------------------------------------------- header maps

func headersSuite(r *rand.Rand, st *stats) *failure {
	p := profile{kinds: weights(12, nil), vals: allVals(map[valKind]int{vNode: 8}), depth: 2}
	g := &gen{r: r, p: &p}
	js := r.Intn(3) == 0
	nm := r.Intn(4)
	merged := map[string]*Val{}
	var args []*Val
	var maps []htmx.HeadersMap
	b := newBuilder(true)
	var copies []map[string]any
	for i := 0; i < nm; i++ {
		m := htmx.HeadersMap{}
		cp := map[string]any{}
		desc := "HeadersMap{"
		for j := r.Intn(5); j > 0; j-- {
			k := g.pick("A", "B", "X-H", "a", "b", "c", "q\"uote", "\"", "é", "", "z'", "a b", "&quot;", "B2", "B10", "x-h", "X-h", "a\"b\"c", "\"\"", "'\"'")
			if g.chance(15) {
				k = g.text()
			}
			v := g.val(1)
			if _, dup := m[k]; dup {
				continue
			}
			x := b.val(v)
			m[k], cp[k] = x, x
			merged[k] = v
			desc += fmt.Sprintf("%q: %s, ", k, v)
		}
		if len(m) == 0 && r.Intn(3) == 0 {
			m = nil
		}
		maps, copies = append(maps, m), append(copies, cp)
		args = append(args, &Val{K: vScalar, X: m, Lit: desc + "}"})
	}
	// what it stands for
	keys := []string{}
	for k := range merged {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var parts []*Val
	if js {
		parts = append(parts, bytesVal("js:"))
	}
	parts = append(parts, bytesVal("{"))
	for i, k := range keys {
		sep := ""
		if i > 0 {
			sep = ", "
		}
		parts = append(parts, bytesVal(sep+"'"+strings.ReplaceAll(k, `"`, "&quot;")+"': "), merged[k])
	}
	parts = append(parts, bytesVal("}"))
	n := &Node{K: kAttr, Name: "hx-headers", Vals: []*Val{concat(parts...)}}
	name := "htmx.Headers"
	if js {
		name = "htmx.HeadersJS"
	}
	mixed := false
	if !js && (nm == 0 || r.Intn(4) == 0) {
		// other values, or both
		mixed = nm > 0
		for i := r.Intn(3); i >= 0; i-- {
			at := 0
			if len(args) > 0 {
				at = r.Intn(len(args) + 1)
			}
			args = append(args[:at:at], append([]*Val{g.val(1)}, args[at:]...)...)
		}
		n.Vals = args
	}
	n.Via = &via{name: name, args: args, node: func(v []any) aitch.Node {
		if js {
			return htmx.HeadersJS(maps...)
		}
		return htmx.Headers(v...)
	}}
	if mixed {
		in := n.String()
		panicked := func() (p bool) {
			defer func() {
				if e := recover(); e != nil {
					p = true
				}
			}()
			newBuilder(false).node(n)
			return false
		}()
		st.add(in, fmt.Sprint(panicked))
		if !panicked {
			return &failure{"header maps mixed with other values", in, "panic", "no panic"}
		}
		return nil
	}
	// dynamic functions given in the maps are those of b
	x, f := buildNode(b, n)
	if f != "" {
		return &failure{f, n.String(), "", ""}
	}
	for i := 0; i < 3; i++ {
		e := g.env()
		want := renderRef(n, e)
		got, bad := renderReal(x, e)
		st.add(n.String(), got.out)
		if bad != "" || got.out != want.out {
			return &failure{"wrong output " + bad, describe(n, e) + headersDesc(args), want.out, got.out}
		}
		if body := strings.TrimSuffix(strings.TrimPrefix(got.out, ` hx-headers="`), `"`); strings.Contains(body, `"`) && nm > 0 && len(args) == nm && textOnly(merged) {
			return &failure{"the attribute value ends early", describe(n, e) + headersDesc(args), want.out, got.out}
		}
	}
	for i, m := range maps {
		if len(m) != len(copies[i]) {
			return &failure{"a map passed was modified", n.String() + headersDesc(args), "", ""}
		}
		for k, v := range copies[i] {
			if !sameAny(m[k], v) {
				return &failure{"a map passed was modified", n.String() + headersDesc(args), "", ""}
			}
		}
	}
	if s := b.altered(); s != "" {
		return &failure{s, n.String(), "", ""}
	}
	return nil
}

func textOnly(m map[string]*Val) bool {
	for _, v := range m {
		if v.K != vStr && v.K != vStringer {
			return false
		}
	}
	return true
}

func headersDesc(args []*Val) string {
	s := ""
	for _, a := range args {
		if a.Lit != "" {
			s += "\n   " + a.Lit
		}
	}
	return s
}

// ---------------------------------------------------------------- html/template

func templateSuite(r *rand.Rand, st *stats) *failure {
	pickErrors(r)
	p := profile{kinds: weights(12, nil), vals: allVals(map[valKind]int{vCounted: 0}), depth: 3, nilPct: 4, errs: 40}
	g := &gen{r: r, p: &p}
	names := []string{"a", "b", "cc", "_d", "e1", "héllo"}
	b := newBuilder(false)
	nodes := map[string]*Node{}
	nm := aitch.NodeMap{}
	for _, k := range names {
		switch r.Intn(5) {
		case 0:
		case 1:
			nm[k] = nil
		default:
			n := g.nodeOf([]kind{kText, kElement, kCollection, kIterate, kConditional, kAttr, kDelim, kImperative, kExt, kExtAttr, kBool, kVoid, kComment}[r.Intn(13)], 2)
			x, f := buildNode(b, n)
			if f != "" {
				return &failure{f, n.String(), "", ""}
			}
			if x != nil {
				nodes[k], nm[k] = n, x
			}
		}
	}
	type part struct {
		lit string
		key string
		n   int
	}
	var parts []part
	text := ""
	undefined := false
	for i := 1 + r.Intn(6); i > 0; i-- {
		k := names[r.Intn(len(names))]
		if nodes[k] == nil && r.Intn(4) > 0 {
			parts = append(parts, part{lit: "lit "})
			text += "lit "
			continue
		}
		if nodes[k] == nil {
			undefined = true
			parts = append(parts, part{key: k, n: 1})
			text += "{{" + k + " .}}"
			continue
		}
		if nodes[k].isAttr() {
			parts = append(parts, part{lit: "<p "}, part{key: k, n: 1}, part{lit: ">x</p>"})
			text += "<p {{" + k + " .}}>x</p>"
			continue
		}
		switch r.Intn(4) {
		case 0:
			parts = append(parts, part{lit: "<b>"}, part{key: k, n: 3}, part{lit: "</b>"})
			text += "<b>{{range $i, $x := .Data.three}}{{" + k + " $}}{{end}}</b>"
		case 1:
			parts = append(parts, part{lit: "["}, part{key: k, n: 1}, part{lit: "]"})
			text += "[{{with $}}{{" + k + " .}}{{end}}]"
		default:
			parts = append(parts, part{key: k, n: 1})
			text += "{{" + k + " .}}"
		}
	}
	desc := fmt.Sprintf("NewTemplate(%q)", text)
	for _, k := range names {
		if nodes[k] != nil {
			desc += "\n   " + k + ": " + nodes[k].String()
		} else if _, ok := nm[k]; ok {
			desc += "\n   " + k + ": nil"
		}
	}
	t, err := aitch.NewTemplate("t", text, nm)
	must := func() (p bool) {
		defer func() {
			if e := recover(); e != nil {
				p = true
			}
		}()
		return aitch.MustNewTemplate("t", text, nm) == nil
	}()
	st.add(desc, "x")
	if (err != nil) != undefined || (t == nil) != undefined || must != undefined {
		return &failure{"markers of nil or missing nodes", desc, fmt.Sprint("error: ", undefined), fmt.Sprint("error: ", err, " must panics: ", must)}
	}
	if undefined {
		return nil
	}
	envs := []*Env{g.env(), g.env()}
	try := func(i int) *failure {
		e := &Env{data: map[string]any{"three": []int{1, 2, 3}}, cargo: envs[i].cargo}
		for k, v := range envs[i].data {
			e.data[k] = v
		}
		want := &Sink{}
		var wantErr error
	loop:
		for _, p := range parts {
			if p.key == "" {
				want.emit(p.lit)
				continue
			}
			for j := 0; j < p.n; j++ {
				nodes[p.key].render(e, want)
				if nn := nodes[p.key]; (nn.K == kExt || nn.K == kExtAttr) && nn.Fail && want.err == nil {
					want.err = errNode
				}
				if want.err != nil {
					wantErr = want.err
					break loop
				}
			}
		}
		var buf bytes.Buffer
		got, bad := func() (err error, bad string) {
			defer func() {
				if p := recover(); p != nil {
					bad = fmt.Sprint("panic: ", p)
				}
			}()
			return t.Execute(&buf, e.data, e.cargo), ""
		}()
		d := desc + "\n   executed with " + envString(e) + errString()
		if bad != "" || buf.String() != string(want.b) {
			return &failure{"wrong output " + bad, d, string(want.b), buf.String()}
		}
		if (got == nil) != (wantErr == nil) || (wantErr != nil && !errors.Is(got, wantErr)) {
			return &failure{fmt.Sprintf("wrong error: %v instead of %v", got, wantErr), d, string(want.b), buf.String()}
		}
		return nil
	}
	for i := 0; i < 3; i++ {
		if f := try(i % 2); f != nil {
			return f
		}
	}
	if r.Intn(8) == 0 {
		var wg sync.WaitGroup
		res := make([]*failure, 4)
		for i := range res {
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = try(i % 2) }()
		}
		wg.Wait()
		for _, f := range res {
			if f != nil {
				f.what += " (concurrent)"
				return f
			}
		}
	}
	return nil
}

func init() {
	suites["C14"] = []suite{lookupSuite}
	suites["C15"] = []suite{nameSuite}
	suites["C16"] = []suite{everyWord("element", "void", "attribute", "boolean", "delimited"), vocabSuite([]string{"element", "void", "attribute", "boolean", "delimited"}, 20)}
	suites["C18"] = []suite{templateSuite}
	suites["C19"] = []suite{headersSuite}
	suites["C20"] = []suite{everyWord("css", "unit"), vocabSuite([]string{"css", "css", "unit"}, 0)}
	suites["C02"] = append(suites["C02"], nbspSuite)
	docs := profile{kinds: weights(12, nil), vals: allVals(nil), depth: 4, nilPct: 10, words: 40}
	suites["C04"] = append(suites["C04"], func(r *rand.Rand, st *stats) *failure {
		g := &gen{r: r, p: &docs}
		return tryNode(g, g.document(1+r.Intn(3)), features{faults: true}, st)
	})
	suites["C10"] = append(suites["C10"], suites["C04"][len(suites["C04"])-1])
	suites["C21"] = append(suites["C21"], suites["C04"][len(suites["C04"])-1])
}
