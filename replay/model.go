package main

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

var errNode0 = errors.New("node error")
var errNode = errNode0
var errImp0 = errors.New("imperative error")
var errImp = errImp0
var errFn0 = errors.New("function error")
var errFn = errFn0

// ---------------------------------------------------------------- reference: contexts and output

type Env struct {
	data   map[string]any
	cargo  any
	parent *Env
	set    func() // makes the shared values what they are for this rendering
}

type Sink struct {
	b   []byte
	err error
}

func (s *Sink) emit(x string) {
	if s.err == nil {
		s.b = append(s.b, x...)
	}
}

func (s *Sink) fail(e error) {
	if s.err == nil {
		s.err = e
	}
}

// cell is a value shared by several renderings, which changes between them
type cell struct{ s string }

func (c *cell) String() string { return c.s }

type text string

func (t text) String() string { return string(t) }

type named int
type namedStr string
type namedMap map[string]any
type strct struct{ A int }

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '&':
			b.WriteString("&amp;")
		case '"':
			b.WriteString("&quot;")
		case '\'':
			b.WriteString("&apos;")
		case 0:
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// conv is the reference conversion of a plain value
func conv(x any) string {
	switch v := x.(type) {
	case nil:
		return ""
	case bool:
		if v {
			return "true"
		}
		return "false"
	case []byte:
		return string(v)
	case string:
		return escape(v)
	case float32:
		return strconv.FormatFloat(float64(v), 'g', -1, 32)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case int, int8, int16, int32, int64:
		return big.NewInt(reflect.ValueOf(x).Int()).String()
	case uint, uint8, uint16, uint32, uint64:
		return new(big.Int).SetUint64(reflect.ValueOf(x).Uint()).String()
	case fmt.Stringer:
		return escape(v.String())
	case func() any:
		if v == nil {
			return ""
		}
		return conv(v())
	}
	return ""
}

func show(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case map[string]any:
		return fmt.Sprintf("map%d", len(v))
	case error:
		return "err"
	}
	return fmt.Sprintf("%T:%v", x, x)
}

// what a probing function writes about its context
func probeReal(ctx *context.Context) string {
	if ctx == nil {
		return "noctx"
	}
	s := "{" + show(ctx.Cargo) + ";" + show(ctx.Data["k0"]) + ";" + strconv.Itoa(len(ctx.Data))
	if ctx.Parent != nil {
		same := ""
		if ctx.Parent.Writer != ctx.Writer {
			same = "otherwriter"
		}
		s += ";p=" + same + show(ctx.Parent.Cargo) + "/" + strconv.Itoa(len(ctx.Parent.Data))
	}
	return s + "}"
}

func probeRef(e *Env) string {
	s := "{" + show(e.cargo) + ";" + show(e.data["k0"]) + ";" + strconv.Itoa(len(e.data))
	if e.parent != nil {
		s += ";p=" + show(e.parent.cargo) + "/" + strconv.Itoa(len(e.parent.data))
	}
	return s + "}"
}

func (c *Cond) ref(e *Env) bool {
	switch c.K {
	case 0:
		return c.B
	case 1:
		b, _ := e.data[c.Key].(bool)
		return b
	case 2:
		i, ok := e.cargo.(int)
		return ok && i%2 == 0
	case 4:
		return e.parent != nil
	}
	return true
}

func (c *Cond) real() aitch.ConditionalFunc {
	switch c.K {
	case 0:
		b := c.B
		return func(*context.Context) bool { return b }
	case 1:
		k := c.Key
		return func(ctx *context.Context) bool { b, _ := ctx.Data[k].(bool); return b }
	case 2:
		return func(ctx *context.Context) bool { i, ok := ctx.Cargo.(int); return ok && i%2 == 0 }
	case 4:
		return func(ctx *context.Context) bool { return ctx.Parent != nil }
	}
	return nil
}

func refWhen(key string, e *Env) bool {
	neg := strings.HasPrefix(key, "!")
	if neg {
		key = key[1:]
	}
	v, ok := e.data[key]
	r := ok
	if b, isb := v.(bool); ok && isb {
		r = b
	}
	return r != neg
}

// ---------------------------------------------------------------- reference: values

// a mval writes something, given the context
type mval func(e *Env) string

func constant(s string) mval { return func(*Env) string { return s } }

var refCounts = map[*Val]int{}

func (v *Val) ref() []mval {
	switch v.K {
	case vNil:
		return nil
	case vStr, vStringer:
		return []mval{constant(escape(v.S))}
	case vScalar:
		return []mval{constant(conv(v.X))}
	case vBytes:
		return []mval{constant(v.S)}
	case vNilAny:
		return []mval{constant("")}
	case vAny:
		return []mval{constant(v.Subs[0].plain())}
	case vKey:
		k := v.S
		return []mval{func(e *Env) string {
			if k == "." {
				return conv(e.cargo)
			}
			return conv(e.data[k])
		}}
	case vFn, vRawFn:
		return []mval{probeRef}
	case vCounted:
		return []mval{func(*Env) string { refCounts[v]++; return "#" }}
	case vValue:
		vs := v.Subs[0].ref()
		if len(vs) == 1 {
			return vs
		}
		return []mval{joinVals(vs)}
	case vConcat:
		return []mval{joinVals(refVals(v.Subs))}
	case vNode:
		return v.Node.values()
	}
	return nil
}

// plain is the conversion of a value that is not dynamic
func (v *Val) plain() string {
	switch v.K {
	case vStr, vStringer:
		return escape(v.S)
	case vScalar:
		return conv(v.X)
	case vBytes:
		return v.S
	case vAny:
		return v.Subs[0].plain()
	}
	return ""
}

func joinVals(vs []mval) mval {
	return func(e *Env) string {
		var b strings.Builder
		for _, v := range vs {
			b.WriteString(v(e))
		}
		return b.String()
	}
}

func refVals(vs []*Val) (r []mval) {
	for _, v := range vs {
		r = append(r, v.ref()...)
	}
	return
}

// values of a node given as a value
func (n *Node) values() []mval {
	if n == nil {
		return nil
	}
	switch n.K {
	case kText, kComment, kPI, kFragment, kAttr, kDelim:
		return refVals(n.Vals)
	case kDocType:
		return []mval{constant("html")}
	case kCollection:
		return collValues(n.Kids)
	case kConditional:
		if n.Cond.K == 3 {
			return collValues(n.Kids)
		}
	case kCollect:
		if n.Cond == nil {
			return nil
		}
	}
	return nil
}

func collValues(kids []*Node) (r []mval) {
	for _, k := range kids {
		r = append(r, k.values()...)
	}
	return
}

func (n *Node) isAttr() bool {
	return n != nil && (n.K == kAttr || n.K == kBool || n.K == kDelim || n.K == kExtAttr)
}

// ---------------------------------------------------------------- reference: elements

type mattr struct {
	n     *Node
	delim string
	vals  []mval // of delimited attributes, merged
}

type cattr struct {
	n     *Node
	conds []func(*Env) bool
}

// gather finds the attributes declared in a list of contents
func gather(ns []*Node, conds []func(*Env) bool, attrs *[]*Node, cattrs *[]cattr) {
	for _, n := range ns {
		if n == nil {
			continue
		}
		if n.isAttr() {
			if len(conds) > 0 {
				*cattrs = append(*cattrs, cattr{n, conds})
			} else {
				*attrs = append(*attrs, n)
			}
			continue
		}
		switch {
		case n.K == kCollection || (n.K == kConditional && n.Cond.K == 3):
			gather(n.Kids, conds, attrs, cattrs)
		case n.K == kConditional || n.K == kWhen:
			n := n
			cond := func(e *Env) bool { return n.Cond.ref(e) }
			if n.K == kWhen {
				cond = func(e *Env) bool { return refWhen(n.Name, e) }
			}
			cs := append(append([]func(*Env) bool{}, conds...), cond)
			var own, rest []*Node
			for _, k := range n.Kids {
				if k.isAttr() {
					own = append(own, k)
				} else {
					rest = append(rest, k)
				}
			}
			gather(own, cs, attrs, cattrs)
			gather(rest, cs, attrs, cattrs)
		}
	}
}

// mergeAttrs keeps one attribute per name, in order of first declaration
func mergeAttrs(attrs []*Node) []*mattr {
	idx := map[string]int{}
	var r []*mattr
	for _, a := range attrs {
		m := &mattr{n: a, delim: a.Delim}
		if a.K == kDelim {
			m.vals = refVals(a.Vals)
		}
		if i, ok := idx[a.Name]; ok {
			if r[i].n.K == kDelim && a.K == kDelim {
				r[i] = &mattr{n: r[i].n, delim: r[i].delim, vals: append(append([]mval{}, r[i].vals...), m.vals...)}
			} else {
				r[i] = m
			}
			continue
		}
		idx[a.Name] = len(r)
		r = append(r, m)
	}
	return r
}

func refDelimited(name, delim string, vals []mval, e *Env, s *Sink) {
	s.emit(" " + name + `="`)
	something := false
	for _, v := range vals {
		if something {
			s.emit(delim)
		}
		x := v(e)
		s.emit(x)
		something = x != ""
	}
	s.emit(`"`)
}

func (m *mattr) render(e *Env, s *Sink) {
	if m.n.K == kDelim {
		refDelimited(m.n.Name, m.delim, m.vals, e, s)
		return
	}
	m.n.render(e, s)
}

func renderAttrs(attrs []*mattr, cattrs []cattr, e *Env, s *Sink) {
	var applies []*Node
	for _, c := range cattrs {
		ok := true
		for _, f := range c.conds {
			ok = ok && f(e)
		}
		if ok {
			applies = append(applies, c.n)
		}
	}
	by := map[string][]*Node{}
	var names []string
	for _, a := range applies {
		if _, ok := by[a.Name]; !ok {
			names = append(names, a.Name)
		}
		by[a.Name] = append(by[a.Name], a)
	}
	have := map[string]bool{}
	for _, a := range attrs {
		have[a.n.Name] = true
		extra := by[a.n.Name]
		if len(extra) == 0 {
			a.render(e, s)
		} else if a.n.K == kDelim {
			vs := append([]mval{}, a.vals...)
			for _, x := range extra {
				vs = append(vs, x.values()...)
			}
			refDelimited(a.n.Name, a.delim, vs, e, s)
		} else {
			extra[len(extra)-1].render(e, s)
		}
	}
	for _, nm := range names {
		if have[nm] {
			continue
		}
		as := by[nm]
		if as[0].K == kDelim {
			var vs []mval
			for _, x := range as {
				vs = append(vs, x.values()...)
			}
			refDelimited(nm, as[0].Delim, vs, e, s)
		} else {
			as[len(as)-1].render(e, s)
		}
	}
}

var htmlVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true,
	"link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

var validName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9._:\-]*$`)

func (n *Node) renderElement(e *Env, s *Sink, void bool) {
	s.emit("<" + n.Name)
	nodes := n.contents()
	var attrs []*Node
	var cattrs []cattr
	gather(nodes, nil, &attrs, &cattrs)
	renderAttrs(mergeAttrs(attrs), cattrs, e, s)
	s.emit(">")
	if void {
		return
	}
	for _, c := range nodes {
		if c != nil && !c.isAttr() {
			c.render(e, s)
		}
	}
	s.emit("</" + n.Name + ">")
}

// contents of an element: nodes, and text for everything else
func (n *Node) contents() []*Node {
	var r []*Node
	for _, v := range n.Vals {
		if v.K == vNode {
			r = append(r, v.Node)
		} else {
			r = append(r, &Node{K: kText, Vals: []*Val{v}})
		}
	}
	return r
}

func (n *Node) renderVals(e *Env, s *Sink) {
	for _, v := range refVals(n.Vals) {
		s.emit(v(e))
	}
}

func renderContent(ns []*Node, e *Env, s *Sink) {
	for _, n := range ns {
		if n != nil && !n.isAttr() {
			n.render(e, s)
		}
	}
}

func (e *Env) item(x any) *Env {
	c := &Env{cargo: x, data: e.data, parent: e}
	if m, ok := x.(map[string]any); ok {
		c.data = m
	}
	return c
}

func itemValue(v *Val) any {
	switch v.K {
	case vNil:
		return nil
	case vStr:
		return v.S
	case vStringer:
		return text(v.S)
	case vBytes:
		return []byte(v.S)
	}
	return v.X
}

func (it *Items) real() []any {
	r := make([]any, len(it.List))
	for i, v := range it.List {
		r[i] = itemValue(v)
	}
	return r
}

// sliceOf gives the items of any slice
func sliceOf(x any) []any {
	if x == nil {
		return nil
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() != reflect.Slice {
		return nil
	}
	r := make([]any, rv.Len())
	for i := range r {
		r[i] = rv.Index(i).Interface()
	}
	return r
}

func (it *Items) ref(e *Env) []any {
	if it.Key == "" {
		return it.real()
	}
	r, _ := e.data[it.Key].([]any)
	return r
}

// render is the reference rendering
func (n *Node) render(e *Env, s *Sink) {
	if n == nil {
		return
	}
	switch n.K {
	case kText, kFragment:
		n.renderVals(e, s)
	case kComment:
		s.emit("<!--")
		n.renderVals(e, s)
		s.emit("-->")
	case kPI:
		s.emit("<!" + n.Name + " ")
		n.renderVals(e, s)
		s.emit(">\n")
	case kDocType:
		s.emit("<!DOCTYPE html>\n")
	case kElement:
		n.renderElement(e, s, false)
	case kVoid:
		n.renderElement(e, s, true)
	case kNamed:
		n.renderElement(e, s, htmlVoid[n.Name])
	case kNamedVoid:
		n.renderElement(e, s, true)
	case kAttr:
		s.emit(" " + n.Name + `="`)
		n.renderVals(e, s)
		s.emit(`"`)
	case kBool:
		s.emit(" " + n.Name)
	case kDelim:
		refDelimited(n.Name, n.Delim, refVals(n.Vals), e, s)
	case kCollection, kDocument:
		renderContent(n.Kids, e, s)
	case kConditional:
		if n.Cond.ref(e) {
			renderContent(n.Kids, e, s)
		}
	case kWhen:
		if refWhen(n.Name, e) {
			renderContent(n.Kids, e, s)
		}
	case kIterate, kYield:
		if s.err != nil {
			return
		}
		if n.Items.Fail {
			s.fail(errFn)
		}
		for _, x := range n.Items.ref(e) {
			s.emit(n.Items.Mark)
			renderContent(n.Kids, e.item(x), s)
		}
	case kIterateKey:
		for _, x := range sliceOf(e.data[n.Name]) {
			renderContent(n.Kids, e.item(x), s)
		}
	case kCollect:
		if n.Cond == nil {
			return
		}
		if n.Cond.ref(e) {
			renderContent(n.Kids, e, s)
		} else {
			renderContent(n.Kids2, e, s)
		}
	case kImperative:
		if n.Cond != nil { // no function
			return
		}
		n.renderOps(e, s)
		if n.Fail {
			s.fail(errImp)
		}
	case kExt, kExtAttr:
		if n.K == kExtAttr {
			s.emit(" ")
		}
		s.emit(n.Name)
		if n.Fail {
			s.fail(errNode)
		}
	}
}

func (n *Node) renderOps(e *Env, s *Sink) {
	var open []string
	end := func() {
		s.emit("</" + open[len(open)-1] + ">")
		open = open[:len(open)-1]
	}
	for _, o := range n.Ops {
		switch o.K {
		case oStart:
			s.emit("<" + o.S)
			var as []*Node
			for _, a := range o.Nodes {
				if a.isAttr() {
					as = append(as, a)
				}
			}
			renderAttrs(mergeAttrs(as), nil, e, s)
			s.emit(">")
			if !o.Void {
				open = append(open, o.S)
			}
		case oEnd:
			if len(open) > 0 {
				end()
			}
		case oEndAll:
			for len(open) > 0 {
				end()
			}
		case oString:
			s.emit(escape(o.S))
		case oRaw, oCtx:
			s.emit(o.S)
		case oNodes:
			renderContent(o.Nodes, e, s)
		}
	}
}
