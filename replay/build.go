package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// ext is a node type of a user
type ext struct {
	name string
	typ  aitch.NodeType
	attr bool
	err  error
}

func (x *ext) Render(ctx *context.Context) error {
	if x.attr {
		ctx.Write([]byte(" "))
	}
	ctx.Write([]byte(x.name))
	if ctx.Error != nil {
		return ctx.Error
	}
	return x.err
}
func (x *ext) Type() aitch.NodeType { return x.typ }
func (x *ext) Name() string         { return x.name }

// watch remembers what was passed to a constructor, to see that it is not altered
type watch struct {
	what  string
	check func() string
}

type builder struct {
	share   bool // a node of the description used twice is one node used twice
	nodes   map[*Node]aitch.Node
	watches []watch
	counts  map[*Val]*int
}

func newBuilder(share bool) *builder {
	return &builder{share: share, nodes: map[*Node]aitch.Node{}, counts: map[*Val]*int{}}
}

type sentinel struct{ n int }

func sameAny(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	if va.Kind() == reflect.Func {
		return va.Pointer() == vb.Pointer()
	}
	if va.Type().Comparable() && a == b {
		return true
	}
	if va.Kind() == reflect.Ptr {
		return false
	}
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// anys gives a slice with spare capacity, all of which is watched
func (b *builder) anys(xs []any, what string) []any {
	n := len(xs)
	full := make([]any, n+3)
	copy(full, xs)
	for i := n; i < len(full); i++ {
		full[i] = &sentinel{i}
	}
	cp := append([]any{}, full...)
	b.watches = append(b.watches, watch{what, func() string {
		for i := range full {
			if !sameAny(full[i], cp[i]) {
				return fmt.Sprintf("element %d of the slice passed to %s was altered (length %d)", i, what, n)
			}
		}
		return ""
	}})
	return full[:n]
}

func (b *builder) nodeSlice(xs []aitch.Node, what string) []aitch.Node {
	n := len(xs)
	full := make([]aitch.Node, n+3)
	copy(full, xs)
	for i := n; i < len(full); i++ {
		full[i] = &ext{name: "SENTINEL"}
	}
	cp := append([]aitch.Node{}, full...)
	b.watches = append(b.watches, watch{what, func() string {
		for i := range full {
			if full[i] != cp[i] {
				return fmt.Sprintf("node %d of the slice passed to %s was altered (length %d)", i, what, n)
			}
		}
		return ""
	}})
	return full[:n]
}

func (b *builder) bytes(s string) []byte {
	full := make([]byte, len(s)+4)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = '~'
	}
	cp := append([]byte{}, full...)
	b.watches = append(b.watches, watch{"bytes", func() string {
		if !bytes.Equal(full, cp) {
			return fmt.Sprintf("bytes %q passed became %q", cp, full)
		}
		return ""
	}})
	return full[:len(s)]
}

func (b *builder) altered() string {
	for _, w := range b.watches {
		if s := w.check(); s != "" {
			return s
		}
	}
	return ""
}

func (b *builder) val(v *Val) any {
	if v.Via != nil {
		return v.Via.val(b.vals(v.Via.args, v.Via.name))
	}
	switch v.K {
	case vNil:
		return nil
	case vStr:
		return v.S
	case vStringer:
		return text(v.S)
	case vScalar:
		return v.X
	case vBytes:
		return b.bytes(v.S)
	case vKey:
		return aitch.DynamicValueKey(v.S)
	case vFn:
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte { return []byte(probeReal(ctx)) })
	case vRawFn:
		return func(ctx *context.Context) []byte { return []byte(probeReal(ctx)) }
	case vCounted:
		c := b.counts[v]
		if c == nil {
			c = new(int)
			b.counts[v] = c
		}
		return aitch.DynamicValueFunc(func(ctx *context.Context) []byte { *c++; return []byte("#") })
	case vAny:
		x := b.val(v.Subs[0])
		return func() any { return x }
	case vNilAny:
		var f func() any
		return f
	case vValue:
		return aitch.NewValue(b.val(v.Subs[0]))
	case vConcat:
		return aitch.NewConcatValue(b.vals(v.Subs, "NewConcatValue")...)
	case vNode:
		n := b.node(v.Node)
		if n == nil {
			return nil
		}
		return n
	}
	panic("value")
}

func (b *builder) vals(vs []*Val, what string) []any {
	if len(vs) == 0 {
		return nil
	}
	r := make([]any, len(vs))
	for i, v := range vs {
		r[i] = b.val(v)
	}
	return b.anys(r, what)
}

func (b *builder) list(ns []*Node, what string) []aitch.Node {
	if len(ns) == 0 {
		return nil
	}
	r := make([]aitch.Node, len(ns))
	for i, n := range ns {
		r[i] = b.node(n)
	}
	return b.nodeSlice(r, what)
}

func (b *builder) node(n *Node) aitch.Node {
	if n == nil {
		return nil
	}
	if b.share {
		if x, ok := b.nodes[n]; ok {
			return x
		}
	}
	x := b.build(n)
	b.nodes[n] = x
	return x
}

func (b *builder) build(n *Node) aitch.Node {
	if n.Via != nil {
		return n.Via.node(b.vals(n.Via.args, n.Via.name))
	}
	what := kindNames[n.K]
	switch n.K {
	case kText:
		return aitch.Text(b.vals(n.Vals, what)...)
	case kComment:
		return aitch.Comment(b.vals(n.Vals, what)...)
	case kPI:
		return aitch.PI(n.Name, b.vals(n.Vals, what)...)
	case kFragment:
		return aitch.Fragment(b.vals(n.Vals, what)...)
	case kDocType:
		return aitch.DocType()
	case kElement:
		return aitch.NewElement(b.bytes(n.Name), b.vals(n.Vals, what)...)
	case kVoid:
		return aitch.NewVoidElement(b.bytes(n.Name), b.vals(n.Vals, what)...)
	case kNamed:
		return aitch.Element(n.Name, b.vals(n.Vals, what)...)
	case kNamedVoid:
		return aitch.VoidElement(n.Name, b.vals(n.Vals, what)...)
	case kAttr:
		return aitch.NewAttribute(b.bytes(n.Name), b.vals(n.Vals, what)...)
	case kBool:
		return aitch.NewBooleanAttribute(b.bytes(n.Name))
	case kDelim:
		return aitch.NewDelimitedAttribute(b.bytes(n.Name), b.bytes(n.Delim), b.vals(n.Vals, what)...)
	case kCollection:
		return aitch.Collection(b.list(n.Kids, what)...)
	case kConditional:
		return aitch.Conditional(n.Cond.real(), b.list(n.Kids, what)...)
	case kWhen:
		return aitch.When(aitch.DynamicValueKey(n.Name), b.list(n.Kids, what)...)
	case kIterate:
		it := n.Items
		return aitch.Iterate(func(ctx *context.Context) []any {
			if it.Fail {
				ctx.Error = errFn
			}
			if it.Key != "" {
				r, _ := ctx.Data[it.Key].([]any)
				return r
			}
			return it.real()
		}, b.list(n.Kids, what)...)
	case kYield:
		it := n.Items
		return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
			if it.Fail {
				ctx.Error = errFn
			}
			xs := it.real()
			if it.Key != "" {
				xs, _ = ctx.Data[it.Key].([]any)
			}
			for _, x := range xs {
				if it.Mark != "" {
					ctx.Write([]byte(it.Mark))
				}
				yield(x)
			}
		}, b.list(n.Kids, what)...)
	case kIterateKey:
		return aitch.IterateKey(n.Name, b.list(n.Kids, what)...)
	case kCollect:
		if n.Cond == nil {
			return aitch.ContentCollect(nil)
		}
		k1, k2, cond := b.list(n.Kids, what), b.list(n.Kids2, what), n.Cond.real()
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			if cond(ctx) {
				return k1
			}
			return k2
		})
	case kImperative:
		if n.Cond != nil {
			return aitch.Imperative(nil)
		}
		ops := make([]func(ic aitch.ImperativeContext), len(n.Ops))
		for i, o := range n.Ops {
			o := o
			name := b.bytes(o.S)
			nodes := b.list(o.Nodes, "Start/WriteNodes")
			ops[i] = func(ic aitch.ImperativeContext) {
				switch o.K {
				case oStart:
					ic.Start(name, o.Void, nodes...)
				case oEnd:
					ic.End()
				case oEndAll:
					ic.EndAll()
				case oString:
					ic.WriteString(o.S)
				case oRaw:
					ic.WriteRaw(name)
				case oNodes:
					ic.WriteNodes(nodes...)
				case oCtx:
					ic.Context().Write(name)
				}
			}
		}
		fail := n.Fail
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			for _, f := range ops {
				f(ic)
			}
			if fail {
				return errImp
			}
			return nil
		})
	case kExt, kExtAttr:
		x := &ext{name: n.Name, typ: aitch.NodeType(n.Typ), attr: n.K == kExtAttr}
		if x.attr {
			x.typ = aitch.AttributeNode
		}
		if n.Fail {
			x.err = errNode
		}
		return x
	}
	panic("kind")
}
