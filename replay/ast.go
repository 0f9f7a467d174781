// Package main is the executable oracle: it builds random templates through the public API of
// go-andiamo/aitch and compares what the real code does with an independent reference.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
)

// ---------------------------------------------------------------- values

type valKind int

const (
	vNil valKind = iota
	vStr
	vStringer
	vScalar // bool, ints, floats, named types, unsupported: literal
	vBytes
	vKey     // DynamicValueKey
	vFn      // DynamicValueFunc probing the context
	vRawFn   // func(*context.Context) []byte
	vAny     // func() any
	vValue   // NewValue(sub)
	vConcat  // NewConcatValue(subs)
	vNode    // a node
	vNilAny  // nil func() any
	vCounted // DynamicValueFunc counting its calls
)

type Val struct {
	K    valKind
	S    string
	X    any
	Subs []*Val
	Node *Node
	Lit  string
	Via  *via
}

func (v *Val) String() string {
	if v.Via != nil {
		return v.Via.name + "(" + valList(v.Via.args) + ")"
	}
	switch v.K {
	case vNil:
		return "nil"
	case vStr:
		return strconv.Quote(v.S)
	case vStringer:
		return "stringer(" + strconv.Quote(v.S) + ")"
	case vScalar:
		return fmt.Sprintf("%T(%v)", v.X, v.X)
	case vBytes:
		return "[]byte(" + strconv.Quote(v.S) + ")"
	case vKey:
		return "DynamicValueKey(" + strconv.Quote(v.S) + ")"
	case vFn:
		return "DynamicValueFunc(probe)"
	case vRawFn:
		return "func(ctx)[]byte(probe)"
	case vCounted:
		return "DynamicValueFunc(counted)"
	case vAny:
		return "func() any { return " + v.Subs[0].String() + " }"
	case vNilAny:
		return "(func() any)(nil)"
	case vValue:
		return "NewValue(" + v.Subs[0].String() + ")"
	case vConcat:
		return "NewConcatValue(" + valList(v.Subs) + ")"
	case vNode:
		return v.Node.String()
	}
	return "?"
}

func valList(vs []*Val) string {
	s := make([]string, len(vs))
	for i, v := range vs {
		s[i] = v.String()
	}
	return strings.Join(s, ", ")
}

// ---------------------------------------------------------------- nodes

type kind int

const (
	kText kind = iota
	kComment
	kPI
	kFragment
	kElement   // NewElement
	kVoid      // NewVoidElement
	kNamed     // Element (checked)
	kNamedVoid // VoidElement (checked)
	kAttr      // NewAttribute
	kBool      // NewBooleanAttribute
	kDelim     // NewDelimitedAttribute
	kCollection
	kConditional
	kWhen
	kIterate
	kIterateKey
	kYield
	kCollect
	kImperative
	kExt     // a node type of a user
	kExtAttr // an attribute type of a user
	kDocType
	nKinds
	kDocument // html.Document: its parts are the kids
)

type Node struct {
	K     kind
	Name  string
	Delim string
	Vals  []*Val
	Kids  []*Node // may hold nil
	Kids2 []*Node // collectors: what is returned when the condition does not hold
	Cond  *Cond
	Items *Items
	Ops   []*Op
	Fail  bool
	Typ   int
	Via   *via // built by another function than the one for its kind
}

type via struct {
	name string
	args []*Val
	node func(v []any) aitch.Node
	val  func(v []any) aitch.Value
}

// Cond is a condition: a constant, a flag in the data, or a test of the cargo
type Cond struct {
	K   int // 0 constant, 1 data flag, 2 cargo is even int, 3 nil function, 4 the parent context has cargo
	B   bool
	Key string
}

func (c *Cond) String() string {
	switch c.K {
	case 0:
		return fmt.Sprint(c.B)
	case 1:
		return "flag(" + c.Key + ")"
	case 2:
		return "evenCargo"
	case 3:
		return "nil"
	}
	return "hasParent"
}

type Items struct {
	Key  string // taken from the data when not empty
	List []*Val // scalars, strings, maps ...
	Fail bool
	Mark string // written by a yielding function before each item
}

type opKind int

const (
	oStart opKind = iota
	oEnd
	oEndAll
	oString
	oRaw
	oNodes
	oCtx // writes through the context
)

type Op struct {
	K     opKind
	S     string
	Void  bool
	Nodes []*Node
}

func (o *Op) String() string {
	switch o.K {
	case oStart:
		return fmt.Sprintf("Start(%q, %v, %s)", o.S, o.Void, nodeList(o.Nodes))
	case oEnd:
		return "End()"
	case oEndAll:
		return "EndAll()"
	case oString:
		return fmt.Sprintf("WriteString(%q)", o.S)
	case oRaw:
		return fmt.Sprintf("WriteRaw(%q)", o.S)
	case oNodes:
		return "WriteNodes(" + nodeList(o.Nodes) + ")"
	}
	return fmt.Sprintf("Context().Write(%q)", o.S)
}

func nodeList(ns []*Node) string {
	s := make([]string, len(ns))
	for i, n := range ns {
		s[i] = n.String()
	}
	return strings.Join(s, ", ")
}

var kindNames = [...]string{"Text", "Comment", "PI", "Fragment", "NewElement", "NewVoidElement", "Element", "VoidElement", "NewAttribute",
	"NewBooleanAttribute", "NewDelimitedAttribute", "Collection", "Conditional", "When", "Iterate", "IterateKey", "IterateYield", "ContentCollect",
	"Imperative", "extNode", "extAttr", "DocType"}

func (n *Node) String() string {
	if n == nil {
		return "nil"
	}
	if n.Via != nil {
		return n.Via.name + "(" + valList(n.Via.args) + ")"
	}
	nm := kindNames[n.K]
	join := func(a ...string) string {
		var b []string
		for _, x := range a {
			if x != "" {
				b = append(b, x)
			}
		}
		return nm + "(" + strings.Join(b, ", ") + ")"
	}
	q := strconv.Quote(n.Name)
	switch n.K {
	case kText, kComment, kFragment:
		return join(valList(n.Vals))
	case kPI, kElement, kVoid, kNamed, kNamedVoid, kAttr:
		return join(q, valList(n.Vals))
	case kBool:
		return join(q)
	case kDelim:
		return join(q, strconv.Quote(n.Delim), valList(n.Vals))
	case kCollection:
		return join(nodeList(n.Kids))
	case kConditional:
		return join(n.Cond.String(), nodeList(n.Kids))
	case kWhen:
		return join(q, nodeList(n.Kids))
	case kIterate, kYield, kIterateKey:
		it := strconv.Quote(n.Name)
		if n.Items != nil {
			it = "data[" + strconv.Quote(n.Items.Key) + "]"
			if n.Items.Key == "" {
				it = "items{" + valList(n.Items.List) + "}"
			}
			if n.Items.Fail {
				it += "+error"
			}
			if n.Items.Mark != "" {
				it += "+writes " + strconv.Quote(n.Items.Mark)
			}
		}
		return join(it, nodeList(n.Kids))
	case kCollect:
		if n.Cond == nil {
			return join("nil")
		}
		return join(n.Cond.String(), "{"+nodeList(n.Kids)+"}", "{"+nodeList(n.Kids2)+"}")
	case kImperative:
		if n.Cond != nil {
			return join("nil")
		}
		s := make([]string, len(n.Ops))
		for i, o := range n.Ops {
			s[i] = o.String()
		}
		r := ""
		if n.Fail {
			r = "return error"
		}
		return join(strings.Join(s, "; "), r)
	case kExt, kExtAttr:
		f := ""
		if n.Fail {
			f = "error"
		}
		return join(q, f)
	}
	return join()
}
