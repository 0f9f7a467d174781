exec(open(sys.argv[1].rsplit('/', 1)[0] + '/a.py').read().split('BUGS +=')[0])
BUGS = [
 dict(id='C01-keep-entities', prop='C01', edits=[('value.go', "			html = htmlAmp\n", '''			html = htmlAmp
			if bytes.HasPrefix(sb[i:], htmlAmp) {
				continue
			}
''')],
      needs='text that already holds "&amp;"', breaks='the text is written unescaped, so decoding it does not give it back',
      test=H + '''
func TestZZDemo(t *testing.T) { expect(t, render(aitch.Text("a &amp; <b>"), nil, nil), "a &amp;amp; &lt;b&gt;") }
'''),
 dict(id='C02-float32-bits', prop='C02', edits=[('value.go', "float64(vt), 'g', -1, 32", "float64(vt), 'g', -1, 64")],
      needs='a float32 that is no short float64', breaks='the float64 digits are written',
      test=H + '''
func TestZZDemo(t *testing.T) { expect(t, render(aitch.Text(float32(0.1)), nil, nil), "0.1") }
'''),
 dict(id='C02-concat-stops', prop='C02', edits=[('value.go', '''				l++
			}
''', '''				l++
			} else if l > 0 {
				break
			}
''')],
      needs='a concatenated value with an empty value between others', breaks='the values after the empty one are dropped',
      test=H + '''
func TestZZDemo(t *testing.T) { expect(t, render(aitch.Text(aitch.NewConcatValue("a", "", "b")), nil, nil), "ab") }
'''),
 dict(id='C03-parent-lookup', prop='C03', edits=[('value.go', '''			if ctx != nil {
				if dv, ok := ctx.Data[string(vt)]; ok {
					return valueToBytes(dv)
				}
			}
''', '''			for ; ctx != nil; ctx = ctx.Parent {
				if dv, ok := ctx.Data[string(vt)]; ok {
					return valueToBytes(dv)
				}
			}
''')],
      needs='a key that only the data of the outer context has, in an iteration over maps', breaks='the value of the outer context is written',
      test=H + '''
func TestZZDemo(t *testing.T) {
	items := []any{map[string]any{"k": "item"}, map[string]any{}}
	n := aitch.Iterate(func(*context.Context) []any { return items }, aitch.Text(aitch.DynamicValueKey("k"), ";"))
	expect(t, render(n, map[string]any{"k": "outer"}, nil), "item;;")
}
'''),
 dict(id='C03-memo', prop='C03', edits=[('value.go', '''		return []Value{{nil, func(ctx *context.Context) []byte {
			if ctx != nil {
				if dv, ok := ctx.Data[string(vt)]; ok {
					return valueToBytes(dv)
				}
''', '''		var last any
		var lastBytes []byte
		return []Value{{nil, func(ctx *context.Context) []byte {
			if ctx != nil {
				if dv, ok := ctx.Data[string(vt)]; ok {
					if s, ok := dv.(fmt.Stringer); ok {
						if last != dv {
							last = dv
							lastBytes = valueToBytes(s)
						}
						return lastBytes
					}
					return valueToBytes(dv)
				}
''')],
      needs='a Stringer whose text changes between two renders', breaks='the second render writes the text of the first',
      test=H + '''
type zz struct{ s string }

func (z *zz) String() string { return z.s }

func TestZZDemo(t *testing.T) {
	n := aitch.Text(aitch.DynamicValueKey("k"))
	z := &zz{"a"}
	d := map[string]any{"k": z}
	expect(t, render(n, d, nil), "a")
	z.s = "b"
	expect(t, render(n, d, nil), "b")
}
'''),
 dict(id='C04-collector-break', prop='C04', edits=[('collection.go', '''		if n != nil && n.Type() != AttributeNode {
			_ = renderNode(ctx, n)
		}
''', '''		if n == nil || n.Type() == AttributeNode {
			break
		}
		_ = renderNode(ctx, n)
''')],
      needs='a collector that returns a nil or an attribute before other nodes', breaks='the nodes after it are not written',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.ContentCollect(func(*context.Context) []aitch.Node {
		return []aitch.Node{aitch.Text("a"), aitch.Attribute("x", "y"), aitch.Text("b")}
	})
	expect(t, render(n, nil, nil), "ab")
}
'''),
 dict(id='C04-void-track', prop='C04', edits=[('element.go', '	"track":  {},\n', '')],
      needs='an element named track', breaks='it has an end tag',
      test=H + '''
func TestZZDemo(t *testing.T) { expect(t, render(aitch.Element("track"), nil, nil), "<track>") }
'''),
 dict(id='C05-delimiter-differs', prop='C05', edits=[('element.go', '''func (e *element) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
		if idx, ok := e.attIndices[name]; ok {
			existing := e.attributes[idx]
			if delimited, ok := existing.(*delimitedAttribute); ok {
				if addD, ok := att.(*delimitedAttribute); ok {
''', '''func (e *element) addAttributes(attrs []Node) Node {
	for _, att := range attrs {
		name := att.Name()
		if idx, ok := e.attIndices[name]; ok {
			existing := e.attributes[idx]
			if delimited, ok := existing.(*delimitedAttribute); ok {
				if addD, ok := att.(*delimitedAttribute); ok && string(addD.delimiter) == string(delimited.delimiter) {
''')],
      needs='one delimited attribute declared with two delimiters', breaks='the values of the first declaration are dropped',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.DelimitedAttribute("a", ",", 1), aitch.DelimitedAttribute("a", ";", 2))
	expect(t, render(n, nil, nil), "<p a=\\"1,2\\"></p>")
}
'''),
 dict(id='C05-collection-first', prop='C05', edits=[('element.go', '''					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(attrs, addA...)
''', '''					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(addA, attrs...)
''')],
      needs='an attribute declared before and within a collection', breaks='the earlier declaration wins and the order changes',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.Attribute("a", 1), aitch.Attribute("b", 1), aitch.Collection(aitch.Attribute("b", 2)))
	expect(t, render(n, nil, nil), "<p a=\\"1\\" b=\\"2\\"></p>")
}
'''),
 dict(id='C06-conditional-not-last', prop='C06', edits=[('element.go', '''						_ = renderNode(ctx, eAttr[len(eAttr)-1])
''', '''						_ = renderNode(ctx, eAttr[0])
''')],
      needs='two applicable conditional declarations of an attribute the element declares', breaks='the first one wins',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.Attribute("a", 1), aitch.When("k", aitch.Attribute("a", 2)), aitch.When("k", aitch.Attribute("a", 3)))
	expect(t, render(n, map[string]any{"k": true}, nil), "<p a=\\"3\\"></p>")
}
'''),
 dict(id='C06-all-but-last', prop='C06', edits=[('element.go', '''					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
					condAttrs = append(condAttrs, addCa...)
''', '''					if len(conditions) < 2 {
						_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
						condAttrs = append(condAttrs, addCa...)
					}
''')],
      needs='an attribute in a conditional four deep', breaks='it is never applied',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("k", aitch.When("k", aitch.When("k", aitch.When("k", aitch.Attribute("a", 2))))))
	expect(t, render(n, map[string]any{"k": true}, nil), "<p a=\\"2\\"></p>")
}
'''),
 dict(id='C07-stale-delimiter', prop='C07', edits=[('element.go', '''					case *delimitedAttribute:
						use.name = at.name
						use.delimiter = at.delimiter
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for i := 1''', '''					case *delimitedAttribute:
						use.name = at.name
						if len(use.delimiter) == 0 {
							use.delimiter = at.delimiter
						}
						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for i := 1''')],
      needs='two conditional delimited attributes with different delimiters', breaks='the second is written with the delimiter of the first',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("k", aitch.DelimitedAttribute("a", ",", 1, 2), aitch.DelimitedAttribute("b", ";", 1, 2)))
	expect(t, render(n, map[string]any{"k": true}, nil), "<p a=\\"1,2\\" b=\\"1;2\\"></p>")
}
'''),
 dict(id='C08-arrays', prop='C08', edits=[('iterate.go', 'rrv.Kind() == reflect.Slice && rrv.Len() > 0', '(rrv.Kind() == reflect.Slice || rrv.Kind() == reflect.String) && rrv.Len() > 0')],
      needs='key iteration over a string', breaks='it is iterated byte by byte',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.IterateKey("k", aitch.Text("x"))
	expect(t, render(n, map[string]any{"k": "abc"}, nil), "")
}
'''),
 dict(id='C08-yield-parent', prop='C08', edits=[('iterate.go', '''		Parent: ctx,
	}
	i.fn(ctx, func''', '''		Parent: ctx,
	}
	if ctx.Parent != nil {
		ictx.Parent = ctx.Parent
	}
	i.fn(ctx, func''')],
      needs='a yield iteration within an iteration', breaks='its context has the outermost context as parent',
      test=H + '''
func TestZZDemo(t *testing.T) {
	ok := false
	var outer *context.Context
	in := aitch.IterateYield(func(ctx *context.Context, yield func(any)) { outer = ctx; yield(1) }, aitch.Text(aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
		ok = ctx.Parent == outer
		return nil
	})))
	render(aitch.Iterate(func(*context.Context) []any { return []any{1} }, in), nil, nil)
	if !ok {
		t.Fatal("not the outer context")
	}
}
'''),
 dict(id='C09-depth', prop='C09', edits=[('imperative.go', '	if !isVoid {\n', '	if !isVoid && len(ic.openedStack) < 64 {\n')],
      needs='more than 64 open elements', breaks='the elements beyond are never closed',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Imperative(func(ctx aitch.ImperativeContext) error {
		for i := 0; i < 100; i++ {
			ctx.Start([]byte("p"), false)
		}
		ctx.EndAll()
		return nil
	})
	expect(t, render(n, nil, nil), strings.Repeat("<p>", 100)+strings.Repeat("</p>", 100))
}
'''),
 dict(id='C09-endall-keeps', prop='C09', edits=[('imperative.go', '	ic.openedStack = nil\n', '	if len(ic.openedStack) > 1 {\n		ic.openedStack = nil\n	}\n')],
      needs='EndAll with one open element, then End', breaks='the element is ended twice',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Imperative(func(ctx aitch.ImperativeContext) error {
		ctx.Start([]byte("p"), false)
		ctx.EndAll()
		ctx.End()
		return nil
	})
	expect(t, render(n, nil, nil), "<p></p>")
}
'''),
 dict(id='C10-last-error', prop='C10', edits=[('collection.go', '''			if err := renderNode(ctx, n); err != nil {
				return err
			}
''', '''			if err := n.Render(ctx); err != nil {
				ctx.Error = err
				return err
			}
''')],
      needs='a node in a collection that fails to write and returns another error', breaks='the later error replaces the first',
      test=H + '''
type zzw struct{}

func (zzw) Write([]byte) (int, error) { return 0, errors.New("first") }

type zzn struct{}

func (zzn) Render(ctx *context.Context) error { ctx.Write([]byte("x")); return errors.New("second") }
func (zzn) Type() aitch.NodeType                { return aitch.TextNode }
func (zzn) Name() string                        { return "zz" }

func TestZZDemo(t *testing.T) {
	err := aitch.Collection(zzn{}).Render(context.New(zzw{}, nil, nil))
	expect(t, err.Error(), "first")
}
'''),
 dict(id='C11-spare', prop='C11', edits=[('element.go', '''						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for _, e''', '''						use.values = at.values
						for _, e''')],
      needs='several renders of one template at once, with an attribute whose values have spare capacity', breaks='one render writes into the values another one reads',
      test=H + '''
func TestZZDemo(t *testing.T) {
	// five values: the slice that holds them has room for more
	att := aitch.DelimitedAttribute("a", ",", aitch.Fragment("1", "2"), "3")
	var n aitch.Node
	in := func(s string) aitch.Node {
		return aitch.Text(aitch.DynamicValueFunc(func(ctx *context.Context) []byte { return []byte(s) }))
	}
	nested := ""
	n = aitch.Element("p", att,
		aitch.When("x", aitch.DelimitedAttribute("a", ",", aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
			nested = render(n, map[string]any{"y": true}, nil)
			return []byte("x1")
		}), "x2")),
		aitch.When("y", aitch.DelimitedAttribute("a", ",", "y1", "y2")))
	_ = in
	expect(t, render(n, map[string]any{"x": true}, nil), "<p a=\\"1,2,3,x1,x2\\"></p>")
	expect(t, nested, "<p a=\\"1,2,3,y1,y2\\"></p>")
}
'''),
 dict(id='C12-alias', prop='C12', edits=[('value.go', '''		if v != nil {
			result = append(result, newValue(v)...)
''', '''		if v != nil {
			if vs := newValue(v); len(result) > 0 {
				result = append(result, vs...)
			} else {
				result = vs
			}
''')],
      needs='a node with spare capacity in its values that is the first content of two others', breaks='building the second changes the first',
      test=H + '''
func TestZZDemo(t *testing.T) {
	base := aitch.Fragment("1", "2", aitch.Fragment("3"))
	one := aitch.Fragment(base, "a")
	two := aitch.Fragment(base, "b")
	expect(t, render(one, nil, nil), "123a")
	expect(t, render(two, nil, nil), "123b")
}
'''),
 dict(id='C13-sorted-keys', prop='C13', pkg='htmx', edits=[('htmx/attributes.go', '	sort.Strings(keys)\n', '	if len(keys) > 8 {\n		sort.Strings(keys)\n	}\n')],
      needs='a header map with a few keys', breaks='they are written in the order of the map iteration',
      test=H.replace('package aitch_test', 'package htmx_test').replace('"github.com/go-andiamo/aitch"\n', '"github.com/go-andiamo/aitch"\n\t"github.com/go-andiamo/aitch/htmx"\n') + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		expect(t, render(htmx.Headers(map[string]any{"a": 1, "b": 2, "c": 3}), nil, nil), " hx-headers=\"{'a': 1, 'b': 2, 'c': 3}\"")
	}
}
'''),
 dict(id='C14-data-wrong-type', prop='C14', edits=[('context/context.go', '''			if v.Type().Key().Kind() == reflect.String {
''', '''			if v.Type().Key() == reflect.TypeOf(key) {
''')],
      needs='cargo that is a map with a named string type as key', breaks='its keys are not found',
      test=H + '''
type zzk string

func TestZZDemo(t *testing.T) {
	v, ok := context.Get[int](context.New(nil, nil, map[zzk]int{"a": 1}), "a")
	if !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
'''),
 dict(id='C14-pointers', prop='C14', edits=[('context/context.go', '''		if v.Kind() == reflect.Ptr {
''', '''		for v.Kind() == reflect.Ptr {
''')],
      needs='cargo that is a pointer to a pointer', breaks='its fields are found',
      test=H + '''
func TestZZDemo(t *testing.T) {
	p := &struct{ A int }{1}
	v, ok := context.Get[int](context.New(nil, nil, &p), "A")
	if ok || v != 0 {
		t.Fatal(v, ok)
	}
}
'''),
 dict(id='C15-fold', prop='C15', edits=[('aitch.go', '`^[a-zA-Z][a-zA-Z0-9._\\-:]*$`', '`(?i)^[a-z][a-z0-9._\\-:]*$`')],
      needs='a name that holds U+017F or U+212A', breaks='the name is accepted',
      test=H + '''
func TestZZDemo(t *testing.T) {
	if aitch.Element("a\\u017f") != nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id='C15-lines', prop='C15', edits=[('aitch.go', '`^[a-zA-Z][a-zA-Z0-9._\\-:]*$`', '`(?m)^[a-zA-Z][a-zA-Z0-9._\\-:]*$`')],
      needs='a name of several lines, one of which is valid', breaks='the name is accepted, with markup in it',
      test=H + '''
func TestZZDemo(t *testing.T) {
	if aitch.Attribute("a\\n<b>") != nil {
		t.Fatal("accepted")
	}
}
'''),

]
