exec(open(sys.argv[1].rsplit('/', 1)[0] + '/a.py').read().split('BUGS +=')[0])


def HP(p):
    return H.replace('package aitch_test', 'package %s_test' % p).replace('"github.com/go-andiamo/aitch"\n', '"github.com/go-andiamo/aitch"\n\t"github.com/go-andiamo/aitch/%s"\n' % p)


BUGS = [
 dict(id='C02-nbsps', prop='C02', edits=[('text.go', '''	for i := 0; i < n; i++ {
		copy(''', '''	for i := 0; i < n && idx < 4096; i++ {
		copy(''')],
      needs='more than a few hundred non-breaking spaces', breaks='NUL bytes take the place of the others',
      test=H + '''
func TestZZDemo(t *testing.T) { expect(t, string(aitch.Nbsps(1000)), strings.Repeat("&nbsp;", 1000)) }
'''),
 dict(id='C01-css-fast-path', prop='C01', edits=[('css/properties.go', '''func styleAttribute(name []byte, value ...any) aitch.Node {
''', '''func styleAttribute(name []byte, value ...any) aitch.Node {
	if len(value) == 1 {
		if s, ok := value[0].(string); ok {
			return aitch.NewDelimitedAttribute(attrStyle, stylesDelim, append(append([]byte{}, name...), s...))
		}
	}
''')], pkg='css',
      needs='a css property whose value is one string with markup characters', breaks='the string is written unescaped',
      test=HP('css') + '''
func TestZZDemo(t *testing.T) {
	expect(t, render(css.Width("\\"><script>"), nil, nil), " style=\\"width:&quot;&gt;&lt;script&gt;\\"")
}
'''),
 dict(id='C04-document-head', prop='C04', edits=[('html/document.go', '''	if len(head) > 0 {
		headNode = Head(head...)
	}
''', '''	if len(head) > 0 {
		headNode = Head(head...)
		if l := len(body); l > 0 {
			if n, ok := body[l-1].(aitch.Node); ok && n != nil && n.Name() == "script" {
				headNode = Head(append(head[:len(head):len(head)], n)...)
			}
		}
	}
''')], pkg='html',
      needs='a body whose last node is a script', breaks='the script is written in the head as well',
      test=HP('html') + '''
func TestZZDemo(t *testing.T) {
	expect(t, render(html.Document(nil, []any{"h"}, []any{html.Script("x")}), nil, nil), "<!DOCTYPE html>\\n<html><head>h</head><body><script>x</script></body></html>")
}
'''),
 dict(id='C06-nested-collection', prop='C06', edits=[('element.go', '''					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(attrs, addA...)
					condAttrs = append(condAttrs, addCa...)
''', '''					addA, addCa, _ := attributesAndContents(conditions, cn.nodes)
					attrs = append(attrs, addA...)
					if len(conditions) == 0 || len(addCa) > 0 && len(condAttrs) == 0 {
						condAttrs = append(condAttrs, addCa...)
					}
''')],
      needs='two collections of attributes in a conditional', breaks='the attributes of the second are dropped',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.When("k", aitch.Collection(aitch.Attribute("a", 1)), aitch.Collection(aitch.Attribute("b", 2))))
	expect(t, render(n, map[string]any{"k": true}, nil), "<p a=\\"1\\" b=\\"2\\"></p>")
}
'''),
 dict(id='C07-concat-last', prop='C07', edits=[('value.go', '''			if written, ctx.Error = concat.render(ctx); written {
				l++
			}
		}
''', '''			if written, ctx.Error = concat.render(ctx); written {
				l++
			} else {
				l = 0
			}
		}
''')],
      needs='a concatenated value that ends with an empty part, followed by another value', breaks='no delimiter separates them',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.DelimitedAttribute("a", ",", aitch.NewConcatValue("1", ""), 2)
	expect(t, render(n, nil, nil), " a=\\"1,2\\"")
}
'''),
 dict(id='C10-yield-error', prop='C10', edits=[('iterate.go', '''			if err := renderNode(ictx, n); err != nil {
				ctx.Error = err
				return
			}
		}
	})
	return ctx.Error
''', '''			if err := renderNode(ictx, n); err != nil {
				return
			}
		}
	})
	if ictx.Error != nil && ctx.Error == nil {
		ctx.Error = ictx.Error
	}
	return ctx.Error
''')],
      needs='a function that yields and writes to the outer context, with a node that fails between', breaks='the function writes on after the error',
      test=H + '''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	n := aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
		yield(1)
		ctx.Write([]byte("after"))
	}, aitch.Imperative(func(aitch.ImperativeContext) error { return errors.New("x") }))
	if err := n.Render(context.New(&b, nil, nil)); err == nil {
		t.Fatal("no error")
	}
	expect(t, b.String(), "")
}
'''),
 dict(id='C11-spare', prop='C11', edits=[('element.go', '''						use.values = use.values[:0]
						use.values = append(use.values, at.values...)
						for _, e''', '''						use.values = at.values
						for _, e''')],
      needs='two renders of one template that overlap, with an attribute whose values have spare capacity', breaks='one render overwrites the values another one is about to write',
      test=H + '''
func TestZZDemo(t *testing.T) {
	var n aitch.Node
	nested := ""
	first := aitch.DynamicValueFunc(func(ctx *context.Context) []byte {
		if ctx.Data["x"] != nil {
			nested = render(n, map[string]any{"y": true}, nil)
		}
		return []byte("1")
	})
	n = aitch.Element("p", aitch.DelimitedAttribute("a", ",", aitch.Fragment(first, "2"), aitch.Fragment("3")),
		aitch.When("x", aitch.DelimitedAttribute("a", ",", "x1")),
		aitch.When("y", aitch.DelimitedAttribute("a", ",", "y1")))
	expect(t, render(n, map[string]any{"x": true}, nil), "<p a=\\"1,2,3,x1\\"></p>")
	expect(t, nested, "<p a=\\"1,2,3,y1\\"></p>")
}
'''),
 dict(id='C11-lazy-name', prop='C11', edits=[('iterate.go', '''	if items := i.fn(ctx); len(items) > 0 {
''', '''	if items := i.fn(ctx); len(items) > 0 {
		if len(items) > 1 {
			if _, ok := items[0].(map[string]any); !ok {
				if _, ok := items[len(items)-1].(map[string]any); ok {
					items[0], items[len(items)-1] = items[len(items)-1], items[0]
					defer func() { items[0], items[len(items)-1] = items[len(items)-1], items[0] }()
				}
			}
		}
''')],
      needs='items of which only the last is a map', breaks='the slice of the items is changed while it is rendered, and they are written in another order',
      test=H + '''
func TestZZDemo(t *testing.T) {
	items := []any{1, map[string]any{"k": "m"}}
	n := aitch.Iterate(func(*context.Context) []any { return items }, aitch.Text(aitch.DynamicValueKey("k"), ";"))
	expect(t, render(n, map[string]any{"k": "o"}, nil), "o;m;")
}
'''),


 dict(id='C12-merge-in-place', prop='C12', pkg='htmx', edits=[('htmx/attributes.go', '''		mergedHeadersMap = make(HeadersMap)
		for _, hm := range value {
			for k''', '''		for _, hm := range value {
			if mergedHeadersMap == nil {
				mergedHeadersMap = hm
				continue
			}
			for k''')],
      needs='a header map given together with another one and then alone', breaks='the first map is changed by merging the second into it',
      test=HP('htmx') + '''
func TestZZDemo(t *testing.T) {
	m := htmx.HeadersMap{"a": 1}
	htmx.HeadersJS(m, htmx.HeadersMap{"b": 2})
	expect(t, render(htmx.HeadersJS(m), nil, nil), " hx-headers=\\"js:{'a': 1}\\"")
}
'''),
 dict(id='C13-fold-sort', prop='C13', pkg='htmx', edits=[('htmx/attributes.go', '	sort.Strings(keys)\n', '''	sort.Slice(keys, func(i, j int) bool {
		return strings.ToLower(keys[i]) < strings.ToLower(keys[j])
	})
''')],
      needs='header keys that differ only in case', breaks='their order is that of the map iteration',
      test=HP('htmx') + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		expect(t, render(htmx.Headers(htmx.HeadersMap{"A": 1, "a": 2}), nil, nil), " hx-headers=\\"{'A': 1, 'a': 2}\\"")
	}
}
'''),
 dict(id='C13-moved', prop='C13', edits=[('element.go', '''			e.attributes[idx] = att
		} else {
			e.attIndices[name] = len(e.attributes)
			e.attributes = append(e.attributes, att)
		}
	}
	return e
}

// Element declares''', '''			e.attributes = append(append(e.attributes[:idx:idx], e.attributes[idx+1:]...), att)
			for n, i := range e.attIndices {
				if i > idx {
					e.attIndices[n] = i - 1
				}
			}
			e.attIndices[name] = len(e.attributes) - 1
		} else {
			e.attIndices[name] = len(e.attributes)
			e.attributes = append(e.attributes, att)
		}
	}
	return e
}

// Element declares''')],
      needs='an attribute declared again after another one', breaks='it is written at the place of its last declaration',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Element("p", aitch.Attribute("a", 1), aitch.Attribute("b", 1), aitch.Attribute("a", 2))
	expect(t, render(n, nil, nil), "<p a=\\"2\\" b=\\"1\\"></p>")
}
'''),
 dict(id='C14-precedence', prop='C14', edits=[('context/context.go', '''			if typed, ok := val.(T); ok {
				return typed, true
			}
		}
	}
	if ctx.Cargo''', '''			typed, ok := val.(T)
			return typed, ok
		}
	}
	if ctx.Cargo''')],
      needs='a key in the data with another type and in the cargo with the type asked for', breaks='the cargo is not looked at',
      test=H + '''
func TestZZDemo(t *testing.T) {
	v, ok := context.Get[int](context.New(nil, map[string]any{"a": "x"}, map[string]any{"a": 1}), "a")
	if !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
'''),
 dict(id='C16-iframe', prop='C16', pkg='html', edits=[('html/elements.go', '''	return aitch.NewElement(tagIframe, contents...)
''', '''	if len(contents) == 0 {
		return aitch.NewVoidElement(tagIframe)
	}
	return aitch.NewElement(tagIframe, contents...)
''')],
      needs='an iframe without contents', breaks='it is a void element, without an end tag',
      test=HP('html') + '''
func TestZZDemo(t *testing.T) { expect(t, render(html.IFrame(), nil, nil), "<iframe></iframe>") }
'''),
 dict(id='C16-points', prop='C16', pkg='svg', edits=[('svg/attributes.go', 'return aitch.NewAttribute(attrPoints, value...)', 'return aitch.NewAttribute(attrPoints, value[:min(1, len(value))]...)')],
      needs='several values for the points attribute', breaks='only the first one is written',
      test=HP('svg') + '''
func TestZZDemo(t *testing.T) { expect(t, render(svg.Points("1,1", " ", "2,2"), nil, nil), " points=\\"1,1 2,2\\"") }
'''),
 dict(id='C17-trim', prop='C17', pkg='html', edits=[('html/generator.go', 'write(`html.Text("` + escape(token.Data) + `"),`)', 'write(`html.Text("` + escape(strings.TrimRight(token.Data, "\\n")) + `"),`)')],
      needs='text that ends with a line break', breaks='the line break is dropped',
      test=HP('html') + '''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	_ = html.GenerateCode(strings.NewReader("<pre>a\\n</pre>"), &b)
	if !strings.Contains(b.String(), "Text(\\"a\\\\n\\")") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='C17-empty-value', prop='C17', pkg='svg', edits=[('svg/generator.go', '''				_, err = w.Write([]byte{'(', '"'})
				_, err = w.Write([]byte(escape(a.Val)))
''', '''				_, err = w.Write([]byte{'(', '"'})
				_, err = w.Write([]byte(escape(strings.ToLower(a.Val[:min(1, len(a.Val))])+a.Val[min(1, len(a.Val)):])))
''')],
      needs='a value that starts with a capital', breaks='the literal denotes another value',
      test=HP('svg') + '''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	_ = svg.GenerateCode(strings.NewReader("<path d=\\"M1\\"/>"), &b)
	if !strings.Contains(b.String(), "\\"M1\\"") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='C18-eof', prop='C18', edits=[('template.go', '''		return func(ctx *context.Context) (template.HTML, error) {
			err := node.Render(ctx)
			return "", err
''', '''		return func(ctx *context.Context) (template.HTML, error) {
			err := node.Render(ctx)
			if err == io.EOF {
				err = nil
			}
			return "", err
''')],
      needs='a node that reports io.EOF', breaks='the execution reports no error',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.Imperative(func(aitch.ImperativeContext) error { return io.EOF })
	if aitch.MustNewTemplate("x", "{{a .}}", aitch.NodeMap{"a": n}).Execute(io.Discard, nil, nil) == nil {
		t.Fatal("no error")
	}
}
'''),
 dict(id='C18-once', prop='C18', edits=[('template.go', '''		if v != nil {
			result[k] = contextFunc(v)
''', '''		if v != nil && (v.Type() != AttributeNode || v.Name() != k) {
			result[k] = contextFunc(v)
		} else if v != nil {
			result[k] = contextFunc(Collection(v))
''')],
      needs='an attribute registered under its own name', breaks='its marker renders nothing',
      test=H + '''
func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	_ = aitch.MustNewTemplate("x", "<p {{id .}}></p>", aitch.NodeMap{"id": aitch.Attribute("id", 1)}).Execute(&b, nil, nil)
	if !strings.Contains(b.String(), "id=\\"1\\"") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id='C19-first-quote', prop='C19', pkg='htmx', edits=[('htmx/attributes.go', 'strings.ReplaceAll(key, `"`, `&quot;`)', 'strings.Replace(key, `"`, `&quot;`, 1)')],
      needs='a header key with two quotes', breaks='the second one ends the attribute value',
      test=HP('htmx') + '''
func TestZZDemo(t *testing.T) {
	expect(t, render(htmx.Headers(htmx.HeadersMap{"\\"a\\"": 1}), nil, nil), " hx-headers=\\"{'&quot;a&quot;': 1}\\"")
}
'''),
 dict(id='C19-order', prop='C19', pkg='htmx', edits=[('htmx/attributes.go', '''			foundOthers = true
			if foundHeadersMap {
				break
			}
''', '''			foundOthers = v != nil || foundOthers
			if foundOthers && foundHeadersMap {
				break
			}
''')],
      needs='header maps mixed with a nil value', breaks='it does not panic',
      test=HP('htmx') + '''
func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("no panic")
		}
	}()
	htmx.Headers(htmx.HeadersMap{"a": 1}, nil)
}
'''),
 dict(id='C20-dedupe', prop='C20', pkg='css', edits=[('css/properties.go', '''func styleAttribute(name []byte, value ...any) aitch.Node {
''', '''func styleAttribute(name []byte, value ...any) aitch.Node {
	if len(value) == 2 && value[0] == "" {
		return aitch.NewDelimitedAttribute(attrStyle, stylesDelim, name, value[1])
	}
''')],
      needs='a css property with an empty and another value', breaks='the name and the value are separated by the delimiter of the declarations',
      test=HP('css') + '''
func TestZZDemo(t *testing.T) { expect(t, render(css.Width("", 1), nil, nil), " style=\\"width:1\\"") }
'''),
 dict(id='C21-nil-items', prop='C21', edits=[('iterate.go', '						r[i] = rrv.Index(i).Interface()\n', '''						iv := rrv.Index(i)
						if iv.Kind() == reflect.Interface {
							iv = iv.Elem()
						}
						r[i] = iv.Interface()
''')],
      needs='a typed slice of interfaces with a nil item', breaks='iteration panics',
      test=H + '''
func TestZZDemo(t *testing.T) {
	expect(t, render(aitch.IterateKey("k", aitch.Text("x")), map[string]any{"k": []error{nil}}, nil), "x")
}
'''),
]
