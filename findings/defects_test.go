// Demonstrations of the genuine defects found in go-andiamo/aitch at the pinned
// commit.  Every test fails on the base tree and passes on the repaired one.
// Run:  /verif/findings/run.sh [repo-dir]
package aitch_test

import (
	"bytes"
	"errors"
	"fmt"
	"go/parser"
	"strings"
	"testing"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
)

// failOnce fails exactly one write, then works again
type failOnce struct {
	bytes.Buffer
	n, at int
}

func (f *failOnce) Write(p []byte) (int, error) {
	f.n++
	if f.n == f.at {
		return 0, errors.New("boom")
	}
	return f.Buffer.Write(p)
}

func out(n aitch.Node, data map[string]any) string {
	var b bytes.Buffer
	_ = n.Render(context.New(&b, data, nil))
	return b.String()
}

func yes(*context.Context) bool { return true }
func no(*context.Context) bool  { return false }

// C10: a failed write is forgotten, and later values are still written
func TestErrorForgotten(t *testing.T) {
	n := html.P("one", html.B("two"), "three")
	for at := 1; at < 20; at++ {
		w := &failOnce{at: at}
		ctx := context.New(w, nil, nil)
		err := n.Render(ctx)
		if w.n >= at && err == nil {
			t.Fatalf("write %d failed, Render returned nil; out=%q", at, w.String())
		}
		if w.n > at {
			t.Fatalf("written to after failed write %d: %q", at, w.String())
		}
	}
}

// C10: an imperative node (and a parent element) lose a write error
func TestErrorForgottenImperative(t *testing.T) {
	n := html.P(aitch.Imperative(func(ic aitch.ImperativeContext) error { ic.WriteRaw([]byte("x")); return nil }))
	w := &failOnce{at: 4}
	if err := n.Render(context.New(w, nil, nil)); err == nil {
		t.Fatalf("error lost: %q", w.String())
	}
}

// C10: an error returned by an imperative func is dropped by a collector
func TestImperativeErrorDropped(t *testing.T) {
	n := aitch.ContentCollect(func(*context.Context) []aitch.Node {
		return []aitch.Node{aitch.Imperative(func(aitch.ImperativeContext) error { return errors.New("boom") })}
	})
	if n.Render(context.New(&bytes.Buffer{}, nil, nil)) == nil {
		t.Fatal("error lost")
	}
}

// C13: attribute order changes from render to render
func TestAttributeOrder(t *testing.T) {
	n := html.P(html.Id("i"), html.Title("t"), html.Lang("l"), aitch.Conditional(yes, html.Class("c"), html.Dir("ltr")))
	want := `<p id="i" title="t" lang="l" class="c" dir="ltr"></p>`
	for i := 0; i < 200; i++ {
		if got := out(n, nil); got != want {
			t.Fatalf("%s", got)
		}
	}
}

// C12: building a second element changes an attribute node used by the first
func TestSharedAttributeMutated(t *testing.T) {
	shared := html.Class("a")
	_ = html.P(shared, html.Class("b"))
	if got := out(html.Div(shared), nil); got != `<div class="a"></div>` {
		t.Fatal(got)
	}
}

// C06: sibling nested conditionals overwrite each other's conditions
func TestNestedConditions(t *testing.T) {
	n := html.P(aitch.Conditional(yes, aitch.Conditional(yes, aitch.Conditional(yes,
		aitch.Conditional(yes, html.Id("a")), aitch.Conditional(no, html.Title("b"))))))
	if got := out(n, nil); got != `<p id="a"></p>` {
		t.Fatal(got)
	}
}

// C08: a non-map item sees the previous item's map as Data
func TestYieldStaleData(t *testing.T) {
	n := aitch.IterateYield(func(_ *context.Context, y func(any)) {
		y("plain")
		y(map[string]any{"k": "item"})
		y("plain")
	}, html.B(aitch.DynamicValueKey("k")))
	if got := out(n, map[string]any{"k": "outer"}); got != `<b>outer</b><b>item</b><b>outer</b>` {
		t.Fatal(got)
	}
}

// C20: css units write into the caller's slice
func TestUnitsClobberArgs(t *testing.T) {
	vs := []any{1, 2}
	_ = css.Px(vs[:1]...)
	if vs[1] != 2 {
		t.Fatalf("%v", vs)
	}
}

type named string
type inner struct{ X int }
type outer struct {
	*inner
	secret int
}

// C14: Get panics instead of reporting "not found"
func TestGetPanics(t *testing.T) {
	for i, c := range []struct {
		cargo any
		key   string
	}{{map[named]any{"a": 1}, "a"}, {outer{secret: 1}, "secret"}, {outer{}, "X"}} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("case %d: %v", i, r)
				}
			}()
			context.Get[int](context.New(nil, nil, c.cargo), c.key)
		}()
	}
}

type stringer string

func (s stringer) String() string { return string(s) }

// C01: text produced by a Stringer is not escaped
func TestStringerUnescaped(t *testing.T) {
	if got := out(html.P(html.Title(stringer(`"><script>`)), stringer("<b>")), nil); strings.Contains(got, "<script>") || strings.Contains(got, "<b>") {
		t.Fatal(got)
	}
}

// C21: a nil node (e.g. from an attribute with an invalid name) panics
func TestNilNodes(t *testing.T) {
	for i, f := range []func(){
		func() { aitch.Conditional(yes, nil) },
		func() { aitch.When("x", aitch.Attribute("bad name", 1)) },
		func() { aitch.Iterate(func(*context.Context) []any { return nil }, nil) },
		func() { aitch.IterateKey("x", nil) },
		func() { aitch.IterateYield(func(*context.Context, func(any)) {}, nil) },
	} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("case %d: %v", i, r)
				}
			}()
			f()
		}()
	}
}

// C17: generated code is not valid Go
func TestGenerateCode(t *testing.T) {
	for _, in := range []string{`<br>`, `<p>a<br>b</p>`, `</p>`, `<div><p>`, `<a"b>`, `<p a"b="c">`, "<p>\x00</p>", "<p>\xff</p>", "<p>&#65279;</p>"} {
		var b bytes.Buffer
		err := html.GenerateCode(strings.NewReader(in), &b)
		src := strings.TrimSuffix(strings.TrimSpace(strings.TrimPrefix(b.String(), "var template = ")), ",")
		if _, perr := parser.ParseExpr(src); err != nil || perr != nil {
			t.Errorf("%q: %v %v\n%s", in, err, perr, b.String())
		}
	}
}

// C17: a failed write is not reported
func TestGenerateCodeError(t *testing.T) {
	for at := 1; at < 30; at++ {
		w := &failOnce{at: at}
		err := html.GenerateCode(strings.NewReader(`<p id="a" x="y">t</p>`), w)
		if w.n >= at && err == nil {
			t.Fatalf("write %d failed, no error", at)
		}
	}
}

// C21: a nil func() any panics
func TestNilFuncAny(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Error(r)
		}
	}()
	var f func() any
	if got := out(html.P(f, "x"), nil); got != "<p>x</p>" {
		t.Fatal(got)
	}
}

// C07: an imperative start tag writes a delimiter after an empty value
func TestStartDelimiters(t *testing.T) {
	n := aitch.Imperative(func(ic aitch.ImperativeContext) error {
		ic.Start([]byte("p"), false, html.Class(aitch.DynamicValueKey("missing"), "foo"), html.Class("bar"))
		ic.EndAll()
		return nil
	})
	if got := out(n, nil); got != `<p class="foo bar"></p>` {
		t.Fatal(got)
	}
}

var _ = fmt.Sprint
