H = '''package aitch_test

import (
	"bytes"
	"errors"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

var _ = errors.New
var _ = math.MaxInt8
var _ = strings.Repeat
var _ io.Writer

func render(n aitch.Node, data map[string]any, cargo any) string {
	var b bytes.Buffer
	_ = n.Render(context.New(&b, data, cargo))
	return b.String()
}

func expect(t *testing.T, got, want string) {
	t.Helper()
	if got != want {
		t.Fatalf("got  %q\\nwant %q", got, want)
	}
}
'''
BUGS += [
 dict(id='C01-nul-fast-path', prop='C01', edits=[('value.go', '"\'\\"&<>\\000")', '"\'\\"&<>")')],
      needs='text that holds a NUL byte and no other special character', breaks='NUL bytes are written as they are',
      test=H + '''
func TestZZDemo(t *testing.T) { expect(t, render(aitch.Text("a\\x00b"), nil, nil), "ab") }
'''),
 dict(id='C02-uint64-range', prop='C02', edits=[('value.go', 'strconv.FormatUint(vt, 10)', 'strconv.FormatInt(int64(vt), 10)')],
      needs='a uint64 above the largest int64', breaks='such a value is written as a negative number',
      test=H + '''
func TestZZDemo(t *testing.T) {
	expect(t, render(aitch.Text(uint64(math.MaxUint64)), nil, nil), "18446744073709551615")
}
'''),
 dict(id='C06-negated-key-empty', prop='C06', edits=[('conditional.go', '				return false\n', '				return v == ""\n')],
      needs='a negated key condition on a key that is present with an empty string', breaks='the condition holds, and so does the condition it negates',
      test=H + '''
func TestZZDemo(t *testing.T) {
	expect(t, render(aitch.When("!k", aitch.Text("x")), map[string]any{"k": ""}, nil), "")
}
'''),
 dict(id='C08-stale-data', prop='C08', edits=[('iterate.go', '''			if mi, ok := item.(map[string]any); ok {
				ictx.Data = mi
			} else {
				ictx.Data = ctx.Data
			}
			for _, n := range i.nodes {
				if err := renderNode(ictx, n); err != nil {
					ctx.Error = err
					return err''', '''			if mi, ok := item.(map[string]any); ok {
				ictx.Data = mi
			} else if ictx.Data == nil {
				ictx.Data = ctx.Data
			}
			for _, n := range i.nodes {
				if err := renderNode(ictx, n); err != nil {
					ctx.Error = err
					return err''')],
      needs='an item that is no map after one that is', breaks='the item is rendered with the data of the item before it',
      test=H + '''
func TestZZDemo(t *testing.T) {
	items := []any{map[string]any{"k": "item"}, 2}
	n := aitch.Iterate(func(*context.Context) []any { return items }, aitch.Text(aitch.DynamicValueKey("k"), ";"))
	expect(t, render(n, map[string]any{"k": "outer"}, nil), "item;outer;")
}
'''),
 dict(id='C07-something', prop='C07', edits=[('attribute.go', '''		something, _ = v.render(ctx)''', '''		written, _ := v.render(ctx)
		something = something || written''')],
      needs='an empty value between two others, or after one', breaks='two delimiters separate the values next to the empty one',
      test=H + '''
func TestZZDemo(t *testing.T) {
	n := aitch.DelimitedAttribute("class", " ", "a", aitch.DynamicValueKey("missing"), "b")
	expect(t, render(n, nil, nil), ` class="a b"`)
}
'''),
 dict(id='C12-collection-in-place', prop='C12', edits=[('collection.go', None, None)], needs='', breaks='', test=H),
]
BUGS.pop()
