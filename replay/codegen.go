package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"strconv"
	"strings"

	aitchhtml "github.com/go-andiamo/aitch/html"
	aitchsvg "github.com/go-andiamo/aitch/svg"
	"golang.org/x/net/html"
)

//go:embed known.json
var knownJSON []byte

// names the generators know, by package
var known = func() map[string]map[string]map[string]bool {
	var raw map[string]map[string][]string
	if err := json.Unmarshal(knownJSON, &raw); err != nil {
		panic(err)
	}
	res := map[string]map[string]map[string]bool{}
	for p, m := range raw {
		res[p] = map[string]map[string]bool{}
		for k, l := range m {
			res[p][k] = map[string]bool{}
			for _, n := range l {
				res[p][k][n] = true
			}
		}
	}
	return res
}()

var isVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true,
	"link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

// what the code is to say: a tree of calls
type call struct {
	kind string // element, attribute, text, comment, doctype, all
	name string
	val  string
	sub  []*call
}

var wordsByFn = func() map[string]word {
	m := map[string]word{}
	for _, w := range words {
		m[w.fn] = w
	}
	return m
}()

func expectCode(pkg string, in []byte) *call {
	z := html.NewTokenizer(bytes.NewReader(in))
	root := &call{kind: "all"}
	stack := []*call{root}
	add := func(c *call) { t := stack[len(stack)-1]; t.sub = append(t.sub, c) }
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return root
		}
		t := z.Token()
		switch tt {
		case html.TextToken:
			if strings.Trim(t.Data, " \n\t") != "" {
				add(&call{kind: "text", val: t.Data})
			}
		case html.CommentToken:
			add(&call{kind: "comment", val: t.Data})
		case html.DoctypeToken:
			if pkg == "html" {
				add(&call{kind: "doctype", val: t.Data})
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			e := &call{kind: "element", name: t.Data}
			for _, a := range t.Attr {
				e.sub = append(e.sub, &call{kind: "attribute", name: a.Key, val: a.Val})
			}
			add(e)
			if tt == html.StartTagToken && !(pkg == "html" && isVoid[strings.ToLower(t.Data)]) {
				stack = append(stack, e)
			}
		case html.EndTagToken:
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		}
	}
}

func callee(e ast.Expr) string {
	if s, ok := e.(*ast.SelectorExpr); ok {
		if x, ok := s.X.(*ast.Ident); ok {
			return x.Name + "." + s.Sel.Name
		}
	}
	return "?"
}

func literal(e ast.Expr) (string, bool) {
	if l, ok := e.(*ast.BasicLit); ok && l.Kind == token.STRING {
		s, err := strconv.Unquote(l.Value)
		return s, err == nil
	}
	return "", false
}

// does the expression say what is wanted?
func matches(pkg string, e ast.Expr, w *call) error {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return fmt.Errorf("%s %q %q is no call", w.kind, w.name, w.val)
	}
	fn := callee(c.Fun)
	args := c.Args
	lits := func(want ...string) error {
		for i, s := range want {
			if i >= len(args) {
				return fmt.Errorf("%s: no argument for %q", fn, s)
			}
			if got, ok := literal(args[i]); !ok || got != s {
				return fmt.Errorf("%s: argument %d is %q instead of %q", fn, i, got, s)
			}
		}
		args = args[len(want):]
		return nil
	}
	is := func(s string) error {
		if fn != s {
			return fmt.Errorf("%s instead of %s for %s %q", fn, s, w.kind, w.val)
		}
		return nil
	}
	var err error
	low := strings.ToLower(w.name)
	word, isWord := wordsByFn[fn]
	isWord = isWord && strings.HasPrefix(fn, pkg+".")
	prefixed := (fn == "html.Aria" && low == "aria-") || (fn == "html.Data" && low == "data-")
	switch w.kind {
	case "all":
		err = is("aitch.Collection")
	case "text":
		if err = is(pkg + ".Text"); err == nil {
			err = lits(w.val)
		}
	case "comment":
		if err = is(pkg + ".Comment"); err == nil {
			err = lits(w.val)
		}
	case "doctype":
		if err = is("html.PI"); err == nil {
			err = lits("DOCTYPE", w.val)
		}
	case "element":
		if fn == "aitch.Element" && !known[pkg]["elements"][low] {
			err = lits(w.name)
		} else if !isWord || word.name != low || (word.kind != "element" && word.kind != "void") {
			err = fmt.Errorf("element %q as %s", w.name, fn)
		}
	case "attribute":
		if fn == "aitch.Attribute" && !known[pkg]["attributes"][low] {
			err = lits(w.name, w.val)
		} else if prefixed {
			err = lits(w.val)
		} else if !isWord || strings.TrimSuffix(word.name, ":") != low || word.kind == "element" || word.kind == "void" {
			err = fmt.Errorf("attribute %q as %s", w.name, fn)
		} else if word.kind != "boolean" {
			err = lits(w.val)
		}
	}
	if err != nil {
		return err
	}
	if len(args) != len(w.sub) {
		return fmt.Errorf("%s %q: %d parts instead of %d", w.kind, w.name, len(args), len(w.sub))
	}
	for i, s := range w.sub {
		if err = matches(pkg, args[i], s); err != nil {
			return err
		}
	}
	return nil
}

func randMarkup(r *rand.Rand, pkg string) []byte {
	var b bytes.Buffer
	pick := func(ss ...string) string { return ss[r.Intn(len(ss))] }
	odd := func() string {
		return pick("a", "b c", "\\", "\"", "'", "`", "\n", "\t", "\x00", "\xff\xfe", "é", "\u2028", "&amp;", "&lt;b&gt;", "&#0;", "&nope", "%d", "(", "),", "\\n", " ", "\r\n", "\u00a0", "😀", "\x7f", "\ufeff")
	}
	var names, keys []string
	for _, w := range words {
		if strings.HasPrefix(w.fn, pkg+".") {
			if w.kind == "element" || w.kind == "void" {
				names = append(names, w.name)
			} else {
				keys = append(keys, strings.TrimSuffix(w.name, ":"))
			}
		}
	}
	flip := func(s string) string {
		switch r.Intn(6) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToUpper(s[:1]) + s[1:]
		}
		return s
	}
	name := func() string {
		switch r.Intn(8) {
		case 0:
			return pick("x-y", "foo", "a\"b", "q\\z", "n\x00m", "br", "img", "p", "li", "É", "K\u212a", "input", "param", "keygen")
		case 1:
			return pick("script", "style", "textarea", "title", "plaintext", "svg", "math", "br", "hr", "link", "meta")
		}
		return flip(names[r.Intn(len(names))])
	}
	attr := func() {
		k := flip(keys[r.Intn(len(keys))])
		if r.Intn(4) == 0 {
			k = pick("data-x", "aria-label", "data-", "aria-", "on\"x", "a\\b", "x", "@click", ":v", "K\u212a", "checked", "DISABLED")
		}
		b.WriteString(" " + k)
		v := ""
		for i := r.Intn(3); i > 0; i-- {
			v += odd()
		}
		switch r.Intn(5) {
		case 0:
		case 1:
			b.WriteString("='" + strings.ReplaceAll(v, "'", "") + "'")
		case 2:
			b.WriteString("=" + strings.NewReplacer(" ", "", "\n", "", "\t", "", "\r", "", ">", "").Replace(v))
		default:
			b.WriteString("=\"" + strings.ReplaceAll(v, "\"", "") + "\"")
		}
	}
	for i := r.Intn(14); i > 0; i-- {
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			b.WriteString("<" + name())
			for j := r.Intn(4); j > 0; j-- {
				attr()
			}
			b.WriteString(pick(">", ">", ">", "/>", " />", " / >"))
		case 4, 5, 6:
			b.WriteString("</" + name() + pick(">", " >", " x='1'>"))
		case 7, 8:
			for j := 1 + r.Intn(3); j > 0; j-- {
				b.WriteString(odd())
			}
		case 9:
			b.WriteString(pick(" ", "\n", "\t \n", "\r", "\f", "\v"))
		case 10:
			b.WriteString("<!--" + odd() + odd() + pick("-->", "--!>", ""))
		default:
			b.WriteString(pick("<!DOCTYPE html>", "<!doctype svg PUBLIC \"a\\b\">", "<![CDATA[x]]>", "<?xml version=\"1.0\"?>", "<", "</", "</>", "<!", "&"))
		}
	}
	return b.Bytes()
}

// slowReader gives the input in pieces and ends with an error
type slowReader struct {
	b    []byte
	step int
	err  error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := min(len(p), len(s.b), s.step)
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

var errRead = errors.New("read failed")

func codeSuite(r *rand.Rand, st *stats) *failure {
	pkg, gen := "html", aitchhtml.GenerateCode
	if r.Intn(2) == 0 {
		pkg, gen = "svg", aitchsvg.GenerateCode
	}
	in := randMarkup(r, pkg)
	if r.Intn(400) == 0 {
		in = bytes.Repeat([]byte("<div>"), 200)
	}
	desc := fmt.Sprintf("%s.GenerateCode of %q", pkg, in)
	run := func(rd io.Reader, w io.Writer) (err error, bad string) {
		defer func() {
			if p := recover(); p != nil {
				bad = fmt.Sprint("panic: ", p)
			}
		}()
		return gen(rd, w), ""
	}
	var buf bytes.Buffer
	err, bad := run(&slowReader{in, 1 + r.Intn(200), io.EOF}, &buf)
	out := buf.String()
	if bad != "" || err != nil {
		return &failure{fmt.Sprint("no code is written: ", err, bad), desc, "", out}
	}
	f, perr := parser.ParseFile(token.NewFileSet(), "x.go", "package p\n"+out, parser.SkipObjectResolution)
	if perr != nil {
		return &failure{"the code does not parse: " + perr.Error(), desc, "a Go declaration", out}
	}
	want := expectCode(pkg, in)
	var val ast.Expr
	if len(f.Decls) == 1 {
		if d, ok := f.Decls[0].(*ast.GenDecl); ok && len(d.Specs) == 1 {
			if v, ok := d.Specs[0].(*ast.ValueSpec); ok && len(v.Names) == 1 && v.Names[0].Name == "template" && len(v.Values) == 1 {
				val = v.Values[0]
			}
		}
	}
	if val == nil {
		return &failure{"the code declares something else", desc, "var template", out}
	}
	if e := matches(pkg, val, want); e != nil {
		return &failure{"the code says something else: " + e.Error(), desc, "", out}
	}
	st.add(desc, out)
	if r.Intn(3) == 0 {
		w := &failWriter{at: r.Intn(len(out)), once: r.Intn(2) == 0, parti: r.Intn(3) == 0}
		err, bad = run(bytes.NewReader(in), w)
		d := desc + fmt.Sprintf("\n   with a writer that fails after %d bytes", w.at)
		if bad != "" || err != errWrite {
			return &failure{fmt.Sprint("the failed write is not reported: ", err, bad), d, errWrite.Error(), w.b.String()}
		}
		if len(w.after) > 0 || !strings.HasPrefix(out, w.b.String()) {
			return &failure{"writing went on after the failed write", d, "", string(w.after)}
		}
	}
	if r.Intn(4) == 0 {
		var b2 bytes.Buffer
		k := r.Intn(len(in) + 1)
		err, bad = run(&slowReader{in[:k], 1 + r.Intn(50), errRead}, &b2)
		if bad != "" || err != errRead {
			return &failure{fmt.Sprint("the failed read is not reported: ", err, bad), fmt.Sprintf("%s\n   with a reader that fails after %d bytes", desc, k), errRead.Error(), b2.String()}
		}
	}
	return nil
}

func init() {
	suites["C17"] = []suite{codeSuite}
}
