package main

import (
	"bytes"
	stdcontext "context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"sync"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// failure describes a concrete input on which the real code differs from the reference
type failure struct {
	what string
	in   string
	want string
	got  string
}

func (f *failure) Error() string { return f.what }

var errWrite0 = errors.New("write failed")
var errWrite = errWrite0

// failWriter fails one write and remembers what it is given afterwards
type failWriter struct {
	b     bytes.Buffer
	at    int // fails when more than this many bytes would have been written
	once  bool
	n     int // writes of at least one byte
	fails int
	after []byte
	parti bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.fails > 0 {
		w.after = append(w.after, p...)
		if w.once {
			return len(p), nil
		}
		return 0, errWrite
	}
	if w.b.Len()+len(p) > w.at && len(p) > 0 {
		w.fails++
		if w.parti {
			return len(p) / 2, errWrite
		}
		return 0, errWrite
	}
	w.n++
	return w.b.Write(p)
}

func realCtx(e *Env, w *bytes.Buffer) *context.Context {
	c := context.New(w, e.data, e.cargo)
	if e.parent != nil {
		c.Parent = realCtx(e.parent, w)
	}
	return c
}

func envString(e *Env) string {
	s := fmt.Sprintf("data=%#v cargo=%#v", e.data, e.cargo)
	if e.parent != nil {
		s += " parent{" + envString(e.parent) + "}"
	}
	return s
}

type outcome struct {
	out string
	err error
}

func renderReal(n aitch.Node, e *Env) (o outcome, f string) {
	if e.set != nil {
		e.set()
	}
	var b bytes.Buffer
	c := realCtx(e, &b)
	data, cargo, par, wr := c.Data, c.Cargo, c.Parent, c.Writer
	dl := len(data)
	defer func() {
		if r := recover(); r != nil {
			o.out, f = b.String(), fmt.Sprint("panic while rendering: ", r)
		}
	}()
	err := n.Render(c)
	o = outcome{b.String(), err}
	if c.Error != err {
		f = fmt.Sprintf("Render returned %v but the context keeps %v", err, c.Error)
	}
	if len(c.Data) != dl || (data == nil) != (c.Data == nil) || !sameAny(c.Cargo, cargo) || c.Parent != par || c.Writer != wr {
		f = "rendering changed the context"
	}
	return
}

func renderRef(n *Node, e *Env) outcome {
	if e.set != nil {
		e.set()
	}
	s := &Sink{}
	n.render(e, s)
	return outcome{string(s.b), s.err}
}

func describe(n *Node, e *Env) string {
	return n.String() + "\n   rendered with " + envString(e) + errString()
}

func errString() string {
	s := ""
	for i, e := range []error{errNode, errImp, errFn, errWrite} {
		if e != []error{errNode0, errImp0, errFn0, errWrite0}[i] {
			s += fmt.Sprintf("\n   the error of %s is %#v", []string{"nodes", "imperative functions", "iteration functions", "writers"}[i], e)
		}
	}
	return s
}

func buildNode(b *builder, n *Node) (x aitch.Node, f string) {
	defer func() {
		if r := recover(); r != nil {
			f = fmt.Sprint("panic while building: ", r)
		}
	}()
	return b.node(n), ""
}

// trial is one random template, rendered several times
type features struct {
	faults     bool // failing writers
	repeat     int  // renders with several contexts, several builds
	concurrent bool
	counts     bool
	altered    bool // watch what was passed
}

func trial(r *rand.Rand, p *profile, ft features, st *stats) *failure {
	g := &gen{r: r, p: p}
	depth := 1 + r.Intn(p.depth)
	var n *Node
	if g.chance(p.words) {
		n = g.word(depth)
	} else if len(p.top) > 0 {
		n = g.nodeOf(p.top[r.Intn(len(p.top))], depth)
	} else {
		n = g.nodeOf(g.kindOf(), depth)
	}
	if n.K == kExt || n.K == kExtAttr {
		n = &Node{K: kCollection, Kids: []*Node{n}}
	}
	if r.Intn(40) == 0 {
		n = g.deep(n)
	}
	return tryNode(g, n, ft, st)
}

// pickErrors chooses the errors of nodes, functions and writers: no error is special
func pickErrors(r *rand.Rand) {
	errNode, errImp, errFn, errWrite = errNode0, errImp0, errFn0, errWrite0
	if r.Intn(3) == 0 {
		e := []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, fs.ErrNotExist, stdcontext.Canceled, stdcontext.DeadlineExceeded, errText("")}[r.Intn(8)]
		*[]*error{&errNode, &errImp, &errFn, &errWrite}[r.Intn(4)] = e
	}
}

type errText string

func (e errText) Error() string { return string(e) }

func tryNode(g *gen, n *Node, ft features, st *stats) *failure {
	r := g.r
	pickErrors(r)
	envs := []*Env{g.env(), g.env()}
	if ft.counts {
		g.shareValues(envs)
	}
	b := newBuilder(r.Intn(2) == 0)
	x, f := buildNode(b, n)
	if f != "" {
		return &failure{f, describe(n, envs[0]), "", ""}
	}
	if x == nil {
		return nil
	}
	var wants []outcome
	for _, e := range envs {
		w := renderRef(n, e)
		if len(w.out) > 200000 {
			return nil
		}
		wants = append(wants, w)
	}
	st.add(n.String(), wants[0].out)
	rounds := 2
	if ft.repeat > 0 {
		rounds = ft.repeat
	}
	for i := 0; i < rounds; i++ {
		e, want := envs[i%2], wants[i%2]
		for k := range refCounts {
			delete(refCounts, k)
		}
		if ft.counts {
			renderRef(n, e)
			for _, c := range b.counts {
				*c = 0
			}
		}
		got, bad := renderReal(x, e)
		if bad != "" {
			return &failure{bad, describe(n, e), want.out, got.out}
		}
		if got.out != want.out {
			return &failure{fmt.Sprintf("wrong output (render %d)", i+1), describe(n, e), want.out, got.out}
		}
		if got.err != want.err {
			return &failure{fmt.Sprintf("wrong error: %v instead of %v", got.err, want.err), describe(n, e), want.out, got.out}
		}
		if ft.counts && want.err == nil {
			for v, c := range b.counts {
				if *c != refCounts[v] {
					return &failure{fmt.Sprintf("dynamic function called %d times instead of %d", *c, refCounts[v]), describe(n, e), want.out, got.out}
				}
			}
		}
	}
	if s := b.altered(); s != "" {
		return &failure{s, describe(n, envs[0]), "", ""}
	}
	if ft.counts && envs[0].parent == nil && envs[1].parent == nil {
		// one context, with other data each time
		var buf bytes.Buffer
		c := context.New(&buf, nil, nil)
		for i := 0; i < 4 && c.Error == nil; i++ {
			e := envs[i%2]
			if e.set != nil {
				e.set()
			}
			buf.Reset()
			c.Data, c.Cargo = e.data, e.cargo
			err := x.Render(c)
			if buf.String() != wants[i%2].out || err != wants[i%2].err {
				return &failure{fmt.Sprintf("wrong output or error (%v) when a context is used again with other data", err), describe(n, e), wants[i%2].out, buf.String()}
			}
		}
	}
	if ft.altered {
		// the pieces it was built from still give what they give alone
		for m, y := range b.nodes {
			if y == nil || m == n || m.K == kExt || m.K == kExtAttr {
				continue
			}
			want := renderRef(m, envs[1])
			got, bad := renderReal(y, envs[1])
			if bad != "" || got.out != want.out {
				return &failure{"a node used in another gives something else on its own: " + bad, describe(m, envs[1]) + "\n   used in " + n.String(), want.out, got.out}
			}
			got, bad = renderReal(x, envs[0])
			if bad != "" || got.out != wants[0].out {
				return &failure{"rendering a part changed the whole: " + bad, describe(n, envs[0]), wants[0].out, got.out}
			}
			// and can be used again
			again := &Node{K: kElement, Name: "again", Vals: []*Val{{K: vNode, Node: m}, {K: vNode, Node: m}}}
			z := aitch.NewElement([]byte("again"), y, y)
			want = renderRef(again, envs[1])
			if got, bad = renderReal(z, envs[1]); bad != "" || got.out != want.out {
				return &failure{"a node used again gives something else: " + bad, describe(again, envs[1]), want.out, got.out}
			}
			got, bad = renderReal(x, envs[0])
			if bad != "" || got.out != wants[0].out {
				return &failure{"using a part again changed the whole: " + bad, describe(n, envs[0]), wants[0].out, got.out}
			}
		}
		if s := b.altered(); s != "" {
			return &failure{s, describe(n, envs[0]), "", ""}
		}
	}
	if ft.concurrent {
		var wg sync.WaitGroup
		res := make([]*failure, 6)
		for i := range res {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j := 0; j < 2; j++ {
					got, bad := renderReal(x, envs[(i+j)%2])
					if want := wants[(i+j)%2]; bad != "" || got != want {
						res[i] = &failure{"wrong output in concurrent rendering: " + bad, describe(n, envs[(i+j)%2]), want.out, got.out}
					}
				}
			}(i)
		}
		wg.Wait()
		for _, f := range res {
			if f != nil {
				return f
			}
		}
	}
	if ft.faults {
		e, want := envs[0], wants[0]
		for k := 0; k < 4 && len(want.out) > 0; k++ {
			w := &failWriter{at: r.Intn(len(want.out)), once: r.Intn(2) == 0, parti: r.Intn(4) == 0}
			if f := faultTrial(x, n, e, want, w); f != nil {
				return f
			}
		}
	}
	return nil
}

func faultTrial(x aitch.Node, n *Node, e *Env, want outcome, w *failWriter) (f *failure) {
	c := context.New(w, e.data, e.cargo)
	if e.parent != nil {
		c.Parent = context.New(w, e.parent.data, e.parent.cargo)
	}
	d := func() string {
		return describe(n, e) + fmt.Sprintf("\n   on a writer failing when more than %d bytes are written (once: %v)", w.at, w.once)
	}
	defer func() {
		if r := recover(); r != nil {
			f = &failure{fmt.Sprint("panic after a failed write: ", r), d(), want.out, w.b.String()}
		}
	}()
	err := x.Render(c)
	switch {
	case w.fails == 0:
		return &failure{"the output is incomplete", d(), want.out, w.b.String()}
	case err != errWrite:
		return &failure{fmt.Sprintf("a write failed but Render returned %v", err), d(), want.out, w.b.String()}
	case c.Error != errWrite:
		return &failure{fmt.Sprintf("a write failed but the context keeps %v", c.Error), d(), want.out, w.b.String()}
	case len(w.after) > 0:
		return &failure{fmt.Sprintf("%q was written after a failed write", w.after), d(), want.out, w.b.String()}
	case !bytes.HasPrefix([]byte(want.out), w.b.Bytes()):
		return &failure{"what was written before the failure is wrong", d(), want.out, w.b.String()}
	}
	return nil
}
