// ssadump loads the packages of a Go module from source, builds their SSA form
// (golang.org/x/tools/go/ssa) and prints it as JSON.  It is the front end of the
// verifier: everything the verifier reasons about comes from this output, which is
// regenerated from the working tree on every run.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	fset    = token.NewFileSet()
	typeTab = map[string]M{}
	root    string
)

func qual(p *types.Package) string { return p.Path() }

func tstr(t types.Type) string { return types.TypeString(anon(t), qual) }

// anon removes the names of parameters from function types: they are not part of the type
func anon(t types.Type) types.Type {
	switch x := t.(type) {
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, anonTuple(x.Params()), anonTuple(x.Results()), x.Variadic())
	case *types.Slice:
		if e := anon(x.Elem()); e != x.Elem() {
			return types.NewSlice(e)
		}
	case *types.Pointer:
		if e := anon(x.Elem()); e != x.Elem() {
			return types.NewPointer(e)
		}
	case *types.Array:
		if e := anon(x.Elem()); e != x.Elem() {
			return types.NewArray(e, x.Len())
		}
	case *types.Map:
		k, e := anon(x.Key()), anon(x.Elem())
		if k != x.Key() || e != x.Elem() {
			return types.NewMap(k, e)
		}
	}
	return t
}

func anonTuple(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewParam(0, nil, "", anon(t.At(i).Type())))
	}
	return types.NewTuple(vs...)
}

func typ(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	id := tstr(t)
	if _, ok := typeTab[id]; ok {
		return id
	}
	m := M{}
	typeTab[id] = m
	switch x := t.(type) {
	case *types.Named:
		m["kind"] = "named"
		m["name"] = x.Obj().Name()
		if x.Obj().Pkg() != nil {
			m["pkg"] = x.Obj().Pkg().Path()
		}
		m["under"] = typ(x.Underlying())
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = x.Name()
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = typ(x.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = typ(x.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = typ(x.Elem())
		m["len"] = x.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = typ(x.Key())
		m["elem"] = typ(x.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = typ(x.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		fs := []M{}
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": typ(f.Type()), "embedded": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "iface"
		ms := []M{}
		for i := 0; i < x.NumMethods(); i++ {
			ms = append(ms, M{"name": x.Method(i).Name(), "type": typ(x.Method(i).Type()), "exported": x.Method(i).Exported()})
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
		ps := []string{}
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, typ(x.Params().At(i).Type()))
		}
		rs := []string{}
		for i := 0; i < x.Results().Len(); i++ {
			rs = append(rs, typ(x.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = x.Variadic()
	case *types.Tuple:
		m["kind"] = "tuple"
		ps := []string{}
		for i := 0; i < x.Len(); i++ {
			ps = append(ps, typ(x.At(i).Type()))
		}
		m["elems"] = ps
	case *types.TypeParam:
		m["kind"] = "typeparam"
		m["name"] = x.Obj().Name()
	default:
		m["kind"] = fmt.Sprintf("%T", t)
	}
	return id
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := fset.Position(p)
	rel, err := filepath.Rel(root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func constVal(c *ssa.Const) M {
	m := M{"k": "const", "t": typ(c.Type())}
	if c.Value == nil {
		m["v"] = nil
		m["ck"] = "nil"
		return m
	}
	switch c.Value.Kind() {
	case constant.Bool:
		m["ck"] = "bool"
		m["v"] = constant.BoolVal(c.Value)
	case constant.String:
		m["ck"] = "string"
		m["v"] = hex.EncodeToString([]byte(constant.StringVal(c.Value)))
	case constant.Int:
		m["ck"] = "int"
		m["v"] = c.Value.ExactString()
	default:
		m["ck"] = "float"
		m["v"] = c.Value.ExactString()
	}
	return m
}

func operand(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return M{"k": "global", "n": x.RelString(nil), "t": typ(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": x.RelString(nil), "t": typ(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p:" + x.Name(), "t": typ(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "f:" + x.Name(), "t": typ(x.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": typ(v.Type())}
	}
}

func operands(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, operand(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	m := M{"args": operands(c.Args), "sig": typ(c.Signature())}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["iface"] = typ(c.Value.Type())
		m["recv"] = operand(c.Value)
		m["method"] = c.Method.FullName()
	} else {
		m["fn"] = operand(c.Value)
		if f, ok := c.Value.(*ssa.Function); ok {
			if o := f.Origin(); o != nil {
				m["origin"] = o.RelString(nil)
				ta := []string{}
				for _, t := range f.TypeArgs() {
					ta = append(ta, typ(t))
				}
				m["targs"] = ta
			}
		}
	}
	return m
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func instr(in ssa.Instruction) M {
	m := M{"op": strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa."), "pos": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["type"] = typ(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["heap"] = x.Heap
		m["comment"] = x.Comment
	case *ssa.BinOp:
		m["tok"] = x.Op.String()
		m["x"], m["y"] = operand(x.X), operand(x.Y)
	case *ssa.UnOp:
		m["tok"] = x.Op.String()
		m["x"] = operand(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.Call:
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["call"] = call(&x.Call)
	case *ssa.Go:
		m["call"] = call(&x.Call)
	case *ssa.ChangeInterface:
		m["x"] = operand(x.X)
	case *ssa.ChangeType:
		m["x"] = operand(x.X)
	case *ssa.Convert:
		m["x"] = operand(x.X)
	case *ssa.MultiConvert:
		m["x"] = operand(x.X)
	case *ssa.SliceToArrayPointer:
		m["x"] = operand(x.X)
	case *ssa.Extract:
		m["x"] = operand(x.Tuple)
		m["index"] = x.Index
	case *ssa.Field:
		m["x"] = operand(x.X)
		m["field"] = x.Field
		m["fname"] = fieldName(x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		m["x"] = operand(x.X)
		m["field"] = x.Field
		m["fname"] = fieldName(x.X.Type(), x.Field)
	case *ssa.If:
		m["x"] = operand(x.Cond)
	case *ssa.Index:
		m["x"], m["y"] = operand(x.X), operand(x.Index)
	case *ssa.IndexAddr:
		m["x"], m["y"] = operand(x.X), operand(x.Index)
	case *ssa.Lookup:
		m["x"], m["y"] = operand(x.X), operand(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.MakeClosure:
		m["fn"] = operand(x.Fn)
		m["bindings"] = operands(x.Bindings)
	case *ssa.MakeInterface:
		m["x"] = operand(x.X)
	case *ssa.MakeMap:
		m["x"] = operand(x.Reserve)
	case *ssa.MakeSlice:
		m["x"], m["y"] = operand(x.Len), operand(x.Cap)
	case *ssa.MapUpdate:
		m["x"], m["y"], m["z"] = operand(x.Map), operand(x.Key), operand(x.Value)
	case *ssa.Next:
		m["x"] = operand(x.Iter)
		m["isstring"] = x.IsString
	case *ssa.Panic:
		m["x"] = operand(x.X)
	case *ssa.Phi:
		m["edges"] = operands(x.Edges)
		m["comment"] = x.Comment
	case *ssa.Range:
		m["x"] = operand(x.X)
	case *ssa.Return:
		m["results"] = operands(x.Results)
	case *ssa.Slice:
		m["x"], m["lo"], m["hi"], m["max"] = operand(x.X), operand(x.Low), operand(x.High), operand(x.Max)
	case *ssa.Store:
		m["x"], m["y"] = operand(x.Addr), operand(x.Val)
	case *ssa.TypeAssert:
		m["x"] = operand(x.X)
		m["asserted"] = typ(x.AssertedType)
		m["commaok"] = x.CommaOk
	}
	return m
}

func function(f *ssa.Function) M {
	m := M{"name": f.RelString(nil), "short": f.Name(), "synthetic": f.Synthetic, "pos": pos(f.Pos()), "sig": typ(f.Signature)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		m["parent"] = f.Parent().RelString(nil)
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "type": typ(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "type": typ(p.Type())})
	}
	m["freevars"] = fv
	if r := f.Signature.Recv(); r != nil {
		m["recv"] = typ(r.Type())
	}
	rs := []M{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r := f.Signature.Results().At(i)
		rs = append(rs, M{"name": r.Name(), "type": typ(r.Type())})
	}
	m["results"] = rs
	m["variadic"] = f.Signature.Variadic()
	tps := []string{}
	if f.TypeParams() != nil {
		for i := 0; i < f.TypeParams().Len(); i++ {
			tps = append(tps, typ(f.TypeParams().At(i)))
		}
	}
	m["typeparams"] = tps
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(in))
		}
		sc := []int{}
		for _, s := range b.Succs {
			sc = append(sc, s.Index)
		}
		pr := []int{}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, M{"instrs": is, "succs": sc, "preds": pr, "comment": b.Comment})
	}
	m["blocks"] = bs
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		m["doc"] = d.Doc.Text()
	}
	return m
}

func main() {
	root = os.Args[1]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root, Fset: fset,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.SanityCheckFunctions&0)
	prog.Build()
	own := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		own[p] = true
	}
	all := ssautil.AllFunctions(prog)
	var fs []*ssa.Function
	for f := range all {
		if own[f.Pkg] || (f.Pkg == nil && f.Origin() != nil && own[f.Origin().Pkg]) || (f.Parent() != nil && own[f.Parent().Pkg]) {
			fs = append(fs, f)
		} else if f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil {
			for p := range own {
				if p != nil && p.Pkg == f.Object().Pkg() {
					fs = append(fs, f)
				}
			}
		}
	}
	// package-level functions and methods not reached (generic bodies included)
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		fs = append(fs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for p := range own {
		for _, mem := range p.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if mf := prog.MethodValue(ms.At(i)); mf != nil && own[mf.Pkg] {
							add(mf)
						}
					}
				}
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].RelString(nil) < fs[j].RelString(nil) })
	out := []M{}
	for _, f := range fs {
		out = append(out, function(f))
	}
	globals := []M{}
	consts := []M{}
	concrete := []types.Type{}
	ifaces := []types.Type{}
	for p := range own {
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Global:
				globals = append(globals, M{"name": x.RelString(nil), "type": typ(x.Type()), "pkg": p.Pkg.Path(), "exported": token.IsExported(n)})
			case *ssa.NamedConst:
				c := constVal(x.Value)
				c["name"] = p.Pkg.Path() + "." + n
				consts = append(consts, c)
			case *ssa.Type:
				nt, ok := x.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				if types.IsInterface(nt) {
					ifaces = append(ifaces, nt)
				} else {
					concrete = append(concrete, nt, types.NewPointer(nt))
				}
			}
		}
	}
	// fmt.Stringer and error
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "fmt" {
			if o := p.Pkg.Scope().Lookup("Stringer"); o != nil {
				ifaces = append(ifaces, o.Type())
			}
		}
		if p.Pkg.Path() == "io" {
			if o := p.Pkg.Scope().Lookup("Writer"); o != nil {
				ifaces = append(ifaces, o.Type())
			}
		}
	}
	ifaces = append(ifaces, types.Universe.Lookup("error").Type())
	impls := M{}
	methods := M{}
	for _, i := range ifaces {
		r := []string{}
		for _, c := range concrete {
			if types.Implements(c, i.Underlying().(*types.Interface)) {
				r = append(r, typ(c))
			}
		}
		sort.Strings(r)
		impls[typ(i)] = r
	}
	for _, c := range concrete {
		ms := prog.MethodSets.MethodSet(c)
		mm := M{}
		for i := 0; i < ms.Len(); i++ {
			if mf := prog.MethodValue(ms.At(i)); mf != nil {
				mm[ms.At(i).Obj().Name()] = mf.RelString(nil)
			}
		}
		methods[typ(c)] = mm
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i]["name"].(string) < globals[j]["name"].(string) })
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(M{"types": typeTab, "funcs": out, "globals": globals, "consts": consts, "impls": impls, "methods": methods}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
