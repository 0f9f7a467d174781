"""Symbolic execution of the SSA of one function: produces the verification conditions.

Callees with a contract are replaced by their contract, callees without one are executed
in place; loops are cut at their header with inductive invariants."""
import itertools
import sys
import z3
from logic import *
import logic as L
from theory import *
from state import *

sys.setrecursionlimit(100000)
AITCH = 'github.com/go-andiamo/aitch'
CTXT = AITCH + '/context.Context'
MAXDEPTH = 40
import os
SELFTEST = bool(os.environ.get('SELFTEST'))
SHOW = os.environ.get("V")


class Obligation:
    __slots__ = ('fn', 'kind', 'name', 'tags', 'pos', 'ok', 'reason', 'n', 'path', 'model', 'proved')

    def __init__(self, fn, kind, name, tags, pos):
        self.fn, self.kind, self.name, self.tags, self.pos = fn, kind, name, tags, pos
        self.ok, self.reason, self.n, self.path, self.model, self.proved = True, '', 0, '', '', 0


class Frame:
    __slots__ = ('fn', 'f', 'loops', 'active', 'depth', 'stack', 'stopset', 'binds', 'skipped')


class Exec:
    def __init__(self, prog, th, contracts, ext, imeth, dyncalls):
        self.p, self.th = prog, th
        self.contracts, self.ext, self.imeth, self.dyncalls = contracts, ext, imeth, dyncalls
        self.obs = {}
        self.mode = 'real'
        self.cur = None            # contract being verified
        self.globals = {}
        self.initing = False
        self.nobj = 0
        self.inv_cache = {}
        self.undecided = {}
        self.assumed = set()
        self.inlined = set()
        self.used = set()
        self.loopinfo = []
        self.canon = None          # closure canonicaliser
        self.canon_cache = {}
        self.uncertain = []
        self.tags_default = ()
        self.changing = prog.changing_globals()
        self.frame_tags = ()
        self.steps = 0

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, formula, tags=None, pos='', assume=True):
        """formula must hold here"""
        if self.mode == 'real':
            if tags is None:
                tags = self.frame_tags if kind == 'frame' else self.safety_tags
            key = (kind, name)
            o = self.obs.get(key)
            if o is None:
                o = self.obs[key] = Obligation(self.cur_name, kind, name, tuple(tags), pos)
            o.n += 1
            if not proves(st.pc, formula):
                r = 'not proved'
                if L.check.last is not None:
                    pass
                if o.ok:
                    o.ok = False
                    o.pos = pos or o.pos
                    o.reason = r
                    o.path = [str(simp(f))[:300] for f in st.pc[-(14 if not SHOW else 99):]]
                    o.model = str(formula)[:1500]
            else:
                o.proved += 1
                if SELFTEST and kind in ('post', 'pre', 'invariant'):
                    self.selftest(st, o, formula)
        if assume:
            st.assume(formula)

    def selftest(self, st, o, formula):
        """the prover must not accept a wrong version of what it has just proved"""
        if check(st.pc) == 'unsat':
            o.path = list(o.path or []) + ['contradiction']
            return
        o.path = list(o.path or []) + ['fine']
        wrong = [Not(formula)]
        if z3.is_eq(formula):
            a, b = formula.children()
            wrong += [fresh('any', a.sort()) == b, a == fresh('any', b.sort())]
        for x in wrong:
            if proves(st.pc, x):
                o.ok = False
                o.model = 'SELFTEST: accepted ' + str(x)[:500]

    def fail(self, st, kind, name, why, pos='', tags=None):
        """obligation that cannot be met on this path (unless the path is impossible)"""
        self.oblige(st, kind, name + ': ' + why if why else name, FALSE, tags, pos)

    # ------------------------------------------------------------ objects
    def new(self, st, obj):
        self.nobj += 1
        st.mem[self.nobj] = obj
        return self.nobj

    def event(self, st, what, data):
        """something done to the outside that contracts speak about"""
        for oid, o in st.mem.items():
            if isinstance(o, ObjC) and o.t == '@events':
                st.mem[oid] = o.upd(val=Opaque('events', o.val.data + ((what, data),)))
                return
        raise Unsupported('event')

    def events(self, st):
        for o in st.mem.values():
            if isinstance(o, ObjC) and o.t == '@events':
                return o.val.data
        return ()

    def zero(self, st, t):
        k = self.p.ukind(t)
        if k == 'slice':
            et = self.p.elem(t)
            return Slice(et, ('t', empty(self.th.seqsort(et))), IntVal(0), IntVal(0), IntVal(0), TRUE)
        if k == 'struct':
            return Struct(t, [self.zero(st, f['type']) for f in self.p.fields(t)])
        return self.th.zero(t)

    def as_struct(self, v, t):
        if isinstance(v, Struct):
            return v
        return Struct(t, [self.unerase(t, f, self.th.sel(t, False, i, v)) for i, f in enumerate(self.p.fields(t))])

    def unerase(self, t, f, x):
        """a slice read from an object: nobody knows whether it is nil"""
        if not self.th.erased(t, f) or not isinstance(x, z3.ExprRef):
            return x
        et = self.p.elem(f['type'])
        seq = self.th.seqof(et, x)
        ln = slen(seq)
        if (ival(ln) or 0) > 0:
            return self.th.sl(et, seq)
        return self.th.sl(et, seq, And(fresh('nilq', Bool), ln == 0))

    def as_slice(self, st, v, t):
        if isinstance(v, Slice):
            return v
        et = self.p.elem(t)
        seq = self.th.seqof(et, v)
        ln = slen(seq)
        cap = fresh('cap', Int)
        st.assume(cap >= ln)
        if seq.sort().eq(Str):
            nil = fresh('nilb', Bool)
        else:
            nil = self.th.nilof(et, v)
        if not is_true(nil) and not is_false(nil):
            st.assume(Implies(nil, cap == 0))
        return Slice(et, ('t', seq), IntVal(0), ln, cap, nil)

    def content(self, st, s):
        """sequence term seen through slice s"""
        if s.base[0] == 't':
            c = s.base[1]
        else:
            o = st.mem[s.base[1]]
            c = o.content
            if isinstance(c, list):
                lo, n = ival(s.off), ival(s.ln)
                if lo is not None and n is not None:
                    return self.list_seq(st, s.et, c[lo:lo + n])
                c = self.list_seq(st, s.et, c)
        if ival(s.off) == 0 and simp(s.ln).eq(simp(slen(c))):
            return c
        return sub(c, s.off, s.ln)

    def list_seq(self, st, et, vals):
        ss = self.th.seqsort(et)
        if ss.eq(Str):
            return cat(empty(Str), *[self.from_code(self.term(st, v, et)) for v in vals])
        return cat(empty(ss), *[Unit(self.term(st, v, et)) for v in vals])

    def view_list(self, st, s):
        """the elements as a python list when they are individually known"""
        if s.base[0] == 'o':
            c = st.mem[s.base[1]].content
            lo, n = ival(s.off), ival(s.ln)
            if isinstance(c, list) and lo is not None and n is not None:
                return c[lo:lo + n]
        else:
            ps = parts(s.base[1])
            if all(k == 'u' for k, _ in ps) and ival(s.off) == 0 and ival(s.ln) == len(ps):
                return [p for _, p in ps]
        return None

    def from_code(self, x):
        c = ival(x)
        if c is not None and 0 <= c < 256:
            return zstr(bytes([c]))
        if is_app(x) and x.decl().kind() == z3.Z3_OP_STR_TO_CODE:
            return x.children()[0]
        return z3.StrFromCode(x)

    # ------------------------------------------------------------ values to terms
    def term(self, st, v, t, freeze=True):
        """the mathematical value of a runtime value; objects that become part of it are frozen"""
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Slice):
            seq = self.content(st, v)
            if freeze and v.base[0] == 'o':
                o = st.mem[v.base[1]]
                if not o.frozen:
                    st.mem[v.base[1]] = o.upd(frozen=True, content=self.whole(st, o))
            return self.th.sl(v.et, seq, v.nil)
        if isinstance(v, Struct):
            return self.th.mk(v.t, False, [self.term(st, x, f['type'], freeze) for x, f in zip(v.fields, self.p.fields(v.t))])
        if isinstance(v, Iface):
            return self.th.box(v.dt, self.term(st, v.val, v.dt, freeze))
        if isinstance(v, Ptr):
            if v.base[0] == 'r' and not v.path:
                return v.base[1]
            if v.base[0] == 'o' and not v.path:
                o = st.mem[v.base[1]]
                if o.ident is not None:
                    return o.ident
                if o.frozen is not None and o.frozen is not False:
                    return o.frozen
                if isinstance(o, ObjC) and self.p.ukind(o.t) == 'struct':
                    if o.t == CTXT:
                        return Function('cx', Env, Ref)(self.env(st, v))
                    if o.t in ('bytes.Buffer', 'strings.Builder'):
                        raise Unsupported('escaping buffer')
                    sv = self.as_struct(o.val, o.t)
                    tt = self.th.mk(o.t, True, [self.term(st, x, f['type'], freeze) for x, f in zip(sv.fields, self.p.fields(o.t))])
                    if freeze:
                        for tags, n, f in self.inv_formulas(o.t, tt):
                            self.oblige(st, 'invariant', n, f, tags)
                        st.mem[v.base[1]] = st.mem[v.base[1]].upd(frozen=tt)
                    return tt
            if v.base[0] == 'g':
                return Const('addr:' + v.base[1], Ref)
            raise Unsupported('address used as a value')
        if isinstance(v, Clo):
            return self.closure_term(st, v)
        if isinstance(v, MapRef):
            o = st.mem[v.obj]
            if freeze:
                st.mem[v.obj] = o.upd(frozen=True)
            return self.th.mapinfo(v.t)['mk'](o.dom, o.vals)
        if isinstance(v, Opaque):
            if v.k == 'regexp':
                return Const('regexp:' + str(v.data), Ref)
            tt = getattr(v, 'data', None)
            if isinstance(tt, z3.ExprRef):
                return tt
            raise Unsupported('value of ' + v.k)
        raise Unsupported('term of %r' % (v,))

    def whole(self, st, o):
        return self.list_seq(st, o.et, o.content) if isinstance(o.content, list) else o.content

    def snap(self, st, v, t):
        """term for specification purposes only"""
        m = self.mode
        self.mode = 'snap'
        try:
            return self.term(st, v, t, freeze=False)
        finally:
            self.mode = m

    # type invariants of immutable objects
    def inv_formulas(self, t, ref):
        out = []
        for tags, name, f in self.th.invs.get(t, []):
            try:
                out.append((tags, '%s.%s' % (t.rsplit('/', 1)[-1], name), f(ref)))
            except Unsupported:
                pass
        return out

    def assume_inv(self, st, t, ref):
        st.assume(*[f for _, _, f in self.inv_formulas(t, ref)])

    # ------------------------------------------------------------ contexts and the world
    def ctx_fields(self, st, v):
        if isinstance(v, Ptr) and v.base[0] == 'o':
            o = st.mem[v.base[1]]
            s = self.as_struct(o.val, o.t)
            return {f['name']: x for f, x in zip(self.p.fields(o.t), s.fields)}, o
        r = self.term(st, v, '*' + CTXT)
        return {f['name']: self.th.sel(CTXT, True, i, r) for i, f in enumerate(self.p.fields(CTXT))}, None

    def env(self, st, v):
        fs, o = self.ctx_fields(st, v)
        ft = {f['name']: f['type'] for f in self.p.fields(CTXT)}
        from spec import mkenv
        ts = [self.snap(st, fs[n], ft[n]) for n in ('Data', 'Cargo', 'Writer', 'Parent')]
        return mkenv(*ts)

    def sink(self, t):
        """struct types that hold a writer and the first error of writing to it: the indexes of both"""
        c = self.__dict__.setdefault('_sinks', {})
        if t not in c:
            c[t] = None
            if t in self.p.types and self.p.ukind(t) == 'struct':
                ws = [i for i, f in enumerate(self.p.fields(t)) if f['type'] == 'io.Writer']
                es = [i for i, f in enumerate(self.p.fields(t)) if f['type'] == 'error']
                if len(ws) == 1 and len(es) == 1:
                    c[t] = (ws[0], es[0])
        return c[t]

    def sink_fields(self, st, v):
        """writer and error of a context, or of another thing that holds a writer"""
        if isinstance(v, Ptr) and v.base[0] == 'o':
            o = st.mem[v.base[1]]
            k = self.sink(o.t)
            if k is not None and o.t != CTXT:
                s = self.as_struct(o.val, o.t)
                return s.fields[k[0]], s.fields[k[1]], o
        fs, o = self.ctx_fields(st, v)
        return fs['Writer'], fs['Error'], o

    def gkey(self, w):
        L._keep.append(w)
        return w.get_id()

    def gstate(self, st, w):
        k = self.gkey(w)
        if k not in st.G:
            if st.G:
                # a writer not known to be the one seen before
                raise Unsupported('more than one writer')
            st.G[k] = Const('G0', GS)
        return st.G[k]

    def world(self, st, v):
        wr, er, o = self.sink_fields(st, v)
        g = self.gstate(st, self.snap(st, wr, 'io.Writer'))
        e = self.snap(st, er, 'error')
        if is_app(g) and g.decl().eq(W.gof) and is_app(e) and e.decl().eq(W.errof) and g.children()[0].eq(e.children()[0]):
            return g.children()[0]
        if self.mode in ('real', 'snap') and is_app(g) and g.decl().eq(W.gof) and proves(st.pc, e == W.errof(g.children()[0])):
            return g.children()[0]
        return W.mkW(g, e)

    def set_world(self, st, v, w, pos=''):
        wr, er, o = self.sink_fields(st, v)
        if o is None:
            # a context that is not the rendering context
            self.fail(st, 'frame', 'render only with the current context', '', pos)
            return
        wr = self.snap(st, wr, 'io.Writer')
        st.G[self.gkey(wr)] = W.gof(w) if not (is_app(w) and w.decl().eq(W.mkW)) else w.children()[0]
        e = W.errof(w) if not (is_app(w) and w.decl().eq(W.mkW)) else w.children()[1]
        i = self.sink(o.t)[1]
        s = self.as_struct(o.val, o.t)
        fl = list(s.fields)
        fl[i] = e
        st.mem[v.base[1]] = o.upd(val=Struct(o.t, fl))

    # ------------------------------------------------------------ memory access
    def get_path(self, st, v, t, path):
        for k, i in path:
            if k == 'f':
                s = self.as_struct(v, t)
                t = self.p.fields(t)[i]['type']
                v = s.fields[i]
            else:
                raise Unsupported('array inside a struct')
        return v

    def set_path(self, st, v, t, path, x):
        if not path:
            return x
        k, i = path[0]
        if k != 'f':
            raise Unsupported('array inside a struct')
        s = self.as_struct(v, t)
        fl = list(s.fields)
        fl[i] = self.set_path(st, fl[i], self.p.fields(t)[i]['type'], path[1:], x)
        return Struct(t, fl)

    def nonnil(self, st, v, pos, what='pointer'):
        if isinstance(v, z3.ExprRef) and v.sort().eq(Ref):
            self.oblige(st, 'safety', 'no nil dereference', v != nilRef, None, pos)
        elif isinstance(v, z3.ExprRef) and v.sort().eq(Val):
            self.oblige(st, 'safety', 'no method call on nil', v != nilV, None, pos)
        elif isinstance(v, z3.ExprRef) and v.sort().eq(Fn):
            self.oblige(st, 'safety', 'no call of a nil function', v != nilFn, None, pos)

    def load(self, st, p, t, pos=''):
        """t: type of the loaded value"""
        if isinstance(p, z3.ExprRef):       # pointer term
            self.nonnil(st, p, pos)
            p = Ptr(('r', p), (), t)
        b = p.base
        if b[0] == 'g':
            return self.load_global(st, b[1], t, p)
        if b[0] == 's':
            s = b[1]
            i = p.path[0][1]
            v = self.elem_at(st, s, i)
            return self.get_path(st, v, s.et, p.path[1:])
        if b[0] == 'r':
            if not p.path:
                if self.p.ukind(t) == 'struct':
                    return Struct(t, [self.unerase(t, f, self.th.sel(t, True, i, b[1])) for i, f in enumerate(self.p.fields(t))])
                return Function('deref:' + t, Ref, self.th.sort(t))(b[1])
            st_t = p.et
            i = p.path[0][1]
            v = self.unerase(st_t, self.p.fields(st_t)[i], self.th.sel(st_t, True, i, b[1]))
            return self.get_path(st, v, self.p.fields(st_t)[i]['type'], p.path[1:])
        o = st.mem[b[1]]
        if isinstance(o, ObjA):
            if not p.path:
                return Opaque('array', b[1])
            i = p.path[0][1]
            s = Slice(o.et, ('o', b[1]), IntVal(0), self.arr_len(st, o), self.arr_len(st, o), FALSE)
            return self.get_path(st, self.elem_at(st, s, i), o.et, p.path[1:])
        return self.get_path(st, o.val, o.t, p.path)

    def arr_len(self, st, o):
        return IntVal(len(o.content)) if isinstance(o.content, list) else slen(o.content)

    def elem_at(self, st, s, i):
        l = self.view_list(st, s)
        c = ival(i)
        if l is not None and c is not None and 0 <= c < len(l):
            return l[c]
        seq = self.content(st, s)
        if seq.sort().eq(Str):
            x = z3.StrToCode(char(seq, i))
            cc = char(seq, i)
            b = const_bytes(cc)
            if b:
                return IntVal(b[0])
            st.assume(And(x >= 0, x <= 255))
            return x
        v = nth(seq, i)
        return v

    def load_global(self, st, name, t, p):
        if name.endswith('.init$guard'):
            return FALSE
        v = self.globals.get(name) if self.initing or name not in self.changing else None
        if v is None:
            if self.initing or name not in self.p.globals:
                v = Const('glob:' + name, self.th.sort(t))
            else:
                g = self.p.globals[name]
                v = Const('glob:' + name, self.th.sort(t))
        if p.path:
            raise Unsupported('field of a global')
        return v

    def store(self, st, p, v, t, pos=''):
        if isinstance(p, z3.ExprRef):
            self.nonnil(st, p, pos)
            self.fail(st, 'frame', 'writes only to memory of its own', 'store through %s' % str(p)[:60], pos)
            return
        b = p.base
        if b[0] == 'g':
            if self.initing:
                self.globals[b[1]] = v
                return
            self.fail(st, 'frame', 'writes only to memory of its own', 'store to package variable ' + b[1], pos)
            return
        if b[0] == 'r':
            self.fail(st, 'frame', 'writes only to memory of its own', 'store to a field of %s' % p.et, pos)
            return
        if b[0] == 's':
            self.store_elem(st, b[1], p.path, v, pos)
            return
        o = st.mem[b[1]]
        if isinstance(o, ObjA):
            s = Slice(o.et, ('o', b[1]), IntVal(0), self.arr_len(st, o), self.arr_len(st, o), FALSE)
            self.store_elem(st, s, p.path, v, pos)
            return
        if o.frozen is not None:
            self.fail(st, 'frame', 'objects in use elsewhere are not altered', 'store to %s' % o.t, pos)
        if not o.owned and (o.mod is None or not p.path or p.path[0][1] not in o.mod):
            self.fail(st, 'frame', 'writes only to memory of its own', 'store to %s' % (o.desc or o.t), pos)
        st.mem[b[1]] = o.upd(val=self.set_path(st, o.val, o.t, p.path, v))

    def writable(self, st, s, pos, what):
        if s.base[0] == 't':
            self.fail(st, 'frame', 'writes only to memory of its own', what + ' of a slice that may be in use elsewhere', pos)
            return None
        o = st.mem[s.base[1]]
        if not o.owned or o.frozen:
            self.fail(st, 'frame', 'writes only to memory of its own', what + ' of a slice that is in use elsewhere', pos)
        return o

    def store_elem(self, st, s, path, v, pos):
        i = path[0][1]
        o = self.writable(st, s, pos, 'store to an element')
        if o is None:
            return
        oid = s.base[1]
        j = simp(s.off + i) if ival(s.off) != 0 else i
        if path[1:]:
            old = self.elem_at(st, s, i)
            v = self.set_path(st, old, o.et, path[1:], v)
        for a in o.alias:
            ao = st.mem.get(a)
            if ao is not None:
                st.mem[a] = ao.upd(content=fresh('clob', self.th.seqsort(ao.et)))
        c = ival(j)
        if isinstance(o.content, list) and c is not None and 0 <= c < len(o.content):
            l = list(o.content)
            l[c] = v
            st.mem[oid] = o.upd(content=l)
            return
        seq = self.whole(st, o)
        tv = self.term(st, v, o.et)
        u = self.from_code(tv) if seq.sort().eq(Str) else Unit(tv)
        if ival(j) is None:
            new = fresh('set', seq.sort())
            st.assume(Length(new) == slen(seq), prefix(new, j) == prefix(seq, j), prefix(new, simp(j + 1)) == cat(prefix(seq, j), u),
                      suffix(new, simp(j + 1)) == suffix(seq, simp(j + 1)), suffix(new, j) == cat(u, suffix(seq, simp(j + 1))))
        elif seq.sort().eq(Str):
            new = cat(prefix(seq, j), u, suffix(seq, j + 1))
        else:
            new = setat(seq, j, tv)
        st.mem[oid] = st.mem[oid].upd(content=new)

    def owned_slice(self, st, s):
        if isinstance(s, Slice):
            if s.base[0] == 'o':
                o = st.mem[s.base[1]]
                return o.owned and not o.frozen
            return ival(s.cap) == 0 or simp(s.cap).eq(simp(s.ln))
        return False

    def append(self, st, s, xs, pos=''):
        """append(s, xs...)"""
        et = s.et
        n = slen(self.content(st, xs)) if self.view_list(st, xs) is None else IntVal(len(self.view_list(st, xs)))
        alias = ()
        src = None
        if s.base[0] == 'o':
            o = st.mem[s.base[1]]
            src = o.src
            if not o.owned or o.frozen:
                self.oblige(st, 'frame', 'append does not write to a slice that is in use elsewhere', Or(s.cap == s.ln, n == 0), None, pos)
            else:
                alias = (s.base[1],) + tuple(o.alias)
                # whatever other views of this array see beyond s may be overwritten
                ol = self.arr_len(st, o)
                end = simp(s.off + s.ln)
                if not end.eq(simp(ol)):
                    w = self.whole(st, o)
                    st.mem[s.base[1]] = o.upd(content=cat(prefix(w, end), fresh('clob', w.sort())))
                if src is not None:
                    m = st.mem[src[0]]
                    if m.pending is not None:
                        self.fail(st, 'frame', 'append does not write to a slice that is in use elsewhere', 'two appends to slices held by one map', pos)
                    st.mem[src[0]] = m.upd(pending=src[1])
        else:
            self.oblige(st, 'frame', 'append does not write to a slice that may be in use elsewhere', Or(s.cap == s.ln, n == 0), None, pos)
        a, b = self.view_list(st, s), self.view_list(st, xs)
        if a is not None and b is not None:
            content = list(a) + list(b)
            ln = IntVal(len(content))
        else:
            content = cat(self.content(st, s), self.content(st, xs))
            ln = slen(content)
        oid = self.new(st, ObjA(et, content, alias=alias))
        cap = fresh('cap', Int)
        st.assume(cap >= ln)
        nil = FALSE if (ival(ln) or 0) > 0 else simp(And(s.nil, n == 0))
        return Slice(et, ('o', oid), IntVal(0), ln, cap, nil)

    # ------------------------------------------------------------ running functions
    def exec_fn(self, st, name, args, binds=(), stack=(), pos=''):
        if name not in self.p.funcs or not self.p.funcs[name]['blocks']:
            raise Unsupported('no body for ' + name)
        if name in stack or len(stack) > MAXDEPTH:
            raise Unsupported('recursion without a contract: ' + name)
        f = self.p.funcs[name]
        fr = Frame()
        fr.fn, fr.f, fr.loops, fr.active = name, f, self.p.loops(name), {}
        fr.stack = tuple(stack) + (name,)
        fr.stopset = None
        fr.skipped = None
        regs = {}
        for pp, a in zip(f['params'], args):
            regs['p:' + pp['name']] = a
        for fv, b in zip(f['freevars'], binds):
            regs['f:' + fv['name']] = b
        return self.run(st, fr, 0, -1, regs)

    def feasible(self, st):
        """False when the path cannot be taken; an answer of True may be wrong, it only costs time"""
        if self.mode in ('mods',):
            return True
        if not st.pc:
            return True
        c, pc = st.pc[-1], st.pc[:-1]
        d = decided(pc, c)
        if d is not None:
            return d
        a = c.children()[0] if z3.is_not(c) else c
        if is_app(a) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and L.alone(pc, a):
            return True
        limit = 2400
        if L.linear(c):
            lin = [f for f in pc if L.linear(f)]
            if z3_sat(lin + [c]) == 'unsat':
                return False
            limit = 600
        # a question of this form that has never been decided is not worth much time
        key = L.shape(c)
        n = self.undecided.get(key, 0)
        if n >= 12:
            return True
        if n >= 4:
            limit //= 20
        r = check(pc, a if z3.is_not(c) else Not(c), limit, STAGES0)
        self.undecided[key] = n + 1 if r == 'unknown' else 0
        return r != 'unsat'

    def run(self, st, fr, b, prev, regs, skip=None):
        """run from the start of block b (coming from prev); all outcomes of the function"""
        work = [(st, b, prev, regs, skip)]
        outs = []
        while work:
            st, b, prev, regs, skip = work.pop()
            blk = fr.f['blocks'][b]
            if fr.stopset is not None and b not in fr.stopset[-1]:
                outs.append(Out('exit', st))
                continue
            if fr.skipped and b in fr.skipped:
                continue
            if b in fr.loops and skip is None:
                back = prev in fr.loops[b]
                if back and b in fr.active:
                    regs2 = dict(regs)
                    self.phis(st, fr, blk, prev, regs2)
                    outs.append(Out('back', st, b, regs2))
                    continue
                regs = dict(regs)
                self.phis(st, fr, blk, prev, regs)
                if not self.concrete_loop(st, fr, b, regs):
                    outs.extend(self.cut(st, fr, b, regs))
                    continue
                start = len([i for i in blk['instrs'] if i['op'] == 'Phi'])
            elif skip is not None:
                start = skip
            else:
                regs = dict(regs)
                self.phis(st, fr, blk, prev, regs)
                start = len([i for i in blk['instrs'] if i['op'] == 'Phi'])
            states = [(st, regs)]
            for ins in blk['instrs'][start:]:
                op = ins['op']
                if op in ('If', 'Jump', 'Return', 'Panic'):
                    for st1, regs1 in states:
                        if op == 'Jump':
                            work.append((st1, blk['succs'][0], b, regs1, None))
                        elif op == 'Return':
                            vals = [self.val(st1, regs1, x) for x in ins['results']]
                            outs.append(Out('ret', st1, vals[0] if len(vals) == 1 else Tup(vals)))
                        elif op == 'Panic':
                            outs.append(Out('panic', st1, (self.val(st1, regs1, ins['x']), ins['pos'])))
                        else:
                            c = self.val(st1, regs1, ins['x'])
                            c = simp(c)
                            d = decided(st1.pc, c)
                            if d is not None:
                                c = TRUE if d else FALSE
                            if is_true(c):
                                work.append((st1, blk['succs'][0], b, regs1, None))
                            elif is_false(c):
                                work.append((st1, blk['succs'][1], b, regs1, None))
                            else:
                                s1, s2 = st1.fork(), st1
                                s1.assume(c)
                                s2.assume(simp(Not(c)))
                                if self.feasible(s2):
                                    work.append((s2, blk['succs'][1], b, regs1, None))
                                if self.feasible(s1):
                                    work.append((s1, blk['succs'][0], b, dict(regs1), None))
                    states = []
                    break
                nxt = []
                for st1, regs1 in states:
                    res = self.instr(st1, fr, ins, regs1)
                    for i, (st2, v) in enumerate(res):
                        if isinstance(v, Out):
                            outs.append(v)
                            continue
                        r2 = dict(regs1) if len(res) > 1 else regs1
                        if 'reg' in ins and ins['reg']:
                            r2[ins['reg']] = v
                        nxt.append((st2, r2))
                states = nxt
            self.steps += 1
            if self.steps > 200000:
                raise Unsupported('too many paths')
        return outs

    def phis(self, st, fr, blk, prev, regs):
        idx = blk['preds'].index(prev) if prev in blk['preds'] else None
        new = {}
        for ins in blk['instrs']:
            if ins['op'] != 'Phi':
                break
            new[ins['reg']] = self.val(st, regs, ins['edges'][idx])
        regs.update(new)

    def concrete_loop(self, st, fr, b, regs):
        """the loop condition is a constant here: execute this iteration as it is"""
        blk = fr.f['blocks'][b]
        if self.mode == 'mods' or b in fr.active:
            return False
        r = dict(regs)
        for ins in blk['instrs']:
            if ins['op'] == 'Phi':
                continue
            if ins['op'] == 'If':
                c = simp(self.val(st, r, ins['x']))
                if not (is_true(c) or is_false(c)):
                    return False
                k = ('unroll', fr.fn, b)
                n = getattr(self, '_unroll', {})
                return True
            if ins['op'] not in ('BinOp', 'UnOp', 'Call', 'FieldAddr', 'Extract'):
                return False
            if ins['op'] == 'Call' and ins['call'].get('fn', {}).get('k') != 'builtin':
                return False
            try:
                res = self.instr(st.fork(), fr, ins, r)
            except Unsupported:
                return False
            if len(res) != 1 or isinstance(res[0][1], Out):
                return False
            r[ins['reg']] = res[0][1]
        return False

    # ------------------------------------------------------------ operands
    def val(self, st, regs, o):
        k = o['k']
        if k == 'reg':
            if o['n'] not in regs:
                raise Unsupported('undefined register ' + o['n'])
            return regs[o['n']]
        if k == 'const':
            t = o['t']
            ck = o['ck']
            if ck == 'nil':
                return self.zero(st, t)
            if ck == 'bool':
                return BoolVal(o['v'])
            if ck == 'string':
                return zstr(bytes.fromhex(o['v']))
            if ck == 'int':
                if self.th.sort(t).eq(Int):
                    return IntVal(int(o['v']))
                return Function('fconst', Str, self.th.sort(t))(zstr(o['v']))
            return Function('fconst', Str, self.th.sort(t))(zstr(o['v']))
        if k == 'global':
            return Ptr(('g', o['n']), (), o['t'])
        if k == 'func':
            return Clo(o['n'], [])
        raise Unsupported('operand ' + k)

    def styp(self, o):
        return o.get('t')

    # ------------------------------------------------------------ instructions
    def instr(self, st, fr, ins, regs):
        m = getattr(self, 'i_' + ins['op'], None)
        if m is None:
            raise Unsupported('instruction ' + ins['op'])
        return m(st, fr, ins, regs)

    def i_Alloc(self, st, fr, ins, regs):
        t = self.p.elem(ins['type'])
        if self.p.ukind(t) == 'array':
            n = self.p.types[self.p.under(t)]['len']
            et = self.p.elem(t)
            oid = self.new(st, ObjA(et, [self.zero(st, et) for _ in range(n)]))
        elif t in ('bytes.Buffer', 'strings.Builder'):
            oid = self.new(st, ObjC(t, StringVal('')))
        else:
            try:
                z = self.zero(st, t)
            except Unsupported:
                z = Opaque('uninit', t)
            oid = self.new(st, ObjC(t, z))
        return [(st, Ptr(('o', oid), (), t))]

    def i_Store(self, st, fr, ins, regs):
        p = self.val(st, regs, ins['x'])
        v = self.val(st, regs, ins['y'])
        self.store(st, p, v, ins['y'].get('t'), ins['pos'])
        return [(st, None)]

    def i_FieldAddr(self, st, fr, ins, regs):
        p = self.val(st, regs, ins['x'])
        t = self.p.elem(ins['x']['t'])
        if isinstance(p, z3.ExprRef):
            self.nonnil(st, p, ins['pos'])
            # an immutable object: its invariants hold
            self.assume_inv(st, t, p)
            return [(st, Ptr(('r', p), (('f', ins['field']),), t))]
        if isinstance(p, Opaque):
            raise Unsupported('field of ' + p.k)
        return [(st, Ptr(p.base, p.path + (('f', ins['field']),), p.et))]

    def i_Field(self, st, fr, ins, regs):
        v = self.val(st, regs, ins['x'])
        return [(st, self.as_struct(v, ins['x']['t']).fields[ins['field']])]

    def i_IndexAddr(self, st, fr, ins, regs):
        x = self.val(st, regs, ins['x'])
        i = self.val(st, regs, ins['y'])
        t = ins['x']['t']
        if self.p.ukind(t) == 'ptr':       # pointer to array
            o = st.mem[x.base[1]]
            n = self.arr_len(st, o)
            self.bounds(st, i, n, ins['pos'])
            return [(st, Ptr(x.base, x.path + (('i', i),), o.et))]
        s = self.as_slice(st, x, t)
        self.bounds(st, i, s.ln, ins['pos'])
        return [(st, Ptr(('s', s), (('i', i),), s.et))]

    def bounds(self, st, i, n, pos):
        f = simp(And(i >= 0, i < n))
        self.oblige(st, 'safety', 'index in range', f, None, pos)

    def i_Index(self, st, fr, ins, regs):
        x = self.val(st, regs, ins['x'])
        i = self.val(st, regs, ins['y'])
        if isinstance(x, z3.ExprRef) and x.sort().eq(Str):
            self.bounds(st, i, slen(x), ins['pos'])
            s = Slice('uint8', ('t', x), IntVal(0), slen(x), slen(x), FALSE)
            return [(st, self.elem_at(st, s, i))]
        raise Unsupported('index')

    def i_UnOp(self, st, fr, ins, regs):
        tok = ins['tok']
        x = self.val(st, regs, ins['x'])
        if tok == '*':
            v = self.load(st, x, ins['type'], ins['pos'])
            return [(st, v)]
        if tok == '!':
            return [(st, simp(Not(x)))]
        if tok == '-':
            if x.sort().eq(Int):
                return [(st, self.wrap(ins['type'], -x))]
            return [(st, Function('fneg', x.sort(), x.sort())(x))]
        if tok == '^':
            return [(st, Function('compl', Int, Int)(x))]
        raise Unsupported('operator ' + tok)

    def wrap(self, t, x):
        n = self.p.basic(t)
        if n in ('int', 'int64'):
            return x                     # assumption: no overflow of int
        lo, hi = INT_RANGE[n]
        c = ival(x)
        if c is not None:
            m = (c - lo) % (hi - lo + 1) + lo
            return IntVal(m)
        return If(And(x >= lo, x <= hi), x, Function('wrap:' + n, Int, Int)(x))

    def is_nil(self, st, v, t):
        """formula: v is nil"""
        if isinstance(v, Slice):
            return v.nil
        if isinstance(v, (Iface, Clo, Ptr, MapRef, Opaque)):
            return FALSE
        k = self.p.ukind(t)
        if k == 'slice':
            return self.as_slice(st, v, t).nil
        if k == 'map':
            return v == self.th.mapinfo(t)['nil']
        return v == {'Val': nilV, 'Fn': nilFn, 'Ref': nilRef}[v.sort().name()]

    def i_BinOp(self, st, fr, ins, regs):
        tok = ins['tok']
        x, y = self.val(st, regs, ins['x']), self.val(st, regs, ins['y'])
        t = ins['x'].get('t')
        if tok in ('==', '!='):
            r = self.equal(st, x, y, ins['x'], ins['y'])
            return [(st, r if tok == '==' else simp(Not(r)))]
        if x.sort().eq(Str):
            if tok == '+':
                return [(st, cat(x, y))]
            m = {'<': z3.StrLT if hasattr(z3, 'StrLT') else None}
            lt = lambda a, b: a < b
            r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: y < x, '>=': lambda: y <= x}[tok]()
            return [(st, r)]
        if x.sort().eq(Int):
            if tok in ('+', '-', '*'):
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[tok]()
                return [(st, self.wrap(ins['type'], simp(r)))]
            if tok in ('<', '<=', '>', '>='):
                return [(st, simp({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[tok]))]
            if tok in ('/', '%'):
                self.oblige(st, 'safety', 'no division by zero', y != 0, None, ins['pos'])
                if ival(y) is not None and ival(y) > 0:
                    q = If(x >= 0, x / y, -((-x) / y))
                    return [(st, simp(q if tok == '/' else x - y * q))]
                return [(st, Function('int' + tok, Int, Int, Int)(x, y))]
            return [(st, Function('bits' + tok, Int, Int, Int)(x, y))]
        if x.sort().eq(Bool):
            return [(st, {'&': And(x, y), '|': Or(x, y)}[tok])]
        if x.sort() in (F64, F32):
            if tok in ('<', '<=', '>', '>='):
                return [(st, Function('f' + tok, x.sort(), x.sort(), Bool)(x, y))]
            return [(st, Function('f' + tok, x.sort(), x.sort(), x.sort())(x, y))]
        raise Unsupported('operator ' + tok)

    def equal(self, st, x, y, ox, oy):
        t = ox.get('t')
        if oy['k'] == 'const' and oy['ck'] == 'nil':
            return self.is_nil(st, x, t)
        if ox['k'] == 'const' and ox['ck'] == 'nil':
            return self.is_nil(st, y, oy.get('t'))
        k = self.p.ukind(t)
        if k in ('ptr', 'func', 'map', 'chan'):
            raise Unsupported('comparison of pointers')
        if k == 'iface':
            # comparing interfaces compares dynamic types and values; pointers inside are not tracked
            tx, ty = self.term(st, x, t), self.term(st, y, oy.get('t'))
            return Function('ifaceeq', Val, Val, Bool)(tx, ty)
        if k == 'struct':
            if isinstance(x, Struct) or isinstance(y, Struct):
                tx, ty = self.term(st, x, t), self.term(st, y, t)
                return tx == ty
        if isinstance(x, z3.ExprRef) and x.sort() in (F64, F32):
            return Function('feq', x.sort(), x.sort(), Bool)(x, y)
        r = simp(x == y) if not x.sort().eq(Str) else self.streq(x, y)
        return r

    def streq(self, x, y):
        a, b = const_bytes(x), const_bytes(y)
        if a is not None and b is not None:
            return BoolVal(a == b)
        return x == y

    def i_ChangeType(self, st, fr, ins, regs):
        v = self.val(st, regs, ins['x'])
        t = ins['type']
        if isinstance(v, Struct):
            v = Struct(t, v.fields)
        elif isinstance(v, MapRef):
            v = MapRef(v.obj, t)
        elif isinstance(v, z3.ExprRef) and not v.sort().eq(self.th.sort(t)):
            v = Function('conv:%s:%s' % (ins['x']['t'], t), v.sort(), self.th.sort(t))(v)
        return [(st, v)]

    def i_ChangeInterface(self, st, fr, ins, regs):
        return [(st, self.val(st, regs, ins['x']))]

    def i_MakeInterface(self, st, fr, ins, regs):
        v = self.val(st, regs, ins['x'])
        return [(st, Iface(ins['x']['t'], v))]

    def i_Convert(self, st, fr, ins, regs):
        v = self.val(st, regs, ins['x'])
        ft, tt = ins['x']['t'], ins['type']
        p = self.p
        fk, tk = p.basic(ft), p.basic(tt)
        if fk in INT_RANGE and tk in INT_RANGE:
            lo, hi = INT_RANGE[tk]
            flo, fhi = INT_RANGE[fk]
            if isinstance(v, z3.ExprRef):
                if lo <= flo and fhi <= hi:
                    return [(st, v)]
                c = ival(v)
                if c is not None:
                    return [(st, IntVal((c - lo) % (hi - lo + 1) + lo))]
                return [(st, If(And(v >= lo, v <= hi), v, Function('wrap:' + tk, Int, Int)(v)))]
        if fk == 'string' and p.is_bytes(tt):
            oid = self.new(st, ObjA(p.elem(tt), v))
            cap = fresh('cap', Int)
            st.assume(cap >= slen(v))
            return [(st, Slice(p.elem(tt), ('o', oid), IntVal(0), slen(v), cap, FALSE))]
        if tk == 'string' and p.is_bytes(ft):
            return [(st, self.content(st, self.as_slice(st, v, ft)))]
        if fk == 'string' and tk == 'string':
            return [(st, v)]
        if tk == 'string' and fk in INT_RANGE:
            r = Function('runestr', Int, Str)(v)
            st.assume(Implies(And(v >= 0, v < 128), r == z3.StrFromCode(v)))
            return [(st, r)]
        s1, s2 = self.th.sort(ft), self.th.sort(tt)
        if isinstance(v, z3.ExprRef):
            if s1.eq(s2):
                return [(st, v)]
            return [(st, Function('conv:%s:%s' % (fk or ft, tk or tt), s1, s2)(v))]
        raise Unsupported('conversion %s to %s' % (ft, tt))

    def i_Extract(self, st, fr, ins, regs):
        v = self.val(st, regs, ins['x'])
        return [(st, v.vals[ins['index']])]

    def i_MakeSlice(self, st, fr, ins, regs):
        n, c = self.val(st, regs, ins['x']), self.val(st, regs, ins['y'])
        et = self.p.elem(ins['type'])
        self.oblige(st, 'safety', 'make with valid sizes', simp(And(n >= 0, c >= n)), None, ins['pos'])
        k = ival(n)
        if k is not None and k <= 64:
            content = [self.zero(st, et) for _ in range(k)]
            oid = self.new(st, ObjA(et, content))
            return [(st, Slice(et, ('o', oid), IntVal(0), IntVal(k), c, FALSE))]
        seq = fresh('made', self.th.seqsort(et))
        st.assume(Length(seq) == n)
        oid = self.new(st, ObjA(et, seq))
        return [(st, Slice(et, ('o', oid), IntVal(0), Length(seq), c, FALSE))]

    def i_Slice(self, st, fr, ins, regs):
        x = self.val(st, regs, ins['x'])
        t = ins['x']['t']
        lo = self.val(st, regs, ins['lo']) if ins['lo'] else IntVal(0)
        if self.p.ukind(t) == 'ptr':     # array
            o = st.mem[x.base[1]]
            n = self.arr_len(st, o)
            hi = self.val(st, regs, ins['hi']) if ins['hi'] else n
            mx = self.val(st, regs, ins['max']) if ins['max'] else n
            if ins['lo'] or ins['hi']:
                self.oblige(st, 'safety', 'slice bounds in range', And(lo >= 0, lo <= hi, hi <= mx, mx <= n), None, ins['pos'])
            return [(st, Slice(o.et, x.base, lo, simp(hi - lo), simp(mx - lo), FALSE))]
        if isinstance(x, z3.ExprRef) and self.p.basic(t) == 'string':
            n = slen(x)
            hi = self.val(st, regs, ins['hi']) if ins['hi'] else n
            self.oblige(st, 'safety', 'slice bounds in range', simp(And(lo >= 0, lo <= hi, hi <= n)), None, ins['pos'])
            return [(st, sub(x, lo, simp(hi - lo)))]
        s = self.as_slice(st, x, t)
        hi = self.val(st, regs, ins['hi']) if ins['hi'] else s.ln
        mx = self.val(st, regs, ins['max']) if ins['max'] else s.cap
        self.oblige(st, 'safety', 'slice bounds in range', simp(And(lo >= 0, lo <= hi, hi <= mx, mx <= s.cap)), None, ins['pos'])
        ln = simp(hi - lo)
        # extending beyond the length exposes unknown elements
        if not simp(hi).eq(simp(s.ln)):
            if s.base[0] == 't':
                c = s.base[1]
                if not proves(st.pc, hi <= s.ln):
                    c = cat(c, fresh('spare', c.sort()))
                    st.assume(Length(c) >= hi)
                s = Slice(s.et, ('t', c), s.off, s.ln, s.cap, s.nil)
            else:
                o = st.mem[s.base[1]]
                if not proves(st.pc, simp(s.off + hi <= self.arr_len(st, o))):
                    w = self.whole(st, o)
                    st.mem[s.base[1]] = o.upd(content=cat(w, fresh('spare', w.sort())))
        off = simp(s.off + lo)
        nil = s.nil
        return [(st, Slice(s.et, s.base, off, ln, simp(mx - lo), nil))]

    # ---- maps
    def i_MakeMap(self, st, fr, ins, regs):
        t = ins['type']
        i = self.th.mapinfo(t)
        oid = self.new(st, ObjM(t, z3.K(i['ks'], FALSE), self.dflt(i), nonempty=FALSE))
        return [(st, MapRef(oid, t))]

    def dflt(self, i):
        return Const('dflt:' + i['sort'].name(), z3.ArraySort(i['ks'], i['vs']))

    def i_MapUpdate(self, st, fr, ins, regs):
        m = self.val(st, regs, ins['x'])
        t = ins['x']['t']
        if not isinstance(m, MapRef):
            self.oblige(st, 'safety', 'no write to a nil map', Not(m == self.th.mapinfo(t)['nil']), None, ins['pos'])
            self.fail(st, 'frame', 'writes only to memory of its own', 'update of a map that may be in use elsewhere', ins['pos'])
            return [(st, None)]
        o = st.mem[m.obj]
        if not o.owned or o.frozen:
            self.fail(st, 'frame', 'writes only to memory of its own', 'update of a map that is in use elsewhere', ins['pos'])
        k = self.term(st, self.val(st, regs, ins['y']), self.p.key(t))
        rv = self.val(st, regs, ins['z'])
        eo = o.elts_owned
        if isinstance(rv, Slice):
            eo = eo and self.owned_slice(st, rv)
            v = self.term(st, rv, self.p.elem(t), freeze=not eo)
        else:
            v = self.term(st, rv, self.p.elem(t))
        o = st.mem[m.obj]
        pend = o.pending
        if pend is not None and pend.eq(k):
            pend = None
        st.mem[m.obj] = o.upd(dom=z3.Store(o.dom, k, TRUE), vals=z3.Store(o.vals, k, v), elts_owned=eo, pending=pend, nonempty=TRUE)
        return [(st, None)]

    def map_has_get(self, st, m, t, k):
        i = self.th.mapinfo(t)
        if isinstance(m, MapRef):
            o = st.mem[m.obj]
            has = self.sel_simpl(o.dom, k)
            get = self.sel_simpl(o.vals, k)
            return has, get, o
        return self.th.mhas(t, m, k), self.th.mget(t, m, k), None

    def sel_simpl(self, a, k):
        return z3.Select(a, k)

    def i_Lookup(self, st, fr, ins, regs):
        x = self.val(st, regs, ins['x'])
        t = ins['x']['t']
        k = self.val(st, regs, ins['y'])
        if self.p.ukind(t) != 'map':
            return self.i_Index(st, fr, ins, regs)
        kt = self.term(st, k, self.p.key(t))
        has, get, o = self.map_has_get(st, x, t, kt)
        vt = self.p.elem(t)
        outs = []
        hs = simp(has) if o is not None else has
        s1, s2 = st.fork(), st
        s1.assume(hs)
        s2.assume(Not(hs) if not z3.is_not(hs) else hs.children()[0])
        for s, present in ((s1, True), (s2, False)):
            if is_true(hs) and not present or is_false(hs) and present:
                continue
            if not (is_true(hs) or is_false(hs)) and not self.feasible(s):
                continue
            if present:
                v = get
                if self.p.ukind(vt) == 'slice' and o is not None and o.elts_owned and o.owned and not o.frozen:
                    sv = self.as_slice(s, get, vt)
                    oid = self.new(s, ObjA(sv.et, sv.base[1], src=(x.obj, kt)))
                    v = Slice(sv.et, ('o', oid), IntVal(0), sv.ln, sv.cap, sv.nil)
            else:
                v = self.zero(s, vt)
            outs.append((s, Tup([v, BoolVal(present)]) if ins['commaok'] else v))
        return outs

    def i_Range(self, st, fr, ins, regs):
        x = self.val(st, regs, ins['x'])
        t = ins['x']['t']
        if self.p.ukind(t) == 'map':
            i = self.th.mapinfo(t)
            oid = self.new(st, ObjC('@iter', z3.K(i['ks'], FALSE)))
            return [(st, Opaque('mapiter', (x, t, oid)))]
        if self.p.basic(t) == 'string':
            oid = self.new(st, ObjC('@striter', IntVal(0)))
            return [(st, Opaque('striter', (x, oid)))]
        raise Unsupported('range over ' + t)

    def i_Next(self, st, fr, ins, regs):
        it = self.val(st, regs, ins['x'])
        if it.k == 'striter':
            x, oid = it.data
            pos = st.mem[oid].val
            st2 = st.fork()
            st.assume(pos >= slen(x))
            st2.assume(pos < slen(x), pos >= 0)
            outs = []
            if self.feasible(st):
                outs.append((st, Tup([FALSE, IntVal(0), IntVal(0)])))
            if self.feasible(st2):
                c = z3.StrToCode(char(x, pos))
                st2.assume(c >= 0, c <= 255)
                # a one-byte rune, or a longer (or invalid) sequence of bytes >= 0x80
                r, n = fresh('rune', Int), fresh('runelen', Int)
                mb = Function('multibyte', Str, Int, Int)
                st2.assume(Implies(c < 128, And(r == c, n == 1)), Implies(c >= 128, And(r >= 128, n >= 1, n <= 4)), pos + n <= slen(x))
                k = fresh('mb', Int)
                st2.assume(Implies(n >= 2, z3.StrToCode(char(x, pos + 1)) >= 128), Implies(n >= 3, z3.StrToCode(char(x, pos + 2)) >= 128),
                           Implies(n >= 4, z3.StrToCode(char(x, pos + 3)) >= 128))
                st2.mem[oid] = st2.mem[oid].upd(val=simp(pos + n))
                outs.append((st2, Tup([TRUE, pos, r])))
            return outs
        m, t, oid = it.data
        i = self.th.mapinfo(t)
        vis = st.mem[oid].val
        kt, vt = self.p.key(t), self.p.elem(t)
        # exhausted: every key has been visited
        s1 = st.fork()
        kk = fresh('k', i['ks'])
        done = Opaque('all', None)
        dom, vals = (st.mem[m.obj].dom, st.mem[m.obj].vals) if isinstance(m, MapRef) else self.th.marrays(t, m)
        has = lambda k: z3.Select(dom, k)
        get = lambda k: z3.Select(vals, k)
        s1.assume(dom == vis)
        if not isinstance(m, MapRef):
            st.assume(m != i['nil'])
        outs = []
        if self.feasible(s1):
            outs.append((s1, Tup([FALSE, self.zero(s1, kt), self.zero(s1, vt)])))
        k = fresh('key', i['ks'])
        st.assume(has(k), Not(z3.Select(vis, k)))
        if self.feasible(st):
            st.mem[oid] = st.mem[oid].upd(val=z3.Store(vis, k, TRUE))
            outs.append((st, Tup([TRUE, k, get(k)])))
        return outs

    # ---- interfaces
    def i_TypeAssert(self, st, fr, ins, regs):
        v = self.val(st, regs, ins['x'])
        at = ins['asserted']
        ok = ins['commaok']

        def res(s, val, good):
            return (s, Tup([val, BoolVal(good)]) if ok else val)
        if isinstance(v, Iface):
            if self.p.ukind(at) == 'typeparam':
                v = self.term(st, v, ins['x'].get('t') or 'interface{}')
            elif self.p.is_iface(at):
                good = self.p.implements(v.dt, at)
                if good is None:
                    raise Unsupported('%s implements %s?' % (v.dt, at))
                val = v
            else:
                good = v.dt == at
                val = v.val
            if isinstance(v, Iface):
                if good:
                    return [res(st, val, True)]
                if not ok:
                    self.fail(st, 'safety', 'type assertion holds', at, ins['pos'])
                    return []
                return [res(st, self.zero(st, at), False)]
        # symbolic
        if self.p.ukind(at) == 'typeparam':
            cond = And(v != nilV, self.th.tp_is(at)(v))
        elif self.p.is_iface(at):
            cond = And(v != nilV, self.th.impl(at, v)) if self.p.types[self.p.under(at)]['methods'] else (v != nilV)
        else:
            cond = self.th.tag(v) == self.th.tid(at)
        c = simp(cond)
        s1, s2 = st.fork(), st
        outs = []
        if not is_false(c):
            s1.assume(cond)
            val = v
            if self.p.ukind(at) == 'typeparam':
                val = self.th.tp_as(at)(v)
            elif not self.p.is_iface(at):
                val = self.th.unbox(at, v)
                if not (is_app(v) and v.decl().name().startswith('bx:')):
                    s1.assume(v == self.th.bxinfo(at)[0](val))
                if self.p.is_ptr(at):
                    s1.assume(val != nilRef)
                    self.assume_inv(s1, self.p.elem(at), val)
            if is_true(c) or self.feasible(s1):
                if ok:
                    outs.append(res(s1, val, True))
                else:
                    self.oblige(st, 'safety', 'type assertion holds', cond, None, ins['pos'])
                    return [res(s1, val, True)]
        elif not ok:
            self.fail(st, 'safety', 'type assertion holds', at, ins['pos'])
            return []
        if not is_true(c):
            s2.assume(Not(cond) if not z3.is_and(cond) else Not(cond))
            if self.feasible(s2):
                outs.append(res(s2, self.zero(s2, at), False))
        return outs

    def i_MakeClosure(self, st, fr, ins, regs):
        return [(st, Clo(ins['fn']['n'], [self.val(st, regs, b) for b in ins['bindings']]))]

    def i_RunDefers(self, st, fr, ins, regs):
        return [(st, None)]

    # ------------------------------------------------------------ calls
    def i_Call(self, st, fr, ins, regs):
        c = ins['call']
        pos = ins['pos']
        args = [self.val(st, regs, a) for a in c['args']]
        if 'invoke' in c:
            return self.invoke(st, fr, ins, c, self.val(st, regs, c['recv']), args, pos)
        f = c['fn']
        if f['k'] == 'builtin':
            return self.builtin(st, fr, ins, f['n'], args, c)
        if f['k'] == 'func':
            return self.call(st, fr, f['n'], args, c, pos)
        v = self.val(st, regs, f)
        if isinstance(v, Clo):
            return self.call(st, fr, v.fn, args, c, pos, v.binds)
        self.nonnil(st, v, pos)
        sig = self.p.under(f['t'])
        h = self.dyncalls.get(self.sigkey(sig))
        if h is None:
            raise Unsupported('call of an unknown function ' + sig)
        return h(self, st, v, args, pos)

    def sigkey(self, sig):
        t = self.p.types[sig]
        return '(%s)(%s)' % (','.join(t['params']), ','.join(t['results']))

    def call(self, st, fr, name, args, c, pos, binds=()):
        if self.initing and name.endswith('.init') and '(' not in name:
            return [(st, None)]
        con = self.contracts.get(name)
        if con is not None and not con.applicable(self.p, name):
            con = None
        if con is not None:
            self.used.add(name)
            return con.apply(self, st, args, pos)
        base = c.get('origin') or name
        h = self.ext.get(base) or self.ext.get(name)
        if h is not None:
            self.assumed.add(base)
            return h(self, st, args, c, pos)
        if name in self.p.funcs and self.p.funcs[name]['blocks']:
            self.inlined.add(name)
            res = []
            for o in self.exec_fn(st, name, args, binds, fr.stack, pos):
                if o.kind == 'ret':
                    res.append((o.st, o.val))
                else:
                    res.append((o.st, o))
            return res
        raise Unsupported('no contract for ' + name)

    def invoke(self, st, fr, ins, c, recv, args, pos):
        m = c['invoke']
        if isinstance(recv, z3.ExprRef) and is_app(recv) and recv.decl().name().startswith('bx:'):
            recv = Iface(recv.decl().name()[3:], recv.children()[0])
        if isinstance(recv, Iface):
            fn = self.p.methods.get(recv.dt, {}).get(m)
            if fn:
                if isinstance(recv.val, z3.ExprRef) and recv.val.sort().eq(Ref):
                    st.assume(recv.val != nilRef)
                return self.call(st, fr, fn, [recv.val] + args, {'sig': c['sig']}, pos)
            raise Unsupported('method %s of %s' % (m, recv.dt))
        if isinstance(recv, Opaque):
            h = self.imeth.get(recv.k + '.' + m)
            if h:
                return h(self, st, recv, args, pos)
        self.nonnil(st, recv, pos)
        h = self.imeth.get(c['method']) or self.imeth.get(m)
        if h is None:
            raise Unsupported('no contract for interface method ' + c['method'])
        self.assumed.add(c['method'])
        return h(self, st, recv, args, pos)

    def builtin(self, st, fr, ins, n, args, c):
        pos = ins['pos']
        ts = [a.get('t') for a in c['args']]
        if n == 'len':
            v = args[0]
            k = self.p.ukind(ts[0])
            if k == 'slice':
                return [(st, self.as_slice(st, v, ts[0]).ln)]
            if self.p.basic(ts[0]) == 'string':
                return [(st, slen(v))]
            if k == 'map':
                if isinstance(v, MapRef):
                    o = st.mem[v.obj]
                    r = fresh('maplen', Int)
                    st.assume(r >= 0)
                    if o.nonempty is not None:
                        st.assume((r > 0) == o.nonempty)
                    else:
                        kk = fresh('k', self.th.mapinfo(ts[0])['ks'])
                        st.assume(z3.ForAll([kk], Implies(z3.Select(o.dom, kk), r > 0), patterns=[z3.Select(o.dom, kk)]))
                        wk = fresh('wk', self.th.mapinfo(ts[0])['ks'])
                        st.assume(Implies(r > 0, z3.Select(o.dom, wk)))
                    return [(st, r)]
                return [(st, self.th.mapinfo(ts[0])['len'](v))]
        if n == 'cap':
            return [(st, self.as_slice(st, args[0], ts[0]).cap)]
        if n == 'append':
            s = self.as_slice(st, args[0], ts[0])
            if self.p.basic(ts[1]) == 'string':
                xs = Slice(s.et, ('t', args[1]), IntVal(0), slen(args[1]), slen(args[1]), FALSE)
            else:
                xs = self.as_slice(st, args[1], ts[1])
            return [(st, self.append(st, s, xs, pos))]
        if n == 'copy':
            d = self.as_slice(st, args[0], ts[0])
            if self.p.basic(ts[1]) == 'string':
                s = Slice(d.et, ('t', args[1]), IntVal(0), slen(args[1]), slen(args[1]), FALSE)
            else:
                s = self.as_slice(st, args[1], ts[1])
            return self.copy(st, d, s, pos)
        if n == 'panic':
            return [(st, Out('panic', st, (args[0], pos)))]
        if n in ('min', 'max') and len(args) == 2 and args[0].sort().eq(Int):
            a, b = args
            return [(st, If((a < b) if n == 'min' else (a > b), a, b))]
        if n == 'ssa:wrapnilchk':
            return [(st, args[0])]
        if n == 'delete' and isinstance(args[0], MapRef):
            o = st.mem[args[0].obj]
            if not o.owned or o.frozen:
                self.fail(st, 'frame', 'writes only to memory of its own', 'delete from a map that is in use elsewhere', pos)
            k = self.term(st, args[1], ts[1])
            st.mem[args[0].obj] = o.upd(dom=z3.Store(o.dom, k, FALSE), nonempty=None)
            return [(st, None)]
        raise Unsupported('builtin ' + n)

    def copy(self, st, d, s, pos):
        sc = self.content(st, s)
        outs = []
        n = simp(If(d.ln < s.ln, d.ln, s.ln))
        st2 = st.fork()
        for stx, cond, cnt in ((st, s.ln <= d.ln, s.ln), (st2, s.ln > d.ln, d.ln)):
            c = simp(cond)
            if is_false(c):
                continue
            stx.assume(cond)
            if not is_true(c) and not self.feasible(stx):
                continue
            o = self.writable(stx, d, pos, 'copy into')
            if o is not None:
                w = self.whole(stx, o)
                for a in o.alias:
                    ao = stx.mem.get(a)
                    if ao is not None:
                        stx.mem[a] = ao.upd(content=fresh('clob', self.th.seqsort(ao.et)))
                new = cat(prefix(w, d.off), prefix(sc, cnt), suffix(w, simp(d.off + cnt)))
                stx.mem[d.base[1]] = stx.mem[d.base[1]].upd(content=new)
            outs.append((stx, cnt))
        return outs

    # ------------------------------------------------------------ closures as values
    def closure_term(self, st, v):
        if v.canon is not None:
            return v.canon
        if self.canon is None:
            raise Unsupported('function value')
        v.canon = self.canon(self, st, v)
        return v.canon

    def cut(self, st, fr, b, regs):
        from loops import cut
        return cut(self, st, fr, b, regs)
