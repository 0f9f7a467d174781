"""Contracts: one specification is used both to verify a function and to replace calls to it."""
from logic import *
import logic as L
from theory import *
from state import *
from spec import A, PA, CTXT
import spec as S

IC = A + 'imperativeContext'


class Call:
    """what a contract sees of a call"""

    def __init__(self, ex, st, args, f, verifying):
        self.ex, self.st, self.args, self.f, self.verifying = ex, st, args, f, verifying
        self.s, self.th = S._spec[0], ex.th
        self.reqs, self.ens, self.exact, self.worlds, self.panics_if, self.stacks = [], [], {}, {}, None, {}
        self.prew = {}
        self.retobj = {}
        self.whole = {}
        self.maypanic = False
        self.raws, self.make = [], {}

    def ptype(self, i):
        return self.f['params'][i]['type']

    def a(self, i):
        v = self.args[i]
        return v if isinstance(v, z3.ExprRef) else self.ex.snap(self.st, v, self.ptype(i))

    def seq(self, i):
        v = self.args[i]
        if isinstance(v, Slice):
            m = self.ex.mode
            self.ex.mode = 'snap'
            try:
                return self.ex.content(self.st, v)
            finally:
                self.ex.mode = m
        return self.th.seqof(self.th.p.elem(self.ptype(i)), self.a(i))

    def ctxp(self, i):
        """the rendering context that is argument i, or that the imperative context i works on"""
        return self.icfield(i, 'ctx') if self.ptype(i) == '*' + IC else self.args[i]

    def env(self, i):
        return self.ex.env(self.st, self.ctxp(i))

    def w(self, i):
        return self.ex.world(self.st, self.ctxp(i))

    # imperative contexts
    def icfield(self, i, name):
        v = self.args[i]
        if isinstance(v, z3.ExprRef):
            raise Unsupported('imperative context')
        o = self.st.mem[v.base[1]]
        s = self.ex.as_struct(o.val, o.t)
        return s.fields[self.th.fidx(IC, name)]

    def stack(self, i):
        v = self.icfield(i, 'openedStack')
        return self.ex.content(self.st, self.ex.as_slice(self.st, v, '[][]byte'))

    def stack_is(self, i, seq, tags):
        self.stacks[i] = StackIs(self, self.args[i], seq, tags)

    # ---- what the contract says
    def reveal(self, *ds):
        if self.verifying:
            for d in ds:
                L.REVEAL.add(d.name)

    def requires(self, name, f):
        self.reqs.append((name, f))

    def world(self, i, w, tags=()):
        self.worlds[i] = (w, tags)

    def raw(self, name, tags, fn):
        """fn(executor, state, results as they are) holds"""
        self.raws.append((name, tags, fn))

    def ret(self, i, term, tags=(), name=None):
        """result i is exactly this (a sequence for slices)"""
        self.exact[i] = (term, tags, name)

    def ensures(self, name, tags, fn):
        self.ens.append((name, tags, fn))

    def ret_node(self, t, tags, **fields):
        """result 0 is a new *t with these fields"""
        th, s = self.th, self.s
        full = t if '/' in t else A + t
        T = '*' + full
        self.retobj[0] = T
        if set(fields) == {f['name'] for f in th.p.fields(full)}:
            self.whole[0] = s.node(T, **fields)
        self.ensures('builds a %s' % full.rsplit('/', 1)[-1], tags, lambda r: th.tag(r[0]) == th.tid(T))
        for k, v in fields.items():
            def f(r, k=k, v=v):
                x = th.unbox(T, r[0])
                if callable(v):
                    return v(x)
                y = th.fld(full, k, x)
                if not y.sort().eq(v.sort()):
                    ft = [q['type'] for q in th.p.fields(full) if q['name'] == k][0]
                    y = th.seqof(th.p.elem(ft), y)
                return y == v
            self.ensures('%s of the new %s' % (k, full.rsplit('/', 1)[-1]), tags, f)


class StackIs:
    """the open elements of an imperative context are these"""

    def __init__(self, c, p, seq, tags):
        self.p, self.seq, self.tags, self.i = p, seq, tags, c.th.fidx(IC, 'openedStack')

    def __call__(self, ex, st):
        oid = ex.new(st, ObjA('[]byte', self.seq))
        cap = fresh('cap', Int)
        st.assume(cap >= Length(self.seq))
        o = st.mem[self.p.base[1]]
        fl = list(ex.as_struct(o.val, o.t).fields)
        fl[self.i] = Slice('[]byte', ('o', oid), IntVal(0), Length(self.seq), cap, fresh('nil', Bool))
        st.mem[self.p.base[1]] = o.upd(val=Struct(o.t, fl))

    def post(self, ex, st):
        o = st.mem[self.p.base[1]]
        v = ex.as_slice(st, ex.as_struct(o.val, o.t).fields[self.i], '[][]byte')
        if not ex.owned_slice(st, v):
            ex.fail(st, 'frame', 'the list of open elements belongs to the imperative context', '')
        return ex.content(st, v) == self.seq


class Contract:
    nilable = ()         # pointer parameters that may be nil
    maparr = False       # works on maps as a whole

    def __init__(self, name, spec, tags, nparams=None, nresults=None, terms=True):
        self.name, self.spec, self.tags, self.np, self.nr = name, spec, tuple(tags), nparams, nresults

    def applicable(self, p, name):
        f = p.funcs.get(name)
        if f is None or not f['blocks']:
            return False
        return self.np is None or (len(f['params']) == self.np and len(f['results']) == self.nr)

    # ------------------------------------------------------------ at a call
    def apply(self, ex, st, args, pos):
        f = ex.p.funcs[self.name]
        c = Call(ex, st, args, f, False)
        self.spec(c)
        for n, q in c.reqs:
            ex.oblige(st, 'pre', '%s (called): %s' % (short(self.name), n), q, None, pos)
        extra = []
        if c.panics_if is not None and not is_false(c.panics_if):
            s2 = st.fork()
            s2.assume(c.panics_if)
            if ex.feasible(s2):
                extra.append((s2, Out('panic', s2, (None, pos))))
            st.assume(Not(c.panics_if))
        for i, (w, tags) in c.worlds.items():
            ex.set_world(st, c.ctxp(i), w, pos)
        for i, fn in c.stacks.items():
            fn(ex, st)
        rets, terms = [], []
        for i, r in enumerate(f['results']):
            t = r['type']
            srt = ex.th.sort(t)
            if i in c.make:
                x = c.make[i](ex, st)
            elif i in c.exact:
                x = c.exact[i][0]
                if not x.sort().eq(srt):
                    nil = fresh('nil', Bool)
                    st.assume(Implies(nil, Length(x) == 0))
                    x = ex.th.sl(ex.p.elem(t), x, nil)
            elif i in c.whole:
                x = c.whole[i]
            elif i in c.retobj:
                rr = fresh('obj', Ref)
                st.assume(rr != nilRef)
                T = c.retobj[i]
                ex.assume_inv(st, ex.p.elem(T), rr)
                x = ex.th.box(T, rr)
            else:
                x = fresh('ret', srt)
            rets.append(x)
        if ex.mode != 'mods':
            for n, tags, fn in c.ens:
                st.assume(fn(rets))
        # byte slices and slices belong to somebody else unless said otherwise
        v = None
        if len(rets) == 1:
            v = rets[0]
        elif rets:
            v = Tup(rets)
        return [(st, v)] + extra

    # ------------------------------------------------------------ verification
    def setup(self, ex, nil=()):
        """symbolic arguments and pre-state"""
        p = ex.p
        f = p.funcs[self.name]
        st = State()
        args = []
        for i, prm in enumerate(f['params']):
            args.append(nilRef if i in nil else symbolic(ex, st, prm['name'] or 'arg%d' % i, prm['type'], i == 0 and recv_mut(self.name)))
        return f, st, args

    def verify(self, ex):
        self.verify1(ex)
        for i in self.nilable:
            self.verify1(ex, (i,))

    def verify1(self, ex, nil=()):
        L.REVEAL.clear()
        MAPARR[0] = self.maparr
        f, st, args = self.setup(ex, nil)
        ex.new(st, ObjC('@events', Opaque('events', ())))
        pre = st.fork()
        c = Call(ex, st, args, f, True)
        self.spec(c)
        for n, q in c.reqs:
            st.assume(q)
        if check(st.pc) == 'unsat':
            ex.fail(State(), 'vacuity', 'the precondition can be met', '', '', self.tags)
            return
        for i in range(len(f['params'])):
            pass
        ex.topcall = c
        outs = ex.exec_fn(st.fork(), self.name, args)
        nret = 0
        for o in outs:
            if o.kind == 'panic':
                pos = o.val[1] if o.val else ''
                if c.panics_if is not None:
                    ex.oblige(o.st, 'post', 'panics only when it should', c.panics_if, self.tags, pos)
                    nret += 1
                else:
                    ex.fail(o.st, 'safety', 'no panic', '', pos)
                continue
            if o.kind != 'ret':
                continue
            nret += 1
            vals = o.val.vals if isinstance(o.val, Tup) else [o.val] if len(f['results']) == 1 else []
            if c.panics_if is not None:
                ex.oblige(o.st, 'post', 'panics whenever it should', Not(c.panics_if), self.tags)
            asis = o.st.fork()
            rets = []
            for i, (v, r) in enumerate(zip(vals, f['results'])):
                if i in c.make:
                    rets.append(None)
                    continue
                try:
                    rets.append(ex.term(o.st, v, r['type']))
                except Unsupported as e:
                    if 'nothing' in str(e):
                        raise
                    raise
            for i, (w, tags) in c.worlds.items():
                ex.oblige(o.st, 'post', 'output and error', ex.world(o.st, c.ctxp(i)) == w, tags or self.tags)
            for i, fn in c.stacks.items():
                ex.oblige(o.st, 'post', 'open elements', fn.post(ex, o.st), fn.tags)
            for i, (x, tags, name) in c.exact.items():
                y = rets[i]
                if not y.sort().eq(x.sort()):
                    y = ex.th.seqof(ex.p.elem(f['results'][i]['type']), y)
                ex.oblige(o.st, 'post', name or 'result %d' % i, y == x, tags or self.tags)
            for n, tags, fn in c.raws:
                ex.oblige(asis, 'post', n, fn(ex, asis, vals), tags or self.tags)
            for n, tags, fn in c.ens:
                ex.oblige(o.st, 'post', n, fn(rets), tags or self.tags)
        # some way to the end must be possible: otherwise everything above was proved from a contradiction
        if not any(check(o.st.pc) != 'unsat' for o in outs if o.kind == 'ret' or (o.kind == 'panic' and c.panics_if is not None)):
            ex.fail(State(), 'vacuity', 'the function can return', '', '', self.tags)


def short(n):
    return n.replace('github.com/go-andiamo/aitch/', '').replace('github.com/go-andiamo/', '')


MUT = {'*' + IC: ('openedStack',), '*' + CTXT: ('Error',)}


def recv_mut(name):
    return False


def symsink(ex, st, name, t):
    """something that holds a writer and the first error of writing to it"""
    wi, ei = ex.sink(t)
    fs = [Const('%s.%s' % (name, f['name']), ex.th.sort(f['type'])) for f in ex.p.fields(t)]
    oid = ex.new(st, ObjC(t, Struct(t, fs), owned=False, mod=(ei,), desc='the writer'))
    st.assume(fs[wi] != nilV)
    return Ptr(('o', oid), (), t)


def symctx(ex, st, name):
    """a rendering context given by the caller"""
    th = ex.th
    fs = []
    for f in ex.p.fields(CTXT):
        if f['name'] == 'Error':
            fs.append(Const(name + '.Error', Val))
        else:
            fs.append(Const('%s.%s' % (name, f['name']), th.sort(f['type'])))
    byname = {f['name']: x for f, x in zip(ex.p.fields(CTXT), fs)}
    oid = ex.new(st, ObjC(CTXT, Struct(CTXT, fs), owned=False, mod=(th.fidx(CTXT, 'Error'),), desc='the context'))
    st.assume(byname['Writer'] != nilV)
    return Ptr(('o', oid), (), CTXT)


def symbolic(ex, st, name, t, mut=False):
    p, th = ex.p, ex.th
    if t == '*' + CTXT:
        return symctx(ex, st, name)
    if t == '*' + IC:
        ctx = symctx(ex, st, 'ctx')
        fl = []
        for f in p.fields(IC):
            if f['type'] == '*' + CTXT:
                fl.append(ctx)
            elif p.ukind(f['type']) == 'slice':
                et = p.elem(f['type'])
                seq = Const('%s.%s' % (name, f['name']), th.seqsort(et))
                oid = ex.new(st, ObjA(et, seq))      # only imperative contexts hold this array
                cap = fresh('cap', Int)
                nil = fresh('nil', Bool)
                st.assume(cap >= Length(seq), Implies(nil, cap == 0))
                fl.append(Slice(et, ('o', oid), IntVal(0), Length(seq), cap, nil))
            else:
                fl.append(Const('%s.%s' % (name, f['name']), th.sort(f['type'])))
        mod = tuple(i for i, f in enumerate(p.fields(IC)) if f['type'] != '*' + CTXT)
        oid = ex.new(st, ObjC(IC, Struct(IC, fl), owned=False, mod=mod, desc='the imperative context'))
        return Ptr(('o', oid), (), IC)
    if p.is_ptr(t) and ex.sink(p.elem(t)):
        return symsink(ex, st, name, p.elem(t))
    x = Const('p:' + name, th.sort(t))
    n = p.basic(t)
    if n in INT_RANGE:
        lo, hi = INT_RANGE[n]
        st.assume(x >= lo, x <= hi)
    if p.is_ptr(t):
        st.assume(x != nilRef)
        if p.ukind(p.elem(t)) == 'struct':
            ex.assume_inv(st, p.elem(t), x)
    if x.sort().kind() == z3.Z3_DATATYPE_SORT and x.sort().name().startswith('Sl:'):
        et = p.elem(t)
        st.assume(Implies(th.nilof(et, x), Length(th.seqof(et, x)) == 0))
    return x
