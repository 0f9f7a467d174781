"""Go values as terms: sorts of Go types, boxing into interfaces, immutable objects."""
import z3
from logic import *
import logic as L

INT_RANGE = {'int8': (-2**7, 2**7 - 1), 'int16': (-2**15, 2**15 - 1), 'int32': (-2**31, 2**31 - 1), 'rune': (-2**31, 2**31 - 1),
             'int64': (-2**63, 2**63 - 1), 'int': (-2**63, 2**63 - 1), 'uint8': (0, 255), 'byte': (0, 255), 'uint16': (0, 2**16 - 1),
             'uint32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1), 'uint': (0, 2**64 - 1), 'uintptr': (0, 2**64 - 1)}


MAPARR = [False]      # relate maps to the array of their keys and the array of their values


class Unsupported(Exception):
    pass


# ---- run-time values of the executor (besides plain z3 terms)
class Slice:
    __slots__ = ('et', 'base', 'off', 'ln', 'cap', 'nil')

    def __init__(self, et, base, off, ln, cap, nil):
        self.et, self.base, self.off, self.ln, self.cap, self.nil = et, base, off, ln, cap, nil


class Struct:
    __slots__ = ('t', 'fields')

    def __init__(self, t, fields):
        self.t, self.fields = t, list(fields)


class Ptr:
    """address inside a local object ('o', id), a global ('g', name), an immutable object ('r', term) or a slice ('s', Slice)"""
    __slots__ = ('base', 'path', 'et')

    def __init__(self, base, path, et):
        self.base, self.path, self.et = base, tuple(path), et


class Iface:
    __slots__ = ('dt', 'val')

    def __init__(self, dt, val):
        self.dt, self.val = dt, val


class Clo:
    __slots__ = ('fn', 'binds', 'canon')

    def __init__(self, fn, binds, canon=None):
        self.fn, self.binds, self.canon = fn, list(binds), canon


class MapRef:
    __slots__ = ('obj', 't')

    def __init__(self, obj, t):
        self.obj, self.t = obj, t


class Tup:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = list(vals)


class Opaque:
    """a value of an external library (regexp, reflect, ...) with a python payload"""
    __slots__ = ('k', 'data')

    def __init__(self, k, data):
        self.k, self.data = k, data


class Theory:
    def __init__(self, prog):
        self.p = prog
        self.tids = {}
        self._sorts = {}
        self._bx = {}
        self._mk = {}
        self._sl = {}
        self._map = {}
        self.tagf = Function('tag', Val, Int)
        self.implf = {}
        self.invs = {}
        RULES['tag'] = self._tag_rule
        self.tid_type = {}

    # ---- type ids
    def tid(self, t):
        if t not in self.tids:
            n = len(self.tids) + 1
            self.tids[t] = n
            self.tid_type[n] = t
        return self.tids[t]

    def _tag_rule(self, app, gen, sat):
        v = app.children()[0]
        return [app >= 0, (app == 0) == (v == nilV)]

    def tag(self, v):
        if is_app(v) and v.decl().name().startswith('bx:'):
            return IntVal(self.tid(v.decl().name()[3:]))
        if v.eq(nilV):
            return IntVal(0)
        return self.tagf(v)

    # ---- sorts
    def sort(self, t):
        if t in self._sorts:
            return self._sorts[t]
        p = self.p
        u = p.under(t)
        k = p.kind(u)
        if k == 'basic':
            n = p.types[u]['name']
            if n in ('bool', 'untyped bool'):
                s = Bool
            elif n in INT_RANGE or n in ('untyped int', 'untyped rune'):
                s = Int
            elif n in ('string', 'untyped string'):
                s = Str
            elif n in ('float64', 'untyped float'):
                s = F64
            elif n == 'float32':
                s = F32
            elif n == 'untyped nil':
                s = Val
            else:
                raise Unsupported('type ' + t)
        elif k == 'iface':
            s = Val
        elif k == 'func':
            s = Fn
        elif k == 'ptr':
            s = Ref
        elif k == 'slice':
            if p.is_bytes(u):
                s = Str
            else:
                s = self.slice_dt(p.elem(u))
        elif k == 'array':
            s = self.seqsort(p.elem(u))
        elif k == 'map':
            s = self.mapinfo(u)['sort']
        elif k == 'struct':
            s = DeclareSort('St:' + t)
        elif k == 'typeparam':
            s = DeclareSort('tp:' + t)
        else:
            raise Unsupported('type ' + t + ' ' + k)
        self._sorts[t] = s
        return s

    def seqsort(self, et):
        if self.p.basic(et) in ('uint8', 'byte'):
            return Str
        return SeqSort(self.sort(et))

    def slice_dt(self, et):
        n = 'Sl:' + et
        if n not in self._sl:
            d = z3.Datatype(n)
            d.declare('mksl', ('seqof', self.seqsort(et)), ('nilof', Bool))
            self._sl[n] = d.create()
        return self._sl[n]

    def mapinfo(self, t):
        t = self.p.under(t)
        if t not in self._map:
            ks, vs = self.sort(self.p.key(t)), self.sort(self.p.elem(t))
            s = DeclareSort('M:' + t)
            m = {'sort': s, 'ks': ks, 'vs': vs,
                 'has': Function('has:' + t, s, ks, Bool), 'get': Function('get:' + t, s, ks, vs),
                 'mk': Function('mkmap:' + t, z3.ArraySort(ks, Bool), z3.ArraySort(ks, vs), s),
                 'nil': Const('nilmap:' + t, s), 'len': Function('maplen:' + t, s, Int)}

            n = Function('domof:' + t, s, z3.ArraySort(ks, Bool)), Function('valsof:' + t, s, z3.ArraySort(ks, vs))
            m['domof'], m['valsof'] = n

            def r_domof(app, gen, sat, m=m):
                mm = app.children()[0]
                out = [Implies(mm == m['nil'], app == z3.K(m['ks'], FALSE))]
                if is_app(mm) and mm.decl().eq(m['mk']):
                    out.append(app == mm.children()[0])
                return out
            RULES[n[0].name()] = r_domof

            def r_has(app, gen, sat, m=m):
                mm, k = app.children()
                out = [Implies(mm == m['nil'], Not(app))]
                if is_app(mm) and mm.decl().eq(m['mk']):
                    out.append(app == z3.Select(mm.children()[0], k))
                out.append(Implies(app, m['len'](mm) > 0))
                if MAPARR[0]:
                    out.append(app == z3.Select(m['domof'](mm), k))
                return out

            def r_get(app, gen, sat, m=m):
                mm, k = app.children()
                if is_app(mm) and mm.decl().eq(m['mk']):
                    return [app == z3.Select(mm.children()[1], k)]
                return [app == z3.Select(m['valsof'](mm), k)] if MAPARR[0] else []
            RULES[m['has'].name()] = r_has
            RULES[m['get'].name()] = r_get
            RULES[m['len'].name()] = lambda app, gen, sat: [app >= 0]
            RULES[m['mk'].name()] = lambda app, gen, sat, m=m: [app != m['nil']]
            self._map[t] = m
        return self._map[t]

    def marrays(self, t, m):
        """the map as a set of keys and an array of values"""
        i = self.mapinfo(t)
        if is_app(m) and m.decl().eq(i['mk']):
            return m.children()[0], m.children()[1]
        return i['domof'](m), i['valsof'](m)

    def mhas(self, t, m, k):
        i = self.mapinfo(t)
        if is_app(m) and m.decl().eq(i['mk']):
            return z3.Select(m.children()[0], k)
        return i['has'](m, k)

    def mget(self, t, m, k):
        i = self.mapinfo(t)
        if is_app(m) and m.decl().eq(i['mk']):
            return z3.Select(m.children()[1], k)
        return i['get'](m, k)

    # ---- interface boxing
    def bxinfo(self, t):
        if t not in self._bx:
            s = self.sort(t)
            b = Function('bx:' + t, s, Val)
            u = Function('ub:' + t, Val, s)
            tid = self.tid(t)

            def rule(app, gen, sat, u=u, tid=tid, t=t):
                x = app.children()[0]
                return [u(app) == x, self.tagf(app) == tid, app != nilV]

            def urule(app, gen, sat, b=b, tid=tid, t=t):
                v = app.children()[0]
                out = [Implies(self.tagf(v) == tid, b(app) == v)] if not (is_app(v) and v.decl().eq(b)) else []
                n = self.p.basic(t)
                if n in INT_RANGE:
                    lo, hi = INT_RANGE[n]
                    out.append(And(app >= lo, app <= hi))
                return out
            RULES[b.name()] = rule
            RULES[u.name()] = urule
            self._bx[t] = (b, u)
        return self._bx[t]

    def box(self, t, x):
        b, u = self.bxinfo(t)
        if is_app(x) and x.decl().eq(u) and False:
            return x.children()[0]
        return b(x)

    def unbox(self, t, v):
        b, u = self.bxinfo(t)
        if is_app(v) and v.decl().eq(b):
            return v.children()[0]
        return u(v)

    # ---- does the dynamic type implement the interface?
    def impl(self, iface, v):
        """formula: dynamic type of v (not nil) implements iface"""
        if is_app(v) and v.decl().name().startswith('bx:'):
            r = self.p.implements(v.decl().name()[3:], iface)
            if r is not None:
                return BoolVal(bool(r))
        if iface not in self.implf:
            f = Function('impl:' + iface, Int, Bool)
            self.implf[iface] = f

            def rule(app, gen, sat, iface=iface):
                out = [Not(self.implf[iface](IntVal(0)))] if ival(app.children()[0]) != 0 else [Not(app)]
                tg = app.children()[0]
                for t, i in list(self.tids.items()):
                    r = self.p.implements(t, iface)
                    if r is not None:
                        out.append(Implies(tg == i, app == BoolVal(bool(r))))
                return out
            RULES[f.name()] = rule
        return self.implf[iface](self.tag(v))

    # ---- structs and immutable objects
    def mkinfo(self, t, ptr):
        """constructor and selectors of struct type t (ptr: of objects of that type)"""
        key = (t, ptr)
        if key not in self._mk:
            rs = Ref if ptr else self.sort(t)
            fs = self.p.fields(t)
            pre = 'new:' if ptr else 'mk:'
            sorts = [self.sort(f['type']) for f in fs]
            mk = Function(pre + t, *sorts, rs) if sorts else Const(pre + t, rs)
            sels = [Function('%s%s.%s' % ('*' if ptr else '', t, f['name']), rs, s) for f, s in zip(fs, sorts)]
            if sorts:
                def rule(app, gen, sat, sels=sels, ptr=ptr):
                    out = [s(app) == c for s, c in zip(sels, app.children())]
                    if ptr:
                        out.append(app != nilRef)
                    return out
                RULES[mk.name()] = rule
            self._mk[key] = (mk, sels)
        return self._mk[key]

    # Which slice is nil is only kept where the code can tell the difference (values of plain
    # attributes); everywhere else it is forgotten when a slice is stored in an object, and a slice
    # read from an object is nil or not nil, nobody knows.
    KEEPNIL = (('github.com/go-andiamo/aitch.attribute', 'values'),)

    def erased(self, t, f):
        return self.p.ukind(f['type']) == 'slice' and not self.p.is_bytes(f['type']) and (t, f['name']) not in self.KEEPNIL

    def erase(self, f, x):
        et = self.p.elem(f['type'])
        return self.sl(et, self.seqof(et, x))

    def mk(self, t, ptr, args):
        mk, sels = self.mkinfo(t, ptr)
        if not args:
            return mk
        fs = self.p.fields(t)
        args = [self.erase(f, a) if self.erased(t, f) else a for f, a in zip(fs, args)]
        # eta
        if not ptr:
            def src_of(a, s, f):
                if self.erased(t, f):
                    a = a.children()[0]          # the sequence
                    if not (is_app(a) and a.num_args() == 1):
                        return None
                    a = a.children()[0]
                return a.children()[0] if is_app(a) and a.num_args() == 1 and a.decl().eq(s) else None
            src = [src_of(a, s, f) for a, s, f in zip(args, sels, fs)]
            if src[0] is not None and all(x is not None and x.eq(src[0]) for x in src):
                return src[0]
        return mk(*args)

    def sel(self, t, ptr, i, x):
        mk, sels = self.mkinfo(t, ptr)
        if is_app(x) and x.num_args() and x.decl().eq(mk):
            return x.children()[i]
        return sels[i](x)

    def fidx(self, t, name):
        for i, f in enumerate(self.p.fields(t)):
            if f['name'] == name:
                return i
        raise Unsupported('type %s has no field %s' % (t, name))

    def fld(self, t, name, x, ptr=True):
        """field of object x, looking through embedded structs"""
        fs = self.p.fields(t)
        for i, f in enumerate(fs):
            if f['name'] == name:
                return self.sel(t, ptr, i, x)
        for i, f in enumerate(fs):
            if f['embedded']:
                ft = f['type']
                isp = self.p.is_ptr(ft)
                st = self.p.elem(ft) if isp else ft
                if self.p.ukind(st) == 'struct':
                    try:
                        return self.fld(st, name, self.sel(t, ptr, i, x), isp)
                    except Unsupported:
                        pass
        raise Unsupported('type %s has no field %s' % (t, name))

    # ---- zero values as terms
    def tp_is(self, t):
        """is the dynamic type of a value the type the parameter stands for (or one that implements it)"""
        return Function('is:' + t, Val, Bool)

    def tp_as(self, t):
        return Function('as:' + t, Val, self.sort(t))

    def zero(self, t):
        s = self.sort(t)
        p = self.p
        k = p.ukind(t)
        if s.eq(Bool):
            return FALSE
        if s.eq(Int):
            return IntVal(0)
        if s.eq(Str):
            return StringVal('')
        if s.eq(Val):
            return nilV
        if s.eq(Fn):
            return nilFn
        if s.eq(Ref):
            return nilRef
        if k == 'typeparam':
            return Const('zero:' + t, s)
        if s.eq(F64):
            return Const('zeroF64', F64)
        if s.eq(F32):
            return Const('zeroF32', F32)
        if k == 'slice':
            return s.mksl(Empty(self.seqsort(p.elem(t))), TRUE)
        if k == 'map':
            return self.mapinfo(t)['nil']
        if k == 'struct':
            return self.mk(t, False, [self.zero(f['type']) for f in p.fields(t)])
        if k == 'array':
            n = p.types[p.under(t)]['len']
            return cat(empty(s), *[Unit(self.zero(p.elem(t))) for _ in range(n)])
        raise Unsupported('zero of ' + t)

    # slices as terms
    def sl(self, et, seq, nil=None):
        if self.p.basic(et) in ('uint8', 'byte'):
            return seq
        d = self.slice_dt(et)
        return d.mksl(seq, FALSE if nil is None else nil)

    def seqof(self, et, t):
        if t.sort().eq(Str):
            return t
        d = self.slice_dt(et)
        if is_app(t) and t.decl().eq(d.mksl):
            return t.children()[0]
        return d.seqof(t)

    def nilof(self, et, t):
        d = self.slice_dt(et)
        if is_app(t) and t.decl().eq(d.mksl):
            return t.children()[1]
        return d.nilof(t)
