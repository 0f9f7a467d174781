"""Assumed contracts: the standard library, interface methods of unknown implementers and
function values given by users.  Everything in this file is an assumption of the verification
and is listed as such in the evidence of a check that used it."""
from logic import *
import logic as L
from theory import *
from state import *
from spec import A, PA, CTXT
import spec as S

EXT, IMETH, DYN = {}, {}, {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def imeth(*names):
    def d(f):
        for n in names:
            IMETH[n] = f
        return f
    return d


def dyn(*names):
    def d(f):
        for n in names:
            DYN[n] = f
        return f
    return d


def sp():
    return S._spec[0]


def by(ex, st, v, t='[]byte'):
    """bytes or string argument as a string term"""
    if isinstance(v, Slice):
        return ex.content(st, v)
    return v


def fresh_bytes(ex, st, content, nonnil=True):
    """a newly allocated []byte"""
    oid = ex.new(st, ObjA('uint8' if 'uint8' in ex.p.types else 'byte', content))
    cap = fresh('cap', Int)
    st.assume(cap >= slen(content))
    return Slice(ex.p.elem('[]byte'), ('o', oid), IntVal(0), slen(content), cap, FALSE if nonnil else fresh('nil', Bool))


def bytes_term(ex, st, content):
    """a []byte that belongs to somebody else"""
    cap = fresh('cap', Int)
    nil = fresh('nil', Bool)
    st.assume(cap >= slen(content), Implies(nil, cap == 0))
    return Slice(ex.p.elem('[]byte'), ('t', content), IntVal(0), slen(content), cap, nil)


# ------------------------------------------------------------------ output
@imeth('(io.Writer).Write')
def m_write(ex, st, recv, args, pos):
    d = by(ex, st, args[0])
    w = ex.term(st, recv, 'io.Writer') if not isinstance(recv, z3.ExprRef) else recv
    g = ex.gstate(st, w)
    n = fresh('n', Int)
    w1 = sp().emit(W.mkW(g, nilV), d)
    if is_app(w1) and w1.decl().eq(W.mkW):
        g1, e1 = w1.children()
    else:
        g1, e1 = W.gof(w1), W.errof(w1)
    st.G[ex.gkey(w)] = g1
    st.assume(n >= 0, n <= slen(d), Implies(e1 == nilV, n == slen(d)))
    return [(st, Tup([n, e1]))]


@ext('io.WriteString')
def x_writestring(ex, st, args, c, pos):
    w = args[0]
    if isinstance(w, Iface):
        fn = ex.p.methods.get(w.dt, {}).get('Write')
        return ex.call(st, ex.topframe, fn, [w.val, fresh_bytes(ex, st, args[1])], c, pos)
    return m_write(ex, st, w, [args[1]], pos)


# ------------------------------------------------------------------ buffers
BUF = ('bytes.Buffer', 'strings.Builder')


def buf(ex, st, p):
    if isinstance(p, Ptr) and p.base[0] == 'o' and not p.path and st.mem[p.base[1]].t in BUF:
        return p.base[1]
    raise Unsupported('buffer')


def setbuf(ex, st, oid, v):
    st.mem[oid] = st.mem[oid].upd(val=v)


@ext('(*bytes.Buffer).Write', '(*strings.Builder).Write', '(*bytes.Buffer).WriteString', '(*strings.Builder).WriteString')
def x_bwrite(ex, st, args, c, pos):
    o = buf(ex, st, args[0])
    d = by(ex, st, args[1])
    setbuf(ex, st, o, cat(st.mem[o].val, d))
    return [(st, Tup([slen(d), nilV]))]


@ext('(*bytes.Buffer).WriteByte', '(*strings.Builder).WriteByte')
def x_bwritebyte(ex, st, args, c, pos):
    o = buf(ex, st, args[0])
    setbuf(ex, st, o, cat(st.mem[o].val, ex.from_code(args[1])))
    return [(st, nilV)]


@ext('(*bytes.Buffer).Bytes')
def x_bbytes(ex, st, args, c, pos):
    o = buf(ex, st, args[0])
    return [(st, bytes_term(ex, st, st.mem[o].val))]


@ext('(*bytes.Buffer).String', '(*strings.Builder).String')
def x_bstring(ex, st, args, c, pos):
    return [(st, st.mem[buf(ex, st, args[0])].val)]


@ext('(*bytes.Buffer).Len', '(*strings.Builder).Len')
def x_blen(ex, st, args, c, pos):
    return [(st, slen(st.mem[buf(ex, st, args[0])].val))]


@ext('(*bytes.Buffer).Grow', '(*strings.Builder).Grow')
def x_bgrow(ex, st, args, c, pos):
    buf(ex, st, args[0])
    ex.oblige(st, 'safety', 'no negative Grow', args[1] >= 0, None, pos)
    return [(st, None)]


@ext('(*bytes.Buffer).Reset', '(*strings.Builder).Reset')
def x_breset(ex, st, args, c, pos):
    setbuf(ex, st, buf(ex, st, args[0]), StringVal(''))
    return [(st, None)]


# ------------------------------------------------------------------ strconv
@ext('strconv.FormatInt', 'strconv.FormatUint')
def x_formatint(ex, st, args, c, pos):
    if ival(args[1]) == 10:
        k = ival(args[0])
        return [(st, zstr(str(k)) if k is not None else sp().dec(args[0]))]
    return [(st, Function('formatint', Int, Int, Str)(args[0], args[1]))]


@ext('strconv.Itoa')
def x_itoa(ex, st, args, c, pos):
    k = ival(args[0])
    return [(st, zstr(str(k)) if k is not None else sp().dec(args[0]))]


@ext('strconv.AppendInt', 'strconv.AppendUint')
def x_appendint(ex, st, args, c, pos):
    s = ex.as_slice(st, args[0], '[]byte')
    d = sp().dec(args[1]) if ival(args[2]) == 10 else Function('formatint', Int, Int, Str)(args[1], args[2])
    x = Slice(s.et, ('t', d), IntVal(0), slen(d), slen(d), FALSE)
    return [(st, ex.append(st, s, x, pos))]


@ext('strconv.FormatFloat')
def x_formatfloat(ex, st, args, c, pos):
    return [(st, sp().fmtF(*args))]


@ext('strconv.AppendFloat')
def x_appendfloat(ex, st, args, c, pos):
    s = ex.as_slice(st, args[0], '[]byte')
    d = sp().fmtF(*args[1:])
    return [(st, ex.append(st, s, Slice(s.et, ('t', d), IntVal(0), slen(d), slen(d), FALSE), pos))]


@ext('strconv.FormatBool')
def x_formatbool(ex, st, args, c, pos):
    return [(st, If(args[0], zstr('true'), zstr('false')))]


@ext('strconv.AppendBool')
def x_appendbool(ex, st, args, c, pos):
    s = ex.as_slice(st, args[0], '[]byte')
    d = If(args[1], zstr('true'), zstr('false'))
    return [(st, ex.append(st, s, Slice(s.et, ('t', d), IntVal(0), slen(d), slen(d), FALSE), pos))]


@ext('strconv.Quote')
def x_quote(ex, st, args, c, pos):
    b = const_bytes(args[0])
    if b is not None and all(32 <= x < 127 and x not in (34, 92) for x in b):
        return [(st, zstr(b'"' + b + b'"'))]
    return [(st, sp().lit(args[0]))]


# ------------------------------------------------------------------ strings
def chars_of(e):
    b = const_bytes(e)
    if b is None or any(x >= 128 for x in b):
        raise Unsupported('set of characters')
    return b


def containsAny(chars):
    """homomorphism: does the string contain one of the characters"""
    s = sp()
    key = bytes(sorted(set(chars)))
    if key not in s._ca:
        h = Hom('CA:' + key.hex(), Str, [], Bool, lambda ps, c: Or(*[c == zstr(bytes([x])) for x in key]) if key else FALSE,
                op=lambda a, b: Or(a, b), zero=FALSE, quant=None)
        s._ca[key] = h
        import lemmas
        lemmas.link_esc(s, h, key)
    return s._ca[key]


@ext('strings.ContainsAny', 'bytes.ContainsAny')
def x_containsany(ex, st, args, c, pos):
    s = by(ex, st, args[0])
    return [(st, containsAny(chars_of(args[1]))(s))]


@ext('strings.IndexAny', 'bytes.IndexAny')
def x_indexany(ex, st, args, c, pos):
    s = by(ex, st, args[0])
    h = containsAny(chars_of(args[1]))
    r = fresh('idx', Int)
    st.assume(r >= -1, r < slen(s), (r >= 0) == h(s), Implies(r >= 0, And(Not(h(prefix(s, r))), h(char(s, r)))))
    return [(st, r)]


def idx_of(st, s, t, last=False):
    """index of the first (last) occurrence of t in s"""
    r = (z3.LastIndexOf(s, t) if last else z3.IndexOf(s, t, IntVal(0)))
    return r


@ext('strings.HasPrefix', 'bytes.HasPrefix')
def x_hasprefix(ex, st, args, c, pos):
    return [(st, z3.PrefixOf(by(ex, st, args[1]), by(ex, st, args[0])))]


@ext('strings.HasSuffix', 'bytes.HasSuffix')
def x_hassuffix(ex, st, args, c, pos):
    return [(st, z3.SuffixOf(by(ex, st, args[1]), by(ex, st, args[0])))]


@ext('strings.Contains', 'bytes.Contains')
def x_contains(ex, st, args, c, pos):
    t = const_bytes(by(ex, st, args[1]))
    if t is not None and len(t) == 1 and t[0] < 128:
        return [(st, containsAny(t)(by(ex, st, args[0])))]
    return [(st, z3.Contains(by(ex, st, args[0]), by(ex, st, args[1])))]


@ext('strings.Index', 'bytes.Index')
def x_index(ex, st, args, c, pos):
    return [(st, idx_of(st, by(ex, st, args[0]), by(ex, st, args[1])))]


@ext('strings.IndexByte', 'bytes.IndexByte')
def x_indexbyte(ex, st, args, c, pos):
    return [(st, idx_of(st, by(ex, st, args[0]), ex.from_code(args[1])))]


@ext('strings.LastIndex', 'bytes.LastIndex')
def x_lastindex(ex, st, args, c, pos):
    s, t = by(ex, st, args[0]), by(ex, st, args[1])
    tb = const_bytes(t)
    if tb == b'/':
        # names of functions have no slash
        ps = parts(s)
        while ps and is_app(ps[-1][1] if ps[-1][0] != 'c' else s) and ps[-1][0] != 'c' and ps[-1][1].decl().name() == 'code.name':
            ps = ps[:-1]
        if len(ps) == 1 and ps[0][0] == 'c':
            return [(st, IntVal(bytes(ps[0][1]).rfind(tb)))]
    r = Function('lastindex', Str, Str, Int)(s, t)
    st.assume(r >= -1, r + slen(t) <= slen(s) if ival(slen(t)) else r <= slen(s))
    return [(st, r)]


@ext('strings.TrimPrefix', 'bytes.TrimPrefix')
def x_trimprefix(ex, st, args, c, pos):
    s, t = args
    if not isinstance(s, z3.ExprRef):
        raise Unsupported('bytes.TrimPrefix')
    p = z3.PrefixOf(t, s)
    s1, s2 = st.fork(), st
    s1.assume(p)
    s2.assume(Not(p))
    return [(x, v) for x, v in ((s1, suffix(s, slen(t))), (s2, s)) if ex.feasible(x)]


@ext('strings.CutPrefix')
def x_cutprefix(ex, st, args, c, pos):
    s, t = args
    p = z3.PrefixOf(t, s)
    s1, s2 = st.fork(), st
    s1.assume(p)
    s2.assume(Not(p))
    return [(x, v) for x, v in ((s1, Tup([suffix(s, slen(t)), TRUE])), (s2, Tup([s, FALSE]))) if ex.feasible(x)]


def repl_hom(old, new):
    """replacement of every occurrence of one character"""
    s = sp()
    if not hasattr(s, '_repl'):
        s._repl = {}
    k = (old, new)
    if k not in s._repl:
        o, n = zstr(bytes([old])), zstr(new)
        s._repl[k] = Hom('repl:%02x:%s' % (old, new.hex()), Str, [], Str,
                         lambda ps, c: (n if const_bytes(c) == bytes([old]) else c) if const_bytes(c) is not None else If(c == o, n, c))
    return s._repl[k]


@ext('strings.ReplaceAll', 'bytes.ReplaceAll')
def x_replaceall(ex, st, args, c, pos):
    s = by(ex, st, args[0])
    o, n = const_bytes(by(ex, st, args[1])), const_bytes(by(ex, st, args[2]))
    if o is not None and n is not None and len(o) == 1 and o[0] < 128:
        r = repl_hom(o[0], n)(s)
    else:
        r = Function('replaceall', Str, Str, Str, Str)(s, by(ex, st, args[1]), by(ex, st, args[2]))
    return [(st, r if isinstance(args[0], z3.ExprRef) else fresh_bytes(ex, st, r))]


@ext('strings.ToLower')
def x_tolower(ex, st, args, c, pos):
    b = const_bytes(args[0])
    if b is not None and all(x < 128 for x in b):
        return [(st, zstr(b.lower()))]
    return [(st, Function('tolower', Str, Str)(args[0]))]


@ext('strings.Trim', 'strings.TrimSpace', 'strings.TrimRight', 'strings.TrimLeft')
def x_trim(ex, st, args, c, pos):
    n = c['fn']['n'].rsplit('.', 1)[1]
    cs = const_bytes(args[1]) if len(args) > 1 else None
    if len(args) > 1 and (cs is None or any(x >= 128 for x in cs)):
        return [(st, Function(n, Str, Str, Str)(args[0], args[1]))]
    r = Function(n + (':' + cs.hex() if cs is not None else ''), Str, Str)(args[0])
    if cs:
        import rx
        st.assume((r == StringVal('')) == z3.InRe(args[0], z3.Star(rx.ranges([(x, x) for x in sorted(set(cs))]))))
    return [(st, r)]


def rep(ex, st, s, n):
    """n copies of s"""
    r = sp().rep(s, n)
    return r


@ext('strings.Repeat')
def x_repeat(ex, st, args, c, pos):
    ex.oblige(st, 'safety', 'no negative Repeat', args[1] >= 0, None, pos)
    return [(st, sp().rep(args[0], args[1]))]


@ext('bytes.Repeat')
def x_brepeat(ex, st, args, c, pos):
    ex.oblige(st, 'safety', 'no negative Repeat', args[1] >= 0, None, pos)
    return [(st, fresh_bytes(ex, st, sp().rep(by(ex, st, args[0]), args[1])))]


@ext('strings.Join')
def x_join(ex, st, args, c, pos):
    l = ex.view_list(st, args[0]) if isinstance(args[0], Slice) else None
    if l is not None:
        out = []
        for i, x in enumerate(l):
            if i:
                out.append(args[1])
            out.append(x)
        return [(st, cat(*out) if out else StringVal(''))]
    return [(st, Function('join', SeqSort(Str), Str, Str)(ex.content(st, ex.as_slice(st, args[0], '[]string')), args[1]))]


@ext('bytes.Clone', 'slices.Clone')
def x_clone(ex, st, args, c, pos):
    t = c['args'][0]['t']
    s = ex.as_slice(st, args[0], t)
    oid = ex.new(st, ObjA(s.et, ex.view_list(st, s) or ex.content(st, s)))
    cap = fresh('cap', Int)
    st.assume(cap >= s.ln)
    return [(st, Slice(s.et, ('o', oid), IntVal(0), s.ln, cap, s.nil))]


@ext('slices.Clip')
def x_clip(ex, st, args, c, pos):
    s = ex.as_slice(st, args[0], c['args'][0]['t'])
    return [(st, Slice(s.et, s.base, s.off, s.ln, s.ln, s.nil))]


@ext('slices.Concat')
def x_concat(ex, st, args, c, pos):
    l = ex.view_list(st, args[0])
    if l is None:
        raise Unsupported('slices.Concat')
    t = ex.p.elem(c['args'][0]['t'])
    r = ex.zero(st, t)
    for x in l:
        r = ex.append(st, r, ex.as_slice(st, x, t), pos)
    return [(st, r)]


@ext('errors.New', 'fmt.Errorf')
def x_errnew(ex, st, args, c, pos):
    e = fresh('err', Val)
    st.assume(e != nilV)
    return [(st, e)]


@ext('fmt.Sprintf', 'fmt.Sprint')
def x_sprintf(ex, st, args, c, pos):
    return [(st, fresh('sprintf', Str))]


# ------------------------------------------------------------------ sort
@ext('sort.Strings', 'slices.Sort')
def x_sortstrings(ex, st, args, c, pos):
    s = ex.as_slice(st, args[0], '[]string')
    o = ex.writable(st, s, pos, 'sort')
    if o is None:
        return [(st, None)]
    if ival(s.off) != 0:
        raise Unsupported('sorting part of a slice')
    cont = ex.content(st, s)
    srt = fresh('sorted', cont.sort())
    st.assume(srt == sp().sorted_(cont, st), Length(srt) == slen(cont))
    L.LENOF[srt.get_id()] = (srt, simp(slen(cont)))
    st.mem[s.base[1]] = st.mem[s.base[1]].upd(content=cat(srt, suffix(ex.whole(st, o), s.ln)) if not simp(s.ln).eq(simp(ex.arr_len(st, o))) else srt)
    return [(st, None)]


# ------------------------------------------------------------------ regexp
@ext('regexp.MustCompile')
def x_mustcompile(ex, st, args, c, pos):
    b = const_bytes(args[0])
    if b is None:
        raise Unsupported('regexp')
    return [(st, Opaque('regexp', b.decode('latin-1')))]


@ext('(*regexp.Regexp).MatchString', '(*regexp.Regexp).Match')
def x_match(ex, st, args, c, pos):
    import rx
    r = args[0]
    if not isinstance(r, Opaque):
        raise Unsupported('unknown regexp')
    return [(st, rx.match(r.data, by(ex, st, args[1])))]


# ------------------------------------------------------------------ reflect
def RV(ex):
    return ex.th.sort('reflect.Value')


def rfun(ex, n, *sorts):
    return Function('reflect.' + n, *sorts)


def rv(ex, st, v):
    return ex.term(st, v, 'reflect.Value') if not isinstance(v, z3.ExprRef) else v


KIND = dict(Invalid=0, Array=17, Func=19, Interface=20, Map=21, Pointer=22, Slice=23, String=24, Struct=25)


@ext('reflect.ValueOf')
def x_valueof(ex, st, args, c, pos):
    x = ex.term(st, args[0], 'interface{}')
    s = sp()
    r = rfun(ex, 'ValueOf', Val, RV(ex))(x)
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    st.assume((x == nilV) == (k == 0), (k == KIND['Slice']) == s.isSlice(x), s.isSlice(nilV) == FALSE,
              rfun(ex, 'Len', RV(ex), Int)(r) == Length(s.refl(x)), rfun(ex, 'CanInterface', RV(ex), Bool)(r),
              Implies(x != nilV, rfun(ex, 'Interface', RV(ex), Val)(r) == x), k >= 0, k <= 26)
    if in_table(x):
        st.assume(x != nilV if decided(st.pc, ex.th.mhas(s.mapany, *x.children())) else Implies(ex.th.mhas(s.mapany, *x.children()), k == KIND['Func']))
        if decided(st.pc, ex.th.mhas(s.mapany, *x.children())):
            st.assume(k == KIND['Func'])
    dt = args[0].dt if isinstance(args[0], Iface) else x.decl().name()[3:] if is_app(x) and x.decl().name().startswith('bx:') else None
    if dt is not None and dt in ex.p.types:
        u = ex.p.ukind(dt)
        kk = {'slice': 'Slice', 'map': 'Map', 'struct': 'Struct', 'ptr': 'Pointer', 'func': 'Func'}.get(u) or ('String' if ex.p.basic(dt) == 'string' else None)
        if kk:
            st.assume(k == KIND[kk])
    return [(st, r)]


@ext('(reflect.Value).Kind')
def x_kind(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    for n in KIND.values():
        if decided(st.pc, k == n):
            return [(st, IntVal(n))]
    st.assume(k >= 0, k <= 26)
    return [(st, k)]


def need(ex, st, what, f, pos):
    ex.oblige(st, 'safety', 'no reflect panic: ' + what, f, None, pos)


@ext('(reflect.Value).Len')
def x_rlen(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    need(ex, st, 'Len', Or(*[k == KIND[n] for n in ('Array', 'Map', 'Slice', 'String')]), pos)
    n = rfun(ex, 'Len', RV(ex), Int)(r)
    st.assume(n >= 0)
    return [(st, n)]


@ext('(reflect.Value).Index')
def x_rindex(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    need(ex, st, 'Index', And(Or(k == KIND['Slice'], k == KIND['Array']), args[1] >= 0, args[1] < rfun(ex, 'Len', RV(ex), Int)(r)), pos)
    x = rfun(ex, 'Index', RV(ex), Int, RV(ex))(r, args[1])
    ci = rfun(ex, 'CanInterface', RV(ex), Bool)
    it = rfun(ex, 'Interface', RV(ex), Val)
    kx = rfun(ex, 'Kind', RV(ex), Int)(x)
    st.assume(ci(x) == ci(r), kx > 0, kx <= 26)
    if is_app(r) and r.decl().name() == 'reflect.ValueOf':
        v = r.children()[0]
        st.assume(it(x) == sp().refl(v)[args[1]])
    return [(st, x)]


@ext('(reflect.Value).Interface')
def x_rinterface(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    need(ex, st, 'Interface', And(rfun(ex, 'Kind', RV(ex), Int)(r) != 0, rfun(ex, 'CanInterface', RV(ex), Bool)(r)), pos)
    return [(st, rfun(ex, 'Interface', RV(ex), Val)(r))]


@ext('(reflect.Value).CanInterface')
def x_rcaninterface(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    need(ex, st, 'CanInterface', rfun(ex, 'Kind', RV(ex), Int)(r) != 0, pos)
    return [(st, rfun(ex, 'CanInterface', RV(ex), Bool)(r))]


@ext('(reflect.Value).IsValid')
def x_risvalid(ex, st, args, c, pos):
    return [(st, rfun(ex, 'Kind', RV(ex), Int)(rv(ex, st, args[0])) != 0)]


@ext('(reflect.Value).IsNil')
def x_risnil(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    need(ex, st, 'IsNil', Or(*[k == x for x in (18, 19, 20, 21, 22, 23, 26)]), pos)
    e = rfun(ex, 'Elem', RV(ex), RV(ex))(r)
    isn = rfun(ex, 'IsNil', RV(ex), Bool)(r)
    st.assume(Implies(Or(k == 20, k == 22), isn == (rfun(ex, 'Kind', RV(ex), Int)(e) == 0)))
    return [(st, isn)]


@ext('(reflect.Value).Elem')
def x_relem(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    need(ex, st, 'Elem', Or(k == KIND['Pointer'], k == KIND['Interface']), pos)
    elem_facts(ex, st, r)
    return [(st, rfun(ex, 'Elem', RV(ex), RV(ex))(r))]


def elem_facts(ex, st, r):
    e = rfun(ex, 'Elem', RV(ex), RV(ex))(r)
    k = rfun(ex, 'Kind', RV(ex), Int)(e)
    ci = rfun(ex, 'CanInterface', RV(ex), Bool)
    st.assume(Implies(k != 0, ci(e) == ci(r)), k >= 0, k <= 26)


@ext('reflect.Indirect')
def x_indirect(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    elem_facts(ex, st, r)
    return [(st, If(k == KIND['Pointer'], rfun(ex, 'Elem', RV(ex), RV(ex))(r), r))]


@ext('(reflect.Value).Type')
def x_rtype(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    need(ex, st, 'Type', rfun(ex, 'Kind', RV(ex), Int)(r) != 0, pos)
    t = rfun(ex, 'Type', RV(ex), Val)(r)
    st.assume(t != nilV, rfun(ex, 'TKind', Val, Int)(t) == rfun(ex, 'Kind', RV(ex), Int)(r))
    return [(st, t)]


@imeth('(reflect.Type).Kind')
def m_tkind(ex, st, recv, args, pos):
    return [(st, rfun(ex, 'TKind', Val, Int)(recv))]


@imeth('(reflect.Type).Key')
def m_tkey(ex, st, recv, args, pos):
    need(ex, st, 'Type.Key', rfun(ex, 'TKind', Val, Int)(recv) == KIND['Map'], pos)
    t = rfun(ex, 'TKey', Val, Val)(recv)
    st.assume(t != nilV)
    return [(st, t)]


@imeth('(reflect.Type).Elem')
def m_telem(ex, st, recv, args, pos):
    k = rfun(ex, 'TKind', Val, Int)(recv)
    need(ex, st, 'Type.Elem', Or(*[k == x for x in (17, 18, 21, 22, 23)]), pos)
    t = rfun(ex, 'TElem', Val, Val)(recv)
    st.assume(t != nilV)
    return [(st, t)]


@imeth('(reflect.Type).FieldByName')
def m_fieldbyname(ex, st, recv, args, pos):
    need(ex, st, 'FieldByName', rfun(ex, 'TKind', Val, Int)(recv) == KIND['Struct'], pos)
    SF = ex.th.sort('reflect.StructField')
    f = rfun(ex, 'FieldByName', Val, Str, SF)(recv, args[0])
    ok = rfun(ex, 'hasField', Val, Str, Bool)(recv, args[0])
    return [(st, Tup([f, ok]))]


@ext('(reflect.Value).FieldByIndexErr')
def x_fieldbyindexerr(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    need(ex, st, 'FieldByIndexErr', rfun(ex, 'Kind', RV(ex), Int)(r) == KIND['Struct'], pos)
    ix = ex.content(st, ex.as_slice(st, args[1], '[]int'))
    v = rfun(ex, 'FieldByIndex', RV(ex), ix.sort(), RV(ex))(r, ix)
    e = rfun(ex, 'FieldErr', RV(ex), ix.sort(), Val)(r, ix)
    st.assume(Implies(e == nilV, rfun(ex, 'Kind', RV(ex), Int)(v) != 0))
    return [(st, Tup([v, e]))]


@ext('(reflect.Value).FieldByIndex')
def x_fieldbyindex(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    ix = ex.content(st, ex.as_slice(st, args[1], '[]int'))
    e = rfun(ex, 'FieldErr', RV(ex), ix.sort(), Val)(r, ix)
    need(ex, st, 'FieldByIndex', And(rfun(ex, 'Kind', RV(ex), Int)(r) == KIND['Struct'], e == nilV), pos)
    v = rfun(ex, 'FieldByIndex', RV(ex), ix.sort(), RV(ex))(r, ix)
    st.assume(rfun(ex, 'Kind', RV(ex), Int)(v) != 0)
    return [(st, v)]


@ext('(reflect.Value).FieldByName')
def x_vfieldbyname(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    t = rfun(ex, 'Type', RV(ex), Val)(r)
    SF = ex.th.sort('reflect.StructField')
    f = rfun(ex, 'FieldByName', Val, Str, SF)(t, args[1])
    ix = ex.th.seqof('int', ex.th.fld('reflect.StructField', 'Index', f, False)) if 'reflect.StructField' in ex.p.types else None
    if ix is None:
        raise Unsupported('FieldByName')
    ok = rfun(ex, 'hasField', Val, Str, Bool)(t, args[1])
    e = rfun(ex, 'FieldErr', RV(ex), ix.sort(), Val)(r, ix)
    need(ex, st, 'FieldByName', And(rfun(ex, 'Kind', RV(ex), Int)(r) == KIND['Struct'], Implies(ok, e == nilV)), pos)
    v = rfun(ex, 'FieldByIndex', RV(ex), ix.sort(), RV(ex))(r, ix)
    z = fresh('rv', RV(ex))
    k = rfun(ex, 'Kind', RV(ex), Int)
    st.assume(If(ok, z == v, k(z) == 0), Implies(ok, k(v) != 0))
    return [(st, z)]


@ext('(reflect.Value).Convert')
def x_rconvert(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    t = args[1]
    k = rfun(ex, 'Kind', RV(ex), Int)
    tk = rfun(ex, 'TKind', Val, Int)
    # within reach here: conversion between string kinds
    need(ex, st, 'Convert', And(k(r) == KIND['String'], tk(t) == KIND['String']), pos)
    x = rfun(ex, 'Convert', RV(ex), Val, RV(ex))(r, t)
    st.assume(rfun(ex, 'Type', RV(ex), Val)(x) == t, k(x) == tk(t), rfun(ex, 'CanInterface', RV(ex), Bool)(x) == rfun(ex, 'CanInterface', RV(ex), Bool)(r))
    return [(st, x)]


@ext('(reflect.Value).MapIndex')
def x_rmapindex(ex, st, args, c, pos):
    r, kx = rv(ex, st, args[0]), rv(ex, st, args[1])
    k = rfun(ex, 'Kind', RV(ex), Int)
    ty = rfun(ex, 'Type', RV(ex), Val)
    need(ex, st, 'MapIndex', And(k(r) == KIND['Map'], k(kx) != 0, ty(kx) == rfun(ex, 'TKey', Val, Val)(ty(r))), pos)
    x = rfun(ex, 'MapIndex', RV(ex), RV(ex), RV(ex))(r, kx)
    ci = rfun(ex, 'CanInterface', RV(ex), Bool)
    st.assume(Implies(k(x) != 0, Implies(And(ci(r), ci(kx)), ci(x))))
    return [(st, x)]


# ------------------------------------------------------------------ nodes and values of unknown types
def ctx_arg(ex, st, v, pos):
    """the argument must be a context the function holds as an object"""
    if isinstance(v, Ptr) and v.base[0] == 'o':
        return v
    raise Unsupported('context that is not the rendering context')


@imeth('(github.com/go-andiamo/aitch.Node).Render')
def m_render(ex, st, recv, args, pos):
    s = sp()
    c = ctx_arg(ex, st, args[0], pos)
    e, w = ex.env(st, c), ex.world(st, c)
    n = recv if isinstance(recv, z3.ExprRef) else ex.term(st, recv, A + 'Node')
    s.R_()
    w1 = s.Rw(n, e, w)
    ex.set_world(st, c, w1, pos)
    st.assume(Implies(W.errof(w) != nilV, w1 == w))
    return [(st, s.Re(n, e, w))]


@imeth('(github.com/go-andiamo/aitch.Node).Type')
def m_type(ex, st, recv, args, pos):
    return [(st, sp().ty(recv))]


@imeth('(github.com/go-andiamo/aitch.Node).Name')
def m_name(ex, st, recv, args, pos):
    return [(st, sp().nm(recv))]


@imeth('(github.com/go-andiamo/aitch.valuesNode).getValues')
def m_getvalues(ex, st, recv, args, pos):
    return [(st, sp().mkVals(sp().gv(recv)))]


@imeth('(fmt.Stringer).String')
def m_string(ex, st, recv, args, pos):
    return [(st, sp().strOf(recv))]


@imeth('(error).Error')
def m_error(ex, st, recv, args, pos):
    return [(st, Function('errstr', Val, Str)(recv))]


# ------------------------------------------------------------------ functions given by the user
PCTX = '*' + CTXT


def fterm(ex, st, f):
    return f


@dyn('(%s)([]byte)' % PCTX)
def d_dyn(ex, st, f, args, pos):
    s = sp()
    c = ctx_arg(ex, st, args[0], pos)
    e, w = ex.env(st, c), ex.world(st, c)
    ex.set_world(st, c, s.dynW(f, e, w), pos)
    return [(st, bytes_term(ex, st, s.dynB(f, e, w)))]


@dyn('(%s)(bool)' % PCTX)
def d_cond(ex, st, f, args, pos):
    c = ctx_arg(ex, st, args[0], pos)
    return [(st, sp().condB(f, ex.env(st, c)))]


@dyn('(%s)([]any)' % PCTX)
def d_items(ex, st, f, args, pos):
    s = sp()
    c = ctx_arg(ex, st, args[0], pos)
    e, w = ex.env(st, c), ex.world(st, c)
    ex.set_world(st, c, s.itW(f, e, w), pos)
    return [(st, ex.th.sl('interface{}', s.itS(f, e, w), fresh('nil', Bool)))]


@dyn('(%s)([]%sNode)' % (PCTX, A))
def d_collect(ex, st, f, args, pos):
    s = sp()
    c = ctx_arg(ex, st, args[0], pos)
    e, w = ex.env(st, c), ex.world(st, c)
    ex.set_world(st, c, s.colW(f, e, w), pos)
    return [(st, ex.th.sl(A + 'Node', s.colN(f, e, w), fresh('nil', Bool)))]


@dyn('()(interface{})')
def d_any(ex, st, f, args, pos):
    return [(st, sp().callAny(f))]


@dyn('(%sImperativeContext)(error)' % A)
def d_imp(ex, st, f, args, pos):
    """an imperative function: it may call the methods of the context it is given in any order"""
    s = sp()
    a = args[0]
    T = '*' + A + 'imperativeContext'
    if not (isinstance(a, Iface) and a.dt == T and isinstance(a.val, Ptr) and a.val.base[0] == 'o' and not a.val.path):
        raise Unsupported('imperative context')
    o = st.mem[a.val.base[1]]
    sv = ex.as_struct(o.val, o.t)
    fs = {f_['name']: x for f_, x in zip(ex.p.fields(o.t), sv.fields)}
    c = fs['ctx']
    c = ctx_arg(ex, st, c, pos)
    ex.oblige(st, 'post', 'an imperative function starts with no open element', slen(ex.content(st, ex.as_slice(st, fs['openedStack'], '[][]byte'))) == 0,
              ('C09',), pos)
    if not o.owned or o.frozen:
        ex.fail(st, 'frame', 'imperative context of its own', '', pos)
    e, w = ex.env(st, c), ex.world(st, c)
    ex.set_world(st, c, s.impW(f, e, w), pos)
    st.mem.pop(a.val.base[1])
    return [(st, s.impE(f, e, w))]


@dyn('(%s,func(any))()' % PCTX)
def d_yield(ex, st, f, args, pos):
    from closures import yield_call
    return yield_call(ex, st, f, args, pos)


# ------------------------------------------------------------------ html/template
@ext('html/template.New', 'text/template.New')
def x_tnew(ex, st, args, c, pos):
    t = Function('tmpl.New', Str, Ref)(args[0])
    st.assume(t != nilRef)
    return [(st, t)]


@ext('(*html/template.Template).Funcs')
def x_tfuncs(ex, st, args, c, pos):
    m = ex.term(st, args[1], c['args'][1]['t'])
    ex.nonnil(st, args[0], pos)
    t = Function('tmpl.Funcs', Ref, m.sort(), Ref)(args[0], m)
    st.assume(t != nilRef)
    return [(st, t)]


@ext('(*html/template.Template).Parse')
def x_tparse(ex, st, args, c, pos):
    ex.nonnil(st, args[0], pos)
    t = Function('tmpl.Parse', Ref, Str, Ref)(args[0], args[1])
    e = Function('tmpl.ParseErr', Ref, Str, Val)(args[0], args[1])
    st.assume(Implies(e == nilV, t != nilRef))
    return [(st, Tup([t, e]))]


@ext('(*html/template.Template).Execute')
def x_texecute(ex, st, args, c, pos):
    """recorded as it is: which template, which writer, which data"""
    ex.nonnil(st, args[0], pos)
    d = args[2]
    if not (isinstance(d, Iface) and d.dt == PCTX and isinstance(d.val, Ptr) and d.val.base[0] == 'o'):
        ex.fail(st, 'post', 'the template is executed with a context', '', pos, ('C18',))
        return [(st, fresh('err', Val))]
    o = st.mem[d.val.base[1]]
    fs, _ = ex.ctx_fields(st, d.val)
    ev = ex.snap(st, fs['Error'], 'error')
    e = ex.env(st, d.val)
    w = ex.term(st, args[1], 'io.Writer')
    ex.event(st, 'template.Execute', (args[0], w, e, ev, o.owned))
    r = Function('tmpl.ExecErr', Ref, Val, Env, Val)(args[0], w, e)
    return [(st, r)]


# ------------------------------------------------------------------ names of functions
def in_table(v):
    """the value is an entry of a table of vocabulary functions"""
    return is_app(v) and v.num_args() == 2 and v.children()[0].get_id() in sp().tables


@ext('(reflect.Value).Pointer', '(reflect.Value).UnsafePointer')
def x_rpointer(ex, st, args, c, pos):
    r = rv(ex, st, args[0])
    k = rfun(ex, 'Kind', RV(ex), Int)(r)
    need(ex, st, 'Pointer', Or([k == KIND[n] for n in ('Func', 'Pointer', 'Slice', 'Map')]), pos)
    return [(st, rfun(ex, 'Pointer', RV(ex), Int)(r))]


@ext('runtime.FuncForPC')
def x_funcforpc(ex, st, args, c, pos):
    r = Function('FuncForPC', Int, Ref)(args[0])
    v = pc_of(args[0])
    if v is not None:
        st.assume(r != nilRef)
    return [(st, r)]


def pc_of(p):
    """the function value that a program counter comes from"""
    if is_app(p) and p.decl().name() == 'reflect.Pointer' and p.children()[0].decl().name() == 'reflect.ValueOf':
        v = p.children()[0].children()[0]
        return v if in_table(v) else None


@ext('(*runtime.Func).Name')
def x_funcname(ex, st, args, c, pos):
    f = args[0]
    if is_app(f) and f.decl().name() == 'FuncForPC':
        v = pc_of(f.children()[0])
        if v is not None:
            return [(st, cat(zstr('github.com/go-andiamo/aitch/'), sp().codeName(v)))]
    return [(st, Function('funcname', Ref, Str)(f))]


# ------------------------------------------------------------------ golang.org/x/net/html
HT = 'golang.org/x/net/html.'


@ext(HT + 'NewTokenizer')
def x_newtokenizer(ex, st, args, c, pos):
    r = ex.term(st, args[0], 'io.Reader')
    oid = ex.new(st, ObjC('@tokens', IntVal(0)))
    o2 = ex.new(st, ObjC('@tokstate', IntVal(1), desc=sp().tokens(r)))
    assert o2 == oid + 1
    return [(st, Ptr(('o', oid), (), '@tokens'))]


def tz(ex, st, p):
    if not (isinstance(p, Ptr) and p.base[0] == 'o' and st.mem[p.base[1]].t == '@tokens'):
        raise Unsupported('unknown tokenizer')
    o = p.base[1]
    return o, st.mem[o].val, st.mem[o + 1].val, st.mem[o + 1].desc


@ext('(*%sTokenizer).Next' % HT)
def x_toknext(ex, st, args, c, pos):
    o, n, _, toks = tz(ex, st, args[0])
    s = sp()
    end = st.fork()
    end.assume(n >= Length(toks))
    end.mem[o + 1] = end.mem[o + 1].upd(val=IntVal(2))
    st.assume(n < Length(toks))
    t = toks[n]
    tt = ex.th.sel(s.TOK, False, ex.th.fidx(s.TOK, 'Type'), t)
    st.assume(tt >= 1, tt <= 6, n >= 0)
    st.mem[o] = st.mem[o].upd(val=simp(n + 1))
    st.mem[o + 1] = st.mem[o + 1].upd(val=IntVal(0))
    return [(x, v) for x, v in ((st, tt), (end, IntVal(0))) if ex.feasible(x)]


@ext('(*%sTokenizer).Token' % HT)
def x_tok(ex, st, args, c, pos):
    o, n, state, toks = tz(ex, st, args[0])
    ex.oblige(st, 'pre', 'Token is called once for each token', state == 0, ('C17',), pos)
    st.mem[o + 1] = st.mem[o + 1].upd(val=IntVal(1))
    return [(st, toks[simp(n - 1)])]


@ext('(*%sTokenizer).Err' % HT)
def x_tokerr(ex, st, args, c, pos):
    o, n, state, toks = tz(ex, st, args[0])
    s = sp()
    return [(st, If(state == 2, s.tokErr(toks.children()[0]), nilV))]
