"""The contracts of go-andiamo/aitch."""
import json, os
from contract import *
from spec import A, PA, CTXT, HD

CONTRACTS = {}
WEIGHT = {}          # functions that take long are started first
LEMMAS = []


def con(name, np, nr, *tags):
    def d(f):
        CONTRACTS[name] = Contract(name, f, tags, np, nr)
        return f
    return d


def m(t, name, ptr=True):
    return '(%s%s%s).%s' % ('*' if ptr else '', A, t, name)


NODES = ['text', 'comment', 'pi', 'fragment', 'attribute', 'booleanAttribute', 'delimitedAttribute', 'collection', 'contentCollector',
         'conditional', 'iterator', 'yieldIterator', 'imperative', 'voidElement', 'element']
RTAGS = {'text': ('C02',), 'comment': ('C04', 'C02'), 'pi': ('C04', 'C02'), 'fragment': ('C02',), 'attribute': ('C02', 'C04'),
         'booleanAttribute': ('C04',), 'delimitedAttribute': ('C07', 'C02'), 'collection': ('C04',), 'contentCollector': ('C04',),
         'conditional': ('C06',), 'iterator': ('C08',), 'yieldIterator': ('C08',), 'imperative': ('C09',), 'voidElement': ('C04', 'C05', 'C06', 'C13'),
         'element': ('C04', 'C05', 'C06', 'C13')}


def render_contract(T, tags):
    """Render of a node type of the repository: the output is what the type stands for, the
    result is the error kept in the context"""
    def f(c):
        s = c.s
        c.world(1, s.node_spec(T)(c.a(0), c.env(1), c.w(1)), tags + ('C10',))
        w = c.worlds[1][0]
        c.ensures('returns the error kept in the context', ('C10',), lambda r: r[0] == W.errof(w))
    return f


for t in NODES:
    CONTRACTS[m(t, 'Render')] = Contract(m(t, 'Render'), render_contract(PA + t, RTAGS[t]), RTAGS[t] + ('C10',), 2, 1)

    def name_c(c, t=t):
        c.ret(0, c.s.nm_of(PA + t, c.a(0)))

    def type_c(c, t=t):
        c.ret(0, c.s.ty_of(PA + t))
    tg = ('C04', 'C05', 'C16') if t in ('element', 'voidElement', 'attribute', 'booleanAttribute', 'delimitedAttribute') else ('C04',)
    CONTRACTS[m(t, 'Name')] = Contract(m(t, 'Name'), name_c, tg, 1, 1)
    CONTRACTS[m(t, 'Type')] = Contract(m(t, 'Type'), type_c, tg + ('C18',), 1, 1)
for t in ('text', 'comment', 'pi', 'fragment', 'attribute', 'delimitedAttribute'):
    def gv_c(c, t=t):
        c.ret(0, c.s.fseq(t, 'values', c.a(0)))
    CONTRACTS[m(t, 'getValues')] = Contract(m(t, 'getValues'), gv_c, ('C02', 'C06', 'C09'), 1, 1)


# ------------------------------------------------------------------ output
@con('(*github.com/go-andiamo/aitch/context.Context).Write', 2, 0, 'C10', 'C04', 'C02')
def _(c):
    c.world(0, c.s.emit(c.w(0), c.seq(1) if not isinstance(c.args[1], z3.ExprRef) else c.args[1]))


@con(A + 'renderNode', 2, 1, 'C10', 'C04')
def _(c):
    n = c.a(1)
    c.requires('the node is not nil', n != nilV)
    w = c.s.R(n, c.env(0), c.w(0))
    c.world(0, w)
    c.ensures('returns the error kept in the context', ('C10',), lambda r: r[0] == W.errof(w))


@con(m('Value', 'render', False), 2, 2, 'C02', 'C03', 'C10')
def _(c):
    s = c.s
    v, e, w = c.a(0), c.env(1), c.w(1)
    c.reveal(s.VRw, s.VRb)
    w1 = s.VRw(v, e, w)
    c.world(1, w1)
    c.ensures('reports whether something was written', ('C07',), lambda r: Or(W.errof(w1) != nilV, r[0] == s.VRb(v, e, w)))
    c.ensures('returns the error kept in the context', ('C10',), lambda r: r[1] == W.errof(w1))


# ------------------------------------------------------------------ values
@con(A + 'htmlEscapeString', 1, 1, 'C01')
def _(c):
    c.ret(0, c.s.esc(c.a(0)))


@con(A + 'valueToBytes', 1, 1, 'C02', 'C01')
def _(c):
    c.reveal(c.s.vb)
    c.ret(0, c.s.vb(c.a(0)))


@con(A + 'newValue', 1, 1, 'C02', 'C03')
def _(c):
    c.reveal(c.s.nv)
    c.ret(0, c.s.nv(c.a(0)))


@con(A + 'newValues', 1, 1, 'C02')
def _(c):
    c.ret(0, c.s.NVs(c.seq(0)))
    c.ensures('never nil', ('C09',), lambda r: Not(c.th.nilof(A + 'Value', r[0])))


@con(A + 'NewValue', 1, 1, 'C02')
def _(c):
    vs = c.s.nv(c.a(0))
    c.ensures('the value, or all of several values', c.ens and () or ('C02',),
              lambda r: If(Length(vs) == 1, r[0] == vs[0], And(c.s.v_concats(r[0]) == vs, c.s.v_dyn(r[0]) == nilFn, c.s.v_value(r[0]) == StringVal(''))))


@con(A + 'NewConcatValue', 1, 1, 'C02')
def _(c):
    vs = c.s.NVs(c.seq(0))
    c.ensures('all the values', ('C02',),
              lambda r: And(c.s.v_concats(r[0]) == vs, c.s.v_dyn(r[0]) == nilFn, c.s.v_value(r[0]) == StringVal('')))


# ------------------------------------------------------------------ constructors of simple nodes
def values_node(t, tags):
    def f(c):
        c.ret_node(t, tags, values=c.s.NVs(c.seq(0)))
    return f


for n, t in (('Text', 'text'), ('Comment', 'comment'), ('Fragment', 'fragment')):
    CONTRACTS[A + n] = Contract(A + n, values_node(t, ('C02', 'C04')), ('C02', 'C04'), 1, 1)


@con(A + 'PI', 2, 1, 'C04', 'C02')
def _(c):
    c.ret_node('pi', ('C04', 'C02'), name=c.a(0), values=c.s.NVs(c.seq(1)))


@con(A + 'NewAttribute', 2, 1, 'C02', 'C16')
def _(c):
    c.ret_node('attribute', ('C02', 'C16'), name=c.a(0), values=c.s.NVs(c.seq(1)))
    c.ensures('values present', ('C09',), lambda r: Not(c.th.nilof(A + 'Value', c.th.fld(A + 'attribute', 'values', c.th.unbox(PA + 'attribute', r[0])))))


@con(A + 'NewBooleanAttribute', 1, 1, 'C16')
def _(c):
    c.ret_node('booleanAttribute', ('C16', 'C04'), name=c.a(0))


@con(A + 'NewDelimitedAttribute', 3, 1, 'C02', 'C07', 'C16')
def _(c):
    c.ret_node('delimitedAttribute', ('C02', 'C07', 'C16'), name=c.a(0), delimiter=c.a(1), values=c.s.NVs(c.seq(2)))


@con(A + 'Collection', 1, 1, 'C04', 'C21')
def _(c):
    c.ret_node('collection', ('C04', 'C21'), nodes=c.s.NN(c.seq(0)))


# ------------------------------------------------------------------ elements
@con(m('conditionalAttribute', 'evaluate', False), 2, 1, 'C06')
def _(c):
    c.requires('the conditions are not nil', c.s.AllFn(c.s.ca_conds(c.a(0))))
    c.ret(0, c.s.AllB(c.s.ca_conds(c.a(0)), c.env(1)))


@con(m('conditionalAttributes', 'evaluate', False), 2, 2, 'C06', 'C13')
def _(c):
    s = c.s
    cs, e = c.seq(0), c.env(1)
    c.requires('conditional attributes are attributes', s.AllCA(cs))
    dom, vals, names = s.EV.app(cs, [e], [s.EVdom0, s.EVvals0, Empty(s.SeqS)])
    c.ret(0, c.th.mapinfo('map[string][]' + A + 'Node')['mk'](dom, vals), ('C06',), 'the attributes that apply, by name')
    c.ret(1, names, ('C13', 'C06'), 'their names in order of declaration')


@con(A + 'renderAttributes', 4, 0, 'C04', 'C05', 'C06', 'C07', 'C13')
def _(c):
    s = c.s
    attrs, conds = c.seq(1), c.seq(3)
    c.requires('attributes are attributes', s.AllAttr(attrs))
    c.requires('conditional attributes are attributes', s.AllCA(conds))
    c.world(0, s.RAtt(attrs, c.a(2), conds, c.env(0), c.w(0)), ('C04', 'C05', 'C06', 'C07', 'C13'))


@con(m('delimitedAttribute', 'merge'), 2, 1, 'C05', 'C12')
def _(c):
    s = c.s
    x, y = c.a(0), c.a(1)
    f = {n: s.f('delimitedAttribute', n, x) for n in ('name', 'delimiter')}
    vs = cat(s.fseq('delimitedAttribute', 'values', x), s.fseq('delimitedAttribute', 'values', y))
    c.ret(0, c.th.mk(A + 'delimitedAttribute', True, [s.mkVals(vs) if q['name'] == 'values' else f[q['name']] for q in c.th.p.fields(A + 'delimitedAttribute')]),
          ('C05',), 'a new attribute with the values of both')



@con(A + 'contentsToNodes', 1, 1, 'C04', 'C02', 'C21')
def _(c):
    c.ret(0, c.s.C2N(c.seq(0)))


@con(A + 'attributesAndContents', 2, 3, 'C04', 'C05', 'C06')
def _(c):
    s = c.s
    conds, ns = c.seq(0), c.seq(1)
    c.requires('the conditions are not nil', s.AllFn(conds))
    c.ret(0, s.AC_a(ns, conds), ('C05', 'C04', 'C06'), 'the attributes that always apply')
    c.ret(1, s.AC_ca(ns, conds), ('C06', 'C04'), 'the attributes that apply under conditions')
    c.ret(2, s.AC_c(ns), ('C04', 'C06'), 'the contents')
    seqof = lambda r, t: r if r.sort().kind() == z3.Z3_SEQ_SORT else c.th.seqof(t, r)
    c.ensures('attributes are attributes', ('C21', 'C04'), lambda r: s.AllAttr(seqof(r[0], A + 'Node')))
    c.ensures('conditional attributes are attributes', ('C21', 'C06'), lambda r: s.AllCA(seqof(r[1], A + 'conditionalAttribute')))
    c.ensures('contents are not nil', ('C21',), lambda r: s.AllNN(seqof(r[2], A + 'Node')))


def element_contract(t):
    def f(c):
        c.ret_node(t, ('C04', 'C05', 'C06'), **c.s.element_fields(t, c.a(0), c.seq(1)))
    return f


for n, t in (('NewElement', 'element'), ('NewVoidElement', 'voidElement')):
    CONTRACTS[A + n] = Contract(A + n, element_contract(t), ('C04', 'C05', 'C06', 'C16'), 2, 1)


# ------------------------------------------------------------------ names that are checked
def checked(fn, np, node, *tags):
    """a node exactly when the name is valid; otherwise nil, or a panic when configured to"""
    @con(A + fn, np, 1, 'C15', *tags)
    def _(c):
        s = c.s
        ok = s.validName(c.a(0))
        c.panics_if = And(Not(ok), s.panicOn)
        c.ret(0, If(ok, node(c), nilV), ('C15',) + tags, 'a node of that name exactly when the name is valid')


checked('Attribute', 2, lambda c: c.s.node(PA + 'attribute', name=c.a(0), values=c.s.NVs(c.seq(1))), 'C02')
checked('BooleanAttribute', 1, lambda c: c.s.node(PA + 'booleanAttribute', name=c.a(0)))
checked('DelimitedAttribute', 3, lambda c: c.s.node(PA + 'delimitedAttribute', name=c.a(0), delimiter=c.a(1), values=c.s.NVs(c.seq(2))), 'C02')
checked('VoidElement', 2, lambda c: c.s.element('voidElement', c.a(0), c.seq(1)), 'C04')
checked('Element', 2, lambda c: If(c.s.htmlVoid(c.a(0)), c.s.element('voidElement', c.a(0), c.seq(1)), c.s.element('element', c.a(0), c.seq(1))), 'C04')


# ------------------------------------------------------------------ conditions, iteration, imperative code
def cond_node(c, fn, nodes):
    s = c.s
    return s.node(PA + 'conditional', nodes=s.NNN(nodes), attributes=s.NNA(nodes), fn=fn)


@con(A + 'Conditional', 2, 1, 'C06', 'C21')
def _(c):
    s = c.s
    c.ret(0, If(c.a(0) == nilFn, s.node(PA + 'collection', nodes=s.NN(c.seq(1))), cond_node(c, c.a(0), c.seq(1))),
          ('C06', 'C21'), 'contents and attributes under the condition, unconditional when there is none')


@con(A + 'When', 2, 1, 'C06')
def _(c):
    s, k = c.s, c.a(0)
    neg = z3.PrefixOf(StringVal('!'), k)
    c.ret(0, If(neg, cond_node(c, s.notKey(suffix(k, IntVal(1))), c.seq(1)), cond_node(c, s.hasKey(k), c.seq(1))),
          ('C06', 'C21'), 'holds when the key is present and not false; its negation with !')


for n, t in (('Iterate', 'iterator'), ('IterateYield', 'yieldIterator')):
    def it_c(c, t=t):
        c.panics_if = c.a(0) == nilFn
        c.ret(0, c.s.node(PA + t, nodes=c.s.NNN(c.seq(1)), fn=c.a(0)), ('C08', 'C21'), 'iterates the nodes that are not attributes')
    CONTRACTS[A + n] = Contract(A + n, it_c, ('C08', 'C21'), 2, 1)


@con(A + 'IterateKey', 2, 1, 'C08', 'C21')
def _(c):
    c.ret(0, c.s.node(PA + 'iterator', nodes=c.s.NNN(c.seq(1)), fn=c.s.iterKey(c.a(0))), ('C08', 'C21'), 'iterates over what is under the key')


@con(A + 'ContentCollect', 1, 1, 'C04', 'C21')
def _(c):
    s = c.s
    c.ret(0, If(c.a(0) == nilFn, s.node(PA + 'collection', nodes=Empty(s.SeqN)), s.node(PA + 'contentCollector', collector=c.a(0))), ('C04', 'C21'), 'collects, or is empty without a collector')


@con(A + 'Imperative', 1, 1, 'C09')
def _(c):
    c.ret(0, c.s.node(PA + 'imperative', fn=c.a(0)), ('C09',), 'runs the function')


def ic(name):
    return m('imperativeContext', name)


@con(ic('WriteString'), 2, 0, 'C09', 'C01')
def _(c):
    c.world(0, c.s.emit(c.w(0), c.s.esc(c.a(1))), ('C09', 'C01'))
    c.stack_is(0, c.stack(0), ('C09',))


@con(ic('WriteRaw'), 2, 0, 'C09')
def _(c):
    c.world(0, c.s.emit(c.w(0), c.a(1)), ('C09',))
    c.stack_is(0, c.stack(0), ('C09',))


@con(ic('WriteNodes'), 2, 0, 'C09', 'C04')
def _(c):
    c.world(0, c.s.RFx.app(c.seq(1), [c.env(0)], [c.w(0)])[0], ('C09', 'C04'))
    c.stack_is(0, c.stack(0), ('C09',))


@con(ic('Start'), 4, 0, 'C09', 'C05', 'C07')
def _(c):
    s = c.s
    w, e, name, void = c.w(0), c.env(0), c.a(1), c.a(2)
    w1 = s.emit(w, cat(zstr('<'), name))
    seq = s.M3.app(s.NNA(c.seq(3)), [], [Empty(s.SeqN), s.EVdom0, s.Mvals0])[0]
    c.world(0, s.emit(s.RFs.app(seq, [e], [w1])[0], '>'), ('C09', 'C05', 'C07'))
    st = c.stack(0)
    c.stack_is(0, If(void, st, cat(st, Unit(name))), ('C09',))


@con(ic('End'), 1, 0, 'C09')
def _(c):
    s = c.s
    st, w = c.stack(0), c.w(0)
    n = Length(st)
    c.world(0, If(n > 0, s.emit(w, cat(zstr('</'), st[n - 1], zstr('>'))), w), ('C09',))
    c.stack_is(0, If(n > 0, prefix(st, n - 1), st), ('C09',))


@con(ic('EndAll'), 1, 0, 'C09')
def _(c):
    s = c.s
    c.world(0, s.CL.app(c.stack(0), [], [c.w(0)])[0], ('C09',))
    c.stack_is(0, Empty(s.SeqS), ('C09',))


@con(ic('Context'), 1, 1, 'C09')
def _(c):
    p = c.icfield(0, 'ctx')
    c.make[0] = lambda ex, st: p
    c.raw('the rendering context', ('C09',), lambda ex, st, vals: BoolVal(isinstance(vals[0], Ptr) and vals[0].base[0] == 'o' and vals[0].base[1] == p.base[1] and not vals[0].path))


# ------------------------------------------------------------------ contexts
CX = 'github.com/go-andiamo/aitch/context.'


@con(CX + 'New', 3, 1, 'C14', 'C18')
def _(c):
    th = c.th
    want = {'Data': c.a(1), 'Cargo': c.a(2), 'Writer': c.a(0), 'Error': nilV, 'Parent': nilRef}

    def mk(ex, st):
        return Ptr(('o', ex.new(st, ObjC(CTXT, Struct(CTXT, [want.get(f['name'], th.zero(f['type'])) for f in ex.p.fields(CTXT)])))), (), CTXT)

    def post(ex, st, vals):
        v = vals[0]
        if not (isinstance(v, Ptr) and v.base[0] == 'o' and not v.path and st.mem[v.base[1]].owned and st.mem[v.base[1]].t == CTXT):
            return FALSE
        s = ex.as_struct(st.mem[v.base[1]].val, CTXT)
        return And([ex.snap(st, x, f['type']) == want[f['name']] for f, x in zip(ex.p.fields(CTXT), s.fields) if f['name'] in want])
    c.make[0] = mk
    c.raw('a new context of the data, the cargo and the writer, without error or parent', ('C14', 'C18'), post)


def lookup(c):
    """(found, value) of the typed lookup of key c.a(1) in the context c.args[0]"""
    import ext
    ex, s, th = c.ex, c.s, c.th
    T = c.f['results'][0]['type']
    isT = lambda v: And(v != nilV, th.tp_is(T)(v))
    asT = th.tp_as(T)
    zero = th.zero(T)
    if isinstance(c.args[0], z3.ExprRef):
        return FALSE, zero
    e, key = c.env(0), c.a(1)
    d = s.data(e)
    dv = th.mget(s.mapany, d, key)
    inD = And(th.mhas(s.mapany, d, key), isT(dv))
    RV = th.sort('reflect.Value')
    rf = lambda n, *so: ext.rfun(ex, n, *so)
    kind = rf('Kind', RV, Int)
    ty, tkind, tkey = rf('Type', RV, Val), rf('TKind', Val, Int), rf('TKey', Val, Val)
    itf = rf('Interface', RV, Val)
    r0 = rf('ValueOf', Val, RV)(s.cargo(e))
    r = If(kind(r0) == ext.KIND['Pointer'], rf('Elem', RV, RV)(r0), r0)
    kv = rf('Convert', RV, Val, RV)(rf('ValueOf', Val, RV)(th.box('string', key)), tkey(ty(r)))
    mv = rf('MapIndex', RV, RV, RV)(r, kv)
    inM = And(kind(r) == ext.KIND['Map'], tkind(tkey(ty(r))) == ext.KIND['String'], kind(mv) != 0, isT(itf(mv)))
    SF = th.sort('reflect.StructField')
    sf = rf('FieldByName', Val, Str, SF)(ty(r), key)
    ix = th.seqof('int', th.fld('reflect.StructField', 'Index', sf, False))
    fv = rf('FieldByIndex', RV, ix.sort(), RV)(r, ix)
    inF = And(kind(r) == ext.KIND['Struct'], rf('hasField', Val, Str, Bool)(ty(r), key), rf('FieldErr', RV, ix.sort(), Val)(r, ix) == nilV,
              rf('CanInterface', RV, Bool)(fv), isT(itf(fv)))
    cg = s.cargo(e) != nilV
    return Or(inD, And(cg, Or(inM, inF))), If(inD, asT(dv), If(And(cg, inM), asT(itf(mv)), If(And(cg, inF), asT(itf(fv)), zero)))


@con(CX + 'Get', 2, 2, 'C14')
def _(c):
    ok, v = lookup(c)
    c.ret(1, ok, ('C14',), 'found exactly when the data, or else the cargo, has it with that type')
    c.ret(0, v, ('C14',), 'the value found, otherwise the zero value')


@con(CX + 'MustGet', 2, 1, 'C14')
def _(c):
    ok, v = lookup(c)
    c.panics_if = Not(ok)
    c.ret(0, v, ('C14',), 'the value found')


CONTRACTS[CX + 'Get'].nilable = CONTRACTS[CX + 'MustGet'].nilable = (0,)


WEIGHT.update({A + "attributesAndContents": 30, m('iterator', 'Render'): 50, A + 'renderAttributes': 40, m('conditionalAttributes', 'evaluate', False): 20})


# ------------------------------------------------------------------ vocabulary (C16, C20)
CATALOG = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'catalog.json')))
RP = 'github.com/go-andiamo/aitch/'
NA_, NB_, ND_ = PA + 'attribute', PA + 'booleanAttribute', PA + 'delimitedAttribute'


def boxseq(c, *xs):
    """[]byte and string values as contents"""
    return cat(*[Unit(c.th.box(t, zstr(x) if isinstance(x, (str, bytes)) else x)) for t, x in xs])


def concat_value(c, contents):
    return c.s.mkV(concats=c.s.mkVals(c.s.NVs(contents)))


def is_value(c, r, vs):
    """r is the value made of the values vs"""
    s = c.s
    return And(s.v_concats(r) == vs, s.v_dyn(r) == nilFn, s.v_value(r) == StringVal(''))


def vocabulary(q, d):
    kind, name = d['kind'], zstr(d['name'])
    last = lambda c: len(c.f['params']) - 1

    def f(c):
        s = c.s
        tags = ('C16',)
        if kind == 'element':
            c.ret(0, s.element('element', name, c.seq(0)), tags, 'the element %s with all the contents' % d['name'])
        elif kind == 'void':
            c.ret(0, s.element('voidElement', name, c.seq(0)), tags, 'the void element %s with all the attributes' % d['name'])
        elif kind == 'attribute':
            c.ret_node('attribute', tags, name=name, values=s.NVs(c.seq(0)))
        elif kind == 'boolean':
            c.ret_node('booleanAttribute', tags, name=name)
        elif kind == 'delimited':
            c.ret_node('delimitedAttribute', tags, name=name, delimiter=zstr(d['delimiter']), values=s.NVs(c.seq(0)))
        elif kind == 'css':
            css_attribute(c, name, c.seq(0))
        elif kind == 'unit':
            vs = cat(s.NVs(c.seq(0)), s.NVs(boxseq(c, ('[]byte', name))))
            c.ensures('all the values, then the unit %s' % d['name'], ('C20',), lambda r: is_value(c, r[0], vs))
    np, nr = (0 if kind == 'boolean' else 1), 1
    tags = ('C20',) if kind in ('css', 'unit') else ('C16',)
    n = RP + q
    CONTRACTS[n] = Contract(n, f, tags, np, nr)


def css_attribute(c, name, values):
    """a delimited style attribute whose only value is the property name (which ends in a colon) and all the values"""
    s, th = c.s, c.th
    vs = cat(s.NVs(boxseq(c, ('[]byte', name))), s.NVs(values))
    T = A + 'delimitedAttribute'
    c.retobj[0] = ND_
    at = lambda r: th.unbox(ND_, r[0])
    one = lambda r: s.fseq('delimitedAttribute', 'values', at(r))
    c.ensures('is a delimited attribute', ('C20',), lambda r: th.tag(r[0]) == th.tid(ND_))
    c.ensures('is named style', ('C20',), lambda r: s.f('delimitedAttribute', 'name', at(r)) == zstr('style'))
    c.ensures('is separated from other declarations by "; "', ('C20',), lambda r: s.f('delimitedAttribute', 'delimiter', at(r)) == zstr('; '))
    c.ensures('is one value: the property, a colon and all the values', ('C20',), lambda r: And(Length(one(r)) == 1, is_value(c, one(r)[0], vs)))


for q, d in CATALOG.items():
    vocabulary(q, d)


@con(RP + 'css.styleAttribute', 2, 1, 'C20')
def _(c):
    css_attribute(c, c.a(0), c.seq(1))


@con(RP + 'css.unitValue', 2, 1, 'C20')
def _(c):
    vs = cat(c.s.NVs(c.seq(0)), c.s.NVs(boxseq(c, ('[]byte', c.a(1)))))
    c.ensures('all the values, then the unit', ('C20',), lambda r: is_value(c, r[0], vs))


for n, pfx in (('html.Aria', 'aria-'), ('html.Data', 'data-'), ('htmx.On', 'hx-on:')):
    def pre_c(c, pfx=pfx):
        c.ret_node('attribute', ('C16',), name=cat(zstr(pfx), c.a(0)), values=c.s.NVs(c.seq(1)))
    CONTRACTS[RP + n] = Contract(RP + n, pre_c, ('C16', 'C12'), 2, 1)
for pkg in ('html', 'svg'):
    for n, t in (('Text', 'text'), ('Comment', 'comment')):
        q = RP + pkg + '.' + n
        CONTRACTS[q] = Contract(q, values_node(t, ('C16',)), ('C16',), 1, 1)


@con(RP + 'html.PI', 2, 1, 'C16')
def _(c):
    c.ret_node('pi', ('C16',), name=c.a(0), values=c.s.NVs(c.seq(1)))


@con(RP + 'htmx.Var', 2, 1, 'C16')
def _(c):
    vs = cat(c.s.NVs(boxseq(c, ('string', c.a(0)), ('[]byte', ': '))), c.s.nv(c.a(1)))
    c.ensures('the name, a colon and the value', ('C16',), lambda r: is_value(c, r[0], vs))


# ------------------------------------------------------------------ header maps
@con('(%shtmx.HeadersMap).serialize' % RP, 2, 1, 'C19')
def _(c):
    c.ret(0, c.s.headers(c.a(0), c.seq(1)), ('C19',), 'every key once, in order, with its value')


def headers_attribute(c, vs, other=None):
    s, th = c.s, c.th
    T = A + 'attribute'
    at = lambda r: th.unbox(NA_, r[0])
    one = lambda r: s.fseq('attribute', 'values', at(r))
    c.retobj[0] = NA_
    c.ensures('is an attribute', ('C19', 'C16'), lambda r: th.tag(r[0]) == th.tid(NA_))
    c.ensures('is named hx-headers', ('C19', 'C16'), lambda r: s.f('attribute', 'name', at(r)) == zstr('hx-headers'))
    ok = lambda r: And(Length(one(r)) == 1, is_value(c, one(r)[0], vs))
    c.ensures('holds the merged headers', ('C19',), lambda r: If(other[0], ok(r), one(r) == other[1]) if other else ok(r))


@con(RP + 'htmx.Headers', 1, 1, 'C19', 'C16')
def _(c):
    s, xs = c.s, c.seq(0)
    hm, ot = s.anyHM(xs), s.anyOther(xs)
    c.panics_if = And(hm, ot)
    dom, vals = s.MGv(xs, s.EVdom0, s.HVals0)
    m = c.th.mapinfo(s.mapany)['mk'](dom, vals)
    headers_attribute(c, s.NVs(s.headers(m, StringVal(''))), (hm, s.NVs(xs)))


@con(RP + 'htmx.HeadersJS', 1, 1, 'C19', 'C16')
def _(c):
    s, xs = c.s, c.seq(0)
    dom, vals = s.MGm(xs, s.EVdom0, s.HVals0)
    d1, v1 = s.MGm(Unit(xs[0]), s.EVdom0, s.HVals0)
    c.st.assume(Implies(Length(xs) == 1, And(dom == d1, vals == v1)))       # a sequence of one element
    m = c.th.mapinfo(s.mapany)['mk'](dom, vals)
    headers_attribute(c, s.NVs(s.headers(m, zstr('js:'))))


# ------------------------------------------------------------------ templates
@con(A + 'contextFunc', 1, 1, 'C18')
def _(c):
    c.requires('the node is not nil', c.a(0) != nilV)
    c.ret(0, c.s.marker(c.a(0)) if c.verifying else c.s.CF(c.a(0)), ('C18',), 'a marker of the type of the node that renders the node in its context')


@con(A + 'contextFuncMap', 1, 1, 'C18')
def _(c):
    c.ret(0, c.s.markers(c.a(0)), ('C18',), 'a marker for every node that is not nil')


def parsed(c):
    s, R_ = c.s, Ref
    fm = s.markers(c.a(2))
    t0 = Function('tmpl.Funcs', R_, fm.sort(), R_)(Function('tmpl.New', Str, R_)(c.a(0)), fm)
    return Function('tmpl.Parse', R_, Str, R_)(t0, c.a(1)), Function('tmpl.ParseErr', R_, Str, Val)(t0, c.a(1))


@con(A + 'NewTemplate', 3, 2, 'C18')
def _(c):
    t, e = parsed(c)
    c.ret(0, If(e == nilV, c.th.mk(A + 'Template', True, [t]), nilRef), ('C18',), 'the template of the text, with a marker for every node')
    c.ret(1, e, ('C18',), 'the error of parsing')


@con(A + 'MustNewTemplate', 3, 1, 'C18')
def _(c):
    t, e = parsed(c)
    c.panics_if = e != nilV
    c.ret(0, c.th.mk(A + 'Template', True, [t]), ('C18',), 'the template of the text, with a marker for every node')


@con(m('Template', 'Execute'), 4, 1, 'C18')
def _(c):
    s = c.s
    tm = s.f('Template', 'template', c.a(0))
    env = s.mkenv(c.a(2), c.a(3), c.a(1), nilRef)
    c.ret(0, Function('tmpl.ExecErr', Ref, Val, Env, Val)(tm, c.a(1), env), ('C18',), 'the error of the template engine')

    def post(ex, st, vals):
        ev = ex.events(st)
        if len(ev) != 1 or ev[0][0] != 'template.Execute':
            return FALSE
        t, w, e, err, owned = ev[0][1]
        return And(BoolVal(bool(owned)), t == tm, w == c.a(1), e == env, err == nilV)
    c.raw('executes the template once, with a new context of exactly the data, cargo and writer', ('C18',), post)


# ------------------------------------------------------------------ non-breaking spaces
def own_bytes(c):
    def mine(ex, st, vals):
        v = vals[0]
        if not isinstance(v, Slice) or is_true(simp(v.ln == 0)):
            return BoolVal(isinstance(v, Slice))
        o = st.mem[v.base[1]] if v.base[0] == 'o' else None
        return BoolVal(bool(o is not None and o.owned and not o.frozen))
    c.raw('the bytes belong to the caller', ('C12', 'C02'), mine)


@con(A + 'Nbsp', 0, 1, 'C02', 'C12')
def _(c):
    c.ret(0, zstr('&nbsp;'), ('C02',), 'a non-breaking space')
    own_bytes(c)


@con(A + 'Nbsps', 1, 1, 'C02', 'C12')
def _(c):
    c.ret(0, c.s.rep('&nbsp;', c.a(0)), ('C02',), 'exactly so many non-breaking spaces')
    own_bytes(c)


# ------------------------------------------------------------------ documents
def hd(name):
    return '(*%s).%s' % (HD, name)


CONTRACTS[hd('Render')] = Contract(hd('Render'), render_contract('*' + HD, ('C04',)), ('C04', 'C10'), 2, 1)
CONTRACTS[hd('Name')] = Contract(hd('Name'), lambda c: c.ret(0, zstr('#document')), ('C04',), 1, 1)
CONTRACTS[hd('Type')] = Contract(hd('Type'), lambda c: c.ret(0, IntVal(5)), ('C04', 'C18'), 1, 1)


@con(RP + 'html.Document', 3, 1, 'C04', 'C21')
def _(c):
    s = c.s
    lang, head, body = c.a(0), c.seq(1), c.seq(2)
    pro = s.node(PA + 'pi', name=zstr('DOCTYPE'), values=s.NVs(boxseq(c, ('string', 'html'))))
    la = If(lang != nilV, s.node(NA_, name=zstr('lang'), values=s.NVs(Unit(lang))), nilV)
    he = If(Length(head) > 0, s.element('element', zstr('head'), head), nilV)
    root = s.element('element', zstr('html'), cat(Unit(la), Unit(he), Unit(s.element('element', zstr('body'), body))))
    c.ret(0, s.node('*' + HD, prologue=pro, contents=Unit(root)), ('C04', 'C21'), 'the doctype, then the html element of the language, the head and the body')


# ------------------------------------------------------------------ code generation
def entries(ex, st, v, t):
    """the entries of a map that is built from constants: key -> value"""
    if isinstance(v, MapRef):
        dom, vals = st.mem[v.obj].dom, st.mem[v.obj].vals
    else:
        dom, vals = ex.th.marrays(t, v)
    d, out = {}, {}
    while z3.is_store(vals):
        vals, k, x = vals.children()
        kb = const_bytes(k)
        if kb is None:
            raise Unsupported('table with unknown keys')
        out.setdefault(kb.decode(), x)
    seen = {}
    while z3.is_store(dom):
        dom, k, x = dom.children()
        seen.setdefault(const_bytes(k).decode(), is_true(x))
    if not dom.eq(z3.K(Str, FALSE)):
        raise Unsupported('table with unknown keys')
    return {k: out[k] for k, y in seen.items() if y}


def fn_of(v):
    """name of the package level function in an interface value"""
    if is_app(v) and v.decl().name().startswith('bx:'):
        f = v.children()[0]
        if is_app(f) and f.decl().name().startswith('fn:'):
            return f.decl().name()[3:]


# names the generators know: entries may be added, not lost
KNOWN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'replay', 'known.json')))
PREFIXED = {'html.Aria': 'aria-', 'html.Data': 'data-'}


def tables(pkg):
    def f(c):
        g = c.s.gens[pkg]
        kinds = (('element', 'void'), ('attribute', 'boolean', 'delimited', 'css'))
        maps = [('elements', g.elems), ('attributes', g.attrs)] + ([('booleans', g.bools)] if pkg == 'html' else [])
        for i, (n, m) in enumerate(maps):
            c.make[i] = lambda ex, st, m=m: m

        def ok(ex, st, vals):
            good = True
            es, ats = (entries(ex, st, vals[i], c.s.mapany) for i in (0, 1))
            bs = entries(ex, st, vals[2], 'map[string]bool') if pkg == 'html' else {}
            why = []
            for ents, ks in ((es, kinds[0]), (ats, kinds[1])):
                for k, v in ents.items():
                    fn = (fn_of(v) or '').replace(RP, '')
                    d = CATALOG.get(fn)
                    if PREFIXED.get(fn) == k and ks is kinds[1] or d and fn.startswith(pkg + '.') and d['name'].rstrip(':') == k and d['kind'] in ks:
                        b = ks is kinds[1] and k in bs and is_true(bs[k])
                        if b == bool(d and d['kind'] == 'boolean' and ks is kinds[1]):
                            continue
                    why.append('%s: %s' % (k, fn))
            for ents, n in ((es, 'elements'), (ats, 'attributes')):
                why += ['%s is not known' % k for k in KNOWN[pkg][n] if k not in ents]
            ex.whynot = why
            return BoolVal(not why)
        c.raw('every entry is the function that builds what it is listed under', ('C17',), ok)
    return f


def generate(pkg):
    def f(c):
        g = c.s.gens[pkg]
        r, w = c.a(0), c.a(1)

        def post(ex, st, vals):
            if len(st.G) != 1:
                return FALSE
            (k, gs), = st.G.items()
            stdout = ex.th.box('*os.File', Const('glob:os.Stdout', Ref))
            if k == w.get_id():
                to = w != nilV
            elif k == stdout.get_id():
                to = w == nilV
            else:
                return FALSE
            ww, e = g.whole(r, W.mkW(Const('G0', GS), nilV))
            return And(to, gs == W.gof(ww), ex.snap(st, vals[0], 'error') == e)
        c.raw('writes the code of all the input, and reports the first error', ('C17',), post)
    return f


for pkg in ('html', 'svg'):
    n = '(*%s%s.errorRetainer).Write' % (RP, pkg)

    def er_c(c):
        w = c.s.emit(c.w(0), c.seq(1) if not isinstance(c.args[1], z3.ExprRef) else c.args[1])
        c.world(0, w, ('C17',))
        c.ensures('returns the first error', ('C17',), lambda r: r[1] == W.errof(w))
    CONTRACTS[n] = Contract(n, er_c, ('C17',), 2, 2)
    n = RP + pkg + '.mappings'
    CONTRACTS[n] = Contract(n, tables(pkg), ('C17',), 0, 3 if pkg == 'html' else 2)
    n = RP + pkg + '.GenerateCode'
    CONTRACTS[n] = Contract(n, generate(pkg), ('C17',), 2, 1)


# ------------------------------------------------------------------ fixed contents
@con(A + 'DocType', 0, 1, 'C04')
def _(c):
    c.ret_node('pi', ('C04',), name=zstr('DOCTYPE'), values=c.s.NVs(boxseq(c, ('string', 'html'))))


for n in ('(%shtmx.HeadersMap).serialize' % RP, RP + 'htmx.Headers', RP + 'htmx.HeadersJS', A + 'contextFuncMap'):
    if n in CONTRACTS:
        CONTRACTS[n].maparr = True
WEIGHT.update({RP + 'html.GenerateCode': 200, RP + 'svg.GenerateCode': 100})
