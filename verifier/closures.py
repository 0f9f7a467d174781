"""Function values: what a function literal means.

A function literal of the repository is turned into a term by executing its body on an
arbitrary context and proving that it does what one of the known functions does."""
from logic import *
import logic as L
from theory import *
from state import *
import spec as S
from spec import A, PA, CTXT

PCTX = '*' + CTXT
NODE = A + 'Node'
TFN = {}


def captured(ex, st, clo):
    """terms captured by the function literal; variables captured by reference may not change any more"""
    out = []
    for b in clo.binds:
        if isinstance(b, Ptr) and b.base[0] == 'o' and not b.path:
            o = st.mem[b.base[1]]
            if isinstance(o, ObjC) and o.t != CTXT:
                if o.frozen is None:
                    st.mem[b.base[1]] = o.upd(frozen=True)
                if isinstance(o.val, z3.ExprRef):
                    out.append(o.val)
                elif not isinstance(o.val, (Opaque,)):
                    try:
                        out.append(ex.term(st, o.val, o.t))
                    except Unsupported:
                        pass
        elif isinstance(b, z3.ExprRef):
            out.append(b)
        else:
            try:
                out.append(ex.term(st, b, None))
            except (Unsupported, KeyError, TypeError):
                pass
    return out


def closure_canon(ex, st, clo):
    f = ex.p.funcs.get(clo.fn)
    if f is None:
        return Const('fn:' + clo.fn, Fn)
    terms = captured(ex, st, clo)
    sig = '(%s)(%s)' % (','.join(q['type'] for q in f['params']), ','.join(q['type'] for q in f['results']))
    key = (clo.fn, tuple(t.get_id() for t in terms), tuple(sorted({x.get_id() for x in st.pc})))
    L._keep.append(list(st.pc))
    if key in ex.canon_cache:
        return ex.canon_cache[key]
    r = None
    h = KINDS.get(sig)
    if h is not None:
        mode = ex.mode
        if mode == 'mods':
            return fresh('fn', Fn)
        try:
            r = h(ex, st.fork(), clo, f, terms, sig)
        except Unsupported as e:
            ex.uncertain.append('%s: %s' % (clo.fn, e))
    if r is None:
        # not one of the known functions: nothing is known about it
        r = Const('fn:%s!%d' % (clo.fn, len(ex.canon_cache)) if terms else 'fn:' + clo.fn, Fn)
    RULES.setdefault(r.decl().name(), lambda app, gen, sat: [app != nilFn])
    ex.canon_cache[key] = r
    L._keep.append(terms)
    return r


def run_body(ex, st, clo, args):
    """all outcomes of the function literal; None when something in it may go wrong"""
    mode = ex.mode
    if mode != 'real':
        ex.mode = 'houdini'
    try:
        outs = ex.exec_fn(st, clo.fn, args, clo.binds)
    finally:
        ex.mode = mode
    for o in outs:
        if o.kind == 'panic':
            ex.fail(o.st, 'safety', 'no panic in a function literal', clo.fn.rsplit('/', 1)[-1], '')
    return [o for o in outs if o.kind == 'ret']


def strs(terms):
    return [t for t in terms if t.sort().eq(Str)]


def with_ctx(ex, st):
    from contract import symctx
    st.G = {}
    st.pc = list(st.pc)
    c = symctx(ex, st, 'cctx%d' % len(ex.canon_cache))
    return c, ex.env(st, c), ex.world(st, c)


def match(ex, outs, c, cands, good):
    for cand in cands:
        if all(proves(o.st.pc, g) for o in outs for g in good(o, cand)):
            return cand
    return None


def k_dyn(ex, st, clo, f, terms, sig):
    s = S._spec[0]
    c, e, w = with_ctx(ex, st)
    outs = run_body(ex, st, clo, [c])

    def good(o, cand):
        v = ex.term(o.st, o.val, '[]byte')
        yield v == s.dynB(cand, e, w)
        yield ex.world(o.st, c) == s.dynW(cand, e, w)
    return match(ex, outs, c, [s.dyncargo] + [s.dynkey(t) for t in strs(terms)], good)


def k_cond(ex, st, clo, f, terms, sig):
    s = S._spec[0]
    c, e, w = with_ctx(ex, st)
    outs = run_body(ex, st, clo, [c])
    cands = []
    for t in strs(terms):
        cands += [s.hasKey(t), s.notKey(t)]

    def good(o, cand):
        yield o.val == s.condB(cand, e)
        yield ex.world(o.st, c) == w
    return match(ex, outs, c, cands, good)


def k_items(ex, st, clo, f, terms, sig):
    s = S._spec[0]
    c, e, w = with_ctx(ex, st)
    outs = run_body(ex, st, clo, [c])

    def good(o, cand):
        v = ex.content(o.st, ex.as_slice(o.st, o.val, f['results'][0]['type']))
        yield v == s.itS(cand, e, w)
        yield ex.world(o.st, c) == s.itW(cand, e, w)
    return match(ex, outs, c, [s.iterKey(t) for t in strs(terms)], good)


def k_tmpl(ex, st, clo, f, terms, sig):
    """function behind a template marker: renders the node in the context it is given, contributes no text"""
    s = S._spec[0]
    c, e, w = with_ctx(ex, st)
    outs = run_body(ex, st, clo, [c])
    cands = [s.tfn(t) for t in terms if t.sort().eq(Val)]

    def good(o, cand):
        n = cand.children()[0]
        yield ex.term(o.st, o.val.vals[0], f['results'][0]['type']) == StringVal('')
        yield o.val.vals[1] == s.Re(n, e, w)
        yield ex.world(o.st, c) == s.Rw(n, e, w)
    return match(ex, outs, c, cands, good)


KINDS = {'(%s)([]byte)' % PCTX: k_dyn, '(%s)(bool)' % PCTX: k_cond, '(%s)([]interface{})' % PCTX: k_items, '(%s)([]any)' % PCTX: k_items,
         '(%s)(html/template.HTML,error)' % PCTX: k_tmpl, '(%s)(html/template.HTMLAttr,error)' % PCTX: k_tmpl}


# ------------------------------------------------------------------ yield functions
def node_seqs(ex, st, clo):
    th = ex.th
    out = {}

    def add(t):
        out[t.get_id()] = t

    def visit(v, t, depth):
        if depth > 3:
            return
        if isinstance(v, Ptr) and v.base[0] == 'o' and not v.path:
            o = st.mem[v.base[1]]
            if isinstance(o, ObjC) and o.t != CTXT:
                visit(o.val, o.t, depth + 1)
        elif isinstance(v, Slice) and v.et == NODE:
            add(ex.content(st.fork(), v))
        elif isinstance(v, Struct):
            for x, fd in zip(v.fields, ex.p.fields(v.t)):
                visit(x, fd['type'], depth + 1)
        elif isinstance(v, z3.ExprRef):
            if v.sort().eq(Ref) and t and ex.p.is_ptr(t) and ex.p.ukind(ex.p.elem(t)) == 'struct' and t.startswith('*github.com/go-andiamo'):
                et = ex.p.elem(t)
                for i, fd in enumerate(ex.p.fields(et)):
                    if ex.p.ukind(fd['type']) == 'slice':
                        visit(th.sel(et, True, i, v), fd['type'], depth + 1)
            elif t and ex.p.ukind(t) == 'slice' and ex.p.elem(t) == NODE:
                add(th.seqof(NODE, v))
    for b, fv in zip(clo.binds, ex.p.funcs[clo.fn]['freevars']):
        visit(b, fv['type'], 0)
    return list(out.values())


def yield_call(ex, st, f, args, pos):
    """fn(ctx, yield): fn may call yield any number of times, with any items.  Every call, whatever
    happened before, must render the nodes for that one item."""
    import loops
    s = S._spec[0]
    c, clo = args
    if not (isinstance(c, Ptr) and c.base[0] == 'o'):
        raise Unsupported('context that is not the rendering context')
    e, w = ex.env(st, c), ex.world(st, c)
    if not isinstance(clo, Clo):
        raise Unsupported('yield function')
    item = fresh('item', Val)
    cands = node_seqs(ex, st, clo)
    mode = ex.mode
    # what does a call change besides the output?
    locs, ids = [], set()
    try:
        ex.mode = 'mods'
        for _ in range(4):
            hst, _r = loops.havoc(ex, st, {}, locs)
            ex.set_world(hst, c, fresh('w', W))
            outs = ex.exec_fn(hst.fork(), clo.fn, [item], clo.binds)
            grew = False
            for o in outs:
                for l in loops.find_mods(ex, hst, {}, o.st, locs):
                    if l.kind == 'world' or (l.kind == 'world' and l.key == c.base[1]):
                        fi = ex.th.fidx(CTXT, 'Error')
                        if l.key == c.base[1]:
                            continue
                        l = loops.Loc('fld', (l.key, fi), 'error', 'Error')
                    if l.id() not in ids and (l.key[0] if l.kind == 'fld' else l.key) in st.mem:
                        ids.add(l.id())
                        locs.append(l)
                        grew = True
            if not grew:
                break
    finally:
        ex.mode = mode
    if mode == 'mods':
        hst, _r = loops.havoc(ex, st, {}, locs)
        ex.set_world(hst, c, fresh('w', W))
        return [(hst, None)]
    invs = [(str(l), l) for l in locs if isinstance(loops.loc_val(ex, st, {}, l), z3.ExprRef)]

    def inv(stx, l):
        return Implies(W.errof(ex.world(stx, c)) == nilV, loops.loc_val(ex, stx, {}, l) == loops.loc_val(ex, st, {}, l))
    kept = [x for x in invs if proves(st.pc, inv(st, x[1]))]
    for _ in range(6):
        hst, _r = loops.havoc(ex, st, {}, locs)
        w0 = fresh('w', W)
        ex.set_world(hst, c, w0)
        hst.assume(*[inv(hst, l) for _, l in kept])
        ex.mode = 'houdini'
        try:
            outs = ex.exec_fn(hst.fork(), clo.fn, [item], clo.binds)
        finally:
            ex.mode = mode
        nxt = [x for x in kept if all(proves(o.st.pc, inv(o.st, x[1])) for o in outs if o.kind == 'ret')]
        if len(nxt) == len(kept):
            break
        kept = nxt
    pick = None
    if mode == 'real':
        outs = ex.exec_fn(hst.fork(), clo.fn, [item], clo.binds)
        for o in outs:
            if o.kind == 'panic':
                ex.fail(o.st, 'safety', 'no panic', '', pos)
    for nodes in cands:
        goal = s.IT(Unit(item), nodes, e, w0)
        if all(proves(o.st.pc, ex.world(o.st, c) == goal) for o in outs if o.kind == 'ret'):
            pick = nodes
            break
    if pick is None:
        nodes = cands[0] if cands else Empty(s.SeqN)
        for o in outs:
            if o.kind == 'ret':
                ex.oblige(o.st, 'post', 'each yielded item renders all the nodes once, in order, in its own context',
                          ex.world(o.st, c) == s.IT(Unit(item), nodes, e, w0), ('C08', 'C10'), pos)
        pick = nodes
    else:
        for o in outs:
            if o.kind == 'ret':
                ex.oblige(o.st, 'post', 'each yielded item renders all the nodes once, in order, in its own context',
                          ex.world(o.st, c) == s.IT(Unit(item), pick, e, w0), ('C08', 'C10'), pos)
    hst, _r = loops.havoc(ex, st, {}, locs)
    ex.set_world(hst, c, s.YW(f, pick, e, w))
    hst.assume(*[inv(hst, l) for _, l in kept])
    return [(hst, None)]
