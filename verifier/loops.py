"""Loops: cut at the header with inductive invariants.

The invariants are found as the greatest inductive subset of candidates generated from the
spec functions (every candidate kept has been proved to hold on entry and to be preserved)."""
import itertools
import time
from logic import *
import logic as L
from theory import *
from state import *


class Loc:
    __slots__ = ('kind', 'key', 't', 'name', 'owned', 'nilv')

    def __init__(self, kind, key, t, name=''):
        self.kind, self.key, self.t, self.name = kind, key, t, name
        self.owned = True

    def id(self):
        return (self.kind, self.key)

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name or self.key)


def loc_val(ex, st, regs, l):
    if l.kind == 'phi':
        return regs[l.key]
    if l.kind == 'fld':
        oid, i = l.key
        o = st.mem[oid]
        return ex.as_struct(o.val, o.t).fields[i]
    if l.kind == 'cell':
        return st.mem[l.key].val
    if l.kind == 'arr':
        return st.mem[l.key]
    if l.kind == 'map':
        return st.mem[l.key]
    if l.kind == 'world':
        return Ptr(('o', l.key), (), 'ctx')
    raise Unsupported(l.kind)


def loc_term(ex, st, regs, l):
    """z3 term of a location (content for slices); None when it has none"""
    v = loc_val(ex, st, regs, l)
    if l.kind == 'world':
        return ex.world(st, v)
    if l.kind == 'arr':
        return ex.whole(st, v) if not isinstance(v.content, list) else snap_list(ex, st, v)
    if l.kind == 'map':
        return None
    if isinstance(v, z3.ExprRef):
        if ex.p.ukind(l.t) == 'slice' if l.t in ex.p.types else False:
            return ex.th.seqof(ex.p.elem(l.t), v)
        return v
    if isinstance(v, Slice):
        m = ex.mode
        ex.mode = 'snap'
        try:
            f = ex.content(st.fork(), v)
        finally:
            ex.mode = m
        return f
    if isinstance(v, (Struct, Iface, Ptr, Clo, MapRef)):
        try:
            return ex.snap(st, v, l.t)
        except Unsupported:
            return None
    return None


def snap_list(ex, st, o):
    m = ex.mode
    ex.mode = 'snap'
    try:
        return ex.list_seq(st.fork(), o.et, o.content)
    finally:
        ex.mode = m


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.sort().eq(b.sort()) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Slice):
        return a.base[0] == b.base[0] and (a.base[1] == b.base[1] if a.base[0] == 'o' else a.base[1].eq(b.base[1])) and \
            a.off.eq(b.off) and a.ln.eq(b.ln)
    if isinstance(a, Struct):
        return all(same_val(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Iface):
        return a.dt == b.dt and same_val(a.val, b.val)
    if isinstance(a, Ptr):
        return a.base[0] == b.base[0] and a.base[0] == 'o' and a.base[1] == b.base[1] and a.path == b.path
    if isinstance(a, Clo):
        return a.fn == b.fn and len(a.binds) == len(b.binds) and all(same_val(x, y) for x, y in zip(a.binds, b.binds))
    if isinstance(a, MapRef):
        return a.obj == b.obj
    if isinstance(a, list):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return False


def havoc_value(ex, st, v, t, loc):
    p = ex.p
    if t in p.types and p.ukind(t) == 'slice':
        et = p.elem(t)
        seq = fresh('h', ex.th.seqsort(et))
        cap = fresh('cap', Int)
        nil = fresh('nil', Bool)
        ln = Length(seq)
        st.assume(cap >= ln, Implies(nil, cap == 0))
        if loc.owned:
            alias = ()
            if isinstance(v, Slice) and v.base[0] == 'o':
                alias = (v.base[1],) + tuple(st.mem[v.base[1]].alias)
            oid = ex.new(st, ObjA(et, seq, alias=alias))
            return Slice(et, ('o', oid), IntVal(0), ln, cap, nil)
        return Slice(et, ('t', seq), IntVal(0), ln, cap, nil)
    if isinstance(v, Struct):
        return Struct(v.t, [havoc_value(ex, st, x, f['type'], loc) for x, f in zip(v.fields, p.fields(v.t))])
    if isinstance(v, (Ptr, Clo, MapRef, Opaque)):
        raise Unsupported('loop changes a %s' % type(v).__name__)
    if isinstance(v, z3.ExprRef):
        r = fresh('h', v.sort())
    else:
        r = fresh('h', ex.th.sort(t))
    n = p.basic(t) if t in p.types else None
    if n in INT_RANGE and r.sort().eq(Int):
        lo, hi = INT_RANGE[n]
        st.assume(r >= lo, r <= hi)
    return r


def havoc(ex, st0, regs0, locs):
    st, regs = st0.fork(), dict(regs0)
    for l in locs:
        v = loc_val(ex, st, regs, l)
        if l.kind == 'phi':
            regs[l.key] = havoc_value(ex, st, v, l.t, l)
        elif l.kind == 'fld':
            oid, i = l.key
            o = st.mem[oid]
            s = ex.as_struct(o.val, o.t)
            fl = list(s.fields)
            fl[i] = havoc_value(ex, st, v, l.t, l)
            st.mem[oid] = st.mem[oid].upd(val=Struct(o.t, fl))
        elif l.kind == 'cell':
            o = st.mem[l.key]
            st.mem[l.key] = o.upd(val=havoc_value(ex, st, v, l.t, l))
        elif l.kind == 'arr':
            o = st.mem[l.key]
            c = fresh('h', ex.th.seqsort(o.et))
            if isinstance(o.content, list):
                st.assume(Length(c) == len(o.content))
            else:
                st.assume(Length(c) == slen(o.content))
            st.mem[l.key] = o.upd(content=c)
        elif l.kind == 'map':
            o = st.mem[l.key]
            i = ex.th.mapinfo(o.t)
            st.mem[l.key] = o.upd(dom=fresh('dom', z3.ArraySort(i['ks'], Bool)), vals=fresh('vals', z3.ArraySort(i['ks'], i['vs'])),
                                  nonempty=fresh('ne', Bool))
        elif l.kind == 'world':
            ex.set_world(st, v, fresh('w', W))
    return st, regs


def find_mods(ex, st0, regs0, st1, mods):
    """locations of st0 that differ in st1 -> list of Loc"""
    from execu import CTXT
    out = []
    gch = any(k not in st1.G or not st1.G[k].eq(g) for k, g in st0.G.items()) or len(st1.G) != len(st0.G)
    worlds = []
    for oid, o in st0.mem.items():
        n = st1.mem.get(oid)
        if n is o or n is None:
            continue
        if isinstance(o, ObjC):
            if ex.p.ukind(o.t) == 'struct' if o.t in ex.p.types else False:
                if o.t in ('bytes.Buffer', 'strings.Builder'):
                    if not same_val(o.val, n.val):
                        out.append(Loc('cell', oid, 'string'))
                    continue
                a, b = ex.as_struct(o.val, o.t), ex.as_struct(n.val, o.t)
                for i, f in enumerate(ex.p.fields(o.t)):
                    if not same_val(a.fields[i], b.fields[i]):
                        if ex.sink(o.t) and ex.sink(o.t)[1] == i:
                            worlds.append(Loc('world', oid, 'W', 'W'))
                        else:
                            out.append(Loc('fld', (oid, i), f['type'], f['name']))
            elif not same_val(o.val, n.val):
                out.append(Loc('cell', oid, {'@iter': '@iter', '@striter': 'int', '@tokens': 'int', '@tokstate': 'int'}.get(o.t, o.t)))
        elif isinstance(o, ObjA):
            if not same_val(o.content, n.content):
                out.append(Loc('arr', oid, o.et))
        elif isinstance(o, ObjM):
            if not (o.dom.eq(n.dom) and o.vals.eq(n.vals)):
                out.append(Loc('map', oid, o.t))
    if gch and not worlds:
        # the writer moved although no context recorded an error: find a context
        for oid, o in st0.mem.items():
            if isinstance(o, ObjC) and ex.sink(o.t):
                worlds.append(Loc('world', oid, 'W', 'W'))
                break
        else:
            raise Unsupported('writes without a context')
    out += worlds
    return out


class View:
    """what a candidate sees: current and entry terms of the locations"""

    def __init__(self, ex, st, regs, locs):
        self.ex, self.st, self.regs = ex, st, regs
        self.locs = locs
        self._t = {}

    def t(self, l):
        i = l.id()
        if i not in self._t:
            self._t[i] = loc_term(self.ex, self.st, self.regs, l)
        return self._t[i]


def run_body(ex, st, fr, b, regs, body):
    nphi = len([i for i in fr.f['blocks'][b]['instrs'] if i['op'] == 'Phi'])
    sv = fr.stopset
    fr.stopset = (sv or []) + [body]
    was = fr.active.get(b)
    fr.active[b] = True
    try:
        outs = ex.run(st, fr, b, -1, regs, skip=nphi)
    finally:
        fr.stopset = sv
        if was is None:
            fr.active.pop(b, None)
    return [o for o in outs if o.kind == 'back' and o.val == b]


def cut(ex, st, fr, b, regs):
    body = fr.loops[b]
    blk = fr.f['blocks'][b]
    phis = [Loc('phi', i['reg'], i['type'], i.get('comment') or i['reg']) for i in blk['instrs'] if i['op'] == 'Phi']
    mode = ex.mode
    # ---- what does the body change?
    locs = list(phis)
    ids = {l.id() for l in locs}
    for rnd in range(6):
        ex.mode = 'mods'
        try:
            hst, hregs = havoc(ex, st, regs, locs)
            backs = run_body(ex, hst.fork(), fr, b, dict(hregs), body)
        finally:
            ex.mode = mode
        grew = False
        for o in backs:
            for l in find_mods(ex, hst, hregs, o.st, locs):
                if l.id() not in ids and l.key_exists(st) if hasattr(l, 'key_exists') else l.id() not in ids:
                    oid = l.key[0] if l.kind == 'fld' else l.key
                    if oid not in st.mem:
                        continue          # belongs to an array created by havoc
                    ids.add(l.id())
                    locs.append(l)
                    grew = True
            for l in locs:
                v = loc_val(ex, o.st, o.regs, l)
                e = loc_val(ex, st, regs, l)
                if l.owned and (isinstance(v, Slice) or isinstance(e, Slice)) and not (ex.owned_slice(o.st, v) and ex.owned_slice(st, e)):
                    l.owned = False
                    grew = True
        if not grew:
            break
    # phis that never change need not be havocked
    still = []
    for l in locs:
        if l.kind == 'phi' and backs and all(same_val(loc_val(ex, o.st, o.regs, l), loc_val(ex, hst, hregs, l)) for o in backs):
            continue
        still.append(l)
    locs = still
    for i, l in enumerate(locs):
        if not l.name:
            l.name = '%s#%d' % (l.t, i)         # the same on every path
    if ex.mode == 'mods':
        # only effects matter: continue after the loop with everything changed
        hst, hregs = havoc(ex, st, regs, locs)
        return final(ex, hst, fr, b, hregs, body)
    # ---- candidates
    entry = View(ex, st, regs, locs)
    cands = generate(ex, st, fr, regs, locs, entry, b)
    ck = (fr.stack, b)
    base = havoc(ex, st, regs, locs)
    pref = ex.inv_cache.get(ck)
    first = [c for c in cands if c[0] in pref] if pref else []
    if first:
        r = houdini(ex, st, fr, b, regs, body, locs, first, entry, base)
        if len(r) != len(pref):
            r = houdini(ex, st, fr, b, regs, body, locs, cands, entry, base)
    else:
        r = houdini(ex, st, fr, b, regs, body, locs, cands, entry, base)
    if r and (ex.mode == 'real' or pref is None):
        ex.inv_cache[ck] = {c[0] for c in r}
    if ex.mode == 'real':
        ex.loopinfo.append((fr.fn, b, [c[0] for c in r]))
    hst, hregs = base[0].fork(), dict(base[1])
    hv = View(ex, hst, hregs, locs)
    for name, f in r:
        hst.assume(f(hv, entry))
    return final(ex, hst, fr, b, hregs, body)


def leaves_at_head(ex, fr, b, body):
    """the only way out of the loop is its condition"""
    blocks = fr.f['blocks']
    return all(n in body for i in body if i != b for n in blocks[i]['succs']) and \
        not any(j['op'] in ('Return', 'Panic') for i in body for j in blocks[i]['instrs'])


def final(ex, hst, fr, b, hregs, body):
    if ex.mode != 'real' and leaves_at_head(ex, fr, b, body):
        # what happens inside the body has been seen: only what follows the loop is of interest
        was = fr.skipped
        fr.skipped = (was or frozenset()) | (frozenset(body) - {b})
        try:
            return final1(ex, hst, fr, b, hregs, body)
        finally:
            fr.skipped = was
    return final1(ex, hst, fr, b, hregs, body)


def final1(ex, hst, fr, b, hregs, body):
    nphi = len([i for i in fr.f['blocks'][b]['instrs'] if i['op'] == 'Phi'])
    was = fr.active.get(b)
    fr.active[b] = True
    try:
        outs = ex.run(hst, fr, b, -1, hregs, skip=nphi)
    finally:
        if was is None:
            fr.active.pop(b, None)
    return [o for o in outs if not (o.kind == 'back' and o.val == b)]


def houdini(ex, st, fr, b, regs, body, locs, cands, entry, base):
    mode = ex.mode
    kept = []
    for name, f in cands:
        try:
            g = f(entry, entry)
        except Unsupported:
            continue
        if g is None:
            continue
        kept.append(((name, f), simp(g)))
    kept = [c for c, _ in refine(st.pc, kept, 2000)]
    ex.mode = 'houdini'
    try:
        for rnd in range(12):
            hst, hregs = base[0].fork(), dict(base[1])
            hv = View(ex, hst, hregs, locs)
            for name, f in kept:
                hst.assume(f(hv, entry))
            backs = run_body(ex, hst, fr, b, hregs, body)
            nxt = list(kept)
            for o in backs:
                ov = View(ex, o.st, o.regs, locs)
                gs = []
                for c in nxt:
                    try:
                        g = c[1](ov, entry)
                        if g is not None:
                            gs.append((c, simp(g)))
                    except Unsupported:
                        pass
                nxt = [c for c, _ in refine(o.st.pc, gs, 3000)]
            if len(nxt) == len(kept):
                return kept
            kept = nxt
    finally:
        ex.mode = mode
    return []


def seq_scope(ex, st, fr, regs, locs):
    """sequences the loop may run over: (name, term)"""
    out = {}
    changing = {l.key for l in locs if l.kind == 'phi'}
    chfld = {l.key for l in locs if l.kind == 'fld'}
    charr = {l.key for l in locs if l.kind == 'arr'}

    def add(n, t):
        if t is None or not (is_str(t) or t.sort().kind() == z3.Z3_SEQ_SORT):
            return
        if t.get_id() not in out:
            out[t.get_id()] = (n, t)

    def visit(n, v, depth):
        if isinstance(v, Slice):
            if v.base[0] == 'o' and v.base[1] in charr:
                return
            try:
                add(n, loc_content(ex, st, v))
            except Unsupported:
                pass
        elif isinstance(v, z3.ExprRef):
            if v.sort().kind() == z3.Z3_SEQ_SORT:
                add(n, v)
            elif v.sort().name().startswith('Sl:'):
                add(n, v.children()[0] if v.decl().eq(v.sort().constructor(0)) else v.sort().accessor(0, 0)(v))
        elif isinstance(v, Struct) and depth < 2:
            for f, x in zip(ex.p.fields(v.t), v.fields):
                visit(n + '.' + f['name'], x, depth + 1)
        elif isinstance(v, Ptr) and v.base[0] == 'o' and depth < 2 and not v.path:
            o = st.mem.get(v.base[1])
            if isinstance(o, ObjC) and o.t in ex.p.types and ex.p.ukind(o.t) == 'struct' and o.t not in ('bytes.Buffer', 'strings.Builder'):
                s = ex.as_struct(o.val, o.t)
                for i, (f, x) in enumerate(zip(ex.p.fields(o.t), s.fields)):
                    if (v.base[1], i) not in chfld:
                        visit(n + '.' + f['name'], x, depth + 1)
            elif isinstance(o, ObjC) and o.t in ex.p.types and ex.p.ukind(o.t) == 'slice':
                visit(n, o.val, depth + 1)
            elif isinstance(o, ObjC) and o.t == '@tokens':
                add('tokens', st.mem[v.base[1] + 1].desc)
    types = reg_types(fr.f)
    for n, v in regs.items():
        if n in changing:
            continue
        visit(n, v, 0)
        if isinstance(v, z3.ExprRef) and v.sort().eq(Ref):
            t = types.get(n)
            if t and ex.p.is_ptr(t) and ex.p.ukind(ex.p.elem(t)) == 'struct' and not t.startswith('*reflect') and not t.startswith('*sync'):
                et = ex.p.elem(t)
                for i, f in enumerate(ex.p.fields(et)):
                    try:
                        if ex.p.ukind(f['type']) == 'slice':
                            visit(n + '.' + f['name'], ex.th.sel(et, True, i, v), 1)
                    except Unsupported:
                        pass
    return list(out.values())


def loc_content(ex, st, v):
    m = ex.mode
    ex.mode = 'snap'
    try:
        return ex.content(st.fork(), v)
    finally:
        ex.mode = m


def reg_types(f):
    r = {'p:' + p['name']: p['type'] for p in f['params']}
    r.update({'f:' + p['name']: p['type'] for p in f['freevars']})
    for blk in f['blocks']:
        for i in blk['instrs']:
            if i.get('reg'):
                r[i['reg']] = i['type']
    return r


class Scope:
    pass


def generate(ex, st, fr, regs, locs, entry, b):
    """candidate invariants: list of (name, f(view, entryview) -> formula)"""
    out = []
    seqs = seq_scope(ex, st, fr, regs, locs)
    ints = [l for l in locs if (l.kind in ('phi', 'cell', 'fld')) and entry.t(l) is not None and entry.t(l).sort().eq(Int) and not (l.kind == 'cell' and st.mem[l.key].t == '@tokstate')]
    # --- linear facts
    for l in ints:
        out.append(('%s >= entry' % l, lambda v, e, l=l: v.t(l) >= e.t(l)))
        out.append(('%s <= entry' % l, lambda v, e, l=l: v.t(l) <= e.t(l)))
        out.append(('%s >= 0' % l, lambda v, e, l=l: v.t(l) >= 0))
        out.append(('%s >= -1' % l, lambda v, e, l=l: v.t(l) >= -1))
        for n, s in seqs:
            out.append(('%s < len(%s)' % (l, n), lambda v, e, l=l, s=s: v.t(l) < slen(s)))
            out.append(('%s <= len(%s)' % (l, n), lambda v, e, l=l, s=s: v.t(l) <= slen(s)))
    for l1, l2 in itertools.permutations(ints, 2):
        out.append(('%s-%s const' % (l1, l2), lambda v, e, a=l1, c=l2: v.t(a) - v.t(c) == e.t(a) - e.t(c)))
        out.append(('%s <= %s' % (l1, l2), lambda v, e, a=l1, c=l2: v.t(a) <= v.t(c)))
        out.append(('%s < %s' % (l1, l2), lambda v, e, a=l1, c=l2: v.t(a) < v.t(c)))
        out.append(('%s <= %s + 1' % (l1, l2), lambda v, e, a=l1, c=l2: v.t(a) <= v.t(c) + 1))
    # other integer bounds: loop-invariant integers in scope
    bnds = {}
    for n, v in regs.items():
        if isinstance(v, z3.ExprRef) and v.sort().eq(Int) and ('phi', n) not in {l.id() for l in locs} and ival(v) is None:
            bnds[v.get_id()] = (n, v)
    for l in ints:
        for n, x in list(bnds.values())[:6]:
            out.append(('%s <= %s' % (l, n), lambda v, e, l=l, x=x: v.t(l) <= x))
            out.append(('%s < %s' % (l, n), lambda v, e, l=l, x=x: v.t(l) < x))
    for l in locs:
        if l.kind == 'world':
            out.append(('no error so far', lambda v, e, l=l: W.errof(v.t(l)) == nilV))
            out.append(('error as at first', lambda v, e, l=l: W.errof(v.t(l)) == W.errof(e.t(l))))
            for q in locs:
                if l.kind == 'world' and q is not l and entry.t(q) is not None and entry.t(q).sort().eq(Val):
                    out.append(('%s is the error so far' % q, lambda v, e, l=l, q=q: v.t(q) == W.errof(v.t(l))))
                    for z in locs:
                        if z.kind == 'cell' and st.mem[z.key].t == '@tokstate':
                            fin = __import__("spec")._spec[0].tokErr(st.mem[z.key].desc.children()[0])
                            eof = Function('ifaceeq', Val, Val, Bool)(fin, Const('glob:io.EOF', Val))
                            out.append(('%s is the error so far, of writing or of the input' % q, lambda v, e, l=l, q=q, z=z, fin=fin, eof=eof:
                                        If(v.t(z) == 2, And(W.errof(v.t(l)) == nilV, v.t(q) == If(eof, nilV, fin)), v.t(q) == W.errof(v.t(l)))))
    for q in locs:
        if entry.t(q) is not None and entry.t(q).sort().eq(Bool):
            for l, (n, s) in itertools.product(ints, seqs):
                out.append(('%s only when %s == len(%s)' % (q, l, n), lambda v, e, l=l, q=q, s=s: Implies(v.t(q), v.t(l) == slen(s))))
            for z in locs:
                if z.kind == 'cell' and st.mem[z.key].t == '@tokstate':
                    fin = __import__("spec")._spec[0].tokErr(st.mem[z.key].desc.children()[0])
                    eof = Function('ifaceeq', Val, Val, Bool)(fin, Const('glob:io.EOF', Val))
                    out.append(('%s at the end of the input only' % q, lambda v, e, q=q, z=z, eof=eof: v.t(q) == And(v.t(z) == 2, eof)))
                    out.append(('%s when the input has ended' % q, lambda v, e, q=q, z=z, eof=eof: v.t(q) == (v.t(z) == 2)))
    for z in locs:
        if z.kind == 'cell' and st.mem[z.key].t == '@tokstate':
            n, toks = z.key - 1, st.mem[z.key].desc
            for l in locs:
                if l.kind == 'cell' and l.key == n:
                    out.append(('ended only after all tokens', lambda v, e, l=l, z=z, toks=toks: Implies(v.t(z) == 2, v.t(l) == Length(toks))))
    # --- counters: number of elements processed
    ks, mids = [], []
    for l in ints:
        c = ival(entry.t(l))
        if c is not None and c > 0:
            mids.append(('%d:%s' % (c, l), c, lambda v, l=l, c=c: simp(v.t(l) - c)))
        if c is not None:
            ks.append((str(l) + '-%d' % c, lambda v, l=l, c=c: simp(v.t(l) - c)))
    downs = [(str(l) + '+1', lambda v, l=l: simp(v.t(l) + 1)) for l in ints if ival(entry.t(l)) is None]
    # --- slices are not nil / lengths
    for l in locs:
        if l.kind in ('phi', 'fld', 'cell') and isinstance(loc_val(ex, entry.st, entry.regs, l), Slice):
            def nilcand(v, e, l=l):
                a = loc_val(ex, v.st, v.regs, l)
                c = loc_val(ex, e.st, e.regs, l)
                return a.nil == c.nil if isinstance(a, Slice) else None
            out.append(('nil(%s) unchanged' % l, nilcand))
            out.append(('%s not empty if it was not' % l, lambda v, e, l=l: Implies(slen(e.t(l)) > 0, slen(v.t(l)) > 0)))
            for kn, k in ks:
                out.append(('%s not empty after the first' % l, lambda v, e, l=l, k=k: (slen(v.t(l)) > 0) == Or(k(v) > 0, slen(e.t(l)) > 0)))
                out.append(('len(%s) == %s + entry' % (l, kn), lambda v, e, l=l, k=k: slen(v.t(l)) == slen(e.t(l)) + k(v)))
        if l.kind == 'phi' and entry.t(l) is not None and entry.t(l).sort().eq(Bool):
            pass
    sc = Scope()
    sc.ex, sc.st, sc.fr, sc.regs, sc.locs, sc.entry, sc.seqs, sc.ks, sc.downs, sc.ints, sc.mids = ex, st, fr, regs, locs, entry, seqs, ks, downs, ints, mids
    for g in ex.templates:
        out += g(sc)
    return out


# ------------------------------------------------------------------ templates
def params_of(sc, psorts, limit=60):
    """tuples of in-scope terms with the given sorts"""
    ex = sc.ex
    pools = []
    for s in psorts:
        pool = {}

        def add(t):
            if t.sort().eq(s):
                pool[t.get_id()] = t
        for t in scope_terms(sc):
            add(t)
        pools.append(list(pool.values())[:12])
    return list(itertools.islice(itertools.product(*pools), limit))


def scope_terms(sc):
    if hasattr(sc, '_terms'):
        return sc._terms
    from execu import CTXT
    ex, st = sc.ex, sc.st
    out = {}

    def add(t):
        out[t.get_id()] = t
    changing = {l.key for l in sc.locs if l.kind == 'phi'}
    chfld = {l.key for l in sc.locs if l.kind == 'fld'}
    for oid, o in st.mem.items():
        if isinstance(o, ObjC) and o.t == CTXT:
            if not any(k[0] == oid for k in chfld):
                add(ex.env(st, Ptr(('o', oid), (), CTXT)))
    types = reg_types(sc.fr.f)
    for n, v in sc.regs.items():
        if n in changing:
            continue
        try:
            if isinstance(v, z3.ExprRef):
                add(v)
                if v.sort().name().startswith('Sl:'):
                    add(v.children()[0] if v.decl().eq(v.sort().constructor(0)) else v.sort().accessor(0, 0)(v))
                if v.sort().eq(Ref) and types.get(n):
                    et = ex.p.elem(types[n]) if ex.p.is_ptr(types[n]) else None
                    if et and ex.p.ukind(et) == 'struct' and et.startswith('github.com/go-andiamo'):
                        for i, f in enumerate(ex.p.fields(et)):
                            x = ex.th.sel(et, True, i, v)
                            add(x)
                            if ex.p.ukind(f['type']) == 'slice':
                                add(ex.th.seqof(ex.p.elem(f['type']), x))
            elif isinstance(v, Slice):
                if not (v.base[0] == 'o' and v.base[1] in {l.key for l in sc.locs if l.kind == 'arr'}):
                    add(loc_content(ex, st, v))
            elif isinstance(v, Ptr) and v.base[0] == 'o' and not v.path:
                o = st.mem[v.base[1]]
                if isinstance(o, ObjC) and o.t in ex.p.types and ex.p.ukind(o.t) == 'struct' and o.t not in ('bytes.Buffer', 'strings.Builder'):
                    s = ex.as_struct(o.val, o.t)
                    for i, f in enumerate(ex.p.fields(o.t)):
                        if (v.base[1], i) in chfld:
                            continue
                        x = s.fields[i]
                        if isinstance(x, z3.ExprRef):
                            add(x)
                        elif isinstance(x, Slice):
                            add(loc_content(ex, st, x))
                elif isinstance(o, ObjC) and v.base[1] not in {l.key for l in sc.locs if l.kind == 'cell'}:
                    if isinstance(o.val, z3.ExprRef):
                        add(o.val)
            elif isinstance(v, Struct):
                for f, x in zip(ex.p.fields(v.t), v.fields):
                    if isinstance(x, z3.ExprRef):
                        add(x)
        except Unsupported:
            pass
    sc._terms = list(out.values())
    return sc._terms


class MapPart:
    """domain or values of a map under construction"""

    def __init__(self, l, part):
        self.l, self.part, self.kind, self.name = l, part, 'map', '%s.%s' % (l, part)

    def id(self):
        return self.l.id() + (self.part,)

    def __repr__(self):
        return self.name

    def t(self, v):
        return getattr(loc_val(v.ex, v.st, v.regs, self.l), self.part)


class CountOf:
    """number of elements processed so far"""

    def __init__(self, kn, k):
        self.kn, self.k, self.kind, self.name = kn, k, 'count', kn

    def id(self):
        return ('count', self.kn)

    def __repr__(self):
        return self.name

    def t(self, v):
        return self.k(v)


class BoolOf:
    """an integer location read as: is it positive"""

    def __init__(self, l):
        self.l, self.kind, self.name = l, l.kind, 'positive ' + str(l)

    def id(self):
        return self.l.id()

    def __repr__(self):
        return self.name


def vt(v, l):
    if isinstance(l, (MapPart, CountOf)):
        return l.t(v)
    return v.t(l.l) > 0 if isinstance(l, BoolOf) else v.t(l)


def counted(sc, right=False):
    """how the elements dealt with so far can be given: (name, fn(seq, view) -> the part, fn(view) -> their number)"""
    if right:
        return [(n, lambda s, v, k=k: suffix(s, k(v))) for n, k in sc.downs]
    return [(n, lambda s, v, k=k: prefix(s, k(v))) for n, k in sc.ks] + [(n, lambda s, v, c=c, k=k: sub(s, IntVal(c), k(v))) for n, c, k in sc.mids]


def fold_template(F, params=None):
    """?state == F(prefix(?s, ?k), ?params, entry state)"""
    from logic import Fold, RFold

    def gen(sc):
        out = []
        entry = sc.entry
        pools = []
        for s in F.ssorts:
            pools.append([l for l in sc.locs if entry.t(l) is not None and entry.t(l).sort().eq(s)])
            if s.kind() == z3.Z3_ARRAY_SORT:
                for l in sc.locs:
                    if l.kind == 'map':
                        pools[-1] += [q for q in (MapPart(l, 'dom'), MapPart(l, 'vals')) if vt(entry, q).sort().eq(s)]
            if s.eq(Int):
                pools[-1] += [CountOf(kn, k) for kn, k in sc.ks]
            if s.eq(Bool) and F.ssorts[0].eq(W):
                pools[-1] += [BoolOf(l) for l in sc.ints]     # "something was written" kept as a count
        if not all(pools):
            return out
        right = isinstance(F, RFold)
        counters = counted(sc, right)
        pss = params(sc) if params else params_of(sc, F.psorts)
        for (sn, s), (kn, k), ps in itertools.product([x for x in sc.seqs if x[1].sort().eq(F.seqsort)], counters, pss):
            for ls in itertools.product(*pools):
                if len(set(l.id() for l in ls)) != len(ls):
                    continue
                for i, l in enumerate(ls):
                    def cand(v, e, i=i, l=l, ls=ls, s=s, k=k, ps=ps):
                        st0 = [vt(e, x) for x in ls]
                        f = vt(v, l) == F.app(k(s, v), ps, st0)[i]
                        if F.ssorts[i].eq(Bool) and F.ssorts[0].eq(W):
                            f = Or(W.errof(vt(v, ls[0])) != nilV, f)
                        return f
                    out.append(('%s == %s.%d(%s[%s], %s; %s)' % (l, F.name, i, sn, kn, ','.join(str(p)[:20] for p in ps), ','.join(map(str, ls))), cand))
        return out
    return gen


def hom_template(H, params=None):
    """?x == entry ++ H(prefix(?s, ?k))"""
    def gen(sc):
        out = []
        entry = sc.entry
        locs = [l for l in sc.locs if l.kind != 'arr' and entry.t(l) is not None and entry.t(l).sort().eq(H.rsort)]
        arrs = [l for l in sc.locs if l.kind == 'arr' and entry.t(l).sort().eq(H.rsort)]
        pss = params(sc) if params else params_of(sc, H.psorts)
        for (sn, s), (kn, k), ps in itertools.product([x for x in sc.seqs if x[1].sort().eq(H.seqsort)], counted(sc), pss):
            for l in locs:
                def cand(v, e, l=l, s=s, k=k, ps=ps):
                    return v.t(l) == H.op(e.t(l), H(k(s, v), *ps))
                out.append(('%s == entry+%s(%s[%s])' % (l, H.name, sn, kn), cand))
        for (sn, s), (kn, k), ps in itertools.product([x for x in sc.seqs if x[1].sort().eq(H.seqsort)], sc.ks, pss):
            for l in arrs:
                def cand2(v, e, l=l, s=s, k=k, ps=ps):
                    return And(slen(v.t(l)) == slen(e.t(l)), prefix(v.t(l), k(v)) == H(prefix(s, k(v)), *ps))
                out.append(('%s[:%s] == %s(%s[:%s])' % (l, kn, H.name, sn, kn), cand2))
        return out
    return gen


def all_template(P):
    """P(?x): predicate over all elements"""
    def gen(sc):
        out = []
        for l in sc.locs:
            if sc.entry.t(l) is not None and sc.entry.t(l).sort().eq(P.seqsort) and P.np == 0:
                out.append(('%s(%s)' % (P.name, l), lambda v, e, l=l: P(v.t(l))))
        return out
    return gen


def bool_template(H):
    """a property of every element so far"""
    def gen(sc):
        out = []
        for (sn, s), (kn, k), ps in itertools.product([x for x in sc.seqs if x[1].sort().eq(H.seqsort)], sc.ks, params_of(sc, H.psorts)):
            out.append(('%s(%s[:%s])' % (H.name, sn, kn), lambda v, e, s=s, k=k, ps=ps: H(prefix(s, k(v)), *ps)))
            out.append(('!%s(%s[:%s])' % (H.name, sn, kn), lambda v, e, s=s, k=k, ps=ps: Not(H(prefix(s, k(v)), *ps))))
        return out
    return gen


def chunk_template(H):
    """?x ++ ?s[?last:?k] == entry ++ H(?s[:?k]): copied in pieces, the last piece is still to come"""
    def gen(sc):
        out = []
        entry = sc.entry
        locs = [l for l in sc.locs if l.kind != 'arr' and entry.t(l) is not None and entry.t(l).sort().eq(H.rsort)]
        for (sn, s), (kn, k), la in itertools.product([x for x in sc.seqs if x[1].sort().eq(H.seqsort)], sc.ks, sc.ints):
            for l in locs:
                def cand(v, e, l=l, s=s, k=k, la=la):
                    kk = k(v)
                    return And(v.t(la) >= 0, v.t(la) <= kk, kk <= slen(s),
                               cat(v.t(l), sub(s, v.t(la), simp(kk - v.t(la)))) == cat(e.t(l), H(prefix(s, kk))))
                out.append(('%s ++ %s[%s:%s] == entry+%s(%s[:%s])' % (l, sn, la, kn, H.name, sn, kn), cand))
        return out
    return gen


def copy_template(rsort, extra=None):
    """?x == entry ++ ?s[:?k], or ?x[:?k] == ?s[:?k] for an array that is filled in"""
    def gen(sc):
        out = []
        entry = sc.entry
        srcs = {t.get_id(): (n, t) for n, t in sc.seqs if t.sort().eq(rsort)}
        for n, t in (extra(sc) if extra else []):
            srcs.setdefault(t.get_id(), (n, t))
        for l in sc.locs:
            if entry.t(l) is None or not entry.t(l).sort().eq(rsort):
                continue
            for (sn, s), (kn, k) in itertools.product(srcs.values(), counted(sc) if l.kind != 'arr' else sc.ks):
                if l.kind == 'arr':
                    def cand(v, e, l=l, s=s, k=k):
                        return And(slen(v.t(l)) == slen(e.t(l)), prefix(v.t(l), k(v)) == prefix(s, k(v)))
                    out.append(('%s[:%s] == %s[:%s]' % (l, kn, sn, kn), cand))
                else:
                    def cand2(v, e, l=l, s=s, k=k):
                        return v.t(l) == cat(e.t(l), k(s, v))
                    out.append(('%s == entry+%s[%s]' % (l, sn, kn), cand2))
        return out
    return gen


def reflected(s):
    """the elements of values looked at with reflection"""
    def extra(sc):
        out = []
        for t in scope_terms(sc):
            if t.sort().eq(Val):
                out.append(('refl(%s)' % str(t)[:20], s.refl(t)))
            elif is_app(t) and t.decl().name() == 'reflect.ValueOf':
                out.append(('refl(%s)' % str(t.children()[0])[:20], s.refl(t.children()[0])))
        return out
    return extra


def map_template(s):
    """?m == entry, changed for the keys visited so far; and what the keys visited so far are"""
    def gen(sc):
        out = []
        its = [l for l in sc.locs if l.kind == 'cell' and l.t == '@iter']
        for l in its:
            m = t = None
            for v in sc.regs.values():
                if isinstance(v, Opaque) and v.k == 'mapiter' and v.data[2] == l.key:
                    m, t = v.data[0], v.data[1]
            if m is None:
                continue
            dm, vm = (sc.st.mem[m.obj].dom, sc.st.mem[m.obj].vals) if isinstance(m, MapRef) else sc.ex.th.marrays(t, m)
            sets = [('V', lambda v: v)]
            vals = [('m', vm)]
            if vm.sort().range().eq(Val):
                sets.append(('V non-nil', lambda v: s.a_and(v, s.a_set(vm))))
                vals.append(('marker(m)', z3.Map(s.CF, vm)))
            for q in sc.locs:
                if q.kind == 'map':
                    D, X = MapPart(q, 'dom'), MapPart(q, 'vals')
                    for sn, sf in sets:
                        if D.t(sc.entry).sort().eq(dm.sort()):
                            out.append(('%s == entry | %s' % (D, sn), lambda v, e, D=D, sf=sf, l=l: D.t(v) == s.a_or(D.t(e), sf(v.t(l)))))
                        for vn, va in vals:
                            if X.t(sc.entry).sort().eq(va.sort()):
                                out.append(('%s == %s in %s, else entry' % (X, vn, sn), lambda v, e, X=X, sf=sf, l=l, va=va: X.t(v) == s.a_ite(sf(v.t(l)), va, X.t(e))))
                elif q is not l and sc.entry.t(q) is not None and sc.entry.t(q).sort().eq(s.SeqS):
                    out.append(('%s without repetition' % q, lambda v, e, q=q: s.SND(v.t(q), TRUE, s.EVdom0)[0]))
                    out.append(('%s enumerates V' % q, lambda v, e, q=q, l=l: s.SND(v.t(q), TRUE, s.EVdom0)[1] == v.t(l)))
        return out
    return gen


def found_template(H):
    """?flag == some element so far has the property"""
    def gen(sc):
        out = []
        flags = [l for l in sc.locs if l.kind in ('phi', 'cell') and sc.entry.t(l) is not None and sc.entry.t(l).sort().eq(Bool)]
        for (sn, s), (kn, k) in itertools.product([x for x in sc.seqs if x[1].sort().eq(H.seqsort)], sc.ks):
            for l in flags:
                out.append(('%s == %s(%s[:%s])' % (l, H.name, sn, kn), lambda v, e, l=l, s=s, k=k: v.t(l) == H(prefix(s, k(v)))))
                out.append(('%s == !%s(%s[:%s])' % (l, H.name, sn, kn), lambda v, e, l=l, s=s, k=k: v.t(l) == Not(H(prefix(s, k(v))))))
        for a, b in itertools.combinations(flags, 2):
            out.append(('not both %s and %s' % (a, b), lambda v, e, a=a, b=b: Not(And(v.t(a), v.t(b)))))
        return out
    return gen


def rep_template(s, units):
    """?x == entry ++ ?k copies of a constant, or the array ?x starts with them"""
    def gen(sc):
        out = []
        cnt = list(sc.ks) + [('n-' + str(l), lambda v, l=l: simp(sc.entry.t(l) - v.t(l))) for l in sc.ints if ival(sc.entry.t(l)) is None]
        for l in sc.locs:
            x = sc.entry.t(l)
            if x is None or not x.sort().eq(Str):
                continue
            for u, (kn, k) in itertools.product(units, cnt):
                if l.kind != 'arr':
                    out.append(('%s == entry+%s*%s' % (l, kn, u), lambda v, e, l=l, k=k, u=u: v.t(l) == cat(e.t(l), s.rep(u, k(v)))))
                    continue
                out.append(('%s[:%d*%s] == %s*%s' % (l, len(u), kn, kn, u), lambda v, e, l=l, k=k, u=u: And(
                    slen(v.t(l)) == slen(e.t(l)), prefix(v.t(l), simp(len(u) * k(v))) == s.rep(u, k(v)))))
        if any(l.kind == 'arr' or sc.entry.t(l) is not None and sc.entry.t(l).sort().eq(Str) for l in sc.locs):
            for u, (kn, k), j in itertools.product(units, cnt, sc.ints):
                out.append(('%s == entry + %d*%s' % (j, len(u), kn), lambda v, e, j=j, k=k, u=u: v.t(j) == e.t(j) + len(u) * k(v)))
        return out
    return gen


def within(what, gen):
    """candidates for the loops of some functions only"""
    return lambda sc: gen(sc) if what in sc.fr.fn else []


def tail_template(F):
    """what F makes of the state does not change"""
    def gen(sc):
        out = []
        pools = [[l for l in sc.locs if sc.entry.t(l) is not None and sc.entry.t(l).sort().eq(F.decl.domain(i))] for i in range(F.decl.arity())]
        for ls in itertools.product(*pools):
            if len({l.id() for l in ls}) == len(ls):
                out.append(('%s(%s) as at first' % (F.name, ', '.join(map(str, ls))), lambda v, e, ls=ls: F(*[v.t(l) for l in ls]) == F(*[e.t(l) for l in ls])))
        return out
    return gen
