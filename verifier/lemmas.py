"""Lemmas about the spec functions, proved by induction over sequences.

A lemma is used by the prover only after its base case and its induction step have been
proved; every lemma and its outcome is recorded in LOG."""
import time
from logic import *
import logic as L

LOG = {}      # name -> dict(ok, parts, time, tags)


def record(name, ok, parts, t, tags=()):
    LOG[name] = {'ok': ok, 'parts': parts, 'time': round(t, 3), 'tags': tuple(tags)}
    return ok


def holds(pc, goal, timeout=10000):
    if proves(list(pc), goal, timeout):
        return True
    L.SCALE[0] *= 3
    try:
        L._cache.clear()
        return proves(list(pc), goal, timeout)
    finally:
        L.SCALE[0] //= 3


def split(cs):
    """all combinations of the conditions and their negations"""
    r = [[]]
    for c in cs:
        r = [x + [c] for x in r] + [x + [Not(c)] for x in r]
    return [And(*x) for x in r]


def induct(name, seqsort, prop, tags=(), given=(), reveal=(), inst=None, cases=None):
    """prop(s) for every sequence s: prop([]), and prop(t[:k]) => prop(t[:k+1]).
    inst(t, x): further instances of the hypothesis, which is universal in everything but the sequence"""
    if name in LOG:
        return LOG[name]['ok']
    t0 = time.time()
    old = set(L.REVEAL)
    L.REVEAL.update(d.name for d in reveal)
    t, k = Const('ind:t', seqsort), Const('ind:k', Int)
    parts_ = {}
    parts_['base'] = holds(list(given), prop(empty(seqsort)))
    if seqsort.eq(Str):
        hyp = prop(prefix(t, k))
        parts_['step'] = holds(list(given) + [k >= 0, k < Length(t), hyp], prop(prefix(t, k + 1)))
    else:
        x = Const('ind:x', seqsort.basis())
        pre = list(given) + [prop(t)] + (inst(t, x) if inst else [])
        for i, c in enumerate(split(cases(t, x)) if cases else [TRUE]):
            parts_['step' + (str(i) if cases else '')] = holds(pre + [c], prop(cat(t, Unit(x))))
    L.REVEAL.clear()
    L.REVEAL.update(old)
    return record(name, all(parts_.values()), parts_, time.time() - t0, tags)


def chars(name, homs, prop, tags=(), inst=None):
    """prop(h1(x), h2(x), ...) for every text x and character-wise functions h: it holds of the empty text, and if it
    holds of what was made of some text it holds after one more character.  inst: definitions unfolded for that character"""
    if name in LOG:
        return LOG[name]['ok']
    t0 = time.time()
    outs = [Const('ind:o%d' % i, Str) for i, _ in enumerate(homs)]
    c = Const('ind:c', Str)
    parts_ = {'base': holds([], prop(*[zstr('') for _ in homs]))}
    parts_['step'] = holds([Length(c) == 1, prop(*outs)] + (inst(outs, c) if inst else []), prop(*[cat(o, h.g([], c)) for o, h in zip(outs, homs)]))
    return record(name, all(parts_.values()), parts_, time.time() - t0, tags)


def theory(name, goal, tags=()):
    """a fact about sequences alone, proved by the solver without anything else"""
    if name in LOG:
        return LOG[name]['ok']
    t0 = time.time()
    ok = False
    for seed in range(12):
        v = z3.Solver()
        limit(v, 1000 if seed < 10 else 30000)
        v.set('random_seed', seed)
        v.add(Not(goal))
        if v.check() == z3.unsat:
            ok = True
            break
    return record(name, ok, {'proof': ok}, time.time() - t0, tags)


def direct(name, pc, goal, tags=(), reveal=()):
    if name in LOG:
        return LOG[name]['ok']
    t0 = time.time()
    old = set(L.REVEAL)
    L.REVEAL.update(d.name for d in reveal)
    ok = holds(pc, goal)
    L.REVEAL.clear()
    L.REVEAL.update(old)
    return record(name, ok, {'proof': ok}, time.time() - t0, tags)


def link_esc(s, h, key):
    """text without any character of the set is left as it is by escaping (only true for some sets)"""
    if induct('no character of %r => escaping changes nothing' % key, Str, lambda x: Implies(Not(h(x)), s.esc(x) == x)):
        old = s.esc.extra

        def extra(x, ps, app, gen, sat):
            r = [Implies(Not(h(x)), app == x)] if gen <= 1 else []
            return r + (old(x, ps, app, gen, sat) if old else [])
        s.esc.extra = extra
        forget()


# ------------------------------------------------------------------ elements
def add_extra(h, fn):
    """another rule for the homomorphism h"""
    old = h.extra

    def extra(x, ps, app, gen, sat):
        return fn(x, ps, app, gen, sat) + (old(x, ps, app, gen, sat) if old else [])
    h.extra = extra
    forget()


def add_rule(name, fn):
    old = L.RULES.get(name)

    def rule(app, gen, sat):
        return (old(app, gen, sat) if old else []) + fn(app, gen, sat)
    L.RULES[name] = rule
    forget()


def forget():
    """facts computed before a lemma was known"""
    for c in (L._sub_cache, L._rof, L._inst_cache, L._rule_cache, L._cache):
        c.clear()


def sticky(s):
    """after the first failed write nothing more is written: every step of the specification keeps a failed output as it
    is (by induction over values and nodes, whose parts are assumed to do so).  The rules that say so are used by the
    prover; an output that is not kept would make them contradict the definitions"""
    w = Const('ind:w', W)
    e = Const('ind:e', Env)
    for n, F in sorted(L.FOLDS.items()):
        if isinstance(F, L.Fold) and F.ssorts and F.ssorts[0].eq(W) and (F.sticky or F.lemmas):
            ps = [Const('ind:p%d' % i, x) for i, x in enumerate(F.psorts)]
            st = [w] + [Const('ind:s%d' % i, x) for i, x in enumerate(F.ssorts) if i]
            x = Const('ind:x', F.seqsort.basis()) if not F.seqsort.eq(Str) else Const('ind:x', Str)
            direct('a failed output is kept: ' + n, [W.errof(w) != nilV], F.step(ps, st, x)[0] == w)
    direct('a failed output is kept: a value', [W.errof(w) != nilV], s.vr_body(Const('ind:v', s.VRw.decl.domain(0)), e, w, 0) == w)
    r = Const('ind:r', Ref)
    for t in sorted(s.th.p.types):
        f = s.node_spec(t)
        if f is not None:
            direct('a failed output is kept: ' + t.rsplit('/', 1)[-1], [W.errof(w) != nilV], f(r, e, w) == w, reveal=())


def elements(s):
    """facts about conditional and merged attributes"""
    q = Const('ind:q', Str)
    e = Const('ind:e', Env)
    DN = lambda E: s.DN(E, Empty(s.SeqS))
    ok = induct('a name is among the distinct names exactly when a node has it', s.SeqN, lambda E: s.inS(DN(E), q) == s.has(E, q), ('C05', 'C13'))
    if ok:
        add_extra(s.has, lambda x, ps, app, gen, sat: [app == s.inS(DN(x), ps[0])] if gen <= 2 else [])
    ok = induct('nodes of a name exist exactly when a node has it', s.SeqN, lambda E: (Length(s.filt(E, q)) > 0) == s.has(E, q), ('C05', 'C06'))
    if ok:
        add_extra(s.filt, lambda x, ps, app, gen, sat: [(Length(app) > 0) == s.has(x, ps[0])] if gen <= 2 else [])
        add_extra(s.has, lambda x, ps, app, gen, sat: [(Length(s.filt(x, ps[0])) > 0) == app] if gen <= 1 else [])
    ok = induct('attributes of a name are attributes', s.SeqN, lambda E: Implies(s.AllAttr(E), s.AllAttr(s.filt(E, q))), ('C21',))
    if ok:
        add_extra(s.filt, lambda x, ps, app, gen, sat: [Implies(s.AllAttr(x), s.AllAttr(app))] if gen <= 2 else [])
    ok = induct('conditional attributes that apply are attributes', s.SeqCA, lambda E: Implies(s.AllCA(E), s.AllAttr(s.Eff(E, e))), ('C21',))
    if ok:
        add_extra(s.Eff, lambda x, ps, app, gen, sat: [Implies(s.AllCA(x), s.AllAttr(app))] if gen <= 2 else [])

    def EV(c, e):
        return s.EV.app(c, [e], [s.EVdom0, s.EVvals0, Empty(s.SeqS)])

    def vals(c):
        return s.slN.seqof(z3.Select(EV(c, e)[1], q))
    ok = induct('a name is evaluated exactly when a conditional attribute of that name applies', s.SeqCA,
                lambda c: z3.Select(EV(c, e)[0], q) == s.has(s.Eff(c, e), q), ('C06',))
    ok2 = ok and induct('evaluated attributes of a name are those that apply, in order', s.SeqCA,
                        lambda c: And(z3.Select(EV(c, e)[0], q) == s.has(s.Eff(c, e), q),
                                      Implies(s.has(s.Eff(c, e), q), vals(c) == s.filt(s.Eff(c, e), q))), ('C06',))

    ok3 = False

    def sel(app, gen, sat):
        a, k = app.children()
        if not is_app(a) or a.num_args() != 5 or not a.decl().name().startswith('EV.'):
            return []
        ch = a.children()
        if not (ch[2].eq(s.EVdom0) and ch[3].eq(s.EVvals0) and slen_is0(ch[4])):
            return []
        E = s.Eff(ch[0], ch[1])
        if a.decl().name() == 'EV.0':
            return ([app == s.has(E, k)] if ok else []) + ([app == s.inS(EV(ch[0], ch[1])[2], k)] if ok3 else [])
        if a.decl().name() == 'EV.1':
            if not ok2:
                return []
            v, f, h = s.slN.seqof(app), s.filt(E, k), s.has(E, k)
            # consequences of being equal that are tied to the terms, for the solver's sake
            return [Implies(h, v == f), Implies(h, s.AllAttr(v) == s.AllAttr(f)), Implies(h, Length(v) == Length(f))]
        return []
    add_rule('select', sel)
    ok3 = ok and induct('names of evaluated attributes are the distinct names of those that apply', s.SeqCA,
                        lambda c: And(z3.Select(EV(c, e)[0], q) == s.has(s.Eff(c, e), q), EV(c, e)[2] == DN(s.Eff(c, e))), ('C13', 'C06'))

    def names(app, gen, sat):
        ch = app.children()
        if ch[2].eq(s.EVdom0) and ch[3].eq(s.EVvals0) and slen_is0(ch[4]):
            return [app == DN(s.Eff(ch[0], ch[1]))]
        return []
    if ok3:
        add_rule('EV.2', names)
    E = Const('ind:E', s.SeqN)
    ok4 = direct('some name exactly when some node', [], And(Implies(Length(E) > 0, s.has(E, s.nm(E[0]))), Implies(Length(E) == 0, Not(s.has(E, q)))), ('C06',))
    mi = s.th.mapinfo('map[string][]' + AN(s))

    def mlen(app, gen, sat):
        m = app.children()[0]
        if is_app(m) and m.decl().eq(mi['mk']):
            d = m.children()[0]
            if is_app(d) and d.num_args() == 5 and d.decl().name() == 'EV.0':
                ch = d.children()
                if ch[2].eq(s.EVdom0) and ch[3].eq(s.EVvals0) and slen_is0(ch[4]):
                    return [(app > 0) == (Length(s.Eff(ch[0], ch[1])) > 0)]
        return []
    if ok and ok4:
        add_rule(mi['len'].name(), mlen)
    merging(s)


def merging(s):
    """facts about merged attributes"""
    q = Const('ind:q', Str)
    E = Empty(s.SeqN)

    def M(a):
        return s.M3.app(a, [], [E, s.EVdom0, s.Mvals0])

    def bound(a, k):
        m, d, v = M(a)
        return Implies(z3.Select(d, k), And(z3.Select(v, k) >= 0, z3.Select(v, k) < Length(m)))
    ok = induct('positions of merged attributes are positions', s.SeqN, lambda a: bound(a, q), ('C21', 'C05'),
                inst=lambda t, x: [bound(t, s.nm(x))])
    ok2 = ok and induct('merged attributes are attributes', s.SeqN, lambda a: And(bound(a, q), Implies(s.AllAttr(a), s.AllAttr(M(a)[0]))), ('C21',),
                        inst=lambda t, x: [bound(t, s.nm(x))])
    ok3 = ok and induct('a name has a position exactly when some attribute has it', s.SeqN, lambda a: z3.Select(M(a)[1], q) == s.has(a, q), ('C05',))

    def init(ch):
        return slen_is0(ch[1]) and ch[2].eq(s.EVdom0) and ch[3].eq(s.Mvals0)

    def sel(app, gen, sat):
        a, k = app.children()
        if not is_app(a) or a.num_args() != 4 or not a.decl().name() in ('M3.1', 'M3.2') or not init(a.children()):
            return []
        out = []
        if ok and a.decl().name() == 'M3.2':
            out.append(bound(a.children()[0], k))
        if ok3 and a.decl().name() == 'M3.1':
            out.append(app == s.has(a.children()[0], k))
        return out
    add_rule('select', sel)

    def m0(app, gen, sat):
        if ok2 and init(app.children()):
            return [Implies(s.AllAttr(app.children()[0]), s.AllAttr(app))]
        return []
    add_rule('M3.0', m0)


def AN(s):
    from spec import A
    return A + 'Node'


def slen_is0(x):
    return ival(slen(x)) == 0


# ------------------------------------------------------------------ properties stated over the specification
def theorems(s, prop):
    """consequences of the specification that say the property itself; each is proved here, from the definitions"""
    import ext
    if prop == 'C17':
        import c17
        c17.theorems(s)
    if prop == 'C01':
        # how a browser reads text: state is 0 between characters and n > 0 within an entity
        states, edges, final = {b'': 0}, {}, {}
        for c, e in s.SPECIAL.items():
            for i in range(1, len(e)):
                states.setdefault(e[:i], len(states))
                edges[(states[e[:i - 1]], e[i - 1])] = states[e[:i]]
            if e:
                final[(states[e[:-1]], e[-1])] = bytes([c])
        bad = -1

        def read(ps, st, c):
            b = const_bytes(c)
            n = ival(st[0])
            if b is not None and n is not None:
                k = (n, b[0])
                if k in edges:
                    return [IntVal(edges[k]), st[1]]
                if k in final:
                    return [IntVal(0), cat(st[1], zstr(final[k]))]
                return [IntVal(0), cat(st[1], c)] if n == 0 and b[0] not in s.SPECIAL else [IntVal(bad), st[1]]
            nxt, out = IntVal(bad), st[1]
            plain = And(st[0] == 0, *[c != zstr(bytes([x])) for x in s.SPECIAL])
            nxt, out = If(plain, IntVal(0), nxt), If(plain, cat(st[1], c), out)
            for (n, x), m in edges.items():
                nxt = If(And(st[0] == n, c == zstr(bytes([x]))), IntVal(m), nxt)
            for (n, x), v in final.items():
                h = And(st[0] == n, c == zstr(bytes([x])))
                nxt, out = If(h, IntVal(0), nxt), If(h, cat(st[1], zstr(v)), out)
            return [nxt, out]
        rd = Fold('read', Str, [], [Int, Str], read)
        keep = Hom('keep', Str, [], Str, lambda ps, c: (zstr('') if const_bytes(c) == b'\0' else c) if const_bytes(c) is not None else If(c == zstr('\0'), zstr(''), c))
        at = lambda x, y: And(rd(x, IntVal(0), zstr(''))[0] == 0, rd(x, IntVal(0), zstr(''))[1] == y)
        chars('escaped text is plain characters and entities that read back as the text without NUL', [s.esc, keep], at, ('C01',),
              inst=lambda o, c: rd.eqs(rd(c, *rd(o[0], IntVal(0), zstr(''))), read([], list(rd(o[0], IntVal(0), zstr(''))), c)))
    if prop == 'C07':
        v, e, w, dl = Const('ind:v', s.SeqV.basis()), Const('ind:e', Env), Const('ind:w', W), Const('ind:d', Str)
        dv = s.v_dyn(v)
        empty_ = [W.errof(w) == nilV, Not(s.VRb(v, e, w))]
        direct('a value that counts as empty adds nothing to the output', empty_ + [Length(s.v_concats(v)) == 0, Implies(dv != nilFn, s.dynW(dv, e, w) == w)],
               s.VRw(v, e, w) == w, ('C07',), reveal=(s.VRw, s.VRb))
        # of several values as one: if each of them is like that, so are all together
        va = lambda a: s.VA.app(a, [e], [w, FALSE])
        one = lambda x, u: Implies(And(W.errof(u) == nilV, Not(s.VRb(x, e, u))), s.VRw(x, e, u) == u)
        induct('nor do several values that count as empty', s.SeqV, lambda a: Implies(And(W.errof(w) == nilV, Not(va(a)[1])), va(a)[0] == w), ('C07',),
               inst=lambda t, x: [one(x, va(t)[0])])

        # the delimiters written since the last value that was not empty, and whether there has been one
        def step(ps, st, x):
            u, flag, seen, pend, good = st
            w1, b = s.D.step(ps, [u, flag], x)
            n = pend + If(flag, IntVal(1), IntVal(0))
            return [w1, b, Or(seen, b), If(b, IntVal(0), n), And(good, Implies(b, n == If(seen, IntVal(1), IntVal(0))))]
        DT = Fold('DT', s.SeqV, [Str, Env], [W, Bool, Bool, Int, Bool], step)

        def sep(a):
            u, flag, seen, pend, good = DT.app(a, [dl, e], [w, FALSE, FALSE, IntVal(0), TRUE])
            u2, flag2 = s.D.app(a, [dl, e], [w, FALSE])
            return And(u == u2, flag == flag2, good, Implies(flag, And(seen, pend == 0)), Implies(And(seen, Not(flag)), pend == 1), Implies(Not(seen), pend == 0))
        induct('one delimiter between a value and the next that is not empty, none before the first', s.SeqV, sep, ('C07',))
    if prop == 'C19':
        h = ext.repl_hom(34, b'&quot;')
        quote = Hom('hasquote', Str, [], Bool, lambda ps, c: c == zstr('"'), op=lambda a, b: Or(a, b), zero=FALSE, quant='any')
        chars('a header key as written has no quote', [h], lambda x: Not(quote(x)), ('C19',), inst=lambda o, c: [quote(c) == (c == zstr('"'))])
    if prop in ('C05', 'C13'):
        q = Const('ind:q', Str)
        E = Empty(s.SeqN)
        names = lambda a: s.DN(a, Empty(s.SeqS))
        inS = lambda ns, k: s.SND(ns, TRUE, s.EVdom0)
        induct('the distinct names are distinct', s.SeqN,
               lambda a: And(s.SND(names(a), TRUE, s.EVdom0)[0], z3.Select(s.SND(names(a), TRUE, s.EVdom0)[1], q) == s.inS(names(a), q)), ('C05', 'C13'),
               inst=lambda t, x: [z3.Select(s.SND(names(t), TRUE, s.EVdom0)[1], s.nm(x)) == s.inS(names(t), s.nm(x))])
    if prop == 'C05':
        M = lambda a: s.M3.app(a, [], [E, s.EVdom0, s.Mvals0])
        nmap = Hom('nmap', s.SeqN, [], s.SeqS, lambda ps, n: Unit(s.nm(n)))

        def pos(a, k):
            m, d, v = M(a)
            return Implies(z3.Select(d, k), And(z3.Select(v, k) >= 0, z3.Select(v, k) < Length(m), s.nm(m[z3.Select(v, k)]) == k))

        a_, i_, j_, y_ = Const('ind:a', s.SeqN), Const('ind:i', Int), Const('ind:j', Int), Const('ind:y', s.SeqN.basis())
        at = lambda a, i, j, y, c: Implies(And(i >= 0, i < Length(a), j >= 0, j < Length(a), c), setat(a, i, y)[j] == a[j])
        # two lemmas each, which give the fact on replaced elements by transitivity
        r_ = Const('ind:r', s.SeqN)
        ok = theory('elements of a prefix', Implies(And(j_ >= 0, j_ < i_, i_ <= Length(a_)), And(prefix(a_, i_)[j_] == a_[j_], Length(prefix(a_, i_)) == i_))) \
            and theory('elements before an element', Implies(And(j_ >= 0, j_ < Length(a_)), cat(a_, Unit(y_), r_)[j_] == a_[j_])) \
            and theory('elements of a suffix', Implies(And(i_ >= 0, i_ <= j_, j_ < Length(a_)), suffix(a_, i_)[j_ - i_] == a_[j_])) \
            and theory('elements after an element', Implies(And(j_ > Length(a_), j_ <= Length(a_) + Length(r_)), cat(a_, Unit(y_), r_)[j_] == r_[j_ - Length(a_) - 1])) \
            and theory('the replaced element', Implies(And(i_ >= 0, i_ < Length(a_)), setat(a_, i_, y_)[i_] == y_)) \
            and theory('elements before an added one', Implies(And(j_ >= 0, j_ < Length(a_)), cat(a_, Unit(y_))[j_] == a_[j_]))

        def facts(a, x):
            """instances of definitions, and of the lemmas on elements, for one more attribute x"""
            if not ok:
                return []
            m, d, v = M(a)
            i, j = z3.Select(v, s.nm(x)), z3.Select(v, q)
            y = s.mergeAtt(m[i], x)
            return [pos(a, s.nm(x)),
                    Implies(And(i >= 0, i < Length(m)), And(nmap(m) == cat(nmap(prefix(m, i)), Unit(s.nm(m[i])), nmap(suffix(m, i + 1))),
                                                            m == cat(prefix(m, i), Unit(m[i]), suffix(m, i + 1)))),
                    at(m, i, j, y, i != j), Implies(And(i >= 0, i < Length(m)), setat(m, i, y)[i] == y), Implies(And(j >= 0, j < Length(m)), cat(m, Unit(x))[j] == m[j]),
                    Implies(s.isDL(m[i]), s.NM(m[i]) == s.dl(m[i], 'name')), s.NM(y) == s.nm(y)]
        def known(a, x):
            m, d, v = M(a)
            return [z3.Select(d, s.nm(x)), s.nm(x) == q]
        p1 = induct('positions of merged attributes are those of their names', s.SeqN, lambda a: pos(a, q), ('C05',), inst=facts, cases=known)
        induct('merged attributes have the distinct names, in order of first declaration', s.SeqN,
               lambda a: And(pos(a, q), nmap(M(a)[0]) == names(a)), ('C05',), inst=facts, cases=known)
