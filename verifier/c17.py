"""What the specification of the code generators says about the text they write: the brackets balance, and its string
literals are those of the input, in order.

The text written so far is read as Go code, one emitted piece at a time, with
  code(w)    the text ends outside a string literal
  depth(w)   number of brackets open at its end
  lits(w)    what its string literals denote, in order
Reading a piece is done here, character by character, from the pieces of the specification: constant text, the
quoted form of a string (assumed to stay within the literal and to denote the string), names of functions (assumed
to hold no bracket and no quote), and the indent (shown to be tabs only)."""
import z3
from logic import *
import logic as L
from lemmas import direct, induct, record, holds, add_rule
import time

TAGS = ('C17',)


class NoReading(Exception):
    pass


def reading(s, tabs, piece, depth, lits):
    """(conditions, depth, lits) after a piece that starts in code; raises if it does not end in code"""
    conds = []
    mode, cur = 0, None
    for k, p in parts(piece):
        if k == 'c':
            i = 0
            while i < len(p):
                c = p[i:i + 1]
                if mode == 0:
                    if c == b'"':
                        mode, cur = 1, zstr('')
                    elif c in (b'(', b'[', b'{'):
                        depth = simp(depth + 1)
                    elif c in (b')', b']', b'}'):
                        depth = simp(depth - 1)
                        conds.append(depth >= 0)
                    elif c in (b"'", b'`', b'/'):
                        raise NoReading('%r' % c)
                else:
                    if c == b'"':
                        lits = cat(lits, Unit(cur))
                        mode, cur = 0, None
                    elif c == b'\\':
                        raise NoReading('escape in constant text')
                    else:
                        cur = cat(cur, zstr(c))
                i += 1
        elif is_app(p) and p.decl().eq(s.quoted):
            if mode != 1:
                raise NoReading('quoted text outside a literal')
            cur = cat(cur, p.children()[0])
        elif is_app(p) and p.decl().eq(s.codeName):
            if mode != 0:
                raise NoReading('a name inside a literal')
        else:
            if mode != 0:
                raise NoReading('unquoted text inside a literal: %s' % p)
            conds.append(tabs(p))
    if mode != 0:
        raise NoReading('ends inside a literal')
    return conds, depth, lits


def theorems(s):
    for pkg in ('html', 'svg'):
        of(s, pkg)


def of(s, pkg):
    g = s.gens[pkg]
    th = s.th
    W_ = W
    S = s.SeqS
    code, depth, lits = Function('code.' + pkg, W_, Bool), Function('depth.' + pkg, W_, Int), Function('lits.' + pkg, W_, S)
    tabs = Hom('tabs.' + pkg, Str, [], Bool, lambda ps, c: c == zstr('\t'), op=lambda a, b: And(a, b), zero=TRUE, quant='all')
    ok = lambda w: W_.errof(w) == nilV

    def emitted(app, gen, sat):
        w, p = app.children()
        try:
            conds, d, l = reading(s, tabs, p, depth(w), lits(w))
        except NoReading:
            return []
        return [Implies(And(ok(app), code(w), *conds), And(code(app), depth(app) == d, lits(app) == l))]
    add_rule('emit', emitted)

    # ---- what the literals of the input are
    tf, af = g.tf, lambda n, x: th.sel(s.ATT, False, th.fidx(s.ATT, n), x)
    has = lambda m, k: th.mhas(s.mapany, m, k)
    boolmap = 'map[string]bool'
    none = Empty(S)
    void = lambda name: s.htmlVoid(s.lower(name)) if pkg == 'html' else FALSE

    def attr_lits(ps, a):
        low = s.lower(af('Key', a))
        val = Unit(af('Val', a))
        if pkg == 'html':
            val = If(And(th.mhas(boolmap, g.bools, low), th.mget(boolmap, g.bools, low)), none, val)
        return If(has(g.attrs, low), val, cat(Unit(af('Key', a)), Unit(af('Val', a))))
    AL = Hom('AL.' + pkg, s.SeqAtt, [], S, attr_lits)
    import rx
    blank = z3.Star(rx.ranges([(9, 10), (32, 32)]))

    def tok_lits(ps, t):
        tt, data = tf('Type', t), tf('Data', t)
        attrs = th.seqof(s.ATT, tf('Attr', t))
        one = Unit(data)
        tag = cat(If(has(g.elems, s.lower(data)), none, one), AL(attrs))
        doc = cat(Unit(zstr('DOCTYPE')), one) if pkg == 'html' else none
        return If(tt == 1, If(z3.InRe(data, blank), none, one), If(Or(tt == 2, tt == 4), tag, If(tt == 5, one, If(tt == 6, doc, none))))
    TL = Hom('TL.' + pkg, s.SeqTok, [], S, tok_lits)

    # ---- attributes
    w, n = Const('ind:w', W_), Const('ind:n', Int)
    good = lambda x: And(ok(x), code(x))

    def at(a):
        x = g.AT.app(a, [], [w, n])
        return And(x[1] == n + Length(a), Implies(And(n >= 0, ok(x[0]), code(w), depth(w) >= 0), And(code(x[0]), depth(x[0]) == depth(w), lits(x[0]) == cat(lits(w), AL(a)))))
    at_ok = induct('%s: attributes leave the brackets as they are and add their literals' % pkg, s.SeqAtt, at, TAGS)
    if at_ok:
        def after_attrs(app, gen, sat):
            a, w0, n0 = app.children()
            return [Implies(And(n0 >= 0, ok(app), code(w0), depth(w0) >= 0), And(code(app), depth(app) == depth(w0), lits(app) == cat(lits(w0), AL(a))))]
        add_rule('AT.%s.0' % pkg, after_attrs)

    # ---- tokens
    start = s.emit(W_.mkW(Const('G0', L.GS), nilV), 'var template = aitch.Collection(\n')
    w0, i0 = Const('ind:w0', W_), Const('ind:i0', Str)

    def tok(a):
        x, ind = g.G.app(a, [], [w0, i0])
        given = And(code(w0), depth(w0) == Length(i0), Length(i0) >= 1, tabs(i0))
        return Implies(given, And(tabs(ind), Length(ind) >= 1, Implies(ok(x), And(code(x), depth(x) == Length(ind), lits(x) == cat(lits(w0), TL(a))))))
    tok_ok = at_ok and induct('%s: the open brackets are those of the indent, the literals those of the input' % pkg, s.SeqTok, tok, TAGS)

    # ---- the brackets still open at the end of the input
    def closed(x, ind):
        y = s.CLg(x, ind)
        return Implies(And(code(x), depth(x) == Length(ind), Length(ind) >= 1, tabs(ind), ok(y)), And(ok(x), code(y), depth(y) == 1, lits(y) == lits(x)))
    t = Const('ind:s', Str)
    t0 = time.time()
    longer = cat(t, zstr('\t'))
    ps = {'base': holds([Length(t) == 1], closed(w, t)),
          'step': holds([Length(t) >= 1, closed(s.emit(w, cat(t, zstr('),\n'))), t)], closed(w, longer))}
    cl_ok = record('%s: what is left open is closed' % pkg, all(ps.values()), ps, time.time() - t0, TAGS)
    if cl_ok:
        add_rule('CLg', lambda app, gen, sat: [closed(*app.children())])
    if tok_ok:
        def after_tokens(app, gen, sat):
            a, x, i = app.children()
            y, j = g.G.app(a, [], [x, i])
            given = And(code(x), depth(x) == Length(i), Length(i) >= 1, tabs(i))
            return [Implies(given, And(tabs(j), Length(j) >= 1, Implies(ok(y), And(code(y), depth(y) == Length(j), lits(y) == cat(lits(x), TL(a))))))]
        add_rule('G.%s.0' % pkg, after_tokens)

    # ---- all of it
    r = Const('ind:r', Val)
    begin = W_.mkW(Const('G0', L.GS), nilV)
    at0 = [code(begin), depth(begin) == 0, lits(begin) == none]
    y, e = g.whole(r, begin)
    direct('%s: the code written balances its brackets and holds the literals of the input, in order' % pkg, at0 + [e == nilV],
           And(code(y), depth(y) == 0, lits(y) == TL(s.tokens(r))), TAGS)
    direct('%s: an error of writing or of the input is returned' % pkg, [Or(W_.errof(y) != nilV, Not(Function('ifaceeq', Val, Val, Bool)(s.tokErr(r), Const('glob:io.EOF', Val))))], e != nilV, TAGS)
