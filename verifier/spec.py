"""Specification functions: the mathematical meaning of nodes, values, attributes, contexts.

Nothing here refers to how the code is written; the contracts (contracts.py) relate the
functions of /repo to these, and every fact the prover uses about them is a definition
given here or a lemma proved by induction (lemmas.py)."""
from logic import *
import logic as L
from theory import *

A = 'github.com/go-andiamo/aitch.'
CTXT = 'github.com/go-andiamo/aitch/context.Context'
PA = '*' + A
HD = 'github.com/go-andiamo/aitch/html.document'


class Spec:
    """built once per theory"""

    def __init__(self, th):
        self.th = th
        p = th.p
        self.VS = VS = th.sort(A + 'Value')
        self.SeqV = SeqV = SeqSort(VS)
        self.SeqN = SeqN = SeqSort(Val)
        self.FnSeq = SeqSort(Fn)
        self.mapany = 'map[string]any'
        mi = th.mapinfo(self.mapany)
        self.MD = mi['sort']
        self.NT = {n: int(v) for n, v in p.consts.items()} if isinstance(p.consts, dict) else {}

        # ---------------------------------------------------------------- context
        self.mkenv_ = Function('mkenv', self.MD, Val, Val, Ref, Env)
        self.eData = Function('eData', Env, self.MD)
        self.eCargo = Function('eCargo', Env, Val)
        self.eWriter = Function('eWriter', Env, Val)
        self.eParent = Function('eParent', Env, Ref)
        self.cx = Function('cx', Env, Ref)
        RULES['mkenv'] = lambda app, gen, sat: [self.eData(app) == app.children()[0], self.eCargo(app) == app.children()[1],
                                                self.eWriter(app) == app.children()[2], self.eParent(app) == app.children()[3]]
        RULES['cx'] = lambda app, gen, sat: [app != nilRef]

        # ---------------------------------------------------------------- output
        self.emit_ = Function('emit', W, Str, W)

        def r_emit(app, gen, sat):
            w, s = app.children()
            out = [Implies(W.errof(w) != nilV, app == w), Implies(s == StringVal(''), app == w)]
            if is_app(w) and w.decl().eq(self.emit_):
                w0, s0 = w.children()
                out.append(app == self.emit_(w0, cat(s0, s)))
            elif is_app(w) and L.FOLDS.get(w.decl().name().rsplit('.', 1)[0]) is not None:
                for y in w.children()[1:]:
                    if y.sort().eq(W) and is_app(y) and y.decl().eq(self.emit_):
                        # the fold may have added nothing
                        out.append(Implies(w == y, app == self.emit_(y.children()[0], cat(y.children()[1], s))))
            return out
        RULES['emit'] = r_emit

        # ---------------------------------------------------------------- escaping
        self.SPECIAL = {0: b'', 34: b'&quot;', 39: b'&apos;', 38: b'&amp;', 60: b'&lt;', 62: b'&gt;'}

        def esc1(ps, c):
            b = const_bytes(c)
            if b is not None:
                return zstr(self.SPECIAL.get(b[0], b))
            r = c
            for k, v in self.SPECIAL.items():
                r = If(c == zstr(bytes([k])), zstr(v), r)
            return r
        self.esc = Hom('esc', Str, [], Str, esc1)

        # contains-any over a constant set
        self._ca = {}

        # ---------------------------------------------------------------- conversion of values
        self.dec = Function('dec', Int, Str)             # decimal notation
        self.strOf = Function('strOf', Val, Str)         # String() of a value
        self.callAny = Function('callAny', Fn, Val)      # result of a func() any
        self.fmtF = Function('fmtF', F64, Int, Int, Int, Str)   # shortest form of a float ('g', -1, bits)
        self.f32to64 = Function('conv:float32:float64', F32, F64)
        self.ints = ['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64']

        def r_dec(app, gen, sat):
            return [Length(app) > 0]
        RULES['dec'] = r_dec

        def vb_body(sat, v):
            return self.vb_def(v)
        self.vb = Def('vb', [Val], Str, vb_body, fuel=2, smart=self.vb_smart, opaque=True)

        # ---------------------------------------------------------------- values
        self.v_value = lambda v: th.sel(A + 'Value', False, th.fidx(A + 'Value', 'value'), v)
        self.v_dyn = lambda v: th.sel(A + 'Value', False, th.fidx(A + 'Value', 'dynamicFunc'), v)
        self.v_concats = lambda v: th.seqof(A + 'Value', th.sel(A + 'Value', False, th.fidx(A + 'Value', 'concats'), v))
        self.dynB = Function('dynB', Fn, Env, W, Str)
        self.dynW = Function('dynW', Fn, Env, W, W)
        # known dynamic functions
        self.dynkey = Function('dynkey', Str, Fn)        # writes what the context holds under a key
        self.dyncargo = Const('dyncargo', Fn)

        def r_dyn(app, gen, sat):
            f, e, w = app.children()
            isB = app.decl().eq(self.dynB)
            out = []
            if not isB:
                out.append(Implies(W.errof(w) != nilV, app == w))
            if is_app(f) and f.decl().eq(self.dynkey):
                k = f.children()[0]
                d = self.data(e)
                out.append(app == (If(self.th.mhas(self.mapany, d, k), self.vb(self.th.mget(self.mapany, d, k)), StringVal('')) if isB else w))
            elif f.eq(self.dyncargo):
                out.append(app == (self.vb(self.cargo(e)) if isB else w))
            return out
        RULES['dynB'] = RULES['dynW'] = r_dyn
        RULES['dynkey'] = lambda app, gen, sat: [app != nilFn]
        RULES['dyncargo'] = lambda app, gen, sat: [app != nilFn]

        self.VRw = Def('VRw', [VS, Env, W], W, lambda sat, v, e, w: self.vr_body(v, e, w, 0), fuel=2, opaque=True)
        self.VRb = Def('VRb', [VS, Env, W], Bool, lambda sat, v, e, w: self.vr_body(v, e, w, 1), fuel=2, opaque=True)

        def stickyW(d):
            old = RULES[d.name]

            def rule(app, gen, sat):
                return old(app, gen, sat) + [Implies(W.errof(app.children()[-1]) != nilV, app == app.children()[-1])]
            RULES[d.name] = rule
        stickyW(self.VRw)
        self.VF = Fold('VF', SeqV, [Env], [W], lambda ps, st, x: [self.VRw(x, ps[0], st[0])], sticky=True)
        self.VA = Fold('VA', SeqV, [Env], [W, Bool],
                       lambda ps, st, x: [self.VRw(x, ps[0], st[0]), Or(st[1], self.VRb(x, ps[0], st[0]))])
        # delimited values: state = output, does the last value need a delimiter before the next
        def dstep(ps, st, x):
            w1 = If(st[1], self.emit(st[0], ps[0]), st[0])
            if is_true(st[1]):
                w1 = self.emit(st[0], ps[0])
            elif is_false(st[1]):
                w1 = st[0]
            return [self.VRw(x, ps[1], w1), self.VRb(x, ps[1], w1)]
        self.D = Fold('D', SeqV, [Str, Env], [W, Bool], dstep, lemmas=[self.l_D_sticky])

        # ---------------------------------------------------------------- nodes
        self.NM = Function('NM', Val, Str)
        self.TY = Function('TY', Val, Int)
        self.GV = Function('GV', Val, SeqV)
        self.Rw = Function('Rw', Val, Env, W, W)          # world after n.Render(ctx)
        self.Re = Function('Re', Val, Env, W, Val)        # what it returns
        RULES['NM'], RULES['TY'], RULES['GV'] = self.r_NM, self.r_TY, self.r_GV
        RULES['Rw'] = self.r_Rw
        RULES['Re'] = self.r_Re
        self.condB = Function('condB', Fn, Env, Bool)
        RULES['condB'] = self.r_condB
        self.hasKey = Function('hasKey', Str, Fn)
        self.notKey = Function('notKey', Str, Fn)
        RULES['hasKey'] = RULES['notKey'] = lambda app, gen, sat: [app != nilFn]

        self.RFs = Fold('RFs', SeqN, [Env], [W], lambda ps, st, n: [self.R(n, ps[0], st[0])], sticky=True)
        self.RFn = Fold('RFn', SeqN, [Env], [W], lambda ps, st, n: [If(self.isAttr(n), st[0], self.R(n, ps[0], st[0]))], sticky=True)
        # nodes collected at render time: nil ones are skipped as well
        self.RFx = Fold('RFx', SeqN, [Env], [W],
                        lambda ps, st, n: [If(Or(n == nilV, self.isAttr(n)), st[0], self.R(n, ps[0], st[0]))], sticky=True)
        self.colN = Function('colN', Fn, Env, W, SeqN)
        self.colW = Function('colW', Fn, Env, W, W)
        self.itS = Function('itS', Fn, Env, W, SeqN)
        self.itW = Function('itW', Fn, Env, W, W)
        self.iterKey = Function('iterKey', Str, Fn)
        RULES['iterKey'] = lambda app, gen, sat: [app != nilFn]
        RULES['itS'] = RULES['itW'] = self.r_it
        sticky3 = lambda app, gen, sat: [Implies(W.errof(app.children()[2]) != nilV, app == app.children()[2])]
        RULES['colW'] = sticky3
        self.refl = Function('elems', Val, SeqN)          # elements of a slice value of any type
        self.isSlice = Function('isSlice', Val, Bool)
        self.IT = Fold('IT', SeqN, [SeqN, Env], [W], self.it_step, sticky=True)
        self.YW = Function('YW', Fn, SeqN, Env, W, W)
        RULES['YW'] = lambda app, gen, sat: [Implies(W.errof(app.children()[3]) != nilV, app == app.children()[3])]
        self.tfn = Function('tfn', Val, Fn)               # what a template marker of a node calls
        RULES['tfn'] = lambda app, gen, sat: [app != nilFn]
        self.impW = Function('impW', Fn, Env, W, W)
        self.impE = Function('impE', Fn, Env, W, Val)
        RULES['impW'] = sticky3
        self.docT = None

        # ---------------------------------------------------------------- building
        self.nv = Def('nv', [Val], SeqV, lambda sat, v: self.nv_def(v), fuel=2, smart=self.nv_smart, opaque=True,
                      always=lambda v: [Implies(v == nilV, self.nv.decl(v) == Empty(self.SeqV))])
        self.NVs = Hom('NVs', SeqN, [], SeqV, lambda ps, v: self.nv(v))       # values of a list of contents
        self.C2N = Hom('C2N', SeqN, [], SeqN, lambda ps, v: Unit(self.c2n(v)))
        self.NN = Hom('NN', SeqN, [], SeqN, lambda ps, v: self.ite_seq(v == nilV, Empty(SeqN), Unit(v)))   # without nils
        self.NNN = Hom('NNN', SeqN, [], SeqN, lambda ps, v: self.ite_seq(Or(v == nilV, self.isAttr(v)), Empty(SeqN), Unit(v)))
        self.NNA = Hom('NNA', SeqN, [], SeqN, lambda ps, v: self.ite_seq(And(v != nilV, self.isAttr(v)), Unit(v), Empty(SeqN)))
        self.AllNN = Hom('AllNN', SeqN, [], Bool, lambda ps, v: v != nilV, op=lambda a, b: And(a, b), zero=TRUE, quant='all')
        self.AllAttr = Hom('AllAttr', SeqN, [], Bool, lambda ps, v: And(v != nilV, self.isAttr(v)), op=lambda a, b: And(a, b), zero=TRUE, quant='all')


        # ---------------------------------------------------------------- elements
        self.CAS = th.sort(A + 'conditionalAttribute')
        self.SeqCA = SeqSort(self.CAS)
        self.SeqS = SeqSort(Str)
        self.MI = th.mapinfo('map[string]int')['sort']
        AN = A + 'Node'
        self.DL = PA + 'delimitedAttribute'
        self.ca_attr = lambda c: th.sel(A + 'conditionalAttribute', False, th.fidx(A + 'conditionalAttribute', 'attribute'), c)
        self.ca_conds = lambda c: th.seqof(A + 'ConditionalFunc', th.sel(A + 'conditionalAttribute', False, th.fidx(A + 'conditionalAttribute', 'conditions'), c))
        self.AllB = Hom('AllB', self.FnSeq, [Env], Bool, lambda ps, f: self.condB(f, ps[0]), op=lambda a, b: And(a, b), zero=TRUE, quant='all')
        self.Eff = Hom('Eff', self.SeqCA, [Env], SeqN,
                       lambda ps, c: self.ite_seq(self.AllB(self.ca_conds(c), ps[0]), Unit(self.ca_attr(c)), Empty(SeqN)))
        self.filt = Hom('filt', SeqN, [Str], SeqN, lambda ps, n: self.ite_seq(self.nm(n) == ps[0], Unit(n), Empty(SeqN)))
        self.has = Hom('has', SeqN, [Str], Bool, lambda ps, n: self.nm(n) == ps[0], op=lambda a, b: Or(a, b), zero=FALSE, quant='any')
        self.inS = Hom('inS', self.SeqS, [Str], Bool, lambda ps, n: n == ps[0], op=lambda a, b: Or(a, b), zero=FALSE, quant='any')
        self.DN = Fold('DN', SeqN, [], [self.SeqS],
                       lambda ps, st, n: [self.ite_seq(self.inS(st[0], self.nm(n)), st[0], cat(st[0], Unit(self.nm(n))))])
        self.flat = Hom('flat', SeqN, [], SeqV, lambda ps, n: self.ite_seq(self.isVN(n), self.gv(n), Empty(SeqV)))
        sln = th.slice_dt(AN)
        self.slN = sln
        self.DomS = z3.ArraySort(Str, Bool)
        self.ValsS = z3.ArraySort(Str, sln)

        def ev_step(ps, st, c):
            dom, vals, names = st
            at = self.ca_attr(c)
            nm = self.nm(at)
            ok = self.AllB(self.ca_conds(c), ps[0])
            old = self.ite_seq(z3.Select(dom, nm), sln.seqof(z3.Select(vals, nm)), Empty(SeqN))
            return [If(ok, z3.Store(dom, nm, TRUE), dom),
                    If(ok, z3.Store(vals, nm, sln.mksl(cat(old, Unit(at)), FALSE)), vals),
                    If(And(ok, Not(z3.Select(dom, nm))), cat(names, Unit(nm)), names)]
        self.EV = Fold('EV', self.SeqCA, [Env], [self.DomS, self.ValsS, self.SeqS], ev_step)
        self.EVdom0 = z3.K(Str, FALSE)
        self.EVvals0 = Const('dflt:M:map[string][]' + AN, self.ValsS)
        self.RA1 = Fold('RA1', SeqN, [SeqN, Env], [W], lambda ps, st, x: [self.ra1(ps[0], ps[1], st[0], x)], sticky=True)
        self.RA2 = Fold('RA2', self.SeqS, [SeqN, self.MI, Env], [W], lambda ps, st, x: [self.ra2(ps[0], ps[1], ps[2], st[0], x)], sticky=True)
        # merging of repeated attributes
        self.ValsI = z3.ArraySort(Str, Int)

        def m_step(ps, st, at):
            seq, dom, vals = st
            nm = self.nm(at)
            idx = z3.Select(vals, nm)
            h = z3.Select(dom, nm)
            return [If(h, setat(seq, idx, self.mergeAtt(seq[idx], at)), cat(seq, Unit(at))),
                    If(h, dom, z3.Store(dom, nm, TRUE)),
                    If(h, vals, z3.Store(vals, nm, Length(seq)))]
        self.M3 = Fold('M3', SeqN, [], [SeqN, self.DomS, self.ValsI], m_step)
        self.Mvals0 = Const('dflt:M:map[string]int', self.ValsI)
        # end tags of the open elements, innermost first
        self.CL = RFold('CL', self.SeqS, [], [W], lambda ps, st, n: [self.emit(st[0], cat(zstr('</'), n, zstr('>')))])
        # separation of attributes and contents
        self.AC_a = Hom('AC_a', SeqN, [self.FnSeq], SeqN, self.ac_a)
        self.AC_ca = Hom('AC_ca', SeqN, [self.FnSeq], self.SeqCA, self.ac_ca)
        self.AC_c = Hom('AC_c', SeqN, [], SeqN, lambda ps, n: self.ite_seq(Or(n == nilV, self.isAttr(n)), Empty(SeqN), Unit(n)))
        self.AllCA = Hom('AllCA', self.SeqCA, [], Bool, lambda ps, c: And(self.ca_attr(c) != nilV, self.isAttr(self.ca_attr(c)), self.AllFn(self.ca_conds(c))),
                         op=lambda a, b: And(a, b), zero=TRUE, quant='all')
        self.AllFn = Hom('AllFn', self.FnSeq, [], Bool, lambda ps, f: f != nilFn, op=lambda a, b: And(a, b), zero=TRUE, quant='all')
        self.CAmap = Hom('CAmap', SeqN, [self.FnSeq], self.SeqCA, lambda ps, n: Unit(self.mkCA(n, ps[0])))

        # ---------------------------------------------------------------- repetition
        self.rep_ = Function('rep', Str, Int, Str)

        def r_rep(app, gen, sat):
            x, n = app.children()
            out = [Implies(n <= 0, app == StringVal(''))]
            b = const_bytes(x)
            if b is not None:
                out.append(Implies(n >= 0, Length(app) == len(b) * n))
            if gen == 0:
                out.append(Implies(n > 0, app == cat(self.rep_(x, simp(n - 1)), x)))
            return out
        RULES['rep'] = r_rep

        # ---------------------------------------------------------------- sets of keys
        # enumerated without repetition, and which
        self.SND = Fold('SND', self.SeqS, [], [Bool, self.DomS],
                        lambda ps, st, k: [And(st[0], Not(z3.Select(st[1], k))), z3.Store(st[1], k, TRUE)])
        self.sortedOf = Function('sortedOf', self.DomS, self.SeqS)      # the elements of a set of strings in order
        self.srt = Function('sorted', self.SeqS, self.SeqS)
        # ---------------------------------------------------------------- header maps
        self.HM = 'github.com/go-andiamo/aitch/htmx.HeadersMap'
        self.AV = z3.ArraySort(Str, Val)
        self.isHM = lambda v: th.tag(v) == th.tid(self.HM)
        self.HVals0 = Const('dflt:' + self.MD.name(), self.AV)

        def mg(dom, vals, m, cond=TRUE):
            d, v = th.marrays(self.mapany, m)
            return [If(cond, self.a_or(dom, d), dom), If(cond, self.a_ite(d, v, vals), vals)]
        self.MGv = Fold('MGv', SeqN, [], [self.DomS, self.AV], lambda ps, st, v: mg(st[0], st[1], th.unbox(self.HM, v), self.isHM(v)))
        self.MGm = Fold('MGm', SeqSort(self.MD), [], [self.DomS, self.AV], lambda ps, st, m: mg(st[0], st[1], m))
        self.anyHM = Hom('anyHM', SeqN, [], Bool, lambda ps, v: self.isHM(v), op=lambda a, b: Or(a, b), zero=FALSE, quant='any')
        self.anyOther = Hom('anyOther', SeqN, [], Bool, lambda ps, v: Not(self.isHM(v)), op=lambda a, b: Or(a, b), zero=FALSE, quant='any')

        def hs_step(ps, st, k):
            import ext
            key = th.box('[]byte', cat(st[1], zstr("'"), ext.repl_hom(34, b'&quot;')(k), zstr("': ")))
            return [cat(st[0], Unit(key), Unit(z3.Select(ps[0], k))), zstr(', ')]
        self.HS = Fold('HS', self.SeqS, [self.AV], [SeqN, Str], hs_step)
        # ---------------------------------------------------------------- templates
        self.THTML = 'func(*%s) (html/template.HTML, error)' % CTXT
        self.TATTR = 'func(*%s) (html/template.HTMLAttr, error)' % CTXT
        self.CF = Function('marker', Val, Val)
        RULES['marker'] = lambda app, gen, sat: [app == self.marker(app.children()[0])]

        self.generator()
        self.invariants()

    def rep(self, x, n):
        """n copies of x"""
        x, n = zstr(x) if isinstance(x, (str, bytes)) else x, simp(n)
        b, c = const_bytes(x), ival(n)
        if c is not None and (c <= 0 or b is not None):
            return zstr(b * c) if c > 0 else StringVal('')
        return self.rep_(x, n)

    # arrays as sets and maps
    def a_or(self, a, b):
        return b if a.eq(self.EVdom0) else z3.Map(z3.Or(TRUE, FALSE).decl(), a, b)

    def a_and(self, a, b):
        return z3.Map(z3.And(TRUE, FALSE).decl(), a, b)

    def a_ite(self, c, a, b):
        return z3.Map(z3.If(TRUE, a[z3.FreshConst(a.sort().domain())], b[z3.FreshConst(b.sort().domain())]).decl(), c, a, b)

    def a_set(self, vals):
        """keys with a value that is not nil"""
        eq = z3.Map((nilV == nilV).decl(), vals, z3.K(vals.sort().domain(), nilV))
        return z3.Map(z3.Not(TRUE).decl(), eq)

    def sorted_(self, s, state):
        """sorting an enumeration of a set without repetitions depends on the set only"""
        nd, st = self.SND(s, TRUE, self.EVdom0)
        if proves(state.pc, nd):
            return self.sortedOf(st)
        return If(nd, self.sortedOf(st), self.srt(s))

    def norm(self, m):
        """values of the map, nil elsewhere"""
        d, v = self.th.marrays(self.mapany, m)
        return self.a_ite(d, v, z3.K(Str, nilV))

    def headers(self, m, pre):
        """the contents a header map is written as"""
        th = self.th
        b = lambda x: Unit(th.box('[]byte', zstr(x) if isinstance(x, str) else x))
        body = self.HS(self.sortedOf(th.marrays(self.mapany, m)[0]), self.norm(m), cat(self.ite_seq(Length(pre) > 0, b(pre), Empty(self.SeqN)), b('{')), StringVal(''))[0]
        return cat(body, b('}'))

    def marker(self, n):
        """what a template calls for a node"""
        return If(self.isAttr(n), self.th.box(self.TATTR, self.tfn(n)), self.th.box(self.THTML, self.tfn(n)))

    def markers(self, nm):
        """markers for all the nodes that are not nil"""
        d, v = self.th.marrays(A + 'NodeMap', nm)
        dom = self.a_and(d, self.a_set(v))
        return self.th.mapinfo(self.mapany)['mk'](dom, self.a_ite(dom, z3.Map(self.CF, v), self.HVals0))

    # ------------------------------------------------------------------ code generation
    TOK, ATT = 'golang.org/x/net/html.Token', 'golang.org/x/net/html.Attribute'

    def generator(self):
        th = self.th
        self.gens = {}
        self.tables = {}          # tables of vocabulary functions, by the term of the map
        self.codeName = Function('code.name', Val, Str)
        RULES['code.name'] = lambda app, gen, sat: [Length(app) > 0]
        self.quoted = Function('quote', Str, Str)         # a Go string literal denoting a string, without its quotes
        if self.TOK not in th.p.types:
            return
        TokS, AttS = th.sort(self.TOK), th.sort(self.ATT)
        self.SeqTok, self.SeqAtt = SeqSort(TokS), SeqSort(AttS)
        self.tokens = Function('tokens', Val, self.SeqTok)
        self.tokErr = Function('tokErr', Val, Val)
        RULES['tokErr'] = lambda app, gen, sat: [app != nilV]

        def cl(sat, w, ind):
            less = prefix(ind, simp(Length(ind) - 1))
            return If(Length(ind) > 1, self.CLg(self.emit(w, cat(less, zstr('),\n'))), less), w)
        self.CLg = Def('CLg', [W, Str], W, cl, fuel=1, always=None)
        old = RULES['CLg']
        RULES['CLg'] = lambda app, gen, sat: old(app, gen, sat) + [Implies(W.errof(app.children()[0]) != nilV, app == app.children()[0])]
        for pkg in ('html', 'svg'):
            self.generator_of(pkg)

    def lower(self, x):
        b = const_bytes(x)
        return zstr(b.lower()) if b is not None and all(q < 128 for q in b) else Function('tolower', Str, Str)(x)

    def lit(self, x):
        return cat(zstr('"'), self.quoted(x), zstr('"'))

    def generator_of(self, pkg):
        th = self.th
        g = self.gens[pkg] = type('Gen', (), {})()
        boolmap = 'map[string]bool'
        g.elems, g.attrs = (Const('%s.%s' % (pkg, n), th.sort(self.mapany)) for n in ('elements', 'attributes'))
        g.bools = Const(pkg + '.booleans', th.sort(boolmap)) if boolmap in th.p.types else None
        for m in (g.elems, g.attrs):
            self.tables[m.get_id()] = m
        af = lambda n, x: th.sel(self.ATT, False, th.fidx(self.ATT, n), x)
        tf = lambda n, x: th.sel(self.TOK, False, th.fidx(self.TOK, n), x)
        g.tf = tf
        has = lambda m, k: th.mhas(self.mapany, m, k)
        get = lambda m, k: th.mget(self.mapany, m, k)

        def at_step(ps, st, a):
            w, n = st
            key, val = af('Key', a), af('Val', a)
            low = self.lower(key)
            fn = self.codeName(get(g.attrs, low))

            def put(sep):
                call = self.emit(w, cat(sep, fn, zstr('('), self.lit(val), zstr(')')))
                if pkg == 'html':
                    call = If(And(th.mhas(boolmap, g.bools, low), th.mget(boolmap, g.bools, low)), self.emit(w, cat(sep, fn, zstr('()'))), call)
                return If(has(g.attrs, low), call, self.emit(w, cat(sep, zstr('aitch.Attribute('), self.lit(key), zstr(' ,'), self.lit(val), zstr(')'))))
            first, more = put(zstr('')), put(zstr(', '))
            return [(more if ival(n) > 0 else first) if ival(n) is not None else If(n > 0, more, first), simp(n + 1)]
        g.AT = Fold('AT.' + pkg, self.SeqAtt, [], [W, Int], at_step, lemmas=[self.l_D_sticky])

        def open_(tok, w, ind, self_):
            name = tf('Data', tok)
            low = self.lower(name)
            attrs = th.seqof(self.ATT, tf('Attr', tok))
            some = Length(attrs) > 0

            def after(w1):
                w2 = g.AT(attrs, w1, IntVal(0))[0]
                return If(some, If(self_, self.emit(w2, '),\n'), self.emit(w2, ',\n')), If(self_, self.emit(w1, '),\n'), self.emit(w1, '\n')))
            w3 = If(has(g.elems, low), after(self.emit(w, cat(ind, self.codeName(get(g.elems, low)), zstr('(')))),
                    after(self.emit(w, cat(ind, zstr('aitch.Element('), self.lit(name), zstr(', ')))))
            return w3, If(self_, ind, cat(ind, zstr('\t')))

        import rx
        blank = z3.Star(rx.ranges([(9, 10), (32, 32)]))

        def step(ps, st, tok):
            w, ind = st
            tt, data = tf('Type', tok), tf('Data', tok)
            line = lambda x: self.emit(w, cat(ind, x, zstr('\n')))
            self_ = Or(tt == 4, And(tt == 2, self.htmlVoid(self.lower(data)) if pkg == 'html' else FALSE))
            ow, oi = open_(tok, w, ind, self_)
            less = prefix(ind, simp(Length(ind) - 1))
            text = lambda fn: line(cat(zstr('%s.%s(' % (pkg, fn)), self.lit(data), zstr('),')))
            doc = line(cat(zstr('html.PI("DOCTYPE", '), self.lit(data), zstr('),'))) if pkg == 'html' else w
            w1 = If(tt == 1, If(z3.InRe(data, blank), w, text('Text')),
                    If(Or(tt == 2, tt == 4), ow,
                       If(tt == 3, If(Length(ind) > 1, self.emit(w, cat(less, zstr('),\n'))), w),
                          If(tt == 5, text('Comment'), If(tt == 6, doc, w)))))
            i1 = If(Or(tt == 2, tt == 4), oi, If(And(tt == 3, Length(ind) > 1), less, ind))
            return [w1, i1]
        g.G = Fold('G.' + pkg, self.SeqTok, [], [W, Str], step, lemmas=[self.l_D_sticky])

        def whole(r, w0):
            """what is written for the input r, and the error that is returned"""
            toks, fin = self.tokens(r), self.tokErr(r)
            w1, ind = g.G(toks, self.emit(w0, 'var template = aitch.Collection(\n'), zstr('\t'))
            eof = Function('ifaceeq', Val, Val, Bool)(fin, Const('glob:io.EOF', Val))
            w2 = self.emit(self.CLg(w1, ind), ')\n\n')
            stop = Or(W.errof(w1) != nilV, Not(eof))
            return If(stop, w1, w2), If(W.errof(w1) != nilV, W.errof(w1), If(Not(eof), fin, W.errof(w2)))
        g.whole = whole

    def invariants(self):
        """what holds of every object of the repository's types, once built"""
        th = self.th
        inv = th.invs

        def add(t, tags, name, f):
            if A + t in th.p.types:
                inv.setdefault(A + t, []).append((tags, name, f))
        add('collection', ('C21',), 'no nil nodes', lambda r: self.AllNN(self.fseq('collection', 'nodes', r)))
        add('conditional', ('C21',), 'no nil nodes', lambda r: self.AllNN(self.fseq('conditional', 'nodes', r)))
        add('conditional', ('C21', 'C06'), 'attributes are attributes', lambda r: self.AllAttr(self.fseq('conditional', 'attributes', r)))
        add('conditional', ('C21',), 'has a condition', lambda r: self.f('conditional', 'fn', r) != nilFn)
        add('contentCollector', ('C21',), 'has a collector', lambda r: self.f('contentCollector', 'collector', r) != nilFn)
        for t in ('iterator', 'yieldIterator'):
            add(t, ('C21',), 'no nil nodes', lambda r, t=t: self.AllNN(self.fseq(t, 'nodes', r)))
            add(t, ('C21',), 'has a function', lambda r, t=t: self.f(t, 'fn', r) != nilFn)
        for t in ('element', 'voidElement'):
            add(t, ('C21', 'C04'), 'attributes are attributes', lambda r, t=t: self.AllAttr(self.fseq(t, 'attributes', r)))
            add(t, ('C21', 'C04'), 'conditional attributes are attributes', lambda r, t=t: self.AllCA(self.fseq(t, 'conditionals', r)))
        add('element', ('C21',), 'no nil nodes', lambda r: self.AllNN(self.fseq('element', 'contents', r)))
        if HD in th.p.types:
            inv.setdefault(HD, []).append((('C21',), 'no nil nodes', lambda r: self.AllNN(self.fseq(HD, 'contents', r))))
        add('Template', ('C18', 'C21'), 'has a template', lambda r: self.f('Template', 'template', r) != nilRef)

    # ------------------------------------------------------------------ helpers
    def ite_seq(self, c, a, b):
        c = simp(c)
        if is_true(c):
            return a
        if is_false(c):
            return b
        return If(c, a, b)

    def mkenv(self, d, c, w, p):
        x = [d, c, w, p]
        fs = (self.eData, self.eCargo, self.eWriter, self.eParent)
        if is_app(d) and d.num_args() == 1 and d.decl().eq(self.eData):
            src = d.children()[0]
            if all(is_app(a) and a.num_args() == 1 and a.decl().eq(f) and a.children()[0].eq(src) for a, f in zip(x, fs)):
                return src
        return self.mkenv_(d, c, w, p)

    def data(self, e):
        return e.children()[0] if is_app(e) and e.num_args() and e.decl().eq(self.mkenv_) else self.eData(e)

    def cargo(self, e):
        return e.children()[1] if is_app(e) and e.num_args() and e.decl().eq(self.mkenv_) else self.eCargo(e)

    def writer(self, e):
        return e.children()[2] if is_app(e) and e.num_args() and e.decl().eq(self.mkenv_) else self.eWriter(e)

    def emit(self, w, s):
        if isinstance(s, (bytes, str)):
            s = zstr(s)
        b = const_bytes(s)
        if b == b'':
            return w
        if is_app(w) and w.num_args() and w.decl().eq(self.emit_):
            w0, s0 = w.children()
            return self.emit_(w0, cat(s0, s))
        return self.emit_(w, s)

    def adopt(self, w, e):
        """the context keeps the error e unless it has one already"""
        return If(W.errof(w) == nilV, W.mkW(W.gof(w), e), w)

    def R(self, n, e, w):
        """rendering node n as part of something else (its error is kept in the context)"""
        return self.R_()(n, e, w)

    def R_(self):
        if not hasattr(self, '_R'):
            self._R = Function('R', Val, Env, W, W)

            def rule(app, gen, sat):
                n, e, w = app.children()
                out = [Implies(W.errof(w) != nilV, app == w)]
                k = self.dyntype(sat, n)
                if gen <= 2:
                    if k is not None and self.node_spec(k[0]) is not None:
                        out.append(app == self.node_spec(k[0])(k[1], e, w))
                    else:
                        out.append(app == self.adopt(self.Rw(n, e, w), self.Re(n, e, w)))
                return out
            RULES['R'] = rule
        return self._R

    def dyntype(self, sat, v):
        if is_app(v) and v.decl().name().startswith('bx:'):
            return v.decl().name()[3:], v.children()[0]
        k = sat.known.get(v.get_id())
        if k is not None:
            return k.decl().name()[3:], k.children()[0]
        return None

    def f(self, t, name, r):
        """field of an object of type A+t"""
        return self.th.fld(A + t if '.' not in t else t, name, r)

    def fseq(self, t, name, r):
        full = A + t if '.' not in t else t
        x = self.th.fld(full, name, r)
        for fd in self.th.p.fields(full):
            if fd['name'] == name:
                return self.th.seqof(self.th.p.elem(fd['type']), x)
        raise Unsupported(name)

    # ------------------------------------------------------------------ conversion
    def vb_case(self, t, x):
        """value x of type t as bytes (None: not a supported concrete type)"""
        if t == 'bool':
            if is_true(x):
                return zstr('true')
            if is_false(x):
                return zstr('false')
            return If(x, zstr('true'), zstr('false'))
        if t == '[]byte':
            return x
        if t == 'string':
            return self.esc(x)
        if t in self.ints:
            return self.dec(x)
        if t == 'float32':
            return self.fmtF(self.f32to64(x), IntVal(ord('g')), IntVal(-1), IntVal(32))
        if t == 'float64':
            return self.fmtF(x, IntVal(ord('g')), IntVal(-1), IntVal(64))
        if t == 'func() any':
            return self.vb(self.callAny(x)) if is_true(simp(x != nilFn)) else If(x == nilFn, StringVal(''), self.vb(self.callAny(x)))
        return None

    def vb_smart(self, v):
        if is_app(v) and v.decl().name().startswith('bx:'):
            t, x = v.decl().name()[3:], v.children()[0]
            r = self.vb_case(t, x)
            if r is not None:
                return r
            i = self.th.p.implements(t, 'fmt.Stringer')
            if i:
                return self.esc(self.strOf(v))
            if i is False:
                return StringVal('')
        if v.eq(nilV):
            return StringVal('')
        return None

    CASES = ['bool', '[]byte', 'string', 'float32', 'float64']

    def vb_def(self, v):
        th = self.th
        r = StringVal('')
        r = If(th.tag(v) == th.tid('func() any'), self.vb_case('func() any', th.unbox('func() any', v)), r)
        r = If(And(v != nilV, th.impl('fmt.Stringer', v)), self.esc(self.strOf(v)), r)
        for t in self.CASES + self.ints:
            r = If(th.tag(v) == th.tid(t), self.vb_case(t, th.unbox(t, v)), r)
        return r

    # ------------------------------------------------------------------ values
    def vr_body(self, v, e, w, i):
        sv, dv, cv = self.v_value(v), self.v_dyn(v), self.v_concats(v)
        w1 = self.dynW(dv, e, w)
        d = self.dynB(dv, e, w)
        if i == 0:
            dyn = If(W.errof(w1) == nilV, self.emit(w1, d), w1)
            con = self.VF(cv, e, w)
            plain = self.emit(w, sv)
            none = w
        else:
            dyn = And(W.errof(w1) == nilV, Length(d) > 0)
            con = self.VA.app(cv, [e], [w, FALSE])[1]
            plain = Length(sv) > 0
            none = FALSE
        if dv.eq(nilFn):
            r = None
        isdyn = simp(dv != nilFn)
        r = con
        ln = slen(cv)
        c = simp(ln > 0)
        r = con if is_true(c) else plain if is_false(c) else If(c, con, plain)
        r = dyn if is_true(isdyn) else r if is_false(isdyn) else If(isdyn, dyn, r)
        return If(W.errof(w) != nilV, none, r)

    def mkV(self, value=None, dyn=None, concats=None):
        th = self.th
        return th.mk(A + 'Value', False, [value if value is not None else StringVal(''), dyn if dyn is not None else nilFn,
                                          concats if concats is not None else th.zero('[]' + A + 'Value')])

    def node(self, T, **fields):
        """the node that is a new T with these fields"""
        th = self.th
        full = T[1:]
        args = []
        for f in th.p.fields(full):
            x = fields[f['name']]
            if not x.sort().eq(th.sort(f['type'])):
                x = th.sl(th.p.elem(f['type']), x)
            args.append(x)
        return th.box(T, th.mk(full, True, args))

    def element_fields(self, t, name, contents):
        ns = self.C2N(contents)
        none = Empty(self.FnSeq)
        seq, dom, vals = self.M3.app(self.AC_a(ns, none), [], [Empty(self.SeqN), self.EVdom0, self.Mvals0])
        mi = self.th.mapinfo('map[string]int')
        fs = dict(name=name, attributes=seq, attIndices=mi['mk'](dom, vals), conditionals=self.AC_ca(ns, none))
        if t == 'element':
            fs['contents'] = self.AC_c(ns)
        return fs

    def element(self, t, name, contents):
        return self.node(PA + t, **self.element_fields(t, name, contents))

    # names: a letter, then letters, digits, . _ - :
    def validName(self, s):
        import rx
        letter = rx.ranges([(65, 90), (97, 122)])
        rest = rx.ranges([(65, 90), (97, 122), (48, 57)] + [(ord(c), ord(c)) for c in '._-:'])
        return z3.InRe(s, z3.Concat(letter, z3.Star(rest)))

    panicOn = Const('glob:' + A + 'PanicOnInvalidName', Bool)
    HTMLVOID = ('area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr')

    def htmlVoid(self, name):
        return Or([name == zstr(v) for v in self.HTMLVOID])

    def mkVals(self, seq):
        return self.th.sl(A + 'Value', seq)

    def l_D_sticky(self, s, ps, st, me):
        return [Implies(W.errof(st[0]) != nilV, me[0] == st[0])]

    # ------------------------------------------------------------------ newValue
    VALNODES = ['attribute', 'delimitedAttribute', 'comment', 'text', 'fragment', 'pi']

    def nv_case(self, t, x):
        """values of x of (repo or func) type t; None: plain value"""
        th = self.th
        if t == A + 'Value':
            return Unit(x)
        if t == A + 'DynamicValueFunc':
            return Unit(self.mkV(dyn=x))
        if t == 'func(*github.com/go-andiamo/aitch/context.Context) []byte':
            return Unit(self.mkV(dyn=x))
        if t == A + 'DynamicValueKey':
            b = const_bytes(x)
            if b is not None:
                return Unit(self.mkV(dyn=self.dyncargo if b == b'.' else self.dynkey(x)))
            return Unit(self.mkV(dyn=If(x == zstr('.'), self.dyncargo, self.dynkey(x))))
        if t.startswith(PA) and t[len(PA):] in self.VALNODES:
            return self.fseq(t[len(PA):], 'values', x)
        if t == PA + 'collection':
            return self.NVs(self.fseq('collection', 'nodes', x))
        r = self.th.p.implements(t, A + 'Node')
        if r:
            return Empty(self.SeqV)
        return None

    def nv_smart(self, v):
        if v.eq(nilV):
            return Empty(self.SeqV)
        if is_app(v) and v.decl().name().startswith('bx:'):
            t, x = v.decl().name()[3:], v.children()[0]
            r = self.nv_case(t, x)
            if r is not None:
                return r
            if self.th.p.implements(t, A + 'Node') is False:
                return Unit(self.mkV(value=self.vb(v)))
        return None

    def nv_def(self, v):
        th = self.th
        r = Unit(self.mkV(value=self.vb(v)))
        r = If(th.impl(A + 'Node', v), Empty(self.SeqV), r)
        t = PA + 'collection'
        r = If(And(th.tag(v) == th.tid(t), ), self.nv_case(t, th.unbox(t, v)), r)
        r = If(th.impl(A + 'valuesNode', v), self.GV(v), r)
        for t in (A + 'DynamicValueKey', 'func(*github.com/go-andiamo/aitch/context.Context) []byte', A + 'DynamicValueFunc', A + 'Value'):
            r = If(th.tag(v) == th.tid(t), self.nv_case(t, th.unbox(t, v)), r)
        return If(v == nilV, Empty(self.SeqV), r)

    # ------------------------------------------------------------------ nodes by dynamic type
    def isAttr(self, n):
        t = self.ty(n)
        return t == self.ATTR

    @property
    def ATTR(self):
        return IntVal(1)

    def ty(self, n):
        if is_app(n) and n.decl().name().startswith('bx:'):
            r = self.ty_of(n.decl().name()[3:])
            if r is not None:
                return r
        if is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = n.children()
            return If(c, self.ty(a), self.ty(b))
        return self.TY(n)

    def nm(self, n):
        if is_app(n) and n.decl().name().startswith('bx:'):
            r = self.nm_of(n.decl().name()[3:], n.children()[0])
            if r is not None:
                return r
        if is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = n.children()
            return If(c, self.nm(a), self.nm(b))
        return self.NM(n)

    def gv(self, n):
        if is_app(n) and n.decl().name().startswith('bx:'):
            t = n.decl().name()[3:]
            if t.startswith(PA) and t[len(PA):] in self.VALNODES:
                return self.fseq(t[len(PA):], 'values', n.children()[0])
        if is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = n.children()
            return If(c, self.gv(a), self.gv(b))
        return self.GV(n)

    TYPES = {'element': 0, 'voidElement': 0, 'attribute': 1, 'booleanAttribute': 1, 'delimitedAttribute': 1, 'text': 2, 'comment': 3,
             'pi': 4, 'fragment': 6, 'collection': 7, 'conditional': 8, 'contentCollector': 9, 'imperative': 10, 'iterator': 11,
             'yieldIterator': 11}
    NAMED = ('element', 'voidElement', 'attribute', 'booleanAttribute', 'delimitedAttribute')

    def ty_of(self, t):
        if t.startswith(PA) and t[len(PA):] in self.TYPES:
            return IntVal(self.TYPES[t[len(PA):]])
        if t == '*github.com/go-andiamo/aitch/html.document':
            return IntVal(5)
        return None

    def nm_of(self, t, x):
        if t.startswith(PA):
            s = t[len(PA):]
            if s in self.NAMED:
                return self.f(s, 'name', x)
            if s == 'pi':
                return cat(zstr('!'), self.f('pi', 'name', x))
            c = {'text': '#text', 'comment': '#comment', 'fragment': '#fragment', 'collection': '#collection', 'conditional': '#conditional',
                 'contentCollector': '#collector', 'imperative': '!imperative', 'iterator': '!iterator', 'yieldIterator': '!yield_iterator'}.get(s)
            if c:
                return zstr(c)
        if t == '*github.com/go-andiamo/aitch/html.document':
            return zstr('#document')
        return None

    def r_NM(self, app, gen, sat):
        k = self.dyntype(sat, app.children()[0])
        if k:
            r = self.nm_of(*k)
            if r is not None:
                return [app == r]
        return []

    def r_TY(self, app, gen, sat):
        k = self.dyntype(sat, app.children()[0])
        if k:
            r = self.ty_of(k[0])
            if r is not None:
                return [app == r]
        # a node of a type of the repository has the type number of its kind
        out = []
        if gen <= 1:
            v = app.children()[0]
            for t in [PA + s for s in self.TYPES] + ['*github.com/go-andiamo/aitch/html.document']:
                out.append(Implies(self.th.tagf(v) == self.th.tid(t), app == self.ty_of(t)))
        return out

    def r_GV(self, app, gen, sat):
        k = self.dyntype(sat, app.children()[0])
        if k and k[0].startswith(PA) and k[0][len(PA):] in self.VALNODES:
            return [app == self.fseq(k[0][len(PA):], 'values', k[1])]
        return []

    def r_Rw(self, app, gen, sat):
        n, e, w = app.children()
        out = [Implies(W.errof(w) != nilV, app == w)]
        k = self.dyntype(sat, n)
        if k is not None and self.node_spec(k[0]) is not None and gen <= 2:
            out.append(app == self.node_spec(k[0])(k[1], e, w))
        return out

    def r_Re(self, app, gen, sat):
        n, e, w = app.children()
        k = self.dyntype(sat, n)
        if k is not None and self.node_spec(k[0]) is not None:
            return [app == W.errof(self.Rw(n, e, w))]
        return []

    def r_condB(self, app, gen, sat):
        f, e = app.children()
        th = self.th
        if is_app(f) and f.num_args() == 1 and f.decl().name() in ('hasKey', 'notKey'):
            k = f.children()[0]
            d = self.data(e)
            v = th.mget(self.mapany, d, k)
            h = And(th.mhas(self.mapany, d, k), Not(And(th.tag(v) == th.tid('bool'), Not(th.unbox('bool', v)))))
            return [app == (h if f.decl().eq(self.hasKey) else Not(h))]
        return []

    def it_step(self, ps, st, x):
        nodes, e = ps
        return [self.RFs(nodes, self.item_env(e, x), st[0])]

    def item_env(self, e, x):
        th = self.th
        t = self.mapany
        if is_app(x) and x.decl().name().startswith('bx:'):
            d = x.children()[0] if x.decl().name()[3:] == t else self.data(e)
        else:
            d = If(th.tag(x) == th.tid(t), th.unbox(t, x), self.data(e))
        return self.mkenv(d, x, self.writer(e), self.cx(e))

    def r_it(self, app, gen, sat):
        f, e, w = app.children()
        isS = app.decl().eq(self.itS)
        if is_app(f) and f.num_args() == 1 and f.decl().eq(self.iterKey):
            if not isS:
                return [app == w]
            k = f.children()[0]
            d = self.data(e)
            v = self.th.mget(self.mapany, d, k)
            return [app == If(self.th.mhas(self.mapany, d, k), self.itemsOf(v), Empty(self.SeqN))]
        return [] if isS else [Implies(W.errof(w) != nilV, app == w)]

    def itemsOf(self, v):
        """items of a value: of []any itself, of any other slice its elements, of anything else none"""
        th = self.th
        return If(th.tag(v) == th.tid('[]any'), th.seqof('interface{}', th.unbox('[]any', v)),
                  If(self.isSlice(v), self.refl(v), Empty(self.SeqN)))

    # ------------------------------------------------------------------ what each kind of node writes
    def node_spec(self, t):
        if t == '*github.com/go-andiamo/aitch/html.document':
            return self.s_document if HD in self.th.p.types else None
        if not t.startswith(PA):
            return None
        return getattr(self, 's_' + t[len(PA):], None)

    def s_text(self, r, e, w):
        return self.VF(self.fseq('text', 'values', r), e, w)

    def s_fragment(self, r, e, w):
        return self.VF(self.fseq('fragment', 'values', r), e, w)

    def s_comment(self, r, e, w):
        return self.emit(self.VF(self.fseq('comment', 'values', r), e, self.emit(w, '<!--')), '-->')

    def s_pi(self, r, e, w):
        w1 = self.emit(w, cat(zstr('<!'), self.f('pi', 'name', r), zstr(' ')))
        return self.emit(self.VF(self.fseq('pi', 'values', r), e, w1), '>\n')

    def s_attribute(self, r, e, w):
        w1 = self.emit(w, cat(zstr(' '), self.f('attribute', 'name', r), zstr('="')))
        return self.emit(self.VF(self.fseq('attribute', 'values', r), e, w1), '"')

    def s_booleanAttribute(self, r, e, w):
        return self.emit(w, cat(zstr(' '), self.f('booleanAttribute', 'name', r)))

    def delim(self, name, delim, values, e, w):
        w1 = self.emit(w, cat(zstr(' '), name, zstr('="')))
        return self.emit(self.D.app(values, [delim, e], [w1, FALSE])[0], '"')

    def s_delimitedAttribute(self, r, e, w):
        return self.delim(self.f('delimitedAttribute', 'name', r), self.f('delimitedAttribute', 'delimiter', r),
                          self.fseq('delimitedAttribute', 'values', r), e, w)

    def s_collection(self, r, e, w):
        return self.RFn(self.fseq('collection', 'nodes', r), e, w)

    def s_contentCollector(self, r, e, w):
        f = self.f('contentCollector', 'collector', r)
        return self.RFx(self.colN(f, e, w), e, self.colW(f, e, w))

    def s_conditional(self, r, e, w):
        return If(self.condB(self.f('conditional', 'fn', r), e), self.RFs(self.fseq('conditional', 'nodes', r), e, w), w)

    def s_iterator(self, r, e, w):
        f = self.f('iterator', 'fn', r)
        return If(W.errof(w) != nilV, w, self.IT(self.itS(f, e, w), self.fseq('iterator', 'nodes', r), e, self.itW(f, e, w)))

    def s_yieldIterator(self, r, e, w):
        return self.YW(self.f('yieldIterator', 'fn', r), self.fseq('yieldIterator', 'nodes', r), e, w)

    def s_imperative(self, r, e, w):
        f = self.f('imperative', 'fn', r)
        return If(f == nilFn, w, self.adopt(self.impW(f, e, w), self.impE(f, e, w)))

    def s_document(self, r, e, w):
        pro = self.f(HD, 'prologue', r)
        return self.RFs(self.fseq(HD, 'contents', r), e, If(pro != nilV, self.R(pro, e, w), w))

    def isVN(self, n):
        """the node holds values"""
        if is_app(n) and n.decl().name().startswith('bx:'):
            r = self.th.p.implements(n.decl().name()[3:], A + 'valuesNode')
            if r is not None:
                return BoolVal(bool(r))
        return And(n != nilV, self.th.impl(A + 'valuesNode', n))

    def isDL(self, n):
        return self.th.tag(n) == self.th.tid(self.DL)

    def dl(self, n, name):
        x = self.th.unbox(self.DL, n)
        return self.fseq('delimitedAttribute', name, x) if name == 'values' else self.f('delimitedAttribute', name, x)

    def last(self, s):
        return s[Length(s) - 1]

    def ra1(self, E, e, w, x):
        """attribute x of the element itself, given the conditional attributes E that apply"""
        nm = self.nm(x)
        fe = self.filt(E, nm)
        merged = self.delim(self.dl(x, 'name'), self.dl(x, 'delimiter'), cat(self.dl(x, 'values'), self.flat(fe)), e, w)
        return If(self.has(E, nm), If(self.isDL(x), merged, self.R(self.last(fe), e, w)), self.R(x, e, w))

    def ra2(self, E, m, e, w, nm):
        """attributes named nm that are only declared conditionally"""
        fe = self.filt(E, nm)
        first = fe[0]
        merged = self.delim(self.dl(first, 'name'), self.dl(first, 'delimiter'),
                            cat(self.dl(first, 'values'), self.flat(suffix(fe, IntVal(1)))), e, w)
        return If(self.th.mhas('map[string]int', m, nm), w, If(self.isDL(first), merged, self.R(self.last(fe), e, w)))

    def RAtt(self, attrs, m, conds, e, w):
        """the attributes of an element"""
        E = self.Eff(conds, e)
        with_ = self.RA2(self.DN(E, Empty(self.SeqS)), E, m, e, self.RA1(attrs, E, e, w))
        return If(Length(E) > 0, with_, self.RFs(attrs, e, w))

    def el_open(self, t, r, e, w):
        w1 = self.emit(w, cat(zstr('<'), self.f(t, 'name', r)))
        w2 = self.RAtt(self.fseq(t, 'attributes', r), self.f(t, 'attIndices', r), self.fseq(t, 'conditionals', r), e, w1)
        return self.emit(w2, '>')

    def s_voidElement(self, r, e, w):
        return self.el_open('voidElement', r, e, w)

    def s_element(self, r, e, w):
        w1 = self.RFs(self.fseq('element', 'contents', r), e, self.el_open('element', r, e, w))
        return self.emit(w1, cat(zstr('</'), self.f('element', 'name', r), zstr('>')))

    # ------------------------------------------------------------------ building
    def mergeAtt(self, x, y):
        """a later declaration y of the attribute x"""
        th = self.th
        both = And(self.isDL(x), self.isDL(y))
        t = A + 'delimitedAttribute'
        fs = {'name': self.dl(x, 'name'), 'delimiter': self.dl(x, 'delimiter'),
              'values': self.mkVals(cat(self.dl(x, 'values'), self.dl(y, 'values')))}
        m = th.box(self.DL, th.mk(t, True, [fs[f['name']] for f in th.p.fields(t)]))
        return If(both, m, y)

    def mkCA(self, n, conds):
        th = self.th
        return th.mk(A + 'conditionalAttribute', False, [n, th.sl(A + 'ConditionalFunc', conds)])

    def ac_a(self, ps, n):
        th = self.th
        col = PA + 'collection'
        r = If(th.tag(n) == th.tid(col), self.AC_a(self.fseq('collection', 'nodes', th.unbox(col, n)), ps[0]), Empty(self.SeqN))
        r = If(self.isAttr(n), self.ite_seq(slen(ps[0]) > 0, Empty(self.SeqN), Unit(n)), r)
        return If(n == nilV, Empty(self.SeqN), r)

    def ac_ca(self, ps, n):
        th = self.th
        E = Empty(self.SeqCA)
        col, con = PA + 'collection', PA + 'conditional'
        c = th.unbox(con, n)
        cs = cat(ps[0], Unit(self.f('conditional', 'fn', c)))
        r = If(th.tag(n) == th.tid(con), cat(self.CAmap(self.fseq('conditional', 'attributes', c), cs),
                                            self.AC_ca(self.fseq('conditional', 'nodes', c), cs)), E)
        r = If(th.tag(n) == th.tid(col), self.AC_ca(self.fseq('collection', 'nodes', th.unbox(col, n)), ps[0]), r)
        r = If(self.isAttr(n), self.ite_seq(slen(ps[0]) > 0, Unit(self.mkCA(n, ps[0])), E), r)
        return If(n == nilV, E, r)

    def c2n(self, v):
        """content that is a node is used as it is, anything else becomes text"""
        th = self.th
        if is_app(v) and v.decl().name().startswith('bx:'):
            r = th.p.implements(v.decl().name()[3:], A + 'Node')
            if r:
                return v
            if r is False:
                return self.text_of(v)
        return If(And(v != nilV, th.impl(A + 'Node', v)), v, self.text_of(v))

    def text_of(self, v):
        th = self.th
        return th.box(PA + 'text', th.mk(A + 'text', True, [self.mkVals(self.nv(v))]))


_spec = [None]


def mkenv(*a):
    return _spec[0].mkenv(*a)
