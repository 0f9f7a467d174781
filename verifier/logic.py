"""Terms, spec functions and their unfolding rules.

Everything the prover knows about a spec function comes from the rules registered
here (definitions and lemmas); lemmas are themselves proved by induction (lemmas.py)."""
import random
import time
import fastz3
import z3
from z3 import (And, Or, Not, Implies, If, IntVal, BoolVal, StringVal, Length, Extract, Concat, Unit, Empty,
                Function, Const, DeclareSort, SeqSort, StringSort, IntSort, BoolSort, is_app)

Str, Int, Bool = StringSort(), IntSort(), BoolSort()
Val = DeclareSort('Val')          # interface values
Fn = DeclareSort('Fn')            # function values
Ref = DeclareSort('Ref')          # pointers to (immutable) objects
F64 = DeclareSort('F64')
F32 = DeclareSort('F32')
Env = DeclareSort('Env')          # what a context offers to render with
GS = DeclareSort('GS')            # state of the outside world (the writer)
_W = z3.Datatype('W')
_W.declare('mkW', ('gof', GS), ('errof', Val))
W = _W.create()
nilV = Const('nilV', Val)
nilFn = Const('nilFn', Fn)
nilRef = Const('nilRef', Ref)

RULES = {}        # decl name -> fn(app, gen, sat) -> list of facts
TRUE, FALSE = BoolVal(True), BoolVal(False)


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return TRUE if not xs else xs[0] if len(xs) == 1 else And(xs)


def same(a, b):
    return a.eq(b)


def fresh(name, sort, _n=[0]):
    _n[0] += 1
    return Const('%s!%d' % (name, _n[0]), sort)


def zstr(b):
    """bytes -> string constant with one character per byte"""
    if isinstance(b, str):
        b = b.encode()
    return StringVal(''.join(chr(c) if 32 <= c < 127 and c != 92 else '\\u{%x}' % c for c in b))


def const_bytes(e):
    """string constant -> bytes (None if not a constant)"""
    if not z3.is_string_value(e):
        return None
    s = e.as_string()
    out = bytearray()
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(int(s[i + 3:j], 16))
            i = j + 1
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ------------------------------------------------------------------ sequences
def is_str(s):
    return s.sort().eq(Str)


def parts(s):
    """flatten a sequence term: list of ('u', element) / ('c', bytes) / ('s', opaque)"""
    out = []

    def go(t):
        k = t.decl().kind() if is_app(t) else None
        if k == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                go(c)
        elif k == z3.Z3_OP_SEQ_UNIT:
            out.append(('u', t.children()[0]))
        elif k == z3.Z3_OP_SEQ_EMPTY:
            pass
        elif z3.is_string_value(t):
            b = const_bytes(t)
            if b:
                if out and out[-1][0] == 'c':
                    out[-1] = ('c', out[-1][1] + b)
                else:
                    out.append(('c', b))
        else:
            out.append(('s', t))
    go(s)
    return out


def build(ps, sort):
    ts = [Unit(p) if k == 'u' else zstr(p) if k == 'c' else p for k, p in ps]
    if not ts:
        return empty(sort)
    return ts[0] if len(ts) == 1 else Concat(*ts)


def empty(sort):
    return StringVal('') if sort.eq(Str) else Empty(sort)


def cat(*ss):
    ps = []
    for s in ss:
        for k, p in parts(s):
            if k == 'c' and ps and ps[-1][0] == 'c':
                ps[-1] = ('c', ps[-1][1] + p)
            else:
                ps.append((k, p))
    return build(ps, ss[0].sort())


def unit(x):
    return Unit(x)


def slen(s):
    n, rest = 0, []
    for k, p in parts(s):
        if k == 'u':
            n += 1
        elif k == 'c':
            n += len(p)
        else:
            d = p.decl().kind() if is_app(p) else None
            rest.append(Length(p))
    if not rest:
        return IntVal(n)
    r = rest[0]
    for x in rest[1:]:
        r = r + x
    return r + n if n else r


_nth_cache = {}


def has_nth(e):
    i = e.get_id()
    r = _nth_cache.get(i)
    if r is None:
        r = False
        if is_app(e):
            r = e.decl().kind() == z3.Z3_OP_SEQ_NTH or any(has_nth(c) for c in e.children())
        _nth_cache[i] = r
        _keep.append(e)
    return r


_keep = []


def simp(e):
    """simplification that leaves sequence elements alone"""
    if has_nth(e):
        if is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_NOT:
                c = simp(e.children()[0])
                return TRUE if is_false(c) else FALSE if is_true(c) else c.children()[0] if z3.is_not(c) else Not(c)
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                cs = [simp(c) for c in e.children()]
                if k == z3.Z3_OP_AND:
                    if any(is_false(c) for c in cs):
                        return FALSE
                    return conj(cs)
                if any(is_true(c) for c in cs):
                    return TRUE
                cs = [c for c in cs if not is_false(c)]
                return FALSE if not cs else cs[0] if len(cs) == 1 else Or(cs)
            if k == z3.Z3_OP_ITE:
                a, b, c = e.children()
                a = simp(a)
                return simp(b) if is_true(a) else simp(c) if is_false(a) else If(a, simp(b), simp(c))
            if k == z3.Z3_OP_EQ:
                a, b = e.children()
                if a.eq(b):
                    return TRUE
            if k in _ARITH or k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and e.arg(0).sort().eq(Int):
                return arith(e)
        return e
    return z3.simplify(e)


_ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS)
_arith, _atoms = {}, {}


def arith(e):
    """simplified sum or comparison of integers in which everything else stays as it is"""
    i = e.get_id()
    r = _arith.get(i)
    if r is not None:
        return r
    back = {}

    def go(t, top=False):
        k = t.decl().kind()
        if top or k in _ARITH:
            return t.decl()(*[go(c) for c in t.children()])
        if z3.is_int_value(t):
            return t
        if k == z3.Z3_OP_SEQ_LENGTH:
            u = slen(t.children()[0])
            if not u.eq(t):
                return go(u)
        j = t.get_id()
        if j not in _atoms:
            _atoms[j] = (Const('atom!%d' % len(_atoms), Int), t)
        c = _atoms[j][0]
        back[c.get_id()] = (c, t)
        return c
    r = z3.simplify(go(e, True))
    if back:
        r = z3.substitute(r, *back.values())
    _arith[i] = r
    _keep.append((e, r))
    return r


def ival(e):
    """integer constant -> int, else None"""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if not e.sort().eq(Int) or (is_app(e) and e.num_args() == 0):
        return None
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else None


LENOF = {}           # sequences made with a given length


def prefix(s, k):
    c = ival(k)
    if c is not None:
        if c <= 0:
            return empty(s.sort())
        ps = parts(s)
        out = []
        n = 0
        for kk, p in ps:
            if n >= c:
                break
            if kk == 'u':
                out.append((kk, p))
                n += 1
            elif kk == 'c':
                out.append((kk, p[:c - n]))
                n += len(p[:c - n])
            else:
                break
        if n == c:
            return build(out, s.sort())
    k = simp(k)
    if k.eq(simp(slen(s))) or k.eq(LENOF.get(s.get_id(), (s, s))[1]):
        return s
    x = at_part(s, k)
    if x is not None:
        return build(x[0], s.sort())
    return Extract(s, IntVal(0), k)


def at_part(s, k):
    """s cut after k elements, where that is a number of elements after one of its parts: the parts before and after"""
    if not (is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT):
        return None
    ps = parts(s)
    if len(ps) > 12:
        return None
    acc = IntVal(0)
    for i, (kk, p) in enumerate(ps):
        if kk == 's':
            acc = simp(acc + slen(p))
        d = ival(simp(k - acc))
        if d is not None and d >= 0:
            j, n = (i + 1 if kk == 's' else i), 0
            while j < len(ps) and n < d and ps[j][0] != 's':
                m = 1 if ps[j][0] == 'u' else len(ps[j][1])
                if n + m > d:
                    c = ps[j][1]
                    return ps[:j] + [('c', c[:d - n])], [('c', c[d - n:])] + ps[j + 1:]
                n += m
                j += 1
            if n == d:
                return ps[:j], ps[j:]
        if kk != 's':
            acc = simp(acc + (1 if kk == 'u' else len(p)))
    return None


def suffix(s, k):
    c = ival(k)
    if c is not None and c <= 0:
        return s
    if c is not None:
        ps = parts(s)
        n = 0
        out = []
        ok = True
        for idx, (kk, p) in enumerate(ps):
            if n >= c:
                out.append((kk, p))
            elif kk == 'u':
                n += 1
            elif kk == 'c':
                if n + len(p) > c:
                    out.append((kk, p[c - n:]))
                n += len(p)
            else:
                ok = False
                break
        if ok and n >= c:
            return build(out, s.sort())
    k = simp(k)
    if k.eq(simp(slen(s))):
        return empty(s.sort())
    x = at_part(s, k)
    if x is not None:
        return build(x[1], s.sort())
    return Extract(s, k, simp(Length(s) - k))


def sub(s, lo, ln):
    if ival(lo) == 0:
        return prefix(s, ln)
    t = suffix(s, lo)
    if as_suffix(t) is None or not as_suffix(t)[0].eq(s):
        return prefix(t, ln)
    if simp(lo + ln).eq(simp(slen(s))):
        return suffix(s, lo)
    return Extract(s, simp(lo), simp(ln))


def nth(s, i):
    """element of a non-string sequence"""
    c = ival(i)
    if c is not None:
        n = 0
        for kk, p in parts(s):
            if kk != 'u':
                break
            if n == c:
                return p
            n += 1
    return s[simp(i)]


def char(s, i):
    """one-character string at i"""
    c = ival(i)
    if c is not None:
        n = 0
        for kk, p in parts(s):
            if kk != 'c':
                break
            if n <= c < n + len(p):
                return zstr(p[c - n:c - n + 1])
            n += len(p)
    return z3.SubString(s, simp(i) if not isinstance(i, int) else i, 1)


def elem1(s, i):
    """one-element sequence at i"""
    return char(s, i) if is_str(s) else Unit(nth(s, i))


def setat(s, i, x):
    """sequence with element i replaced"""
    return cat(prefix(s, i), Unit(x), suffix(s, i + 1))


def as_prefix(s):
    """prefix(t, e) -> (t, e)"""
    if is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and ival(s.children()[1]) == 0:
        return s.children()[0], s.children()[2]
    return None


def as_suffix(s):
    if is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        t, o, l = s.children()
        if simp(Length(t) - o).eq(simp(l)):
            return t, o
    return None


# ------------------------------------------------------------------ folds
FOLDS = {}


_rule_cache = {}
_key_cache = {}


class Fold:
    """state-threading left fold over a sequence:
       F([],ps,st)=st   F(a++b,ps,st)=F(b,ps,F(a,ps,st))   F([x],ps,st)=step(ps,st,x)
       For strings the elements are one-character strings."""

    def __init__(self, name, seqsort, psorts, ssorts, step, sticky=False, lemmas=None):
        self.name, self.seqsort, self.psorts, self.ssorts, self.step = name, seqsort, psorts, ssorts, step
        self.np, self.ns = len(psorts), len(ssorts)
        self.sticky = sticky
        self.lemmas = lemmas or []
        self.decls = [Function('%s.%d' % (name, i) if self.ns > 1 else name, seqsort, *psorts, *ssorts, ssorts[i])
                      for i in range(self.ns)]
        FOLDS[name] = self
        for i, d in enumerate(self.decls):
            RULES[d.name()] = self._rule

    def app(self, s, ps, st):
        ps, st = list(ps), list(st)
        for k, p in parts(s):
            if k == 'u':
                st = list(self.step(ps, st, p))
            elif k == 'c':
                for c in p:
                    st = list(self.step(ps, st, zstr(bytes([c]))))
            elif z3.is_app_of(p, z3.Z3_OP_ITE):
                c, a, b = p.children()
                st = [x if x.eq(y) else If(c, x, y) for x, y in zip(self.app(a, ps, st), self.app(b, ps, st))]
            else:
                st = [d(p, *ps, *st) for d in self.decls]
        return tuple(st)

    def __call__(self, s, *args):
        r = self.app(s, args[:self.np], args[self.np:])
        return r[0] if self.ns == 1 else r

    def eqs(self, a, b, g=None):
        f = [x == y for x, y in zip(a, b) if not x.eq(y)]
        if not f:
            return []
        return [Implies(g, conj(f))] if g is not None else f

    def _rule(self, app, gen, sat):
        key = _key_cache.get(app.get_id())
        if key is None:
            key = _key_cache[app.get_id()] = ('fold', self.name, tuple(c.get_id() for c in app.children()))
            _keep.append(app)
        if key in sat.done:
            return []
        sat.done.add(key)
        orig = gen == 0 or sat.is_orig(app)
        near = orig or gen <= 1
        if not near:
            sf = as_suffix(app.arg(0))
            if sf and not is_str(sf[0]):
                near = nth(*sf).get_id() in sat.elts
        ck = (key, orig, near)
        core = _rule_cache.get(ck)
        if core is None:
            ch = app.children()
            s, ps, st = ch[0], ch[1:1 + self.np], ch[1 + self.np:]
            me = tuple(d(*ch) for d in self.decls)
            core = self._core(s, ps, st, me, orig, near)
            _rule_cache[ck] = core
            _keep.append((app, ch))
        return core

    def split(self, app):
        """the whole in terms of a prefix and the rest"""
        ch = app.children()
        s, ps, st = ch[0], ch[1:1 + self.np], ch[1 + self.np:]
        t, e = as_prefix(s)
        me = tuple(d(*ch) for d in self.decls)
        return self.eqs(self.app(t, ps, st), self.app(suffix(t, e), ps, me), And(e >= 0, e <= Length(t)))

    def _core(self, s, ps, st, me, orig, near):
        out = self.eqs(me, st, Length(s) == 0)
        if self.sticky:
            out += self.eqs(me, st, W.errof(st[0]) != nilV)
        for l in self.lemmas:
            out += l(s, ps, st, me)
        ps_ = as_prefix(s)
        if ps_:
            t, e = ps_
            out += self.eqs(me, self.app(t, ps, st), e == Length(t))
            out += self.eqs(me, st, e <= 0)
            if orig:
                k = simp(e - 1)
                prev = self.app(prefix(t, k), ps, st)
                out += self.eqs(me, self.step(ps, list(prev), char(t, k) if is_str(t) else nth(t, k)),
                                And(k >= 0, k < Length(t)))
        sf = as_suffix(s)
        if sf and near:
            t, e = sf
            nxt = self.step(ps, list(st), char(t, e) if is_str(t) else nth(t, e))
            out += self.eqs(me, self.app(suffix(t, e + 1), ps, nxt), And(e >= 0, e < Length(t)))
            out += self.eqs(me, self.app(t, ps, st), e == 0)
        if not ps_ and not sf and is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            # a middle piece t[lo:lo+n]
            t, lo, n = s.children()
            out += self.eqs(me, st, n <= 0)
            if orig and ival(lo) is not None:
                k = simp(lo + n - 1)
                prev = self.app(sub(t, lo, simp(n - 1)), ps, st)
                out += self.eqs(me, self.step(ps, list(prev), char(t, k) if is_str(t) else nth(t, k)), And(lo >= 0, n >= 1, k < Length(t)))
        return out


class RFold(Fold):
    """right fold: F([],st)=st  F(a++b,st)=F(a,F(b,st))  F([x],st)=step(st,x)"""

    def app(self, s, ps, st):
        ps, st = list(ps), list(st)
        for k, p in reversed(parts(s)):
            if k == 'u':
                st = list(self.step(ps, st, p))
            elif k == 'c':
                for c in reversed(p):
                    st = list(self.step(ps, st, zstr(bytes([c]))))
            else:
                st = [d(p, *ps, *st) for d in self.decls]
        return tuple(st)

    def _rule(self, app, gen, sat):
        ch = app.children()
        s, ps, st = ch[0], ch[1:1 + self.np], ch[1 + self.np:]
        key = ('fold', self.name, tuple(c.get_id() for c in ch))
        if key in sat.done:
            return []
        sat.done.add(key)
        me = tuple(d(*ch) for d in self.decls)
        out = self.eqs(me, st, Length(s) == 0)
        if self.sticky:
            out += self.eqs(me, st, W.errof(st[0]) != nilV)
        sf = as_suffix(s)
        if sf:
            t, e = sf
            out += self.eqs(me, self.app(t, ps, st), e == 0)
            if gen == 0 or sat.is_orig(app):
                k = simp(e)
                prev = self.app(suffix(t, k + 1), ps, st)
                out += self.eqs(me, self.step(ps, list(prev), char(t, k) if is_str(t) else nth(t, k)),
                                And(k >= 0, k < Length(t)))
        pf = as_prefix(s)
        if pf and (gen == 0 or sat.is_orig(app)):
            t, e = pf
            k = simp(e - 1)
            out += self.eqs(me, self.app(t, ps, st), e == Length(t))
            nst = self.step(ps, list(st), char(t, k) if is_str(t) else nth(t, k))
            out += self.eqs(me, self.app(prefix(t, k), ps, nst), And(k >= 0, k < Length(t)))
        return out


class Hom:
    """homomorphism from sequences: H(a++b)=op(H(a),H(b)), H([])=zero, H([x])=g(ps,x)"""

    def __init__(self, name, seqsort, psorts, rsort, g, op=None, zero=None, extra=None, quant=None):
        self.name, self.seqsort, self.psorts, self.rsort, self.g = name, seqsort, psorts, rsort, g
        self.np = len(psorts)
        self.decl = Function(name, seqsort, *psorts, rsort)
        if op is None:
            op = cat
            zero = empty(rsort)
        self.op, self.zero = op, zero
        self.extra = extra
        self.quant = quant        # 'all' or 'any'
        FOLDS[name] = self
        RULES[name] = self._rule

    def __call__(self, s, *ps):
        out = []
        for k, p in parts(s):
            if k == 'u':
                out.append(self.g(ps, p))
            elif k == 'c':
                out += [self.g(ps, zstr(bytes([c]))) for c in p]
            elif z3.is_app_of(p, z3.Z3_OP_ITE):
                c, a, b = p.children()
                x, y = self(a, *ps), self(b, *ps)
                out.append(x if x.eq(y) else If(c, x, y))
            else:
                out.append(self.decl(p, *ps))
        r = self.zero
        for i, x in enumerate(out):
            r = x if i == 0 else self.op(r, x)
        return r

    def _rule(self, app, gen, sat):
        orig = gen == 0 or sat.is_orig(app)
        ck = ('hom', app.get_id(), orig)
        core = _rule_cache.get(ck)
        if core is None or self.extra:
            ch = app.children()
            s, ps = ch[0], ch[1:]
        if core is None:
            core = _rule_cache[ck] = self._core(app, s, ps, orig)
            _keep.append(app)
        out = list(core)
        if self.extra:
            out += self.extra(s, ps, app, gen, sat)
        return out

    def split(self, app):
        ch = app.children()
        s, ps = ch[0], ch[1:]
        t, e = as_prefix(s)
        return [Implies(And(e >= 0, e <= Length(t)), self(t, *ps) == self.op(app, self(suffix(t, e), *ps)))]

    def _core(self, app, s, ps, orig):
        out = [Implies(Length(s) == 0, app == self.zero)]
        if self.quant and orig and is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            whole = self(s.children()[0], *ps)
            out.append(Implies(whole, app) if self.quant == 'all' else Implies(app, whole))
        pf = as_prefix(s)
        if pf:
            t, e = pf
            out.append(Implies(e <= 0, app == self.zero))
            out.append(Implies(e == Length(t), app == self(t, *ps)))
            if orig:
                k = simp(e - 1)
                out.append(Implies(And(k >= 0, k < Length(t)),
                                   app == self.op(self(prefix(t, k), *ps), self.g(ps, char(t, k) if is_str(t) else nth(t, k)))))
        sf = as_suffix(s)
        if sf:
            t, e = sf
            out.append(Implies(e == 0, app == self(t, *ps)))
            if orig:
                k = simp(e)
                out.append(Implies(And(k >= 0, k < Length(t)),
                                   app == self.op(self.g(ps, char(t, k) if is_str(t) else nth(t, k)), self(suffix(t, k + 1), *ps))))
        if not pf and not sf and is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and orig:
            # a middle piece t[lo:lo+n]
            t, lo, n = s.children()
            e = simp(lo + n)
            out.append(Implies(And(lo >= 0, n >= 0, e <= Length(t)),
                               self(prefix(t, e), *ps) == self.op(self(prefix(t, lo), *ps), app)))
            out.append(Implies(n <= 0, app == self.zero))
            if ival(lo) is not None:
                k = simp(e - 1)
                out.append(Implies(And(lo >= 0, n >= 1, k < Length(t)),
                                   app == self.op(self(sub(t, lo, simp(n - 1)), *ps), self.g(ps, char(t, k) if is_str(t) else nth(t, k)))))
        return out


REVEAL = set()     # opaque definitions the current proof may unfold


class Def:
    """defined spec function: f(args) == body(args) (None: nothing known)"""

    def __init__(self, name, sorts, rsort, body, fuel=3, smart=None, opaque=False, always=None):
        self.name, self.always = name, always
        self.decl = Function(name, *sorts, rsort)
        self.body, self.fuel, self.smart, self.opaque = body, fuel, smart, opaque
        RULES[name] = self._rule

    def __call__(self, *a):
        if self.smart:
            r = self.smart(*a)
            if r is not None:
                return r
        return self.decl(*a)

    def _rule(self, app, gen, sat):
        if gen > self.fuel or (self.opaque and self.name not in REVEAL and 'all' not in REVEAL):
            return self.always(*app.children()) if self.always and gen <= self.fuel else []
        b = self.body(sat, *app.children())
        if b is None:
            return []
        if isinstance(b, list):
            return b
        return [app == b]


# ------------------------------------------------------------------ saturation and proving
_sub_cache = {}


def interesting(e):
    """applications inside e that have rules (cached)"""
    i = e.get_id()
    r = _sub_cache.get(i)
    if r is not None:
        return r
    _keep.append(e)
    if z3.is_quantifier(e):
        r = []
    elif not is_app(e):
        r = []
    else:
        r = []
        seen = set()
        for c in e.children():
            for t in interesting(c):
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    r.append(t)
        if e.decl().name() in RULES and e.num_args() >= 0:
            r.append(e)
    _sub_cache[i] = r
    return r


_ext_cache = {}


def extracts(e):
    """pieces t[lo:lo+n] inside e"""
    i = e.get_id()
    r = _ext_cache.get(i)
    if r is None:
        r = {}
        if is_app(e):
            for c in e.children():
                r.update(extracts(c))
            if e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                r[i] = e
        _ext_cache[i] = r
        _keep.append(e)
    return r


_elt_cache = {}


def elements(e):
    """element terms t[i] inside e"""
    i = e.get_id()
    r = _elt_cache.get(i)
    if r is None:
        r = {}
        if is_app(e):
            for c in e.children():
                r.update(elements(c))
            if e.decl().kind() == z3.Z3_OP_SEQ_NTH:
                r[i] = e
        _elt_cache[i] = r
        _keep.append(e)
    return r


def element_facts(forms, apps):
    """P holds for all of t => P(t[i]);  P(t[i]) => P holds for one of t"""
    es = {}
    for f in forms:
        es.update(elements(f))
    if not es:
        return []
    out = []
    for a in apps:
        h = FOLDS.get(a.decl().name())
        if not isinstance(h, Hom) or not h.quant:
            continue
        ch = a.children()
        for e in es.values():
            t, i = e.children()
            off = i
            if not t.eq(ch[0]):
                pf, sf = as_prefix(ch[0]), as_suffix(ch[0])
                if pf and pf[0].eq(t):
                    rng = And(i >= 0, i < pf[1], i < Length(t))
                elif sf and sf[0].eq(t):
                    rng = And(i >= sf[1], sf[1] >= 0, i < Length(t))
                else:
                    continue
            else:
                rng = And(i >= 0, i < Length(t))
            p = h.g(ch[1:], e)
            out.append(Implies(And(rng, a), p) if h.quant == 'all' else Implies(And(rng, p), a))
    return out


_wp_cache = {}


def whole_parts(e, t, n):
    """(a[:i] ++ b ++ ...)[:n] where n is the length of the first few parts: they are the result"""
    k = e.get_id()
    if k in _wp_cache:
        return _wp_cache[k]
    acc, guards, out, r = IntVal(0), [], [], None
    for kk, p in parts(t):
        pf = as_prefix(p) if kk == 's' else None
        if kk == 'u':
            ln = IntVal(1)
        elif kk == 'c':
            ln = IntVal(len(p))
        elif pf:
            ln = pf[1]
            guards += [ln >= 0, ln <= Length(pf[0])]
        else:
            ln = Length(p)
        acc = z3.simplify(acc + ln)
        out.append((kk, p))
        d = z3.simplify(n - acc)
        if z3.is_int_value(d) and d.as_long() == 0:
            r = Implies(conj(guards), e == build(out, t.sort()))
            break
    _wp_cache[k] = r
    _keep.append((e, r))
    return r


def piece_facts(forms):
    """t[lo:lo+n+1] == t[lo:lo+n] ++ t[lo+n] for the pieces that occur"""
    ps = {}
    for f in forms:
        ps.update(extracts(f))
    groups = {}
    out = []
    for e in ps.values():
        t, lo, n = e.children()
        if ival(lo) == 0 and z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            r = whole_parts(e, t, n)
            if r is not None:
                out.append(r)
        groups.setdefault((t.get_id(), lo.get_id()), []).append((e, t, lo, n))
    for g in groups.values():
        if len(g) < 2 or len(g) > 8:
            continue
        for e1, t, lo, n1 in g:
            for e2, _, _, n2 in g:
                if e1.eq(e2):
                    continue
                d = z3.simplify(n2 - n1)
                if z3.is_int_value(d) and d.as_long() == 1:
                    at = simp(lo + n1)
                    out.append(Implies(And(lo >= 0, n1 >= 0, lo + n2 <= Length(t)), e2 == cat(e1, char(t, at) if is_str(e1) else Unit(t[at]))))
    return out


_inst_cache = {}
_norm_cache = {}


def norm(c):
    """canonical literal: (id, polarity)"""
    i = c.get_id()
    r = _norm_cache.get(i)
    if r is None:
        d = simp(c)
        pol = True
        while z3.is_not(d) or z3.is_distinct(d) and d.num_args() == 2:
            d, pol = d.children()[0] if z3.is_not(d) else d.children()[0] == d.children()[1], not pol
        if z3.is_eq(d):
            a, b = d.children()
            if a.get_id() > b.get_id():
                d = b == a
        r = _norm_cache[i] = (d.get_id(), pol)
        _keep.append((c, d))
    return r


_hasite = {}


def has_ite(e):
    i = e.get_id()
    r = _hasite.get(i)
    if r is None:
        r = False
        if is_app(e):
            r = (e.decl().kind() == z3.Z3_OP_ITE and not e.sort().eq(Bool)) or any(has_ite(c) for c in e.children())
        _hasite[i] = r
        _keep.append(e)
    return r


_note_cache = {}
_rof = {}
_split_cache = {}


def split_of(f, t):
    r = _split_cache.get(t.get_id())
    if r is None:
        r = _split_cache[t.get_id()] = f.split(t)
        _keep.append(t)
    return r


class Assumed:
    """literals on the path: conditions of if-then-else terms they decide are removed"""

    def __init__(self, pc):
        self.lits = {}
        for f in pc:
            self.add(f)
        self.cache = {}
        self.keep = []

    def add(self, f):
        i, pol = norm(f)
        self.lits[i] = pol
        if z3.is_not(f) and z3.is_or(f.children()[0]):
            for g in f.children()[0].children():
                i, pol = norm(g)
                self.lits[i] = not pol

    def cond(self, c):
        i, pol = norm(c)
        v = self.lits.get(i)
        if v is not None:
            return v == pol
        if z3.is_and(c):
            vs = [self.cond(x) for x in c.children()]
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        elif z3.is_or(c):
            vs = [self.cond(x) for x in c.children()]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        elif z3.is_not(c):
            v = self.cond(c.children()[0])
            return None if v is None else not v
        return None

    def rw(self, e):
        if not has_ite(e) or not is_app(e):
            return e
        i = e.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        ch = e.children()
        if e.decl().kind() == z3.Z3_OP_ITE:
            v = self.cond(ch[0])
            if v is not None:
                r = self.rw(ch[1] if v else ch[2])
        if r is None:
            nc = [self.rw(c) for c in ch]
            r = e if all(a.eq(b) for a, b in zip(nc, ch)) else e.decl()(*nc) if not z3.is_and(e) and not z3.is_or(e) else (And(*nc) if z3.is_and(e) else Or(*nc))
        self.cache[i] = r
        self.keep.append((e, r))
        return r


class Sat:
    """collects rule instances for a set of formulas"""
    ROUNDS = 8

    def __init__(self, known=None, assumed=None):
        self.assumed = assumed
        self.done = set()
        self.orig = set()
        self.seen_terms = set()
        self.quants = []
        self.prefixes = {}
        self.extra = []
        self.elts = set()
        self.known = known or {}

    def is_orig(self, app):
        return app.get_id() in self.orig

    def note(self, t):
        i = t.get_id()
        r = _note_cache.get(i)
        if r is None:
            n = t.decl().name()
            f = FOLDS.get(n) or FOLDS.get(n.rsplit('.', 1)[0])
            r = (None, False, None, None, None)
            if f is not None:
                ch = t.children()
                rest = (f.name,) + tuple(c.get_id() for c in ch[1:])
                pf = None if isinstance(f, RFold) else as_prefix(ch[0])
                r = (f, bool(getattr(f, 'quant', None)), (pf[0].get_id(),) + rest if pf else None, (ch[0].get_id(),) + rest, t)
            _note_cache[i] = r
            _keep.append(t)
        f, quant, whole, own, _ = r
        if f is None:
            return
        if quant:
            self.quants.append(t)
        if isinstance(f, RFold):
            return
        if whole is not None:
            if whole in self.seen_terms:
                self.extra += split_of(f, t)
            self.prefixes.setdefault(whole, []).append((f, t))
        if own not in self.seen_terms:
            self.seen_terms.add(own)
            for g, u in self.prefixes.get(own, ()):
                self.extra += split_of(g, u)

    def instances(self, t, g, rev):
        r = _rof.get(t.get_id())
        if r is None:
            n = t.decl().name()
            r = _rof[t.get_id()] = (RULES[n], n.startswith('impl:') or n in FOLDS or n.rsplit('.', 1)[0] in FOLDS)
            _keep.append(t)
        rule, direct = r
        if direct:
            return rule(t, g, self)
        k = None
        if t.num_args():
            c = t.arg(0)
            if c.sort().eq(Val):
                k = self.known.get(c.get_id())
                k = k.get_id() if k is not None else None
        key = (t.get_id(), min(g, 5), t.get_id() in self.orig, k, rev)
        r = _inst_cache.get(key)
        if r is None:
            r = _inst_cache[key] = rule(t, g, self)
            _keep.append((t, list(self.known.values()) if k is not None else None))
        return r

    def run(self, forms, limit=None):
        facts = []
        apps = {}
        todo = []
        limit = limit or self.ROUNDS
        self.elts = set()
        for f in forms:
            self.elts.update(elements(f))
            for t in interesting(f):
                if t.get_id() not in apps:
                    apps[t.get_id()] = 0
                    self.orig.add(t.get_id())
                    self.note(t)
                    todo.append((t, 0))
        fseen = set()
        rev = tuple(sorted(REVEAL))
        self.complete = True

        def expand(todo, rounds):
            while todo and rounds > 0:
                if len(facts) > 4000:
                    break
                new = []
                src = [(t, g, self.instances(t, g, rev)) for t, g in todo]
                if self.extra:
                    src.append((None, max(g for _, g in todo), self.extra))
                    self.extra = []
                for t, g, fs in src:
                    for fact in fs:
                        if self.assumed is not None:
                            fact = self.assumed.rw(fact)
                        if z3.is_true(fact) or fact.get_id() in fseen:
                            continue
                        fseen.add(fact.get_id())
                        facts.append(fact)
                        for u in interesting(fact):
                            if u.get_id() not in apps:
                                apps[u.get_id()] = g + 1
                                self.note(u)
                                new.append((u, g + 1))
                todo = new
                rounds -= 1
            if todo:
                self.complete = False
        expand(todo, limit)
        new = []
        for fact in element_facts(list(forms) + facts, self.quants):
            if fact.get_id() not in fseen:
                fseen.add(fact.get_id())
                facts.append(fact)
                for u in interesting(fact):
                    if u.get_id() not in apps:
                        apps[u.get_id()] = 2
                        self.note(u)
                        new.append((u, 2))
        expand(new, max(1, limit - 2))
        return facts + piece_facts(list(forms) + facts)


import os
LOGQ = os.environ.get('LOGQ')


class Stats:
    queries = 0
    time = 0.0
    cached = 0
    unknown = 0
    by_solver = {}
    by_stage = {}


_cache = {}
TIMEOUT = [8000]
SCALE = [1]                  # more than one: a further attempt, with more time
STAGES = [(2, 0.25), (4, 0.5), (8, 1.0)]     # how deep definitions are unfolded, share of the time limit
STAGES0 = [(3, 0.25)]
DUMP = [None]


def known_of(pc):
    """equalities x == box(..) on the path: dynamic types"""
    k = {}
    for f in pc:
        if z3.is_eq(f):
            a, b = f.children()
            if a.sort().eq(Val):
                for x, y in ((a, b), (b, a)):
                    if is_app(y) and y.decl().name().startswith('bx:') and not (is_app(x) and x.decl().name().startswith('bx:')):
                        k[x.get_id()] = y
    return k


_consts = {}


def consts(e):
    """ids of the invented constants inside e"""
    i = e.get_id()
    r = _consts.get(i)
    if r is None:
        if is_app(e):
            if e.num_args() == 0:
                r = frozenset([i]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in e.decl().name() else frozenset()
            else:
                r = frozenset().union(*[consts(c) for c in e.children()])
        elif z3.is_quantifier(e):
            r = consts(e.body())
        else:
            r = frozenset()
        _consts[i] = r
        _keep.append(e)
    return r


_solve_cache = {}


def solve_eqs(pc, goal=None):
    """replace invented constants x for which the path conditions pc say x == t by t, in pc and in the
    goal (equations are taken from pc only: a goal is never assumed)"""
    m = {}           # id -> (x, t)

    def ap(e):
        cs = consts(e)
        ps = [m[c] for c in cs if c in m]
        if not ps:
            return e
        k = (e.get_id(), tuple(sorted((x.get_id(), t.get_id()) for x, t in ps)))
        r = _solve_cache.get(k)
        if r is None:
            r = _solve_cache[k] = z3.substitute(e, *ps)
            _keep.append((e, r, ps))
        return r
    for f in pc:
        if not z3.is_eq(f):
            continue
        a, b = f.children()
        for x, t in ((a, b), (b, a)):
            xi = x.get_id()
            if is_app(x) and x.num_args() == 0 and xi in consts(x) and xi not in m:
                t2 = ap(t)
                if xi in consts(t2):
                    continue
                for k, (y, u) in list(m.items()):
                    if xi in consts(u):
                        m[k] = (y, z3.substitute(u, (x, t2)))
                m[xi] = (x, t2)
                break
    if not m:
        return pc, goal
    return [ap(f) for f in pc], (ap(goal) if goal is not None else None)


_links = {}


def links(e):
    """ids of the constants inside e through which facts are connected (nil and the like connect nothing)"""
    i = e.get_id()
    r = _links.get(i)
    if r is None:
        if is_app(e):
            if e.num_args() == 0:
                n = e.decl().name()
                r = frozenset([i]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not (n.startswith('nil') and '!' not in n) else frozenset()
            else:
                r = frozenset().union(*[links(c) for c in e.children()])
        elif z3.is_quantifier(e):
            r = links(e.body())
        else:
            r = frozenset()
        _links[i] = r
        _keep.append(e)
    return r


def relevant(pc, goal):
    """the path conditions connected with the goal; dropping the others can only lose proofs"""
    have = set(links(goal))
    if not have:
        return pc
    left = [(f, links(f)) for f in pc]
    keep = {id(f) for f, l in left if not l}
    left = [x for x in left if x[1]]
    grew = True
    while grew and left:
        grew = False
        nxt = []
        for f, l in left:
            if have.isdisjoint(l):
                nxt.append((f, l))
            else:
                have |= l
                keep.add(id(f))
                grew = True
        left = nxt
    return [f for f in pc if id(f) in keep]


SLICES = ((0, 0.3), (7, 0.3), (23, 0.4))       # seeds and shares of the time limit of a stage
AGAIN = tuple((s, 0.2) for s in (1, 11, 31, 57, 101, 211, 419, 863))    # further attempts, also in another order


def limit(s, ms):
    """so much work as takes about so many milliseconds on an idle machine: what is proved must not depend on the load"""
    s.set('rlimit', ms * 3000)
    s.set('timeout', ms * 6)


def check(pc, goal=None, timeout=None, stages=None):
    """'unsat' means: goal follows from pc (or pc is contradictory when goal is None)"""
    pc, goal = solve_eqs(list(pc), goal)
    if goal is not None and not z3.is_false(goal):
        pc = relevant(pc, goal)
    forms = [f for f in pc if not (z3.is_eq(f) and f.arg(0).eq(f.arg(1))) and not z3.is_true(f)]
    pc = list(forms)
    if goal is not None:
        if z3.is_true(goal):
            return 'unsat'
        forms.append(Not(goal))
    asked = list(forms)         # kept: the ids in the key must stay theirs
    key = (tuple(sorted(set(f.get_id() for f in forms))), tuple(sorted(REVEAL)))
    if key in _cache:
        Stats.cached += 1
        check.last_fresh = False
        return _cache[key][0]
    t0 = time.time()
    timeout = (timeout or TIMEOUT[0]) * SCALE[0]
    stages = stages or (STAGES if goal is not None else STAGES0)
    r, s = 'unknown', None
    ass = Assumed(pc)
    if goal is not None:
        forms[-1] = ass.rw(forms[-1])
    for rounds, part in stages:
        sat = Sat(known_of(pc), ass)
        facts = sat.run(forms, rounds)
        for seed, share in SLICES if SCALE[0] == 1 else AGAIN:
            s = z3.Solver()
            limit(s, int(timeout * part * share))
            if seed:
                s.set('random_seed', seed)
            if seed in (0, 7, 23):
                s.add(*forms)
                s.add(*facts)
            else:
                every = forms + list(facts)
                random.Random(seed).shuffle(every)
                s.add(*every)
            r = str(s.check())
            Stats.queries += 1
            if r != 'unknown':
                break
        Stats.by_stage[rounds] = Stats.by_stage.get(rounds, 0) + 1
        if LOGQ and time.time() - t0 > 0.5:
            print('      q', rounds, r, len(facts), sat.complete, round(time.time() - t0, 2), str(goal)[:150].replace('\n', ' '))
        if r == 'unsat' or sat.complete:
            break
    Stats.time += time.time() - t0
    if r == 'unknown':
        Stats.unknown += 1
    if DUMP[0] is not None and goal is not None and r == 'unsat':
        DUMP[0](s)
    _cache[key] = (r, asked, None)
    check.last = s
    check.last_fresh = True
    check.goals = goal.children() if goal is not None and z3.is_and(goal) else []
    return r


def z3_sat(fs):
    s = z3.Solver()
    limit(s, 100)
    s.add(*fs)
    return str(s.check())


_apps = {}


def apps(e):
    """applications of uninterpreted predicates inside e: (name, first argument)"""
    i = e.get_id()
    r = _apps.get(i)
    if r is None:
        r = frozenset()
        if is_app(e):
            r = r.union(*[apps(c) for c in e.children()])
            if e.num_args() and e.sort().eq(Bool) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                x = e.children()[0]
                r |= {(e.decl().name(), x.get_id() if x.num_args() == 0 else None)}
        _apps[i] = r
        _keep.append(e)
    return r


def alone(pc, a):
    """nothing is said about the predicate of a elsewhere"""
    n = a.decl().name()
    x = a.children()[0]
    k = x.get_id() if x.num_args() == 0 else None
    if (n in RULES or n in FOLDS) and not n.startswith('has:'):
        return False
    for f in pc:
        for m, y in apps(f):
            if m == n and (y is None or k is None or y == k):
                return False
    return True


def decided(pc, c):
    """truth of a literal that is, or whose negation is, one of the facts"""
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    i, pol = norm(c)
    for f in pc:
        j, q = norm(f)
        if i == j:
            return q == pol
    return None


def proves(pc, goal, timeout=None):
    if z3.is_true(goal):
        return True
    return check(pc, goal, timeout) == 'unsat'


_shapes = {}


def shape(e):
    """the form of a term: itself without the numbers of fresh constants"""
    i = e.get_id()
    r = _shapes.get(i)
    if r is None:
        if z3.is_app(e):
            n = e.decl().name() if not (z3.is_int_value(e) or z3.is_string_value(e)) else str(e)
            r = hash((n.split('!')[0],) + tuple(shape(c) for c in e.children()))
        else:
            r = i
        _shapes[i] = r
        _keep.append(e)
    return r


def linear(g):
    """comparison of integers made of constants and lengths"""
    def term(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return all(term(c) for c in e.children())
        return z3.is_int_value(e) or e.num_args() == 0 or k == z3.Z3_OP_SEQ_LENGTH or (k == z3.Z3_OP_UNINTERPRETED and e.sort().eq(Int))
    if z3.is_not(g):
        g = g.children()[0]
    return is_app(g) and g.num_args() == 2 and g.children()[0].sort().eq(Int) and all(term(c) for c in g.children())


def refine(pc, cands, timeout=None):
    """the (key, goal)s of cands that follow from pc"""
    cands = list(cands)
    left = []
    for k, g in cands:
        if z3.is_true(g):
            left.append((k, g))
        elif not z3.is_false(g):
            left.append((k, g))
    while left:
        G = [g for _, g in left if not z3.is_true(g)]
        if not G:
            return left
        if len(G) == 1:
            return [(k, g) for k, g in left if proves(pc, g, timeout)]
        r = check(pc, And(*G), timeout)
        if r == 'unsat':
            return left
        if r != 'sat':
            # comparisons of numbers first: they are easy when they hold
            left = [(k, g) for k, g in left if not linear(g) or proves(pc, g, min(timeout or TIMEOUT[0], max(400, TIMEOUT[0] // 20)))]
            if check(pc, And(*[g for _, g in left]), timeout) == 'unsat':
                return left
            return [(k, g) for k, g in left if linear(g) or proves(pc, g, timeout)]
        m = check.last.model() if check.last_fresh else None
        gs = check.goals
        keep = None
        if m is not None:
            keep = []
            for (k, g), g2 in zip([x for x in left if not z3.is_true(x[1])], gs):
                if not z3.is_false(m.eval(g2, model_completion=True)):
                    keep.append((k, g))
            if len(keep) == len(G):
                keep = None
        if keep is None:
            return [(k, g) for k, g in left if proves(pc, g, timeout)]
        ks = {id(g) for _, g in keep}
        left = [(k, g) for k, g in left if z3.is_true(g) or id(g) in ks]
    return left


def model(pc, goal):
    forms = list(pc) + [Not(goal)]
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*forms)
    s.add(*Sat(known_of(pc)).run(forms))
    if s.check() == z3.sat:
        return s.model()
    return None


def version():
    return 'z3 %s (in process)' % '.'.join(map(str, z3.get_version()))
