"""Regular expressions of Go's regexp package as regular languages over bytes.

Only what means the same for bytes and for runes is understood: ASCII literals and classes of
ASCII characters (a byte of a multi-byte rune is matched by neither)."""
import z3
from theory import Unsupported
from logic import zstr, Str

_cache = {}
CLASSES = {'d': [(48, 57)], 'w': [(48, 57), (65, 90), (95, 95), (97, 122)], 's': [(9, 10), (12, 13), (32, 32)]}
ESC = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7}
RE = z3.ReSort(Str)


def ranges(rs):
    """union of ranges in canonical form"""
    cs = sorted({c for a, b in rs for c in range(a, b + 1)})
    if any(c > 127 for c in cs):
        raise Unsupported('regexp with characters beyond ASCII')
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    es = [z3.Range(zstr(bytes([a])), zstr(bytes([b]))) if a != b else z3.Re(zstr(bytes([a]))) for a, b in out]
    return z3.Empty(RE) if not es else es[0] if len(es) == 1 else z3.Union(*es)


ANY = z3.Star(z3.AllChar(RE))
EPS = z3.Re(z3.StringVal(''))


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def next(self):
        c = self.peek()
        if c == '':
            raise Unsupported('regexp')
        self.i += 1
        return c

    def alt(self, top=False):
        out = [self.seq(top)]
        while self.peek() == '|':
            self.next()
            out.append(self.seq(top))
        return out[0] if len(out) == 1 else z3.Union(*out)

    def seq(self, top):
        items = []
        start = end = False
        while self.peek() not in ('', '|', ')'):
            c = self.peek()
            if c == '^' or self.s.startswith('\\A', self.i):
                self.i += 1 if c == '^' else 2
                if items or not top:
                    raise Unsupported('anchor inside a regexp')
                start = True
                continue
            if c == '$' or self.s.startswith('\\z', self.i):
                self.i += 1 if c == '$' else 2
                if not top or self.peek() not in ('', '|'):
                    raise Unsupported('anchor inside a regexp')
                end = True
                continue
            items.append(self.rep())
        if top and not start:
            items.insert(0, ANY)
        if top and not end:
            items.append(ANY)
        return EPS if not items else items[0] if len(items) == 1 else z3.Concat(*items)

    def rep(self):
        a = self.atom()
        while True:
            c = self.peek()
            if c == '*':
                a = z3.Star(a)
            elif c == '+':
                a = z3.Plus(a)
            elif c == '?':
                a = z3.Option(a)
            elif c == '{':
                j = self.s.index('}', self.i)
                b = self.s[self.i + 1:j].split(',')
                try:
                    lo = int(b[0])
                    hi = lo if len(b) == 1 else int(b[1]) if b[1] else None
                except ValueError:
                    raise Unsupported('regexp')
                self.i = j
                if hi is None:
                    a = z3.Concat(z3.Loop(a, lo, lo), z3.Star(a)) if lo else z3.Star(a)
                else:
                    a = z3.Loop(a, lo, hi) if hi else EPS
            else:
                return a
            self.next()
            if self.peek() == '?':
                self.next()          # lazy: the same language

    def atom(self):
        c = self.next()
        if c == '(':
            if self.s.startswith('?:', self.i):
                self.i += 2
            elif self.peek() == '?':
                raise Unsupported('regexp flags')
            a = self.alt()
            if self.next() != ')':
                raise Unsupported('regexp')
            return a
        if c == '[':
            return ranges(self.cls())
        if c == '\\':
            return ranges(self.esc())
        if c in '.*+?{^$':
            raise Unsupported('regexp with ' + c)
        return ranges([(ord(c), ord(c))])

    def esc(self):
        c = self.next()
        if c in CLASSES:
            return CLASSES[c]
        if c in ESC:
            return [(ESC[c], ESC[c])]
        if c.isalnum():
            raise Unsupported('regexp escape ' + c)
        return [(ord(c), ord(c))]

    def cls(self):
        out = []
        if self.peek() == '^':
            raise Unsupported('negated class')
        first = True
        while self.peek() != ']' or first:
            first = False
            c = self.next()
            if c == '[' and self.peek() == ':':
                j = self.s.index(':]', self.i)
                n = self.s[self.i + 1:j]
                self.i = j + 2
                k = {'alpha': [(65, 90), (97, 122)], 'digit': [(48, 57)], 'alnum': [(48, 57), (65, 90), (97, 122)],
                     'word': CLASSES['w'], 'upper': [(65, 90)], 'lower': [(97, 122)]}.get(n)
                if k is None:
                    raise Unsupported('class ' + n)
                out += k
                continue
            lo = self.esc() if c == '\\' else [(ord(c), ord(c))]
            if self.peek() == '-' and self.s[self.i + 1:self.i + 2] != ']' and len(lo) == 1 and lo[0][0] == lo[0][1]:
                self.next()
                d = self.next()
                hi = self.esc() if d == '\\' else [(ord(d), ord(d))]
                out.append((lo[0][0], hi[0][1]))
            else:
                out += lo
        self.next()
        return out


def lang(src):
    if src not in _cache:
        p = P(src)
        r = p.alt(True)
        if p.i != len(src):
            raise Unsupported('regexp')
        _cache[src] = r
    return _cache[src]


def match(src, s):
    return z3.InRe(s, lang(src))
