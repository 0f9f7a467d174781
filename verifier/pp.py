"""Compact printing of formulas: shared subterms are named."""
import z3
from collections import Counter


def short(n):
    return n.replace('github.com/go-andiamo/aitch/', '').replace('github.com/go-andiamo/aitch.', '').replace('*', '')


class PP:
    def __init__(self, forms, minc=4):
        self.cnt = Counter()
        self.size = {}
        self.names = {}
        self.order = []
        self.keep = forms
        for f in forms:
            self.visit(f, set())
        self.minc = minc

    def visit(self, e, seen):
        i = e.get_id()
        self.cnt[i] += 1
        if i in self.size:
            return self.size[i]
        if not z3.is_app(e):
            self.size[i] = 1
            return 1
        s = 1 + sum(self.visit(c, seen) for c in e.children())
        self.size[i] = s
        return s

    def s(self, e, top=False):
        if not z3.is_app(e):
            return str(e).replace('\n', ' ')[:300]
        i = e.get_id()
        if i in self.names:
            return self.names[i]
        if not top and self.size.get(i, 1) >= 3 and self.cnt[i] >= self.minc and not z3.is_bool(e):
            d = self.s(e, True)
            n = '$%d' % (len(self.names) + 1)
            self.names[i] = n
            self.order.append((n, d))
            print('   let %s = %s' % (n, d))
            return n
        k = e.decl().kind()
        ch = [self.s(c) for c in e.children()]
        ops = {z3.Z3_OP_AND: ' & ', z3.Z3_OP_OR: ' | ', z3.Z3_OP_EQ: ' == ', z3.Z3_OP_LE: ' <= ', z3.Z3_OP_GE: ' >= ', z3.Z3_OP_LT: ' < ',
               z3.Z3_OP_GT: ' > ', z3.Z3_OP_ADD: '+', z3.Z3_OP_SUB: '-', z3.Z3_OP_MUL: '*', z3.Z3_OP_IMPLIES: ' => ', z3.Z3_OP_SEQ_CONCAT: ' ++ '}
        if k in ops and ch:
            return '(' + ops[k].join(ch) + ')'
        if k == z3.Z3_OP_NOT:
            return '!' + ch[0]
        if k == z3.Z3_OP_ITE:
            return '(%s ? %s : %s)' % tuple(ch)
        if k == z3.Z3_OP_SEQ_EXTRACT:
            return '%s[%s:+%s]' % tuple(ch)
        if k == z3.Z3_OP_SEQ_NTH:
            return '%s[%s]' % tuple(ch)
        if k == z3.Z3_OP_SEQ_LENGTH:
            return '|%s|' % ch[0]
        if not ch:
            return short(str(e))
        return '%s(%s)' % (short(e.decl().name()), ', '.join(ch))
