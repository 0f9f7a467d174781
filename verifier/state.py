"""Memory of the symbolic executor."""
from logic import *
from theory import *


class ObjC:
    """a variable (or a struct) allocated by the function under verification, or a mutable parameter object"""
    __slots__ = ('t', 'val', 'owned', 'mod', 'frozen', 'ident', 'desc')

    def __init__(self, t, val, owned=True, mod=None, frozen=None, ident=None, desc=''):
        self.t, self.val, self.owned, self.mod, self.frozen, self.ident, self.desc = t, val, owned, mod, frozen, ident, desc

    def upd(self, **kw):
        o = ObjC(self.t, self.val, self.owned, self.mod, self.frozen, self.ident, self.desc)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class ObjA:
    """backing array; content is a python list of values or a sequence term"""
    __slots__ = ('et', 'content', 'owned', 'alias', 'frozen', 'desc', 'src')

    def __init__(self, et, content, owned=True, alias=(), frozen=False, desc='', src=None):
        self.et, self.content, self.owned, self.alias, self.frozen, self.desc, self.src = et, content, owned, alias, frozen, desc, src

    def upd(self, **kw):
        o = ObjA(self.et, self.content, self.owned, self.alias, self.frozen, self.desc, self.src)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class ObjM:
    """map under construction"""
    __slots__ = ('t', 'dom', 'vals', 'owned', 'frozen', 'elts_owned', 'pending', 'nonempty', 'desc')

    def __init__(self, t, dom, vals, owned=True, frozen=False, elts_owned=True, pending=None, nonempty=None, desc=''):
        self.t, self.dom, self.vals, self.owned, self.frozen = t, dom, vals, owned, frozen
        self.elts_owned, self.pending, self.nonempty, self.desc = elts_owned, pending, nonempty, desc

    def upd(self, **kw):
        o = ObjM(self.t, self.dom, self.vals, self.owned, self.frozen, self.elts_owned, self.pending, self.nonempty, self.desc)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class State:
    __slots__ = ('mem', 'pc', 'G', 'panicking')

    def __init__(self):
        self.mem, self.pc, self.G = {}, [], {}

    def fork(self):
        s = State.__new__(State)
        s.mem, s.pc, s.G = dict(self.mem), list(self.pc), dict(self.G)
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            if z3.is_and(f):
                self.assume(*f.children())
            else:
                self.pc.append(f)


class Out:
    __slots__ = ('kind', 'st', 'val', 'regs')

    def __init__(self, kind, st, val=None, regs=None):
        self.kind, self.st, self.val, self.regs = kind, st, val, regs
