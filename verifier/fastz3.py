"""The Python interface of z3 spends more time in wrapping and error checks than the solver in solving.  This takes the
plain accessors straight from the library, and keeps what a term object has already been asked for.  No change of meaning."""
import z3
import z3.z3 as m
import z3.z3core as core

def raw(n):
    return getattr(core, n).__defaults__[0].f


for _n in ('Z3_get_ast_kind', 'Z3_get_ast_id', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_app_decl', 'Z3_get_app_num_args', 'Z3_get_app_arg',
           'Z3_get_decl_kind', 'Z3_is_eq_ast', 'Z3_is_finite_set_sort', 'Z3_get_sort_kind', 'Z3_get_ast_hash', 'Z3_is_eq_sort'):
    setattr(m, _n, raw(_n))

_kind, _nargs, _arg, _id, _declkind, _decl = (raw(n) for n in (
    'Z3_get_ast_kind', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_ast_id', 'Z3_get_decl_kind', 'Z3_get_app_decl'))
_APP, _NUM = z3.Z3_APP_AST, z3.Z3_NUMERAL_AST


def is_app(a):
    if not isinstance(a, m.ExprRef):
        return False
    try:
        return a._isapp
    except AttributeError:
        a._isapp = _kind(a.ctx.ctx, a.ast) in (_APP, _NUM)
        return a._isapp


def children(self):
    try:
        return list(self._ch)
    except AttributeError:
        if not is_app(self):
            self._ch = ()
        else:
            c, a, x = self.ctx.ctx, self.ast, self.ctx
            self._ch = tuple([m._to_expr_ref(_arg(c, a, i), x) for i in range(_nargs(c, a))])
        return list(self._ch)


def arg(self, idx):
    return self.children()[idx]


def num_args(self):
    if not is_app(self):
        raise m.Z3Exception('Z3 application expected')
    return len(children(self))


def get_id(self):
    try:
        return self._ident
    except AttributeError:
        self._ident = _id(self.ctx.ctx, self.ast)
        return self._ident


def kind(self):
    try:
        return self._knd
    except AttributeError:
        if not is_app(self):
            raise m.Z3Exception('Z3 application expected')
        c = self.ctx.ctx
        self._knd = _declkind(c, _decl(c, self.ast))
        return self._knd


_olddecl, _oldsort = m.ExprRef.decl, m.ExprRef.sort


def decl(self):
    try:
        return self._dcl
    except AttributeError:
        self._dcl = _olddecl(self)
        return self._dcl


m.is_app = z3.is_app = is_app
m.ExprRef.children = children
m.ExprRef.arg = arg
m.ExprRef.num_args = num_args
m.ExprRef.get_id = get_id
m.ExprRef.kind = kind
m.ExprRef.decl = decl
_dname = m.FuncDeclRef.name


def name(self):
    try:
        return self._nm
    except AttributeError:
        self._nm = _dname(self)
        return self._nm


m.FuncDeclRef.name = name
_dkind = m.FuncDeclRef.kind


def declkind(self):
    try:
        return self._knd
    except AttributeError:
        self._knd = _dkind(self)
        return self._knd


m.FuncDeclRef.kind = declkind
