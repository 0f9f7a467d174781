"""The program under verification: SSA of /repo as exported by ssadump, type tables, loops."""
import json


class Prog:
    def __init__(self, data):
        self.types = data['types']
        self.funcs = data['funcs'] if isinstance(data['funcs'], dict) else {f['name']: f for f in data['funcs']}
        self.globals = data['globals']
        self.consts = data.get('consts', {})
        self.impls = data['impls']
        self.methods = data['methods']
        self._loops = {}
        if isinstance(self.globals, list):
            self.globals = {g['name']: g for g in self.globals}

    # ---- types
    def kind(self, t):
        return self.types[t]['kind'] if t in self.types else '?'

    def under(self, t):
        seen = 0
        while t in self.types and self.types[t]['kind'] == 'named' and seen < 10:
            t = self.types[t]['under']
            seen += 1
        return t

    def ukind(self, t):
        return self.kind(self.under(t))

    def basic(self, t):
        u = self.under(t)
        return self.types[u]['name'] if self.kind(u) == 'basic' else None

    def elem(self, t):
        return self.types[self.under(t)]['elem']

    def key(self, t):
        return self.types[self.under(t)]['key']

    def fields(self, t):
        return self.types[self.under(t)]['fields']

    def is_iface(self, t):
        return self.ukind(t) == 'iface'

    def is_ptr(self, t):
        return self.ukind(t) == 'ptr'

    def is_bytes(self, t):
        u = self.under(t)
        return self.kind(u) == 'slice' and self.basic(self.types[u]['elem']) in ('uint8', 'byte')

    def implements(self, concrete, iface):
        """does the concrete type implement the interface type (None: not known)"""
        it = self.types.get(self.under(iface))
        if it is None:
            return None
        if not it.get('methods'):
            return True
        l = self.impls.get(iface)
        if l is not None and concrete in l:
            return True
        ms = self.methods.get(concrete)
        if ms is None:
            # a type without methods of its own in the program
            k = self.kind(concrete)
            if k in ('basic', 'slice', 'map', 'func', 'array', 'chan'):
                return False
            return False if l is not None else None
        return all(m['name'] in ms for m in it['methods'])

    def changing_globals(self):
        """package variables that are not constant after initialisation: exported ones of simple types
        and all that some function may assign, change or hand out the address of"""
        if hasattr(self, '_chg'):
            return self._chg
        out = set()
        for n, g in self.globals.items():
            if n.rsplit('.', 1)[-1][:1].isupper():
                out.add(n)

        def globs(x):
            if isinstance(x, dict):
                if x.get('k') == 'global':
                    yield x['n']
                for k, v in x.items():
                    if isinstance(v, (dict, list)):
                        yield from globs(v)
            elif isinstance(x, list):
                for v in x:
                    yield from globs(v)
        for fn, f in self.funcs.items():
            if fn.endswith('.init') or '.init#' in fn:
                continue
            loaded = {}
            for blk in f['blocks']:
                for i in blk['instrs']:
                    op = i['op']
                    if op == 'UnOp' and i.get('tok') == '*':
                        for g in globs(i.get('x')):
                            loaded[i['reg']] = g
                        continue
                    out.update(globs(i))
            if not loaded:
                continue

            def reg(v):
                return loaded.get(v.get('n')) if isinstance(v, dict) and v.get('k') == 'reg' else None
            addr = {}
            for blk in f['blocks']:
                for i in blk['instrs']:
                    op = i['op']
                    if op == 'MapUpdate':
                        g = reg(i.get('map') or i.get('x'))
                        if g:
                            out.add(g)
                    elif op in ('IndexAddr', 'FieldAddr', 'Slice'):
                        g = reg(i.get('x'))
                        if g:
                            addr[i['reg']] = g
                            loaded[i['reg']] = g
                    elif op == 'Store':
                        a = i.get('addr') or i.get('x')
                        if isinstance(a, dict) and a.get('n') in addr:
                            out.add(addr[a['n']])
                    elif op == 'Call':
                        fnn = i['call'].get('fn') or {}
                        if fnn.get('k') == 'builtin' and fnn.get('n') in ('append', 'copy', 'delete', 'clear'):
                            g = reg(i['call']['args'][0])
                            if g and not (fnn['n'] == 'append' and g in self.exact_globals()):
                                out.add(g)
        self._chg = out
        return out

    def exact_globals(self):
        """package variables whose only value is []byte(constant): laid out by the compiler without spare
        capacity (an assumption listed in prove.ASSUMPTIONS), so that append never writes into them"""
        if hasattr(self, '_exact'):
            return self._exact
        out, other = set(), set()
        for fn, f in self.funcs.items():
            conv = set()
            for blk in f['blocks']:
                for i in blk['instrs']:
                    if i['op'] == 'Convert' and i['x'].get('k') == 'const':
                        conv.add(i['reg'])
                    elif i['op'] == 'Store' and (i.get('addr') or i['x']).get('k') == 'global':
                        v = i.get('val') or i['y']
                        g = (i.get('addr') or i['x'])['n']
                        if fn.endswith('.init') and v.get('k') == 'reg' and v['n'] in conv and g not in out:
                            out.add(g)
                        else:
                            other.add(g)
        self._exact = out - other
        return self._exact

    # ---- control flow
    def loops(self, fname):
        """header block -> set of blocks of the natural loop"""
        if fname in self._loops:
            return self._loops[fname]
        f = self.funcs[fname]
        n = len(f['blocks'])
        succ = [b['succs'] for b in f['blocks']]
        pred = [b['preds'] for b in f['blocks']]
        full = set(range(n))
        dom = [full.copy() for _ in range(n)]
        if n:
            dom[0] = {0}
        # blocks without predecessors (recover blocks) dominate themselves only
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = [dom[p] for p in pred[b]]
                new = (set.intersection(*ps) if ps else set()) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        loops = {}
        for b in range(n):
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        self._loops[fname] = loops
        return loops


def load(path):
    with open(path) as f:
        return Prog(json.load(f))
