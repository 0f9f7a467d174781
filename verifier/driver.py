import sys, time, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import load
import logic as L
from logic import *
from theory import *
from state import *
import spec as S
from spec import A, PA, CTXT
import ext
import execu
from execu import Exec
import loops
import closures
import contracts as C


def eff_params(s, withmap):
    """the conditional attributes that apply, for any list of conditional attributes in scope"""
    def params(sc):
        ts = loops.scope_terms(sc)
        envs = [t for t in ts if t.sort().eq(Env)]
        cs = {t.get_id(): t for n, t in sc.seqs if t.sort().eq(s.SeqCA)}
        ms = [t for t in ts if t.sort().eq(s.MI)]
        out = []
        for c in cs.values():
            for e in envs:
                E = s.Eff(c, e)
                out += [(E, m, e) for m in ms] if withmap else [(E, e)]
        return out
    return params


def norm_params(s):
    """the values of the maps in scope"""
    def params(sc):
        out = []
        types = loops.reg_types(sc.fr.f)
        for n, v in sc.regs.items():
            t = types.get(n, '')
            if isinstance(v, z3.ExprRef) and v.sort().eq(s.MD):
                out.append((s.norm(v),))
            elif isinstance(v, MapRef) and sc.ex.th.sort(v.t).eq(s.MD):
                out.append((s.norm(sc.ex.snap(sc.st, v, v.t)),))
        return out
    return params


class Run:
    def __init__(self, path):
        self.p = load(path)
        self.th = Theory(self.p)
        self.s = S.Spec(self.th)
        S._spec[0] = self.s
        self.s.R_()
        import lemmas
        lemmas.sticky(self.s)
        lemmas.elements(self.s)
        self.globals = None
        self.results = {}

    def templates(self):
        s = self.s
        ts = [loops.fold_template(F) for F in (s.VF, s.VA, s.D, s.RFs, s.RFn, s.RFx, s.IT, s.EV, s.M3, s.DN, s.CL)]
        ts += [loops.fold_template(s.RA1, eff_params(s, False)), loops.fold_template(s.RA2, eff_params(s, True))]
        ts += [loops.hom_template(H) for H in (s.esc, s.NVs, s.C2N, s.NN, s.NNN, s.NNA, s.AC_a, s.AC_ca, s.AC_c, s.CAmap, s.flat)]
        ts += [loops.chunk_template(H) for H in (s.esc,)]
        ts += [loops.all_template(P) for P in (s.AllNN, s.AllAttr, s.AllCA)]
        ts += [loops.map_template(s), loops.fold_template(s.MGv), loops.fold_template(s.MGm), loops.fold_template(s.HS, norm_params(s))]
        ts += [loops.found_template(P) for P in (s.anyHM, s.anyOther)]
        ts.append(loops.copy_template(s.SeqN, loops.reflected(s)))
        for pkg, g in s.gens.items():
            ts += [loops.within('/%s.' % pkg, loops.fold_template(F)) for F in (g.G, g.AT)]
        if s.gens:
            ts.append(loops.tail_template(s.CLg))
        ts.append(loops.rep_template(s, ('&nbsp;',)))
        ts += [loops.bool_template(H) for H in (s.AllB,)]
        return ts

    def exec(self):
        ex = Exec(self.p, self.th, C.CONTRACTS, ext.EXT, ext.IMETH, ext.DYN)
        ex.templates = self.templates()
        ex.safety_tags = ('C21',)
        ex.frame_tags = ('C11', 'C12')
        ex.trace = []
        ex.canon = closures.closure_canon
        ex.cur_name = 'init'
        if self.globals is None:
            self.init(ex)
        ex.globals = self.globals
        return ex

    def init(self, ex):
        ex.initing = True
        ex.globals = {}
        contracts = ex.contracts
        ex.contracts = {}
        for pkg in ('github.com/go-andiamo/aitch/context', 'github.com/go-andiamo/aitch', 'github.com/go-andiamo/aitch/css', 'github.com/go-andiamo/aitch/html',
                    'github.com/go-andiamo/aitch/htmx', 'github.com/go-andiamo/aitch/svg'):
            n = pkg + '.init'
            if n not in self.p.funcs:
                continue
            st = State()
            g0 = dict(ex.globals)
            try:
                outs = ex.exec_fn(st, n, [])
                st = outs[0].st
            except Unsupported as e:
                self.initfail = str(e)
                print('init', pkg, e)
                ex.globals = g0
                continue
            for k, v in ex.globals.items():
                if k in g0:
                    continue
                gt = self.p.globals[k]['type'] if k in self.p.globals else None
                if isinstance(v, Slice):
                    seq = ex.content(st, v)
                    ex.globals[k] = Slice(v.et, ('t', seq), IntVal(0), slen(seq), slen(seq) if k in self.p.exact_globals() else fresh('cap', Int), FALSE)
                elif isinstance(v, MapRef):
                    ex.globals[k] = ex.term(st, v, v.t)
                elif isinstance(v, Ptr) and v.base[0] == 'o':
                    try:
                        ex.globals[k] = ex.term(st, v, gt)
                    except Unsupported:
                        pass
        ex.initing = False
        ex.contracts = contracts
        self.globals = ex.globals

    def verify(self, name):
        con = C.CONTRACTS[name]
        ex = self.exec()
        ex.cur_name = name
        t = time.time()
        q0 = L.Stats.queries
        err = None
        try:
            ex.cur = con
            con.verify(ex)
        except Unsupported as e:
            err = str(e)
        return ex, err, time.time() - t, L.Stats.queries - q0

    def verify_job(self, kind, name):
        ex, err, t, q = self.verify(name)
        obs = [{k: getattr(o, k) for k in ('kind', 'name', 'tags', 'pos', 'ok', 'reason', 'n', 'proved')} | ({} if o.ok else {'path': o.path, 'goal': o.model})
               for o in ex.obs.values()]
        return {'obs': obs, 'err': err, 'loops': [(l[0], l[1], list(map(str, l[2]))) for l in ex.loopinfo],
                'inlined': sorted(ex.inlined), 'assumed': sorted(map(str, ex.assumed)), 'used': sorted(map(str, ex.used))}


if __name__ == '__main__':
    r = Run('/tmp/ssa.json')
    for n in (sys.argv[1:] or list(C.CONTRACTS)):
        names = [k for k in C.CONTRACTS if k == n] or [k for k in C.CONTRACTS if n in k]
        for nm in names:
            if nm not in r.p.funcs:
                print(nm, 'MISSING')
                continue
            ex, err, t, q = r.verify(nm)
            bad = [o for o in ex.obs.values() if not o.ok]
            print('%-70s %s %.1fs %dq obl=%d %s' % (nm.replace('github.com/go-andiamo/', ''), 'OK' if not bad and not err else 'FAIL', t, q, len(ex.obs), err or ''), flush=True)
            for o in bad:
                print('    ', o.kind, o.name, o.pos, o.n, o.proved)
                if os.environ.get('V'):
                    print('       goal', o.model)
                    for x in o.path:
                        print('         ', x)
            if os.environ.get('V'):
                for l in ex.loopinfo:
                    print('   loop', l)
