"""Decide one property: which functions, which obligations, what was assumed."""
import os
import re
import time
import driver
import contracts as C
import lemmas
import par
import logic as L

EVERYWHERE = ('C11', 'C12', 'C21')       # every function under contract carries obligations of these


def known_findings(here, prop):
    f = os.path.join(here, 'known-findings.txt')
    r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                r.append(m.group(2).strip())
    return r


# what a property rests on besides its own clauses: clauses of other properties (and on which functions)
RESTS_ON = {
    'C01': [('C02', ''), ('C20', ''), ('C03', '')],
    'C03': [('C02', '')],
    'C04': [('C10', r'Render|renderNode'), ('C02', r'Render')],
    'C05': [('C02', r'NewDelimitedAttribute|NewAttribute|getValues'), ('C06', r'evaluate')],
    'C06': [('C05', r'merge'), ('C04', r'contentsToNodes|Collection|renderNode')],
    'C07': [('C02', r'NewDelimitedAttribute|newValue|NewValue|NewConcatValue|getValues|Value\).render|valueToBytes'), ('C05', r'merge|attributesAndContents'), ('C06', r'evaluate')],
    'C08': [('C14', r'context.New'), ('C04', r'contentsToNodes|renderNode')],
    'C09': [('C04', r'renderAttributes|renderNode|attributesAndContents')],
    'C10': [('C09', ''), ('C08', ''), ('C18', r'Execute'), ('C02', r'Write|render')],
    'C13': [('C05', r'NewElement|NewVoidElement|attributesAndContents|merge|Start'), ('C19', r'serialize')],
    'C18': [('C10', r'renderNode|Write')],
    'C19': [('C02', r'newValue|NewValue|NewConcatValue|NewDelimitedAttribute')],
    'C20': [('C02', r'newValue|NewValue|NewConcatValue|Value\).render|valueToBytes|NewDelimitedAttribute')],
    'C21': [('C04', r'contentsToNodes|Collection|NewElement|NewVoidElement|attributesAndContents|ocument|renderNode|ContentCollect|contentCollector'), ('C06', ''), ('C08', ''), ('C09', '')],
}


def belongs(tags, name, prop):
    return prop in tags or any(t in tags and re.search(rx, name) for t, rx in RESTS_ON.get(prop, ()))


def relevant(con, prop):
    return prop in EVERYWHERE or belongs(con.tags, con.name, prop)


def auxiliary(n):
    name = n.rsplit('.', 1)[-1]
    return name[:1].islower() and name != 'getValues'


def mentions(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'func':
            out.add(x['n'])
        for v in x.values():
            if isinstance(v, (dict, list)):
                mentions(v, out)
    elif isinstance(x, list):
        for v in x:
            mentions(v, out)


def dependents(p, names, contracts):
    """the functions under contract that use one of the functions, directly or through functions without contract"""
    users = {}
    for n, f in p.funcs.items():
        ms = set()
        mentions(f['blocks'], ms)
        for m in ms:
            users.setdefault(m, set()).add(n)
        if '$' in n:
            users.setdefault(n, set()).add(n.rsplit('$', 1)[0])
    todo, seen, out = list(names), set(names), set()
    while todo:
        for u in users.get(todo.pop(), ()):
            if u in seen:
                continue
            seen.add(u)
            if u in contracts:
                out.add(u)
            else:
                todo.append(u)
    return sorted(out)


def decide(ssa, prop, tier, seed, found=lambda: False):
    t0 = time.time()
    run = driver.Run(ssa)
    run.exec()
    names, missing = [], []
    for n, con in C.CONTRACTS.items():
        if not relevant(con, prop):
            continue
        (names if con.applicable(run.p, n) else missing).append(n)
    limit = 640 if tier == 'quick' else 1500
    order = sorted(names, key=lambda n: -C.WEIGHT.get(n, 1))
    res = par.run_all(run, [('theorems', prop, limit)] + [('fn', n, limit) for n in order], len(os.sched_getaffinity(0)))
    ths = [r for r in res if r['kind'] == 'theorems'][0]
    res = [r for r in res if r['kind'] != 'theorems']
    lemmas.LOG.update(ths.get('log', {}))

    def bad(r):
        return bool(r.get('err')) or any(not o['ok'] and counts(o, r) for o in r.get('obs', []))

    def counts(o, r):
        return belongs(o['tags'], r['name'], prop) or r.get('all')

    def left():
        return (780 if tier == 'quick' else 3000) - (time.time() - t0)

    def redo(ns, scale):
        L.SCALE[0] = scale
        try:
            return par.run_all(run, [('fn', n, left()) for n in ns], len(os.sched_getaffinity(0)))
        finally:
            L.SCALE[0] = 1

    by = {r['name']: r for r in res}
    again = [r['name'] for r in res if bad(r) and 'time limit' not in (r.get('err') or '')]
    if again and left() > 30 and not found():
        # once more, with more time per query, so that a loaded machine raises no alarm
        by.update({r['name']: r for r in redo(again, 3)})
    dropped = {}
    for _ in range(4):
        # a contract on a function that is not exported is a means only: without it, what it does is part of its callers
        aux = [n for n, r in by.items() if bad(r) and auxiliary(n)]
        if not aux or left() < 60 or found():
            break
        for n in aux:
            dropped[n] = by.pop(n)
            del C.CONTRACTS[n]
        for r in redo([n for n in dependents(run.p, aux, C.CONTRACTS) if C.CONTRACTS[n].applicable(run.p, n)], 2):
            r['all'] = True
            by[r['name']] = r
    if dropped and any(bad(r) for r in by.values()):
        by.update(dropped)               # report what failed first
    else:
        missing += list(dropped)
    res = list(by.values())
    failed, nobl, ndis = [], 0, 0
    fns, inlined, assumed, loops = [], set(), set(), 0
    for r in sorted(res, key=lambda r: r['name']):
        n, m = 0, 0
        for o in r.get('obs', []):
            if not counts(o, r):
                continue
            n += 1
            if o['ok']:
                m += 1
            else:
                failed.append('%s: %s: %s  [%s]\n    at %s; %d of %d instances proved\n    goal: %s\n    path: %s' % (
                    short(r['name']), o['kind'], o['name'], ','.join(o['tags']), o['pos'], o['proved'], o['n'], o.get('goal', ''), '\n          '.join(o.get('path', []))))
        if r.get('err'):
            n += 1
            failed.append('%s: the function could not be verified: %s\n%s' % (short(r['name']), r['err'], r.get('tb', '')))
        nobl, ndis = nobl + n, ndis + m
        if n:
            fns.append({'function': short(r['name']), 'obligations': n, 'discharged': m, 'loops_with_invariants': len(r.get('loops', [])), 'queries': r['queries'],
                        'solver_s': r['solver_time'], 'unknown_answers': r['unknown']})
        inlined.update(r.get('inlined', []))
        assumed.update(r.get('assumed', []))
    lems = {}
    for k, v in lemmas.LOG.items():
        lems[k] = {'proved': v['ok'], 'parts': len(v['parts']), 'time_s': v['time'], 'tags': list(v['tags'])}
        if prop in v['tags'] or not v['tags']:
            nobl += len(v['parts'])
            ndis += sum(1 for x in v['parts'].values() if x)
            if not v['ok']:
                failed.append('lemma: ' + k)
    if ths.get('err'):
        failed.append('the theorems could not be proved: %s\n%s' % (ths['err'], ths.get('tb', '')))
        nobl += 1
    if not fns:
        failed.append('no function of this property is left under contract (%s)' % ', '.join(map(short, missing)))
        nobl += 1
    z = L.version()
    cov = {'obligations': nobl, 'discharged': ndis,
           'checker_cmd': 'cd /verif && python3-vt check.py %s %s' % (prop, tier),
           'trusted_base': TRUSTED, 'backend': z, 'functions': fns,
           'functions_under_contract': len(fns), 'inlined_functions': sorted(map(short, inlined)),
           'contracts_dropped': sorted(map(short, missing)), 'lemmas': lems,
           'solver_time_s': round(sum(r['solver_time'] for r in res), 1), 'queries': sum(r['queries'] for r in res),
           'prover_wall_s': round(time.time() - t0, 1)}
    return {'failed': failed, 'coverage': cov, 'assumptions': ASSUMPTIONS + ['contract assumed on: ' + a for a in sorted(assumed)]}


def short(n):
    return n.replace('github.com/go-andiamo/', '')


TRUSTED = ['the verifier in /verif/verifier (symbolic executor, specification functions, lemma engine)', 'z3 5.3.2 (sequences, arrays, linear integer arithmetic)',
           'golang.org/x/tools/go/ssa as the meaning of Go source', 'the assumed contracts of library functions (verifier/ext.py)', 'the Go compiler and runtime']

ASSUMPTIONS = [
    'interface values given by the user hold no typed nil pointers of node types',
    'node types, conditions, dynamic functions, collectors and iteration functions of the user write through the context only, keep its first error, do not change its data, cargo, writer or parent, and do not modify the template; conditions and attribute names do not depend on earlier output',
    'the writer does not keep or modify the bytes given, and its result does not depend on how the output is cut into writes; writes of no bytes have no effect',
    'int and int64 sums and lengths do not overflow (machine integers treated as mathematical ones); fixed size conversions are checked',
    'a package variable declared as []byte("constant") has no spare capacity (the gc compiler lays it out statically; not promised by the language)',
    'the graph of nodes is finite and acyclic; termination is not proved',
    'html/template calls the function registered for a marker once per marker executed, with the data given to Execute, and writes nothing for an empty result',
    'sort.Strings sorts; strconv.Quote gives a Go literal that denotes its argument; names of functions (runtime) hold no bracket and no quote',
    'golang.org/x/net/html: the tokenizer gives a finite sequence of tokens that depends on the input alone, then an error',
]
