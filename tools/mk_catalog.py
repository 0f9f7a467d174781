"""One-off: the vocabulary table (verifier/catalog.json), from the documentation comments of the
functions; every entry is compared with what the code does at the time of writing, and differences are
printed.  The table is committed and is not regenerated by any check."""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'verifier'))
import driver
from logic import const_bytes
REPO = '/repo'
r = driver.Run('/tmp/ssa.json')
r.exec()
G = r.globals


def gval(n):
    v = G[n]
    return const_bytes(v.base[1]).decode()


docs = {}
for pkg in ('html', 'svg', 'htmx', 'css'):
    for fn in os.listdir('%s/%s' % (REPO, pkg)):
        if fn.endswith('.go') and not fn.endswith('_test.go'):
            com = []
            for line in open('%s/%s/%s' % (REPO, pkg, fn)):
                if line.startswith('//'):
                    com.append(line[2:].strip())
                else:
                    m = re.match(r'func ([A-Z]\w*)\(', line)
                    if m:
                        docs[pkg + '.' + m.group(1)] = ' '.join(com)
                    com = []
out = {}
for n, f in r.p.funcs.items():
    mm = re.match(r'github.com/go-andiamo/aitch/(html|svg|htmx|css)\.([A-Z]\w*)$', n)
    if not mm:
        continue
    pkg, name = mm.groups()
    q = pkg + '.' + name
    calls = [i['call'] for b in f['blocks'] for i in b['instrs'] if i['op'] == 'Call' and i['call'].get('fn', {}).get('k') == 'func']
    targets = [c['fn']['n'].rsplit('.', 1)[-1] for c in calls]
    loads = {i['reg']: i['x']['n'] for b in f['blocks'] for i in b['instrs'] if i['op'] == 'UnOp' and i['tok'] == '*' and i['x'].get('k') == 'global'}
    if len(calls) != 1 or targets[0] not in ('NewElement', 'NewVoidElement', 'NewAttribute', 'NewBooleanAttribute', 'NewDelimitedAttribute', 'styleAttribute', 'unitValue'):
        print('special', q, targets)
        continue
    args = [gval(loads[a['n']]) if a.get('n') in loads else None for a in calls[0]['args']]
    kind = {'NewElement': 'element', 'NewVoidElement': 'void', 'NewAttribute': 'attribute', 'NewBooleanAttribute': 'boolean', 'NewDelimitedAttribute': 'delimited',
            'styleAttribute': 'css', 'unitValue': 'unit'}[targets[0]]
    d = docs.get(q, '')
    if args[0] is None and kind != 'unit':
        print('special', q)
        continue
    dn = None
    first = d.split('.')[0] if kind != 'unit' else d
    if kind in ('element', 'void'):
        x = re.search(r'<([\w-]+)>', d)
        dn = x and x.group(1)
        if ('void element' in d) != (kind == 'void'):
            print('KIND?', q, kind, d)
    elif kind in ('css',):
        x = re.search(r'`([\w-]+)`', d)
        dn = x and x.group(1)
    elif kind == 'unit':
        x = re.search(r'"([^"]+)"', d)
        dn = x and x.group(1)
        args[0] = args[1]
    else:
        x = re.search(r'"([^"]+)"', d)
        dn = x and x.group(1)
        if ('boolean attribute' in d.lower()) != (kind == 'boolean'):
            print('KIND?', q, kind, d[:100])
    if dn != args[0]:
        print('NAME?', q, repr(dn), repr(args[0]), '|', d[:90])
    out[q] = {'kind': kind, 'name': args[0]}
    if kind == 'delimited':
        out[q]['delimiter'] = args[1]
        print('delim', q, repr(args[1]), d[:200])
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(driver.__file__)), 'catalog.json'), 'w'), indent=0, sort_keys=True)
print(len(out))
