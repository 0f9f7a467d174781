"""One-off: replay/vocab.go from verifier/catalog.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
cat = json.load(open(here + '/../verifier/catalog.json'))
o = ['package main', '', '// generated by tools/mk_vocab.py from verifier/catalog.json', '', 'import (']
for p in ('aitch', 'aitch/css', 'aitch/html', 'aitch/htmx', 'aitch/svg'):
    o.append('\t"github.com/go-andiamo/%s"' % p)
o += [')', '', 'type word struct {', '\tfn, kind, name, delim string', '\tnode func(v []any) aitch.Node', '\tval func(v []any) aitch.Value', '}', '', 'var words = []word{']
for q, d in sorted(cat.items()):
    n, v = 'nil', 'nil'
    if d['kind'] == 'unit':
        v = 'func(v []any) aitch.Value { return %s(v...) }' % q
    elif d['kind'] == 'boolean':
        n = 'func(v []any) aitch.Node { return %s() }' % q
    else:
        n = 'func(v []any) aitch.Node { return %s(v...) }' % q
    o.append('\t{"%s", "%s", "%s", "%s", %s, %s},' % (q, d['kind'], d['name'], d.get('delimiter', ''), n, v))
o.append('}')
open(here + '/../replay/vocab.go', 'w').write('\n'.join(o) + '\n')
