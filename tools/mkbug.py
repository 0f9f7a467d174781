#!/usr/bin/env python3
"""mkbug.py SPEC.py: make seeded/<id>/ from a description and confirm it (scratch copy of /repo)
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], test=go test source, needs, breaks, pkg='.')]"""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]
BUGS = []
exec(open(sys.argv[1]).read())
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated use
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd)
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{\\"$repo/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$ov"
go test -vet=off -count=1 -overlay "$ov" -run 'TestZZDemo' ./%(pkg)s
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **kw)


for b in BUGS:
    if only and b['id'] not in only:
        continue
    d = os.path.join(os.environ.get('SEEDED', os.path.join(here, 'seeded')), b['id'])
    tmp = tempfile.mkdtemp(prefix='bug-')
    w = os.path.join(tmp, 'w')
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    try:
        for f, old, new in b['edits']:
            s = open(os.path.join(w, f)).read()
            if s.count(old) != b.get('count', 1):
                raise SystemExit('%s: %d occurrences of %r in %s' % (b['id'], s.count(old), old, f))
            open(os.path.join(w, f), 'w').write(s.replace(old, new))
        sh('gofmt -w .', w)
        diff = sh('git diff', w).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'pkg': b.get('pkg', '.')})
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo_test.go'), 'w').write(b['test'])
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh('go build ./... && go test ./... 2>&1 | tail -30', w)
        ok_tests = r.returncode == 0 and 'FAIL' not in r.stdout
        bad = sh('bash %s/demo.sh' % d, w)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w)
        good = sh('bash %s/demo.sh' % d, w)
        base = sh('git fetch -q /repo && for f in $(git diff --name-only b23ef3d HEAD); do :; done', w)
        st = 'ok' if ok_tests and bad.returncode != 0 and good.returncode == 0 else 'NOT CONFIRMED'
        print('%-28s %s  tests=%s demo(bug)=%d demo(clean)=%d' % (b['id'], st, 'pass' if ok_tests else 'FAIL', bad.returncode, good.returncode))
        if st != 'ok':
            print(r.stdout[-1500:], r.stderr[-800:], bad.stdout[-800:], good.stdout[-800:])
    finally:
        shutil.rmtree(tmp)
