#!/usr/bin/env python3
"""tryref.py FILE.py [ids]: apply edits that keep the behaviour and see what is still proved (scratch copies)
REPLACE ALL occurrences of each edit.  FULL=1: with GenerateCode"""
import os, subprocess, sys, tempfile, shutil, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for id, edits in R:
    if only and id not in only:
        continue
    tmp = tempfile.mkdtemp(prefix='ref-')
    w = os.path.join(tmp, 'w')
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if old not in s:
                raise SystemExit('%s: %r not in %s' % (id, old, f))
            open(p, 'w').write(s.replace(old, new))
        t = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; gofmt -w . ; go vet . ./css ./html ./htmx ./svg ./context 2>&1 | grep -v _test | head -5; go test ./... 2>&1 | grep -v "^ok\\|no test files"'], cwd=w, capture_output=True, text=True)
        if t.stdout.strip():
            print(id, 'TESTS', t.stdout[:800], flush=True)
            if os.environ.get('NOTEST') is None and '[build failed]' in t.stdout and 'undefined' in t.stdout and '_test.go' not in t.stdout:
                continue
        if os.environ.get('BUILDONLY'):
            continue
        ssa = os.path.join(tmp, 'ssa.json')
        with open(ssa, 'w') as o:
            subprocess.run(['bash', '-c', '. /opt/vp/env.sh; %s/.build/ssadump %s' % (here, w)], stdout=o)
        t0 = time.time()
        e = dict(os.environ, SSA=ssa, SKIP='' if os.environ.get('FULL') else 'GenerateCode')
        r = subprocess.run(['python3-vt', 'par.py'] + os.environ.get('ONLY', '').split(), cwd=here + '/verifier', env=e, capture_output=True, text=True)
        bad = [l for l in r.stdout.splitlines() if ' OK ' not in l]
        print('%-24s %4.0fs %s' % (id, time.time() - t0, bad[-1] if bad else r.stderr[-500:]), flush=True)
        for l in bad[:-1]:
            print('      ', l[:200], flush=True)
    finally:
        shutil.rmtree(tmp)
