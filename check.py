#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree.

1. exports the SSA form of the packages of /repo (ssadump, rebuilt from source when missing)
2. proves the obligations of every function under contract that the property depends on
   (verifier/), and the lemmas between its specification functions
3. runs the executable oracle (replay/) on the real code, as a bounded cross-check and to find
   a concrete failing input when an obligation fails
4. writes evidence/<property>.json; prints VIOLATION lines and exits 1 if anything failed
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'verifier'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
T0 = time.time()


def goenv():
    env = dict(os.environ)
    if os.path.exists('/opt/vp/env.sh'):
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True, env=env).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                env[k.decode('utf8', 'replace')] = v.decode('utf8', 'replace')
    env.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOWORK='off')
    return env


def newest(d, ext):
    return max(os.path.getmtime(os.path.join(d, f)) for f in os.listdir(d) if f.endswith(ext))


def build_ssadump(env):
    exe, src = os.path.join(BUILD, 'ssadump'), os.path.join(HERE, 'ssadump')
    if not os.path.exists(exe) or os.path.getmtime(exe) < newest(src, '.go'):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=src, env=env, check=True)
        os.replace(tmp, exe)
    return exe


def build_replay(env, race=False):
    """the oracle is linked with /repo's current source, so it is always built"""
    d = tempfile.mkdtemp(prefix='verif-replay-')
    exe = os.path.join(d, 'replay')
    src = os.path.join(HERE, 'replay')
    mod = os.path.join(d, 'go.mod')
    txt = open(os.path.join(src, 'go.mod')).read().replace('=> /repo', '=> ' + REPO)
    open(mod, 'w').write(txt)
    sums = open(os.path.join(src, 'go.sum')).read()
    try:
        sums += open(os.path.join(REPO, 'go.sum')).read()
    except OSError:
        pass
    open(os.path.join(d, 'go.sum'), 'w').write(sums)
    p = subprocess.run(['go', 'build', '-modfile', mod, '-o', exe] + (['-race'] if race else []) + ['.'], cwd=src, env=env, capture_output=True, text=True)
    return (exe if p.returncode == 0 else None), p.stderr, d


def start_replay(prop, tier, seed, env, out):
    """build and run in a child process; returns the process"""
    secs = {'quick': 25, 'thorough': 240}[tier]
    pid = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--replay', prop, tier, str(seed), str(secs), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return pid


def run_oracles(exe, prop, seed, secs, out, env):
    """several at once, with seeds of their own; the first failure counts"""
    ps = []
    for i in range(4):
        s = str(int(seed) + 1000 * i)
        f = tempfile.TemporaryFile('w+')
        e = tempfile.TemporaryFile('w+')
        ps.append((s, '%s.%d' % (out, i), f, e, subprocess.Popen([exe, '-prop', prop, '-seed', s, '-time', secs, '-out', '%s.%d' % (out, i)], env=env, stdout=f, stderr=e)))
    end = time.time() + float(secs) + 200
    try:
        while time.time() < end and any(p[4].poll() is None for p in ps) and not any(p[4].poll() not in (None, 0) for p in ps):
            time.sleep(0.1)
        codes = [p[4].poll() for p in ps]
        if not any(codes) and None in codes:
            print('the oracle did not finish')
            return 4
        # one that ended by itself, with a failure if there is one
        bad = [i for i, c in enumerate(codes) if c]
        cases, distinct = 0, 0
        for s, o, f, e, p in ps:
            f.seek(0)
            for l in f.read().splitlines():
                if l.startswith('STATS '):
                    st = json.loads(l[6:])
                    cases, distinct = cases + st.get('cases', 0), distinct + st.get('distinct_nontrivial', 0)
        s, o, f, e, p = ps[bad[0] if bad else 0]
        code = codes[bad[0]] if bad else 0
        f.seek(0)
        e.seek(0)
        txt, err = f.read(), e.read()
        if not bad:
            st.update(cases=cases, distinct_nontrivial=distinct)
            txt = 'STATS ' + json.dumps(st)
        print(txt[-6000:])
        if code == 1 and os.path.exists(o):
            os.replace(o, out)
        elif code not in (0, 1, 3):
            # the process died (e.g. concurrent map writes): that is a failing run of the real code
            txt = 'the run of the real code died (exit %d)\n%s\n%s\nagain: %s\n' % (code, txt[-2000:], err[-6000:], '/verif/replay.sh %s -seed %s' % (prop, s))
            open(out, 'w').write(txt)
            print(txt)
            code = 1
        return code
    finally:
        for s, o, f, e, p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
            if os.path.exists(o):
                os.remove(o)


def run_replay(prop, tier, seed, secs, out):
    env = goenv()
    exe, err, d = build_replay(env)
    code = 0
    try:
        if exe is None:
            print('BUILDFAIL', err[-1500:])
            code = 3
        else:
            code = run_oracles(exe, prop, seed, secs, out, env)
    except subprocess.TimeoutExpired:
        print('the oracle did not finish')
        code = 4
    finally:
        subprocess.run(['rm', '-rf', d])
    sys.exit(code)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    env = goenv()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    outdir = os.path.join(HERE, 'replays')
    os.makedirs(outdir, exist_ok=True)
    rfile = os.path.join(outdir, prop + '.input.txt')
    pfile = os.path.join(outdir, prop + '.obligations.txt')
    for f in (rfile, pfile):
        if os.path.exists(f):
            os.remove(f)
    # compile first: without code there is nothing to check
    p = subprocess.run(['go', 'build', './...'], cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode:
        print('the code in %s does not compile:\n%s' % (REPO, p.stderr))
        sys.exit(2)
    exe = build_ssadump(env)
    rp = start_replay(prop, tier, seed, env, rfile)
    fd, ssa = tempfile.mkstemp(prefix='verif-ssa-')
    os.close(fd)
    try:
        with open(ssa, 'w') as f:
            subprocess.run([exe, REPO], stdout=f, env=env, check=True)
        import prove
        res = prove.decide(ssa, prop, tier, seed, lambda: rp.poll() == 1)
    finally:
        os.remove(ssa)
    rout = rp.communicate()[0]
    rcode = rp.returncode
    stats = {}
    for l in rout.splitlines():
        if l.startswith('STATS '):
            stats = json.loads(l[6:])
    violations = 0
    if res['failed']:
        with open(pfile, 'w') as f:
            f.write('property %s: %d obligations are not proved\n' % (prop, len(res['failed'])))
            f.write('again: cd /verif && python3-vt check.py %s %s\n\n' % (prop, tier))
            for o in res['failed']:
                f.write(o + '\n')
    known = 'held' if rcode == 0 else 'failing input found' if rcode == 1 else 'no suite' if rcode == 3 and 'no suite' in rout else 'did not run'
    if rcode == 1:
        violations = 1
        if res['failed']:
            with open(rfile, 'a') as f:
                f.write('\n\nobligations not proved:\n' + '\n'.join(res['failed']))
        print(rout[-4000:])
        for o in res['failed'][:20]:
            print('not proved:', o.split('\n')[0])
        print('VIOLATION property=%s replay=%s' % (prop, rfile))
    elif res['failed']:
        violations = 1
        for o in res['failed'][:20]:
            print('not proved:', o.split('\n')[0])
        if known == 'did not run':
            print('oracle:', rout[-800:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, pfile))
    elif known == 'did not run':
        print('note: the executable oracle did not run:', rout[-800:])
    for l in prove.known_findings(HERE, prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, l))
    cov = res['coverage']
    cov['executable_oracle'] = {'label': 'bounded cross-check on the real code, not counted as proof', 'outcome': known, 'seed': seed,
                                'cases': stats.get('cases', 0), 'distinct_nontrivial_cases': stats.get('distinct_nontrivial', 0), 'samples': stats.get('samples', [])[:3]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': res['assumptions'],
          'wall_s': round(time.time() - T0, 1), 'violations': violations}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d of %d obligations proved in %d functions, %d lemmas; oracle %s (%s cases); %.1f s' % (
        prop, cov['discharged'], cov['obligations'], len(cov['functions']), len(cov['lemmas']), known, stats.get('cases', 0), time.time() - T0))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same order of facts, and so the same queries, on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    if sys.argv[1] == '--replay':
        run_replay(*sys.argv[2:7])
    main()
