"""Verify many functions in parallel processes."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_run = None


def job(task):
    kind, name, limit = task
    t0 = time.time()
    import logic as L
    s0 = (L.Stats.queries, L.Stats.time, L.Stats.unknown)
    out = {'name': name, 'kind': kind}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        out.update(theorems(name) if kind == 'theorems' else _run.verify_job(kind, name))
    except Timeout:
        out['err'] = 'time limit of %d s reached' % limit
    except RecursionError:
        out['err'] = 'recursion limit'
    except Exception as e:
        out['err'] = 'verifier: %s: %s' % (type(e).__name__, str(e)[:300])
        out['tb'] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out['time'] = round(time.time() - t0, 2)
    out['queries'] = L.Stats.queries - s0[0]
    out['solver_time'] = round(L.Stats.time - s0[1], 2)
    out['unknown'] = L.Stats.unknown - s0[2]
    return out


def theorems(prop):
    """the theorems of a property: what they define and add is of no use to the functions, whose contracts they are about"""
    import logic as L
    import lemmas
    saved, known = [(d, dict(d)) for d in (L.RULES, L.FOLDS)], set(lemmas.LOG)
    try:
        lemmas.theorems(_run.s, prop)
        return {'log': {k: v for k, v in lemmas.LOG.items() if k not in known}}
    finally:
        for d, old in saved:
            d.clear()
            d.update(old)
        lemmas.forget()


def run_all(run, tasks, procs=8, report=None):
    global _run
    _run = run
    ctx = mp.get_context('fork')
    res = []
    with ctx.Pool(procs, maxtasksperchild=12) as pool:
        for r in pool.imap_unordered(job, tasks, chunksize=1):
            res.append(r)
            if report:
                report(r)
    return res


if __name__ == '__main__':
    import driver
    import contracts as C
    r = driver.Run(os.environ.get('SSA', '/tmp/ssa.json'))
    r.exec()
    pats = sys.argv[1:]
    skip = os.environ.get('SKIP')
    names = [n for n in C.CONTRACTS if C.CONTRACTS[n].applicable(r.p, n) and not (skip and skip in n) and (not pats or any(p in n for p in pats))]
    t0 = time.time()

    def rep(o):
        bad = [x for x in o.get('obs', []) if not x['ok']]
        ok = not bad and not o.get('err')
        if ok and len(names) > 40 and o['time'] < 5:
            return
        print('%-75s %s %.1fs %dq obl=%d %s' % (o['name'].replace('github.com/go-andiamo/', ''), 'OK' if ok else 'FAIL', o['time'], o['queries'], len(o.get('obs', [])), o.get('err', '')), flush=True)
        for x in bad:
            print('      ', x['kind'], x['name'], x['pos'], x['n'], x['proved'])
    res = run_all(r, [('fn', n, 280) for n in sorted(names, key=lambda n: -C.WEIGHT.get(n, 1))], int(os.environ.get('PROCS', '8')), rep)
    bad = [o for o in res if o.get('err') or any(not x['ok'] for x in o['obs'])]
    print('%d functions, %d failed, %.1fs wall, %.1fs cpu' % (len(res), len(bad), time.time() - t0, sum(o['time'] for o in res)))
