"""Development: run many units in parallel. batch.py [-all] GLOB... ; prints bad ones"""
import sys, os, time, fnmatch
import check, units, props
from engine import Prog
def names():
    units.get('bits:iterator.Next')
    import specs, api
    r = list(units.REG) + ['api:' + n for n in api.SPECS] + ['node:%s.%s' % (k, m) for k in units.ALLKINDS for m in props.ALLM + ('Reduce',)]
    return list(dict.fromkeys(r))
if __name__ == '__main__':
    check.PROG = Prog(os.environ.get('SSA', '/tmp/ssa.json'))
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    al = names()
    sel = al if '-all' in sys.argv else [n for n in al if any(n == p or fnmatch.fnmatch(n, p.replace('[', '[[]')) for p in pats)]
    for a in sys.argv[1:]:
        if a.startswith('-p='):
            sel += units.closure(props.PROPS[a[3:]]['units'], check.PROG)
    t0 = time.time()
    out = check.run_units(sel, 10, 8, time.time() + 1500)
    bad = 0; n = 0
    for r in sorted(out, key=lambda r: r['unit']):
        n += len(r['obls'])
        if r['error']: bad += 1; print(r['unit'], 'ERROR', r['error'], '%.1f' % r['time'])
        for o in r['obls']:
            if not o['ok']: bad += 1; print(r['unit'], o['status'], o['tag'], o['name'], o['pos'], '%.1f' % o['time'])
    out.sort(key=lambda r: -r['time'])
    print('%d units, %d obligations, %d bad, %.0f s wall, %.0f cpu; slowest: %s' % (len(out), n, bad, time.time() - t0, sum(r['time'] for r in out), ' '.join('%s %.0f' % (r['unit'], r['time']) for r in out[:12])))
