"""Development runner: python3-vt rununit.py [-v] UNIT..."""
import sys, time, os, traceback
import units
from engine import Prog, Unsupported
prog = Prog(os.environ.get('SSA', '/tmp/ssa.json'))
for a in sys.argv[1:]:
    if a.startswith('-'): continue
    u = units.get(a)
    t = time.time(); n = bad = 0
    try:
        for r in u.run(prog, 10, time.time() + 600):
            n += 1
            if not r['ok']: bad += 1
            if '-v' in sys.argv or not r['ok']: print('  ', r['ok'], r['status'], r['tag'], r['name'], r['pos'], '%.1fs' % r['time'])
            if not r['ok'] and '-m' in sys.argv: print('      ', r.get('model'))
        print('%s: %d obligations, %d bad, %.1fs' % (a, n, bad, time.time() - t))
    except Unsupported as e:
        print('%s: UNSUPPORTED %s' % (a, e))
        if '-t' in sys.argv: traceback.print_exc()
