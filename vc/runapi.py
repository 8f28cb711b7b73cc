import sys, os, time, traceback
import engine, api, units, specs
from engine import *
import verify as V
if __name__ == '__main__':
    prog = Prog(os.environ.get('SSA', '/tmp/ssa.json'))
    names = [a for a in sys.argv[1:] if not a.startswith('-')]
    dbg = '-d' in sys.argv
    if '-all' in sys.argv: names = list(api.SPECS)
    tot = 0
    for n in names:
        for m in [k for k in api.SPECS if k == n or (n.endswith('*') and k.startswith(n[:-1]))]:
            t = time.time()
            try:
                u = api.ApiUnit(m)
                if 'make' in u.spec.__dict__ and u.spec.make: u = u.spec.make()
                eng = u.build(prog, dbg)
            except Exception as e:
                print('ERROR', m, type(e).__name__, e)
                if '-t' in sys.argv: traceback.print_exc()
                continue
            bad = 0; nt = 0
            for o in eng.obls:
                g = z3.simplify(o.goal)
                if z3.is_true(g) or z3.is_false(z3.simplify(o.guard)): nt += 1; continue
                t1 = time.time()
                r, sol = units.attempts(o, 4, time.time() + 20)
                tt = time.time() - t1
                if r != z3.unsat or tt > 2 or '-v' in sys.argv:
                    print('   %-8s %5.2f %-5s %s %s' % (r, tt, o.tag, o.name, o.pos))
                    if '-m' in sys.argv and r != z3.unsat: print(units.excerpt(sol))
                if r != z3.unsat: bad += 1
            v = units.vacuity(eng, time.time() + 10)
            if v and not v['ok']: print('   VACUOUS'); bad += 1
            print('%-28s %3d obls (%d trivial) %d bad, %.1fs' % (m, len(eng.obls), nt, bad, time.time() - t))
            tot += bad
    print('bad', tot)
